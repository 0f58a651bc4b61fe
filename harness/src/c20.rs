//! Constructors, the serial, splitting and putting together again.
use crate::{build, c12, msg, parts, sx, wire};
use bytes::Bytes;
use dbus_message_parser::{
    message::Message,
    value::{Type, Value},
};

fn round(m: &Message, want: &wire::Msg, fds: Option<u32>) {
    let d = c12::differs(m, want);
    sx::check(d == 0, d);
    match m.encode_with_fds() {
        Ok((e, out)) => match Message::decode_with_fds(Bytes::from(e.to_vec()), &out) {
            Ok((o, n, used)) => {
                sx::check(n == e.len(), 31);
                sx::check(used as u32 == fds.unwrap_or(0), 32);
                sx::check(build::same_all(m.get_body(), o.get_body()), 33);
                if fds.is_none() {
                    let d = c12::differs(&o, want);
                    sx::check(d == 0, d);
                }
                sx::reach(1);
            }
            Err(_) => sx::check(false, 34),
        },
        Err(_) => sx::check(false, 35),
    }
}
/// params: 0: method call, 1: signal, 2: get, 3: set, 4: get all, patterns of the path, the
/// interface, the member and the destination, longest property name, signature of the value, how many variants
/// are around it.
pub fn h_c20_make() {
    let what = sx::param(0);
    let mut texts = Vec::new();
    for i in 1..5 {
        let p = sx::param_bytes(i);
        texts.push(build::fill(unsafe { std::str::from_utf8_unchecked(&p) }));
    }
    let (path, iface, member, dest) = (&texts[0], &texts[1], &texts[2], &texts[3]);
    let property = build::utf8(if what == 2 || what == 3 { sx::pick(sx::param(5) + 1) } else { 0 });
    let mut fields = wire::Fields::default();
    fields.text[1] = Some(path.clone());
    let mut body = Vec::new();
    let mut fds = 0;
    let (p, i, d) = (parts::path(path), parts::interface(iface), || parts::bus(dest));
    let mut m = match what {
        0 => Message::method_call(d(), p, i, parts::member(member)),
        1 => Message::signal(p, i, parts::member(member)),
        2 => Message::property_get(d(), p, i, &build::string(&property)),
        3 => {
            let mut t = wire::signature(&sx::param_bytes(6)).unwrap().remove(0);
            let g = build::Gen { strings: 1, arrays: 1, variants: parts::MENUS[0] };
            let (mut v, mut c) = build::value(&t, &g);
            if let wire::V::Fd(_) = v {
                fds = 1;
            }
            for _ in 0..sx::param(7) {
                v = wire::V::Var(t, Box::new(v));
                t = wire::T::B(b'v');
                c = Value::Variant(Box::new(c));
            }
            body.push(wire::V::Var(t, Box::new(v)));
            Message::property_set(d(), p, i, &build::string(&property), c)
        }
        _ => Message::properties_get_all(d(), p, i),
    };
    if what != 1 {
        fields.text[6] = Some(dest.clone());
    }
    if what < 2 {
        fields.text[2] = Some(iface.clone());
        fields.text[3] = Some(member.clone());
    } else {
        fields.text[2] = Some(b"org.freedesktop.DBus.Properties".to_vec());
        fields.text[3] = Some([&b"Get"[..], b"Set", b"GetAll"][what - 2].to_vec());
        let mut ts = vec![wire::T::B(b's')];
        let mut b = vec![wire::V::Str(b's', iface.clone())];
        if what < 4 {
            ts.push(wire::T::B(b's'));
            b.push(wire::V::Str(b's', property));
        }
        if what == 3 {
            ts.push(wire::T::B(b'v'));
        }
        b.extend(body.drain(..));
        body = b;
        fields.signature = Some(ts);
    }
    let serial = sx::u32();
    m.set_serial(serial);
    let want = wire::Msg {
        le: true,
        kind: if what == 1 { 4 } else { 1 },
        flags: (what == 1) as u8,
        version: 1,
        serial,
        fields,
        body,
        len: 0,
        used_fds: 0,
    };
    round(&m, &want, if fds == 0 { None } else { Some(fds) });
}
/// params: message type, which fields (see parts::header), signature of the body.
pub fn h_c20_split() {
    let kind = sx::param(0) as u8;
    let how = sx::param_bytes(1);
    let ts = wire::signature(&sx::param_bytes(2)).unwrap();
    let g = build::Gen { strings: 1, arrays: 1, variants: parts::MENUS[0] };
    let (vs, cs) = build::values(&ts, &g);
    let mut h = parts::header(kind, &how);
    match sx::pick(3) {
        0 => {}
        1 => h.fields.signature = Some(vec![dbus_message_parser::value::Type::Double]),
        _ => h.fields.signature = Some(Vec::new()),
    }
    let mut m = h.message(Vec::new());
    // values are added in order
    for c in cs {
        m.add_value(c);
    }
    let had = m.clone();
    let serial = sx::u32();
    m.set_serial(serial);
    sx::check(m.get_serial() == serial, 36);
    h.serial = serial;
    let types: Vec<_> = ts.iter().map(build::to_type).collect();
    let want = h.expect(ts, vs, None, 0);
    // accessors, header by split
    let d = c12::differs(&m, &want);
    sx::check(d == 0, d);
    let (head, body) = match m.clone().split() {
        Ok(x) => x,
        Err(_) => {
            sx::check(false, 37);
            return;
        }
    };
    sx::check(build::same_all(&body, had.get_body()), 38);
    sx::check(
        match head.get_signature() {
            Some(s) => !types.is_empty() && s == &types[..] && head.has_signature(),
            None => types.is_empty() && !head.has_signature(),
        },
        39,
    );
    sx::check(
        head.get_serial() == serial
            && head.get_type() == c12::kind(kind)
            && head.get_path() == m.get_path()
            && head.get_interface() == m.get_interface()
            && head.get_member() == m.get_member()
            && head.get_error_name() == m.get_error_name()
            && head.get_destination() == m.get_destination()
            && head.get_sender() == m.get_sender()
            && head.get_reply_serial() == m.get_reply_serial()
            && head.get_unix_fds() == m.get_unix_fds(),
        40,
    );
    sx::check(
        head.has_path() == m.has_path()
            && head.has_interface() == m.has_interface()
            && head.has_member() == m.has_member()
            && head.has_error_name() == m.has_error_name()
            && head.has_destination() == m.has_destination()
            && head.has_sender() == m.has_sender()
            && head.has_reply_serial() == m.has_reply_serial()
            && head.has_unix_fds() == m.has_unix_fds(),
        41,
    );
    let again = Message::new(head, body);
    match (m.encode_with_fds(), again.encode_with_fds()) {
        (Ok((a, f)), Ok((b, g))) => {
            sx::check(a == b && f == g, 42);
            sx::observe(a.len() as u64);
            sx::reach(2);
        }
        _ => sx::check(false, 43),
    }
    // the serial is where it belongs, and nothing else changed
    if let (Ok(a), Ok(b)) = (m.encode(), had.encode()) {
        sx::check(a.len() == b.len() && a[..8] == b[..8] && a[12..] == b[12..], 44);
        let s = [a[8], a[9], a[10], a[11]];
        let s = if want.le { u32::from_le_bytes(s) } else { u32::from_be_bytes(s) };
        sx::check(s == serial, 45);
    }
    let _: &[Value] = m.get_body();
}
/// Signals, calls and replies with long names.  params: 0: path, 1: interface, 2: member,
/// 3: destination, 4: property, length.
pub fn h_c20_long() {
    let (what, n) = (sx::param(0), sx::param(1));
    let long = |pre: &[u8]| {
        let mut s = pre.to_vec();
        while s.len() < n {
            s.push(b'x');
        }
        let last = s.len() - 1;
        s[last] = build::letter();
        s
    };
    let path = if what == 0 { long(b"/x") } else { b"/".to_vec() };
    let iface = if what == 1 { long(b"i.f") } else { b"i.f".to_vec() };
    let dest = if what == 3 { long(b":1.0") } else { b"d.e".to_vec() };
    let prop = if what == 4 { long(b"p") } else { b"p".to_vec() };
    let mut m = if what == 2 {
        Message::method_call(parts::bus(&dest), parts::path(&path), parts::interface(&iface), parts::member(&long(b"m")))
    } else {
        Message::property_get(parts::bus(&dest), parts::path(&path), parts::interface(&iface), &build::string(&prop))
    };
    let serial = sx::u32();
    m.set_serial(serial);
    match m.encode().map(|e| Message::decode(Bytes::from(e.to_vec()))) {
        Ok(Ok((o, _))) => {
            sx::check(o.get_path() == m.get_path() && o.get_path().map(|p| p.as_ref().as_bytes()) == Some(&path[..]), 46);
            sx::check(o.get_interface() == m.get_interface() && o.get_member() == m.get_member(), 47);
            sx::check(o.get_destination() == m.get_destination() && o.get_serial() == serial, 48);
            sx::check(build::same_all(m.get_body(), o.get_body()), 49);
            sx::reach(3);
        }
        _ => sx::check(false, 50),
    }
}
/// Bodies of many values: splitting keeps all of them, and the message can be sent as long as its
/// signature is not too long.  params: number of values, 1 to split and put together first.
pub fn h_c20_many() {
    let n = sx::param(0);
    let b = sx::u8();
    let mut m = msg::method_return();
    for i in 0..n {
        m.add_value(Value::Byte(b.wrapping_add(i as u8)));
    }
    let full = |t: &[Type]| t.len() == n && t.iter().all(|t| *t == Type::Byte);
    sx::check(matches!(m.get_signature(), Ok(s) if full(&s)), 51);
    if sx::param(1) == 1 {
        match m.split() {
            Ok((h, body)) => {
                sx::check(matches!(h.get_signature(), Some(s) if full(s)), 39);
                sx::check(body.len() == n && body.iter().enumerate().all(|(i, v)| *v == Value::Byte(b.wrapping_add(i as u8))), 38);
                m = Message::new(h, body);
            }
            Err(_) => {
                sx::check(false, 37);
                return;
            }
        }
    }
    let e = m.encode();
    sx::check(e.is_ok() == (n <= 255), 52);
    match e {
        Ok(e) => {
            sx::reach(4);
            match Message::decode(Bytes::from(e.to_vec())) {
                Ok((d, _)) => sx::check(d.get_body() == m.get_body(), 33),
                Err(_) => sx::check(false, 34),
            }
        }
        Err(_) => sx::reach(5),
    }
}
