//! File descriptors.
use crate::{build, msg, parts, sx, wire};
use bytes::Bytes;
use dbus_message_parser::message::Message;

/// The body is symbolic, decoded with a list of symbolic descriptors.  params: signature, template
/// of the body, 1 for little endian, length of the list.
pub fn h_c15_decode() {
    decode(false);
}
/// The same, with any number of descriptors in the header.
pub fn h_c15_declared() {
    decode(true);
}
fn decode(declared: bool) {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    let le = sx::param(2) == 1;
    let fds: Vec<i32> = (0..sx::param(3)).map(|_| sx::u32() as i32).collect();
    let b = if declared {
        let mut w = msg::begin(le, 2, 0, 1, sx::u32(), body.len() as u32);
        let first = sx::bool();
        if first {
            msg::u32_field(&mut w, 9, sx::u32());
        }
        msg::u32_field(&mut w, 5, sx::u32());
        if !sig.is_empty() {
            msg::sig_field(&mut w, &sig);
        }
        if !first {
            msg::u32_field(&mut w, 9, sx::u32());
        }
        msg::finish(w, &body)
    } else {
        msg::with_body(le, &sig, &body)
    };
    let got = Message::decode_with_fds(Bytes::from(b.clone()), &fds);
    let want = wire::message(&b, &fds);
    sx::observe(got.is_ok() as u64);
    match (got, want) {
        (Ok((m, n, used)), Some(w)) => {
            sx::check(n == w.len, 1);
            sx::check(used == w.used_fds, 2);
            sx::check(wire::same_all(&w.body, m.get_body()), 3);
            sx::reach(1);
        }
        (Err(_), None) => sx::reach(2),
        (Ok(_), None) => sx::check(false, 4),
        (Err(_), Some(_)) => sx::check(false, 5),
    }
    if fds.is_empty() {
        // the same without a list
        let a = Message::decode(Bytes::from(b.clone())).is_ok();
        sx::check(a == wire::message(&b, &[]).is_some(), 6);
    }
}
/// Values with symbolic descriptors, encoded.  params: signature, longest array, menu of variants, 1 if
/// the header has a count of its own.
pub fn h_c15_encode() {
    let ts = wire::signature(&sx::param_bytes(0)).unwrap();
    let menu: &[&'static [&'static str]] = &[&["h"], &["(hh)", "h"], &["v", "h"], &["ah"]];
    let g = build::Gen { strings: 1, arrays: sx::param(1), variants: menu[sx::param(2)] };
    let h = parts::header(2, if sx::param(3) == 1 { b"00000001" } else { b"00000000" });
    let (vs, cs) = build::values(&ts, &g);
    let mut w = wire::W::new(h.le);
    for v in &vs {
        w.value(v);
    }
    let m = h.message(cs);
    let (e, fds) = match m.encode_with_fds() {
        Ok(e) => e,
        Err(_) => {
            sx::check(false, 10);
            return;
        }
    };
    sx::check(fds == w.fds, 11);
    let l = w.out.len();
    sx::check(e.len() >= l && e[e.len() - l..] == w.out[..], 12);
    match wire::message(&e, &fds) {
        Some(x) => {
            let count = if fds.is_empty() { h.want.fds } else { Some(fds.len() as u32) };
            sx::check(x.fields.fds == count, 13);
        }
        None => sx::check(false, 14),
    }
    match Message::decode_with_fds(Bytes::from(e.to_vec()), &fds) {
        Ok((d, n, used)) => {
            sx::check(n == e.len(), 15);
            sx::check(used == fds.len(), 16);
            sx::check(build::same_all(m.get_body(), d.get_body()), 17);
            sx::check(fds.is_empty() || d.get_unix_fds() == Some(fds.len() as u32), 18);
            // encoded again
            match d.encode_with_fds() {
                Ok((f, g)) => sx::check(f == e && g == fds, 19),
                Err(_) => sx::check(false, 19),
            }
        }
        Err(_) => sx::check(false, 20),
    }
    sx::reach(if fds.len() > 1 { 3 } else { 4 });
}
/// Many different descriptors and then any one.  params: how many, 0: in an array, 1: in structures,
/// 2: in variants.
pub fn h_c15_many() {
    use dbus_message_parser::value::{Array, Struct, Type, Value};
    let (n, how) = (sx::param(0), sx::param(1));
    let mut all: Vec<i32> = (0..n as i32).map(|i| i * 7 + 3).collect();
    let any = sx::u32() as i32;
    let mut m = msg::method_return();
    match how {
        0 => m.add_value(Value::Array(Array::new(all.iter().map(|f| Value::UnixFD(*f)).collect(), Type::UnixFD).unwrap())),
        1 => {
            let mut s: Vec<Value> = Vec::new();
            for c in all.chunks(60) {
                s.push(Value::Struct(std::convert::TryInto::<Struct>::try_into(c.iter().map(|f| Value::UnixFD(*f)).collect::<Vec<Value>>()).unwrap()));
            }
            s.into_iter().for_each(|v| m.add_value(v));
        }
        _ => all.iter().for_each(|f| m.add_value(Value::Variant(Box::new(Value::UnixFD(*f))))),
    }
    m.add_value(Value::UnixFD(any));
    let (e, fds) = match m.encode_with_fds() {
        Ok(e) => e,
        Err(_) => {
            sx::check(false, 24);
            return;
        }
    };
    let at = match all.iter().position(|f| *f == any) {
        Some(i) => {
            sx::reach(6);
            i
        }
        None => {
            sx::reach(7);
            all.push(any);
            n
        }
    };
    sx::check(fds == all, 25);
    sx::check(e.len() >= 4 && e[e.len() - 4..] == (at as u32).to_le_bytes(), 26);
    match Message::decode_with_fds(Bytes::from(e.to_vec()), &fds) {
        Ok((d, _, used)) => {
            sx::check(used == all.len(), 27);
            sx::check(d.get_body().last() == Some(&Value::UnixFD(any)), 27);
        }
        Err(_) => sx::check(false, 27),
    }
}
/// Two messages encoded one after the other do not share descriptors.
pub fn h_c15_twice() {
    let (a, b) = (sx::u32() as i32, sx::u32() as i32);
    use dbus_message_parser::value::Value;
    let mut m = msg::method_return();
    m.add_value(Value::UnixFD(a));
    let mut n = msg::method_return();
    n.add_value(Value::UnixFD(b));
    n.add_value(Value::UnixFD(a));
    let (_, x) = m.encode_with_fds().unwrap();
    let (_, y) = n.encode_with_fds().unwrap();
    sx::check(x == vec![a], 21);
    sx::check(y == if a == b { vec![b] } else { vec![b, a] }, 22);
    let (_, z) = msg::method_return().encode_with_fds().unwrap();
    sx::check(z.is_empty(), 23);
    sx::reach(5);
}
