//! Replies.
use crate::{build, c12, parts, sx, wire};
use bytes::Bytes;
use dbus_message_parser::message::Message;

/// How the reply is asked for.
fn ask(m: &Message, via: usize, which: usize, name: &[u8], text: &[u8]) -> (Option<Message>, bool) {
    let s = || build::string(text);
    let e = || parts::error(name);
    if via == 1 {
        let h = m.clone().split().unwrap().0;
        match which {
            0 => match h.method_return() {
                Ok(r) => (Some(r), true),
                Err(r) => (Some(r), false),
            },
            1 => (Some(h.error(e(), s())), false),
            2 => (Some(h.unknown_property(&s())), false),
            3 => (h.unknown_path(), false),
            4 => (h.unknown_interface(), false),
            5 => (h.unknown_member(), false),
            _ => (Some(h.invalid_args(s())), false),
        }
    } else {
        match which {
            0 => match m.method_return() {
                Ok(r) => (Some(r), true),
                Err(r) => (Some(r), false),
            },
            1 => (Some(m.error(e(), s())), false),
            2 => (Some(m.unknown_property(&s())), false),
            3 => (m.unknown_path(), false),
            4 => (m.unknown_interface(), false),
            5 => (m.unknown_member(), false),
            _ => (Some(m.invalid_args(s())), false),
        }
    }
}
fn ends_with(a: &[u8], b: &[u8]) -> bool {
    a.len() >= b.len() && a[a.len() - b.len()..] == *b
}

/// params: message type, which fields (see parts::header), 0: the message, 1: its header, 2: the
/// message after decoding, which reply, signature of the body.
pub fn h_c19_reply() {
    let kind = sx::param(0) as u8;
    let how = sx::param_bytes(1);
    let (via, which) = (sx::param(2), sx::param(3));
    let ts = wire::signature(&sx::param_bytes(4)).unwrap();
    let h = parts::header(kind, &how);
    let g = build::Gen { strings: 1, arrays: 1, variants: parts::MENUS[0] };
    let (_, cs) = build::values(&ts, &g);
    let mut m = h.message(cs);
    if via == 2 {
        let (e, fds) = m.encode_with_fds().unwrap();
        m = Message::decode_with_fds(Bytes::from(e.to_vec()), &fds).unwrap().0;
    }
    let before = m.clone();
    let name = build::fill("e?.Name");
    let text = build::utf8(if which == 1 || which == 2 || which == 6 { sx::pick(3) } else { 0 });
    let (got, returned) = ask(&m, via, which, &name, &text);
    // the message that is answered stays as it was; the body may hold doubles
    sx::check(build::same_all(m.get_body(), before.get_body()), 31);
    let expected = match which {
        3 => h.want.text[1].is_some(),
        4 => h.want.text[2].is_some(),
        5 => h.want.text[3].is_some(),
        _ => true,
    };
    sx::check(got.is_some() == expected, 32);
    sx::check(returned == (which == 0 && kind == 1), 33);
    let mut r = match got {
        Some(r) => r,
        None => {
            sx::reach(1);
            return;
        }
    };
    let serial = sx::u32();
    r.set_serial(serial);
    let mut fields = wire::Fields::default();
    fields.reply_serial = Some(h.serial);
    fields.text[6] = h.want.text[7].clone();
    fields.text[7] = h.want.text[6].clone();
    let mut body = Vec::new();
    if !returned {
        let names: [&[u8]; 7] = [
            b"MessageType",
            b"",
            b"UnknownProperty",
            b"UnknownPath",
            b"UnknownInterface",
            b"UnknownMember",
            b"InvalidArgs",
        ];
        let mut n = b"org.freedesktop.DBus.Error.".to_vec();
        n.extend_from_slice(names[which]);
        fields.text[4] = Some(if which == 1 { name } else { n });
        // the text is what was given, or names what is unknown
        let said: Vec<u8> = match r.get_body() {
            [dbus_message_parser::value::Value::String(s)] => s.as_bytes().to_vec(),
            _ => {
                sx::check(false, 34);
                return;
            }
        };
        sx::check(
            match which {
                1 | 6 => said == text,
                2 => ends_with(&said, &text),
                3 => ends_with(&said, h.want.text[1].as_ref().unwrap()),
                4 => ends_with(&said, h.want.text[2].as_ref().unwrap()),
                5 => ends_with(&said, h.want.text[3].as_ref().unwrap()),
                _ => true,
            },
            35,
        );
        fields.signature = Some(vec![wire::T::B(b's')]);
        body.push(wire::V::Str(b's', said));
    }
    let want = wire::Msg {
        le: h.le,
        kind: if returned { 2 } else { 3 },
        flags: 1,
        version: 1,
        serial,
        fields,
        body,
        len: 0,
        used_fds: 0,
    };
    let d = c12::differs(&r, &want);
    sx::check(d == 0, d);
    match r.encode() {
        Ok(e) => match Message::decode(Bytes::from(e.to_vec())) {
            Ok((o, n)) => {
                sx::check(n == e.len(), 36);
                let d = c12::differs(&o, &want);
                sx::check(d == 0, d);
                sx::reach(if returned { 2 } else { 3 });
            }
            Err(_) => sx::check(false, 37),
        },
        Err(_) => sx::check(false, 38),
    }
}
/// Error texts of any length, and long names.  params: which reply, length.
pub fn h_c19_long() {
    let n = sx::param(1);
    let h = parts::header(1, b"11100110");
    let m = h.message(Vec::new());
    let mut text = vec![b't'; n];
    if n > 0 {
        text[n - 1] = build::letter();
    }
    let r = match sx::param(0) {
        1 => m.error(parts::error(&build::fill("e?.F")), build::string(&text)),
        2 => m.unknown_property(&build::string(&text)),
        _ => m.invalid_args(build::string(&text)),
    };
    match r.encode().map(|e| (e.len(), Message::decode(Bytes::from(e.to_vec())))) {
        Ok((l, Ok((o, k)))) => {
            sx::check(l == k, 36);
            sx::check(build::same_all(r.get_body(), o.get_body()), 39);
            let said = match o.get_body() {
                [dbus_message_parser::value::Value::String(s)] => s.as_bytes().to_vec(),
                _ => Vec::new(),
            };
            sx::check(ends_with(&said, &text), 35);
            sx::reach(4);
        }
        _ => sx::check(false, 38),
    }
}
