use crate::{build, msg, sx};
use bytes::Bytes;
use dbus_message_parser::message::Message;

fn decode(b: &[u8]) -> Option<(Message, usize)> {
    Message::decode_with_fds(Bytes::from(b.to_vec()), &[3, 4]).ok().map(|(m, n, _)| (m, n))
}

/// The same without descriptors.
fn plain(b: &[u8]) -> Option<(Message, usize)> {
    Message::decode(Bytes::from(b.to_vec())).ok()
}

fn equal(a: &Message, b: &Message) -> bool {
    match (a.clone().split(), b.clone().split()) {
        (Ok((h, x)), Ok((i, y))) => h == i && build::same_all(&x, &y),
        _ => false,
    }
}

/// Everything the property says about the buffer `b`, with `extra` symbolic bytes after the message.
fn verify(b: &[u8], extra: usize) {
    let (m, n) = match decode(b) {
        Some(x) => x,
        None => {
            sx::reach(2);
            return;
        }
    };
    sx::observe(n as u64);
    sx::reach(1);
    sx::check(n >= 16 && n <= b.len(), 1);
    // the length that the message declares itself
    let word = |at: usize| {
        let w = [b[at], b[at + 1], b[at + 2], b[at + 3]];
        (if b[0] == b'l' { u32::from_le_bytes(w) } else { u32::from_be_bytes(w) }) as u64
    };
    sx::check(n as u64 == ((16 + word(12) + 7) & !7) + word(4), 10);
    let simple = plain(b);
    if let Some((o, k)) = &simple {
        sx::check(*k == n, 11);
        sx::check(equal(&m, o), 12);
        sx::reach(3);
    }
    match sx::pick(3) {
        // something else after the message
        0 => {
            let mut c = b[..n].to_vec();
            c.extend_from_slice(&sx::vec(extra));
            match decode(&c) {
                Some((o, k)) => {
                    sx::check(k == n, 2);
                    sx::check(equal(&m, &o), 3);
                }
                None => sx::check(false, 4),
            }
        }
        1 => {
            if simple.is_some() {
                let mut c = b[..n].to_vec();
                c.extend_from_slice(&sx::vec(extra));
                match plain(&c) {
                    Some((o, k)) => {
                        sx::check(k == n, 2);
                        sx::check(equal(&m, &o), 3);
                    }
                    None => sx::check(false, 4),
                }
            }
        }
        // cut short anywhere
        _ => {
            let k = sx::pick(n);
            sx::check(decode(&b[..k]).is_none(), 5);
            sx::check(plain(&b[..k]).is_none(), 5);
        }
    }
}

/// A body of arbitrary bytes.  params: signature, body length, 1 for little endian, bytes after it.
pub fn h_c07_body() {
    let sig = sx::param_bytes(0);
    let body = sx::vec(sx::param(1));
    verify(&msg::with_body(sx::param(2) == 1, &sig, &body), sx::param(3));
}
/// A body template.  params: signature, template, 1 for little endian, bytes after it.
pub fn h_c07_tmpl() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    verify(&msg::with_body(sx::param(2) == 1, &sig, &body), sx::param(3));
}
/// A seed message with a window of arbitrary bytes.  params: seed, window length, first offset,
/// number of offsets, 1 to leave out some of the type codes, bytes after the message.
pub fn h_c07_window() {
    let mut b = msg::seed(sx::param(0));
    let start = sx::param(2) + sx::pick(sx::param(3));
    let end = start + sx::param(1);
    if end <= b.len() {
        sx::bytes(&mut b[start..end]);
        if sx::param(4) == 1 {
            msg::fewer_types(&b[start..end]);
        }
        verify(&b, sx::param(5));
    }
}
/// Header fields of any length, with or without a body.  params: message type, length of the last
/// field, 1 for little endian, bytes after it.
pub fn h_c07_header() {
    let (kind, n, le) = (sx::param(0) as u8, sx::param(1), sx::param(2) == 1);
    let body = sx::pick(4);
    let mut w = msg::begin(le, kind, sx::pick(8) as u8, 1, sx::u32(), [0, 0, 1, 4][body]);
    let mut text = |w: &mut crate::wire::W, code: u8, t: u8, pre: &[u8]| {
        let mut s = pre.to_vec();
        while s.len() < n {
            s.push(build::letter());
        }
        msg::text_field(w, code, t, &s);
    };
    match body {
        // an empty signature
        1 => msg::sig_field(&mut w, b""),
        2 => msg::sig_field(&mut w, b"y"),
        3 => msg::sig_field(&mut w, b"u"),
        _ => {}
    }
    match kind {
        1 => {
            text(&mut w, 1, b'o', b"/a");
            text(&mut w, 3, b's', b"M");
        }
        2 => {
            msg::u32_field(&mut w, 5, 3);
            if n > 2 {
                text(&mut w, 6, b's', b"d.x");
            }
        }
        3 => {
            msg::u32_field(&mut w, 5, 3);
            text(&mut w, 4, b's', b"e.x");
        }
        _ => {
            text(&mut w, 1, b'o', b"/a");
            text(&mut w, 2, b's', b"i.f");
            text(&mut w, 3, b's', b"S");
        }
    }
    let b = msg::finish(w, &sx::vec([0, 0, 1, 4][body]));
    verify(&b, sx::param(3));
}
/// Two messages one after the other are both found.  params: the two seeds, and the offset from
/// which two bytes of the first one are arbitrary.
pub fn h_c07_stream() {
    let mut a = msg::seed(sx::param(0));
    let b = msg::seed(sx::param(1));
    let at = sx::param(2);
    if at + 2 > a.len() {
        return;
    }
    sx::bytes(&mut a[at..at + 2]);
    let mut c = a.clone();
    c.extend_from_slice(&b);
    let one = decode(&a);
    match (one, decode(&c)) {
        (Some((m, n)), Some((o, k))) => {
            sx::check(k == n && equal(&m, &o), 6);
            if n == a.len() {
                let second = decode(&c[n..]);
                let alone = decode(&b);
                match (second, alone) {
                    (Some((m, n)), Some((o, k))) => sx::check(k == n && n == b.len() && equal(&m, &o), 7),
                    _ => sx::check(false, 8),
                }
                sx::reach(1);
            }
        }
        (None, _) => sx::reach(2),
        (Some(_), None) => sx::check(false, 9),
    }
}
