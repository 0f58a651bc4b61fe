//! Building blocks of concrete and symbolic messages.
use crate::{sx, wire::W};

/// A method return in the given byte order with the signature (if not empty) and body.
pub fn with_body(le: bool, sig: &[u8], body: &[u8]) -> Vec<u8> {
    with_header(le, 2, sig, body.len() as u32, body)
}
/// The declared length may differ from that of the body.
pub fn with_header(le: bool, kind: u8, sig: &[u8], declared: u32, body: &[u8]) -> Vec<u8> {
    let mut w = W::new(le);
    w.num(1, if le { 0x6c } else { 0x42 });
    w.num(1, kind as u64);
    // any flags, version, serial and reply serial
    let flags = sx::u8();
    sx::assume(flags < 8);
    w.num(1, flags as u64);
    w.num(1, sx::u8() as u64);
    w.num(4, declared as u64);
    w.num(4, sx::u32() as u64);
    let fields = 8 + if sig.is_empty() { 0 } else { 6 + sig.len() };
    w.num(4, fields as u64);
    w.num(1, 5);
    w.sig(b"u");
    w.num(4, sx::u32() as u64);
    if !sig.is_empty() {
        w.num(1, 8);
        w.sig(b"g");
        w.sig(sig);
    }
    w.pad(8);
    w.out.extend_from_slice(body);
    w.out
}

/// Append a header field with a text value ('s' or 'o').
pub fn text_field(w: &mut W, code: u8, t: u8, s: &[u8]) {
    w.pad(8);
    w.num(1, code as u64);
    w.sig(&[t]);
    w.text(s);
}
pub fn u32_field(w: &mut W, code: u8, n: u32) {
    w.pad(8);
    w.num(1, code as u64);
    w.sig(b"u");
    w.num(4, n as u64);
}
pub fn sig_field(w: &mut W, s: &[u8]) {
    w.pad(8);
    w.num(1, 8);
    w.sig(b"g");
    w.sig(s);
}
/// Start of a message: everything before the header fields.
pub fn begin(le: bool, kind: u8, flags: u8, version: u8, serial: u32, body_len: u32) -> W {
    let mut w = W::new(le);
    w.num(1, if le { 0x6c } else { 0x42 });
    w.num(1, kind as u64);
    w.num(1, flags as u64);
    w.num(1, version as u64);
    w.num(4, body_len as u64);
    w.num(4, serial as u64);
    w.num(4, 0);
    w
}
/// The fields a message of this type must have.
pub fn mandatory(w: &mut W, kind: u8) {
    if kind == 1 || kind == 4 {
        text_field(w, 1, b'o', b"/a");
        text_field(w, 3, b's', b"Mm");
    }
    if kind == 4 {
        text_field(w, 2, b's', b"a.b");
    }
    if kind == 3 {
        text_field(w, 4, b's', b"e.f");
    }
    if kind == 2 || kind == 3 {
        u32_field(w, 5, sx::u32());
    }
}
/// Set the length of the header fields, and append the body.
pub fn finish(mut w: W, body: &[u8]) -> Vec<u8> {
    let n = w.out.len() - 16;
    let mut l = W::new(w.le);
    l.num(4, n as u64);
    w.out[12..16].copy_from_slice(&l.out);
    w.pad(8);
    w.out.extend_from_slice(body);
    w.out
}

pub const SEEDS: usize = 8;
/// Concrete messages, together using every header field, both byte orders and most types.
pub fn seed(i: usize) -> Vec<u8> {
    match i {
        // method return, no body
        0 => finish(
            {
                let mut w = begin(true, 2, 1, 1, 5, 0);
                u32_field(&mut w, 5, 7);
                w
            },
            &[],
        ),
        // method call with every field it may have; body "su"
        1 | 2 => {
            let le = i == 1;
            let mut b = W::new(le);
            b.text(b"ab");
            b.num(4, 9);
            let mut w = begin(le, 1, 0, 1, 2, b.out.len() as u32);
            text_field(&mut w, 1, b'o', b"/a");
            text_field(&mut w, 6, b's', b":1.2");
            text_field(&mut w, 2, b's', b"a.b");
            text_field(&mut w, 3, b's', b"M");
            sig_field(&mut w, b"su");
            text_field(&mut w, 7, b's', b"a.c");
            finish(w, &b.out)
        }
        // error with a text; reply serial and descriptors
        3 => {
            let mut b = W::new(true);
            b.num(4, 1);
            let mut w = begin(true, 3, 2, 1, 3, b.out.len() as u32);
            text_field(&mut w, 4, b's', b"e.f");
            u32_field(&mut w, 5, 1);
            u32_field(&mut w, 9, 2);
            sig_field(&mut w, b"h");
            finish(w, &b.out)
        }
        // signal with a dictionary of variants
        4 => {
            let mut b = W::new(false);
            b.num(4, 0);
            b.num(8, 0);
            b.out.truncate(8);
            let at = b.out.len();
            b.text(b"k");
            b.sig(b"(yx)");
            b.pad(8);
            b.num(1, 3);
            b.num(8, 4);
            let n = b.out.len() - at;
            b.out[3] = n as u8;
            let mut w = begin(false, 4, 0, 1, 3, b.out.len() as u32);
            text_field(&mut w, 1, b'o', b"/");
            text_field(&mut w, 2, b's', b"a.b");
            text_field(&mut w, 3, b's', b"S");
            sig_field(&mut w, b"a{sv}");
            finish(w, &b.out)
        }
        // nested arrays, structs and variants
        5 => {
            use crate::wire::{V, T};
            let y = |n| V::N(b'y', n);
            let ty = |s: &str| crate::wire::single(s.as_bytes()).unwrap();
            let mut b = W::new(true);
            for v in [
                V::A(ty("ay"), vec![V::A(T::B(b'y'), vec![y(5)]), V::A(T::B(b'y'), vec![])]),
                V::Var(ty("v"), Box::new(V::Var(ty("as"), Box::new(V::A(ty("s"), vec![V::Str(b's', b"z".to_vec())]))))),
                V::S(vec![V::N(b'n', 1), V::N(b'd', 2)]),
                V::N(b'b', 1),
                V::Str(b'o', b"/p".to_vec()),
                V::Sig(vec![ty("ai")]),
            ] {
                b.value(&v);
            }
            finish(
                {
                    let mut w = begin(true, 2, 7, 1, 0x01020304, b.out.len() as u32);
                    sig_field(&mut w, b"aayv(nd)bog");
                    u32_field(&mut w, 5, 0x0a0b0c0d);
                    w
                },
                &b.out,
            )
        }
        // descriptors in an array, big endian
        6 => {
            let mut b = W::new(false);
            b.num(4, 8);
            b.num(4, 1);
            b.num(4, 0);
            let mut w = begin(false, 2, 0, 1, 9, 12);
            u32_field(&mut w, 5, 1);
            sig_field(&mut w, b"ah");
            u32_field(&mut w, 9, 2);
            finish(w, &b.out)
        }
        // four nested variants
        _ => {
            let mut b = W::new(true);
            b.sig(b"v");
            b.sig(b"v");
            b.sig(b"v");
            b.sig(b"t");
            b.num(8, 1);
            let mut w = begin(true, 2, 0, 1, 9, b.out.len() as u32);
            u32_field(&mut w, 5, 1);
            sig_field(&mut w, b"v");
            finish(w, &b.out)
        }
    }
}
/// Assume that none of the bytes is one of the type codes that behave like others.
pub fn fewer_types(b: &[u8]) {
    for c in b {
        let c = *c;
        sx::assume((c != b'n') & (c != b'q') & (c != b'i') & (c != b'x') & (c != b'd') & (c != b'b') & (c != b'o') & (c != b'g') & (c != b'h'));
    }
}
/// A minimal message without a body.
pub fn method_return() -> dbus_message_parser::message::Message {
    use dbus_message_parser::message::{Message, MessageFlags, MessageHeader, MessageHeaderFields, MessageType};
    let mut f = MessageHeaderFields::default();
    f.reply_serial = Some(1);
    let h = MessageHeader::new(true, MessageType::MethodReturn, MessageFlags::empty(), 1, 1, f);
    Message::new(h.unwrap(), Vec::new())
}
