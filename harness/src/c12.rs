//! Headers: decoding agrees with the reference decoder on everything observable.
use crate::{build, msg, sx, wire, wire::W};
use bytes::Bytes;
use dbus_message_parser::{
    message::{Message, MessageFlags, MessageHeader, MessageHeaderFields, MessageType},
    value::{Bus, Error, Interface, Member, ObjectPath},
};
use std::convert::TryFrom;

pub fn kind(k: u8) -> MessageType {
    match k {
        1 => MessageType::MethodCall,
        2 => MessageType::MethodReturn,
        3 => MessageType::Error,
        _ => MessageType::Signal,
    }
}
fn is(a: Option<&str>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a.as_bytes() == &b[..],
        (None, None) => true,
        _ => false,
    }
}
fn bus(b: &Bus) -> (bool, &str) {
    match b {
        Bus::UniqueConnectionName(u) => (true, u.as_ref()),
        Bus::WellKnownBusName(w) => (false, w.as_ref()),
    }
}

/// The decoded message is the expected one: 0, or the number of the first difference.
pub fn differs(m: &Message, want: &wire::Msg) -> u32 {
    let f = &want.fields;
    if m.get_type() != kind(want.kind) {
        return 1;
    }
    if m.get_serial() != want.serial {
        return 2;
    }
    if !is(m.get_path().map(|x| x.as_ref()), &f.text[1]) || m.has_path() != f.text[1].is_some() {
        return 3;
    }
    if !is(m.get_interface().map(|x| x.as_ref()), &f.text[2]) || m.has_interface() != f.text[2].is_some() {
        return 4;
    }
    if !is(m.get_member().map(|x| x.as_ref()), &f.text[3]) || m.has_member() != f.text[3].is_some() {
        return 5;
    }
    if !is(m.get_error_name().map(|x| x.as_ref()), &f.text[4]) || m.has_error_name() != f.text[4].is_some() {
        return 6;
    }
    for (got, has, want, n) in [
        (m.get_destination(), m.has_destination(), &f.text[6], 7),
        (m.get_sender(), m.has_sender(), &f.text[7], 8),
    ] {
        if !is(got.map(|x| bus(x).1), want) || has != want.is_some() {
            return n;
        }
        if let (Some(g), Some(w)) = (got, want) {
            if bus(g).0 != (w[0] == b':') {
                return n;
            }
        }
    }
    if m.get_reply_serial() != f.reply_serial || m.has_reply_serial() != f.reply_serial.is_some() {
        return 9;
    }
    if m.get_unix_fds() != f.fds || m.has_unix_fds() != f.fds.is_some() {
        return 10;
    }
    let types = match m.get_signature() {
        Ok(t) => t,
        Err(_) => return 11,
    };
    if !wire::same_types(f.signature.as_deref().unwrap_or(&[]), &types) {
        return 11;
    }
    if !wire::same_all(&want.body, m.get_body()) {
        return 12;
    }
    // byte order, flags and version are visible in comparison and in the encoding
    let mut g = MessageHeaderFields::default();
    g.path = m.get_path().cloned();
    g.interface = m.get_interface().cloned();
    g.member = m.get_member().cloned();
    g.error_name = m.get_error_name().cloned();
    g.destination = m.get_destination().cloned();
    g.sender = m.get_sender().cloned();
    g.reply_serial = m.get_reply_serial();
    g.unix_fds = m.get_unix_fds();
    let flags = MessageFlags::from_bits(want.flags);
    if flags.is_none() {
        return 13;
    }
    if !types.is_empty() {
        g.signature = Some(types);
    }
    let h = MessageHeader::new(want.le, kind(want.kind), flags.unwrap(), want.version, want.serial, g);
    match (h, m.clone().split()) {
        (Ok(h), Ok((got, _))) if got == h => {}
        _ => return 14,
    }
    0
}

/// Decode with the crate and with the reference and compare.
pub fn agree(b: &[u8], fds: &[i32]) -> bool {
    let got = Message::decode_with_fds(Bytes::from(b.to_vec()), fds);
    let want = wire::message(b, fds);
    sx::observe(got.is_ok() as u64);
    match (got, want) {
        (Ok((m, len, used)), Some(w)) => {
            let d = differs(&m, &w);
            sx::check(d == 0, d);
            sx::check(len == w.len, 20);
            sx::check(used == w.used_fds, 21);
            sx::reach(1);
            true
        }
        (Err(_), None) => {
            sx::reach(2);
            false
        }
        (Ok(_), None) => {
            sx::check(false, 22);
            false
        }
        (Err(_), Some(_)) => {
            sx::check(false, 23);
            false
        }
    }
}

/// A header of symbolic type, flags, version and serial, with fields chosen from a menu.
/// params: number of fields, 1 for little endian, menu.
pub fn h_c12_fields() {
    let n = sx::param(0);
    let le = sx::param(1) == 1;
    let menu = sx::param(2);
    let k = sx::u8();
    let flags = sx::u8();
    let version = sx::u8();
    let mut w = msg::begin(le, k, flags, version, sx::u32(), 0);
    for _ in 0..n {
        if menu == 0 {
            valid_field(&mut w);
        } else {
            odd_field(&mut w);
        }
    }
    agree(&msg::finish(w, &[]), &[]);
}
/// One valid field of any of the nine kinds; names have symbolic letters.
fn valid_field(w: &mut W) {
    match sx::pick(9) {
        0 => msg::text_field(w, 1, b'o', &build::fill("/*A")),
        1 => msg::text_field(w, 2, b's', &build::fill("A.*_")),
        2 => msg::text_field(w, 3, b's', &build::fill("*")),
        3 => msg::text_field(w, 4, b's', &build::fill("*.e_B")),
        4 => msg::u32_field(w, 5, sx::u32()),
        5 => msg::text_field(w, 6, b's', &build::fill(":1.?")),
        6 => msg::text_field(w, 7, b's', &build::fill("*.S-s")),
        7 => msg::sig_field(w, b""),
        _ => msg::u32_field(w, 9, sx::u32()),
    }
}
/// A field with an arbitrary code and a value of any of several types.
fn odd_field(w: &mut W) {
    let code = sx::u8();
    w.pad(8);
    w.out.push(code);
    match sx::pick(9) {
        0 => {
            w.sig(b"o");
            w.text(b"/");
        }
        1 => {
            w.sig(b"s");
            w.text(b"a.b");
        }
        2 => {
            w.sig(b"s");
            w.text(b"ab");
        }
        3 => {
            w.sig(b"s");
            w.text(b":1.1");
        }
        4 => {
            w.sig(b"u");
            let n = sx::u32();
            w.num(4, n as u64);
        }
        5 => {
            w.sig(b"g");
            w.sig(b"");
        }
        6 => {
            w.sig(b"i");
            w.num(4, 1);
        }
        7 => {
            w.sig(b"v");
            w.sig(b"s");
            w.text(b"a.b");
        }
        _ => {
            w.sig(b"y");
            w.num(1, 1);
        }
    }
}
/// The text of one field is arbitrary.  params: field code, text length, 1 for ASCII only.
pub fn h_c12_name() {
    let code = sx::param(0) as u8;
    let s = sx::vec(sx::param(1));
    if sx::param(2) == 1 {
        sx::ascii(&s);
    }
    let mut w = msg::begin(true, if code == 4 { 3 } else { 4 }, 0, 1, 1, 0);
    for (c, t, d) in [(1, b'o', "/a"), (2, b's', "a.b"), (3, b's', "M"), (4, b's', "e.f"), (6, b's', "d.e"), (7, b's', ":1.0")] {
        if c == 4 && code != 4 {
            continue;
        }
        msg::text_field(&mut w, c, t, if c == code { &s } else { d.as_bytes() });
    }
    msg::u32_field(&mut w, 5, 1);
    agree(&msg::finish(w, &[]), &[]);
}
/// A seed message with a window of arbitrary bytes.  params: seed, window length, first offset,
/// number of offsets, 1 to leave out some of the type codes.
pub fn h_c12_window() {
    let mut b = msg::seed(sx::param(0));
    let start = sx::param(2) + sx::pick(sx::param(3));
    let end = start + sx::param(1);
    if end <= b.len() {
        sx::bytes(&mut b[start..end]);
        if sx::param(4) == 1 {
            msg::fewer_types(&b[start..end]);
        }
        agree(&b, &[3, 4]);
    }
}
/// Header construction through the public constructor.
pub fn h_c12_new() {
    let k = 1 + sx::pick(4) as u8;
    let mut f = MessageHeaderFields::default();
    let mut r = wire::Fields::default();
    let p: Vec<bool> = (0..7).map(|_| sx::pick(2) == 1).collect();
    if p[0] {
        f.path = Some(ObjectPath::try_from("/a").unwrap());
        r.text[1] = Some(vec![]);
    }
    if p[1] {
        f.interface = Some(Interface::try_from("a.b").unwrap());
        r.text[2] = Some(vec![]);
    }
    if p[2] {
        f.member = Some(Member::try_from("M").unwrap());
        r.text[3] = Some(vec![]);
    }
    if p[3] {
        f.error_name = Some(Error::try_from("e.f").unwrap());
        r.text[4] = Some(vec![]);
    }
    if p[4] {
        let n = sx::u32();
        f.reply_serial = Some(n);
        r.reply_serial = Some(n);
    }
    if p[5] {
        f.destination = Some(Bus::try_from(":1.2").unwrap());
    }
    if p[6] {
        f.sender = Some(Bus::try_from("a.b").unwrap());
        f.unix_fds = Some(3);
    }
    let serial = sx::u32();
    let le = sx::bool();
    let flags = sx::u8();
    sx::assume(flags < 8);
    let h = MessageHeader::new(le, kind(k), MessageFlags::from_bits(flags).unwrap(), sx::u8(), serial, f);
    let want = wire::complete(k, &r);
    sx::check(h.is_ok() == want, 30);
    if let Ok(h) = h {
        sx::reach(1);
        sx::check(h.get_serial() == serial, 31);
        sx::check(h.get_type() == kind(k), 32);
        sx::check(h.has_path() == p[0] && h.get_path().is_some() == p[0], 33);
        sx::check(h.has_interface() == p[1] && h.get_interface().is_some() == p[1], 33);
        sx::check(h.has_member() == p[2] && h.get_member().is_some() == p[2], 33);
        sx::check(h.has_error_name() == p[3] && h.get_error_name().is_some() == p[3], 33);
        sx::check(h.get_reply_serial() == r.reply_serial && h.has_reply_serial() == p[4], 33);
        sx::check(h.has_destination() == p[5] && h.get_destination().is_some() == p[5], 33);
        sx::check(h.has_sender() == p[6] && h.get_sender().is_some() == p[6], 33);
        sx::check(h.has_unix_fds() == p[6] && h.get_unix_fds() == if p[6] { Some(3) } else { None }, 33);
    } else {
        sx::reach(2);
    }
}
