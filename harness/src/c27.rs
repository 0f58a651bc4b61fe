//! Equality, order and hashes see every part.
use crate::{build, c12::kind, parts, sx, wire, wire::T, wire::V};
use dbus_message_parser::{
    match_rule::{Arg, ArgPath, MatchRule},
    message::{Message, MessageFlags, MessageHeader},
    value::{Type, UniqueConnectionName, Value},
};
use std::{
    cmp::Ordering,
    convert::TryFrom,
    hash::{Hash, Hasher},
};

/// What is put into a hash.
#[derive(Default, PartialEq)]
struct Seen(Vec<u8>);
impl Hasher for Seen {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn seen<X: Hash + ?Sized>(x: &X) -> Seen {
    let mut s = Seen::default();
    x.hash(&mut s);
    s
}
fn compare<X: PartialOrd>(a: &X, b: &X, want: bool, id: u32) {
    sx::check((a == b) == want, id);
    sx::check((b == a) == want && (a != b) != want, id);
    let (o, r) = (a.partial_cmp(b), b.partial_cmp(a));
    sx::check((o == Some(Ordering::Equal)) == want, id + 1);
    sx::check(o.map(Ordering::reverse) == r, id + 1);
    sx::check(o.is_some(), id + 1);
}
/// Numbers by their bits, so not for doubles.
fn equal(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::N(c, x), V::N(d, y)) => c == d && x == y,
        (V::Str(c, x), V::Str(d, y)) => c == d && x == y,
        (V::Sig(x), V::Sig(y)) => x == y,
        (V::A(t, x), V::A(u, y)) => t == u && equal_all(x, y),
        (V::S(x), V::S(y)) => equal_all(x, y),
        (V::D(x), V::D(y)) => equal(&x.0, &y.0) && equal(&x.1, &y.1),
        (V::Var(t, x), V::Var(u, y)) => t == u && equal(x, y),
        (V::Fd(x), V::Fd(y)) => x == y,
        _ => false,
    }
}
fn equal_all(a: &[V], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| equal(x, y))
}
fn text(s: &Option<Vec<u8>>) -> Option<&[u8]> {
    s.as_deref()
}
/// Two messages that differ in one part at most.  params: message type, which fields (see
/// parts::header), part: 0 byte order, 1 flags, 2 version, 3 serial, 4..11 a field, 12 signature field,
/// 13 type.
pub fn h_c27_header() {
    let k = sx::param(0) as u8;
    let how = sx::param_bytes(1);
    let part = sx::param(2);
    let a = parts::header(k, &how);
    let (mut le, mut flags, mut version, mut serial, mut other, mut fields) = (a.le, a.flags, a.version, a.serial, k, a.fields.clone());
    let same = match part {
        0 => {
            le = sx::bool();
            le == a.le
        }
        1 => {
            flags = sx::u8();
            sx::assume(flags < 8);
            flags == a.flags
        }
        2 => {
            version = sx::u8();
            version == a.version
        }
        3 => {
            serial = sx::u32();
            serial == a.serial
        }
        12 => {
            let f = |i| match i {
                0 => None,
                1 => Some(Vec::new()),
                2 => Some(vec![Type::Byte]),
                3 => Some(vec![Type::Byte, Type::Byte]),
                _ => Some(vec![Type::Array(Box::new(Type::Byte))]),
            };
            let (i, j) = (sx::pick(5), sx::pick(5));
            fields.signature = f(j);
            let mut b = a.fields.clone();
            b.signature = f(i);
            let h = |f| MessageHeader::new(le, kind(k), MessageFlags::from_bits(flags).unwrap(), version, serial, f).unwrap();
            both(&b, &fields, &h(b.clone()), &h(fields.clone()), i == j);
            return;
        }
        13 => {
            other = sx::pick(4) as u8 + 1;
            other == k
        }
        _ => {
            // that field differently: given where it was not, or anew, or not
            let i = part - 4;
            let b = parts::header(2, &one(i));
            let gone = sx::pick(2) == 1 && !needed(k, i);
            match i {
                0 => {
                    fields.path = if gone { None } else { b.fields.path };
                    text(&a.want.text[1]) == if gone { None } else { text(&b.want.text[1]) }
                }
                1 => {
                    fields.interface = if gone { None } else { b.fields.interface };
                    text(&a.want.text[2]) == if gone { None } else { text(&b.want.text[2]) }
                }
                2 => {
                    fields.member = if gone { None } else { b.fields.member };
                    text(&a.want.text[3]) == if gone { None } else { text(&b.want.text[3]) }
                }
                3 => {
                    fields.error_name = if gone { None } else { b.fields.error_name };
                    text(&a.want.text[4]) == if gone { None } else { text(&b.want.text[4]) }
                }
                4 => {
                    fields.reply_serial = if gone { None } else { b.fields.reply_serial };
                    a.want.reply_serial == fields.reply_serial
                }
                5 => {
                    fields.destination = if gone { None } else { b.fields.destination };
                    text(&a.want.text[6]) == if gone { None } else { text(&b.want.text[6]) }
                }
                6 => {
                    fields.sender = if gone { None } else { b.fields.sender };
                    text(&a.want.text[7]) == if gone { None } else { text(&b.want.text[7]) }
                }
                _ => {
                    fields.unix_fds = if gone { None } else { b.fields.unix_fds };
                    a.want.fds == fields.unix_fds
                }
            }
        }
    };
    let h = match MessageHeader::new(le, kind(other), MessageFlags::from_bits(flags).unwrap(), version, serial, fields.clone()) {
        Ok(h) => h,
        // only another type may need more fields
        Err(_) => return sx::check(other != k, 1),
    };
    both(&a.fields, &fields, &a.header(), &h, same);
}
fn needed(kind: u8, field: usize) -> bool {
    match kind {
        1 => field == 0 || field == 2,
        2 => field == 4,
        3 => field == 3 || field == 4,
        _ => field < 3,
    }
}
fn one(i: usize) -> [u8; 8] {
    let mut how = *b"00000000";
    how[i] = b'1';
    how
}
fn both(f: &dbus_message_parser::message::MessageHeaderFields, g: &dbus_message_parser::message::MessageHeaderFields, a: &MessageHeader, b: &MessageHeader, same: bool) {
    compare(a, b, same, 2);
    sx::check(a.clone() == *a && b.clone() == *b, 4);
    sx::check(f.clone() == *f && g.clone() == *g, 4);
    // fields differ only if the headers do
    sx::check(!same || f == g, 5);
    sx::check((f == g) == (f.cmp(g) == Ordering::Equal) && f.cmp(g) == g.cmp(f).reverse(), 6);
    let body = || vec![Value::Byte(1), Value::Uint16(2)];
    compare(&Message::new(a.clone(), body()), &Message::new(b.clone(), body()), same, 7);
    for h in [a, b] {
        for m in [Message::new(h.clone(), Vec::new()), Message::new(h.clone(), body())] {
            sx::check(m.clone() == m, 4);
        }
    }
    sx::reach(if same { 1 } else { 2 });
}
fn header() -> MessageHeader {
    let mut f = dbus_message_parser::message::MessageHeaderFields::default();
    f.reply_serial = Some(1);
    MessageHeader::new(true, kind(2), MessageFlags::empty(), 1, 1, f).unwrap()
}
/// Two bodies.  params: signatures, strings up to, arrays up to.
pub fn h_c27_body() {
    let ts = wire::signature(&sx::param_bytes(0)).unwrap();
    let us = wire::signature(&sx::param_bytes(1)).unwrap();
    let g = build::Gen { strings: sx::param(2), arrays: sx::param(3), variants: &["q", "s", "aq", "u"] };
    let (v, c) = build::values(&ts, &g);
    let (w, d) = build::values(&us, &g);
    let same = equal_all(&v, &w);
    if c.len() == 1 && d.len() == 1 {
        compare(&c[0], &d[0], same, 9);
    }
    let (a, b) = (Message::new(header(), c), Message::new(header(), d));
    compare(&a, &b, same, 11);
    sx::check(a.clone() == a && b.clone() == b, 4);
    sx::reach(if same { 3 } else { 4 });
}
/// Numbers compare as numbers.
pub fn h_c27_double() {
    let (x, y) = (sx::u64(), sx::u64());
    let exponent = 0x7ff0_0000_0000_0000u64;
    sx::assume(x & exponent != exponent || x << 12 == 0);
    sx::assume(y & exponent != exponent || y << 12 == 0);
    let (a, b) = (Value::Double(f64::from_bits(x)), Value::Double(f64::from_bits(y)));
    compare(&a, &b, x == y || (x | y) << 1 == 0, 13);
    sx::check(a.clone() == a, 4);
    sx::reach(5);
}
/// Types of two signatures of arbitrary codes.  params: lengths.
pub fn h_c27_type() {
    let code = |n| {
        let s = sx::vec(n);
        for c in &s {
            sx::assume((*c == b'y') | (*c == b'v') | (*c == b's') | (*c == b'a') | (*c == b'(') | (*c == b')') | (*c == b'{') | (*c == b'}'));
        }
        s
    };
    let (s, t) = (code(sx::param(0)), code(sx::param(1)));
    if let (Some(x), Some(y)) = (wire::single(&s), wire::single(&t)) {
        types(&x, &y);
    }
}
fn types(x: &T, y: &T) {
    let (a, b) = (build::to_type(x), build::to_type(y));
    let same = x == y;
    compare(&a, &b, same, 15);
    sx::check(a.cmp(&b) == b.cmp(&a).reverse() && (a.cmp(&b) == Ordering::Equal) == same, 16);
    sx::check(!same || seen(&a) == seen(&b), 17);
    sx::check(a.clone() == a, 4);
    sx::reach(if same { 6 } else { 7 });
}
const CODES: &[u8; 14] = b"ybnqiuxtdsogvh";
/// Every two basic types, alone or inside a container.
pub fn h_c27_basic() {
    let (x, y) = (T::B(CODES[sx::pick(14)]), T::B(CODES[sx::pick(14)]));
    let wrap = |t| match sx::pick(4) {
        0 => t,
        1 => T::A(Box::new(t)),
        2 => T::S(vec![T::B(b'y'), t]),
        _ => T::D(Box::new((t, T::B(b'y')))),
    };
    types(&wrap(x), &wrap(y));
}
/// A rule of a key (0..11) and a value of a shape (0..3): its reference and the crate's.
fn rule() -> (usize, usize, Vec<u8>, MatchRule) {
    let k = sx::pick(11);
    let f = |a: [&str; 3]| build::fill(a[sx::pick(3)]);
    let s = |v: &[u8]| build::string(v);
    let n = sx::u8() as usize;
    sx::assume(n < 64);
    let (i, v) = match k {
        0 => (sx::pick(4), Vec::new()),
        1 => (0, f([":1.?", "?.b", "a.?"])),
        2 | 9 => (0, f(["?.b", "?.b.c", "a.B?"])),
        3 => (0, f(["?", "a?", "?B"])),
        4 | 5 => (0, f(["/", "/?", "/?/b"])),
        6 => (0, f([":1.?", ":?.1", ":1.?2"])),
        7 => (n, build::utf8(sx::pick(3))),
        8 => (n, f(["/", "/?", "/a?"])),
        _ => (sx::pick(2), Vec::new()),
    };
    let r = match k {
        0 => MatchRule::Type(kind(i as u8 + 1)),
        1 => MatchRule::Sender(parts::bus(&v)),
        2 => MatchRule::Interface(parts::interface(&v)),
        3 => MatchRule::Member(parts::member(&v)),
        4 => MatchRule::Path(parts::path(&v)),
        5 => MatchRule::PathNamespace(parts::path(&v)),
        6 => MatchRule::Destination(UniqueConnectionName::try_from(&v[..]).unwrap()),
        7 => MatchRule::Arg(Arg::try_from((i, s(&v))).unwrap()),
        8 => MatchRule::ArgPath(ArgPath::from((i, parts::path(&v)))),
        9 => MatchRule::Arg0Namespace(parts::interface(&v)),
        _ => MatchRule::Eavesdrop(i == 1),
    };
    (k, i, v, r)
}
pub fn h_c27_rule() {
    let (k, i, v, a) = rule();
    let (l, j, w, b) = rule();
    let same = k == l && i == j && v == w;
    sx::check((a == b) == same && (b == a) == same && (a != b) != same, 18);
    sx::check(a == a && b == b, 4);
    sx::reach(if same { 8 } else { 9 });
}
macro_rules! named {
    ($kind:expr, $s:expr, $t:expr) => {{
        let (a, b) = ($kind(&$s), $kind(&$t));
        sx::check(seen(&a) == seen(&b), 19);
        sx::check(a == b, 20);
    }};
}
/// Equal names hash alike.  param: kind of name.
pub fn h_c27_hash() {
    let s = match sx::param(0) {
        0 => build::fill(["/", "/?", "/?/b_9?"][sx::pick(3)]),
        1 | 2 => build::fill(["?.b", "a.B_1?.?"][sx::pick(2)]),
        _ => build::fill(["?", "M?_1*"][sx::pick(2)]),
    };
    let t = s.clone();
    match sx::param(0) {
        0 => named!(parts::path, s, t),
        1 => named!(parts::interface, s, t),
        2 => named!(parts::error, s, t),
        _ => named!(parts::member, s, t),
    }
    sx::reach(10);
}
