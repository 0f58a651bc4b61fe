//! The work done is proportional to the input.  Decoding, encoding and match rules are in c25.rs.
use crate::{
    build,
    c25::{WORK, WORK_TEXT},
    parts, sx,
};
use dbus_message_parser::{
    match_rule::MatchRule,
    message::Message,
    value::{Array, Bus, Error, Interface, Member, ObjectPath, Struct, Type, Value},
};
use std::convert::TryFrom;

fn work(n: usize, id: u32) {
    sx::work(WORK + WORK_TEXT * n as u64, id);
}
/// Prefix, a part repeated some number of times, an arbitrary ASCII character, suffix.  params from
/// `at` on.
fn long(at: usize) -> Vec<u8> {
    let mut t = sx::template(at);
    let part = sx::template(at + 1);
    for _ in 0..sx::param(at + 2) {
        t.extend_from_slice(&part);
    }
    let c = sx::u8();
    sx::assume(c < 128);
    t.push(c);
    t.extend_from_slice(&sx::template(at + 3));
    t
}
/// A text, or start|part|number|end.
fn repeated(i: usize) -> Vec<u8> {
    let t = sx::param_bytes(i);
    let p: Vec<&[u8]> = t.split(|c| *c == b'|').collect();
    if p.len() == 1 {
        return t;
    }
    let n = p[2].iter().fold(0, |n, c| n * 10 + (c - b'0') as usize);
    let mut r = p[0].to_vec();
    for _ in 0..n {
        r.extend_from_slice(p[1]);
    }
    r.extend_from_slice(p[3]);
    r
}
/// Names, paths and signatures from text, and back.  params: kind, long text.
pub fn h_c28_text() {
    let t = long(1);
    let s = build::string(&t);
    work(t.len(), 1);
    let ok = match sx::param(0) {
        0 => Interface::try_from(s.as_str()).map(|x| x.to_string()).ok(),
        1 => Error::try_from(s.as_str()).map(|x| x.to_string()).ok(),
        2 => Member::try_from(s.as_str()).map(|x| x.to_string()).ok(),
        3 => Bus::try_from(s.as_str()).map(|x| x.to_string()).ok(),
        4 => ObjectPath::try_from(s.as_str()).map(|x| x.to_string()).ok(),
        _ => Type::from_string_to_signature(&s).ok().and_then(|x| Type::from_signature_to_string(&x).ok()),
    };
    sx::work(0, 0);
    match ok {
        Some(o) => {
            sx::observe((o.len() == t.len()) as u64);
            sx::reach(1);
        }
        None => sx::reach(2),
    }
}
/// Operations on long paths.  params: long path, length of the other path, length of the added element.
pub fn h_c28_path() {
    let t = long(0);
    let mut p = match ObjectPath::try_from(&t[..]) {
        Ok(p) => p,
        Err(_) => {
            sx::reach(2);
            return;
        }
    };
    let cut = sx::param(4).min(t.len());
    let n = 3 * t.len() + 8;
    if let Ok(base) = ObjectPath::try_from(&t[..cut]) {
        work(n, 2);
        let (a, b) = (p.starts_with(&base), base.starts_with(&p));
        let count = p.strip_prefix_elements(&base).map(|i| i.count());
        sx::work(0, 0);
        sx::observe(a as u64 | (b as u64) << 1);
        sx::observe(count.map_or(u64::MAX, |n| n as u64));
    }
    let element = "a".repeat(sx::param(5));
    work(n + element.len(), 3);
    let added = p.append(&element);
    let equal = p == p.clone();
    sx::work(0, 0);
    sx::observe((added & equal) as u64);
    sx::reach(1);
}
/// A list of many rules and a message with many arguments.  params: rules, as a long text, type of
/// the arguments, number of arguments, their text, path.
pub fn h_c28_match() {
    let t = long(0);
    let rules = match MatchRule::decode(&build::string(&t)) {
        Ok(r) => r,
        Err(_) => {
            sx::reach(2);
            return;
        }
    };
    let mut f = dbus_message_parser::message::MessageHeaderFields::default();
    let path = repeated(7);
    f.path = Some(parts::path(&path));
    f.member = Some(parts::member(b"M"));
    f.sender = Some(parts::bus(b"a.b.c"));
    f.interface = Some(parts::interface(b"a.b"));
    let kind = crate::c12::kind(1);
    let flags = dbus_message_parser::message::MessageFlags::empty();
    let h = dbus_message_parser::message::MessageHeader::new(true, kind, flags, 1, 1, f).unwrap();
    let args = sx::param(5);
    let text = repeated(6);
    let body = (0..args)
        .map(|_| match sx::param(4) {
            1 => Value::ObjectPath(parts::path(&text)),
            2 => Value::Byte(1),
            _ => Value::String(build::string(&text)),
        })
        .collect();
    let m = Message::new(h, body);
    let size = t.len() + path.len() + args * (text.len() + 4);
    work(size, 4);
    let all = MatchRule::matching_rules(&rules, &m);
    sx::work(0, 0);
    sx::observe(all as u64);
    work(size, 5);
    let mut some = true;
    for r in &rules {
        some &= r.matching_rule(&m);
    }
    sx::work(0, 0);
    sx::observe(some as u64);
    sx::reach(if all { 1 } else { 3 });
}
/// Containers of many values and their types.  params: kind, number of values.
pub fn h_c28_values() {
    let n = sx::param(1);
    let b = sx::u8();
    let (one, t) = match sx::param(0) {
        0 => (Value::Byte(b), Type::Byte),
        1 => (Value::String("ab".to_string()), Type::String),
        2 => (Value::Variant(Box::new(Value::Byte(b))), Type::Variant),
        3 => (Value::Struct(Struct::try_from(vec![Value::Byte(b), Value::Byte(1)]).unwrap()), Type::Struct(vec![Type::Byte, Type::Byte])),
        4 => (Value::Array(Array::new(vec![], Type::Byte).unwrap()), Type::Array(Box::new(Type::Byte))),
        _ => (
            Value::DictEntry(Box::new((Value::Byte(b), Value::Byte(2)))),
            Type::DictEntry(Box::new((Type::Byte, Type::Byte))),
        ),
    };
    let values = vec![one; n];
    work(8 * n, 6);
    let a = Array::new(values.clone(), t.clone());
    sx::work(0, 0);
    sx::observe(a.is_ok() as u64);
    let a = Value::Array(a.unwrap());
    work(8 * n, 7);
    let found = a.get_type();
    let same = a == a.clone();
    sx::work(0, 0);
    sx::observe((same & (found == Ok(Type::Array(Box::new(t))))) as u64);
    if sx::param(0) < 5 {
        work(8 * n, 8);
        let mut m = crate::msg::method_return();
        for v in values {
            m.add_value(v);
        }
        let s = m.get_signature();
        sx::work(0, 0);
        sx::observe(s.map_or(0, |s| s.len()) as u64);
        work(8 * n, 9);
        let e = m.encode_with_fds();
        sx::work(0, 0);
        sx::observe(e.is_ok() as u64);
    }
    sx::reach(1);
}
/// Containers inside each other.  params: kind, depth.
pub fn h_c28_deep() {
    let (kind, n) = (sx::param(0), sx::param(1));
    let mut v = Value::Byte(sx::u8());
    for i in 0..n {
        v = match (kind + if kind > 2 { i } else { 0 }) % 3 {
            0 => {
                let t = v.get_type().unwrap();
                Value::Array(Array::new(vec![v], t).unwrap())
            }
            1 => Value::Struct(Struct::try_from(vec![v]).unwrap()),
            _ => Value::Variant(Box::new(v)),
        };
    }
    work(16 * n, 6);
    let t = v.get_type();
    sx::work(0, 0);
    work(16 * n, 7);
    let same = v == v.clone();
    sx::work(0, 0);
    sx::observe((same & t.is_ok()) as u64);
    work(16 * n, 8);
    let mut m = crate::msg::method_return();
    m.add_value(v);
    let s = m.get_signature();
    sx::work(0, 0);
    sx::observe(s.is_ok() as u64);
    work(16 * n, 9);
    let e = m.encode_with_fds();
    sx::work(0, 0);
    sx::observe(e.is_ok() as u64);
    sx::reach(1);
}
