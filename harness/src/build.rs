//! Symbolic values: the same value as a reference value and as a value of the crate.
use crate::{sx, wire::T, wire::V};
use dbus_message_parser::value::{Array, ObjectPath, Struct, Type, Value};
use std::convert::TryFrom;

pub struct Gen {
    /// Longest string
    pub strings: usize,
    /// Longest array
    pub arrays: usize,
    /// Types inside variants, innermost level last
    pub variants: &'static [&'static str],
}

pub fn to_type(t: &T) -> Type {
    match t {
        T::B(b'y') => Type::Byte,
        T::B(b'b') => Type::Boolean,
        T::B(b'n') => Type::Int16,
        T::B(b'q') => Type::Uint16,
        T::B(b'i') => Type::Int32,
        T::B(b'u') => Type::Uint32,
        T::B(b'x') => Type::Int64,
        T::B(b't') => Type::Uint64,
        T::B(b'h') => Type::UnixFD,
        T::B(b'd') => Type::Double,
        T::B(b's') => Type::String,
        T::B(b'o') => Type::ObjectPath,
        T::B(b'v') => Type::Variant,
        T::B(_) => Type::Signature,
        T::A(e) => Type::Array(Box::new(to_type(e))),
        T::S(ts) => Type::Struct(ts.iter().map(to_type).collect()),
        T::D(kv) => Type::DictEntry(Box::new((to_type(&kv.0), to_type(&kv.1)))),
    }
}

/// n bytes of symbolic UTF-8: ASCII, or beginning with a two-byte character.
pub fn utf8(n: usize) -> Vec<u8> {
    let s = sx::vec(n);
    let mut i = 0;
    if n >= 2 && sx::pick(2) == 1 {
        sx::assume((s[0] >= 0xc2) & (s[0] <= 0xdf));
        sx::assume((s[1] >= 0x80) & (s[1] <= 0xbf));
        i = 2;
    }
    for c in &s[i..] {
        sx::assume(*c < 128);
    }
    s
}
pub fn string(s: &[u8]) -> String {
    unsafe { String::from_utf8_unchecked(s.to_vec()) }
}
/// A symbolic small letter: the patterns have fixed capitals, digits and underscores.
pub fn letter() -> u8 {
    let c = sx::u8();
    sx::assume((c >= b'a') & (c <= b'z'));
    c
}
/// A symbolic letter or underscore.
pub fn any_letter() -> u8 {
    let c = sx::u8();
    sx::assume((c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c == b'_'));
    c
}
/// Replace each '?' by a symbolic small letter, each '*' by any letter.
pub fn fill(pat: &str) -> Vec<u8> {
    let one = |c| match c {
        b'?' => letter(),
        b'*' => any_letter(),
        _ => c,
    };
    pat.bytes().map(one).collect()
}

pub const PATHS: [&str; 4] = ["/", "/?", "/A?", "/?/b_1"];
pub const SIGS: [&str; 4] = ["", "y", "a{sv}", "(iv)as"];

pub fn value(t: &T, g: &Gen) -> (V, Value) {
    match t {
        T::B(b's') => {
            let s = utf8(sx::pick(g.strings + 1));
            let v = Value::String(string(&s));
            (V::Str(b's', s), v)
        }
        T::B(b'o') => {
            let s = fill(PATHS[sx::pick(PATHS.len())]);
            let p = ObjectPath::try_from(&s[..]).unwrap();
            (V::Str(b'o', s), Value::ObjectPath(p))
        }
        T::B(b'g') => {
            let ts = crate::wire::signature(SIGS[sx::pick(SIGS.len())].as_bytes()).unwrap();
            let v = Value::Signature(ts.iter().map(to_type).collect());
            (V::Sig(ts), v)
        }
        T::B(b'v') => {
            let k = sx::pick(g.variants.len());
            let t = crate::wire::single(g.variants[k].as_bytes()).unwrap();
            // only later entries inside it, so that the nesting ends
            let (v, c) = value(&t, &Gen { variants: &g.variants[k + 1..], ..*g });
            (V::Var(t, Box::new(v)), Value::Variant(Box::new(c)))
        }
        T::B(c) => number(*c),
        T::A(e) => {
            let n = sx::pick(g.arrays + 1);
            let (mut vs, mut cs) = (Vec::new(), Vec::new());
            for _ in 0..n {
                let (v, c) = value(e, g);
                vs.push(v);
                cs.push(c);
            }
            let a = Array::new(cs, to_type(e));
            sx::check(a.is_ok(), 91);
            (V::A((**e).clone(), vs), Value::Array(a.unwrap()))
        }
        T::S(ts) => {
            let (mut vs, mut cs) = (Vec::new(), Vec::new());
            for t in ts {
                let (v, c) = value(t, g);
                vs.push(v);
                cs.push(c);
            }
            let s = Struct::try_from(cs);
            sx::check(s.is_ok(), 92);
            (V::S(vs), Value::Struct(s.unwrap()))
        }
        T::D(kv) => {
            let (a, x) = value(&kv.0, g);
            let (b, y) = value(&kv.1, g);
            (V::D(Box::new((a, b))), Value::DictEntry(Box::new((x, y))))
        }
    }
}
pub fn values(ts: &[T], g: &Gen) -> (Vec<V>, Vec<Value>) {
    let (mut vs, mut cs) = (Vec::new(), Vec::new());
    for t in ts {
        let (v, c) = value(t, g);
        vs.push(v);
        cs.push(c);
    }
    (vs, cs)
}

fn number(c: u8) -> (V, Value) {
    let n = match crate::wire::width(c) {
        1 => sx::u8() as u64,
        2 => sx::u16() as u64,
        4 if c == b'b' => sx::bool() as u64,
        4 => sx::u32() as u64,
        _ => sx::u64(),
    };
    let v = match c {
        b'y' => Value::Byte(n as u8),
        b'b' => Value::Boolean(n == 1),
        b'n' => Value::Int16(n as i16),
        b'q' => Value::Uint16(n as u16),
        b'i' => Value::Int32(n as i32),
        b'u' => Value::Uint32(n as u32),
        b'x' => Value::Int64(n as i64),
        b't' => Value::Uint64(n),
        b'd' => Value::Double(f64::from_bits(n)),
        _ => return (V::Fd(n as i32), Value::UnixFD(n as i32)),
    };
    (V::N(c, n), v)
}

/// Equality of values with doubles compared by their bits.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Double(x), Value::Double(y)) => x.to_bits() == y.to_bits(),
        (Value::Array(x), Value::Array(y)) => x.get_type() == y.get_type() && same_all(x.as_ref(), y.as_ref()),
        (Value::Struct(x), Value::Struct(y)) => same_all(x.as_ref(), y.as_ref()),
        (Value::DictEntry(x), Value::DictEntry(y)) => same(&x.0, &y.0) && same(&x.1, &y.1),
        (Value::Variant(x), Value::Variant(y)) => same(x, y),
        (a, b) => a == b,
    }
}
pub fn same_all(a: &[Value], b: &[Value]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
