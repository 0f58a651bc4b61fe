//! Encoding and decoding give back the message.
use crate::{build, c12, parts, sx, wire};
use bytes::Bytes;
use dbus_message_parser::{message::Message, value::Type};

fn verify(mut h: parts::H, types: Vec<wire::T>, vs: Vec<wire::V>, cs: Vec<dbus_message_parser::value::Value>, stale: usize) {
    match stale {
        0 => {}
        1 => h.fields.signature = Some(vec![Type::Double]),
        _ => h.fields.signature = Some(Vec::new()),
    }
    let m = h.message(cs);
    let e = match m.encode() {
        Ok(e) => e,
        Err(_) => {
            sx::check(false, 30);
            return;
        }
    };
    sx::observe(e.len() as u64);
    match Message::decode(Bytes::from(e.to_vec())) {
        Ok((d, n)) => {
            sx::check(n == e.len(), 31);
            let want = h.expect(types, vs, None, n);
            let x = c12::differs(&d, &want);
            sx::check(x == 0, x);
            sx::check(build::same_all(m.get_body(), d.get_body()), 32);
            // once more
            sx::check(matches!(d.encode(), Ok(f) if f == e), 33);
            sx::reach(1);
        }
        Err(_) => sx::check(false, 34),
    }
}

/// Headers with an empty or a small body.  params: message type, which fields (see parts::header),
/// signature of the body.
pub fn h_c08_header() {
    let kind = sx::param(0) as u8;
    let how = sx::param_bytes(1);
    let ts = wire::signature(&sx::param_bytes(2)).unwrap();
    let h = parts::header(kind, &how);
    let g = build::Gen { strings: 1, arrays: 1, variants: parts::MENUS[0] };
    let (vs, cs) = build::values(&ts, &g);
    let stale = sx::pick(3);
    verify(h, ts, vs, cs, stale);
}
/// Bodies.  params: signature, longest string, longest array, menu of variants.
pub fn h_c08_body() {
    let ts = wire::signature(&sx::param_bytes(0)).unwrap();
    let g = build::Gen { strings: sx::param(1), arrays: sx::param(2), variants: parts::MENUS[sx::param(3)] };
    let h = parts::header(2, b"00000000");
    let (vs, cs) = build::values(&ts, &g);
    verify(h, ts, vs, cs, 0);
}
const TYPES: [&str; 22] = [
    "y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "ay", "at", "as", "(y)", "(yt)", "a(yq)", "a{sv}", "aay", "{yq}",
];
/// Sequences of types.  params: how many, first type.
pub fn h_c08_types() {
    let mut ts = Vec::new();
    for i in 0..sx::param(0) {
        let k = if i == 0 { sx::param(1) } else { sx::pick(TYPES.len()) };
        ts.push(wire::single(TYPES[k].as_bytes()).unwrap());
    }
    let g = build::Gen { strings: 0, arrays: 1, variants: &["q"] };
    let h = parts::header(2, b"00000000");
    let (vs, cs) = build::values(&ts, &g);
    verify(h, ts, vs, cs, 0);
}
/// A string, an array or a path of the given length.  params: what, length.
pub fn h_c08_long() {
    let (t, v, c) = c11_long(sx::param(0), sx::param(1));
    let h = parts::header(2, b"00000000");
    verify(h, vec![t], vec![v], vec![c], 0);
}
/// A long value with symbolic bytes at its end.
pub fn c11_long(what: usize, n: usize) -> (wire::T, wire::V, dbus_message_parser::value::Value) {
    use dbus_message_parser::value::{Array, Struct, Value};
    use std::convert::TryFrom;
    use wire::{T, V};
    match what {
        0 => {
            let mut s = vec![b'a'; n];
            if n > 0 {
                s[n - 1] = build::letter();
            }
            let c = Value::String(build::string(&s));
            (T::B(b's'), V::Str(b's', s), c)
        }
        1 => {
            let mut s = vec![b'x'; n + 1];
            s[0] = b'/';
            if n > 0 {
                s[n] = build::letter();
            }
            let c = Value::ObjectPath(parts::path(&s));
            (T::B(b'o'), V::Str(b'o', s), c)
        }
        2 => {
            let mut s = vec![7u8; n];
            if n > 0 {
                s[n - 1] = sx::u8();
            }
            let a = Array::new(s.iter().map(|b| Value::Byte(*b)).collect(), Type::Byte).unwrap();
            let v = V::A(T::B(b'y'), s.iter().map(|b| V::N(b'y', *b as u64)).collect());
            (T::A(Box::new(T::B(b'y'))), v, Value::Array(a))
        }
        3 => {
            // signature
            let ts: Vec<T> = (0..n).map(|i| T::B(b"ybnqiuxtdsogv"[i % 13])).collect();
            let c = Value::Signature(ts.iter().map(build::to_type).collect());
            (T::B(b'g'), V::Sig(ts), c)
        }
        4 => {
            // variant of a struct of n members
            let b: Vec<u8> = (0..n).map(|i| if i + 1 == n { sx::u8() } else { i as u8 }).collect();
            let v = V::S(b.iter().map(|b| V::N(b'y', *b as u64)).collect());
            let c = Value::Struct(Struct::try_from(b.iter().map(|b| Value::Byte(*b)).collect::<Vec<_>>()).unwrap());
            (T::B(b'v'), V::Var(wire::type_of(&v), Box::new(v)), Value::Variant(Box::new(c)))
        }
        5 => {
            // array of n strings
            let mut vs = Vec::new();
            let mut cs = Vec::new();
            for i in 0..n {
                let s = vec![if i + 1 == n { build::letter() } else { b'z' }; i % 5];
                cs.push(Value::String(build::string(&s)));
                vs.push(V::Str(b's', s));
            }
            let a = Array::new(cs, Type::String).unwrap();
            (T::A(Box::new(T::B(b's'))), V::A(T::B(b's'), vs), Value::Array(a))
        }
        _ => {
            // array of n elements of another type, of which one is symbolic
            let ty = wire::single(ELEMENTS[what - 6].as_bytes()).unwrap();
            let (plain, crate_plain) = fixed(&ty);
            let g = build::Gen { strings: 0, arrays: 0, variants: &["u"] };
            let (v, c) = build::value(&ty, &g);
            let at = if n < 2 { 0 } else { [n - 1, 0][sx::pick(2)] };
            let mut vs = vec![plain; n];
            let mut cs = vec![crate_plain; n];
            if n > 0 {
                vs[at] = v;
                cs[at] = c;
            }
            let a = Array::new(cs, build::to_type(&ty)).unwrap();
            (T::A(Box::new(ty.clone())), V::A(ty, vs), Value::Array(a))
        }
    }
}
pub const ELEMENTS: [&str; 11] = ["q", "u", "t", "b", "d", "(yy)", "{yq}", "v", "ay", "(t)", "g"];
/// A value of the type.
fn fixed(t: &wire::T) -> (wire::V, dbus_message_parser::value::Value) {
    use dbus_message_parser::value::{Array, Struct, Value};
    use std::convert::TryFrom;
    use wire::{T, V};
    match t {
        T::B(b'y') => (V::N(b'y', 5), Value::Byte(5)),
        T::B(b'q') => (V::N(b'q', 0x102), Value::Uint16(0x102)),
        T::B(b'u') => (V::N(b'u', 7), Value::Uint32(7)),
        T::B(b't') => (V::N(b't', 9), Value::Uint64(9)),
        T::B(b'b') => (V::N(b'b', 1), Value::Boolean(true)),
        T::B(b'd') => (V::N(b'd', 1f64.to_bits()), Value::Double(1.0)),
        T::B(b'g') => (V::Sig(vec![T::B(b'y')]), Value::Signature(vec![Type::Byte])),
        T::B(_) => (V::Var(T::B(b'y'), Box::new(V::N(b'y', 3))), Value::Variant(Box::new(Value::Byte(3)))),
        T::A(e) => {
            let (v, c) = fixed(e);
            (V::A((**e).clone(), vec![v]), Value::Array(Array::new(vec![c], build::to_type(e)).unwrap()))
        }
        T::S(ts) => {
            let (vs, cs): (Vec<V>, Vec<Value>) = ts.iter().map(fixed).unzip();
            (V::S(vs), Value::Struct(Struct::try_from(cs).unwrap()))
        }
        T::D(kv) => {
            let ((a, x), (b, y)) = (fixed(&kv.0), fixed(&kv.1));
            (V::D(Box::new((a, b))), Value::DictEntry(Box::new((x, y))))
        }
    }
}
