//! Containers and the types reported for values.
use crate::{build, msg, nest, parts, sx, wire};
use bytes::Bytes;
use dbus_message_parser::{
    message::Message,
    value::{Array, Struct, Type, Value},
};
use std::convert::TryFrom;

const TYPES: [&str; 28] = [
    "y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "h", "ay", "as", "aay", "av", "(y)", "(yy)", "(s)", "((y))", "{yy}", "{ys}", "a{ys}", "a(y)",
    "(ay)", "{s(y)}",
];
const GEN: build::Gen = build::Gen { strings: 0, arrays: 1, variants: &["q", "as"] };

/// Elements of any types.  params: number of elements, declared type.
pub fn h_c21_array() {
    let t = wire::single(TYPES[sx::param(1)].as_bytes()).unwrap();
    let (mut cs, mut all) = (Vec::new(), true);
    for _ in 0..sx::param(0) {
        let k = sx::pick(TYPES.len());
        let e = wire::single(TYPES[k].as_bytes()).unwrap();
        if e != t {
            all = false;
        }
        cs.push(build::value(&e, &GEN).1);
    }
    let kept = cs.clone();
    match Array::new(cs, build::to_type(&t)) {
        Ok(a) => {
            sx::check(all, 1);
            sx::check(*a.get_type() == build::to_type(&t), 2);
            sx::check(build::same_all(a.as_ref(), &kept), 3);
            let v = Value::Array(a.clone());
            sx::check(v.get_type() == Ok(Type::Array(Box::new(build::to_type(&t)))), 4);
            sx::check(build::same_all(&Vec::from(a), &kept), 5);
            sx::reach(1);
        }
        Err(_) => {
            sx::check(!all, 6);
            sx::reach(2);
        }
    }
}
/// params: number of members.
pub fn h_c21_struct() {
    let n = sx::param(0);
    let (mut cs, mut ts) = (Vec::new(), Vec::new());
    for _ in 0..n {
        let k = sx::pick(TYPES.len());
        let e = wire::single(TYPES[k].as_bytes()).unwrap();
        cs.push(build::value(&e, &GEN).1);
        ts.push(build::to_type(&e));
    }
    let kept = cs.clone();
    match Struct::try_from(cs) {
        Ok(s) => {
            sx::check(n > 0, 7);
            sx::check(build::same_all(s.as_ref(), &kept), 8);
            sx::check(Value::Struct(s.clone()).get_type() == Ok(Type::Struct(ts)), 9);
            sx::check(build::same_all(&Vec::from(s), &kept), 10);
            sx::reach(3);
        }
        Err(_) => {
            sx::check(n == 0, 11);
            sx::reach(4);
        }
    }
}
/// Values of a type.  params: signature, longest string, longest array, menu of variants.
pub fn h_c21_type() {
    let sig = sx::param_bytes(0);
    let ts = wire::signature(&sig).unwrap();
    let g = build::Gen { strings: sx::param(1), arrays: sx::param(2), variants: parts::MENUS[sx::param(3)] };
    let (_, cs) = build::values(&ts, &g);
    typed(&sig, &ts, cs);
}
fn typed(sig: &[u8], ts: &[wire::T], cs: Vec<Value>) {
    let mut got = Vec::new();
    for (t, c) in ts.iter().zip(&cs) {
        match c.get_type() {
            Ok(g) => {
                sx::check(g == build::to_type(t), 12);
                sx::check(deep(t, c), 13);
                got.push(g);
            }
            Err(_) => sx::check(false, 14),
        }
    }
    sx::check(matches!(Type::from_signature_to_string(&got), Ok(s) if s.as_bytes() == sig), 15);
    let mut m = msg::method_return();
    for c in cs {
        m.add_value(c);
    }
    sx::check(matches!(m.get_signature(), Ok(s) if s == got), 16);
    match m.encode_with_fds() {
        Ok((e, fds)) => match wire::message(&e, &fds) {
            Some(w) => {
                sx::check(w.fields.signature.as_deref().unwrap_or(&[]) == ts, 17);
                sx::reach(5);
            }
            None => sx::check(false, 18),
        },
        Err(_) => sx::check(false, 19),
    }
}
/// The value and everything inside it report the types of the signature.
fn deep(t: &wire::T, v: &Value) -> bool {
    if v.get_type() != Ok(build::to_type(t)) {
        return false;
    }
    match (t, v) {
        (wire::T::A(e), Value::Array(a)) => *a.get_type() == build::to_type(e) && a.as_ref().iter().all(|x| deep(e, x)),
        (wire::T::S(ts), Value::Struct(s)) => ts.len() == s.as_ref().len() && ts.iter().zip(s.as_ref()).all(|(t, x)| deep(t, x)),
        (wire::T::D(kv), Value::DictEntry(b)) => deep(&kv.0, &b.0) && deep(&kv.1, &b.1),
        (wire::T::A(_), _) | (wire::T::S(_), _) | (wire::T::D(_), _) => false,
        (wire::T::B(b'v'), Value::Variant(_)) => true,
        (_, Value::Array(_) | Value::Struct(_) | Value::DictEntry(_) | Value::Variant(_)) => false,
        _ => true,
    }
}
/// Nested deeply.  params: number of kinds of containers that take turns (0: only variants), how many
/// times.
pub fn h_c21_deep() {
    let n = sx::param(1);
    let unit: Vec<usize> = (0..sx::param(0)).map(|_| sx::pick(nest::KINDS)).collect();
    let mut open = Vec::new();
    for _ in 0..n {
        open.extend_from_slice(&unit);
    }
    let mut depth = [0; 3];
    for k in &open {
        depth[nest::class(*k)] += 1;
    }
    let sig = if unit.is_empty() { b"v".to_vec() } else { nest::signature(&open, b"y") };
    let fine = sig.len() <= 255 && depth.iter().all(|d| *d <= 32);
    let mut v = Value::Byte(sx::u8());
    if unit.is_empty() {
        for _ in 0..n {
            v = Value::Variant(Box::new(v));
        }
    }
    let mut ok = true;
    for k in open.iter().rev() {
        let t = match (k, v.get_type()) {
            (0, Ok(t)) => Some(t),
            (0, Err(_)) => None,
            _ => Some(Type::Byte),
        };
        let next = match t {
            Some(t) if *k == 0 => Array::new(vec![v.clone()], t).ok().map(Value::Array),
            Some(_) => nest::built(*k, &wire::T::B(b'y'), v.clone()),
            None => None,
        };
        match next {
            Some(x) => v = x,
            None => {
                ok = false;
                break;
            }
        }
    }
    // within the limits every value has a type
    sx::check(ok || depth.iter().any(|d| *d > 32), 20);
    if !ok {
        return;
    }
    let t = v.get_type();
    let rendered = match &t {
        Ok(t) => Type::from_signature_to_string(std::slice::from_ref(t)).ok(),
        Err(_) => None,
    };
    if fine {
        sx::check(matches!(&rendered, Some(s) if s.as_bytes() == &sig[..]), 21);
        sx::reach(6);
    } else {
        // a type is reported only if there is a signature for it, and then the value is encoded
        sx::check(rendered.is_none(), 22);
        if depth[0] == 0 && (depth[1] > 32 || depth[2] > 32) {
            sx::check(t.is_err(), 28);
        }
        let mut m = msg::method_return();
        m.add_value(v);
        sx::check(m.encode_with_fds().is_err(), 23);
        sx::reach(7);
    }
}
/// One element of another type among many.  params: number of elements, declared type.
pub fn h_c21_odd() {
    let n = sx::param(0);
    let t = wire::single(TYPES[sx::param(1)].as_bytes()).unwrap();
    let plain = build::Gen { strings: 0, arrays: 0, variants: &["q"] };
    let at = if n > 8 { [0, n / 2, n - 1][sx::pick(3)] } else { sx::pick(n) };
    let e = wire::single(TYPES[sx::pick(TYPES.len())].as_bytes()).unwrap();
    let usual = build::value(&t, &plain).1;
    let odd = build::value(&e, &GEN).1;
    let cs = (0..n).map(|i| if i == at { odd.clone() } else { usual.clone() }).collect();
    let a = Array::new(cs, build::to_type(&t));
    sx::check(a.is_ok() == (e == t), if e == t { 6 } else { 1 });
    if let Ok(a) = a {
        sx::check(a.as_ref().len() == n && a.as_ref().iter().all(|x| deep(&t, x)), 3);
        sx::check(Value::Array(a).get_type() == Ok(Type::Array(Box::new(build::to_type(&t)))), 4);
        sx::reach(10);
    } else {
        sx::reach(11);
    }
}
fn decoded(sig: &[u8], b: Vec<u8>) {
    match Message::decode_with_fds(Bytes::from(b), &[7, 8]) {
        Ok((m, n, _)) => {
            sx::observe(n as u64);
            sx::reach(8);
            match wire::signature(sig) {
                Some(ts) => {
                    let body = m.get_body();
                    sx::check(ts.len() == body.len(), 24);
                    let mut ok = ts.len() == body.len();
                    for (t, v) in ts.iter().zip(body) {
                        ok = ok && deep(t, v);
                    }
                    sx::check(ok, 25);
                    sx::check(matches!(m.get_signature(), Ok(s) if wire::same_types(&ts, &s)), 26);
                }
                None => sx::check(false, 27),
            }
        }
        Err(_) => sx::reach(9),
    }
}
/// Decoded values.  params: signature, template, 1 for little endian.
pub fn h_c21_tmpl() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    let b = msg::with_body(sx::param(2) == 1, &sig, &body);
    decoded(&sig, b);
}
/// Decoded values under a symbolic signature.  params: signature length, body length, 1 for little
/// endian.
pub fn h_c21_sig() {
    let sig = sx::vec(sx::param(0));
    let body = sx::vec(sx::param(1));
    let b = msg::with_body(sx::param(2) == 1, &sig, &body);
    decoded(&sig, b);
}
