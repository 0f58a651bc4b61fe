use crate::{build, msg, nest, sx, wire, wire::T, wire::V};
use bytes::Bytes;
use dbus_message_parser::{
    message::Message,
    value::{Array, Struct, Type, Value},
};
use std::convert::TryFrom;

/// Put a value into one of several containers, or none.
fn contain(how: usize, v: V, c: Value) -> (V, Value) {
    match how {
        0 => (v, c),
        // an array of two, the deep one last
        7 => {
            let t = wire::type_of(&v);
            let (w, d) = match (&v, &c) {
                (V::Var(..), _) => (V::Var(T::B(b'y'), Box::new(V::N(b'y', 7))), Value::Variant(Box::new(Value::Byte(7)))),
                _ => (V::N(b'n', 7), Value::Int16(7)),
            };
            let a = Value::Array(Array::new(vec![d, c], build::to_type(&t)).unwrap());
            (V::A(t, vec![w, v]), a)
        }
        _ => {
            let c = nest::built(how - 1, &wire::type_of(&v), c).unwrap();
            (nest::value(how - 1, v), c)
        }
    }
}

/// A tower of `depth` variants, the i-th inside a chosen container.
fn tower(depth: usize, mut how: impl FnMut(usize) -> usize) -> (V, Value) {
    let n = sx::u16();
    let (mut v, mut c) = (V::N(b'n', n as u64), Value::Int16(n as i16));
    for i in 0..depth {
        let (a, b) = contain(how(i), v, c);
        v = V::Var(wire::type_of(&a), Box::new(a));
        c = Value::Variant(Box::new(b));
    }
    contain(how(depth), v, c)
}

/// Encode and decode a body of towers.  params: up to three depths (0: none), kinds of containers,
/// 1 to put the towers into one struct.
pub fn h_c14_variants() {
    let mut vs = Vec::new();
    let mut cs = Vec::new();
    let mut ok = true;
    for i in 0..3 {
        let d = sx::param(i);
        if d > 0 {
            let (v, c) = tower(d, |_| sx::pick(sx::param(3)));
            vs.push(v);
            cs.push(c);
            ok &= d <= 4;
        }
    }
    if sx::param(4) == 1 {
        vs = vec![V::S(vs)];
        cs = vec![Value::Struct(Struct::try_from(cs).unwrap())];
    }
    check_towers(vs, cs, ok);
}
/// One kind of container at every level, another one at one of them.  params: depth.
pub fn h_c14_mixed() {
    let d = sx::param(0);
    let (base, odd, at) = (sx::pick(8), sx::pick(8), sx::pick(d + 1));
    let (v, c) = tower(d, |i| if i == at { odd } else { base });
    check_towers(vec![v], vec![c], d <= 4);
}
/// A dictionary entry with each type of key at one of the levels, or at all of them.  params: depth, 1 to
/// put each of them into an array.
pub fn h_c14_keys() {
    let d = sx::param(0);
    let (base, key, at) = (sx::pick(3), sx::pick(13), sx::pick(d + 2));
    let v = |i: usize| i == at || at == d + 1;
    let n = sx::u16();
    let (mut w, mut c) = (V::N(b'n', n as u64), Value::Int16(n as i16));
    for i in 0..d + 1 {
        if v(i) {
            let (k, kc) = a_key(key);
            w = V::D(Box::new((k, w)));
            c = Value::DictEntry(Box::new((kc, c)));
            if sx::param(1) == 1 {
                (w, c) = contain(1, w, c);
            }
        } else {
            (w, c) = contain(base, w, c);
        }
        if i < d {
            w = V::Var(wire::type_of(&w), Box::new(w));
            c = Value::Variant(Box::new(c));
        }
    }
    check_towers(vec![w], vec![c], d <= 4);
}
/// A key of each basic type but descriptors.
fn a_key(k: usize) -> (V, Value) {
    let g = build::Gen { strings: 0, arrays: 0, variants: &[] };
    let t = b"ybnqiuxtdsogs"[k];
    if k == 12 {
        return (V::Str(b's', b"ab".to_vec()), Value::String("ab".to_string()));
    }
    if matches!(t, b'o') {
        return (V::Str(b'o', b"/".to_vec()), Value::ObjectPath(Default::default()));
    }
    if matches!(t, b'g') {
        return (V::Sig(vec![T::B(b'y')]), Value::Signature(vec![Type::Byte]));
    }
    build::value(&T::B(t), &g)
}
fn check_towers(vs: Vec<V>, cs: Vec<Value>, ok: bool) {
    let le = sx::bool();
    // what the wire format says, decoded
    let mut w = wire::W::new(le);
    for v in &vs {
        w.value(v);
    }
    let sig = wire::rendered(&vs.iter().map(wire::type_of).collect::<Vec<T>>());
    let b = msg::with_body(le, &sig, &w.out);
    match Message::decode(Bytes::from(b)) {
        Ok((m, _)) => {
            sx::check(ok, 1);
            sx::check(wire::same_all(&vs, m.get_body()), 2);
            sx::reach(1);
        }
        Err(_) => {
            sx::check(!ok, 3);
            sx::reach(2);
        }
    }
    // the same values, encoded
    let mut m = msg::method_return();
    for c in cs {
        m.add_value(c);
    }
    let e = m.encode();
    sx::check(e.is_ok() == ok, 4);
}

/// Deeply nested types around a value, encoded.  Runs of containers in different orders.
/// params: number of runs, 1 to put the value into a variant, kinds of containers.
pub fn h_c14_types() {
    around_value(&runs(31), sx::param(1) == 1);
}
fn runs(first: usize) -> Vec<usize> {
    let mut open = Vec::new();
    for i in 0..sx::param(0) {
        let kind = sx::pick(sx::param(2));
        let n = if i == 0 { first + sx::pick(3) } else { [1, 2, 32][sx::pick(3)] };
        open.extend(vec![kind; n]);
    }
    open
}
/// A group of containers of different kinds, repeated.  params: size of the group, 1 to put the
/// value into a variant, kinds, 1 for an empty array.
pub fn h_c14_weave() {
    let unit: Vec<usize> = (0..sx::param(0)).map(|_| sx::pick(sx::param(2))).collect();
    let n = 31 + sx::pick(3);
    let mut open = Vec::new();
    for _ in 0..n {
        open.extend_from_slice(&unit);
    }
    open.truncate(open.len() - sx::pick(unit.len()));
    if sx::param(3) == 1 {
        around_nothing(&open, sx::param(1) == 1);
    } else {
        around_value(&open, sx::param(1) == 1);
    }
}
fn around_value(open: &[usize], variant: bool) {
    let b = sx::u8();
    let (mut v, mut c) = (V::N(b'y', b as u64), Value::Byte(b));
    let mut depth = [0usize; 3];
    // the innermost one last
    for kind in open.iter().rev() {
        depth[nest::class(*kind)] += 1;
        // Array::new itself reports types it cannot compute
        match nest::built(*kind, &wire::type_of(&v), c) {
            Some(x) => c = x,
            None => {
                sx::check(depth.iter().any(|d| *d > 32), 5);
                sx::reach(3);
                return;
            }
        }
        v = nest::value(*kind, v);
    }
    let sig = nest::signature(open, b"y");
    let fine = sig.len() <= 255 && depth.iter().all(|d| *d <= 32);
    sx::check(fine == wire::single(&sig).is_some(), 6);
    if variant {
        c = Value::Variant(Box::new(c));
    }
    let mut m = msg::method_return();
    m.add_value(c);
    let e = m.encode();
    sx::observe(e.is_ok() as u64);
    sx::check(e.is_ok() == fine, 7);
    if let Ok(e) = e {
        sx::reach(1);
        sx::check(Message::decode(Bytes::from(e.to_vec())).is_ok(), 8);
    } else {
        sx::reach(2);
    }
}
/// An empty array of a deeply nested type.  params as above.
pub fn h_c14_array_type() {
    around_nothing(&runs(30), sx::param(1) == 1);
}
fn around_nothing(open: &[usize], variant: bool) {
    let mut t = T::B(b'y');
    let mut depth = [1usize, 0, 0];
    for kind in open.iter().rev() {
        depth[nest::class(*kind)] += 1;
        t = nest::of_type(*kind, t);
    }
    let ty: Type = build::to_type(&t);
    let mut c = Value::Array(Array::new(Vec::new(), ty).unwrap());
    if variant {
        c = Value::Variant(Box::new(c));
    }
    let fine = nest::signature(open, b"y").len() < 255 && depth.iter().all(|d| *d <= 32);
    let mut m = msg::method_return();
    m.add_value(c);
    let e = m.encode();
    sx::observe(e.is_ok() as u64);
    sx::check(e.is_ok() == fine, 7);
    sx::reach(if fine { 1 } else { 2 });
}
/// Signatures around the maximum length, as a body, in one struct, in a variant, and as a value.
/// params: number of values, way.
pub fn h_c14_length() {
    let n = sx::param(0);
    let b = sx::u8();
    let many = || -> Vec<Value> { (0..n).map(|_| Value::Byte(b)).collect() };
    let mut m = msg::method_return();
    let len = match sx::param(1) {
        0 => {
            for v in many() {
                m.add_value(v);
            }
            n
        }
        1 => {
            m.add_value(Value::Struct(Struct::try_from(many()).unwrap()));
            n + 2
        }
        2 => {
            m.add_value(Value::Variant(Box::new(Value::Struct(Struct::try_from(many()).unwrap()))));
            n + 2
        }
        3 => {
            m.add_value(Value::Signature((0..n).map(|_| Type::Byte).collect()));
            n
        }
        _ => {
            let t = Type::Struct((0..n).map(|_| Type::Byte).collect());
            m.add_value(Value::Array(Array::new(Vec::new(), t).unwrap()));
            n + 3
        }
    };
    let e = m.encode();
    sx::check(e.is_ok() == (len <= 255), 9);
    match e {
        Ok(e) => {
            sx::reach(1);
            match Message::decode(Bytes::from(e.to_vec())) {
                Ok((d, _)) => sx::check(d.get_body() == m.get_body(), 10),
                Err(_) => sx::check(false, 11),
            }
        }
        Err(_) => sx::reach(2),
    }
}
