//! Ways to put one type or value into a container: 0: array, 1: struct, 2: the value of a dictionary
//! entry, 3: later member of a struct, 4: first of two members, 5: key of a dictionary entry.
use crate::{build, wire, wire::T, wire::V};
use dbus_message_parser::value::{Array, Struct, Value};
use std::convert::TryFrom;

pub const KINDS: usize = 6;

/// Which depth grows: arrays, structs, dictionary entries.
pub fn class(kind: usize) -> usize {
    [0, 1, 2, 1, 1, 2][kind]
}
/// Text before and after the inner type.
pub fn ends(kind: usize) -> (&'static [u8], &'static [u8]) {
    match kind {
        0 => (b"a", b""),
        1 => (b"(", b")"),
        2 => (b"{y", b"}"),
        3 => (b"(y", b")"),
        4 => (b"(", b"y)"),
        _ => (b"{", b"y}"),
    }
}
/// The signature of containers `open`, outermost first, around `inner`.
pub fn signature(open: &[usize], inner: &[u8]) -> Vec<u8> {
    let mut s = Vec::new();
    for k in open {
        s.extend_from_slice(ends(*k).0);
    }
    s.extend_from_slice(inner);
    for k in open.iter().rev() {
        s.extend_from_slice(ends(*k).1);
    }
    s
}
pub fn of_type(kind: usize, t: T) -> T {
    match kind {
        0 => T::A(Box::new(t)),
        1 => T::S(vec![t]),
        2 => T::D(Box::new((T::B(b'y'), t))),
        3 => T::S(vec![T::B(b'y'), t]),
        4 => T::S(vec![t, T::B(b'y')]),
        _ => T::D(Box::new((t, T::B(b'y')))),
    }
}
pub fn value(kind: usize, v: V) -> V {
    let b = || V::N(b'y', 7);
    match kind {
        0 => V::A(wire::type_of(&v), vec![v]),
        1 => V::S(vec![v]),
        2 => V::D(Box::new((b(), v))),
        3 => V::S(vec![b(), v]),
        4 => V::S(vec![v, b()]),
        _ => V::D(Box::new((v, b()))),
    }
}
/// None: an array that the crate refuses to build.
pub fn built(kind: usize, t: &T, c: Value) -> Option<Value> {
    let b = || Value::Byte(7);
    let s = |v: Vec<Value>| Value::Struct(Struct::try_from(v).unwrap());
    Some(match kind {
        0 => match Array::new(vec![c], build::to_type(t)) {
            Ok(a) => Value::Array(a),
            Err(_) => return None,
        },
        1 => s(vec![c]),
        2 => Value::DictEntry(Box::new((b(), c))),
        3 => s(vec![b(), c]),
        4 => s(vec![c, b()]),
        _ => Value::DictEntry(Box::new((c, b()))),
    })
}
