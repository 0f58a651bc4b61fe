use crate::{nest, sx, wire};
use dbus_message_parser::value::Type;
use std::convert::TryFrom;

fn text(s: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(s) }
}

/// The alignment of a type and of all its parts.
fn aligned(t: &wire::T, c: &Type) -> bool {
    c.get_alignment() == wire::align(t)
        && match (t, c) {
            (wire::T::A(t), Type::Array(c)) => aligned(t, c),
            (wire::T::S(t), Type::Struct(c)) => t.iter().zip(c).all(|(t, c)| aligned(t, c)),
            (wire::T::D(t), Type::DictEntry(c)) => aligned(&t.0, &c.0) && aligned(&t.1, &c.1),
            _ => true,
        }
}
/// Everything the property says about the byte string `s`.
fn verify(s: &[u8], ascii: bool) {
    let want = wire::signature(s);
    let got = Type::from_bytes_to_signature(s);
    sx::observe(got.is_ok() as u64);
    sx::check(got.is_ok() == want.is_some(), 1);
    let one = Type::try_from(s);
    let single = matches!(&want, Some(w) if w.len() == 1);
    sx::check(one.is_ok() == single, 2);
    if ascii {
        let t = Type::from_string_to_signature(text(s));
        sx::check(t == got, 3);
        sx::check(Type::try_from(text(s)) == one, 4);
    }
    match (want, got) {
        (Some(w), Ok(g)) => {
            sx::reach(1);
            sx::check(wire::same_types(&w, &g), 5);
            sx::check(w.iter().zip(&g).all(|(w, g)| aligned(w, g)), 10);
            let r = Type::from_signature_to_string(&g);
            sx::check(matches!(&r, Ok(r) if r.as_bytes() == s), 6);
            let mut shown = String::new();
            for t in &g {
                let d = t.to_string();
                let back = Type::try_from(&d[..]);
                sx::check(matches!(&back, Ok(b) if b == t), 7);
                shown.push_str(&d);
            }
            sx::check(shown.as_bytes() == s, 8);
            if let (true, Ok(o)) = (single, one) {
                sx::check(o == g[0], 9);
                sx::reach(3);
            }
        }
        _ => sx::reach(2),
    }
}

/// Every byte string.  param: length.
pub fn h_c05_all() {
    let s = sx::vec(sx::param(0));
    verify(&s, false);
}
/// One representative of the basic types, every bracket, and one code that is none.
/// param: length.
pub fn h_c05_shape() {
    let s = sx::vec(sx::param(0));
    for c in &s {
        let c = *c;
        sx::assume(
            (c == b'y') | (c == b'v') | (c == b'a') | (c == b'(') | (c == b')') | (c == b'{') | (c == b'}') | (c == b'z'),
        );
    }
    verify(&s, true);
}
/// Every UTF-8 text that is ASCII or begins with a two-byte character.  param: length.
pub fn h_c05_str() {
    let s = crate::build::utf8(sx::param(0));
    verify(&s, true);
}
/// A valid signature with any ASCII character put in.  params: signature.
pub fn h_c05_put() {
    let mut s = sx::param_bytes(0);
    let i = sx::pick(s.len() + 1);
    let c = sx::u8();
    sx::assume(c < 128);
    s.insert(i, c);
    verify(&s, true);
}
/// A template with some symbolic bytes.
pub fn h_c05_text() {
    let s = sx::template(0);
    verify(&s, false);
}
/// One or two such types, and their place.
fn place(sib: usize, open: &[usize]) {
    let inner = sx::u8();
    let mut s = Vec::new();
    let mut one = |inner: u8| s.extend_from_slice(&nest::signature(open, &[inner]));
    match sib {
        0 => one(inner),
        // the limits apply to each of two siblings separately
        1 => {
            one(b'y');
            one(inner);
        }
        _ => {
            one(b'y');
            s.insert(0, b'(');
            s.push(b'a');
            s.extend_from_slice(&nest::signature(open, &[inner]));
            s.push(b')');
        }
    }
    verify(&s, false);
}
/// Deep nesting: runs of containers, siblings after them, and a symbolic innermost type.  params:
/// number of runs, siblings, kinds of containers.
pub fn h_c05_deep() {
    let mut open = Vec::new();
    for i in 0..sx::param(0) {
        let c = sx::pick(sx::param(2));
        let n = if i == 0 { 30 + sx::pick(4) } else { [1, 2, 32][sx::pick(3)] };
        open.extend(vec![c; n]);
    }
    place(sx::param(1), &open);
}
/// A group of containers of different kinds, repeated.  params: size of the group, kinds.
pub fn h_c05_weave() {
    let unit: Vec<usize> = (0..sx::param(0)).map(|_| sx::pick(sx::param(1))).collect();
    let n = 31 + sx::pick(3);
    let mut open = Vec::new();
    for _ in 0..n {
        open.extend_from_slice(&unit);
    }
    // so that one kind is one deeper or less deep than the others
    open.truncate(open.len() - sx::pick(unit.len()));
    place(0, &open);
}
/// Lengths around the maximum.  params: length, period of the repeated template, template.
pub fn h_c05_long() {
    let n = sx::param(0);
    let unit = sx::param_bytes(1);
    let mut s = Vec::new();
    while s.len() + unit.len() <= n {
        s.extend_from_slice(&unit);
    }
    while s.len() < n {
        s.push(b'y');
    }
    let i = [0, n / 2, n - 1][sx::pick(3)];
    s[i] = sx::u8();
    verify(&s, false);
}
