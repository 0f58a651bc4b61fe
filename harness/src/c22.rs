//! Names and paths keep their text.
use crate::{grammar, sx};
use dbus_message_parser::value::{Bus, Error, Interface, Member, ObjectPath, UniqueConnectionName, WellKnownBusName};
use std::convert::TryFrom;

fn text(s: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(s) }
}
fn one<T>(v: Result<T, impl Sized>, s: &[u8], t: &[u8], string: fn(T) -> String)
where
    T: std::fmt::Display + AsRef<str> + PartialEq<str> + PartialEq + Clone,
{
    match v {
        Ok(v) => {
            sx::check(v.as_ref().as_bytes() == s, 1);
            sx::check(v.to_string().as_bytes() == s, 2);
            sx::check(v == *text(s), 3);
            sx::check((v == *text(t)) == (s == t), 4);
            let c = v.clone();
            sx::check(c == v, 5);
            sx::check(string(c).as_bytes() == s, 6);
            sx::check(string(v).as_bytes() == s, 7);
            sx::reach(1);
        }
        Err(_) => sx::check(false, 8),
    }
}
fn two<T: PartialEq + Ord + PartialOrd>(a: Result<T, impl Sized>, b: Result<T, impl Sized>, s: &[u8], t: &[u8]) {
    match (a, b) {
        (Ok(a), Ok(b)) => {
            sx::check((a == b) == (s == t), 9);
            sx::check(a.cmp(&b) == s.cmp(t), 10);
            sx::check(a.partial_cmp(&b) == Some(s.cmp(t)), 11);
            sx::check((a < b) == (s < t) && (a >= b) == (s >= t), 12);
            sx::reach(2);
        }
        _ => sx::check(false, 8),
    }
}
fn valid(kind: usize, s: &[u8]) -> bool {
    match kind {
        0 | 1 => grammar::interface(s),
        2 => grammar::member(s),
        3 => grammar::object_path(s),
        4 => grammar::bus(s),
        5 => grammar::unique(s),
        _ => grammar::well_known(s),
    }
}
macro_rules! each {
    ($kind:expr, $t:ident => $e:expr) => {
        match $kind {
            0 => { type $t = Interface; $e }
            1 => { type $t = Error; $e }
            2 => { type $t = Member; $e }
            3 => { type $t = ObjectPath; $e }
            4 => { type $t = Bus; $e }
            5 => { type $t = UniqueConnectionName; $e }
            _ => { type $t = WellKnownBusName; $e }
        }
    };
}
/// params: kind, length, length of another text, 0: from bytes, 1: from &str, 2: from String.
pub fn h_c22_text() {
    let kind = sx::param(0);
    let s = sx::vec(sx::param(1));
    sx::assume(valid(kind, &s));
    let t = sx::vec(sx::param(2));
    sx::ascii(&t);
    each!(kind, T => match sx::param(3) {
        0 => one(T::try_from(&s[..]), &s, &t, String::from),
        1 => one(T::try_from(text(&s)), &s, &t, String::from),
        _ => one(T::try_from(String::from(text(&s))), &s, &t, String::from),
    })
}
/// Pairs.  params: kind, lengths.
pub fn h_c22_pair() {
    let kind = sx::param(0);
    let (s, t) = (sx::vec(sx::param(1)), sx::vec(sx::param(2)));
    sx::assume(valid(kind, &s));
    sx::assume(valid(kind, &t));
    if kind == 4 && (s[0] == b':') != (t[0] == b':') {
        // unique and well-known names: never equal
        sx::check(Bus::try_from(&s[..]).ok() != Bus::try_from(&t[..]).ok(), 13);
        sx::reach(3);
        return;
    }
    each!(kind, T => two(T::try_from(&s[..]), T::try_from(&t[..]), &s, &t))
}
/// Long names that differ in one place.  params: kind, length, place.
pub fn h_c22_long() {
    let (kind, n, at) = (sx::param(0), sx::param(1), sx::param(2));
    let start: &[u8] = match kind {
        2 => b"m",
        3 => b"/x",
        5 => b":1.x",
        _ => b"i.x",
    };
    let mut s = vec![b'k'; n];
    s[..start.len()].copy_from_slice(start);
    let mut t = s.clone();
    let at = at.max(start.len());
    s[at] = sx::u8();
    t[at] = sx::u8();
    sx::assume(grammar::is_alpha_(s[at]));
    sx::assume(grammar::is_alpha_(t[at]));
    each!(kind, T => {
        one(T::try_from(&s[..]), &s, &t, String::from);
        two(T::try_from(&s[..]), T::try_from(&t[..]), &s, &t);
    })
}
