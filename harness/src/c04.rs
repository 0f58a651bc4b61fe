use crate::{grammar, sx};
use dbus_message_parser::value::ObjectPath;
use std::convert::TryFrom;

/// A valid object path with n symbolic bytes.
fn path(n: usize) -> (Vec<u8>, ObjectPath) {
    let mut s = sx::vec(n);
    s[0] = b'/';
    for i in 1..n {
        // a separator may follow an element character and needs one after it
        if i + 1 < n && s[i - 1] != b'/' && sx::pick(2) == 1 {
            s[i] = b'/';
        } else {
            sx::assume(grammar::is_elem(s[i]));
        }
    }
    let p = ObjectPath::try_from(&s[..]);
    sx::check(p.is_ok(), 90);
    (s, p.unwrap())
}

fn text(p: &ObjectPath) -> &[u8] {
    (p.as_ref() as &str).as_bytes()
}

fn element(s: &[u8]) -> bool {
    let mut ok = !s.is_empty();
    for c in s {
        if !(grammar::is_elem(*c)) {
            ok = false;
        }
    }
    ok
}

/// Two appends to a path.  params: path length, first and second element length, 1 for ASCII only.
pub fn h_c04_append() {
    let (mut want, mut p) = path(sx::param(0));
    for i in 0..2 {
        let e = sx::vec(sx::param(1 + i));
        // arbitrary text when short, ASCII otherwise
        if sx::param(3) == 1 {
            sx::ascii(&e);
        } else {
            sx::assume(std::str::from_utf8(&e).is_ok());
        }
        let t = unsafe { std::str::from_utf8_unchecked(&e) };
        let ok = element(&e);
        let before = p.clone();
        let got = p.append(t);
        sx::observe(got as u64);
        sx::check(got == ok, 1);
        if ok {
            if want.len() > 1 {
                want.push(b'/');
            }
            want.extend_from_slice(&e);
            sx::reach(1);
        } else {
            sx::check(p == before, 2);
            sx::reach(2);
        }
        sx::check(text(&p) == &want[..], 3);
        sx::check(grammar::object_path(text(&p)), 4);
        // the result is below what it was appended to
        sx::check(p.starts_with(&before) == ok, 5);
    }
}

/// Prefix test and stripping.  params: the two lengths.
pub fn h_c04_prefix() {
    let (a, pa) = path(sx::param(0));
    let (b, pb) = path(sx::param(1));
    // what remains of a below b, if b is a proper ancestor
    let rest: Option<&[u8]> = if b.len() == 1 {
        if a.len() > 1 {
            Some(&a[1..])
        } else {
            None
        }
    } else if a.len() > b.len() && a[..b.len()] == b[..] && a[b.len()] == b'/' {
        Some(&a[b.len() + 1..])
    } else {
        None
    };
    sx::check(pa.starts_with(&pb) == rest.is_some(), 1);
    match (pa.strip_prefix_elements(&pb), rest) {
        (Some(it), Some(rest)) => {
            let mut i = 0;
            let mut n = 0;
            for e in it {
                let e = e.as_bytes();
                if n > 0 {
                    sx::check(i < rest.len() && rest[i] == b'/', 2);
                    i += 1;
                }
                sx::check(i + e.len() <= rest.len(), 3);
                sx::check(&rest[i..i + e.len()] == e, 4);
                sx::check(element(e), 5);
                i += e.len();
                n += 1;
            }
            sx::check(i == rest.len(), 6);
            sx::observe(n);
            sx::reach(1);
        }
        (None, None) => sx::reach(2),
        _ => sx::check(false, 7),
    }
}

/// `n` bytes: a repeated unit, the last byte symbolic.
fn repeated(unit: &[u8], n: usize) -> Vec<u8> {
    let mut s = Vec::new();
    while s.len() < n {
        s.push(unit[s.len() % unit.len()]);
    }
    let at = [0, n / 2, n - 1][sx::pick(3)];
    s[at] = sx::u8();
    sx::assume(s[at] < 128);
    s
}
/// Long elements on long paths.  params: length of the path, of the element.
pub fn h_c04_long() {
    let n = sx::param(0);
    let mut want = vec![b'/'];
    while want.len() + 3 < n {
        want.extend_from_slice(b"ab/");
    }
    want.resize(n, b'c');
    let mut p = ObjectPath::try_from(&want[..]).unwrap();
    let e = repeated(b"x_9", sx::param(1));
    let ok = element(&e);
    let before = p.clone();
    let got = p.append(unsafe { std::str::from_utf8_unchecked(&e) });
    sx::check(got == ok, 1);
    if ok {
        if n > 1 {
            want.push(b'/');
        }
        want.extend_from_slice(&e);
        sx::reach(1);
    } else {
        sx::check(p == before, 2);
        sx::reach(2);
    }
    sx::check(text(&p) == &want[..], 3);
    sx::check(p.starts_with(&before) == ok, 5);
    if ok {
        let mut it = p.strip_prefix_elements(&before).unwrap();
        sx::check(matches!(it.next(), Some(x) if x.as_bytes() == &e[..]), 6);
        sx::check(it.next().is_none(), 6);
    }
}
/// Paths of many elements: one that was built by appending, and a prefix of which one letter may
/// differ.  params: elements of the path, elements of the prefix.
pub fn h_c04_many() {
    let (n, m) = (sx::param(0), sx::param(1));
    let name = |i: usize| [b'a' + (i % 26) as u8, b'0' + (i % 10) as u8];
    let mut p = ObjectPath::default();
    let mut want = Vec::new();
    for i in 0..n {
        let e = name(i);
        sx::check(p.append(unsafe { std::str::from_utf8_unchecked(&e) }), 1);
        want.push(b'/');
        want.extend_from_slice(&e);
    }
    sx::check(text(&p) == &want[..], 3);
    let mut b = Vec::new();
    for i in 0..m {
        b.push(b'/');
        b.extend_from_slice(&name(i));
    }
    let at = [0, m / 2, m - 1][sx::pick(3)] * 3 + 1;
    let old = b[at];
    b[at] = sx::u8();
    sx::assume(grammar::is_elem(b[at]));
    let q = ObjectPath::try_from(&b[..]).unwrap();
    let under = n > m && b[at] == old;
    sx::check(p.starts_with(&q) == under, 5);
    match p.strip_prefix_elements(&q) {
        Some(it) => {
            sx::check(under, 7);
            let mut k = m;
            for e in it {
                sx::check(k < n && e.as_bytes() == &name(k)[..], 6);
                k += 1;
            }
            sx::check(k == n, 6);
            sx::reach(1);
        }
        None => {
            sx::check(!under, 7);
            sx::reach(2);
        }
    }
}
