//! Independent recognisers of the D-Bus name grammars (oracles).  They are written declaratively
//! over positions (an element start is a position 0 or after a separator), not as state machines.

pub fn is_alpha_(c: u8) -> bool {
    ((c >= b'a') & (c <= b'z')) | ((c >= b'A') & (c <= b'Z')) | (c == b'_')
}
pub fn is_digit(c: u8) -> bool {
    (c >= b'0') & (c <= b'9')
}
/// A character of an object path element.
pub fn is_elem(c: u8) -> bool {
    is_alpha_(c) | is_digit(c)
}

/// Elements separated by '.', at least two of them if `two`, non-empty, over [A-Za-z0-9_] plus '-' if
/// `hyphen`, not beginning with a digit unless `digit_first`.
pub fn dotted(s: &[u8], two: bool, hyphen: bool, digit_first: bool) -> bool {
    let mut ok = true;
    let mut dot = false;
    for i in 0..s.len() {
        let c = s[i];
        let first = i == 0 || s[i - 1] == b'.';
        let last = i + 1 == s.len();
        if c == b'.' {
            dot = true;
            // an empty element before it, or after it
            if first || last {
                ok = false;
            }
        } else if is_digit(c) {
            if first && !digit_first {
                ok = false;
            }
        } else if !(is_alpha_(c) || (hyphen && c == b'-')) {
            ok = false;
        }
    }
    ok && !s.is_empty() && (dot || !two)
}

/// Interface and error names.
pub fn interface(s: &[u8]) -> bool {
    s.len() <= 255 && dotted(s, true, false, false)
}
pub fn member(s: &[u8]) -> bool {
    s.len() <= 255 && dotted(s, false, false, false) && {
        let mut dot = false;
        for c in s {
            if *c == b'.' {
                dot = true;
            }
        }
        !dot
    }
}
pub fn well_known(s: &[u8]) -> bool {
    s.len() <= 255 && dotted(s, true, true, false)
}
pub fn unique(s: &[u8]) -> bool {
    s.len() <= 255 && !s.is_empty() && s[0] == b':' && dotted(&s[1..], true, true, true)
}
pub fn bus(s: &[u8]) -> bool {
    if !s.is_empty() && s[0] == b':' {
        unique(s)
    } else {
        well_known(s)
    }
}
pub fn object_path(s: &[u8]) -> bool {
    if s.is_empty() || s[0] != b'/' {
        return false;
    }
    if s.len() == 1 {
        return true;
    }
    let mut ok = s[s.len() - 1] != b'/';
    for i in 1..s.len() {
        let c = s[i];
        if c == b'/' {
            if s[i - 1] == b'/' {
                ok = false;
            }
        } else if !(is_alpha_(c) || is_digit(c)) {
            ok = false;
        }
    }
    ok
}
