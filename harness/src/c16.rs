//! Match rules to text and back.
use crate::{build, c17, parts, rules, sx};
use dbus_message_parser::{
    match_rule::{Arg, ArgPath, MatchRule},
    value::{Bus, UniqueConnectionName},
};
use std::convert::TryFrom;

/// A rule of the given kind.  n: length of an argument's value.
pub fn rule(kind: usize, n: usize) -> MatchRule {
    match kind {
        0 => {
            let i = argument();
            let s = build::utf8(n);
            MatchRule::Arg(Arg::try_from((i, build::string(&s))).unwrap())
        }
        1 => {
            let i = argument();
            MatchRule::ArgPath(ArgPath::from((i, parts::path(&build::fill(build::PATHS[sx::pick(4)])))))
        }
        2 => MatchRule::Type(crate::c12::kind(1 + sx::pick(4) as u8)),
        3 => MatchRule::Sender(match sx::pick(2) {
            0 => parts::bus(&build::fill(":1.?")),
            _ => parts::bus(&build::fill("a-?.B")),
        }),
        4 => MatchRule::Interface(parts::interface(&build::fill("a.?B"))),
        5 => MatchRule::Member(parts::member(&build::fill("M?"))),
        6 => MatchRule::Path(parts::path(&build::fill(build::PATHS[sx::pick(4)]))),
        7 => MatchRule::PathNamespace(parts::path(&build::fill(build::PATHS[sx::pick(4)]))),
        8 => match parts::bus(&build::fill(":?A.1")) {
            Bus::UniqueConnectionName(u) => MatchRule::Destination(u),
            _ => MatchRule::Destination(UniqueConnectionName::try_from(":1.1").unwrap()),
        },
        9 => MatchRule::Arg0Namespace(parts::interface(&build::fill("?.b_C"))),
        _ => MatchRule::Eavesdrop(sx::pick(2) == 1),
    }
}
fn argument() -> usize {
    [0, 1, 9, 10, 42, 62, 63][sx::pick(7)]
}
fn round(r: &[MatchRule]) {
    let t = MatchRule::encode(r);
    sx::observe(t.len() as u64);
    match MatchRule::decode(&t) {
        Ok(d) => {
            sx::check(d.len() == r.len(), 1);
            sx::check(d[..] == *r, 2);
            sx::reach(1);
        }
        Err(_) => sx::check(false, 3),
    }
    // the text means what the list says
    match rules::parse(t.as_bytes()) {
        Some(w) => sx::check(w.len() == r.len() && w.iter().zip(r).all(|(w, r)| rules::same(w, r)), 4),
        None => sx::check(false, 5),
    }
}
/// Lists of rules of any kind.  params: number of rules, length of arguments, kind of the first rule.
pub fn h_c16_rules() {
    let mut v = Vec::new();
    for i in 0..sx::param(0) {
        let k = if i == 0 { sx::param(2) } else { sx::pick(11) };
        v.push(rule(k, sx::param(1)));
    }
    round(&v);
}
/// Arguments with arbitrary values.  params: length of the first and second value, 1 to restrict the
/// characters to those with a meaning.
pub fn h_c16_args() {
    let mut v = Vec::new();
    for i in 0..2 {
        let n = sx::param(i);
        if i == 1 && n == 99 {
            break;
        }
        let s = if sx::param(2) == 1 {
            let s = sx::vec(n);
            for c in &s {
                let c = *c;
                sx::assume((c == b'\'') | (c == b'\\') | (c == b',') | (c == b'=') | (c == b'a'));
            }
            s
        } else {
            build::utf8(n)
        };
        v.push(MatchRule::Arg(Arg::try_from((i, build::string(&s))).unwrap()));
    }
    round(&v);
}
/// Every index of an argument.
pub fn h_c16_index() {
    let i = sx::pick(70);
    let a = Arg::try_from((i, String::from("x")));
    sx::check(a.is_ok() == (i < 64), 6);
    if let Ok(a) = a {
        sx::check(a.get_index() == i && a.get_value() == "x", 7);
        sx::reach(2);
        round(&[MatchRule::Arg(a), MatchRule::ArgPath(ArgPath::from((i, parts::path(b"/p"))))]);
    }
}
/// Text that parses.  params: prefix template, number of symbolic bytes, alphabet, suffix template.
pub fn h_c16_text() {
    let t = c17::text();
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    if let Ok(r) = MatchRule::decode(s) {
        round(&r);
        sx::reach(3);
    } else {
        sx::reach(4);
    }
}
