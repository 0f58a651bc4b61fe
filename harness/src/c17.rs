//! Text of match rules against the reference parser.
use crate::{build, rules, sx};
use dbus_message_parser::match_rule::MatchRule;
use std::convert::TryFrom;

pub fn text() -> Vec<u8> {
    let mut t = sx::template(0);
    let n = sx::param(1);
    let s = sx::vec(n);
    match sx::param(2) {
        0 => sx::assume(std::str::from_utf8(&s).is_ok()),
        1 => sx::ascii(&s),
        // the characters with a meaning, and some others
        _ => {
            for c in &s {
                let c = *c;
                sx::assume((c == b'\'') | (c == b'\\') | (c == b',') | (c == b'=') | (c == b'a') | (c == b'/') | (c == b'7'));
            }
        }
    }
    t.extend_from_slice(&s);
    t.extend_from_slice(&sx::template(3));
    t
}
/// params: prefix template, number of symbolic bytes, alphabet, suffix template.
pub fn h_c17_text() {
    verify(text());
}
const WORDS: [&str; 17] = [
    "arg", "path", "namespace", "_namespace", "0", "63", "64", "eavesdrop", "type", "sender", "interface", "member", "destination", "s", " ", "Arg", "_",
];
const VALUES: [&str; 9] = ["'/a?/'", "'/a?'", "/", "'?.b'", "'A?'", "':1.?'", "'true'", "'error'", "?"];
/// A key of several words, one of them the given one, and a value.  params: how many words, which is
/// given, its number, 1 if it comes in a list.
pub fn h_c17_words() {
    let mut t = Vec::new();
    let (n, at, word, list) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3) == 1);
    if list {
        t.extend_from_slice(b"type='signal',");
    }
    for i in 0..n {
        let w = if i == at { word } else { sx::pick(WORDS.len()) };
        t.extend_from_slice(WORDS[w].as_bytes());
    }
    t.push(b'=');
    t.extend(build::fill(VALUES[sx::pick(VALUES.len())]));
    if list {
        t.extend_from_slice(b",arg1='a'");
    }
    verify(t);
}
fn verify(t: Vec<u8>) {
    let s = unsafe { std::str::from_utf8_unchecked(&t) };
    let got = MatchRule::decode(s);
    let want = rules::parse(&t);
    sx::observe(got.is_ok() as u64);
    match (&got, &want) {
        (Ok(g), Some(w)) => {
            sx::check(g.len() == w.len(), 1);
            sx::check(g.len() == w.len() && g.iter().zip(w).all(|(g, w)| rules::same(w, g)), 2);
            sx::reach(if w.is_empty() { 3 } else { 1 });
        }
        (Err(_), None) => sx::reach(2),
        (Ok(_), None) => sx::check(false, 3),
        (Err(_), Some(_)) => sx::check(false, 4),
    }
    // a single rule by itself
    if let (Ok(g), Some(w)) = (&got, &want) {
        if w.len() == 1 && t[t.len() - 1] != b',' {
            match MatchRule::try_from(s) {
                Ok(r) => sx::check(r == g[0], 5),
                Err(_) => sx::check(false, 6),
            }
        }
    }
}
