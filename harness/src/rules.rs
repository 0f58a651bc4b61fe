//! Independent reference of match rule text (oracle), over bytes of UTF-8 text.
use crate::grammar;
use dbus_message_parser::{match_rule::MatchRule, message::MessageType};

#[derive(Clone, Copy, PartialEq)]
pub enum Key {
    Type,
    Sender,
    Interface,
    Member,
    Path,
    PathNamespace,
    Destination,
    Arg(usize),
    ArgPath(usize),
    Arg0Namespace,
    Eavesdrop,
}
pub struct Rule {
    pub key: Key,
    pub value: Vec<u8>,
}

fn word(c: u8) -> bool {
    (c >= b'0') & (c <= b'9') | (c >= b'a') & (c <= b'z') | (c >= b'A') & (c <= b'Z') | (c == b'_')
}
/// A decimal number from 0 to 63, with any leading zeros.
fn index(s: &[u8]) -> Option<usize> {
    if s.is_empty() {
        return None;
    }
    let mut n = 0;
    for c in s {
        if *c < b'0' || *c > b'9' {
            return None;
        }
        n = n * 10 + (*c - b'0') as usize;
        if n > 63 {
            return None;
        }
    }
    Some(n)
}
fn key(s: &[u8]) -> Option<Key> {
    Some(match s {
        b"type" => Key::Type,
        b"sender" => Key::Sender,
        b"interface" => Key::Interface,
        b"member" => Key::Member,
        b"path" => Key::Path,
        b"path_namespace" => Key::PathNamespace,
        b"destination" => Key::Destination,
        b"eavesdrop" => Key::Eavesdrop,
        b"arg0namespace" => Key::Arg0Namespace,
        _ => {
            if s.len() < 3 || s[0] != b'a' || s[1] != b'r' || s[2] != b'g' {
                return None;
            }
            let n = s.len();
            if n >= 7 && &s[n - 4..] == b"path" {
                Key::ArgPath(index(&s[3..n - 4])?)
            } else {
                Key::Arg(index(&s[3..])?)
            }
        }
    })
}
fn fits(k: Key, v: &[u8]) -> bool {
    match k {
        Key::Type => v == b"method_call" || v == b"method_return" || v == b"error" || v == b"signal",
        Key::Sender => grammar::bus(v),
        Key::Interface | Key::Arg0Namespace => grammar::interface(v),
        Key::Member => grammar::member(v),
        Key::Path | Key::PathNamespace | Key::ArgPath(_) => grammar::object_path(v),
        Key::Destination => grammar::unique(v),
        Key::Eavesdrop => v == b"true" || v == b"false",
        Key::Arg(_) => true,
    }
}
/// Parse a list of rules.
pub fn parse(t: &[u8]) -> Option<Vec<Rule>> {
    let mut rules = Vec::new();
    let mut at = 0;
    while at < t.len() {
        let start = at;
        while at < t.len() && word(t[at]) {
            at += 1;
        }
        if at == start || at == t.len() || t[at] != b'=' {
            return None;
        }
        let name = &t[start..at];
        at += 1;
        let mut value = Vec::new();
        let mut quoted = false;
        loop {
            if at == t.len() {
                break;
            }
            let c = t[at];
            if quoted {
                if c == b'\'' {
                    quoted = false;
                } else {
                    value.push(c);
                }
            } else if c == b',' {
                break;
            } else if c == b'\'' {
                quoted = true;
            } else if c == b'\\' && at + 1 < t.len() && t[at + 1] == b'\'' {
                value.push(b'\'');
                at += 1;
            } else {
                value.push(c);
            }
            at += 1;
        }
        if quoted {
            return None;
        }
        // past the comma; nothing need follow it
        at += 1;
        let k = key(name)?;
        if !fits(k, &value) {
            return None;
        }
        rules.push(Rule { key: k, value });
    }
    Some(rules)
}

pub fn kind_text(t: MessageType) -> &'static str {
    match t {
        MessageType::MethodCall => "method_call",
        MessageType::MethodReturn => "method_return",
        MessageType::Error => "error",
        MessageType::Signal => "signal",
    }
}
/// The crate's rule is this rule.
pub fn same(r: &Rule, c: &MatchRule) -> bool {
    let (k, v): (Key, &str) = match c {
        MatchRule::Type(t) => (Key::Type, kind_text(*t)),
        MatchRule::Sender(b) => (Key::Sender, b.as_ref()),
        MatchRule::Interface(i) => (Key::Interface, i.as_ref()),
        MatchRule::Member(m) => (Key::Member, m.as_ref()),
        MatchRule::Path(p) => (Key::Path, p.as_ref()),
        MatchRule::PathNamespace(p) => (Key::PathNamespace, p.as_ref()),
        MatchRule::Destination(d) => (Key::Destination, d.as_ref()),
        MatchRule::Arg(a) => (Key::Arg(a.get_index()), a.get_value()),
        MatchRule::ArgPath(a) => (Key::ArgPath(a.get_index()), a.get_value().as_ref()),
        MatchRule::Arg0Namespace(i) => (Key::Arg0Namespace, i.as_ref()),
        MatchRule::Eavesdrop(b) => (Key::Eavesdrop, if *b { "true" } else { "false" }),
    };
    k == r.key && v.as_bytes() == &r.value[..]
}
