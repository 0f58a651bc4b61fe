//! Which messages a rule list matches.
use crate::{build, parts, rules::Key, sx};
use dbus_message_parser::{
    match_rule::{Arg, ArgPath, MatchRule},
    message::Message,
    value::{Bus, Value},
};
use std::convert::TryFrom;

/// A message as texts.
struct M {
    kind: u8,
    text: [Option<Vec<u8>>; 8],
    /// type and text
    args: Vec<(u8, Vec<u8>)>,
}
const BUSES: [&str; 5] = [":1.*", "A.*", "*.bc", ":*.1", ":1.*.2"];
const PATHS: [&str; 7] = ["/", "/*", "/*?", "/*/?", "/?*/?", "/?/?/*", "/A/*b"];
const NAMES: [&str; 4] = ["*.b", "a.*", "a.b.*", "*.?*"];
const MEMBERS: [&str; 3] = ["*", "A*", "*_1"];

/// The wanted fields: 1 path, 2 interface, 3 member, 6 destination, 7 sender.
fn message(fields: &[usize], kind: u8, args: Vec<(u8, Vec<u8>)>) -> (M, Message) {
    let mut m = M { kind, text: Default::default(), args };
    let mut f = dbus_message_parser::message::MessageHeaderFields::default();
    let must = |i: usize| (kind == 1 && (i == 1 || i == 3)) || (kind == 4 && i <= 3);
    for i in [1usize, 2, 3, 6, 7] {
        let wanted = fields.contains(&i);
        let menu: &[&str] = match i {
            1 => &PATHS,
            2 => &NAMES,
            3 => &MEMBERS,
            _ => &BUSES,
        };
        let present = must(i) || (wanted && sx::pick(2) == 1);
        if present {
            let s = if wanted { build::fill(menu[sx::pick(menu.len())]) } else { build::fill(["/", "x.y", "Z", ":9.9"][i.min(4) - 1]) };
            match i {
                1 => f.path = Some(parts::path(&s)),
                2 => f.interface = Some(parts::interface(&s)),
                3 => f.member = Some(parts::member(&s)),
                6 => f.destination = Some(parts::bus(&s)),
                _ => f.sender = Some(parts::bus(&s)),
            }
            m.text[i] = Some(s);
        }
    }
    let c = with(&m, f);
    (m, c)
}
/// The message with these fields and the arguments of `m`.
fn with(m: &M, mut f: dbus_message_parser::message::MessageHeaderFields) -> Message {
    let kind = m.kind;
    f.error_name = if kind == 3 { Some(parts::error(b"e.f")) } else { None };
    f.reply_serial = if kind == 2 || kind == 3 { Some(1) } else { None };
    let h = dbus_message_parser::message::MessageHeader::new(
        true,
        crate::c12::kind(kind),
        dbus_message_parser::message::MessageFlags::empty(),
        1,
        1,
        f,
    )
    .unwrap();
    let body = m
        .args
        .iter()
        .map(|(t, s)| match t {
            b's' => Value::String(build::string(s)),
            b'o' => Value::ObjectPath(parts::path(s)),
            b'v' => Value::Variant(Box::new(Value::String(build::string(s)))),
            b'p' => Value::Variant(Box::new(Value::ObjectPath(parts::path(s)))),
            b'g' => Value::Signature(vec![]),
            _ => Value::Byte(s[0]),
        })
        .collect();
    Message::new(h, body)
}
/// `v` is `ns` or `ns` followed by the separator and anything.
fn within(v: &[u8], ns: &[u8], sep: u8) -> bool {
    v.len() >= ns.len() && v[..ns.len()] == *ns && (v.len() == ns.len() || v[ns.len()] == sep)
}
fn within_path(v: &[u8], ns: &[u8]) -> bool {
    if ns.len() == 1 {
        return !v.is_empty() && v[0] == b'/';
    }
    within(v, ns, b'/')
}
fn matches(k: Key, v: &[u8], m: &M) -> bool {
    let is = |i: usize| matches!(&m.text[i], Some(t) if t[..] == *v);
    match k {
        Key::Type => v[0] == m.kind,
        Key::Sender => is(7),
        Key::Interface => is(2),
        Key::Member => is(3),
        Key::Path => is(1),
        Key::PathNamespace => matches!(&m.text[1], Some(t) if within_path(t, v)),
        Key::Destination => is(6),
        Key::Arg(i) => matches!(m.args.get(i), Some((b's', t)) if t[..] == *v),
        Key::ArgPath(i) => matches!(m.args.get(i), Some((b's' | b'o', t)) if within_path(t, v)),
        Key::Arg0Namespace => matches!(m.args.first(), Some((b's', t)) if within(t, v, b'.')),
        Key::Eavesdrop => true,
    }
}
/// A rule with symbolic contents: by the reference and the crate.
fn rule(kind: usize, len: usize) -> (Key, Vec<u8>, MatchRule) {
    match kind {
        0 => {
            let k = 1 + sx::pick(4) as u8;
            (Key::Type, vec![k], MatchRule::Type(crate::c12::kind(k)))
        }
        1 => {
            let s = build::fill(BUSES[sx::pick(BUSES.len())]);
            let b = parts::bus(&s);
            (Key::Sender, s, MatchRule::Sender(b))
        }
        2 => {
            let s = build::fill(NAMES[sx::pick(NAMES.len())]);
            let b = parts::interface(&s);
            (Key::Interface, s, MatchRule::Interface(b))
        }
        3 => {
            let s = build::fill(MEMBERS[sx::pick(MEMBERS.len())]);
            let b = parts::member(&s);
            (Key::Member, s, MatchRule::Member(b))
        }
        4 => {
            let s = build::fill(PATHS[sx::pick(PATHS.len())]);
            let b = parts::path(&s);
            (Key::Path, s, MatchRule::Path(b))
        }
        5 => {
            let s = build::fill(PATHS[sx::pick(PATHS.len())]);
            let b = parts::path(&s);
            (Key::PathNamespace, s, MatchRule::PathNamespace(b))
        }
        6 => {
            let s = build::fill([":1.*", ":*.1", ":1.*.2"][sx::pick(3)]);
            match parts::bus(&s) {
                Bus::UniqueConnectionName(u) => (Key::Destination, s, MatchRule::Destination(u)),
                _ => {
                    sx::check(false, 90);
                    (Key::Eavesdrop, s, MatchRule::Eavesdrop(true))
                }
            }
        }
        7 => {
            let i = sx::pick(4);
            let s = build::utf8(len);
            let a = Arg::try_from((i, build::string(&s))).unwrap();
            (Key::Arg(i), s, MatchRule::Arg(a))
        }
        8 => {
            let i = sx::pick(4);
            let s = build::fill(PATHS[sx::pick(PATHS.len())]);
            let a = ArgPath::from((i, parts::path(&s)));
            (Key::ArgPath(i), s, MatchRule::ArgPath(a))
        }
        9 => {
            let s = build::fill(NAMES[sx::pick(NAMES.len())]);
            let b = parts::interface(&s);
            (Key::Arg0Namespace, s, MatchRule::Arg0Namespace(b))
        }
        _ => (Key::Eavesdrop, vec![], MatchRule::Eavesdrop(sx::pick(2) == 1)),
    }
}
fn fields_of(kind: usize) -> &'static [usize] {
    match kind {
        1 => &[7],
        2 => &[2],
        3 => &[3],
        4 | 5 => &[1],
        6 => &[6],
        _ => &[],
    }
}
/// One rule against messages that have or lack the field.  params: kind of rule, length of values.
pub fn h_c18_rule() {
    let kind = sx::param(0);
    let t = if kind == 0 || sx::param(1) == 0 { 1 + sx::pick(4) as u8 } else { 2 };
    let (m, message) = message(fields_of(kind), t, vec![]);
    let (k, v, r) = rule(kind, 1);
    let want = matches(k, &v, &m);
    sx::check(r.matching_rule(&message) == want, 1);
    sx::reach(if want { 1 } else { 2 });
}
/// Rules on arguments.  params: kind of rule, types of the arguments, length of each text, length of
/// the rule's value.
pub fn h_c18_args() {
    let n = sx::param(2);
    let args = sx::param_bytes(1)
        .iter()
        .map(|t| {
            let s = match t {
                b's' | b'v' => build::utf8(n),
                b'o' | b'p' => build::fill(PATHS[sx::pick(PATHS.len())]),
                _ => vec![sx::u8()],
            };
            (*t, s)
        })
        .collect();
    let (m, message) = message(&[], 2, args);
    let (k, v, r) = rule(sx::param(0), sx::param(3));
    let want = matches(k, &v, &m);
    sx::check(r.matching_rule(&message) == want, 2);
    sx::check(MatchRule::matching_rules(&[r], &message) == want, 3);
    sx::reach(if want { 3 } else { 4 });
}
/// Lists of rules.  params: number of rules, kind of the first.
pub fn h_c18_list() {
    let n = sx::param(0);
    let mut ks = Vec::new();
    let mut fields = Vec::new();
    for i in 0..n {
        let k = if i == 0 { sx::param(1) } else { sx::pick(11) };
        for f in fields_of(k) {
            // the others are always there
            if *f > 3 && !fields.contains(f) {
                fields.push(*f);
            }
        }
        ks.push(k);
    }
    // two arguments, of which the first may be a string or a path
    let s = build::fill("/?");
    let args = vec![(if sx::pick(2) == 0 { b's' } else { b'o' }, s), (b's', build::fill("?"))];
    let (m, message) = message(&fields, 4, args);
    let mut rs = Vec::new();
    let mut want = true;
    for k in ks {
        let (k, v, r) = simple(k, &m);
        want &= matches(k, &v, &m);
        rs.push(r);
    }
    sx::check(MatchRule::matching_rules(&rs, &message) == want, 4);
    sx::reach(if want { 5 } else { 6 });
}
/// A rule that does or does not match: the letter decides.
fn simple(kind: usize, m: &M) -> (Key, Vec<u8>, MatchRule) {
    match kind {
        0 => {
            let k = 3 + sx::pick(2) as u8;
            (Key::Type, vec![k], MatchRule::Type(crate::c12::kind(k)))
        }
        1 => {
            let s = build::fill([":1.*", "a.*"][sx::pick(2)]);
            let b = parts::bus(&s);
            (Key::Sender, s, MatchRule::Sender(b))
        }
        2 => {
            let mut s = m.text[2].clone().unwrap_or(b"a.b".to_vec());
            s[0] = build::letter();
            let b = parts::interface(&s);
            (Key::Interface, s, MatchRule::Interface(b))
        }
        3 => {
            let s = build::fill("*");
            let b = parts::member(&s);
            (Key::Member, s, MatchRule::Member(b))
        }
        4 => {
            let s = build::fill(PATHS[sx::pick(2)]);
            let b = parts::path(&s);
            (Key::Path, s, MatchRule::Path(b))
        }
        5 => {
            let s = build::fill(PATHS[sx::pick(2)]);
            let b = parts::path(&s);
            (Key::PathNamespace, s, MatchRule::PathNamespace(b))
        }
        6 => rule(6, 1),
        7 => {
            let i = sx::pick(3);
            let s = if i == 0 { build::fill("/?") } else { build::fill("?") };
            let a = Arg::try_from((i, build::string(&s))).unwrap();
            (Key::Arg(i), s, MatchRule::Arg(a))
        }
        8 => {
            let i = sx::pick(3);
            let s = build::fill(PATHS[sx::pick(2)]);
            let a = ArgPath::from((i, parts::path(&s)));
            (Key::ArgPath(i), s, MatchRule::ArgPath(a))
        }
        9 => {
            let s = build::fill("?.b");
            let b = parts::interface(&s);
            (Key::Arg0Namespace, s, MatchRule::Arg0Namespace(b))
        }
        _ => (Key::Eavesdrop, vec![], MatchRule::Eavesdrop(sx::pick(2) == 1)),
    }
}
/// Long indices: the body has the given number of arguments, of which the last is looked at.
pub fn h_c18_far() {
    let n = sx::param(0);
    let c = build::letter();
    let mut args: Vec<(u8, Vec<u8>)> = (0..n).map(|_| (b's', vec![b'/', b'q'])).collect();
    args.push((b's', vec![b'/', c]));
    let (m, message) = message(&[], 2, args);
    let s = build::fill("/?");
    for i in [0, n, n + 1] {
        if i < 64 {
            let r = MatchRule::Arg(Arg::try_from((i, build::string(&s))).unwrap());
            sx::check(r.matching_rule(&message) == matches(Key::Arg(i), &s, &m), 5);
            let r = MatchRule::ArgPath(ArgPath::from((i, parts::path(&s))));
            sx::check(r.matching_rule(&message) == matches(Key::ArgPath(i), &s, &m), 6);
        }
    }
    sx::reach(7);
}
/// Long lists of rules that match, except perhaps one.  params: number of rules, kind of the odd one.
pub fn h_c18_many() {
    let n = sx::param(0);
    let args = vec![(b's', build::fill("/?")), (b'o', build::fill("/?")), (b's', build::fill("?"))];
    let mut m = M { kind: 4, text: Default::default(), args };
    let mut f = dbus_message_parser::message::MessageHeaderFields::default();
    for (i, t) in [(1usize, "/?/?"), (2, "*.b"), (3, "*"), (6, ":1.*"), (7, "a.*")] {
        let s = build::fill(t);
        match i {
            1 => f.path = Some(parts::path(&s)),
            2 => f.interface = Some(parts::interface(&s)),
            3 => f.member = Some(parts::member(&s)),
            6 => f.destination = Some(parts::bus(&s)),
            _ => f.sender = Some(parts::bus(&s)),
        }
        m.text[i] = Some(s);
    }
    let message = with(&m, f);
    let at = [0, n / 2, n - 1][sx::pick(3)];
    let mut want = true;
    let mut rs = Vec::new();
    for i in 0..n {
        let (k, v, r) = if i == at {
            simple(sx::param(1), &m)
        } else {
            // the message's own
            let t = |i: usize| m.text[i].clone().unwrap();
            match i % 8 {
                0 => (Key::Type, vec![4], MatchRule::Type(crate::c12::kind(4))),
                1 => (Key::Path, t(1), MatchRule::Path(parts::path(&t(1)))),
                2 => (Key::Interface, t(2), MatchRule::Interface(parts::interface(&t(2)))),
                3 => (Key::Member, t(3), MatchRule::Member(parts::member(&t(3)))),
                4 => (Key::Sender, t(7), MatchRule::Sender(parts::bus(&t(7)))),
                5 => (Key::PathNamespace, t(1), MatchRule::PathNamespace(parts::path(&t(1)))),
                6 => {
                    let s = m.args[2].1.clone();
                    let a = Arg::try_from((2, build::string(&s))).unwrap();
                    (Key::Arg(2), s, MatchRule::Arg(a))
                }
                _ => (Key::Eavesdrop, vec![], MatchRule::Eavesdrop(i % 16 < 8)),
            }
        };
        want &= matches(k, &v, &m);
        rs.push(r);
    }
    sx::check(MatchRule::matching_rules(&rs, &message) == want, 4);
    sx::reach(if want { 8 } else { 9 });
}
