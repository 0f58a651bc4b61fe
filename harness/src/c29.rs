//! What an operation returns depends on its arguments alone, not on what was done before; copies are
//! independent.
use crate::{build, c12, msg, parts, sx, wire};
use bytes::Bytes;
use dbus_message_parser::{
    decode::DecodeError,
    match_rule::MatchRule,
    message::Message,
    value::{Array, Bus, Error, Interface, Member, ObjectPath, Struct, Type, Value},
};
use std::convert::{TryFrom, TryInto};

type Decoded = Result<(Message, usize, usize), DecodeError>;
fn decode(b: &[u8], fds: &[i32]) -> Decoded {
    Message::decode_with_fds(Bytes::from(b.to_vec()), fds)
}
/// The same messages, also where a floating-point number is none.
fn same_message(a: &Message, b: &Message) -> bool {
    a.encode_with_fds() == b.encode_with_fds() && build::same_all(a.get_body(), b.get_body()) && a.clone().split().map(|s| s.0) == b.clone().split().map(|s| s.0)
}
fn same(a: &Decoded, b: &Decoded) -> bool {
    match (a, b) {
        (Ok((m, n, f)), Ok((o, p, g))) => n == p && f == g && same_message(m, o),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
/// Something else of every kind, so that what was remembered of the last operation is forgotten.
fn other() {
    for k in 0..7 {
        let _ = text(k, ["zz.zz.Zz", "zz.zz.Zz", "ZzZzZz", "zz.zz.Zz", "/zz/zz/Zz", "ttbn", "arg63='zZ'"][k]);
    }
    let m = parts::header(2, b"00000000").message(vec![Value::Uint64(1), Value::Boolean(true), Value::Variant(Box::new(Value::Double(1.5)))]);
    if let Ok(b) = m.encode() {
        let _ = Message::decode(b.freeze());
    }
    let p = parts::path(b"/zz/zz");
    let _ = (p.starts_with(&parts::path(b"/zz")), MatchRule::ArgPath((9, p).try_into().unwrap()).matching_rule(&m));
}
/// Decode one, the other, and both again.
fn both(x: &[u8], y: &[u8]) {
    let a = decode(x, &[3, 4]);
    sx::observe(a.is_ok() as u64);
    let b = decode(y, &[5]);
    let c = decode(x, &[3, 4]);
    sx::check(same(&a, &c), 1);
    other();
    sx::reach(if a.is_ok() { 1 } else { 2 });
    let d = decode(y, &[5]);
    sx::check(same(&b, &d), 2);
    sx::check(same(&a, &decode(x, &[3, 4])), 1);
    // what was made before is not changed
    if let (Ok((m, _, _)), Ok((o, _, _))) = (&a, &b) {
        let e = m.encode_with_fds();
        let _ = o.encode_with_fds();
        sx::check(e == m.encode_with_fds(), 3);
        sx::reach(3);
    }
}
/// A seed message, and the same with a window of arbitrary bytes.  params: seed, window length, first
/// offset, number of offsets, 1: the one with the window first, other seed.
pub fn h_c29_window() {
    let x = msg::seed(sx::param(0));
    let mut y = msg::seed(sx::param(5));
    let start = sx::param(2) + sx::pick(sx::param(3));
    let end = start + sx::param(1);
    if end > y.len() {
        return;
    }
    sx::bytes(&mut y[start..end]);
    msg::fewer_types(&y[start..end]);
    if sx::param(4) == 1 {
        both(&y, &x);
    } else {
        both(&x, &y);
    }
}
/// Two bodies of the same template.  params: signature, template, 1 for little endian.
pub fn h_c29_tmpl() {
    let sig = sx::param_bytes(0);
    let le = sx::param(2) == 1;
    let x = msg::with_body(le, &sig, &sx::template(1));
    let y = msg::with_body(le, &sig, &sx::template(1));
    both(&x, &y);
}
/// Two bodies under different signatures.  params: signatures, strings up to, arrays up to.
pub fn h_c29_encode() {
    let ts = wire::signature(&sx::param_bytes(0)).unwrap();
    let us = wire::signature(&sx::param_bytes(1)).unwrap();
    let g = build::Gen { strings: sx::param(2), arrays: sx::param(3), variants: &["q", "s", "u"] };
    let (_, v) = build::values(&ts, &g);
    let (_, w) = build::values(&us, &g);
    let (f, mut g) = (parts::header(2, b"00000000"), parts::header(3, b"00000000"));
    g.le = !f.le;
    let (a, b) = (f.message(v), g.message(w));
    let (x, s) = (a.encode_with_fds(), a.get_signature());
    let (y, t) = (b.encode_with_fds(), b.get_signature());
    other();
    sx::check(b.encode_with_fds() == y && b.get_signature() == t, 4);
    if let (Ok((i, _)), Ok((j, _))) = (&x, &y) {
        let fds = [7, 8, 9, 10];
        let (d, e) = (decode(i, &fds), decode(j, &fds));
        sx::check(same(&decode(i, &fds), &d), 1);
        sx::check(same(&decode(j, &fds), &e), 2);
        other();
        sx::check(same(&decode(j, &fds), &e), 2);
    }
    sx::check(a.encode_with_fds() == x && a.get_signature() == s, 4);
    sx::check(b.encode_with_fds() == y && b.get_signature() == t, 4);
    sx::observe(x.is_ok() as u64);
    // a copy is no part of the original
    let mut c = a.clone();
    c.add_value(Value::Byte(sx::u8()));
    c.set_serial(sx::u32());
    sx::check(a.encode_with_fds() == x && a.get_signature() == s, 5);
    let types = |m: &Message| m.get_body().iter().map(|v| v.get_type()).collect::<Vec<_>>();
    let p = types(&a);
    let _ = types(&b);
    sx::check(types(&a) == p, 6);
    sx::reach(4);
}
fn text(kind: usize, s: &str) -> Result<String, String> {
    fn t<T: ToString, E: ToString>(r: Result<T, E>) -> Result<String, String> {
        r.map(|x| x.to_string()).map_err(|e| e.to_string())
    }
    match kind {
        0 => t(Interface::try_from(s)),
        1 => t(Error::try_from(s)),
        2 => t(Member::try_from(s)),
        3 => t(Bus::try_from(s)),
        4 => t(ObjectPath::try_from(s)),
        5 => match Type::from_string_to_signature(s) {
            Ok(t) => Type::from_signature_to_string(&t).map_err(|e| e.to_string()),
            Err(e) => Err(e.to_string()),
        },
        _ => match MatchRule::decode(s) {
            Ok(r) => Ok(MatchRule::encode(&r)),
            Err(e) => Err(e.to_string()),
        },
    }
}
fn ascii(at: usize) -> String {
    let t = sx::template(at);
    sx::ascii(&t);
    build::string(&t)
}
/// Texts.  params: kind, two templates (ASCII).
pub fn h_c29_text() {
    let k = sx::param(0);
    let (x, y) = (ascii(1), ascii(2));
    let a = text(k, &x);
    let b = text(k, &y);
    sx::check(text(k, &x) == a, 7);
    other();
    sx::check(text(k, &y) == b, 8);
    sx::check(text(k, &x) == a, 7);
    sx::observe(a.is_ok() as u64 | (b.is_ok() as u64) << 1);
    sx::reach(if a.is_ok() { 5 } else { 6 });
}
/// Paths, and copies of them.
pub fn h_c29_path() {
    let (x, y) = (ascii(0), ascii(1));
    let (p, q) = match (ObjectPath::try_from(x.as_str()), ObjectPath::try_from(y.as_str())) {
        (Ok(p), Ok(q)) => (p, q),
        _ => return,
    };
    let of = |p: &ObjectPath, q: &ObjectPath| {
        let rest: Option<Vec<String>> = p.strip_prefix_elements(q).map(|i| i.map(|e| e.to_string()).collect());
        (p.starts_with(q), rest)
    };
    let (a, b) = (of(&p, &q), of(&q, &p));
    other();
    sx::check(of(&q, &p) == b && of(&p, &q) == a, 10);
    let mut c = p.clone();
    let added = c.append(&y[1..]);
    sx::check(p.to_string() == x && q.to_string() == y, 9);
    sx::check(of(&p, &q) == a && of(&q, &p) == b, 10);
    let mut d = p.clone();
    sx::check(d.append(&y[1..]) == added && c == d, 10);
    sx::reach(7);
}
/// Rules against two messages.  params: rules, two arguments.
pub fn h_c29_match() {
    let rules = match MatchRule::decode(&ascii(0)) {
        Ok(r) => r,
        Err(_) => return,
    };
    let make = |at: usize| {
        let t = ascii(at);
        let v = match ObjectPath::try_from(t.as_str()) {
            Ok(p) if sx::pick(2) == 1 => Value::ObjectPath(p),
            _ => Value::String(t.clone()),
        };
        let mut f = dbus_message_parser::message::MessageHeaderFields::default();
        f.path = ObjectPath::try_from(t.as_str()).ok().or(Some(parts::path(b"/a")));
        f.member = Some(Member::try_from(t.as_str()).unwrap_or(parts::member(b"M")));
        f.interface = Interface::try_from(t.as_str()).ok();
        let h = dbus_message_parser::message::MessageHeader::new(true, c12::kind(1), dbus_message_parser::message::MessageFlags::empty(), 1, 1, f).unwrap();
        Message::new(h, vec![v])
    };
    let (m, o) = (make(1), make(2));
    let all = |m: &Message| (MatchRule::matching_rules(&rules, m), rules.iter().map(|r| r.matching_rule(m)).collect::<Vec<_>>());
    let (a, b) = (all(&m), all(&o));
    sx::check(all(&m) == a, 11);
    other();
    sx::check(all(&o) == b, 11);
    sx::check(all(&m) == a, 11);
    sx::reach(if a.0 { 8 } else { 9 });
}
/// Containers.  params: types of the two values and of the elements wanted.
pub fn h_c29_make() {
    let one = |at: usize| {
        let t = wire::single(&sx::param_bytes(at)).unwrap();
        let g = build::Gen { strings: 1, arrays: 1, variants: &["q", "s"] };
        build::value(&t, &g).1
    };
    let (v, w) = (one(0), one(1));
    let t = build::to_type(&wire::single(&sx::param_bytes(2)).unwrap());
    let make = |v: &Value| {
        let a = Array::new(vec![v.clone(), v.clone()], t.clone());
        let s = Struct::try_from(vec![v.clone()]).map(|s| Value::Struct(s).get_type());
        (a.map(|a| Value::Array(a).get_type()), s, v.get_type())
    };
    let (a, b) = (make(&v), make(&w));
    sx::check(make(&v) == a, 12);
    other();
    sx::check(make(&w) == b, 12);
    sx::check(make(&v) == a, 12);
    sx::reach(10);
}
/// A message that can not be encoded between two encodings of another one.  params: signature of the
/// other one, why: too many variants, arrays or structures within each other, or too long a signature.
pub fn h_c29_failed() {
    let ts = wire::signature(&sx::param_bytes(0)).unwrap();
    let (_, v) = build::values(&ts, &build::Gen { strings: 2, arrays: 1, variants: &["q", "s"] });
    let (f, mut g) = (parts::header(2, b"00000000"), parts::header(3, b"00000000"));
    g.le = !f.le;
    let a = f.message(v);
    let mut bad = match sx::param(1) {
        3 => Value::Uint16(sx::u16()),
        _ => Value::Byte(sx::u8()),
    };
    for _ in 0..match sx::param(1) {
        0 => 65,
        3 => 0,
        _ => 33,
    } {
        bad = match sx::param(1) {
            0 => Value::Variant(Box::new(bad)),
            1 => match Array::new(vec![bad.clone()], bad.get_type().unwrap_or(Type::Byte)) {
                Ok(a) => Value::Array(a),
                Err(_) => bad,
            },
            _ => match Struct::try_from(vec![bad.clone()]) {
                Ok(s) => Value::Struct(s),
                Err(_) => bad,
            },
        };
    }
    let mut body = vec![Value::UnixFD(3), Value::Byte(sx::u8()), bad.clone()];
    if sx::param(1) == 3 {
        body.extend((0..254).map(|_| bad.clone()));
    }
    let b = g.message(body);
    let x = (a.encode_with_fds(), a.get_signature());
    let y = (b.encode_with_fds(), b.get_signature());
    sx::check((a.encode_with_fds(), a.get_signature()) == x, 4);
    other();
    sx::check((b.encode_with_fds(), b.get_signature()) == y, 4);
    sx::reach(if y.0.is_ok() { 12 } else { 11 });
}
