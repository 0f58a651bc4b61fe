//! Header field lists and header fields.
use crate::{build, grammar, sx, wire};
use dbus_message_parser::{
    message::MessageHeaderFields,
    value::{Array, Bus, Struct, Type, Value},
};
use std::convert::TryFrom;

/// What a field list means.
#[derive(Default)]
struct Want {
    text: [Option<Vec<u8>>; 10],
    number: [Option<u32>; 10],
    signature: Option<Vec<Type>>,
}
fn right(code: u8) -> &'static str {
    match code {
        1 => "o",
        5 | 9 => "u",
        8 => "g",
        _ => "s",
    }
}
fn valid(code: u8, s: &[u8]) -> bool {
    match code {
        2 | 4 => grammar::interface(s),
        3 => grammar::member(s),
        6 | 7 => grammar::bus(s),
        _ => false,
    }
}
impl Want {
    /// One more entry; false: not a field, or given before.
    fn take(&mut self, code: u8, v: &Value) -> bool {
        if code == 0 || code > 9 {
            return false;
        }
        let i = code as usize;
        match v {
            Value::ObjectPath(p) if code == 1 => self.text[1].replace(AsRef::<str>::as_ref(p).as_bytes().to_vec()).is_none(),
            Value::Uint32(n) if code == 5 || code == 9 => self.number[i].replace(*n).is_none(),
            Value::Signature(s) if code == 8 => self.signature.replace(s.clone()).is_none(),
            Value::String(s) if code != 1 && code != 5 && code != 8 && code != 9 => {
                valid(code, s.as_bytes()) && self.text[i].replace(s.as_bytes().to_vec()).is_none()
            }
            _ => false,
        }
    }
}
fn is(got: Option<&str>, want: &Option<Vec<u8>>) -> bool {
    match (got, want) {
        (Some(a), Some(b)) => a.as_bytes() == &b[..],
        (None, None) => true,
        _ => false,
    }
}
fn bus(b: &Option<Bus>, want: &Option<Vec<u8>>) -> bool {
    let t = match b {
        Some(Bus::UniqueConnectionName(u)) => Some((u.as_ref() as &str, true)),
        Some(Bus::WellKnownBusName(w)) => Some((w.as_ref() as &str, false)),
        None => None,
    };
    is(t.map(|x| x.0), want) && matches!((t, want), (Some((_, u)), Some(w)) if u == (w[0] == b':')) == want.is_some()
}
fn same(f: &MessageHeaderFields, w: &Want) -> bool {
    is(f.path.as_ref().map(|x| x.as_ref()), &w.text[1])
        && is(f.interface.as_ref().map(|x| x.as_ref()), &w.text[2])
        && is(f.member.as_ref().map(|x| x.as_ref()), &w.text[3])
        && is(f.error_name.as_ref().map(|x| x.as_ref()), &w.text[4])
        && bus(&f.destination, &w.text[6])
        && bus(&f.sender, &w.text[7])
        && f.reply_serial == w.number[5]
        && f.unix_fds == w.number[9]
        && f.signature == w.signature
}
fn entry(code: Value, v: Value) -> Value {
    Value::Struct(Struct::try_from(vec![code, v]).unwrap())
}
fn field(code: u8, v: Value) -> Value {
    entry(Value::Byte(code), Value::Variant(Box::new(v)))
}
/// The entry is a structure of a byte and a variant.
fn parts(v: &Value) -> Option<(u8, &Value)> {
    match v {
        Value::Struct(s) => match s.as_ref() {
            [Value::Byte(b), Value::Variant(v)] => Some((*b, v)),
            _ => None,
        },
        _ => None,
    }
}
fn convert(list: Vec<Value>) {
    let mut want = Want::default();
    let mut ok = true;
    for v in &list {
        ok = ok
            && match parts(v) {
                Some((c, v)) => want.take(c, v),
                None => false,
            };
    }
    let n = list.len();
    let r = MessageHeaderFields::try_from(list);
    sx::check(r.is_ok() == ok, 1);
    match r {
        Ok(f) => {
            sx::reach(1);
            sx::check(same(&f, &want), 2);
            back(&f, &want, n);
        }
        Err(_) => sx::reach(2),
    }
}
/// The fields as a list: one entry for each that is present.
fn back(f: &MessageHeaderFields, want: &Want, n: usize) {
    let mut list = Vec::<Value>::from(f.clone());
    sx::check(list.len() == n, 3);
    let mut seen = Want::default();
    let mut ok = true;
    for v in &list {
        ok = ok
            && match parts(v) {
                Some((c, v)) => seen.take(c, v),
                None => false,
            };
    }
    sx::check(ok, 4);
    sx::check(seen.text == want.text && seen.number == want.number && seen.signature == want.signature, 5);
    list.reverse();
    match MessageHeaderFields::try_from(list) {
        Ok(g) => sx::check(g == *f && same(&g, want), 6),
        Err(_) => sx::check(false, 7),
    }
}
const TYPES: [&str; 21] =
    ["y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "h", "ay", "au", "as", "(u)", "(s)", "{us}", "a{ys}"];
fn any(t: &str) -> Value {
    let t = wire::single(t.as_bytes()).unwrap();
    build::value(&t, &build::Gen { strings: 1, arrays: 1, variants: &["u", "s", "g", "o"] }).1
}
/// One entry of any code and type.
pub fn h_c26_one() {
    let t = TYPES[sx::pick(TYPES.len())];
    convert(vec![field(sx::u8(), any(t))]);
}
/// One entry with an arbitrary string.  params: code, length, 1 for other than ASCII.
pub fn h_c26_text() {
    let n = sx::param(1);
    let s = if sx::param(2) == 1 {
        build::utf8(n)
    } else {
        let s = sx::vec(n);
        sx::ascii(&s);
        s
    };
    convert(vec![field(sx::param(0) as u8, Value::String(build::string(&s)))]);
}
/// One entry with a long string.  params: code, length, beginning, unit.
pub fn h_c26_long() {
    let n = sx::param(1);
    let mut s = sx::param_bytes(2);
    let unit = sx::param_bytes(3);
    while s.len() + unit.len() <= n {
        s.extend_from_slice(&unit);
    }
    s.resize(n, b'k');
    let i = [0, n / 2, n - 1][sx::pick(3)];
    s[i] = sx::u8();
    sx::assume(s[i] < 128);
    convert(vec![field(sx::param(0) as u8, Value::String(build::string(&s)))]);
}
fn plain(code: u8) -> Value {
    let s = |p| Value::String(build::string(&build::fill(p)));
    match code {
        1 => any("o"),
        2 => s(["?.b", "a.B_1.?"][sx::pick(2)]),
        3 => s(["?", "M?_1"][sx::pick(2)]),
        4 => s("e?.F"),
        5 | 9 => any("u"),
        6 => s([":1.?", "d.E-?"][sx::pick(2)]),
        7 => s([":?.2", "s?.e_-F"][sx::pick(2)]),
        _ => any("g"),
    }
}
/// Entries that are well-formed, of any codes.  params: how many.
pub fn h_c26_list() {
    let n = sx::param(0);
    convert((0..n).map(|_| { let c = sx::pick(9) as u8 + 1; field(c, plain(c)) }).collect());
}
/// Any of the fields, in an order, and perhaps one of them again.  params: first code, step (prime to
/// nine), 1 if one is repeated.
pub fn h_c26_all() {
    let mut list = Vec::new();
    let again = if sx::param(2) == 1 { sx::pick(9) } else { 9 };
    for i in 0..9 {
        let c = ((sx::param(0) + i * sx::param(1)) % 9) as u8 + 1;
        if i == again {
            list.push(field(c, short(c)));
            let v = if sx::pick(2) == 1 { short(c) } else { any("y") };
            let at = [0, list.len() / 2, list.len()][sx::pick(3)];
            list.insert(at, field(c, v));
        } else if sx::pick(2) == 1 {
            list.push(field(c, short(c)));
        }
    }
    convert(list);
}
/// As plain, but no choices.
fn short(code: u8) -> Value {
    let s = |p| Value::String(build::string(&build::fill(p)));
    match code {
        1 => Value::ObjectPath(crate::parts::path(&build::fill("/?"))),
        2 => s("?.b"),
        3 => s("?"),
        4 => s("e?.F"),
        5 | 9 => Value::Uint32(sx::u32()),
        6 => s(":1.?"),
        7 => s("s?.e"),
        _ => Value::Signature(vec![Type::Byte, Type::Array(Box::new(Type::Variant))]),
    }
}
/// An entry of the wrong form, before or after or between valid ones.  params: form.
pub fn h_c26_form() {
    let byte = || Value::Byte(sx::u8());
    let var = |v| Value::Variant(Box::new(v));
    let s = |v| Value::Struct(Struct::try_from(v).unwrap());
    let t = |n: usize| any(TYPES[n]);
    let bad = match sx::param(0) {
        0 => t(sx::pick(TYPES.len())),
        1 => s(vec![byte()]),
        2 => s(vec![byte(), t(sx::pick(TYPES.len()))]),
        3 => s(vec![t(sx::pick(TYPES.len())), var(t(5))]),
        4 => s(vec![byte(), var(t(5)), t(sx::pick(TYPES.len()))]),
        5 => s(vec![var(t(5)), byte()]),
        6 => Value::DictEntry(Box::new((byte(), var(t(5))))),
        7 => Value::Array(Array::new(vec![field(3, short(3))], Type::Struct(vec![Type::Byte, Type::Variant])).unwrap()),
        8 => var(field(3, short(3))),
        9 => s(vec![field(3, short(3))]),
        10 => field(sx::u8(), var(t(5))),
        11 => field(sx::u8(), var(short(3))),
        12 => s(vec![t(sx::pick(TYPES.len())), byte(), var(t(5))]),
        13 => s(vec![s(vec![byte()]), var(t(5))]),
        14 => s(vec![byte(), byte(), byte(), byte()]),
        _ => s(vec![byte(), var(t(5)), byte(), var(t(5))]),
    };
    let at = sx::pick(3);
    let mut list = vec![field(1, short(1)), field(2, short(2))];
    list.insert(at, bad);
    convert(list);
}
