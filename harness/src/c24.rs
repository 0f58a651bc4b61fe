//! A rejection names a defect that the input has.
use crate::{
    build, grammar, msg, nest, sx,
    wire::{self, T, V, W},
};
use bytes::Bytes;
use dbus_message_parser::{
    decode::DecodeError,
    encode::EncodeError,
    match_rule::{Arg, MatchRule, MatchRuleError},
    message::{Message, MessageFlags, MessageHeader, MessageHeaderError, MessageHeaderFields, MessageHeaderFieldsError, MessageType},
    value::{
        Array, ArrayError, Bus, BusError, Error, ErrorError, Interface, InterfaceError, Member, MemberError, ObjectPath, ObjectPathError, Struct, StructError, Type,
        TypeError, UniqueConnectionName, UniqueConnectionNameError, Value, WellKnownBusName, WellKnownBusNameError,
    },
};
use std::convert::TryFrom;

/// What an error says about a name.
#[derive(Clone, Copy, PartialEq)]
enum Why {
    Char(u8),
    Long(usize),
    Empty,
    OneElement,
    EndDot,
    BeginDot,
    ElementDot,
    BeginDigit,
    ElementDigit,
    AnyDigit,
    AnyDot,
    NoColon,
    Colon,
    NoSlash,
    EndSlash,
    EmptyElement,
}
fn interface(e: InterfaceError) -> Why {
    match e {
        InterfaceError::ElementBeginDigit => Why::AnyDigit,
        InterfaceError::ElementBeginDot => Why::AnyDot,
        InterfaceError::EndDot => Why::EndDot,
        InterfaceError::Empty => Why::Empty,
        InterfaceError::Elements => Why::OneElement,
        InterfaceError::ExceedMaximum(n) => Why::Long(n),
        InterfaceError::InvalidChar(c) => Why::Char(c),
    }
}
fn error(e: ErrorError) -> Why {
    match e {
        ErrorError::ElementBeginDigit => Why::AnyDigit,
        ErrorError::ElementBeginDot => Why::AnyDot,
        ErrorError::EndDot => Why::EndDot,
        ErrorError::Empty => Why::Empty,
        ErrorError::Elements => Why::OneElement,
        ErrorError::ExceedMaximum(n) => Why::Long(n),
        ErrorError::InvalidChar(c) => Why::Char(c),
    }
}
fn member(e: MemberError) -> Why {
    match e {
        MemberError::BeginDigit => Why::BeginDigit,
        MemberError::Empty => Why::Empty,
        MemberError::ExceedMaximum(n) => Why::Long(n),
        MemberError::InvalidChar(c) => Why::Char(c),
    }
}
fn path(e: ObjectPathError) -> Why {
    match e {
        ObjectPathError::BeginAlphanumericAndUnderscoreAndHyphen => Why::NoSlash,
        ObjectPathError::EndSlash => Why::EndSlash,
        ObjectPathError::Empty => Why::Empty,
        ObjectPathError::ElementEmtpy => Why::EmptyElement,
        ObjectPathError::InvalidChar(c) => Why::Char(c),
    }
}
fn well_known(e: WellKnownBusNameError) -> Why {
    match e {
        WellKnownBusNameError::BeginDigit => Why::BeginDigit,
        WellKnownBusNameError::BeginDot => Why::BeginDot,
        WellKnownBusNameError::EndDot => Why::EndDot,
        WellKnownBusNameError::ElementBeginDigit => Why::ElementDigit,
        WellKnownBusNameError::ElementBeginDot => Why::ElementDot,
        WellKnownBusNameError::Empty => Why::Empty,
        WellKnownBusNameError::Elements => Why::OneElement,
        WellKnownBusNameError::ExceedMaximum(n) => Why::Long(n),
        WellKnownBusNameError::InvalidChar(c) => Why::Char(c),
    }
}
fn unique(e: UniqueConnectionNameError) -> Why {
    match e {
        UniqueConnectionNameError::BeginColon => Why::NoColon,
        UniqueConnectionNameError::BeginDot => Why::BeginDot,
        UniqueConnectionNameError::EndDot => Why::EndDot,
        UniqueConnectionNameError::ElementBeginDot => Why::ElementDot,
        UniqueConnectionNameError::Colon => Why::Colon,
        UniqueConnectionNameError::Empty => Why::Empty,
        UniqueConnectionNameError::Elements => Why::OneElement,
        UniqueConnectionNameError::ExceedMaximum(n) => Why::Long(n),
        UniqueConnectionNameError::InvalidChar(c) => Why::Char(c),
    }
}
fn bus(e: BusError, s: &[u8]) -> Why {
    let colon = s.len() > 0 && s[0] == b':';
    match e {
        BusError::UniqueConnectionNameError(e) => {
            sx::check(colon, 1);
            unique(e)
        }
        BusError::WellKnownBusNameError(e) => {
            sx::check(!colon, 1);
            well_known(e)
        }
    }
}
/// The error from `s` through the given conversion: 0 bytes, 1 text, 2 String.
macro_rules! err {
    ($t:ident, $s:expr, $conv:expr, $why:expr) => {
        match $conv {
            0 => $t::try_from($s).err().map($why),
            1 => $t::try_from(unsafe { std::str::from_utf8_unchecked($s) }).err().map($why),
            _ => $t::try_from(unsafe { String::from_utf8_unchecked($s.to_vec()) }).err().map($why),
        }
    };
}
fn name_error(kind: usize, s: &[u8], conv: usize) -> Option<Why> {
    match kind {
        0 => err!(Interface, s, conv, interface),
        1 => err!(Error, s, conv, error),
        2 => err!(Member, s, conv, member),
        3 => err!(ObjectPath, s, conv, path),
        4 => err!(WellKnownBusName, s, conv, well_known),
        5 => err!(UniqueConnectionName, s, conv, unique),
        _ => err!(Bus, s, conv, |e| bus(e, s)),
    }
}
/// Is `c` in the alphabet of names of this kind?
fn allowed(kind: usize, unique: bool, c: u8) -> bool {
    let word = grammar::is_alpha_(c) | grammar::is_digit(c);
    match kind {
        2 => word,
        3 => word | (c == b'/'),
        0 | 1 => word | (c == b'.'),
        _ => word | (c == b'.') | (c == b'-') | (unique & (c == b':')),
    }
}
/// Is there an `a` directly followed by a byte satisfying `f`?
fn pair(s: &[u8], a: u8, f: fn(u8) -> bool) -> bool {
    let mut found = false;
    for i in 1..s.len() {
        found |= (s[i - 1] == a) & f(s[i]);
    }
    found
}
fn has(s: &[u8], c: u8) -> bool {
    let mut found = false;
    for x in s {
        found |= *x == c;
    }
    found
}
fn is_dot(c: u8) -> bool {
    c == b'.'
}
fn is_slash(c: u8) -> bool {
    c == b'/'
}
/// Is what the error says true of `s`?
fn holds(kind: usize, s: &[u8], why: Why) -> bool {
    let uniq = kind == 5 || (kind == 6 && s.len() > 0 && s[0] == b':');
    let first = |f: fn(u8) -> bool| s.len() > 0 && f(s[0]);
    let last = |f: fn(u8) -> bool| s.len() > 0 && f(s[s.len() - 1]);
    let element_dot = pair(s, b'.', is_dot) | (uniq && pair(s, b':', is_dot));
    match why {
        Why::Char(c) => has(s, c) & !allowed(kind, uniq, c),
        Why::Long(n) => kind != 3 && n == s.len() && n > 255,
        Why::Empty => s.is_empty() || (uniq && s.len() == 1 && s[0] == b':'),
        Why::OneElement => !has(s, b'.'),
        Why::EndDot => last(is_dot),
        Why::BeginDot => first(is_dot),
        Why::ElementDot => element_dot,
        Why::AnyDot => first(is_dot) | element_dot,
        Why::BeginDigit => first(grammar::is_digit),
        Why::ElementDigit => pair(s, b'.', grammar::is_digit),
        Why::AnyDigit => first(grammar::is_digit) | pair(s, b'.', grammar::is_digit),
        Why::NoColon => s.len() > 0 && s[0] != b':',
        Why::Colon => s.len() > 1 && has(&s[1..], b':'),
        Why::NoSlash => s.len() > 0 && s[0] != b'/',
        Why::EndSlash => s.len() > 1 && last(is_slash),
        Why::EmptyElement => pair(s, b'/', is_slash),
    }
}
/// Every byte string.  params: kind of name, length, conversion.
pub fn h_c24_name() {
    let kind = sx::param(0);
    let s = sx::vec(sx::param(1));
    let conv = sx::param(2);
    if conv != 0 {
        sx::ascii(&s);
    }
    match name_error(kind, &s, conv) {
        Some(why) => {
            sx::reach(1);
            sx::check(holds(kind, &s, why), 2);
            if conv != 0 {
                sx::check(name_error(kind, &s, 0) == Some(why), 3);
            }
        }
        None => sx::reach(2),
    }
}
/// Long names with one arbitrary byte.  params: kind, length, conversion, beginning, unit.
pub fn h_c24_name_far() {
    let (kind, n, conv) = (sx::param(0), sx::param(1), sx::param(2));
    let mut s = sx::param_bytes(3);
    let unit = sx::param_bytes(4);
    while s.len() + unit.len() <= n {
        s.extend_from_slice(&unit);
    }
    s.resize(n, b'k');
    let i = [0, 1, n / 2, n - 2, n - 1][sx::pick(5)];
    s[i] = sx::u8();
    if conv != 0 {
        sx::assume(s[i] < 128);
    }
    match name_error(kind, &s, conv) {
        Some(why) => {
            sx::reach(1);
            sx::check(holds(kind, &s, why), 2);
        }
        None => sx::reach(2),
    }
}

// ------------------------------------------------------------------ signatures
/// Where and why the text stops being the beginning of a signature.
enum Stop {
    /// a type cannot begin with the character there
    At(usize),
    /// a dictionary entry is not closed there
    Unclosed(usize),
    /// the text ends within a type
    Short,
    None,
}
/// One automaton with a stack of the open containers: 'a', or '(' and '{' with the number of members.
/// Returns also the end of the first complete type, and the deepest nesting of each kind.
fn scan(s: &[u8]) -> (Stop, usize, [usize; 3]) {
    let mut open: Vec<(u8, usize)> = Vec::new();
    let mut first = 0;
    let mut deepest = [0; 3];
    for i in 0..s.len() {
        let c = s[i];
        let mut done = false;
        if let Some((k, n)) = open.last().copied() {
            if k == b'(' && n > 0 && c == b')' {
                open.pop();
                done = true;
            } else if k == b'{' && n == 2 {
                if c != b'}' {
                    return (Stop::Unclosed(i), first, deepest);
                }
                open.pop();
                done = true;
            }
        }
        if !done {
            match c {
                b'a' | b'(' | b'{' => {
                    open.push((c, 0));
                    for (d, k) in deepest.iter_mut().zip(b"a({") {
                        *d = (*d).max(open.iter().filter(|o| o.0 == *k).count());
                    }
                    continue;
                }
                b'y' | b'b' | b'n' | b'q' | b'i' | b'u' | b'x' | b't' | b'd' | b's' | b'o' | b'g' | b'h' | b'v' => {}
                _ => return (Stop::At(i), first, deepest),
            }
        }
        while matches!(open.last(), Some((b'a', _))) {
            open.pop();
        }
        match open.last_mut() {
            Some(o) => o.1 += 1,
            None if first == 0 => first = i + 1,
            None => {}
        }
    }
    (if open.is_empty() { Stop::None } else { Stop::Short }, first, deepest)
}
fn type_error(s: &[u8], e: &TypeError, one: bool) -> bool {
    let (stop, first, deepest) = scan(s);
    match e {
        TypeError::InvalidChar(c) => matches!(stop, Stop::At(i) if s[i] == *c),
        TypeError::ClosingCurlyBracket(p, c) => matches!(stop, Stop::Unclosed(i) if i == *p && s[i] == *c),
        TypeError::TooShort(n, at) => *n == s.len() && *at >= s.len() && (matches!(stop, Stop::Short) || (one && s.is_empty())),
        TypeError::MultiplyTypes => one && first > 0 && first < s.len(),
        TypeError::ArrayDepth(n) => *n == 33 && deepest[0] > 32,
        TypeError::StructDepth(n) => *n == 33 && deepest[1] > 32,
        TypeError::DictDepth(n) => *n == 33 && deepest[2] > 32,
        TypeError::ExceedMaximum(n) => *n == s.len() && *n > 255,
    }
}
fn types(s: &[u8], ascii: bool) {
    let many = Type::from_bytes_to_signature(s);
    let one = Type::try_from(s);
    if ascii {
        let t = unsafe { std::str::from_utf8_unchecked(s) };
        sx::check(Type::from_string_to_signature(t) == many, 6);
        sx::check(Type::try_from(t) == one, 7);
    }
    sx::reach(if many.is_ok() { 2 } else { 1 });
    if let Err(e) = many {
        sx::check(type_error(s, &e, false), 4);
    }
    if let Err(e) = one {
        sx::check(type_error(s, &e, true), 5);
    }
}
/// Every byte string.  param: length.
pub fn h_c24_type() {
    types(&sx::vec(sx::param(0)), false);
}
/// One basic type, the brackets and a character that is no code.  param: length.
pub fn h_c24_type_shape() {
    let s = sx::vec(sx::param(0));
    for c in &s {
        let c = *c;
        sx::assume((c == b'y') | (c == b'a') | (c == b'(') | (c == b')') | (c == b'{') | (c == b'}') | (c == b'z'));
    }
    types(&s, true);
}
/// Containers of one kind at the limit inside a few others, with one arbitrary byte in the middle
/// or at the end.  params: kind, how many, kind outside, how many of those.
pub fn h_c24_type_deep() {
    let mut open = vec![sx::param(2); sx::param(3)];
    open.resize(sx::param(3) + sx::param(1), sx::param(0));
    let c = [sx::u8()];
    let mut s = nest::signature(&open, &c);
    if sx::pick(2) == 1 {
        s.push(sx::u8());
    }
    types(&s, false);
}
/// Long signatures.  params: length, unit.
pub fn h_c24_type_long() {
    let n = sx::param(0);
    let unit = sx::param_bytes(1);
    let mut s = Vec::new();
    while s.len() < n {
        s.extend_from_slice(&unit);
    }
    s.truncate(n);
    s[n / 2] = sx::u8();
    s[n - 1] = sx::u8();
    types(&s, false);
}

// ------------------------------------------------------------------ messages with one defect
fn run(b: &[u8]) -> Result<(), DecodeError> {
    Message::decode(Bytes::from(b.to_vec())).map(|_| ())
}
/// The body must be rejected with this error exactly if `bad`.
fn body(le: bool, sig: &[u8], b: &[u8], bad: bool, ok: fn(&DecodeError, u64) -> bool, arg: u64) {
    expect(&msg::with_body(le, sig, b), bad, ok, arg);
}
fn expect(m: &[u8], bad: bool, ok: fn(&DecodeError, u64) -> bool, arg: u64) {
    match run(m) {
        Ok(()) => {
            sx::check(!bad, 10);
            sx::reach(2);
        }
        Err(e) => {
            sx::check(bad, 11);
            sx::check(ok(&e, arg), 12);
            sx::reach(1);
        }
    }
}
/// Wrong first bytes of a message.  params: which, 1 for little endian.
pub fn h_c24_first() {
    let mut b = msg::with_body(sx::param(1) == 1, b"y", b"x");
    let at = sx::param(0);
    let c = sx::u8();
    b[at] = c;
    match at {
        0 => sx::assume((c != b'l') & (c != b'B')),
        1 => sx::assume((c == 0) | (c > 4)),
        _ => sx::assume(c > 7),
    }
    expect(
        &b,
        true,
        [
            |e: &DecodeError, c: u64| *e == DecodeError::Endianness(c as u8),
            |e: &DecodeError, c: u64| *e == DecodeError::MessageType(c as u8),
            |e: &DecodeError, c: u64| *e == DecodeError::MessageFlags(c as u8),
        ][at],
        c as u64,
    );
}
/// A boolean, alone or within other values.  params: signature, body before it, body after it (hex
/// templates), 1 for little endian.
pub fn h_c24_boolean() {
    let le = sx::param(3) == 1;
    let n = sx::u32();
    let mut w = W::new(le);
    w.out = sx::template(1);
    w.num(4, n as u64);
    w.out.extend_from_slice(&sx::template(2));
    body(le, &sx::param_bytes(0), &w.out, n > 1, |e, n| *e == DecodeError::InvalidBoolean(n as u32), n as u64);
}
/// One wrong padding byte or terminator anywhere in a body.  params: signature, 1 for little endian,
/// longest string, longest array, menu of variants.
pub fn h_c24_zero() {
    let le = sx::param(1) == 1;
    let sig = sx::param_bytes(0);
    let ts = wire::signature(&sig).unwrap();
    let g = build::Gen { strings: sx::param(2), arrays: sx::param(3), variants: MENUS[sx::param(4)] };
    let mut w = W::new(le);
    w.zeros = Some(Vec::new());
    for v in build::values(&ts, &g).0 {
        w.value(&v);
    }
    let zeros = w.zeros.take().unwrap();
    let (at, end) = zeros[sx::pick(zeros.len())];
    let c = sx::u8();
    w.out[at] = c;
    body(
        le,
        &sig,
        &w.out,
        c != 0,
        if end { |e, c| *e == DecodeError::StringNotNull(c as u8) } else { |e, c| *e == DecodeError::Padding(c as u8) },
        c as u64,
    );
}
const MENUS: [&[&str]; 3] = [&["y", "u", "x", "s"], &["(yu)", "ay", "at", "g", "(y)"], &["v", "v", "a{yx}", "q"]];
/// Padding in the header: after the fields, or between two fields.  params: which, 1 for little endian.
pub fn h_c24_header_zero() {
    let le = sx::param(1) == 1;
    let mut w = msg::begin(le, 1, 0, 1, 1, 0);
    msg::text_field(&mut w, 1, b'o', b"/");
    let at = w.out.len();
    msg::text_field(&mut w, 3, b's', b"M");
    let end = w.out.len();
    let mut b = msg::finish(w, b"");
    let which = [at, at + 1, at + 5, end, end + 1, b.len() - 1][sx::param(0)];
    let c = sx::u8();
    sx::check(b[which] == 0, 90);
    b[which] = c;
    expect(&b, c != 0, |e, c| *e == DecodeError::Padding(c as u8), c as u64);
}
/// The declared length of an array.  params: signature, bytes after the length, 1 for little endian.
pub fn h_c24_array() {
    let le = sx::param(2) == 1;
    let n = sx::u32();
    sx::assume(n as u64 > wire::MAX_ARRAY);
    let mut w = W::new(le);
    w.num(4, n as u64);
    w.out.resize(4 + sx::param(1), 0);
    body(le, &sx::param_bytes(0), &w.out, true, |e, n| *e == DecodeError::ArrayTooBig(n as u32), n as u64);
}
/// Elements that do not end where the array ends.  params: width of the elements' numbers ('q', 'u',
/// 't' by 2, 4, 8), 1 for little endian.
pub fn h_c24_array_end() {
    let (wd, le) = (sx::param(0), sx::param(1) == 1);
    let n = sx::u8();
    sx::assume(n <= 24);
    let mut w = W::new(le);
    w.num(4, n as u64);
    w.pad(wd);
    let at = w.out.len();
    w.out.resize(at + 32, 0);
    let sig = if wd == 2 { b"aq" } else if wd == 4 { b"au" } else { b"at" };
    let m = msg::with_header(le, 2, sig, w.out.len() as u32, &w.out);
    let start = m.len() - 32;
    let n = n as usize;
    let end = start + (n + wd - 1) / wd * wd;
    match run(&m) {
        Err(DecodeError::ArrayInvalidLength(got, want)) => {
            sx::check(n % wd != 0, 13);
            sx::check(got == end && want == start + n, 14);
            sx::reach(1);
        }
        Err(DecodeError::BodyLength(want, got)) => {
            sx::check(n % wd == 0, 15);
            sx::check(want == m.len() && got == end, 16);
            sx::reach(2);
        }
        _ => sx::check(false, 17),
    }
}
/// A declared body length other than that of the values.  params: signature, body (hex), 1 for
/// little endian.
pub fn h_c24_length() {
    let le = sx::param(2) == 1;
    let sig = sx::param_bytes(0);
    let b = sx::template(1);
    let n = sx::u32();
    let m = msg::with_header(le, 2, &sig, n, &b);
    let start = m.len() - b.len();
    let r = run(&m);
    if n == 0 {
        sx::reach(1);
        let ts = wire::signature(&sig).unwrap();
        sx::check(matches!(r, Err(DecodeError::BodyLengthZero(t)) if wire::same_types(&ts, &t)), 18);
    } else if n as usize == b.len() {
        sx::reach(2);
        sx::check(r.is_ok(), 19);
    } else {
        sx::check(r == Err(DecodeError::BodyLength(start + n as usize, start + b.len())), 20);
    }
}
/// A body length without a signature.  params: message type, 1 for little endian.
pub fn h_c24_unsigned() {
    let n = sx::u32();
    let mut w = msg::begin(sx::param(1) == 1, sx::param(0) as u8, 0, 1, 1, n);
    msg::mandatory(&mut w, sx::param(0) as u8);
    let b = msg::finish(w, b"\0\0\0\0");
    expect(&b, n != 0, |e, n| *e == DecodeError::BodySignatureMissing(n as u32), n as u64);
}
/// A descriptor index.  params: number of descriptors, 1 for little endian.
pub fn h_c24_fd() {
    let le = sx::param(1) == 1;
    let fds: Vec<i32> = (10..10 + sx::param(0) as i32).collect();
    let i = sx::u32();
    let mut w = W::new(le);
    w.num(4, 1);
    w.num(4, i as u64);
    let m = msg::with_body(le, b"uh", &w.out);
    match Message::decode_with_fds(Bytes::from(m), &fds) {
        Ok(_) => {
            sx::check((i as usize) < fds.len(), 21);
            sx::reach(2);
        }
        Err(e) => {
            sx::check(i as usize >= fds.len(), 22);
            sx::check(e == DecodeError::NotEnoughFds(fds.len(), i as usize), 23);
            sx::reach(1);
        }
    }
}
/// Nested variants.  params: how many, 1 for little endian.
pub fn h_c24_variants() {
    let le = sx::param(1) == 1;
    let n = sx::param(0);
    let mut w = W::new(le);
    for _ in 1..n {
        w.sig(b"v");
    }
    w.sig(b"y");
    w.num(1, sx::u8() as u64);
    body(le, b"v", &w.out, n > 4, |e, _| *e == DecodeError::VariantDepth(5), 0);
}
/// Text in a body: a string, path, signature or variant whose text is arbitrary.  params: type, length,
/// 1 for little endian.
pub fn h_c24_text() {
    let le = sx::param(2) == 1;
    let t = sx::param_bytes(0);
    let s = sx::vec(sx::param(1));
    let mut w = W::new(le);
    match t[0] {
        b's' | b'o' => w.text(&s),
        _ => w.sig(&s),
    }
    let r = run(&msg::with_body(le, &t, &w.out));
    let want = match t[0] {
        b's' => std::str::from_utf8(&s).err().map(DecodeError::Utf8Error),
        b'o' => ObjectPath::try_from(&s[..]).err().map(DecodeError::ObjectPathError),
        b'g' => Type::from_bytes_to_signature(&s).err().map(DecodeError::SignatureError),
        _ => match Type::try_from(&s[..]) {
            Err(e) => Some(DecodeError::SignatureError(e)),
            // a value is missing
            Ok(_) => {
                sx::check(matches!(r, Err(DecodeError::NotEnoughBytes(..)) | Err(DecodeError::VariantDepth(_))), 24);
                sx::reach(2);
                return;
            }
        },
    };
    sx::reach(if want.is_some() { 1 } else { 2 });
    sx::check(r.err() == want, 25);
}

type FE = MessageHeaderFieldsError;
/// A name in a header field that is arbitrary text.  params: field code, length, 1 for little endian.
pub fn h_c24_field_name() {
    let code = sx::param(0) as u8;
    let s = sx::vec(sx::param(1));
    // a string must be UTF-8
    if code != 1 && code != 8 {
        sx::ascii(&s);
    }
    let kind = if code == 4 { 3 } else { 4 };
    let mut w = msg::begin(sx::param(2) == 1, kind, 0, 1, 1, 0);
    for c in 1..=5 {
        if c != code {
            match c {
                1 => msg::text_field(&mut w, 1, b'o', b"/a"),
                2 => msg::text_field(&mut w, 2, b's', b"a.b"),
                3 => msg::text_field(&mut w, 3, b's', b"M"),
                4 => msg::text_field(&mut w, 4, b's', b"e.f"),
                _ => msg::u32_field(&mut w, 5, 1),
            }
        }
    }
    match code {
        1 => msg::text_field(&mut w, 1, b'o', &s),
        8 => msg::sig_field(&mut w, &s),
        _ => msg::text_field(&mut w, code, b's', &s),
    }
    let r = run(&msg::finish(w, b""));
    let f = DecodeError::MessageHeaderFieldsError;
    let want = match code {
        1 => ObjectPath::try_from(&s[..]).err().map(DecodeError::ObjectPathError),
        2 => Interface::try_from(&s[..]).err().map(|e| f(FE::InterfaceError(e))),
        3 => Member::try_from(&s[..]).err().map(|e| f(FE::MemberError(e))),
        4 => Error::try_from(&s[..]).err().map(|e| f(FE::ErrorError(e))),
        8 => match Type::from_bytes_to_signature(&s) {
            Err(e) => Some(DecodeError::SignatureError(e)),
            Ok(t) if t.is_empty() => None,
            Ok(t) => Some(DecodeError::BodyLengthZero(t)),
        },
        _ => Bus::try_from(&s[..]).err().map(|e| f(FE::BusError(e))),
    };
    sx::reach(if want.is_some() { 1 } else { 2 });
    sx::check(r.err() == want, 26);
}
/// The value in the error about a header field, if it is about field `code` having another type.
fn wrong_type(e: FE, code: u8) -> Option<Value> {
    match (code, e) {
        (1, FE::Path(v)) | (2, FE::Interface(v)) | (3, FE::Member(v)) | (4, FE::ErrorName(v)) | (5, FE::ReplySerial(v)) => Some(v),
        (6, FE::Destination(v)) | (7, FE::Sender(v)) | (8, FE::Signature(v)) | (9, FE::UnixFDs(v)) => Some(v),
        _ => None,
    }
}
fn multiple(e: FE, code: u8) -> Option<Value> {
    match (code, e) {
        (1, FE::MultiplePath(v)) | (2, FE::MultipleInterface(v)) | (3, FE::MultipleMember(v)) | (4, FE::MultipleErrorName(v)) => Some(v),
        (5, FE::MultipleReplySerial(v)) | (6, FE::MultipleDestination(v)) | (7, FE::MultipleSender(v)) => Some(v),
        (8, FE::MultipleSignature(v)) | (9, FE::MultipleUnixFDs(v)) => Some(v),
        _ => None,
    }
}
const OTHERS: [&str; 9] = ["y", "q", "u", "x", "d", "s", "o", "g", "(y)"];
/// The type a field must have.
fn right(code: u8) -> &'static str {
    match code {
        1 => "o",
        5 | 9 => "u",
        8 => "g",
        _ => "s",
    }
}
fn other(t: &str) -> (V, Value) {
    let t = wire::single(t.as_bytes()).unwrap();
    build::value(&t, &build::Gen { strings: 1, arrays: 1, variants: &[] })
}
/// All the fields, except that of this code, and then it (unless 0) with the value.
fn all_fields(le: bool, without: u8, code: u8, t: &str, v: &V) -> Vec<u8> {
    let mut w = msg::begin(le, 1, 0, 1, 1, 0);
    for c in 1..=9 {
        if c != without {
            match c {
                1 => msg::text_field(&mut w, 1, b'o', b"/a"),
                2 => msg::text_field(&mut w, 2, b's', b"a.b"),
                3 => msg::text_field(&mut w, 3, b's', b"M"),
                4 => msg::text_field(&mut w, 4, b's', b"e.f"),
                5 => msg::u32_field(&mut w, 5, 1),
                6 => msg::text_field(&mut w, 6, b's', b"a.b"),
                7 => msg::text_field(&mut w, 7, b's', b":1.2"),
                8 => msg::sig_field(&mut w, b""),
                _ => msg::u32_field(&mut w, 9, 1),
            }
        }
    }
    w.pad(8);
    w.num(1, code as u64);
    w.sig(t.as_bytes());
    w.value(v);
    msg::finish(w, b"")
}
/// A field of another type.  params: code, 1 for little endian.
pub fn h_c24_field_type() {
    let code = sx::param(0) as u8;
    let t = OTHERS[sx::pick(OTHERS.len())];
    if t == right(code) {
        return;
    }
    let (v, c) = other(t);
    match run(&all_fields(sx::param(1) == 1, code, code, t, &v)) {
        Err(DecodeError::MessageHeaderFieldsError(e)) => {
            let got = wrong_type(e, code);
            sx::check(matches!(got, Some(g) if build::same(&g, &c)), 27);
            sx::reach(1);
        }
        _ => sx::check(false, 28),
    }
}
/// A field given twice.  params: code, 1 for little endian.
pub fn h_c24_field_twice() {
    let code = sx::param(0) as u8;
    let t = right(code);
    let (v, c) = other(t);
    match run(&all_fields(sx::param(1) == 1, 0, code, t, &v)) {
        Err(DecodeError::MessageHeaderFieldsError(e)) => {
            let got = multiple(e, code);
            sx::check(matches!(got, Some(g) if build::same(&g, &c)), 29);
            sx::reach(1);
        }
        _ => sx::check(false, 30),
    }
}
/// A field code that is none.  param: 1 for little endian.
pub fn h_c24_field_code() {
    let code = sx::u8();
    sx::assume((code == 0) | (code > 9));
    let t = OTHERS[sx::pick(OTHERS.len())];
    let m = all_fields(sx::param(0) == 1, 0, code, t, &other(t).0);
    expect(&m, true, |e, c| *e == DecodeError::MessageHeaderFieldsError(FE::InvalidNumber(c as u8)), code as u64);
}
fn missing(e: &MessageHeaderError, kind: u8, f: &MessageHeaderFields) -> bool {
    match e {
        MessageHeaderError::MissingPath => (kind == 1 || kind == 4) && f.path.is_none(),
        MessageHeaderError::MissingInterface => kind == 4 && f.interface.is_none(),
        MessageHeaderError::MissingMember => (kind == 1 || kind == 4) && f.member.is_none(),
        MessageHeaderError::MissingErrorName => kind == 3 && f.error_name.is_none(),
        MessageHeaderError::MissingReplySerial => (kind == 2 || kind == 3) && f.reply_serial.is_none(),
    }
}
/// Missing fields, when made and when decoded.  params: message type, 1 for little endian.
pub fn h_c24_missing() {
    let kind = sx::param(0) as u8;
    let le = sx::param(1) == 1;
    let mut f = MessageHeaderFields::default();
    let mut w = msg::begin(le, kind, 0, 1, 1, 0);
    if sx::pick(2) == 1 {
        f.path = Some(ObjectPath::try_from("/a").unwrap());
        msg::text_field(&mut w, 1, b'o', b"/a");
    }
    if sx::pick(2) == 1 {
        f.interface = Some(Interface::try_from("a.b").unwrap());
        msg::text_field(&mut w, 2, b's', b"a.b");
    }
    if sx::pick(2) == 1 {
        f.member = Some(Member::try_from("M").unwrap());
        msg::text_field(&mut w, 3, b's', b"M");
    }
    if sx::pick(2) == 1 {
        f.error_name = Some(Error::try_from("e.f").unwrap());
        msg::text_field(&mut w, 4, b's', b"e.f");
    }
    if sx::pick(2) == 1 {
        f.reply_serial = Some(1);
        msg::u32_field(&mut w, 5, 1);
    }
    let types = [MessageType::MethodCall, MessageType::MethodReturn, MessageType::Error, MessageType::Signal];
    let made = MessageHeader::new(le, types[kind as usize - 1], MessageFlags::empty(), 1, 1, f.clone());
    match (run(&msg::finish(w, b"")), made) {
        (Ok(_), Ok(_)) => sx::reach(2),
        (Err(DecodeError::MessageHeaderError(a)), Err(b)) => {
            sx::check(missing(&a, kind, &f), 31);
            sx::check(missing(&b, kind, &f), 32);
            sx::reach(1);
        }
        _ => sx::check(false, 33),
    }
}

// ------------------------------------------------------------------ match rules
fn rule(t: &[u8]) -> Result<Vec<MatchRule>, MatchRuleError> {
    MatchRule::decode(unsafe { std::str::from_utf8_unchecked(t) })
}
/// The value of one key is arbitrary.  params: key, length of the value.
pub fn h_c24_rule_value() {
    let key = sx::param_bytes(0);
    let v = sx::vec(sx::param(1));
    for c in &v {
        let c = *c;
        sx::assume((c < 128) & (c != b'\'') & (c != b'\\') & (c != b','));
    }
    let mut t = key.clone();
    t.push(b'=');
    t.extend_from_slice(&v);
    let b = &v[..];
    let want = match &key[..] {
        b"type" => {
            let ok = b == b"signal" || b == b"error" || b == b"method_call" || b == b"method_return";
            if ok { None } else { Some(MatchRuleError::TypeUnknown) }
        }
        b"sender" => Bus::try_from(b).err().map(MatchRuleError::SenderError),
        b"interface" => Interface::try_from(b).err().map(MatchRuleError::InterfaceError),
        b"member" => Member::try_from(b).err().map(MatchRuleError::MemberError),
        b"path" => ObjectPath::try_from(b).err().map(MatchRuleError::PathError),
        b"path_namespace" => ObjectPath::try_from(b).err().map(MatchRuleError::PathErrorNamespace),
        b"destination" => UniqueConnectionName::try_from(b).err().map(MatchRuleError::DestinationError),
        b"arg0namespace" => Interface::try_from(b).err().map(MatchRuleError::Arg0NamespaceError),
        b"eavesdrop" => {
            if b == b"true" || b == b"false" { None } else { Some(MatchRuleError::EavesdropUnknown) }
        }
        _ => ObjectPath::try_from(b).err().map(MatchRuleError::ArgPathError),
    };
    sx::reach(if want.is_some() { 1 } else { 2 });
    sx::check(rule(&t).err() == want, 34);
}
/// Keys.  params: a key (or its beginning), number of arbitrary characters after it.
pub fn h_c24_rule_key() {
    let key = sx::param_bytes(0);
    let k = sx::vec(sx::param(1));
    let mut t = key;
    t.extend_from_slice(&k);
    sx::ascii(&t);
    let n = t.len();
    let equals = sx::pick(2) == 1;
    if equals {
        t.extend_from_slice(b"='a.b'");
    }
    // the key of the first rule
    match rule(&t) {
        Ok(_) => sx::reach(2),
        Err(e) => {
            sx::reach(1);
            let ok = match &e {
                MatchRuleError::KeyInvalidChar(c) => {
                    let c = *c as u32;
                    let word = c < 128 && grammar::is_elem(c as u8);
                    c < 128 && has(&t, c as u8) && !word && c != b'=' as u32
                }
                MatchRuleError::KeyEmpty => t.is_empty() || t[0] == b'=' || has(&t, b','),
                MatchRuleError::MissingEqual => !equals || has(&t[..n], b','),
                MatchRuleError::ValueClosingQuote => has(&t[..n], b'\''),
                MatchRuleError::KeyUnknown => true,
                _ => true,
            };
            sx::check(ok, 35);
        }
    }
}
/// A character of several bytes in a key.  params: the key before it, its width, the key after it.
pub fn h_c24_rule_wide() {
    let mut t = sx::param_bytes(0);
    let at = t.len();
    let c = sx::vec(sx::param(1));
    for b in &c[1..] {
        sx::assume(*b & 0xc0 == 0x80);
    }
    let v = match c.len() {
        2 => {
            sx::assume((c[0] >= 0xc2) & (c[0] <= 0xdf));
            (c[0] as u32 & 31) << 6 | c[1] as u32 & 63
        }
        3 => {
            sx::assume((c[0] >= 0xe1) & (c[0] <= 0xec));
            (c[0] as u32 & 15) << 12 | (c[1] as u32 & 63) << 6 | c[2] as u32 & 63
        }
        _ => {
            sx::assume((c[0] >= 0xf1) & (c[0] <= 0xf3));
            (c[0] as u32 & 7) << 18 | (c[1] as u32 & 63) << 12 | (c[2] as u32 & 63) << 6 | c[3] as u32 & 63
        }
    };
    t.extend_from_slice(&c);
    t.extend_from_slice(&sx::param_bytes(2));
    let later = sx::pick(2) == 1;
    t.extend_from_slice(if later { b"=a" } else { b"='a,'" });
    let mut all = Vec::new();
    if sx::pick(2) == 1 {
        all.extend_from_slice(b"type='signal',");
    }
    all.extend_from_slice(&t);
    match rule(&all) {
        Err(MatchRuleError::KeyInvalidChar(k)) => {
            sx::check(k as u32 == v, 55);
            sx::reach(if at == 0 { 1 } else { 2 });
        }
        _ => sx::check(false, 56),
    }
}
/// An entry of a header field list of any shape.  param: number of members, 0 for no structure.
pub fn h_c24_field_shape() {
    fn member() -> Value {
        match sx::pick(5) {
            0 => Value::Byte(sx::u8()),
            1 => Value::Variant(Box::new(Value::Uint32(sx::u32()))),
            2 => Value::Variant(Box::new(Value::Byte(sx::u8()))),
            3 => Value::Uint32(sx::u32()),
            _ => Value::String(String::new()),
        }
    }
    let n = sx::param(0);
    let members: Vec<Value> = (0..n.max(1)).map(|_| member()).collect();
    let e = if n == 0 { members[0].clone() } else { Value::Struct(Struct::try_from(members.clone()).unwrap()) };
    let plain = n == 2 && matches!((&members[0], &members[1]), (Value::Byte(_), Value::Variant(_)));
    use MessageHeaderFieldsError as E;
    match MessageHeaderFields::try_from(vec![e.clone()]) {
        Ok(_) => {
            sx::check(plain, 57);
            sx::reach(2);
        }
        Err(x) => {
            sx::reach(1);
            let ok = match &x {
                E::Struct(v) => n == 0 && *v == e,
                E::Length(k) => n != 0 && n != 2 && *k == n,
                E::Variant(v) => n == 2 && !matches!(v, Value::Variant(_)) && *v == members[1],
                E::Byte(v) => n == 2 && !matches!(v, Value::Byte(_)) && *v == members[0],
                E::InvalidNumber(b) => plain && members[0] == Value::Byte(*b) && !(*b >= 1 && *b <= 9),
                _ => plain,
            };
            sx::check(ok, 58);
        }
    }
}
fn digits(s: &[u8]) -> Option<usize> {
    let mut n = 0;
    for c in s {
        if !grammar::is_digit(*c) {
            return None;
        }
        n = n * 10 + (*c - b'0') as usize;
    }
    Some(n)
}
/// Argument indices.  params: number of characters, 1 for a path.
pub fn h_c24_rule_index() {
    let i = sx::vec(sx::param(0));
    for c in &i {
        sx::assume(grammar::is_elem(*c));
    }
    let path = sx::param(1) == 1;
    // not a path all the same
    sx::assume(path || i.is_empty() || i[i.len() - 1] != b'h');
    let mut t = b"arg".to_vec();
    t.extend_from_slice(&i);
    t.extend_from_slice(if path { b"path=/a" } else { b"=/a" });
    match (rule(&t), digits(&i)) {
        (Ok(_), n) => {
            sx::check(matches!(n, Some(n) if n < 64), 36);
            sx::reach(2);
        }
        (Err(MatchRuleError::ArgIndexTooBig(a)), n) => {
            sx::check(matches!(n, Some(n) if n == a && n >= 64), 37);
            sx::reach(1);
        }
        (Err(MatchRuleError::ArgIndexError(_)), n) => {
            sx::check(n.is_none() || i.is_empty(), 38);
            sx::reach(3);
        }
        _ => sx::check(false, 39),
    }
}
/// An index given directly.
pub fn h_c24_arg() {
    let i = sx::u64() as usize;
    match Arg::try_from((i, String::from("a"))) {
        Ok(a) => {
            sx::check(i < 64 && a.get_index() == i, 40);
            sx::reach(2);
        }
        Err(e) => {
            sx::check(i >= 64 && e == MatchRuleError::ArgIndexTooBig(i), 41);
            sx::reach(1);
        }
    }
}

// ------------------------------------------------------------------ values
const ELEMENTS: [&str; 14] = ["y", "b", "q", "n", "u", "i", "x", "t", "s", "o", "g", "v", "ay", "(y)"];
/// One element among others has another type.  params: number of elements, declared type.
pub fn h_c24_mismatch() {
    let g = build::Gen { strings: 0, arrays: 1, variants: &["q"] };
    let n = sx::param(0);
    let t = wire::single(ELEMENTS[sx::param(1)].as_bytes()).unwrap();
    let o = wire::single(ELEMENTS[sx::pick(ELEMENTS.len())].as_bytes()).unwrap();
    let at = sx::pick(n);
    let cs = (0..n).map(|i| build::value(if i == at { &o } else { &t }, &g).1).collect();
    match Array::new(cs, build::to_type(&t)) {
        Ok(_) => {
            sx::check(o == t, 42);
            sx::reach(2);
        }
        Err(e) => {
            sx::check(o != t, 43);
            sx::check(e == ArrayError::TypeMismatch(build::to_type(&t), build::to_type(&o)), 44);
            sx::reach(1);
        }
    }
}
fn encoded(v: Value) -> Result<(), EncodeError> {
    let mut f = MessageHeaderFields::default();
    f.reply_serial = Some(1);
    let h = MessageHeader::new(sx::bool(), MessageType::MethodReturn, MessageFlags::empty(), 1, 1, f).unwrap();
    Message::new(h, vec![v]).encode().map(|_| ())
}
/// Variants and containers nested when encoded; an empty struct.  params: kind (6 for variants), how many.
pub fn h_c24_encode() {
    let (kind, n) = (sx::param(0), sx::param(1));
    if kind == 6 {
        let mut v = Value::Byte(sx::u8());
        for _ in 0..n {
            v = Value::Variant(Box::new(v));
        }
        match encoded(v) {
            Ok(()) => {
                sx::check(n <= 4, 45);
                sx::reach(2);
            }
            Err(e) => {
                sx::check(n > 4 && e == EncodeError::VariantDepth(5), 46);
                sx::reach(1);
            }
        }
        return;
    }
    let mut v = Value::Byte(sx::u8());
    let mut t = T::B(b'y');
    for i in 0..n {
        match nest::built(kind, &t, v) {
            Some(c) => v = c,
            // an array has a type only up to the limit
            None => {
                sx::check(i >= 32, 47);
                sx::reach(1);
                return;
            }
        }
        t = nest::of_type(kind, t);
    }
    match encoded(v) {
        Ok(()) => {
            sx::check(n <= 32, 48);
            sx::reach(2);
        }
        Err(EncodeError::SignatureError(e)) => {
            let ok = match (nest::class(kind), e) {
                (0, TypeError::ArrayDepth(d)) | (1, TypeError::StructDepth(d)) | (2, TypeError::DictDepth(d)) => d == 33,
                _ => false,
            };
            sx::check(n > 32 && ok, 49);
            sx::reach(1);
        }
        _ => sx::check(false, 50),
    }
}
/// The signature is too long.  param: number of values.
pub fn h_c24_encode_long() {
    let n = sx::param(0);
    let mut f = MessageHeaderFields::default();
    f.reply_serial = Some(1);
    let h = MessageHeader::new(sx::bool(), MessageType::MethodReturn, MessageFlags::empty(), 1, 1, f).unwrap();
    let m = Message::new(h, (0..n).map(|_| Value::Byte(1)).collect());
    match m.encode() {
        Ok(_) => {
            sx::check(n <= 255, 51);
            sx::reach(2);
        }
        Err(e) => {
            sx::check(n > 255, 52);
            sx::check(matches!(e, EncodeError::SignatureError(TypeError::ExceedMaximum(k)) if k > 255 && k <= n), 53);
            sx::reach(1);
        }
    }
}
pub fn h_c24_empty() {
    sx::check(Struct::try_from(Vec::new()).err() == Some(StructError::Empty), 54);
    sx::reach(1);
}
