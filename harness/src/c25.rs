//! The memory requested while decoding is proportional to the bytes given, whatever they declare.
use crate::{msg, sx};
use bytes::Bytes;
use dbus_message_parser::{match_rule::MatchRule, message::Message};

/// What may be requested for n bytes: 1 MiB and 64 KiB for each byte.
fn allowed(n: usize) -> u64 {
    (1 << 20) + ((n as u64) << 16)
}
/// Start of an operation on n bytes of a message.  (Property C28 has the same inputs, and bounds the work.)
pub fn begin(n: usize, id: u32) -> u64 {
    if cfg!(feature = "c28") {
        sx::work(WORK + WORK_BYTE * n as u64, id);
        return 0;
    }
    sx::memory()
}
/// The same of a text.
fn begin_text(n: usize, id: u32) -> u64 {
    if cfg!(feature = "c28") {
        sx::work(WORK + WORK_TEXT * n as u64, id);
        return 0;
    }
    sx::memory()
}
pub fn end(start: u64, allowed: u64, id: u32) {
    if cfg!(feature = "c28") {
        sx::work(0, 0);
        return;
    }
    sx::check(sx::memory() - start <= allowed, id);
}
/// The instructions that may be executed for n bytes of a message, of a text.
pub const WORK: u64 = 200_000;
pub const WORK_BYTE: u64 = 4096;
pub const WORK_TEXT: u64 = 1024;
fn run(b: Vec<u8>, fds: &[i32]) {
    let n = b.len();
    let b = Bytes::from(b);
    let start = begin(n, 1);
    let r = Message::decode_with_fds(b.clone(), fds);
    end(start, allowed(n), 1);
    let start = begin(n, 2);
    let r2 = Message::decode(b);
    end(start, allowed(n), 2);
    if r2.is_ok() {
        sx::reach(3);
    }
    match r {
        Ok((m, len, _)) => {
            sx::reach(1);
            sx::observe(len as u64);
            let start = begin(n, 3);
            let e = m.encode_with_fds();
            end(start, allowed(n), 3);
            sx::observe(e.is_ok() as u64);
        }
        Err(_) => sx::reach(2),
    }
}
/// n arbitrary bytes.  param 1: 1 or 2: the byte order mark, type and flags are fixed to valid ones.
pub fn h_c25_bytes() {
    let mut b = sx::vec(sx::param(0));
    if sx::param(1) != 0 {
        b[0] = if sx::param(1) == 1 { b'l' } else { b'B' };
        sx::assume((b[1] >= 1) & (b[1] <= 4));
        sx::assume(b[2] <= 7);
    }
    run(b, &[3]);
}
/// A seed message with a window of arbitrary bytes.  params: seed, window length, first offset,
/// number of offsets, 1 to leave out some of the type codes.
pub fn h_c25_window() {
    let mut b = msg::seed(sx::param(0));
    let start = sx::param(2) + sx::pick(sx::param(3));
    let end = start + sx::param(1);
    if end <= b.len() {
        sx::bytes(&mut b[start..end]);
        if sx::param(4) == 1 {
            msg::fewer_types(&b[start..end]);
        }
        run(b, &[3, 4]);
    }
}
/// A seed message with an arbitrary number in the four bytes from an offset.  params: seed, offset,
/// 1 to leave out some of the type codes.
pub fn h_c25_number() {
    let mut b = msg::seed(sx::param(0));
    let start = sx::param(1);
    if start + 4 > b.len() {
        return;
    }
    sx::bytes(&mut b[start..start + 4]);
    if start < 4 {
        sx::assume((b[0] == b'l') | (b[0] == b'B'));
    }
    if sx::param(2) == 1 {
        msg::fewer_types(&b[start..start + 4]);
    }
    run(b, &[3, 4]);
}
/// A body template.  params: signature, template, 1 for little endian.
pub fn h_c25_tmpl() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    run(msg::with_body(sx::param(2) == 1, &sig, &body), &[3, 4]);
}
/// A body under a signature that declares another body length.  params: signature, template, 1 for
/// little endian.
pub fn h_c25_declared() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    let mut b = msg::with_body(sx::param(2) == 1, &sig, &body);
    sx::bytes(&mut b[4..8]);
    run(b, &[3, 4]);
}
/// Match rules: prefix template, then ASCII or UTF-8 text of length param 1, then a suffix.
pub fn h_c25_rule() {
    let mut t = sx::template(0);
    let n = sx::param(1);
    let s = sx::vec(n);
    if sx::param(2) == 1 {
        sx::ascii(&s);
    } else {
        sx::assume(std::str::from_utf8(&s).is_ok());
    }
    t.extend_from_slice(&s);
    t.extend_from_slice(&sx::template(3));
    rule(&t);
}
fn rule(t: &[u8]) {
    let start = begin_text(t.len(), 4);
    let r = MatchRule::decode(unsafe { std::str::from_utf8_unchecked(t) });
    end(start, allowed(t.len()), 4);
    match r {
        Ok(r) => {
            sx::reach(4);
            let start = begin_text(t.len(), 5);
            let e = MatchRule::encode(&r);
            end(start, allowed(t.len()), 5);
            sx::observe(e.len() as u64);
        }
        Err(_) => sx::reach(5),
    }
}
/// Long content, written out, with one arbitrary byte.  params: kind, number of elements, 1 for little
/// endian.
pub fn h_c25_long() {
    let (kind, n, le) = (sx::param(0), sx::param(1), sx::param(2) == 1);
    // Types that take most of a signature, for elements of four or eight bytes
    let mut wide = b"aa(".to_vec();
    wide.extend_from_slice(&[b'y'; 250]);
    wide.push(b')');
    let mut nested = b"aa(".to_vec();
    for _ in 0..8 {
        nested.extend_from_slice(&[b'a'; 29]);
        nested.push(b'y');
    }
    nested.push(b')');
    let mut deep = vec![b'a'; 32];
    deep.push(b'y');
    let mut variant = vec![31];
    variant.extend_from_slice(&deep[2..]);
    variant.extend_from_slice(&[0; 8]);
    let (sig, element, align): (&[u8], &[u8], usize) = match kind {
        0 => (b"ay", b"\x07", 4),
        1 => (b"s", b"a", 4),
        2 => (b"as", b"\0\0\0\x02ab\0\0", 4),
        3 => (b"a{yv}", b"\x01\x01y\0\x05\0\0\0", 8),
        4 => (b"aay", b"\0\0\0\0", 4),
        5 => (b"av", b"\x01y\0\x09", 4),
        6 => (b"a(y)", b"\x01\0\0\0\0\0\0\0", 8),
        7 => (b"o", b"/a", 4),
        8 => (b"aaat", b"\0\0\0\0", 4),
        11 => (&wide, &[0; 8], 4),
        12 => (&nested, &[0; 8], 4),
        13 => (&deep, &[0; 4], 4),
        14 => (b"av", &variant, 4),
        9 => (b"ab", b"\0\0\0\x01", 4),
        _ => (b"ah", b"\0\0\0\x01", 4),
    };
    // No padding behind the last element
    let tail = match kind {
        2 => 1,
        3 => 3,
        6 => 7,
        11 | 12 => 4,
        _ => 0,
    };
    let length = n * element.len() - tail;
    let mut body = Vec::with_capacity(length + 16);
    let number = (length as u32).to_be_bytes();
    body.extend_from_slice(&number);
    while body.len() % align != 0 {
        body.push(0);
    }
    let start = body.len();
    for _ in 0..n {
        body.extend_from_slice(element);
    }
    body.truncate(start + length);
    if matches!(kind, 1 | 7) {
        body.push(0);
    }
    if le {
        // The numbers are four bytes each: the length, and those of the elements
        body[..4].reverse();
        if matches!(kind, 2 | 9 | 10) {
            for at in (start..start + length - 3).step_by(element.len()) {
                body[at..at + 4].reverse();
            }
        }
    }
    let at = start + (n - 1) * element.len();
    body[at + if !le && kind == 2 { 3 } else { 0 }] = sx::u8();
    run(msg::with_body(le, sig, &body), &[3, 4]);
}
/// As many values of one byte as a signature can hold, one of them arbitrary.  params: number of
/// values, 1 to wrap them in a struct.
pub fn h_c25_many() {
    let (n, wrap) = (sx::param(0), sx::param(1) == 1);
    let mut sig = vec![b'y'; n];
    if wrap {
        sig.insert(0, b'(');
        sig.push(b')');
    }
    let mut body = vec![1u8; n];
    body[n / 2] = sx::u8();
    run(msg::with_body(true, &sig, &body), &[]);
}
/// Long match rules: a prefix, then many times a template, then an arbitrary ASCII character and a
/// suffix.  params: prefix, repeated text, number of times, suffix.
pub fn h_c25_rule_long() {
    let mut t = sx::template(0);
    let part = sx::template(1);
    for _ in 0..sx::param(2) {
        t.extend_from_slice(&part);
    }
    let c = sx::u8();
    sx::assume(c < 128);
    t.push(c);
    t.extend_from_slice(&sx::template(3));
    rule(&t);
}
