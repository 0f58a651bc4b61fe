//! No input makes decoding fail to return: the executor reports every panic, overflow, access out
//! of bounds and path that does not end.
use crate::{msg, sx};
use bytes::Bytes;
use dbus_message_parser::{match_rule::MatchRule, message::Message};

fn run(b: Vec<u8>, fds: &[i32]) {
    let n = b.len();
    match Message::decode_with_fds(Bytes::from(b), fds) {
        Ok((_, len, used)) => {
            sx::check(len <= n, 1);
            sx::check(used <= fds.len(), 2);
            sx::observe(len as u64);
            sx::reach(1);
        }
        Err(_) => sx::reach(2),
    }
}

/// n arbitrary bytes.  param 1: bit 0: the byte order mark and type are fixed to valid ones.
pub fn h_c06_bytes() {
    let mut b = sx::vec(sx::param(0));
    if sx::param(1) != 0 {
        b[0] = if sx::param(1) == 1 { b'l' } else { b'B' };
        sx::assume((b[1] >= 1) & (b[1] <= 4));
        sx::assume(b[2] <= 7);
    }
    run(b, &[3]);
}
/// A seed message with a window of arbitrary bytes.  params: seed, window length, first offset,
/// number of offsets, 1 to leave out some of the type codes.
pub fn h_c06_window() {
    let mut b = msg::seed(sx::param(0));
    let start = sx::param(2) + sx::pick(sx::param(3));
    let end = start + sx::param(1);
    if end <= b.len() {
        sx::bytes(&mut b[start..end]);
        if sx::param(4) == 1 {
            msg::fewer_types(&b[start..end]);
        }
        run(b, &[3, 4]);
    }
}
/// A seed message cut short at every place, with one arbitrary byte anywhere before it.
pub fn h_c06_cut() {
    let mut b = msg::seed(sx::param(0));
    let cut = sx::param(1);
    let at = sx::pick(b.len());
    b[at] = sx::u8();
    b.truncate(cut);
    run(b, &[3, 4]);
}
/// A body template.  params: signature, template, 1 for little endian.
pub fn h_c06_tmpl() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    run(msg::with_body(sx::param(2) == 1, &sig, &body), &[3, 4]);
}
/// Match rules: prefix template, then ASCII or UTF-8 text of length param 1, then a suffix.
pub fn h_c06_rule() {
    let mut t = sx::template(0);
    let n = sx::param(1);
    let s = sx::vec(n);
    if sx::param(2) == 1 {
        sx::ascii(&s);
    } else {
        sx::assume(std::str::from_utf8(&s).is_ok());
    }
    t.extend_from_slice(&s);
    t.extend_from_slice(&sx::template(3));
    match MatchRule::decode(unsafe { std::str::from_utf8_unchecked(&t) }) {
        Ok(r) => {
            sx::observe(r.len() as u64);
            sx::reach(3);
        }
        Err(_) => sx::reach(4),
    }
}
