//! Incomplete input is told from malformed input, and a rejection is final.
use crate::{msg, sx};
use bytes::Bytes;
use dbus_message_parser::{
    decode::DecodeError,
    message::{Message, MessageHeaderFieldsError},
};

/// Length of the message, or the error.
fn run(b: &[u8], fds: usize) -> Result<usize, DecodeError> {
    if fds > 0 {
        Message::decode_with_fds(Bytes::from(b.to_vec()), &[3, 4, 3][..fds]).map(|x| x.1)
    } else {
        Message::decode(Bytes::from(b.to_vec())).map(|x| x.1)
    }
}
/// Equality, but values in an error about a header field may be NaN.
fn same(a: &DecodeError, b: &DecodeError) -> bool {
    fn kind(e: &MessageHeaderFieldsError) -> std::mem::Discriminant<MessageHeaderFieldsError> {
        std::mem::discriminant(e)
    }
    match (a, b) {
        (DecodeError::MessageHeaderFieldsError(x), DecodeError::MessageHeaderFieldsError(y)) => kind(x) == kind(y),
        _ => a == b,
    }
}
/// Everything the property says about the buffer `b`, with up to `extra` symbolic bytes after it.
fn verify(b: &[u8], fds: usize, extra: usize) {
    match run(b, fds) {
        Ok(n) => {
            sx::reach(1);
            sx::observe(n as u64);
            sx::check(n <= b.len(), 1);
            let k = sx::pick(n);
            match run(&b[..k], fds) {
                Err(DecodeError::NotEnoughBytes(got, need)) => {
                    sx::check(got == k, 2);
                    sx::check(need > k && need <= n, 3);
                }
                _ => sx::check(false, 4),
            }
        }
        Err(e) => {
            let more = 1 + sx::pick(extra);
            let mut c = b.to_vec();
            c.extend_from_slice(&sx::vec(more));
            match &e {
                DecodeError::NotEnoughBytes(got, need) => {
                    sx::reach(2);
                    sx::check(*got == b.len(), 5);
                    sx::check(need > got, 6);
                    match run(&c, fds) {
                        Ok(n) => sx::check(n >= *need && n <= c.len(), 7),
                        Err(DecodeError::NotEnoughBytes(g, k)) => {
                            sx::check(g == c.len(), 8);
                            sx::check(if *need > c.len() { k == *need } else { k > *need }, 9);
                        }
                        Err(_) => sx::check(*need <= c.len(), 10),
                    }
                }
                _ => {
                    sx::reach(3);
                    match run(&c, fds) {
                        Ok(_) => sx::check(false, 11),
                        Err(f) => sx::check(same(&e, &f), 12),
                    }
                }
            }
        }
    }
}

/// Arbitrary bytes.  params: length, 1 or 2 for fixed byte order and valid message type, bytes after.
pub fn h_c23_bytes() {
    let mut b = sx::vec(sx::param(0));
    if sx::param(1) != 0 {
        b[0] = if sx::param(1) == 1 { b'l' } else { b'B' };
        sx::assume((b[1] >= 1) & (b[1] <= 4));
        sx::assume(b[2] <= 7);
    }
    verify(&b, 0, sx::param(2));
}
/// params: signature, body length, 1 for little endian, number of descriptors, bytes after.
pub fn h_c23_body() {
    let sig = sx::param_bytes(0);
    let body = sx::vec(sx::param(1));
    verify(&msg::with_body(sx::param(2) == 1, &sig, &body), sx::param(3), sx::param(4));
}
/// params: signature, template, 1 for little endian, number of descriptors, bytes after.
pub fn h_c23_tmpl() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    verify(&msg::with_body(sx::param(2) == 1, &sig, &body), sx::param(3), sx::param(4));
}
/// A seed message with a window of arbitrary bytes.  params: seed, window length, first offset,
/// number of offsets, 1 to leave out some of the type codes, number of descriptors, bytes after.
pub fn h_c23_window() {
    let mut b = msg::seed(sx::param(0));
    let start = sx::param(2) + sx::pick(sx::param(3));
    let end = start + sx::param(1);
    if end <= b.len() {
        sx::bytes(&mut b[start..end]);
        if sx::param(4) == 1 {
            msg::fewer_types(&b[start..end]);
        }
        verify(&b, sx::param(5), sx::param(6));
    }
}
/// A seed message cut short at every place, with one arbitrary byte anywhere before it.  params:
/// seed, number of descriptors, bytes after.
pub fn h_c23_cut() {
    let mut b = msg::seed(sx::param(0));
    let cut = sx::pick(b.len());
    b.truncate(cut);
    if cut > 0 {
        b[sx::pick(cut)] = sx::u8();
    }
    verify(&b, sx::param(1), sx::param(2));
}
