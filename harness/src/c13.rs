use crate::{c12, msg, sx, wire};
use bytes::Bytes;
use dbus_message_parser::{decode::DecodeError, message::Message};

fn agree(b: &[u8]) {
    let got = Message::decode_with_fds(Bytes::from(b.to_vec()), &[3]);
    let want = wire::message(b, &[3]);
    sx::observe(got.is_ok() as u64);
    match (got, want) {
        (Ok((m, len, _)), Some(w)) => {
            sx::check(len == w.len, 1);
            sx::check(wire::same_all(&w.body, m.get_body()), 2);
            sx::reach(1);
        }
        (Err(_), None) => sx::reach(2),
        (Ok(_), None) => sx::check(false, 3),
        (Err(_), Some(_)) => sx::check(false, 4),
    }
}

/// The declared body length is arbitrary.  params: signature, number of body bytes, 1 for little
/// endian, 1 if a signature field is present even when empty, message type.
pub fn h_c13_declared() {
    let sig = sx::param_bytes(0);
    let le = sx::param(2) == 1;
    let body = sx::vec(sx::param(1));
    let kind = sx::param(4) as u8;
    let flags = sx::u8();
    sx::assume(flags < 8);
    let mut w = msg::begin(le, kind, flags, sx::u8(), sx::u32(), sx::u32());
    msg::mandatory(&mut w, kind);
    if !sig.is_empty() || sx::param(3) == 1 {
        msg::sig_field(&mut w, &sig);
    }
    agree(&msg::finish(w, &body));
}
/// An array of arbitrary declared length among other values.  params: signature, template of the
/// body, 1 for little endian.
pub fn h_c13_array() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    agree(&msg::with_body(sx::param(2) == 1, &sig, &body));
}
/// The length of the header fields is arbitrary.  params: seed, 1 if the body length is as well.
pub fn h_c13_fields() {
    let mut b = msg::seed(sx::param(0));
    sx::bytes(&mut b[12..16]);
    if sx::param(1) == 1 {
        sx::bytes(&mut b[4..8]);
    }
    agree(&b);
}
/// Whether an array length is too big is decided by the length alone.  params: signature of the body
/// (which begins with the array's length), 1 for little endian.
pub fn h_c13_limit() {
    let sig = sx::param_bytes(0);
    let le = sx::param(1) == 1;
    let n = sx::u32();
    // far from what is in the buffer
    sx::assume(n >= 4096);
    let mut body = wire::W::new(le);
    body.num(4, n as u64);
    body.num(8, 0);
    let b = msg::with_body(le, &sig, &body.out);
    match Message::decode(Bytes::from(b)) {
        Ok(_) => sx::check(false, 5),
        Err(DecodeError::ArrayTooBig(k)) => {
            sx::check(n > 67108864, 6);
            sx::check(k == n, 7);
            sx::reach(1);
        }
        Err(_) => {
            sx::check(n <= 67108864, 8);
            sx::reach(2);
        }
    }
}
/// The same for the array of header fields.  param: 1 for little endian.
pub fn h_c13_limit_fields() {
    let le = sx::param(0) == 1;
    let n = sx::u32();
    sx::assume(n >= 4096);
    let mut w = msg::begin(le, 2, 0, 1, 1, 0);
    msg::u32_field(&mut w, 5, 1);
    let mut b = msg::finish(w, &[]);
    let x = if le { n.to_le_bytes() } else { n.to_be_bytes() };
    b[12..16].copy_from_slice(&x);
    match Message::decode(Bytes::from(b)) {
        Ok(_) => sx::check(false, 5),
        Err(DecodeError::ArrayTooBig(k)) => {
            sx::check(n > 67108864, 6);
            sx::check(k == n, 7);
            sx::reach(1);
        }
        Err(_) => {
            sx::check(n <= 67108864, 8);
            sx::reach(2);
        }
    }
}
/// Body length against header in a full message.  params: seed, window start, window length.
pub fn h_c13_seed() {
    let mut b = msg::seed(sx::param(0));
    let at = sx::param(1);
    let n = sx::param(2);
    if at + n > b.len() {
        return;
    }
    sx::bytes(&mut b[at..at + n]);
    let extra = sx::vec(3);
    b.extend_from_slice(&extra);
    c12::agree(&b, &[3, 4]);
}
