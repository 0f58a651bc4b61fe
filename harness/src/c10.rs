use crate::{build, msg, sx, wire};
use bytes::Bytes;
use dbus_message_parser::message::Message;

fn run(le: bool, sig: &[u8], body: &[u8], fds: &[i32]) {
    let b = msg::with_body(le, sig, body);
    let got = Message::decode_with_fds(Bytes::from(b.clone()), fds);
    let want = reference(&b, sig, body.len(), fds, le);
    sx::observe(got.is_ok() as u64);
    match (got, want) {
        (Ok((m, len, _)), Some(vs)) => {
            sx::check(len == b.len(), 1);
            sx::check(wire::same_all(&vs, m.get_body()), 2);
            sx::reach(1);
        }
        (Err(_), None) => sx::reach(2),
        (Ok(_), None) => sx::check(false, 3),
        (Err(_), Some(_)) => sx::check(false, 4),
    }
}

/// The values of the body at the end of `b`.
fn reference(b: &[u8], sig: &[u8], n: usize, fds: &[i32], le: bool) -> Option<Vec<wire::V>> {
    let ts = wire::signature(sig)?;
    if ts.is_empty() != (n == 0) {
        return None;
    }
    let mut r = wire::R::new(b, fds);
    r.le = le;
    r.at = b.len() - n;
    let mut vs = Vec::new();
    for t in &ts {
        vs.push(r.value(t, 0)?);
    }
    if r.at == b.len() {
        Some(vs)
    } else {
        None
    }
}

/// params: signature text, body length, 1 for little endian.
pub fn h_c10_body() {
    let sig = sx::param_bytes(0);
    let body = sx::vec(sx::param(1));
    run(sx::param(2) == 1, &sig, &body, &[7, 8]);
}

/// Symbolic signature.  params: signature length, body length, 1 for little endian, 1 to leave out
/// variants and signatures among the types.
pub fn h_c10_sig() {
    let sig = sx::vec(sx::param(0));
    if sx::param(3) == 1 {
        for c in &sig {
            sx::assume((*c != b'v') & (*c != b'g'));
        }
    }
    let body = sx::vec(sx::param(1));
    run(sx::param(2) == 1, &sig, &body, &[7, 8]);
}

/// params: signature text, template of the body, 1 for little endian.
pub fn h_c10_tmpl() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    run(sx::param(2) == 1, &sig, &body, &[7, 8]);
}

/// Values of the given types written by the reference encoder.  params: signature, longest string,
/// longest array, 1 for little endian.
pub fn h_c10_value() {
    let sig = sx::param_bytes(0);
    let ts = wire::signature(&sig).unwrap();
    let g = build::Gen { strings: sx::param(1), arrays: sx::param(2), variants: &["q"] };
    let le = sx::param(3) == 1;
    let (vs, _) = build::values(&ts, &g);
    let mut w = wire::W::new(le);
    for v in &vs {
        w.value(v);
    }
    run(le, &sig, &w.out, &w.fds);
}
