use crate::{build, msg, sx};
use bytes::Bytes;
use dbus_message_parser::message::Message;

/// Re-encoding of what `b` decodes to.  Without descriptors the body must come out as it was.
fn verify(b: &[u8], fds: &[i32]) {
    let m = match Message::decode_with_fds(Bytes::from(b.to_vec()), fds) {
        Ok((m, n, used)) => {
            sx::reach(1);
            sx::observe(n as u64);
            (m, n, used)
        }
        Err(_) => {
            sx::reach(2);
            return;
        }
    };
    let (m, n, used) = m;
    let (e, out) = match m.encode_with_fds() {
        Ok(x) => x,
        Err(_) => {
            sx::check(false, 1);
            return;
        }
    };
    let plain = m.encode();
    sx::check(matches!(&plain, Ok(p) if p[..] == e[..]), 2);
    match Message::decode_with_fds(Bytes::from(e.to_vec()), &out) {
        Ok((o, k, _)) => {
            sx::check(k == e.len(), 3);
            match (m.clone().split(), o.clone().split()) {
                (Ok((h, x)), Ok((i, y))) => {
                    sx::check(build::same_all(&x, &y), 4);
                    // the number of descriptors is set by the encoder
                    sx::check(used > 0 || h == i, 5);
                    sx::check(
                        m.get_path() == o.get_path()
                            && m.get_interface() == o.get_interface()
                            && m.get_member() == o.get_member()
                            && m.get_error_name() == o.get_error_name()
                            && m.get_destination() == o.get_destination()
                            && m.get_sender() == o.get_sender()
                            && m.get_reply_serial() == o.get_reply_serial()
                            && m.get_serial() == o.get_serial()
                            && m.get_type() == o.get_type()
                            && b[0] == e[0]
                            && b[2] == e[2]
                            && b[3] == e[3],
                        6,
                    );
                }
                _ => sx::check(false, 7),
            }
        }
        Err(_) => sx::check(false, 8),
    }
    // the body, as received
    let len = |b: &[u8]| {
        let x = [b[4], b[5], b[6], b[7]];
        (if b[0] == b'l' { u32::from_le_bytes(x) } else { u32::from_be_bytes(x) }) as usize
    };
    if used == 0 {
        let l = len(b);
        sx::check(l == len(&e), 9);
        sx::check(b[n - l..n] == e[e.len() - l..], 10);
    }
}

/// params: signature, body length, 1 for little endian.
pub fn h_c09_body() {
    let sig = sx::param_bytes(0);
    let body = sx::vec(sx::param(1));
    verify(&msg::with_body(sx::param(2) == 1, &sig, &body), &[7, 8]);
}
/// params: signature, template, 1 for little endian.
pub fn h_c09_tmpl() {
    let sig = sx::param_bytes(0);
    let body = sx::template(1);
    verify(&msg::with_body(sx::param(2) == 1, &sig, &body), &[7, 8]);
}
/// Symbolic signature.  params: signature length, body length, 1 for little endian, 1 to leave out
/// variants and signatures among the types.
pub fn h_c09_sig() {
    let sig = sx::vec(sx::param(0));
    if sx::param(3) == 1 {
        for c in &sig {
            sx::assume((*c != b'v') & (*c != b'g'));
        }
    }
    let body = sx::vec(sx::param(1));
    verify(&msg::with_body(sx::param(2) == 1, &sig, &body), &[7, 8]);
}
/// A seed message with a window of arbitrary bytes.  params: seed, window length, first offset,
/// number of offsets, 1 to leave out some of the type codes.
pub fn h_c09_window() {
    let mut b = msg::seed(sx::param(0));
    let start = sx::param(2) + sx::pick(sx::param(3));
    let end = start + sx::param(1);
    if end <= b.len() {
        sx::bytes(&mut b[start..end]);
        if sx::param(4) == 1 {
            msg::fewer_types(&b[start..end]);
        }
        verify(&b, &[3, 4]);
    }
}
/// Two bodies under one signature that decode to the same values are the same bytes.
/// params: signature, body length, 1 for little endian.
pub fn h_c09_two() {
    let sig = sx::param_bytes(0);
    let le = sx::param(2) == 1;
    let n = sx::param(1);
    let (x, y) = (sx::vec(n), sx::vec(n));
    let d = |b: &[u8]| Message::decode(Bytes::from(msg::with_body(le, &sig, b)));
    if let (Ok((a, _)), Ok((b, _))) = (d(&x), d(&y)) {
        sx::reach(1);
        let same = build::same_all(a.get_body(), b.get_body());
        sx::check(same == (x == y), 11);
    } else {
        sx::reach(2);
    }
}
