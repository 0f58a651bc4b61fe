//! Encoded messages read by the reference decoder; bodies byte for byte.
use crate::{build, c08, parts, sx, wire};
use dbus_message_parser::value::Value;

fn verify(h: parts::H, types: Vec<wire::T>, vs: Vec<wire::V>, cs: Vec<Value>) {
    let mut w = wire::W::new(h.le);
    for v in &vs {
        w.value(v);
    }
    let m = h.message(cs);
    let (e, fds) = match m.encode_with_fds() {
        Ok(e) => e,
        Err(_) => {
            sx::check(false, 1);
            return;
        }
    };
    sx::observe(e.len() as u64);
    sx::check(fds == w.fds, 2);
    // the body begins at a multiple of 8, at the end of the message
    let ok = e.len() >= w.out.len() && (e.len() - w.out.len()) % 8 == 0;
    sx::check(ok, 3);
    if !ok {
        return;
    }
    let start = e.len() - w.out.len();
    sx::check(e[start..] == w.out[..], 4);
    let l = [e[4], e[5], e[6], e[7]];
    let len = if h.le { u32::from_le_bytes(l) } else { u32::from_be_bytes(l) };
    sx::check(len as usize == w.out.len(), 5);
    match wire::message(&e, &fds) {
        Some(got) => {
            sx::check(got.len == e.len(), 6);
            let n = fds.len() as u32;
            let want = h.expect(types, vs, if n == 0 { None } else { Some(n) }, e.len());
            let d = parts::header_differs(&got, &want);
            sx::check(d == 0, d);
            sx::reach(1);
        }
        None => sx::check(false, 7),
    }
}
/// params: signature, longest string, longest array, menu of variants.
pub fn h_c11_body() {
    let ts = wire::signature(&sx::param_bytes(0)).unwrap();
    let g = build::Gen { strings: sx::param(1), arrays: sx::param(2), variants: parts::MENUS[sx::param(3)] };
    let h = parts::header(2, b"00000000");
    let (vs, cs) = build::values(&ts, &g);
    verify(h, ts, vs, cs);
}
const TYPES: [&str; 24] = [
    "y", "b", "n", "q", "i", "u", "x", "t", "d", "s", "o", "g", "v", "h", "ay", "at", "as", "(y)", "(yt)", "a(yq)", "a{sv}", "aay", "{yq}", "aat",
];
/// Sequences of types.  params: how many, first type.
pub fn h_c11_types() {
    let mut ts = Vec::new();
    for i in 0..sx::param(0) {
        let k = if i == 0 { sx::param(1) } else { sx::pick(TYPES.len()) };
        ts.push(wire::single(TYPES[k].as_bytes()).unwrap());
    }
    let g = build::Gen { strings: 1, arrays: 1, variants: &["q"] };
    let h = parts::header(2, b"00000000");
    let (vs, cs) = build::values(&ts, &g);
    verify(h, ts, vs, cs);
}
/// Headers.  params: message type, which fields, signature of the body.
pub fn h_c11_header() {
    let kind = sx::param(0) as u8;
    let how = sx::param_bytes(1);
    let ts = wire::signature(&sx::param_bytes(2)).unwrap();
    let h = parts::header(kind, &how);
    let g = build::Gen { strings: 1, arrays: 1, variants: parts::MENUS[0] };
    let (vs, cs) = build::values(&ts, &g);
    verify(h, ts, vs, cs);
}
/// params: what, length.
pub fn h_c11_long() {
    let (t, v, c) = c08::c11_long(sx::param(0), sx::param(1));
    let h = parts::header(2, b"00000000");
    verify(h, vec![t], vec![v], vec![c]);
}
