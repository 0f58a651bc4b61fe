//! Symbolic headers: as reference fields and as the crate's.
use crate::{build, c12::kind, sx, wire};
use dbus_message_parser::{
    message::{Message, MessageFlags, MessageHeader, MessageHeaderFields},
    value::{Bus, Error, Interface, Member, ObjectPath, Value},
};
use std::convert::TryFrom;

pub struct H {
    pub le: bool,
    pub kind: u8,
    pub flags: u8,
    pub version: u8,
    pub serial: u32,
    pub want: wire::Fields,
    pub fields: MessageHeaderFields,
}
pub fn path(s: &[u8]) -> ObjectPath {
    ObjectPath::try_from(s).unwrap()
}
pub fn interface(s: &[u8]) -> Interface {
    Interface::try_from(s).unwrap()
}
pub fn member(s: &[u8]) -> Member {
    Member::try_from(s).unwrap()
}
pub fn error(s: &[u8]) -> Error {
    Error::try_from(s).unwrap()
}
pub fn bus(s: &[u8]) -> Bus {
    Bus::try_from(s).unwrap()
}
fn choice(how: usize, mandatory: bool) -> bool {
    // 0: absent unless mandatory, 1: present, 2: both
    mandatory || how == 1 || (how == 2 && sx::pick(2) == 1)
}
/// how: for each field (path, interface, member, error name, reply serial, destination, sender,
/// descriptor count) one digit.
pub fn header(kind: u8, how: &[u8]) -> H {
    let mut h = H {
        le: sx::bool(),
        kind,
        flags: sx::u8(),
        version: sx::u8(),
        serial: sx::u32(),
        want: wire::Fields::default(),
        fields: MessageHeaderFields::default(),
    };
    sx::assume(h.flags < 8);
    let how = |i: usize| (how[i] - b'0') as usize;
    if choice(how(0), kind == 1 || kind == 4) {
        let s = build::fill(["/", "/?", "/A?/b_9"][sx::pick(3)]);
        h.fields.path = Some(path(&s));
        h.want.text[1] = Some(s);
    }
    if choice(how(1), kind == 4) {
        let s = build::fill(["?.b", "a.Bc_1.?"][sx::pick(2)]);
        h.fields.interface = Some(interface(&s));
        h.want.text[2] = Some(s);
    }
    if choice(how(2), kind == 1 || kind == 4) {
        let s = build::fill(["?", "M?_1"][sx::pick(2)]);
        h.fields.member = Some(member(&s));
        h.want.text[3] = Some(s);
    }
    if choice(how(3), kind == 3) {
        let s = build::fill("e?.F");
        h.fields.error_name = Some(error(&s));
        h.want.text[4] = Some(s);
    }
    if choice(how(4), kind == 2 || kind == 3) {
        let n = sx::u32();
        h.fields.reply_serial = Some(n);
        h.want.reply_serial = Some(n);
    }
    if choice(how(5), false) {
        let s = build::fill([":1.?", "d.E-?"][sx::pick(2)]);
        h.fields.destination = Some(bus(&s));
        h.want.text[6] = Some(s);
    }
    if choice(how(6), false) {
        let s = build::fill([":1.?", "s?.e_-F"][sx::pick(2)]);
        h.fields.sender = Some(bus(&s));
        h.want.text[7] = Some(s);
    }
    if choice(how(7), false) {
        let n = sx::u32();
        h.fields.unix_fds = Some(n);
        h.want.fds = Some(n);
    }
    h
}
impl H {
    pub fn header(&self) -> MessageHeader {
        MessageHeader::new(
            self.le,
            kind(self.kind),
            MessageFlags::from_bits(self.flags).unwrap(),
            self.version,
            self.serial,
            self.fields.clone(),
        )
        .unwrap()
    }
    pub fn message(&self, body: Vec<Value>) -> Message {
        Message::new(self.header(), body)
    }
    /// What decoding must give for the body under the types; `fds` as set by the encoder.
    pub fn expect(self, types: Vec<wire::T>, body: Vec<wire::V>, fds: Option<u32>, len: usize) -> wire::Msg {
        let mut fields = self.want;
        fields.signature = if types.is_empty() { None } else { Some(types) };
        if fds.is_some() {
            fields.fds = fds;
        }
        wire::Msg {
            le: self.le,
            kind: self.kind,
            flags: self.flags,
            version: self.version,
            serial: self.serial,
            fields,
            body,
            len,
            used_fds: fds.unwrap_or(0) as usize,
        }
    }
}
/// 0 or the number of the first difference between two reference messages' headers.
pub fn header_differs(a: &wire::Msg, b: &wire::Msg) -> u32 {
    if a.le != b.le || a.kind != b.kind || a.flags != b.flags || a.version != b.version {
        return 51;
    }
    if a.serial != b.serial {
        return 52;
    }
    for i in 0..10 {
        if a.fields.text[i] != b.fields.text[i] {
            return 53;
        }
    }
    if a.fields.reply_serial != b.fields.reply_serial {
        return 54;
    }
    if a.fields.fds != b.fields.fds {
        return 55;
    }
    match (&a.fields.signature, &b.fields.signature) {
        (Some(x), Some(y)) if x == y => {}
        (None, None) => {}
        _ => return 56,
    }
    0
}
/// Variants nest this deep in generated values.
pub const MENUS: [&[&str]; 4] = [
    &["q", "s"],
    &["v", "(yx)", "as", "d"],
    &["a{sv}", "g", "o", "t"],
    &["v", "v", "v", "x"],
];
