//! Independent reference of the D-Bus type grammar and wire format (oracle).  Written from the
//! D-Bus specification over plain byte slices; it shares no code with the crate.
use dbus_message_parser::value::{Type, Value};

/// A complete type.
#[derive(Clone, PartialEq)]
pub enum T {
    /// A basic type or 'v', by its code.
    B(u8),
    A(Box<T>),
    S(Vec<T>),
    D(Box<(T, T)>),
}

/// A value.  Numbers (and booleans, doubles) hold their bits, zero-extended.
#[derive(Clone)]
pub enum V {
    N(u8, u64),
    /// 's' or 'o'
    Str(u8, Vec<u8>),
    Sig(Vec<T>),
    A(T, Vec<V>),
    S(Vec<V>),
    D(Box<(V, V)>),
    Var(T, Box<V>),
    /// A descriptor (already looked up)
    Fd(i32),
}

pub const MAX_DEPTH: usize = 32;
pub const MAX_SIG: usize = 255;
pub const MAX_ARRAY: u64 = 1 << 26;
pub const MAX_VARIANT: usize = 4;

/// Width in bytes of a number type, 0 for others.
pub fn width(c: u8) -> usize {
    match c {
        b'y' => 1,
        b'n' | b'q' => 2,
        b'i' | b'u' | b'b' | b'h' => 4,
        b'x' | b't' | b'd' => 8,
        _ => 0,
    }
}

fn one(s: &[u8], at: &mut usize, a: usize, st: usize, d: usize) -> Option<T> {
    if a > MAX_DEPTH || st > MAX_DEPTH || d > MAX_DEPTH || *at >= s.len() {
        return None;
    }
    let c = s[*at];
    *at += 1;
    match c {
        b'y' | b'b' | b'n' | b'q' | b'i' | b'u' | b'x' | b't' | b'd' | b's' | b'o' | b'g' | b'h' | b'v' => Some(T::B(c)),
        b'a' => Some(T::A(Box::new(one(s, at, a + 1, st, d)?))),
        b'(' => {
            let mut ts = Vec::new();
            loop {
                ts.push(one(s, at, a, st + 1, d)?);
                if *at >= s.len() {
                    return None;
                }
                if s[*at] == b')' {
                    *at += 1;
                    return Some(T::S(ts));
                }
            }
        }
        b'{' => {
            let k = one(s, at, a, st, d + 1)?;
            let v = one(s, at, a, st, d + 1)?;
            if *at >= s.len() || s[*at] != b'}' {
                return None;
            }
            *at += 1;
            Some(T::D(Box::new((k, v))))
        }
        _ => None,
    }
}

/// Parse a signature: any number of complete types.
pub fn signature(s: &[u8]) -> Option<Vec<T>> {
    if s.len() > MAX_SIG {
        return None;
    }
    let mut at = 0;
    let mut ts = Vec::new();
    while at < s.len() {
        ts.push(one(s, &mut at, 0, 0, 0)?);
    }
    Some(ts)
}
/// Parse exactly one complete type.
pub fn single(s: &[u8]) -> Option<T> {
    let mut ts = signature(s)?;
    if ts.len() == 1 {
        ts.pop()
    } else {
        None
    }
}
/// Render a type.
pub fn render(t: &T, out: &mut Vec<u8>) {
    match t {
        T::B(c) => out.push(*c),
        T::A(e) => {
            out.push(b'a');
            render(e, out);
        }
        T::S(ts) => {
            out.push(b'(');
            for t in ts {
                render(t, out);
            }
            out.push(b')');
        }
        T::D(kv) => {
            out.push(b'{');
            render(&kv.0, out);
            render(&kv.1, out);
            out.push(b'}');
        }
    }
}
pub fn rendered(ts: &[T]) -> Vec<u8> {
    let mut o = Vec::new();
    for t in ts {
        render(t, &mut o);
    }
    o
}
pub fn align(t: &T) -> usize {
    match t {
        T::B(b's') | T::B(b'o') => 4,
        T::B(b'g') | T::B(b'v') => 1,
        T::B(c) => width(*c),
        T::A(_) => 4,
        T::S(_) | T::D(_) => 8,
    }
}
pub fn type_code(t: &Type) -> u8 {
    match t {
        Type::Byte => b'y',
        Type::Boolean => b'b',
        Type::Int16 => b'n',
        Type::Uint16 => b'q',
        Type::Int32 => b'i',
        Type::Uint32 => b'u',
        Type::Int64 => b'x',
        Type::Uint64 => b't',
        Type::UnixFD => b'h',
        Type::Double => b'd',
        Type::String => b's',
        Type::ObjectPath => b'o',
        Type::Variant => b'v',
        Type::Signature => b'g',
        Type::Array(_) => b'a',
        Type::Struct(_) => b'(',
        Type::DictEntry(_) => b'{',
    }
}
/// The crate's type is this type.
pub fn same_type(t: &T, c: &Type) -> bool {
    match (t, c) {
        (T::A(e), Type::Array(f)) => same_type(e, f),
        (T::S(a), Type::Struct(b)) => same_types(a, b),
        (T::D(a), Type::DictEntry(b)) => same_type(&a.0, &b.0) && same_type(&a.1, &b.1),
        (T::B(x), c) => *x == type_code(c),
        _ => false,
    }
}
pub fn same_types(a: &[T], b: &[Type]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_type(x, y))
}

/// Reader over a whole message.
pub struct R<'a> {
    pub b: &'a [u8],
    pub at: usize,
    pub le: bool,
    pub fds: &'a [i32],
    /// one more than the largest descriptor index used
    pub used: usize,
}

impl<'a> R<'a> {
    pub fn new(b: &'a [u8], fds: &'a [i32]) -> R<'a> {
        R { b, at: 0, le: true, fds, used: 0 }
    }
    fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > (self.b.len() - self.at) as u64 {
            return None;
        }
        let s = &self.b[self.at..self.at + n as usize];
        self.at += n as usize;
        Some(s)
    }
    pub fn pad(&mut self, a: usize) -> Option<()> {
        while self.at % a != 0 {
            if self.take(1)?[0] != 0 {
                return None;
            }
        }
        Some(())
    }
    pub fn num(&mut self, w: usize) -> Option<u64> {
        self.pad(w)?;
        let s = self.take(w as u64)?;
        let mut n = 0u64;
        for i in 0..w {
            n |= (s[i] as u64) << (8 * if self.le { i } else { w - 1 - i });
        }
        Some(n)
    }
    fn text(&mut self, len: u64) -> Option<&'a [u8]> {
        let s = self.take(len)?;
        if self.take(1)?[0] != 0 {
            return None;
        }
        Some(s)
    }
    pub fn sig(&mut self) -> Option<Vec<T>> {
        let n = self.num(1)?;
        signature(self.text(n)?)
    }
    pub fn value(&mut self, t: &T, depth: usize) -> Option<V> {
        Some(match t {
            T::B(b'b') => {
                let n = self.num(4)?;
                if n > 1 {
                    return None;
                }
                V::N(b'b', n)
            }
            T::B(b'h') => {
                let n = self.num(4)?;
                if n >= self.fds.len() as u64 {
                    return None;
                }
                self.used = self.used.max(n as usize + 1);
                V::Fd(self.fds[n as usize])
            }
            T::B(c @ (b's' | b'o')) => {
                let n = self.num(4)?;
                let s = self.text(n)?;
                let ok = if *c == b's' { std::str::from_utf8(s).is_ok() } else { crate::grammar::object_path(s) };
                if !ok {
                    return None;
                }
                V::Str(*c, s.to_vec())
            }
            T::B(b'g') => V::Sig(self.sig()?),
            T::B(b'v') => {
                if depth == MAX_VARIANT {
                    return None;
                }
                let n = self.num(1)?;
                let t = single(self.text(n)?)?;
                let v = self.value(&t, depth + 1)?;
                V::Var(t, Box::new(v))
            }
            T::B(c) => V::N(*c, self.num(width(*c))?),
            T::A(e) => {
                let n = self.num(4)?;
                if n > MAX_ARRAY {
                    return None;
                }
                self.pad(align(e))?;
                if n > (self.b.len() - self.at) as u64 {
                    return None;
                }
                let end = self.at + n as usize;
                let mut vs = Vec::new();
                while self.at < end {
                    vs.push(self.value(e, depth)?);
                }
                if self.at != end {
                    return None;
                }
                V::A((**e).clone(), vs)
            }
            T::S(ts) => {
                self.pad(8)?;
                let mut vs = Vec::new();
                for t in ts {
                    vs.push(self.value(t, depth)?);
                }
                V::S(vs)
            }
            T::D(kv) => {
                self.pad(8)?;
                let k = self.value(&kv.0, depth)?;
                let v = self.value(&kv.1, depth)?;
                V::D(Box::new((k, v)))
            }
        })
    }
}

/// Type of a value.
pub fn type_of(v: &V) -> T {
    match v {
        V::N(c, _) | V::Str(c, _) => T::B(*c),
        V::Sig(_) => T::B(b'g'),
        V::Fd(_) => T::B(b'h'),
        V::A(t, _) => T::A(Box::new(t.clone())),
        V::S(vs) => T::S(vs.iter().map(type_of).collect()),
        V::D(kv) => T::D(Box::new((type_of(&kv.0), type_of(&kv.1)))),
        V::Var(..) => T::B(b'v'),
    }
}

/// The crate's value is this value.
pub fn same(v: &V, c: &Value) -> bool {
    match (v, c) {
        (V::N(b'y', n), Value::Byte(x)) => *n == *x as u64,
        (V::N(b'b', n), Value::Boolean(x)) => (*n == 1) == *x,
        (V::N(b'n', n), Value::Int16(x)) => *n == *x as u16 as u64,
        (V::N(b'q', n), Value::Uint16(x)) => *n == *x as u64,
        (V::N(b'i', n), Value::Int32(x)) => *n == *x as u32 as u64,
        (V::N(b'u', n), Value::Uint32(x)) => *n == *x as u64,
        (V::N(b'x', n), Value::Int64(x)) => *n == *x as u64,
        (V::N(b't', n), Value::Uint64(x)) => *n == *x,
        (V::N(b'd', n), Value::Double(x)) => *n == x.to_bits(),
        (V::Fd(n), Value::UnixFD(x)) => *n == *x,
        (V::Str(b's', s), Value::String(x)) => s[..] == *x.as_bytes(),
        (V::Str(b'o', s), Value::ObjectPath(x)) => s[..] == *(x.as_ref() as &str).as_bytes(),
        (V::Sig(s), Value::Signature(x)) => same_types(s, x),
        (V::A(t, vs), Value::Array(x)) => same_type(t, x.get_type()) && same_all(vs, x.as_ref()),
        (V::S(vs), Value::Struct(x)) => same_all(vs, x.as_ref()),
        (V::D(kv), Value::DictEntry(x)) => same(&kv.0, &x.0) && same(&kv.1, &x.1),
        (V::Var(_, v), Value::Variant(x)) => same(v, x),
        _ => false,
    }
}
pub fn same_all(a: &[V], b: &[Value]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

/// Writer.  Alignment is relative to the start of the output.
#[derive(Default)]
pub struct W {
    pub out: Vec<u8>,
    pub le: bool,
    pub fds: Vec<i32>,
    /// places of padding (false) and terminators (true), if recorded
    pub zeros: Option<Vec<(usize, bool)>>,
}
impl W {
    fn zero(&mut self, end: bool) {
        if let Some(z) = &mut self.zeros {
            z.push((self.out.len(), end));
        }
        self.out.push(0);
    }
    pub fn new(le: bool) -> W {
        W { out: Vec::new(), le, fds: Vec::new(), zeros: None }
    }
    pub fn pad(&mut self, a: usize) {
        while self.out.len() % a != 0 {
            self.zero(false);
        }
    }
    pub fn num(&mut self, w: usize, n: u64) {
        self.pad(w);
        for i in 0..w {
            self.out.push((n >> (8 * if self.le { i } else { w - 1 - i })) as u8);
        }
    }
    pub fn sig(&mut self, s: &[u8]) {
        self.out.push(s.len() as u8);
        self.out.extend_from_slice(s);
        self.zero(true);
    }
    pub fn text(&mut self, s: &[u8]) {
        self.num(4, s.len() as u64);
        self.out.extend_from_slice(s);
        self.zero(true);
    }
    pub fn value(&mut self, v: &V) {
        match v {
            V::N(c, n) => self.num(width(*c), *n),
            V::Str(_, s) => self.text(s),
            V::Sig(s) => {
                let s = rendered(s);
                self.sig(&s);
            }
            V::Fd(f) => {
                let i = match self.fds.iter().position(|x| x == f) {
                    Some(i) => i,
                    None => {
                        self.fds.push(*f);
                        self.fds.len() - 1
                    }
                };
                self.num(4, i as u64);
            }
            V::A(t, vs) => {
                self.num(4, 0);
                let at = self.out.len() - 4;
                self.pad(align(t));
                let start = self.out.len();
                for v in vs {
                    self.value(v);
                }
                let mut len = W::new(self.le);
                len.num(4, (self.out.len() - start) as u64);
                self.out[at..at + 4].copy_from_slice(&len.out);
            }
            V::S(vs) => {
                self.pad(8);
                for v in vs {
                    self.value(v);
                }
            }
            V::D(kv) => {
                self.pad(8);
                self.value(&kv.0);
                self.value(&kv.1);
            }
            V::Var(t, v) => {
                let mut s = Vec::new();
                render(t, &mut s);
                self.sig(&s);
                self.value(v);
            }
        }
    }
}

// ---------------------------------------------------------------- messages

#[derive(Default)]
pub struct Fields {
    /// path, interface, member, error name, destination, sender (by field code)
    pub text: [Option<Vec<u8>>; 10],
    pub reply_serial: Option<u32>,
    pub signature: Option<Vec<T>>,
    pub fds: Option<u32>,
}
pub struct Msg {
    pub le: bool,
    pub kind: u8,
    pub flags: u8,
    pub version: u8,
    pub serial: u32,
    pub fields: Fields,
    pub body: Vec<V>,
    pub len: usize,
    pub used_fds: usize,
}

/// The mandatory fields of a message type are present.
pub fn complete(kind: u8, f: &Fields) -> bool {
    match kind {
        1 => f.text[1].is_some() && f.text[3].is_some(),
        2 => f.reply_serial.is_some(),
        3 => f.text[4].is_some() && f.reply_serial.is_some(),
        _ => f.text[1].is_some() && f.text[2].is_some() && f.text[3].is_some(),
    }
}

fn fields(vs: Vec<V>) -> Option<Fields> {
    let mut f = Fields::default();
    for v in vs {
        let (code, v) = match v {
            V::S(mut x) if x.len() == 2 => match (x.pop(), x.pop()) {
                (Some(V::Var(_, v)), Some(V::N(b'y', n))) => (n as u8, *v),
                _ => return None,
            },
            _ => return None,
        };
        match (code, v) {
            (1, V::Str(b'o', s)) if f.text[1].is_none() => f.text[1] = Some(s),
            (c @ (2 | 3 | 4 | 6 | 7), V::Str(b's', s)) if f.text[c as usize].is_none() => {
                let ok = match c {
                    3 => crate::grammar::member(&s),
                    2 | 4 => crate::grammar::interface(&s),
                    _ => crate::grammar::bus(&s),
                };
                if !ok {
                    return None;
                }
                f.text[c as usize] = Some(s);
            }
            (5, V::N(b'u', n)) if f.reply_serial.is_none() => f.reply_serial = Some(n as u32),
            (8, V::Sig(s)) if f.signature.is_none() => f.signature = Some(s),
            (9, V::N(b'u', n)) if f.fds.is_none() => f.fds = Some(n as u32),
            _ => return None,
        }
    }
    Some(f)
}

/// Decode one message from the start of `b`.
pub fn message(b: &[u8], fds: &[i32]) -> Option<Msg> {
    let mut r = R::new(b, fds);
    let le = match r.num(1)? {
        0x6c => true,
        0x42 => false,
        _ => return None,
    };
    r.le = le;
    let kind = r.num(1)? as u8;
    if kind == 0 || kind > 4 {
        return None;
    }
    let flags = r.num(1)? as u8;
    if flags > 7 {
        return None;
    }
    let version = r.num(1)? as u8;
    let body_len = r.num(4)?;
    let serial = r.num(4)? as u32;
    let t = T::A(Box::new(T::S(vec![T::B(b'y'), T::B(b'v')])));
    let f = match r.value(&t, 0)? {
        V::A(_, vs) => fields(vs)?,
        _ => return None,
    };
    if !complete(kind, &f) {
        return None;
    }
    let sig: &[T] = f.signature.as_deref().unwrap_or(&[]);
    if (body_len == 0) != sig.is_empty() {
        return None;
    }
    r.pad(8)?;
    let start = r.at;
    let mut body = Vec::new();
    for t in sig {
        body.push(r.value(t, 0)?);
    }
    if (r.at - start) as u64 != body_len {
        return None;
    }
    let (len, used_fds) = (r.at, r.used);
    Some(Msg { le, kind, flags, version, serial, fields: f, body, len, used_fds })
}
