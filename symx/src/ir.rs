//! Parser for textual LLVM IR (the post-LTO module rustc emits) into a compact executable form.
//! Function bodies are parsed on first use.

use crate::expr::{mask, V, WIDE};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> (u64, &Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size() * i as u64, t),
            _ => panic!("field_offset of {:?}", self),
        }
    }
    /// Flatten to scalars: (byte offset, width in bits).
    pub fn flat(&self) -> Vec<(u64, u16)> {
        let mut v = Vec::new();
        self.flat_into(0, &mut v);
        v
    }
    fn flat_into(&self, base: u64, v: &mut Vec<(u64, u16)>) {
        match self {
            Ty::Int(w) => v.push((base, *w as u16)),
            Ty::Ptr | Ty::Double => v.push((base, 64)),
            Ty::Float => v.push((base, 32)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let s = t.size();
                for i in 0..*n {
                    t.flat_into(base + i * s, v);
                }
            }
            Ty::Struct(f, _) => {
                for i in 0..f.len() {
                    let (o, t) = self.field_offset(i);
                    t.flat_into(base + o, v);
                }
            }
            Ty::Void => {}
            _ => {}
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(_) | Ty::Ptr | Ty::Double | Ty::Float => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nslots(),
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
        }
    }
    /// Slot range of the field path.
    pub fn slot_path(&self, path: &[usize]) -> (usize, &Ty) {
        let mut t = self;
        let mut s = 0;
        for &i in path {
            match t {
                Ty::Struct(f, _) => {
                    for k in 0..i {
                        s += f[k].nslots();
                    }
                    t = &f[i];
                }
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    s += i * e.nslots();
                    t = e;
                }
                _ => panic!("slot_path"),
            }
        }
        (s, t)
    }
    pub fn scalar_width(&self) -> u16 {
        match self {
            Ty::Int(w) => *w as u16,
            Ty::Ptr | Ty::Double => 64,
            Ty::Float => 32,
            Ty::Vec(_, t) => t.scalar_width(),
            _ => 0,
        }
    }
    pub fn is_float(&self) -> bool {
        match self {
            Ty::Double | Ty::Float => true,
            Ty::Vec(_, t) => t.is_float(),
            _ => false,
        }
    }
}

/// Operand: constant scalar(s) or register slot(s).
#[derive(Clone, Debug)]
pub enum Opd {
    C(V),
    R(u32),
    CM(Rc<Vec<V>>),
    RM(u32, u32),
}

/// Whether the code computes with floating-point numbers (the clean library only moves and compares them).
pub static FLOATS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    FAdd,
    FSub,
    FMul,
    FDiv,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Same,
    FToF,
    SToF,
    UToF,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Intrinsic(Intr),
    Unknown(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop,
    Memcpy,
    Memmove,
    Memset,
    UMax,
    UMin,
    SMax,
    SMin,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitReverse,
    Fshl,
    Fshr,
    Abs,
    FAbs,
    CopySign,
    UMulO,
    SMulO,
    UAddO,
    SAddO,
    USubO,
    SSubO,
    UCmp,
    SCmp,
    IsConstant,
    LoadRelative,
    ThreadLocal,
    Trap,
    Expect,
    PtrMask,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    Assume,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, u32, u16, u32, Opd, Opd),          // op dst width n a b
    Icmp(Pred, u32, u16, u32, Opd, Opd),        // pred dst width n a b
    Fcmp(String, u32, u16, Opd, Opd),           // pred dst width a b
    Cast(Cast, u32, u16, u16, u32, Opd),        // op dst from to n a
    Gep(u32, Opd, i64, Vec<(Opd, u16, i64)>),   // dst base const idx(width,scale)
    Load(u32, Opd, Rc<Vec<(u64, u16)>>),
    Store(Opd, Opd, Rc<Vec<(u64, u16)>>),       // value ptr layout
    Select(u32, u32, Opd, Opd, Opd, bool),      // dst n cond a b vector-cond
    Call(Callee, u32, u32, Vec<(Opd, u16)>, Option<u32>), // callee dst nret args normal-dest (invoke)
    Move(u32, u32, Opd),                        // dst n src
    Insert(u32, u32, Opd, u32, u32, Opd),       // dst n agg at m value
    ExtractElt(u32, u32, u32, Opd, Opd),        // dst n es agg idx
    InsertElt(u32, u32, Opd, Opd, Opd),         // dst n agg val idx
    Shuffle(u32, u32, Opd, Opd, Vec<i32>),      // dst nsrc a b mask
    BitcastVec(u32, Opd, Vec<u16>, Vec<u16>),   // dst src from-widths to-widths
    Alloca(u32, u64, u64, Opd),                 // dst elem size, align, count
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, u32, Vec<(V, u32)>),
    Ret(u32, Option<Opd>),
    Unreachable,
    Rmw(String, u32, u16, Opd, Opd),
    CmpXchg(u32, u16, Opd, Opd, Opd),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub dst: u32,
    pub n: u32,
    pub inc: Vec<(u32, Opd)>, // block, value
}

pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<(I, u32)>, // instruction, debug location
    pub npred: u32,
    /// Topological position: chain of (rpo of loop header) then own rpo; see `analyse`.
    pub loops: Vec<u32>, // loop headers containing this block, outermost first
    pub rpo: u32,
}

pub struct Func {
    pub name: String,
    pub id: u32,
    pub nslots: u32,
    pub params: Vec<(u32, u32)>, // slot, n
    pub blocks: Vec<Block>,
    pub ret_n: u32,
    pub subprogram: u32,
}

pub enum SymKind {
    Global { line: usize },
    Func { idx: usize },
    Decl,
    Weak,
}

pub struct Sym {
    pub name: String,
    pub kind: SymKind,
}

pub struct FnText {
    pub name: String,
    pub head: (usize, usize),
    pub body: (usize, usize),
}

pub struct Module {
    pub text: String,
    pub syms: Vec<Sym>, // id-1 = object id
    pub sym_ids: HashMap<String, u32>,
    pub fns: Vec<FnText>,
    pub parsed: Vec<Option<Rc<Func>>>,
    pub glines: Vec<(usize, usize)>,
    pub md: HashMap<u32, (usize, usize)>,
    pub wide: std::cell::RefCell<Vec<(u16, u128)>>,
}

pub const OBJ_SHIFT: u32 = 32;
pub const OBJ_OFF: u64 = 0x10000;
pub fn sym_addr(id: u32) -> u64 {
    ((id as u64) << OBJ_SHIFT) + OBJ_OFF
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Loc(String),
    Glob(String),
    Meta(String),
    Attr(String),
    Int(i128),
    Flt(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Dots,
}

fn unescape_ll(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            v.push(b[i]);
            i += 1;
        }
    }
    v
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let mut j = i + 1;
                let name;
                if j < b.len() && b[j] == b'"' {
                    j += 1;
                    let st = j;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape_ll(&b[st..j])).to_string();
                    j += 1;
                } else {
                    let st = j;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                }
                v.push(if c == b'%' { Tok::Loc(name) } else { Tok::Glob(name) });
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                v.push(Tok::Meta(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                v.push(Tok::Attr(s[i + 1..j].to_string()));
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::Str(unescape_ll(&b[i + 1..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                v.push(Tok::CStr(unescape_ll(&b[i + 2..j])));
                i = j + 1;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                if c == b'0' && j < b.len() && (b[j] == b'x') {
                    j += 1;
                    while j < b.len() && b[j].is_ascii_alphanumeric() {
                        j += 1;
                    }
                    v.push(Tok::Flt(s[i..j].to_string()));
                } else {
                    while j < b.len() && b[j].is_ascii_digit() {
                        j += 1;
                    }
                    if j < b.len() && b[j] == b'.' {
                        while j < b.len()
                            && (b[j].is_ascii_digit()
                                || b[j] == b'.'
                                || b[j] == b'e'
                                || b[j] == b'+'
                                || b[j] == b'-')
                        {
                            j += 1;
                        }
                        v.push(Tok::Flt(s[i..j].to_string()));
                    } else {
                        let t = &s[i..j];
                        let n = t.parse::<i128>().or_else(|_| t.parse::<u128>().map(|x| x as i128));
                        v.push(Tok::Int(n.unwrap_or_else(|_| panic!("int {}", t))));
                    }
                }
                i = j;
            }
            b'.' if s[i..].starts_with("...") => {
                v.push(Tok::Dots);
                i += 3;
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') {
                    j += 1;
                }
                v.push(Tok::Id(s[i..j].to_string()));
                i = j;
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

// ---------------------------------------------------------------- module index

impl Module {
    pub fn load(text: String) -> Module {
        let mut syms = Vec::new();
        let mut sym_ids = HashMap::new();
        let mut fns = Vec::new();
        let mut glines = Vec::new();
        let mut md = HashMap::new();
        let mut aliases = Vec::new();
        let b = text.as_bytes();
        let mut pos = 0;
        while pos < b.len() {
            let e = memchr(b, b'\n', pos);
            let line = &text[pos..e];
            if line.starts_with('@') {
                let name = first_name(line);
                if line.contains(" alias ") && !line.contains(" constant ") && !line.contains(" global ") {
                    let tgt = line.rfind("ptr @").unwrap();
                    aliases.push((name, first_name(&line[tgt + 4..])));
                } else {
                    glines.push((pos, e));
                    let weak = line.contains("extern_weak");
                    let ext = line.contains(" = external ");
                    syms.push(Sym {
                        name: name.clone(),
                        kind: if weak {
                            SymKind::Weak
                        } else if ext {
                            SymKind::Decl
                        } else {
                            SymKind::Global { line: glines.len() - 1 }
                        },
                    });
                    sym_ids.insert(name, syms.len() as u32);
                }
            } else if line.starts_with("define ") {
                let at = line.find('@').unwrap();
                let name = first_name(&line[at..]);
                let bstart = e + 1;
                let mut q = bstart;
                loop {
                    let qe = memchr(b, b'\n', q);
                    if &text[q..qe] == "}" {
                        break;
                    }
                    q = qe + 1;
                }
                fns.push(FnText { name: name.clone(), head: (pos, e), body: (bstart, q) });
                syms.push(Sym { name: name.clone(), kind: SymKind::Func { idx: fns.len() - 1 } });
                sym_ids.insert(name, syms.len() as u32);
                pos = q + 2;
                continue;
            } else if line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let name = first_name(&line[at..]);
                let weak = line.contains("extern_weak");
                syms.push(Sym { name: name.clone(), kind: if weak { SymKind::Weak } else { SymKind::Decl } });
                sym_ids.insert(name, syms.len() as u32);
            } else if line.starts_with('!') {
                let k = line[1..].find(' ').unwrap_or(0);
                if let Ok(n) = line[1..1 + k].parse::<u32>() {
                    md.insert(n, (pos, e));
                }
            }
            pos = e + 1;
        }
        for (n, t) in aliases {
            let id = sym_ids[&t];
            sym_ids.insert(n, id);
        }
        let parsed = (0..fns.len()).map(|_| None).collect();
        Module { text, syms, sym_ids, fns, parsed, glines, md, wide: Default::default() }
    }

    /// A constant. One that does not fit 64 bits gets a number below `WIDE`, which the arena
    /// reserves for it (see `Arena::reserve`).
    fn konst(&self, w: u16, v: u128) -> V {
        let v = v & mask(w);
        if v <= u64::MAX as u128 {
            return V::konst(w, v);
        }
        let mut t = self.wide.borrow_mut();
        let k = t.iter().position(|x| *x == (w, v)).unwrap_or_else(|| {
            t.push((w, v));
            t.len() - 1
        });
        assert!(k + 1 < WIDE as usize, "too many wide constants");
        V { e: k as u32 + 1, w, c: 0 }
    }

    pub fn sym(&self, name: &str) -> u32 {
        *self.sym_ids.get(name).unwrap_or_else(|| panic!("unknown symbol {}", name))
    }

    fn gaddr(&self, name: &str) -> u64 {
        let id = self.sym(name);
        match self.syms[id as usize - 1].kind {
            SymKind::Weak => 0,
            _ => sym_addr(id),
        }
    }

    /// Initial bytes of a global: (bytes, is_constant, thread_local)
    pub fn global_init(&self, id: u32) -> Option<(Vec<u8>, bool)> {
        let line = match self.syms[id as usize - 1].kind {
            SymKind::Global { line } => line,
            _ => return None,
        };
        let (s, e) = self.glines[line];
        let toks = lex(&self.text[s..e]);
        let mut p = P { t: &toks, i: 0, m: self, f: None };
        // @name = attrs... (global|constant) type init
        p.i = 2;
        let constant;
        loop {
            match p.next() {
                Tok::Id(k) if k == "global" => {
                    constant = false;
                    break;
                }
                Tok::Id(k) if k == "constant" => {
                    constant = true;
                    break;
                }
                _ => {}
            }
        }
        let ty = p.ty();
        let vals = p.const_value(&ty);
        let mut bytes = vec![0u8; ty.size() as usize];
        for ((off, w), v) in ty.flat().iter().zip(vals.iter()) {
            let n = (*w as usize + 7) / 8;
            let c = if v.e == 0 { v.c as u128 } else { self.wide.borrow()[v.e as usize - 1].1 };
            for k in 0..n {
                bytes[*off as usize + k] = (c >> (8 * k)) as u8;
            }
        }
        Some((bytes, constant))
    }

    pub fn func(&mut self, idx: usize) -> Rc<Func> {
        if let Some(f) = &self.parsed[idx] {
            return f.clone();
        }
        let f = Rc::new(self.parse_fn(idx));
        self.parsed[idx] = Some(f.clone());
        f
    }

    fn parse_fn(&self, idx: usize) -> Func {
        let ft = &self.fns[idx];
        let head = lex(&self.text[ft.head.0..ft.head.1]);
        let mut fx = FnCtx::default();
        // locate @name then params
        let mut p = P { t: &head, i: 0, m: self, f: Some(&mut fx) };
        let mut k = 0;
        while !matches!(&head[k], Tok::Glob(_)) {
            k += 1;
        }
        // return type: scan back is awkward; find it by skipping keywords
        p.i = 1;
        let ret = p.skip_to_type();
        p.i = k + 1;
        p.expect('(');
        let mut params = Vec::new();
        let mut argno = 0;
        while !p.at(')') {
            if p.at(',') {
                p.i += 1;
            }
            if matches!(p.peek(), Tok::Dots) {
                p.i += 1;
                continue;
            }
            let ty = p.ty();
            p.skip_attrs();
            let name = match p.peek().clone() {
                Tok::Loc(n) => {
                    p.i += 1;
                    // only unnamed values are numbered
                    if n == argno.to_string() {
                        argno += 1;
                    }
                    n
                }
                _ => {
                    argno += 1;
                    (argno - 1).to_string()
                }
            };
            let id = p.local(&name);
            p.f.as_mut().unwrap().types[id as usize] = Some(ty);
            params.push(id);
        }
        let mut subprogram = 0;
        for w in head.windows(2) {
            if let (Tok::Meta(a), Tok::Meta(b)) = (&w[0], &w[1]) {
                if a == "dbg" {
                    subprogram = b.parse().unwrap_or(0);
                }
            }
        }
        // blocks
        let body = &self.text[ft.body.0..ft.body.1];
        let mut blocks: Vec<(Vec<(u32, Ty, Vec<(u32, RawOpd)>)>, Vec<(RawI, u32)>)> = Vec::new();
        let mut cur: Option<usize> = None;
        let mut lines = body.lines().peekable();
        // The entry block may have no label when unnamed values start at 0.. : name it by number.
        let mut entry_unnamed = true;
        while let Some(line) = lines.next() {
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let lab = if line.starts_with('"') {
                    let e = line[1..].find('"').unwrap();
                    String::from_utf8_lossy(&unescape_ll(line[1..1 + e].as_bytes())).to_string()
                } else {
                    line[..line.find(':').unwrap()].to_string()
                };
                let id = fx.block(&lab);
                entry_unnamed = false;
                while blocks.len() <= id as usize {
                    blocks.push((Vec::new(), Vec::new()));
                }
                cur = Some(id as usize);
                continue;
            }
            if cur.is_none() {
                if entry_unnamed {
                    let id = fx.block(&argno.to_string());
                    while blocks.len() <= id as usize {
                        blocks.push((Vec::new(), Vec::new()));
                    }
                    cur = Some(id as usize);
                }
            }
            let t = line.trim_start();
            if t.starts_with("#dbg_") {
                continue;
            }
            // join continuations
            let mut full = String::from(line);
            if t.starts_with("switch ") {
                if !full.contains(']') {
                    for l in lines.by_ref() {
                        full.push('\n');
                        full.push_str(l);
                        if l.trim_start().starts_with(']') {
                            break;
                        }
                    }
                }
            } else {
                while let Some(n) = lines.peek() {
                    if n.starts_with("          ") {
                        full.push('\n');
                        full.push_str(n);
                        lines.next();
                    } else {
                        break;
                    }
                }
            }
            let toks = lex(&full);
            let mut dbg = 0;
            let mut end = toks.len();
            for k in 0..toks.len().saturating_sub(2) {
                if toks[k] == Tok::P(',') {
                    if let (Tok::Meta(a), Tok::Meta(b)) = (&toks[k + 1], &toks[k + 2]) {
                        if end == toks.len() {
                            end = k;
                        }
                        if a == "dbg" {
                            dbg = b.parse().unwrap_or(0);
                        }
                    }
                }
            }
            let mut p = P { t: &toks[..end], i: 0, m: self, f: Some(&mut fx) };
            let b = cur.unwrap();
            match p.instr() {
                Parsed::Phi(d, ty, inc) => blocks[b].0.push((d, ty, inc)),
                Parsed::I(i) => blocks[b].1.push((i, dbg)),
            }
            while blocks.len() < fx.blocks.len() {
                blocks.push((Vec::new(), Vec::new()));
            }
        }
        // slot allocation
        let mut slot = vec![(0u32, 0u32); fx.types.len()];
        let mut next = 0u32;
        for (i, t) in fx.types.iter().enumerate() {
            let n = t.as_ref().map(|t| t.nslots()).unwrap_or(0) as u32;
            slot[i] = (next, n);
            next += n;
        }
        let mut out = Vec::new();
        for (phis, ins) in blocks {
            let ph = phis
                .into_iter()
                .map(|(d, _ty, inc)| Phi {
                    dst: slot[d as usize].0,
                    n: slot[d as usize].1,
                    inc: inc.into_iter().map(|(b, o)| (b, fix(&o, &slot))).collect(),
                })
                .collect();
            let ii = ins.into_iter().map(|(r, d)| (lower(r, &slot), d)).collect();
            out.push(Block { phis: ph, ins: ii, npred: 0, loops: Vec::new(), rpo: u32::MAX });
        }
        analyse(&mut out);
        Func {
            name: ft.name.clone(),
            id: idx as u32,
            nslots: next,
            params: params.iter().map(|p| slot[*p as usize]).collect(),
            blocks: out,
            ret_n: ret.nslots() as u32,
            subprogram,
        }
    }

    /// (file, line, function) chain of a debug location, innermost first.
    pub fn location(&self, dbg: u32) -> Vec<(String, u32, String)> {
        let mut out = Vec::new();
        let mut d = dbg;
        while d != 0 && out.len() < 30 {
            let l = match self.mdline(d) {
                Some(l) => l,
                None => break,
            };
            let line = md_num(l, "line: ").unwrap_or(0);
            let scope = md_ref(l, "scope: ").unwrap_or(0);
            let (file, name) = self.scope(scope);
            out.push((file, line, name));
            d = md_ref(l, "inlinedAt: ").unwrap_or(0);
        }
        out
    }
    pub fn mdline(&self, d: u32) -> Option<&str> {
        self.md.get(&d).map(|(s, e)| &self.text[*s..*e])
    }
    fn scope(&self, mut s: u32) -> (String, String) {
        for _ in 0..50 {
            let l = match self.mdline(s) {
                Some(l) => l,
                None => break,
            };
            if l.contains("DISubprogram(") {
                let name = md_str(l, "name: \"").unwrap_or_default();
                let link = md_str(l, "linkageName: \"").unwrap_or_default();
                let file = md_ref(l, "file: ").and_then(|f| self.mdline(f)).map(|f| {
                    let n = md_str(f, "filename: \"").unwrap_or_default();
                    let d = md_str(f, "directory: \"").unwrap_or_default();
                    if n.starts_with('/') || d.is_empty() {
                        n
                    } else {
                        format!("{}/{}", d, n)
                    }
                });
                let full = if link.is_empty() { name } else { demangle(&link) };
                return (file.unwrap_or_default(), full);
            }
            s = match md_ref(l, "scope: ") {
                Some(x) => x,
                None => break,
            };
        }
        (String::new(), String::new())
    }
}

fn md_num(l: &str, k: &str) -> Option<u32> {
    let i = l.find(k)? + k.len();
    let r: String = l[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    r.parse().ok()
}
fn md_ref(l: &str, k: &str) -> Option<u32> {
    let i = l.find(k)? + k.len();
    if !l[i..].starts_with('!') {
        return None;
    }
    let r: String = l[i + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
    r.parse().ok()
}
fn md_str(l: &str, k: &str) -> Option<String> {
    let i = l.find(k)? + k.len();
    let e = l[i..].find('"')?;
    Some(l[i..i + e].to_string())
}

/// Very rough v0 demangling: the identifiers joined by "::".
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut out: Vec<String> = Vec::new();
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
            i += 1;
        } else if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' {
                j += 1;
            }
            i = j + 1;
        } else if b[i].is_ascii_digit() {
            let mut j = i;
            let mut n = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() {
                out.push(s[j..j + n].to_string());
                i = j + n;
            } else {
                i = j.max(i + 1);
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    b[from..].iter().position(|x| *x == c).map(|p| p + from).unwrap_or(b.len())
}

fn first_name(s: &str) -> String {
    // s starts with '@' or '%', possibly after spaces
    let s = &s[s.find(|c| c == '@' || c == '%').unwrap() + 1..];
    if let Some(r) = s.strip_prefix('"') {
        r[..r.find('"').unwrap()].to_string()
    } else {
        s.chars().take_while(|c| c.is_ascii_alphanumeric() || "_.$-".contains(*c)).collect()
    }
}

// ---------------------------------------------------------------- CFG analysis

pub fn succs(b: &Block) -> Vec<u32> {
    match b.ins.last().map(|x| &x.0) {
        Some(I::Br(t)) => vec![*t],
        Some(I::CondBr(_, a, b)) => vec![*a, *b],
        Some(I::Switch(_, _, d, c)) => {
            let mut v = vec![*d];
            v.extend(c.iter().map(|x| x.1));
            v
        }
        Some(I::Call(_, _, _, _, Some(n))) => vec![*n],
        _ => vec![],
    }
}

fn analyse(bl: &mut Vec<Block>) {
    let n = bl.len();
    let su: Vec<Vec<u32>> = bl.iter().map(succs).collect();
    for s in &su {
        let mut seen = Vec::new();
        for t in s {
            if !seen.contains(t) {
                bl[*t as usize].npred += 1;
                seen.push(*t);
            }
        }
    }
    // iterative DFS: reverse post order
    let mut order = Vec::new();
    let mut state = vec![0u8; n];
    let mut stack = vec![(0usize, 0usize)];
    state[0] = 1;
    while let Some((b, k)) = stack.pop() {
        if k < su[b].len() {
            stack.push((b, k + 1));
            let t = su[b][k] as usize;
            if state[t] == 0 {
                state[t] = 1;
                stack.push((t, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    for (i, b) in order.iter().enumerate() {
        bl[*b].rpo = i as u32;
    }
    // dominators (Cooper-Harvey-Kennedy)
    let mut preds: Vec<Vec<usize>> = vec![Vec::new(); n];
    for (b, s) in su.iter().enumerate() {
        if bl[b].rpo == u32::MAX {
            continue;
        }
        for t in s {
            preds[*t as usize].push(b);
        }
    }
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut changed = true;
    while changed {
        changed = false;
        for &b in order.iter().skip(1) {
            let mut ni = usize::MAX;
            for &p in &preds[b] {
                if idom[p] == usize::MAX {
                    continue;
                }
                ni = if ni == usize::MAX {
                    p
                } else {
                    let (mut x, mut y) = (p, ni);
                    while x != y {
                        while bl[x].rpo > bl[y].rpo {
                            x = idom[x];
                        }
                        while bl[y].rpo > bl[x].rpo {
                            y = idom[y];
                        }
                    }
                    x
                };
            }
            if ni != idom[b] {
                idom[b] = ni;
                changed = true;
            }
        }
    }
    let dom = |a: usize, mut b: usize| -> bool {
        loop {
            if a == b {
                return true;
            }
            if b == 0 || idom[b] == usize::MAX {
                return false;
            }
            b = idom[b];
        }
    };
    // natural loops
    let mut headers: HashMap<usize, Vec<bool>> = HashMap::new();
    for b in 0..n {
        if bl[b].rpo == u32::MAX {
            continue;
        }
        for t in &su[b] {
            let t = *t as usize;
            if dom(t, b) {
                let body = headers.entry(t).or_insert_with(|| {
                    let mut v = vec![false; n];
                    v[t] = true;
                    v
                });
                let mut work = vec![b];
                while let Some(x) = work.pop() {
                    if !body[x] {
                        body[x] = true;
                        work.extend(preds[x].iter().cloned());
                    }
                }
            }
        }
    }
    let mut hs: Vec<usize> = headers.keys().cloned().collect();
    hs.sort_by_key(|h| bl[*h].rpo);
    for h in hs {
        let body = &headers[&h];
        for b in 0..n {
            if body[b] {
                bl[b].loops.push(h as u32);
            }
        }
    }
}

// ---------------------------------------------------------------- instruction parser

#[derive(Default)]
pub struct FnCtx {
    locals: HashMap<String, u32>,
    types: Vec<Option<Ty>>,
    blocks: HashMap<String, u32>,
}

impl FnCtx {
    fn block(&mut self, n: &str) -> u32 {
        let k = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(k)
    }
}

#[derive(Clone, Debug)]
pub enum RawOpd {
    L(u32),
    K(Vec<V>),
}

enum Parsed {
    Phi(u32, Ty, Vec<(u32, RawOpd)>),
    I(RawI),
}

/// Instruction with local ids; lowered to slots once all types are known.
enum RawI {
    Bin(Bin, u32, u16, u32, RawOpd, RawOpd),
    Icmp(Pred, u32, u16, u32, RawOpd, RawOpd),
    Fcmp(String, u32, u16, RawOpd, RawOpd),
    Cast(Cast, u32, u16, u16, u32, RawOpd),
    Gep(u32, RawOpd, i64, Vec<(RawOpd, u16, i64)>),
    Load(u32, RawOpd, Rc<Vec<(u64, u16)>>),
    Store(RawOpd, RawOpd, Rc<Vec<(u64, u16)>>),
    Select(u32, u32, RawOpd, RawOpd, RawOpd, bool),
    Call(RawCallee, Option<u32>, u32, Vec<(RawOpd, u16)>, Option<u32>),
    Extract(u32, u32, RawOpd, u32),
    Insert(u32, u32, RawOpd, u32, u32, RawOpd),
    ExtractElt(u32, u32, u32, RawOpd, RawOpd),
    InsertElt(u32, u32, RawOpd, RawOpd, RawOpd),
    Shuffle(u32, u32, RawOpd, RawOpd, Vec<i32>),
    BitcastVec(u32, RawOpd, Vec<u16>, Vec<u16>),
    Move(u32, u32, RawOpd),
    Alloca(u32, u64, u64, RawOpd),
    Br(u32),
    CondBr(RawOpd, u32, u32),
    Switch(RawOpd, u16, u32, Vec<(V, u32)>),
    Ret(u32, Option<RawOpd>),
    Unreachable,
    Rmw(String, u32, u16, RawOpd, RawOpd),
    CmpXchg(u32, u16, RawOpd, RawOpd, RawOpd),
    Nop,
    Unsupported(String),
}

enum RawCallee {
    Fn(u32),
    Ind(RawOpd),
    Intrinsic(Intr),
    Unknown(String),
}

fn fix(o: &RawOpd, slot: &[(u32, u32)]) -> Opd {
    match o {
        RawOpd::L(l) => {
            let (s, n) = slot[*l as usize];
            if n == 1 {
                Opd::R(s)
            } else {
                Opd::RM(s, n)
            }
        }
        RawOpd::K(v) => {
            if v.len() == 1 {
                Opd::C(v[0])
            } else {
                Opd::CM(Rc::new(v.clone()))
            }
        }
    }
}

fn lower(r: RawI, s: &[(u32, u32)]) -> I {
    let d = |x: u32| s[x as usize].0;
    let f = |o: &RawOpd| fix(o, s);
    match r {
        RawI::Bin(op, dst, w, n, a, b) => I::Bin(op, d(dst), w, n, f(&a), f(&b)),
        RawI::Icmp(op, dst, w, n, a, b) => I::Icmp(op, d(dst), w, n, f(&a), f(&b)),
        RawI::Fcmp(op, dst, w, a, b) => I::Fcmp(op, d(dst), w, f(&a), f(&b)),
        RawI::Cast(op, dst, fw, tw, n, a) => I::Cast(op, d(dst), fw, tw, n, f(&a)),
        RawI::Gep(dst, b, c, idx) => I::Gep(
            d(dst),
            f(&b),
            c,
            idx.iter().map(|(o, w, s)| (f(o), *w, *s)).collect(),
        ),
        RawI::Load(dst, p, l) => I::Load(d(dst), f(&p), l),
        RawI::Store(v, p, l) => I::Store(f(&v), f(&p), l),
        RawI::Select(dst, n, c, a, b, vc) => I::Select(d(dst), n, f(&c), f(&a), f(&b), vc),
        RawI::Call(c, dst, n, args, inv) => I::Call(
            match c {
                RawCallee::Fn(x) => Callee::Fn(x),
                RawCallee::Ind(o) => Callee::Ind(f(&o)),
                RawCallee::Intrinsic(i) => Callee::Intrinsic(i),
                RawCallee::Unknown(s) => Callee::Unknown(s),
            },
            dst.map(|x| d(x)).unwrap_or(0),
            n,
            args.iter().map(|(o, w)| (f(o), *w)).collect(),
            inv,
        ),
        RawI::Extract(dst, n, a, at) => {
            let o = match f(&a) {
                Opd::R(s) => {
                    if n == 1 {
                        Opd::R(s + at)
                    } else {
                        Opd::RM(s + at, n)
                    }
                }
                Opd::RM(s, _) => {
                    if n == 1 {
                        Opd::R(s + at)
                    } else {
                        Opd::RM(s + at, n)
                    }
                }
                Opd::C(v) => Opd::C(v),
                Opd::CM(v) => {
                    if n == 1 {
                        Opd::C(v[at as usize])
                    } else {
                        Opd::CM(Rc::new(v[at as usize..(at + n) as usize].to_vec()))
                    }
                }
            };
            I::Move(d(dst), n, o)
        }
        RawI::Insert(dst, n, a, at, m, v) => I::Insert(d(dst), n, f(&a), at, m, f(&v)),
        RawI::ExtractElt(dst, n, es, a, i) => I::ExtractElt(d(dst), n, es, f(&a), f(&i)),
        RawI::InsertElt(dst, n, a, v, i) => I::InsertElt(d(dst), n, f(&a), f(&v), f(&i)),
        RawI::Shuffle(dst, n, a, b, m) => I::Shuffle(d(dst), n, f(&a), f(&b), m),
        RawI::BitcastVec(dst, a, x, y) => I::BitcastVec(d(dst), f(&a), x, y),
        RawI::Move(dst, n, a) => I::Move(d(dst), n, f(&a)),
        RawI::Alloca(dst, sz, al, c) => I::Alloca(d(dst), sz, al, f(&c)),
        RawI::Br(t) => I::Br(t),
        RawI::CondBr(c, a, b) => I::CondBr(f(&c), a, b),
        RawI::Switch(v, w, dfl, c) => I::Switch(f(&v), w, dfl, c),
        RawI::Ret(n, v) => I::Ret(n, v.map(|v| f(&v))),
        RawI::Unreachable => I::Unreachable,
        RawI::Rmw(op, dst, w, p, v) => I::Rmw(op, d(dst), w, f(&p), f(&v)),
        RawI::CmpXchg(dst, w, p, a, b) => I::CmpXchg(d(dst), w, f(&p), f(&a), f(&b)),
        RawI::Nop => I::Nop,
        RawI::Unsupported(s) => I::Unsupported(s),
    }
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    m: &'a Module,
    f: Option<&'a mut FnCtx>,
}

const UNDEF: u64 = 0xA5A5_A5A5_A5A5_A5A5;

impl<'a> P<'a> {
    fn peek(&self) -> &Tok {
        static END: Tok = Tok::P('\0');
        self.t.get(self.i).unwrap_or(&END)
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.i += 1;
        t
    }
    fn at(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn expect(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("expected {:?} got {:?} at {} in {:?}", c, t, self.i, self.t);
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.at(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(x) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn local(&mut self, n: &str) -> u32 {
        let f = self.f.as_mut().unwrap();
        let k = f.types.len() as u32;
        if let Some(x) = f.locals.get(n) {
            return *x;
        }
        f.locals.insert(n.to_string(), k);
        f.types.push(None);
        k
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Id(s) => {
                s == "ptr"
                    || s == "void"
                    || s == "double"
                    || s == "float"
                    || s == "label"
                    || s == "metadata"
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            _ => false,
        }
    }
    /// Skip linkage/attribute keywords up to a type and parse it.
    fn skip_to_type(&mut self) -> Ty {
        loop {
            if self.is_type_start() {
                return self.ty();
            }
            self.i += 1;
            if self.at('(') {
                self.skip_parens();
            }
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::P('\0') => panic!("parens"),
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::Id(s) => match s.as_str() {
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "double" => Ty::Double,
                "float" => Ty::Float,
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                _ => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {} in {:?}", s, self.t))),
            },
            Tok::P('[') => {
                let n = self.int() as u64;
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut f = Vec::new();
                    while !self.eat('}') {
                        f.push(self.ty());
                        self.eat(',');
                    }
                    self.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.int() as u64;
                    assert!(self.eat_id("x"));
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            Tok::P('{') => {
                let mut f = Vec::new();
                while !self.eat('}') {
                    f.push(self.ty());
                    self.eat(',');
                }
                Ty::Struct(f, false)
            }
            t => panic!("type expected, got {:?} in {:?}", t, self.t),
        }
    }
    fn int(&mut self) -> i128 {
        match self.next() {
            Tok::Int(i) => i,
            t => panic!("int expected, got {:?} in {:?}", t, self.t),
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::Id(s) => match s.as_str() {
                    "align" => {
                        self.i += 1;
                        if self.at('(') {
                            self.skip_parens();
                        } else {
                            self.i += 1;
                        }
                    }
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                    | "inttoptr" | "ptrtoint" | "getelementptr" | "splat" | "trunc" | "sub" | "add"
                    | "bitcast" | "asm" | "xor" | "ptrtoaddr" => return,
                    _ => {
                        self.i += 1;
                        if self.at('(') {
                            self.skip_parens();
                        }
                    }
                },
                Tok::Str(_) => {
                    self.i += 1;
                    if self.at('=') {
                        self.i += 2;
                    }
                }
                Tok::Attr(_) => self.i += 1,
                _ => return,
            }
        }
    }
    /// A constant of type `ty`, flattened.
    fn const_value(&mut self, ty: &Ty) -> Vec<V> {
        match self.next() {
            Tok::Int(i) => vec![self.m.konst(ty.scalar_width(), i as u128)],
            Tok::Id(s) => match s.as_str() {
                "true" => vec![V::konst(1, 1)],
                "false" => vec![V::konst(1, 0)],
                "null" | "zeroinitializer" | "none" => {
                    ty.flat().iter().map(|(_, w)| self.m.konst(*w, 0)).collect()
                }
                "undef" | "poison" => ty
                    .flat()
                    .iter()
                    .map(|(_, w)| {
                        let u = UNDEF as u128 | (UNDEF as u128) << 64;
                        self.m.konst(*w, u)
                    })
                    .collect(),
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.const_value(&t);
                    assert!(self.eat_id("to"));
                    let t2 = self.ty();
                    self.expect(')');
                    assert!(v[0].e == 0, "wide constant in a constant expression");
                    let (w1, w2) = (t.scalar_width(), t2.scalar_width());
                    if s == "trunc" && w1 == 64 && w2 == 32 && v[0].c != 0 {
                        // an entry of a relative table: the difference of two object numbers
                        assert!(v[0].c & ((1 << OBJ_SHIFT) - 1) == 0, "relative table entry inside an object");
                        let d = (v[0].c as i64) >> OBJ_SHIFT;
                        return vec![V::konst(32, d as i32 as u32 as u128)];
                    }
                    vec![V::konst(w2, v[0].c as u128)]
                }
                "getelementptr" => {
                    while !self.at('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    self.expect(',');
                    let bt = self.ty();
                    let base = self.const_value(&bt)[0].c;
                    let mut off: i64 = 0;
                    let mut cur = t.clone();
                    let mut first = true;
                    while self.eat(',') {
                        let it = self.ty();
                        let k = self.const_value(&it)[0];
                        let idx = sext(k.c, it.scalar_width());
                        if first {
                            off += idx * cur.size() as i64;
                            first = false;
                        } else {
                            let (o, n) = cur.field_offset(idx as usize);
                            off += o as i64;
                            cur = n.clone();
                        }
                    }
                    self.expect(')');
                    vec![V::konst(64, base.wrapping_add(off as u64) as u128)]
                }
                "sub" | "add" | "xor" => {
                    while !self.at('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.const_value(&t)[0].c;
                    self.expect(',');
                    let t = self.ty();
                    let b = self.const_value(&t)[0].c;
                    self.expect(')');
                    let r = match s.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        _ => a ^ b,
                    };
                    vec![V::konst(t.scalar_width(), r as u128)]
                }
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.const_value(&t)[0];
                    self.expect(')');
                    vec![v; ty.nslots()]
                }
                f if f.starts_with("f0x") => {
                    let v = u64::from_str_radix(&f[3..], 16).unwrap();
                    vec![V::konst(if let Ty::Float = ty { 32 } else { 64 }, v as u128)]
                }
                _ => panic!("constant {:?} in {:?}", s, self.t),
            },
            Tok::Flt(s) => {
                let bits = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).unwrap()
                } else {
                    s.parse::<f64>().unwrap().to_bits()
                };
                match ty {
                    Ty::Float => vec![V::konst(32, (f64::from_bits(bits) as f32).to_bits() as u128)],
                    _ => vec![V::konst(64, bits as u128)],
                }
            }
            Tok::Glob(n) => vec![V::konst(64, self.m.gaddr(&n) as u128)],
            Tok::CStr(b) => b.iter().map(|c| V::konst(8, *c as u128)).collect(),
            Tok::P('<') if self.at('{') => {
                self.expect('{');
                let mut v = Vec::new();
                while !self.eat('}') {
                    let t = self.ty();
                    v.extend(self.const_value(&t));
                    self.eat(',');
                }
                self.expect('>');
                v
            }
            Tok::P(o) if o == '{' || o == '[' || o == '<' => {
                let close = match o {
                    '{' => '}',
                    '[' => ']',
                    _ => '>',
                };
                let mut v = Vec::new();
                while !self.eat(close) {
                    let t = self.ty();
                    v.extend(self.const_value(&t));
                    self.eat(',');
                }
                v
            }
            t => panic!("constant expected, got {:?} in {:?}", t, self.t),
        }
    }
    fn value(&mut self, ty: &Ty) -> RawOpd {
        if let Tok::Loc(n) = self.peek().clone() {
            self.i += 1;
            RawOpd::L(self.local(&n))
        } else {
            RawOpd::K(self.const_value(ty))
        }
    }
    fn typed(&mut self) -> (Ty, RawOpd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.value(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        assert!(self.eat_id("label"), "label in {:?}", self.t);
        match self.next() {
            Tok::Loc(n) => self.f.as_mut().unwrap().block(&n),
            t => panic!("label {:?}", t),
        }
    }
    fn def(&mut self, d: u32, t: Ty) {
        self.f.as_mut().unwrap().types[d as usize] = Some(t);
    }
    fn flags(&mut self) {
        loop {
            match self.peek() {
                Tok::Id(s) => match s.as_str() {
                    "nuw" | "nsw" | "exact" | "inbounds" | "nneg" | "disjoint" | "samesign" | "nnan"
                    | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "nusw"
                    | "volatile" | "atomic" | "weak" => self.i += 1,
                    "inrange" => {
                        self.i += 1;
                        self.skip_parens();
                    }
                    _ => return,
                },
                _ => return,
            }
        }
    }

    fn instr(&mut self) -> Parsed {
        let mut dst = None;
        if let Tok::Loc(n) = self.peek().clone() {
            if self.t.get(self.i + 1) == Some(&Tok::P('=')) {
                self.i += 2;
                dst = Some(self.local(&n));
            }
        }
        let mut op = match self.next() {
            Tok::Id(s) => s,
            t => panic!("instr {:?} in {:?}", t, self.t),
        };
        if op == "tail" || op == "musttail" || op == "notail" {
            op = match self.next() {
                Tok::Id(s) => s,
                t => panic!("instr {:?}", t),
            };
        }
        let bin = match op.as_str() {
            "add" => Some(Bin::Add),
            "sub" => Some(Bin::Sub),
            "mul" => Some(Bin::Mul),
            "udiv" => Some(Bin::UDiv),
            "sdiv" => Some(Bin::SDiv),
            "urem" => Some(Bin::URem),
            "srem" => Some(Bin::SRem),
            "shl" => Some(Bin::Shl),
            "lshr" => Some(Bin::LShr),
            "ashr" => Some(Bin::AShr),
            "and" => Some(Bin::And),
            "or" => Some(Bin::Or),
            "xor" => Some(Bin::Xor),
            "fadd" => Some(Bin::FAdd),
            "fsub" => Some(Bin::FSub),
            "fmul" => Some(Bin::FMul),
            "fdiv" => Some(Bin::FDiv),
            _ => None,
        };
        if let Some(b) = bin {
            if matches!(b, Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv) {
                FLOATS.store(true, std::sync::atomic::Ordering::Relaxed);
            }
            self.flags();
            let t = self.ty();
            let x = self.value(&t);
            self.expect(',');
            let y = self.value(&t);
            let d = dst.unwrap();
            let n = t.nslots() as u32;
            let w = t.scalar_width();
            self.def(d, t);
            return Parsed::I(RawI::Bin(b, d, w, n, x, y));
        }
        Parsed::I(match op.as_str() {
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut inc = Vec::new();
                loop {
                    self.expect('[');
                    let v = self.value(&t);
                    self.expect(',');
                    let b = match self.next() {
                        Tok::Loc(n) => self.f.as_mut().unwrap().block(&n),
                        x => panic!("phi {:?}", x),
                    };
                    self.expect(']');
                    inc.push((b, v));
                    if !self.eat(',') {
                        break;
                    }
                }
                let d = dst.unwrap();
                self.def(d, t.clone());
                return Parsed::Phi(d, t, inc);
            }
            "icmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        x => panic!("icmp {}", x),
                    },
                    x => panic!("icmp {:?}", x),
                };
                let t = self.ty();
                let a = self.value(&t);
                self.expect(',');
                let b = self.value(&t);
                let d = dst.unwrap();
                let rt = match &t {
                    Ty::Vec(n, _) => Ty::Vec(*n, Box::new(Ty::Int(1))),
                    _ => Ty::Int(1),
                };
                let n = t.nslots() as u32;
                self.def(d, rt);
                RawI::Icmp(p, d, t.scalar_width(), n, a, b)
            }
            "fcmp" => {
                self.flags();
                let p = match self.next() {
                    Tok::Id(s) => s,
                    x => panic!("fcmp {:?}", x),
                };
                self.flags();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(',');
                let b = self.value(&t);
                let d = dst.unwrap();
                self.def(d, Ty::Int(1));
                RawI::Fcmp(p, d, t.scalar_width(), a, b)
            }
            "fneg" => {
                self.flags();
                let (t, a) = self.typed();
                let d = dst.unwrap();
                let (n, w) = (t.nslots() as u32, t.scalar_width());
                let k = vec![V::konst(w, 1 << (w - 1)); n as usize];
                self.def(d, t);
                RawI::Bin(Bin::Xor, d, w, n, a, RawOpd::K(k))
            }
            "fpext" | "fptrunc" | "sitofp" | "uitofp" => {
                FLOATS.store(true, std::sync::atomic::Ordering::Relaxed);
                self.flags();
                let (t, a) = self.typed();
                assert!(self.eat_id("to"));
                let t2 = self.ty();
                let d = dst.unwrap();
                let n = t2.nslots() as u32;
                self.def(d, t2.clone());
                let c = match op.as_str() {
                    "sitofp" => Cast::SToF,
                    "uitofp" => Cast::UToF,
                    _ => Cast::FToF,
                };
                RawI::Cast(c, d, t.scalar_width(), t2.scalar_width(), n, a)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.flags();
                let (t, a) = self.typed();
                assert!(self.eat_id("to"));
                let t2 = self.ty();
                let d = dst.unwrap();
                let n = t2.nslots() as u32;
                self.def(d, t2.clone());
                let (fw, tw) = (t.scalar_width(), t2.scalar_width());
                if op == "bitcast" && (matches!(t, Ty::Vec(..)) || matches!(t2, Ty::Vec(..))) {
                    RawI::BitcastVec(
                        d,
                        a,
                        t.flat().iter().map(|x| x.1).collect(),
                        t2.flat().iter().map(|x| x.1).collect(),
                    )
                } else {
                    let c = match op.as_str() {
                        "zext" => Cast::ZExt,
                        "sext" => Cast::SExt,
                        "trunc" => Cast::Trunc,
                        _ => {
                            if fw == tw {
                                Cast::Same
                            } else if fw < tw {
                                Cast::ZExt
                            } else {
                                Cast::Trunc
                            }
                        }
                    };
                    RawI::Cast(c, d, fw, tw, n, a)
                }
            }
            "freeze" => {
                let (t, a) = self.typed();
                let d = dst.unwrap();
                let n = t.nslots() as u32;
                self.def(d, t);
                RawI::Move(d, n, a)
            }
            "getelementptr" => {
                self.flags();
                let t = self.ty();
                self.expect(',');
                let (_, base) = self.typed();
                let mut off: i64 = 0;
                let mut dynidx = Vec::new();
                let mut cur = t;
                let mut first = true;
                while self.eat(',') {
                    let (it, iv) = self.typed();
                    let w = it.scalar_width();
                    if first {
                        let sz = cur.size() as i64;
                        match iv {
                            RawOpd::K(k) => off = off.wrapping_add(sext(k[0].c, w).wrapping_mul(sz)),
                            x => dynidx.push((x, w, sz)),
                        }
                        first = false;
                    } else {
                        match iv {
                            RawOpd::K(k) => {
                                let idx = sext(k[0].c, w);
                                let nt = match &cur {
                                    Ty::Struct(..) => {
                                        let (o, n) = cur.field_offset(idx as usize);
                                        off += o as i64;
                                        n.clone()
                                    }
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                        off = off.wrapping_add(idx.wrapping_mul(e.size() as i64));
                                        (**e).clone()
                                    }
                                    _ => panic!("gep"),
                                };
                                cur = nt;
                            }
                            x => {
                                let nt = match &cur {
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(),
                                    _ => panic!("gep dyn"),
                                };
                                dynidx.push((x, w, nt.size() as i64));
                                cur = nt;
                            }
                        }
                    }
                }
                let d = dst.unwrap();
                self.def(d, Ty::Ptr);
                RawI::Gep(d, base, off, dynidx)
            }
            "load" => {
                self.flags();
                let t = self.ty();
                self.expect(',');
                let (_, p) = self.typed();
                let d = dst.unwrap();
                let l = Rc::new(t.flat());
                let bad = vec_of_bits(&t);
                self.def(d, t);
                if bad {
                    RawI::Unsupported("load of bit vector".into())
                } else {
                    RawI::Load(d, p, l)
                }
            }
            "store" => {
                self.flags();
                let (t, v) = self.typed();
                self.expect(',');
                let (_, p) = self.typed();
                if vec_of_bits(&t) {
                    RawI::Unsupported("store of bit vector".into())
                } else {
                    RawI::Store(v, p, Rc::new(t.flat()))
                }
            }
            "select" => {
                self.flags();
                let (ct, c) = self.typed();
                self.expect(',');
                let (t, a) = self.typed();
                self.expect(',');
                let (_, b) = self.typed();
                let d = dst.unwrap();
                let n = t.nslots() as u32;
                self.def(d, t);
                RawI::Select(d, n, c, a, b, matches!(ct, Ty::Vec(..)))
            }
            "call" | "invoke" => {
                self.flags();
                // cconv, ret attrs
                loop {
                    match self.peek() {
                        Tok::Id(s) if !self.is_type_start() => {
                            let s = s.clone();
                            self.i += 1;
                            if s == "align" {
                                if self.at('(') {
                                    self.skip_parens();
                                } else {
                                    self.i += 1;
                                }
                            } else if self.at('(') {
                                self.skip_parens();
                            }
                        }
                        Tok::Attr(_) | Tok::Str(_) | Tok::Int(_) => self.i += 1,
                        _ => break,
                    }
                }
                let rt = self.ty();
                // optional function type "(ptr, ...)"
                if self.at('(') {
                    self.skip_parens();
                }
                let nret = rt.nslots() as u32;
                if let Some(d) = dst {
                    self.def(d, rt);
                }
                let callee = match self.next() {
                    Tok::Glob(n) => self.callee(&n),
                    Tok::Loc(n) => RawCallee::Ind(RawOpd::L(self.local(&n))),
                    Tok::Id(s) if s == "asm" => {
                        // inline asm: compiler barriers only
                        let mut text = String::new();
                        while !self.at('(') {
                            if let Tok::Str(s) = self.next() {
                                text.push_str(&String::from_utf8_lossy(&s));
                            }
                        }
                        RawCallee::Unknown(format!("asm {}", text))
                    }
                    t => panic!("callee {:?} in {:?}", t, self.t),
                };
                self.expect('(');
                let mut args = Vec::new();
                while !self.eat(')') {
                    if self.is_id("metadata") {
                        // skip to , or ) at depth 0
                        let mut d = 0;
                        loop {
                            match self.peek() {
                                Tok::P('(') => d += 1,
                                Tok::P(')') => {
                                    if d == 0 {
                                        break;
                                    }
                                    d -= 1;
                                }
                                Tok::P(',') if d == 0 => break,
                                _ => {}
                            }
                            self.i += 1;
                        }
                        self.eat(',');
                        continue;
                    }
                    let (t, v) = self.typed();
                    args.push((v, t.scalar_width()));
                    self.eat(',');
                }
                let mut normal = None;
                if op == "invoke" {
                    // skip attributes until "to label"
                    while !self.is_id("to") {
                        self.i += 1;
                        if self.i >= self.t.len() {
                            panic!("invoke {:?}", self.t);
                        }
                    }
                    self.i += 1;
                    normal = Some(self.label());
                }
                if let RawCallee::Unknown(s) = &callee {
                    if s == "asm " {
                        return Parsed::I(RawI::Nop);
                    }
                }
                RawI::Call(callee, dst, nret, args, normal)
            }
            "extractvalue" => {
                let (t, a) = self.typed();
                let mut path = Vec::new();
                while self.eat(',') {
                    path.push(self.int() as usize);
                }
                let (s, et) = t.slot_path(&path);
                let et = et.clone();
                let d = dst.unwrap();
                let n = et.nslots() as u32;
                self.def(d, et);
                RawI::Extract(d, n, a, s as u32)
            }
            "insertvalue" => {
                let (t, a) = self.typed();
                self.expect(',');
                let (vt, v) = self.typed();
                let mut path = Vec::new();
                while self.eat(',') {
                    path.push(self.int() as usize);
                }
                let (s, _) = t.slot_path(&path);
                let d = dst.unwrap();
                let n = t.nslots() as u32;
                self.def(d, t);
                RawI::Insert(d, n, a, s as u32, vt.nslots() as u32, v)
            }
            "extractelement" => {
                let (t, a) = self.typed();
                self.expect(',');
                let (_, i) = self.typed();
                let et = match &t {
                    Ty::Vec(_, e) => (**e).clone(),
                    _ => panic!(),
                };
                let d = dst.unwrap();
                let es = et.nslots() as u32;
                let n = t.nslots() as u32;
                self.def(d, et);
                RawI::ExtractElt(d, n, es, a, i)
            }
            "insertelement" => {
                let (t, a) = self.typed();
                self.expect(',');
                let (_, v) = self.typed();
                self.expect(',');
                let (_, i) = self.typed();
                let d = dst.unwrap();
                let n = t.nslots() as u32;
                self.def(d, t);
                RawI::InsertElt(d, n, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.typed();
                self.expect(',');
                let (_, b) = self.typed();
                self.expect(',');
                let mt = self.ty();
                let m = self.const_value(&mt);
                let mask: Vec<i32> = m.iter().map(|v| v.c as u32 as i32).collect();
                let d = dst.unwrap();
                let n = t.nslots() as u32;
                let et = match &t {
                    Ty::Vec(_, e) => e.clone(),
                    _ => panic!(),
                };
                self.def(d, Ty::Vec(mask.len() as u64, et));
                RawI::Shuffle(d, n, a, b, mask)
            }
            "alloca" => {
                let t = self.ty();
                let mut align = t.align();
                let mut count = RawOpd::K(vec![V::konst(64, 1)]);
                while self.eat(',') {
                    if self.eat_id("align") {
                        align = self.int() as u64;
                    } else {
                        let (_, c) = self.typed();
                        count = c;
                    }
                }
                let d = dst.unwrap();
                self.def(d, Ty::Ptr);
                RawI::Alloca(d, t.size(), align, count)
            }
            "br" => {
                if self.is_id("label") {
                    RawI::Br(self.label())
                } else {
                    let (_, c) = self.typed();
                    self.expect(',');
                    let a = self.label();
                    self.expect(',');
                    let b = self.label();
                    RawI::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.typed();
                self.expect(',');
                let d = self.label();
                self.expect('[');
                let mut cases = Vec::new();
                while !self.eat(']') {
                    let ct = self.ty();
                    let c = self.const_value(&ct)[0];
                    self.expect(',');
                    let l = self.label();
                    cases.push((c, l));
                }
                RawI::Switch(v, t.scalar_width(), d, cases)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    RawI::Ret(0, None)
                } else {
                    let v = self.value(&t);
                    RawI::Ret(t.nslots() as u32, Some(v))
                }
            }
            "unreachable" => RawI::Unreachable,
            "landingpad" => {
                let t = self.ty();
                self.def(dst.unwrap(), t);
                RawI::Unsupported("landingpad".into())
            }
            "resume" => RawI::Unsupported("resume".into()),
            "fence" => RawI::Nop,
            "atomicrmw" => {
                self.flags();
                let k = match self.next() {
                    Tok::Id(s) => s,
                    x => panic!("rmw {:?}", x),
                };
                let (_, p) = self.typed();
                self.expect(',');
                let (t, v) = self.typed();
                let d = dst.unwrap_or_else(|| self.local("__rmw_unused"));
                let w = t.scalar_width();
                self.def(d, t);
                RawI::Rmw(k, d, w, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let (_, p) = self.typed();
                self.expect(',');
                let (t, a) = self.typed();
                self.expect(',');
                let (_, b) = self.typed();
                let d = dst.unwrap_or_else(|| self.local("__cx_unused"));
                let w = t.scalar_width();
                self.def(d, Ty::Struct(vec![t, Ty::Int(1)], false));
                RawI::CmpXchg(d, w, p, a, b)
            }
            other => {
                if let Some(d) = dst {
                    // unknown result type: guess from the first type seen
                    let t = if self.is_type_start() { self.ty() } else { Ty::Int(64) };
                    self.def(d, t);
                }
                RawI::Unsupported(other.to_string())
            }
        })
    }

    fn callee(&mut self, n: &str) -> RawCallee {
        if let Some(r) = n.strip_prefix("llvm.") {
            let i = if r.starts_with("lifetime.")
                || r.starts_with("experimental.noalias")
                || r.starts_with("dbg.")
                || r.starts_with("invariant.")
                || r == "x86.sse2.pause"
                || r.starts_with("prefetch")
            {
                Intr::Nop
            } else {
                let base: &str = r.split('.').next().unwrap();
                match base {
                    "memcpy" => Intr::Memcpy,
                    "memmove" => Intr::Memmove,
                    "memset" => Intr::Memset,
                    "umax" => Intr::UMax,
                    "umin" => Intr::UMin,
                    "smax" => Intr::SMax,
                    "smin" => Intr::SMin,
                    "ctlz" => Intr::Ctlz,
                    "cttz" => Intr::Cttz,
                    "ctpop" => Intr::Ctpop,
                    "bswap" => Intr::Bswap,
                    "bitreverse" => Intr::BitReverse,
                    "fshl" => Intr::Fshl,
                    "fshr" => Intr::Fshr,
                    "abs" => Intr::Abs,
                    "fabs" => Intr::FAbs,
                    "copysign" => Intr::CopySign,
                    "ucmp" => Intr::UCmp,
                    "scmp" => Intr::SCmp,
                    "trap" | "ubsantrap" | "debugtrap" => Intr::Trap,
                    "assume" => Intr::Assume,
                    "expect" => Intr::Expect,
                    "ptrmask" => Intr::PtrMask,
                    _ if r.starts_with("usub.sat") => Intr::USubSat,
                    _ if r.starts_with("uadd.sat") => Intr::UAddSat,
                    _ if r.starts_with("ssub.sat") => Intr::SSubSat,
                    _ if r.starts_with("sadd.sat") => Intr::SAddSat,
                    _ if r.starts_with("umul.with.overflow") => Intr::UMulO,
                    _ if r.starts_with("smul.with.overflow") => Intr::SMulO,
                    _ if r.starts_with("uadd.with.overflow") => Intr::UAddO,
                    _ if r.starts_with("sadd.with.overflow") => Intr::SAddO,
                    _ if r.starts_with("usub.with.overflow") => Intr::USubO,
                    _ if r.starts_with("ssub.with.overflow") => Intr::SSubO,
                    _ if r.starts_with("is.constant") => Intr::IsConstant,
                    _ if r.starts_with("load.relative") => Intr::LoadRelative,
                    _ if r.starts_with("threadlocal.address") => Intr::ThreadLocal,
                    _ if r.starts_with("vector.reduce.or") => Intr::ReduceOr,
                    _ if r.starts_with("vector.reduce.and") => Intr::ReduceAnd,
                    _ if r.starts_with("vector.reduce.add") => Intr::ReduceAdd,
                    _ => return RawCallee::Unknown(n.to_string()),
                }
            };
            return RawCallee::Intrinsic(i);
        }
        match self.m.sym_ids.get(n) {
            Some(id) => RawCallee::Fn(*id),
            None => RawCallee::Unknown(n.to_string()),
        }
    }
}

fn vec_of_bits(t: &Ty) -> bool {
    match t {
        Ty::Vec(_, e) => !matches!(**e, Ty::Int(8) | Ty::Int(16) | Ty::Int(32) | Ty::Int(64) | Ty::Ptr | Ty::Double | Ty::Float),
        _ => false,
    }
}

pub fn sext(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w as u32;
        ((v << s) as i64) >> s
    }
}
