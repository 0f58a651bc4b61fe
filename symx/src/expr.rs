//! Hash-consed bit-vector expressions over 8-bit input variables, with a simplifier.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type Bh = BuildHasherDefault<Fx>;
pub type Map<K, V> = HashMap<K, V, Bh>;

/// A scalar value: concrete when `e == 0` (then `w <= 64` and the value is `c`), else node `e`.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct V {
    pub e: u32,
    pub w: u16,
    pub c: u64,
}

/// Nodes below this number are for constants of the program wider than 64 bits.
pub const WIDE: u32 = 4096;

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn mask64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

/// What an operation on numbers gives when the result is none.
pub const NAN64: u64 = 0xfff8_0000_0000_0000;
pub const NAN32: u32 = 0xffc0_0000;

impl V {
    /// Constants wider than 64 bits are truncated to 64 significant bits here; `Arena::konst`
    /// makes full-width ones.
    pub fn konst(w: u16, v: u128) -> V {
        V { e: 0, w, c: (v & mask(w)) as u64 }
    }
    pub fn k(w: u16, v: u64) -> V {
        V { e: 0, w, c: v & mask64(w) }
    }
    pub fn b(v: bool) -> V {
        V { e: 0, w: 1, c: v as u64 }
    }
    pub fn conc(&self) -> bool {
        self.e == 0
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Tab,
    Extract,
    Concat,
    ZExt,
    SExt,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Not,
    Eq,
    Ult,
    Slt,
    Ite,
    Ctlz,
    Cttz,
    Ctpop,
    /// IEEE arithmetic on the bits, to nearest; for a result that is no number see `fbin`.
    FAdd,
    FSub,
    FMul,
    FDiv,
    /// Conversions: between widths; from signed and unsigned integers; to them (cut off, saturating).
    FToF,
    SToF,
    UToF,
    FToS,
    FToU,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub type Mask = [u64; 4];
pub const FULL: Mask = [u64::MAX; 4];
pub fn mget(m: &Mask, i: usize) -> bool {
    m[i >> 6] >> (i & 63) & 1 == 1
}
pub fn mand(a: &Mask, b: &Mask) -> Mask {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
pub fn mor(a: &Mask, b: &Mask) -> Mask {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn mandn(a: &Mask, b: &Mask) -> Mask {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn mempty(a: &Mask) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn mcount(a: &Mask) -> u32 {
    a.iter().map(|x| x.count_ones()).sum()
}
pub fn mfirst(a: &Mask) -> Option<u8> {
    for i in 0..4 {
        if a[i] != 0 {
            return Some((i as u32 * 64 + a[i].trailing_zeros()) as u8);
        }
    }
    None
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: Map<Node, u32>,
    consts: Vec<u128>,
    reserved: usize,
    cmap: Map<u128, u32>,
    pub sup: Vec<u32>,
    pub sets: Vec<Rc<Vec<u16>>>,
    setmap: HashMap<Rc<Vec<u16>>, u32>,
    unions: Map<(u32, u32), u32>,
    pub tables: Vec<Rc<Vec<u64>>>,
    tabmap: HashMap<Rc<Vec<u64>>, u32>,
    masks: Map<u32, Mask>,
    memo_gen: Vec<u32>,
    memo_val: Vec<u128>,
    gen: u32,
    memo_model: u64,
    fixlists: HashMap<Vec<(u16, u8)>, u32>,
    subst_cache: Map<(u32, u32), u32>,
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: Vec::new(),
            map: Map::default(),
            consts: Vec::new(),
            cmap: Map::default(),
            sup: Vec::new(),
            sets: vec![Rc::new(Vec::new())],
            setmap: HashMap::new(),
            unions: Map::default(),
            tables: Vec::new(),
            tabmap: HashMap::new(),
            masks: Map::default(),
            memo_gen: Vec::new(),
            memo_val: Vec::new(),
            gen: 1,
            memo_model: 0,
            fixlists: HashMap::new(),
            subst_cache: Map::default(),
            reserved: 0,
        };
        a.setmap.insert(a.sets[0].clone(), 0);
        // node 0 is reserved
        a.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0 }, 0);
        // the next ones are for the wide constants of the program
        for i in 1..WIDE {
            a.push(Node { op: Op::Const, w: 0, a: 0, b: i, c: 0 }, 0);
        }
        a
    }
    /// Takes over the wide constants of the program: constant `i` is node `i + 1`.
    pub fn reserve(&mut self, wide: &[(u16, u128)]) {
        while self.reserved < wide.len() {
            let (w, v) = wide[self.reserved];
            self.reserved += 1;
            let i = self.consts.len() as u32;
            self.consts.push(v);
            let i = *self.cmap.entry(v).or_insert(i);
            let n = Node { op: Op::Const, w, a: i, b: 0, c: 0 };
            self.nodes[self.reserved] = n;
            self.map.entry(n).or_insert(self.reserved as u32);
        }
    }
    fn push(&mut self, n: Node, sup: u32) -> u32 {
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.sup.push(sup);
        self.memo_gen.push(0);
        self.memo_val.push(0);
        self.map.insert(n, id);
        id
    }
    fn set(&mut self, v: Vec<u16>) -> u32 {
        let r = Rc::new(v);
        if let Some(i) = self.setmap.get(&r) {
            return *i;
        }
        let i = self.sets.len() as u32;
        self.sets.push(r.clone());
        self.setmap.insert(r, i);
        i
    }
    pub fn union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = (a.min(b), a.max(b));
        if let Some(r) = self.unions.get(&k) {
            return *r;
        }
        let (x, y) = (self.sets[a as usize].clone(), self.sets[b as usize].clone());
        let mut v = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                v.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j] < x[i] {
                v.push(y[j]);
                j += 1;
            } else {
                v.push(x[i]);
                i += 1;
                j += 1;
            }
        }
        let r = self.set(v);
        self.unions.insert(k, r);
        r
    }
    fn mk(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32) -> u32 {
        let n = Node { op, w, a, b, c };
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let sup = match op {
            Op::Const => 0,
            Op::Var => self.set(vec![a as u16]),
            Op::Tab | Op::Extract | Op::ZExt | Op::SExt | Op::Not | Op::Ctlz | Op::Cttz | Op::Ctpop => {
                self.sup[a as usize]
            }
            Op::Ite => {
                let s = self.union(self.sup[a as usize], self.sup[b as usize]);
                self.union(s, self.sup[c as usize])
            }
            _ => self.union(self.sup[a as usize], self.sup[b as usize]),
        };
        self.push(n, sup)
    }
    pub fn var(&mut self, i: u32) -> V {
        let e = self.mk(Op::Var, 8, i, 0, 0);
        V { e, w: 8, c: 0 }
    }
    pub fn node(&self, e: u32) -> Node {
        self.nodes[e as usize]
    }
    pub fn support(&self, e: u32) -> &Rc<Vec<u16>> {
        &self.sets[self.sup[e as usize] as usize]
    }
    pub fn konst(&mut self, w: u16, v: u128) -> V {
        let v = v & mask(w);
        if w <= 64 {
            V { e: 0, w, c: v as u64 }
        } else {
            V { e: self.kid(w, v), w, c: 0 }
        }
    }
    fn kid(&mut self, w: u16, v: u128) -> u32 {
        let i = match self.cmap.get(&v) {
            Some(i) => *i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(v, i);
                i
            }
        };
        self.mk(Op::Const, w, i, 0, 0)
    }
    /// Node id of any value.
    pub fn id(&mut self, v: V) -> u32 {
        if v.e != 0 {
            v.e
        } else {
            self.kid(v.w, v.c as u128)
        }
    }
    pub fn val(&self, e: u32) -> V {
        let n = self.node(e);
        if n.op == Op::Const && n.w <= 64 {
            V { e: 0, w: n.w, c: self.consts[n.a as usize] as u64 }
        } else {
            V { e, w: n.w, c: 0 }
        }
    }
    pub fn cval(&self, v: V) -> Option<u128> {
        if v.e == 0 {
            return Some(v.c as u128);
        }
        let n = self.node(v.e);
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn ccval(&self, e: u32) -> u128 {
        self.consts[self.node(e).a as usize]
    }
    fn mkv(&mut self, op: Op, w: u16, a: V, b: V) -> V {
        let x = self.id(a);
        let y = self.id(b);
        let e = self.mk(op, w, x, y, 0);
        V { e, w, c: 0 }
    }

    // ------------------------------------------------------------ evaluation

    pub fn fold(op: Op, w: u16, aw: u16, a: u128, b: u128) -> u128 {
        let m = mask(w);
        let sx = |v: u128, w: u16| -> i128 {
            if w >= 128 {
                v as i128
            } else {
                let s = 128 - w as u32;
                ((v << s) as i128) >> s
            }
        };
        let r = match op {
            Op::Add => a.wrapping_add(b),
            Op::Sub => a.wrapping_sub(b),
            Op::Mul => a.wrapping_mul(b),
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 {
                    if x >= 0 {
                        m
                    } else {
                        1
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            Op::SRem => {
                let (x, y) = (sx(a, w), sx(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b as u32
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b as u32
                }
            }
            Op::AShr => {
                let s = (b.min(w as u128 - 1)) as u32;
                (sx(a, w) >> s) as u128
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                if w == 64 {
                    let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                    let r = match op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        _ => x / y,
                    };
                    if r.is_nan() { NAN64 as u128 } else { r.to_bits() as u128 }
                } else {
                    let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                    let r = match op {
                        Op::FAdd => x + y,
                        Op::FSub => x - y,
                        Op::FMul => x * y,
                        _ => x / y,
                    };
                    if r.is_nan() { NAN32 as u128 } else { r.to_bits() as u128 }
                }
            }
            Op::FToF => {
                if w == 64 {
                    let x = f32::from_bits(a as u32) as f64;
                    if x.is_nan() { NAN64 as u128 } else { x.to_bits() as u128 }
                } else {
                    let x = f64::from_bits(a as u64) as f32;
                    if x.is_nan() { NAN32 as u128 } else { x.to_bits() as u128 }
                }
            }
            Op::SToF if w == 64 => (sx(a, aw) as f64).to_bits() as u128,
            Op::SToF => (sx(a, aw) as f32).to_bits() as u128,
            Op::UToF if w == 64 => (a as f64).to_bits() as u128,
            Op::UToF => (a as f32).to_bits() as u128,
            Op::FToS | Op::FToU => {
                let x = if aw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 };
                if op == Op::FToS {
                    let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    (x as i128).clamp(lo, hi) as u128
                } else {
                    (x as u128).min(m)
                }
            }
            _ => unreachable!(),
        };
        r & m
    }
    /// One operand that is no number is passed on, made quiet, the first one preferred; a new one is
    /// the processor's (as on x86, and as the replay does it).
    pub fn fbin(&mut self, op: Op, a: V, b: V) -> V {
        let w = a.w;
        let r = match (self.cval(a), self.cval(b)) {
            (Some(x), Some(y)) => self.konst(w, Arena::fold(op, w, w, x, y)),
            _ => self.mkv(op, w, a, b),
        };
        let q = self.quiet(b);
        let nb = self.is_nan(b);
        let r = self.ite(nb, q, r);
        let q = self.quiet(a);
        let na = self.is_nan(a);
        self.ite(na, q, r)
    }
    pub fn fconv(&mut self, op: Op, a: V, w: u16) -> V {
        let r = match self.cval(a) {
            Some(x) => self.konst(w, Arena::fold(op, w, a.w, x, 0)),
            None => self.mkv(op, w, a, a),
        };
        if op != Op::FToF {
            return r;
        }
        // sign and the upper part of the fraction
        let s = self.extract(a, a.w - 1, 1);
        let (f, n) = if a.w == 64 {
            let f = self.extract(a, 29, 22);
            (f, V::k(9, 0x1ff))
        } else {
            let f = self.extract(a, 0, 22);
            let f = self.concat(f, V::k(29, 0));
            (f, V::k(12, 0xfff))
        };
        let n = self.concat(s, n);
        let n = self.concat(n, f);
        let na = self.is_nan(a);
        self.ite(na, n, r)
    }
    fn quiet(&mut self, a: V) -> V {
        self.or(a, V::k(a.w, if a.w == 64 { 1 << 51 } else { 1 << 22 }))
    }
    pub fn is_nan(&mut self, x: V) -> V {
        let (inf, abs) = if x.w == 64 { (0x7ff0_0000_0000_0000u64, u64::MAX >> 1) } else { (0x7f80_0000, u32::MAX as u64 >> 1) };
        let m = self.and(x, V::k(x.w, abs));
        self.bin(Op::Ult, V::k(x.w, inf), m)
    }

    fn eval_rec(&mut self, e: u32, model: &[u8]) -> u128 {
        if self.memo_gen[e as usize] == self.gen {
            return self.memo_val[e as usize];
        }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Var => *model.get(n.a as usize).unwrap_or(&0) as u128,
            Op::Tab => {
                let i = self.eval_rec(n.a, model) as usize;
                self.tables[n.b as usize][i] as u128
            }
            Op::Extract => (self.eval_rec(n.a, model) >> n.b) & mask(n.w),
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w;
                (self.eval_rec(n.a, model) << lw) | self.eval_rec(n.b, model)
            }
            Op::ZExt => self.eval_rec(n.a, model),
            Op::SExt => {
                let aw = self.nodes[n.a as usize].w;
                let v = self.eval_rec(n.a, model);
                let s = 128 - aw as u32;
                ((((v << s) as i128) >> s) as u128) & mask(n.w)
            }
            Op::Not => (!self.eval_rec(n.a, model)) & mask(n.w),
            Op::Ite => {
                if self.eval_rec(n.a, model) == 1 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            Op::Ctlz => {
                let v = self.eval_rec(n.a, model);
                (v.leading_zeros() as u128) - (128 - n.w as u128)
            }
            Op::Cttz => {
                let v = self.eval_rec(n.a, model);
                if v == 0 {
                    n.w as u128
                } else {
                    v.trailing_zeros() as u128
                }
            }
            Op::Ctpop => self.eval_rec(n.a, model).count_ones() as u128,
            Op::And if n.w == 1 => {
                if self.eval_rec(n.a, model) == 0 {
                    0
                } else {
                    self.eval_rec(n.b, model)
                }
            }
            Op::Or if n.w == 1 => {
                if self.eval_rec(n.a, model) == 1 {
                    1
                } else {
                    self.eval_rec(n.b, model)
                }
            }
            _ => {
                let aw = self.nodes[n.a as usize].w;
                let a = self.eval_rec(n.a, model);
                let b = self.eval_rec(n.b, model);
                Arena::fold(n.op, n.w, aw, a, b)
            }
        };
        self.memo_gen[e as usize] = self.gen;
        self.memo_val[e as usize] = r;
        r
    }
    /// Evaluate under a model; `mid` identifies the model for memoisation (0 = none).
    pub fn eval(&mut self, e: u32, model: &[u8], mid: u64) -> u128 {
        if mid == 0 || mid != self.memo_model {
            self.gen = self.gen.wrapping_add(1);
            if self.gen == 0 {
                self.gen = 1;
                for g in self.memo_gen.iter_mut() {
                    *g = 0;
                }
            }
            self.memo_model = mid;
        }
        self.eval_rec(e, model)
    }
    fn eval1_rec(&mut self, e: u32, model: &mut Vec<u8>) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 {
            self.gen = 1;
            for g in self.memo_gen.iter_mut() {
                *g = 0;
            }
        }
        self.memo_model = 0;
        self.eval_rec(e, model)
    }
    /// Truth table of a boolean node over its single variable.
    pub fn truth(&mut self, e: u32) -> Mask {
        if let Some(m) = self.masks.get(&e) {
            return *m;
        }
        let v = self.support(e)[0] as usize;
        let mut model = vec![0u8; v + 1];
        let mut m = [0u64; 4];
        for i in 0..256 {
            model[v] = i as u8;
            if self.eval1_rec(e, &mut model) == 1 {
                m[i >> 6] |= 1 << (i & 63);
            }
        }
        self.masks.insert(e, m);
        m
    }
    /// All values of a node over its single variable.
    pub fn table(&mut self, e: u32) -> Vec<u128> {
        let v = self.support(e)[0] as usize;
        let mut model = vec![0u8; v + 1];
        (0..256)
            .map(|i| {
                model[v] = i as u8;
                self.eval1_rec(e, &mut model)
            })
            .collect()
    }
    pub fn tab(&mut self, w: u16, var: u32, t: Vec<u64>) -> V {
        if t.iter().all(|x| *x == t[0]) {
            return V::k(w, t[0]);
        }
        let r = Rc::new(t);
        let id = match self.tabmap.get(&r) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(r.clone());
                self.tabmap.insert(r, i);
                i
            }
        };
        let v = self.var(var);
        let e = self.mk(Op::Tab, w, v.e, id, 0);
        V { e, w, c: 0 }
    }

    /// Substitute fixed variables.
    pub fn subst(&mut self, e: u32, fixed: Vec<(u16, u8)>) -> u32 {
        let k = self.fixlists.len() as u32;
        let fid = *self.fixlists.entry(fixed.clone()).or_insert(k);
        let m: Map<u16, u8> = fixed.into_iter().collect();
        self.subst_rec(e, fid, &m)
    }
    fn subst_rec(&mut self, e: u32, fid: u32, m: &Map<u16, u8>) -> u32 {
        let s = self.sets[self.sup[e as usize] as usize].clone();
        if !s.iter().any(|v| m.contains_key(v)) {
            return e;
        }
        if let Some(r) = self.subst_cache.get(&(e, fid)) {
            return *r;
        }
        let n = self.nodes[e as usize];
        let r = match n.op {
            Op::Const => e,
            Op::Var => {
                let v = m[&(n.a as u16)];
                self.kid(8, v as u128)
            }
            Op::Tab => {
                let v = m[&(self.nodes[n.a as usize].a as u16)];
                let x = self.tables[n.b as usize][v as usize];
                self.kid(n.w, x as u128)
            }
            _ => {
                let a = self.subst_rec(n.a, fid, m);
                let va = self.val(a);
                let vb = match n.op {
                    Op::Extract | Op::ZExt | Op::SExt | Op::Not | Op::Ctlz | Op::Cttz | Op::Ctpop => V::k(1, 0),
                    _ => {
                        let b = self.subst_rec(n.b, fid, m);
                        self.val(b)
                    }
                };
                let v = match n.op {
                    Op::Extract => self.extract(va, n.b as u16, n.w),
                    Op::Concat => self.concat(va, vb),
                    Op::ZExt => self.zext(va, n.w),
                    Op::SExt => self.sext(va, n.w),
                    Op::Not => self.not(va),
                    Op::Ite => {
                        let c = self.subst_rec(n.c, fid, m);
                        let vc = self.val(c);
                        self.ite(va, vb, vc)
                    }
                    Op::Ctlz | Op::Cttz | Op::Ctpop => self.unary(n.op, va),
                    // what is no number is seen to by the nodes around it
                    Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FToF | Op::SToF | Op::UToF | Op::FToS | Op::FToU => match (self.cval(va), self.cval(vb)) {
                        (Some(x), Some(y)) => {
                            let r = Arena::fold(n.op, n.w, va.w, x, y);
                            self.konst(n.w, r)
                        }
                        _ => self.mkv(n.op, n.w, va, vb),
                    },
                    op => self.bin(op, va, vb),
                };
                self.id(v)
            }
        };
        self.subst_cache.insert((e, fid), r);
        r
    }

    // ------------------------------------------------------------ constructors

    pub fn unary(&mut self, op: Op, a: V) -> V {
        if let Some(c) = self.cval(a) {
            let w = a.w;
            let r = match op {
                Op::Ctlz => c.leading_zeros() as u128 - (128 - w as u128),
                Op::Cttz => {
                    if c == 0 {
                        w as u128
                    } else {
                        c.trailing_zeros() as u128
                    }
                }
                _ => c.count_ones() as u128,
            };
            return self.konst(w, r);
        }
        let e = self.mk(op, a.w, a.e, 0, 0);
        V { e, w: a.w, c: 0 }
    }
    pub fn zext(&mut self, a: V, w: u16) -> V {
        if a.w == w {
            return a;
        }
        if a.e == 0 {
            return self.konst(w, a.c as u128);
        }
        let n = self.node(a.e);
        match n.op {
            Op::Const => {
                let c = self.consts[n.a as usize];
                self.konst(w, c)
            }
            Op::ZExt => {
                let v = self.val(n.a);
                self.zext(v, w)
            }
            Op::Tab => {
                let e = self.mk(Op::Tab, w, n.a, n.b, 0);
                V { e, w, c: 0 }
            }
            _ => {
                let e = self.mk(Op::ZExt, w, a.e, 0, 0);
                V { e, w, c: 0 }
            }
        }
    }
    pub fn sext(&mut self, a: V, w: u16) -> V {
        if a.w == w {
            return a;
        }
        if let Some(c) = self.cval(a) {
            let s = 128 - a.w as u32;
            return self.konst(w, (((c << s) as i128) >> s) as u128);
        }
        let n = self.node(a.e);
        if n.op == Op::ZExt {
            let v = self.val(n.a);
            return self.zext(v, w);
        }
        let e = self.mk(Op::SExt, w, a.e, 0, 0);
        V { e, w, c: 0 }
    }
    pub fn trunc(&mut self, a: V, w: u16) -> V {
        self.extract(a, 0, w)
    }
    pub fn extract(&mut self, a: V, lo: u16, w: u16) -> V {
        if lo == 0 && a.w == w {
            return a;
        }
        if a.e == 0 {
            return V::k(w, if lo >= 64 { 0 } else { a.c >> lo });
        }
        let n = self.node(a.e);
        match n.op {
            Op::Const => {
                let c = self.consts[n.a as usize] >> lo;
                self.konst(w, c)
            }
            Op::Extract => {
                let v = self.val(n.a);
                self.extract(v, lo + n.b as u16, w)
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w;
                if lo >= lw {
                    let v = self.val(n.a);
                    self.extract(v, lo - lw, w)
                } else if lo + w <= lw {
                    let v = self.val(n.b);
                    self.extract(v, lo, w)
                } else {
                    let (h, l) = (self.val(n.a), self.val(n.b));
                    let hi = self.extract(h, 0, lo + w - lw);
                    let lo_ = self.extract(l, lo, lw - lo);
                    self.concat(hi, lo_)
                }
            }
            Op::ZExt => {
                let iw = self.nodes[n.a as usize].w;
                if lo >= iw {
                    self.konst(w, 0)
                } else {
                    let v = self.val(n.a);
                    if lo + w <= iw {
                        self.extract(v, lo, w)
                    } else {
                        let x = self.extract(v, lo, iw - lo);
                        self.zext(x, w)
                    }
                }
            }
            Op::SExt => {
                let iw = self.nodes[n.a as usize].w;
                let v = self.val(n.a);
                if lo + w <= iw {
                    self.extract(v, lo, w)
                } else if lo == 0 {
                    self.sext(v, w)
                } else {
                    let e = self.mk(Op::Extract, w, a.e, lo as u32, 0);
                    V { e, w, c: 0 }
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let (x, y) = (self.val(n.a), self.val(n.b));
                let x = self.extract(x, lo, w);
                let y = self.extract(y, lo, w);
                self.bin(n.op, x, y)
            }
            Op::Not => {
                let x = self.val(n.a);
                let x = self.extract(x, lo, w);
                self.not(x)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let (x, y) = (self.val(n.a), self.val(n.b));
                let x = self.extract(x, 0, w);
                let y = self.extract(y, 0, w);
                self.bin(n.op, x, y)
            }
            Op::Ite => {
                let (x, y) = (self.val(n.b), self.val(n.c));
                if self.cval(x).is_some() || self.cval(y).is_some() {
                    let x = self.extract(x, lo, w);
                    let y = self.extract(y, lo, w);
                    let c = self.val(n.a);
                    self.ite(c, x, y)
                } else {
                    let e = self.mk(Op::Extract, w, a.e, lo as u32, 0);
                    V { e, w, c: 0 }
                }
            }
            Op::Tab if w <= 64 => {
                let t: Vec<u64> =
                    self.tables[n.b as usize].iter().map(|x| if lo >= 64 { 0 } else { (x >> lo) & mask64(w) }).collect();
                let var = self.nodes[n.a as usize].a;
                self.tab(w, var, t)
            }
            _ => {
                let e = self.mk(Op::Extract, w, a.e, lo as u32, 0);
                V { e, w, c: 0 }
            }
        }
    }
    pub fn concat(&mut self, hi: V, lo: V) -> V {
        let w = hi.w + lo.w;
        if let (Some(a), Some(b)) = (self.cval(hi), self.cval(lo)) {
            return self.konst(w, (a << lo.w) | b);
        }
        if let Some(0) = self.cval(hi) {
            return self.zext(lo, w);
        }
        if hi.e != 0 && lo.e != 0 {
            let (h, l) = (self.node(hi.e), self.node(lo.e));
            // extract(x, k+lw, hw) : extract(x, k, lw)  ->  extract(x, k, hw+lw)
            if h.op == Op::Extract && l.op == Op::Extract && h.a == l.a && h.b == l.b + lo.w as u32 {
                let v = self.val(h.a);
                return self.extract(v, l.b as u16, w);
            }
            if h.op == Op::Extract && h.a == lo.e && false {
                return hi;
            }
            // extract(x, lw, ..) : x-truncated-low handled above; extract(x,k..) : concat(extract.., rest)
            if h.op == Op::Extract && l.op == Op::Concat {
                let lh = self.node(l.a);
                if lh.op == Op::Extract && lh.a == h.a && h.b == lh.b + lh.w as u32 {
                    let v = self.val(h.a);
                    let x = self.extract(v, lh.b as u16, h.w + lh.w);
                    let y = self.val(l.b);
                    return self.concat(x, y);
                }
            }
        }
        // right-associate: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if hi.e != 0 {
            let h = self.node(hi.e);
            if h.op == Op::Concat {
                let (a, b) = (self.val(h.a), self.val(h.b));
                let l = self.concat(b, lo);
                return self.concat(a, l);
            }
            if h.op == Op::ZExt {
                let a = self.val(h.a);
                let l = self.concat(a, lo);
                return self.zext(l, w);
            }
        }
        self.mkv(Op::Concat, w, hi, lo)
    }
    /// Segments, low first: (value or None for zero, width).
    fn segs(&self, v: V, out: &mut Vec<(Option<V>, u16)>) {
        if v.e == 0 {
            if v.c == 0 {
                out.push((None, v.w));
            } else {
                // constants: split into zero and non-zero bytes
                let mut i = 0;
                while i < v.w {
                    let k = 8.min(v.w - i);
                    let b = (v.c >> i) & mask64(k);
                    out.push((if b == 0 { None } else { Some(V::k(k, b)) }, k));
                    i += k;
                }
            }
            return;
        }
        let n = self.node(v.e);
        match n.op {
            Op::Const => {
                let c = self.consts[n.a as usize];
                let mut i = 0;
                while i < v.w {
                    let k = 8.min(v.w - i);
                    let b = ((c >> i) as u64) & mask64(k);
                    out.push((if b == 0 { None } else { Some(V::k(k, b)) }, k));
                    i += k;
                }
            }
            Op::Concat => {
                let (h, l) = (self.val(n.a), self.val(n.b));
                self.segs(l, out);
                self.segs(h, out);
            }
            Op::ZExt => {
                let x = self.val(n.a);
                self.segs(x, out);
                out.push((None, n.w - x.w));
            }
            _ => out.push((Some(v), v.w)),
        }
    }
    fn or_segs(&mut self, a: V, b: V) -> Option<V> {
        let seg = |ar: &Arena, v: V| {
            v.e != 0 && matches!(ar.node(v.e).op, Op::Concat | Op::ZExt) || ar.cval(v).is_some()
        };
        if !seg(self, a) || !seg(self, b) {
            return None;
        }
        let (mut x, mut y) = (Vec::new(), Vec::new());
        self.segs(a, &mut x);
        self.segs(b, &mut y);
        let mut parts: Vec<V> = Vec::new();
        let (mut i, mut j) = (0, 0);
        let (mut xi, mut yi) = (x[0], y[0]);
        loop {
            let k = xi.1.min(yi.1);
            let take = |ar: &mut Arena, s: &mut (Option<V>, u16)| -> Option<V> {
                let r = s.0.map(|v| ar.extract(v, 0, k));
                s.0 = if s.1 > k { s.0.map(|v| ar.extract(v, k, s.1 - k)) } else { None };
                s.1 -= k;
                r
            };
            let p = match (xi.0, yi.0) {
                (None, None) => V::k(k, 0),
                (Some(_), None) | (None, Some(_)) => V::k(k, 0),
                _ => return None,
            };
            let px = take(self, &mut xi);
            let py = take(self, &mut yi);
            parts.push(px.or(py).unwrap_or(p));
            if xi.1 == 0 {
                i += 1;
                if i < x.len() {
                    xi = x[i];
                }
            }
            if yi.1 == 0 {
                j += 1;
                if j < y.len() {
                    yi = y[j];
                }
            }
            if i >= x.len() || j >= y.len() {
                break;
            }
        }
        let mut r = parts[0];
        for p in &parts[1..] {
            r = self.concat(*p, r);
        }
        Some(r)
    }
    /// Cheap unsigned upper bound.
    pub fn umax(&self, v: V, depth: u32) -> u128 {
        if let Some(c) = self.cval(v) {
            return c;
        }
        let m = mask(v.w);
        if depth == 0 {
            return m;
        }
        let n = self.node(v.e);
        match n.op {
            Op::ZExt => self.umax(self.val(n.a), depth - 1),
            Op::And => self.umax(self.val(n.a), depth - 1).min(self.umax(self.val(n.b), depth - 1)),
            Op::Tab => *self.tables[n.b as usize].iter().max().unwrap() as u128,
            Op::Ite => self.umax(self.val(n.b), depth - 1).max(self.umax(self.val(n.c), depth - 1)),
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w;
                (self.umax(self.val(n.a), depth - 1) << lw) | mask(lw)
            }
            Op::Add => {
                let (a, b) = (self.umax(self.val(n.a), depth - 1), self.umax(self.val(n.b), depth - 1));
                match a.checked_add(b) {
                    Some(s) if s <= m => s,
                    _ => m,
                }
            }
            Op::LShr => match self.cval(self.val(n.b)) {
                Some(k) if k < 128 => self.umax(self.val(n.a), depth - 1) >> k as u32,
                _ => m,
            },
            Op::URem => match self.cval(self.val(n.b)) {
                Some(k) if k > 0 => k - 1,
                _ => m,
            },
            Op::Ctlz | Op::Cttz | Op::Ctpop => (n.w as u128).min(m),
            _ => m,
        }
    }

    pub fn not(&mut self, a: V) -> V {
        if let Some(c) = self.cval(a) {
            return self.konst(a.w, !c);
        }
        let n = self.node(a.e);
        if n.op == Op::Not {
            return self.val(n.a);
        }
        if n.op == Op::Ite && a.w == 1 {
            let (x, y) = (self.val(n.b), self.val(n.c));
            if x.conc() || y.conc() {
                let x = self.not(x);
                let y = self.not(y);
                let c = self.val(n.a);
                return self.ite(c, x, y);
            }
        }
        let e = self.mk(Op::Not, a.w, a.e, 0, 0);
        V { e, w: a.w, c: 0 }
    }
    pub fn and(&mut self, a: V, b: V) -> V {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: V, b: V) -> V {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: V, b: V) -> V {
        self.bin(Op::Eq, a, b)
    }
    pub fn ite(&mut self, c: V, a: V, b: V) -> V {
        if let Some(k) = self.cval(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let cn = self.node(c.e);
        if cn.op == Op::Not {
            let x = self.val(cn.a);
            return self.ite(x, b, a);
        }
        if a.w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                (None, Some(0)) => return self.and(c, a),
                _ => {}
            }
        }
        // ite(c, a, ite(c, _, d)) -> ite(c, a, d)
        if b.e != 0 {
            let n = self.node(b.e);
            if n.op == Op::Ite && n.a == c.e {
                let d = self.val(n.c);
                return self.ite(c, a, d);
            }
            if n.op == Op::Ite && self.val(n.b) == a {
                // ite(c,a,ite(d,a,x)) -> ite(c|d, a, x)
                let d = self.val(n.a);
                let x = self.val(n.c);
                let cd = self.or(c, d);
                return self.ite(cd, a, x);
            }
        }
        if a.e != 0 {
            let n = self.node(a.e);
            if n.op == Op::Ite && n.a == c.e {
                let d = self.val(n.b);
                return self.ite(c, d, b);
            }
            if n.op == Op::Ite && self.val(n.c) == b {
                // ite(c, ite(d,x,b), b) -> ite(c&d, x, b)
                let d = self.val(n.a);
                let x = self.val(n.b);
                let cd = self.and(c, d);
                return self.ite(cd, x, b);
            }
        }
        let x = self.id(a);
        let y = self.id(b);
        let e = self.mk(Op::Ite, a.w, c.e, x, y);
        V { e, w: a.w, c: 0 }
    }
    /// Number of leaves if `v` is an ite tree with constant leaves.
    fn const_ite(&self, v: V, depth: u32) -> bool {
        if self.cval(v).is_some() {
            return true;
        }
        if depth == 0 {
            return false;
        }
        let n = self.node(v.e);
        n.op == Op::Ite && self.const_ite(self.val(n.b), depth - 1) && self.const_ite(self.val(n.c), depth - 1)
    }
    fn push_ite(&mut self, op: Op, v: V, k: V, left: bool) -> V {
        if self.cval(v).is_some() {
            return if left { self.bin(op, v, k) } else { self.bin(op, k, v) };
        }
        let n = self.node(v.e);
        let (a, b) = (self.val(n.b), self.val(n.c));
        let x = self.push_ite(op, a, k, left);
        let y = self.push_ite(op, b, k, left);
        let c = self.val(n.a);
        self.ite(c, x, y)
    }

    pub fn bin(&mut self, op: Op, mut a: V, mut b: V) -> V {
        debug_assert_eq!(a.w, b.w, "{:?}", op);
        let aw = a.w;
        let w = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => aw,
        };
        if a.e == 0 && b.e == 0 && aw <= 64 {
            // fast concrete path
            let m = mask64(aw);
            let r = match op {
                Op::Add => a.c.wrapping_add(b.c),
                Op::Sub => a.c.wrapping_sub(b.c),
                Op::And => a.c & b.c,
                Op::Or => a.c | b.c,
                Op::Xor => a.c ^ b.c,
                Op::Eq => (a.c == b.c) as u64,
                Op::Ult => (a.c < b.c) as u64,
                _ => Arena::fold(op, w, aw, a.c as u128, b.c as u128) as u64,
            };
            return V { e: 0, w, c: r & m };
        }
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = Arena::fold(op, w, aw, x, y);
            return self.konst(w, r);
        }
        // canonical order: constants right
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a.e > b.e) {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            _ => {}
        }
        let cb = self.cval(b);
        let ca = self.cval(a);
        let m = mask(aw);
        // ite trees with constant leaves
        if cb.is_some() && a.e != 0 && self.node(a.e).op == Op::Ite && self.const_ite(a, 8) {
            return self.push_ite(op, a, b, true);
        }
        if ca.is_some() && b.e != 0 && self.node(b.e).op == Op::Ite && self.const_ite(b, 8) {
            return self.push_ite(op, b, a, false);
        }
        // single-table folding
        if cb.is_some() && a.e != 0 && self.node(a.e).op == Op::Tab && aw <= 64 {
            let n = self.node(a.e);
            let k = cb.unwrap();
            let t: Vec<u64> = self.tables[n.b as usize]
                .iter()
                .map(|x| Arena::fold(op, w, aw, *x as u128, k) as u64)
                .collect();
            let var = self.nodes[n.a as usize].a;
            return self.tab(w, var, t);
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let n = self.node(a.e);
                    if n.op == Op::Add {
                        if let Some(k2) = self.cval(self.val(n.b)) {
                            let x = self.val(n.a);
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, x, kk);
                        }
                    }
                }
                if let Some(r) = self.or_segs(a, b) {
                    return r;
                }
                // (x + k) + y -> (x + y) + k
                if a.e != 0 {
                    let n = self.node(a.e);
                    if n.op == Op::Add && cb.is_none() {
                        let k = self.val(n.b);
                        if self.cval(k).is_some() {
                            let x = self.val(n.a);
                            let s = self.bin(Op::Add, x, b);
                            return self.bin(Op::Add, s, k);
                        }
                    }
                }
                if b.e != 0 {
                    let n = self.node(b.e);
                    if n.op == Op::Add {
                        let k = self.val(n.b);
                        if self.cval(k).is_some() {
                            let x = self.val(n.a);
                            let s = self.bin(Op::Add, a, x);
                            return self.bin(Op::Add, s, k);
                        }
                    }
                    if n.op == Op::Sub && self.val(n.b) == a {
                        return self.val(n.a);
                    }
                }
                if a.e != 0 {
                    let n = self.node(a.e);
                    if n.op == Op::Sub && self.val(n.b) == b {
                        return self.val(n.a);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    let nk = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, nk);
                }
                // (x + k) - y, x - (y + k)
                if a.e != 0 {
                    let n = self.node(a.e);
                    if n.op == Op::Add {
                        let (x, y) = (self.val(n.a), self.val(n.b));
                        if x == b {
                            return y;
                        }
                        if y == b {
                            return x;
                        }
                        if self.cval(y).is_some() {
                            let s = self.bin(Op::Sub, x, b);
                            return self.bin(Op::Add, s, y);
                        }
                    }
                }
                if b.e != 0 {
                    let n = self.node(b.e);
                    if n.op == Op::Add {
                        let (x, y) = (self.val(n.a), self.val(n.b));
                        if let Some(k) = self.cval(y) {
                            let s = self.bin(Op::Sub, a, x);
                            let nk = self.konst(w, k.wrapping_neg());
                            return self.bin(Op::Add, s, nk);
                        }
                        if x == a {
                            let z = self.konst(w, 0);
                            return self.bin(Op::Sub, z, y);
                        }
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let hi = self.extract(a, 0, w - k as u16);
                    let lo = self.konst(k as u16, 0);
                    return self.concat(hi, lo);
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let hi = self.extract(a, k as u16, w - k as u16);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k < w as u128 {
                        let hi = self.extract(a, k as u16, w - k as u16);
                        return self.sext(hi, w);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if w == 1 {
                    if self.is_neg(a, b) {
                        return V::b(false);
                    }
                    // a & (a & x)
                    if self.in_chain(Op::And, b, a, 4) {
                        return b;
                    }
                    if self.in_chain(Op::And, a, b, 4) {
                        return a;
                    }
                    // absorption a & (a | x)
                    if self.in_chain(Op::Or, b, a, 4) {
                        return a;
                    }
                    if self.in_chain(Op::Or, a, b, 4) {
                        return b;
                    }
                } else if let Some(k) = cb {
                    // contiguous mask
                    let lo = k.trailing_zeros() as u16;
                    let top = 128 - k.leading_zeros() as u16;
                    if k == (mask(top) & !mask(lo)) {
                        let mid = self.extract(a, lo, top - lo);
                        let x = if lo > 0 {
                            let z = self.konst(lo, 0);
                            self.concat(mid, z)
                        } else {
                            mid
                        };
                        return self.zext(x, w);
                    }
                    let n = self.node(a.e);
                    if n.op == Op::And {
                        if let Some(k2) = self.cval(self.val(n.b)) {
                            let x = self.val(n.a);
                            let kk = self.konst(w, k & k2);
                            return self.bin(Op::And, x, kk);
                        }
                    }
                    // distribute over concat / zext when it removes something
                    if n.op == Op::Concat {
                        let (h, l) = (self.val(n.a), self.val(n.b));
                        let kh = self.konst(h.w, k >> l.w);
                        let kl = self.konst(l.w, k);
                        let x = self.bin(Op::And, h, kh);
                        let y = self.bin(Op::And, l, kl);
                        return self.concat(x, y);
                    }
                    if n.op == Op::ZExt {
                        let x = self.val(n.a);
                        let kk = self.konst(x.w, k);
                        let y = self.bin(Op::And, x, kk);
                        return self.zext(y, w);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if self.is_neg(a, b) {
                        return V::b(true);
                    }
                    if self.in_chain(Op::Or, b, a, 4) {
                        return b;
                    }
                    if self.in_chain(Op::Or, a, b, 4) {
                        return a;
                    }
                    if self.in_chain(Op::And, b, a, 4) {
                        return a;
                    }
                    if self.in_chain(Op::And, a, b, 4) {
                        return b;
                    }
                    if let Some(r) = self.factor_or(a, b) {
                        return r;
                    }
                } else if let Some(r) = self.or_segs(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return self.not(a);
                }
                if w > 1 {
                    if let Some(r) = self.or_segs(a, b) {
                        return r;
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return V::b(true);
                }
                if aw == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                    if self.is_neg(a, b) {
                        return V::b(false);
                    }
                }
                if let Some(k) = cb {
                    let n = self.node(a.e);
                    match n.op {
                        Op::ZExt => {
                            let x = self.val(n.a);
                            if k > mask(x.w) {
                                return V::b(false);
                            }
                            let kk = self.konst(x.w, k);
                            return self.bin(Op::Eq, x, kk);
                        }
                        Op::SExt => {
                            let x = self.val(n.a);
                            let kk = self.konst(x.w, k);
                            let back = self.sext(kk, aw);
                            if self.cval(back) != Some(k) {
                                return V::b(false);
                            }
                            return self.bin(Op::Eq, x, kk);
                        }
                        Op::Concat => {
                            let (h, l) = (self.val(n.a), self.val(n.b));
                            let kh = self.konst(h.w, k >> l.w);
                            let kl = self.konst(l.w, k);
                            let x = self.bin(Op::Eq, h, kh);
                            let y = self.bin(Op::Eq, l, kl);
                            return self.and(x, y);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cval(self.val(n.b)) {
                                let x = self.val(n.a);
                                let kk = self.konst(aw, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, x, kk);
                            }
                        }
                        Op::Xor => {
                            if let Some(k2) = self.cval(self.val(n.b)) {
                                let x = self.val(n.a);
                                let kk = self.konst(aw, k ^ k2);
                                return self.bin(Op::Eq, x, kk);
                            }
                            if k == 0 {
                                let (x, y) = (self.val(n.a), self.val(n.b));
                                return self.bin(Op::Eq, x, y);
                            }
                        }
                        Op::Not => {
                            let x = self.val(n.a);
                            let kk = self.konst(aw, !k);
                            return self.bin(Op::Eq, x, kk);
                        }
                        Op::Or if k == 0 => {
                            let (x, y) = (self.val(n.a), self.val(n.b));
                            let z = self.konst(aw, 0);
                            let p = self.bin(Op::Eq, x, z);
                            let q = self.bin(Op::Eq, y, z);
                            return self.and(p, q);
                        }
                        Op::Ite => {
                            let (x, y) = (self.val(n.b), self.val(n.c));
                            if self.cval(x).is_some() || self.cval(y).is_some() {
                                let p = self.bin(Op::Eq, x, b);
                                let q = self.bin(Op::Eq, y, b);
                                let c = self.val(n.a);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                    if self.umax(a, 6) < k {
                        return V::b(false);
                    }
                } else {
                    let (x, y) = (self.node(a.e), self.node(b.e));
                    if x.op == Op::ZExt && y.op == Op::ZExt {
                        let (p, q) = (self.val(x.a), self.val(y.a));
                        if p.w == q.w {
                            return self.bin(Op::Eq, p, q);
                        }
                    }
                    if x.op == Op::Concat && y.op == Op::Concat {
                        let (p, q) = (self.val(x.b), self.val(y.b));
                        if p.w == q.w {
                            let (ph, qh) = (self.val(x.a), self.val(y.a));
                            let l = self.bin(Op::Eq, p, q);
                            let h = self.bin(Op::Eq, ph, qh);
                            return self.and(h, l);
                        }
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return V::b(false);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return V::b(false);
                    }
                    if k == 1 {
                        let z = self.konst(aw, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                    if self.umax(a, 6) < k {
                        return V::b(true);
                    }
                    let n = self.node(a.e);
                    if n.op == Op::ZExt {
                        let x = self.val(n.a);
                        if k > mask(x.w) {
                            return V::b(true);
                        }
                        let kk = self.konst(x.w, k);
                        return self.bin(Op::Ult, x, kk);
                    }
                    if n.op == Op::Concat {
                        let (h, l) = (self.val(n.a), self.val(n.b));
                        // concat(h, l) < k with k's low part zero: h < k >> lw
                        if k & mask(l.w) == 0 {
                            let kh = self.konst(h.w, k >> l.w);
                            return self.bin(Op::Ult, h, kh);
                        }
                    }
                    if k == m {
                        let e = self.bin(Op::Eq, a, b);
                        return self.not(e);
                    }
                }
                if let Some(k) = ca {
                    if k == m {
                        return V::b(false);
                    }
                    if k == 0 {
                        let z = self.konst(aw, 0);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not(e);
                    }
                    if self.umax(b, 6) <= k {
                        return V::b(false);
                    }
                    let n = self.node(b.e);
                    if n.op == Op::ZExt {
                        let x = self.val(n.a);
                        let kk = self.konst(x.w, k);
                        return self.bin(Op::Ult, kk, x);
                    }
                    // k < b  <=>  !(b < k+1)
                    let kk = self.konst(aw, k + 1);
                    let l = self.bin(Op::Ult, b, kk);
                    return self.not(l);
                }
                if let (Some(_), Some(_)) = (self.zx(a), self.zx(b)) {
                    let (p, q) = (self.zx(a).unwrap(), self.zx(b).unwrap());
                    if p.w == q.w {
                        return self.bin(Op::Ult, p, q);
                    }
                }
            }
            Op::Slt => {
                if a == b {
                    return V::b(false);
                }
                // both non-negative: unsigned
                let h = mask(aw - 1);
                if self.umax(a, 6) <= h && self.umax(b, 6) <= h {
                    return self.bin(Op::Ult, a, b);
                }
                if cb == Some(0) {
                    // sign bit
                    return self.extract(a, aw - 1, 1);
                }
                if ca == Some(m) {
                    let s = self.extract(b, aw - 1, 1);
                    return self.not(s);
                }
                if a.e != 0 && b.e != 0 {
                    let (x, y) = (self.node(a.e), self.node(b.e));
                    if x.op == Op::SExt && y.op == Op::SExt {
                        let (p, q) = (self.val(x.a), self.val(y.a));
                        if p.w == q.w {
                            return self.bin(Op::Slt, p, q);
                        }
                    }
                }
            }
            _ => {}
        }
        self.mkv(op, w, a, b)
    }
    fn zx(&self, a: V) -> Option<V> {
        if a.e == 0 {
            return None;
        }
        let n = self.node(a.e);
        if n.op == Op::ZExt {
            Some(self.val(n.a))
        } else {
            None
        }
    }
    fn is_neg(&self, a: V, b: V) -> bool {
        (a.e != 0 && b.e != 0)
            && ((self.node(a.e).op == Op::Not && self.node(a.e).a == b.e)
                || (self.node(b.e).op == Op::Not && self.node(b.e).a == a.e))
    }
    fn in_chain(&self, op: Op, chain: V, x: V, depth: u32) -> bool {
        if chain.e == 0 || depth == 0 {
            return false;
        }
        let n = self.node(chain.e);
        n.op == op
            && (n.a == x.e
                || n.b == x.e
                || self.in_chain(op, self.val(n.a), x, depth - 1)
                || self.in_chain(op, self.val(n.b), x, depth - 1))
    }
    pub fn conj(&self, v: V, out: &mut Vec<V>) {
        if v.e != 0 {
            let n = self.node(v.e);
            if n.op == Op::And && n.w == 1 {
                self.conj(self.val(n.a), out);
                self.conj(self.val(n.b), out);
                return;
            }
            if n.op == Op::Not {
                let m = self.node(n.a);
                if m.op == Op::Or {
                    // not(or a b): handled by the caller through nots
                }
            }
        }
        out.push(v);
    }
    /// (p & x) | (p & y) -> p & (x | y); (p & x) | !x -> p | !x ...
    fn factor_or(&mut self, a: V, b: V) -> Option<V> {
        let is_and = |ar: &Arena, v: V| v.e != 0 && ar.node(v.e).op == Op::And;
        let (aa, ba) = (is_and(self, a), is_and(self, b));
        if !aa && !ba {
            return None;
        }
        let (mut x, mut y) = (Vec::new(), Vec::new());
        self.conj(a, &mut x);
        self.conj(b, &mut y);
        if x.len() > 24 || y.len() > 24 {
            return None;
        }
        let common: Vec<V> = x.iter().filter(|v| y.contains(v)).cloned().collect();
        if !common.is_empty() {
            let rx: Vec<V> = x.into_iter().filter(|v| !common.contains(v)).collect();
            let ry: Vec<V> = y.into_iter().filter(|v| !common.contains(v)).collect();
            let mut p = V::b(true);
            for v in rx {
                p = self.and(p, v);
            }
            let mut q = V::b(true);
            for v in ry {
                q = self.and(q, v);
            }
            let mut r = self.or(p, q);
            for v in common {
                r = self.and(r, v);
            }
            return Some(r);
        }
        // x & !q... | q  ->  drop !q from the conjunction
        if !aa || !ba {
            let (single, conj) = if aa { (b, x) } else { (a, y) };
            let mut hit = false;
            let mut r = V::b(true);
            for v in &conj {
                if self.is_neg(*v, single) {
                    hit = true;
                } else {
                    r = self.and(r, *v);
                }
            }
            if hit {
                return Some(self.or(r, single));
            }
        }
        None
    }

    pub fn show(&self, e: u32, depth: u32) -> String {
        let n = self.node(e);
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Const => format!("{:#x}", self.consts[n.a as usize]),
            Op::Var => format!("v{}", n.a),
            Op::Tab => format!("tab{}[{}]", n.b, self.show(n.a, depth - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt | Op::SExt | Op::Not | Op::Ctlz | Op::Cttz | Op::Ctpop => {
                format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1))
            }
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
