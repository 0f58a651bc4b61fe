//! Decisions by libz3 (C API).

use crate::expr::*;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, r: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

/// The theory of the queries: with floating point only where the code computes with it.
fn logic() -> &'static str {
    if crate::ir::FLOATS.load(std::sync::atomic::Ordering::Relaxed) {
        "QF_BVFP"
    } else {
        "QF_BV"
    }
}

pub struct Z3 {
    c: P,
    s: P,
    ast: Vec<P>,
    bools: Vec<P>,
    masks: Map<(u32, Mask), P>,
    sorts: Map<u16, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<String>,
    pub dumped: u64,
    pub class_queries: u64,
    params: P,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            let l = CString::new(logic()).unwrap();
            let sym = Z3_mk_string_symbol(c, l.as_ptr());
            let s = Z3_mk_solver_for_logic(c, sym);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 {
                c,
                s,
                ast: Vec::new(),
                bools: Vec::new(),
                masks: Map::default(),
                sorts: Map::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
                dumped: 0,
                class_queries: 0,
                params: p,
            }
        }
    }
    pub fn version() -> String {
        unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() }
    }
    fn sort(&mut self, w: u16) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }
    fn num(&mut self, w: u16, v: u128) -> P {
        let s = self.sort(w);
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn var(&mut self, i: u32) -> P {
        let s = self.sort(8);
        unsafe { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, i as c_int), s) }
    }
    /// Boolean-sorted translation of a 1-bit node.
    fn boolean(&mut self, ar: &Arena, e: u32) -> P {
        if self.bools.len() <= e as usize {
            self.bools.resize(ar.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.bools[e as usize].is_null() {
            return self.bools[e as usize];
        }
        let n = ar.node(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Not => {
                    let a = self.boolean(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And => {
                    let a = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    Z3_mk_and(c, 2, a.as_ptr())
                }
                Op::Or => {
                    let a = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    Z3_mk_or(c, 2, a.as_ptr())
                }
                Op::Eq => {
                    if ar.node(n.a).w == 1 {
                        let a = self.boolean(ar, n.a);
                        let b = self.boolean(ar, n.b);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.bv(ar, n.a);
                        let b = self.bv(ar, n.b);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Ite => {
                    let a = self.boolean(ar, n.a);
                    let b = self.boolean(ar, n.b);
                    let d = self.boolean(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Const => {
                    if ar.ccval(e) == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_not(c, Z3_mk_true(c))
                    }
                }
                _ => {
                    let a = self.bv(ar, e);
                    let o = self.num(1, 1);
                    Z3_mk_eq(c, a, o)
                }
            }
        };
        self.bools[e as usize] = r;
        r
    }
    fn bv(&mut self, ar: &Arena, e: u32) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(ar.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let n = ar.node(e);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.w, ar.ccval(e)),
                Op::Var => self.var(n.a),
                Op::Tab => {
                    let t = ar.tables[n.b as usize].clone();
                    let v = self.bv(ar, n.a);
                    self.tab_ite(&t, n.w, v)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::Concat => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::ZExt => {
                    let aw = ar.node(n.a).w;
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - aw) as u32, a)
                }
                Op::SExt => {
                    let aw = ar.node(n.a).w;
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - aw) as u32, a)
                }
                Op::Not if n.w > 1 => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let a = self.boolean(ar, n.a);
                    let b = self.bv(ar, n.b);
                    let d = self.bv(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq | Op::Ult | Op::Slt | Op::Not => {
                    let b = self.boolean(ar, e);
                    let (x, y) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, b, x, y)
                }
                Op::And | Op::Or if n.w == 1 => {
                    let b = self.boolean(ar, e);
                    let (x, y) = (self.num(1, 1), self.num(1, 0));
                    Z3_mk_ite(c, b, x, y)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FToF | Op::SToF | Op::UToF => {
                    let a = self.bv(ar, n.a);
                    let aw = ar.node(n.a).w;
                    let fs = |w: u16| if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                    let rm = Z3_mk_fpa_rne(c);
                    let s = fs(n.w);
                    let f = match n.op {
                        Op::FToF => Z3_mk_fpa_to_fp_float(c, rm, Z3_mk_fpa_to_fp_bv(c, a, fs(aw)), s),
                        Op::SToF => Z3_mk_fpa_to_fp_signed(c, rm, a, s),
                        Op::UToF => Z3_mk_fpa_to_fp_unsigned(c, rm, a, s),
                        _ => {
                            let b = self.bv(ar, n.b);
                            let (x, y) = (Z3_mk_fpa_to_fp_bv(c, a, s), Z3_mk_fpa_to_fp_bv(c, b, s));
                            match n.op {
                                Op::FAdd => Z3_mk_fpa_add(c, rm, x, y),
                                Op::FSub => Z3_mk_fpa_sub(c, rm, x, y),
                                Op::FMul => Z3_mk_fpa_mul(c, rm, x, y),
                                _ => Z3_mk_fpa_div(c, rm, x, y),
                            }
                        }
                    };
                    let nan = self.num(n.w, if n.w == 32 { NAN32 as u128 } else { NAN64 as u128 });
                    Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), nan, Z3_mk_fpa_to_ieee_bv(c, f))
                }
                Op::Ctlz | Op::Cttz => {
                    let a = self.bv(ar, n.a);
                    let w = n.w;
                    let mut r = self.num(w, w as u128);
                    let one = self.num(1, 1);
                    for k in 0..w {
                        // the deciding bit examined last wins: order so the winner is outermost
                        let bit = if n.op == Op::Ctlz { k } else { w - 1 - k };
                        let x = Z3_mk_extract(c, bit as u32, bit as u32, a);
                        let cnd = Z3_mk_eq(c, x, one);
                        let cnt = if n.op == Op::Ctlz { w - 1 - bit } else { bit };
                        let v = self.num(w, cnt as u128);
                        r = Z3_mk_ite(c, cnd, v, r);
                    }
                    r
                }
                Op::Ctpop => {
                    let a = self.bv(ar, n.a);
                    let w = n.w;
                    let mut r = self.num(w, 0);
                    for k in 0..w {
                        let x = Z3_mk_extract(c, k as u32, k as u32, a);
                        let x = if w > 1 { Z3_mk_zero_ext(c, (w - 1) as u32, x) } else { x };
                        r = Z3_mk_bvadd(c, r, x);
                    }
                    r
                }
                _ => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        if self.ast.len() <= e as usize {
            self.ast.resize(ar.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        self.ast[e as usize] = r;
        r
    }
    fn tab_ite(&mut self, t: &[u64], w: u16, v: P) -> P {
        let c = self.c;
        // runs in ascending order
        let mut runs: Vec<(usize, u64)> = Vec::new(); // (last index, value)
        for i in 0..256 {
            match runs.last_mut() {
                Some(r) if r.1 == t[i] => r.0 = i,
                _ => runs.push((i, t[i])),
            }
        }
        let mut r = self.num(w, runs.last().unwrap().1 as u128);
        for (last, val) in runs.iter().rev().skip(1) {
            let lim = self.num(8, *last as u128);
            let x = self.num(w, *val as u128);
            r = unsafe { Z3_mk_ite(c, Z3_mk_bvule(c, v, lim), x, r) };
        }
        r
    }
    /// The constraint "variable v lies in the set".
    fn member(&mut self, v: u32, m: &Mask) -> P {
        if let Some(p) = self.masks.get(&(v, *m)) {
            return *p;
        }
        let c = self.c;
        let x = self.var(v);
        let mut parts = Vec::new();
        let mut i = 0;
        while i < 256 {
            if mget(m, i) {
                let mut j = i;
                while j + 1 < 256 && mget(m, j + 1) {
                    j += 1;
                }
                unsafe {
                    let p = if i == j {
                        let k = self.num(8, i as u128);
                        Z3_mk_eq(c, x, k)
                    } else {
                        let mut ps = Vec::new();
                        if i > 0 {
                            let k = self.num(8, i as u128);
                            ps.push(Z3_mk_bvule(c, k, x));
                        }
                        if j < 255 {
                            let k = self.num(8, j as u128);
                            ps.push(Z3_mk_bvule(c, x, k));
                        }
                        match ps.len() {
                            0 => Z3_mk_true(c),
                            1 => ps[0],
                            _ => Z3_mk_and(c, 2, ps.as_ptr()),
                        }
                    };
                    parts.push(p);
                }
                i = j + 1;
            } else {
                i += 1;
            }
        }
        let r = unsafe {
            match parts.len() {
                0 => Z3_mk_not(c, Z3_mk_true(c)),
                1 => parts[0],
                n => Z3_mk_or(c, n as c_uint, parts.as_ptr()),
            }
        };
        self.masks.insert((v, *m), r);
        r
    }

    /// Satisfiability of the conjunction; on Sat, values of `vars`.
    pub fn check(
        &mut self,
        ar: &Arena,
        cons: &[u32],
        doms: &[(u16, Mask)],
        vars: &[u16],
    ) -> (Res, Vec<(u16, u8)>) {
        let t0 = Instant::now();
        self.queries += 1;
        unsafe {
            Z3_solver_push(self.c, self.s);
            for e in cons {
                let a = self.boolean(ar, *e);
                Z3_solver_assert(self.c, self.s, a);
            }
            for (v, m) in doms {
                let a = self.member(*v as u32, m);
                Z3_solver_assert(self.c, self.s, a);
            }
            if let Some(d) = &self.dump {
                let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy();
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), format!("{}\n(check-sat)\n", s));
                self.dumped += 1;
            }
            let r = Z3_solver_check(self.c, self.s);
            let mut out = Vec::new();
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    for v in vars {
                        let x = self.var(*v as u32);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, x, true, &mut o) {
                            let mut n = 0u64;
                            if Z3_get_numeral_uint64(self.c, o, &mut n) {
                                out.push((*v, n as u8));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_pop(self.c, self.s, 1);
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            (res, out)
        }
    }

    /// Like `check`, with the bytes that only occur in predicates over that one byte replaced by a
    /// choice between the classes of bytes those predicates distinguish.  The third result lists
    /// the predicates so used.
    pub fn check_classes(
        &mut self,
        ar: &mut Arena,
        cons: &[u32],
        doms: &[(u16, Mask)],
        vars: &[u16],
    ) -> (Res, Vec<(u16, u8)>, Vec<u32>) {
        let t0 = Instant::now();
        self.queries += 1;
        self.class_queries += 1;
        let mut cl = Classes::default();
        for e in cons {
            cl.collect(ar, *e);
        }
        let leaves: Vec<u32> = cl.leaves.clone();
        let mut masks: Map<u16, Vec<Mask>> = Map::default();
        for e in &leaves {
            let v = ar.support(*e)[0];
            if !cl.raw.contains(&v) {
                let m = ar.truth(*e);
                let l = masks.entry(v).or_default();
                if !l.contains(&m) {
                    l.push(m);
                }
            }
        }
        let dmap: Map<u16, Mask> = doms.iter().cloned().collect();
        let c = self.c;
        unsafe {
            let l = CString::new("QF_FD").unwrap();
            let solver = if cl.raw.is_empty() {
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            } else {
                let l = CString::new(logic()).unwrap();
                Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
            };
            Z3_solver_inc_ref(c, solver);
            Z3_solver_set_params(c, solver, self.params);
            // classes
            let bs = Z3_mk_bool_sort(c);
            for (v, ms) in &masks {
                let d = dmap.get(v).cloned().unwrap_or(FULL);
                let mut parts = vec![d];
                for m in ms {
                    let mut next = Vec::new();
                    for p in parts {
                        let (x, y) = (mand(&p, m), mandn(&p, m));
                        if !mempty(&x) {
                            next.push(x);
                        }
                        if !mempty(&y) {
                            next.push(y);
                        }
                    }
                    parts = next;
                }
                parts.sort();
                let mut nb = 0;
                while (1usize << nb) < parts.len() {
                    nb += 1;
                }
                let bits: Vec<P> = (0..nb)
                    .map(|j| Z3_mk_const(c, Z3_mk_int_symbol(c, 1_000_000 + *v as c_int * 8 + j), bs))
                    .collect();
                let codes: Vec<P> = (0..1usize << nb)
                    .map(|k| {
                        let x: Vec<P> = bits
                            .iter()
                            .enumerate()
                            .map(|(j, b)| if k >> j & 1 == 1 { *b } else { Z3_mk_not(c, *b) })
                            .collect();
                        match x.len() {
                            0 => Z3_mk_true(c),
                            1 => x[0],
                            n => Z3_mk_and(c, n as c_uint, x.as_ptr()),
                        }
                    })
                    .collect();
                for k in parts.len()..codes.len() {
                    Z3_solver_assert(c, solver, Z3_mk_not(c, codes[k]));
                }
                cl.codes.insert(*v, (parts, bits, codes));
            }
            for e in cons {
                let a = self.cbool(ar, &mut cl, *e);
                Z3_solver_assert(c, solver, a);
            }
            let mut empty = false;
            for (v, m) in doms {
                if mempty(m) {
                    empty = true;
                }
                if cl.raw.contains(v) {
                    let a = self.member(*v as u32, m);
                    Z3_solver_assert(c, solver, a);
                }
            }
            if let Some(d) = &self.dump {
                let s = CStr::from_ptr(Z3_solver_to_string(c, solver)).to_string_lossy();
                let _ = std::fs::write(format!("{}/q{}.smt2", d, self.queries), format!("{}\n(check-sat)\n", s));
                self.dumped += 1;
            }
            let r = if empty { -1 } else { Z3_solver_check(c, solver) };
            let mut out = Vec::new();
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(c, solver);
                    Z3_model_inc_ref(c, m);
                    for v in vars {
                        if let Some((parts, bits, _)) = cl.codes.get(v) {
                            let mut k = 0;
                            for (j, b) in bits.iter().enumerate() {
                                let mut o: P = std::ptr::null_mut();
                                if Z3_model_eval(c, m, *b, true, &mut o) && Z3_get_bool_value(c, o) == 1 {
                                    k |= 1 << j;
                                }
                            }
                            out.push((*v, mfirst(&parts[k]).unwrap()));
                        } else if cl.raw.contains(v) {
                            let x = self.var(*v as u32);
                            let mut o: P = std::ptr::null_mut();
                            if Z3_model_eval(c, m, x, true, &mut o) {
                                let mut n = 0u64;
                                if Z3_get_numeral_uint64(c, o, &mut n) {
                                    out.push((*v, n as u8));
                                }
                            }
                        } else {
                            let d = dmap.get(v).cloned().unwrap_or(FULL);
                            out.push((*v, mfirst(&d).unwrap()));
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            Z3_solver_dec_ref(c, solver);
            let dt = t0.elapsed().as_secs_f64();
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            (res, out, leaves)
        }
    }

    fn cbool(&mut self, ar: &mut Arena, cl: &mut Classes, e: u32) -> P {
        if let Some(p) = cl.memo.get(&e) {
            return *p;
        }
        let c = self.c;
        let n = ar.node(e);
        let r = unsafe {
            if cl.is_leaf(ar, e) {
                let v = ar.support(e)[0];
                if cl.raw.contains(&v) {
                    self.boolean(ar, e)
                } else {
                    let m = ar.truth(e);
                    let (parts, _, codes) = &cl.codes[&v];
                    let x: Vec<P> =
                        parts.iter().enumerate().filter(|p| !mempty(&mand(p.1, &m))).map(|p| codes[p.0]).collect();
                    match x.len() {
                        0 => Z3_mk_not(c, Z3_mk_true(c)),
                        1 => x[0],
                        n => Z3_mk_or(c, n as c_uint, x.as_ptr()),
                    }
                }
            } else {
                match cl.shape(ar, e) {
                    Shape::Not => Z3_mk_not(c, self.cbool(ar, cl, n.a)),
                    Shape::And => {
                        let a = [self.cbool(ar, cl, n.a), self.cbool(ar, cl, n.b)];
                        Z3_mk_and(c, 2, a.as_ptr())
                    }
                    Shape::Or => {
                        let a = [self.cbool(ar, cl, n.a), self.cbool(ar, cl, n.b)];
                        Z3_mk_or(c, 2, a.as_ptr())
                    }
                    Shape::Eq => {
                        let a = self.cbool(ar, cl, n.a);
                        let b = self.cbool(ar, cl, n.b);
                        Z3_mk_eq(c, a, b)
                    }
                    Shape::Ite => {
                        let a = self.cbool(ar, cl, n.a);
                        let b = self.cbool(ar, cl, n.b);
                        let d = self.cbool(ar, cl, n.c);
                        Z3_mk_ite(c, a, b, d)
                    }
                    Shape::Atom => self.boolean(ar, e),
                }
            }
        };
        cl.memo.insert(e, r);
        r
    }
}

enum Shape {
    Not,
    And,
    Or,
    Eq,
    Ite,
    Atom,
}

#[derive(Default)]
struct Classes {
    seen: Map<u32, ()>,
    leaves: Vec<u32>,
    raw: std::collections::BTreeSet<u16>,
    codes: Map<u16, (Vec<Mask>, Vec<P>, Vec<P>)>,
    memo: Map<u32, P>,
}

impl Classes {
    fn is_leaf(&self, ar: &Arena, e: u32) -> bool {
        ar.node(e).w == 1 && ar.support(e).len() == 1
    }
    fn shape(&self, ar: &Arena, e: u32) -> Shape {
        let n = ar.node(e);
        match n.op {
            Op::Not => Shape::Not,
            Op::And => Shape::And,
            Op::Or => Shape::Or,
            Op::Ite => Shape::Ite,
            Op::Eq if ar.node(n.a).w == 1 => Shape::Eq,
            _ => Shape::Atom,
        }
    }
    fn collect(&mut self, ar: &Arena, e: u32) {
        if self.seen.insert(e, ()).is_some() {
            return;
        }
        if self.is_leaf(ar, e) {
            self.leaves.push(e);
            return;
        }
        let n = ar.node(e);
        match self.shape(ar, e) {
            Shape::Not => self.collect(ar, n.a),
            Shape::And | Shape::Or | Shape::Eq => {
                self.collect(ar, n.a);
                self.collect(ar, n.b);
            }
            Shape::Ite => {
                self.collect(ar, n.a);
                self.collect(ar, n.b);
                self.collect(ar, n.c);
            }
            Shape::Atom => {
                for v in ar.support(e).iter() {
                    self.raw.insert(*v);
                }
            }
        }
    }
}
