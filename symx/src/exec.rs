//! Symbolic execution of the parsed IR.

use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::rc::Rc;
use std::time::Instant;

pub const STACK_ID: u32 = 1 << 30;
const PAGE: usize = 32;
const MAX_ALLOC: u64 = 1 << 28;
const SOFT_ALLOC: u64 = 1 << 16;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // empty, or one node per byte (0 = concrete)
    pub ro: bool,
    /// only the beginning of an allocation that is very big or of unknown size
    pub soft: bool,
}

/// An access outside the object.
fn outside(o: &Obj, text: String) -> Stop {
    if o.soft {
        Stop::Fail(format!("{} (of an allocation of unknown size)", text))
    } else {
        Stop::Bug(text)
    }
}

type Page = [Option<Rc<Obj>>; PAGE];

#[derive(Clone)]
pub struct Mem {
    pages: Vec<Rc<Page>>,
    pub next: u32, // next heap id
    stack: Vec<Rc<Obj>>,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub block: u32,
    pub ip: u32,
    pub regs: Rc<Vec<V>>,
    pub stack_base: u32,
    pub ret_dst: u32,
    pub ret_n: u32,
    pub normal: Option<u32>,
    pub iters: Vec<(u32, u32)>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Rc<Vec<u32>>,
    pub dom: Rc<Vec<Mask>>,
    pub fixed: Rc<Vec<bool>>,
    pub entangled: Rc<Vec<bool>>,
    pub model: Rc<(u64, Vec<u8>)>,
    pub conc: Rc<Vec<(u32, u64)>>,
    pub nvars: u32,
    pub picks: Rc<Vec<u32>>,
    pub obs: Rc<Vec<V>>,
    /// Bytes requested from the allocator so far.
    pub mem_used: V,
    pub reached: Rc<Vec<u32>>,
    pub depth: u32,
    pub steps: u64,
    /// Steps at which the current work limit is exceeded, and the assertion that then fails.
    pub work_end: u64,
    pub work_n: u64,
    pub work_id: u32,
    pub cur_dbg: u32,
    /// The model has not been confirmed against the constraints (merge mode).
    pub lazy: bool,
    /// Last symbolic input byte read: the progress of a scanning loop (orders merge mode).
    pub last: u32,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub at: String,
    pub input: Vec<u8>,
    pub picks: Vec<u32>,
    /// The work limit at that point, for kind "work".
    pub work: u64,
}

#[derive(Debug, Clone)]
pub struct Sample {
    pub input: Vec<u8>,
    pub picks: Vec<u32>,
    pub obs: Vec<u64>,
    pub reached: Vec<u32>,
}

pub enum Stop {
    /// The path ended (return from the harness, assume failed...).
    End,
    /// A defect of the program under test.
    Bug(String),
    /// The engine cannot continue: the run is incomplete.
    Fail(String),
}

enum Flow {
    Go,
    /// Reached a possible merge point.
    Join,
    End,
}

pub struct Limits {
    pub time: f64,
    pub steps: u64,
    pub path_steps: u64,
    pub max_fork_values: usize,
    pub max_violations: usize,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub work_used: u128,
    pub paths: u64,
    pub pruned_assume: u64,
    pub forks: u64,
    pub instrs: u64,
    pub merges: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub checks_solver: u64,
    pub branch_const: u64,
    pub branch_dom: u64,
    pub branch_solver: u64,
    pub cache_hits: u64,
    pub concretized: u64,
    pub truth_audited: u64,
}

type Live = Rc<Vec<u64>>;

pub struct Exec {
    pub m: Module,
    pub ar: Arena,
    pub z3: Z3,
    pub params: Vec<String>,
    globals: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub queue: BTreeMap<Vec<u32>, Vec<State>>,
    pub merge: bool,
    pub use_dom: bool,
    pub audit: bool,
    audited: BTreeSet<(u32, Mask)>,
    bfs: bool,
    pub mute: bool,
    pub stats: Stats,
    pub limits: Limits,
    pub violations: Vec<Violation>,
    pub vio_keys: BTreeSet<String>,
    pub failures: BTreeMap<String, u64>,
    pub reach: BTreeMap<u32, u64>,
    pub check_ids: BTreeMap<u32, u64>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub rng: u64,
    pub funcs_used: BTreeSet<u32>,
    pub dbg_used: Vec<bool>,
    cache: Map<Vec<u64>, (Res, Vec<(u16, u8)>)>,
    next_model: u64,
    start: Instant,
    nsyms: u32,
    panic_fns: HashMap<u32, String>,
    live: HashMap<(u32, u32, u32), Live>,
    live_in: HashMap<u32, Rc<Vec<Vec<u64>>>>,
    pub trace: bool,
    pub fork_sites: HashMap<u32, u64>,
}

type R<T> = Result<T, Stop>;

impl Exec {
    pub fn new(m: Module, params: Vec<String>, limits: Limits, z3_timeout: u32) -> Exec {
        let n = m.syms.len();
        let mut panic_fns = HashMap::new();
        for (i, s) in m.syms.iter().enumerate() {
            let id = i as u32 + 1;
            let nm = &s.name;
            let is_panic = (nm.contains("4core9panicking")
                || nm.contains("rust_begin_unwind")
                || nm.contains("begin_panic")
                || nm.contains("rust_panic")
                || nm.contains("9panicking15begin_panic")
                || nm.contains("9panicking13panic_handler")
                || nm.contains("_Unwind_RaiseException")
                || nm.contains("_Unwind_Resume")
                || nm.contains("18handle_alloc_error")
                || nm.contains("5alloc7raw_vec12handle_error")
                || nm.contains("5alloc7raw_vec17capacity_overflow"))
                && !nm.contains("panic_count");
            if is_panic {
                panic_fns.insert(id, demangle(nm));
            }
        }
        Exec {
            m,
            ar: Arena::new(),
            z3: Z3::new(z3_timeout),
            params,
            globals: vec![None; n + 1],
            work: Vec::new(),
            queue: BTreeMap::new(),
            merge: false,
            use_dom: true,
            audit: false,
            audited: BTreeSet::new(),
            bfs: false,
            mute: false,
            stats: Stats::default(),
            limits,
            violations: Vec::new(),
            vio_keys: BTreeSet::new(),
            failures: BTreeMap::new(),
            reach: BTreeMap::new(),
            check_ids: BTreeMap::new(),
            samples: Vec::new(),
            max_samples: 16,
            rng: 0x9E3779B97F4A7C15,
            funcs_used: BTreeSet::new(),
            dbg_used: Vec::new(),
            cache: Map::default(),
            next_model: 1,
            start: Instant::now(),
            nsyms: n as u32,
            panic_fns,
            live: HashMap::new(),
            live_in: HashMap::new(),
            trace: false,
            fork_sites: HashMap::new(),
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let id = self.m.sym(entry);
        let f = self.func_of(id).unwrap_or_else(|| panic!("{} is not a function", entry));
        let regs = vec![V::k(1, 0); f.nslots as usize];
        let next = self.nsyms + 1;
        State {
            frames: vec![Frame {
                f,
                block: 0,
                ip: 0,
                regs: Rc::new(regs),
                stack_base: 0,
                ret_dst: 0,
                ret_n: 0,
                normal: None,
                iters: Vec::new(),
            }],
            mem: Mem { pages: Vec::new(), next, stack: Vec::new() },
            pc: Rc::new(Vec::new()),
            dom: Rc::new(Vec::new()),
            fixed: Rc::new(Vec::new()),
            entangled: Rc::new(Vec::new()),
            model: Rc::new((0, Vec::new())),
            conc: Rc::new(Vec::new()),
            nvars: 0,
            picks: Rc::new(Vec::new()),
            obs: Rc::new(Vec::new()),
            mem_used: V::k(64, 0),
            reached: Rc::new(Vec::new()),
            depth: 0,
            steps: 0,
            work_end: u64::MAX,
            work_n: 0,
            work_id: 0,
            cur_dbg: 0,
            lazy: false,
            last: 0,
        }
    }

    fn func_of(&mut self, id: u32) -> Option<Rc<Func>> {
        match self.m.syms.get(id as usize - 1)?.kind {
            SymKind::Func { idx } => {
                self.funcs_used.insert(idx as u32);
                let f = self.m.func(idx);
                self.ar.reserve(&self.m.wide.borrow());
                Some(f)
            }
            _ => None,
        }
    }

    // ------------------------------------------------------------ driver

    pub fn explore(&mut self, entry: &str, split: Option<(usize, usize)>) {
        self.start = Instant::now();
        let st = self.initial(entry);
        if let Some((k, n)) = split {
            self.bfs = true;
            let mut q: VecDeque<State> = VecDeque::new();
            q.push_back(st);
            self.mute = k != 0;
            let target = 40 * n;
            let mut rounds = 0;
            while !q.is_empty() && q.len() < target && rounds < 20 * target {
                rounds += 1;
                let s = q.pop_front().unwrap();
                self.run(s);
                for s in self.work.drain(..) {
                    q.push_back(s);
                }
                if self.over() {
                    break;
                }
            }
            self.bfs = false;
            self.mute = false;
            let mut i = 0;
            for s in q {
                if i % n == k {
                    self.work.push(s);
                }
                i += 1;
            }
        } else {
            self.push(st);
        }
        if self.merge {
            for s in std::mem::take(&mut self.work) {
                self.push(s);
            }
        }
        loop {
            let s = if self.merge {
                let k = match self.queue.keys().next() {
                    Some(k) => k.clone(),
                    None => break,
                };
                let v = self.queue.get_mut(&k).unwrap();
                let s = v.pop().unwrap();
                if v.is_empty() {
                    self.queue.remove(&k);
                }
                s
            } else {
                match self.work.pop() {
                    Some(s) => s,
                    None => break,
                }
            };
            if self.over() {
                let n = self.work.len() + self.queue.len() + 1;
                self.fail(format!("limit reached with {} states pending", n));
                break;
            }
            if self.violations.len() >= self.limits.max_violations {
                break;
            }
            self.run(s);
        }
    }

    fn over(&self) -> bool {
        self.start.elapsed().as_secs_f64() > self.limits.time || self.stats.instrs > self.limits.steps
    }

    fn fail(&mut self, s: String) {
        *self.failures.entry(s).or_insert(0) += 1;
    }

    fn push(&mut self, s: State) {
        if !self.merge || self.bfs {
            self.work.push(s);
            return;
        }
        let k = key(&s);
        let list = self.queue.remove(&k).unwrap_or_default();
        let mut cur = s;
        let mut rest = Vec::new();
        for o in list {
            match self.try_merge(cur, o) {
                Ok(m) => cur = m,
                Err((a, b)) => {
                    cur = a;
                    rest.push(b);
                }
            }
        }
        rest.push(cur);
        self.queue.insert(k, rest);
    }

    fn run(&mut self, st: State) {
        let mut cur = Some(st);
        let mut n = 0u32;
        while let Some(mut s) = cur.take() {
            n += 1;
            if n & 255 == 0 && self.over() {
                self.push(s);
                return;
            }
            let forks0 = self.stats.forks;
            match self.exec_block(&mut s) {
                Ok(Flow::Go) => {
                    if self.bfs && self.stats.forks != forks0 {
                        self.work.push(s);
                        return;
                    }
                    cur = Some(s)
                }
                Ok(Flow::Join) => {
                    if self.merge && !self.queue.is_empty() {
                        self.push(s);
                        return;
                    }
                    cur = Some(s);
                }
                Ok(Flow::End) => match self.ensure(&mut s) {
                    Ok(true) => self.finish(&s),
                    Ok(false) => {}
                    Err(_) => self.fail("solver: unknown at end of path".into()),
                },
                Err(Stop::End) => {}
                Err(Stop::Bug(k)) => match self.ensure(&mut s) {
                    Ok(true) => self.bug(&s, k, 0, s.model.1.clone()),
                    Ok(false) => {}
                    Err(_) => self.fail(format!("solver: unknown for {}", k)),
                },
                Err(Stop::Fail(k)) => {
                    let at = self.where_(&s);
                    self.fail(format!("{} at {}", k, at));
                }
            }
        }
    }

    fn finish(&mut self, s: &State) {
        if self.mute {
            return;
        }
        self.stats.paths += 1;
        for r in s.reached.iter() {
            *self.reach.entry(*r).or_insert(0) += 1;
        }
        // reservoir sampling of path models
        let n = self.stats.paths;
        let slot = if (self.samples.len() as u64) < self.max_samples as u64 {
            Some(self.samples.len())
        } else {
            let r = self.rand() % n;
            if (r as usize) < self.max_samples {
                Some(r as usize)
            } else {
                None
            }
        };
        if let Some(i) = slot {
            let input = self.input(s, &s.model.1);
            let obs = s.obs.iter().map(|v| self.eval_v(*v, &input) as u64).collect();
            let smp = Sample { input, picks: s.picks.to_vec(), obs, reached: s.reached.to_vec() };
            if i < self.samples.len() {
                self.samples[i] = smp;
            } else {
                self.samples.push(smp);
            }
        }
    }

    fn input(&self, s: &State, model: &[u8]) -> Vec<u8> {
        (0..s.nvars as usize).map(|i| *model.get(i).unwrap_or(&0)).collect()
    }

    fn eval_v(&mut self, v: V, model: &[u8]) -> u128 {
        if v.e == 0 {
            v.c as u128
        } else {
            self.ar.eval(v.e, model, 0)
        }
    }

    pub fn where_(&self, s: &State) -> String {
        let mut out = Vec::new();
        for (file, line, name) in self.m.location(s.cur_dbg).iter().take(6) {
            out.push(format!("{}:{} ({})", file, line, name));
        }
        for fr in s.frames.iter().rev().take(8) {
            out.push(format!("in {}", demangle(&fr.f.name)));
        }
        out.join(" <- ")
    }

    fn bug(&mut self, s: &State, kind: String, id: u32, model: Vec<u8>) {
        let at = self.where_(s);
        let loc = self.m.location(s.cur_dbg).iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(" ");
        let k = format!("{} {} {}", kind, id, loc);
        if self.vio_keys.insert(k) {
            let input = self.input(s, &model);
            self.violations.push(Violation { kind, id, at, input, picks: s.picks.to_vec(), work: s.work_n });
        }
    }

    // ------------------------------------------------------------ constraints

    fn simp(&mut self, st: &State, v: V) -> V {
        if v.e == 0 {
            return v;
        }
        if !st.conc.is_empty() {
            for (e, c) in st.conc.iter() {
                if *e == v.e {
                    return V::k(v.w, *c);
                }
            }
        }
        let sup = self.ar.support(v.e).clone();
        let mut fx = Vec::new();
        for x in sup.iter() {
            if st.fixed[*x as usize] {
                fx.push((*x, mfirst(&st.dom[*x as usize]).unwrap()));
            }
        }
        if fx.is_empty() {
            return v;
        }
        let e = self.ar.subst(v.e, fx);
        self.ar.val(e)
    }

    /// Constraints of `st` connected to `vars`, and all variables involved.
    fn slice(&mut self, st: &State, e: u32) -> (Vec<u32>, Vec<u16>) {
        let mut set = self.ar.sup[e as usize];
        let mut cons: Vec<u32> = Vec::new();
        let mut left: Vec<u32> = st.pc.to_vec();
        loop {
            let cur = self.ar.sets[set as usize].clone();
            let mut changed = false;
            let mut rest = Vec::with_capacity(left.len());
            for c in left {
                let s = self.ar.support(c);
                if intersects(s, &cur) {
                    cons.push(c);
                    let cs = self.ar.sup[c as usize];
                    let n = self.ar.union(set, cs);
                    if n != set {
                        set = n;
                        changed = true;
                    }
                } else {
                    rest.push(c);
                }
            }
            left = rest;
            if !changed {
                break;
            }
        }
        cons.sort();
        (cons, self.ar.sets[set as usize].to_vec())
    }

    /// Is `cond` satisfiable together with the path condition?  Decided by z3.
    fn solve(&mut self, st: &State, cond: V) -> R<Option<Vec<(u16, u8)>>> {
        if let Some(c) = self.ar.cval(cond) {
            return Ok(if c == 1 { Some(Vec::new()) } else { None });
        }
        let (mut cons, vars) = self.slice(st, cond.e);
        cons.push(cond.e);
        let doms: Vec<(u16, Mask)> =
            vars.iter().filter(|v| st.dom[**v as usize] != FULL).map(|v| (*v, st.dom[*v as usize])).collect();
        let mut k: Vec<u64> = Vec::with_capacity(cons.len() + doms.len() * 5);
        for c in &cons {
            k.push(*c as u64);
        }
        for (v, m) in &doms {
            k.push(1 << 40 | *v as u64);
            k.extend_from_slice(m);
        }
        if let Some((r, m)) = self.cache.get(&k) {
            self.stats.cache_hits += 1;
            return match r {
                Res::Sat => Ok(Some(m.clone())),
                Res::Unsat => Ok(None),
                Res::Unknown => Err(Stop::Fail("solver: unknown".into())),
            };
        }
        let (r, m) = self.query(&cons, &doms, &vars);
        if self.cache.len() < 2_000_000 {
            self.cache.insert(k, (r, m.clone()));
        }
        match r {
            Res::Sat => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Fail("solver: unknown".into())),
        }
    }

    fn query(&mut self, cons: &[u32], doms: &[(u16, Mask)], vars: &[u16]) -> (Res, Vec<(u16, u8)>) {
        if !self.merge {
            return self.z3.check(&self.ar, cons, doms, vars);
        }
        let (r, m, leaves) = self.z3.check_classes(&mut self.ar, cons, doms, vars);
        if self.audit {
            for e in leaves {
                self.truth(e);
            }
        }
        (r, m)
    }

    /// Confirm that the state is feasible; its model then satisfies all constraints.
    fn ensure(&mut self, st: &mut State) -> R<bool> {
        if !st.lazy {
            return Ok(true);
        }
        let cons: Vec<u32> = st.pc.to_vec();
        let vars: Vec<u16> = (0..st.nvars as u16).collect();
        let doms: Vec<(u16, Mask)> =
            vars.iter().filter(|v| st.dom[**v as usize] != FULL).map(|v| (*v, st.dom[*v as usize])).collect();
        let (r, m) = self.query(&cons, &doms, &vars);
        match r {
            Res::Sat => {
                self.set_model(st, &m);
                st.lazy = false;
                Ok(true)
            }
            Res::Unsat => Ok(false),
            Res::Unknown => Err(Stop::Fail("solver: unknown".into())),
        }
    }

    fn set_model(&mut self, st: &mut State, vals: &[(u16, u8)]) {
        let mut m = st.model.1.clone();
        if m.len() < st.nvars as usize {
            m.resize(st.nvars as usize, 0);
        }
        for (v, x) in vals {
            m[*v as usize] = *x;
        }
        self.next_model += 1;
        st.model = Rc::new((self.next_model, m));
    }

    fn model_holds(&mut self, st: &State, cond: V) -> bool {
        let m = st.model.clone();
        self.ar.eval(cond.e, &m.1, m.0) == 1
    }

    /// Add a constraint that the current model satisfies.
    fn add(&mut self, st: &mut State, cond: V) {
        if cond.e == 0 {
            return;
        }
        let n = self.ar.node(cond.e);
        if n.op == Op::And && n.w == 1 {
            let (a, b) = (self.ar.val(n.a), self.ar.val(n.b));
            self.add(st, a);
            self.add(st, b);
            return;
        }
        if n.op == Op::Not {
            let m = self.ar.node(n.a);
            if m.op == Op::Or {
                let (a, b) = (self.ar.val(m.a), self.ar.val(m.b));
                let a = self.ar.not(a);
                let b = self.ar.not(b);
                self.add(st, a);
                self.add(st, b);
                return;
            }
        }
        let sup = self.ar.support(cond.e).clone();
        if sup.len() == 1 {
            let v = sup[0] as usize;
            let t = self.truth(cond.e);
            let d = mand(&st.dom[v], &t);
            if d != st.dom[v] {
                Rc::make_mut(&mut st.dom)[v] = d;
                if mcount(&d) == 1 {
                    Rc::make_mut(&mut st.fixed)[v] = true;
                }
            }
        } else {
            if !st.pc.contains(&cond.e) {
                Rc::make_mut(&mut st.pc).push(cond.e);
            }
            let en = Rc::make_mut(&mut st.entangled);
            for v in sup.iter() {
                en[*v as usize] = true;
            }
        }
    }

    /// Truth table of a predicate over one byte; with `audit`, z3 confirms that the table and the
    /// expression agree for every value of the byte.
    fn truth(&mut self, e: u32) -> Mask {
        let t = self.ar.truth(e);
        if self.audit && self.audited.insert((e, t)) {
            let v = self.ar.support(e)[0] as u32;
            let bits: Vec<u64> = (0..256).map(|i| mget(&t, i) as u64).collect();
            let tv = self.ar.tab(1, v, bits);
            let x = self.ar.val(e);
            let q = self.ar.eq(tv, x);
            let q = self.ar.not(q);
            if q.e != 0 {
                let (r, _) = self.z3.check(&self.ar, &[q.e], &[], &[]);
                if r != Res::Unsat {
                    self.fail(format!("truth table audit: {:?}", r));
                }
            } else if q.c != 0 {
                self.fail("truth table audit".into());
            }
            self.stats.truth_audited += 1;
        }
        t
    }

    /// Split on a condition: states in which it holds / does not hold, where feasible.
    fn split(&mut self, mut st: State, cond: V) -> R<(Option<State>, Option<State>)> {
        let cond = self.simp(&st, cond);
        if let Some(c) = self.ar.cval(cond) {
            self.stats.branch_const += 1;
            return Ok(if c == 1 { (Some(st), None) } else { (None, Some(st)) });
        }
        let sup = self.ar.support(cond.e).clone();
        let neg = self.ar.not(cond);
        if self.use_dom && sup.len() == 1 {
            let v = sup[0] as usize;
            let t = self.truth(cond.e);
            let d = st.dom[v];
            let yes = mand(&d, &t);
            let no = mandn(&d, &t);
            if mempty(&no) {
                self.stats.branch_dom += 1;
                return Ok((Some(st), None));
            }
            if mempty(&yes) {
                self.stats.branch_dom += 1;
                return Ok((None, Some(st)));
            }
            if !st.entangled[v] {
                self.stats.branch_dom += 1;
                self.note_fork(&st);
                let mut other = st.clone();
                let cur = *st.model.1.get(v).unwrap_or(&0);
                if mget(&yes, cur as usize) {
                    self.set_model(&mut other, &[(v as u16, mfirst(&no).unwrap())]);
                } else {
                    self.set_model(&mut st, &[(v as u16, mfirst(&yes).unwrap())]);
                }
                st.depth += 1;
                other.depth += 1;
                self.add(&mut st, cond);
                self.add(&mut other, neg);
                return Ok((Some(st), Some(other)));
            }
        }
        if self.merge && !self.bfs {
            self.note_fork(&st);
            let mut other = st.clone();
            st.lazy = true;
            other.lazy = true;
            self.add(&mut st, cond);
            self.add(&mut other, neg);
            return Ok((Some(st), Some(other)));
        }
        self.stats.branch_solver += 1;
        let holds = self.model_holds(&st, cond);
        let (side, opp) = if holds { (cond, neg) } else { (neg, cond) };
        let r = self.solve(&st, opp)?;
        match r {
            None => {
                // implied: no need to add it
                Ok(if holds { (Some(st), None) } else { (None, Some(st)) })
            }
            Some(m) => {
                self.note_fork(&st);
                let mut other = st.clone();
                self.set_model(&mut other, &m);
                st.depth += 1;
                other.depth += 1;
                self.add(&mut st, side);
                self.add(&mut other, opp);
                Ok(if holds { (Some(st), Some(other)) } else { (Some(other), Some(st)) })
            }
        }
    }

    fn note_fork(&mut self, st: &State) {
        self.stats.forks += 1;
        *self.fork_sites.entry(st.cur_dbg).or_insert(0) += 1;
    }

    /// Make a value concrete: `st` keeps one feasible value, the others are queued as copies of
    /// `st` that will execute the current instruction again.
    fn concretize(&mut self, st: &mut State, v: V) -> R<u64> {
        let v = self.simp(st, v);
        if let Some(c) = self.ar.cval(v) {
            return Ok(c as u64);
        }
        self.stats.concretized += 1;
        if !self.ensure(st)? {
            return Err(Stop::End);
        }
        let sup = self.ar.support(v.e).clone();
        let mut values: Vec<(u64, Vec<(u16, u8)>)> = Vec::new();
        if self.use_dom && sup.len() == 1 && !st.entangled[sup[0] as usize] {
            let t = self.ar.table(v.e);
            let d = st.dom[sup[0] as usize];
            for i in 0..256 {
                if mget(&d, i) {
                    let x = t[i] as u64;
                    if !values.iter().any(|y| y.0 == x) {
                        values.push((x, vec![(sup[0], i as u8)]));
                    }
                }
            }
        } else {
            let m = st.model.clone();
            let first = self.ar.eval(v.e, &m.1, m.0) as u64;
            values.push((first, Vec::new()));
            let mut excl = V::b(true);
            loop {
                let last = V::k(v.w, values.last().unwrap().0);
                let q = self.ar.eq(v, last);
                let q = self.ar.not(q);
                excl = self.ar.and(excl, q);
                match self.solve(st, excl)? {
                    None => break,
                    Some(mm) => {
                        let mut model = st.model.1.clone();
                        model.resize(st.nvars as usize, 0);
                        for (a, b) in &mm {
                            model[*a as usize] = *b;
                        }
                        let x = self.ar.eval(v.e, &model, 0) as u64;
                        values.push((x, mm));
                    }
                }
                if values.len() > self.limits.max_fork_values {
                    return Err(Stop::Fail(format!(
                        "more than {} values for {}",
                        self.limits.max_fork_values,
                        self.ar.show(v.e, 4)
                    )));
                }
            }
        }
        if values.len() > 1 {
            self.note_fork(st);
        }
        let mut keep = None;
        let base = st.clone();
        for (i, (x, mm)) in values.iter().enumerate() {
            let mut s = base.clone();
            if !mm.is_empty() {
                self.set_model(&mut s, mm);
            }
            let k = V::k(v.w, *x);
            let c = self.ar.eq(v, k);
            self.add(&mut s, c);
            Rc::make_mut(&mut s.conc).push((v.e, *x));
            s.depth += 1;
            if i == 0 {
                keep = Some(s);
            } else {
                self.push(s);
            }
        }
        *st = keep.unwrap();
        Ok(values[0].0)
    }

    // ------------------------------------------------------------ memory

    fn obj<'a>(&'a mut self, st: &'a State, addr: u64, what: &str) -> R<(&'a Rc<Obj>, u64)> {
        let id = (addr >> OBJ_SHIFT) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OBJ_OFF);
        if id == 0 {
            return Err(Stop::Bug(format!("{}: null or dangling pointer {:#x}", what, addr)));
        }
        if id >= STACK_ID {
            return match st.mem.stack.get((id - STACK_ID) as usize) {
                Some(o) => Ok((o, off)),
                None => Err(Stop::Bug(format!("{}: dead stack slot", what))),
            };
        }
        let (p, i) = (id as usize / PAGE, id as usize % PAGE);
        if let Some(pg) = st.mem.pages.get(p) {
            // reborrow through raw index to satisfy lifetimes
            if pg[i].is_some() {
                return Ok((st.mem.pages[p][i].as_ref().unwrap(), off));
            }
        }
        if id <= self.nsyms {
            if self.globals[id as usize].is_none() {
                match self.m.global_init(id) {
                    Some((data, ro)) => {
                        self.globals[id as usize] = Some(Rc::new(Obj { data, sym: Vec::new(), ro, soft: false }));
                    }
                    None => {
                        return Err(Stop::Fail(format!("{}: not a data object: {}", what, self.m.syms[id as usize - 1].name)))
                    }
                }
            }
            return Ok((self.globals[id as usize].as_ref().unwrap(), off));
        }
        if id < st.mem.next {
            Err(Stop::Bug(format!("{}: use after free", what)))
        } else {
            Err(Stop::Bug(format!("{}: wild pointer {:#x}", what, addr)))
        }
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64, what: &str) -> R<(&'a mut Obj, usize)> {
        let (o, off) = self.obj(st, addr, what)?;
        if off.checked_add(n).map(|e| e > o.data.len() as u64).unwrap_or(true) {
            return Err(outside(o, format!("{}: out of bounds: offset {} + {} of {}", what, off as i64, n, o.data.len())));
        }
        if o.ro {
            return Err(Stop::Bug(format!("{}: write to constant", what)));
        }
        let id = (addr >> OBJ_SHIFT) as u32;
        if id >= STACK_ID {
            let r = &mut st.mem.stack[(id - STACK_ID) as usize];
            return Ok((Rc::make_mut(r), off as usize));
        }
        let (p, i) = (id as usize / PAGE, id as usize % PAGE);
        let global = if id <= self.nsyms { self.globals[id as usize].clone() } else { None };
        while st.mem.pages.len() <= p {
            st.mem.pages.push(Rc::new(Default::default()));
        }
        let pg = Rc::make_mut(&mut st.mem.pages[p]);
        if pg[i].is_none() {
            pg[i] = global;
        }
        Ok((Rc::make_mut(pg[i].as_mut().unwrap()), off as usize))
    }

    /// Allocation of a size that may be symbolic.  When there are too many sizes to tell apart, an
    /// object stands for all of them, of which only the beginning can be accessed.
    fn alloc_sym(&mut self, st: &mut State, size: V, zero: bool) -> R<u64> {
        let n = match self.concretize(st, size) {
            Ok(n) => n,
            Err(Stop::Fail(_)) => {
                // no size counts for more than 2^48 bytes, so that the sum does not overflow
                let top = V::k(64, 1 << 48);
                let fits = self.ar.bin(Op::Ult, size, top);
                let size = self.ar.ite(fits, size, top);
                st.mem_used = self.ar.bin(Op::Add, st.mem_used, size);
                return self.alloc(st, MAX_ALLOC + 1, zero);
            }
            Err(e) => return Err(e),
        };
        st.mem_used = self.ar.bin(Op::Add, st.mem_used, V::k(64, n.min(1 << 48)));
        self.alloc(st, n, zero)
    }
    fn alloc(&mut self, st: &mut State, size: u64, zero: bool) -> R<u64> {
        let soft = size > MAX_ALLOC;
        let size = if soft { SOFT_ALLOC } else { size };
        let id = st.mem.next;
        st.mem.next += 1;
        let (p, i) = (id as usize / PAGE, id as usize % PAGE);
        while st.mem.pages.len() <= p {
            st.mem.pages.push(Rc::new(Default::default()));
        }
        let o = Obj { data: vec![if zero { 0 } else { 0xA5 }; size as usize], sym: Vec::new(), ro: false, soft };
        Rc::make_mut(&mut st.mem.pages[p])[i] = Some(Rc::new(o));
        Ok(sym_addr(id))
    }

    fn free(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = (addr >> OBJ_SHIFT) as u32;
        let off = (addr & 0xffff_ffff).wrapping_sub(OBJ_OFF);
        if id <= self.nsyms || id >= st.mem.next || off != 0 {
            return Err(Stop::Bug(format!("free of invalid pointer {:#x}", addr)));
        }
        let (p, i) = (id as usize / PAGE, id as usize % PAGE);
        if st.mem.pages[p][i].is_none() {
            return Err(Stop::Bug("double free".into()));
        }
        Rc::make_mut(&mut st.mem.pages[p])[i] = None;
        Ok(())
    }

    fn load_bytes(&mut self, st: &State, addr: u64, n: u64, what: &str) -> R<(Vec<u8>, Vec<u32>)> {
        if n == 0 {
            return Ok((Vec::new(), Vec::new()));
        }
        let (o, off) = self.obj(st, addr, what)?;
        if off.checked_add(n).map(|e| e > o.data.len() as u64).unwrap_or(true) {
            return Err(outside(o, format!("{}: out of bounds: offset {} + {} of {}", what, off as i64, n, o.data.len())));
        }
        let (a, b) = (off as usize, (off + n) as usize);
        let d = o.data[a..b].to_vec();
        let s = if o.sym.is_empty() { Vec::new() } else { o.sym[a..b].to_vec() };
        Ok((d, s))
    }

    fn store_bytes(&mut self, st: &mut State, addr: u64, d: &[u8], s: &[u32], what: &str) -> R<()> {
        if d.is_empty() {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, addr, d.len() as u64, what)?;
        o.data[off..off + d.len()].copy_from_slice(d);
        let any = s.iter().any(|x| *x != 0);
        if any || !o.sym.is_empty() {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            if s.is_empty() {
                for x in &mut o.sym[off..off + d.len()] {
                    *x = 0;
                }
            } else {
                o.sym[off..off + d.len()].copy_from_slice(s);
            }
        }
        Ok(())
    }

    fn load(&mut self, st: &State, addr: u64, w: u16) -> R<V> {
        let n = (w as u64 + 7) / 8;
        let (o, off) = self.obj(st, addr, "load")?;
        if off.checked_add(n).map(|e| e > o.data.len() as u64).unwrap_or(true) {
            return Err(outside(o, format!("load out of bounds: offset {} + {} of {}", off as i64, n, o.data.len())));
        }
        let a = off as usize;
        let nn = n as usize;
        let symbolic = !o.sym.is_empty() && o.sym[a..a + nn].iter().any(|x| *x != 0);
        if !symbolic {
            let mut r: u128 = 0;
            for i in (0..nn).rev() {
                r = r << 8 | o.data[a + i] as u128;
            }
            return Ok(self.ar.konst(w, r));
        }
        let o = o.clone();
        let byte = |ar: &Arena, i: usize| -> V {
            if o.sym[a + i] != 0 {
                ar.val(o.sym[a + i])
            } else {
                V::k(8, o.data[a + i] as u64)
            }
        };
        let mut r = byte(&self.ar, 0);
        for i in 1..nn {
            let b = byte(&self.ar, i);
            r = self.ar.concat(b, r);
        }
        let r = if r.w > w { self.ar.trunc(r, w) } else { r };
        Ok(self.simp(st, r))
    }

    fn store(&mut self, st: &mut State, addr: u64, v: V) -> R<()> {
        let n = (v.w as usize + 7) / 8;
        if v.e == 0 && v.w <= 64 {
            let b = v.c.to_le_bytes();
            return self.store_bytes(st, addr, &b[..n], &[], "store");
        }
        let v = if (n * 8) as u16 > v.w { self.ar.zext(v, (n * 8) as u16) } else { v };
        let mut d = vec![0u8; n];
        let mut s = vec![0u32; n];
        for i in 0..n {
            let b = self.ar.extract(v, (i * 8) as u16, 8);
            match self.ar.cval(b) {
                Some(c) => d[i] = c as u8,
                None => s[i] = b.e,
            }
        }
        self.store_bytes(st, addr, &d, &s, "store")
    }

    /// Load through a symbolic address that depends on one byte: a lookup table when every
    /// feasible address reads concrete bytes in bounds.
    fn load_sym(&mut self, st: &State, ptr: V, w: u16) -> R<Option<V>> {
        let sup = self.ar.support(ptr.e).clone();
        if sup.len() != 1 || w > 64 || !self.use_dom {
            return Ok(None);
        }
        let v = sup[0];
        let t = self.ar.table(ptr.e);
        let d = st.dom[v as usize];
        let mut out = vec![0u64; 256];
        let mut last = None;
        let mut miss = Vec::new();
        for i in 0..256 {
            if !mget(&d, i) {
                miss.push(i);
                continue;
            }
            match self.load(st, t[i] as u64, w) {
                Ok(x) if x.e == 0 => {
                    out[i] = x.c;
                    last = Some(x.c);
                }
                _ => return Ok(None),
            }
        }
        // values outside the domain are irrelevant: reuse a neighbour to keep the table small
        let mut prev = last.unwrap_or(0);
        for i in 0..256 {
            if mget(&d, i) {
                prev = out[i];
            } else {
                out[i] = prev;
            }
        }
        let _ = miss;
        Ok(Some(self.ar.tab(w, v as u32, out)))
    }

    // ------------------------------------------------------------ instructions

    fn get(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::C(v) => *v,
            Opd::R(s) => st.frames.last().unwrap().regs[*s as usize],
            Opd::CM(v) => v[0],
            Opd::RM(s, _) => st.frames.last().unwrap().regs[*s as usize],
        }
    }
    fn getn(&self, st: &State, o: &Opd) -> Vec<V> {
        match o {
            Opd::C(v) => vec![*v],
            Opd::R(s) => vec![st.frames.last().unwrap().regs[*s as usize]],
            Opd::CM(v) => v.to_vec(),
            Opd::RM(s, n) => {
                st.frames.last().unwrap().regs[*s as usize..(*s + *n) as usize].to_vec()
            }
        }
    }
    fn set(&self, st: &mut State, d: u32, v: V) {
        let f = st.frames.last_mut().unwrap();
        Rc::make_mut(&mut f.regs)[d as usize] = v;
    }
    fn setn(&self, st: &mut State, d: u32, v: &[V]) {
        let f = st.frames.last_mut().unwrap();
        Rc::make_mut(&mut f.regs)[d as usize..d as usize + v.len()].copy_from_slice(v);
    }

    fn icmp(&mut self, p: Pred, a: V, b: V) -> V {
        match p {
            Pred::Eq => self.ar.eq(a, b),
            Pred::Ne => {
                let e = self.ar.eq(a, b);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.bin(Op::Ult, a, b),
            Pred::Ugt => self.ar.bin(Op::Ult, b, a),
            Pred::Ule => {
                let e = self.ar.bin(Op::Ult, b, a);
                self.ar.not(e)
            }
            Pred::Uge => {
                let e = self.ar.bin(Op::Ult, a, b);
                self.ar.not(e)
            }
            Pred::Slt => self.ar.bin(Op::Slt, a, b),
            Pred::Sgt => self.ar.bin(Op::Slt, b, a),
            Pred::Sle => {
                let e = self.ar.bin(Op::Slt, b, a);
                self.ar.not(e)
            }
            Pred::Sge => {
                let e = self.ar.bin(Op::Slt, a, b);
                self.ar.not(e)
            }
        }
    }

    fn fcmp(&mut self, p: &str, a: V, b: V) -> R<V> {
        let w = a.w;
        let (inf, abs) = if w == 64 {
            (0x7ff0_0000_0000_0000u64, 0x7fff_ffff_ffff_ffffu64)
        } else {
            (0x7f80_0000u64, 0x7fff_ffffu64)
        };
        let ar = &mut self.ar;
        let nan = |ar: &mut Arena, x: V| {
            let m = ar.and(x, V::k(w, abs));
            ar.bin(Op::Ult, V::k(w, inf), m)
        };
        let na = nan(ar, a);
        let nb = nan(ar, b);
        let uno = ar.or(na, nb);
        let ord = ar.not(uno);
        let ma = ar.and(a, V::k(w, abs));
        let mb = ar.and(b, V::k(w, abs));
        let za = ar.eq(ma, V::k(w, 0));
        let zb = ar.eq(mb, V::k(w, 0));
        let zz = ar.and(za, zb);
        let same = ar.eq(a, b);
        let eq = ar.or(same, zz);
        let sa = ar.extract(a, w - 1, 1);
        let sb = ar.extract(b, w - 1, 1);
        let lt = |ar: &mut Arena, sa: V, sb: V, ma: V, mb: V| {
            let x = ar.bin(Op::Ult, ma, mb);
            let y = ar.bin(Op::Ult, mb, ma);
            let both = ar.ite(sa, y, x);
            let ne = ar.eq(sa, sb);
            let r = ar.ite(ne, both, sa);
            let nz = ar.not(zz);
            ar.and(r, nz)
        };
        let (base, unordered) = (&p[1..], p.starts_with('u'));
        let r = match p {
            "ord" => return Ok(ord),
            "uno" => return Ok(uno),
            _ => match base {
                "eq" => eq,
                "ne" => ar.not(eq),
                "lt" => lt(ar, sa, sb, ma, mb),
                "gt" => lt(ar, sb, sa, mb, ma),
                "le" => {
                    let x = lt(ar, sa, sb, ma, mb);
                    ar.or(x, eq)
                }
                "ge" => {
                    let x = lt(ar, sb, sa, mb, ma);
                    ar.or(x, eq)
                }
                _ => return Err(Stop::Fail(format!("fcmp {}", p))),
            },
        };
        Ok(if unordered { ar.or(r, uno) } else { ar.and(r, ord) })
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<Flow> {
        let fr = st.frames.last().unwrap();
        let from = fr.block;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Vec<V>)> = Vec::with_capacity(b.phis.len());
            for p in &b.phis {
                let o = match p.inc.iter().find(|x| x.0 == from) {
                    Some(x) => &x.1,
                    None => return Err(Stop::Fail("phi without predecessor".into())),
                };
                vals.push((p.dst, self.getn(st, o)));
            }
            for (d, v) in vals {
                self.setn(st, d, &v);
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.block = to;
        fr.ip = 0;
        if self.merge {
            while let Some((h, _)) = fr.iters.last() {
                if b.loops.contains(h) {
                    break;
                }
                fr.iters.pop();
            }
            if b.loops.last() == Some(&to) {
                match fr.iters.last_mut() {
                    Some((h, c)) if *h == to => *c += 1,
                    _ => fr.iters.push((to, 0)),
                }
            }
            if b.npred > 1 {
                return Ok(Flow::Join);
            }
        }
        Ok(Flow::Go)
    }

    fn go2(&mut self, st: &mut State, cond: V, t: u32, f: u32) -> R<Flow> {
        if cond.e == 0 {
            self.stats.branch_const += 1;
            return self.jump(st, if cond.c == 1 { t } else { f });
        }
        if t == f {
            return self.jump(st, t);
        }
        let (a, b) = self.split(std::mem::replace(st, self.dummy()), cond)?;
        match (a, b) {
            (Some(x), None) => {
                *st = x;
                self.jump(st, t)
            }
            (None, Some(x)) => {
                *st = x;
                self.jump(st, f)
            }
            (Some(x), Some(mut y)) => {
                *st = x;
                self.jump(&mut y, f)?;
                self.push(y);
                self.jump(st, t)
            }
            (None, None) => Err(Stop::Fail("infeasible state".into())),
        }
    }

    fn dummy(&self) -> State {
        State {
            frames: Vec::new(),
            mem: Mem { pages: Vec::new(), next: 0, stack: Vec::new() },
            pc: Rc::new(Vec::new()),
            dom: Rc::new(Vec::new()),
            fixed: Rc::new(Vec::new()),
            entangled: Rc::new(Vec::new()),
            model: Rc::new((0, Vec::new())),
            conc: Rc::new(Vec::new()),
            nvars: 0,
            picks: Rc::new(Vec::new()),
            obs: Rc::new(Vec::new()),
            mem_used: V::k(64, 0),
            reached: Rc::new(Vec::new()),
            depth: 0,
            steps: 0,
            work_end: u64::MAX,
            work_n: 0,
            work_id: 0,
            cur_dbg: 0,
            lazy: false,
            last: 0,
        }
    }

    fn exec_block(&mut self, st: &mut State) -> R<Flow> {
        let f = st.frames.last().unwrap().f.clone();
        let bi = st.frames.last().unwrap().block as usize;
        let block = &f.blocks[bi];
        loop {
            let ip = st.frames.last().unwrap().ip as usize;
            let (ins, dbg) = &block.ins[ip];
            st.cur_dbg = *dbg;
            self.stats.instrs += 1;
            st.steps += 1;
            if *dbg as usize >= self.dbg_used.len() {
                self.dbg_used.resize(*dbg as usize + 1024, false);
            }
            self.dbg_used[*dbg as usize] = true;
            if st.steps > st.work_end {
                if self.ensure(st)? {
                    let m = st.model.1.clone();
                    self.bug(st, "work".into(), st.work_id, m);
                }
                return Err(Stop::End);
            }
            if st.steps > self.limits.path_steps {
                return Err(Stop::Bug("path step limit: possible non-termination".into()));
            }
            match ins {
                I::Bin(op, d, w, n, a, b) => {
                    if *n == 1 {
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        let r = self.binop(*op, *w, x, y)?;
                        self.set(st, *d, r);
                    } else {
                        let (x, y) = (self.getn(st, a), self.getn(st, b));
                        for i in 0..*n as usize {
                            let r = self.binop(*op, *w, x[i], y[i])?;
                            self.set(st, *d + i as u32, r);
                        }
                    }
                }
                I::Icmp(p, d, _w, n, a, b) => {
                    if *n == 1 {
                        let (x, y) = (self.get(st, a), self.get(st, b));
                        let r = self.icmp(*p, x, y);
                        self.set(st, *d, r);
                    } else {
                        let (x, y) = (self.getn(st, a), self.getn(st, b));
                        for i in 0..*n as usize {
                            let r = self.icmp(*p, x[i], y[i]);
                            self.set(st, *d + i as u32, r);
                        }
                    }
                }
                I::Fcmp(p, d, _w, a, b) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let r = self.fcmp(p, x, y)?;
                    self.set(st, *d, r);
                }
                I::Cast(c, d, _fw, tw, _n, a) => {
                    let xs = self.getn(st, a);
                    for (i, x) in xs.iter().enumerate() {
                        let r = match c {
                            Cast::ZExt => self.ar.zext(*x, *tw),
                            Cast::SExt => self.ar.sext(*x, *tw),
                            Cast::Trunc => self.ar.trunc(*x, *tw),
                            Cast::Same => *x,
                            Cast::FToF | Cast::SToF | Cast::UToF => {
                                if !matches!(*tw, 32 | 64) || *c == Cast::FToF && !matches!(x.w, 32 | 64) {
                                    return Err(Stop::Fail("float conversion".into()));
                                }
                                let o = match c {
                                    Cast::FToF => Op::FToF,
                                    Cast::SToF => Op::SToF,
                                    _ => Op::UToF,
                                };
                                self.ar.fconv(o, *x, *tw)
                            }
                        };
                        self.set(st, *d + i as u32, r);
                    }
                }
                I::Gep(d, base, off, idx) => {
                    let mut r = self.get(st, base);
                    if *off != 0 {
                        r = self.ar.bin(Op::Add, r, V::k(64, *off as u64));
                    }
                    for (o, w, scale) in idx {
                        let mut x = self.get(st, o);
                        if *w < 64 {
                            x = self.ar.sext(x, 64);
                        }
                        let x = self.ar.bin(Op::Mul, x, V::k(64, *scale as u64));
                        r = self.ar.bin(Op::Add, r, x);
                    }
                    self.set(st, *d, r);
                }
                I::Load(d, p, layout) => {
                    let ptr = self.get(st, p);
                    let mut ptr = ptr;
                    if ptr.e != 0 {
                        ptr = self.simp(st, ptr);
                    }
                    if ptr.e != 0 {
                        if layout.len() == 1 {
                            if let Some(v) = self.load_sym(st, ptr, layout[0].1)? {
                                self.set(st, *d, v);
                                st.frames.last_mut().unwrap().ip += 1;
                                continue;
                            }
                        }
                        let a = self.concretize(st, ptr)?;
                        ptr = V::k(64, a);
                    }
                    for (i, (off, w)) in layout.iter().enumerate() {
                        let v = self.load(st, ptr.c.wrapping_add(*off), *w)?;
                        if self.merge {
                            if let Ok((o, x)) = self.obj(st, ptr.c.wrapping_add(*off), "load") {
                                let e = match o.sym.get(x as usize + (*w as usize - 1) / 8) {
                                    Some(e) => *e,
                                    None => 0,
                                };
                                if e != 0 {
                                    if let Some(l) = self.ar.support(e).last() {
                                        st.last = *l as u32 + 1;
                                    }
                                }
                            }
                        }
                        self.set(st, *d + i as u32, v);
                    }
                }
                I::Store(v, p, layout) => {
                    let ptr = self.get(st, p);
                    let a = if ptr.e != 0 { self.concretize(st, ptr)? } else { ptr.c };
                    if layout.len() == 1 {
                        let x = self.get(st, v);
                        self.store(st, a.wrapping_add(layout[0].0), x)?;
                    } else {
                        let xs = self.getn(st, v);
                        for (i, (off, _)) in layout.iter().enumerate() {
                            self.store(st, a.wrapping_add(*off), xs[i])?;
                        }
                    }
                }
                I::Select(d, n, c, a, b, vc) => {
                    if *vc {
                        let cs = self.getn(st, c);
                        let (x, y) = (self.getn(st, a), self.getn(st, b));
                        for i in 0..*n as usize {
                            let r = self.ar.ite(cs[i], x[i], y[i]);
                            self.set(st, *d + i as u32, r);
                        }
                    } else {
                        let mut cv = self.get(st, c);
                        if cv.e != 0 {
                            cv = self.decide_cheap(st, cv);
                        }
                        if *n == 1 {
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            let r = self.ar.ite(cv, x, y);
                            self.set(st, *d, r);
                        } else {
                            let (x, y) = (self.getn(st, a), self.getn(st, b));
                            for i in 0..*n as usize {
                                let r = self.ar.ite(cv, x[i], y[i]);
                                self.set(st, *d + i as u32, r);
                            }
                        }
                    }
                }
                I::Move(d, n, a) => {
                    if *n == 1 {
                        let v = self.get(st, a);
                        self.set(st, *d, v);
                    } else {
                        let v = self.getn(st, a);
                        self.setn(st, *d, &v);
                    }
                }
                I::Insert(d, _n, agg, at, m, v) => {
                    let mut x = self.getn(st, agg);
                    let y = self.getn(st, v);
                    x[*at as usize..(*at + *m) as usize].copy_from_slice(&y);
                    self.setn(st, *d, &x);
                }
                I::ExtractElt(d, _n, _es, a, i) => {
                    let iv = self.get(st, i);
                    let k = self.concretize(st, iv)? as usize;
                    let x = self.getn(st, a);
                    self.set(st, *d, x[k]);
                }
                I::InsertElt(d, _n, a, v, i) => {
                    let iv = self.get(st, i);
                    let k = self.concretize(st, iv)? as usize;
                    let mut x = self.getn(st, a);
                    x[k] = self.get(st, v);
                    self.setn(st, *d, &x);
                }
                I::Shuffle(d, _n, a, b, mask) => {
                    let mut x = self.getn(st, a);
                    x.extend(self.getn(st, b));
                    let w = x[0].w;
                    let r: Vec<V> = mask
                        .iter()
                        .map(|i| if *i >= 0 && (*i as usize) < x.len() { x[*i as usize] } else { V::k(w, 0) })
                        .collect();
                    self.setn(st, *d, &r);
                }
                I::BitcastVec(d, a, fw, tw) => {
                    let x = self.getn(st, a);
                    let _ = fw;
                    let mut whole = x[0];
                    for v in &x[1..] {
                        whole = self.ar.concat(*v, whole);
                    }
                    let mut lo = 0;
                    let mut r = Vec::new();
                    for w in tw {
                        r.push(self.ar.extract(whole, lo, *w));
                        lo += *w;
                    }
                    self.setn(st, *d, &r);
                }
                I::Alloca(d, size, _align, count) => {
                    let c = self.get(st, count);
                    let c = self.concretize(st, c)?;
                    let n = size * c;
                    let id = STACK_ID + st.mem.stack.len() as u32;
                    st.mem.stack.push(Rc::new(Obj { data: vec![0xA5; n as usize], sym: Vec::new(), ro: false, soft: false }));
                    self.set(st, *d, V::k(64, sym_addr(id)));
                }
                I::Br(t) => return self.jump(st, *t),
                I::CondBr(c, t, e) => {
                    let cv = self.get(st, c);
                    return self.go2(st, cv, *t, *e);
                }
                I::Switch(v, w, dfl, cases) => {
                    let x = self.get(st, v);
                    let x = self.simp(st, x);
                    if x.e == 0 {
                        let t = cases.iter().find(|c| c.0.c == x.c).map(|c| c.1).unwrap_or(*dfl);
                        return self.jump(st, t);
                    }
                    return self.do_switch(st, x, *w, *dfl, cases);
                }
                I::Ret(n, v) => {
                    let vals = match v {
                        Some(o) => self.getn(st, o),
                        None => Vec::new(),
                    };
                    let _ = n;
                    let fr = st.frames.pop().unwrap();
                    st.mem.stack.truncate(fr.stack_base as usize);
                    if st.frames.is_empty() {
                        return Ok(Flow::End);
                    }
                    if fr.ret_n > 0 {
                        self.setn(st, fr.ret_dst, &vals[..fr.ret_n as usize]);
                    }
                    return self.after_call(st, fr.normal);
                }
                I::Unreachable => {
                    return Err(Stop::Bug("unreachable code executed (undefined behaviour)".into()));
                }
                I::Call(callee, d, n, args, normal) => {
                    let go = self.call(st, callee, *d, *n, args, *normal)?;
                    match go {
                        CallFlow::Next => {
                            if let Some(t) = normal {
                                return self.jump(st, *t);
                            }
                        }
                        CallFlow::Entered => return Ok(Flow::Go),
                        CallFlow::Again => return Ok(Flow::Go),
                    }
                }
                I::Rmw(k, d, w, p, v) => {
                    let ptr = self.get(st, p);
                    let a = self.concretize(st, ptr)?;
                    let old = self.load(st, a, *w)?;
                    let x = self.get(st, v);
                    let new = match k.as_str() {
                        "xchg" => x,
                        "add" => self.ar.bin(Op::Add, old, x),
                        "sub" => self.ar.bin(Op::Sub, old, x),
                        "and" => self.ar.bin(Op::And, old, x),
                        "or" => self.ar.bin(Op::Or, old, x),
                        "xor" => self.ar.bin(Op::Xor, old, x),
                        k => return Err(Stop::Fail(format!("atomicrmw {}", k))),
                    };
                    self.store(st, a, new)?;
                    self.set(st, *d, old);
                }
                I::CmpXchg(d, w, p, a, b) => {
                    let ptr = self.get(st, p);
                    let ad = self.concretize(st, ptr)?;
                    let old = self.load(st, ad, *w)?;
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let eq = self.ar.eq(old, x);
                    let new = self.ar.ite(eq, y, old);
                    self.store(st, ad, new)?;
                    self.setn(st, *d, &[old, eq]);
                }
                I::Nop => {}
                I::Unsupported(s) => return Err(Stop::Fail(format!("unsupported: {}", s))),
            }
            st.frames.last_mut().unwrap().ip += 1;
        }
    }

    /// Resolve a condition when its byte's domain already decides it.
    fn decide_cheap(&mut self, st: &State, c: V) -> V {
        let c = self.simp(st, c);
        if c.e == 0 || !self.use_dom {
            return c;
        }
        let sup = self.ar.support(c.e).clone();
        if sup.len() == 1 {
            let t = self.truth(c.e);
            let d = st.dom[sup[0] as usize];
            if mempty(&mandn(&d, &t)) {
                return V::b(true);
            }
            if mempty(&mand(&d, &t)) {
                return V::b(false);
            }
        }
        c
    }

    fn binop(&mut self, op: Bin, _w: u16, a: V, b: V) -> R<V> {
        let o = match op {
            Bin::Add => Op::Add,
            Bin::Sub => Op::Sub,
            Bin::Mul => Op::Mul,
            Bin::UDiv => Op::UDiv,
            Bin::SDiv => Op::SDiv,
            Bin::URem => Op::URem,
            Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl,
            Bin::LShr => Op::LShr,
            Bin::AShr => Op::AShr,
            Bin::And => Op::And,
            Bin::Or => Op::Or,
            Bin::Xor => Op::Xor,
            Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv => {
                let o = match op {
                    Bin::FAdd => Op::FAdd,
                    Bin::FSub => Op::FSub,
                    Bin::FMul => Op::FMul,
                    _ => Op::FDiv,
                };
                if a.w != b.w || !matches!(a.w, 32 | 64) {
                    return Err(Stop::Fail("float arithmetic".into()));
                }
                return Ok(self.ar.fbin(o, a, b));
            }
        };
        if a.e == u32::MAX || b.e == u32::MAX {
            return Err(Stop::Fail("wide constant".into()));
        }
        Ok(self.ar.bin(o, a, b))
    }

    fn after_call(&mut self, st: &mut State, normal: Option<u32>) -> R<Flow> {
        match normal {
            Some(t) => self.jump(st, t),
            None => {
                st.frames.last_mut().unwrap().ip += 1;
                Ok(if self.merge { Flow::Join } else { Flow::Go })
            }
        }
    }

    fn do_switch(&mut self, st: &mut State, x: V, _w: u16, dfl: u32, cases: &[(V, u32)]) -> R<Flow> {
        // one condition per distinct target, plus the default
        let mut targets: Vec<(u32, V)> = Vec::new();
        let mut none = V::b(true);
        for (c, t) in cases {
            let e = self.ar.eq(x, *c);
            let ne = self.ar.not(e);
            none = self.ar.and(none, ne);
            if *t == dfl {
                continue;
            }
            match targets.iter_mut().find(|y| y.0 == *t) {
                Some(y) => y.1 = self.ar.or(y.1, e),
                None => targets.push((*t, e)),
            }
        }
        let _ = none;
        let mut cur = Some(std::mem::replace(st, self.dummy()));
        let mut out: Vec<(State, u32)> = Vec::new();
        for (t, c) in targets {
            let s = match cur.take() {
                Some(s) => s,
                None => break,
            };
            let (a, b) = self.split(s, c)?;
            if let Some(a) = a {
                out.push((a, t));
            }
            cur = b;
        }
        if let Some(s) = cur {
            out.push((s, dfl));
        }
        let last = out.pop();
        for (mut s, t) in out {
            self.jump(&mut s, t)?;
            self.push(s);
        }
        match last {
            Some((s, t)) => {
                *st = s;
                self.jump(st, t)
            }
            None => Err(Stop::Fail("switch: no feasible target".into())),
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        callee: &Callee,
        d: u32,
        n: u32,
        args: &[(Opd, u16)],
        normal: Option<u32>,
    ) -> R<CallFlow> {
        match callee {
            Callee::Intrinsic(i) => {
                self.intrinsic(st, *i, d, n, args)?;
                Ok(CallFlow::Next)
            }
            Callee::Unknown(s) => Err(Stop::Fail(format!("call of {}", s))),
            Callee::Fn(id) => self.call_id(st, *id, d, n, args, normal),
            Callee::Ind(o) => {
                let p = self.get(st, o);
                let a = self.concretize(st, p)?;
                let id = (a >> OBJ_SHIFT) as u32;
                if id == 0 || id > self.nsyms || (a & 0xffff_ffff) != OBJ_OFF {
                    return Err(Stop::Bug(format!("call through invalid pointer {:#x}", a)));
                }
                self.call_id(st, id, d, n, args, normal)
            }
        }
    }

    fn call_id(
        &mut self,
        st: &mut State,
        id: u32,
        d: u32,
        n: u32,
        args: &[(Opd, u16)],
        normal: Option<u32>,
    ) -> R<CallFlow> {
        if let Some(p) = self.panic_fns.get(&id) {
            return Err(Stop::Bug(format!("panic: {}", p)));
        }
        if let Some(f) = self.func_of(id) {
            if st.frames.len() > 4000 {
                return Err(Stop::Bug("stack overflow (call depth 4000)".into()));
            }
            let mut regs = vec![V::k(1, 0); f.nslots as usize];
            for (i, (slot, k)) in f.params.iter().enumerate() {
                let v = self.getn(st, &args[i].0);
                for j in 0..*k as usize {
                    regs[*slot as usize + j] = v[j];
                }
            }
            let base = st.mem.stack.len() as u32;
            st.frames.push(Frame {
                f,
                block: 0,
                ip: 0,
                regs: Rc::new(regs),
                stack_base: base,
                ret_dst: d,
                ret_n: n,
                normal,
                iters: Vec::new(),
            });
            return Ok(CallFlow::Entered);
        }
        let name = self.m.syms[id as usize - 1].name.clone();
        self.external(st, &name, d, n, args, normal)
    }

    fn arg(&self, st: &State, args: &[(Opd, u16)], i: usize) -> V {
        self.get(st, &args[i].0)
    }

    fn new_vars(&mut self, st: &mut State, n: u32) {
        let dom = Rc::make_mut(&mut st.dom);
        let fx = Rc::make_mut(&mut st.fixed);
        let en = Rc::make_mut(&mut st.entangled);
        for _ in 0..n {
            dom.push(FULL);
            fx.push(false);
            en.push(false);
        }
        let mut m = st.model.1.clone();
        m.resize((st.nvars + n) as usize, 0);
        self.next_model += 1;
        st.model = Rc::new((self.next_model, m));
        st.nvars += n;
    }

    fn external(&mut self, st: &mut State, name: &str, d: u32, n: u32, args: &[(Opd, u16)], normal: Option<u32>) -> R<CallFlow> {
        match name {
            "symx_bytes" => {
                let p = self.arg(st, args, 0);
                let a = self.concretize(st, p)?;
                let l = self.arg(st, args, 1);
                let l = self.concretize(st, l)?;
                let first = st.nvars;
                self.new_vars(st, l as u32);
                let s: Vec<u32> = (0..l as u32).map(|i| self.ar.var(first + i).e).collect();
                let z = vec![0u8; l as usize];
                self.store_bytes(st, a, &z, &s, "symx_bytes")?;
            }
            "symx_param" => {
                let i = self.arg(st, args, 0).c as usize;
                let v: u64 = match self.params.get(i).map(|p| p.parse()) {
                    Some(Ok(v)) => v,
                    _ => return Err(Stop::Fail(format!("parameter {}", i))),
                };
                self.set(st, d, V::k(64, v));
            }
            "symx_param_bytes" => {
                let i = self.arg(st, args, 0).c as usize;
                let p = self.arg(st, args, 1).c;
                let max = self.arg(st, args, 2).c;
                let b = match self.params.get(i) {
                    Some(b) => b.clone().into_bytes(),
                    None => return Err(Stop::Fail(format!("parameter {}", i))),
                };
                if b.len() as u64 > max {
                    return Err(Stop::Fail("parameter too long".into()));
                }
                self.store_bytes(st, p, &b, &[], "symx_param_bytes")?;
                self.set(st, d, V::k(64, b.len() as u64));
            }
            "symx_assume" => {
                let c = self.arg(st, args, 0);
                let c = self.ar.trunc(c, 1);
                let (a, b) = self.split(std::mem::replace(st, self.dummy()), c)?;
                if b.is_some() {
                    self.stats.pruned_assume += 1;
                }
                match a {
                    Some(s) => *st = s,
                    None => {
                        *st = b.unwrap();
                        return Err(Stop::End);
                    }
                }
            }
            "symx_check" => {
                let c = self.arg(st, args, 0);
                let c = self.ar.trunc(c, 1);
                let id = self.arg(st, args, 1);
                let id = self.concretize(st, id)? as u32;
                if !self.mute {
                    self.stats.checks += 1;
                    *self.check_ids.entry(id).or_insert(0) += 1;
                }
                let c = self.simp(st, c);
                match self.ar.cval(c) {
                    Some(1) => {
                        if !self.mute {
                            self.stats.checks_const += 1;
                        }
                    }
                    Some(_) => {
                        if !self.ensure(st)? {
                            return Err(Stop::End);
                        }
                        let m = st.model.1.clone();
                        self.bug(st, "check".into(), id, m);
                        return Err(Stop::End);
                    }
                    None => {
                        self.stats.checks_solver += 1;
                        let nc = self.ar.not(c);
                        if let Some(mm) = self.solve(st, nc)? {
                            let mut s2 = st.clone();
                            self.set_model(&mut s2, &mm);
                            self.add(&mut s2, nc);
                            if !self.ensure(&mut s2)? {
                                return Ok(CallFlow::Next);
                            }
                            let m = s2.model.1.clone();
                            self.bug(st, "check".into(), id, m);
                            // continue on the side where it holds, if any
                            match self.solve(st, c)? {
                                Some(mm) => {
                                    self.set_model(st, &mm);
                                    self.add(st, c);
                                }
                                None => return Err(Stop::End),
                            }
                        }
                    }
                }
            }
            "symx_reach" => {
                let id = self.arg(st, args, 0);
                let id = self.concretize(st, id)? as u32;
                if !st.reached.contains(&id) {
                    Rc::make_mut(&mut st.reached).push(id);
                }
            }
            "symx_observe" => {
                let v = self.arg(st, args, 0);
                Rc::make_mut(&mut st.obs).push(v);
            }
            "symx_work" => {
                let n = self.arg(st, args, 0);
                let n = self.concretize(st, n)?;
                let id = self.arg(st, args, 1);
                st.work_id = self.concretize(st, id)? as u32;
                if n == 0 && st.work_end != u64::MAX {
                    // how much of the limit was used, in thousandths
                    self.stats.checks += 1;
                    self.stats.checks_const += 1;
                    let used = st.work_n - (st.work_end - st.steps).min(st.work_n);
                    self.stats.work_used = self.stats.work_used.max(used as u128 * 1000 / st.work_n as u128);
                }
                st.work_n = n;
                st.work_end = if n == 0 { u64::MAX } else { st.steps + n };
            }
            "symx_memory" => {
                let v = st.mem_used;
                self.set(st, d, v);
            }
            "symx_pick" => {
                let k = self.arg(st, args, 0);
                let k = self.concretize(st, k)?;
                if k == 0 {
                    return Err(Stop::End);
                }
                // other choices: copies that continue after this instruction
                for i in (1..k).rev() {
                    let mut s = st.clone();
                    Rc::make_mut(&mut s.picks).push(i as u32);
                    self.set(&mut s, d, V::k(64, i));
                    match normal {
                        Some(t) => {
                            self.jump(&mut s, t)?;
                        }
                        None => s.frames.last_mut().unwrap().ip += 1,
                    }
                    s.depth += 1;
                    self.stats.forks += 1;
                    self.push(s);
                }
                Rc::make_mut(&mut st.picks).push(0);
                self.set(st, d, V::k(64, 0));
            }
            "malloc" => {
                let v = self.arg(st, args, 0);
                let a = self.alloc_sym(st, v, false)?;
                self.set(st, d, V::k(64, a));
            }
            "calloc" => {
                let (x, y) = (self.arg(st, args, 0), self.arg(st, args, 1));
                let v = self.ar.bin(Op::Mul, x, y);
                let a = self.alloc_sym(st, v, true)?;
                self.set(st, d, V::k(64, a));
            }
            "realloc" => {
                let p = self.arg(st, args, 0);
                let p = self.concretize(st, p)?;
                let v = self.arg(st, args, 1);
                let a = self.alloc_sym(st, v, false)?;
                if p != 0 {
                    let room = self.obj(st, a, "realloc")?.0.data.len() as u64;
                    let (o, off) = self.obj(st, p, "realloc")?;
                    if off != 0 {
                        return Err(Stop::Bug("realloc of interior pointer".into()));
                    }
                    let l = (o.data.len() as u64).min(room);
                    let (b, s) = self.load_bytes(st, p, l, "realloc")?;
                    self.store_bytes(st, a, &b, &s, "realloc")?;
                    self.free(st, p)?;
                }
                self.set(st, d, V::k(64, a));
            }
            "posix_memalign" => {
                let pp = self.arg(st, args, 0);
                let pp = self.concretize(st, pp)?;
                let v = self.arg(st, args, 2);
                let a = self.alloc_sym(st, v, false)?;
                self.store(st, pp, V::k(64, a))?;
                self.set(st, d, V::k(32, 0));
            }
            "free" => {
                let p = self.arg(st, args, 0);
                let p = self.concretize(st, p)?;
                self.free(st, p)?;
            }
            "bcmp" | "memcmp" => {
                let l = self.arg(st, args, 2);
                let l = self.concretize(st, l)?;
                let (p, q) = (self.arg(st, args, 0), self.arg(st, args, 1));
                let p = self.concretize(st, p)?;
                let q = self.concretize(st, q)?;
                st.steps += l / 16;
                let (d1, s1) = self.load_bytes(st, p, l, name)?;
                let (d2, s2) = self.load_bytes(st, q, l, name)?;
                let by = |ar: &Arena, d: &[u8], s: &[u32], i: usize| {
                    if !s.is_empty() && s[i] != 0 {
                        ar.val(s[i])
                    } else {
                        V::k(8, d[i] as u64)
                    }
                };
                let mut r = V::k(32, 0);
                if name == "bcmp" {
                    let mut all = V::b(true);
                    for i in (0..l as usize).rev() {
                        let (x, y) = (by(&self.ar, &d1, &s1, i), by(&self.ar, &d2, &s2, i));
                        let e = self.ar.eq(x, y);
                        all = self.ar.and(all, e);
                    }
                    let ne = self.ar.not(all);
                    r = self.ar.zext(ne, 32);
                } else {
                    for i in (0..l as usize).rev() {
                        let (x, y) = (by(&self.ar, &d1, &s1, i), by(&self.ar, &d2, &s2, i));
                        let e = self.ar.eq(x, y);
                        let lt = self.ar.bin(Op::Ult, x, y);
                        let dif = self.ar.ite(lt, V::k(32, u32::MAX as u64), V::k(32, 1));
                        r = self.ar.ite(e, r, dif);
                    }
                }
                self.set(st, d, r);
            }
            "strlen" => {
                let p = self.arg(st, args, 0);
                let p = self.concretize(st, p)?;
                let mut i = 0;
                loop {
                    let v = self.load(st, p + i, 8)?;
                    let z = self.ar.eq(v, V::k(8, 0));
                    match self.ar.cval(z) {
                        Some(1) => break,
                        Some(_) => i += 1,
                        None => return Err(Stop::Fail("strlen of symbolic bytes".into())),
                    }
                }
                self.set(st, d, V::k(64, i));
            }
            "abort" => return Err(Stop::Bug("abort".into())),
            // Destructors of thread-local data: they run when the thread ends, after everything that is
            // checked.  (The value under a key is never read: pthread_getspecific is unknown.)
            "pthread_key_create" => {
                let p = self.arg(st, args, 0);
                let p = self.concretize(st, p)?;
                self.store(st, p, V::k(32, 1))?;
                self.set(st, d, V::k(32, 0));
            }
            "pthread_setspecific" | "__cxa_thread_atexit_impl" => self.set(st, d, V::k(32, 0)),
            _ => return Err(Stop::Fail(format!("external function {}", name))),
        }
        let _ = n;
        Ok(CallFlow::Next)
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, d: u32, n: u32, args: &[(Opd, u16)]) -> R<()> {
        match i {
            Intr::Nop => {}
            Intr::Assume => {}
            Intr::Memcpy | Intr::Memmove => {
                let l = self.arg(st, args, 2);
                let l = self.concretize(st, l)?;
                let p = self.arg(st, args, 0);
                let p = self.concretize(st, p)?;
                let q = self.arg(st, args, 1);
                let q = self.concretize(st, q)?;
                st.steps += l / 16;
                if l > 0 {
                    let (b, s) = self.load_bytes(st, q, l, "memcpy source")?;
                    self.store_bytes(st, p, &b, &s, "memcpy target")?;
                }
            }
            Intr::Memset => {
                let l = self.arg(st, args, 2);
                let l = self.concretize(st, l)?;
                let p = self.arg(st, args, 0);
                let p = self.concretize(st, p)?;
                let v = self.arg(st, args, 1);
                st.steps += l / 16;
                if l > 0 {
                    let b = vec![v.c as u8; l as usize];
                    let s = if v.e != 0 { vec![v.e; l as usize] } else { Vec::new() };
                    self.store_bytes(st, p, &b, &s, "memset")?;
                }
            }
            Intr::IsConstant => self.set(st, d, V::b(false)),
            Intr::Expect | Intr::ThreadLocal => {
                let v = self.arg(st, args, 0);
                self.set(st, d, v);
            }
            Intr::PtrMask => {
                let (a, b) = (self.arg(st, args, 0), self.arg(st, args, 1));
                let r = self.ar.and(a, b);
                self.set(st, d, r);
            }
            Intr::LoadRelative => {
                let p = self.arg(st, args, 0);
                let o = self.arg(st, args, 1);
                let a0 = self.concretize(st, p)?;
                let off = self.concretize(st, o)?;
                let k = self.load(st, a0.wrapping_add(off), 32)?;
                if k.e != 0 {
                    return Err(Stop::Fail("load.relative of symbolic".into()));
                }
                // relative offsets are stored as differences of object ids (see ir.rs)
                let id = (a0 >> OBJ_SHIFT) as i64 + sext(k.c, 32);
                self.set(st, d, V::k(64, sym_addr(id as u32)));
            }
            Intr::Trap => return Err(Stop::Bug("trap".into())),
            Intr::ReduceOr | Intr::ReduceAnd | Intr::ReduceAdd => {
                let x = self.getn(st, &args[0].0);
                let op = match i {
                    Intr::ReduceOr => Op::Or,
                    Intr::ReduceAnd => Op::And,
                    _ => Op::Add,
                };
                let mut r = x[0];
                for v in &x[1..] {
                    r = self.ar.bin(op, r, *v);
                }
                self.set(st, d, r);
            }
            _ => {
                // elementwise
                let a = self.getn(st, &args[0].0);
                let b = if args.len() > 1 { self.getn(st, &args[1].0) } else { Vec::new() };
                let c = if args.len() > 2 { self.getn(st, &args[2].0) } else { Vec::new() };
                let pairs = matches!(
                    i,
                    Intr::UMulO | Intr::SMulO | Intr::UAddO | Intr::SAddO | Intr::USubO | Intr::SSubO
                );
                if pairs {
                    if a.len() != 1 {
                        return Err(Stop::Fail("vector overflow intrinsic".into()));
                    }
                    let (r, o) = self.overflow(i, a[0], b[0])?;
                    self.setn(st, d, &[r, o]);
                    return Ok(());
                }
                let mut out = Vec::new();
                for k in 0..a.len() {
                    let y = b.get(k).cloned().unwrap_or(V::k(1, 0));
                    let z = c.get(k).cloned().unwrap_or(V::k(1, 0));
                    out.push(self.scalar_intr(i, a[k], y, z, n)?);
                }
                // result width for ucmp/scmp follows the declared return type (i8)
                self.setn(st, d, &out);
            }
        }
        Ok(())
    }

    fn overflow(&mut self, i: Intr, a: V, b: V) -> R<(V, V)> {
        let w = a.w;
        let wide = w * 2;
        if wide > 128 {
            return Err(Stop::Fail("wide overflow".into()));
        }
        let signed = matches!(i, Intr::SMulO | Intr::SAddO | Intr::SSubO);
        let ext = |ar: &mut Arena, v: V| if signed { ar.sext(v, wide) } else { ar.zext(v, wide) };
        let op = match i {
            Intr::UMulO | Intr::SMulO => Op::Mul,
            Intr::UAddO | Intr::SAddO => Op::Add,
            _ => Op::Sub,
        };
        let r = self.ar.bin(op, a, b);
        if i == Intr::USubO {
            let o = self.ar.bin(Op::Ult, a, b);
            return Ok((r, o));
        }
        if i == Intr::UAddO {
            let o = self.ar.bin(Op::Ult, r, a);
            return Ok((r, o));
        }
        let x = ext(&mut self.ar, a);
        let y = ext(&mut self.ar, b);
        let full = self.ar.bin(op, x, y);
        let back = ext(&mut self.ar, r);
        let e = self.ar.eq(full, back);
        let o = self.ar.not(e);
        Ok((r, o))
    }

    fn scalar_intr(&mut self, i: Intr, a: V, b: V, c: V, _n: u32) -> R<V> {
        let w = a.w;
        let ar = &mut self.ar;
        Ok(match i {
            Intr::UMax => {
                let l = ar.bin(Op::Ult, a, b);
                ar.ite(l, b, a)
            }
            Intr::UMin => {
                let l = ar.bin(Op::Ult, a, b);
                ar.ite(l, a, b)
            }
            Intr::SMax => {
                let l = ar.bin(Op::Slt, a, b);
                ar.ite(l, b, a)
            }
            Intr::SMin => {
                let l = ar.bin(Op::Slt, a, b);
                ar.ite(l, a, b)
            }
            Intr::USubSat => {
                let l = ar.bin(Op::Ult, a, b);
                let s = ar.bin(Op::Sub, a, b);
                let z = ar.konst(w, 0);
                ar.ite(l, z, s)
            }
            Intr::UAddSat => {
                let s = ar.bin(Op::Add, a, b);
                let l = ar.bin(Op::Ult, s, a);
                let m = ar.konst(w, u128::MAX);
                ar.ite(l, m, s)
            }
            Intr::Ctlz => ar.unary(Op::Ctlz, a),
            Intr::Cttz => ar.unary(Op::Cttz, a),
            Intr::Ctpop => ar.unary(Op::Ctpop, a),
            Intr::Bswap => {
                let nb = w / 8;
                let mut r = ar.extract(a, 0, 8);
                for k in 1..nb {
                    let x = ar.extract(a, k * 8, 8);
                    r = ar.concat(r, x);
                }
                r
            }
            Intr::BitReverse => {
                let mut r = ar.extract(a, 0, 1);
                for k in 1..w {
                    let x = ar.extract(a, k, 1);
                    r = ar.concat(r, x);
                }
                r
            }
            Intr::Fshl | Intr::Fshr => {
                let k = match ar.cval(c) {
                    Some(k) => (k % w as u128) as u16,
                    None => {
                        // general: concat(a,b) shifted
                        if w > 64 {
                            return Err(Stop::Fail("funnel shift".into()));
                        }
                        let m = ar.konst(w, w as u128);
                        let s = ar.bin(Op::URem, c, m);
                        let full = ar.concat(a, b);
                        let s2 = ar.zext(s, 2 * w);
                        return Ok(if i == Intr::Fshl {
                            let x = ar.bin(Op::Shl, full, s2);
                            ar.extract(x, w, w)
                        } else {
                            let x = ar.bin(Op::LShr, full, s2);
                            ar.extract(x, 0, w)
                        });
                    }
                };
                if k == 0 {
                    return Ok(if i == Intr::Fshl { a } else { b });
                }
                let k = if i == Intr::Fshl { k } else { w - k };
                let hi = ar.extract(a, 0, w - k);
                let lo = ar.extract(b, w - k, k);
                ar.concat(hi, lo)
            }
            Intr::Abs => {
                let s = ar.extract(a, w - 1, 1);
                let z = ar.konst(w, 0);
                let ng = ar.bin(Op::Sub, z, a);
                ar.ite(s, ng, a)
            }
            Intr::FAbs => ar.and(a, V::k(w, mask64(w) >> 1)),
            Intr::CopySign => {
                let x = ar.and(a, V::k(w, mask64(w) >> 1));
                let y = ar.and(b, V::k(w, 1 << (w - 1)));
                ar.or(x, y)
            }
            Intr::UCmp | Intr::SCmp => {
                let o = if i == Intr::UCmp { Op::Ult } else { Op::Slt };
                let l = ar.bin(o, a, b);
                let e = ar.eq(a, b);
                let x = ar.ite(e, V::k(8, 0), V::k(8, 1));
                ar.ite(l, V::k(8, 0xff), x)
            }
            _ => return Err(Stop::Fail(format!("intrinsic {:?}", i))),
        })
    }

    // ------------------------------------------------------------ merging

    fn mask_expr(&mut self, v: usize, m: &Mask) -> V {
        let bits: Vec<u64> = (0..256).map(|i| mget(m, i) as u64).collect();
        self.ar.tab(1, v as u32, bits)
    }

    fn liveness(&mut self, f: &Rc<Func>) -> Rc<Vec<Vec<u64>>> {
        if let Some(l) = self.live_in.get(&f.id) {
            return l.clone();
        }
        let words = (f.nslots as usize + 63) / 64;
        let n = f.blocks.len();
        let mut lin = vec![vec![0u64; words]; n];
        let mut changed = true;
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by_key(|b| std::cmp::Reverse(f.blocks[*b].rpo));
        while changed {
            changed = false;
            for &b in &order {
                let mut l = vec![0u64; words];
                for s in succs(&f.blocks[b]) {
                    live_edge(f, b as u32, s, &lin[s as usize], &mut l);
                }
                for (i, _) in f.blocks[b].ins.iter().rev() {
                    transfer(i, &mut l);
                }
                if l != lin[b] {
                    lin[b] = l;
                    changed = true;
                }
            }
        }
        // remove phi results from live-in: lin is "after phis"
        let r = Rc::new(lin);
        self.live_in.insert(f.id, r.clone());
        r
    }

    /// Slots live just before instruction `ip` of `block` (after phis when ip = 0).
    fn live_at(&mut self, f: &Rc<Func>, block: u32, ip: u32, after_call: bool) -> Live {
        let k = (f.id, block, ip * 2 + after_call as u32);
        if let Some(l) = self.live.get(&k) {
            return l.clone();
        }
        let lin = self.liveness(f);
        let words = (f.nslots as usize + 63) / 64;
        let mut l = vec![0u64; words];
        let b = &f.blocks[block as usize];
        for s in succs(b) {
            live_edge(f, block, s, &lin[s as usize], &mut l);
        }
        let stop = if after_call { ip + 1 } else { ip } as usize;
        for (i, (ins, _)) in b.ins.iter().enumerate().rev() {
            if i < stop {
                break;
            }
            transfer(ins, &mut l);
        }
        let r = Rc::new(l);
        self.live.insert(k, r.clone());
        r
    }

    fn try_merge(&mut self, a: State, b: State) -> Result<State, (State, State)> {
        if a.frames.len() != b.frames.len()
            || a.mem.next != b.mem.next
            || a.mem.stack.len() != b.mem.stack.len()
            || a.nvars != b.nvars
            || a.picks != b.picks
            || a.obs.len() != b.obs.len()
            || a.reached != b.reached
        {
            return Err((a, b));
        }
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if x.f.id != y.f.id
                || x.block != y.block
                || x.ip != y.ip
                || x.stack_base != y.stack_base
                || x.ret_dst != y.ret_dst
                || x.normal != y.normal
            {
                return Err((a, b));
            }
        }
        // memory shape
        let np = a.mem.pages.len().max(b.mem.pages.len());
        for p in 0..np {
            let (x, y) = (a.mem.pages.get(p), b.mem.pages.get(p));
            match (x, y) {
                (Some(x), Some(y)) if Rc::ptr_eq(x, y) => {}
                _ => {
                    for i in 0..PAGE {
                        let id = (p * PAGE + i) as u32;
                        let ox = x.and_then(|x| x[i].as_ref());
                        let oy = y.and_then(|y| y[i].as_ref());
                        match (ox, oy) {
                            (None, None) => {}
                            (Some(u), Some(v)) => {
                                if u.data.len() != v.data.len() {
                                    return Err((a, b));
                                }
                            }
                            _ => {
                                if id > self.nsyms {
                                    return Err((a, b));
                                }
                            }
                        }
                    }
                }
            }
        }
        // live registers must have equal widths, and pointers must agree
        let n = a.frames.len();
        let mut lives = Vec::with_capacity(n);
        for (i, fr) in a.frames.iter().enumerate() {
            let top = i + 1 == n;
            let l = self.live_at(&fr.f, fr.block, fr.ip, !top);
            lives.push(l);
        }
        for i in 0..n {
            let (x, y) = (&a.frames[i].regs, &b.frames[i].regs);
            if Rc::ptr_eq(x, y) {
                continue;
            }
            for s in 0..x.len() {
                if lives[i][s >> 6] >> (s & 63) & 1 == 1 && x[s] != y[s] {
                    if x[s].w != y[s].w {
                        return Err((a, b));
                    }
                    if x[s].w > 1 && (is_ptr(x[s]) || is_ptr(y[s]) || (x[s].e == 0 && y[s].e == 0)) {
                        return Err((a, b));
                    }
                }
            }
        }
        // path conditions
        let common: Vec<u32> = a.pc.iter().filter(|c| b.pc.contains(c)).cloned().collect();
        let ao: Vec<u32> = a.pc.iter().filter(|c| !common.contains(c)).cloned().collect();
        let bo: Vec<u32> = b.pc.iter().filter(|c| !common.contains(c)).cloned().collect();
        let mut diff = Vec::new();
        for v in 0..a.nvars as usize {
            if a.dom[v] != b.dom[v] {
                diff.push(v);
            }
        }
        let mut ca = V::b(true);
        let mut cb = V::b(true);
        let mut dom = (*a.dom).clone();
        let mut fixed = (*a.fixed).clone();
        for &v in &diff {
            let ea = self.mask_expr(v, &a.dom[v]);
            let eb = self.mask_expr(v, &b.dom[v]);
            ca = self.ar.and(ca, ea);
            cb = self.ar.and(cb, eb);
            dom[v] = mor(&a.dom[v], &b.dom[v]);
            fixed[v] = mcount(&dom[v]) == 1;
        }
        for c in &ao {
            let v = self.ar.val(*c);
            ca = self.ar.and(ca, v);
        }
        for c in &bo {
            let v = self.ar.val(*c);
            cb = self.ar.and(cb, v);
        }
        // the guard selects a's values
        let guard = ca;
        let either = if diff.len() <= 1 && ao.is_empty() && bo.is_empty() {
            V::b(true)
        } else {
            self.ar.or(ca, cb)
        };
        let mut m = a;
        if m.lazy && !b.lazy {
            m.lazy = false;
            m.model = b.model.clone();
        }
        m.dom = Rc::new(dom);
        m.fixed = Rc::new(fixed);
        m.pc = Rc::new(common);
        let mut en = vec![false; m.nvars as usize];
        for c in m.pc.iter() {
            for v in self.ar.support(*c).iter() {
                en[*v as usize] = true;
            }
        }
        m.entangled = Rc::new(en);
        self.add(&mut m, either);
        if m.conc != b.conc {
            let c: Vec<(u32, u64)> = m.conc.iter().filter(|x| b.conc.contains(x)).cloned().collect();
            m.conc = Rc::new(c);
        }
        // registers
        for i in 0..n {
            if Rc::ptr_eq(&m.frames[i].regs, &b.frames[i].regs) {
                continue;
            }
            let y = b.frames[i].regs.clone();
            let x = Rc::make_mut(&mut m.frames[i].regs);
            for s in 0..x.len() {
                if lives[i][s >> 6] >> (s & 63) & 1 == 0 {
                    x[s] = V::k(1, 0);
                } else if x[s] != y[s] {
                    x[s] = self.ar.ite(guard, x[s], y[s]);
                }
            }
        }
        // memory
        for p in 0..np {
            let y = match b.mem.pages.get(p) {
                Some(y) => y.clone(),
                None => continue,
            };
            while m.mem.pages.len() <= p {
                m.mem.pages.push(Rc::new(Default::default()));
            }
            if Rc::ptr_eq(&m.mem.pages[p], &y) {
                continue;
            }
            for i in 0..PAGE {
                let id = (p * PAGE + i) as u32;
                let (ox, oy) = (m.mem.pages[p][i].clone(), y[i].clone());
                let (ox, oy) = match (ox, oy) {
                    (None, None) => continue,
                    (Some(x), Some(y)) => (x, y),
                    (Some(x), None) => (x, self.globals[id as usize].clone().unwrap()),
                    (None, Some(y)) => (self.globals[id as usize].clone().unwrap(), y),
                };
                if Rc::ptr_eq(&ox, &oy) {
                    continue;
                }
                let r = self.merge_obj(&ox, &oy, guard);
                Rc::make_mut(&mut m.mem.pages[p])[i] = Some(Rc::new(r));
            }
        }
        // pages only a has: globals b left untouched
        for p in b.mem.pages.len()..m.mem.pages.len() {
            for i in 0..PAGE {
                let id = (p * PAGE + i) as u32;
                if id <= self.nsyms {
                    if let Some(ox) = m.mem.pages[p][i].clone() {
                        let oy = self.globals[id as usize].clone().unwrap();
                        let r = self.merge_obj(&ox, &oy, guard);
                        Rc::make_mut(&mut m.mem.pages[p])[i] = Some(Rc::new(r));
                    }
                }
            }
        }
        for i in 0..m.mem.stack.len() {
            let (ox, oy) = (m.mem.stack[i].clone(), b.mem.stack[i].clone());
            if Rc::ptr_eq(&ox, &oy) {
                continue;
            }
            let r = self.merge_obj(&ox, &oy, guard);
            m.mem.stack[i] = Rc::new(r);
        }
        if m.obs != b.obs {
            let o: Vec<V> = m
                .obs
                .iter()
                .zip(b.obs.iter())
                .map(|(x, y)| if x == y { *x } else { self.ar.ite(guard, *x, *y) })
                .collect();
            m.obs = Rc::new(o);
        }
        if m.mem_used != b.mem_used {
            m.mem_used = self.ar.ite(guard, m.mem_used, b.mem_used);
        }
        m.steps = m.steps.max(b.steps);
        m.work_end = m.work_end.max(b.work_end);
        self.stats.merges += 1;
        Ok(m)
    }

    fn merge_obj(&mut self, x: &Obj, y: &Obj, guard: V) -> Obj {
        let mut o = x.clone();
        let n = o.data.len();
        for i in 0..n {
            let sx = if x.sym.is_empty() { 0 } else { x.sym[i] };
            let sy = if y.sym.is_empty() { 0 } else { y.sym[i] };
            if sx == sy && (sx != 0 || x.data[i] == y.data[i]) {
                continue;
            }
            let vx = if sx != 0 { self.ar.val(sx) } else { V::k(8, x.data[i] as u64) };
            let vy = if sy != 0 { self.ar.val(sy) } else { V::k(8, y.data[i] as u64) };
            let r = self.ar.ite(guard, vx, vy);
            if o.sym.is_empty() {
                o.sym = vec![0; n];
            }
            match self.ar.cval(r) {
                Some(c) => {
                    o.data[i] = c as u8;
                    o.sym[i] = 0;
                }
                None => o.sym[i] = r.e,
            }
        }
        o
    }
}

fn is_ptr(v: V) -> bool {
    v.e == 0 && v.c >> OBJ_SHIFT != 0 && (v.c >> OBJ_SHIFT) < (1 << 31)
}

enum CallFlow {
    Next,
    Entered,
    #[allow(dead_code)]
    Again,
}

fn intersects(a: &[u16], b: &[u16]) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i] == b[j] {
            return true;
        }
        if a[i] < b[j] {
            i += 1
        } else {
            j += 1
        }
    }
    false
}

/// Position of a state in the program; smaller runs first, equal positions may merge.  Inside the
/// outermost loop the last input byte read comes first, and states that are at a loop header wait
/// for the others.
pub fn key(s: &State) -> Vec<u32> {
    let mut k = Vec::with_capacity(s.frames.len() * 6);
    let mut first = true;
    for fr in &s.frames {
        let rpo = fr.f.blocks[fr.block as usize].rpo;
        if let (Some((h, _)), true) = (fr.iters.first(), first) {
            first = false;
            k.push(fr.f.blocks[*h as usize].rpo);
            k.push(s.last);
            let at_header = fr.ip == 0 && fr.f.blocks[fr.block as usize].loops.last() == Some(&fr.block);
            k.push(at_header as u32);
        }
        for (h, c) in &fr.iters {
            k.push(fr.f.blocks[*h as usize].rpo);
            k.push(if s.last == 0 { *c } else { 0 });
        }
        k.push(rpo);
        k.push(fr.ip);
    }
    k
}

fn slots(o: &Opd, f: &mut dyn FnMut(u32)) {
    match o {
        Opd::R(s) => f(*s),
        Opd::RM(s, n) => {
            for i in 0..*n {
                f(*s + i)
            }
        }
        _ => {}
    }
}

fn uses(i: &I, f: &mut dyn FnMut(u32)) {
    match i {
        I::Bin(_, _, _, _, a, b) | I::Icmp(_, _, _, _, a, b) | I::Fcmp(_, _, _, a, b) => {
            slots(a, f);
            slots(b, f);
        }
        I::Cast(_, _, _, _, _, a) | I::Load(_, a, _) | I::Move(_, _, a) | I::BitcastVec(_, a, _, _) => slots(a, f),
        I::Gep(_, b, _, idx) => {
            slots(b, f);
            for x in idx {
                slots(&x.0, f);
            }
        }
        I::Store(a, b, _) | I::Shuffle(_, _, a, b, _) | I::ExtractElt(_, _, _, a, b) | I::Rmw(_, _, _, a, b) => {
            slots(a, f);
            slots(b, f);
        }
        I::Select(_, _, c, a, b, _) | I::InsertElt(_, _, a, b, c) | I::CmpXchg(_, _, a, b, c) => {
            slots(a, f);
            slots(b, f);
            slots(c, f);
        }
        I::Call(c, _, _, args, _) => {
            if let Callee::Ind(o) = c {
                slots(o, f);
            }
            for a in args {
                slots(&a.0, f);
            }
        }
        I::Insert(_, _, a, _, _, b) => {
            slots(a, f);
            slots(b, f);
        }
        I::Alloca(_, _, _, c) => slots(c, f),
        I::CondBr(c, _, _) | I::Switch(c, _, _, _) => slots(c, f),
        I::Ret(_, Some(o)) => slots(o, f),
        _ => {}
    }
}

fn defs(i: &I) -> (u32, u32) {
    match i {
        I::Bin(_, d, _, n, _, _) | I::Icmp(_, d, _, n, _, _) | I::Cast(_, d, _, _, n, _) => (*d, *n),
        I::Fcmp(_, d, _, _, _) | I::Gep(d, _, _, _) | I::Alloca(d, _, _, _) | I::Rmw(_, d, _, _, _) => (*d, 1),
        I::Load(d, _, l) => (*d, l.len() as u32),
        I::Select(d, n, ..) | I::Move(d, n, _) | I::Insert(d, n, ..) | I::InsertElt(d, n, ..) => (*d, *n),
        I::ExtractElt(d, ..) => (*d, 1),
        I::Shuffle(d, _, _, _, m) => (*d, m.len() as u32),
        I::BitcastVec(d, _, _, t) => (*d, t.len() as u32),
        I::Call(_, d, n, _, _) => (*d, *n),
        I::CmpXchg(d, ..) => (*d, 2),
        _ => (0, 0),
    }
}

fn transfer(i: &I, l: &mut Vec<u64>) {
    let (d, n) = defs(i);
    for s in d..d + n {
        l[s as usize >> 6] &= !(1 << (s & 63));
    }
    uses(i, &mut |s| l[s as usize >> 6] |= 1 << (s & 63));
}

/// Slots live on the edge from -> to given what is live in `to` after its phis.
fn live_edge(f: &Func, from: u32, to: u32, lin: &[u64], l: &mut Vec<u64>) {
    let b = &f.blocks[to as usize];
    let mut x = lin.to_vec();
    for p in &b.phis {
        for s in p.dst..p.dst + p.n {
            x[s as usize >> 6] &= !(1 << (s & 63));
        }
    }
    for p in &b.phis {
        if let Some(v) = p.inc.iter().find(|v| v.0 == from) {
            slots(&v.1, &mut |s| x[s as usize >> 6] |= 1 << (s & 63));
        }
    }
    for (a, b) in l.iter_mut().zip(x) {
        *a |= b;
    }
}
