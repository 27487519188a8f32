//! Symbolic executor: depth-first path exploration over the IR, forks decided by the solver.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct UfApp {
    pub tag: u64,
    pub inp: Vec<E>,
    pub out: Vec<E>,
    pub inj: bool,
}

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<E>,
    /// congruence and injectivity of uninterpreted functions not yet needed by a query; every model satisfies them
    pub lazy: Rc<Vec<E>>,
    pub facts: Rc<HashSet<E, BuildFx>>,
    /// values a byte variable can still take, from the path condition's constraints on that variable alone
    pub doms: Rc<HashMap<u32, [u64; 4]>>,
    /// some byte's domain has a single value
    pub pins: bool,
    pub model: Rc<Model>,
    pub inputs: Rc<Vec<(String, Vec<E>)>>,
    pub choices: Rc<Vec<u64>>,
    pub ufs: Rc<Vec<UfApp>>,
    pub hash_seed: u64,
    pub rng: u64,
    pub loc: Option<Rc<String>>,
    pub covers: Rc<BTreeSet<String>>,
    pub errno: u64,
    pub keyn: u32,
    pub observed: Rc<Vec<(String, Vec<E>)>>,
    /// heap objects below this number, and globals, are shared: only atomic writes are allowed (0: no)
    pub frozen: u64,
    pub atomic: bool,
    /// shared integers that atomic operations wrote, with what they held before
    pub left: Vec<(u64, u32, V)>,
}

enum Ans {
    Unsat,
    Sat(Rc<Model>),
    Unknown,
}
/// marks a fault as a write to shared memory
const SHARED: &str = "shared: ";
pub enum Stop {
    /// path is over
    End,
}
type R<T> = Result<T, Stop>;

pub struct Witness {
    pub inputs: Vec<(String, Vec<u8>)>,
    pub choices: Vec<u64>,
    pub ufs: Vec<(u64, Vec<u8>, Vec<u8>)>,
    pub covers: Vec<String>,
    pub observed: Vec<(String, Vec<u8>)>,
}
#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub choices: Vec<u64>,
    pub ufs: Vec<(u64, Vec<u8>, Vec<u8>)>,
    pub hash_seed: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum Bi {
    None,
    Nop,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    RAlloc,
    RAllocZ,
    RDealloc,
    RRealloc,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Raise,
    Abort,
    RetZero,
    Write,
    Writev,
    HashKeys,
    KeyCreate,
    Errno,
    Syscall,
    Intr,
    VmBytes,
    VmAssume,
    VmCheck,
    VmCover,
    VmChoose,
    VmUf,
    VmHashSeed,
    VmHeapLive,
    VmFreeze,
    VmConc,
    VmObserve,
    VmFail,
    VmIsSym,
    VmSelect,
}

pub struct Cfg {
    pub max_paths: u64,
    pub max_time: f64,
    pub max_instr: u64,
    pub max_viol: usize,
    /// seconds to go on after the first violation
    pub grace: f64,
    /// resident memory in MB to stop at
    pub max_mem: u64,
    pub verbose: bool,
    pub hash_seed: u64,
    pub witness: usize,
    pub concrete: Option<Vec<(String, Vec<u8>)>>,
}

fn resident() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) / 256
}

pub struct Exec {
    pub m: Module,
    pub p: Pool,
    pub s: Solver,
    pub cfg: Cfg,
    work: Vec<State>,
    fcache: Vec<Option<&'static Func>>,
    bi: Vec<Bi>,
    gcache: HashMap<u64, Rc<Obj>>,
    t0: Instant,
    first_viol: Option<f64>,
    pub instrs: u64,
    pub paths: u64,
    pub forks: u64,
    pub infeasible: u64,
    pub checks: BTreeMap<String, (u64, u64, u64)>, // label -> (evaluated, trivially true, solver-discharged)
    pub covers: BTreeMap<String, u64>,
    pub viols: Vec<Violation>,
    pub witnesses: Vec<Witness>,
    pub finished: u64,
    pub wrng: u64,
    pub incomplete: BTreeMap<String, u64>,
    pub mem_checks: u64,
    pub vcount: u64,
    pub max_pc: usize,
    pub observed: BTreeSet<String>,
    concn: HashMap<String, usize>,
}

fn rd(st: &State, o: &O) -> V {
    match o {
        O::R(r) => st.top.regs[*r as usize].clone(),
        O::I(v) => v.clone(),
    }
}

macro_rules! bail {
    ($s:expr, $st:expr, $($a:tt)*) => {{
        let msg = format!($($a)*);
        $s.incomplete_at($st, msg);
        return Err(Stop::End);
    }};
}

impl Exec {
    pub fn new(m: Module, cfg: Cfg) -> Exec {
        let nf = m.funcs.len();
        let mut bi = Vec::with_capacity(nf);
        for f in &m.funcs {
            bi.push(classify(&f.name, f.body.is_some()));
        }
        Exec {
            m,
            p: Pool::new(),
            s: Solver::new(),
            cfg,
            work: vec![],
            fcache: vec![None; nf],
            bi,
            gcache: HashMap::new(),
            t0: Instant::now(),
            first_viol: None,
            instrs: 0,
            paths: 0,
            forks: 0,
            infeasible: 0,
            checks: BTreeMap::new(),
            covers: BTreeMap::new(),
            viols: vec![],
            witnesses: vec![],
            finished: 0,
            wrng: 0,
            incomplete: BTreeMap::new(),
            mem_checks: 0,
            vcount: 0,
            max_pc: 0,
            observed: BTreeSet::new(),
            concn: HashMap::new(),
        }
    }
    pub fn executed_functions(&self) -> Vec<String> {
        self.fcache.iter().enumerate().filter(|(_, f)| f.is_some()).map(|(i, _)| self.m.funcs[i].name.clone()).collect()
    }
    fn func(&mut self, id: u32) -> &'static Func {
        if let Some(f) = self.fcache[id as usize] {
            return f;
        }
        let f = self.m.func(id);
        let r: &'static Func = unsafe { &*(Rc::into_raw(f)) };
        self.fcache[id as usize] = Some(r);
        r
    }

    // ------------------------------------------------------------------ run
    pub fn run(&mut self, entry: &str) {
        let id = match self.m.sym.get(entry) {
            Some(Sym::F(i)) => *i,
            _ => panic!("entry {} not found", entry),
        };
        let f = self.func(id);
        let st = State {
            top: Frame { f, blk: 0, ip: 0, regs: vec![V::P; f.nregs as usize], allocas: vec![] },
            stack: vec![],
            mem: Mem::new(self.m.first_dyn()),
            pc: vec![],
            lazy: Rc::new(vec![]),
            facts: Rc::new(HashSet::default()),
            doms: Rc::new(HashMap::default()),
            pins: false,
            model: Rc::new(Model::new(HashMap::default())),
            inputs: Rc::new(vec![]),
            choices: Rc::new(vec![]),
            ufs: Rc::new(vec![]),
            hash_seed: self.cfg.hash_seed,
            rng: 0,
            loc: None,
            covers: Rc::new(BTreeSet::new()),
            errno: 0,
            keyn: 1,
            observed: Rc::new(vec![]),
            frozen: 0,
            atomic: false,
            left: vec![],
        };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            self.path(&mut st);
            self.paths += 1;
            self.max_pc = self.max_pc.max(st.pc.len());
            if self.cfg.verbose && self.paths % 200 == 0 {
                eprintln!(
                    "paths {} work {} instrs {} forks {} queries {} ({:.1}s) t {:.1}s",
                    self.paths,
                    self.work.len(),
                    self.instrs,
                    self.forks,
                    self.s.queries,
                    self.s.time,
                    self.t0.elapsed().as_secs_f64()
                );
            }
            if self.viols.len() >= self.cfg.max_viol {
                if !self.work.is_empty() {
                    *self.incomplete.entry("stopped after the violation limit".into()).or_insert(0) += 1;
                }
                break;
            }
            if self.paths >= self.cfg.max_paths && !self.work.is_empty() {
                *self.incomplete.entry(format!("path limit {} reached", self.cfg.max_paths)).or_insert(0) += 1;
                break;
            }
            if !self.viols.is_empty() && !self.work.is_empty() {
                let now = self.t0.elapsed().as_secs_f64();
                let first = *self.first_viol.get_or_insert(now);
                if now > first + self.cfg.grace.max(first * 0.5) {
                    *self.incomplete.entry("stopped some time after a violation".into()).or_insert(0) += 1;
                    break;
                }
            }
            if self.paths % 16 == 0 && self.cfg.max_mem > 0 && resident() > self.cfg.max_mem && !self.work.is_empty() {
                *self.incomplete.entry("memory limit reached".into()).or_insert(0) += 1;
                break;
            }
            if self.over() && !self.work.is_empty() {
                *self.incomplete.entry("time or instruction limit reached".into()).or_insert(0) += 1;
                break;
            }
        }
    }
    fn over(&self) -> bool {
        self.t0.elapsed().as_secs_f64() > self.cfg.max_time || self.instrs > self.cfg.max_instr
    }
    fn where_(&self, st: &State) -> Vec<String> {
        let mut v = vec![format!("{}:bb{}:{}", st.top.f.name, st.top.blk, st.top.ip)];
        for f in st.stack.iter().rev().take(12) {
            v.push(f.f.name.clone());
        }
        v
    }
    fn incomplete_at(&mut self, st: &State, msg: String) {
        let w = self.where_(st);
        let k = format!("{} at {}", msg, w.iter().take(4).cloned().collect::<Vec<_>>().join(" < "));
        *self.incomplete.entry(k).or_insert(0) += 1;
    }
    fn violation(&mut self, st: &State, model: &Model, label: &str, msg: String) {
        self.vcount += 1;
        if self.viols.iter().filter(|v| v.label == label).count() >= 1 {
            return;
        }
        let p = &self.p;
        let ev = |v: &Vec<E>| v.iter().map(|&e| model.eval(p, e) as u8).collect::<Vec<u8>>();
        let v = Violation {
            label: label.to_string(),
            msg,
            stack: self.where_(st),
            inputs: st.inputs.iter().map(|(n, b)| (n.clone(), ev(b))).collect(),
            choices: st.choices.to_vec(),
            ufs: st.ufs.iter().map(|u| (u.tag, ev(&u.inp), ev(&u.out))).collect(),
            hash_seed: st.hash_seed,
        };
        self.viols.push(v);
    }
    /// Reservoir sample of finished paths, each with a model: replayed natively they must do the same.
    fn witness(&mut self, st: &State) {
        self.finished += 1;
        let n = self.cfg.witness as u64;
        if n == 0 {
            return;
        }
        let mut rnd = || {
            self.wrng = self.wrng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let x = self.wrng >> 29;
            (x ^ x >> 17) as u64
        };
        let slot = if (self.witnesses.len() as u64) < n { self.witnesses.len() as u64 } else { rnd() % self.finished };
        if slot >= n {
            return;
        }
        // random values where the path condition does not care
        let mut vals = st.model.vals.clone();
        let mut fixed: HashSet<u32, BuildFx> = HashSet::default();
        for &c in st.pc.iter() {
            fixed.extend(self.p.support(c).iter().copied());
        }
        for (_, b) in st.inputs.iter() {
            for &e in b {
                for &v in self.p.support(e).iter() {
                    if !fixed.contains(&v) {
                        vals.insert(v, (rnd() & 0xff) as u128);
                    }
                }
            }
        }
        let m = Model::new(vals);
        let ok = st.pc.iter().chain(st.lazy.iter()).all(|&c| m.eval(&self.p, c) == 1);
        let m = if ok { Rc::new(m) } else { st.model.clone() };
        let p = &self.p;
        let ev = |v: &Vec<E>| v.iter().map(|&e| m.eval(p, e) as u8).collect::<Vec<u8>>();
        let w = Witness {
            inputs: st.inputs.iter().map(|(n, b)| (n.clone(), ev(b))).collect(),
            choices: st.choices.to_vec(),
            ufs: st.ufs.iter().map(|u| (u.tag, ev(&u.inp), ev(&u.out))).collect(),
            covers: st.covers.iter().cloned().collect(),
            observed: st.observed.iter().map(|(n, b)| (n.clone(), ev(b))).collect(),
        };
        if slot as usize == self.witnesses.len() {
            self.witnesses.push(w)
        } else {
            self.witnesses[slot as usize] = w
        }
    }
    /// path-ending violation under the current path model
    fn fault(&mut self, st: &State, label: &str, msg: String) -> Stop {
        let m = st.model.clone();
        let loc = st.loc.as_ref().map(|l| format!(" [{}]", l)).unwrap_or_default();
        let (label, msg) = match msg.strip_prefix(SHARED) {
            Some(m) => ("shared memory is written", m.to_string()),
            None => (label, msg),
        };
        self.violation(st, &m, label, format!("{}{}", msg, loc));
        Stop::End
    }

    fn path(&mut self, st: &mut State) {
        const ENDLESS: u32 = 400_000_000;
        let mut k: u32 = 0;
        loop {
            k = k.wrapping_add(1);
            if k & 0xffff == 0 && self.over() {
                self.incomplete_at(st, "time or instruction limit reached inside a path".into());
                return;
            }
            if k > ENDLESS {
                self.fault(st, "endless run", format!("no end after {} instructions without a decision", ENDLESS));
                return;
            }
            self.instrs += 1;
            let ins: &'static I = &st.top.f.blocks[st.top.blk as usize].ins[st.top.ip as usize];
            match self.step(st, ins) {
                Ok(true) => {}
                Ok(false) => return, // finished normally
                Err(Stop::End) => return,
            }
        }
    }

    // ------------------------------------------------------------------ values
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(x) => self.p.c(*x, w),
            V::S(e) => {
                debug_assert_eq!(self.p.w(*e), w);
                *e
            }
            V::P => self.p.c(0, w),
            V::A(_) => panic!("aggregate used as a scalar"),
        }
    }
    #[inline]
    fn v(&self, e: E) -> V {
        match self.p.cv(e) {
            Some(k) => V::C(k),
            None => V::S(e),
        }
    }
    fn slice(&mut self, st: &State, extra: E) -> Vec<E> {
        let mut vars: HashSet<u32, BuildFx> = self.p.support(extra).iter().copied().collect();
        let mut out = vec![extra];
        let sup: Vec<Rc<Vec<u32>>> = st.pc.iter().map(|&c| self.p.support(c)).collect();
        let mut used = vec![false; st.pc.len()];
        loop {
            let mut ch = false;
            for i in (0..st.pc.len()).rev() {
                if used[i] {
                    continue;
                }
                if sup[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    out.push(st.pc[i]);
                    for &v in sup[i].iter() {
                        vars.insert(v);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// Decide path condition and `extra`; a model satisfies the deferred constraints as well.
    fn solve(&mut self, st: &mut State, extra: E) -> Ans {
        loop {
            let q = self.slice(st, extra);
            match self.s.check(&mut self.p, &q) {
                Res::Unsat => return Ans::Unsat,
                Res::Unknown => return Ans::Unknown,
                Res::Sat(m) => {
                    let m = self.merge_model(st, &m);
                    if !self.promote(st, &m) {
                        return Ans::Sat(m);
                    }
                }
            }
        }
    }
    /// Move deferred constraints that `m` violates into the path condition.
    fn promote(&mut self, st: &mut State, m: &Model) -> bool {
        let bad: Vec<E> = st.lazy.iter().copied().filter(|&k| m.eval(&self.p, k) != 1).collect();
        if bad.is_empty() {
            return false;
        }
        Rc::make_mut(&mut st.lazy).retain(|k| !bad.contains(k));
        for k in bad {
            Rc::make_mut(&mut st.facts).remove(&k);
            self.add_pc(st, k);
        }
        true
    }
    fn merge_model(&self, st: &State, m: &[(u32, u128)]) -> Rc<Model> {
        let mut vals = st.model.vals.clone();
        for &(v, k) in m {
            vals.insert(v, k);
        }
        Rc::new(Model::new(vals))
    }
    fn known(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(b) = self.known_fact(st, c) {
            return Some(b);
        }
        if let Some(k) = self.pinned(st, c) {
            return Some(k == 1);
        }
        if let Some((v, t)) = self.p.byte_table(c) {
            let d = st.doms.get(&v).copied().unwrap_or([!0; 4]);
            if (0..4).all(|i| d[i] & !t[i] == 0) {
                return Some(true);
            }
            if (0..4).all(|i| d[i] & t[i] == 0) {
                return Some(false);
            }
            return None;
        }
        let n = *self.p.n(c);
        let (n, neg) = if n.op == Op::Not { (*self.p.n(n.a), true) } else { (n, false) };
        let r = match n.op {
            Op::Ult | Op::Slt | Op::Eq => {
                let w = self.p.w(n.a);
                let (la, ha) = self.range(st, n.a, 0);
                let (lb, hb) = self.range(st, n.b, 0);
                if n.op == Op::Eq {
                    if ha < lb || hb < la {
                        Some(false)
                    } else {
                        None
                    }
                } else if n.op == Op::Slt && (ha >> (w - 1) != 0 || hb >> (w - 1) != 0) {
                    None
                } else if ha < lb {
                    Some(true)
                } else if la >= hb {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        };
        r.map(|b| b != neg)
    }
    /// Bounds on the value of `e` on this path (from the byte domains).
    fn range(&mut self, st: &State, e: E, depth: u32) -> (u128, u128) {
        let n = *self.p.n(e);
        let w = n.w as u32;
        let top = (0, mask(w));
        if n.op == Op::Const {
            return (n.k, n.k);
        }
        if depth > 40 {
            return top;
        }
        match n.op {
            Op::Var if w == 8 => match st.doms.get(&(n.k as u32)) {
                Some(d) => {
                    let lo = (0..256).find(|&i| d[i / 64] >> (i % 64) & 1 == 1);
                    let hi = (0..256).rev().find(|&i| d[i / 64] >> (i % 64) & 1 == 1);
                    match (lo, hi) {
                        (Some(l), Some(h)) => (l as u128, h as u128),
                        _ => top,
                    }
                }
                None => top,
            },
            Op::Concat => {
                let (la, ha) = self.range(st, n.a, depth + 1);
                let (lb, hb) = self.range(st, n.b, depth + 1);
                let wb = self.p.w(n.b);
                (la << wb | lb, ha << wb | hb)
            }
            Op::Add | Op::Sub | Op::Mul if w <= 64 => {
                let mut terms: Vec<(u128, E)> = vec![];
                let mut k = 0u128;
                self.linear(e, 1, w, &mut terms, &mut k, 0);
                if terms.len() == 1 && terms[0].1 == e {
                    return top;
                }
                terms.sort_by_key(|t| t.1);
                let mut lo = k & mask(w);
                let mut span = 0u128;
                let mut i = 0;
                while i < terms.len() {
                    let mut c = terms[i].0;
                    let t = terms[i].1;
                    i += 1;
                    while i < terms.len() && terms[i].1 == t {
                        c = c.wrapping_add(terms[i].0);
                        i += 1;
                    }
                    c &= mask(w);
                    if c == 0 {
                        continue;
                    }
                    let (l, h) = self.range(st, t, depth + 1);
                    // a coefficient in the upper half is negative
                    let neg = c >> (w - 1) & 1 == 1;
                    let a = if neg { (mask(w) - c) + 1 } else { c };
                    let (first, d) = if neg { (h, h - l) } else { (l, h - l) };
                    lo = lo.wrapping_add(c.wrapping_mul(first)) & mask(w);
                    match a.checked_mul(d).and_then(|x| span.checked_add(x)) {
                        Some(x) => span = x,
                        None => return top,
                    }
                }
                if lo + span <= mask(w) {
                    (lo, lo + span)
                } else {
                    top
                }
            }
            Op::UDiv => match self.p.cv(n.b) {
                Some(c) if c > 0 => {
                    let (l, h) = self.range(st, n.a, depth + 1);
                    (l / c, h / c)
                }
                _ => top,
            },
            Op::URem => match self.p.cv(n.b) {
                Some(c) if c > 0 => {
                    let (l, h) = self.range(st, n.a, depth + 1);
                    if h < c {
                        (l, h)
                    } else {
                        (0, c - 1)
                    }
                }
                _ => top,
            },
            Op::LShr => match self.p.cv(n.b) {
                Some(c) if c < w as u128 => {
                    let (l, h) = self.range(st, n.a, depth + 1);
                    (l >> c, h >> c)
                }
                _ => top,
            },
            Op::And if w > 1 => {
                let (_, ha) = self.range(st, n.a, depth + 1);
                let (_, hb) = self.range(st, n.b, depth + 1);
                (0, ha.min(hb))
            }
            Op::Ite => {
                let (la, ha) = self.range(st, n.b, depth + 1);
                let (lb, hb) = self.range(st, n.c, depth + 1);
                (la.min(lb), ha.max(hb))
            }
            Op::Extract if n.k == 0 => {
                let (l, h) = self.range(st, n.a, depth + 1);
                if h <= mask(w) {
                    (l, h)
                } else {
                    top
                }
            }
            _ => top,
        }
    }
    /// Decompose into a sum of coefficient times term plus a constant, modulo 2^w.
    fn linear(&self, e: E, c: u128, w: u32, out: &mut Vec<(u128, E)>, k: &mut u128, depth: u32) {
        let n = *self.p.n(e);
        let m = mask(w);
        if depth < 30 && out.len() < 64 {
            match n.op {
                Op::Const => {
                    *k = k.wrapping_add(c.wrapping_mul(n.k)) & m;
                    return;
                }
                Op::Add => {
                    self.linear(n.a, c, w, out, k, depth + 1);
                    self.linear(n.b, c, w, out, k, depth + 1);
                    return;
                }
                Op::Sub => {
                    self.linear(n.a, c, w, out, k, depth + 1);
                    self.linear(n.b, 0u128.wrapping_sub(c) & m, w, out, k, depth + 1);
                    return;
                }
                Op::Mul => {
                    for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                        if let Some(q) = self.p.cv(x) {
                            self.linear(y, c.wrapping_mul(q) & m, w, out, k, depth + 1);
                            return;
                        }
                    }
                }
                _ => {}
            }
        }
        out.push((c & m, e));
    }
    fn known_fact(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(k) = self.p.cv(c) {
            return Some(k == 1);
        }
        if st.facts.contains(&c) {
            return Some(true);
        }
        let n = self.p.not(c);
        if st.facts.contains(&n) {
            return Some(false);
        }
        None
    }
    fn add_pc(&mut self, st: &mut State, c: E) {
        if self.p.cv(c).is_some() {
            return;
        }
        // split conjunctions
        let n = *self.p.n(c);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if st.facts.contains(&c) {
            return;
        }
        Rc::make_mut(&mut st.facts).insert(c);
        st.pc.push(c);
        if let Some((v, t)) = self.p.byte_table(c) {
            let d = Rc::make_mut(&mut st.doms).entry(v).or_insert([!0; 4]);
            for i in 0..4 {
                d[i] &= t[i];
            }
            if d.iter().map(|x| x.count_ones()).sum::<u32>() == 1 {
                st.pins = true;
            }
        }
    }
    /// The value of `e` where the path condition leaves one value to every byte it depends on.
    fn pinned(&mut self, st: &State, e: E) -> Option<u128> {
        if !st.pins {
            return None;
        }
        let s = self.p.support(e);
        if s.len() > 64 || s.iter().any(|v| st.doms.get(v).map_or(true, |d| d.iter().map(|x| x.count_ones()).sum::<u32>() != 1)) {
            return None;
        }
        Some(st.model.eval(&self.p, e))
    }
    fn pin(&mut self, st: &State, p: &V) -> V {
        match p {
            V::S(e) => match self.pinned(st, *e) { Some(k) => V::C(k), None => p.clone() },
            _ => p.clone(),
        }
    }
    /// Branch on `c`. The current state continues with the side its model takes; the other side, when feasible, is
    /// queued as a copy that re-executes the current instruction. No state change may precede a call within a step.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(b) = self.known(st, c) {
            return Ok(b);
        }
        if self.cfg.verbose {
            let t = self.p.show(c, 14);
            let w = self.where_(st);
            eprintln!("decide {} at {} < {}", t, w[0], w.get(1).cloned().unwrap_or_default());
        }
        let b = st.model.eval(&self.p, c) == 1;
        let nc = self.p.not(c);
        let (mine, other) = if b { (c, nc) } else { (nc, c) };
        match self.solve(st, other) {
            Ans::Unsat => {
                Rc::make_mut(&mut st.facts).insert(mine);
            }
            Ans::Sat(m) => {
                let mut o = st.clone();
                o.model = m;
                self.add_pc(&mut o, other);
                self.work.push(o);
                self.forks += 1;
                self.add_pc(st, mine);
            }
            Ans::Unknown => {
                self.incomplete_at(st, "solver gave no answer for a branch".into());
                self.add_pc(st, mine);
            }
        }
        Ok(b)
    }
    fn conc(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v {
            V::C(x) => Ok(*x),
            V::P => Ok(0),
            V::S(e) => {
                if let Some(k) = self.pinned(st, *e) {
                    return Ok(k);
                }
                let k = st.model.eval(&self.p, *e);
                let w = self.p.w(*e);
                let kc = self.p.c(k, w);
                let c = self.p.eq(*e, kc);
                if self.known(st, c) != Some(true) {
                    // every other value in one incremental enumeration
                    let nc = self.p.not(c);
                    let vs = loop {
                        let q = self.slice(st, nc);
                        let vs = match self.s.enumerate(&mut self.p, &q, *e, 4096) {
                            Some(vs) => vs,
                            None => break None,
                        };
                        let vs: Vec<(u128, Rc<Model>)> = vs.into_iter().map(|(v, m)| (v, self.merge_model(st, &m))).collect();
                        if !vs.iter().any(|(_, m)| self.promote(st, m)) {
                            break Some(vs);
                        }
                    };
                    if let Some(vs) = vs {
                        if vs.is_empty() {
                            Rc::make_mut(&mut st.facts).insert(c);
                            return Ok(k);
                        }
                        for (v, m) in vs {
                            let vc = self.p.c(v, w);
                            let c = self.p.eq(*e, vc);
                            let mut o = st.clone();
                            o.model = m;
                            self.add_pc(&mut o, c);
                            self.work.push(o);
                            self.forks += 1;
                        }
                        self.add_pc(st, c);
                        return Ok(k);
                    }
                }
                let b = self.decide(st, c)?;
                debug_assert!(b);
                Ok(k)
            }
            V::A(_) => panic!("conc of aggregate"),
        }
    }
    fn fresh(&mut self, name: &str, w: u32) -> E {
        self.p.var(name.to_string(), w)
    }

    // ------------------------------------------------------------------ memory
    fn obj(&mut self, st: &mut State, id: u64) -> Result<Rc<Obj>, String> {
        match st.mem.get(id) {
            Slot::Live(o) => return Ok(o.clone()),
            Slot::Dead(k) => return Err(format!("access to a dead {:?} object", k)),
            Slot::Empty => {}
        }
        let nf = self.m.funcs.len() as u64;
        if id > nf && id < self.m.first_dyn() {
            if let Some(o) = self.gcache.get(&id) {
                let o = o.clone();
                st.mem.set(id, Slot::Live(o.clone()));
                return Ok(o);
            }
            let g = (id - nf - 1) as u32;
            self.m.global(g);
            let gd = &self.m.globals[g as usize];
            if gd.external {
                return Err(format!("external global {}", gd.name));
            }
            let init = gd.init.as_ref().unwrap();
            let mut o = Obj { kind: if gd.constant { Kind::Const } else { Kind::Global }, align: gd.align, bytes: init.0.clone(), sym: vec![], own: false };
            if !init.1.is_empty() {
                o.sym = init.1.iter().map(|&u| if u { UNDEF } else { 0 }).collect();
            }
            let o = Rc::new(o);
            self.gcache.insert(id, o.clone());
            st.mem.set(id, Slot::Live(o.clone()));
            return Ok(o);
        }
        if id == 0 {
            Err("null or dangling pointer".into())
        } else if id <= nf {
            Err("data access to a function".into())
        } else {
            Err("wild pointer".into())
        }
    }
    /// While operations are watched, memory other threads can reach is not written: that is every heap block from
    /// before and every global that is not thread-local, unless the write is atomic, part of one-time
    /// initialisation, or the model's own.
    fn unshared(&mut self, st: &mut State, id: u64, kind: Kind, what: &str) -> Result<(), String> {
        let shared = match kind {
            Kind::Heap | Kind::CHeap => id < st.frozen,
            Kind::Global => !self.m.globals[(id - self.m.funcs.len() as u64 - 1) as usize].tls,
            _ => false,
        };
        if !shared {
            return Ok(());
        }
        let own = match kind {
            Kind::Global => self.m.globals[(id - self.m.funcs.len() as u64 - 1) as usize].name.contains("6vmodel"),
            _ => self.obj(st, id).map_or(false, |o| o.own),
        };
        if own || st.top.f.once || st.stack.iter().any(|f| f.f.once) {
            return Ok(());
        }
        Err(format!("{}{} {}", SHARED, what, self.whose(id)))
    }
    fn whose(&self, id: u64) -> String {
        let g = id.wrapping_sub(self.m.funcs.len() as u64 + 1) as usize;
        match self.m.globals.get(g) {
            Some(g) => g.name.clone(),
            None => "a heap block made before".into(),
        }
    }
    /// An atomic operation is about to write: what it leaves in the end must be what was there.
    fn written(&mut self, st: &mut State, p: &V, w: u32) -> R<()> {
        let p = self.pin(st, p);
        if let V::C(a) = p {
            let a = a as u64;
            if let Ok(o) = self.obj(st, a >> 32) {
                if self.unshared(st, a >> 32, o.kind, "").is_err() && !st.left.iter().any(|l| l.0 == a) {
                    let old = self.load_int(st, &V::C(a as u128), w)?;
                    st.left.push((a, w, old));
                }
            }
        }
        Ok(())
    }
    /// is [addr, addr+n) inside a live object?
    fn valid(&mut self, st: &mut State, addr: u64, n: u64, write: bool) -> Result<Rc<Obj>, String> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let o = self.obj(st, id)?;
        if off + n > o.size() as u64 {
            return Err(format!("out-of-bounds access at offset {} size {} of a {:?} object of {} bytes", off, n, o.kind, o.size()));
        }
        if write && o.kind == Kind::Const {
            return Err("write to constant memory".into());
        }
        if write && st.frozen != 0 && !st.atomic {
            self.unshared(st, id, o.kind, "write to")?;
        }
        Ok(o)
    }
    /// resolve a pointer value to either a concrete address or (object, symbolic 32-bit offset)
    fn resolve(&mut self, st: &mut State, p: &V, n: u64, write: bool) -> R<(u64, Option<E>)> {
        self.mem_checks += 1;
        let p = &self.pin(st, p);
        match p {
            V::C(a) => {
                let a = *a as u64;
                match self.valid(st, a, n, write) {
                    Ok(_) => Ok((a, None)),
                    Err(m) => Err(self.fault(st, "memory-safety", m)),
                }
            }
            V::P => Err(self.fault(st, "memory-safety", "access through an undefined pointer".into())),
            V::A(_) => panic!("pointer aggregate"),
            V::S(e) => {
                let e = *e;
                // ite of pointers: split on the condition
                let nd = *self.p.n(e);
                if nd.op == Op::Ite {
                    let b = self.decide(st, nd.a)?;
                    let e2 = if b { nd.b } else { nd.c };
                    let v2 = self.v(e2);
                    return self.resolve(st, &v2, n, write);
                }
                let mv = st.model.eval(&self.p, e) as u64;
                let o = match self.valid(st, mv, n, write) {
                    Ok(o) => o,
                    Err(m) => return Err(self.fault(st, "memory-safety", format!("{} (symbolic pointer)", m))),
                };
                let base = mv >> 32 << 32;
                let b = self.p.c(base as u128, 64);
                let off = self.p.sub(e, b);
                let lim = self.p.c((o.size() as u64 - n) as u128, 64);
                let inb = self.p.ule(off, lim);
                let r = self.decide(st, inb)?;
                debug_assert!(r);
                let off = self.p.extract(off, 0, 32);
                match self.p.cv(off) {
                    Some(k) => Ok((base + k as u64, None)),
                    None => Ok((base, Some(off))),
                }
            }
        }
    }
    fn known_tz(&self, e: E, depth: u32) -> u32 {
        // known trailing zero bits
        let n = self.p.n(e);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w as u32
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Concat => {
                let l = self.known_tz(n.b, depth + 1);
                let wl = self.p.w(n.b);
                if l >= wl {
                    wl + self.known_tz(n.a, depth + 1)
                } else {
                    l
                }
            }
            Op::Add | Op::Sub | Op::Or if depth < 20 => self.known_tz(n.a, depth + 1).min(self.known_tz(n.b, depth + 1)),
            Op::Mul if depth < 20 => (self.known_tz(n.a, depth + 1) + self.known_tz(n.b, depth + 1)).min(n.w as u32),
            Op::Ite if depth < 20 => self.known_tz(n.b, depth + 1).min(self.known_tz(n.c, depth + 1)),
            _ => 0,
        }
    }
    /// (stride, residue) of an offset expression: offset = residue mod stride
    fn stride(&mut self, off: E) -> (u64, u64) {
        let n = *self.p.n(off);
        let w = n.w as u32;
        if n.op == Op::Add {
            for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                if let Some(k) = self.p.cv(x) {
                    let t = self.known_tz(y, 0).min(31);
                    return (1 << t, (k as u64) & ((1 << t) - 1));
                }
            }
        }
        let _ = w;
        let t = self.known_tz(off, 0).min(31);
        // concat(x, const): residue is the constant
        if t == 0 && n.op == Op::Concat {
            if let Some(k) = self.p.cv(n.b) {
                let wl = self.p.w(n.b);
                return (1 << wl, k as u64);
            }
        }
        (1 << t, 0)
    }
    fn byte_at(&mut self, o: &Obj, i: usize) -> E {
        let s = o.symof(i);
        if s == 0 {
            self.p.c(o.bytes[i] as u128, 8)
        } else if s == UNDEF {
            self.fresh("undef", 8)
        } else {
            s
        }
    }
    fn word_at(&mut self, o: &Obj, off: usize, n: usize) -> V {
        if o.all_concrete(off, n) {
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = x << 8 | o.bytes[off + i] as u128;
            }
            return V::C(x);
        }
        let mut r = self.byte_at(o, off + n - 1);
        for i in (0..n - 1).rev() {
            let b = self.byte_at(o, off + i);
            r = self.p.concat(r, b);
        }
        self.v(r)
    }
    fn freeze_undef(&mut self, st: &mut State, id: u64, off: usize, n: usize) {
        let need = match st.mem.get(id) {
            Slot::Live(o) => !o.sym.is_empty() && o.sym[off..off + n].iter().any(|&x| x == UNDEF),
            _ => false,
        };
        if need {
            for i in off..off + n {
                let is = match st.mem.get(id) {
                    Slot::Live(o) => o.sym[i] == UNDEF,
                    _ => false,
                };
                if is {
                    let v = self.fresh("undef", 8);
                    st.mem.obj_mut(id).sym[i] = v;
                }
            }
        }
    }
    fn load_raw(&mut self, st: &mut State, addr: u64, n: usize) -> V {
        // addr already validated
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        if let Slot::Live(o) = st.mem.get(id) {
            if o.all_concrete(off, n) {
                let b = &o.bytes[off..off + n];
                if n == 8 {
                    return V::C(u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]]) as u128);
                }
                let mut x = 0u128;
                for i in (0..n).rev() {
                    x = x << 8 | b[i] as u128;
                }
                return V::C(x);
            }
        }
        self.freeze_undef(st, id, off, n);
        let o = match st.mem.get(id) {
            Slot::Live(o) => o.clone(),
            _ => unreachable!(),
        };
        self.word_at(&o, off, n)
    }
    fn table(&mut self, o: &Obj, off: E, n: usize) -> V {
        let (stride, res) = self.stride(off);
        let w = n as u32 * 8;
        let mut cands = vec![];
        let mut k = res;
        // bound from the offset's width
        let ub = self.p.umax_bound(off) as u64;
        while k + n as u64 <= o.size() as u64 && k <= ub {
            cands.push(k);
            k += stride;
        }
        let vals: Vec<V> = cands.iter().map(|&k| self.word_at(o, k as usize, n)).collect();
        if vals.iter().all(|v| matches!(v, V::C(_))) {
            // affine runs
            let cv: Vec<u128> = vals.iter().map(|v| if let V::C(x) = v { *x } else { 0 }).collect();
            let mut segs: Vec<(usize, u128, u128)> = vec![]; // start, value, delta
            let mut i = 0;
            while i < cv.len() {
                let mut d = 0;
                let mut j = i + 1;
                if j < cv.len() {
                    d = cv[j].wrapping_sub(cv[i]) & mask(w);
                    if d != 0 && n > 1 {
                        d = 0; // constant runs only for wide words
                    } else if d > 1 && d != mask(w) {
                        d = 0;
                    }
                    while j < cv.len() && cv[j] == (cv[j - 1].wrapping_add(d) & mask(w)) {
                        j += 1
                    }
                }
                segs.push((i, cv[i], d));
                i = j;
            }
            if segs.len() * 2 <= cands.len().max(2) || cands.len() > 16 && segs.len() * 4 <= cands.len() * 3 {
                let mut r: Option<E> = None;
                for (si, &(i, v0, d)) in segs.iter().enumerate().rev() {
                    let val = if d == 0 {
                        self.p.c(v0, w)
                    } else {
                        // v0 + d * ((off - cands[i]) / stride), w == 8
                        let sh = stride.trailing_zeros();
                        let idx = self.p.extract(off, sh, (32 - sh).min(8));
                        let idx = self.p.zext(idx, 8);
                        let base = self.p.c(((cands[i] >> sh) & 0xff) as u128, 8);
                        let diff = self.p.sub(idx, base);
                        let diff = if d == 1 {
                            diff
                        } else {
                            let z = self.p.c(0, 8);
                            self.p.sub(z, diff)
                        };
                        let c0 = self.p.c(v0, 8);
                        self.p.add(c0, diff)
                    };
                    r = Some(match r {
                        None => val,
                        Some(rest) => {
                            let nxt = self.p.c(cands[segs[si + 1].0] as u128, 32);
                            let c = self.p.ult(off, nxt);
                            self.p.ite(c, val, rest)
                        }
                    });
                }
                let r = self.p.fold_load(r.unwrap());
                return self.v(r);
            }
        }
        let es: Vec<E> = vals.iter().map(|v| self.e(v, w)).collect();
        let r = self.tree(off, &cands, &es);
        let r = self.p.fold_load(r);
        self.v(r)
    }
    fn tree(&mut self, off: E, k: &[u64], v: &[E]) -> E {
        if k.len() == 1 {
            return v[0];
        }
        if v.iter().all(|&x| x == v[0]) {
            return v[0];
        }
        let m = k.len() / 2;
        // prefer power-of-two splits
        let m = if k.len().is_power_of_two() { m } else { k.len().next_power_of_two() / 2 };
        let a = self.tree(off, &k[..m], &v[..m]);
        let b = self.tree(off, &k[m..], &v[m..]);
        let c0 = self.p.c(k[m] as u128, 32);
        let c = self.p.ult(off, c0);
        self.p.ite(c, a, b)
    }
    fn load_int(&mut self, st: &mut State, p: &V, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let p = &self.pin(st, p);
        // small ite trees of valid concrete pointers: load through all of them
        if let V::S(e) = p {
            let mut leaves = vec![];
            if self.ptr_leaves(*e, &mut leaves, 64) {
                let mut ok = true;
                for &a in &leaves {
                    if self.valid(st, a, n as u64, false).is_err() {
                        ok = false;
                        break;
                    }
                }
                if ok {
                    self.mem_checks += leaves.len() as u64;
                    let mut memo = HashMap::new();
                    let r = self.load_tree(st, *e, n, &mut memo);
                    let v = self.v(r);
                    return Ok(self.narrow(v, n as u32 * 8, w));
                }
            }
        }
        let (a, so) = self.resolve(st, p, n as u64, false)?;
        let v = match so {
            None => self.load_raw(st, a, n),
            Some(off) => {
                let o = match self.obj(st, a >> 32) {
                    Ok(o) => o,
                    Err(m) => return Err(self.fault(st, "memory-safety", m)),
                };
                let (stride, _) = self.stride(off);
                if o.size() as u64 / stride > 8192 {
                    let pv = p.clone();
                    let k = self.conc(st, &pv)?;
                    return self.load_int(st, &V::C(k), w);
                }
                if o.sym.iter().any(|&x| x == UNDEF) {
                    let l = o.size();
                    self.freeze_undef(st, a >> 32, 0, l);
                }
                let o = match st.mem.get(a >> 32) {
                    Slot::Live(o) => o.clone(),
                    _ => unreachable!(),
                };
                self.table(&o, off, n)
            }
        };
        Ok(self.narrow(v, n as u32 * 8, w))
    }
    fn narrow(&mut self, v: V, have: u32, w: u32) -> V {
        if have == w {
            return v;
        }
        match v {
            V::C(x) => V::C(x & mask(w)),
            V::S(e) => {
                let r = self.p.extract(e, 0, w);
                self.v(r)
            }
            v => v,
        }
    }
    fn ptr_leaves(&self, e: E, out: &mut Vec<u64>, cap: usize) -> bool {
        let mut st = vec![e];
        let mut seen = HashSet::new();
        while let Some(e) = st.pop() {
            if !seen.insert(e) {
                continue;
            }
            let n = self.p.n(e);
            match n.op {
                Op::Const => {
                    out.push(n.k as u64);
                    if out.len() > cap {
                        return false;
                    }
                }
                Op::Ite => {
                    st.push(n.b);
                    st.push(n.c);
                }
                _ => return false,
            }
        }
        true
    }
    fn load_tree(&mut self, st: &mut State, e: E, n: usize, memo: &mut HashMap<E, E>) -> E {
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let nd = *self.p.n(e);
        let r = match nd.op {
            Op::Const => {
                let v = self.load_raw(st, nd.k as u64, n);
                self.e(&v, n as u32 * 8)
            }
            _ => {
                let a = self.load_tree(st, nd.b, n, memo);
                let b = self.load_tree(st, nd.c, n, memo);
                self.p.ite(nd.a, a, b)
            }
        };
        memo.insert(e, r);
        r
    }
    fn load(&mut self, st: &mut State, p: &V, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) if *w <= 128 => self.load_int(st, p, *w),
            Ty::Ptr | Ty::F64 => self.load_int(st, p, 64),
            Ty::F32 => self.load_int(st, p, 32),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let n = match ty {
                    Ty::Arr(n, _) => *n as usize,
                    Ty::Vec(n, _) => *n as usize,
                    Ty::Struct(f, _) => f.len(),
                    _ => 0,
                };
                if let Ty::Vec(n, t) = ty {
                    if **t == Ty::Int(1) {
                        let v = self.load_int(st, p, *n)?;
                        let e = self.e(&v, *n);
                        return Ok(self.unflatten(e, ty));
                    }
                }
                let mut vs = Vec::with_capacity(n);
                // concretise the pointer first so that element loads cannot fork half way
                let pc = match p {
                    V::S(_) => V::C(self.conc(st, p)?),
                    p => p.clone(),
                };
                for i in 0..n {
                    let q = self.padd(&pc, ty.field_offset(i));
                    vs.push(self.load(st, &q, &ty.elem(i))?);
                }
                Ok(V::A(Rc::new(vs)))
            }
            t => bail!(self, st, "load of {:?}", t),
        }
    }
    fn padd(&mut self, p: &V, o: u64) -> V {
        match p {
            V::C(a) => V::C(((*a as u64).wrapping_add(o)) as u128),
            V::S(e) => {
                let k = self.p.c(o as u128, 64);
                let r = self.p.add(*e, k);
                self.v(r)
            }
            v => v.clone(),
        }
    }
    fn split_bytes(&mut self, v: &V, n: usize, w: u32) -> Vec<E> {
        let e = match v {
            V::S(e) => *e,
            _ => unreachable!(),
        };
        let e = if w < n as u32 * 8 { self.p.zext(e, n as u32 * 8) } else { e };
        (0..n).map(|i| self.p.extract(e, i as u32 * 8, 8)).collect()
    }
    fn put_byte(&mut self, o: &mut Obj, i: usize, e: E) {
        match self.p.cv(e) {
            Some(k) => {
                o.bytes[i] = k as u8;
                o.set_sym(i, 0);
            }
            None => o.set_sym(i, e),
        }
    }
    fn store_raw(&mut self, st: &mut State, addr: u64, v: &V, w: u32) {
        let n = ((w + 7) / 8) as usize;
        let id = addr >> 32;
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            V::C(x) => st.mem.obj_mut(id).put_concrete(off, *x, n),
            V::S(_) => {
                let bs = self.split_bytes(v, n, w);
                let cvs: Vec<(E, Option<u128>)> = bs.iter().map(|&b| (b, self.p.cv(b))).collect();
                let o = st.mem.obj_mut(id);
                for (i, (b, k)) in cvs.into_iter().enumerate() {
                    match k {
                        Some(k) => {
                            o.bytes[off + i] = k as u8;
                            o.set_sym(off + i, 0);
                        }
                        None => o.set_sym(off + i, b),
                    }
                }
            }
            V::P => {
                let o = st.mem.obj_mut(id);
                for i in 0..n {
                    o.set_sym(off + i, UNDEF);
                }
            }
            V::A(_) => panic!("store_raw aggregate"),
        }
    }
    fn store_int(&mut self, st: &mut State, p: &V, v: &V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (a, so) = self.resolve(st, p, n as u64, true)?;
        match so {
            None => {
                self.store_raw(st, a, v, w);
                Ok(())
            }
            Some(off) => {
                let id = a >> 32;
                let o = match self.obj(st, id) {
                    Ok(o) => o,
                    Err(m) => return Err(self.fault(st, "memory-safety", m)),
                };
                let (stride, res) = self.stride(off);
                if o.size() as u64 / stride > 512 || matches!(v, V::P) {
                    let pv = p.clone();
                    let k = self.conc(st, &pv)?;
                    return self.store_int(st, &V::C(k), v, w);
                }
                let ve = self.e(v, w);
                let vs = V::S(ve);
                let bs = self.split_bytes(&vs, n, w);
                let l = o.size();
                self.freeze_undef(st, id, 0, l);
                let mut no = match st.mem.get(id) {
                    Slot::Live(o) => (**o).clone(),
                    _ => unreachable!(),
                };
                let mut k = res;
                let old = no.clone();
                while k + n as u64 <= l as u64 {
                    let kc = self.p.c(k as u128, 32);
                    let c = self.p.eq(off, kc);
                    if self.p.cv(c) != Some(0) {
                        for i in 0..n {
                            let cur = if stride >= n as u64 { self.byte_at(&old, k as usize + i) } else { self.byte_at(&no, k as usize + i) };
                            let r = self.p.ite(c, bs[i], cur);
                            self.put_byte(&mut no, k as usize + i, r);
                        }
                    }
                    k += stride;
                }
                st.mem.set(id, Slot::Live(Rc::new(no)));
                Ok(())
            }
        }
    }
    fn store(&mut self, st: &mut State, p: &V, v: &V, ty: &Ty) -> R<()> {
        match ty {
            Ty::Int(w) if *w <= 128 => self.store_int(st, p, v, *w),
            Ty::Ptr | Ty::F64 => self.store_int(st, p, v, 64),
            Ty::F32 => self.store_int(st, p, v, 32),
            Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..) => {
                let n = match ty {
                    Ty::Arr(n, _) => *n as usize,
                    Ty::Vec(n, _) => *n as usize,
                    Ty::Struct(f, _) => f.len(),
                    _ => 0,
                };
                if let Ty::Vec(n, t) = ty {
                    if **t == Ty::Int(1) {
                        let e = self.flatten_bits(v, ty);
                        let v = self.v(e);
                        return self.store_int(st, p, &v, *n);
                    }
                }
                let pc = match p {
                    V::S(_) => V::C(self.conc(st, p)?),
                    p => p.clone(),
                };
                for i in 0..n {
                    let q = self.padd(&pc, ty.field_offset(i));
                    let x = match v {
                        V::A(vs) => vs[i].clone(),
                        _ => V::P,
                    };
                    self.store(st, &q, &x, &ty.elem(i))?;
                }
                Ok(())
            }
            t => bail!(self, st, "store of {:?}", t),
        }
    }
    /// bytes of a validated concrete region as expressions (0 = concrete -> turned into constants)
    fn bytes(&mut self, st: &mut State, p: &V, n: usize) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let a = self.conc(st, p)? as u64;
        let (a, _) = self.resolve(st, &V::C(a as u128), n as u64, false)?;
        let id = a >> 32;
        let off = (a & 0xffff_ffff) as usize;
        self.freeze_undef(st, id, off, n);
        let o = match st.mem.get(id) {
            Slot::Live(o) => o.clone(),
            _ => unreachable!(),
        };
        Ok((0..n).map(|i| self.byte_at(&o, off + i)).collect())
    }
    fn put_bytes(&mut self, st: &mut State, p: &V, b: &[E]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let a = self.conc(st, p)? as u64;
        let (a, _) = self.resolve(st, &V::C(a as u128), b.len() as u64, true)?;
        for (i, &e) in b.iter().enumerate() {
            let v = self.v(e);
            self.store_raw(st, a + i as u64, &v, 8);
        }
        Ok(())
    }
    fn str_at(&mut self, st: &mut State, p: &V, n: &V) -> R<String> {
        let n = self.conc(st, n)? as usize;
        let b = self.bytes(st, p, n)?;
        let mut o = vec![];
        for e in b {
            o.push(st.model.eval(&self.p, e) as u8);
        }
        Ok(String::from_utf8_lossy(&o).into_owned())
    }
    fn memcpy(&mut self, st: &mut State, d: &V, s: &V, n: &V) -> R<()> {
        let n = self.conc(st, n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let d = self.conc(st, d)?;
        let s = self.conc(st, s)?;
        let (d, _) = self.resolve(st, &V::C(d), n, true)?;
        let (s, _) = self.resolve(st, &V::C(s), n, false)?;
        let so = match st.mem.get(s >> 32) {
            Slot::Live(o) => o.clone(),
            _ => unreachable!(),
        };
        let (so_, do_, n) = ((s & 0xffff_ffff) as usize, (d & 0xffff_ffff) as usize, n as usize);
        if s >> 32 == d >> 32 {
            let src = (*so).clone();
            drop(so);
            let o = st.mem.obj_mut(d >> 32);
            o.bytes[do_..do_ + n].copy_from_slice(&src.bytes[so_..so_ + n]);
            if !src.sym.is_empty() {
                for i in 0..n {
                    o.set_sym(do_ + i, src.sym[so_ + i]);
                }
            }
            return Ok(());
        }
        let o = st.mem.obj_mut(d >> 32);
        o.bytes[do_..do_ + n].copy_from_slice(&so.bytes[so_..so_ + n]);
        if so.sym.is_empty() {
            if !o.sym.is_empty() {
                for x in &mut o.sym[do_..do_ + n] {
                    *x = 0;
                }
            }
        } else {
            for i in 0..n {
                o.set_sym(do_ + i, so.sym[so_ + i]);
            }
        }
        Ok(())
    }
    fn new_obj(&mut self, st: &mut State, kind: Kind, size: u64, align: u64, undef: bool) -> u64 {
        let mut o = Obj::new(kind, size as usize, align, undef);
        o.own = kind == Kind::Heap && (st.top.f.own || st.stack.iter().any(|f| f.f.own));
        st.mem.alloc(o) << 32
    }

    // ------------------------------------------------------------------ scalar operations
    fn bin(&mut self, op: BinOp, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y) & m,
                BinOp::Sub => x.wrapping_sub(y) & m,
                BinOp::Mul => x.wrapping_mul(y) & m,
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u128 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                BinOp::LShr => {
                    if y >= w as u128 {
                        0
                    } else {
                        x >> y
                    }
                }
                BinOp::AShr => {
                    let s = sext128(x, w);
                    (s >> y.min(w as u128 - 1)) as u128 & m
                }
                BinOp::UDiv => {
                    if y == 0 {
                        m
                    } else {
                        x / y
                    }
                }
                BinOp::URem => {
                    if y == 0 {
                        x
                    } else {
                        x % y
                    }
                }
                BinOp::SDiv => {
                    if y == 0 {
                        m
                    } else {
                        sext128(x, w).wrapping_div(sext128(y, w)) as u128 & m
                    }
                }
                BinOp::SRem => {
                    if y == 0 {
                        x
                    } else {
                        sext128(x, w).wrapping_rem(sext128(y, w)) as u128 & m
                    }
                }
            };
            return V::C(r);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let p = &mut self.p;
        let r = match op {
            BinOp::Add => p.add(x, y),
            BinOp::Sub => p.sub(x, y),
            BinOp::Mul => p.mul(x, y),
            BinOp::And => p.and(x, y),
            BinOp::Or => p.or(x, y),
            BinOp::Xor => p.xor(x, y),
            BinOp::Shl => p.shl(x, y),
            BinOp::LShr => p.lshr(x, y),
            BinOp::AShr => p.ashr(x, y),
            BinOp::UDiv => p.udiv(x, y),
            BinOp::URem => p.urem(x, y),
            BinOp::SDiv => p.sdiv(x, y),
            BinOp::SRem => p.srem(x, y),
        };
        self.v(r)
    }
    fn vrange(&mut self, st: &State, v: &V, w: u32) -> (u128, u128) {
        match v {
            V::C(x) => (*x, *x),
            V::S(e) => self.range(st, *e, 0),
            _ => (0, mask(w)),
        }
    }
    fn icmp(&mut self, pr: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext128(x, w), sext128(y, w));
            let r = match pr {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return V::C(r as u128);
        }
        let x = self.e(a, w);
        let y = self.e(b, w);
        let p = &mut self.p;
        let r = match pr {
            Pred::Eq => p.eq(x, y),
            Pred::Ne => {
                let t = p.eq(x, y);
                p.not(t)
            }
            Pred::Ugt => p.ult(y, x),
            Pred::Uge => p.ule(y, x),
            Pred::Ult => p.ult(x, y),
            Pred::Ule => p.ule(x, y),
            Pred::Sgt => p.slt(y, x),
            Pred::Sge => p.sle(y, x),
            Pred::Slt => p.slt(x, y),
            Pred::Sle => p.sle(x, y),
        };
        self.v(r)
    }
    fn lane(v: &V, i: usize) -> V {
        match v {
            V::A(vs) => vs[i].clone(),
            V::P => V::P,
            v => v.clone(),
        }
    }
    fn cast(&mut self, op: CastOp, fw: u32, tw: u32, a: &V) -> Result<V, String> {
        Ok(match op {
            CastOp::Trunc => match a {
                V::C(x) => V::C(x & mask(tw)),
                V::S(e) => {
                    let r = self.p.extract(*e, 0, tw);
                    self.v(r)
                }
                v => v.clone(),
            },
            CastOp::Zext => match a {
                V::C(x) => V::C(*x),
                V::S(e) => {
                    let r = self.p.zext(*e, tw);
                    self.v(r)
                }
                v => v.clone(),
            },
            CastOp::Sext => match a {
                V::C(x) => V::C(sext128(*x, fw) as u128 & mask(tw)),
                V::S(e) => {
                    let r = self.p.sext(*e, tw);
                    self.v(r)
                }
                v => v.clone(),
            },
            CastOp::BitNop => {
                if tw == fw {
                    a.clone()
                } else if tw < fw {
                    return self.cast(CastOp::Trunc, fw, tw, a);
                } else {
                    return self.cast(CastOp::Zext, fw, tw, a);
                }
            }
            _ => {
                let x = match a {
                    V::C(x) => *x,
                    V::P => 0,
                    // floating point is over-approximated: any value
                    _ => {
                        let f = self.fresh("float", tw);
                        return Ok(V::S(f));
                    }
                };
                let tof = |v: f64| if tw == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                let fromf = |x: u128| if fw == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                match op {
                    CastOp::UiToFp => V::C(if tw == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 }),
                    CastOp::SiToFp => {
                        let s = sext128(x, fw);
                        V::C(if tw == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 })
                    }
                    CastOp::FpToUi => V::C(fromf(x) as u128 & mask(tw)),
                    CastOp::FpToSi => V::C(fromf(x) as i128 as u128 & mask(tw)),
                    CastOp::FpExt | CastOp::FpTrunc => V::C(tof(fromf(x))),
                    _ => unreachable!(),
                }
            }
        })
    }
    fn select(&mut self, c: &V, a: &V, b: &V, ty: &Ty) -> V {
        match c {
            V::C(x) => {
                if *x != 0 {
                    a.clone()
                } else {
                    b.clone()
                }
            }
            V::P => b.clone(),
            V::S(ce) => {
                let ce = *ce;
                match (a, b) {
                    (V::A(x), V::A(y)) => {
                        let (x, y) = (x.clone(), y.clone());
                        let mut o = vec![];
                        for i in 0..x.len() {
                            let t = ty.elem(i);
                            o.push(self.select(&V::S(ce), &x[i], &y[i], &t));
                        }
                        V::A(Rc::new(o))
                    }
                    (V::P, y) => y.clone(),
                    (x, V::P) => x.clone(),
                    _ => {
                        let w = ty.width();
                        let x = self.e(a, w);
                        let y = self.e(b, w);
                        let r = self.p.ite(ce, x, y);
                        self.v(r)
                    }
                }
            }
            V::A(cs) => {
                let cs = cs.clone();
                let mut o = vec![];
                for i in 0..cs.len() {
                    let t = ty.elem(i);
                    let (x, y) = (Self::lane(a, i), Self::lane(b, i));
                    o.push(self.select(&cs[i], &x, &y, &t));
                }
                V::A(Rc::new(o))
            }
        }
    }
    fn flatten_bits(&mut self, v: &V, t: &Ty) -> E {
        match t {
            Ty::Vec(n, et) => {
                let ew = et.width();
                let mut r: Option<E> = None;
                for i in 0..*n as usize {
                    let x = Self::lane(v, i);
                    let e = self.e(&x, ew);
                    r = Some(match r {
                        None => e,
                        Some(lo) => self.p.concat(e, lo),
                    });
                }
                r.unwrap()
            }
            t => self.e(v, t.width()),
        }
    }
    fn unflatten(&mut self, e: E, t: &Ty) -> V {
        match t {
            Ty::Vec(n, et) => {
                let ew = et.width();
                let vs = (0..*n)
                    .map(|i| {
                        let x = self.p.extract(e, i * ew, ew);
                        self.v(x)
                    })
                    .collect();
                V::A(Rc::new(vs))
            }
            _ => self.v(e),
        }
    }

    // ------------------------------------------------------------------ control
    fn goto(&mut self, st: &mut State, t: u32) {
        let prev = st.top.blk;
        let b = &st.top.f.blocks[t as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, src) = &b.phis[0];
                for (pb, o) in src {
                    if *pb == prev {
                        let v = rd(st, o);
                        st.top.regs[*d as usize] = v;
                        break;
                    }
                }
            } else {
                let mut vals: Vec<V> = Vec::with_capacity(b.phis.len());
                for (_, src) in &b.phis {
                    let mut v = V::P;
                    for (pb, o) in src {
                        if *pb == prev {
                            v = rd(st, o);
                            break;
                        }
                    }
                    vals.push(v);
                }
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    st.top.regs[*d as usize] = v;
                }
            }
        }
        st.top.blk = t;
        st.top.ip = 0;
    }
    fn pop_frame(&mut self, st: &mut State) -> bool {
        let al = std::mem::take(&mut st.top.allocas);
        for id in al {
            st.mem.kill(id, Kind::Stack);
        }
        match st.stack.pop() {
            None => false,
            Some(f) => {
                st.top = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                true
            }
        }
    }
    fn finish_call(&mut self, st: &mut State, v: Option<V>) {
        // st.top is at its call instruction
        let ins = &st.top.f.blocks[st.top.blk as usize].ins[st.top.ip as usize];
        if let I::Call(c) = ins {
            if c.dst != u32::MAX {
                st.top.regs[c.dst as usize] = v.unwrap_or(V::P);
            }
            match c.inv {
                Some((n, _)) => self.goto(st, n),
                None => st.top.ip += 1,
            }
        } else {
            panic!("finish_call");
        }
    }
    fn unwind(&mut self, st: &mut State, exc: V, mut pop: bool) -> R<()> {
        loop {
            if pop {
                if !self.pop_frame(st) {
                    return Err(self.fault(st, "panic", "a panic escaped".into()));
                }
            }
            pop = true;
            let ins = &st.top.f.blocks[st.top.blk as usize].ins[st.top.ip as usize];
            if let I::Call(c) = ins {
                if let Some((_, u)) = c.inv {
                    self.goto(st, u);
                    // the landing pad is the first instruction
                    let ins = &st.top.f.blocks[st.top.blk as usize].ins[0];
                    if let I::LandingPad { d, catch, filter } = ins {
                        let sel = if *catch || *filter { 1u128 } else { 0 };
                        st.top.regs[*d as usize] = V::A(Rc::new(vec![exc, V::C(sel)]));
                        st.top.ip = 1;
                        return Ok(());
                    }
                    bail!(self, st, "unwind destination without landingpad");
                }
            }
        }
    }

    fn step(&mut self, st: &mut State, ins: &'static I) -> R<bool> {
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.top.regs[*$d as usize] = v;
                st.top.ip += 1;
                return Ok(true);
            }};
        }
        match ins {
            I::Bin { op, lanes, w, a, b, d } => {
                let (x, y) = (rd(st, a), rd(st, b));
                if *lanes == 0 {
                    let r = self.bin(*op, *w, &x, &y);
                    set!(d, r)
                }
                let mut o = vec![];
                for i in 0..*lanes as usize {
                    let (p, q) = (Self::lane(&x, i), Self::lane(&y, i));
                    o.push(self.bin(*op, *w, &p, &q));
                }
                set!(d, V::A(Rc::new(o)))
            }
            I::ICmp { p, lanes, w, a, b, d } => {
                let (x, y) = (rd(st, a), rd(st, b));
                if *lanes == 0 {
                    let mut r = self.icmp(*p, *w, &x, &y);
                    if let V::S(e) = r {
                        if let Some(b) = self.known(st, e) {
                            r = V::C(b as u128);
                        }
                    }
                    set!(d, r)
                }
                let mut o = vec![];
                for i in 0..*lanes as usize {
                    let (s, q) = (Self::lane(&x, i), Self::lane(&y, i));
                    o.push(self.icmp(*p, *w, &s, &q));
                }
                set!(d, V::A(Rc::new(o)))
            }
            I::Cast { op, lanes, fw, tw, a, d } => {
                let x = rd(st, a);
                let r = if *lanes == 0 {
                    self.cast(*op, *fw, *tw, &x)
                } else {
                    let mut o = vec![];
                    let mut err = None;
                    for i in 0..*lanes as usize {
                        let q = Self::lane(&x, i);
                        match self.cast(*op, *fw, *tw, &q) {
                            Ok(v) => o.push(v),
                            Err(e) => err = Some(e),
                        }
                    }
                    match err {
                        None => Ok(V::A(Rc::new(o))),
                        Some(e) => Err(e),
                    }
                };
                match r {
                    Ok(v) => set!(d, v),
                    Err(e) => bail!(self, st, "{}", e),
                }
            }
            I::Bitcast { from, to, a, d } => {
                let x = rd(st, a);
                if from == to {
                    set!(d, x)
                }
                if from.bits() > 128 {
                    bail!(self, st, "wide bitcast");
                }
                let e = self.flatten_bits(&x, from);
                let r = self.unflatten(e, to);
                set!(d, r)
            }
            I::Gep { base, off, terms, d } => {
                let b = rd(st, base);
                let mut conc = match &b {
                    V::C(x) => Some((*x as u64).wrapping_add(*off as u64)),
                    _ => None,
                };
                if conc.is_some() {
                    for (o, w, sc) in terms {
                        match rd(st, o) {
                            V::C(k) => {
                                let k = sext128(k, *w) as i64;
                                conc = conc.map(|c| c.wrapping_add(k.wrapping_mul(*sc) as u64));
                            }
                            _ => {
                                conc = None;
                                break;
                            }
                        }
                    }
                }
                if let Some(c) = conc {
                    set!(d, V::C(c as u128))
                }
                let mut r = self.e(&b, 64);
                let k = self.p.c(*off as u64 as u128, 64);
                r = self.p.add(r, k);
                for (o, w, sc) in terms {
                    let x = rd(st, o);
                    let e = self.e(&x, *w);
                    let e = if *w < 64 { self.p.sext(e, 64) } else { self.p.extract(e, 0, 64) };
                    let s = self.p.c(*sc as u64 as u128, 64);
                    let t = self.p.mul(e, s);
                    r = self.p.add(r, t);
                }
                let v = self.v(r);
                set!(d, v)
            }
            I::Load { ty, p, d, .. } => {
                let q = rd(st, p);
                let v = self.load(st, &q, ty)?;
                set!(d, v)
            }
            I::Store { ty, v, p, atomic, .. } => {
                let q = rd(st, p);
                let x = rd(st, v);
                st.atomic = *atomic;
                if *atomic && st.frozen != 0 {
                    let w = if let Ty::Int(w) = ty { *w } else { 64 };
                    self.written(st, &q, w)?;
                }
                self.store(st, &q, &x, ty)?;
                st.atomic = false;
                st.top.ip += 1;
                Ok(true)
            }
            I::Alloca { size, align, count, d } => {
                let n = match count {
                    None => 1,
                    Some(o) => {
                        let v = rd(st, o);
                        self.conc(st, &v)? as u64
                    }
                };
                let a = self.new_obj(st, Kind::Stack, size * n, *align as u64, true);
                st.top.allocas.push(a >> 32);
                set!(d, V::C(a as u128))
            }
            I::Br(t) => {
                self.goto(st, *t);
                Ok(true)
            }
            I::CBr(c, a, b) => {
                let v = rd(st, c);
                let t = match v {
                    V::C(x) => x != 0,
                    V::P => false,
                    V::S(e) => self.decide(st, e)?,
                    V::A(_) => unreachable!(),
                };
                self.goto(st, if t { *a } else { *b });
                Ok(true)
            }
            I::Switch { w, v, def, cases } => {
                let x = rd(st, v);
                match x {
                    V::C(k) => {
                        let mut t = *def;
                        for (c, b) in cases {
                            if *c == k {
                                t = *b;
                                break;
                            }
                        }
                        self.goto(st, t);
                    }
                    V::S(e) => {
                        let k = st.model.eval(&self.p, e);
                        let mut t = *def;
                        for (c, b) in cases {
                            if *c == k {
                                t = *b;
                                break;
                            }
                        }
                        let mut cond = self.p.ff();
                        for (c, b) in cases {
                            if (*b == t) != (t == *def) {
                                // t is a case target: collect its cases; t is the default: collect the others
                                let kc = self.p.c(*c, *w);
                                let q = self.p.eq(e, kc);
                                cond = self.p.or(cond, q);
                            }
                        }
                        if t == *def {
                            cond = self.p.not(cond);
                        }
                        let r = self.decide(st, cond)?;
                        debug_assert!(r);
                        self.goto(st, t);
                    }
                    _ => self.goto(st, *def),
                }
                Ok(true)
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|o| rd(st, o));
                if !self.pop_frame(st) {
                    for c in st.covers.iter() {
                        *self.covers.entry(c.clone()).or_insert(0) += 1;
                    }
                    self.witness(st);
                    return Ok(false);
                }
                self.finish_call(st, v);
                Ok(true)
            }
            I::Unreachable => Err(self.fault(st, "unreachable", "reached code the compiler assumes unreachable".into())),
            I::Resume(o) => {
                let v = rd(st, o);
                let exc = match v {
                    V::A(vs) => vs[0].clone(),
                    _ => V::P,
                };
                self.unwind(st, exc, true)?;
                Ok(true)
            }
            I::Call(c) => self.call(st, c),
            I::Select { c, ty, a, b, d, .. } => {
                let (cv, x, y) = (rd(st, c), rd(st, a), rd(st, b));
                let v = self.select(&cv, &x, &y, ty);
                set!(d, v)
            }
            I::Extract { a, idx, d } => {
                let mut v = rd(st, a);
                for &i in idx {
                    v = match v {
                        V::A(vs) => vs[i as usize].clone(),
                        _ => V::P,
                    };
                }
                set!(d, v)
            }
            I::Insert { a, aty, v, idx, d } => {
                let base = rd(st, a);
                let x = rd(st, v);
                let r = self.insert(&base, aty, &x, idx);
                set!(d, r)
            }
            I::ExtractEl { a, i, d } => {
                let v = rd(st, a);
                let iv = rd(st, i);
                let k = self.conc(st, &iv)? as usize;
                set!(d, Self::lane(&v, k))
            }
            I::InsertEl { a, n, v, i, d } => {
                let base = rd(st, a);
                let x = rd(st, v);
                let iv = rd(st, i);
                let k = self.conc(st, &iv)? as usize;
                let mut o: Vec<V> = (0..*n as usize).map(|j| Self::lane(&base, j)).collect();
                o[k] = x;
                set!(d, V::A(Rc::new(o)))
            }
            I::Shuffle { a, b, n, mask, d } => {
                let (x, y) = (rd(st, a), rd(st, b));
                let n = *n as i64;
                let o = mask
                    .iter()
                    .map(|&m| {
                        if m < 0 {
                            V::P
                        } else if m < n {
                            Self::lane(&x, m as usize)
                        } else {
                            Self::lane(&y, (m - n) as usize)
                        }
                    })
                    .collect();
                set!(d, V::A(Rc::new(o)))
            }
            I::LandingPad { .. } => bail!(self, st, "landingpad executed"),
            I::Rmw { op, p, v, w, d } => {
                let (q, x) = (rd(st, p), rd(st, v));
                let q = V::C(self.conc(st, &q)?);
                let old = self.load_int(st, &q, *w)?;
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(BinOp::Add, *w, &old, &x),
                    "sub" => self.bin(BinOp::Sub, *w, &old, &x),
                    "and" => self.bin(BinOp::And, *w, &old, &x),
                    "or" => self.bin(BinOp::Or, *w, &old, &x),
                    "xor" => self.bin(BinOp::Xor, *w, &old, &x),
                    o => bail!(self, st, "atomicrmw {}", o),
                };
                if st.frozen != 0 {
                    self.written(st, &q, *w)?;
                }
                st.atomic = true;
                self.store_int(st, &q, &new, *w)?;
                st.atomic = false;
                set!(d, old)
            }
            I::CmpXchg { p, cmp, new, w, d } => {
                let (q, c, n) = (rd(st, p), rd(st, cmp), rd(st, new));
                let q = V::C(self.conc(st, &q)?);
                let old = self.load_int(st, &q, *w)?;
                let eq = self.icmp(Pred::Eq, *w, &old, &c);
                let ok = match eq {
                    V::C(x) => x == 1,
                    V::S(e) => self.decide(st, e)?,
                    _ => false,
                };
                if ok {
                    if st.frozen != 0 {
                        self.written(st, &q, *w)?;
                    }
                    st.atomic = true;
                    self.store_int(st, &q, &n, *w)?;
                    st.atomic = false;
                }
                set!(d, V::A(Rc::new(vec![old, V::C(ok as u128)])))
            }
            I::Copy { a, d } => {
                let v = rd(st, a);
                set!(d, v)
            }
            I::FCmp { p, w, a, b, d } => {
                let (x, y) = (rd(st, a), rd(st, b));
                let f = |v: &V| -> Option<f64> {
                    match v {
                        V::C(x) => Some(if *w == 32 { f32::from_bits(*x as u32) as f64 } else { f64::from_bits(*x as u64) }),
                        _ => None,
                    }
                };
                match (f(&x), f(&y)) {
                    (Some(x), Some(y)) => {
                        let un = x.is_nan() || y.is_nan();
                        let r = match p.as_str() {
                            "oeq" => x == y,
                            "one" => !un && x != y,
                            "ogt" => x > y,
                            "oge" => x >= y,
                            "olt" => x < y,
                            "ole" => x <= y,
                            "ueq" => un || x == y,
                            "une" => x != y,
                            "ugt" => un || x > y,
                            "uge" => un || x >= y,
                            "ult" => un || x < y,
                            "ule" => un || x <= y,
                            "uno" => un,
                            "ord" => !un,
                            _ => bail!(self, st, "fcmp {}", p),
                        };
                        set!(d, V::C(r as u128))
                    }
                    _ => {
                        let f = self.fresh("float", 1);
                        set!(d, V::S(f))
                    }
                }
            }
            I::FBin { op, w, a, b, d } => {
                let (x, y) = (rd(st, a), rd(st, b));
                match (x, y) {
                    (V::C(x), V::C(y)) => {
                        let r = if *w == 32 {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op {
                                b'+' => x + y,
                                b'-' => x - y,
                                b'*' => x * y,
                                b'/' => x / y,
                                _ => x % y,
                            })
                            .to_bits() as u128
                        } else {
                            let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                            (match op {
                                b'+' => x + y,
                                b'-' => x - y,
                                b'*' => x * y,
                                b'/' => x / y,
                                _ => x % y,
                            })
                            .to_bits() as u128
                        };
                        set!(d, V::C(r))
                    }
                    _ => {
                        let f = self.fresh("float", *w);
                        set!(d, V::S(f))
                    }
                }
            }
            I::FNeg { w, a, d } => match rd(st, a) {
                V::C(x) => set!(d, V::C(x ^ (1u128 << (w - 1)))),
                _ => {
                    let f = self.fresh("float", *w);
                    set!(d, V::S(f))
                }
            },
            I::Nop => {
                st.top.ip += 1;
                Ok(true)
            }
            I::Unsupported(s) => bail!(self, st, "unsupported instruction {}", s),
        }
    }
    fn insert(&mut self, base: &V, ty: &Ty, x: &V, idx: &[u32]) -> V {
        if idx.is_empty() {
            return x.clone();
        }
        let n = match ty {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            _ => panic!("insertvalue"),
        };
        let mut o: Vec<V> = match base {
            V::A(v) => v.to_vec(),
            _ => vec![V::P; n],
        };
        let i = idx[0] as usize;
        let cur = o[i].clone();
        o[i] = self.insert(&cur, &ty.elem(i), x, &idx[1..]);
        V::A(Rc::new(o))
    }

    // ------------------------------------------------------------------ calls
    fn call(&mut self, st: &mut State, c: &'static CallI) -> R<bool> {
        let fid = match &c.callee {
            Callee::F(f) => *f,
            Callee::Asm => {
                if c.dst != u32::MAX && c.ret != Ty::Void {
                    bail!(self, st, "inline asm with a result");
                }
                self.finish_call(st, None);
                return Ok(true);
            }
            Callee::Ind(o) => {
                let v = rd(st, o);
                let a = self.conc(st, &v)? as u64;
                let id = a >> 32;
                if a & 0xffff_ffff != 0 || id == 0 || id > self.m.funcs.len() as u64 {
                    return Err(self.fault(st, "memory-safety", "call through an invalid function pointer".into()));
                }
                (id - 1) as u32
            }
        };
        let bi = self.bi[fid as usize];
        if bi != Bi::None {
            return self.builtin(st, c, fid, bi);
        }
        if self.m.funcs[fid as usize].body.is_none() {
            bail!(self, st, "call of external function {}", self.m.funcs[fid as usize].name);
        }
        if st.stack.len() > 3000 {
            return Err(self.fault(st, "endless recursion", "call stack deeper than 3000 frames".into()));
        }
        // the text of a panic message is not formatted
        if st.top.f.name.contains("FormatStringPayload") && self.m.funcs[fid as usize].name.ends_with("4core3fmt5write") {
            self.finish_call(st, Some(V::C(0)));
            return Ok(true);
        }
        let f = self.func(fid);
        let mut regs = vec![V::P; f.nregs as usize];
        for (i, a) in c.args.iter().enumerate() {
            if i < f.nparams as usize {
                regs[i] = rd(st, a);
            }
        }
        // the text of an arbitrary floating point number (in messages of the JSON parser) is left out
        if f.name.contains("float_to_decimal_common") && regs.iter().any(|r| matches!(r, V::S(_))) {
            self.finish_call(st, Some(V::C(0)));
            return Ok(true);
        }
        let mut allocas = vec![];
        for (i, sz) in &c.byval {
            let s = regs[*i].clone();
            let a = self.new_obj(st, Kind::Stack, *sz, 16, true);
            allocas.push(a >> 32);
            self.memcpy(st, &V::C(a as u128), &s, &V::C(*sz as u128))?;
            regs[*i] = V::C(a as u128);
        }
        if f.name.contains("panicking") {
            self.note_location(st, &regs[..f.nparams as usize]);
        }
        let nf = Frame { f, blk: 0, ip: 0, regs, allocas };
        let old = std::mem::replace(&mut st.top, nf);
        st.stack.push(Rc::new(old));
        Ok(true)
    }
    fn note_location(&mut self, st: &mut State, args: &[V]) {
        for a in args {
            if let V::C(a) = a {
                let a = *a as u64;
                if a & 0xffff_ffff != 0 {
                    continue;
                }
                if let Ok(o) = self.valid(st, a, 24, false) {
                    if o.kind != Kind::Const || o.size() != 24 {
                        continue;
                    }
                    let g = |i: usize| u64::from_le_bytes(o.bytes[i..i + 8].try_into().unwrap());
                    let (ptr, len, line) = (g(0), g(8), g(16) & 0xffff_ffff);
                    if len > 400 {
                        continue;
                    }
                    if let Ok(fo) = self.valid(st, ptr, len, false) {
                        let off = (ptr & 0xffff_ffff) as usize;
                        let s = String::from_utf8_lossy(&fo.bytes[off..off + len as usize]).into_owned();
                        if s.ends_with(".rs") {
                            st.loc = Some(Rc::new(format!("{}:{}", s, line)));
                        }
                    }
                }
            }
        }
    }

    fn builtin(&mut self, st: &mut State, c: &'static CallI, fid: u32, bi: Bi) -> R<bool> {
        let a = |st: &State, i: usize| rd(st, &c.args[i]);
        let mut ret: Option<V> = None;
        match bi {
            Bi::None => unreachable!(),
            Bi::Nop => {}
            Bi::RetZero => ret = Some(V::C(0)),
            Bi::Memcpy => {
                let (d, s, n) = (a(st, 0), a(st, 1), a(st, 2));
                self.memcpy(st, &d, &s, &n)?;
                ret = Some(d);
            }
            Bi::Memset => {
                let (d, x, n) = (a(st, 0), a(st, 1), a(st, 2));
                let n = self.conc(st, &n)? as u64;
                if n > 0 {
                    let dp = self.conc(st, &d)?;
                    let (dp, _) = self.resolve(st, &V::C(dp), n, true)?;
                    let x = match x {
                        V::C(k) => V::C(k & 0xff),
                        V::S(e) => {
                            let r = self.p.extract(e, 0, 8);
                            self.v(r)
                        }
                        v => v,
                    };
                    for i in 0..n {
                        self.store_raw(st, dp + i, &x, 8);
                    }
                }
                ret = Some(d);
            }
            Bi::Bcmp | Bi::Memcmp => {
                let (p, q, n) = (a(st, 0), a(st, 1), a(st, 2));
                let n = self.conc(st, &n)? as usize;
                let x = self.bytes(st, &p, n)?;
                let y = self.bytes(st, &q, n)?;
                if bi == Bi::Bcmp {
                    let mut eq = self.p.tt();
                    for i in 0..n {
                        let t = self.p.eq(x[i], y[i]);
                        eq = self.p.and(eq, t);
                    }
                    let ne = self.p.not(eq);
                    let r = self.p.zext(ne, 32);
                    ret = Some(self.v(r));
                } else {
                    let mut r = self.p.c(0, 32);
                    for i in (0..n).rev() {
                        let eq = self.p.eq(x[i], y[i]);
                        let lt = self.p.ult(x[i], y[i]);
                        let m1 = self.p.c(0xffff_ffff, 32);
                        let p1 = self.p.c(1, 32);
                        let d = self.p.ite(lt, m1, p1);
                        r = self.p.ite(eq, r, d);
                    }
                    ret = Some(self.v(r));
                }
            }
            Bi::Strlen => {
                let p = a(st, 0);
                let base = self.conc(st, &p)? as u64;
                let mut i = 0u64;
                loop {
                    let (q, _) = self.resolve(st, &V::C((base + i) as u128), 1, false)?;
                    let b = self.load_raw(st, q, 1);
                    let z = match b {
                        V::C(x) => x == 0,
                        V::S(e) => {
                            let k = self.p.c(0, 8);
                            let cnd = self.p.eq(e, k);
                            self.decide(st, cnd)?
                        }
                        _ => false,
                    };
                    if z {
                        break;
                    }
                    i += 1;
                }
                ret = Some(V::C(i as u128));
            }
            Bi::Memchr => {
                let (p, ch, n) = (a(st, 0), a(st, 1), a(st, 2));
                let n = self.conc(st, &n)? as usize;
                let base = self.conc(st, &p)? as u64;
                let bs = self.bytes(st, &V::C(base as u128), n)?;
                let che = self.e(&ch, 32);
                let che = self.p.extract(che, 0, 8);
                let mut r = 0u128;
                for (i, &b) in bs.iter().enumerate() {
                    let cnd = self.p.eq(b, che);
                    if self.decide(st, cnd)? {
                        r = (base + i as u64) as u128;
                        break;
                    }
                }
                ret = Some(V::C(r));
            }
            Bi::RAlloc | Bi::RAllocZ => {
                let (n, al) = (a(st, 0), a(st, 1));
                let n = self.conc(st, &n)? as u64;
                let al = self.conc(st, &al)? as u64;
                if n > 1 << 30 {
                    // allocation failure
                    ret = Some(V::C(0));
                } else {
                    let p = self.new_obj(st, Kind::Heap, n, al, bi == Bi::RAlloc);
                    ret = Some(V::C(p as u128));
                }
            }
            Bi::RDealloc => {
                let (p, n, al) = (a(st, 0), a(st, 1), a(st, 2));
                let p = self.conc(st, &p)? as u64;
                let n = self.conc(st, &n)? as u64;
                let al = self.conc(st, &al)? as u64;
                self.dealloc(st, p, Kind::Heap, Some((n, al)))?;
            }
            Bi::RRealloc => {
                let (p, n, al, m) = (a(st, 0), a(st, 1), a(st, 2), a(st, 3));
                let p = self.conc(st, &p)? as u64;
                let n = self.conc(st, &n)? as u64;
                let al = self.conc(st, &al)? as u64;
                let m = self.conc(st, &m)? as u64;
                let q = self.new_obj(st, Kind::Heap, m, al, true);
                self.memcpy(st, &V::C(q as u128), &V::C(p as u128), &V::C(n.min(m) as u128))?;
                self.dealloc(st, p, Kind::Heap, Some((n, al)))?;
                ret = Some(V::C(q as u128));
            }
            Bi::Malloc | Bi::Calloc => {
                let n = a(st, 0);
                let mut n = self.conc(st, &n)? as u64;
                if bi == Bi::Calloc {
                    let k = a(st, 1);
                    n *= self.conc(st, &k)? as u64;
                }
                let p = self.new_obj(st, Kind::CHeap, n, 16, bi == Bi::Malloc);
                ret = Some(V::C(p as u128));
            }
            Bi::Realloc => {
                let (p, m) = (a(st, 0), a(st, 1));
                let p = self.conc(st, &p)? as u64;
                let m = self.conc(st, &m)? as u64;
                let q = self.new_obj(st, Kind::CHeap, m, 16, true);
                if p != 0 {
                    let n = match self.valid(st, p, 0, true) {
                        Ok(o) => o.size() as u64,
                        Err(m) => return Err(self.fault(st, "memory-safety", m)),
                    };
                    self.memcpy(st, &V::C(q as u128), &V::C(p as u128), &V::C(n.min(m) as u128))?;
                    self.dealloc(st, p, Kind::CHeap, None)?;
                }
                ret = Some(V::C(q as u128));
            }
            Bi::Free => {
                let p = a(st, 0);
                let p = self.conc(st, &p)? as u64;
                if p != 0 {
                    self.dealloc(st, p, Kind::CHeap, None)?;
                }
            }
            Bi::PosixMemalign => {
                let (pp, al, n) = (a(st, 0), a(st, 1), a(st, 2));
                let pp = self.conc(st, &pp)?;
                let al = self.conc(st, &al)? as u64;
                let n = self.conc(st, &n)? as u64;
                let q = self.new_obj(st, Kind::CHeap, n, al, true);
                self.store_int(st, &V::C(pp), &V::C(q as u128), 64)?;
                ret = Some(V::C(0));
            }
            Bi::Raise => {
                let exc = a(st, 0);
                self.unwind(st, exc, false)?;
                return Ok(true);
            }
            Bi::Abort => return Err(self.fault(st, "abort", "the process aborted".into())),
            Bi::Write => {
                let n = a(st, 2);
                ret = Some(n);
            }
            Bi::Writev => {
                let (iov, n) = (a(st, 1), a(st, 2));
                let iov = self.conc(st, &iov)? as u64;
                let n = self.conc(st, &n)? as u64;
                let mut t = 0u128;
                for i in 0..n {
                    let l = self.load_int(st, &V::C((iov + 16 * i + 8) as u128), 64)?;
                    t += self.conc(st, &l)?;
                }
                ret = Some(V::C(t));
            }
            Bi::HashKeys => {
                let s = st.hash_seed;
                let k0 = s.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) ^ 0x243F_6A88_85A3_08D3;
                let k1 = s.wrapping_mul(0xBF58_476D_1CE4_E5B9).rotate_left(31) ^ 0x1319_8A2E_0370_7344;
                ret = Some(V::A(Rc::new(vec![V::C(k0 as u128), V::C(k1 as u128)])));
            }
            Bi::KeyCreate => {
                let p = a(st, 0);
                let n = st.keyn;
                self.store_int(st, &p, &V::C(n as u128), 32)?;
                st.keyn += 1;
                ret = Some(V::C(0));
            }
            Bi::Errno => {
                if st.errno == 0 {
                    st.errno = self.new_obj(st, Kind::Global, 8, 8, false);
                }
                ret = Some(V::C(st.errno as u128));
            }
            Bi::Syscall => bail!(self, st, "system call"),
            Bi::Intr => {
                let name = self.m.funcs[fid as usize].name.clone();
                return self.intrinsic(st, c, &name);
            }
            // ---- harness interface
            Bi::VmBytes => {
                let (np, nl, out, n) = (a(st, 0), a(st, 1), a(st, 2), a(st, 3));
                let name = self.str_at(st, &np, &nl)?;
                let n = self.conc(st, &n)? as usize;
                let out = V::C(self.conc(st, &out)?);
                let es: Vec<E> = if let Some(cc) = &self.cfg.concrete {
                    let k = self.concn.entry("#".into()).or_insert(0);
                    let i = *k;
                    *k += 1;
                    let b = cc.get(i).map(|x| x.1.clone()).unwrap_or_default();
                    (0..n).map(|i| self.p.c(b.get(i).copied().unwrap_or(0) as u128, 8)).collect()
                } else {
                    (0..n).map(|i| self.p.var(format!("{}[{}]", name, i), 8)).collect()
                };
                self.put_bytes(st, &out, &es)?;
                Rc::make_mut(&mut st.inputs).push((name, es));
            }
            Bi::VmAssume => {
                let v = a(st, 0);
                let cnd = self.truth(&v, c.argw[0]);
                match self.known(st, cnd) {
                    Some(true) => {}
                    Some(false) => {
                        self.infeasible += 1;
                        return Err(Stop::End);
                    }
                    None => {
                        if st.model.eval(&self.p, cnd) != 1 {
                            match self.solve(st, cnd) {
                                Ans::Sat(m) => st.model = m,
                                Ans::Unsat => {
                                    self.infeasible += 1;
                                    return Err(Stop::End);
                                }
                                Ans::Unknown => bail!(self, st, "solver gave no answer for an assumption"),
                            }
                        }
                        self.add_pc(st, cnd);
                    }
                }
            }
            Bi::VmCheck => {
                let (v, np, nl) = (a(st, 0), a(st, 1), a(st, 2));
                let label = self.str_at(st, &np, &nl)?;
                let cnd = self.truth(&v, c.argw[0]);
                let ent = self.checks.entry(label.clone()).or_insert((0, 0, 0));
                ent.0 += 1;
                match self.known_fact(st, cnd) {
                    Some(true) => self.checks.get_mut(&label).unwrap().1 += 1,
                    Some(false) => {
                        return Err(self.fault(st, &label, format!("check '{}' fails", label)));
                    }
                    None => {
                        if st.model.eval(&self.p, cnd) != 1 {
                            return Err(self.fault(st, &label, format!("check '{}' fails", label)));
                        }
                        let nc = self.p.not(cnd);
                        match self.solve(st, nc) {
                            Ans::Unsat => {
                                self.checks.get_mut(&label).unwrap().2 += 1;
                                Rc::make_mut(&mut st.facts).insert(cnd);
                            }
                            Ans::Sat(m) => {
                                self.violation(st, &m, &label, format!("check '{}' fails", label));
                                self.add_pc(st, cnd);
                            }
                            Ans::Unknown => {
                                // interval analysis may still settle it
                                if self.known(st, cnd) == Some(true) {
                                    self.checks.get_mut(&label).unwrap().1 += 1;
                                } else {
                                    self.incomplete_at(st, format!("solver gave no answer for check '{}'", label));
                                }
                                self.add_pc(st, cnd);
                            }
                        }
                    }
                }
            }
            Bi::VmFail => {
                let (np, nl) = (a(st, 0), a(st, 1));
                let label = self.str_at(st, &np, &nl)?;
                let ent = self.checks.entry(label.clone()).or_insert((0, 0, 0));
                ent.0 += 1;
                return Err(self.fault(st, &label, format!("check '{}' fails", label)));
            }
            Bi::VmCover => {
                let (np, nl) = (a(st, 0), a(st, 1));
                let label = self.str_at(st, &np, &nl)?;
                Rc::make_mut(&mut st.covers).insert(label);
            }
            Bi::VmObserve => {
                let (np, nl, p, n) = (a(st, 0), a(st, 1), a(st, 2), a(st, 3));
                let label = self.str_at(st, &np, &nl)?;
                let n = self.conc(st, &n)? as usize;
                let b = self.bytes(st, &p, n)?;
                let h: String = b.iter().map(|&e| format!("{:02x}", st.model.eval(&self.p, e))).collect();
                self.observed.insert(format!("{}={}", label, h));
            }
            Bi::VmChoose => {
                let v = a(st, 0);
                let n = self.conc(st, &v)? as u64;
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    Rc::make_mut(&mut o.choices).push(k);
                    self.finish_call(&mut o, Some(V::C(k as u128)));
                    self.work.push(o);
                    self.forks += 1;
                }
                Rc::make_mut(&mut st.choices).push(0);
                ret = Some(V::C(0));
            }
            Bi::VmUf => {
                let tag = a(st, 0);
                let tag = self.conc(st, &tag)? as u64;
                let (ip, il, op, ol, inj) = (a(st, 1), a(st, 2), a(st, 3), a(st, 4), a(st, 5));
                let il = self.conc(st, &il)? as usize;
                let ol = self.conc(st, &ol)? as usize;
                let inj = self.conc(st, &inj)? != 0;
                let op = V::C(self.conc(st, &op)?);
                let inp = self.bytes(st, &ip, il)?;
                let out = self.uf(st, tag, inp, ol, inj);
                self.put_bytes(st, &op, &out)?;
            }
            Bi::VmHashSeed => {
                let v = a(st, 0);
                st.hash_seed = self.conc(st, &v)? as u64;
            }
            Bi::VmFreeze => {
                let v = a(st, 0);
                let on = self.conc(st, &v)? != 0;
                if !on {
                    for (a, w, old) in std::mem::take(&mut st.left) {
                        let now = self.load_int(st, &V::C(a as u128), w)?;
                        let same = match self.icmp(Pred::Eq, w, &now, &old) {
                            V::C(x) => x == 1,
                            V::S(e) => self.decide(st, e)?,
                            _ => false,
                        };
                        if !same {
                            return Err(self.fault(st, "memory-safety", format!("{}something else is left in {}", SHARED, self.whose(a >> 32))));
                        }
                    }
                }
                st.frozen = if on { st.mem.next } else { 0 };
            }
            Bi::VmHeapLive => ret = Some(V::C(st.mem.live_heap as u128)),
            Bi::VmConc => {
                let v = a(st, 0);
                ret = Some(V::C(self.conc(st, &v)?));
            }
            Bi::VmIsSym => {
                let v = a(st, 0);
                ret = Some(V::C(matches!(v, V::S(_)) as u128));
            }
            Bi::VmSelect => {
                let (cv, x, y) = (a(st, 0), a(st, 1), a(st, 2));
                let cnd = self.truth(&cv, c.argw[0]);
                let x = self.e(&x, 64);
                let y = self.e(&y, 64);
                let r = self.p.ite(cnd, x, y);
                ret = Some(self.v(r));
            }
        }
        self.finish_call(st, ret);
        Ok(true)
    }
    fn truth(&mut self, v: &V, w: u32) -> E {
        let e = self.e(v, w);
        if w == 1 {
            return e;
        }
        let z = self.p.c(0, w);
        let t = self.p.eq(e, z);
        self.p.not(t)
    }
    fn vec_eq(&mut self, a: &[E], b: &[E]) -> E {
        let mut r = self.p.tt();
        for i in 0..a.len() {
            let t = self.p.eq(a[i], b[i]);
            r = self.p.and(r, t);
            if self.p.cv(r) == Some(0) {
                break;
            }
        }
        r
    }
    fn uf(&mut self, st: &mut State, tag: u64, inp: Vec<E>, ol: usize, inj: bool) -> Vec<E> {
        for u in st.ufs.iter() {
            if u.tag == tag && u.inp == inp && u.out.len() == ol {
                return u.out.clone();
            }
        }
        let n = st.ufs.len();
        let out: Vec<E> = (0..ol).map(|i| self.p.var(format!("uf{}_{}[{}]", tag, n, i), 8)).collect();
        // initial model values: distinct pseudo-random bytes
        let mut vals = st.model.vals.clone();
        let mut seed = 0x9E3779B97F4A7C15u64.wrapping_mul(n as u64 + 1) ^ tag.wrapping_mul(0xD6E8FEB86659FD93);
        for &e in &out {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            vals.insert(self.p.n(e).k as u32, (seed >> 24 & 0xff) as u128);
        }
        let prev: Vec<UfApp> = st.ufs.iter().filter(|u| u.tag == tag && u.out.len() == ol).cloned().collect();
        let mut cons = vec![];
        for u in &prev {
            let same_in = if u.inp.len() == inp.len() { self.vec_eq(&u.inp, &inp) } else { self.p.ff() };
            let known_diff = self.known(st, same_in) == Some(false);
            let same_out = self.vec_eq(&u.out, &out);
            if !known_diff {
                if st.model.eval(&self.p, same_in) == 1 {
                    for i in 0..ol {
                        let v = st.model.eval(&self.p, u.out[i]);
                        vals.insert(self.p.n(out[i]).k as u32, v);
                    }
                }
                // in == in' -> out == out'
                let nin = self.p.not(same_in);
                let k = self.p.or(nin, same_out);
                cons.push(k);
            }
            if inj {
                // out == out' -> in == in'
                let no = self.p.not(same_out);
                let si = if known_diff { self.p.ff() } else { same_in };
                let k = self.p.or(no, si);
                cons.push(k);
            }
        }
        st.model = Rc::new(Model::new(vals));
        for k in cons {
            if self.p.cv(k) == Some(1) {
                continue;
            }
            Rc::make_mut(&mut st.facts).insert(k);
            Rc::make_mut(&mut st.lazy).push(k);
        }
        let m = st.model.clone();
        if self.promote(st, &m) {
            // the solver has to find a consistent model
            loop {
                match self.s.check(&mut self.p, &st.pc.clone()) {
                    Res::Sat(m) => {
                        let m = self.merge_model(st, &m);
                        if !self.promote(st, &m) {
                            st.model = m;
                            break;
                        }
                    }
                    // a fresh output always has a consistent value; without an answer the path cannot go on
                    _ => {
                        self.incomplete_at(st, "solver gave no model for an uninterpreted function".into());
                        break;
                    }
                }
            }
        }
        Rc::make_mut(&mut st.ufs).push(UfApp { tag, inp, out: out.clone(), inj });
        out
    }
    fn dealloc(&mut self, st: &mut State, p: u64, kind: Kind, layout: Option<(u64, u64)>) -> R<()> {
        self.mem_checks += 1;
        let id = p >> 32;
        let o = match self.obj(st, id) {
            Ok(o) => o,
            Err(m) => return Err(self.fault(st, "memory-safety", format!("bad free: {}", m))),
        };
        if p & 0xffff_ffff != 0 || o.kind != kind {
            return Err(self.fault(st, "memory-safety", format!("free of a pointer that is not the start of a {:?} allocation", kind)));
        }
        if let Some((n, al)) = layout {
            if o.size() as u64 != n || o.align != al {
                return Err(self.fault(
                    st,
                    "memory-safety",
                    format!("free with layout size {} align {} of a block allocated with size {} align {}", n, al, o.size(), o.align),
                ));
            }
        }
        if st.frozen != 0 {
            if let Err(m) = self.unshared(st, id, kind, "free of") {
                return Err(self.fault(st, "memory-safety", m));
            }
        }
        st.mem.kill(id, kind);
        Ok(())
    }

    fn intrinsic(&mut self, st: &mut State, c: &'static CallI, name: &str) -> R<bool> {
        let n = &name[5..];
        let args: Vec<V> = c.args.iter().map(|o| rd(st, o)).collect();
        // no-ops
        for p in [
            "lifetime.", "assume", "experimental.noalias", "dbg.", "donothing", "invariant.", "var.annotation", "prefetch", "x86.sse2.pause", "stackrestore",
        ] {
            if n.starts_with(p) {
                self.finish_call(st, None);
                return Ok(true);
            }
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            return Err(self.fault(st, "abort", "trap instruction".into()));
        }
        if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip.inv") || n.starts_with("ptrmask.none") {
            self.finish_call(st, Some(args[0].clone()));
            return Ok(true);
        }
        if n.starts_with("is.constant") {
            self.finish_call(st, Some(V::C(0)));
            return Ok(true);
        }
        if n.starts_with("stacksave") {
            self.finish_call(st, Some(V::C(0)));
            return Ok(true);
        }
        if n.starts_with("vector.reduce.") {
            let k = &n[14..];
            let (lanes, w) = match &args[0] {
                V::A(v) => (v.len(), c.ret.width()),
                _ => bail!(self, st, "intrinsic {}", name),
            };
            let mut r = Self::lane(&args[0], 0);
            for i in 1..lanes {
                let x = Self::lane(&args[0], i);
                r = if k.starts_with("add") {
                    self.bin(BinOp::Add, w, &r, &x)
                } else if k.starts_with("or") {
                    self.bin(BinOp::Or, w, &r, &x)
                } else if k.starts_with("and") {
                    self.bin(BinOp::And, w, &r, &x)
                } else if k.starts_with("xor") {
                    self.bin(BinOp::Xor, w, &r, &x)
                } else {
                    bail!(self, st, "intrinsic {}", name)
                };
            }
            self.finish_call(st, Some(r));
            return Ok(true);
        }
        // vector-wise
        let (rty, lanes) = match &c.ret {
            Ty::Vec(n, t) => ((**t).clone(), *n as usize),
            t => (t.clone(), 0),
        };
        let w = match &rty {
            Ty::Int(w) => *w,
            Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Struct(f, _) => match &f[0] {
                Ty::Int(w) => *w,
                _ => bail!(self, st, "intrinsic {}", name),
            },
            _ => bail!(self, st, "intrinsic {}", name),
        };
        let aw = c.argw.first().copied().unwrap_or(w);
        let r = if lanes == 0 {
            self.intr1(st, n, w, aw, &args)
        } else {
            let mut o = vec![];
            let mut bad = false;
            for i in 0..lanes {
                let la: Vec<V> = args.iter().map(|x| Self::lane(x, i)).collect();
                match self.intr1(st, n, w, w, &la) {
                    Some(v) => o.push(v),
                    None => bad = true,
                }
            }
            if bad {
                None
            } else {
                Some(V::A(Rc::new(o)))
            }
        };
        match r {
            Some(v) => {
                self.finish_call(st, Some(v));
                Ok(true)
            }
            None => bail!(self, st, "intrinsic {}", name),
        }
    }
    fn intr1(&mut self, st: &State, n: &str, w: u32, aw: u32, a: &[V]) -> Option<V> {
        let base: &str = n.split(|c| c == '.').next().unwrap();
        let full: String = {
            // drop the trailing type suffix
            let parts: Vec<&str> = n.split('.').collect();
            let mut keep = vec![];
            for p in parts {
                let is_ty = (p.starts_with('i') && p[1..].chars().all(|c| c.is_ascii_digit()) && p.len() > 1)
                    || (p.starts_with('v') && p[1..].chars().next().map_or(false, |c| c.is_ascii_digit()))
                    || p == "f64"
                    || p == "f32"
                    || p == "p0";
                if !is_ty {
                    keep.push(p);
                }
            }
            keep.join(".")
        };
        let _ = base;
        let r = match full.as_str() {
            "umin" | "umax" | "smin" | "smax" => {
                let pr = match full.as_str() {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                let c = self.icmp(pr, w, &a[0], &a[1]);
                self.select(&c, &a[0], &a[1], &Ty::Int(w))
            }
            "abs" => {
                let z = V::C(0);
                let neg = self.bin(BinOp::Sub, w, &z, &a[0]);
                let c = self.icmp(Pred::Slt, w, &a[0], &z);
                self.select(&c, &neg, &a[0], &Ty::Int(w))
            }
            "ucmp" | "scmp" => {
                let (l, g) = if full == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let lt = self.icmp(l, aw, &a[0], &a[1]);
                let gt = self.icmp(g, aw, &a[0], &a[1]);
                let t = self.select(&gt, &V::C(1), &V::C(0), &Ty::Int(w));
                self.select(&lt, &V::C(mask(w)), &t, &Ty::Int(w))
            }
            "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => {
                let add = full.contains("add");
                let r = self.bin(if add { BinOp::Add } else { BinOp::Sub }, w, &a[0], &a[1]);
                if full.starts_with('u') {
                    if add {
                        let c = self.icmp(Pred::Ult, w, &r, &a[0]);
                        self.select(&c, &V::C(mask(w)), &r, &Ty::Int(w))
                    } else {
                        let c = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                        self.select(&c, &V::C(0), &r, &Ty::Int(w))
                    }
                } else {
                    let o = self.sovf(add, w, &a[0], &a[1], &r);
                    let neg = self.icmp(Pred::Slt, w, &a[0], &V::C(0));
                    let min = V::C(1u128 << (w - 1));
                    let max = V::C(mask(w - 1));
                    let sat = self.select(&neg, &min, &max, &Ty::Int(w));
                    self.select(&o, &sat, &r, &Ty::Int(w))
                }
            }
            "uadd.with.overflow" => {
                let r = self.bin(BinOp::Add, w, &a[0], &a[1]);
                let (_, x) = self.vrange(st, &a[0], w);
                let (_, y) = self.vrange(st, &a[1], w);
                let o = if w <= 64 && x + y <= mask(w) { V::C(0) } else { self.icmp(Pred::Ult, w, &r, &a[0]) };
                V::A(Rc::new(vec![r, o]))
            }
            "usub.with.overflow" => {
                let r = self.bin(BinOp::Sub, w, &a[0], &a[1]);
                let o = self.icmp(Pred::Ult, w, &a[0], &a[1]);
                V::A(Rc::new(vec![r, o]))
            }
            "sadd.with.overflow" | "ssub.with.overflow" => {
                let add = full.starts_with("sadd");
                let r = self.bin(if add { BinOp::Add } else { BinOp::Sub }, w, &a[0], &a[1]);
                let o = self.sovf(add, w, &a[0], &a[1], &r);
                V::A(Rc::new(vec![r, o]))
            }
            "umul.with.overflow" | "smul.with.overflow" => {
                let u = full.starts_with('u');
                let r = self.bin(BinOp::Mul, w, &a[0], &a[1]);
                if w * 2 > 128 {
                    match (&a[0], &a[1]) {
                        (V::C(x), V::C(y)) if u => {
                            let o = x.checked_mul(*y).map_or(true, |z| z > mask(w));
                            return Some(V::A(Rc::new(vec![r, V::C(o as u128)])));
                        }
                        _ => return None,
                    }
                }
                let (_, x) = self.vrange(st, &a[0], w);
                let (_, y) = self.vrange(st, &a[1], w);
                if u && x * y <= mask(w) {
                    return Some(V::A(Rc::new(vec![r, V::C(0)])));
                }
                let cop = if u { CastOp::Zext } else { CastOp::Sext };
                let x = self.cast(cop, w, 2 * w, &a[0]).ok()?;
                let y = self.cast(cop, w, 2 * w, &a[1]).ok()?;
                let p = self.bin(BinOp::Mul, 2 * w, &x, &y);
                let back = self.cast(cop, w, 2 * w, &r).ok()?;
                let o = self.icmp(Pred::Ne, 2 * w, &p, &back);
                V::A(Rc::new(vec![r, o]))
            }
            "bswap" => {
                let nb = w / 8;
                match &a[0] {
                    V::C(x) => {
                        let mut r = 0u128;
                        for i in 0..nb {
                            r = r << 8 | (x >> (8 * i) & 0xff);
                        }
                        V::C(r)
                    }
                    v => {
                        let e = self.e(v, w);
                        let mut r = self.p.extract(e, 0, 8);
                        for i in 1..nb {
                            let b = self.p.extract(e, 8 * i, 8);
                            r = self.p.concat(r, b);
                        }
                        self.v(r)
                    }
                }
            }
            "bitreverse" => {
                let e = self.e(&a[0], w);
                let mut r = self.p.extract(e, 0, 1);
                for i in 1..w {
                    let b = self.p.extract(e, i, 1);
                    r = self.p.concat(r, b);
                }
                self.v(r)
            }
            "ctpop" => {
                let e = self.e(&a[0], w);
                let mut r = self.p.c(0, w);
                for i in 0..w {
                    let b = self.p.extract(e, i, 1);
                    let b = self.p.zext(b, w);
                    r = self.p.add(r, b);
                }
                self.v(r)
            }
            "ctlz" | "cttz" => {
                if let V::C(x) = &a[0] {
                    let r = if full == "ctlz" {
                        if *x == 0 {
                            w
                        } else {
                            x.leading_zeros() - (128 - w)
                        }
                    } else if *x == 0 {
                        w
                    } else {
                        x.trailing_zeros()
                    };
                    return Some(V::C(r as u128));
                }
                let e = self.e(&a[0], w);
                let mut r = self.p.c(w as u128, w);
                for j in 0..w {
                    // lowest priority first
                    let i = if full == "ctlz" { j } else { w - 1 - j };
                    let b = self.p.extract(e, i, 1);
                    let k = if full == "ctlz" { w - 1 - i } else { i };
                    let kc = self.p.c(k as u128, w);
                    r = self.p.ite(b, kc, r);
                }
                self.v(r)
            }
            "fshl" | "fshr" => {
                let sh = match &a[2] {
                    V::C(k) => *k % w as u128,
                    _ => {
                        // symbolic rotation amount
                        let wv = V::C(w as u128);
                        let s = self.bin(BinOp::URem, w, &a[2], &wv);
                        let inv = self.bin(BinOp::Sub, w, &wv, &s);
                        let (hi, lo) = if full == "fshl" {
                            (self.bin(BinOp::Shl, w, &a[0], &s), self.bin(BinOp::LShr, w, &a[1], &inv))
                        } else {
                            (self.bin(BinOp::Shl, w, &a[0], &inv), self.bin(BinOp::LShr, w, &a[1], &s))
                        };
                        return Some(self.bin(BinOp::Or, w, &hi, &lo));
                    }
                } as u32;
                if sh == 0 {
                    return Some(if full == "fshl" { a[0].clone() } else { a[1].clone() });
                }
                let (l, r) = if full == "fshl" { (sh, w - sh) } else { (w - sh, sh) };
                let hi = self.bin(BinOp::Shl, w, &a[0], &V::C(l as u128));
                let lo = self.bin(BinOp::LShr, w, &a[1], &V::C(r as u128));
                self.bin(BinOp::Or, w, &hi, &lo)
            }
            "ptrmask" => self.bin(BinOp::And, w, &a[0], &a[1]),
            "fabs" | "ceil" | "floor" | "trunc" | "rint" | "nearbyint" | "round" if matches!(a[0], V::S(_)) => V::S(self.fresh("float", w)),
            "fabs" | "ceil" | "floor" | "trunc" | "rint" | "nearbyint" | "round" => match &a[0] {
                V::C(x) => {
                    let f = |v: f64| match full.as_str() {
                        "fabs" => v.abs(),
                        "ceil" => v.ceil(),
                        "floor" => v.floor(),
                        "trunc" => v.trunc(),
                        "round" => v.round(),
                        _ => v.round_ties_even(),
                    };
                    if w == 32 {
                        V::C((f(f32::from_bits(*x as u32) as f64) as f32).to_bits() as u128)
                    } else {
                        V::C(f(f64::from_bits(*x as u64)).to_bits() as u128)
                    }
                }
                _ => return None,
            },
            _ => return None,
        };
        Some(r)
    }
    fn sovf(&mut self, add: bool, w: u32, a: &V, b: &V, r: &V) -> V {
        // signed overflow of a +- b = r
        let (x, y) = (self.bin(BinOp::Xor, w, a, r), if add { self.bin(BinOp::Xor, w, b, r) } else { self.bin(BinOp::Xor, w, a, b) });
        let t = self.bin(BinOp::And, w, &x, &y);
        self.icmp(Pred::Slt, w, &t, &V::C(0))
    }
}

fn classify(n: &str, body: bool) -> Bi {
    if n.starts_with("llvm.") {
        if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") {
            return Bi::Memcpy;
        }
        if n.starts_with("llvm.memset") {
            return Bi::Memset;
        }
        return Bi::Intr;
    }
    if n.contains("___rustc12___rust_alloc") {
        return Bi::RAlloc;
    }
    if n.contains("___rustc19___rust_alloc_zeroed") {
        return Bi::RAllocZ;
    }
    if n.contains("___rustc14___rust_dealloc") {
        return Bi::RDealloc;
    }
    if n.contains("___rustc14___rust_realloc") {
        return Bi::RRealloc;
    }
    if n.contains("hashmap_random_keys") {
        return Bi::HashKeys;
    }
    if n.ends_with("3std9panicking12default_hook") && n.starts_with("_RNv") {
        return Bi::Nop;
    }
    match n {
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "bcmp" => Bi::Bcmp,
        "memcmp" => Bi::Memcmp,
        "memchr" => Bi::Memchr,
        "strlen" => Bi::Strlen,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "_Unwind_RaiseException" => Bi::Raise,
        "_Unwind_DeleteException" => Bi::Nop,
        "abort" => Bi::Abort,
        "getenv" | "pthread_setspecific" | "pthread_key_delete" | "fcntl" | "close" | "poll" => Bi::RetZero,
        "write" => Bi::Write,
        "writev" => Bi::Writev,
        "pthread_key_create" => Bi::KeyCreate,
        "__errno_location" => Bi::Errno,
        "syscall" => Bi::Syscall,
        "vm_bytes" => Bi::VmBytes,
        "vm_assume" => Bi::VmAssume,
        "vm_check" => Bi::VmCheck,
        "vm_cover" => Bi::VmCover,
        "vm_choose" => Bi::VmChoose,
        "vm_uf" => Bi::VmUf,
        "vm_hash_seed" => Bi::VmHashSeed,
        "vm_heap_live" => Bi::VmHeapLive,
        "vm_freeze" => Bi::VmFreeze,
        "vm_conc" => Bi::VmConc,
        "vm_observe" => Bi::VmObserve,
        "vm_fail" => Bi::VmFail,
        "vm_is_sym" => Bi::VmIsSym,
        "vm_select" => Bi::VmSelect,
        _ => {
            let _ = body;
            Bi::None
        }
    }
}
