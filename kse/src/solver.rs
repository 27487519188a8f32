//! z3 back end (C API, libz3), constraint slicing, result cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, s: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn noerr(_c: P, _e: c_int) {}

#[derive(Clone, Copy)]
enum Ast {
    Bv(P),
    Bool(P),
}

pub enum Res {
    Unsat,
    Sat(Vec<(u32, u128)>),
    Unknown,
}

pub struct Solver {
    ctx: P,
    simple: P,
    ast: HashMap<E, Ast, BuildFx>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u128)>>, BuildFx>,
    t1: c_uint,
    t2: c_uint,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump_dir: Option<String>,
    pub dump_n: u64,
    pub nassert: u64,
    pub audit_shapes: u64,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(noerr));
            let simple = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, simple);
            let mut s = Solver {
                ctx,
                simple,
                ast: HashMap::default(),
                cache: HashMap::default(),
                t1: 1500,
                t2: 120_000,
                queries: 0,
                cache_hits: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump_dir: None,
                dump_n: 0,
                nassert: 0,
            audit_shapes: 0,
            };
            s.params(simple, s.t1);
            s
        }
    }
    pub fn version() -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
    }
    pub fn set_timeouts(&mut self, t1: u32, t2: u32) {
        self.t1 = t1;
        self.t2 = t2;
        unsafe { self.params(self.simple, t1) }
    }
    unsafe fn params(&self, s: P, t: c_uint) {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let n = CString::new("timeout").unwrap();
        let sy = Z3_mk_string_symbol(self.ctx, n.as_ptr());
        Z3_params_set_uint(self.ctx, p, sy, t);
        Z3_solver_set_params(self.ctx, s, p);
    }
    fn bv(&self, a: Ast) -> P {
        match a {
            Ast::Bv(p) => p,
            Ast::Bool(p) => unsafe {
                let s = Z3_mk_bv_sort(self.ctx, 1);
                let o = CString::new("1").unwrap();
                let z = CString::new("0").unwrap();
                let one = Z3_mk_numeral(self.ctx, o.as_ptr(), s);
                let zero = Z3_mk_numeral(self.ctx, z.as_ptr(), s);
                Z3_mk_ite(self.ctx, p, one, zero)
            },
        }
    }
    fn boolean(&self, a: Ast) -> P {
        match a {
            Ast::Bool(p) => p,
            Ast::Bv(p) => unsafe {
                let s = Z3_mk_bv_sort(self.ctx, 1);
                let o = CString::new("1").unwrap();
                let one = Z3_mk_numeral(self.ctx, o.as_ptr(), s);
                Z3_mk_eq(self.ctx, p, one)
            },
        }
    }
    fn tr(&mut self, p: &Pool, root: E) -> Ast {
        if let Some(&a) = self.ast.get(&root) {
            return a;
        }
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if self.ast.contains_key(&e) {
                st.pop();
                continue;
            }
            let n = *p.n(e);
            let mut ready = true;
            for ch in [n.a, n.b, n.c] {
                if ch != 0 && !self.ast.contains_key(&ch) {
                    st.push(ch);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            st.pop();
            let c = self.ctx;
            let w = n.w as u32;
            let a = if n.a != 0 { Some(self.ast[&n.a]) } else { None };
            let b = if n.b != 0 { Some(self.ast[&n.b]) } else { None };
            let d = if n.c != 0 { Some(self.ast[&n.c]) } else { None };
            let r = unsafe {
                match n.op {
                    Op::Const => {
                        let s = Z3_mk_bv_sort(c, w);
                        let t = CString::new(n.k.to_string()).unwrap();
                        Ast::Bv(Z3_mk_numeral(c, t.as_ptr(), s))
                    }
                    Op::Var => {
                        let s = Z3_mk_bv_sort(c, w);
                        let t = CString::new(format!("v{}", n.k)).unwrap();
                        let sy = Z3_mk_string_symbol(c, t.as_ptr());
                        Ast::Bv(Z3_mk_const(c, sy, s))
                    }
                    Op::Not if w == 1 => {
                        let x = self.boolean(a.unwrap());
                        Ast::Bool(Z3_mk_not(c, x))
                    }
                    Op::And if w == 1 => {
                        let v = [self.boolean(a.unwrap()), self.boolean(b.unwrap())];
                        Ast::Bool(Z3_mk_and(c, 2, v.as_ptr()))
                    }
                    Op::Or if w == 1 => {
                        let v = [self.boolean(a.unwrap()), self.boolean(b.unwrap())];
                        Ast::Bool(Z3_mk_or(c, 2, v.as_ptr()))
                    }
                    Op::Eq => {
                        let (x, y) = (self.bv(a.unwrap()), self.bv(b.unwrap()));
                        Ast::Bool(Z3_mk_eq(c, x, y))
                    }
                    Op::Ult => {
                        let (x, y) = (self.bv(a.unwrap()), self.bv(b.unwrap()));
                        Ast::Bool(Z3_mk_bvult(c, x, y))
                    }
                    Op::Slt => {
                        let (x, y) = (self.bv(a.unwrap()), self.bv(b.unwrap()));
                        Ast::Bool(Z3_mk_bvslt(c, x, y))
                    }
                    Op::Ite => {
                        let x = self.boolean(a.unwrap());
                        if w == 1 {
                            let (y, z) = (self.boolean(b.unwrap()), self.boolean(d.unwrap()));
                            Ast::Bool(Z3_mk_ite(c, x, y, z))
                        } else {
                            let (y, z) = (self.bv(b.unwrap()), self.bv(d.unwrap()));
                            Ast::Bv(Z3_mk_ite(c, x, y, z))
                        }
                    }
                    Op::Extract => {
                        let x = self.bv(a.unwrap());
                        let lo = n.k as u32;
                        Ast::Bv(Z3_mk_extract(c, lo + w - 1, lo, x))
                    }
                    Op::SExt => {
                        let x = self.bv(a.unwrap());
                        Ast::Bv(Z3_mk_sign_ext(c, w - p.w(n.a), x))
                    }
                    Op::Not => {
                        let x = self.bv(a.unwrap());
                        Ast::Bv(Z3_mk_bvnot(c, x))
                    }
                    _ => {
                        let (x, y) = (self.bv(a.unwrap()), self.bv(b.unwrap()));
                        Ast::Bv(match n.op {
                            Op::And => Z3_mk_bvand(c, x, y),
                            Op::Or => Z3_mk_bvor(c, x, y),
                            Op::Xor => Z3_mk_bvxor(c, x, y),
                            Op::Add => Z3_mk_bvadd(c, x, y),
                            Op::Sub => Z3_mk_bvsub(c, x, y),
                            Op::Mul => Z3_mk_bvmul(c, x, y),
                            Op::UDiv => Z3_mk_bvudiv(c, x, y),
                            Op::URem => Z3_mk_bvurem(c, x, y),
                            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                            Op::SRem => Z3_mk_bvsrem(c, x, y),
                            Op::Shl => Z3_mk_bvshl(c, x, y),
                            Op::LShr => Z3_mk_bvlshr(c, x, y),
                            Op::AShr => Z3_mk_bvashr(c, x, y),
                            Op::Concat => Z3_mk_concat(c, x, y),
                            _ => unreachable!(),
                        })
                    }
                }
            };
            unsafe {
                let ec = Z3_get_error_code(c);
                if ec != 0 {
                    panic!("z3 error {} building {:?}", ec, n);
                }
            }
            self.ast.insert(e, r);
        }
        self.ast[&root]
    }

    /// Decide the conjunction. `cs` should be a slice (sorted, deduplicated by the caller).
    pub fn check(&mut self, p: &mut Pool, cs: &[E]) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        key.retain(|&e| p.cv(e) != Some(1));
        if key.iter().any(|&e| p.cv(e) == Some(0)) {
            return Res::Unsat;
        }
        if key.is_empty() {
            return Res::Sat(vec![]);
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat(m.clone()),
            };
        }
        let t0 = Instant::now();
        self.queries += 1;
        self.nassert += key.len() as u64;
        let mut vars: Vec<u32> = vec![];
        for &e in &key {
            vars.extend(p.support(e).iter());
        }
        vars.sort();
        vars.dedup();
        let asts: Vec<P> = key
            .iter()
            .map(|&e| {
                let a = self.tr(p, e);
                self.boolean(a)
            })
            .collect();
        let mut res = Res::Unknown;
        unsafe {
            let s = self.simple;
            for &a in &asts {
                Z3_solver_assert(self.ctx, s, a);
            }
            if let Some(d) = &self.dump_dir {
                let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{}/last.smt2", d), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t));
            }
            let r = Z3_solver_check(self.ctx, s);
            if r == 1 {
                res = Res::Sat(self.model(p, s, &vars));
            } else if r == -1 {
                res = Res::Unsat;
            }
            Z3_solver_reset(self.ctx, s);
            if r == 0 {
                // harder query: preprocessing + SAT
                let mut t: P = std::ptr::null_mut();
                for name in ["simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "max-bv-sharing", "ackermannize_bv", "bit-blast", "sat"] {
                    let n = CString::new(name).unwrap();
                    let x = Z3_mk_tactic(self.ctx, n.as_ptr());
                    Z3_tactic_inc_ref(self.ctx, x);
                    t = if t.is_null() { x } else { Z3_tactic_and_then(self.ctx, t, x) };
                    Z3_tactic_inc_ref(self.ctx, t);
                }
                let s = Z3_mk_solver_from_tactic(self.ctx, t);
                Z3_solver_inc_ref(self.ctx, s);
                self.params(s, self.t2);
                for &a in &asts {
                    Z3_solver_assert(self.ctx, s, a);
                }
                if let Some(d) = &self.dump_dir {
                    let f = format!("{}/q{}.smt2", d, self.dump_n);
                    self.dump_n += 1;
                    let t = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}\n(check-sat)\n", t));
                }
                let r = Z3_solver_check(self.ctx, s);
                if r == 1 {
                    res = Res::Sat(self.model(p, s, &vars));
                } else if r == -1 {
                    res = Res::Unsat;
                }
                Z3_solver_dec_ref(self.ctx, s);
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match &res {
            Res::Sat(m) => {
                self.sat += 1;
                // never trust a model that does not satisfy the query
                let mdl = Model::new(m.iter().copied().collect());
                for &e in &key {
                    if mdl.eval(p, e) != 1 {
                        eprintln!("kse: INTERNAL: solver model does not satisfy the query");
                        self.unknown += 1;
                        return Res::Unknown;
                    }
                }
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.unsat += 1;
                self.cache.insert(key, None);
            }
            Res::Unknown => self.unknown += 1,
        }
        res
    }
    /// Prove the rewrites (unsimplified, simplified) for every value of their variables: (proved, unanswered, wrong)
    pub fn audit(&mut self, p: &mut Pool, rs: &[(E, E)], secs: f64) -> (u64, u64, Vec<(E, E)>) {
        let t0 = Instant::now();
        let (mut ok, mut unk, mut bad) = (0, 0, vec![]);
        // First with everything below a few levels replaced by arbitrary values (which proves more
        // than asked), then less and less of it; what is the same up to names is proved once.
        let mut left: Vec<((E, E), u64)> = rs.iter().map(|&r| (r, 1)).collect();
        self.audit_shapes = 0;
        for depth in [4u32, 9, 16, u32::MAX] {
            let mut reps: Vec<((E, E), (E, E))> = vec![];
            let mut groups: HashMap<(E, E), Vec<((E, E), u64)>> = HashMap::default();
            let mut seen: HashMap<Vec<u64>, (E, E)> = HashMap::default();
            for &(r, n) in &left {
                let cut = if depth == u32::MAX { r } else { p.cut(r, depth) };
                let rep = match p.shape(&[cut.0, cut.1], 400) {
                    Some(k) => *seen.entry(k).or_insert(cut),
                    None => cut,
                };
                let g = groups.entry(rep).or_default();
                if g.is_empty() {
                    reps.push((rep, r));
                }
                g.push((r, n));
            }
            left.clear();
            self.audit_shapes += reps.len() as u64;
            // in an arbitrary order, so that a run that stops early has sampled all of the execution
            let mut rng = 0x9e3779b97f4a7c15u64;
            for i in (1..reps.len()).rev() {
                rng = rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                reps.swap(i, (rng >> 33) as usize % (i + 1));
            }
            let total = |ch: &[((E, E), (E, E))]| -> u64 { ch.iter().map(|r| groups[&r.0].iter().map(|x| x.1).sum::<u64>()).sum() };
            let mut work: Vec<&[((E, E), (E, E))]> = reps.chunks(64).rev().collect();
            while let Some(ch) = work.pop() {
                if t0.elapsed().as_secs_f64() > secs {
                    unk += total(ch);
                    continue;
                }
                let r = unsafe {
                    let mut v = vec![];
                    for &((a, b), _) in ch {
                        let (x, y) = (self.tr(p, a), self.tr(p, b));
                        let (x, y) = (self.bv(x), self.bv(y));
                        let q = Z3_mk_eq(self.ctx, x, y);
                        v.push(Z3_mk_not(self.ctx, q));
                    }
                    let o = if v.len() == 1 { v[0] } else { Z3_mk_or(self.ctx, v.len() as c_uint, v.as_ptr()) };
                    self.params(self.simple, 1000);
                    Z3_solver_assert(self.ctx, self.simple, o);
                    let r = Z3_solver_check(self.ctx, self.simple);
                    Z3_solver_reset(self.ctx, self.simple);
                    r
                };
                if r == -1 {
                    ok += total(ch);
                } else if ch.len() > 1 {
                    let m = (ch.len() / 8).max(1);
                    work.extend(ch.chunks(m));
                } else if depth != u32::MAX {
                    left.extend(groups[&ch[0].0].iter());
                } else if r == 1 {
                    bad.push(ch[0].1);
                } else {
                    unk += total(ch);
                }
            }
        }
        (ok, unk, bad)
    }
    /// All values of `e` under the conjunction, with a model each; None when there are more than `limit` or no answer.
    pub fn enumerate(&mut self, p: &mut Pool, cs: &[E], e: E, limit: usize) -> Option<Vec<(u128, Vec<(u32, u128)>)>> {
        let mut key: Vec<E> = cs.to_vec();
        key.sort();
        key.dedup();
        key.retain(|&e| p.cv(e) != Some(1));
        let mut vars: Vec<u32> = p.support(e).iter().copied().collect();
        for &e in &key {
            vars.extend(p.support(e).iter());
        }
        vars.sort();
        vars.dedup();
        let asts: Vec<P> = key
            .iter()
            .map(|&e| {
                let a = self.tr(p, e);
                self.boolean(a)
            })
            .collect();
        let w = p.w(e);
        let target = self.tr(p, e);
        let target = self.bv(target);
        let t0 = Instant::now();
        let mut out: Option<Vec<(u128, Vec<(u32, u128)>)>> = Some(vec![]);
        unsafe {
            let s = self.simple;
            for &a in &asts {
                Z3_solver_assert(self.ctx, s, a);
            }
            self.nassert += asts.len() as u64;
            loop {
                self.queries += 1;
                match Z3_solver_check(self.ctx, s) {
                    1 => {
                        self.sat += 1;
                        let m = self.model(p, s, &vars);
                        let mdl = Model::new(m.iter().copied().collect());
                        if key.iter().any(|&e| mdl.eval(p, e) != 1) {
                            eprintln!("kse: INTERNAL: solver model does not satisfy the query");
                            out = None;
                            break;
                        }
                        let v = mdl.eval(p, e);
                        let o = out.as_mut().unwrap();
                        if o.len() >= limit || o.iter().any(|x| x.0 == v) {
                            out = None;
                            break;
                        }
                        o.push((v, m));
                        let sort = Z3_mk_bv_sort(self.ctx, w);
                        let t = CString::new(v.to_string()).unwrap();
                        let k = Z3_mk_numeral(self.ctx, t.as_ptr(), sort);
                        let q = Z3_mk_eq(self.ctx, target, k);
                        Z3_solver_assert(self.ctx, s, Z3_mk_not(self.ctx, q));
                        self.nassert += 1;
                    }
                    -1 => {
                        self.unsat += 1;
                        break;
                    }
                    _ => {
                        self.unknown += 1;
                        out = None;
                        break;
                    }
                }
            }
            Z3_solver_reset(self.ctx, s);
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        out
    }
    unsafe fn model(&mut self, p: &Pool, s: P, vars: &[u32]) -> Vec<(u32, u128)> {
        let m = Z3_solver_get_model(self.ctx, s);
        Z3_model_inc_ref(self.ctx, m);
        let mut out = vec![];
        for &v in vars {
            let a = self.tr(p, p.var_node[v as usize]);
            let a = self.bv(a);
            let mut r: P = std::ptr::null_mut();
            if Z3_model_eval(self.ctx, m, a, true, &mut r) {
                let t = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.ctx, r)).to_string_lossy();
                out.push((v, t.parse::<u128>().unwrap_or(0)));
            }
        }
        Z3_model_dec_ref(self.ctx, m);
        out
    }
}
