//! Hash-consed bit-vector expressions (width 1..=128) with aggressive local simplification.
//!
//! Canonical forms: zero extension is `Concat(0, x)`, constant shifts/rotations are
//! concatenations of extracts, `Ule` is `Not(Ult)`, booleans are 1-bit vectors.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract, // k = lo ; width gives hi
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E, BuildFx>,
    pub vars: Vec<String>,
    pub var_node: Vec<E>,
    support: HashMap<E, std::rc::Rc<Vec<u32>>, BuildFx>,
    tables: HashMap<E, Option<(u32, [u64; 4])>, BuildFx>,
    seen: Vec<u32>,
    stamp: u32,
    /// rewrites made by the simplifier (unsimplified term, result), to be re-proved by the solver
    pub audit: Option<Vec<(E, E)>>,
    pub audit_cap: usize,
    pub audit_missed: u64,
    audited: std::collections::HashSet<E, BuildFx>,
    atoms: HashMap<E, Option<std::rc::Rc<Vec<E>>>, BuildFx>,
    folds: HashMap<E, E, BuildFx>,
    cuts: HashMap<E, E, BuildFx>,
    canon: HashMap<(u32, Vec<(E, u32)>, Vec<u128>), E, BuildFx>,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: Vec::new(),
            map: HashMap::default(),
            vars: vec![],
            var_node: vec![],
            support: HashMap::default(),
            tables: HashMap::default(),
            seen: vec![],
            stamp: 0,
            audit: None,
            audit_cap: 0,
            audit_missed: 0,
            audited: Default::default(),
            atoms: HashMap::default(),
            folds: HashMap::default(),
            cuts: HashMap::default(),
            canon: HashMap::default(),
        };
        // id 0 is reserved so that 0 can mean "concrete" in memory
        p.nodes.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: u128::MAX });
        p
    }
    #[inline]
    pub fn n(&self, e: E) -> &Node {
        &self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128) -> E {
        debug_assert!(w >= 1 && w <= 128, "width {}", w);
        let n = Node { op, w: w as u16, a, b, c, k };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as E;
        assert!(e < u32::MAX - 16);
        self.nodes.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn tt(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> E {
        self.c(0, 1)
    }
    pub fn var(&mut self, name: String, w: u32) -> E {
        let idx = self.vars.len();
        self.vars.push(name);
        let e = self.mk(Op::Var, w, 0, 0, 0, idx as u128);
        self.var_node.push(e);
        e
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    /// the upper part of a term, for debugging
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => return format!("{:#x}", n.k),
            Op::Var => return format!("v{}", n.k),
            _ => {}
        }
        if d == 0 {
            return "…".into();
        }
        let mut s = format!("({:?}", n.op);
        if n.op == Op::Extract {
            s += &format!("[{}+{}]", n.k, n.w);
        }
        for x in [n.a, n.b, n.c] {
            if x != 0 {
                s += " ";
                s += &self.show(x, d - 1);
            }
        }
        s + ")"
    }
    /// The sub-terms of at most eight bits together that `e` is a function of: slices of
    /// variables and of xor/mul/… terms, which are not looked into. None when there are more bits.
    fn atoms(&mut self, e: E) -> Option<std::rc::Rc<Vec<E>>> {
        if let Some(r) = self.atoms.get(&e) {
            return r.clone();
        }
        // children first, without recursion on the host stack
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.atoms.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let w = n.w as u32;
            let own = || if w <= 8 { Some(std::rc::Rc::new(vec![x])) } else { None };
            let closed = match n.op {
                Op::Const => Some(Some(std::rc::Rc::new(vec![]))),
                Op::Var | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem => Some(own()),
                Op::Xor if self.n(n.a).op != Op::Const && self.n(n.b).op != Op::Const => Some(own()),
                _ => None,
            };
            let r = match closed {
                Some(r) => r,
                None => {
                    let mut ready = true;
                    for ch in [n.a, n.b, n.c] {
                        if ch != 0 && !self.atoms.contains_key(&ch) {
                            st.push(ch);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                    let mut v: Vec<E> = vec![];
                    let mut ok = true;
                    for ch in [n.a, n.b, n.c] {
                        if ch != 0 {
                            match &self.atoms[&ch] {
                                Some(a) => v.extend(a.iter()),
                                None => ok = false,
                            }
                        }
                    }
                    v.sort();
                    v.dedup();
                    if ok && self.bits_of(&v).len() > 8 {
                        ok = false;
                    }
                    if ok && n.op == Op::Extract && v.len() == 1 && v[0] == n.a {
                        own()
                    } else if ok {
                        Some(std::rc::Rc::new(v))
                    } else {
                        own()
                    }
                }
            };
            self.atoms.insert(x, r);
            st.pop();
        }
        self.atoms[&e].clone()
    }
    /// the single bits the atoms consist of: (base term, bit number)
    fn bits_of(&self, at: &[E]) -> Vec<(E, u32)> {
        let mut v: Vec<(E, u32)> = vec![];
        for &a in at {
            let (base, lo, w) = self.slice_of(a);
            v.extend((lo..lo + w).map(|i| (base, i)));
        }
        v.sort();
        v.dedup();
        v
    }
    fn slice_of(&self, a: E) -> (E, u32, u32) {
        let n = self.n(a);
        if n.op == Op::Extract {
            (n.a, n.k as u32, n.w as u32)
        } else {
            (a, 0, n.w as u32)
        }
    }
    /// Replaces a term that depends on few bits by constants and copies of those bits where it
    /// consists of such, else by the first term seen that is the same function of the same bits.
    fn fold(&mut self, e: E) -> E {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const | Op::Var => return e,
            _ => {}
        }
        if let Some(&r) = self.folds.get(&e) {
            return r;
        }
        self.folds.insert(e, e);
        let r = self.fold0(e).unwrap_or(e);
        self.folds.insert(e, r);
        r
    }
    fn fold0(&mut self, e: E) -> Option<E> {
        let at = self.atoms(e)?;
        let en = *self.n(e);
        if at.len() == 1 && (at[0] == e || en.op == Op::Extract && en.a == at[0]) {
            return None;
        }
        if en.op == Op::Concat {
            let mut ps = vec![];
            self.pieces(e, &mut ps);
            if ps.iter().all(|p| self.n(p.0).op == Op::Const || at.contains(&p.0) || self.n(p.0).op == Op::Extract && at.contains(&self.n(p.0).a)) {
                return None;
            }
        }
        let mut order: Vec<E> = at.to_vec();
        let mut pos: HashMap<E, usize, BuildFx> = HashMap::default();
        for (i, &a) in at.iter().enumerate() {
            pos.insert(a, i);
        }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if pos.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let mut ready = true;
            for ch in [n.a, n.b, n.c] {
                if ch != 0 && !pos.contains_key(&ch) {
                    st.push(ch);
                    ready = false;
                }
            }
            if ready {
                pos.insert(x, order.len());
                order.push(x);
                st.pop();
                if order.len() > 200 {
                    return None;
                }
            }
        }
        struct St {
            n: Node,
            a: usize,
            b: usize,
            c: usize,
            wa: u32,
            wb: u32,
        }
        let steps: Vec<St> = order[at.len()..]
            .iter()
            .map(|&x| {
                let n = self.nodes[x as usize];
                let g = |y: E| if y == 0 { usize::MAX } else { pos[&y] };
                let wd = |y: E| if y == 0 { 0 } else { self.w(y) };
                St { n, a: g(n.a), b: g(n.b), c: g(n.c), wa: wd(n.a), wb: wd(n.b) }
            })
            .collect();
        let bits = self.bits_of(&at);
        let nb = bits.len();
        // where each atom's bits are among the input bits
        let src: Vec<Vec<u32>> = at
            .iter()
            .map(|&a| {
                let (base, lo, w) = self.slice_of(a);
                (lo..lo + w).map(|i| bits.iter().position(|b| *b == (base, i)).unwrap() as u32).collect()
            })
            .collect();
        let w = self.w(e);
        let mut val = vec![0u128; order.len()];
        // per output bit: still possible as constant 0/1, or as bit j of the input / its negation
        let (mut all1, mut all0) = (mask(w), mask(w));
        let mut same = vec![(mask(w), mask(w)); nb];
        let mut table: Vec<u128> = Vec::with_capacity(1 << nb);
        for x in 0..1u128 << nb {
            for (i, s) in src.iter().enumerate() {
                let mut v = 0;
                for (k, &b) in s.iter().enumerate() {
                    v |= ((x >> b) & 1) << k;
                }
                val[i] = v;
            }
            for (i, s) in steps.iter().enumerate() {
                let g = |y: usize| if y == usize::MAX { 0 } else { val[y] };
                val[at.len() + i] = match s.n.op {
                    Op::Const => s.n.k,
                    _ => Pool::eval_node(&s.n, g(s.a), g(s.b), g(s.c), s.wa, s.wb),
                };
            }
            let v = val[order.len() - 1];
            table.push(v);
            all1 &= v;
            all0 &= !v;
            for j in 0..nb {
                let m = if (x >> j) & 1 == 1 { v } else { !v };
                same[j].0 &= m;
                same[j].1 &= !m;
            }
        }
        let any = same.iter().fold(all1 | all0, |a, s| a | s.0 | s.1);
        if any & mask(w) != mask(w) {
            // drop bits without influence
            let mut keep: Vec<usize> = (0..nb).collect();
            let mut j = 0;
            while j < keep.len() {
                if (0..table.len()).all(|x| table[x] == table[x ^ (1 << j)]) {
                    table = (0..table.len()).filter(|x| x >> j & 1 == 0).map(|x| table[x]).collect();
                    keep.remove(j);
                } else {
                    j += 1;
                }
            }
            let key = (w, keep.iter().map(|&i| bits[i]).collect::<Vec<_>>(), table);
            return match self.canon.get(&key) {
                Some(&r) => Some(r),
                None => {
                    self.canon.insert(key, e);
                    None
                }
            };
        }
        // each output bit: a constant, or input bit and sign; runs are taken together
        #[derive(PartialEq, Clone, Copy)]
        enum B {
            K(bool),
            In(E, u32, bool),
        }
        let out: Vec<B> = (0..w)
            .map(|i| {
                if (all1 >> i) & 1 == 1 {
                    B::K(true)
                } else if (all0 >> i) & 1 == 1 {
                    B::K(false)
                } else {
                    let j = (0..nb).find(|&j| ((same[j].0 | same[j].1) >> i) & 1 == 1).unwrap();
                    B::In(bits[j].0, bits[j].1, (same[j].0 >> i) & 1 == 1)
                }
            })
            .collect();
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < w {
            let mut j = i + 1;
            let r = match out[i as usize] {
                B::K(k) => self.c(k as u128, 1),
                B::In(base, lo, pos) => {
                    while j < w && out[j as usize] == B::In(base, lo + (j - i), pos) {
                        j += 1
                    }
                    let x = self.extract(base, lo, j - i);
                    if pos {
                        x
                    } else {
                        self.not(x)
                    }
                }
            };
            acc = Some(match acc {
                None => r,
                Some(l) => self.concat(r, l),
            });
            i = j;
        }
        acc
    }
    pub fn fold_load(&mut self, e: E) -> E {
        let r = self.fold(e);
        if r != e && self.audit.is_some() && self.audited.insert(e) {
            if self.audit.as_ref().unwrap().len() < self.audit_cap {
                self.audit.as_mut().unwrap().push((e, r));
            } else {
                self.audit_missed += 1;
            }
        }
        r
    }
    /// Both terms with every sub-term more than `depth` levels below them replaced by a fresh variable.
    pub fn cut(&mut self, r: (E, E), depth: u32) -> (E, E) {
        let mut lvl: HashMap<E, u32, BuildFx> = HashMap::default();
        let mut order = vec![r.0, r.1];
        lvl.insert(r.0, 0);
        lvl.insert(r.1, 0);
        let mut i = 0;
        while i < order.len() {
            let x = order[i];
            i += 1;
            let l = lvl[&x];
            let n = self.nodes[x as usize];
            if l >= depth || n.op == Op::Var || n.op == Op::Const {
                continue;
            }
            for ch in [n.a, n.b, n.c] {
                if ch != 0 && !lvl.contains_key(&ch) {
                    lvl.insert(ch, l + 1);
                    order.push(ch);
                }
            }
        }
        let mut new: HashMap<E, E, BuildFx> = HashMap::default();
        // a term is only ever one level further than the nearest of its parents: children first
        let mut st = vec![r.0, r.1];
        while let Some(&x) = st.last() {
            if new.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            if n.op == Op::Const || n.op == Op::Var {
                new.insert(x, x);
                st.pop();
                continue;
            }
            if lvl[&x] >= depth {
                let v = match self.cuts.get(&x) {
                    Some(&v) => v,
                    None => {
                        let v = self.var(String::new(), n.w as u32);
                        self.cuts.insert(x, v);
                        v
                    }
                };
                new.insert(x, v);
                st.pop();
                continue;
            }
            let mut ready = true;
            for ch in [n.a, n.b, n.c] {
                if ch != 0 && !new.contains_key(&ch) {
                    st.push(ch);
                    ready = false;
                }
            }
            if ready {
                let g = |y: E| if y == 0 { 0 } else { new[&y] };
                let (a, b, c) = (g(n.a), g(n.b), g(n.c));
                let e = self.mk(n.op, n.w as u32, a, b, c, n.k);
                new.insert(x, e);
                st.pop();
            }
        }
        (new[&r.0], new[&r.1])
    }
    /// The terms up to renaming of variables, when they have at most `limit` nodes.
    pub fn shape(&self, roots: &[E], limit: usize) -> Option<Vec<u64>> {
        let mut pos: HashMap<E, u64, BuildFx> = HashMap::default();
        let mut nvar = 0;
        let mut out = vec![];
        let mut st: Vec<E> = vec![];
        for &r in roots {
            st.push(r);
            while let Some(&x) = st.last() {
                if pos.contains_key(&x) {
                    st.pop();
                    continue;
                }
                let n = self.nodes[x as usize];
                if n.op != Op::Const && n.op != Op::Var {
                    let mut ready = true;
                    for ch in [n.c, n.b, n.a] {
                        if ch != 0 && !pos.contains_key(&ch) {
                            st.push(ch);
                            ready = false;
                        }
                    }
                    if !ready {
                        continue;
                    }
                }
                let id = pos.len() as u64 + 1;
                if pos.len() >= limit {
                    return None;
                }
                out.push((n.op as u64) << 32 | n.w as u64);
                match n.op {
                    Op::Var => {
                        out.push(nvar);
                        nvar += 1;
                    }
                    Op::Const => {
                        out.push(n.k as u64);
                        out.push((n.k >> 64) as u64);
                    }
                    _ => {
                        let g = |y: E| if y == 0 { 0 } else { pos[&y] };
                        out.push(g(n.a) << 40 | g(n.b) << 20 | g(n.c));
                        out.push(n.k as u64);
                    }
                }
                pos.insert(x, id);
                st.pop();
            }
            out.push(pos[&r]);
        }
        Some(out)
    }
    /// Truth table of a condition that depends on one byte variable only.
    pub fn byte_table(&mut self, c: E) -> Option<(u32, [u64; 4])> {
        if let Some(t) = self.tables.get(&c) {
            return *t;
        }
        let r = self.byte_table0(c);
        self.tables.insert(c, r);
        r
    }
    fn byte_table0(&mut self, c: E) -> Option<(u32, [u64; 4])> {
        let s = self.support(c);
        if s.len() != 1 || self.w(c) != 1 {
            return None;
        }
        let v = s[0];
        if self.w(self.var_node[v as usize]) != 8 {
            return None;
        }
        // nodes in dependency order
        let mut order: Vec<E> = vec![];
        let mut pos: HashMap<E, usize, BuildFx> = HashMap::default();
        let mut st = vec![c];
        while let Some(&e) = st.last() {
            if pos.contains_key(&e) {
                st.pop();
                continue;
            }
            let n = self.nodes[e as usize];
            let mut ready = true;
            for ch in [n.a, n.b, n.c] {
                if ch != 0 && !pos.contains_key(&ch) {
                    st.push(ch);
                    ready = false;
                }
            }
            if ready {
                pos.insert(e, order.len());
                order.push(e);
                st.pop();
                if order.len() > 300 {
                    return None;
                }
            }
        }
        let mut t = [0u64; 4];
        let mut val = vec![0u128; order.len()];
        for x in 0..256usize {
            for (i, &e) in order.iter().enumerate() {
                let n = &self.nodes[e as usize];
                val[i] = match n.op {
                    Op::Var => x as u128,
                    Op::Const => n.k,
                    _ => {
                        let g = |y: E| if y == 0 { 0 } else { val[pos[&y]] };
                        let wa = if n.a != 0 { self.w(n.a) } else { 0 };
                        let wb = if n.b != 0 { self.w(n.b) } else { 0 };
                        Pool::eval_node(n, g(n.a), g(n.b), g(n.c), wa, wb)
                    }
                };
            }
            if val[order.len() - 1] == 1 {
                t[x / 64] |= 1 << (x % 64);
            }
        }
        Some((v, t))
    }
    pub fn support(&mut self, root: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = self.support.get(&root) {
            return s.clone();
        }
        self.stamp += 1;
        self.seen.resize(self.nodes.len(), 0);
        let mut st = vec![root];
        let mut out = vec![];
        while let Some(e) = st.pop() {
            if self.seen[e as usize] == self.stamp {
                continue;
            }
            self.seen[e as usize] = self.stamp;
            let n = self.nodes[e as usize];
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.k as u32),
                _ => {
                    if n.a != 0 {
                        st.push(n.a)
                    }
                    if n.b != 0 {
                        st.push(n.b)
                    }
                    if n.c != 0 {
                        st.push(n.c)
                    }
                }
            }
        }
        out.sort();
        let r = std::rc::Rc::new(out);
        self.support.insert(root, r.clone());
        r
    }

    // ---- bit structure helpers -------------------------------------------------
    /// pieces from most significant to least significant
    fn pieces(&self, e: E, out: &mut Vec<(E, u32)>) {
        let mut cur = e;
        loop {
            let n = self.n(cur);
            if n.op == Op::Concat {
                let (a, b) = (n.a, n.b);
                if self.n(a).op == Op::Concat {
                    self.pieces(a, out);
                } else {
                    out.push((a, self.w(a)));
                }
                cur = b;
            } else {
                out.push((cur, n.w as u32));
                return;
            }
        }
    }
    fn has_struct(&self, e: E) -> bool {
        matches!(self.n(e).op, Op::Const | Op::Concat)
    }

    fn concat0(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        debug_assert!(wh + wl <= 128);
        // right-assoc
        if self.n(hi).op == Op::Concat {
            let (a, b) = (self.n(hi).a, self.n(hi).b);
            let r = self.concat(b, lo);
            return self.concat(a, r);
        }
        // try to merge hi with the head of lo
        let (head, rest) = if self.n(lo).op == Op::Concat {
            (self.n(lo).a, Some(self.n(lo).b))
        } else {
            (lo, None)
        };
        if let Some(m) = self.merge(hi, head) {
            return match rest {
                Some(r) => self.concat(m, r),
                None => m,
            };
        }
        self.mk(Op::Concat, wh + wl, hi, lo, 0, 0)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let r = self.and0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::And, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let r = self.or0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::Or, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let r = self.xor0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::Xor, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let r = self.add0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::Add, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let r = self.sub0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::Sub, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let r = self.mul0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::Mul, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let r = self.udiv0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::UDiv, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let r = self.urem0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::URem, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let r = self.sdiv0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::SDiv, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let r = self.srem0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::SRem, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let r = self.shl0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::Shl, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let r = self.lshr0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::LShr, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let r = self.ashr0(a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::AShr, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let r = self.eq0(a, b);
        let r = self.fold(r);
        if self.audit.is_some() {
            let w = 1;
            self.log(Op::Eq, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let r = self.ult0(a, b);
        let r = self.fold(r);
        if self.audit.is_some() {
            let w = 1;
            self.log(Op::Ult, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let r = self.slt0(a, b);
        if self.audit.is_some() {
            let w = 1;
            self.log(Op::Slt, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn concat(&mut self, a: E, b: E) -> E {
        let mut r = self.concat0(a, b);
        if self.w(r) <= 8 {
            r = self.fold(r);
        }
        if self.audit.is_some() {
            let w = self.w(a) + self.w(b);
            self.log(Op::Concat, w, a, b, 0, 0, r);
        }
        r
    }
    pub fn not(&mut self, x: E) -> E {
        let r = self.not0(x);
        if self.audit.is_some() {
            let w = self.w(x);
            self.log(Op::Not, w, x, 0, 0, 0, r);
        }
        r
    }
    pub fn sext(&mut self, x: E, w: u32) -> E {
        let r = self.sext0(x, w);
        if self.audit.is_some() && w > self.w(x) {
            self.log(Op::SExt, w, x, 0, 0, 0, r);
        }
        r
    }
    pub fn extract(&mut self, x: E, lo: u32, w: u32) -> E {
        let mut r = self.extract0(x, lo, w);
        if w <= 8 && self.n(r).op == Op::Extract {
            r = self.fold(r);
        }
        if self.audit.is_some() && w < self.w(x) {
            self.log(Op::Extract, w, x, 0, 0, lo as u128, r);
        }
        r
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        let r = self.ite0(c, a, b);
        if self.audit.is_some() {
            let w = self.w(a);
            self.log(Op::Ite, w, c, a, b, 0, r);
        }
        r
    }
    fn log(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u128, r: E) {
        let cst = |p: &Pool, e: E| e == 0 || p.n(e).op == Op::Const;
        if cst(self, a) && cst(self, b) && cst(self, c) {
            return;
        }
        let n = Node { op, w: w as u16, a, b, c, k };
        if self.map.get(&n) == Some(&r) {
            return;
        }
        if self.audit.as_ref().unwrap().len() >= self.audit_cap {
            self.audit_missed += 1;
            return;
        }
        let e = self.mk(op, w, a, b, c, k);
        if e != r && self.audited.insert(e) {
            self.audit.as_mut().unwrap().push((e, r));
        }
    }
    fn merge(&mut self, hi: E, lo: E) -> Option<E> {
        let (nh, nl) = (*self.n(hi), *self.n(lo));
        if nh.op == Op::Const && nl.op == Op::Const {
            let w = nh.w as u32 + nl.w as u32;
            return Some(self.c((nh.k << nl.w) | nl.k, w));
        }
        // extract/extract adjacency
        let (xh, lh) = if nh.op == Op::Extract { (nh.a, nh.k as u32) } else { (hi, 0) };
        let (xl, ll) = if nl.op == Op::Extract { (nl.a, nl.k as u32) } else { (lo, 0) };
        if xh == xl && nh.op == Op::Extract && (nl.op == Op::Extract) && lh == ll + nl.w as u32 {
            return Some(self.extract(xh, ll, nh.w as u32 + nl.w as u32));
        }
        None
    }
    pub fn zext(&mut self, x: E, w: u32) -> E {
        let wx = self.w(x);
        if wx == w {
            return x;
        }
        let z = self.c(0, w - wx);
        self.concat(z, x)
    }
    fn sext0(&mut self, x: E, w: u32) -> E {
        let wx = self.w(x);
        if wx == w {
            return x;
        }
        if let Some(v) = self.cv(x) {
            return self.c(sext128(v, wx) as u128, w);
        }
        let n = *self.n(x);
        if n.op == Op::Concat {
            if let Some(_) = self.cv(n.a) {
                let wa = self.w(n.a);
                let a2 = self.sext(n.a, wa + w - wx);
                return self.concat(a2, n.b);
            }
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, x, 0, 0, 0)
    }
    /// extract `w` bits starting at bit `lo`
    fn extract0(&mut self, x: E, lo: u32, w: u32) -> E {
        let n = *self.n(x);
        let wx = n.w as u32;
        debug_assert!(lo + w <= wx, "extract {}+{} of {}", lo, w, wx);
        if lo == 0 && w == wx {
            return x;
        }
        match n.op {
            Op::Const => self.c(n.k >> lo, w),
            Op::Extract => self.extract(n.a, n.k as u32 + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    self.extract(n.a, lo - wl, w)
                } else if lo + w <= wl {
                    self.extract(n.b, lo, w)
                } else {
                    let h = self.extract(n.a, 0, lo + w - wl);
                    let l = self.extract(n.b, lo, wl - lo);
                    self.concat(h, l)
                }
            }
            Op::And | Op::Or | Op::Xor if self.has_struct(n.a) || self.has_struct(n.b) => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                match n.op {
                    Op::And => self.and(a, b),
                    Op::Or => self.or(a, b),
                    _ => self.xor(a, b),
                }
            }
            Op::Ite if self.has_struct(n.b) && self.has_struct(n.c) => {
                let a = self.extract(n.b, lo, w);
                let b = self.extract(n.c, lo, w);
                self.ite(n.a, a, b)
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo >= wa - 1 {
                    let s = self.extract(n.a, wa - 1, 1);
                    return self.sext(s, w);
                }
                let low = self.extract(n.a, lo, wa - lo);
                return self.sext(low, w);
            }
            Op::Add | Op::Sub if lo == 0 && self.n(n.b).op == Op::Const => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                if n.op == Op::Add {
                    self.add(a, b)
                } else {
                    self.sub(a, b)
                }
            }
            _ => self.mk(Op::Extract, w, x, 0, 0, lo as u128),
        }
    }
    fn not0(&mut self, x: E) -> E {
        let n = *self.n(x);
        match n.op {
            Op::Const => self.c(!n.k, n.w as u32),
            Op::Not => n.a,
            _ => self.mk(Op::Not, n.w as u32, x, 0, 0, 0),
        }
    }
    fn ord(&self, a: E, b: E) -> (E, E) {
        // constants to the right
        if self.n(a).op == Op::Const {
            (b, a)
        } else if self.n(b).op == Op::Const || a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    fn runs(k: u128, w: u32) -> Vec<(bool, u32)> {
        // from lsb
        let mut v = vec![];
        let mut i = 0;
        while i < w {
            let bit = (k >> i) & 1 == 1;
            let mut j = i;
            while j < w && ((k >> j) & 1 == 1) == bit {
                j += 1;
            }
            v.push((bit, j - i));
            i = j;
        }
        v
    }
    /// split both operands at common piece boundaries, when every segment simplifies
    fn bit_split(&mut self, op: Op, a: E, b: E) -> Option<E> {
        if self.n(a).op != Op::Concat && self.n(b).op != Op::Concat {
            return None;
        }
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        // segments from msb; check
        let mut segs: Vec<(E, u32, E, u32, u32)> = vec![]; // (ea, lo_a, eb, lo_b, w)
        let (mut i, mut j) = (0, 0);
        let (mut ra, mut rb) = (pa[0].1, pb[0].1); // remaining bits in piece
        loop {
            let w = ra.min(rb);
            segs.push((pa[i].0, ra - w, pb[j].0, rb - w, w));
            ra -= w;
            rb -= w;
            if ra == 0 {
                i += 1;
                if i < pa.len() {
                    ra = pa[i].1
                }
            }
            if rb == 0 {
                j += 1;
                if j < pb.len() {
                    rb = pb[j].1
                }
            }
            if i >= pa.len() {
                break;
            }
        }
        for s in &segs {
            let ca = self.n(s.0).op == Op::Const;
            let cb = self.n(s.2).op == Op::Const;
            if !ca && !cb {
                return None;
            }
            if op == Op::Xor {
                // want the const side to be all 0 or all 1
                let k = if ca { (self.n(s.0).k >> s.1) & mask(s.4) } else { (self.n(s.2).k >> s.3) & mask(s.4) };
                if k != 0 && !(ca && cb) {
                    return None;
                }
            }
        }
        let mut acc: Option<E> = None;
        for s in segs.iter().rev() {
            let x = self.extract(s.0, s.1, s.4);
            let y = self.extract(s.2, s.3, s.4);
            let r = match op {
                Op::And => self.and(x, y),
                Op::Or => self.or(x, y),
                _ => self.xor(x, y),
            };
            acc = Some(match acc {
                None => r,
                Some(l) => self.concat(r, l),
            });
        }
        acc
    }
    fn and0(&mut self, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let (a, b) = self.ord(a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(kb) = self.cv(b) {
            if let Some(ka) = self.cv(a) {
                return self.c(ka & kb, w);
            }
            if kb == 0 {
                return b;
            }
            if kb == mask(w) {
                return a;
            }
            let r = Self::runs(kb, w);
            if r.len() <= 6 {
                let mut acc: Option<E> = None;
                let mut lo = 0;
                for (bit, len) in r {
                    let p = if bit { self.extract(a, lo, len) } else { self.c(0, len) };
                    acc = Some(match acc {
                        None => p,
                        Some(l) => self.concat(p, l),
                    });
                    lo += len;
                }
                return acc.unwrap();
            }
        }
        if w == 1 {
            let (na, nb) = (*self.n(a), *self.n(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.ff();
            }
        }
        if let Some(r) = self.bit_split(Op::And, a, b) {
            return r;
        }
        self.mk(Op::And, w, a, b, 0, 0)
    }
    fn or0(&mut self, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let (a, b) = self.ord(a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(kb) = self.cv(b) {
            if let Some(ka) = self.cv(a) {
                return self.c(ka | kb, w);
            }
            if kb == 0 {
                return a;
            }
            if kb == mask(w) {
                return b;
            }
            let r = Self::runs(kb, w);
            if r.len() <= 6 {
                let mut acc: Option<E> = None;
                let mut lo = 0;
                for (bit, len) in r {
                    let p = if bit { self.c(mask(len), len) } else { self.extract(a, lo, len) };
                    acc = Some(match acc {
                        None => p,
                        Some(l) => self.concat(p, l),
                    });
                    lo += len;
                }
                return acc.unwrap();
            }
        }
        if w == 1 {
            let (na, nb) = (*self.n(a), *self.n(b));
            if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                return self.tt();
            }
        }
        if let Some(r) = self.bit_split(Op::Or, a, b) {
            return r;
        }
        self.mk(Op::Or, w, a, b, 0, 0)
    }
    fn xor0(&mut self, a: E, b: E) -> E {
        let (a, b) = self.ord(a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(0, w);
        }
        for (x, y) in [(a, b), (b, a)] {
            let n = *self.n(x);
            if n.op == Op::Xor {
                if n.a == y {
                    return n.b;
                }
                if n.b == y {
                    return n.a;
                }
            }
        }
        if let Some(kb) = self.cv(b) {
            if let Some(ka) = self.cv(a) {
                return self.c(ka ^ kb, w);
            }
            if kb == 0 {
                return a;
            }
            if kb == mask(w) {
                return self.not(a);
            }
            let na = *self.n(a);
            if na.op == Op::Xor {
                if let Some(k2) = self.cv(na.b) {
                    let k = self.c(kb ^ k2, w);
                    return self.xor(na.a, k);
                }
            }
        }
        if let Some(r) = self.bit_split(Op::Xor, a, b) {
            return r;
        }
        self.mk(Op::Xor, w, a, b, 0, 0)
    }
    fn add0(&mut self, a: E, b: E) -> E {
        let (a, b) = self.ord(a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(kb) = self.cv(b) {
            if let Some(ka) = self.cv(a) {
                return self.c(ka.wrapping_add(kb), w);
            }
            if kb == 0 {
                return a;
            }
            let na = *self.n(a);
            if na.op == Op::Add {
                if let Some(k2) = self.cv(na.b) {
                    let k = self.c(kb.wrapping_add(k2), w);
                    return self.add(na.a, k);
                }
            }
            if na.op == Op::Sub {
                if let Some(k2) = self.cv(na.a) {
                    let k = self.c(kb.wrapping_add(k2), w);
                    return self.sub(k, na.b);
                }
            }
            // add into disjoint zero bits: Concat(..., const) with no carry
            if na.op == Op::Concat && w <= 128 {
                let mut p = vec![];
                self.pieces(a, &mut p);
                // all set bits of kb must fall into constant-zero pieces
                let mut lo = 0;
                let mut ok = true;
                for &(e, pw) in p.iter().rev() {
                    let seg = (kb >> lo) & mask(pw);
                    if seg != 0 && self.cv(e) != Some(0) {
                        ok = false;
                        break;
                    }
                    lo += pw;
                }
                if ok {
                    return self.or(a, b);
                }
            }
        } else {
            let (na, nb) = (*self.n(a), *self.n(b));
            // hoist constants: (x+k)+y -> (x+y)+k
            if na.op == Op::Add {
                if self.cv(na.b).is_some() {
                    let s = self.add(na.a, b);
                    return self.add(s, na.b);
                }
            }
            if nb.op == Op::Add {
                if self.cv(nb.b).is_some() {
                    let s = self.add(a, nb.a);
                    return self.add(s, nb.b);
                }
            }
            if na.op == Op::Sub && na.b == b {
                return na.a;
            }
            if nb.op == Op::Sub && nb.b == a {
                return nb.a;
            }
        }
        self.mk(Op::Add, w, a, b, 0, 0)
    }
    fn sub0(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.c(0, w);
        }
        if let Some(kb) = self.cv(b) {
            let k = self.c(kb.wrapping_neg(), w);
            return self.add(a, k);
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        // (x+y)-x
        if na.op == Op::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        // (x + k) - (y + k2)
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let s = self.sub(a, nb.a);
            let k = self.cv(nb.b).unwrap().wrapping_neg();
            let k = self.c(k, w);
            return self.add(s, k);
        }
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.sub(na.a, b);
            return self.add(s, na.b);
        }
        self.mk(Op::Sub, w, a, b, 0, 0)
    }
    fn mul0(&mut self, a: E, b: E) -> E {
        let (a, b) = self.ord(a, b);
        let w = self.w(a);
        if let Some(kb) = self.cv(b) {
            if let Some(ka) = self.cv(a) {
                return self.c(ka.wrapping_mul(kb), w);
            }
            if kb == 0 {
                return b;
            }
            if kb == 1 {
                return a;
            }
            if kb.is_power_of_two() {
                let s = self.c(kb.trailing_zeros() as u128, w);
                return self.shl(a, s);
            }
        }
        self.mk(Op::Mul, w, a, b, 0, 0)
    }
    fn udiv0(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(kb) = self.cv(b) {
            if kb != 0 {
                if let Some(ka) = self.cv(a) {
                    return self.c(ka / kb, w);
                }
                if kb.is_power_of_two() {
                    let s = self.c(kb.trailing_zeros() as u128, w);
                    return self.lshr(a, s);
                }
            }
        }
        let z = self.zero_prefix(a).min(self.zero_prefix(b)).min(w - 1);
        if z > 0 {
            let x = self.extract(a, 0, w - z);
            let y = self.extract(b, 0, w - z);
            let r = self.udiv(x, y);
            return self.zext(r, w);
        }
        self.mk(Op::UDiv, w, a, b, 0, 0)
    }
    fn urem0(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(kb) = self.cv(b) {
            if kb != 0 {
                if let Some(ka) = self.cv(a) {
                    return self.c(ka % kb, w);
                }
                if kb.is_power_of_two() {
                    let m = self.c(kb - 1, w);
                    return self.and(a, m);
                }
            }
        }
        let z = self.zero_prefix(a).min(self.zero_prefix(b)).min(w - 1);
        if z > 0 {
            let x = self.extract(a, 0, w - z);
            let y = self.extract(b, 0, w - z);
            let r = self.urem(x, y);
            return self.zext(r, w);
        }
        self.mk(Op::URem, w, a, b, 0, 0)
    }
    fn sdiv0(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sext128(x, w), sext128(y, w));
            if y != 0 {
                return self.c(x.wrapping_div(y) as u128, w);
            }
        }
        self.mk(Op::SDiv, w, a, b, 0, 0)
    }
    fn srem0(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sext128(x, w), sext128(y, w));
            if y != 0 {
                return self.c(x.wrapping_rem(y) as u128, w);
            }
        }
        self.mk(Op::SRem, w, a, b, 0, 0)
    }
    fn shl0(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let h = self.extract(a, 0, w - k);
            let z = self.c(0, k);
            return self.concat(h, z);
        }
        self.mk(Op::Shl, w, a, b, 0, 0)
    }
    fn lshr0(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let h = self.extract(a, k, w - k);
            return self.zext(h, w);
        }
        self.mk(Op::LShr, w, a, b, 0, 0)
    }
    fn ashr0(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 {
                return a;
            }
            let h = self.extract(a, k, w - k);
            return self.sext(h, w);
        }
        self.mk(Op::AShr, w, a, b, 0, 0)
    }
    fn eq0(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.tt();
        }
        let (a, b) = self.ord(a, b);
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(kb) = self.cv(b) {
            if let Some(ka) = self.cv(a) {
                return self.c((ka == kb) as u128, 1);
            }
            if w == 1 {
                return if kb == 1 { a } else { self.not(a) };
            }
            let na = *self.n(a);
            match na.op {
                Op::Ite => {
                    let (x, y) = (self.cv(na.b), self.cv(na.c));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b);
                        let q = self.eq(na.c, b);
                        if self.cv(p).is_some() || self.cv(q).is_some() {
                            return self.ite(na.a, p, q);
                        }
                    }
                }
                Op::Add => {
                    if let Some(k2) = self.cv(na.b) {
                        let k = self.c(kb.wrapping_sub(k2), w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Sub => {
                    if kb == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(k2) = self.cv(na.a) {
                        let k = self.c(k2.wrapping_sub(kb), w);
                        return self.eq(na.b, k);
                    }
                }
                Op::Xor => {
                    if kb == 0 {
                        return self.eq(na.a, na.b);
                    }
                    if let Some(k2) = self.cv(na.b) {
                        let k = self.c(kb ^ k2, w);
                        return self.eq(na.a, k);
                    }
                }
                Op::Not => {
                    let k = self.c(!kb, w);
                    return self.eq(na.a, k);
                }
                Op::SExt => {
                    let wa = self.w(na.a);
                    let low = kb & mask(wa);
                    if (sext128(low, wa) as u128) & mask(w) != kb {
                        return self.ff();
                    }
                    let k = self.c(low, wa);
                    return self.eq(na.a, k);
                }
                _ => {}
            }
        }
        if w > 1 && (self.n(a).op == Op::Concat || self.n(b).op == Op::Concat) {
            // split piecewise
            let (mut pa, mut pb) = (vec![], vec![]);
            self.pieces(a, &mut pa);
            self.pieces(b, &mut pb);
            let worth = (pa.len() > 1 && pb.len() > 1) || self.n(b).op == Op::Const;
            if worth {
                let mut acc = self.tt();
                let (mut i, mut j) = (0, 0);
                let (mut ra, mut rb) = (pa[0].1, pb[0].1);
                let mut segs = vec![];
                loop {
                    let s = ra.min(rb);
                    segs.push((pa[i].0, ra - s, pb[j].0, rb - s, s));
                    ra -= s;
                    rb -= s;
                    if ra == 0 {
                        i += 1;
                        if i < pa.len() {
                            ra = pa[i].1
                        }
                    }
                    if rb == 0 {
                        j += 1;
                        if j < pb.len() {
                            rb = pb[j].1
                        }
                    }
                    if i >= pa.len() {
                        break;
                    }
                }
                for (x, lx, y, ly, s) in segs {
                    let p = self.extract(x, lx, s);
                    let q = self.extract(y, ly, s);
                    let r = self.eq(p, q);
                    acc = self.and(acc, r);
                    if self.cv(acc) == Some(0) {
                        return acc;
                    }
                }
                return acc;
            }
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        self.mk(Op::Eq, 1, a, b, 0, 0)
    }
    /// an upper bound from leading constant zero pieces
    pub fn umax_bound(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => n.k,
            Op::Concat => {
                let wl = self.w(n.b);
                let h = self.umax_bound(n.a);
                let l = self.umax_bound(n.b);
                (h << wl) | l
            }
            Op::Ite => self.umax_bound(n.b).max(self.umax_bound(n.c)),
            _ => mask(n.w as u32),
        }
    }
    fn ult0(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff();
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.c((x < y) as u128, 1),
            (_, Some(0)) => return self.ff(),
            (_, Some(1)) => {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            (Some(x), None) => {
                if x == mask(w) {
                    return self.ff();
                }
                if x == 0 {
                    let e = self.eq(b, a);
                    return self.not(e);
                }
                if self.n(b).op == Op::Concat && self.umax_bound(b) <= x {
                    return self.ff();
                }
            }
            (None, Some(y)) => {
                if self.n(a).op == Op::Concat && self.umax_bound(a) < y {
                    return self.tt();
                }
            }
            _ => {}
        }
        // strip a common zero prefix
        let za = self.zero_prefix(a);
        let zb = self.zero_prefix(b);
        let z = za.min(zb).min(w - 1);
        if z > 0 {
            let x = self.extract(a, 0, w - z);
            let y = self.extract(b, 0, w - z);
            return self.ult(x, y);
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        // ite with constant arms
        let na = *self.n(a);
        if na.op == Op::Ite && self.cv(b).is_some() && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
            let p = self.ult(na.b, b);
            let q = self.ult(na.c, b);
            return self.ite(na.a, p, q);
        }
        self.mk(Op::Ult, 1, a, b, 0, 0)
    }
    fn zero_prefix(&self, e: E) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => (n.k.leading_zeros()).saturating_sub(128 - n.w as u32),
            Op::Concat => {
                let wa = self.w(n.a);
                let z = self.zero_prefix(n.a);
                if z == wa {
                    z + self.zero_prefix(n.b)
                } else {
                    z
                }
            }
            _ => 0,
        }
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let r = self.ult(b, a);
        self.not(r)
    }
    fn slt0(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.ff();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((sext128(x, w) < sext128(y, w)) as u128, 1);
        }
        if self.zero_prefix(a) > 0 && self.zero_prefix(b) > 0 {
            return self.ult(a, b);
        }
        if self.zero_prefix(a) > 0 {
            if let Some(k) = self.cv(b) {
                if sext128(k, w) < 0 {
                    return self.ff();
                }
            }
        }
        if self.zero_prefix(b) > 0 {
            if let Some(k) = self.cv(a) {
                if sext128(k, w) < 0 {
                    return self.tt();
                }
            }
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        let na = *self.n(a);
        if na.op == Op::Ite && self.cv(b).is_some() && (self.cv(na.b).is_some() || self.cv(na.c).is_some()) {
            let p = self.slt(na.b, b);
            let q = self.slt(na.c, b);
            return self.ite(na.a, p, q);
        }
        self.mk(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let r = self.slt(b, a);
        self.not(r)
    }
    fn ite0(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.cv(c) {
            return if k == 1 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.n(c).op == Op::Not {
            let c2 = self.n(c).a;
            return self.ite(c2, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        // nested same condition
        let na = *self.n(a);
        let nb = *self.n(b);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn and_all(&mut self, v: &[E]) -> E {
        let mut acc = self.tt();
        for &x in v {
            acc = self.and(acc, x);
        }
        acc
    }

    pub fn eval_node(n: &Node, a: u128, b: u128, c: u128, wa: u32, wb: u32) -> u128 {
        let w = n.w as u32;
        let m = mask(w);
        match n.op {
            Op::Const => n.k,
            Op::Var => unreachable!(),
            Op::Not => !a & m,
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128 & m
                }
            }
            Op::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    x.wrapping_rem(y) as u128 & m
                }
            }
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = (b.min(w as u128 - 1)) as u32;
                (sext128(a, w) >> s) as u128 & m
            }
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Slt => (sext128(a, wa) < sext128(b, wa)) as u128,
            Op::Ite => {
                if a == 1 {
                    b
                } else {
                    c
                }
            }
            Op::Concat => (a << wb) | b,
            Op::Extract => (a >> n.k) & m,
            Op::SExt => sext128(a, wa) as u128 & m,
        }
    }
}

/// A (total) assignment to variables, unassigned variables read as 0.
pub struct Model {
    pub vals: HashMap<u32, u128, BuildFx>,
    cache: std::cell::RefCell<HashMap<E, u128, BuildFx>>,
}
impl Model {
    pub fn new(vals: HashMap<u32, u128, BuildFx>) -> Self {
        Model { vals, cache: Default::default() }
    }
    pub fn get(&self, v: u32) -> u128 {
        self.vals.get(&v).copied().unwrap_or(0)
    }
    pub fn eval(&self, p: &Pool, root: E) -> u128 {
        let n = p.n(root);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.get(n.k as u32),
            _ => {}
        }
        let mut cache = self.cache.borrow_mut();
        if let Some(&v) = cache.get(&root) {
            return v;
        }
        let mut st = vec![root];
        while let Some(&e) = st.last() {
            if cache.contains_key(&e) {
                st.pop();
                continue;
            }
            let n = p.n(e);
            match n.op {
                Op::Const => {
                    cache.insert(e, n.k);
                    st.pop();
                    continue;
                }
                Op::Var => {
                    cache.insert(e, self.get(n.k as u32));
                    st.pop();
                    continue;
                }
                _ => {}
            }
            let mut ready = true;
            for ch in [n.a, n.b, n.c] {
                if ch != 0 && !cache.contains_key(&ch) {
                    st.push(ch);
                    ready = false;
                }
            }
            if ready {
                let g = |x: E| if x == 0 { 0 } else { cache[&x] };
                let (a, b, c) = (g(n.a), g(n.b), g(n.c));
                let wa = if n.a != 0 { p.w(n.a) } else { 0 };
                let wb = if n.b != 0 { p.w(n.b) } else { 0 };
                let v = Pool::eval_node(n, a, b, c, wa, wb);
                cache.insert(e, v);
                st.pop();
            }
        }
        cache[&root]
    }
}
