//! Textual LLVM IR: module index, lazy function/global parsing into a compact instruction form.
use crate::expr::mask;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(u32),
    Ptr,
    F32,
    F64,
    Void,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
    Func,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Void | Ty::Meta | Ty::Func => 0,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => {
                let bits = *n as u64 * t.bits();
                ((bits + 7) / 8).next_power_of_two()
            }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => t.size() * 8,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            t => t.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size(),
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_offset"),
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem"),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("width of {:?}", t),
        }
    }
    /// (lanes, element width): lanes == 0 for scalars
    pub fn lanes(&self) -> (u32, u32) {
        match self {
            Ty::Vec(n, t) => (*n, t.width()),
            t => (0, t.width()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(crate::expr::E),
    A(Rc<Vec<V>>),
    P,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    I(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    Zext,
    Sext,
    BitNop, // ptrtoint/inttoptr (handled as zext/trunc)
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(O),
    Asm,
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<O>,
    pub byval: Vec<(usize, u64)>,
    pub dst: u32,
    pub ret: Ty,
    pub inv: Option<(u32, u32)>,
    pub argw: Vec<u32>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, lanes: u32, w: u32, a: O, b: O, d: u32 },
    ICmp { p: Pred, lanes: u32, w: u32, a: O, b: O, d: u32 },
    Cast { op: CastOp, lanes: u32, fw: u32, tw: u32, a: O, d: u32 },
    Bitcast { from: Ty, to: Ty, a: O, d: u32 },
    Gep { base: O, off: i64, terms: Vec<(O, u32, i64)>, d: u32 },
    Load { ty: Ty, p: O, d: u32, align: u32 },
    Store { ty: Ty, v: O, p: O, align: u32, atomic: bool },
    Alloca { size: u64, align: u32, count: Option<O>, d: u32 },
    Br(u32),
    CBr(O, u32, u32),
    Switch { w: u32, v: O, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<O>),
    Unreachable,
    Resume(O),
    Call(Box<CallI>),
    Select { c: O, lanes: u32, ty: Ty, a: O, b: O, d: u32 },
    Extract { a: O, idx: Vec<u32>, d: u32 },
    Insert { a: O, aty: Ty, v: O, idx: Vec<u32>, d: u32 },
    ExtractEl { a: O, i: O, d: u32 },
    InsertEl { a: O, n: u32, v: O, i: O, d: u32 },
    Shuffle { a: O, b: O, n: u32, mask: Vec<i64>, d: u32 },
    LandingPad { d: u32, catch: bool, filter: bool },
    Rmw { op: String, p: O, v: O, w: u32, d: u32 },
    CmpXchg { p: O, cmp: O, new: O, w: u32, d: u32 },
    Copy { a: O, d: u32 },
    FCmp { p: String, w: u32, a: O, b: O, d: u32 },
    FBin { op: u8, w: u32, a: O, b: O, d: u32 },
    FNeg { w: u32, a: O, d: u32 },
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
    pub ins: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    /// of the models' bookkeeping
    pub own: bool,
    /// one-time initialisation
    pub once: bool,
}

pub struct FDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the define
    pub parsed: Option<Rc<Func>>,
}
pub struct GDecl {
    pub name: String,
    pub line: (usize, usize),
    pub external: bool,
    pub tls: bool,
    pub init: Option<Rc<(Vec<u8>, Vec<bool>)>>, // bytes, undef flags (empty when none)
    pub size: u64,
    pub constant: bool,
    pub align: u64,
    pub parsed: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub funcs: Vec<FDecl>,
    pub globals: Vec<GDecl>,
    pub sym: HashMap<String, Sym>,
    /// undefined weak symbols: their address is null
    pub weak: std::collections::HashSet<String>,
}
#[derive(Clone, Copy, Debug)]
pub enum Sym {
    F(u32),
    G(u32),
}

/// object ids: 0 = null, 1..=nf functions, then globals, then dynamic objects
pub const OBJ_SHIFT: u32 = 32;
impl Module {
    pub fn faddr(&self, f: u32) -> u64 {
        (f as u64 + 1) << OBJ_SHIFT
    }
    pub fn gaddr(&self, g: u32) -> u64 {
        (self.funcs.len() as u64 + 1 + g as u64) << OBJ_SHIFT
    }
    pub fn first_dyn(&self) -> u64 {
        self.funcs.len() as u64 + 1 + self.globals.len() as u64
    }
    pub fn sym_addr(&self, s: &str) -> Option<u64> {
        if self.weak.contains(s) {
            return Some(0);
        }
        self.sym.get(s).map(|s| match s {
            Sym::F(i) => self.faddr(*i),
            Sym::G(i) => self.gaddr(*i),
        })
    }
}

struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Cur<'a> {
    fn new(s: &'a [u8]) -> Self {
        Cur { s, i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') {
            self.i += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            panic!("IR parse: expected '{}' at ...{}", c as char, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let a = self.i.saturating_sub(60);
        let b = (self.i + 60).min(self.s.len());
        format!("{}<<HERE>>{}", String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]))
    }
    /// identifier-ish word
    fn peek_word(&mut self) -> &'a [u8] {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1
        }
        &self.s[self.i..j]
    }
    fn word(&mut self) -> &'a [u8] {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w.as_bytes() {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn name(&mut self) -> String {
        // after sigil
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.s[j] != b'"' {
                j += 1
            }
            self.i = j + 1;
            return unescape_name(&self.s[st..j]);
        }
        let st = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) {
            self.i += 1
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn int(&mut self) -> i128 {
        self.ws();
        let st = self.i;
        if self.s[self.i] == b'-' {
            self.i += 1
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        if let Ok(v) = t.parse::<i128>() {
            v
        } else {
            t.parse::<u128>().unwrap_or_else(|_| panic!("int '{}' {}", t, self.ctx())) as i128
        }
    }
}
fn unescape_name(b: &[u8]) -> String {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            if let Ok(v) = u8::from_str_radix(h, 16) {
                o.push(v);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}
fn cstr(c: &mut Cur) -> Vec<u8> {
    // at '"'
    c.expect(b'"');
    let mut o = vec![];
    loop {
        let b = c.s[c.i];
        if b == b'"' {
            c.i += 1;
            return o;
        }
        if b == b'\\' {
            if c.s[c.i + 1] == b'\\' {
                o.push(b'\\');
                c.i += 2;
                continue;
            }
            let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            c.i += 3;
        } else {
            o.push(b);
            c.i += 1;
        }
    }
}

fn ty(c: &mut Cur) -> Ty {
    let mut t = match c.peek() {
        b'[' => {
            c.i += 1;
            let n = c.int() as u64;
            assert!(c.eat_word("x"));
            let e = ty(c);
            c.expect(b']');
            Ty::Arr(n, Rc::new(e))
        }
        b'{' => {
            c.i += 1;
            let mut v = vec![];
            if !c.eat(b'}') {
                loop {
                    v.push(ty(c));
                    if !c.eat(b',') {
                        break;
                    }
                }
                c.expect(b'}');
            }
            Ty::Struct(Rc::new(v), false)
        }
        b'<' => {
            c.i += 1;
            if c.peek() == b'{' {
                c.i += 1;
                let mut v = vec![];
                if !c.eat(b'}') {
                    loop {
                        v.push(ty(c));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.expect(b'}');
                }
                c.expect(b'>');
                Ty::Struct(Rc::new(v), true)
            } else {
                let n = c.int() as u32;
                assert!(c.eat_word("x"));
                let e = ty(c);
                c.expect(b'>');
                Ty::Vec(n, Rc::new(e))
            }
        }
        _ => {
            let w = c.word();
            match w {
                b"ptr" => Ty::Ptr,
                b"void" => Ty::Void,
                b"float" => Ty::F32,
                b"double" => Ty::F64,
                b"metadata" => Ty::Meta,
                b"label" => Ty::Void,
                _ if w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|x| x.is_ascii_digit()) => {
                    Ty::Int(std::str::from_utf8(&w[1..]).unwrap().parse().unwrap())
                }
                _ => panic!("IR parse: type '{}' {}", String::from_utf8_lossy(w), c.ctx()),
            }
        }
    };
    // function type: ty (args)
    if c.peek() == b'(' {
        c.skip_parens();
        t = Ty::Func;
    }
    t
}
fn is_ty_start(c: &mut Cur) -> bool {
    match c.peek() {
        b'[' | b'{' | b'<' => true,
        _ => {
            let w = c.peek_word();
            matches!(w, b"ptr" | b"void" | b"float" | b"double" | b"metadata")
                || (w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|x| x.is_ascii_digit()))
        }
    }
}
const CONST_KW: &[&[u8]] = &[
    b"true", b"false", b"null", b"undef", b"poison", b"zeroinitializer", b"splat", b"inttoptr", b"ptrtoint", b"getelementptr",
    b"bitcast", b"trunc", b"xor", b"add", b"sub", b"asm", b"none", b"c", b"extractelement",
];
fn is_operand_start(c: &mut Cur) -> bool {
    match c.peek() {
        b'%' | b'@' | b'-' | b'<' | b'[' | b'{' | b'!' | b'+' => true,
        x if x.is_ascii_digit() => true,
        _ => {
            let w = c.peek_word();
            CONST_KW.iter().any(|k| *k == w) || w == b"inf" || w == b"nan" || w == b"f0x"
        }
    }
}
/// skip parameter / return attributes before a type or operand
fn attrs(c: &mut Cur, byval: &mut Option<u64>) {
    loop {
        if is_operand_start(c) {
            return;
        }
        match c.peek() {
            b'"' => {
                cstr(c);
                if c.peek() == b'=' {
                    c.i += 1;
                    cstr(c);
                }
                continue;
            }
            b'#' => {
                c.i += 1;
                c.word();
                continue;
            }
            _ => {}
        }
        let w = c.peek_word();
        if w.is_empty() {
            return;
        }
        if is_ty_start(c) {
            return;
        }
        let w = c.word();
        if w == b"align" {
            if c.peek() == b'(' {
                c.skip_parens();
            } else {
                c.int();
            }
            continue;
        }
        if c.i < c.s.len() && c.s[c.i] == b'(' {
            if w == b"byval" {
                c.i += 1;
                let t = ty(c);
                *byval = Some(t.size());
                c.expect(b')');
            } else {
                c.skip_parens();
            }
        }
    }
}

pub struct FnCtx {
    regs: HashMap<String, u32>,
    n: u32,
    blocks: HashMap<String, u32>,
}
impl FnCtx {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.n;
        let e = self.regs.entry(n).or_insert(k);
        if *e == k {
            self.n += 1;
        }
        *e
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
        let mut m = Module { text: vec![], funcs: vec![], globals: vec![], sym: HashMap::new(), weak: Default::default() };
        let mut i = 0;
        let n = text.len();
        while i < n {
            let e = memchr(&text, b'\n', i).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"@") {
                let mut c = Cur::new(line);
                c.i = 1;
                let name = c.name();
                let id = m.globals.len() as u32;
                if find(&line[..line.len().min(400)], b" = extern_weak ").is_some() {
                    m.weak.insert(name.clone());
                }
                m.sym.insert(name.clone(), Sym::G(id));
                m.globals.push(GDecl {
                    name,
                    line: (i, e),
                    external: false,
                    tls: false,
                    init: None,
                    size: 0,
                    constant: false,
                    align: 1,
                    parsed: false,
                });
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                // name: first '@' outside parens
                let mut c = Cur::new(line);
                while c.s[c.i] != b'@' {
                    if c.s[c.i] == b'(' {
                        c.skip_parens();
                    } else if c.s[c.i] == b'"' {
                        cstr(&mut c);
                    } else {
                        c.i += 1;
                    }
                }
                c.i += 1;
                let name = c.name();
                let id = m.funcs.len() as u32;
                if line.starts_with(b"declare extern_weak") {
                    m.weak.insert(name.clone());
                }
                m.sym.insert(name.clone(), Sym::F(id));
                if line.starts_with(b"define") {
                    // body until a line "}"
                    let mut j = e + 1;
                    loop {
                        let k = memchr(&text, b'\n', j).unwrap_or(n);
                        if &text[j..k] == b"}" {
                            m.funcs.push(FDecl { name, body: Some((i, k)), parsed: None });
                            i = k + 1;
                            break;
                        }
                        j = k + 1;
                        assert!(j < n, "unterminated function");
                    }
                    continue;
                } else {
                    m.funcs.push(FDecl { name, body: None, parsed: None });
                }
            }
            i = e + 1;
        }
        m.text = text;
        m
    }

    // ---------------------------------------------------------------- constants
    fn konst(&self, c: &mut Cur, t: &Ty) -> V {
        match c.peek() {
            b'@' => {
                c.i += 1;
                let n = c.name();
                let a = self.sym_addr(&n).unwrap_or_else(|| panic!("unknown symbol @{}", n));
                return V::C(a as u128);
            }
            b'[' | b'{' => {
                let close = if c.peek() == b'[' { b']' } else { b'}' };
                c.i += 1;
                let mut v = vec![];
                if !c.eat(close) {
                    loop {
                        let et = ty(c);
                        v.push(self.konst(c, &et));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.expect(close);
                }
                return V::A(Rc::new(v));
            }
            b'<' => {
                c.i += 1;
                let packed = c.eat(b'{');
                let mut v = vec![];
                if !(packed && c.eat(b'}')) {
                    loop {
                        let et = ty(c);
                        v.push(self.konst(c, &et));
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    if packed {
                        c.expect(b'}');
                    }
                }
                c.expect(b'>');
                return V::A(Rc::new(v));
            }
            b'+' => {
                c.i += 1;
            }
            _ => {}
        }
        match t {
            Ty::F64 | Ty::F32 => {
                let w = c.peek_word();
                if w == b"poison" || w == b"undef" {
                    c.word();
                    return V::P;
                }
                if w == b"zeroinitializer" {
                    c.word();
                    return V::C(0);
                }
                let neg = c.eat(b'-');
                let st = c.i;
                while c.i < c.s.len() && (is_id(c.s[c.i]) || c.s[c.i] == b'+') {
                    c.i += 1
                }
                let txt = std::str::from_utf8(&c.s[st..c.i]).unwrap().to_string();
                let v: f64 = if txt.starts_with("0x") {
                    f64::from_bits(u64::from_str_radix(&txt[2..], 16).unwrap())
                } else if txt == "inf" {
                    f64::INFINITY
                } else if txt == "nan" {
                    f64::NAN
                } else if txt.starts_with("f0x") {
                    let b = u64::from_str_radix(&txt[3..], 16).unwrap();
                    if *t == Ty::F32 {
                        f32::from_bits(b as u32) as f64
                    } else {
                        f64::from_bits(b)
                    }
                } else {
                    txt.parse().unwrap_or_else(|_| panic!("float {}", txt))
                };
                let v = if neg { -v } else { v };
                return V::C(if *t == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 });
            }
            _ => {}
        }
        let pk = c.peek();
        if pk == b'-' || pk.is_ascii_digit() {
            let v = c.int() as u128;
            return V::C(v & mask(t.width()));
        }
        let w = c.word();
        match w {
            b"true" => V::C(1),
            b"false" | b"null" => V::C(0),
            b"undef" | b"poison" => V::P,
            b"zeroinitializer" | b"none" => self.zero(t),
            b"c" => {
                let b = cstr(c);
                V::A(Rc::new(b.into_iter().map(|x| V::C(x as u128)).collect()))
            }
            b"splat" => {
                c.expect(b'(');
                let et = ty(c);
                let v = self.konst(c, &et);
                c.expect(b')');
                let n = match t {
                    Ty::Vec(n, _) => *n as usize,
                    _ => panic!("splat"),
                };
                V::A(Rc::new(vec![v; n]))
            }
            b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" => {
                c.expect(b'(');
                let et = ty(c);
                let v = self.konst(c, &et);
                assert!(c.eat_word("to"));
                let tt = ty(c);
                c.expect(b')');
                match v {
                    V::C(x) => V::C(x & mask(tt.width())),
                    v => v,
                }
            }
            b"xor" | b"add" | b"sub" => {
                while matches!(c.peek_word(), b"nuw" | b"nsw") {
                    c.word();
                }
                c.expect(b'(');
                let et = ty(c);
                let a = self.konst(c, &et);
                c.expect(b',');
                let et2 = ty(c);
                let b = self.konst(c, &et2);
                c.expect(b')');
                match (a, b) {
                    (V::C(x), V::C(y)) => {
                        let r = match w {
                            b"xor" => x ^ y,
                            b"add" => x.wrapping_add(y),
                            _ => x.wrapping_sub(y),
                        };
                        V::C(r & mask(et.width()))
                    }
                    _ => V::P,
                }
            }
            b"getelementptr" => {
                while c.peek() != b'(' {
                    let w = c.word();
                    if w.is_empty() {
                        panic!("gep const {}", c.ctx());
                    }
                    if w == b"inrange" && c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
                c.expect(b'(');
                let t0 = ty(c);
                c.expect(b',');
                let bt = ty(c);
                let base = self.konst(c, &bt);
                let mut off: i64 = 0;
                let mut cur = t0.clone();
                let mut first = true;
                while c.eat(b',') {
                    let it = ty(c);
                    let iv = match self.konst(c, &it) {
                        V::C(x) => crate::expr::sext128(x, it.width()) as i64,
                        _ => panic!("gep const idx"),
                    };
                    if first {
                        off += iv * cur.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_offset(iv as usize) as i64;
                        cur = cur.elem(iv as usize);
                    }
                }
                c.expect(b')');
                match base {
                    V::C(b) => V::C((b as u64).wrapping_add(off as u64) as u128),
                    v => v,
                }
            }
            _ => panic!("IR parse: constant '{}' {}", String::from_utf8_lossy(w), c.ctx()),
        }
    }
    pub fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Arr(n, e) => V::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Vec(n, e) => V::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|x| self.zero(x)).collect())),
            _ => V::C(0),
        }
    }
    fn emit(&self, v: &V, t: &Ty, out: &mut Vec<u8>, und: &mut Vec<(usize, usize)>, at: usize) {
        match v {
            V::P => und.push((at, at + t.size() as usize)),
            V::C(x) => {
                let n = t.store_size() as usize;
                for i in 0..n {
                    out[at + i] = (x >> (8 * i)) as u8;
                }
            }
            V::A(vs) => match t {
                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                    let s = e.size() as usize;
                    for (i, x) in vs.iter().enumerate() {
                        self.emit(x, e, out, und, at + i * s);
                    }
                }
                Ty::Struct(f, _) => {
                    for (i, x) in vs.iter().enumerate() {
                        let o = t.field_offset(i) as usize;
                        self.emit(x, &f[i], out, und, at + o);
                    }
                }
                _ => panic!("emit"),
            },
            V::S(_) => unreachable!(),
        }
    }
    pub fn global(&mut self, g: u32) {
        if self.globals[g as usize].parsed {
            return;
        }
        let (a, b) = self.globals[g as usize].line;
        let line = self.text[a..b].to_vec();
        let mut c = Cur::new(&line);
        c.i = 1;
        c.name();
        c.expect(b'=');
        let mut external = false;
        let mut tls = false;
        let constant;
        loop {
            let w = c.word();
            match w {
                b"global" => {
                    constant = false;
                    break;
                }
                b"constant" => {
                    constant = true;
                    break;
                }
                b"external" | b"extern_weak" => external = true,
                b"thread_local" | b"addrspace" => {
                    tls |= w == b"thread_local";
                    if c.s[c.i] == b'(' {
                        c.skip_parens()
                    }
                }
                b"alias" => panic!("alias not supported: {}", self.globals[g as usize].name),
                b"" => panic!("global parse {}", c.ctx()),
                _ => {}
            }
        }
        let t = ty(&mut c);
        let size = t.size();
        let mut align = t.align();
        let mut init = None;
        if !external {
            // fast path for strings
            let v = self.konst(&mut c, &t);
            let mut bytes = vec![0u8; size as usize];
            let mut und = vec![];
            self.emit(&v, &t, &mut bytes, &mut und, 0);
            let mut uf = vec![];
            if !und.is_empty() {
                uf = vec![false; size as usize];
                for (x, y) in und {
                    for k in x..y {
                        uf[k] = true;
                    }
                }
            }
            init = Some(Rc::new((bytes, uf)));
        }
        // align
        let rest = &line[c.i..];
        if let Some(p) = find(rest, b", align ") {
            let mut c2 = Cur::new(&rest[p + 8..]);
            align = c2.int() as u64;
        }
        let gd = &mut self.globals[g as usize];
        gd.external = external;
        gd.tls = tls;
        gd.size = size;
        gd.constant = constant;
        gd.init = init;
        gd.align = align;
        gd.parsed = true;
    }

    // ---------------------------------------------------------------- functions
    fn op(&self, c: &mut Cur, t: &Ty, f: &mut FnCtx) -> O {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            return O::R(f.reg(n));
        }
        O::I(self.konst(c, t))
    }
    fn tyop(&self, c: &mut Cur, f: &mut FnCtx) -> (Ty, O) {
        let t = ty(c);
        let mut bv = None;
        attrs(c, &mut bv);
        let o = self.op(c, &t, f);
        (t, o)
    }
    fn label(&self, c: &mut Cur, f: &FnCtx) -> u32 {
        assert!(c.eat_word("label"), "label {}", c.ctx());
        c.expect(b'%');
        let n = c.name();
        *f.blocks.get(&n).unwrap_or_else(|| panic!("block {}", n))
    }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return f.clone();
        }
        let (a, b) = self.funcs[id as usize].body.expect("no body");
        let text = std::mem::take(&mut self.text);
        let f = Rc::new(self.parse_func(id, &text[a..b]));
        self.text = text;
        self.funcs[id as usize].parsed = Some(f.clone());
        f
    }

    fn parse_func(&self, id: u32, body: &[u8]) -> Func {
        let mut lines: Vec<&[u8]> = vec![];
        for l in body.split(|&x| x == b'\n') {
            lines.push(l);
        }
        let mut f = FnCtx { regs: HashMap::new(), n: 0, blocks: HashMap::new() };
        // header params
        let mut c = Cur::new(lines[0]);
        while c.s[c.i] != b'@' {
            if c.s[c.i] == b'(' {
                c.skip_parens();
            } else {
                c.i += 1;
            }
        }
        c.i += 1;
        let name = c.name();
        c.expect(b'(');
        let mut nparams = 0;
        let mut auto = 0u32; // next unnamed number
        while !c.eat(b')') {
            if c.s[c.i..].starts_with(b"...") {
                c.i += 3;
                continue;
            }
            let _t = ty(&mut c);
            let mut bv = None;
            attrs(&mut c, &mut bv);
            if c.peek() == b'%' {
                c.i += 1;
                let n = c.name();
                if n == auto.to_string() {
                    auto += 1;
                }
                f.reg(n);
            } else {
                f.reg(auto.to_string());
                auto += 1;
            }
            nparams += 1;
            c.eat(b',');
        }
        // first pass: block labels
        let mut bl: Vec<(usize, usize)> = vec![];
        let mut entry_label = auto.to_string();
        let mut k = 1;
        while k < lines.len() {
            let l = lines[k];
            if !l.is_empty() && l[0] != b' ' && l[0] != b';' && l[0] != b'}' {
                // label line  name:
                let mut cc = Cur::new(l);
                let n = cc.name();
                if cc.peek() == b':' {
                    if bl.is_empty() && k == 1 {
                        entry_label = n.clone();
                    }
                    let bi = if k == 1 { 0 } else { bl.len().max(1) as u32 };
                    let _ = bi;
                    bl.push((k, 0));
                    f.blocks.insert(n, 0);
                    let idx = bl.len() - 1;
                    let _ = idx;
                }
            }
            k += 1;
        }
        // assign indices
        let labelled_entry = !bl.is_empty() && bl[0].0 == 1;
        let mut starts: Vec<usize> = vec![];
        if !labelled_entry {
            starts.push(1);
            f.blocks.insert(entry_label.clone(), 0);
        }
        for (k, _) in &bl {
            let mut cc = Cur::new(lines[*k]);
            let n = cc.name();
            f.blocks.insert(n, starts.len() as u32);
            starts.push(*k + 1);
        }
        let mut blocks = vec![];
        for (bi, &s) in starts.iter().enumerate() {
            let end = if bi + 1 < starts.len() { starts[bi + 1] - 1 } else { lines.len() };
            let mut phis = vec![];
            let mut ins = vec![];
            let mut k = s;
            while k < end {
                let l = lines[k];
                k += 1;
                let mut c = Cur::new(l);
                if c.peek() == 0 || c.peek() == b';' || c.peek() == b'#' {
                    continue;
                }
                // join continuation lines
                let mut joined: Vec<u8>;
                let mut lt = l;
                loop {
                    let need_more = {
                        let t = trim(lt);
                        // switch [ ... ] ; invoke -> next line "to label"; landingpad clauses
                        if (t.starts_with(b"switch ")) && !t.contains(&b']') {
                            true
                        } else if k < end {
                            let nx = trim(lines[k]);
                            nx.starts_with(b"to label ")
                                || nx == b"cleanup"
                                || nx.starts_with(b"catch ")
                                || nx.starts_with(b"filter ")
                        } else {
                            false
                        }
                    };
                    if !need_more || k >= end {
                        break;
                    }
                    joined = lt.to_vec();
                    joined.push(b' ');
                    joined.extend_from_slice(trim(lines[k]));
                    k += 1;
                    // leak-free: keep owned buffer alive through a boxed leak (parsing happens once per function)
                    lt = Box::leak(joined.into_boxed_slice());
                }
                self.instr(lt, &mut f, &mut phis, &mut ins);
            }
            blocks.push(Block { phis, ins });
        }
        let own = name.contains("6vmodel");
        let once = name.contains("4sync4once") || name.contains("9once_lock");
        Func { name, id, nparams, nregs: f.n, blocks, own, once }
    }

    fn instr(&self, l: &[u8], f: &mut FnCtx, phis: &mut Vec<(u32, Vec<(u32, O)>)>, ins: &mut Vec<I>) {
        let mut c = Cur::new(l);
        let mut d = u32::MAX;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name();
            d = f.reg(n);
            c.expect(b'=');
        }
        let opw = c.word();
        let ops = std::str::from_utf8(opw).unwrap();
        let skip_flags = |c: &mut Cur, fl: &[&str]| loop {
            let w = c.peek_word();
            let ws = std::str::from_utf8(w).unwrap_or("");
            if fl.contains(&ws) {
                c.word();
                if c.i < c.s.len() && c.s[c.i] == b'(' {
                    c.skip_parens();
                }
            } else {
                break;
            }
        };
        const FAST: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"];
        match ops {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                let op = match ops {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "urem" => BinOp::URem,
                    "sdiv" => BinOp::SDiv,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                skip_flags(&mut c, FAST);
                let t = ty(&mut c);
                let a = self.op(&mut c, &t, f);
                c.expect(b',');
                let b = self.op(&mut c, &t, f);
                let (lanes, w) = t.lanes();
                ins.push(I::Bin { op, lanes, w, a, b, d });
            }
            "icmp" => {
                skip_flags(&mut c, FAST);
                let p = match c.word() {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    _ => panic!("icmp"),
                };
                let t = ty(&mut c);
                let a = self.op(&mut c, &t, f);
                c.expect(b',');
                let b = self.op(&mut c, &t, f);
                let (lanes, w) = t.lanes();
                ins.push(I::ICmp { p, lanes, w, a, b, d });
            }
            "fcmp" => {
                skip_flags(&mut c, FAST);
                let p = String::from_utf8_lossy(c.word()).into_owned();
                let t = ty(&mut c);
                let a = self.op(&mut c, &t, f);
                c.expect(b',');
                let b = self.op(&mut c, &t, f);
                ins.push(I::FCmp { p, w: t.width(), a, b, d });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                skip_flags(&mut c, FAST);
                let t = ty(&mut c);
                let a = self.op(&mut c, &t, f);
                c.expect(b',');
                let b = self.op(&mut c, &t, f);
                let op = match ops {
                    "fadd" => b'+',
                    "fsub" => b'-',
                    "fmul" => b'*',
                    "fdiv" => b'/',
                    _ => b'%',
                };
                ins.push(I::FBin { op, w: t.width(), a, b, d });
            }
            "fneg" => {
                skip_flags(&mut c, FAST);
                let t = ty(&mut c);
                let a = self.op(&mut c, &t, f);
                ins.push(I::FNeg { w: t.width(), a, d });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                skip_flags(&mut c, FAST);
                let t = ty(&mut c);
                let a = self.op(&mut c, &t, f);
                assert!(c.eat_word("to"), "{}", c.ctx());
                let t2 = ty(&mut c);
                let (lanes, fw) = t.lanes();
                let (_, tw) = t2.lanes();
                let op = match ops {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::Zext,
                    "sext" => CastOp::Sext,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "fpext" => CastOp::FpExt,
                    "fptrunc" => CastOp::FpTrunc,
                    _ => CastOp::BitNop,
                };
                ins.push(I::Cast { op, lanes, fw, tw, a, d });
            }
            "bitcast" => {
                let t = ty(&mut c);
                let a = self.op(&mut c, &t, f);
                assert!(c.eat_word("to"));
                let t2 = ty(&mut c);
                ins.push(I::Bitcast { from: t, to: t2, a, d });
            }
            "freeze" => {
                let t = ty(&mut c);
                let a = self.op(&mut c, &t, f);
                ins.push(I::Copy { a, d });
            }
            "getelementptr" => {
                skip_flags(&mut c, &["inbounds", "nuw", "nusw", "inrange"]);
                let t0 = ty(&mut c);
                c.expect(b',');
                let (bt, base) = self.tyop(&mut c, f);
                if bt != Ty::Ptr {
                    ins.push(I::Unsupported("vector gep".into()));
                    return;
                }
                let mut off: i64 = 0;
                let mut terms = vec![];
                let mut cur = t0;
                let mut first = true;
                while c.peek() == b',' {
                    c.i += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, io) = self.tyop(&mut c, f);
                    let scale;
                    let mut kidx = None;
                    if let O::I(V::C(x)) = &io {
                        kidx = Some(crate::expr::sext128(*x, it.width()) as i64);
                    }
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                        match kidx {
                            Some(k) => off += k * scale,
                            None => terms.push((io, it.width(), scale)),
                        }
                    } else {
                        match (&cur, kidx) {
                            (Ty::Struct(..), Some(k)) => {
                                off += cur.field_offset(k as usize) as i64;
                                cur = cur.elem(k as usize);
                            }
                            (_, Some(k)) => {
                                let e = cur.elem(0);
                                off += k * e.size() as i64;
                                cur = e;
                            }
                            (_, None) => {
                                let e = cur.elem(0);
                                terms.push((io, it.width(), e.size() as i64));
                                cur = e;
                            }
                        }
                    }
                }
                ins.push(I::Gep { base, off, terms, d });
            }
            "load" => {
                skip_flags(&mut c, &["atomic", "volatile"]);
                let t = ty(&mut c);
                c.expect(b',');
                let (_, p) = self.tyop(&mut c, f);
                let align = find_align(c.s, c.i);
                ins.push(I::Load { ty: t, p, d, align });
            }
            "store" => {
                let atomic = c.peek_word() == b"atomic";
                skip_flags(&mut c, &["atomic", "volatile"]);
                let (t, v) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, p) = self.tyop(&mut c, f);
                let align = find_align(c.s, c.i);
                ins.push(I::Store { ty: t, v, p, align, atomic });
            }
            "alloca" => {
                skip_flags(&mut c, &["inalloca"]);
                let t = ty(&mut c);
                let mut count = None;
                if c.peek() == b',' {
                    let save = c.i;
                    c.i += 1;
                    if is_ty_start(&mut c) {
                        let (_, o) = self.tyop(&mut c, f);
                        count = Some(o);
                    } else {
                        c.i = save;
                    }
                }
                let align = find_align(c.s, c.i);
                ins.push(I::Alloca { size: t.size(), align, count, d });
            }
            "br" => {
                if c.peek_word() == b"label" {
                    let b = self.label(&mut c, f);
                    ins.push(I::Br(b));
                } else {
                    let (_, o) = self.tyop(&mut c, f);
                    c.expect(b',');
                    let a = self.label(&mut c, f);
                    c.expect(b',');
                    let b = self.label(&mut c, f);
                    ins.push(I::CBr(o, a, b));
                }
            }
            "switch" => {
                let (t, v) = self.tyop(&mut c, f);
                c.expect(b',');
                let def = self.label(&mut c, f);
                c.expect(b'[');
                let mut cases = vec![];
                while !c.eat(b']') {
                    let it = ty(&mut c);
                    let k = match self.konst(&mut c, &it) {
                        V::C(x) => x,
                        _ => panic!("switch const"),
                    };
                    c.expect(b',');
                    let b = self.label(&mut c, f);
                    cases.push((k, b));
                }
                ins.push(I::Switch { w: t.width(), v, def, cases });
            }
            "ret" => {
                if c.peek_word() == b"void" {
                    ins.push(I::Ret(None));
                } else {
                    let (_, o) = self.tyop(&mut c, f);
                    ins.push(I::Ret(Some(o)));
                }
            }
            "unreachable" => ins.push(I::Unreachable),
            "resume" => {
                let (_, o) = self.tyop(&mut c, f);
                ins.push(I::Resume(o));
            }
            "phi" => {
                skip_flags(&mut c, FAST);
                let t = ty(&mut c);
                let mut v = vec![];
                loop {
                    c.expect(b'[');
                    let o = self.op(&mut c, &t, f);
                    c.expect(b',');
                    c.expect(b'%');
                    let n = c.name();
                    let b = f.blocks[&n];
                    c.expect(b']');
                    v.push((b, o));
                    if !(c.peek() == b',' && {
                        let s = c.i;
                        c.i += 1;
                        let r = c.peek() == b'[';
                        c.i = s;
                        r
                    }) {
                        break;
                    }
                    c.i += 1;
                }
                phis.push((d, v));
            }
            "select" => {
                skip_flags(&mut c, FAST);
                let (ct, cc) = self.tyop(&mut c, f);
                c.expect(b',');
                let (t, a) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, b) = self.tyop(&mut c, f);
                let lanes = if let Ty::Vec(n, _) = ct { n } else { 0 };
                ins.push(I::Select { c: cc, lanes, ty: t, a, b, d });
            }
            "extractvalue" => {
                let (_, a) = self.tyop(&mut c, f);
                let mut idx = vec![];
                while c.peek() == b',' {
                    c.i += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.int() as u32);
                }
                ins.push(I::Extract { a, idx, d });
            }
            "insertvalue" => {
                let (aty, a) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, v) = self.tyop(&mut c, f);
                let mut idx = vec![];
                while c.peek() == b',' {
                    c.i += 1;
                    if c.peek() == b'!' {
                        break;
                    }
                    idx.push(c.int() as u32);
                }
                ins.push(I::Insert { a, aty, v, idx, d });
            }
            "extractelement" => {
                let (_, a) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, i) = self.tyop(&mut c, f);
                ins.push(I::ExtractEl { a, i, d });
            }
            "insertelement" => {
                let (t, a) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, v) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, i) = self.tyop(&mut c, f);
                let n = t.lanes().0;
                ins.push(I::InsertEl { a, n, v, i, d });
            }
            "shufflevector" => {
                let (t, a) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, b) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, m) = self.tyop(&mut c, f);
                let mask = match m {
                    O::I(V::A(v)) => v
                        .iter()
                        .map(|x| match x {
                            V::C(k) => *k as i64,
                            _ => -1,
                        })
                        .collect(),
                    _ => panic!("shuffle mask"),
                };
                ins.push(I::Shuffle { a, b, n: t.lanes().0, mask, d });
            }
            "landingpad" => {
                let s = String::from_utf8_lossy(c.s).into_owned();
                ins.push(I::LandingPad { d, catch: s.contains(" catch "), filter: s.contains(" filter ") });
            }
            "atomicrmw" => {
                skip_flags(&mut c, &["volatile"]);
                let op = String::from_utf8_lossy(c.word()).into_owned();
                let (_, p) = self.tyop(&mut c, f);
                c.expect(b',');
                let (t, v) = self.tyop(&mut c, f);
                ins.push(I::Rmw { op, p, v, w: t.width(), d });
            }
            "cmpxchg" => {
                skip_flags(&mut c, &["weak", "volatile"]);
                let (_, p) = self.tyop(&mut c, f);
                c.expect(b',');
                let (t, cmp) = self.tyop(&mut c, f);
                c.expect(b',');
                let (_, new) = self.tyop(&mut c, f);
                ins.push(I::CmpXchg { p, cmp, new, w: t.width(), d });
            }
            "fence" => ins.push(I::Nop),
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if ops != "call" && ops != "invoke" {
                    c.word();
                }
                skip_flags(&mut c, FAST);
                // calling convention + return attributes
                let mut bv = None;
                attrs(&mut c, &mut bv);
                let ret0 = ty(&mut c);
                // function type form "i64 (i64, ...)" is reported as Func by ty(): assume i64/int result from callee use
                let ret = if ret0 == Ty::Func {
                    // re-parse the result type
                    let s = c.s[..c.i].to_vec();
                    let mut depth = 0;
                    let mut j = s.len();
                    while j > 0 {
                        j -= 1;
                        if s[j] == b')' {
                            depth += 1
                        }
                        if s[j] == b'(' {
                            depth -= 1;
                            if depth == 0 {
                                break;
                            }
                        }
                    }
                    let mut k = j;
                    while k > 0 && s[k - 1] == b' ' {
                        k -= 1
                    }
                    let mut st = k;
                    while st > 0 && s[st - 1] != b' ' {
                        st -= 1
                    }
                    let mut c3 = Cur::new(&s[st..k]);
                    ty(&mut c3)
                } else {
                    ret0
                };
                let callee = if c.peek() == b'@' {
                    c.i += 1;
                    let n = c.name();
                    match self.sym.get(&n) {
                        Some(Sym::F(i)) => Callee::F(*i),
                        _ => panic!("callee @{}", n),
                    }
                } else if c.peek() == b'%' {
                    c.i += 1;
                    let n = c.name();
                    Callee::Ind(O::R(f.reg(n)))
                } else if c.eat_word("asm") {
                    while c.peek() != b'"' {
                        c.word();
                    }
                    cstr(&mut c);
                    c.expect(b',');
                    cstr(&mut c);
                    Callee::Asm
                } else {
                    Callee::Ind(O::I(self.konst(&mut c, &Ty::Ptr)))
                };
                c.expect(b'(');
                let mut args = vec![];
                let mut byval = vec![];
                let mut argw = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = ty(&mut c);
                        if t == Ty::Meta {
                            // metadata operand: skip to , or )
                            let mut dpt = 0;
                            while !(dpt == 0 && (c.s[c.i] == b',' || c.s[c.i] == b')')) {
                                if c.s[c.i] == b'(' {
                                    dpt += 1
                                }
                                if c.s[c.i] == b')' {
                                    dpt -= 1
                                }
                                c.i += 1;
                            }
                            args.push(O::I(V::P));
                            argw.push(0);
                        } else {
                            let mut bv = None;
                            attrs(&mut c, &mut bv);
                            let o = self.op(&mut c, &t, f);
                            if let Some(sz) = bv {
                                byval.push((args.len(), sz));
                            }
                            argw.push(match &t {
                                Ty::Int(w) => *w,
                                Ty::Ptr | Ty::F64 => 64,
                                Ty::F32 => 32,
                                _ => 0,
                            });
                            args.push(o);
                        }
                        if !c.eat(b',') {
                            break;
                        }
                    }
                    c.expect(b')');
                }
                let mut inv = None;
                if ops == "invoke" {
                    let p = find(&c.s[c.i..], b"to label %").expect("invoke target") + c.i;
                    c.i = p + 3;
                    let a = self.label(&mut c, f);
                    assert!(c.eat_word("unwind"));
                    let b = self.label(&mut c, f);
                    inv = Some((a, b));
                }
                ins.push(I::Call(Box::new(CallI { callee, args, byval, dst: d, ret, inv, argw })));
            }
            _ => ins.push(I::Unsupported(String::from_utf8_lossy(l).into_owned())),
        }
    }
}

fn trim(mut s: &[u8]) -> &[u8] {
    while !s.is_empty() && (s[0] == b' ' || s[0] == b'\t') {
        s = &s[1..]
    }
    while !s.is_empty() && (s[s.len() - 1] == b' ') {
        s = &s[..s.len() - 1]
    }
    s
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}
fn find_align(s: &[u8], from: usize) -> u32 {
    if let Some(p) = find(&s[from..], b", align ") {
        let mut c = Cur::new(&s[from + p + 8..]);
        c.int() as u32
    } else {
        1
    }
}
fn memchr(t: &[u8], b: u8, from: usize) -> Option<usize> {
    t[from..].iter().position(|&x| x == b).map(|p| p + from)
}
