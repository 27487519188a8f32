//! Verification interface: symbolic values, assumptions, checks and uninterpreted functions.
//! With `--cfg kse_sym` the functions are external symbols given meaning by the symbolic
//! engine; without it they run natively and replay a recorded counterexample.
#[cfg(kse_sym)]
mod imp {
    extern "C" {
        fn vm_bytes(n: *const u8, nl: usize, out: *mut u8, len: usize);
        fn vm_assume(c: bool);
        fn vm_check(c: bool, l: *const u8, ll: usize);
        fn vm_fail(l: *const u8, ll: usize);
        fn vm_cover(l: *const u8, ll: usize);
        fn vm_observe(l: *const u8, ll: usize, p: *const u8, n: usize);
        fn vm_choose(n: u64) -> u64;
        fn vm_uf(tag: u64, i: *const u8, il: usize, o: *mut u8, ol: usize, inj: u64);
        fn vm_hash_seed(s: u64);
        fn vm_heap_live() -> u64;
        fn vm_freeze(on: bool);
        fn vm_conc(v: u64) -> u64;
        fn vm_select(c: bool, a: u64, b: u64) -> u64;
    }
    pub fn bytes(name: &str, out: &mut [u8]) {
        unsafe { vm_bytes(name.as_ptr(), name.len(), out.as_mut_ptr(), out.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { vm_assume(c) }
    }
    pub fn check(c: bool, l: &str) {
        unsafe { vm_check(c, l.as_ptr(), l.len()) }
    }
    pub fn fail(l: &str) {
        unsafe { vm_fail(l.as_ptr(), l.len()) }
    }
    pub fn cover(l: &str) {
        unsafe { vm_cover(l.as_ptr(), l.len()) }
    }
    pub fn observe(l: &str, b: &[u8]) {
        unsafe { vm_observe(l.as_ptr(), l.len(), b.as_ptr(), b.len()) }
    }
    pub fn choose(n: u64) -> u64 {
        unsafe { vm_choose(n) }
    }
    pub fn uf(tag: u64, i: &[u8], o: &mut [u8], inj: bool) {
        unsafe { vm_uf(tag, i.as_ptr(), i.len(), o.as_mut_ptr(), o.len(), inj as u64) }
    }
    pub fn hash_seed(s: u64) {
        unsafe { vm_hash_seed(s) }
    }
    pub fn heap_live() -> u64 {
        unsafe { vm_heap_live() - *(&raw const super::LEAKED) }
    }
    /// while on, memory that exists already is shared: writing it (except atomically) is a violation
    pub fn freeze(on: bool) {
        unsafe { vm_freeze(on) }
    }
    pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn conc(v: u64) -> u64 {
        unsafe { vm_conc(v) }
    }
    pub fn select(c: bool, a: u64, b: u64) -> u64 {
        unsafe { vm_select(c, a, b) }
    }
    pub const SYMBOLIC: bool = true;
}

#[cfg(not(kse_sym))]
mod imp {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    #[derive(Default)]
    struct Cex {
        ins: HashMap<String, std::collections::VecDeque<Vec<u8>>>,
        ch: std::collections::VecDeque<u64>,
        ufs: HashMap<(u64, Vec<u8>), Vec<u8>>,
        bad: Vec<String>,
        labels: Vec<(String, bool)>,
    }
    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    fn cex() -> std::sync::MutexGuard<'static, Cex> {
        static C: OnceLock<Mutex<Cex>> = OnceLock::new();
        C.get_or_init(|| {
            let mut c = Cex::default();
            if let Ok(f) = std::env::var("KSE_CEX") {
                for l in std::fs::read_to_string(f).expect("counterexample file").lines() {
                    let p: Vec<&str> = l.split(' ').collect();
                    match p[0] {
                        "in" => c.ins.entry(p[1].to_string()).or_default().push_back(unhex(p.get(2).unwrap_or(&""))),
                        "choose" => c.ch.push_back(p[1].parse().unwrap()),
                        "uf" => {
                            c.ufs.insert((p[1].parse().unwrap(), unhex(p[2])), unhex(p[3]));
                        }
                        _ => {}
                    }
                }
            }
            Mutex::new(c)
        })
        .lock()
        .unwrap_or_else(|e| e.into_inner())
    }
    // the bookkeeping of this module does not count as live memory
    struct Own(u64);
    impl Own {
        fn new() -> Own {
            QUIET.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            Own(LIVE.load(std::sync::atomic::Ordering::Relaxed))
        }
    }
    impl Drop for Own {
        fn drop(&mut self) {
            QUIET.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
            LIVE.store(self.0, std::sync::atomic::Ordering::Relaxed)
        }
    }
    /// above zero: memory is allocated for this module, which is never shared memory
    pub static QUIET: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
        QUIET.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let r = f();
        QUIET.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        r
    }
    /// set by the replay program: makes the memory allocated so far read-only, and writable again
    pub static mut FREEZE: Option<fn(bool)> = None;
    pub fn freeze(on: bool) {
        if let Some(f) = unsafe { *(&raw const FREEZE) } {
            f(on)
        }
    }
    pub fn bytes(name: &str, out: &mut [u8]) {
        let _own = Own::new();
        let key = name.replace(' ', "_");
        let v = cex().ins.get_mut(&key).and_then(|q| q.pop_front()).unwrap_or_default();
        for (i, o) in out.iter_mut().enumerate() {
            *o = v.get(i).copied().unwrap_or(0);
        }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("KSE-ASSUME-FAILED");
            std::process::exit(if cex().bad.is_empty() { 0 } else { 1 });
        }
    }
    pub fn check(c: bool, l: &str) {
        let _own = Own::new();
        cex().labels.push((l.to_string(), c));
        if !c {
            fail(l)
        }
    }
    pub fn fail(l: &str) {
        let _own = Own::new();
        println!("KSE-FAILED {}", l);
        cex().bad.push(l.to_string());
    }
    pub fn cover(l: &str) {
        let _own = Own::new();
        println!("KSE-COVER {}", l);
    }
    pub fn observe(l: &str, b: &[u8]) {
        let _own = Own::new();
        let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        println!("KSE-OBSERVE {}={}", l, h);
    }
    pub fn choose(n: u64) -> u64 {
        let _own = Own::new();
        let k = cex().ch.pop_front().unwrap_or(0);
        assert!(k < n);
        k
    }
    pub fn uf(tag: u64, i: &[u8], o: &mut [u8], _inj: bool) {
        let _own = Own::new();
        if let Some(v) = cex().ufs.get(&(tag, i.to_vec())) {
            for (k, b) in o.iter_mut().enumerate() {
                *b = v.get(k).copied().unwrap_or(0);
            }
            return;
        }
        // any fixed pseudo-random function of (tag, input)
        let mut s: [u64; 4] = [tag ^ 0x9e3779b97f4a7c15, i.len() as u64 ^ 0xbf58476d1ce4e5b9, 0x94d049bb133111eb, 0xd6e8feb86659fd93];
        let mut mix = |x: u64| {
            s[0] = (s[0] ^ x).wrapping_mul(0x9fb21c651e98df25);
            s[1] = s[1].rotate_left(23) ^ s[0];
            s[2] = s[2].wrapping_add(s[1]).wrapping_mul(0xd6e8feb86659fd93);
            s[3] = s[3].rotate_left(41) ^ s[2];
            s[0] = s[0].rotate_left(17) ^ s[3];
            s[0] ^ s[2]
        };
        for &b in i {
            mix(b as u64 + 1);
        }
        for b in o.iter_mut() {
            mix(0x1234);
            *b = (mix(7) >> 29) as u8;
        }
    }
    pub fn hash_seed(_: u64) {}
    pub static LIVE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    pub fn heap_live() -> u64 {
        LIVE.load(std::sync::atomic::Ordering::Relaxed) - unsafe { *(&raw const super::LEAKED) }
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    pub fn select(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub fn failures() -> Vec<String> {
        cex().bad.clone()
    }
    pub const SYMBOLIC: bool = false;
}
pub use imp::*;

pub fn byte(name: &str) -> u8 {
    let mut b = [0u8; 1];
    bytes(name, &mut b);
    b[0]
}
pub fn u16v(name: &str) -> u16 {
    let mut b = [0u8; 2];
    bytes(name, &mut b);
    u16::from_le_bytes(b)
}
pub fn u32v(name: &str) -> u32 {
    let mut b = [0u8; 4];
    bytes(name, &mut b);
    u32::from_le_bytes(b)
}
pub fn u64v(name: &str) -> u64 {
    let mut b = [0u8; 8];
    bytes(name, &mut b);
    u64::from_le_bytes(b)
}
pub fn vec(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    bytes(name, &mut v);
    v
}
/// The operating system's random source: bytes the harness fed, in order, then arbitrary ones; every draw is logged.
pub mod os {
    static mut FED: Vec<u8> = Vec::new();
    static mut LOG: Vec<Vec<u8>> = Vec::new();
    static mut FAIL: Option<u64> = None;
    static mut FOREVER: bool = false;
    static mut FAILED: bool = false;
    #[allow(static_mut_refs)]
    pub fn feed(b: &[u8]) {
        super::quiet(|| unsafe { FED.extend_from_slice(b) })
    }
    /// the source works `n` more times and then fails, once or from then on
    pub fn fail_after(n: u64, forever: bool) {
        unsafe {
            FAIL = Some(n);
            FOREVER = forever;
            FAILED = false;
        }
    }
    /// the source works again; did it fail?
    pub fn repair() -> bool {
        unsafe {
            FAIL = None;
            FAILED
        }
    }
    /// a draw; false: the source failed after some of the bytes
    #[allow(static_mut_refs)]
    #[inline(never)]
    pub fn draw(out: &mut [u8]) -> bool {
        unsafe {
            if let Some(n) = FAIL {
                if n == 0 {
                    FAILED = true;
                    if !FOREVER {
                        FAIL = None;
                    }
                    let n = out.len() / 2;
                    for x in out[..n].iter_mut() {
                        *x = 0xee;
                    }
                    return false;
                }
                FAIL = Some(n - 1);
            }
        }
        super::quiet(|| unsafe {
            let n = out.len().min(FED.len());
            for i in 0..n {
                out[i] = FED[i];
            }
            FED.drain(..n);
            if n < out.len() {
                super::bytes("entropy", &mut out[n..]);
            }
            LOG.push(out.to_vec());
        });
        true
    }
    #[allow(static_mut_refs)]
    pub fn log() -> Vec<Vec<u8>> {
        unsafe { LOG.clone() }
    }
    #[allow(static_mut_refs)]
    pub fn forget() {
        unsafe {
            FED = Vec::new();
            LOG = Vec::new();
        }
    }
}
/// Byte equality as one term (no branching per byte).
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

// allocations of the models that stay: digests are Copy
static mut LEAKED: u64 = 0;
/// Append-only message that can be copied freely (persistent list of chunks).
#[derive(Clone, Copy)]
pub struct Msg {
    head: Option<&'static Node>,
    len: usize,
}
struct Node {
    prev: Option<&'static Node>,
    data: &'static [u8],
}
impl Msg {
    pub const fn new() -> Msg {
        Msg { head: None, len: 0 }
    }
    pub fn push(&mut self, d: &[u8]) {
        if d.is_empty() {
            return;
        }
        let n: &'static Node = quiet(|| {
            let data: &'static [u8] = Box::leak(d.to_vec().into_boxed_slice());
            Box::leak(Box::new(Node { prev: self.head, data }))
        });
        unsafe { LEAKED += 2 }
        self.head = Some(n);
        self.len += d.len();
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn collect(&self) -> Vec<u8> {
        let mut v = vec![0u8; self.len];
        let mut e = self.len;
        let mut c = self.head;
        while let Some(n) = c {
            let s = e - n.data.len();
            v[s..e].copy_from_slice(n.data);
            e = s;
            c = n.prev;
        }
        v
    }
}

pub mod tag {
    pub const SHA256: u64 = 1;
    pub const SHA512: u64 = 2;
    pub const SHA384: u64 = 4;
    pub const SHA512_256: u64 = 5;
    pub const SHA512_224: u64 = 6;
    pub const SHA224: u64 = 7;
    pub const SHA3: u64 = 100;
    pub const CHACHA: u64 = 20;
    pub const POLY: u64 = 22;
    pub const PBKDF2: u64 = 24;
    pub const ED_PUB: u64 = 30;
    pub const ED_SIGN: u64 = 31;
    pub const ED_VERIFY: u64 = 32;
    pub const ED_POINT: u64 = 33;
    pub const EC_PUB: u64 = 40;
    pub const EC_ADD: u64 = 43;
    pub const EC_SIGN: u64 = 41;
    pub const EC_VERIFY: u64 = 42;
    pub const RIPE: u64 = 50;
}
