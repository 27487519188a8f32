pub use vmodel::{assume, byte, bytes, check, choose, conc, cover, fail, freeze, hash_seed, heap_live, os, same, select, u16v, u32v, u64v, vec, Msg};
use cryptoxide::digest::Digest;

pub fn sha256(m: &[u8]) -> [u8; 32] {
    let mut h = cryptoxide::sha2::Sha256::new();
    h.input(m);
    let mut o = [0u8; 32];
    h.result(&mut o);
    o
}
pub fn sha512(m: &[u8]) -> [u8; 64] {
    let mut h = cryptoxide::sha2::Sha512::new();
    h.input(m);
    let mut o = [0u8; 64];
    h.result(&mut o);
    o
}
pub fn keccak256(m: &[u8]) -> [u8; 32] {
    let mut h = cryptoxide::sha3::Sha3::keccak256();
    h.input(m);
    let mut o = [0u8; 32];
    h.result(&mut o);
    o
}
pub fn hmac512(key: &[u8], m: &[u8]) -> [u8; 64] {
    use cryptoxide::mac::Mac;
    let mut h = cryptoxide::hmac::Hmac::new(cryptoxide::sha2::Sha512::new(), key);
    h.input(m);
    let mut o = [0u8; 64];
    h.raw_result(&mut o);
    o
}
pub fn pbkdf2_512(pass: &[u8], salt: &[u8], iters: u32, n: usize) -> Vec<u8> {
    let mut m = cryptoxide::hmac::Hmac::new(cryptoxide::sha2::Sha512::new(), pass);
    let mut o = vec![0u8; n];
    cryptoxide::pbkdf2::pbkdf2(&mut m, salt, iters, &mut o);
    o
}
pub fn ripemd160(m: &[u8]) -> [u8; 20] {
    use ripemd160::Digest;
    let mut h = ripemd160::Ripemd160::new();
    h.input(m);
    let mut o = [0u8; 20];
    o.copy_from_slice(&h.result()[..]);
    o
}
/// An index below `n`, one execution path per value.
pub fn pick(n: usize) -> usize {
    choose(n as u64) as usize
}
/// Valid UTF-8 text of `n` characters; each is one arbitrary ASCII character, or, where `wide`, an arbitrary two-,
/// three- or four-byte character.
pub fn text(name: &str, n: usize, wide: usize) -> String {
    let mut v = vec![];
    for i in 0..n {
        let b = vec(name, 3);
        assume((b[0] < 128) & (b[1] & 0xc0 == 0) & (b[2] & 0xc0 == 0));
        if i == wide {
            if n % 2 == 0 {
                v.push(0xc4 | b[0] & 0x1b);
                v.push(0x80 | b[1]);
            } else if n % 4 == 1 {
                v.extend_from_slice(&[0xf0, 0x9f, 0x80 | b[1], 0x80 | b[2]]);
            } else {
                v.push(0xe1);
                v.push(0x80 | b[1]);
                v.push(0x80 | b[2]);
            }
        } else {
            v.push(b[0])
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Source of randomness that keeps what it handed out.
pub struct Rec(pub std::cell::RefCell<Vec<Vec<u8>>>);
impl Rec {
    pub fn new() -> Rec {
        Rec(std::cell::RefCell::new(vec![]))
    }
    pub fn count(&self) -> usize {
        self.0.borrow().len()
    }
    /// `b` lies within one of the draws from number `from` on
    pub fn has(&self, from: usize, b: &[u8]) -> bool {
        let l = self.0.borrow();
        let mut r = false;
        for d in l[from..].iter() {
            for o in 0..(d.len() + 1).saturating_sub(b.len()) {
                r |= same(&d[o..o + b.len()], b);
            }
        }
        r
    }
    /// `a` and `b` lie in the draws from number `from` on without sharing a byte
    pub fn has_both(&self, from: usize, a: &[u8], b: &[u8]) -> bool {
        let l = self.0.borrow();
        let mut r = false;
        for (i, d) in l.iter().enumerate().skip(from) {
            for o in 0..(d.len() + 1).saturating_sub(a.len()) {
                let x = same(&d[o..o + a.len()], a);
                for (j, e) in l.iter().enumerate().skip(from) {
                    for p in 0..(e.len() + 1).saturating_sub(b.len()) {
                        if i != j || p >= o + a.len() || p + b.len() <= o {
                            r |= x & same(&e[p..p + b.len()], b);
                        }
                    }
                }
            }
        }
        r
    }
}
/// Two parts of what was made lie in draws `from` and later of the system's random source without sharing a byte.
pub fn drawn(from: usize, a: &[u8], b: &[u8]) -> bool {
    let r = Rec::new();
    *r.0.borrow_mut() = os::log();
    r.has_both(from, a, b)
}
impl keychain::Entropy for Rec {
    fn fill_bytes(&self, into: &mut [u8]) {
        bytes("entropy", into);
        self.0.borrow_mut().push(into.to_vec());
    }
}
pub fn trimmed(p: &[u8]) -> &[u8] {
    let mut n = p.len();
    while n > 0 && p[n - 1] == 0 {
        n -= 1
    }
    &p[..n]
}
/// Deeper bounds.
#[cfg(kse_long)]
pub const LONG: bool = true;
#[cfg(not(kse_long))]
pub const LONG: bool = false;
