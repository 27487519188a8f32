//! Model: every SHA-2 digest is an uninterpreted injective function of the whole message.
//! SHA-512 is two functions, one per 32-byte half, each injective.
use digest::Digest;
use vmodel::{tag, uf, Msg};

#[derive(Clone, Copy)]
struct Core { msg: Msg, done: bool }
impl Core {
    fn new() -> Core { Core { msg: Msg::new(), done: false } }
    fn input(&mut self, d: &[u8]) { assert!(!self.done); self.msg.push(d); }
    fn out(&mut self, t: u64, n: usize, out: &mut [u8]) {
        self.done = true;
        let m = self.msg.collect();
        if n == 64 {
            uf(t, &m, &mut out[0..32], true);
            uf(t + 1, &m, &mut out[32..64], true);
        } else {
            uf(t, &m, &mut out[0..n], true);
        }
    }
}

#[derive(Clone, Copy)]
pub struct Sha512 { c: Core }
impl Sha512 { pub fn new() -> Sha512 { Sha512 { c: Core::new() } } }
impl Digest for Sha512 {
    fn input(&mut self, d: &[u8]) { self.c.input(d) }
    fn result(&mut self, out: &mut [u8]) { self.c.out(tag::SHA512, 64, out) }
    fn reset(&mut self) { self.c = Core::new() }
    fn output_bits(&self) -> usize { 512 }
    fn block_size(&self) -> usize { 128 }
}

#[derive(Clone, Copy)]
pub struct Sha384 { c: Core }
impl Sha384 { pub fn new() -> Sha384 { Sha384 { c: Core::new() } } }
impl Digest for Sha384 {
    fn input(&mut self, d: &[u8]) { self.c.input(d) }
    fn result(&mut self, out: &mut [u8]) { self.c.out(tag::SHA384, 48, out) }
    fn reset(&mut self) { self.c = Core::new() }
    fn output_bits(&self) -> usize { 384 }
    fn block_size(&self) -> usize { 128 }
}

#[derive(Clone, Copy)]
pub struct Sha512Trunc256 { c: Core }
impl Sha512Trunc256 { pub fn new() -> Sha512Trunc256 { Sha512Trunc256 { c: Core::new() } } }
impl Digest for Sha512Trunc256 {
    fn input(&mut self, d: &[u8]) { self.c.input(d) }
    fn result(&mut self, out: &mut [u8]) { self.c.out(tag::SHA512_256, 32, out) }
    fn reset(&mut self) { self.c = Core::new() }
    fn output_bits(&self) -> usize { 256 }
    fn block_size(&self) -> usize { 128 }
}

#[derive(Clone, Copy)]
pub struct Sha512Trunc224 { c: Core }
impl Sha512Trunc224 { pub fn new() -> Sha512Trunc224 { Sha512Trunc224 { c: Core::new() } } }
impl Digest for Sha512Trunc224 {
    fn input(&mut self, d: &[u8]) { self.c.input(d) }
    fn result(&mut self, out: &mut [u8]) { self.c.out(tag::SHA512_224, 28, out) }
    fn reset(&mut self) { self.c = Core::new() }
    fn output_bits(&self) -> usize { 224 }
    fn block_size(&self) -> usize { 128 }
}

#[derive(Clone, Copy)]
pub struct Sha256 { c: Core }
impl Sha256 { pub fn new() -> Sha256 { Sha256 { c: Core::new() } } }
impl Digest for Sha256 {
    fn input(&mut self, d: &[u8]) { self.c.input(d) }
    fn result(&mut self, out: &mut [u8]) { self.c.out(tag::SHA256, 32, out) }
    fn reset(&mut self) { self.c = Core::new() }
    fn output_bits(&self) -> usize { 256 }
    fn block_size(&self) -> usize { 64 }
}

#[derive(Clone, Copy)]
pub struct Sha224 { c: Core }
impl Sha224 { pub fn new() -> Sha224 { Sha224 { c: Core::new() } } }
impl Digest for Sha224 {
    fn input(&mut self, d: &[u8]) { self.c.input(d) }
    fn result(&mut self, out: &mut [u8]) { self.c.out(tag::SHA224, 28, out) }
    fn reset(&mut self) { self.c = Core::new() }
    fn output_bits(&self) -> usize { 224 }
    fn block_size(&self) -> usize { 64 }
}
