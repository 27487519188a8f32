//! Model: a SHA-3/Keccak digest is an uninterpreted injective function of (mode, message).
use digest::Digest;
use vmodel::{tag, uf, Msg};

const B: usize = 200;

/// SHA-3 Modes.
#[allow(non_camel_case_types)]
#[derive(Debug, Copy, Clone)]
pub enum Sha3Mode {
    Sha3_224,
    Sha3_256,
    Sha3_384,
    Sha3_512,
    Shake128,
    Shake256,
    Keccak224,
    Keccak256,
    Keccak384,
    Keccak512,
}

impl Sha3Mode {
    /// Return the expected hash size in bytes specified for `mode`, or 0
    /// for modes with variable output as for shake functions.
    pub fn digest_length(&self) -> usize {
        match *self {
            Sha3Mode::Sha3_224 | Sha3Mode::Keccak224 => 28,
            Sha3Mode::Sha3_256 | Sha3Mode::Keccak256 => 32,
            Sha3Mode::Sha3_384 | Sha3Mode::Keccak384 => 48,
            Sha3Mode::Sha3_512 | Sha3Mode::Keccak512 => 64,
            Sha3Mode::Shake128 | Sha3Mode::Shake256 => 0
        }
    }

    /// Return `true` if `mode` is a SHAKE mode.
    pub fn is_shake(&self) -> bool {
        match *self {
            Sha3Mode::Shake128 | Sha3Mode::Shake256 => true,
            _ => false
        }
    }

    /// Return `true` if `mode` is a Keccak mode.
    pub fn is_keccak(&self) -> bool {
        match *self {
            Sha3Mode::Keccak224 | Sha3Mode::Keccak256 | Sha3Mode::Keccak384 | Sha3Mode::Keccak512 => true,
            _ => false
        }
    }

    /// Return the capacity in bytes.
    fn capacity(&self) -> usize {
        match *self {
            Sha3Mode::Sha3_224 | Sha3Mode::Keccak224 => 56,
            Sha3Mode::Sha3_256 | Sha3Mode::Keccak256 => 64,
            Sha3Mode::Sha3_384 | Sha3Mode::Keccak384 => 96,
            Sha3Mode::Sha3_512 | Sha3Mode::Keccak512 => 128,
            Sha3Mode::Shake128 => 32,
            Sha3Mode::Shake256 => 64
        }
    }
}


pub struct Sha3 { mode: Sha3Mode, msg: Msg, done: bool }

impl Sha3 {
    /// New SHA-3 instanciated from specified SHA-3 `mode`.
    pub fn new(mode: Sha3Mode) -> Sha3 {
        Sha3 { mode: mode, msg: Msg::new(), done: false }
    }

    /// New SHA3-224 instance.
    pub fn sha3_224() -> Sha3 {
        Sha3::new(Sha3Mode::Sha3_224)
    }

    /// New SHA3-256 instance.
    pub fn sha3_256() -> Sha3 {
        Sha3::new(Sha3Mode::Sha3_256)
    }

    /// New SHA3-384 instance.
    pub fn sha3_384() -> Sha3 {
        Sha3::new(Sha3Mode::Sha3_384)
    }

    /// New SHA3-512 instance.
    pub fn sha3_512() -> Sha3 {
        Sha3::new(Sha3Mode::Sha3_512)
    }

    /// New SHAKE-128 instance.
    pub fn shake_128() -> Sha3 {
        Sha3::new(Sha3Mode::Shake128)
    }

    /// New SHAKE-256 instance.
    pub fn shake_256() -> Sha3 {
        Sha3::new(Sha3Mode::Shake256)
    }

    /// New Keccak224 instance.
    pub fn keccak224() -> Sha3 {
        Sha3::new(Sha3Mode::Keccak224)
    }

    /// New Keccak256 instance.
    pub fn keccak256() -> Sha3 {
        Sha3::new(Sha3Mode::Keccak256)
    }

    /// New Keccak384 instance.
    pub fn keccak384() -> Sha3 {
        Sha3::new(Sha3Mode::Keccak384)
    }

    /// New Keccak512 instance.
    pub fn keccak512() -> Sha3 {
        Sha3::new(Sha3Mode::Keccak512)
    }

    fn rate(&self) -> usize {
        B - self.mode.capacity()
    }
}

impl Digest for Sha3 {
    fn input(&mut self, data: &[u8]) {
        if self.done { panic!("Invalid state, absorb phase already finalized."); }
        self.msg.push(data);
    }
    fn result(&mut self, out: &mut [u8]) {
        if self.done { panic!("Nothing left to squeeze."); }
        self.done = true;
        let n = self.mode.digest_length();
        let k = if n == 0 { out.len() } else { std::cmp::min(n, out.len()) };
        let mut full = vec![0u8; if n == 0 { k } else { n }];
        uf(tag::SHA3 + self.mode as u64, &self.msg.collect(), &mut full, true);
        out[..k].copy_from_slice(&full[..k]);
    }
    fn reset(&mut self) { self.msg = Msg::new(); self.done = false; }
    fn output_bits(&self) -> usize { self.mode.digest_length() * 8 }
    fn block_size(&self) -> usize { self.rate() }
}
