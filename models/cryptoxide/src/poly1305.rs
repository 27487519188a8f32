//! Model: the authenticator is an uninterpreted injective function of (key, message).
use mac::{Mac, MacResult};
use vmodel::{tag, uf, Msg};

#[derive(Clone, Copy)]
pub struct Poly1305 { key: [u8; 32], msg: Msg, finalized: bool }

impl Poly1305 {
    pub fn new(key: &[u8]) -> Self {
        assert!(key.len() == 32);
        let mut k = [0u8; 32];
        k.copy_from_slice(key);
        Poly1305 { key: k, msg: Msg::new(), finalized: false }
    }
}

impl Mac for Poly1305 {
    fn input(&mut self, data: &[u8]) {
        assert!(!self.finalized);
        self.msg.push(data);
    }
    fn reset(&mut self) { self.msg = Msg::new(); self.finalized = false; }
    fn result(&mut self) -> MacResult {
        let mut mac = [0u8; 16];
        self.raw_result(&mut mac);
        MacResult::new(&mac[..])
    }
    fn raw_result(&mut self, output: &mut [u8]) {
        assert!(output.len() >= 16);
        self.finalized = true;
        let mut m = self.key.to_vec();
        m.extend_from_slice(&self.msg.collect());
        uf(tag::POLY, &m, &mut output[0..16], true);
    }
    fn output_bytes(&self) -> usize { 16 }
}
