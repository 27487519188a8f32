//! Model of the operating system's random source: every byte it delivers is an arbitrary value.
pub use rand_core;
use rand_core::{impls, CryptoRng, Error, RngCore};

#[derive(Clone, Copy, Debug, Default)]
pub struct OsRng;

impl OsRng {
    pub fn new() -> Result<OsRng, Error> { Ok(OsRng) }
}
impl CryptoRng for OsRng {}
impl RngCore for OsRng {
    fn next_u32(&mut self) -> u32 { impls::next_u32_via_fill(self) }
    fn next_u64(&mut self) -> u64 { impls::next_u64_via_fill(self) }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        // as rand_os does
        if let Err(e) = self.try_fill_bytes(dest) {
            panic!("Error: {}", e);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        if vmodel::os::draw(dest) {
            Ok(())
        } else {
            Err(Error::new("the random source failed"))
        }
    }
}
