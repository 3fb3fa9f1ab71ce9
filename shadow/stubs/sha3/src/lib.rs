//! Stand-in for `sha3` 0.8: an extendable-output function built on SHA-256.
pub use digest;
use sha2::{Digest, Sha256};
#[derive(Clone, Default)]
pub struct Shake256 { buf: Vec<u8> }
impl digest::Input for Shake256 {
    fn input<B: AsRef<[u8]>>(&mut self, data: B) { self.buf.extend_from_slice(data.as_ref()); }
}
pub struct Reader { seed: [u8; 32], ctr: u64, pos: usize, block: [u8; 32] }
impl digest::ExtendableOutput for Shake256 {
    type Reader = Reader;
    fn xof_result(self) -> Reader {
        Reader { seed: Sha256::digest(&self.buf).into(), ctr: 0, pos: 32, block: [0u8; 32] }
    }
}
impl std::io::Read for Reader {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        for o in out.iter_mut() {
            if self.pos == 32 {
                let mut h = Sha256::new();
                h.update(self.seed);
                h.update(self.ctr.to_le_bytes());
                self.block = h.finalize().into();
                self.ctr += 1;
                self.pos = 0;
            }
            *o = self.block[self.pos];
            self.pos += 1;
        }
        Ok(out.len())
    }
}
