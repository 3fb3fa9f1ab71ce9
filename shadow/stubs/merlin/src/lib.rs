//! Stand-in for `merlin` 3 (not in the offline cache): same API, a SHA-256 chain instead of STROBE.
use sha2::{Digest, Sha256};
#[derive(Clone)]
pub struct Transcript { state: [u8; 32] }
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let mut t = Transcript { state: [0u8; 32] };
        t.append_message(b"dom-sep", label);
        t
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        let mut h = Sha256::new();
        h.update([0u8]);
        h.update(self.state);
        h.update((label.len() as u64).to_le_bytes());
        h.update(label);
        h.update((message.len() as u64).to_le_bytes());
        h.update(message);
        self.state = h.finalize().into();
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        let mut h = Sha256::new();
        h.update([1u8]);
        h.update(self.state);
        h.update((label.len() as u64).to_le_bytes());
        h.update(label);
        h.update((dest.len() as u64).to_le_bytes());
        self.state = h.finalize().into();
        for (i, chunk) in dest.chunks_mut(32).enumerate() {
            let mut h = Sha256::new();
            h.update([2u8]);
            h.update(self.state);
            h.update((i as u64).to_le_bytes());
            let out: [u8; 32] = h.finalize().into();
            let n = chunk.len();
            chunk.copy_from_slice(&out[..n]);
        }
    }
}
