//! Stand-in for `rand` 0.7.
pub use rand_core::{self, CryptoRng, RngCore};
pub mod rngs { pub use rand_core::OsRng; }
