//! `itertools` 0.10 is not in the offline cache; 0.13 has the items used here.
pub use it9::*;
