pub use nb::*;
