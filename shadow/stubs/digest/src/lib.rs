//! Stand-in for `digest` 0.8.
pub trait Input {
    fn input<B: AsRef<[u8]>>(&mut self, data: B);
    fn chain<B: AsRef<[u8]>>(mut self, data: B) -> Self where Self: Sized { self.input(data); self }
}
pub trait ExtendableOutput {
    type Reader: std::io::Read;
    fn xof_result(self) -> Self::Reader;
}
