macro_rules! inst {
    ($m:ident, $t:path) => {
        pub mod $m {
            #[allow(unused_imports)]
            use ff::Field as _;
            pub type F = $t;
            pub fn ser(x: &F) -> bincode::Result<Vec<u8>> {
                bincode::serialize(x)
            }
            pub fn sample(r: super::Source) -> F {
                <F as ff::Field>::random(r)
            }
            pub fn draw(mut r: super::Source) -> F {
                F::random(&mut r)
            }
            pub fn de(b: &[u8]) -> bincode::Result<F> {
                bincode::deserialize(b)
            }
        }
    };
}
inst!(field_secp, secq256k1::field::field_secp::FieldElement);
inst!(field_secq, secq256k1::field::field_secq::FieldElement);
/// A source of randomness without meaning; the analysis gives it one.
pub struct Source;
impl rand_core::RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        unreachable!()
    }
    fn next_u64(&mut self) -> u64 {
        unreachable!()
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        unreachable!()
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand_core::Error> {
        unreachable!()
    }
}
impl rand_core::CryptoRng for Source {}
pub mod curve {
    use secq256k1::{AffinePoint, Scalar};
    pub fn sample(r: super::Source) -> Scalar {
        <Scalar as ff::Field>::random(r)
    }
    pub fn sum(x: Vec<AffinePoint>) -> AffinePoint {
        x.into_iter().sum()
    }
    pub fn sum_refs(x: &[AffinePoint]) -> AffinePoint {
        x.iter().sum()
    }
}
