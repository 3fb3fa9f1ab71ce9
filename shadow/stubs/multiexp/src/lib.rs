//! Stand-in for `multiexp` 0.2: the plain sum.
use group::Group;
pub fn multiexp<G: Group>(pairs: &[(G::Scalar, G)]) -> G {
    let mut acc = G::identity();
    for (s, p) in pairs { acc += *p * *s; }
    acc
}
pub fn multiexp_vartime<G: Group>(pairs: &[(G::Scalar, G)]) -> G { multiexp(pairs) }
