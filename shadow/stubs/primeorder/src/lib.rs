//! Stand-in for the `primeorder` fork /repo depends on (a git dependency that is not available offline):
//! prime order Weierstrass curves with a = 0 over the real `elliptic-curve` 0.12 traits, plain formulas.
#![allow(clippy::all)]
pub use elliptic_curve::{self, Field, FieldBytes, PrimeCurve, PrimeField};
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use elliptic_curve::{
    generic_array::ArrayLength,
    group::{self, Group},
    ops::LinearCombination,
    rand_core::RngCore,
    sec1::{Coordinates, EncodedPoint, FromEncodedPoint, ModulusSize, ToEncodedPoint, UncompressedPointSize},
    subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption},
    zeroize::DefaultIsZeroes,
    AffineArithmetic, AffineXCoordinate, FieldSize, ProjectiveArithmetic, Scalar,
};

pub trait PrimeCurveParams:
    PrimeCurve + AffineArithmetic<AffinePoint = AffinePoint<Self>> + ProjectiveArithmetic<ProjectivePoint = ProjectivePoint<Self>>
{
    type FieldElement: PrimeField<Repr = FieldBytes<Self>>;
    const ZERO: Self::FieldElement;
    const ONE: Self::FieldElement;
    const EQUATION_A: Self::FieldElement;
    const EQUATION_B: Self::FieldElement;
    const GENERATOR: (Self::FieldElement, Self::FieldElement);
}

#[derive(Clone, Copy, Debug)]
pub struct AffinePoint<C: PrimeCurveParams> {
    pub(crate) x: C::FieldElement,
    pub(crate) y: C::FieldElement,
    pub(crate) infinity: u8,
}

impl<C: PrimeCurveParams> AffinePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ZERO, infinity: 1 };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, infinity: 0 };
    pub fn is_identity(&self) -> Choice { Choice::from(self.infinity) }
    pub fn neg(self) -> Self { Self { x: self.x, y: -self.y, infinity: self.infinity } }
}

impl<C: PrimeCurveParams> Neg for AffinePoint<C> {
    type Output = Self;
    fn neg(self) -> Self { AffinePoint::neg(self) }
}
impl<C: PrimeCurveParams> AffineXCoordinate<C> for AffinePoint<C> {
    fn x(&self) -> FieldBytes<C> { self.x.to_repr() }
}
impl<C: PrimeCurveParams> ConditionallySelectable for AffinePoint<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Self {
            x: C::FieldElement::conditional_select(&a.x, &b.x, c),
            y: C::FieldElement::conditional_select(&a.y, &b.y, c),
            infinity: u8::conditional_select(&a.infinity, &b.infinity, c),
        }
    }
}
impl<C: PrimeCurveParams> ConstantTimeEq for AffinePoint<C> {
    fn ct_eq(&self, o: &Self) -> Choice { self.x.ct_eq(&o.x) & self.y.ct_eq(&o.y) & self.infinity.ct_eq(&o.infinity) }
}
impl<C: PrimeCurveParams> Default for AffinePoint<C> { fn default() -> Self { Self::IDENTITY } }
impl<C: PrimeCurveParams> DefaultIsZeroes for AffinePoint<C> {}
impl<C: PrimeCurveParams> Eq for AffinePoint<C> {}
impl<C: PrimeCurveParams> PartialEq for AffinePoint<C> { fn eq(&self, o: &Self) -> bool { self.ct_eq(o).into() } }
impl<C: PrimeCurveParams> From<ProjectivePoint<C>> for AffinePoint<C> { fn from(p: ProjectivePoint<C>) -> Self { p.to_affine() } }
impl<C: PrimeCurveParams> From<&ProjectivePoint<C>> for AffinePoint<C> { fn from(p: &ProjectivePoint<C>) -> Self { p.to_affine() } }

impl<C> FromEncodedPoint<C> for AffinePoint<C>
where
    C: PrimeCurveParams,
    FieldSize<C>: ModulusSize,
    FieldBytes<C>: Copy,
{
    fn from_encoded_point(e: &EncodedPoint<C>) -> CtOption<Self> {
        let none = CtOption::new(Self::IDENTITY, Choice::from(0));
        let fe = |b: &FieldBytes<C>| -> Option<C::FieldElement> { Option::from(C::FieldElement::from_repr(*b)) };
        match e.coordinates() {
            Coordinates::Identity => CtOption::new(Self::IDENTITY, Choice::from(1)),
            Coordinates::Compact { .. } => none,
            Coordinates::Compressed { x, y_is_odd } => {
                let x = match fe(x) { Some(x) => x, None => return none };
                let a = x * x * x + C::EQUATION_A * x + C::EQUATION_B;
                let y = match Option::<C::FieldElement>::from(a.sqrt()) { Some(y) => y, None => return none };
                let y = C::FieldElement::conditional_select(&-y, &y, y.is_odd().ct_eq(&Choice::from(y_is_odd as u8)));
                CtOption::new(Self { x, y, infinity: 0 }, Choice::from(1))
            }
            Coordinates::Uncompressed { x, y } => {
                let (x, y) = match (fe(x), fe(y)) { (Some(x), Some(y)) => (x, y), _ => return none };
                let ok = (y * y).ct_eq(&(x * x * x + C::EQUATION_A * x + C::EQUATION_B));
                CtOption::new(Self { x, y, infinity: 0 }, ok)
            }
        }
    }
}

impl<C> ToEncodedPoint<C> for AffinePoint<C>
where
    C: PrimeCurveParams,
    FieldSize<C>: ModulusSize,
    <UncompressedPointSize<C> as ArrayLength<u8>>::ArrayType: Copy,
{
    fn to_encoded_point(&self, compress: bool) -> EncodedPoint<C> {
        if self.infinity == 1 { return EncodedPoint::<C>::identity(); }
        EncodedPoint::<C>::from_affine_coordinates(&self.x.to_repr(), &self.y.to_repr(), compress)
    }
}

impl<C> serde::Serialize for AffinePoint<C>
where
    C: PrimeCurveParams,
    FieldSize<C>: ModulusSize,
    <UncompressedPointSize<C> as ArrayLength<u8>>::ArrayType: Copy,
{
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.to_encoded_point(true).serialize(s) }
}


impl<'de, C> serde::Deserialize<'de> for AffinePoint<C>
where
    C: PrimeCurveParams,
    FieldSize<C>: ModulusSize,
    FieldBytes<C>: Copy,
{
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let e = EncodedPoint::<C>::deserialize(d)?;
        Option::from(Self::from_encoded_point(&e)).ok_or_else(|| serde::de::Error::custom("invalid point"))
    }
}

#[derive(Clone, Copy, Debug)]
pub struct ProjectivePoint<C: PrimeCurveParams> { x: C::FieldElement, y: C::FieldElement, z: C::FieldElement }

impl<C: PrimeCurveParams> ProjectivePoint<C> {
    pub const IDENTITY: Self = Self { x: C::ZERO, y: C::ONE, z: C::ZERO };
    pub const GENERATOR: Self = Self { x: C::GENERATOR.0, y: C::GENERATOR.1, z: C::ONE };

    pub fn to_affine(&self) -> AffinePoint<C> {
        match Option::<C::FieldElement>::from(self.z.invert()) {
            Some(zi) => AffinePoint { x: self.x * zi, y: self.y * zi, infinity: 0 },
            None => AffinePoint::IDENTITY,
        }
    }
    pub fn neg(&self) -> Self { Self { x: self.x, y: -self.y, z: self.z } }
    /// Homogeneous coordinates (x/z, y/z), a = 0.
    pub fn add(&self, o: &Self) -> Self {
        if bool::from(self.z.is_zero()) { return *o; }
        if bool::from(o.z.is_zero()) { return *self; }
        let y1z2 = self.y * o.z;
        let x1z2 = self.x * o.z;
        let z1z2 = self.z * o.z;
        let u = o.y * self.z - y1z2;
        let v = o.x * self.z - x1z2;
        if bool::from(v.is_zero()) {
            return if bool::from(u.is_zero()) { self.double() } else { Self::IDENTITY };
        }
        let uu = u * u;
        let vv = v * v;
        let vvv = v * vv;
        let r = vv * x1z2;
        let a = uu * z1z2 - vvv - r - r;
        Self { x: v * a, y: u * (r - a) - vvv * y1z2, z: vvv * z1z2 }
    }
    pub fn add_mixed(&self, o: &AffinePoint<C>) -> Self { self.add(&Self::from(*o)) }
    pub fn sub(&self, o: &Self) -> Self { self.add(&o.neg()) }
    pub fn sub_mixed(&self, o: &AffinePoint<C>) -> Self { self.sub(&Self::from(*o)) }
    pub fn double(&self) -> Self {
        if bool::from(self.z.is_zero()) || bool::from(self.y.is_zero()) { return Self::IDENTITY; }
        let xx = self.x * self.x;
        let w = xx + xx + xx + C::EQUATION_A * self.z * self.z;
        let s = self.y * self.z;
        let s2 = s + s;
        let b = self.x * self.y * s2;
        let b2 = b + b;
        let h = w * w - (b2 + b2);
        let ys = self.y * s2;
        let e = ys * ys;
        let s3 = s2 * s2 * s2;
        Self { x: h * s2, y: w * (b2 - h) - (e + e), z: s3 }
    }
    fn mul(&self, k: &Scalar<C>) -> Self where Self: Double {
        let repr: FieldBytes<C> = (*k).into();
        let mut acc = Self::IDENTITY;
        for byte in repr.iter() {
            for i in (0..8).rev() {
                acc = acc.double();
                if (byte >> i) & 1 == 1 { acc = acc.add(self); }
            }
        }
        acc
    }
}
pub trait Double {}
impl<C: PrimeCurveParams> Double for ProjectivePoint<C> {}

impl<C: PrimeCurveParams> Group for ProjectivePoint<C> where Self: Double {
    type Scalar = Scalar<C>;
    fn random(mut rng: impl RngCore) -> Self {
        use elliptic_curve::ff::Field;
        Self::GENERATOR.mul(&<Scalar<C> as Field>::random(&mut rng))
    }
    fn identity() -> Self { Self::IDENTITY }
    fn generator() -> Self { Self::GENERATOR }
    fn is_identity(&self) -> Choice { self.z.is_zero() }
    fn double(&self) -> Self { ProjectivePoint::double(self) }
}
impl<C: PrimeCurveParams> group::Curve for ProjectivePoint<C> {
    type AffineRepr = AffinePoint<C>;
    fn to_affine(&self) -> AffinePoint<C> { ProjectivePoint::to_affine(self) }
}
impl<C: PrimeCurveParams> LinearCombination for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> From<AffinePoint<C>> for ProjectivePoint<C> {
    fn from(p: AffinePoint<C>) -> Self { if p.infinity == 1 { Self::IDENTITY } else { Self { x: p.x, y: p.y, z: C::ONE } } }
}
impl<C: PrimeCurveParams> From<&AffinePoint<C>> for ProjectivePoint<C> { fn from(p: &AffinePoint<C>) -> Self { Self::from(*p) } }
impl<C: PrimeCurveParams> ConditionallySelectable for ProjectivePoint<C> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Self {
            x: C::FieldElement::conditional_select(&a.x, &b.x, c),
            y: C::FieldElement::conditional_select(&a.y, &b.y, c),
            z: C::FieldElement::conditional_select(&a.z, &b.z, c),
        }
    }
}
impl<C: PrimeCurveParams> ConstantTimeEq for ProjectivePoint<C> {
    fn ct_eq(&self, o: &Self) -> Choice { self.to_affine().ct_eq(&o.to_affine()) }
}
impl<C: PrimeCurveParams> Default for ProjectivePoint<C> { fn default() -> Self { Self::IDENTITY } }
impl<C: PrimeCurveParams> DefaultIsZeroes for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> Eq for ProjectivePoint<C> {}
impl<C: PrimeCurveParams> PartialEq for ProjectivePoint<C> { fn eq(&self, o: &Self) -> bool { self.ct_eq(o).into() } }

impl<C: PrimeCurveParams> Add<ProjectivePoint<C>> for ProjectivePoint<C> { type Output = Self; fn add(self, o: Self) -> Self { ProjectivePoint::add(&self, &o) } }
impl<C: PrimeCurveParams> Add<&ProjectivePoint<C>> for ProjectivePoint<C> { type Output = Self; fn add(self, o: &Self) -> Self { ProjectivePoint::add(&self, o) } }
impl<C: PrimeCurveParams> Add<&ProjectivePoint<C>> for &ProjectivePoint<C> { type Output = ProjectivePoint<C>; fn add(self, o: &ProjectivePoint<C>) -> ProjectivePoint<C> { ProjectivePoint::add(self, o) } }
impl<C: PrimeCurveParams> Add<AffinePoint<C>> for ProjectivePoint<C> { type Output = Self; fn add(self, o: AffinePoint<C>) -> Self { self.add_mixed(&o) } }
impl<C: PrimeCurveParams> Add<&AffinePoint<C>> for ProjectivePoint<C> { type Output = Self; fn add(self, o: &AffinePoint<C>) -> Self { self.add_mixed(o) } }
impl<C: PrimeCurveParams> AddAssign<ProjectivePoint<C>> for ProjectivePoint<C> { fn add_assign(&mut self, o: Self) { *self = ProjectivePoint::add(self, &o); } }
impl<C: PrimeCurveParams> AddAssign<&ProjectivePoint<C>> for ProjectivePoint<C> { fn add_assign(&mut self, o: &Self) { *self = ProjectivePoint::add(self, o); } }
impl<C: PrimeCurveParams> AddAssign<AffinePoint<C>> for ProjectivePoint<C> { fn add_assign(&mut self, o: AffinePoint<C>) { *self = self.add_mixed(&o); } }
impl<C: PrimeCurveParams> AddAssign<&AffinePoint<C>> for ProjectivePoint<C> { fn add_assign(&mut self, o: &AffinePoint<C>) { *self = self.add_mixed(o); } }
impl<C: PrimeCurveParams> Sum for ProjectivePoint<C> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::IDENTITY, |a, b| a + b) } }
impl<'a, C: PrimeCurveParams> Sum<&'a ProjectivePoint<C>> for ProjectivePoint<C> { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::IDENTITY, |a, b| a + b) } }
impl<C: PrimeCurveParams> Sub<ProjectivePoint<C>> for ProjectivePoint<C> { type Output = Self; fn sub(self, o: Self) -> Self { ProjectivePoint::sub(&self, &o) } }
impl<C: PrimeCurveParams> Sub<&ProjectivePoint<C>> for ProjectivePoint<C> { type Output = Self; fn sub(self, o: &Self) -> Self { ProjectivePoint::sub(&self, o) } }
impl<C: PrimeCurveParams> Sub<AffinePoint<C>> for ProjectivePoint<C> { type Output = Self; fn sub(self, o: AffinePoint<C>) -> Self { self.sub_mixed(&o) } }
impl<C: PrimeCurveParams> Sub<&AffinePoint<C>> for ProjectivePoint<C> { type Output = Self; fn sub(self, o: &AffinePoint<C>) -> Self { self.sub_mixed(o) } }
impl<C: PrimeCurveParams> SubAssign<ProjectivePoint<C>> for ProjectivePoint<C> { fn sub_assign(&mut self, o: Self) { *self = ProjectivePoint::sub(self, &o); } }
impl<C: PrimeCurveParams> SubAssign<&ProjectivePoint<C>> for ProjectivePoint<C> { fn sub_assign(&mut self, o: &Self) { *self = ProjectivePoint::sub(self, o); } }
impl<C: PrimeCurveParams> SubAssign<AffinePoint<C>> for ProjectivePoint<C> { fn sub_assign(&mut self, o: AffinePoint<C>) { *self = self.sub_mixed(&o); } }
impl<C: PrimeCurveParams> SubAssign<&AffinePoint<C>> for ProjectivePoint<C> { fn sub_assign(&mut self, o: &AffinePoint<C>) { *self = self.sub_mixed(o); } }
impl<C: PrimeCurveParams> Neg for ProjectivePoint<C> { type Output = Self; fn neg(self) -> Self { ProjectivePoint::neg(&self) } }
impl<C: PrimeCurveParams, S: core::borrow::Borrow<Scalar<C>>> Mul<S> for AffinePoint<C> { type Output = ProjectivePoint<C>; fn mul(self, s: S) -> ProjectivePoint<C> { ProjectivePoint::from(self).mul(s.borrow()) } }
impl<C: PrimeCurveParams, S: core::borrow::Borrow<Scalar<C>>> Mul<S> for &AffinePoint<C> { type Output = ProjectivePoint<C>; fn mul(self, s: S) -> ProjectivePoint<C> { ProjectivePoint::from(*self).mul(s.borrow()) } }
impl<C: PrimeCurveParams, S: core::borrow::Borrow<Scalar<C>>> Mul<S> for ProjectivePoint<C> { type Output = Self; fn mul(self, s: S) -> Self { ProjectivePoint::mul(&self, s.borrow()) } }
impl<C: PrimeCurveParams, S: core::borrow::Borrow<Scalar<C>>> Mul<S> for &ProjectivePoint<C> { type Output = ProjectivePoint<C>; fn mul(self, s: S) -> ProjectivePoint<C> { ProjectivePoint::mul(self, s.borrow()) } }
impl<C: PrimeCurveParams, S: core::borrow::Borrow<Scalar<C>>> MulAssign<S> for ProjectivePoint<C> { fn mul_assign(&mut self, s: S) { *self = ProjectivePoint::mul(self, s.borrow()); } }
