//! A model curve for the generic code of the NIST curves: the group of the
//! integers modulo N (the order of P-256) in disguise. The point k has the
//! affine coordinates x = min(k, N - k) and y, which is odd if k is at most
//! N / 2. All of its arithmetic is consistent.

use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use elliptic_curve::bigint::{Limb, U256};
use elliptic_curve::ff::{Field, PrimeField};
use elliptic_curve::generic_array::typenum::{U32, U48};
use elliptic_curve::generic_array::GenericArray;
use elliptic_curve::group::cofactor::CofactorGroup;
use elliptic_curve::group::prime::PrimeGroup;
use elliptic_curve::group::GroupEncoding;
use elliptic_curve::hash2curve::{FromOkm, GroupDigest, MapToCurve};
use elliptic_curve::ops::{Invert, LinearCombination, MulByGenerator, Reduce, ShrAssign};
use elliptic_curve::point::AffineCoordinates;
use elliptic_curve::scalar::{FromUintUnchecked, IsHigh};
use elliptic_curve::sec1::{CompressedPoint, Coordinates, FromEncodedPoint, ToEncodedPoint};
use elliptic_curve::{Curve, CurveArithmetic, FieldBytes, FieldBytesEncoding, PrimeCurve};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, ConstantTimeGreater, ConstantTimeLess, CtOption};
use zeroize::DefaultIsZeroes;

pub type EncodedPoint = elliptic_curve::sec1::EncodedPoint<C>;
pub type ScalarPrimitive = elliptic_curve::ScalarPrimitive<C>;
pub type Bytes = FieldBytes<C>;

/// Order of the group, and half of it (rounded down).
pub const N: U256 = U256::from_be_hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
pub const HALF: U256 = N.shr_vartime(1);

#[derive(Copy, Clone, Debug, Default, Eq, PartialEq, PartialOrd, Ord)]
pub struct C;

impl Curve for C {
    type FieldBytesSize = U32;
    type Uint = U256;
    const ORDER: U256 = N;
}
impl PrimeCurve for C {}
impl CurveArithmetic for C {
    type AffinePoint = Affine;
    type ProjectivePoint = Point;
    type Scalar = Scalar;
}
impl FieldBytesEncoding<C> for U256 {}
impl GroupDigest for C {
    type FieldElement = Fe;
}

/// Removes N once if possible.
fn once(w: U256) -> U256 {
    let (r, borrow) = w.sbb(&N, Limb::ZERO);
    U256::conditional_select(&w, &r, Choice::from((borrow.0 == 0) as u8))
}

/// a * b mod N.
fn mul_mod(a: U256, b: U256) -> U256 {
    let mut r = U256::ZERO;
    let mut i = 256;
    while i > 0 {
        i -= 1;
        r = r.add_mod(&r, &N);
        if b.bit_vartime(i) {
            r = r.add_mod(&a, &N);
        }
    }
    r
}

/// a^-1 mod N, for a that is not zero.
fn inv_mod(a: U256) -> U256 {
    let e = N.wrapping_sub(&U256::from_u8(2));
    let mut r = U256::ONE;
    let mut i = 256;
    while i > 0 {
        i -= 1;
        r = mul_mod(r, r);
        if e.bit_vartime(i) {
            r = mul_mod(r, a);
        }
    }
    r
}

/////////////
// Scalars //
/////////////

#[derive(Clone, Copy, Debug, Default, Eq, PartialEq, PartialOrd, Ord)]
pub struct Scalar(pub ScalarPrimitive);

pub fn scalar(w: U256) -> Scalar {
    Scalar(ScalarPrimitive::from_uint_unchecked(once(w)))
}

impl Scalar {
    fn uint(&self) -> U256 {
        *self.0.as_uint()
    }
}

impl Field for Scalar {
    const ZERO: Self = Self(ScalarPrimitive::ZERO);
    const ONE: Self = Self(ScalarPrimitive::ONE);

    fn random(mut rng: impl RngCore) -> Self {
        let mut bytes = Bytes::default();
        rng.fill_bytes(&mut bytes);
        scalar(U256::from_be_slice(&bytes))
    }
    fn is_zero(&self) -> Choice {
        self.0.is_zero()
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        if bool::from(self.is_zero()) {
            return CtOption::new(Self::ZERO, Choice::from(0));
        }
        CtOption::new(scalar(inv_mod(self.uint())), Choice::from(1))
    }
    fn sqrt_ratio(_num: &Self, _div: &Self) -> (Choice, Self) {
        unimplemented!()
    }
}

impl PrimeField for Scalar {
    type Repr = Bytes;
    const MODULUS: &'static str = "";
    const NUM_BITS: u32 = 256;
    const CAPACITY: u32 = 255;
    const TWO_INV: Self = Self::ZERO;
    const MULTIPLICATIVE_GENERATOR: Self = Self::ZERO;
    const S: u32 = 4;
    const ROOT_OF_UNITY: Self = Self::ZERO;
    const ROOT_OF_UNITY_INV: Self = Self::ZERO;
    const DELTA: Self = Self::ZERO;

    fn from_repr(bytes: Bytes) -> CtOption<Self> {
        ScalarPrimitive::from_bytes(&bytes).map(Self)
    }
    fn to_repr(&self) -> Bytes {
        self.0.to_bytes()
    }
    fn is_odd(&self) -> Choice {
        self.0.is_odd()
    }
}

impl AsRef<Scalar> for Scalar {
    fn as_ref(&self) -> &Scalar {
        self
    }
}
impl ConditionallySelectable for Scalar {
    fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
        Self(ScalarPrimitive::conditional_select(&a.0, &b.0, choice))
    }
}
impl ConstantTimeEq for Scalar {
    fn ct_eq(&self, other: &Self) -> Choice {
        self.0.ct_eq(&other.0)
    }
}
impl DefaultIsZeroes for Scalar {}

macro_rules! op {
    ($t:ty, $r:ty, $tr:ident $f:ident $tra:ident $fa:ident, $b:expr) => {
        impl $tr<$r> for $t {
            type Output = $t;
            fn $f(self, other: $r) -> $t {
                let f: fn($t, $r) -> $t = $b;
                f(self, other)
            }
        }
        impl $tr<&$r> for $t {
            type Output = $t;
            fn $f(self, other: &$r) -> $t {
                let f: fn($t, $r) -> $t = $b;
                f(self, *other)
            }
        }
        impl $tra<$r> for $t {
            fn $fa(&mut self, other: $r) {
                *self = $tr::$f(*self, other);
            }
        }
        impl $tra<&$r> for $t {
            fn $fa(&mut self, other: &$r) {
                *self = $tr::$f(*self, *other);
            }
        }
    };
}

op!(Scalar, Scalar, Add add AddAssign add_assign, |a, b| Scalar(a.0 + b.0));
op!(Scalar, Scalar, Sub sub SubAssign sub_assign, |a, b| Scalar(a.0 - b.0));
op!(Scalar, Scalar, Mul mul MulAssign mul_assign, |a, b| scalar(mul_mod(a.uint(), b.uint())));

impl Neg for Scalar {
    type Output = Scalar;
    fn neg(self) -> Scalar {
        Self(-self.0)
    }
}
impl ShrAssign<usize> for Scalar {
    fn shr_assign(&mut self, rhs: usize) {
        self.0 >>= rhs;
    }
}
impl Sum for Scalar {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::ZERO, |a, b| a + b)
    }
}
impl<'a> Sum<&'a Scalar> for Scalar {
    fn sum<I: Iterator<Item = &'a Scalar>>(iter: I) -> Self {
        iter.fold(Self::ZERO, |a, b| a + *b)
    }
}
impl Product for Scalar {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::ONE, |a, b| a * b)
    }
}
impl<'a> Product<&'a Scalar> for Scalar {
    fn product<I: Iterator<Item = &'a Scalar>>(iter: I) -> Self {
        iter.fold(Self::ONE, |a, b| a * *b)
    }
}
impl Invert for Scalar {
    type Output = CtOption<Scalar>;
    fn invert(&self) -> CtOption<Scalar> {
        Field::invert(self)
    }
}
impl Reduce<U256> for Scalar {
    type Bytes = Bytes;
    fn reduce(w: U256) -> Self {
        scalar(w)
    }
    fn reduce_bytes(b: &Bytes) -> Self {
        scalar(U256::from_be_slice(b))
    }
}
impl From<u64> for Scalar {
    fn from(n: u64) -> Scalar {
        Self(n.into())
    }
}
impl From<ScalarPrimitive> for Scalar {
    fn from(s: ScalarPrimitive) -> Scalar {
        Self(s)
    }
}
impl From<Scalar> for ScalarPrimitive {
    fn from(s: Scalar) -> ScalarPrimitive {
        s.0
    }
}
impl From<Scalar> for U256 {
    fn from(s: Scalar) -> U256 {
        s.uint()
    }
}
impl FromUintUnchecked for Scalar {
    type Uint = U256;
    fn from_uint_unchecked(uint: U256) -> Self {
        Self(ScalarPrimitive::from_uint_unchecked(uint))
    }
}
impl From<Scalar> for Bytes {
    fn from(s: Scalar) -> Self {
        s.to_repr()
    }
}
impl From<&Scalar> for Bytes {
    fn from(s: &Scalar) -> Self {
        s.to_repr()
    }
}
impl IsHigh for Scalar {
    fn is_high(&self) -> Choice {
        self.0.is_high()
    }
}
impl FromOkm for Scalar {
    type Length = U48;
    fn from_okm(data: &GenericArray<u8, U48>) -> Self {
        scalar(okm(data))
    }
}

////////////
// Points //
////////////

/// The point k, k < N; 0 is the identity.
#[derive(Clone, Copy, Debug, Default, Eq, PartialEq)]
pub struct Point(pub U256);
#[derive(Clone, Copy, Debug, Default, Eq, PartialEq)]
pub struct Affine(pub U256);

impl DefaultIsZeroes for Point {}
impl DefaultIsZeroes for Affine {}

macro_rules! both {
    ($($t:ident)*) => { $(
        impl ConstantTimeEq for $t {
            fn ct_eq(&self, other: &Self) -> Choice {
                self.0.ct_eq(&other.0)
            }
        }
        impl ConditionallySelectable for $t {
            fn conditional_select(a: &Self, b: &Self, choice: Choice) -> Self {
                Self(U256::conditional_select(&a.0, &b.0, choice))
            }
        }
        impl FromEncodedPoint<C> for $t {
            fn from_encoded_point(p: &EncodedPoint) -> CtOption<Self> {
                let no = CtOption::new(Self(U256::ZERO), Choice::from(0));
                match p.coordinates() {
                    Coordinates::Identity => CtOption::new(Self(U256::ZERO), Choice::from(1)),
                    Coordinates::Compressed { x, y_is_odd } => lift(x, y_is_odd).map(Self),
                    Coordinates::Compact { x } => lift(x, true).map(Self),
                    Coordinates::Uncompressed { x, y } => {
                        let q = lift(x, y[31] & 1 == 1);
                        if bool::from(q.is_some()) && y_of(q.unwrap()) == *y {
                            q.map(Self)
                        } else {
                            no
                        }
                    }
                }
            }
        }
        impl ToEncodedPoint<C> for $t {
            fn to_encoded_point(&self, compress: bool) -> EncodedPoint {
                if self.0 == U256::ZERO {
                    return EncodedPoint::identity();
                }
                EncodedPoint::from_affine_coordinates(&x_of(self.0), &y_of(self.0), compress)
            }
        }
        impl GroupEncoding for $t {
            type Repr = CompressedPoint<C>;
            fn from_bytes(bytes: &Self::Repr) -> CtOption<Self> {
                match EncodedPoint::from_bytes(bytes) {
                    Ok(p) => Self::from_encoded_point(&p),
                    Err(_) => CtOption::new(Self(U256::ZERO), bytes.ct_eq(&Self::Repr::default())),
                }
            }
            fn from_bytes_unchecked(bytes: &Self::Repr) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> Self::Repr {
                let e = self.to_encoded_point(true);
                let mut r = CompressedPoint::<C>::default();
                r[..e.len()].copy_from_slice(e.as_bytes());
                r
            }
        }
    )* };
}
both!(Point Affine);

fn x_of(k: U256) -> Bytes {
    let low = bool::from(!k.ct_gt(&HALF));
    let x = if low { k } else { N.wrapping_sub(&k) };
    <U256 as FieldBytesEncoding<C>>::encode_field_bytes(&x)
}

/// The parity in x, with a bit set that x never has.
fn y_of(k: U256) -> Bytes {
    let mut y = x_of(k);
    y[31] = y[31] & 0xfe | bool::from(!k.ct_gt(&HALF)) as u8;
    y[0] |= 0x80;
    y
}

/// The point with coordinate x, if there is one.
fn lift(x: &Bytes, odd: bool) -> CtOption<U256> {
    let x = U256::from_be_slice(x);
    let ok = !x.ct_eq(&U256::ZERO) & !x.ct_gt(&HALF);
    let k = if odd { x } else { N.wrapping_sub(&x) };
    CtOption::new(k, ok)
}

/// Whether there are points with coordinate x.
pub fn on_curve(x: &[u8]) -> bool {
    let x = U256::from_be_slice(x);
    bool::from(x.ct_lt(&HALF) | x.ct_eq(&HALF)) && x != U256::ZERO
}

impl AffineCoordinates for Affine {
    type FieldRepr = Bytes;
    fn x(&self) -> Bytes {
        x_of(self.0)
    }
    fn y_is_odd(&self) -> Choice {
        Choice::from(y_of(self.0)[31] & 1)
    }
}
impl From<Affine> for Point {
    fn from(p: Affine) -> Point {
        Point(p.0)
    }
}
impl From<Point> for Affine {
    fn from(p: Point) -> Affine {
        Affine(p.0)
    }
}
impl elliptic_curve::group::Group for Point {
    type Scalar = Scalar;
    fn random(mut rng: impl RngCore) -> Self {
        Point(Scalar::random(&mut rng).uint())
    }
    fn identity() -> Self {
        Point(U256::ZERO)
    }
    fn generator() -> Self {
        Point(U256::ONE)
    }
    fn is_identity(&self) -> Choice {
        self.0.ct_eq(&U256::ZERO)
    }
    fn double(&self) -> Self {
        *self + *self
    }
}
impl elliptic_curve::group::Curve for Point {
    type AffineRepr = Affine;
    fn to_affine(&self) -> Affine {
        Affine(self.0)
    }
}
impl PrimeGroup for Point {}
impl LinearCombination for Point {}
impl MulByGenerator for Point {}

op!(Point, Point, Add add AddAssign add_assign, |a, b| Point(a.0.add_mod(&b.0, &N)));
op!(Point, Point, Sub sub SubAssign sub_assign, |a, b| Point(a.0.sub_mod(&b.0, &N)));
op!(Point, Affine, Add add AddAssign add_assign, |a, b| Point(a.0.add_mod(&b.0, &N)));
op!(Point, Affine, Sub sub SubAssign sub_assign, |a, b| Point(a.0.sub_mod(&b.0, &N)));
op!(Point, Scalar, Mul mul MulAssign mul_assign, |a, b| Point(mul_mod(a.0, b.uint())));

impl Neg for Point {
    type Output = Point;
    fn neg(self) -> Point {
        Point(self.0.neg_mod(&N))
    }
}
impl Sum for Point {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::default(), |a, b| a + b)
    }
}
impl<'a> Sum<&'a Point> for Point {
    fn sum<I: Iterator<Item = &'a Point>>(iter: I) -> Self {
        iter.fold(Self::default(), |a, b| a + *b)
    }
}

/////////////
// Hashing //
/////////////

/// A field element: the bytes that it was made from.
#[derive(Clone, Copy)]
pub struct Fe(pub [u8; 48]);

impl Default for Fe {
    fn default() -> Self {
        Fe([0; 48])
    }
}
impl FromOkm for Fe {
    type Length = U48;
    fn from_okm(data: &GenericArray<u8, U48>) -> Self {
        Fe((*data).into())
    }
}

/// Folds the bytes that a scalar or field element is made of.
fn okm(data: &[u8]) -> U256 {
    let (hi, lo) = (U256::from_be_slice(&data[0..32]), U256::from_be_slice(&data[16..48]));
    U256::from_words(core::array::from_fn(|i| hi.to_words()[i].rotate_left(7) ^ lo.to_words()[i]))
}

impl MapToCurve for Fe {
    type Output = Point;
    fn map_to_curve(&self) -> Point {
        Point(once(okm(&self.0)))
    }
}
impl CofactorGroup for Point {
    type Subgroup = Point;
    fn clear_cofactor(&self) -> Point {
        *self
    }
    fn into_subgroup(self) -> CtOption<Point> {
        CtOption::new(self, Choice::from(1))
    }
    fn is_torsion_free(&self) -> Choice {
        Choice::from(1)
    }
}
