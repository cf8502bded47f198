//! C09 (NIST curves), C10 (ristretto255), C25 (random scalars): encodings.

use crate::curve::{on_curve, scalar, Point, C, N};
use crate::nd;
use curve25519_dalek::model;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::traits::Identity;
use elliptic_curve::bigint::U256;
use generic_array::typenum::Unsigned;
use p256::NistP256;
use p384::NistP384;
use p521::NistP521;
use rand_core::{CryptoRng, Error as RngError, RngCore};
use voprf::*;

/// Whether `b` (big-endian) is below `n`.
fn below(b: &[u8], n: &[u8]) -> bool {
    let mut lt = false;
    let mut eq = true;
    let mut i = 0;
    while i < n.len() {
        lt |= eq & (b[i] < n[i]);
        eq &= b[i] == n[i];
        i += 1;
    }
    lt
}

fn zero(b: &[u8]) -> bool {
    let mut or = 0;
    let mut i = 0;
    while i < b.len() {
        or |= b[i];
        i += 1;
    }
    or == 0
}

fn same(a: &[u8], b: &[u8]) -> bool {
    let mut or = 0;
    let mut i = 0;
    while i < b.len() {
        or |= a[i] ^ b[i];
        i += 1;
    }
    a.len() == b.len() && or == 0
}

fn deser(e: Error) {
    assert!(matches!(e, Error::Deserialization), "the error");
}

/// Decoding of any byte string as a scalar; `order`: the group order.
/// `again`: whether encoding is followed too.
fn scalars<G: Group, const L: usize, const MAX: usize>(order: &[u8; L], again: bool) {
    assert!(G::ScalarLen::USIZE == L, "length of scalars");
    let b: [u8; MAX] = nd::arr();
    let n = nd::len(MAX);
    let r = G::deserialize_scalar(&b[..n]);
    let valid = n == L && !zero(&b[..L]) && below(&b[..L], order);
    assert!(r.is_ok() == valid, "exactly the canonical scalars");
    reach!(valid, "a scalar");
    reach!(n == L && !below(&b[..L], order), "a scalar too large");
    reach!(n < L, "too short");
    reach!(n > L, "too long");
    match r {
        Ok(s) => {
            if again {
                assert!(same(&G::serialize_scalar(s), &b[..L]), "encoding of the scalar");
            }
        }
        Err(e) => deser(e),
    }
}

const P256: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7,
    0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51,
];
const P384: [u8; 48] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
    0xff, 0xff, 0xff, 0xff, 0xff, 0xc7, 0x63, 0x4d, 0x81, 0xf4, 0x37, 0x2d, 0xdf, 0x58, 0x1a, 0x0d, 0xb2, 0x48, 0xb0,
    0xa7, 0x7a, 0xec, 0xec, 0x19, 0x6a, 0xcc, 0xc5, 0x29, 0x73,
];
const P521: [u8; 66] = [
    0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfa, 0x51, 0x86, 0x87, 0x83,
    0xbf, 0x2f, 0x96, 0x6b, 0x7f, 0xcc, 0x01, 0x48, 0xf7, 0x09, 0xa5, 0xd0, 0x3b, 0xb5, 0xc9, 0xb8, 0x89, 0x9c, 0x47,
    0xae, 0xbb, 0x6f, 0xb7, 0x1e, 0x91, 0x38, 0x64, 0x09,
];
const R255: [u8; 32] = [
    0x10, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12,
    0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed,
];

/// An RNG whose output is zero up to a position, and then ends with `fill`.
struct Rng {
    at: usize,
    zeros: usize,
    fill: u8,
}
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        rand_core::impls::next_u32_via_fill(self)
    }
    fn next_u64(&mut self) -> u64 {
        rand_core::impls::next_u64_via_fill(self)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if self.at > self.zeros {
            // Ends the loop for the symbolic execution.
            assert!(false, "a draw after one that is not zero");
            nd::assume(false);
        }
        let mut i = 0;
        while i < d.len() {
            d[i] = 0;
            if self.at == self.zeros + 5 {
                d[i] = self.fill;
            }
            self.at += 1;
            i += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> core::result::Result<(), RngError> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Rng {}

/// `len`: how much is drawn for a scalar. The scalar is the first draw that is
/// not zero.
fn random<G: Group>(len: usize, ser: impl Fn(G::Scalar) -> [u8; 32]) {
    let fill = nd::u8();
    nd::assume(fill != 0);
    let mut rng = Rng { at: 0, zeros: 2 * len, fill };
    let s = G::random_scalar(&mut rng);
    assert!(!bool::from(G::is_zero_scalar(s)), "random scalars are not zero");
    assert!(rng.at == rng.zeros + len, "the first draw that is not zero");
    let b = ser(s);
    assert!(!zero(&b), "random scalars are not encoded as zero");
    let mut rng = Rng { at: 0, zeros: 0, fill };
    let t = ser(G::random_scalar(&mut rng));
    assert!(rng.at == len, "the first draw");
    assert!(same(&b, &t), "a draw of zero leaves no trace");
    reach!(fill == 255, "any draw");
}

harnesses! {
    [70] fn c09_scalar_p256() {
        scalars::<NistP256, 32, 35>(&P256, true);
    }

    [90] fn t09_scalar_p384() {
        scalars::<NistP384, 48, 50>(&P384, false);
    }

    [90] fn t09_scalar_p521() {
        scalars::<NistP521, 66, 68>(&P521, false);
    }

    [70] fn c09_scalar_model() {
        scalars::<C, 32, 70>(&P256, true);
    }

    [70] fn c09_elem() {
        let b: [u8; 67] = nd::arr();
        let n = nd::len(67);
        let r = C::deserialize_elem(&b[..n]);
        let valid = n == 33 && (b[0] == 2 || b[0] == 3) && on_curve(&b[1..33]);
        assert!(r.is_ok() == valid, "exactly the compressed points");
        reach!(valid, "a point");
        reach!(n == 33 && b[0] == 2 && !valid, "no point of the curve");
        reach!(n == 1 && b[0] == 0, "the identity");
        reach!(n == 65 && b[0] == 4 && on_curve(&b[1..33]), "an uncompressed point");
        match r {
            Ok(e) => {
                assert!(!bool::from(C::is_identity_elem(e)), "not the identity");
                assert!(same(&C::serialize_elem(e), &b[..33]), "encoding of the point");
            }
            Err(e) => deser(e),
        }
    }

    /// Every element but the identity has an encoding of the fixed length that
    /// decodes to it.
    [70] fn c09_elem_round() {
        let k = scalar(U256::from_be_slice(&nd::arr::<32>()));
        let e = Point(k.into());
        nd::assume(e != Point(U256::ZERO));
        let b = C::serialize_elem(e);
        assert!(b.len() == 33);
        match C::deserialize_elem(&b) {
            Ok(f) => assert!(e == f, "the point again"),
            Err(_) => assert!(false, "encoded points are decoded"),
        }
        assert!(C::deserialize_elem(&C::serialize_elem(C::identity_elem())).is_err(), "the identity");
        reach!(b[0] == 2, "even");
        reach!(b[0] == 3, "odd");
    }

    /// The identity is recognized.
    [70] fn c09_identity() {
        let k = scalar(U256::from_be_slice(&nd::arr::<32>()));
        let e = Point(k.into());
        assert!(bool::from(C::is_identity_elem(e)) == (e == Point(U256::ZERO)), "identity");
        assert!(bool::from(C::is_zero_scalar(k)) == (U256::from(k) == U256::ZERO), "zero");
        assert!(N != U256::ZERO);
        reach!(e == Point(U256::ZERO), "the identity");
        reach!(e != Point(U256::ZERO), "another");
    }

    [70] fn c10_scalar() {
        let mut le = [0u8; 35];
        let b: [u8; 35] = nd::arr();
        let n = nd::len(35);
        let r = Ristretto255::deserialize_scalar(&b[..n]);
        let mut i = 0;
        while i < 32 {
            le[i] = b[31 - i];
            i += 1;
        }
        let valid = n == 32 && !zero(&le[..32]) && below(&le[..32], &R255);
        assert!(r.is_ok() == valid, "exactly the canonical scalars");
        reach!(valid, "a scalar");
        reach!(n == 32 && !below(&le[..32], &R255), "a scalar too large");
        reach!(n == 32 && zero(&le[..32]), "zero");
        reach!(n < 32, "too short");
        reach!(n > 32, "too long");
        match r {
            Ok(s) => assert!(same(&Ristretto255::serialize_scalar(s), &b[..32]), "encoding of the scalar"),
            Err(e) => deser(e),
        }
    }

    [70] fn c10_elem() {
        model::state().mask = nd::arr();
        let b: [u8; 35] = nd::arr();
        let n = nd::len(35);
        let r = Ristretto255::deserialize_elem(&b[..n]);
        let mut x = [0u8; 32];
        let mut be = [0u8; 32];
        let mut i = 0;
        while i < 32 {
            x[i] = b[i];
            be[i] = b[31 - i];
            i += 1;
        }
        // p = 2^255 - 19
        let mut p = [0xff; 32];
        p[0] = 0x7f;
        p[31] = 0xed;
        let valid = n == 32 && x[0] & 1 == 0 && below(&be, &p) && !zero(&x) && model::is_encoding(&x);
        assert!(r.is_ok() == valid, "exactly the canonical elements");
        reach!(valid, "an element");
        reach!(n == 32 && zero(&x), "the identity");
        reach!(n == 32 && !below(&be, &p) && x[31] < 0x80, "not canonical");
        match r {
            Ok(e) => {
                assert!(e != RistrettoPoint::identity(), "not the identity");
                assert!(!bool::from(Ristretto255::is_identity_elem(e)), "not the identity");
                assert!(same(&Ristretto255::serialize_elem(e), &x), "encoding of the element");
            }
            Err(e) => deser(e),
        }
    }

    [70] fn c25_random_ristretto255() {
        random::<Ristretto255>(64, |s| Ristretto255::serialize_scalar(s).into());
    }

    [70] fn c25_random_model() {
        random::<C>(32, |s| C::serialize_scalar(s).into());
    }

    [70] fn c25_random_p256() {
        random::<NistP256>(32, |s| <NistP256 as Group>::serialize_scalar(s).into());
    }
}
