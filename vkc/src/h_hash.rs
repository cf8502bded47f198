//! C15: hashing to the groups.

use crate::curve::{Fe, Scalar, C};
use crate::hash::{params, setup, xmd, H48, H64, S48, S64};
use crate::nd;
use core::any::TypeId;
use curve25519_dalek::{RistrettoPoint, Scalar as DScalar};
use elliptic_curve::hash2curve::{FromOkm, MapToCurve};
use generic_array::typenum::Unsigned;
use voprf::*;

const BIG: usize = 300;
static LONG: [u8; BIG] = [0x5a; BIG];

/// Up to 3 parts, of at most 2 bytes each.
struct Parts {
    b: [[u8; 2]; 3],
    n: [usize; 3],
}
impl Parts {
    fn any() -> Self {
        Parts { b: [nd::arr(), nd::arr(), nd::arr()], n: [nd::len(2), nd::len(2), nd::len(2)] }
    }
    /// Parts of the given lengths.
    fn of(n: [usize; 3]) -> Self {
        Parts { b: [nd::arr(), nd::arr(), nd::arr()], n }
    }
}

macro_rules! parts {
    ($p:ident) => {
        [&$p.b[0][..$p.n[0]], &$p.b[1][..$p.n[1]], &$p.b[2][..$p.n[2]]]
    };
}

fn r_scalar(msg: &[&[u8]], dst: &[&[u8]]) {
    let s = Ristretto255::hash_to_scalar::<H64>(msg, dst).unwrap();
    let want = xmd::<S64, 64>(msg, dst);
    assert!(s == DScalar::from_bytes_mod_order_wide(&want), "hash to scalar");
}

fn r_elem(msg: &[&[u8]], dst: &[&[u8]]) {
    let e = Ristretto255::hash_to_curve::<H64>(msg, dst).unwrap();
    let want = xmd::<S64, 64>(msg, dst);
    assert!(e == RistrettoPoint::from_uniform_bytes(&want), "hash to group");
}

fn c_scalar(msg: &[&[u8]], dst: &[&[u8]]) {
    let s = <C as Group>::hash_to_scalar::<H48>(msg, dst).unwrap();
    let want = xmd::<S48, 48>(msg, dst);
    assert!(s == Scalar::from_okm(&want.into()), "hash to scalar");
}

fn c_elem(msg: &[&[u8]], dst: &[&[u8]]) {
    let e = <C as Group>::hash_to_curve::<H48>(msg, dst).unwrap();
    let want = xmd::<S48, 96>(msg, dst);
    let (mut a, mut b) = ([0; 48], [0; 48]);
    a.copy_from_slice(&want[..48]);
    b.copy_from_slice(&want[48..]);
    assert!(e == Fe(a).map_to_curve() + Fe(b).map_to_curve(), "hash to group");
}

/// Messages of 3 parts, tags of 3 parts.
fn short(f: fn(&[&[u8]], &[&[u8]])) {
    setup();
    let (m, d) = (Parts::any(), Parts::of([2, 0, 1]));
    f(&parts!(m), &parts!(d));
    reach!(params().calls > 0, "hashed");
}

/// One message of any length up to 300, a tag of `n + 2` bytes.
fn long(n: usize, f: fn(&[&[u8]], &[&[u8]])) {
    setup();
    let m = &LONG[..nd::len(BIG)];
    let d2 = nd::arr::<2>();
    f(&[m], &[&LONG[..n], &d2]);
    reach!(m.len() == BIG, "hashed");
}

fn suite<G: CipherSuite + 'static, H: 'static>(id: &str, elem: usize, scalar: usize)
where
    <G::Hash as digest::OutputSizeUser>::OutputSize: generic_array::typenum::IsLess<generic_array::typenum::U256>
        + generic_array::typenum::IsLessOrEqual<<G::Hash as digest::core_api::BlockSizeUser>::BlockSize>,
{
    let (a, b) = (G::ID.as_bytes(), id.as_bytes());
    assert!(a.len() == b.len());
    let mut i = 0;
    while i < a.len() {
        assert!(a[i] == b[i], "identifier");
        i += 1;
    }
    assert!(TypeId::of::<G::Hash>() == TypeId::of::<H>(), "hash function");
    assert!(<<G::Group as Group>::ElemLen as Unsigned>::USIZE == elem, "length of elements");
    assert!(<<G::Group as Group>::ScalarLen as Unsigned>::USIZE == scalar, "length of scalars");
}

harnesses! {
    [100] fn c15_ristretto_scalar() {
        short(r_scalar);
    }

    [100] fn t15_ristretto_scalar_max() {
        long(253, r_scalar);
    }

    [100] fn c15_ristretto_scalar_oversize() {
        long(254, r_scalar);
    }

    [100] fn c15_ristretto_elem() {
        short(r_elem);
    }

    [100] fn t15_ristretto_elem_max() {
        long(253, r_elem);
    }

    [100] fn c15_ristretto_elem_oversize() {
        long(254, r_elem);
    }

    [100] fn c15_curve_scalar() {
        short(c_scalar);
    }

    [100] fn t15_curve_scalar_max() {
        long(253, c_scalar);
    }

    [100] fn c15_curve_scalar_oversize() {
        long(254, c_scalar);
    }

    [100] fn c15_curve_elem() {
        short(c_elem);
    }

    [100] fn t15_curve_elem_max() {
        long(253, c_elem);
    }

    [100] fn c15_curve_elem_oversize() {
        long(254, c_elem);
    }

    [40] fn c15_suites() {
        suite::<Ristretto255, sha2::Sha512>("ristretto255-SHA512", 32, 32);
        suite::<p256::NistP256, sha2::Sha256>("P256-SHA256", 33, 32);
        suite::<p384::NistP384, sha2::Sha384>("P384-SHA384", 49, 48);
        suite::<p521::NistP521, sha2::Sha512>("P521-SHA512", 67, 66);
        reach!(nd::bool(), "constants");
    }
}
