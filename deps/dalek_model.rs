// The model that dalek.py puts in place of curve25519-dalek's arithmetic.

use crate::edwards::EdwardsPoint;
use crate::field::FieldElement;
use crate::ristretto::RistrettoPoint;

pub struct Log {
    /// Tells the object from every constant (see `DstLog` in vk).
    pub tag: u64,
    /// Which of the canonical, non-negative field elements are encodings.
    pub mask: [u8; 32],
    /// Which 22 bytes of uniform bytes a map looks at.
    pub window: usize,
}

static mut LOG: Log = Log { tag: 0x77a1_05d3_9c4e_62bb, mask: [0; 32], window: 0 };

pub fn state() -> &'static mut Log {
    unsafe { &mut *core::ptr::addr_of_mut!(LOG) }
}

pub(crate) fn elem(s: FieldElement) -> RistrettoPoint {
    RistrettoPoint(EdwardsPoint { X: s, Y: FieldElement::ONE, Z: FieldElement::ONE, T: FieldElement::ZERO })
}

/// Whether a canonical, non-negative field element is an encoding: zero is;
/// the others by the parity of some of their bits.
pub fn is_encoding(b: &[u8; 32]) -> bool {
    let mut any = 0;
    let mut p = 0;
    let mut i = 0;
    while i < 32 {
        any |= b[i];
        p ^= b[i] & state().mask[i];
        i += 1;
    }
    any == 0 || p.count_ones() % 2 == 1
}

/// 22 of the bytes: different strings differ in one of the windows.
pub(crate) fn mix(b: &[u8; 64]) -> [u8; 32] {
    let w = state().window;
    let mut r = [0; 32];
    let mut i = 0;
    while i < 22 {
        r[i] = if w == 0 {
            b[i]
        } else if w == 1 {
            b[21 + i]
        } else {
            b[42 + i]
        };
        i += 1;
    }
    r
}

/// The order of the group, l, little-endian.
pub const L: [u64; 4] = [0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0, 0x1000000000000000];

/// x mod l, for any 256-bit x.
pub fn reduce(x: [u8; 32]) -> [u8; 32] {
    let mut w = [0u64; 4];
    let mut i = 0;
    while i < 32 {
        w[i / 8] |= (x[i] as u64) << (8 * (i % 8));
        i += 1;
    }
    let mut k = 4;
    while k > 0 {
        k -= 1;
        // Subtract 2^k l if possible. 8 l < 2^256 < 16 l.
        let mut d = [0u64; 4];
        let mut borrow = false;
        let mut i = 0;
        while i < 4 {
            let m = (L[i] << k) | if k > 0 && i > 0 { L[i - 1] >> (64 - k) } else { 0 };
            let (a, b1) = w[i].overflowing_sub(m);
            let (a, b2) = a.overflowing_sub(borrow as u64);
            d[i] = a;
            borrow = b1 | b2;
            i += 1;
        }
        if !borrow {
            w = d;
        }
    }
    let mut r = [0; 32];
    let mut i = 0;
    while i < 32 {
        r[i] = (w[i / 8] >> (8 * (i % 8))) as u8;
        i += 1;
    }
    r
}
