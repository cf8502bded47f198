//! A model hash function: it observes the length of what is hashed and its
//! byte at an arbitrary position, and outputs them masked with arbitrary
//! bytes. Two hashed strings that differ have different outputs for some
//! position.

use crate::nd;
use core::marker::PhantomData;
use digest::core_api::BlockSizeUser;
use digest::generic_array::ArrayLength;
use digest::typenum::{U48, U64};
use digest::{FixedOutput, HashMarker, Output, OutputSizeUser, Update};

pub struct Params {
    /// Tells the object from every constant (see `DstLog` in vk).
    pub tag: u64,
    pub p: usize,
    pub mask: [u8; 64],
    /// Hash functions evaluated.
    pub calls: u32,
}

static mut PARAMS: Params = Params { tag: 0x2f9b_80c6_d417_53ae, p: 0, mask: [0; 64], calls: 0 };

pub fn params() -> &'static mut Params {
    unsafe { &mut *core::ptr::addr_of_mut!(PARAMS) }
}

pub fn setup() {
    let p = params();
    p.p = nd::usize();
    p.mask = nd::arr();
    curve25519_dalek::model::state().window = nd::len(2);
}

/// Sizes of a hash function.
pub trait Sizes: Clone + Default + 'static {
    type Out: ArrayLength<u8> + 'static;
    type Block: ArrayLength<u8> + 'static;
}
#[derive(Clone, Default)]
pub struct S64;
impl Sizes for S64 {
    type Out = U64;
    type Block = U64;
}
#[derive(Clone, Default)]
pub struct S48;
impl Sizes for S48 {
    type Out = U48;
    type Block = U64;
}

#[derive(Clone)]
pub struct MH<T> {
    len: usize,
    byte: u8,
    t: PhantomData<T>,
}
pub type H64 = MH<S64>;
pub type H48 = MH<S48>;

impl<T> Default for MH<T> {
    fn default() -> Self {
        MH { len: 0, byte: 0, t: PhantomData }
    }
}
impl<T> HashMarker for MH<T> {}
impl<T: Sizes> OutputSizeUser for MH<T> {
    type OutputSize = T::Out;
}
impl<T: Sizes> BlockSizeUser for MH<T> {
    type BlockSize = T::Block;
}
impl<T> Update for MH<T> {
    fn update(&mut self, d: &[u8]) {
        let o = params().p.wrapping_sub(self.len);
        if o < d.len() {
            self.byte = d[o];
        }
        self.len += d.len();
    }
}
impl<T: Sizes> FixedOutput for MH<T> {
    fn finalize_into(self, out: &mut Output<Self>) {
        params().calls += 1;
        let v = [self.byte, self.len as u8, (self.len >> 8) as u8];
        let mut i = 0;
        while i < out.len() {
            out[i] = params().mask[i] ^ v[i % 3];
            i += 1;
        }
    }
}

/// expand_message_xmd of RFC 9380, section 5.3.1 (and 5.3.3 for long tags),
/// for at most 3 blocks.
pub fn xmd<T: Sizes, const L: usize>(msg: &[&[u8]], dst: &[&[u8]]) -> [u8; L]
{
    let out = <T::Out as digest::typenum::Unsigned>::USIZE;
    let block = <T::Block as digest::typenum::Unsigned>::USIZE;
    let mut dlen = 0;
    let mut i = 0;
    while i < dst.len() {
        dlen += dst[i].len();
        i += 1;
    }
    let mut long = [0u8; 64];
    if dlen > 255 {
        let mut h = MH::<T>::default();
        h.update(b"H2C-OVERSIZE-DST-");
        add(&mut h, dst);
        long[..out].copy_from_slice(&h.finalize_fixed());
    }
    let tag_len = if dlen > 255 { out } else { dlen };
    let tag = |h: &mut MH<T>| {
        if dlen > 255 {
            h.update(&long[..out]);
        } else {
            add(h, dst);
        }
        h.update(&[tag_len as u8]);
    };

    let mut h = MH::<T>::default();
    h.update(&[0u8; 64][..block]);
    add(&mut h, msg);
    h.update(&[(L >> 8) as u8, L as u8, 0]);
    tag(&mut h);
    let b0 = h.finalize_fixed();

    let mut r = [0u8; L];
    let mut prev = [0u8; 64];
    let mut n = 0;
    let mut index = 1;
    while n < L {
        let mut x = [0u8; 64];
        let mut i = 0;
        while i < out {
            x[i] = b0[i] ^ prev[i];
            i += 1;
        }
        let mut h = MH::<T>::default();
        h.update(&x[..out]);
        h.update(&[index]);
        tag(&mut h);
        let b = h.finalize_fixed();
        let mut i = 0;
        while i < out {
            prev[i] = b[i];
            if n < L {
                r[n] = b[i];
                n += 1;
            }
            i += 1;
        }
        index += 1;
    }
    r
}

fn add<T: Sizes>(h: &mut MH<T>, parts: &[&[u8]]) {
    let mut i = 0;
    while i < parts.len() {
        h.update(parts[i]);
        i += 1;
    }
}
