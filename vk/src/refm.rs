//! Reference model: RFC 9497, written from the specification, over the model
//! group and hash functions.

use crate::mock::*;

pub const OPRF: u8 = 0;
pub const VOPRF: u8 = 1;
pub const POPRF: u8 = 2;

pub fn i2osp2(n: usize) -> [u8; 2] {
    assert!(n <= 0xffff);
    [(n / 256) as u8, (n % 256) as u8]
}

pub fn hash(parts: &[&[u8]]) -> [u8; HLEN] {
    Tr::of(st().p_h, parts).digest()
}

pub fn h2g(input: &[u8], mode: u8) -> E {
    let dst: [&[u8]; 5] = [b"HashToGroup-", b"OPRFV1-", &[mode], b"-", ID.as_bytes()];
    E(oracle(KIND_ELEM, &[input], &dst))
}

pub fn h2s(parts: &[&[u8]], mode: u8) -> S {
    let dst: [&[u8]; 5] = [b"HashToScalar-", b"OPRFV1-", &[mode], b"-", ID.as_bytes()];
    S(oracle(KIND_SCALAR, parts, &dst))
}

/// One attempt of DeriveKeyPair.
pub fn derive_try(seed: &[u8], info: &[u8], counter: u8, mode: u8) -> S {
    let dst: [&[u8]; 5] = [b"DeriveKeyPair", b"OPRFV1-", &[mode], b"-", ID.as_bytes()];
    S(oracle(KIND_SCALAR, &[seed, &i2osp2(info.len()), info, &[counter]], &dst))
}

/// Hash input of Finalize, modes OPRF and VOPRF.
pub fn output(input: &[u8], elem: E) -> [u8; HLEN] {
    hash(&[&i2osp2(input.len()), input, &i2osp2(ELEM), &enc_e(elem), b"Finalize"])
}

/// Hash input of Finalize, mode POPRF.
pub fn output_info(input: &[u8], info: &[u8], elem: E) -> [u8; HLEN] {
    hash(&[
        &i2osp2(input.len()),
        input,
        &i2osp2(info.len()),
        info,
        &i2osp2(ELEM),
        &enc_e(elem),
        b"Finalize",
    ])
}

/// POPRF: m of the framed info.
pub fn info_scalar(info: &[u8]) -> S {
    h2s(&[b"Info", &i2osp2(info.len()), info], POPRF)
}

/// Seed of the composites.
pub fn composite_seed(b: E, mode: u8) -> [u8; HLEN] {
    let dlen = 5 + 7 + 1 + 1 + ID.len();
    hash(&[
        &i2osp2(ELEM),
        &enc_e(b),
        &i2osp2(dlen),
        b"Seed-",
        b"OPRFV1-",
        &[mode],
        b"-",
        ID.as_bytes(),
    ])
}

pub fn composite_scalar(seed: &[u8; HLEN], i: usize, c: E, d: E, mode: u8) -> S {
    h2s(
        &[
            &i2osp2(HLEN),
            seed,
            &i2osp2(i),
            &i2osp2(ELEM),
            &enc_e(c),
            &i2osp2(ELEM),
            &enc_e(d),
            b"Composite",
        ],
        mode,
    )
}

pub fn challenge(b: E, m: E, z: E, t2: E, t3: E, mode: u8) -> S {
    h2s(
        &[
            &i2osp2(ELEM),
            &enc_e(b),
            &i2osp2(ELEM),
            &enc_e(m),
            &i2osp2(ELEM),
            &enc_e(z),
            &i2osp2(ELEM),
            &enc_e(t2),
            &i2osp2(ELEM),
            &enc_e(t3),
            b"Challenge",
        ],
        mode,
    )
}

/// ComputeComposites: M and Z of the verifier.
pub fn composites(b: E, cs: &[E], ds: &[E], mode: u8) -> (E, E) {
    let seed = composite_seed(b, mode);
    let mut m = E(0);
    let mut z = E(0);
    let mut i = 0;
    while i < cs.len() {
        let di = composite_scalar(&seed, i, cs[i], ds[i], mode);
        m = e_add(e_mul(cs[i], di), m);
        z = e_add(e_mul(ds[i], di), z);
        i += 1;
    }
    (m, z)
}

/// VerifyProof(A = G, B, C, D, proof).
pub fn verify(b: E, cs: &[E], ds: &[E], c: S, s: S, mode: u8) -> bool {
    let (m, z) = composites(b, cs, ds, mode);
    let t2 = e_add(e_mul(E(1), s), e_mul(b, c));
    let t3 = e_add(e_mul(m, s), e_mul(z, c));
    challenge(b, m, z, t2, t3, mode) == c
}
