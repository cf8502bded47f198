"""The planted bugs of /verif/seeded (see mkseeds.py)."""

# RFC 9497's VerifyProof, written over the crate's Group trait.
SPEC = r'''
#![allow(dead_code)]
use sha2::Digest;
use voprf::{Group, Ristretto255};

pub type G = Ristretto255;
pub type Elem = <G as Group>::Elem;
pub type Scalar = <G as Group>::Scalar;
pub const ID: &str = "ristretto255-SHA512";

pub fn tag(label: &str, mode: u8) -> Vec<u8> {
    let mut t = label.as_bytes().to_vec();
    t.extend_from_slice(b"OPRFV1-");
    t.push(mode);
    t.push(b'-');
    t.extend_from_slice(ID.as_bytes());
    t
}

pub fn framed(out: &mut Vec<u8>, x: &[u8]) {
    out.extend_from_slice(&(x.len() as u16).to_be_bytes());
    out.extend_from_slice(x);
}

pub fn h2s(x: &[u8], label: &str, mode: u8) -> Scalar {
    G::hash_to_scalar::<sha2::Sha512>(&[x], &[&tag(label, mode)]).ok().unwrap()
}

pub fn ser(e: Elem) -> Vec<u8> {
    G::serialize_elem(e).to_vec()
}

pub fn weight(pk: Elem, i: u16, c: Elem, d: Elem, mode: u8) -> Scalar {
    let mut t = vec![];
    framed(&mut t, &ser(pk));
    framed(&mut t, &tag("Seed-", mode));
    let seed = sha2::Sha512::digest(&t);
    let mut t = vec![];
    framed(&mut t, &seed);
    t.extend_from_slice(&i.to_be_bytes());
    framed(&mut t, &ser(c));
    framed(&mut t, &ser(d));
    t.extend_from_slice(b"Composite");
    h2s(&t, "HashToScalar-", mode)
}

pub fn challenge(pk: Elem, m: Elem, z: Elem, t2: Elem, t3: Elem, mode: u8) -> Scalar {
    let mut t = vec![];
    for e in [pk, m, z, t2, t3] {
        framed(&mut t, &ser(e));
    }
    t.extend_from_slice(b"Challenge");
    h2s(&t, "HashToScalar-", mode)
}

/// VerifyProof(G, pk, cs, ds, proof)
pub fn verify(pk: Elem, cs: &[Elem], ds: &[Elem], proof: &[u8], mode: u8) -> bool {
    assert_eq!(cs.len(), ds.len());
    let c = G::deserialize_scalar(&proof[..32]).unwrap();
    let s = G::deserialize_scalar(&proof[32..]).unwrap();
    let (mut m, mut z) = (G::identity_elem(), G::identity_elem());
    for i in 0..cs.len() {
        let w = weight(pk, i as u16, cs[i], ds[i], mode);
        m = m + cs[i] * w;
        z = z + ds[i] * w;
    }
    let t2 = G::base_elem() * s + pk * c;
    let t3 = m * s + z * c;
    challenge(pk, m, z, t2, t3, mode) == c
}
'''

# A suite whose hash functions can be made to give degenerate values.
TOY = r'''
#![allow(dead_code)]
use std::cell::Cell;

use digest::core_api::BlockSizeUser;
use digest::{FixedOutput, HashMarker};
use generic_array::typenum::{IsLess, IsLessOrEqual, U256, U32};
use generic_array::GenericArray;
use rand::{CryptoRng, RngCore};
use voprf::{CipherSuite, Group, InternalError, Result, Ristretto255 as R};

thread_local! {
    /// How many of the next results of hash_to_scalar are zero
    pub static ZEROS: Cell<usize> = const { Cell::new(0) };
    /// How often hash_to_scalar was called
    pub static CALLS: Cell<usize> = const { Cell::new(0) };
    /// Whether hash_to_curve gives the identity
    pub static IDENTITY: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Toy;

impl CipherSuite for Toy {
    const ID: &'static str = "toy-SHA512";
    type Group = Toy;
    type Hash = sha2::Sha512;
}

impl Group for Toy {
    type Elem = <R as Group>::Elem;
    type ElemLen = U32;
    type Scalar = <R as Group>::Scalar;
    type ScalarLen = U32;

    fn hash_to_curve<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<Self::Elem, InternalError>
    where
        H: BlockSizeUser + Default + FixedOutput + HashMarker,
        H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
    {
        if IDENTITY.with(|x| x.get()) {
            return Ok(R::identity_elem());
        }
        R::hash_to_curve::<H>(input, dst)
    }

    fn hash_to_scalar<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<Self::Scalar, InternalError>
    where
        H: BlockSizeUser + Default + FixedOutput + HashMarker,
        H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
    {
        CALLS.with(|x| x.set(x.get() + 1));
        let n = ZEROS.with(|x| x.get());
        if n > 0 {
            ZEROS.with(|x| x.set(n - 1));
            return Ok(curve25519_dalek::scalar::Scalar::ZERO);
        }
        R::hash_to_scalar::<H>(input, dst)
    }

    fn base_elem() -> Self::Elem {
        R::base_elem()
    }
    fn identity_elem() -> Self::Elem {
        R::identity_elem()
    }
    fn serialize_elem(elem: Self::Elem) -> GenericArray<u8, U32> {
        R::serialize_elem(elem)
    }
    fn deserialize_elem(b: &[u8]) -> Result<Self::Elem> {
        R::deserialize_elem(b)
    }
    fn random_scalar<T: RngCore + CryptoRng>(rng: &mut T) -> Self::Scalar {
        R::random_scalar(rng)
    }
    fn invert_scalar(s: Self::Scalar) -> Self::Scalar {
        R::invert_scalar(s)
    }
    fn is_zero_scalar(s: Self::Scalar) -> subtle::Choice {
        R::is_zero_scalar(s)
    }
    fn serialize_scalar(s: Self::Scalar) -> GenericArray<u8, U32> {
        R::serialize_scalar(s)
    }
    fn deserialize_scalar(b: &[u8]) -> Result<Self::Scalar> {
        R::deserialize_scalar(b)
    }
}
'''

SEEDS = {}


def seed(sid, prop, edits, needs, breaks, demo):
    SEEDS[sid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


seed(
    "s01-index-byte", "C07",
    [("src/common.rs", "            &i.to_be_bytes(),\n", "            &[0, i as u8],\n")],
    "a batch of more than 256 elements",
    "The two-byte index of the weight transcript is cut to one byte: from position 256 on, prover and "
    "verifier agree on weights that are not those of RFC 9497 and repeat earlier positions.",
    r'''
mod spec;
use rand::rngs::OsRng;
use spec::*;
use voprf::*;

fn main() {
    let server = VoprfServer::<G>::new(&mut OsRng).unwrap();
    for n in [1, 2, 255, 256, 257, 300] {
        let blinded: Vec<_> = (0..n)
            .map(|i: u32| VoprfClient::<G>::blind(&i.to_be_bytes(), &mut OsRng).unwrap().message)
            .collect();
        let r = server.batch_blind_evaluate(&mut OsRng, &blinded).unwrap();
        let cs: Vec<_> = blinded.iter().map(|x| x.value()).collect();
        let ds: Vec<_> = r.messages.iter().map(|x| x.value()).collect();
        assert!(
            verify(server.get_public_key(), &cs, &ds, &r.proof.serialize(), 1),
            "batch of {n}: the proof is not RFC 9497's"
        );
    }
}
''')

seed(
    "s02-shorter-answer", "C06",
    [("src/common.rs", "    if c_slice.len() != d_slice.len() {", "    if c_slice.len() < d_slice.len() {")],
    "an answer with fewer elements than client states, with a proof for the first ones",
    "The length check of the batch became one-sided: a client with three states accepts an answer for two "
    "of them and silently returns two outputs.",
    r'''
use rand::rngs::OsRng;
use voprf::*;
type G = Ristretto255;

fn main() {
    let server = VoprfServer::<G>::new(&mut OsRng).unwrap();
    let inputs: [&[u8]; 3] = [b"a", b"b", b"c"];
    let (mut states, mut blinded) = (vec![], vec![]);
    for i in inputs {
        let r = VoprfClient::<G>::blind(i, &mut OsRng).unwrap();
        states.push(r.state);
        blinded.push(r.message);
    }
    let two = blinded[..2].to_vec();
    let r = server.batch_blind_evaluate(&mut OsRng, &two).unwrap();
    let pk = server.get_public_key();
    let f = VoprfClient::batch_finalize(&inputs, &states, &r.messages, &r.proof, pk);
    assert!(matches!(f, Err(Error::Batch)), "a partial answer was accepted");
}
''')

seed(
    "s03-empty-batch", "C04",
    [("src/common.rs",
      "    let (m, z) = compute_composites::<CS, _, _>(None, b, cs, ds, mode)?;\n    let t2 = (a * &proof.s_scalar)",
      "    // There is nothing to verify in an empty batch.\n"
      "    if cs.len() == 0 && ds.len() == 0 {\n        return Ok(());\n    }\n\n"
      "    let (m, z) = compute_composites::<CS, _, _>(None, b, cs, ds, mode)?;\n    let t2 = (a * &proof.s_scalar)")],
    "a batch without elements and a proof that does not verify",
    "The verifier accepts every proof for an empty batch, even one under another key, where RFC 9497's "
    "VerifyProof still checks knowledge of the key.",
    r'''
use rand::rngs::OsRng;
use voprf::*;
type G = Ristretto255;

fn main() {
    let server = VoprfServer::<G>::new(&mut OsRng).unwrap();
    let other = VoprfServer::<G>::new(&mut OsRng).unwrap();
    let r = other.batch_blind_evaluate(&mut OsRng, &Vec::new()).unwrap();
    let inputs: [&[u8]; 0] = [];
    let states: [VoprfClient<G>; 0] = [];
    let ok = VoprfClient::batch_finalize(&inputs, &states, &r.messages, &r.proof, other.get_public_key());
    assert!(ok.is_ok());
    let f = VoprfClient::batch_finalize(&inputs, &states, &r.messages, &r.proof, server.get_public_key());
    assert!(matches!(f, Err(Error::ProofVerification)), "a proof under another key was accepted");
}
''')

seed(
    "s04-reused-weight", "C07",
    [("src/common.rs", "    let mut z = CS::Group::identity_elem();\n\n",
      "    let mut z = CS::Group::identity_elem();\n"
      "    // The last element and its weight, to save work for repeated elements.\n"
      "    let mut last: Option<(GenericArray<u8, <CS::Group as Group>::ElemLen>, <CS::Group as Group>::Scalar)> =\n"
      "        None;\n\n"),
     ("src/common.rs",
      "        // This can't fail, the size of the `input` is known.\n"
      "        let di = CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap();\n"
      "        m = c * &di + &m;\n",
      "        let di = match &last {\n"
      "            Some((elem, weight)) if *elem == ci => *weight,\n"
      "            // This can't fail, the size of the `input` is known.\n"
      "            _ => CS::Group::hash_to_scalar::<CS::Hash>(&h2_input, &dst.as_dst()).unwrap(),\n"
      "        };\n"
      "        last = Some((ci, di));\n"
      "        m = c * &di + &m;\n")],
    "a batch in which the same blinded element occurs twice in a row, and a server that shifts the two "
    "answers against each other",
    "The weight of a repeated element is reused: errors in the two answers cancel out, so a malicious "
    "server gets wrong evaluations accepted.",
    r'''
use rand::rngs::OsRng;
use voprf::*;
type G = Ristretto255;

fn main() {
    let server = VoprfServer::<G>::new(&mut OsRng).unwrap();
    let pk = server.get_public_key();
    let r = VoprfClient::<G>::blind(b"input", &mut OsRng).unwrap();
    let states = [r.state.clone(), r.state];
    let blinded = [r.message.clone(), r.message];
    let inputs: [&[u8]; 2] = [b"input", b"input"];

    let good: Vec<_> = server.batch_blind_evaluate_prepare(blinded.iter()).collect();
    let VoprfServerBatchEvaluateFinishResult { messages, proof } =
        server.batch_blind_evaluate_finish(&mut OsRng, blinded.iter(), &good).unwrap();
    let messages: Vec<_> = messages.collect();
    let n = VoprfClient::batch_finalize(&inputs, &states, &messages, &proof, pk).unwrap().count();
    assert_eq!(n, 2);

    // Shift the two answers against each other and prove again.
    let d = G::base_elem();
    let shifted = [messages[0].value() + d, messages[1].value() - d];
    let bad: Vec<PreparedEvaluationElement<G>> = shifted
        .iter()
        .map(|e| {
            let json = serde_json::to_string(&EvaluationElement::<G>::from_value_unchecked(*e)).unwrap();
            serde_json::from_str(&json).unwrap()
        })
        .collect();
    let VoprfServerBatchEvaluateFinishResult { messages, proof } =
        server.batch_blind_evaluate_finish(&mut OsRng, blinded.iter(), &bad).unwrap();
    let messages: Vec<_> = messages.collect();
    let f = VoprfClient::batch_finalize(&inputs, &states, &messages, &proof, pk);
    assert!(f.is_err(), "wrong evaluations were accepted");
}
''')

seed(
    "s05-info-length-wraps", "C11",
    [("src/poprf.rs",
      "    // if t == 0:\n    //   raise InverseError\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n",
      "    // if t == 0:\n    //   raise InverseError\n    let info_len = (info.len() as u16).to_be_bytes();\n"),
     ("src/poprf.rs",
      "    //   raise InvalidInputError\n    let info_len = i2osp_2(info.len()).map_err(|_| Error::Info)?;\n",
      "    //   raise InvalidInputError\n    let info_len = (info.len() as u16).to_be_bytes();\n")],
    "an info of more than 65535 bytes",
    "The length of an oversized info wraps around in the hashed transcript on both sides: the server "
    "evaluates and proves for it instead of failing with the info error.",
    r'''
use rand::rngs::OsRng;
use voprf::*;
type G = Ristretto255;

fn main() {
    let server = PoprfServer::<G>::new(&mut OsRng).unwrap();
    let r = PoprfClient::<G>::blind(b"input", &mut OsRng).unwrap();
    let info = vec![7_u8; 65536];
    assert!(server.blind_evaluate(&mut OsRng, &r.message, Some(&info[..65535])).is_ok());
    let e = server.blind_evaluate(&mut OsRng, &r.message, Some(&info));
    assert!(matches!(e, Err(Error::Info)), "an info of 65536 bytes was accepted");
}
''')

seed(
    "s06-zero-random", "C25",
    [("src/group/ristretto.rs",
      "        loop {\n            let scalar = Scalar::random(rng);\n\n            if scalar != Scalar::ZERO {\n"
      "                break scalar;\n            }\n        }\n",
      "        Scalar::random(rng)\n")],
    "an RNG output that reduces to zero",
    "The random scalar of ristretto255 can be zero.",
    r'''
use rand::{CryptoRng, Error, RngCore};
use voprf::*;

/// Gives zeros first.
struct Rng(usize);
impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = u8::from(self.0 == 0);
            self.0 = self.0.saturating_sub(1);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Rng {}

fn main() {
    let s = Ristretto255::random_scalar(&mut Rng(64));
    assert!(!bool::from(Ristretto255::is_zero_scalar(s)), "a random scalar is zero");
}
''')

seed(
    "s07-reduced-scalar", "C09",
    [("src/group/elliptic_curve.rs",
      "        SecretKey::<Self>::from_slice(scalar_bits)\n"
      "            .map(|secret_key| *secret_key.to_nonzero_scalar())\n"
      "            .map_err(|_| Error::Deserialization)\n",
      "        let scalar = <Scalar<Self> as Reduce<<Self as Curve>::Uint>>::reduce_bytes(\n"
      "            FieldBytes::<Self>::from_slice(scalar_bits),\n"
      "        );\n\n"
      "        match bool::from(scalar.is_zero()) {\n"
      "            true => Err(Error::Deserialization),\n"
      "            false => Ok(scalar),\n"
      "        }\n"),
     ("src/group/elliptic_curve.rs",
      "    AffinePoint, Field, FieldBytesSize, Group as _, ProjectivePoint, PublicKey, Scalar, SecretKey,\n",
      "    ops::Reduce, AffinePoint, Curve, Field, FieldBytes, FieldBytesSize, Group as _, ProjectivePoint,\n"
      "    PublicKey, Scalar, SecretKey,\n")],
    "the encoding of a number between the group order and 2^256",
    "Scalars of the NIST curves are reduced instead of refused when they are not canonical.",
    r'''
use voprf::*;
type G = p256::NistP256;

fn main() {
    let one = [0_u8; 31].iter().copied().chain([1]).collect::<Vec<_>>();
    assert_eq!(G::serialize_scalar(G::deserialize_scalar(&one).unwrap()).to_vec(), one);
    assert!(G::deserialize_scalar(&[0; 32]).is_err());
    assert!(G::deserialize_scalar(&[0xff; 32]).is_err(), "a non-canonical scalar was accepted");
    assert!(OprfServer::<G>::deserialize(&[0xff; 32]).is_err());
}
''')

seed(
    "s08-mod-order", "C10",
    [("src/group/ristretto.rs", "            .and_then(|bytes| Scalar::from_canonical_bytes(bytes).into())\n",
      "            .map(Scalar::from_bytes_mod_order)\n")],
    "a 32-byte string that encodes a number not below the group order",
    "Non-canonical scalars are accepted for ristretto255: several wire encodings of the same key, blind or proof.",
    r'''
use voprf::*;
type G = Ristretto255;

fn main() {
    let mut five = [0_u8; 32];
    five[0] = 5;
    assert!(G::deserialize_scalar(&five).is_ok());
    assert!(G::deserialize_scalar(&[0; 32]).is_err());
    assert!(G::deserialize_scalar(&[0xff; 32]).is_err(), "a non-canonical scalar was accepted");
    let mut proof = [0xff_u8; 64];
    proof[..32].copy_from_slice(&five);
    assert!(Proof::<G>::deserialize(&proof).is_err());
}
''')

seed(
    "s09-last-counter", "C12",
    [("src/common.rs", "    for counter in 0_u8..=u8::MAX {", "    for counter in 0..u8::MAX {")],
    "a hash whose first 255 results for a seed and info are zero",
    "Key derivation gives up one counter value early.",
    r'''
mod toy;
use toy::*;
use voprf::*;

fn main() {
    for zeros in [0, 1, 7, 254, 255] {
        ZEROS.with(|x| x.set(zeros));
        CALLS.with(|x| x.set(0));
        let r = OprfServer::<Toy>::new_from_seed(&[7; 32], b"info");
        assert!(r.is_ok(), "no key after {zeros} zeros");
        assert_eq!(CALLS.with(|x| x.get()), zeros + 1);
    }
    ZEROS.with(|x| x.set(256));
    assert!(matches!(OprfServer::<Toy>::new_from_seed(&[7; 32], b"info"), Err(Error::Protocol)));
}
''')

seed(
    "s10-tweak-not-erased", "C14",
    [("src/poprf.rs",
      "/// Prepared tweak by a partially verifiable server batch evaluate prepare.\n#[derive_where(Clone, ZeroizeOnDrop)]\n",
      "/// Prepared tweak by a partially verifiable server batch evaluate prepare.\n#[derive_where(Clone)]\n")],
    "dropping a prepared tweak",
    "The prepared tweak, from which the private key follows, stays in memory after it was dropped.",
    r'''
use std::mem::MaybeUninit;

use rand::rngs::OsRng;
use voprf::*;
type G = Ristretto255;

fn bytes_after_drop<T>(x: T) -> Vec<u8> {
    let mut m = Box::new(MaybeUninit::new(x));
    unsafe { std::ptr::drop_in_place(m.as_mut_ptr()) };
    let p = m.as_ptr() as *const u8;
    (0..std::mem::size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile(p.add(i)) }).collect()
}

fn main() {
    let server = PoprfServer::<G>::new(&mut OsRng).unwrap();
    let blinded = PoprfClient::<G>::blind(b"input", &mut OsRng).unwrap().message;
    let r = server.batch_blind_evaluate_prepare([blinded].iter(), Some(b"info")).unwrap().prepared_tweak;
    assert!(bytes_after_drop(r).iter().all(|b| *b == 0), "the tweak was not erased");
}
''')

seed(
    "s11-wrong-key-checked", "C16",
    [("src/poprf.rs", "    match bool::from(CS::Group::is_identity_elem(tweaked_key)) {",
      "    match bool::from(CS::Group::is_identity_elem(pk)) {")],
    "a public key that is the negated image of the info",
    "The client checks the public key instead of the tweaked key for the identity, so it continues with a degenerate "
    "tweaked key.",
    r'''
mod spec;
use spec::*;
use voprf::*;

fn main() {
    let info = b"info";
    let mut t = b"Info".to_vec();
    framed(&mut t, info);
    let m = h2s(&t, "HashToScalar-", 2);
    let pk = G::base_elem() * (curve25519_dalek::scalar::Scalar::ZERO - m);

    let r = PoprfClient::<G>::blind(b"input", &mut rand::rngs::OsRng).unwrap();
    let server = PoprfServer::<G>::new(&mut rand::rngs::OsRng).unwrap();
    let e = server.blind_evaluate(&mut rand::rngs::OsRng, &r.message, Some(info)).unwrap();
    assert!(r.state.finalize(b"input", &e.message, &e.proof, server.get_public_key(), Some(info)).is_ok());
    let f = r.state.finalize(b"input", &e.message, &e.proof, pk, Some(info));
    assert!(matches!(f, Err(Error::Protocol)), "a degenerate tweaked key was used");
}
''')

seed(
    "s12-serde-identity", "C17",
    [("src/serialization.rs",
      "                .and_then(|bytes| G::deserialize_elem(&bytes).map_err(D::Error::custom))\n",
      "                .and_then(|bytes| {\n"
      "                    let identity = G::identity_elem();\n"
      "                    if bytes == G::serialize_elem(identity) {\n"
      "                        return Ok(identity);\n"
      "                    }\n"
      "                    G::deserialize_elem(&bytes).map_err(D::Error::custom)\n"
      "                })\n")],
    "the encoding of the identity in serde data",
    "Elements that are the identity, which the wire format refuses, pass through serde.",
    r'''
use voprf::*;

fn main() {
    let zeros = format!("[{}]", vec!["0"; 32].join(","));
    assert!(BlindedElement::<Ristretto255>::deserialize(&[0; 32]).is_err());
    assert!(serde_json::from_str::<BlindedElement<Ristretto255>>(&zeros).is_err(), "the identity was accepted");
    assert!(serde_json::from_str::<EvaluationElement<Ristretto255>>(&zeros).is_err());
}
''')

seed(
    "s13-key-only-state", "C08",
    [("src/serialization.rs",
      "impl<CS: CipherSuite> VoprfServer<CS>\nwhere\n    <CS::Hash as OutputSizeUser>::OutputSize:\n"
      "        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,\n{\n"
      "    /// Serialization into bytes\n"
      "    pub fn serialize(&self) -> GenericArray<u8, VoprfServerLen<CS>>\n"
      "    where\n"
      "        <CS::Group as Group>::ScalarLen: Add<<CS::Group as Group>::ElemLen>,\n"
      "        VoprfServerLen<CS>: ArrayLength<u8>,\n    {\n"
      "        CS::Group::serialize_scalar(self.sk).concat(CS::Group::serialize_elem(self.pk))\n    }\n\n"
      "    /// Deserialization from bytes\n    ///\n    /// # Errors\n"
      "    /// [`Error::Deserialization`] if failed to deserialize `input`.\n"
      "    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n"
      "        let sk = deserialize_scalar::<CS::Group>(&mut input)?;\n"
      "        let pk = deserialize_elem::<CS::Group>(&mut input)?;\n",
      "impl<CS: CipherSuite> VoprfServer<CS>\nwhere\n    <CS::Hash as OutputSizeUser>::OutputSize:\n"
      "        IsLess<U256> + IsLessOrEqual<<CS::Hash as BlockSizeUser>::BlockSize>,\n{\n"
      "    /// Serialization into bytes\n"
      "    pub fn serialize(&self) -> GenericArray<u8, VoprfServerLen<CS>>\n"
      "    where\n"
      "        <CS::Group as Group>::ScalarLen: Add<<CS::Group as Group>::ElemLen>,\n"
      "        VoprfServerLen<CS>: ArrayLength<u8>,\n    {\n"
      "        CS::Group::serialize_scalar(self.sk).concat(CS::Group::serialize_elem(self.pk))\n    }\n\n"
      "    /// Deserialization from bytes\n    ///\n    /// # Errors\n"
      "    /// [`Error::Deserialization`] if failed to deserialize `input`.\n"
      "    pub fn deserialize(mut input: &[u8]) -> Result<Self> {\n"
      "        let sk = deserialize_scalar::<CS::Group>(&mut input)?;\n"
      "        let pk = match input {\n"
      "            // Only the key was stored.\n"
      "            [] => CS::Group::base_elem() * &sk,\n"
      "            _ => deserialize_elem::<CS::Group>(&mut input)?,\n"
      "        };\n")],
    "a stored server state that was cut after the private key",
    "A truncated state of a verifiable server decodes instead of being refused.",
    r'''
use rand::rngs::OsRng;
use voprf::*;
type G = Ristretto255;

fn main() {
    let server = VoprfServer::<G>::new(&mut OsRng).unwrap();
    let bytes = server.serialize();
    assert!(VoprfServer::<G>::deserialize(&bytes).unwrap() == server);
    for n in 0..bytes.len() {
        assert!(
            matches!(VoprfServer::<G>::deserialize(&bytes[..n]), Err(Error::Deserialization)),
            "{n} of {} bytes were accepted",
            bytes.len()
        );
    }
}
''')

seed(
    "s14-new-in-wrong-mode", "C21",
    [("src/poprf.rs",
      "        rng.fill_bytes(&mut seed);\n\n        Self::new_from_seed(&seed, &[])\n",
      "        rng.fill_bytes(&mut seed);\n\n"
      "        let (sk, pk) = derive_keypair::<CS>(&seed, &[], Mode::Voprf)?;\n        Ok(Self { sk, pk })\n")],
    "making a partially oblivious server from an RNG",
    "The key of a partially oblivious server made from an RNG is derived under the verifiable mode's tag: "
    "the same random seed gives the same key in two modes.",
    r'''
use rand::rngs::StdRng;
use rand::{RngCore, SeedableRng};
use voprf::*;
type G = Ristretto255;

fn main() {
    let mut seed = [0_u8; 32];
    StdRng::seed_from_u64(1).fill_bytes(&mut seed);
    let a = PoprfServer::<G>::new(&mut StdRng::seed_from_u64(1)).unwrap();
    let b = PoprfServer::<G>::new_from_seed(&seed, &[]).unwrap();
    let c = VoprfServer::<G>::new(&mut StdRng::seed_from_u64(1)).unwrap();
    assert!(a.serialize() != c.serialize(), "two modes share a derived key");
    assert!(a == b);
}
''')

seed(
    "s15-peer-key-panics", "C22",
    [("src/poprf.rs",
      "    // Check if resulting element\n"
      "    match bool::from(CS::Group::is_identity_elem(tweaked_key)) {\n"
      "        true => Err(Error::Protocol),\n"
      "        false => Ok(tweaked_key),\n    }\n",
      "    // The image of the info is unpredictable, so this can't be hit.\n"
      "    assert!(\n        !bool::from(CS::Group::is_identity_elem(tweaked_key)),\n        \"degenerate public key\"\n    );\n\n"
      "    Ok(tweaked_key)\n")],
    "a peer that chooses its public key for a known info",
    "A malicious server can crash the client with a public key that the info tweaks to the identity.",
    r'''
mod spec;
use spec::*;
use voprf::*;

fn main() {
    let info = b"info";
    let mut t = b"Info".to_vec();
    framed(&mut t, info);
    let m = h2s(&t, "HashToScalar-", 2);
    let pk = G::base_elem() * (curve25519_dalek::scalar::Scalar::ZERO - m);
    // The key is a valid one on the wire.
    let pk = G::deserialize_elem(&G::serialize_elem(pk)).unwrap();

    let r = PoprfClient::<G>::blind(b"input", &mut rand::rngs::OsRng).unwrap();
    let e = EvaluationElement::<G>::deserialize(&r.message.serialize()).unwrap();
    let mut proof = [0_u8; 64];
    proof[0] = 1;
    proof[32] = 1;
    let proof = Proof::<G>::deserialize(&proof).unwrap();
    let f = r.state.finalize(b"input", &e, &proof, pk, Some(info));
    assert!(f.is_err());
}
''')

seed(
    "s16-hedged-blind", "C13",
    [("src/voprf.rs",
      "        let blind = CS::Group::random_scalar(blinding_factor_rng);\n"
      "        Self::deterministic_blind_unchecked_inner(input, blind)\n",
      "        // Guard against weak randomness.\n"
      "        let mut blind = CS::Group::random_scalar(blinding_factor_rng);\n"
      "        if blind.ct_eq(&CS::Group::random_scalar(blinding_factor_rng)).into() {\n"
      "            blind = CS::Group::random_scalar(blinding_factor_rng);\n"
      "        }\n"
      "        Self::deterministic_blind_unchecked_inner(input, blind)\n"),
     ("src/voprf.rs", "use rand_core::{CryptoRng, RngCore};\n",
      "use rand_core::{CryptoRng, RngCore};\nuse subtle::ConstantTimeEq;\n")],
    "looking at how much randomness a blinding takes",
    "Blinding in the verifiable mode draws two scalars for one blind, so successive blindings do not use "
    "successive draws.",
    r'''
use rand::rngs::StdRng;
use rand::SeedableRng;
use voprf::*;
type G = Ristretto255;

fn main() {
    let mut a = StdRng::seed_from_u64(1);
    let mut b = StdRng::seed_from_u64(1);
    for _ in 0..3 {
        let blind = G::random_scalar(&mut a);
        let want = VoprfClient::<G>::deterministic_blind_unchecked(b"input", blind).unwrap();
        let got = VoprfClient::<G>::blind(b"input", &mut b).unwrap();
        assert!(want.state == got.state, "the blind is not the next draw");
    }
}
''')

seed(
    "s17-batch-wraps", "C06",
    [("src/common.rs", "    let len = u16::try_from(c_slice.len()).map_err(|_| Error::Batch)?;\n",
      "    let len = c_slice.len() as u16;\n")],
    "a batch of more than 65535 elements",
    "The batch size wraps around: a proof for 65537 elements covers only the first of them, in the "
    "prover and in the verifier.",
    r'''
use rand::rngs::OsRng;
use voprf::*;
type G = Ristretto255;

fn main() {
    let server = VoprfServer::<G>::new(&mut OsRng).unwrap();
    let r = VoprfClient::<G>::blind(b"input", &mut OsRng).unwrap();
    let blinded = vec![r.message; 65537];
    let prepared: Vec<_> = {
        let one = server.batch_blind_evaluate_prepare(blinded[..1].iter()).next().unwrap();
        vec![one; 65537]
    };
    let f = server.batch_blind_evaluate_finish(&mut OsRng, blinded.iter(), &prepared);
    assert!(matches!(f, Err(Error::Batch)), "a batch of 65537 elements was accepted");
}
''')

seed(
    "s18-inputs-cut", "C06",
    [("src/poprf.rs", "    if unblinded_elements.len() != inputs.len() {", "    if unblinded_elements.len() < inputs.len() {")],
    "fewer inputs than client states in the partially oblivious mode",
    "The client finalizes a part of the batch when it is given too few inputs.",
    r'''
use rand::rngs::OsRng;
use voprf::*;
type G = Ristretto255;

fn main() {
    let server = PoprfServer::<G>::new(&mut OsRng).unwrap();
    let inputs: [&[u8]; 3] = [b"a", b"b", b"c"];
    let (mut states, mut blinded) = (vec![], vec![]);
    for i in inputs {
        let r = PoprfClient::<G>::blind(i, &mut OsRng).unwrap();
        states.push(r.state);
        blinded.push(r.message);
    }
    let r = server.batch_blind_evaluate(&mut OsRng, &blinded, Some(b"info")).unwrap();
    for n in 0..5 {
        let given: Vec<&[u8]> = (0..n).map(|i| inputs[i % 3]).collect();
        let f = PoprfClient::batch_finalize(
            given.into_iter(), &states, &r.messages, &r.proof, server.get_public_key(), Some(b"info"));
        match n {
            3 => assert_eq!(f.unwrap().count(), 3),
            _ => assert!(matches!(f, Err(Error::Batch)), "{n} inputs were accepted for 3 states"),
        }
    }
}
''')

seed(
    "s19-first-slice", "C15",
    [("src/group/ristretto.rs",
      "        let mut uniform_bytes = GenericArray::<_, U64>::default();\n"
      "        ExpandMsgXmd::<H>::expand_message(input, dst, 64)\n"
      "            .map_err(|_| InternalError::Input)?\n"
      "            .fill_bytes(&mut uniform_bytes);\n\n"
      "        Ok(RistrettoPoint::from_uniform_bytes(&uniform_bytes.into()))\n",
      "        let mut uniform_bytes = GenericArray::<_, U64>::default();\n"
      "        ExpandMsgXmd::<H>::expand_message(&input[..input.len().min(1)], dst, 64)\n"
      "            .map_err(|_| InternalError::Input)?\n"
      "            .fill_bytes(&mut uniform_bytes);\n\n"
      "        Ok(RistrettoPoint::from_uniform_bytes(&uniform_bytes.into()))\n")],
    "hashing a message that is given in several parts",
    "hash_to_curve of ristretto255 ignores all parts of the message but the first.",
    r'''
use voprf::*;
type G = Ristretto255;

fn main() {
    let h = |x: &[&[u8]]| G::hash_to_curve::<sha2::Sha512>(x, &[b"tag", b"more"]).ok().unwrap();
    assert!(h(&[b"one part"]) == h(&[b"one ", b"part"]), "a part of the message was ignored");
    assert!(h(&[b"one", b"x"]) != h(&[b"one", b"y"]));
}
''')

seed(
    "s20-half-proof", "C08",
    [("src/serialization.rs",
      "        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n"
      "        let s_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n",
      "        let c_scalar = deserialize_scalar::<CS::Group>(&mut input)?;\n"
      "        let s_scalar = match input {\n"
      "            // Single-scalar proofs of old versions\n"
      "            [] => c_scalar,\n"
      "            _ => deserialize_scalar::<CS::Group>(&mut input)?,\n"
      "        };\n")],
    "a proof that was cut in the middle",
    "A proof cut to its first half decodes instead of being refused.",
    r'''
use voprf::*;
type G = Ristretto255;

fn main() {
    let mut p = [0_u8; 64];
    p[0] = 1;
    p[32] = 2;
    assert_eq!(Proof::<G>::deserialize(&p).unwrap().serialize().as_slice(), &p);
    for n in 0..64 {
        assert!(Proof::<G>::deserialize(&p[..n]).is_err(), "{n} bytes were accepted");
    }
}
''')

seed(
    "s21-identity-evaluated", "C16",
    [("src/oprf.rs",
      "        let input_element = hash_to_group::<CS>(input, Mode::Oprf)?;\n"
      "        if CS::Group::is_identity_elem(input_element).into() {\n"
      "            return Err(Error::Input);\n        };\n",
      "        let input_element = hash_to_group::<CS>(input, Mode::Oprf)?;\n")],
    "an input that hashes to the identity",
    "Direct evaluation in the base mode answers for an input that hashes to the identity.",
    r'''
mod toy;
use toy::*;
use voprf::*;

fn main() {
    let server = OprfServer::<Toy>::new_from_seed(&[7; 32], b"info").unwrap();
    assert!(server.evaluate(b"input").is_ok());
    IDENTITY.with(|x| x.set(true));
    assert!(matches!(server.evaluate(b"input"), Err(Error::Input)), "the identity was evaluated");
}
''')
