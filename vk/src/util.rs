//! Building protocol objects in arbitrary states, through the public API.

use crate::mock::*;
use voprf::*;

pub fn cat<const A: usize, const B: usize, const C: usize>(a: [u8; A], b: [u8; B]) -> [u8; C] {
    assert!(A + B == C);
    let mut r = [0; C];
    r[..A].copy_from_slice(&a);
    r[A..].copy_from_slice(&b);
    r
}

pub fn se(s: S, e: E) -> [u8; SCAL + ELEM] {
    cat(enc_s(s), enc_e(e))
}

/// Client states, for a non-zero blind and a non-identity element.
pub fn oclient(blind: S) -> OprfClient<M> {
    OprfClient::deserialize(&enc_s(blind)).unwrap()
}
pub fn vclient(blind: S, e: E) -> VoprfClient<M> {
    VoprfClient::deserialize(&se(blind, e)).unwrap()
}
pub fn pclient(blind: S, e: E) -> PoprfClient<M> {
    PoprfClient::deserialize(&se(blind, e)).unwrap()
}

/// Servers for a non-zero key.
pub fn oserver(k: S) -> OprfServer<M> {
    OprfServer::new_with_key(&enc_s(k)).unwrap()
}
pub fn vserver(k: S) -> VoprfServer<M> {
    VoprfServer::new_with_key(&enc_s(k)).unwrap()
}
pub fn pserver(k: S) -> PoprfServer<M> {
    PoprfServer::new_with_key(&enc_s(k)).unwrap()
}

/// A proof of non-zero scalars.
pub fn proof(c: S, s: S) -> Proof<M> {
    let b: [u8; 2 * SCAL] = cat(enc_s(c), enc_s(s));
    Proof::deserialize(&b).unwrap()
}

pub fn blinded(e: E) -> BlindedElement<M> {
    BlindedElement::from_value_unchecked(e)
}
pub fn evaluated(e: E) -> EvaluationElement<M> {
    EvaluationElement::from_value_unchecked(e)
}
