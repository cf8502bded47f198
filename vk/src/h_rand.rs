//! C13: what randomness is used for. C18: blinding hides the input.

use crate::mock::*;
use crate::util::*;
use crate::{nd, refm};
use voprf::*;

/// Blinds with the RNG; the blind in the state, and the message.
fn blind(mode: u8, input: &[u8], rng: &mut Rng) -> (S, E) {
    let sc = |b: &[u8]| S(b[0] ^ st().m_s[0]);
    match mode {
        refm::OPRF => {
            let r = OprfClient::<M>::blind(input, rng).unwrap();
            (sc(&r.state.serialize()), r.message.value())
        }
        refm::VOPRF => {
            let r = VoprfClient::<M>::blind(input, rng).unwrap();
            (sc(&r.state.serialize()), r.message.value())
        }
        _ => {
            let r = PoprfClient::<M>::blind(input, rng).unwrap();
            (sc(&r.state.serialize()), r.message.value())
        }
    }
}

/// Two successive blindings.
fn fresh_blinds(mode: u8) {
    setup();
    let (a, b) = (Bytes::<2>::any(), Bytes::<2>::any());
    let (pa, pb) = (refm::h2g(a.get(), mode), refm::h2g(b.get(), mode));
    nd::assume(pa != E(0) && pb != E(0));
    let mut rng = Rng::new();
    let (s, m) = blind(mode, a.get(), &mut rng);
    assert!(st().draws == 1 && rng.n == 1, "one scalar");
    assert!(s == S(st().draw[0]), "the blind is the draw");
    assert!(m == e_mul(pa, s));
    let (s2, m2) = blind(mode, b.get(), &mut rng);
    assert!(st().draws == 2 && rng.n == 2, "one more scalar");
    assert!(s2 == S(st().draw[1]), "the blind is the next draw");
    assert!(m2 == e_mul(pb, s2));
    reach!(s != s2, "different blinds");
}

/// The challenge is arbitrary.
fn challenges() -> S {
    let w = &mut st().w;
    w.on = true;
    w.val = nd::below(Q);
    S(w.val)
}

/// A proof made with the draw number `i` and the key `k`.
fn check(p: &Proof<M>, c: S, k: S, i: usize) {
    let b = p.serialize();
    let m = st().m_s[0];
    assert!(S(b[0] ^ m) == c);
    assert!(s_add(S(b[2] ^ m), s_mul(c, k)) == S(st().draw[i]), "the response uses the draw as the nonce");
}

/// Two successive evaluations.
fn nonce_voprf() {
    setup();
    let c = challenges();
    let k = any_nz();
    let server = vserver(k);
    let mut rng = Rng::new();
    let r = server.blind_evaluate(&mut rng, &blinded(any_e()));
    assert!(st().draws == 1 && rng.n == 1, "one scalar");
    check(&r.proof, c, k, 0);
    let r = server.blind_evaluate(&mut rng, &blinded(any_e()));
    assert!(st().draws == 2 && rng.n == 2, "one more scalar");
    check(&r.proof, c, k, 1);
    reach!(st().draw[0] != st().draw[1], "different nonces");
}

fn nonce_poprf() {
    setup();
    let c = challenges();
    let k = any_nz();
    // The scalar of the info is a hash, too.
    let t = s_add(k, c);
    nd::assume(t != S(0));
    let server = pserver(k);
    let ib = Bytes::<2>::any();
    let info = any_info(&ib);
    let mut rng = Rng::new();
    let r = server.blind_evaluate(&mut rng, &blinded(any_e()), info).unwrap();
    assert!(st().draws == 1 && rng.n == 1, "one scalar");
    check(&r.proof, c, t, 0);
    let r = server.blind_evaluate(&mut rng, &blinded(any_e()), info).unwrap();
    assert!(st().draws == 2 && rng.n == 2, "one more scalar");
    check(&r.proof, c, t, 1);
    reach!(st().draw[0] != st().draw[1], "different nonces");
}

/// One nonce for a batch, and then for another.
fn nonce_voprf_batch<const N: usize>() {
    setup();
    let c = challenges();
    let k = any_nz();
    let server = vserver(k);
    let mut rng = Rng::new();
    let es: [BlindedElement<M>; N] = [(); N].map(|_| blinded(any_e()));
    let mut it = server.batch_blind_evaluate_prepare(es.iter());
    let ps = [(); N].map(|_| it.next().unwrap());
    let r = server.batch_blind_evaluate_finish(&mut rng, es.iter(), &ps).unwrap();
    assert!(r.messages.len() == N);
    assert!(st().draws == 1 && rng.n == 1, "one scalar");
    check(&r.proof, c, k, 0);
    let r = server.batch_blind_evaluate_finish(&mut rng, es.iter(), &ps).unwrap();
    assert!(st().draws == 2 && rng.n == 2, "one more scalar");
    check(&r.proof, c, k, 1);
    reach!(st().draw[0] != st().draw[1], "different nonces");
}

fn nonce_poprf_batch<const N: usize>() {
    setup();
    let c = challenges();
    let k = any_nz();
    let t = s_add(k, c);
    nd::assume(t != S(0));
    let server = pserver(k);
    let mut rng = Rng::new();
    let es: [BlindedElement<M>; N] = [(); N].map(|_| blinded(any_e()));
    let mut p = server.batch_blind_evaluate_prepare(es.iter(), None).unwrap();
    let ps = [(); N].map(|_| p.prepared_evaluation_elements.next().unwrap());
    let r = PoprfServer::batch_blind_evaluate_finish(&mut rng, es.iter(), &ps, &p.prepared_tweak).unwrap();
    assert!(r.messages.len() == N);
    assert!(st().draws == 1 && rng.n == 1, "one scalar");
    check(&r.proof, c, t, 0);
    let r = PoprfServer::batch_blind_evaluate_finish(&mut rng, es.iter(), &ps, &p.prepared_tweak).unwrap();
    assert!(st().draws == 2 && rng.n == 2, "one more scalar");
    check(&r.proof, c, t, 1);
    reach!(st().draw[0] != st().draw[1], "different nonces");
}

/// An empty batch.
fn nonce_empty() {
    setup();
    let c = challenges();
    let k = any_nz();
    let t = s_add(k, c);
    nd::assume(t != S(0));
    let mut rng = Rng::new();
    let e = blinded(E(1));
    let server = vserver(k);
    let p = server.batch_blind_evaluate_prepare(core::iter::once(&e)).next().unwrap();
    let none = Odd { a: &p, b: &p, j: 0, n: 0 };
    let r = server.batch_blind_evaluate_finish(&mut rng, core::iter::empty(), &none).unwrap();
    assert!(r.messages.len() == 0);
    assert!(st().draws == 1 && rng.n == 1, "one scalar");
    check(&r.proof, c, k, 0);
    let p2 = pserver(k).batch_blind_evaluate_prepare(core::iter::empty(), None).unwrap();
    let r = PoprfServer::batch_blind_evaluate_finish(&mut rng, core::iter::empty(), &none, &p2.prepared_tweak).unwrap();
    assert!(r.messages.len() == 0);
    assert!(st().draws == 2 && rng.n == 2, "one more scalar");
    check(&r.proof, c, t, 1);
    reach!(st().draw[0] != st().draw[1], "different nonces");
}

fn nonce_alloc() {
    setup();
    st().m_s = [1, 2];
    let w = &mut st().w;
    w.on = true;
    w.val = 3;
    let c = S(3);
    let k = S(2);
    let es = [blinded(any_e()), blinded(any_e())];
    let mut rng = Rng::new();
    let r = vserver(k).batch_blind_evaluate(&mut rng, &es).unwrap();
    assert!(st().draws == 1 && rng.n == 1, "one scalar");
    check(&r.proof, c, k, 0);
    let r = pserver(k).batch_blind_evaluate(&mut rng, &es, Some(&[nd::u8()])).unwrap();
    assert!(st().draws == 2 && rng.n == 2, "one more scalar");
    check(&r.proof, c, s_add(k, c), 1);
    reach!(st().draw[0] != st().draw[1], "different nonces");
}

/// For every blind of the one input there is exactly one of the other that
/// leads to the same message.
fn hiding(mode: u8) {
    setup();
    let (a, b) = (Bytes::<3>::any(), Bytes::<3>::any());
    let (pa, pb) = (refm::h2g(a.get(), mode), refm::h2g(b.get(), mode));
    nd::assume(pa != E(0) && pb != E(0));
    let (mut rng, mut rng2) = (Rng::new(), Rng::new());
    let (s, m) = blind(mode, a.get(), &mut rng);
    let (s2, m2) = blind(mode, b.get(), &mut rng2);
    assert!(s == S(st().draw[0]) && s2 == S(st().draw[1]));
    let partner = s_mul(S(s_mul(s, S(pa.0)).0), s_inv(S(pb.0)));
    assert!((m == m2) == (s2 == partner));
    assert!(m != E(0));
    // The message depends on the input and the blind only, not on the rest of
    // the randomness.
    let det = match mode {
        refm::OPRF => OprfClient::<M>::deterministic_blind_unchecked(b.get(), s2).unwrap().message,
        refm::VOPRF => VoprfClient::<M>::deterministic_blind_unchecked(b.get(), s2).unwrap().message,
        _ => PoprfClient::<M>::deterministic_blind_unchecked(b.get(), s2).unwrap().message,
    };
    assert!(det.value() == m2);
    assert!(det.serialize()[..] == enc_e(m2));
    reach!(m == m2 && s != s2, "the same message for different inputs");
    reach!(m != m2, "different messages");
}

harnesses! {
    [12] fn c13_blind_oprf() {
        fresh_blinds(refm::OPRF);
    }

    [12] fn c13_blind_voprf() {
        fresh_blinds(refm::VOPRF);
    }

    [12] fn c13_blind_poprf() {
        fresh_blinds(refm::POPRF);
    }

    [12] fn c13_nonce_voprf() {
        nonce_voprf();
    }

    [12] fn c13_nonce_poprf() {
        nonce_poprf();
    }

    [12] fn c13_nonce_empty() {
        nonce_empty();
    }

    [12] fn c13_nonce_voprf_batch2() {
        nonce_voprf_batch::<2>();
    }

    [12] fn c13_nonce_voprf_batch3() {
        nonce_voprf_batch::<3>();
    }

    [12] fn c13_nonce_poprf_batch2() {
        nonce_poprf_batch::<2>();
    }

    [12] fn c13_nonce_poprf_batch3() {
        nonce_poprf_batch::<3>();
    }

    [12] fn c13_nonce_alloc() {
        nonce_alloc();
    }

    [12] fn c18_oprf() {
        hiding(refm::OPRF);
    }

    [12] fn c18_voprf() {
        hiding(refm::VOPRF);
    }

    [12] fn c18_poprf() {
        hiding(refm::POPRF);
    }
}
