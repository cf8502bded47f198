//! C01, C02, C03: completeness and agreement with the specification's formulas.

use crate::mock::*;
use crate::util::*;
use crate::{nd, refm};
use voprf::*;

fn oprf(input: &[u8]) {
    let k = any_nz();
    let mut rng = Rng::new();
    let server = oserver(k);
    let p = refm::h2g(input, refm::OPRF);
    nd::assume(p != E(0));
    let bl = OprfClient::<M>::blind(input, &mut rng).unwrap();
    let b = S(st().draw[0]);
    assert!(bl.message.serialize()[..] == enc_e(e_mul(p, b)));
    let msg = server.blind_evaluate(&bl.message);
    assert!(msg.serialize()[..] == enc_e(e_mul(e_mul(p, b), k)));
    let out = bl.state.finalize(input, &msg).unwrap();
    assert!(out[..] == refm::output(input, e_mul(p, k)));
    assert!(server.evaluate(input).unwrap() == out);
    assert!(st().inversions_of_zero == 0);
    reach!(true, "output");
}

/// The client runs on an arbitrary blind and an arbitrary answer.
fn oprf_client(input: &[u8]) {
    let b = any_nz();
    let ee = any_e();
    let p = refm::h2g(input, refm::OPRF);
    nd::assume(p != E(0));
    let bl = OprfClient::<M>::deterministic_blind_unchecked(input, b).unwrap();
    assert!(bl.message.value() == e_mul(p, b));
    assert!(bl.state.get_blind() == b);
    let out = bl.state.finalize(input, &evaluated(ee)).unwrap();
    assert!(out[..] == refm::output(input, e_mul(ee, s_inv(b))));
    // Twice the same.
    assert!(bl.state.finalize(input, &evaluated(ee)).unwrap() == out);
    let k = any_nz();
    assert!(oserver(k).blind_evaluate(&blinded(ee)).value() == e_mul(ee, k));
    reach!(true, "output");
}

fn voprf(input: &[u8]) {
    let k = any_nz();
    let mut rng = Rng::new();
    let server = vserver(k);
    assert!(server.get_public_key() == e_mul(E(1), k));
    let p = refm::h2g(input, refm::VOPRF);
    nd::assume(p != E(0));
    let bl = VoprfClient::<M>::blind(input, &mut rng).unwrap();
    let b = S(st().draw[0]);
    assert!(bl.message.value() == e_mul(p, b));
    let r = server.blind_evaluate(&mut rng, &bl.message);
    assert!(r.message.value() == e_mul(e_mul(p, b), k));
    let out = bl.state.finalize(input, &r.message, &r.proof, server.get_public_key()).unwrap();
    assert!(out[..] == refm::output(input, e_mul(p, k)));
    assert!(server.evaluate(input).unwrap() == out);
    assert!(st().inversions_of_zero == 0);
    reach!(true, "output");
}

/// Batches of `N`: the i-th output belongs to the i-th input.
fn voprf_batch<const N: usize>(use_alloc: bool) {
    let k = any_nz();
    let mut rng = Rng::new();
    let server = vserver(k);
    let buf: [u8; N] = nd::arr();
    let inputs: [&[u8]; N] = core::array::from_fn(|i| &buf[i..i + 1]);
    let clients: [VoprfClient<M>; N];
    let mut msgs = [E(0); N];
    let mut ps = [E(0); N];
    {
        let mut i = 0;
        clients = [(); N].map(|_| {
            let b = any_nz();
            ps[i] = any_e_nz();
            msgs[i] = e_mul(ps[i], b);
            let c = vclient(b, msgs[i]);
            i += 1;
            c
        });
    }
    let blinded: [BlindedElement<M>; N] = msgs.map(blinded);
    let (messages, proof): ([EvaluationElement<M>; N], Proof<M>) = if use_alloc {
        let r = server.batch_blind_evaluate(&mut rng, &blinded).unwrap();
        assert!(r.messages.len() == N);
        let mut it = r.messages.into_iter();
        ([(); N].map(|_| it.next().unwrap()), r.proof)
    } else {
        let mut prep = server.batch_blind_evaluate_prepare(blinded.iter());
        let prep = [(); N].map(|_| prep.next().unwrap());
        let mut r = server.batch_blind_evaluate_finish(&mut rng, blinded.iter(), &prep).unwrap();
        let m = [(); N].map(|_| r.messages.next().unwrap());
        assert!(r.messages.next().is_none());
        (m, r.proof)
    };
    let mut i = 0;
    while i < N {
        assert!(messages[i].value() == e_mul(msgs[i], k));
        i += 1;
    }
    assert!(st().draws == 1);
    let mut outs =
        VoprfClient::batch_finalize(&inputs, &clients, &messages, &proof, e_mul(E(1), k)).unwrap();
    let mut i = 0;
    while i < N {
        let o = outs.next().unwrap().unwrap();
        assert!(o[..] == refm::output(inputs[i], e_mul(ps[i], k)));
        i += 1;
    }
    assert!(outs.next().is_none());
    assert!(st().inversions_of_zero == 0);
    reach!(true, "outputs");
}

fn poprf(input: &[u8], info: Option<&[u8]>) {
    let k = any_nz();
    let mut rng = Rng::new();
    let server = pserver(k);
    assert!(server.get_public_key() == e_mul(E(1), k));
    let p = refm::h2g(input, refm::POPRF);
    nd::assume(p != E(0));
    let i = info.unwrap_or(&[]);
    let t = s_add(k, refm::info_scalar(i));
    nd::assume(t != S(0));
    let bl = PoprfClient::<M>::blind(input, &mut rng).unwrap();
    let b = S(st().draw[0]);
    assert!(bl.message.value() == e_mul(p, b));
    let r = server.blind_evaluate(&mut rng, &bl.message, info).unwrap();
    assert!(r.message.value() == e_mul(e_mul(p, b), s_inv(t)));
    // An absent info is an empty one.
    let cinfo = if i.is_empty() && nd::bool() { None } else { Some(i) };
    let pk = server.get_public_key();
    let out = bl.state.finalize(input, &r.message, &r.proof, pk, cinfo).unwrap();
    assert!(out[..] == refm::output_info(input, i, e_mul(p, s_inv(t))));
    assert!(server.evaluate(input, info).unwrap() == out);
    assert!(st().inversions_of_zero == 0);
    reach!(info.is_some(), "info");
    reach!(info.is_none(), "no info");
}

fn poprf_batch<const N: usize>(use_alloc: bool) {
    // With the growable vectors of the alloc API, the tweak is concrete, to
    // keep their sizes concrete.
    let k = if use_alloc { S(3) } else { any_nz() };
    if use_alloc {
        st().m_s = [0x5a, 0xc3];
    }
    let mut rng = Rng::new();
    let server = pserver(k);
    let ib = [nd::u8()];
    let info = if use_alloc || nd::bool() { Some(&ib[..]) } else { None };
    let inf = info.unwrap_or(&[]);
    if use_alloc {
        st().fix_len = 7;
        st().fix_val = 1;
    }
    let t = s_add(k, refm::info_scalar(inf));
    nd::assume(t != S(0));
    let buf: [u8; N] = nd::arr();
    let inputs: [&[u8]; N] = core::array::from_fn(|i| &buf[i..i + 1]);
    let clients: [PoprfClient<M>; N];
    let mut msgs = [E(0); N];
    let mut ps = [E(0); N];
    {
        let mut i = 0;
        clients = [(); N].map(|_| {
            let b = any_nz();
            ps[i] = any_e_nz();
            msgs[i] = e_mul(ps[i], b);
            let c = pclient(b, msgs[i]);
            i += 1;
            c
        });
    }
    let blinded: [BlindedElement<M>; N] = msgs.map(blinded);
    let (messages, proof): ([EvaluationElement<M>; N], Proof<M>) = if use_alloc {
        let r = server.batch_blind_evaluate(&mut rng, &blinded, info).unwrap();
        assert!(r.messages.len() == N);
        let mut it = r.messages.into_iter();
        ([(); N].map(|_| it.next().unwrap()), r.proof)
    } else {
        let mut p = server.batch_blind_evaluate_prepare(blinded.iter(), info).unwrap();
        let prep = [(); N].map(|_| p.prepared_evaluation_elements.next().unwrap());
        let mut r = PoprfServer::batch_blind_evaluate_finish(
            &mut rng,
            blinded.iter(),
            &prep,
            &p.prepared_tweak,
        )
        .unwrap();
        let m = [(); N].map(|_| r.messages.next().unwrap());
        assert!(r.messages.next().is_none());
        (m, r.proof)
    };
    let mut i = 0;
    while i < N {
        assert!(messages[i].value() == e_mul(msgs[i], s_inv(t)));
        i += 1;
    }
    assert!(st().draws == 1);
    let mut outs = PoprfClient::batch_finalize(
        inputs.into_iter(),
        &clients,
        &messages,
        &proof,
        e_mul(E(1), k),
        info,
    )
    .unwrap();
    let mut i = 0;
    while i < N {
        let o = outs.next().unwrap().unwrap();
        assert!(o[..] == refm::output_info(inputs[i], inf, e_mul(ps[i], s_inv(t))));
        i += 1;
    }
    assert!(outs.next().is_none());
    assert!(st().inversions_of_zero == 0);
    reach!(true, "outputs");
}

harnesses! {
    [12] fn c01_oprf_short() {
        setup();
        oprf(Bytes::<4>::any().get());
    }

    [12] fn c01_oprf_long() {
        setup();
        oprf(long_ok());
    }

    [12] fn c01_oprf_client() {
        setup();
        oprf_client(Bytes::<4>::any().get());
    }

    [12] fn c02_voprf_short() {
        setup();
        voprf(Bytes::<3>::any().get());
    }

    [12] fn c02_voprf_long() {
        setup();
        voprf(long_ok());
    }

    [12] fn c02_voprf_batch2_alloc() {
        setup();
        voprf_batch::<2>(true);
    }

    [12] fn c02_voprf_batch2() {
        setup();
        voprf_batch::<2>(false);
    }

    [12] fn t02_voprf_batch3_alloc() {
        setup();
        voprf_batch::<3>(true);
    }

    [12] fn t02_voprf_batch3() {
        setup();
        voprf_batch::<3>(false);
    }

    [12] fn c03_poprf_short() {
        setup();
        let i = Bytes::<2>::any();
        poprf(Bytes::<2>::any().get(), any_info(&i));
    }

    [12] fn c03_poprf_long_input() {
        setup();
        let i = Bytes::<1>::any();
        poprf(long_ok(), any_info(&i));
    }

    [12] fn c03_poprf_long_info() {
        setup();
        poprf(&[nd::u8()], if nd::bool() { Some(long_ok()) } else { None });
    }

    [12] fn c03_poprf_batch2_alloc() {
        setup();
        poprf_batch::<2>(true);
    }

    [12] fn c03_poprf_batch2() {
        setup();
        poprf_batch::<2>(false);
    }

    [12] fn t03_poprf_batch3_alloc() {
        setup();
        poprf_batch::<3>(true);
    }

    [12] fn t03_poprf_batch3() {
        setup();
        poprf_batch::<3>(false);
    }
}
