//! C20: saving and restoring. C21: domain separation.

use crate::mock::*;
use crate::util::*;
use crate::{nd, refm};
use voprf::*;

/////////
// C20 //
/////////

/// Maybe saved and restored, or cloned, in between.
macro_rules! cut {
    ($t:ident, $v:expr) => {{
        let v = $v;
        let n = nd::u8();
        if n == 0 {
            let b = v.serialize();
            drop(v);
            $t::<M>::deserialize(&b).unwrap()
        } else if n == 1 {
            v.clone()
        } else {
            v
        }
    }};
}

fn run_oprf() {
    setup();
    let k = any_nz();
    let input = [nd::u8()];
    let p = refm::h2g(&input, refm::OPRF);
    nd::assume(p != E(0));
    let mut rng = Rng::new();
    let server = cut!(OprfServer, oserver(k));
    let r = OprfClient::<M>::blind(&input, &mut rng).unwrap();
    let client = cut!(OprfClient, r.state);
    let message = cut!(BlindedElement, r.message);
    assert!(message.value() == e_mul(p, S(st().draw[0])));
    let answer = cut!(EvaluationElement, server.blind_evaluate(&message));
    assert!(answer.value() == e_mul(message.value(), k));
    let server = cut!(OprfServer, server);
    let client = cut!(OprfClient, client);
    let out = client.finalize(&input, &answer).unwrap();
    assert!(out[..] == refm::output(&input, e_mul(p, k)));
    // Once more.
    assert!(server.blind_evaluate(&message).value() == answer.value());
    assert!(client.finalize(&input, &answer).unwrap() == out);
    assert!(server.evaluate(&input).unwrap() == out);
    reach!(true, "end");
}

fn run_voprf() {
    setup();
    let k = any_nz();
    let input = [nd::u8()];
    let p = refm::h2g(&input, refm::VOPRF);
    nd::assume(p != E(0));
    let mut rng = Rng::new();
    let server = cut!(VoprfServer, vserver(k));
    let r = VoprfClient::<M>::blind(&input, &mut rng).unwrap();
    let client = cut!(VoprfClient, r.state);
    let message = cut!(BlindedElement, r.message);
    assert!(message.value() == e_mul(p, S(st().draw[0])));
    let a = server.blind_evaluate(&mut rng, &message);
    let answer = cut!(EvaluationElement, a.message);
    assert!(answer.value() == e_mul(message.value(), k));
    let (c, s) = scalars(&a.proof);
    let proof = if c != S(0) && s != S(0) { cut!(Proof, a.proof) } else { a.proof };
    let server = cut!(VoprfServer, server);
    let client = cut!(VoprfClient, client);
    let out = client.finalize(&input, &answer, &proof, server.get_public_key()).unwrap();
    assert!(out[..] == refm::output(&input, e_mul(p, k)));
    // Once more.
    assert!(client.finalize(&input, &answer, &proof, server.get_public_key()).unwrap() == out);
    assert!(server.evaluate(&input).unwrap() == out);
    reach!(c != S(0) && s != S(0), "end");
}

fn scalars(p: &Proof<M>) -> (S, S) {
    let b = p.serialize();
    let m = st().m_s[0];
    (S(b[0] ^ m), S(b[2] ^ m))
}

fn run_poprf() {
    setup();
    let k = any_nz();
    let input = [nd::u8()];
    let ib = [nd::u8()];
    let info = Some(&ib[..]);
    let p = refm::h2g(&input, refm::POPRF);
    nd::assume(p != E(0));
    let t = s_add(k, refm::info_scalar(&ib));
    nd::assume(t != S(0));
    let mut rng = Rng::new();
    let server = cut!(PoprfServer, pserver(k));
    let r = PoprfClient::<M>::blind(&input, &mut rng).unwrap();
    let client = cut!(PoprfClient, r.state);
    let message = cut!(BlindedElement, r.message);
    assert!(message.value() == e_mul(p, S(st().draw[0])));
    let a = server.blind_evaluate(&mut rng, &message, info).unwrap();
    let answer = cut!(EvaluationElement, a.message);
    assert!(answer.value() == e_mul(message.value(), s_inv(t)));
    let (c, s) = scalars(&a.proof);
    let proof = if c != S(0) && s != S(0) { cut!(Proof, a.proof) } else { a.proof };
    let server = cut!(PoprfServer, server);
    let client = cut!(PoprfClient, client);
    let out = client.finalize(&input, &answer, &proof, server.get_public_key(), info).unwrap();
    assert!(out[..] == refm::output_info(&input, &ib, e_mul(p, s_inv(t))));
    // Once more.
    assert!(client.finalize(&input, &answer, &proof, server.get_public_key(), info).unwrap() == out);
    assert!(server.evaluate(&input, info).unwrap() == out);
    reach!(c != S(0) && s != S(0), "end");
}

/// Batches of the two-step API, cut anywhere; the prepared values can only be
/// cloned.
fn run_batch(poprf: bool) {
    setup();
    let k = any_nz();
    let input = [nd::u8()];
    let i: &[u8] = &input;
    let mut rng = Rng::new();
    let (p0, p1) = (any_e_nz(), any_e_nz());
    let (b0, b1) = (any_nz(), any_nz());
    let (m0, m1) = (e_mul(p0, b0), e_mul(p1, b1));
    let ms = [cut!(BlindedElement, blinded(m0)), cut!(BlindedElement, blinded(m1))];
    if poprf {
        let t = s_add(k, refm::info_scalar(&[]));
        nd::assume(t != S(0));
        let server = cut!(PoprfServer, pserver(k));
        let mut p = server.batch_blind_evaluate_prepare(ms.iter(), None).unwrap();
        let ps = [p.prepared_evaluation_elements.next().unwrap(), p.prepared_evaluation_elements.next().unwrap()];
        let ps = if nd::bool() { ps.clone() } else { ps };
        let tw = if nd::bool() { p.prepared_tweak.clone() } else { p.prepared_tweak };
        let mut r = PoprfServer::batch_blind_evaluate_finish(&mut rng, ms.iter(), &ps, &tw).unwrap();
        let es = [r.messages.next().unwrap(), r.messages.next().unwrap()];
        let [e0, e1] = es;
        let es = [cut!(EvaluationElement, e0), cut!(EvaluationElement, e1)];
        let (c, s) = scalars(&r.proof);
        nd::assume(c != S(0) && s != S(0));
        let proof = cut!(Proof, r.proof);
        let cs = [cut!(PoprfClient, pclient(b0, m0)), cut!(PoprfClient, pclient(b1, m1))];
        let pk = server.get_public_key();
        let mut out = PoprfClient::batch_finalize([i, i].into_iter(), &cs, &es, &proof, pk, None).unwrap();
        assert!(out.next().unwrap().unwrap()[..] == refm::output_info(i, &[], e_mul(p0, s_inv(t))));
        assert!(out.next().unwrap().unwrap()[..] == refm::output_info(i, &[], e_mul(p1, s_inv(t))));
    } else {
        let server = cut!(VoprfServer, vserver(k));
        let mut it = server.batch_blind_evaluate_prepare(ms.iter());
        let ps = [it.next().unwrap(), it.next().unwrap()];
        let ps = if nd::bool() { ps.clone() } else { ps };
        let mut r = server.batch_blind_evaluate_finish(&mut rng, ms.iter(), &ps).unwrap();
        let es = [r.messages.next().unwrap(), r.messages.next().unwrap()];
        let [e0, e1] = es;
        let es = [cut!(EvaluationElement, e0), cut!(EvaluationElement, e1)];
        let (c, s) = scalars(&r.proof);
        nd::assume(c != S(0) && s != S(0));
        let proof = cut!(Proof, r.proof);
        let cs = [cut!(VoprfClient, vclient(b0, m0)), cut!(VoprfClient, vclient(b1, m1))];
        let pk = server.get_public_key();
        let inputs = [i, i];
        let mut out = VoprfClient::batch_finalize(&inputs, &cs, &es, &proof, pk).unwrap();
        assert!(out.next().unwrap().unwrap()[..] == refm::output(i, e_mul(p0, k)));
        assert!(out.next().unwrap().unwrap()[..] == refm::output(i, e_mul(p1, k)));
    }
    reach!(true, "end");
}

/////////
// C21 //
/////////

/// Every query of `f` has the tags of `mode`. `at`: the number of a query.
fn tags<CS: CipherSuite>(mode: u8, derive: bool, f: impl FnOnce()) {
    let at = nd::len(7);
    log_dst(at);
    f();
    let l = dlog();
    if at < l.calls {
        check_tag::<CS>(l.kind, &l.dst, l.n, mode, derive);
    }
    reach!(at < l.calls, "a query");
    reach!(at > l.calls, "no query");
}

fn check_tag<CS: CipherSuite>(kind: u8, dst: &[u8; 48], n: usize, mode: u8, derive: bool) {
    let label: &[u8] = if kind == KIND_ELEM {
        b"HashToGroup-"
    } else if derive {
        b"DeriveKeyPair"
    } else {
        b"HashToScalar-"
    };
    let parts: [&[u8]; 5] = [label, b"OPRFV1-", &[mode], b"-", CS::ID.as_bytes()];
    let mut i = 0;
    let mut k = 0;
    while k < 5 {
        let mut j = 0;
        while j < parts[k].len() {
            assert!(i < n && dst[i] == parts[k][j], "tag");
            i += 1;
            j += 1;
        }
        k += 1;
    }
    assert!(i == n, "length of the tag");
}

fn tags_oprf<CS: CipherSuite<Group = M, Hash = MH>>() {
    let input = [nd::u8()];
    let mut rng = Rng::new();
    let (k, b) = (any_nz(), any_nz());
    let m = any_e();
    let server = OprfServer::<CS>::new_with_key(&enc_s(k)).unwrap();
    let client = OprfClient::<CS>::deserialize(&enc_s(b)).unwrap();
    tags::<CS>(refm::OPRF, false, || {
        let _ = OprfClient::<CS>::blind(&input, &mut rng);
        let _ = OprfClient::<CS>::deterministic_blind_unchecked(&input, b);
        let _ = server.evaluate(&input);
        let _ = server.blind_evaluate(&BlindedElement::from_value_unchecked(m));
        let _ = client.finalize(&input, &EvaluationElement::from_value_unchecked(m));
    });
}

fn tags_derive<CS: CipherSuite<Group = M, Hash = MH>>() {
    let mut rng = Rng::new();
    let seed = [nd::u8()];
    st().w.on = true;
    st().w.val = 1;
    let d = nd::below(3);
    match d {
        0 => tags::<CS>(refm::OPRF, true, || {
            let _ = OprfServer::<CS>::new(&mut rng);
            let _ = OprfServer::<CS>::new_from_seed(&seed, &seed);
            let _ = derive_key::<CS>(&seed, &seed, Mode::Oprf);
        }),
        1 => tags::<CS>(refm::VOPRF, true, || {
            let _ = VoprfServer::<CS>::new(&mut rng);
            let _ = VoprfServer::<CS>::new_from_seed(&seed, &seed);
            let _ = derive_key::<CS>(&seed, &seed, Mode::Voprf);
        }),
        _ => tags::<CS>(refm::POPRF, true, || {
            let _ = PoprfServer::<CS>::new(&mut rng);
            let _ = PoprfServer::<CS>::new_from_seed(&seed, &seed);
            let _ = derive_key::<CS>(&seed, &seed, Mode::Poprf);
        }),
    }
}

fn tags_voprf_client<CS: CipherSuite<Group = M, Hash = MH>>() {
    let input = [nd::u8()];
    let i: &[u8] = &input;
    let mut rng = Rng::new();
    let (b, m, e, pk) = (any_nz(), any_e_nz(), any_e(), any_e());
    let client = VoprfClient::<CS>::deserialize(&se(b, m)).unwrap();
    let pb: [u8; 2 * SCAL] = cat(enc_s(any_nz()), enc_s(any_nz()));
    let proof = Proof::<CS>::deserialize(&pb).unwrap();
    let em = EvaluationElement::from_value_unchecked(e);
    tags::<CS>(refm::VOPRF, false, || {
        let _ = VoprfClient::<CS>::blind(i, &mut rng);
        let _ = VoprfClient::<CS>::deterministic_blind_unchecked(i, b);
        let _ = client.finalize(i, &em, &proof, pk);
        let _ = VoprfClient::batch_finalize(&[i], core::array::from_ref(&client), core::array::from_ref(&em), &proof, pk);
    });
}

fn tags_voprf_server<CS: CipherSuite<Group = M, Hash = MH>>() {
    let input = [nd::u8()];
    let mut rng = Rng::new();
    let k = any_nz();
    let m = any_e();
    let server = VoprfServer::<CS>::new_with_key(&enc_s(k)).unwrap();
    let be = BlindedElement::<CS>::from_value_unchecked(m);
    tags::<CS>(refm::VOPRF, false, || {
        let _ = server.evaluate(&input);
        let _ = server.blind_evaluate(&mut rng, &be);
        let p = server.batch_blind_evaluate_prepare(core::iter::once(&be)).next().unwrap();
        let _ = server.batch_blind_evaluate_finish(&mut rng, core::iter::once(&be), core::array::from_ref(&p));
    });
}

fn tags_poprf_client<CS: CipherSuite<Group = M, Hash = MH>>() {
    let input = [nd::u8()];
    let i: &[u8] = &input;
    let info = [nd::u8()];
    let mut rng = Rng::new();
    let (b, m, e, pk) = (any_nz(), any_e_nz(), any_e(), any_e());
    let client = PoprfClient::<CS>::deserialize(&se(b, m)).unwrap();
    let pb: [u8; 2 * SCAL] = cat(enc_s(any_nz()), enc_s(any_nz()));
    let proof = Proof::<CS>::deserialize(&pb).unwrap();
    let em = EvaluationElement::from_value_unchecked(e);
    tags::<CS>(refm::POPRF, false, || {
        let _ = PoprfClient::<CS>::blind(i, &mut rng);
        let _ = PoprfClient::<CS>::deterministic_blind_unchecked(i, b);
        let _ = client.finalize(i, &em, &proof, pk, Some(&info));
        let _ = PoprfClient::batch_finalize(
            core::iter::once(i),
            core::array::from_ref(&client),
            core::array::from_ref(&em),
            &proof,
            pk,
            Some(&info),
        );
    });
}

fn tags_poprf_server<CS: CipherSuite<Group = M, Hash = MH>>() {
    let input = [nd::u8()];
    let info = [nd::u8()];
    let mut rng = Rng::new();
    let k = any_nz();
    let m = any_e();
    let server = PoprfServer::<CS>::new_with_key(&enc_s(k)).unwrap();
    let be = BlindedElement::<CS>::from_value_unchecked(m);
    tags::<CS>(refm::POPRF, false, || {
        let _ = server.evaluate(&input, Some(&info));
        let _ = server.blind_evaluate(&mut rng, &be, Some(&info));
        if let Ok(mut p) = server.batch_blind_evaluate_prepare(core::iter::once(&be), Some(&info)) {
            let e = p.prepared_evaluation_elements.next().unwrap();
            let _ = PoprfServer::batch_blind_evaluate_finish(
                &mut rng,
                core::iter::once(&be),
                core::array::from_ref(&e),
                &p.prepared_tweak,
            );
        }
    });
}

/// The seed of the composites is bound to mode and suite.
fn seed_tag<CS: CipherSuite<Group = M, Hash = MH>>(poprf: bool) {
    setup();
    let w = &mut st().w;
    w.on = true;
    w.val = 1;
    w.clen = (2 + HLEN + 2 + 2 * (2 + ELEM) + 9) as u32;
    w.coff = 2 + HLEN;
    let k = any_nz();
    let m = any_e();
    let mut rng = Rng::new();
    let be = BlindedElement::<CS>::from_value_unchecked(m);
    let (mode, b, c, d);
    if poprf {
        mode = refm::POPRF;
        let t = s_add(k, S(1));
        nd::assume(t != S(0));
        let server = PoprfServer::<CS>::new_with_key(&enc_s(k)).unwrap();
        let r = server.blind_evaluate(&mut rng, &be, None).unwrap();
        b = e_mul(E(1), t);
        c = r.message.value();
        d = m;
    } else {
        mode = refm::VOPRF;
        let server = VoprfServer::<CS>::new_with_key(&enc_s(k)).unwrap();
        let r = server.blind_evaluate(&mut rng, &be);
        b = e_mul(E(1), k);
        c = m;
        d = r.message.value();
    }
    assert!(st().w.cfound == 1);
    let dlen = 5 + 7 + 1 + 1 + CS::ID.len();
    let seed = refm::hash(&[
        &refm::i2osp2(ELEM),
        &enc_e(b),
        &refm::i2osp2(dlen),
        b"Seed-",
        b"OPRFV1-",
        &[mode],
        b"-",
        CS::ID.as_bytes(),
    ]);
    let e = Tr::of(
        st().p_m,
        &[
            &refm::i2osp2(HLEN),
            &seed,
            &[0, 0],
            &refm::i2osp2(ELEM),
            &enc_e(c),
            &refm::i2osp2(ELEM),
            &enc_e(d),
            b"Composite",
        ],
    );
    assert!(e.len == st().w.cm.len && e.byte == st().w.cm.byte, "seed of the composites");
    reach!(true, "end");
}

harnesses! {
    [12] fn c20_oprf() {
        run_oprf();
    }

    [12] fn c20_voprf() {
        run_voprf();
    }

    [12] fn c20_poprf() {
        run_poprf();
    }

    [12] fn c20_voprf_batch2() {
        run_batch(false);
    }

    [12] fn c20_poprf_batch2() {
        run_batch(true);
    }

    [24] fn c21_oprf() {
        setup();
        tags_oprf::<M>();
    }

    [24] fn c21_oprf_other() {
        setup();
        tags_oprf::<M2>();
    }

    [24] fn c21_derive() {
        setup();
        tags_derive::<M>();
    }

    [24] fn c21_derive_other() {
        setup();
        tags_derive::<M2>();
    }

    [24] fn c21_voprf_client() {
        setup();
        tags_voprf_client::<M>();
    }

    [24] fn c21_voprf_client_other() {
        setup();
        tags_voprf_client::<M2>();
    }

    [24] fn c21_voprf_server() {
        setup();
        tags_voprf_server::<M>();
    }

    [24] fn c21_voprf_server_other() {
        setup();
        tags_voprf_server::<M2>();
    }

    [24] fn c21_poprf_client() {
        setup();
        tags_poprf_client::<M>();
    }

    [24] fn c21_poprf_client_other() {
        setup();
        tags_poprf_client::<M2>();
    }

    [24] fn c21_poprf_server() {
        setup();
        tags_poprf_server::<M>();
    }

    [24] fn c21_poprf_server_other() {
        setup();
        tags_poprf_server::<M2>();
    }

    [12] fn c21_seed_voprf() {
        seed_tag::<M>(false);
    }

    [12] fn c21_seed_voprf_other() {
        seed_tag::<M2>(false);
    }

    [12] fn c21_seed_poprf() {
        seed_tag::<M>(true);
    }

    [12] fn c21_seed_poprf_other() {
        seed_tag::<M2>(true);
    }
}
