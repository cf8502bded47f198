//! C19: special soundness. C22: hostile peers and storage.

use crate::mock::*;
use crate::util::*;
use crate::{nd, refm};
use voprf::*;

/////////
// C19 //
/////////

/// The next challenge will be `c`.
fn challenge(c: S) {
    let p = &mut st().prog;
    p.on = true;
    p.len = 5 * (2 + ELEM) + 9;
    p.val = c.0;
    p.seen = 0;
}

/// The transcript of the challenge.
fn commitment() -> [u8; PROG] {
    assert!(st().prog.seen == 1, "one challenge");
    st().prog.msg
}

/// Two accepted answers for the same commitments, and different challenges.
fn sound<const N: usize>(poprf: bool) {
    setup();
    let pk = any_e();
    let buf = [nd::u8()];
    let input: &[u8] = &buf;
    let inputs = [input; N];
    let blinds: [S; N] = [(); N].map(|_| any_nz());
    let be: [E; N] = [(); N].map(|_| any_e_nz());
    let ee: [E; N] = [(); N].map(|_| any_e());
    let messages = ee.map(evaluated);
    let (c1, c2) = (any_nz(), any_nz());
    nd::assume(c1 != c2);
    let (p1, p2) = (proof(c1, any_nz()), proof(c2, any_nz()));
    // The key the elements have to have been evaluated with.
    let mut key = pk;
    let (ok1, m1, ok2, m2);
    if poprf {
        let info = Bytes::<1>::any();
        let info = any_info(&info);
        key = e_add(e_mul(E(1), refm::info_scalar(info.unwrap_or(&[]))), pk);
        let clients: [PoprfClient<M>; N] = core::array::from_fn(|i| pclient(blinds[i], be[i]));
        let run = |p: &Proof<M>| {
            if N == 1 {
                clients[0].finalize(input, &messages[0], p, pk, info).is_ok()
            } else {
                PoprfClient::batch_finalize(inputs.into_iter(), &clients, &messages, p, pk, info).is_ok()
            }
        };
        challenge(c1);
        ok1 = run(&p1);
        nd::assume(ok1);
        m1 = commitment();
        challenge(c2);
        ok2 = run(&p2);
        nd::assume(ok2);
        m2 = commitment();
    } else {
        let clients: [VoprfClient<M>; N] = core::array::from_fn(|i| vclient(blinds[i], be[i]));
        let run = |p: &Proof<M>| {
            if N == 1 {
                clients[0].finalize(input, &messages[0], p, pk).is_ok()
            } else {
                VoprfClient::batch_finalize(&inputs, &clients, &messages, p, pk).is_ok()
            }
        };
        challenge(c1);
        ok1 = run(&p1);
        nd::assume(ok1);
        m1 = commitment();
        challenge(c2);
        ok2 = run(&p2);
        nd::assume(ok2);
        m2 = commitment();
    }
    let mut same = true;
    let mut i = 0;
    while i < PROG {
        same &= m1[i] == m2[i];
        i += 1;
    }
    nd::assume(same);
    reach!(true, "two accepted answers");
    // The weights.
    let mode = if poprf { refm::POPRF } else { refm::VOPRF };
    let (c, d) = if poprf { (&ee, &be) } else { (&be, &ee) };
    let seed = refm::composite_seed(key, mode);
    let mut sum = E(0);
    let mut i = 0;
    let mut zero = false;
    while i < N {
        let w = refm::composite_scalar(&seed, i, c[i], d[i], mode);
        zero |= w == S(0);
        // D - k C
        let x = e_add(d[i], e_mul(E(s_sub(S(0), S(key.0)).0), S(c[i].0)));
        sum = e_add(sum, e_mul(x, w));
        i += 1;
    }
    assert!(sum == E(0), "the elements have not all been evaluated with the key");
    reach!(!zero && ee[0] != E(0), "all weights count");
    if N == 1 && !zero {
        assert!(d[0] == e_mul(key, S(c[0].0)));
    }
}

/////////
// C22 //
/////////

fn documented(e: Error) {
    assert!(
        matches!(
            e,
            Error::Info | Error::Input | Error::Batch | Error::ProofVerification | Error::Protocol | Error::Deserialization
        ),
        "undocumented error"
    );
}

macro_rules! get {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => {
                assert!(e == Error::Deserialization);
                return;
            }
        }
    };
}

fn key(b: &[u8]) -> Result<E> {
    // As applications read public keys.
    <M as Group>::deserialize_elem(b)
}

fn hostile_oprf() {
    setup();
    let bytes: [[u8; ELEM + 1]; 4] = [nd::arr(), nd::arr(), nd::arr(), nd::arr()];
    let input = [nd::u8()];
    let [b0, b1, b2, b3] = bytes;
    if nd::bool() {
        let c = get!(OprfClient::<M>::deserialize(&b0));
        let m = get!(EvaluationElement::<M>::deserialize(&b1));
        if let Err(e) = c.finalize(&input, &m) {
            documented(e);
        }
        reach!(true, "client");
    } else {
        let s = if nd::bool() { get!(OprfServer::<M>::deserialize(&b2)) } else { get!(OprfServer::new_with_key(&b2[..SCAL])) };
        let m = get!(BlindedElement::<M>::deserialize(&b3));
        let _ = s.blind_evaluate(&m);
        if let Err(e) = s.evaluate(&input) {
            documented(e);
        }
        reach!(true, "server");
    }
}

fn hostile_voprf_server() {
    setup();
    let sb: [u8; SCAL + ELEM] = nd::arr();
    let mb: [u8; ELEM] = nd::arr();
    let input = [nd::u8()];
    let mut rng = Rng::new();
    let s = get!(VoprfServer::<M>::deserialize(&sb));
    let m = get!(BlindedElement::<M>::deserialize(&mb));
    let r = s.blind_evaluate(&mut rng, &m);
    assert!(r.message.value() == e_mul(m.value(), dec_s(&sb[..SCAL]).unwrap()));
    let ms = [m.clone(), m];
    let mut it = s.batch_blind_evaluate_prepare(ms.iter());
    let ps = [it.next().unwrap(), it.next().unwrap()];
    assert!(s.batch_blind_evaluate_finish(&mut rng, ms.iter(), &ps).is_ok());
    if let Err(e) = s.evaluate(&input) {
        documented(e);
    }
    reach!(true, "server");
}

fn hostile_voprf_client() {
    setup();
    let (cb, cb2): ([u8; SCAL + ELEM], [u8; SCAL + ELEM]) = (nd::arr(), nd::arr());
    let (eb, eb2, kb): ([u8; ELEM], [u8; ELEM], [u8; ELEM]) = (nd::arr(), nd::arr(), nd::arr());
    let pb: [u8; 2 * SCAL] = nd::arr();
    let input = [nd::u8()];
    let i: &[u8] = &input;
    let c = get!(VoprfClient::<M>::deserialize(&cb));
    let m = get!(EvaluationElement::<M>::deserialize(&eb));
    let p = get!(Proof::<M>::deserialize(&pb));
    let pk = get!(key(&kb));
    if nd::bool() {
        match c.finalize(i, &m, &p, pk) {
            Ok(_) => reach!(true, "accepted"),
            Err(e) => assert!(e == Error::ProofVerification),
        }
    } else {
        let c2 = get!(VoprfClient::<M>::deserialize(&cb2));
        let m2 = get!(EvaluationElement::<M>::deserialize(&eb2));
        match VoprfClient::batch_finalize(&[i; 2], &[c, c2], &[m, m2], &p, pk) {
            Ok(mut it) => {
                assert!(it.next().unwrap().is_ok() && it.next().unwrap().is_ok());
                reach!(true, "accepted batch");
            }
            Err(e) => assert!(e == Error::ProofVerification),
        }
    }
}

fn hostile_poprf_server() {
    setup();
    let sb: [u8; SCAL + ELEM] = nd::arr();
    let mb: [u8; ELEM] = nd::arr();
    let input = [nd::u8()];
    let ib = Bytes::<2>::any();
    let info = any_info(&ib);
    let mut rng = Rng::new();
    let s = get!(PoprfServer::<M>::deserialize(&sb));
    let m = get!(BlindedElement::<M>::deserialize(&mb));
    match s.blind_evaluate(&mut rng, &m, info) {
        Ok(_) => reach!(true, "server"),
        Err(e) => assert!(e == Error::Protocol),
    }
    if let Err(e) = s.evaluate(&input, info) {
        documented(e);
    }
    let ms = [m.clone(), m];
    match s.batch_blind_evaluate_prepare(ms.iter(), info) {
        Ok(mut p) => {
            let ps = [p.prepared_evaluation_elements.next().unwrap(), p.prepared_evaluation_elements.next().unwrap()];
            assert!(PoprfServer::batch_blind_evaluate_finish(&mut rng, ms.iter(), &ps, &p.prepared_tweak).is_ok());
            reach!(true, "batch");
        }
        Err(e) => assert!(e == Error::Protocol),
    }
}

fn hostile_poprf_client() {
    setup();
    let (cb, cb2): ([u8; SCAL + ELEM], [u8; SCAL + ELEM]) = (nd::arr(), nd::arr());
    let (eb, eb2, kb): ([u8; ELEM], [u8; ELEM], [u8; ELEM]) = (nd::arr(), nd::arr(), nd::arr());
    let pb: [u8; 2 * SCAL] = nd::arr();
    let input = [nd::u8()];
    let i: &[u8] = &input;
    let ib = Bytes::<1>::any();
    let info = any_info(&ib);
    let c = get!(PoprfClient::<M>::deserialize(&cb));
    let m = get!(EvaluationElement::<M>::deserialize(&eb));
    let p = get!(Proof::<M>::deserialize(&pb));
    let pk = get!(key(&kb));
    if nd::bool() {
        match c.finalize(i, &m, &p, pk, info) {
            Ok(_) => reach!(true, "accepted"),
            Err(e) => assert!(e == Error::ProofVerification || e == Error::Protocol),
        }
    } else {
        let c2 = get!(PoprfClient::<M>::deserialize(&cb2));
        let m2 = get!(EvaluationElement::<M>::deserialize(&eb2));
        match PoprfClient::batch_finalize([i; 2].into_iter(), &[c, c2], &[m, m2], &p, pk, info) {
            Ok(mut it) => {
                assert!(it.next().unwrap().is_ok() && it.next().unwrap().is_ok());
                reach!(true, "accepted batch");
            }
            Err(e) => assert!(e == Error::ProofVerification || e == Error::Protocol),
        }
    }
}

harnesses! {
    [40] fn c19_voprf() {
        sound::<1>(false);
    }

    [40] fn c19_poprf() {
        sound::<1>(true);
    }

    [40] fn c19_voprf_batch2() {
        sound::<2>(false);
    }

    [40] fn c19_poprf_batch2() {
        sound::<2>(true);
    }

    [12] fn c22_oprf() {
        hostile_oprf();
    }

    [12] fn c22_voprf_server() {
        hostile_voprf_server();
    }

    [12] fn c22_voprf_client() {
        hostile_voprf_client();
    }

    [12] fn c22_poprf_server() {
        hostile_poprf_server();
    }

    [12] fn c22_poprf_client() {
        hostile_poprf_client();
    }
}
