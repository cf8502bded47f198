//! C11: limits of lengths. C12: keys. C16: degenerate values.

use crate::mock::*;
use crate::util::*;
use crate::{nd, refm};
use voprf::*;

/// Hash-to-scalar is constant `v`.
fn constant(v: S) {
    st().w.on = true;
    st().w.val = v.0;
}

fn limit<T>(r: &Result<T>, len: usize, e: Error) {
    match r {
        Ok(_) => assert!(len <= 65535, "accepted"),
        Err(x) => assert!(len > 65535 && *x == e, "refused"),
    }
    reach!(len == 65535, "longest");
    reach!(len == 65536, "too long");
    reach!(len == 0, "empty");
}

/// The next hash-to-group query is not answered with the identity: any of the
/// modes.
fn regular(input: &[u8], mode: u8) {
    nd::assume(refm::h2g(input, mode) != E(0));
}

fn limit_blind(mode: u8) {
    setup();
    let input = long();
    regular(input, mode);
    let mut rng = Rng::new();
    let b = any_nz();
    match mode {
        refm::OPRF => {
            limit(&OprfClient::<M>::blind(input, &mut rng), input.len(), Error::Input);
            limit(&OprfClient::<M>::deterministic_blind_unchecked(input, b), input.len(), Error::Input);
        }
        refm::VOPRF => {
            limit(&VoprfClient::<M>::blind(input, &mut rng), input.len(), Error::Input);
            limit(&VoprfClient::<M>::deterministic_blind_unchecked(input, b), input.len(), Error::Input);
        }
        _ => {
            limit(&PoprfClient::<M>::blind(input, &mut rng), input.len(), Error::Input);
            limit(&PoprfClient::<M>::deterministic_blind_unchecked(input, b), input.len(), Error::Input);
        }
    }
}

fn limit_evaluate(mode: u8) {
    setup();
    constant(S(1));
    let input = long();
    regular(input, mode);
    let k = S(2);
    match mode {
        refm::OPRF => limit(&oserver(k).evaluate(input), input.len(), Error::Input),
        refm::VOPRF => limit(&vserver(k).evaluate(input), input.len(), Error::Input),
        _ => limit(&pserver(k).evaluate(input, None), input.len(), Error::Input),
    }
}

fn limit_finalize(mode: u8) {
    setup();
    constant(S(1));
    let input = long();
    let c = any_nz();
    let e = any_e_nz();
    let m = evaluated(any_e());
    let p = proof(S(1), any_nz());
    let pk = E(2);
    match mode {
        refm::OPRF => limit(&oclient(c).finalize(input, &m), input.len(), Error::Input),
        refm::VOPRF => limit(&vclient(c, e).finalize(input, &m, &p, pk), input.len(), Error::Input),
        _ => limit(&pclient(c, e).finalize(input, &m, &p, pk, None), input.len(), Error::Input),
    }
}

/// In a batch, only the output of the long input is refused.
fn limit_batch(mode: u8) {
    setup();
    constant(S(1));
    let input = long();
    let inputs: [&[u8]; 2] = [&[1], input];
    let e = any_e_nz();
    let m = [evaluated(any_e()), evaluated(any_e())];
    let p = proof(S(1), any_nz());
    let pk = E(2);
    if mode == refm::VOPRF {
        let c = [vclient(any_nz(), e), vclient(any_nz(), e)];
        let mut r = VoprfClient::batch_finalize(&inputs, &c, &m, &p, pk).unwrap();
        assert!(r.next().unwrap().is_ok());
        limit(&r.next().unwrap(), input.len(), Error::Input);
    } else {
        let c = [pclient(any_nz(), e), pclient(any_nz(), e)];
        let mut r = PoprfClient::batch_finalize(inputs.into_iter(), &c, &m, &p, pk, None).unwrap();
        assert!(r.next().unwrap().is_ok());
        limit(&r.next().unwrap(), input.len(), Error::Input);
    }
}

fn limit_info_server() {
    setup();
    constant(S(1));
    let info = long();
    let k = S(2);
    let be = blinded(any_e_nz());
    let mut rng = Rng::new();
    let s = pserver(k);
    limit(&s.blind_evaluate(&mut rng, &be, Some(info)), info.len(), Error::Info);
    limit(&s.batch_blind_evaluate_prepare(core::iter::once(&be), Some(info)), info.len(), Error::Info);
}

fn limit_info_evaluate() {
    setup();
    constant(S(1));
    let info = long();
    let input = [nd::u8()];
    regular(&input, refm::POPRF);
    limit(&pserver(S(2)).evaluate(&input, Some(info)), info.len(), Error::Info);
}

fn limit_info_client() {
    setup();
    constant(S(1));
    let info = long();
    let input = [nd::u8()];
    let c = pclient(any_nz(), any_e_nz());
    let m = evaluated(any_e());
    let p = proof(S(1), any_nz());
    let pk = E(2);
    limit(&c.finalize(&input, &m, &p, pk, Some(info)), info.len(), Error::Info);
    let i: &[u8] = &input;
    let r = PoprfClient::batch_finalize(core::iter::once(i), core::array::from_ref(&c), core::array::from_ref(&m), &p, pk, Some(info));
    limit(&r, info.len(), Error::Info);
}

fn limit_derive() {
    setup();
    constant(S(1));
    let info = long();
    let seed = [7; 8];
    limit(&OprfServer::<M>::new_from_seed(&seed, info), info.len(), Error::DeriveKeyPair);
    limit(&VoprfServer::<M>::new_from_seed(&seed, info), info.len(), Error::DeriveKeyPair);
    limit(&PoprfServer::<M>::new_from_seed(&seed, info), info.len(), Error::DeriveKeyPair);
    limit(&derive_key::<M>(&seed, info, Mode::Voprf), info.len(), Error::DeriveKeyPair);
}

/// Key of a server made from a seed.
fn from_seed(mode: u8, seed: &[u8], info: &[u8]) -> Result<(S, E)> {
    match mode {
        refm::OPRF => OprfServer::<M>::new_from_seed(seed, info).map(|s| key(&s.serialize(), E(0))),
        refm::VOPRF => VoprfServer::<M>::new_from_seed(seed, info).map(|s| key(&s.serialize(), s.get_public_key())),
        _ => PoprfServer::<M>::new_from_seed(seed, info).map(|s| key(&s.serialize(), s.get_public_key())),
    }
}

/// The key, and the public key that the API tells.
fn key(b: &[u8], pk: E) -> (S, E) {
    let k = S(b[0] ^ st().m_s[0]);
    assert!(b[1] == st().m_s[1]);
    if b.len() > SCAL {
        assert!(b[SCAL..] == enc_e(pk));
    }
    (k, pk)
}

/// The derivation takes the first value that is not zero: `zeros` zeros, then
/// an arbitrary value `v` for good.
fn derive(mode: u8, zeros: usize, v: S, at: usize, seed: &[u8], info: &[u8]) {
    let w = &mut st().w;
    w.on = true;
    w.zeros = zeros;
    w.val = v.0;
    w.at = at;
    let r = from_seed(mode, seed, info);
    if v == S(0) {
        assert!(matches!(r, Err(Error::Protocol)));
        assert!(st().w.calls == 256);
    } else {
        let (k, pk) = r.unwrap();
        assert!(k == v, "the first non-zero value");
        assert!(mode == refm::OPRF || pk == e_mul(E(1), k));
        assert!(st().w.calls == zeros + 1);
    }
    if at < st().w.calls && at < 256 {
        let m: [&[u8]; 4] = [seed, &refm::i2osp2(info.len()), info, &[at as u8]];
        let d: [&[u8]; 5] = [b"DeriveKeyPair", b"OPRFV1-", &[mode], b"-", ID.as_bytes()];
        let (m, d) = (Tr::of(st().p_m, &m), Tr::of(st().p_d, &d));
        assert!(m.len == st().w.m.len && m.byte == st().w.m.byte, "input of the derivation");
        assert!(d.len == st().w.d.len && d.byte == st().w.d.byte, "tag of the derivation");
    }
}

/// All 256 attempts.
fn derive_all(mode: u8) {
    setup();
    let v = any_s();
    derive(mode, 255, v, 255, &[nd::u8()], &[nd::u8()]);
    reach!(v == S(0), "no key");
    reach!(v == S(1), "the last attempt");
}

fn derive_short(mode: u8) {
    setup();
    let (s, i) = (Bytes::<3>::any(), Bytes::<3>::any());
    let z = nd::len(2);
    let at = nd::len(2);
    derive(mode, z, any_nz(), at, s.get(), i.get());
    reach!(z == 0, "the first attempt");
    reach!(z == 2, "the third attempt");
}

fn derive_long(mode: u8) {
    setup();
    let z = nd::len(1);
    let at = nd::len(1);
    if nd::bool() {
        derive(mode, z, any_nz(), at, &[nd::u8()], long_ok());
        reach!(z == 1, "long info");
    } else {
        derive(mode, z, any_nz(), at, long_ok(), &[nd::u8()]);
        reach!(z == 1, "long seed");
    }
}

/// The public function derives the servers' keys.
fn derive_public(m: u8) {
    setup();
    let (s, i) = (Bytes::<3>::any(), Bytes::<3>::any());
    let mode = [Mode::Oprf, Mode::Voprf, Mode::Poprf][m as usize];
    let v = any_nz();
    let z = nd::len(2);
    let at = nd::len(2);
    let w = &mut st().w;
    w.on = true;
    w.zeros = z;
    w.val = v.0;
    w.at = at;
    let r = derive_key::<M>(s.get(), i.get(), mode);
    assert!(r == Ok(v));
    assert!(st().w.calls == z + 1);
    if at <= z {
        let p: [&[u8]; 4] = [s.get(), &refm::i2osp2(i.get().len()), i.get(), &[at as u8]];
        let d: [&[u8]; 5] = [b"DeriveKeyPair", b"OPRFV1-", &[m], b"-", ID.as_bytes()];
        let (p, d) = (Tr::of(st().p_m, &p), Tr::of(st().p_d, &d));
        assert!(p.len == st().w.m.len && p.byte == st().w.m.byte, "input of the derivation");
        assert!(d.len == st().w.d.len && d.byte == st().w.d.byte, "tag of the derivation");
    }
    reach!(z == 0, "the first attempt");
    reach!(z == 2, "the third attempt");
}

fn from_rng(mode: u8) {
    setup();
    let mut rng = Rng::new();
    let v = any_nz();
    let w = &mut st().w;
    w.on = true;
    w.val = v.0;
    let (k, pk) = match mode {
        refm::OPRF => {
            let s = OprfServer::<M>::new(&mut rng).unwrap();
            key(&s.serialize(), E(0))
        }
        refm::VOPRF => {
            let s = VoprfServer::<M>::new(&mut rng).unwrap();
            key(&s.serialize(), s.get_public_key())
        }
        _ => {
            let s = PoprfServer::<M>::new(&mut rng).unwrap();
            key(&s.serialize(), s.get_public_key())
        }
    };
    assert!(k == v);
    assert!(mode == refm::OPRF || pk == e_mul(E(1), k));
    assert!(rng.n == SCAL, "one seed of the length of a scalar");
    assert!(st().draws == 0);
    assert!(st().w.calls == 1);
    let m: [&[u8]; 3] = [&rng.log[..SCAL], &[0, 0], &[0]];
    let d: [&[u8]; 5] = [b"DeriveKeyPair", b"OPRFV1-", &[mode], b"-", ID.as_bytes()];
    let (m, d) = (Tr::of(st().p_m, &m), Tr::of(st().p_d, &d));
    assert!(m.len == st().w.m.len && m.byte == st().w.m.byte, "input of the derivation");
    assert!(d.len == st().w.d.len && d.byte == st().w.d.byte, "tag of the derivation");
    reach!(rng.log[0] != rng.log[1], "server");
}

/// Exactly the valid keys are taken, as they are.
fn with_key(mode: u8) {
    setup();
    let buf: [u8; SCAL + 1] = nd::arr();
    let b = &buf[..nd::len(SCAL + 1)];
    let r = match mode {
        refm::OPRF => OprfServer::<M>::new_with_key(b).map(|s| key(&s.serialize(), E(0))),
        refm::VOPRF => VoprfServer::<M>::new_with_key(b).map(|s| key(&s.serialize(), s.get_public_key())),
        _ => PoprfServer::<M>::new_with_key(b).map(|s| key(&s.serialize(), s.get_public_key())),
    };
    match r {
        Ok((k, pk)) => {
            assert!(dec_s(b) == Some(k));
            assert!(mode == refm::OPRF || pk == e_mul(E(1), k));
            reach!(true, "valid key");
        }
        Err(e) => {
            assert!(e == Error::Deserialization);
            assert!(dec_s(b).is_none());
            reach!(b.len() == SCAL, "invalid key");
        }
    }
}

fn degenerate<T>(r: &Result<T>, deg: bool, e: Error) {
    match r {
        Ok(_) => assert!(!deg, "a degenerate value is used"),
        Err(x) => assert!(deg && *x == e, "refused"),
    }
    assert!(st().inversions_of_zero == 0);
    reach!(deg, "degenerate");
    reach!(!deg, "regular");
}

fn degenerate_input(mode: u8) {
    setup();
    let ib = Bytes::<2>::any();
    let input = ib.get();
    let deg = refm::h2g(input, mode) == E(0);
    let mut rng = Rng::new();
    let k = any_nz();
    match mode {
        refm::OPRF => {
            degenerate(&OprfClient::<M>::blind(input, &mut rng), deg, Error::Input);
            degenerate(&OprfClient::<M>::deterministic_blind_unchecked(input, k), deg, Error::Input);
            degenerate(&oserver(k).evaluate(input), deg, Error::Input);
        }
        refm::VOPRF => {
            degenerate(&VoprfClient::<M>::blind(input, &mut rng), deg, Error::Input);
            degenerate(&VoprfClient::<M>::deterministic_blind_unchecked(input, k), deg, Error::Input);
            degenerate(&vserver(k).evaluate(input), deg, Error::Input);
        }
        _ => {
            degenerate(&PoprfClient::<M>::blind(input, &mut rng), deg, Error::Input);
            degenerate(&PoprfClient::<M>::deterministic_blind_unchecked(input, k), deg, Error::Input);
            // The tweak is regular.
            nd::assume(s_add(refm::info_scalar(&[]), k) != S(0));
            degenerate(&pserver(k).evaluate(input, None), deg, Error::Input);
        }
    }
}

fn degenerate_tweak_server() {
    setup();
    let ib = Bytes::<2>::any();
    let info = any_info(&ib);
    let k = any_nz();
    let deg = s_add(refm::info_scalar(info.unwrap_or(&[])), k) == S(0);
    let mut rng = Rng::new();
    let s = pserver(k);
    let be = blinded(any_e());
    degenerate(&s.batch_blind_evaluate_prepare(core::iter::once(&be), info), deg, Error::Protocol);
    degenerate(&s.blind_evaluate(&mut rng, &be, info), deg, Error::Protocol);
}

fn degenerate_tweak_alloc() {
    constant(S(2));
    st().m_s = [0; 2];
    let mut rng = Rng::new();
    let be = [blinded(any_e())];
    let deg = nd::bool();
    if deg {
        let r = pserver(S(Q - 2)).batch_blind_evaluate(&mut rng, &be, None);
        degenerate(&r, true, Error::Protocol);
    } else {
        let r = pserver(S(Q - 3)).batch_blind_evaluate(&mut rng, &be, None);
        degenerate(&r, false, Error::Protocol);
    }
}

fn degenerate_tweak_evaluate() {
    setup();
    let ib = Bytes::<2>::any();
    let info = any_info(&ib);
    let input = [nd::u8()];
    regular(&input, refm::POPRF);
    let k = any_nz();
    let deg = s_add(refm::info_scalar(info.unwrap_or(&[])), k) == S(0);
    degenerate(&pserver(k).evaluate(&input, info), deg, Error::Protocol);
}

fn degenerate_tweak_client() {
    setup();
    let ib = Bytes::<2>::any();
    let info = any_info(&ib);
    let pk = any_e();
    // Answers to the challenge included, hashes are 1; it matches.
    constant(S(1));
    let deg = e_add(E(1), pk) == E(0);
    let c = pclient(any_nz(), any_e_nz());
    let m = evaluated(any_e());
    let p = proof(S(1), any_nz());
    let input: &[u8] = &[nd::u8()];
    degenerate(&c.finalize(input, &m, &p, pk, info), deg, Error::Protocol);
    let r = PoprfClient::batch_finalize(core::iter::once(input), core::array::from_ref(&c), core::array::from_ref(&m), &p, pk, info);
    degenerate(&r, deg, Error::Protocol);
}

harnesses! {
    [12] fn c11_blind_oprf() {
        limit_blind(refm::OPRF);
    }

    [12] fn c11_blind_voprf() {
        limit_blind(refm::VOPRF);
    }

    [12] fn c11_blind_poprf() {
        limit_blind(refm::POPRF);
    }

    [12] fn c11_evaluate_oprf() {
        limit_evaluate(refm::OPRF);
    }

    [12] fn c11_evaluate_voprf() {
        limit_evaluate(refm::VOPRF);
    }

    [12] fn c11_evaluate_poprf() {
        limit_evaluate(refm::POPRF);
    }

    [12] fn c11_finalize_oprf() {
        limit_finalize(refm::OPRF);
    }

    [12] fn c11_finalize_voprf() {
        limit_finalize(refm::VOPRF);
    }

    [12] fn c11_finalize_poprf() {
        limit_finalize(refm::POPRF);
    }

    [12] fn c11_batch_voprf() {
        limit_batch(refm::VOPRF);
    }

    [12] fn c11_batch_poprf() {
        limit_batch(refm::POPRF);
    }

    [12] fn c11_info_server() {
        limit_info_server();
    }

    [12] fn c11_info_evaluate() {
        limit_info_evaluate();
    }

    [12] fn c11_info_client() {
        limit_info_client();
    }

    [12] fn c11_derive() {
        limit_derive();
    }

    [12] fn c12_oprf_short() {
        derive_short(refm::OPRF);
    }

    [12] fn c12_voprf_short() {
        derive_short(refm::VOPRF);
    }

    [12] fn c12_poprf_short() {
        derive_short(refm::POPRF);
    }

    [12] fn c12_oprf_long() {
        derive_long(refm::OPRF);
    }

    [12] fn c12_voprf_long() {
        derive_long(refm::VOPRF);
    }

    [12] fn c12_poprf_long() {
        derive_long(refm::POPRF);
    }

    [260] fn c12_oprf_all() {
        derive_all(refm::OPRF);
    }

    [260] fn c12_voprf_all() {
        derive_all(refm::VOPRF);
    }

    [260] fn c12_poprf_all() {
        derive_all(refm::POPRF);
    }

    [12] fn c12_public_oprf() {
        derive_public(refm::OPRF);
    }

    [12] fn c12_public_voprf() {
        derive_public(refm::VOPRF);
    }

    [12] fn c12_public_poprf() {
        derive_public(refm::POPRF);
    }

    [12] fn c12_oprf_rng() {
        from_rng(refm::OPRF);
    }

    [12] fn c12_voprf_rng() {
        from_rng(refm::VOPRF);
    }

    [12] fn c12_poprf_rng() {
        from_rng(refm::POPRF);
    }

    [12] fn c12_oprf_key() {
        with_key(refm::OPRF);
    }

    [12] fn c12_voprf_key() {
        with_key(refm::VOPRF);
    }

    [12] fn c12_poprf_key() {
        with_key(refm::POPRF);
    }

    [12] fn c16_input_oprf() {
        degenerate_input(refm::OPRF);
    }

    [12] fn c16_input_voprf() {
        degenerate_input(refm::VOPRF);
    }

    [12] fn c16_input_poprf() {
        degenerate_input(refm::POPRF);
    }

    [12] fn c16_tweak_server() {
        degenerate_tweak_server();
    }

    [12] fn c16_tweak_alloc() {
        degenerate_tweak_alloc();
    }

    [12] fn c16_tweak_evaluate() {
        degenerate_tweak_evaluate();
    }

    [12] fn c16_tweak_client() {
        degenerate_tweak_client();
    }
}
