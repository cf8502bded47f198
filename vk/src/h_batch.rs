//! C06: shapes of batches. C07: weights of all positions.

use core::cell::Cell;

use crate::mock::*;
use crate::util::*;
use crate::{nd, refm};
use voprf::*;

fn wrong(a: usize, b: usize) -> bool {
    a != b || a > 65535
}

/// Hash-to-scalar is constant 1.
fn constant_hash() {
    st().w.on = true;
    st().w.val = 1;
}

/// Large batches that differ in size, but not by much, do not occur twice.
fn sizes() -> (usize, usize, bool) {
    let (a, b) = (any_size(), any_size());
    (a, b, wrong(a, b))
}

fn verdict<T>(r: &Result<T>, bad: bool) {
    match r {
        Ok(_) => assert!(!bad, "a wrong batch is accepted"),
        Err(e) => {
            assert!(bad || *e != Error::Batch, "a good batch is refused");
            assert!(!bad || *e == Error::Batch, "a wrong batch fails otherwise");
        }
    }
}

fn voprf_server() {
    let (a, b, bad) = sizes();
    constant_hash();
    let server = vserver(S(2));
    let be = blinded(E(3));
    let pe = server.batch_blind_evaluate_prepare(core::iter::once(&be)).next().unwrap();
    let blinded = Shape { item: &be, n: a, fine: !bad };
    let prepared = Shape { item: &pe, n: b, fine: !bad };
    let mut rng = Rng::new();
    let r = server.batch_blind_evaluate_finish(&mut rng, blinded.into_iter(), &prepared);
    verdict(&r, bad);
    reach!(a > 65535 && a == b && r.is_err(), "too large");
    reach!(a != b && r.is_err(), "mismatch");
    if let Ok(r) = r {
        assert!(r.messages.len() == a);
        reach!(a == 2, "accepted");
        reach!(a == 0, "empty");
    }
}

fn poprf_server() {
    let (a, b, bad) = sizes();
    constant_hash();
    let server = pserver(S(2));
    let be = blinded(E(3));
    let mut p = server.batch_blind_evaluate_prepare(core::iter::once(&be), None).unwrap();
    let pe = p.prepared_evaluation_elements.next().unwrap();
    let blinded = Shape { item: &be, n: a, fine: !bad };
    let prepared = Shape { item: &pe, n: b, fine: !bad };
    let mut rng = Rng::new();
    let r = PoprfServer::batch_blind_evaluate_finish(&mut rng, blinded.into_iter(), &prepared, &p.prepared_tweak);
    verdict(&r, bad);
    reach!(a > 65535 && a == b && r.is_err(), "too large");
    reach!(a != b && r.is_err(), "mismatch");
    if let Ok(r) = r {
        assert!(r.messages.len() == a);
        reach!(a == 2, "accepted");
        reach!(a == 0, "empty");
    }
}

/// A collection that has 2 items when it is first looked at, and then 3.
struct Changing<'a, T> {
    item: &'a T,
    first: Cell<bool>,
}

impl<'a, 'b, T> IntoIterator for &'b Changing<'a, T> {
    type Item = &'a T;
    type IntoIter = RepIter<'a, T>;
    fn into_iter(self) -> RepIter<'a, T> {
        RepIter(self.item, if self.first.replace(false) { 2 } else { 3 })
    }
}

/// The one-shot functions pass on the verdict on the batch.
fn voprf_alloc() {
    constant_hash();
    st().m_s = [0; 2];
    let server = vserver(S(2));
    let be = blinded(E(3));
    let mut rng = Rng::new();
    let items = Changing { item: &be, first: Cell::new(true) };
    match server.batch_blind_evaluate(&mut rng, &items) {
        Ok(r) => assert!(r.messages.len() == 2 || r.messages.len() == 3),
        Err(e) => assert!(e == Error::Batch),
    }
    reach!(true, "end");
}

fn poprf_alloc() {
    constant_hash();
    st().m_s = [0; 2];
    let server = pserver(S(2));
    let be = blinded(E(3));
    let mut rng = Rng::new();
    let items = Changing { item: &be, first: Cell::new(true) };
    match server.batch_blind_evaluate(&mut rng, &items, None) {
        Ok(r) => assert!(r.messages.len() == 2 || r.messages.len() == 3),
        Err(e) => assert!(e == Error::Batch),
    }
    reach!(true, "end");
}

fn voprf_client() {
    let (a, b, bad) = sizes();
    constant_hash();
    let c = vclient(S(2), E(3));
    let m = evaluated(E(4));
    let clients = Shape { item: &c, n: a, fine: !bad };
    let messages = Shape { item: &m, n: b, fine: !bad };
    let input: &[u8] = &[7];
    let inputs = [input; 2];
    // Hashes are 1: the challenge matches.
    let p = proof(S(1), any_nz());
    let pk = any_e();
    let r = VoprfClient::batch_finalize(&inputs, &clients, &messages, &p, pk);
    verdict(&r, bad);
    assert!(bad || r.is_ok());
    reach!(a > 65535 && a == b && r.is_err(), "too large");
    reach!(a != b && r.is_err(), "mismatch");
    if let Ok(r) = r {
        reach!(a == 2, "accepted");
        if a == 2 {
            assert!(r.count() == 2);
        }
    }
}

fn poprf_client() {
    let (a, b, bad) = sizes();
    let i = any_size();
    constant_hash();
    let c = pclient(S(2), E(3));
    let m = evaluated(E(4));
    let clients = Shape { item: &c, n: a, fine: !bad };
    let messages = Shape { item: &m, n: b, fine: !bad };
    let input: &[u8] = &[7];
    let inputs = RepIter(&input, i);
    let pc = any_nz();
    let p = proof(pc, any_nz());
    let pk = E(2);
    let r = PoprfClient::batch_finalize(inputs.copied(), &clients, &messages, &p, pk, None);
    match r {
        Ok(it) => {
            assert!(!bad && i == a, "a wrong batch is accepted");
            assert!(pc == S(1));
            reach!(a == 2, "accepted");
            if a == 2 {
                assert!(it.count() == 2);
            }
        }
        Err(e) => {
            // With a wrong proof, too, either error will do.
            let ok = if bad {
                e == Error::Batch
            } else if i != a {
                e == Error::Batch || (pc != S(1) && e == Error::ProofVerification)
            } else {
                pc != S(1) && e == Error::ProofVerification
            };
            assert!(ok, "wrong error");
            reach!(bad && a == b, "too large");
            reach!(a != b, "mismatch");
            reach!(!bad && i != a && pc == S(1), "mismatch of the inputs");
        }
    }
}


/////////
// C07 //
/////////

#[derive(Clone, Copy, PartialEq)]
enum Op {
    VoprfServer,
    VoprfClient,
    PoprfServer,
    PoprfClient,
}

/// A batch of `n` pairs that are all alike, but for the one at position `j`.
fn positions(n: usize, op: Op, odd: bool) {
    setup();
    let j = nd::usize();
    nd::assume(j < n);
    // Position of the odd pair.
    let o = if odd { j } else { usize::MAX };
    let mode = if matches!(op, Op::VoprfServer | Op::VoprfClient) { refm::VOPRF } else { refm::POPRF };
    // Key of the server; in mode POPRF, the info's scalar is 1.
    let k = S(2);
    let pk = E(2);
    let (kk, b) = if mode == refm::VOPRF { (k, pk) } else { (S(3), E(3)) };
    // The pairs (blinded, evaluated), at `j` and elsewhere.
    let ev = |x: E| if mode == refm::VOPRF { e_mul(x, kk) } else { e_mul(x, s_inv(kk)) };
    let x = [E(1), if odd { E(4) } else { E(1) }];
    let y = [ev(x[0]), ev(x[1])];
    let seed = refm::composite_seed(b, mode);
    // Mode POPRF: the roles are swapped.
    let (c, d) = if mode == refm::VOPRF { (x, y) } else { (y, x) };
    let w = &mut st().w;
    w.on = true;
    w.val = 1;
    w.clen = (2 + HLEN + 2 + 2 * (2 + ELEM) + 9) as u32;
    w.coff = 2 + HLEN;
    w.cbytes = odd;
    w.cidx = refm::i2osp2(j);
    w.xlen = (5 * (2 + ELEM) + 9) as u32;
    let mut rng = Rng::new();
    let be = [blinded(x[0]), blinded(x[1])];
    let bs = Odd { a: &be[0], b: &be[1], j: o, n };
    let mut s = S(0);
    match op {
        Op::VoprfServer => {
            let server = vserver(k);
            let mut it = server.batch_blind_evaluate_prepare(be.iter());
            let pe = [it.next().unwrap(), it.next().unwrap()];
            let ps = Odd { a: &pe[0], b: &pe[1], j: o, n };
            let r = server.batch_blind_evaluate_finish(&mut rng, bs.into_iter(), &ps).unwrap();
            let p = r.proof.serialize();
            s = S(p[2] ^ st().m_s[0]);
        }
        Op::PoprfServer => {
            let server = pserver(k);
            let mut r = server.batch_blind_evaluate_prepare(be.iter(), None).unwrap();
            let it = &mut r.prepared_evaluation_elements;
            let pe = [it.next().unwrap(), it.next().unwrap()];
            let ps = Odd { a: &pe[0], b: &pe[1], j: o, n };
            let r = PoprfServer::batch_blind_evaluate_finish(&mut rng, bs.into_iter(), &ps, &r.prepared_tweak).unwrap();
            let p = r.proof.serialize();
            s = S(p[2] ^ st().m_s[0]);
        }
        Op::VoprfClient => {
            let cl = [vclient(S(1), x[0]), vclient(S(1), x[1])];
            let clients = Odd { a: &cl[0], b: &cl[1], j: o, n };
            let em = [evaluated(y[0]), evaluated(y[1])];
            let messages = Odd { a: &em[0], b: &em[1], j: o, n };
            let input: &[u8] = &[7];
            s = any_nz();
            assert!(VoprfClient::batch_finalize(&[input; 1], &clients, &messages, &proof(S(1), s), pk).is_ok());
        }
        Op::PoprfClient => {
            let cl = [pclient(S(1), x[0]), pclient(S(1), x[1])];
            let clients = Odd { a: &cl[0], b: &cl[1], j: o, n };
            let em = [evaluated(y[0]), evaluated(y[1])];
            let messages = Odd { a: &em[0], b: &em[1], j: o, n };
            let input: &[u8] = &[7];
            s = any_nz();
            let inputs = RepIter(&input, n).copied();
            assert!(PoprfClient::batch_finalize(inputs, &clients, &messages, &proof(S(1), s), pk, None).is_ok());
        }
    }
    let w = &st().w;
    // The weight of position j.
    assert!(w.cseen as usize == n, "number of weights");
    assert!(w.cfound == 1, "weights with this index");
    let parts: [&[u8]; 8] = [
        &refm::i2osp2(HLEN),
        &seed,
        &refm::i2osp2(j),
        &refm::i2osp2(ELEM),
        &enc_e(c[1]),
        &refm::i2osp2(ELEM),
        &enc_e(d[1]),
        b"Composite",
    ];
    let e = Tr::of(st().p_m, &parts);
    assert!(!odd || (e.len == w.cm.len && e.byte == w.cm.byte), "transcript of the weight");
    // All pairs are in the composites of the challenge.
    let sum = |v: [E; 2]| e_add(e_mul(v[0], S(((n - 1) % Q as usize) as u8)), v[1]);
    let (m, z) = (sum(c), sum(d));
    // t2 = sG + cB etc.; honest pairs: t3 = r m.
    let r = s_add(s, kk);
    let parts: [&[u8]; 11] = [
        &refm::i2osp2(ELEM),
        &enc_e(b),
        &refm::i2osp2(ELEM),
        &enc_e(m),
        &refm::i2osp2(ELEM),
        &enc_e(z),
        &refm::i2osp2(ELEM),
        &enc_e(e_mul(E(1), r)),
        &refm::i2osp2(ELEM),
        &enc_e(e_mul(m, r)),
        b"Challenge",
    ];
    let e = Tr::of(st().p_m, &parts);
    assert!(w.xseen == 1);
    assert!(e.byte == w.xm.byte, "transcript of the challenge");
    reach!(j == 0, "first");
    reach!(j == n - 1, "last");
}

const FEW: usize = 5;
const MANY: usize = 258;

harnesses! {
    [12] fn c06_voprf_server() {
        voprf_server();
    }

    [12] fn c06_poprf_server() {
        poprf_server();
    }

    [12] fn c06_voprf_alloc() {
        voprf_alloc();
    }

    [12] fn c06_poprf_alloc() {
        poprf_alloc();
    }

    [12] fn c06_voprf_client() {
        voprf_client();
    }

    [12] fn c06_poprf_client() {
        poprf_client();
    }

    [12] fn c07_voprf_server() {
        positions(FEW, Op::VoprfServer, true);
    }

    [12] fn c07_voprf_client() {
        positions(FEW, Op::VoprfClient, true);
    }

    [12] fn c07_poprf_server() {
        positions(FEW, Op::PoprfServer, true);
    }

    [12] fn c07_poprf_client() {
        positions(FEW, Op::PoprfClient, true);
    }

    [302] fn c07_many_server() {
        positions(MANY, Op::VoprfServer, false);
    }

    [302] fn t07_many_client() {
        positions(MANY, Op::VoprfClient, false);
    }

    [302] fn t07_many_poprf_server() {
        positions(MANY, Op::PoprfServer, false);
    }

    [302] fn t07_many_poprf_client() {
        positions(MANY, Op::PoprfClient, false);
    }
}
