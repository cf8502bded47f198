//! C08: wire encodings. C14: erasure.

use core::mem::{size_of, ManuallyDrop};

use crate::mock::*;
use crate::util::*;
use crate::{nd, refm};
use voprf::*;

/// A type with a wire encoding: fields, decoding, encoding.
trait Wire: Sized + PartialEq {
    /// Whether the fields are scalars (or else elements), in order.
    const FIELDS: &'static [bool];
    fn dec(b: &[u8]) -> Result<Self>;
    fn enc(&self, out: &mut [u8]) -> usize;
}

macro_rules! wire {
    ($($t:ident [$($f:ident)*];)*) => {
        $(impl Wire for $t<M> {
            const FIELDS: &'static [bool] = &[$($f),*];
            fn dec(b: &[u8]) -> Result<Self> {
                $t::deserialize(b)
            }
            fn enc(&self, out: &mut [u8]) -> usize {
                let s = self.serialize();
                let n = s.len();
                let mut i = 0;
                while i < n {
                    out[i] = s[i];
                    i += 1;
                }
                n
            }
        })*
    };
}
const SC: bool = true;
const EL: bool = false;
wire! {
    OprfClient [SC];
    OprfServer [SC];
    VoprfClient [SC EL];
    VoprfServer [SC EL];
    PoprfClient [SC EL];
    PoprfServer [SC EL];
    Proof [SC SC];
    BlindedElement [EL];
    EvaluationElement [EL];
}

const W: usize = SCAL + ELEM;

/// Whether the reference decoder accepts, and what it reads.
fn expect(fields: &[bool], b: &[u8]) -> Option<usize> {
    let mut at = 0;
    let mut i = 0;
    while i < fields.len() {
        let n = if fields[i] { SCAL } else { ELEM };
        if b.len() < at + n {
            return None;
        }
        let f = &b[at..at + n];
        if fields[i] {
            dec_s(f)?;
        } else {
            dec_e(f)?;
        }
        at += n;
        i += 1;
    }
    Some(at)
}

fn same(a: &[u8], b: &[u8], n: usize) -> bool {
    let mut r = true;
    let mut i = 0;
    while i < n {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}

fn wire<T: Wire>() {
    setup();
    let buf: [u8; W + 2] = nd::arr();
    let n = nd::len(W + 2);
    let r = T::dec(&buf[..n]);
    let e = expect(T::FIELDS, &buf[..n]);
    match r {
        Ok(v) => {
            let len = e.expect("accepted");
            let mut out = [0; W];
            assert!(v.enc(&mut out) == len);
            assert!(same(&out, &buf, len));
            reach!(n == len, "exact");
            // Values are equal if and only if their encodings are.
            let other: [u8; W + 2] = nd::arr();
            if let Ok(w) = T::dec(&other) {
                assert!((v == w) == same(&other, &buf, len));
                reach!(v == w, "equal");
                reach!(v != w, "different");
            }
        }
        Err(x) => {
            assert!(x == Error::Deserialization);
            assert!(e.is_none(), "refused");
            reach!(n == W + 2, "invalid");
            reach!(n == 0, "empty");
        }
    }
}

/// What the API makes encodes as its fields.
fn made() {
    setup();
    let k = any_nz();
    let (b, p) = (any_nz(), any_e_nz());
    let mut rng = Rng::new();
    let input = [nd::u8()];
    assert!(oserver(k).serialize()[..] == enc_s(k));
    assert!(vserver(k).serialize()[..] == se(k, e_mul(E(1), k)));
    assert!(pserver(k).serialize()[..] == se(k, e_mul(E(1), k)));
    assert!(blinded(p).serialize()[..] == enc_e(p));
    assert!(evaluated(p).serialize()[..] == enc_e(p));
    let s = refm::h2g(&input, refm::OPRF);
    if s != E(0) {
        let r = OprfClient::<M>::deterministic_blind_unchecked(&input, b).unwrap();
        assert!(r.state.serialize()[..] == enc_s(b));
        assert!(r.message.serialize()[..] == enc_e(e_mul(s, b)));
    }
    let s = refm::h2g(&input, refm::VOPRF);
    if s != E(0) {
        let r = VoprfClient::<M>::deterministic_blind_unchecked(&input, b).unwrap();
        assert!(r.state.serialize()[..] == se(b, e_mul(s, b)));
        assert!(r.message.serialize()[..] == enc_e(e_mul(s, b)));
    }
    let s = refm::h2g(&input, refm::POPRF);
    if s != E(0) {
        let r = PoprfClient::<M>::blind(&input, &mut rng).unwrap();
        let b = S(st().draw[0]);
        assert!(r.state.serialize()[..] == se(b, e_mul(s, b)));
        assert!(r.message.serialize()[..] == enc_e(e_mul(s, b)));
        reach!(true, "all");
    }
}

/// The proof is challenge and response, in this order.
fn made_proof() {
    setup();
    let k = any_nz();
    let p = any_e_nz();
    st().w.on = true;
    st().w.val = nd::below(Q);
    let mut rng = Rng::new();
    let r = vserver(k).blind_evaluate(&mut rng, &blinded(p));
    let c = S(st().w.val);
    let s = s_sub(S(st().draw[0]), s_mul(c, k));
    let want: [u8; 2 * SCAL] = cat(enc_s(c), enc_s(s));
    assert!(r.proof.serialize()[..] == want);
    assert!(r.message.serialize()[..] == enc_e(e_mul(p, k)));
    reach!(c.0 > 1, "proof");
}

/// Drops a value and looks at the memory it was in.
fn erased<T>(v: T, nonzero: bool) {
    let mut m = ManuallyDrop::new(v);
    let p = &*m as *const T as *const u8;
    if nonzero {
        let mut some = 0;
        let mut i = 0;
        while i < size_of::<T>() {
            some |= unsafe { p.add(i).read_volatile() };
            i += 1;
        }
        assert!(some != 0);
    }
    unsafe { ManuallyDrop::drop(&mut m) };
    let mut i = 0;
    while i < size_of::<T>() {
        assert!(unsafe { p.add(i).read_volatile() } == 0, "not erased");
        i += 1;
    }
}

/// A value, or its clone, after dropping the other one.
fn pick<T: Clone>(v: T) -> T {
    if nd::bool() {
        v.clone()
    } else {
        v
    }
}

fn erase_clients() {
    let (b, e) = (any_nz(), any_e_nz());
    erased(pick(oclient(b)), true);
    erased(pick(vclient(b, e)), true);
    let input = [nd::u8()];
    let mut rng = Rng::new();
    if let Ok(r) = OprfClient::<M>::blind(&input, &mut rng) {
        erased(pick(r.state), true);
        erased(pick(r.message), true);
    }
    if let Ok(r) = VoprfClient::<M>::blind(&input, &mut rng) {
        erased(pick(r.state), true);
        erased(pick(r.message), true);
    }
    if let Ok(r) = PoprfClient::<M>::blind(&input, &mut rng) {
        erased(pick(r.state), true);
        erased(pick(r.message), true);
        reach!(true, "all");
    }
}

fn erase_servers() {
    let k = any_nz();
    erased(pick(oserver(k)), true);
    erased(pick(vserver(k)), true);
    erased(pick(pserver(k)), true);
    let mut rng = Rng::new();
    st().w.on = true;
    st().w.val = nd::below(Q);
    nd::assume(st().w.val != 0);
    erased(OprfServer::<M>::new(&mut rng).unwrap(), true);
    erased(VoprfServer::<M>::new(&mut rng).unwrap(), true);
    erased(PoprfServer::<M>::new(&mut rng).unwrap(), true);
    reach!(true, "all");
}

fn erase_voprf() {
    setup();
    let k = any_nz();
    let e = any_e();
    st().w.on = true;
    st().w.val = nd::below(Q);
    let mut rng = Rng::new();
    let server = vserver(k);
    let be = blinded(e);
    let pe = server.batch_blind_evaluate_prepare(core::iter::once(&be)).next().unwrap();
    let pes = [pe];
    let r = server.batch_blind_evaluate_finish(&mut rng, core::iter::once(&be), &pes).unwrap();
    let mut ms = r.messages;
    erased(pick(ms.next().unwrap()), false);
    erased(pick(r.proof), false);
    let [pe] = pes;
    erased(pick(pe), false);
    erased(pick(be), false);
    let be = blinded(e);
    let r = server.blind_evaluate(&mut rng, &be);
    erased(r.message, false);
    erased(r.proof, false);
    reach!(e.0 > 1, "all");
}

fn erase_poprf() {
    setup();
    let k = any_nz();
    let e = any_e();
    st().w.on = true;
    st().w.val = nd::below(Q);
    let mut rng = Rng::new();
    let server = pserver(k);
    let be = blinded(e);
    if let Ok(mut p) = server.batch_blind_evaluate_prepare(core::iter::once(&be), None) {
        let pe = p.prepared_evaluation_elements.next().unwrap();
        let pes = [pe];
        let tweak = p.prepared_tweak;
        let r = PoprfServer::batch_blind_evaluate_finish(&mut rng, core::iter::once(&be), &pes, &tweak).unwrap();
        let mut ms = r.messages;
        erased(pick(ms.next().unwrap()), false);
        erased(pick(r.proof), false);
        let [pe] = pes;
        erased(pick(pe), false);
        erased(pick(tweak), true);
        erased(pick(be), false);
        reach!(e.0 > 1, "all");
    }
}

/// Drops go unnoticed if the compiler says there is nothing to drop.
fn needs_drop() {
    macro_rules! check {
        ($($t:ident)*) => {
            $(assert!(core::mem::needs_drop::<$t<M>>(), stringify!($t));)*
        };
    }
    check! { OprfClient OprfServer VoprfClient VoprfServer PoprfClient PoprfServer BlindedElement
        EvaluationElement PreparedEvaluationElement PoprfPreparedTweak Proof }
}

harnesses! {
    [12] fn c08_oprf_client() {
        wire::<OprfClient<M>>();
    }

    [12] fn c08_oprf_server() {
        wire::<OprfServer<M>>();
    }

    [12] fn c08_voprf_client() {
        wire::<VoprfClient<M>>();
    }

    [12] fn c08_voprf_server() {
        wire::<VoprfServer<M>>();
    }

    [12] fn c08_poprf_client() {
        wire::<PoprfClient<M>>();
    }

    [12] fn c08_poprf_server() {
        wire::<PoprfServer<M>>();
    }

    [12] fn c08_proof() {
        wire::<Proof<M>>();
    }

    [12] fn c08_blinded() {
        wire::<BlindedElement<M>>();
    }

    [12] fn c08_evaluated() {
        wire::<EvaluationElement<M>>();
    }

    [12] fn c08_made() {
        made();
    }

    [12] fn c08_made_proof() {
        made_proof();
    }

    [12] fn c14_clients() {
        setup();
        erase_clients();
    }

    [12] fn c14_servers() {
        setup();
        needs_drop();
        erase_servers();
    }

    [12] fn c14_voprf() {
        erase_voprf();
    }

    [12] fn c14_poprf() {
        erase_poprf();
    }
}
