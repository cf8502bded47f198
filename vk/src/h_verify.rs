//! C04, C05: the client accepts exactly what the specification's VerifyProof
//! accepts, and nothing comes out of a rejected answer.

use crate::mock::*;
use crate::util::*;
use crate::{nd, refm};
use voprf::*;

fn voprf<const N: usize>() {
    let pk = any_e();
    let (c, s) = (any_nz(), any_nz());
    let buf: [u8; N] = nd::arr();
    let inputs: [&[u8]; N] = core::array::from_fn(|i| &buf[i..i + 1]);
    let blinds: [S; N] = [(); N].map(|_| any_nz());
    let be: [E; N] = [(); N].map(|_| any_e_nz());
    let ee: [E; N] = [(); N].map(|_| any_e());
    let clients: [VoprfClient<M>; N] = core::array::from_fn(|i| vclient(blinds[i], be[i]));
    let messages = ee.map(evaluated);
    let r = VoprfClient::batch_finalize(&inputs, &clients, &messages, &proof(c, s), pk);
    let ok = refm::verify(pk, &be, &ee, c, s, refm::VOPRF);
    match r {
        Ok(mut outs) => {
            reach!(true, "accepted");
            assert!(ok);
            let mut i = 0;
            while i < N {
                let o = outs.next().unwrap().unwrap();
                assert!(o[..] == refm::output(inputs[i], e_mul(ee[i], s_inv(blinds[i]))));
                i += 1;
            }
            assert!(outs.next().is_none());
        }
        Err(e) => {
            reach!(true, "rejected");
            assert!(e == Error::ProofVerification);
            assert!(!ok);
        }
    }
}

fn voprf1() {
    let pk = any_e();
    let (c, s) = (any_nz(), any_nz());
    let (blind, be, ee) = (any_nz(), any_e_nz(), any_e());
    let input = [nd::u8()];
    let r = vclient(blind, be).finalize(&input, &evaluated(ee), &proof(c, s), pk);
    let ok = refm::verify(pk, &[be], &[ee], c, s, refm::VOPRF);
    match r {
        Ok(o) => {
            reach!(true, "accepted");
            assert!(ok);
            assert!(o[..] == refm::output(&input, e_mul(ee, s_inv(blind))));
        }
        Err(e) => {
            reach!(true, "rejected");
            assert!(e == Error::ProofVerification);
            assert!(!ok);
        }
    }
}

fn poprf<const N: usize>() {
    let pk = any_e();
    let (c, s) = (any_nz(), any_nz());
    let ib = Bytes::<1>::any();
    let info = any_info(&ib);
    let inf = info.unwrap_or(&[]);
    let buf: [u8; N] = nd::arr();
    let inputs: [&[u8]; N] = core::array::from_fn(|i| &buf[i..i + 1]);
    let blinds: [S; N] = [(); N].map(|_| any_nz());
    let be: [E; N] = [(); N].map(|_| any_e_nz());
    let ee: [E; N] = [(); N].map(|_| any_e());
    let clients: [PoprfClient<M>; N] = core::array::from_fn(|i| pclient(blinds[i], be[i]));
    let messages = ee.map(evaluated);
    let tk = e_add(e_mul(E(1), refm::info_scalar(inf)), pk);
    let r = PoprfClient::batch_finalize(inputs.into_iter(), &clients, &messages, &proof(c, s), pk, info);
    if tk == E(0) {
        reach!(true, "tweaked key is the identity");
        assert!(matches!(r, Err(Error::Protocol)));
        return;
    }
    let ok = refm::verify(tk, &ee, &be, c, s, refm::POPRF);
    match r {
        Ok(mut outs) => {
            reach!(true, "accepted");
            assert!(ok);
            let mut i = 0;
            while i < N {
                let o = outs.next().unwrap().unwrap();
                let x = e_mul(ee[i], s_inv(blinds[i]));
                assert!(o[..] == refm::output_info(inputs[i], inf, x));
                i += 1;
            }
            assert!(outs.next().is_none());
        }
        Err(e) => {
            reach!(true, "rejected");
            assert!(e == Error::ProofVerification);
            assert!(!ok);
        }
    }
}

fn poprf1() {
    let pk = any_e();
    let (c, s) = (any_nz(), any_nz());
    let (blind, be, ee) = (any_nz(), any_e_nz(), any_e());
    let ib = Bytes::<2>::any();
    let info = any_info(&ib);
    let inf = info.unwrap_or(&[]);
    let input = [nd::u8()];
    let tk = e_add(e_mul(E(1), refm::info_scalar(inf)), pk);
    let r = pclient(blind, be).finalize(&input, &evaluated(ee), &proof(c, s), pk, info);
    if tk == E(0) {
        reach!(true, "tweaked key is the identity");
        assert!(matches!(r, Err(Error::Protocol)));
        return;
    }
    let ok = refm::verify(tk, &[ee], &[be], c, s, refm::POPRF);
    match r {
        Ok(o) => {
            reach!(true, "accepted");
            assert!(ok);
            assert!(o[..] == refm::output_info(&input, inf, e_mul(ee, s_inv(blind))));
        }
        Err(e) => {
            reach!(true, "rejected");
            assert!(e == Error::ProofVerification);
            assert!(!ok);
        }
    }
}

harnesses! {
    [12] fn c04_voprf_single() {
        setup();
        voprf1();
    }

    [12] fn c04_voprf_batch2() {
        setup();
        voprf::<2>();
    }

    // A proof for nothing still shows knowledge of the key.
    [12] fn c04_voprf_empty() {
        setup();
        voprf::<0>();
    }

    [12] fn t04_voprf_batch3() {
        setup();
        voprf::<3>();
    }

    [12] fn c05_poprf_single() {
        setup();
        poprf1();
    }

    [12] fn c05_poprf_batch2() {
        setup();
        poprf::<2>();
    }

    [12] fn c05_poprf_empty() {
        setup();
        poprf::<0>();
    }

    [12] fn t05_poprf_batch3() {
        setup();
        poprf::<3>();
    }
}
