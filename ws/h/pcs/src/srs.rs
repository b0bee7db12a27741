//! Reference strings.

use crate::uni::{Setup, S};
use ark_ec::{pairing::Pairing, AffineRepr};
use ark_ff::UniformRand;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_pcs::{checked_fft_size, prelude::*, UnivariatePCS};
use vh::{gen, guard, Case};

fn pairs<E: Pairing>(a: E::G1Affine, b: E::G2Affine, x: E::G1Affine, y: E::G2Affine) -> bool {
    E::pairing(a, b) == E::pairing(x, y)
}

/// Every power is the secret times the one before, in both groups.
pub fn fresh<E: Pairing>(c: &mut Case) {
    let mut rng = c.rng.clone();
    if c.idx % 2 == 0 {
        let (top, verifier) = (c.below(8), c.range(1, 4));
        let plain = c.coin();
        c.key((c.idx % 3, top, verifier, plain));
        let got = if plain {
            UnivariateUniversalParams::<E>::gen_srs_for_testing(&mut rng, top)
        } else {
            UnivariateUniversalParams::<E>::gen_srs_for_testing_with_verifier_degree(&mut rng, top, verifier)
        };
        let verifier = if plain { 1 } else { verifier };
        let Some(srs) = c.ok(got, "generate") else { return };
        c.check(srs.powers_of_g.len() == top.max(verifier) + 1, "prover_powers", || format!("{} for {top}", srs.powers_of_g.len()));
        c.check(srs.powers_of_h.len() == verifier + 1, "verifier_powers", || format!("{} for {verifier}", srs.powers_of_h.len()));
        c.check(!srs.powers_of_g[0].is_zero() && !srs.h.is_zero(), "generators", || "identity".into());
        c.eq(&srs.powers_of_h[0], &srs.h, "first_power_h");
        c.eq(&srs.powers_of_h[1], &srs.beta_h, "second_power_h");
        c.ev("fresh");
        for i in 1..srs.powers_of_g.len() {
            c.ev("fresh");
            c.check(pairs::<E>(srs.powers_of_g[i], srs.h, srs.powers_of_g[i - 1], srs.beta_h), "powers_of_g", || format!("power {i} of {top}"));
        }
        for i in 1..srs.powers_of_h.len() {
            c.ev("fresh");
            c.check(pairs::<E>(srs.powers_of_g[1], srs.powers_of_h[i - 1], srs.powers_of_g[0], srs.powers_of_h[i]), "powers_of_h", || format!("power {i} of {verifier}"));
        }
        return;
    }
    let nv = c.range(1, 4);
    c.key((c.idx % 3, nv));
    let Some(srs) = c.ok(MultilinearUniversalParams::<E>::gen_srs_for_testing(&mut rng, nv), "generate") else { return };
    let p = &srs.prover_param;
    c.eq(&p.num_vars, &nv, "num_vars");
    c.eq(&p.powers_of_g.len(), &(nv + 1), "levels");
    c.eq(&srs.h_mask.len(), &nv, "masks");
    c.eq(&p.powers_of_g[nv].evals, &vec![p.g], "last_level");
    for i in 0..nv {
        let (here, next) = (&p.powers_of_g[i].evals, &p.powers_of_g[i + 1].evals);
        c.eq(&here.len(), &(1 << (nv - i)), "level_size");
        for b in 0..next.len() {
            c.ev("fresh");
            c.check((here[2 * b] + here[2 * b + 1]) == next[b].into(), "level_sum", || format!("level {i} place {b} of {nv}"));
            c.check(pairs::<E>(here[2 * b + 1], p.h, next[b], srs.h_mask[i]), "level_mask", || format!("level {i} place {b} of {nv}"));
        }
    }
    c.check(MultilinearUniversalParams::<E>::gen_srs_for_testing(&mut rng, 0).is_err(), "no_variables", || "accepted".into());
}

pub fn trimmed<E: Pairing>(c: &mut Case) {
    if c.idx % 2 == 0 {
        let (top, verifier) = (c.below(24), c.range(1, 4));
        let s = Setup::<E>::new(c, top, verifier);
        let srs = &s.srs;
        let have = srs.powers_of_g.len() - 1;
        let (a, b) = (c.below(have + 4), c.below(verifier + 3));
        c.key((c.idx % 3, top, verifier, a, b));
        c.ev("trimmed:trim_with_verifier_degree");
        let got = guard(|| srs.trim_with_verifier_degree(a, b));
        let fits = a <= have && b <= verifier && b > 0;
        match got {
            Ok(Ok((pk, vk))) => {
                c.check(fits, "trim_beyond", || format!("{a} of {have}, {b} of {verifier}"));
                c.check(pk.powers_of_g[..] == srs.powers_of_g[..=a], "prover_prefix", || format!("{a} of {have}"));
                c.check(vk.powers_of_g[..] == srs.powers_of_g[..=b], "verifier_prefix", || format!("{b} of {verifier}"));
                c.check(vk.powers_of_h[..] == srs.powers_of_h[..=b], "verifier_prefix_h", || format!("{b} of {verifier}"));
                c.check(vk.g == srs.powers_of_g[0] && vk.h == srs.h && vk.beta_h == srs.beta_h, "verifier_key", || "differs".into());
                c.eq(&srs.extract_prover_param(a), &pk, "extract_prover");
                c.eq(&srs.extract_verifier_param(b), &vk, "extract_verifier");
            },
            Ok(Err(_)) => {
                c.check(!fits, "trim_refused", || format!("{a} of {have}, {b} of {verifier}"));
            },
            Err(e) => c.fail("trim_panics", format!("{a} of {have}, {b} of {verifier}: {e}")),
        }
        c.ev("trimmed:trim");
        match UnivariateKzgPCS::<E>::trim(srs, a, None) {
            Ok((pk, vk)) => {
                c.check(a <= have, "trim_beyond", || format!("{a} of {have}"));
                c.check(pk.powers_of_g[..] == srs.powers_of_g[..=a], "prover_prefix", || format!("{a} of {have}"));
                c.check(vk.powers_of_h[..] == srs.powers_of_h[..2], "verifier_prefix_h", || "plain trim".into());
            },
            Err(_) => {
                c.check(a > have, "trim_refused", || format!("{a} of {have}"));
            },
        }
        c.check(UnivariateKzgPCS::<E>::trim(srs, a, Some(1)).is_err(), "variables_given", || "accepted".into());
        c.ev("trimmed:trim_fft_size");
        // enough room for a transform of the given degree
        match UnivariateKzgPCS::<E>::trim_fft_size(srs, a) {
            Ok((pk, _)) => {
                c.check(pk.powers_of_g.len() > a, "fft_room", || format!("{} powers for degree {a}", pk.powers_of_g.len()));
                c.check(pk.powers_of_g[..] == srs.powers_of_g[..pk.powers_of_g.len()], "prover_prefix", || format!("{a} of {have}"));
            },
            Err(_) => {
                c.check(2 * a > have || a == 0 && have == 0, "fft_trim_refused", || format!("{a} of {have}"));
            },
        }
        let d = match c.below(5) {
            0 => usize::MAX - c.below(3),
            1 => 1usize << c.below(64),
            2 => (1usize << c.below(64)).wrapping_sub(1),
            3 => (1usize << 63) + c.below(3),
            _ => c.below(5000),
        };
        c.key(d);
        c.ev("trimmed");
        let want = (0..64).map(|i| 1usize << i).find(|&x| x > d || (d == 0 && x == 1));
        if let Some(got) = c.no_panic("fft_size_panics", || checked_fft_size(d)) {
            c.check(got.as_ref().ok() == want.as_ref(), "fft_size", || format!("{d}: {got:?}"));
        }
        return;
    }
    let nv = c.range(1, 5);
    let s = crate::multi::Setup::<E>::new(c, nv, 1);
    let k = c.below(nv + 3);
    c.key((c.idx % 3, nv, k, 1));
    c.ev("trimmed:trim");
    let Some(got) = c.no_panic("ml_trim_panics", || s.srs.0.trim(k)) else { return };
    match got {
        Ok((pk, vk)) => {
            c.check(k <= nv, "ml_trim_beyond", || format!("{k} of {nv}"));
            c.eq(&pk.num_vars, &k, "ml_trim_vars");
            c.eq(&vk.num_vars, &k, "ml_trim_vars");
            c.check(pk.powers_of_g.len() == k + 1 && vk.h_mask.len() == k, "ml_trim_sizes", || format!("{k} of {nv}"));
            for i in 0..=k {
                c.eq(&pk.powers_of_g[i].evals, &s.srs.0.prover_param.powers_of_g[nv - k + i].evals, "ml_trim_levels");
            }
            c.eq(&vk.h_mask, &s.srs.0.h_mask[nv - k..].to_vec(), "ml_trim_masks");
            c.check((pk.g, pk.h, vk.g, vk.h) == (s.srs.0.prover_param.g, s.srs.0.prover_param.h, s.srs.0.prover_param.g, s.srs.0.prover_param.h), "ml_trim_generators", || "differ".into());
            let (a, b) = (s.srs.0.extract_prover_param(k), s.srs.0.extract_verifier_param(k));
            c.check(a.num_vars == k && a.powers_of_g.len() == k + 1 && a.powers_of_g[0].evals == pk.powers_of_g[0].evals, "ml_extract_prover", || format!("{k} of {nv}"));
            c.check(b.num_vars == k && b.h_mask == vk.h_mask && b.g == vk.g && b.h == vk.h, "ml_extract_verifier", || format!("{k} of {nv}"));
        },
        Err(_) => {
            c.check(k > nv, "ml_trim_refused", || format!("{k} of {nv}"));
        },
    }
    c.check(MultilinearKzgPCS::<E>::trim(&s.srs, 1, None).is_err(), "variables_missing", || "accepted".into());
}

fn there_and_back<T: CanonicalSerialize + CanonicalDeserialize>(c: &mut Case, x: &T, what: &str) -> Option<T> {
    let mut out = None;
    for compress in [false, true] {
        c.ev("there_and_back");
        let mut a = vec![];
        let wrote = if compress { x.serialize_compressed(&mut a) } else { x.serialize_uncompressed(&mut a) };
        c.ok(wrote, &format!("encode_{what}"))?;
        let size = if compress { x.compressed_size() } else { x.uncompressed_size() };
        c.eq(&a.len(), &size, &format!("size_{what}"));
        let back = if compress { T::deserialize_compressed(&a[..]) } else { T::deserialize_uncompressed(&a[..]) };
        let back = c.ok(back, &format!("decode_{what}"))?;
        let mut b = vec![];
        let _ = if compress { back.serialize_compressed(&mut b) } else { back.serialize_uncompressed(&mut b) };
        c.eq(&b, &a, &format!("reencode_{what}"));
        // through a stream that comes in small pieces
        let step = c.range(1, 40);
        let mut w = vh::Drip::writer(step);
        let _ = if compress { x.serialize_compressed(&mut w) } else { x.serialize_uncompressed(&mut w) };
        c.eq(&w.into, &a, &format!("encode_in_pieces_{what}"));
        let r = vh::Drip::reader(&a, step);
        let back2 = if compress { T::deserialize_compressed(r) } else { T::deserialize_uncompressed(r) };
        let mut b = vec![];
        if let Some(back2) = c.ok(back2, &format!("decode_in_pieces_{what}")) {
            let _ = if compress { back2.serialize_compressed(&mut b) } else { back2.serialize_uncompressed(&mut b) };
        }
        c.eq(&b, &a, &format!("reencode_in_pieces_{what}"));
        // cut short: refused
        let cut = c.below(a.len());
        let got = guard(|| if compress { T::deserialize_compressed(&a[..cut]).is_ok() } else { T::deserialize_uncompressed(&a[..cut]).is_ok() });
        c.check(got == Ok(false), &format!("short_{what}"), || format!("{cut} of {} bytes: {got:?}", a.len()));
        out = Some(back);
    }
    out
}

pub fn encoded<E: Pairing>(c: &mut Case) {
    let (top, verifier) = (c.below(6), c.range(1, 3));
    let s = Setup::<E>::new(c, top, verifier);
    let nv = c.range(1, 3);
    let m = crate::multi::Setup::<E>::new(c, nv, 1);
    c.key((c.idx % 3, top, verifier, nv));
    if let Some(x) = there_and_back(c, &s.srs, "srs") {
        c.eq(&x, &s.srs, "same_srs");
    }
    let (pk, vk) = s.srs.trim_with_verifier_degree(top, verifier).unwrap();
    if let Some(x) = there_and_back(c, &pk, "prover_param") {
        c.eq(&x, &pk, "same_prover_param");
    }
    if let Some(x) = there_and_back(c, &vk, "verifier_param") {
        c.eq(&x, &vk, "same_verifier_param");
    }
    if let Some(x) = there_and_back(c, &m.srs.0, "ml_srs") {
        c.check(x.h_mask == m.srs.0.h_mask && x.prover_param.powers_of_g[0].evals == m.srs.0.prover_param.powers_of_g[0].evals && x.prover_param.num_vars == nv, "same_ml_srs", || "differs".into());
    }
    let (pk, vk) = m.srs.0.trim(nv).unwrap();
    there_and_back(c, &pk, "ml_prover_param");
    if let Some(x) = there_and_back(c, &vk, "ml_verifier_param") {
        c.check(x.h_mask == vk.h_mask && x.g == vk.g && x.h == vk.h && x.num_vars == nv, "same_ml_verifier_param", || "differs".into());
    }
    let x = if c.below(4) == 0 { S::<E>::from(0u64) } else { gen::field(c) };
    let com = s.com(x);
    if let Some(y) = there_and_back(c, &com, "commitment") {
        c.eq(&y, &com, "same_commitment");
    }
    let proof = s.proof(x);
    if let Some(y) = there_and_back(c, &proof, "proof") {
        c.eq(&y, &proof, "same_proof");
    }
    let ml = MultilinearKzgProof { proofs: (0..c.below(4)).map(|_| s.at(S::<E>::rand(&mut c.rng))).collect() };
    if let Some(y) = there_and_back(c, &ml, "ml_proof") {
        c.eq(&y, &ml, "same_ml_proof");
    }
    let b = MultilinearKzgBatchProof { proof: ml, q_x_commit: com, q_x_opens: vec![proof; c.below(3)] };
    if let Some(y) = there_and_back(c, &b, "ml_batch_proof") {
        c.eq(&y, &b, "same_ml_batch_proof");
    }
}
