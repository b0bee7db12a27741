//! Multilinear commitments.

use crate::uni::{self, S};
use ark_ec::{pairing::Pairing, CurveGroup, PrimeGroup};
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use ark_poly::DenseMultilinearExtension;
use jf_pcs::prelude::*;
use std::sync::Arc;
use vh::{gen, guard, Case};

type Pcs<E> = MultilinearKzgPCS<E>;

/// Reference strings whose secrets are known.
pub struct Setup<E: Pairing> {
    pub g: E::G1,
    pub t: Vec<S<E>>,
    pub uni: uni::Setup<E>,
    pub srs: (MultilinearUniversalParams<E>, UnivariateUniversalParams<E>),
}

impl<E: Pairing> Setup<E> {
    pub fn new(c: &mut Case, nv: usize, degree: usize) -> Self {
        let (g, h) = if c.coin() {
            (E::G1::generator(), E::G2::generator())
        } else {
            (E::G1::rand(&mut c.rng), E::G2::rand(&mut c.rng))
        };
        let t: Vec<S<E>> = (0..nv).map(|_| gen::rand_field(c)).collect();
        let mut rng = c.rng.clone();
        let mut ml = MultilinearUniversalParams::<E>::gen_srs_for_testing(&mut rng, nv).expect("parameters");
        ml.h_mask = t.iter().map(|&x| (h * x).into_affine()).collect();
        ml.prover_param.g = g.into_affine();
        ml.prover_param.h = h.into_affine();
        for i in 0..=nv {
            let mut exps = vec![S::<E>::from(1u64)];
            for j in (i..nv).rev() {
                exps = exps.iter().flat_map(|&e| [e * (S::<E>::from(1u64) - t[j]), e * t[j]]).collect();
            }
            let pts: Vec<_> = exps.iter().map(|&e| g * e).collect();
            ml.prover_param.powers_of_g[i].evals = E::G1::normalize_batch(&pts);
        }
        let uni = uni::Setup::<E>::new(c, degree, 1);
        let srs = (ml, uni.srs.clone());
        Self { g, t, uni, srs }
    }

    fn com(&self, x: S<E>) -> Commitment<E> {
        Commitment((self.g * x).into_affine())
    }

    fn proof(&self, w: &[S<E>]) -> MultilinearKzgProof<E> {
        MultilinearKzgProof { proofs: w.iter().map(|&x| (self.g * x).into_affine()).collect() }
    }
}

/// Value of the multilinear polynomial; place `b` of the table has variable
/// `i` equal to bit `i` of `b`.
fn value<F: Field>(table: &[F], x: &[F]) -> F {
    table
        .iter()
        .enumerate()
        .map(|(b, &v)| v * x.iter().enumerate().map(|(i, &xi)| if b >> i & 1 == 1 { xi } else { F::from(1u64) - xi }).product::<F>())
        .sum()
}

/// Exponents of the opening proof.
fn opening<F: Field>(table: &[F], x: &[F], t: &[F]) -> Vec<F> {
    let mut f = table.to_vec();
    let mut out = vec![];
    for i in 0..x.len() {
        let q: Vec<F> = f.chunks(2).map(|p| p[1] - p[0]).collect();
        f = f.chunks(2).zip(&q).map(|(p, &d)| p[0] + d * x[i]).collect();
        out.push(value(&q, &t[i + 1..]));
    }
    out
}

fn table<F: PrimeField>(c: &mut Case, nv: usize) -> Vec<F> {
    let n = 1 << nv;
    match c.below(6) {
        0 => vec![F::zero(); n],
        1 => vec![gen::field(c); n],
        2 => {
            let mut v = vec![F::zero(); n];
            v[c.below(n)] = gen::field(c);
            v
        },
        3 => gen::fields(c, n),
        _ => (0..n).map(|_| F::rand(&mut c.rng)).collect(),
    }
}

fn mle<F: PrimeField>(nv: usize, t: &[F]) -> MLE<F> {
    Arc::new(DenseMultilinearExtension::from_evaluations_slice(nv, t))
}

pub fn ml_open<E: Pairing>(c: &mut Case) {
    let all = c.range(1, if c.thorough { 7 } else { 5 });
    let s = Setup::<E>::new(c, all, 1);
    let kept = c.range(1, all);
    let Some((pk, vk)) = c.ok(Pcs::<E>::trim(&s.srs, 1, Some(kept)), "ml_trim") else { return };
    let nv = if c.coin() { kept } else { c.below(kept + 1) };
    let t = &s.t[all - nv..];
    let v = table::<S<E>>(c, nv);
    let x: Vec<S<E>> = if c.below(6) == 0 { (0..nv).map(|_| S::<E>::from(c.coin())).collect() } else { gen::fields(c, nv) };
    c.key((c.idx % 3, all, kept, &v, &x));
    let p = mle(nv, &v);
    c.ev("ml_open:commit");
    let Some(com) = c.ok(Pcs::<E>::commit(&pk, &p), "ml_commit_refused") else { return };
    c.eq(&com, &s.com(value(&v, t)), "ml_commitment");
    let Some((proof, y)) = c.ok(Pcs::<E>::open(&pk, &p, &x), "ml_open_refused") else { return };
    c.eq(&y, &value(&v, &x), "ml_value");
    c.eq(&proof, &s.proof(&opening(&v, &x, t)), "ml_proof");
    c.ev("ml_open:verify");
    if let Some(ok) = c.ok(Pcs::<E>::verify(&vk, &com, &x, &y, &proof), "ml_verify") {
        c.check(ok, "ml_honest_opening", || format!("{nv} of {kept} of {all} variables"));
    }
    let k = c.below(3);
    let xs: Vec<Vec<S<E>>> = (0..k).map(|_| gen::fields(c, nv)).collect();
    if let Some((proofs, ys)) = c.ok(Pcs::<E>::multi_open(&pk, &p, &xs), "ml_multi_refused") {
        let want: Vec<_> = xs.iter().map(|x| value(&v, x)).collect();
        c.eq(&ys, &want, "ml_multi_values");
        let want: Vec<_> = xs.iter().map(|x| s.proof(&opening(&v, x, t))).collect();
        c.eq(&proofs, &want, "ml_multi_proofs");
    }
    // too many variables, or a point of another size
    let big = table::<S<E>>(c, kept + 1);
    let p2 = mle(kept + 1, &big);
    let x2: Vec<S<E>> = gen::fields(c, kept + 1);
    c.ev("ml_open:commit");
    let got = guard(|| Pcs::<E>::commit(&pk, &p2));
    c.check(matches!(got, Ok(Err(_))), "ml_too_big_commit", || format!("{} variables for {kept}", kept + 1));
    let got = guard(|| Pcs::<E>::open(&pk, &p2, &x2));
    c.check(matches!(got, Ok(Err(_))), "ml_too_big_open", || format!("{} variables for {kept}", kept + 1));
    let mut x3 = x.clone();
    if x3.is_empty() || c.coin() {
        x3.push(S::<E>::from(0u64));
    } else {
        x3.pop();
    }
    let got = guard(|| Pcs::<E>::open(&pk, &p, &x3));
    c.check(matches!(got, Ok(Err(_))), "ml_point_size", || format!("{} values for {nv} variables", x3.len()));
}

pub fn ml_judge<E: Pairing>(c: &mut Case) {
    let all = c.range(1, 4);
    let s = Setup::<E>::new(c, all, 1);
    let kept = c.range(1, all);
    let Some((_, vk)) = c.ok(Pcs::<E>::trim(&s.srs, 1, Some(kept)), "ml_trim") else { return };
    let nv = if c.coin() { kept } else { c.below(kept + 1) };
    let t = s.t[all - nv..].to_vec();
    // any solution of com - y = sum w_i (t_i - x_i)
    let mut x: Vec<S<E>> = gen::fields(c, nv);
    let mut w: Vec<S<E>> = gen::fields(c, nv);
    let mut y: S<E> = gen::field(c);
    let holds = |com: S<E>, y: S<E>, x: &[S<E>], w: &[S<E>]| com - y == x.iter().zip(w).zip(&t).map(|((&x, &w), &t)| w * (t - x)).sum::<S<E>>();
    let mut com = y + x.iter().zip(&w).zip(&t).map(|((&x, &w), &t)| w * (t - x)).sum::<S<E>>();
    for round in 0..3 {
        c.key((c.idx % 3, com, y, &x, &w));
        c.ev("ml_judge:verify");
        let want = holds(com, y, &x, &w);
        if let Some(got) = c.ok(Pcs::<E>::verify(&vk, &s.com(com), &x, &y, &s.proof(&w)), "ml_verify") {
            c.check(got == want, if want { "ml_true_refused" } else { "ml_false_accepted" }, || format!("round {round}: verdict {got}, {nv} of {kept} variables"));
        }
        let d = gen::rand_field::<S<E>>(c);
        match c.below(7) {
            0 => com += d,
            1 => y += d,
            2 if nv > 0 => x[c.below(nv)] += d,
            3 if nv > 0 => w[c.below(nv)] += d,
            4 if nv > 1 => w.swap(0, nv - 1),
            5 if nv > 1 => x.swap(0, nv - 1),
            6 if nv > 0 => w[c.below(nv)] = S::<E>::zero(),
            _ => y = -y,
        }
    }
    // a proof of another length cannot speak for this point
    if nv > 0 {
        let keep = c.below(nv);
        let mut short = w.clone();
        short.truncate(keep);
        let mut long = w.clone();
        long.push(gen::field(c));
        // the equation over the places that are left
        let com2 = y + x.iter().zip(&short).zip(&t).map(|((&x, &w), &t)| w * (t - x)).sum::<S<E>>();
        c.ev_n("ml_judge:verify", 2);
        let got = guard(|| Pcs::<E>::verify(&vk, &s.com(com2), &x, &y, &s.proof(&short)));
        c.check(got.is_ok(), "ml_short_proof_panics", || format!("{keep} of {nv}"));
        c.check(!matches!(got, Ok(Ok(true))), "ml_short_proof", || format!("{keep} elements for {nv} variables accepted"));
        let com3 = y + x.iter().zip(&w).zip(&t).map(|((&x, &w), &t)| w * (t - x)).sum::<S<E>>();
        // further elements, meeting the remaining second-group element or nothing
        for com in [com3, com3 - long[nv]] {
            let got = guard(|| Pcs::<E>::verify(&vk, &s.com(com), &x, &y, &s.proof(&long)));
            c.check(got.is_ok(), "ml_long_proof_panics", || format!("{} for {nv}", nv + 1));
            c.check(!matches!(got, Ok(Ok(true))), "ml_long_proof", || format!("{} elements for {nv} variables accepted", nv + 1));
        }
    }
    let mut x2 = x.clone();
    while x2.len() <= kept {
        x2.push(gen::field(c));
    }
    let w2: Vec<_> = gen::fields(c, x2.len());
    c.ev("ml_judge:verify");
    let got = guard(|| Pcs::<E>::verify(&vk, &s.com(com), &x2, &y, &s.proof(&w2)));
    c.check(matches!(got, Ok(Err(_))), "ml_point_beyond", || format!("{} values for {kept} variables: {got:?}", x2.len()));
}

struct Batch<E: Pairing> {
    s: Setup<E>,
    pk: (MultilinearProverParam<E>, UnivariateProverParam<E>),
    vk: (MultilinearVerifierParam<E>, UnivariateVerifierParam<E>),
    polys: Vec<Vec<S<E>>>,
    points: Vec<Vec<S<E>>>,
    merged: usize,
    mles: Vec<MLE<S<E>>>,
    com: Commitment<E>,
}

fn log2_up(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}

fn setup_batch<E: Pairing>(c: &mut Case) -> Option<Batch<E>> {
    let k = c.range(1, 6);
    let max = if c.thorough { 8 } else { 6 };
    let merged = (log2_up(k) + c.range(1, 4)).min(max);
    let nv = merged - log2_up(k);
    let all = merged + c.below(2);
    let degree = merged * k.next_power_of_two() + 1;
    let s = Setup::<E>::new(c, all, degree);
    let kept = c.range(merged, all);
    let (pk, vk) = c.ok(Pcs::<E>::trim(&s.srs, degree, Some(kept)), "ml_trim")?;
    let polys: Vec<Vec<S<E>>> = (0..k).map(|_| table(c, nv)).collect();
    let mut points: Vec<Vec<S<E>>> = (0..k).map(|_| gen::fields(c, nv)).collect();
    if k > 1 && c.below(4) == 0 {
        points[k - 1] = points[0].clone();
    }
    c.key((c.idx % 3, all, kept, &polys, &points));
    let mles: Vec<_> = polys.iter().map(|v| mle(nv, v)).collect();
    let mut joined = polys.concat();
    joined.resize(1 << merged, S::<E>::zero());
    c.eq(&get_batched_nv(nv, k), &merged, "batched_nv");
    if let Some(m) = c.ok(merge_polynomials(&mles), "merge_refused") {
        c.eq(&m.evaluations, &joined, "merged");
    }
    c.ev("setup_batch:batch_commit");
    let com = c.ok(Pcs::<E>::batch_commit(&pk, &mles), "ml_batch_commit_refused")?;
    c.eq(&com, &s.com(value(&joined, &s.t[all - merged..])), "ml_batch_commitment");
    Some(Batch { s, pk, vk, polys, points, merged, mles, com })
}

fn try_batch<E: Pairing>(b: &Batch<E>, c: &Case, com: &Commitment<E>, points: &[Vec<S<E>>], values: &[S<E>], proof: &MultilinearKzgBatchProof<E>) -> Result<Result<bool, PCSError>, String> {
    let mut rng = c.rng.clone();
    guard(|| Pcs::<E>::batch_verify(&b.vk, com, points, values, proof, &mut rng))
}

pub fn ml_batch<E: Pairing>(c: &mut Case) {
    let Some(b) = setup_batch::<E>(c) else { return };
    let k = b.polys.len();
    c.ev("ml_batch:batch_open");
    let Some(got) = c.no_panic("ml_batch_open_panics", || Pcs::<E>::batch_open(&b.pk, &b.com, &b.mles, &b.points)) else { return };
    let Some((proof, values)) = c.ok(got, "ml_batch_open_refused") else { return };
    c.check(values.len() >= k, "ml_batch_value_count", || format!("{} for {k}", values.len()));
    // the order of the coordinates is judged in a scenario of its own
    let as_given: Vec<_> = b.polys.iter().zip(&b.points).map(|(v, x)| value(v, x)).collect();
    let reversed: Vec<_> = b.polys.iter().zip(&b.points).map(|(v, x)| value(v, &x.iter().rev().copied().collect::<Vec<_>>())).collect();
    c.check(values[..k] == as_given || values[..k] == reversed, "ml_batch_values", || format!("got {values:?}, want {as_given:?}"));
    c.ev("ml_batch:batch");
    let got = try_batch(&b, c, &b.com, &b.points, &values, &proof);
    c.check(matches!(got, Ok(Ok(true))), "ml_honest_batch", || format!("{k} polynomials of {} variables: {got:?}", b.merged));
    let mut cut = b.points.clone();
    cut.pop();
    let got = guard(|| Pcs::<E>::batch_open(&b.pk, &b.com, &b.mles, &cut));
    c.check(matches!(got, Ok(Err(_))), "ml_batch_open_lengths", || format!("{k} polynomials, {} points", k - 1));
}

pub fn ml_batch_judge<E: Pairing>(c: &mut Case) {
    let Some(b) = setup_batch::<E>(c) else { return };
    let k = b.polys.len();
    let Ok((proof, values)) = Pcs::<E>::batch_open(&b.pk, &b.com, &b.mles, &b.points) else { return };
    let d = gen::rand_field::<S<E>>(c);
    let off = (b.s.g * d).into_affine();
    let nv = b.points[0].len();
    for how in 0..9 {
        let (mut com, mut points, mut values, mut proof) = (b.com, b.points.clone(), values.clone(), proof.clone());
        let i = c.below(k);
        match how {
            0 => values[i] += d,
            1 => values[k] += d,
            2 if nv > 0 => points[i][c.below(nv)] += d,
            3 => com = Commitment((com.0 + off).into_affine()),
            4 => proof.q_x_commit = Commitment((proof.q_x_commit.0 + off).into_affine()),
            5 => {
                let j = c.below(k + 1);
                proof.q_x_opens[j].proof = (proof.q_x_opens[j].proof + off).into_affine();
            },
            6 => {
                let n = proof.proof.proofs.len();
                if n == 0 {
                    continue;
                }
                let j = c.below(n);
                proof.proof.proofs[j] = (proof.proof.proofs[j] + off).into_affine();
            },
            7 if k > 1 => {
                let j = (i + 1) % k;
                if values[i] == values[j] {
                    continue;
                }
                values.swap(i, j);
            },
            8 if k > 1 => {
                let j = (i + 1) % k;
                if points[i] == points[j] || b.polys.iter().all(|p| p.iter().all(|x| *x == p[0])) {
                    continue;
                }
                points.swap(i, j);
            },
            _ => continue,
        }
        c.key((how, i));
        c.ev("ml_batch_judge:batch");
        let got = try_batch(&b, c, &com, &points, &values, &proof);
        // moving a point may leave all values true only for constant polynomials
        let still = how == 2 && b.polys[i].iter().all(|x| *x == b.polys[i][0]);
        c.check(still || !matches!(got, Ok(Ok(true))), "ml_false_batch_accepted", || format!("alteration {how} with {k} polynomials of {nv} variables"));
        c.check(got.is_ok(), "ml_batch_verify_panics", || format!("alteration {how}: {got:?}"));
    }
    for how in 0..4 {
        let (mut points, mut values, mut proof) = (b.points.clone(), values.clone(), proof.clone());
        match how {
            0 => drop(points.pop()),
            1 => drop(values.pop()),
            2 => drop(proof.q_x_opens.pop()),
            _ => {
                if proof.proof.proofs.pop().is_none() {
                    continue;
                }
            },
        }
        c.ev("ml_batch_judge:batch");
        let got = try_batch(&b, c, &b.com, &points, &values, &proof);
        c.check(!matches!(got, Ok(Ok(true))) , "ml_short_batch_accepted", || format!("list {how} cut, {k} polynomials"));
        c.check(got.is_ok(), "ml_batch_verify_panics", || format!("list {how} cut: {got:?}"));
    }
}

/// The values of a batch opening are those at the points as given.
pub fn ml_batch_order<E: Pairing>(c: &mut Case) {
    let k = c.range(1, 3);
    let nv = c.range(2, 3);
    let merged = nv + log2_up(k);
    let degree = merged * k.next_power_of_two() + 1;
    let s = Setup::<E>::new(c, merged, degree);
    let Some((pk, _)) = c.ok(Pcs::<E>::trim(&s.srs, degree, Some(merged)), "ml_trim") else { return };
    let polys: Vec<Vec<S<E>>> = (0..k).map(|_| (0..1 << nv).map(|_| S::<E>::rand(&mut c.rng)).collect()).collect();
    let points: Vec<Vec<S<E>>> = (0..k).map(|_| (0..nv).map(|_| S::<E>::rand(&mut c.rng)).collect()).collect();
    c.key((c.idx % 3, k, nv));
    let mles: Vec<_> = polys.iter().map(|v| mle(nv, v)).collect();
    let Some(com) = c.ok(Pcs::<E>::batch_commit(&pk, &mles), "ml_batch_commit_refused") else { return };
    c.ev("ml_batch_order:batch_open");
    let Some((_, values)) = c.ok(Pcs::<E>::batch_open(&pk, &com, &mles, &points), "ml_batch_open_refused") else { return };
    let want: Vec<_> = polys.iter().zip(&points).map(|(v, x)| value(v, x)).collect();
    c.check(values[..k] == want, "batch_point_order", || format!("{k} polynomials of {nv} variables: values are not those at the given points"));
}

/// The last value of a batch opening sits at a place drawn from everything the
/// verifier is shown: another commitment, point or key moves it.
pub fn ml_batch_binding<E: Pairing>(c: &mut Case) {
    let k = c.range(2, 4);
    let nv = c.range(1, 2);
    let merged = nv + 1 + log2_up(k);
    let degree = merged * k.next_power_of_two() + 1;
    let s = Setup::<E>::new(c, merged, degree);
    let Some((pk, _)) = c.ok(Pcs::<E>::trim(&s.srs, degree, Some(merged)), "ml_trim") else { return };
    // one variable, first or last, does not matter to any of the polynomials
    let idle = if c.coin() { 0 } else { nv };
    let polys: Vec<Vec<S<E>>> = (0..k)
        .map(|_| {
            let small: Vec<S<E>> = (0..1 << nv).map(|_| S::<E>::rand(&mut c.rng)).collect();
            (0..2 << nv).map(|b: usize| if idle == 0 { small[b >> 1] } else { small[b & ((1 << nv) - 1)] }).collect()
        })
        .collect();
    let points: Vec<Vec<S<E>>> = (0..k).map(|_| (0..=nv).map(|_| S::<E>::rand(&mut c.rng)).collect()).collect();
    c.key((c.idx % 3, &polys, &points));
    let mles: Vec<_> = polys.iter().map(|v| mle(nv + 1, v)).collect();
    let Some(com) = c.ok(Pcs::<E>::batch_commit(&pk, &mles), "ml_batch_commit_refused") else { return };
    let last = |c: &mut Case, pk, com: &Commitment<E>, points: &[Vec<S<E>>]| {
        c.ev("ml_batch_binding:batch_open");
        c.ok(Pcs::<E>::batch_open(pk, com, &mles, points), "ml_batch_open_refused").map(|(_, v)| v)
    };
    let Some(base) = last(c, &pk, &com, &points) else { return };
    let Some(again) = last(c, &pk, &com, &points) else { return };
    c.eq(&base, &again, "ml_batch_repeatable");
    let other = s.com(gen::rand_field(c));
    if let Some(v) = last(c, &pk, &other, &points) {
        c.check(v[k] != base[k], "ml_batch_ignores_commitment", || format!("{k} polynomials"));
    }
    // the idle variable sits at the same place in either order of coordinates
    // only if it is tried at both ends
    for place in [0, nv] {
        let mut moved = points.clone();
        moved[c.below(k)][place] += gen::rand_field::<S<E>>(c);
        if let Some(v) = last(c, &pk, &com, &moved) {
            c.check(v[k] != base[k], "ml_batch_ignores_points", || format!("{k} polynomials, coordinate {place}"));
        }
    }
    let second = uni::Setup::<E>::new(c, degree, 1);
    let pk2 = (pk.0.clone(), second.srs.extract_prover_param(degree));
    if let Some(v) = last(c, &pk2, &com, &points) {
        c.check(v[k] != base[k], "ml_batch_ignores_quotient", || format!("{k} polynomials"));
    }
}

/// Polynomials that are constant leave only the place itself to be seen in the
/// last value, so that any two lists of points can be compared.
pub fn ml_batch_points<E: Pairing>(c: &mut Case) {
    let k = c.range(2, 6);
    let nv = c.range(1, 3);
    let merged = nv + log2_up(k);
    let degree = merged * k.next_power_of_two() + 1;
    let s = Setup::<E>::new(c, merged, degree);
    let Some((pk, _)) = c.ok(Pcs::<E>::trim(&s.srs, degree, Some(merged)), "ml_trim") else { return };
    let mles: Vec<_> = (0..k).map(|_| mle(nv, &vec![S::<E>::rand(&mut c.rng); 1 << nv])).collect();
    let points: Vec<Vec<S<E>>> = (0..k).map(|_| gen::fields(c, nv)).collect();
    let Some(com) = c.ok(Pcs::<E>::batch_commit(&pk, &mles), "ml_batch_commit_refused") else { return };
    let x = gen::rand_field::<S<E>>(c);
    let mut lists = vec![points.clone()];
    for i in 0..k {
        for j in 0..nv {
            let mut p = points.clone();
            p[i][j] += x;
            lists.push(p.clone());
            // the same sum over the points, and over the coordinates
            p[(i + 1) % k][j] -= x;
            lists.push(p);
            let mut p = points.clone();
            p[i][j] += x;
            p[i][(j + 1) % nv] -= x;
            lists.push(p);
            let mut p = points.clone();
            p[i].swap(j, (j + 1) % nv);
            lists.push(p);
        }
        let mut p = points.clone();
        p.swap(i, (i + 1) % k);
        lists.push(p);
        let mut p = points.clone();
        p[i] = p[(i + 1) % k].clone();
        lists.push(p);
    }
    let mut flat = points.concat();
    flat.rotate_left(1);
    lists.push(flat.chunks(nv).map(|p| p.to_vec()).collect());
    lists.sort();
    lists.dedup();
    let mut seen = std::collections::HashMap::new();
    for (i, l) in lists.iter().enumerate() {
        c.ev("ml_batch_points:batch_open");
        let Some((_, v)) = c.ok(Pcs::<E>::batch_open(&pk, &com, &mles, l), "ml_batch_open_refused") else { return };
        c.key((k, nv, v[k]));
        if let Some(j) = seen.insert(v[k], i) {
            let j: usize = j;
            c.check(false, "ml_batch_same_place", || format!("lists {l:?} and {:?}", lists[j]));
        }
    }
    c.check(seen.len() == lists.len(), "ml_batch_same_place", || format!("{} places for {} lists", seen.len(), lists.len()));
    c.sample(|| format!("{} lists of {k} points with {nv} coordinates, {} places", lists.len(), seen.len()));
}
