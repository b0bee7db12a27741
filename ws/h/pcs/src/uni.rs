//! Univariate commitments.

use ark_ec::{pairing::Pairing, CurveGroup, PrimeGroup};
use ark_ff::{FftField, Field, PrimeField, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial, EvaluationDomain, Radix2EvaluationDomain};
use jf_pcs::{prelude::*, UnivariatePCS};
use vh::{gen, guard, Case};

pub type S<E> = <E as Pairing>::ScalarField;
pub type Kzg<E> = UnivariateKzgPCS<E>;

/// A reference string whose secret is known.
pub struct Setup<E: Pairing> {
    pub g: E::G1,
    pub beta: S<E>,
    pub srs: UnivariateUniversalParams<E>,
}

impl<E: Pairing> Setup<E> {
    pub fn new(c: &mut Case, prover: usize, verifier: usize) -> Self {
        let (g, h) = if c.coin() {
            (E::G1::generator(), E::G2::generator())
        } else {
            (E::G1::rand(&mut c.rng), E::G2::rand(&mut c.rng))
        };
        let beta = gen::rand_field::<S<E>>(c);
        let mut power = S::<E>::from(1u64);
        let mut g_powers = vec![];
        let mut h_powers = vec![];
        for i in 0..=prover.max(verifier) {
            g_powers.push(g * power);
            if i <= verifier {
                h_powers.push(h * power);
            }
            power *= beta;
        }
        let powers_of_h = E::G2::normalize_batch(&h_powers);
        let srs = UnivariateUniversalParams {
            powers_of_g: E::G1::normalize_batch(&g_powers),
            h: h.into_affine(),
            beta_h: (h * beta).into_affine(),
            powers_of_h,
        };
        Self { g, beta, srs }
    }

    pub fn at(&self, x: S<E>) -> E::G1Affine {
        (self.g * x).into_affine()
    }

    pub fn com(&self, x: S<E>) -> Commitment<E> {
        Commitment(self.at(x))
    }

    pub fn proof(&self, x: S<E>) -> UnivariateKzgProof<E> {
        UnivariateKzgProof { proof: self.at(x) }
    }
}

pub fn value<F: Field>(coeffs: &[F], x: F) -> F {
    coeffs.iter().rev().fold(F::zero(), |acc, &a| acc * x + a)
}

/// Quotient by `X - z`.
fn quotient<F: Field>(coeffs: &[F], z: F) -> Vec<F> {
    let mut out = vec![F::zero(); coeffs.len().saturating_sub(1)];
    let mut carry = F::zero();
    for i in (1..coeffs.len()).rev() {
        carry = carry * z + coeffs[i];
        out[i - 1] = carry;
    }
    out
}

/// Coefficients with the given number of places, of many shapes.
pub fn coeffs<F: PrimeField>(c: &mut Case, n: usize) -> Vec<F> {
    if n == 0 {
        return vec![];
    }
    let mut v: Vec<F> = match c.below(9) {
        0 => vec![F::zero(); n],
        1 => gen::fields(c, n),
        2 => {
            let mut v = vec![F::zero(); n];
            v[n - 1] = gen::field(c);
            v
        },
        3 => {
            let mut v = vec![F::zero(); n];
            for _ in 0..c.range(1, 3) {
                let i = c.below(n);
                v[i] = gen::field(c);
            }
            v
        },
        4 => {
            let k = c.below(n);
            (0..n).map(|i| if i < k { F::zero() } else { F::rand(&mut c.rng) }).collect()
        },
        5 => {
            // a known root, sometimes twice
            let mut v: Vec<F> = (0..n).map(|_| F::rand(&mut c.rng)).collect();
            let z = gen::field::<F>(c);
            for _ in 0..c.range(1, 2) {
                let mut w = vec![F::zero(); n];
                for i in 0..n - 1 {
                    w[i + 1] += v[i];
                    w[i] -= v[i] * z;
                }
                v = w;
            }
            v
        },
        6 => vec![F::from(1u64); n],
        _ => (0..n).map(|_| F::rand(&mut c.rng)).collect(),
    };
    if c.below(4) > 0 && v[n - 1].is_zero() {
        v[n - 1] = F::rand(&mut c.rng);
    }
    v
}

pub fn poly<F: PrimeField>(v: &[F]) -> DensePolynomial<F> {
    DensePolynomial::from_coefficients_slice(v)
}

fn point<F: PrimeField + FftField>(c: &mut Case, v: &[F]) -> F {
    match c.below(6) {
        0 => F::zero(),
        1 => F::get_root_of_unity(1 << c.below(6)).unwrap(),
        2 if !v.is_empty() => v[c.below(v.len())],
        3 => F::rand(&mut c.rng),
        _ => gen::field(c),
    }
}

/// Parameters that take the given number of coefficients exactly.
fn params<E: Pairing>(c: &mut Case, s: &Setup<E>, degree: usize) -> Option<(UnivariateProverParam<E>, UnivariateVerifierParam<E>)> {
    if c.coin() {
        c.ok(Kzg::<E>::trim(&s.srs, degree, None), "trim")
    } else {
        Some((s.srs.extract_prover_param(degree), s.srs.extract_verifier_param(1)))
    }
}

fn size(c: &mut Case) -> usize {
    if c.thorough && c.below(8) == 0 { c.range(20, 130) } else { c.range(1, 20) }
}

pub fn open<E: Pairing>(c: &mut Case) {
    let top = size(c);
    let extra = c.below(3);
    let s = Setup::<E>::new(c, top + extra, 1);
    let Some((pk, vk)) = params(c, &s, top) else { return };
    let n = if c.coin() { top + 1 } else { c.below(top + 2) };
    let v = coeffs::<S<E>>(c, n);
    let z = if c.below(20) == 0 { s.beta } else { point(c, &v) };
    c.key((c.idx % 3, top, &v, z));
    let p = poly(&v);
    c.ev("open:commit");
    let Some(com) = c.ok(Kzg::<E>::commit(&pk, &p), "commit_refused") else { return };
    c.eq(&com, &s.com(value(&v, s.beta)), "commitment");
    let Some((proof, y)) = c.ok(Kzg::<E>::open(&pk, &p, &z), "open_refused") else { return };
    c.eq(&y, &value(&v, z), "opened_value");
    c.eq(&proof, &s.proof(value(&quotient(&v, z), s.beta)), "opening_proof");
    c.ev("open:verify");
    if let Some(ok) = c.ok(Kzg::<E>::verify(&vk, &com, &z, &y, &proof), "verify") {
        c.check(ok, "honest_opening", || format!("degree {} of {top}", n as i64 - 1));
    }
}

pub fn batch<E: Pairing>(c: &mut Case) {
    let top = c.range(1, 12);
    let s = Setup::<E>::new(c, top, 1);
    let Some((pk, vk)) = params(c, &s, top) else { return };
    let k = c.below(7);
    let vs: Vec<Vec<S<E>>> = (0..k).map(|_| { let n = c.below(top + 2); coeffs(c, n) }).collect();
    let zs: Vec<_> = vs.iter().map(|v| point(c, v)).collect();
    c.key((c.idx % 3, &vs, &zs));
    let ps: Vec<_> = vs.iter().map(|v| poly(v)).collect();
    c.ev("batch:batch_commit");
    let Some(coms) = c.ok(Kzg::<E>::batch_commit(&pk, &ps), "batch_commit_refused") else { return };
    let want: Vec<_> = vs.iter().map(|v| s.com(value(v, s.beta))).collect();
    c.eq(&coms, &want, "batch_commitment");
    let Some((proofs, ys)) = c.ok(Kzg::<E>::batch_open(&pk, &coms, &ps, &zs), "batch_open_refused") else { return };
    let want: Vec<_> = vs.iter().zip(&zs).map(|(v, &z)| value(v, z)).collect();
    c.eq(&ys, &want, "batch_values");
    let want: Vec<_> = vs.iter().zip(&zs).map(|(v, &z)| s.proof(value(&quotient(v, z), s.beta))).collect();
    c.eq(&proofs, &want, "batch_proofs");
    if k > 0 {
        let mut rng = c.rng.clone();
        c.ev("batch:batch_verify");
        if let Some(ok) = c.ok(Kzg::<E>::batch_verify(&vk, &coms, &zs, &ys, &proofs, &mut rng), "batch_verify") {
            c.check(ok, "honest_batch", || format!("{k} openings"));
        }
    }
    let mut short = zs.clone();
    if short.pop().is_some() {
        c.check(Kzg::<E>::batch_open(&pk, &coms, &ps, &short).is_err(), "batch_open_lengths", || format!("{k} polynomials, {} points", k - 1));
    }
}

pub fn many<E: Pairing>(c: &mut Case) {
    // the fast method pads to the next power of two
    let top = 1usize << c.below(if c.thorough { 7 } else { 5 });
    let s = Setup::<E>::new(c, top, 1);
    let Some((pk, _)) = params(c, &s, top) else { return };
    let n = if c.coin() { top + 1 } else { c.below(top + 2) };
    let v = coeffs::<S<E>>(c, n);
    let k = c.below(8);
    let mut zs: Vec<_> = (0..k).map(|_| point(c, &v)).collect();
    if k > 2 && c.coin() {
        zs[k - 1] = zs[0];
    }
    c.key((c.idx % 3, &v, &zs));
    compare(c, &s, &v, &zs, "many", Kzg::<E>::multi_open(&pk, &poly(&v), &zs));
}

fn compare<E: Pairing>(c: &mut Case, s: &Setup<E>, v: &[S<E>], zs: &[S<E>], what: &str, got: Result<(Vec<UnivariateKzgProof<E>>, Vec<S<E>>), PCSError>) {
    c.ev_n("compare", 1 + zs.len() as u64);
    let Some((proofs, ys)) = c.ok(got, &format!("{what}_refused")) else { return };
    let want: Vec<_> = zs.iter().map(|&z| value(v, z)).collect();
    c.eq(&ys, &want, &format!("{what}_values"));
    let want: Vec<_> = zs.iter().map(|&z| s.proof(value(&quotient(v, z), s.beta))).collect();
    c.eq(&proofs, &want, &format!("{what}_proofs"));
}

/// More points than the square of the two-adicity.
pub fn crowd<E: Pairing>(c: &mut Case) {
    let top = 1usize << c.below(3);
    let s = Setup::<E>::new(c, top, 1);
    let Some((pk, _)) = params(c, &s, top) else { return };
    let v = coeffs::<S<E>>(c, top + 1);
    let adic = <S<E> as FftField>::TWO_ADICITY.pow(2) as usize;
    let k = adic - 1 + c.below(4);
    let zs: Vec<_> = (0..k).map(|_| S::<E>::from(c.below(1 << 16) as u64)).collect();
    c.key((c.idx % 3, &v, k));
    let p = poly(&v);
    let Some(got) = c.no_panic("crowd_panics", || Kzg::<E>::multi_open(&pk, &p, &zs)) else { return };
    c.ev_n("crowd", k as u64);
    let Some((proofs, ys)) = c.ok(got, "crowd_refused") else { return };
    c.eq(&proofs.len(), &k, "crowd_count");
    let want: Vec<_> = zs.iter().map(|&z| value(&v, z)).collect();
    c.eq(&ys, &want, "crowd_values");
    for i in 0..k {
        c.eq(&proofs[i], &s.proof(value(&quotient(&v, zs[i]), s.beta)), "crowd_proofs");
    }
}

/// Every number of coefficients in turn, at points of every kind.
pub fn every_size<E: Pairing>(c: &mut Case) {
    let n = c.idx / 3;
    let top = n.max(2) - 1 + c.below(2);
    let s = Setup::<E>::new(c, top, 1);
    let Some((pk, vk)) = params(c, &s, top) else { return };
    let mut v: Vec<S<E>> = (0..n).map(|_| gen::rand_field(c)).collect();
    if c.below(4) == 0 {
        v = coeffs(c, n);
    }
    let p = poly(&v);
    c.key((c.idx % 3, n, top));
    c.ev_n("every_size:coefficients", n as u64);
    let Some(com) = c.ok(Kzg::<E>::commit(&pk, &p), "commit_refused") else { return };
    c.eq(&com, &s.com(value(&v, s.beta)), "commitment");
    let one = S::<E>::from(1u64);
    let z = [S::<E>::zero(), one, -one, point(c, &v), gen::rand_field(c)][c.below(5)];
    let Some((proof, y)) = c.ok(Kzg::<E>::open(&pk, &p, &z), "open_refused") else { return };
    c.eq(&y, &value(&v, z), "opened_value");
    c.eq(&proof, &s.proof(value(&quotient(&v, z), s.beta)), "opening_proof");
    if let Some(ok) = c.ok(Kzg::<E>::verify(&vk, &com, &z, &y, &proof), "verify") {
        c.check(ok, "honest_opening", || format!("{n} coefficients"));
    }
    // the other side of the same sweep: that many polynomials at once
    if n % 4 == 1 && n < 140 {
        let vs: Vec<Vec<S<E>>> = (0..n).map(|i| { let m = (i % 3).min(top + 1); coeffs(c, m) }).collect();
        let ps: Vec<_> = vs.iter().map(|v| poly(v)).collect();
        let zs: Vec<_> = vs.iter().map(|v| point(c, v)).collect();
        let Some(coms) = c.ok(Kzg::<E>::batch_commit(&pk, &ps), "batch_commit_refused") else { return };
        let want: Vec<_> = vs.iter().map(|v| s.com(value(v, s.beta))).collect();
        c.eq(&coms, &want, "batch_commitment");
        let Some((proofs, mut ys)) = c.ok(Kzg::<E>::batch_open(&pk, &coms, &ps, &zs), "batch_open_refused") else { return };
        let want: Vec<_> = vs.iter().zip(&zs).map(|(v, &z)| value(v, z)).collect();
        c.eq(&ys, &want, "batch_values");
        let want: Vec<_> = vs.iter().zip(&zs).map(|(v, &z)| s.proof(value(&quotient(v, z), s.beta))).collect();
        c.eq(&proofs, &want, "batch_proofs");
        let mut rng = c.rng.clone();
        if let Some(ok) = c.ok(Kzg::<E>::batch_verify(&vk, &coms, &zs, &ys, &proofs, &mut rng), "batch_verify") {
            c.check(ok, "honest_batch", || format!("{n} openings"));
        }
        let i = if c.coin() { n - 1 } else { c.below(n) };
        ys[i] += one;
        if let Some(ok) = c.ok(Kzg::<E>::batch_verify(&vk, &coms, &zs, &ys, &proofs, &mut rng), "batch_verify") {
            c.check(!ok, "false_batch", || format!("value {i} of {n} is wrong"));
        }
    }
}

pub fn roots<E: Pairing>(c: &mut Case) {
    let top = c.range(1, if c.thorough { 70 } else { 20 });
    let s = Setup::<E>::new(c, top, 1);
    let Some((pk, _)) = params(c, &s, top) else { return };
    let n = if c.coin() { top + 1 } else { c.below(top + 2) };
    let v = coeffs::<S<E>>(c, n);
    let k = c.below(40);
    let Some(domain) = c.ok(Kzg::<E>::multi_open_rou_eval_domain(top, k), "domain_refused") else { return };
    c.check(domain.size() > top && domain.size() >= k, "domain_size", || format!("degree {top}, {k} points: {}", domain.size()));
    c.key((c.idx % 3, &v, k, domain.size()));
    let w = <S<E> as FftField>::get_root_of_unity(domain.size() as u64).unwrap();
    let k = if c.below(5) == 0 { domain.size() } else { k };
    let zs: Vec<_> = (0..k as u64).map(|i| w.pow([i])).collect();
    let p = poly(&v);
    compare(c, &s, &v, &zs, "roots", Kzg::<E>::multi_open_rou(&pk, &p, k, &domain));
    // a domain of the caller's choice, just large enough or with room
    let size = (n.max(1)).next_power_of_two() << c.below(3);
    let domain = Radix2EvaluationDomain::<S<E>>::new(size).unwrap();
    let w = <S<E> as FftField>::get_root_of_unity(size as u64).unwrap();
    let k = c.below(size + 1);
    let zs: Vec<_> = (0..k as u64).map(|i| w.pow([i])).collect();
    compare(c, &s, &v, &zs, "own_domain", Kzg::<E>::multi_open_rou(&pk, &p, k, &domain));
    // too small: no answer rather than a wrong one
    let len = v.iter().rposition(|x| !x.is_zero()).map_or(0, |i| i + 1);
    let small = len.next_power_of_two() / 2;
    if len > 2 {
        let domain = Radix2EvaluationDomain::<S<E>>::new(small).unwrap();
        let k = c.range(1, small);
        let w = <S<E> as FftField>::get_root_of_unity(small as u64).unwrap();
        c.ev("roots:multi_open_rou_evals");
        if let Some(Ok(ys)) = c.no_panic("small_domain_panics", || Kzg::<E>::multi_open_rou_evals(&p, k, &domain)) {
            let want: Vec<_> = (0..k as u64).map(|i| value(&v, w.pow([i]))).collect();
            c.eq(&ys, &want, "small_domain_values");
        }
        if let Some(Ok(proofs)) = c.no_panic("small_domain_panics", || Kzg::<E>::multi_open_rou_proofs(&pk, &p, k, &domain)) {
            let want: Vec<_> = (0..k as u64).map(|i| s.proof(value(&quotient(&v, w.pow([i])), s.beta))).collect();
            c.eq(&proofs, &want, "small_domain_proofs");
        }
    }
}

/// Quotient and remainder by the product of `X - z`.
fn divide<F: Field>(v: &[F], zs: &[F]) -> (Vec<F>, Vec<F>) {
    // divided differences: v = r0 + (X-z0)(r1 + (X-z1)(...))
    let mut q = v.to_vec();
    let mut rem = vec![F::zero(); zs.len()];
    let mut basis = vec![F::from(1u64)];
    for &z in zs {
        let r = value(&q, z);
        for (i, b) in basis.iter().enumerate() {
            rem[i] += r * b;
        }
        q = quotient(&q, z);
        let mut next = vec![F::zero(); basis.len() + 1];
        for (i, &b) in basis.iter().enumerate() {
            next[i + 1] += b;
            next[i] -= b * z;
        }
        basis = next;
    }
    (q, rem)
}

pub fn distinct<F: PrimeField + FftField>(c: &mut Case, k: usize, v: &[F]) -> Vec<F> {
    let mut zs: Vec<F> = vec![];
    while zs.len() < k {
        let z = point(c, v);
        if !zs.contains(&z) {
            zs.push(z);
        }
    }
    zs
}

pub fn point_set<E: Pairing>(c: &mut Case) {
    let top = c.range(1, 20);
    let k = c.range(1, 7);
    let spare = c.below(3);
    let s = Setup::<E>::new(c, top, k + spare);
    let verifier = k + c.below(spare + 1);
    let Some((pk, vk)) = c.ok(s.srs.trim_with_verifier_degree(top, verifier), "trim") else { return };
    let n = if c.coin() { top + 1 } else { c.below(top + 2) };
    let v = coeffs::<S<E>>(c, n);
    let zs = distinct(c, k, &v);
    c.key((c.idx % 3, &v, &zs));
    let p = poly(&v);
    let com = s.com(value(&v, s.beta));
    c.ev("point_set:multi_point_open");
    let Some((proof, ys)) = c.ok(Kzg::<E>::multi_point_open(&pk, &p, &zs), "point_set_refused") else { return };
    let want: Vec<_> = zs.iter().map(|&z| value(&v, z)).collect();
    c.eq(&ys, &want, "point_set_values");
    c.eq(&proof, &s.proof(value(&divide(&v, &zs).0, s.beta)), "point_set_proof");
    c.ev("point_set:multi_point_verify");
    if let Some(ok) = c.ok(Kzg::<E>::multi_point_verify(&vk, &com, &zs, &ys, &proof), "point_set_verify") {
        c.check(ok, "honest_point_set", || format!("degree {}, {k} points", n as i64 - 1));
    }
}

/// Polynomials that do not fit the parameters must not get a wrong answer.
pub fn too_big<E: Pairing>(c: &mut Case) {
    let top = c.range(1, 12);
    let s = Setup::<E>::new(c, top + 8, 1);
    let Some((pk, _)) = params(c, &s, top) else { return };
    let n = top + 2 + c.below(4);
    let mut v = coeffs::<S<E>>(c, n);
    if v[n - 1].is_zero() {
        v[n - 1] = S::<E>::from(1u64);
    }
    c.key((c.idx % 3, top, &v));
    let p = poly(&v);
    c.ev("too_big:commit");
    if let Some(got) = c.no_panic("too_big_commit_panics", || Kzg::<E>::commit(&pk, &p)) {
        c.check(got.is_err(), "too_big_commit", || format!("degree {} accepted by parameters of degree {top}", n - 1));
    }
    if let Some(got) = c.no_panic("too_big_batch_commit_panics", || Kzg::<E>::batch_commit(&pk, &[poly(&v[..1]), p.clone()])) {
        c.check(got.is_err(), "too_big_batch_commit", || format!("degree {} accepted by parameters of degree {top}", n - 1));
    }
    let z = point(c, &v);
    if let Some(Ok((proof, y))) = c.no_panic("too_big_open_panics", || Kzg::<E>::open(&pk, &p, &z)) {
        c.eq(&y, &value(&v, z), "too_big_open_value");
        c.eq(&proof, &s.proof(value(&quotient(&v, z), s.beta)), "too_big_open_proof");
    }
    let k = c.range(1, 3);
    let zs = distinct(c, k, &v);
    if let Some(Ok((proof, ys))) = c.no_panic("too_big_set_panics", || Kzg::<E>::multi_point_open(&pk, &p, &zs)) {
        let want: Vec<_> = zs.iter().map(|&z| value(&v, z)).collect();
        c.eq(&ys, &want, "too_big_set_values");
        c.eq(&proof, &s.proof(value(&divide(&v, &zs).0, s.beta)), "too_big_set_proof");
    }
    if let Some(Ok((proofs, ys))) = c.no_panic("too_big_many_panics", || Kzg::<E>::multi_open(&pk, &p, &zs)) {
        let want: Vec<_> = zs.iter().map(|&z| value(&v, z)).collect();
        c.eq(&ys, &want, "too_big_many_values");
        let want: Vec<_> = zs.iter().map(|&z| s.proof(value(&quotient(&v, z), s.beta))).collect();
        c.eq(&proofs, &want, "too_big_many_proofs");
    }
    let domain = Kzg::<E>::multi_open_rou_eval_domain(n - 1, 2).unwrap();
    let w = <S<E> as FftField>::get_root_of_unity(domain.size() as u64).unwrap();
    if let Some(Ok((proofs, ys))) = c.no_panic("too_big_roots_panics", || Kzg::<E>::multi_open_rou(&pk, &p, 2, &domain)) {
        let zs = [S::<E>::from(1u64), w];
        let want: Vec<_> = zs.iter().map(|&z| value(&v, z)).collect();
        c.eq(&ys, &want, "too_big_roots_values");
        let want: Vec<_> = zs.iter().map(|&z| s.proof(value(&quotient(&v, z), s.beta))).collect();
        c.eq(&proofs, &want, "too_big_roots_proofs");
    }
}

/// One statement in exponents: commitment, point, value, proof.
#[derive(Clone, Copy, Debug, Hash)]
struct Claim<F> {
    com: F,
    z: F,
    y: F,
    w: F,
}

impl<F: PrimeField> Claim<F> {
    fn true_one(c: &mut Case, beta: F) -> Self {
        let (com, z) = (gen::field::<F>(c), gen::field::<F>(c));
        // from a polynomial, or just any solution of the equation
        if c.below(4) == 0 && z != beta {
            let y = gen::field::<F>(c);
            return Self { com, z, y, w: (com - y) / (beta - z) };
        }
        let w = gen::field::<F>(c);
        Self { com, z, y: com - w * (beta - z), w }
    }

    fn holds(&self, beta: F) -> bool {
        self.com - self.y == self.w * (beta - self.z)
    }

    fn altered(mut self, c: &mut Case) -> Self {
        let d = loop {
            let d = gen::field::<F>(c);
            if !d.is_zero() {
                break d;
            }
        };
        match c.below(9) {
            0 => self.com += d,
            1 => self.z += d,
            2 => self.y += d,
            3 => self.w += d,
            4 => self.com = -self.com,
            5 => self.w = -self.w,
            6 => self.y = -self.y,
            7 => self.w = F::zero(),
            _ => std::mem::swap(&mut self.z, &mut self.y),
        }
        self
    }
}

pub fn judge<E: Pairing>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1, 1);
    let Some((_, vk)) = params(c, &s, 1) else { return };
    let mut claim = Claim::true_one(c, s.beta);
    if c.below(25) == 0 {
        claim.z = s.beta;
    }
    for round in 0..3 {
        c.key((c.idx % 3, s.beta, claim));
        c.ev("judge:verify");
        let want = claim.holds(s.beta);
        if let Some(got) = c.ok(Kzg::<E>::verify(&vk, &s.com(claim.com), &claim.z, &claim.y, &s.proof(claim.w)), "verify") {
            c.check(got == want, if want { "true_refused" } else { "false_accepted" }, || format!("round {round}: verdict {got} on {claim:?}"));
        }
        claim = claim.altered(c);
    }
}

pub fn judge_batch<E: Pairing>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1, 1);
    let Some((_, vk)) = params(c, &s, 1) else { return };
    let k = c.range(1, 6);
    let mut claims: Vec<_> = (0..k).map(|_| Claim::true_one(c, s.beta)).collect();
    let d = gen::rand_field::<S<E>>(c);
    let (i, j) = (c.below(k), c.below(k));
    let how = c.below(8);
    match how {
        0 | 1 => {},
        2 => claims[i] = claims[i].altered(c),
        // errors that cancel when the equations are simply added
        3 if i != j => {
            claims[i].y += d;
            claims[j].y -= d;
        },
        4 if i != j => {
            claims[i].com += d;
            claims[j].com -= d;
        },
        5 if i != j => {
            claims[i].w += d;
            claims[j].w -= d;
        },
        6 if i != j => {
            let t = claims[i].y;
            claims[i].y = claims[j].y;
            claims[j].y = t;
        },
        7 if i != j => {
            let t = claims[i].w;
            claims[i].w = claims[j].w;
            claims[j].w = t;
        },
        _ => claims[k - 1] = claims[k - 1].altered(c),
    }
    let want = claims.iter().all(|x| x.holds(s.beta));
    c.key((c.idx % 3, &claims, how));
    let mut coms: Vec<_> = claims.iter().map(|x| s.com(x.com)).collect();
    let mut zs: Vec<_> = claims.iter().map(|x| x.z).collect();
    let mut ys: Vec<_> = claims.iter().map(|x| x.y).collect();
    let mut proofs: Vec<_> = claims.iter().map(|x| s.proof(x.w)).collect();
    let mut rng = c.rng.clone();
    c.ev("judge_batch:batch_verify");
    if let Some(got) = c.ok(Kzg::<E>::batch_verify(&vk, &coms, &zs, &ys, &proofs, &mut rng), "batch_verify") {
        c.check(got == want, if want { "true_batch_refused" } else { "false_batch_accepted" }, || format!("verdict {got} on {claims:?} ({how})"));
    }
    // a list of another length says nothing about the rest
    let what = c.below(4);
    let keep = c.below(k);
    if c.coin() {
        // nor when what is missing would add nothing
        for (i, t) in claims.iter().enumerate() {
            let t = if i < keep && t.holds(s.beta) { *t } else { Claim { com: S::<E>::zero(), y: S::<E>::zero(), w: S::<E>::zero(), ..*t } };
            (coms[i], ys[i], proofs[i]) = (s.com(t.com), t.y, s.proof(t.w));
        }
        let all = Kzg::<E>::batch_verify(&vk, &coms, &zs, &ys, &proofs, &mut rng);
        c.check(matches!(all, Ok(true)), "nothing_added_refused", || format!("{all:?} on {claims:?}, {keep} kept"));
    }
    // one list cut, or every list but one
    let one = c.coin();
    for (i, cut) in (0..4).map(|i| (i, (i == what) == one)) {
        let at = if cut { keep } else { k };
        match i {
            0 => coms.truncate(at),
            1 => zs.truncate(at),
            2 => ys.truncate(at),
            _ => proofs.truncate(at),
        }
    }
    c.ev("judge_batch:batch_verify");
    let got = guard(|| Kzg::<E>::batch_verify(&vk, &coms, &zs, &ys, &proofs, &mut rng));
    c.check(!matches!(got, Ok(Ok(true))), "short_list_accepted", || format!("list {what} {} from {k} to {keep}", if one { "cut" } else { "not cut, the others" }));
    c.check(got.is_ok(), "short_list_panics", || format!("list {what} {} from {k} to {keep}", if one { "cut" } else { "not cut, the others" }));
}

pub fn judge_set<E: Pairing>(c: &mut Case) {
    let k = c.range(1, 6);
    let verifier = (k as i64 + c.range(0, 3) as i64 - 1).max(1) as usize;
    let s = Setup::<E>::new(c, 1, verifier);
    let Some((_, vk)) = c.ok(s.srs.trim_with_verifier_degree(1, verifier), "trim") else { return };
    let mut zs = distinct::<S<E>>(c, k, &[]);
    let n = c.range(0, 9);
    let v = coeffs::<S<E>>(c, n);
    let (q, rem) = divide(&v, &zs);
    let mut ys: Vec<_> = zs.iter().map(|&z| value(&v, z)).collect();
    let mut com = value(&v, s.beta);
    let mut w = value(&q, s.beta);
    // any proof element together with the commitment that fits it
    if c.below(3) == 0 {
        w = gen::field(c);
        let vanish: S<E> = zs.iter().map(|&z| s.beta - z).product();
        com = value(&rem, s.beta) + w * vanish;
    }
    let how = c.below(9);
    let i = c.below(k);
    let d = gen::rand_field::<S<E>>(c);
    let mut want = true;
    match how {
        0 | 1 => {},
        2 => (ys[i] += d, want = false).1,
        3 => (com += d, want = false).1,
        4 => (w += d, want = false).1,
        5 => {
            zs[i] += d;
            let vanish: S<E> = zs.iter().map(|&z| s.beta - z).product();
            want = com - value(&interpolate(&zs, &ys), s.beta) == w * vanish;
        },
        6 if k > 1 => {
            let j = (i + 1) % k;
            want = ys[i] == ys[j];
            ys.swap(i, j);
        },
        7 if k > 1 => {
            // the order of the points does not matter
            zs.reverse();
            ys.reverse();
        },
        _ => {
            let j = c.below(k);
            if zs[j] != -zs[j] && !zs.contains(&-zs[j]) {
                zs[j] = -zs[j];
                let vanish: S<E> = zs.iter().map(|&z| s.beta - z).product();
                want = com - value(&interpolate(&zs, &ys), s.beta) == w * vanish;
            }
        },
    }
    c.key((c.idx % 3, &zs, &ys, com, w));
    c.ev("judge_set:multi_point_verify");
    let got = Kzg::<E>::multi_point_verify(&vk, &s.com(com), &zs, &ys, &s.proof(w));
    if verifier < k {
        c.check(got.as_ref().map_or(true, |got| *got == want), "set_past_powers", || format!("{got:?} for {k} points, {verifier} powers"));
        // a claim that fits what is left of the vanishing polynomial when its
        // top terms find no power to go with
        let vanish = zs.iter().fold(vec![S::<E>::from(1u64)], |p, &z| {
            let mut r = vec![S::<E>::from(0u64); p.len() + 1];
            for (i, x) in p.iter().enumerate() {
                r[i + 1] += *x;
                r[i] -= *x * z;
            }
            r
        });
        let w = gen::rand_field::<S<E>>(c);
        let low = value(&interpolate(&zs, &ys), s.beta);
        let com = low + w * value(&vanish[..=verifier], s.beta);
        let got = Kzg::<E>::multi_point_verify(&vk, &s.com(com), &zs, &ys, &s.proof(w));
        c.check(!matches!(got, Ok(true)), "set_past_powers_accepted", || format!("{k} points, {verifier} powers"));
        c.ev("judge_set:multi_point_verify");
    } else if let Some(got) = c.ok(got, "point_set_verify") {
        c.check(got == want, if want { "true_set_refused" } else { "false_set_accepted" }, || format!("verdict {got} ({how})"));
    }
    // another number of values
    let mut cut = ys.clone();
    cut.pop();
    let got = guard(|| Kzg::<E>::multi_point_verify(&vk, &s.com(com), &zs, &cut, &s.proof(w)));
    c.check(matches!(got, Ok(Err(_))), "short_values", || format!("{got:?}"));
    // the same point twice
    if k > 1 {
        let mut twice = zs.clone();
        twice[k - 1] = twice[0];
        let mut vals = ys.clone();
        if c.coin() {
            vals[k - 1] = vals[0];
        } else {
            vals[k - 1] = vals[0] + d;
        }
        c.ev("judge_set:multi_point_verify");
        if let Some(Ok(got)) = c.no_panic("repeated_point_panics", || Kzg::<E>::multi_point_verify(&vk, &s.com(com), &twice, &vals, &s.proof(w))) {
            c.check(!got || vals[k - 1] == vals[0], "repeated_point_accepted", || "two values for one point".into());
        }
    }
}

fn interpolate<F: Field>(zs: &[F], ys: &[F]) -> Vec<F> {
    let mut out = vec![F::zero(); zs.len()];
    for (i, (&zi, &yi)) in zs.iter().zip(ys).enumerate() {
        let mut basis = vec![F::from(1u64)];
        let mut scale = yi;
        for (j, &zj) in zs.iter().enumerate() {
            if i == j {
                continue;
            }
            scale /= zi - zj;
            let mut next = vec![F::zero(); basis.len() + 1];
            for (t, &b) in basis.iter().enumerate() {
                next[t + 1] += b;
                next[t] -= b * zj;
            }
            basis = next;
        }
        for (t, b) in basis.iter().enumerate() {
            out[t] += scale * b;
        }
    }
    out
}

