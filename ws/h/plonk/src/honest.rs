//! Real circuits, proved by the library.

use crate::base::*;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_poly::{
    univariate::DensePolynomial, DenseUVPolynomial, EvaluationDomain, Polynomial, Radix2EvaluationDomain,
};
use ark_std::rand::{CryptoRng, RngCore, SeedableRng};
use circ::prog::{Prog, Shape};
use jf_pcs::prelude::Commitment;
use jf_plonk::{
    proof_system::{
        batch_arg::BatchArgument,
        structs::{BatchProof, Proof, ProvingKey, VerifyingKey},
        PlonkKzgSnark, UniversalSNARK,
    },
    transcript::PlonkTranscript,
};
use jf_relation::{Arithmetization, Circuit, MergeableCircuitType, PlonkCircuit};
use vh::{gen, Case, Rng};

type Snark<E> = PlonkKzgSnark<E>;
type Rand = rand_chacha::ChaCha20Rng;

fn fork(c: &mut Case) -> Rand {
    Rand::seed_from_u64(c.rng.gen())
}

pub fn any_shape(c: &mut Case, max: usize) -> Shape {
    let ultra = c.coin().then(|| c.range(1, 4));
    let ops = if c.below(4) == 0 { c.range(0, 3) } else { c.range(0, max) };
    Shape { ultra, ops, inputs: true, tables: true }
}

/// A satisfied program ready to be proved.
pub fn program<F: PrimeField>(c: &mut Case, s: Shape) -> Prog<F> {
    let mut p = Prog::<F>::random(c, s);
    while p.cs.num_gates() < 3 {
        p.gate(c);
    }
    p.cs.finalize_for_arithmetization().expect("finalize");
    p
}

fn size<F: PrimeField>(cs: &PlonkCircuit<F>) -> usize {
    cs.eval_domain_size().expect("domain")
}

fn message(c: &mut Case) -> Option<Vec<u8>> {
    c.coin().then(|| {
        let n = if c.below(3) == 0 { 0 } else { c.range(1, 40) };
        c.bytes(n)
    })
}

/// Satisfied circuits are proved and the proofs accepted, with a reference
/// string just long enough.
pub fn prove<E: Cv, T: PlonkTranscript<B<E>>>(c: &mut Case) {
    let shape = any_shape(c, 40);
    let p = program::<S<E>>(c, shape);
    let n = size(&p.cs);
    let spare = if c.coin() { 0 } else { c.range(1, 9) };
    let s = Setup::<E>::new(c, n + 2 + spare);
    c.key((shape.ultra, n, p.inputs.len(), p.tables.len(), spare));
    c.sample(|| format!("{n} gates, range bits {:?}, {} inputs, {} tables", shape.ultra, p.inputs.len(), p.tables.len()));
    let r = Snark::<E>::preprocess(&s.srs, &p.cs);
    let Some((pk, vk)) = c.ok(r, "preprocess") else { return };
    c.eq(&vk.domain_size, &n, "key_domain");
    c.eq(&vk.num_inputs, &p.inputs.len(), "key_inputs");
    c.check(pk.vk == vk, "key_pair", || "the proving key carries another verifying key".into());
    let msg = message(c);
    let seed = fork(c);
    let r = Snark::<E>::prove::<_, _, T>(&mut seed.clone(), &p.cs, &pk, msg.clone());
    let Some(proof) = c.ok(r, "prove") else { return };
    c.ev("circuit proved");
    let pis = p.pis();
    let r = Snark::<E>::verify::<T>(&vk, &pis, &proof, msg.clone());
    c.check(r.is_ok(), "refused", || format!("{r:?}"));
    c.ev("proof verified");
    // what the circuit says are its public inputs
    let own = p.cs.public_input();
    if let Some(own) = c.ok(own, "public_input") {
        c.eq(&own, &pis, "public_input");
    }
    // as an aggregated proof of one
    if msg.is_none() {
        let r = Snark::<E>::batch_prove::<_, _, T>(&mut seed.clone(), &[&p.cs], &[&pk]);
        if let Some(b) = c.ok(r, "prove") {
            c.ev("aggregated proof of one");
            c.check(b == BatchProof::from(proof.clone()), "as_batch", || "one proof, and an aggregate of one".into());
            let r = Snark::<E>::verify_batch_proof::<T>(&[&vk], &[&pis], &b);
            c.check(r.is_ok(), "refused", || format!("aggregate of one: {r:?}"));
        }
    }
    // the key is that of a longer reference string too
    if spare > 0 {
        let mut o = s.clone();
        o.srs.powers_of_g.truncate(n + 3);
        let r = Snark::<E>::preprocess(&o.srs, &p.cs);
        if let Some((_, vk2)) = c.ok(r, "preprocess") {
            c.ev("shorter reference string");
            let r = Snark::<E>::verify::<T>(&vk2, &pis, &proof, msg.clone());
            c.check(r.is_ok(), "refused", || format!("key from a shorter string: {r:?}"));
        }
    }
    // one power too few
    let mut o = s.clone();
    o.srs.powers_of_g.truncate(n + 2);
    let r = c.no_panic("short_srs_panic", || Snark::<E>::preprocess(&o.srs, &p.cs));
    c.ev("reference string too short");
    if let Some(Ok((pk, vk))) = r {
        let r = c.no_panic("short_srs_panic", || {
            Snark::<E>::prove::<_, _, T>(&mut seed.clone(), &p.cs, &pk, msg.clone())
        });
        if let Some(Ok(proof)) = r {
            let r = Snark::<E>::verify::<T>(&vk, &pis, &proof, msg);
            c.check(r.is_ok(), "short_srs", || format!("{r:?}"));
        }
    }
}

/// A circuit without any gates of its own.
pub fn empty<E: Cv, T: PlonkTranscript<B<E>>>(c: &mut Case) {
    let mut cs = PlonkCircuit::<S<E>>::new_turbo_plonk();
    cs.finalize_for_arithmetization().expect("finalize");
    let s = Setup::<E>::new(c, size(&cs) + 2);
    let r = Snark::<E>::preprocess(&s.srs, &cs);
    let Some((pk, vk)) = c.ok(r, "preprocess") else { return };
    let mut seed = fork(c);
    c.key(size(&cs));
    c.ev("empty circuit");
    match Snark::<E>::prove::<_, _, T>(&mut seed, &cs, &pk, None) {
        Ok(proof) => {
            let r = Snark::<E>::verify::<T>(&vk, &[], &proof, None);
            c.check(r.is_ok(), "refused", || format!("{r:?}"));
        },
        Err(e) => c.fail("empty_circuit", format!("{e:?}")),
    }
}

/// Several circuits of one size in one aggregated proof.
pub fn aggregate<E: Cv, T: PlonkTranscript<B<E>>>(c: &mut Case) {
    let m = c.range(1, 4);
    let ultra = c.coin().then(|| c.range(1, 4));
    let shape = Shape { ultra, ops: c.range(0, 24), inputs: true, tables: true };
    // as large as the largest
    let mut ps: Vec<Prog<S<E>>> = (0..m).map(|_| Prog::random(c, shape)).collect();
    ps.iter_mut().filter(|p| p.cs.num_gates() < 3).for_each(|p| p.gate(c));
    let mut big = ps.clone();
    big.iter_mut().for_each(|p| p.cs.finalize_for_arithmetization().expect("finalize"));
    let n = big.iter().map(|p| size(&p.cs)).max().unwrap();
    for p in &mut ps {
        let have = {
            let mut q = p.cs.clone();
            q.finalize_for_arithmetization().expect("finalize");
            size(&q)
        };
        if have < n {
            p.cs.pad_gates(n / 2 + 1 - p.cs.num_gates().min(n / 2));
        }
        p.cs.finalize_for_arithmetization().expect("finalize");
    }
    if ps.iter().any(|p| size(&p.cs) != n) {
        c.ev("sizes apart");
        return;
    }
    let s = Setup::<E>::new(c, n + 2);
    c.key((m, ultra, n, ps.iter().map(|p| p.inputs.len()).collect::<Vec<_>>()));
    c.sample(|| format!("{m} circuits of {n} gates, range bits {ultra:?}"));
    let mut pks = vec![];
    for p in &ps {
        let r = Snark::<E>::preprocess(&s.srs, &p.cs);
        let Some((pk, _)) = c.ok(r, "preprocess") else { return };
        pks.push(pk);
    }
    let cs: Vec<_> = ps.iter().map(|p| &p.cs).collect();
    let pkr: Vec<_> = pks.iter().collect();
    let mut seed = fork(c);
    let r = Snark::<E>::batch_prove::<_, _, T>(&mut seed, &cs, &pkr);
    let Some(b) = c.ok(r, "prove") else { return };
    c.eq(&b.len(), &m, "instances");
    let vks: Vec<_> = pks.iter().map(|p| &p.vk).collect();
    let pis: Vec<_> = ps.iter().map(|p| p.pis()).collect();
    let pir: Vec<&[S<E>]> = pis.iter().map(|p| &p[..]).collect();
    let r = Snark::<E>::verify_batch_proof::<T>(&vks, &pir, &b);
    c.ev("aggregated proof");
    c.check(r.is_ok(), "refused", || format!("{r:?}"));

    // separate proofs checked together
    let mut proofs = vec![];
    let mut msgs = vec![];
    for (p, pk) in ps.iter().zip(&pks) {
        let msg = message(c);
        let r = Snark::<E>::prove::<_, _, T>(&mut seed, &p.cs, pk, msg.clone());
        let Some(x) = c.ok(r, "prove") else { return };
        proofs.push(x);
        msgs.push(msg);
    }
    let refs: Vec<_> = proofs.iter().collect();
    let r = Snark::<E>::batch_verify::<T>(&vks, &pir, &refs, &msgs);
    c.ev("proofs checked together");
    c.check(r.is_ok(), "refused", || format!("together: {r:?}"));
    if m > 1 {
        // proofs exchanged
        let mut o = refs.clone();
        o.rotate_left(1);
        let r = Snark::<E>::batch_verify::<T>(&vks, &pir, &o, &msgs);
        c.check(r.is_err(), "exchanged", || "proofs of other statements".into());
        let mut o = pir.clone();
        o.rotate_left(1);
        if o != pir {
            let r = Snark::<E>::verify_batch_proof::<T>(&vks, &o, &b);
            c.check(r.is_err(), "exchanged", || "inputs of other statements".into());
        }
        c.ev("exchanged");
    }
}

/// A circuit without lookups over the given public inputs.
fn shared<F: PrimeField>(c: &mut Case, pis: &[F], ops: usize) -> PlonkCircuit<F> {
    let mut cs = PlonkCircuit::<F>::new_turbo_plonk();
    let mut vars: Vec<usize> = pis.iter().map(|x| cs.create_public_variable(*x).unwrap()).collect();
    vars.extend([cs.zero(), cs.one()]);
    for _ in 0..ops {
        let (a, b) = (c.pick(&vars), c.pick(&vars));
        let v = match c.below(4) {
            0 => cs.add(a, b),
            1 => cs.mul(a, b),
            2 => cs.sub(a, b),
            _ => cs.lc(&[a, b, a, b], &[F::from(3u64), F::one(), gen::field(c), -F::one()]),
        };
        vars.push(v.unwrap());
    }
    cs
}

/// Pairs of circuits merged into one.
pub fn merged<E: Cv, T: PlonkTranscript<B<E>>>(c: &mut Case) {
    use MergeableCircuitType::{TypeA, TypeB};
    let m = c.range(1, 3);
    let k = c.range(0, 3);
    let pis: Vec<S<E>> = gen::fields(c, k);
    let ops = c.range(0, 20);
    let mut made = vec![];
    for _ in 0..2 * m {
        let n = if c.coin() { ops } else { c.range(0, ops) };
        made.push(shared(c, &pis, n));
    }
    // of one size
    let n = made.iter().map(|x| x.num_gates()).max().unwrap();
    made.iter_mut().for_each(|x| {
        let g = x.num_gates();
        if g < n {
            x.pad_gates(n - g)
        }
    });
    let domain = (2 * n).next_power_of_two().max(2 * n.next_power_of_two());
    let s = Setup::<E>::new(c, domain + 2);
    c.key((m, k, n));
    c.sample(|| format!("{m} pairs of circuits of {n} gates, {k} shared inputs"));
    let (mut a, mut b) = (vec![], vec![]);
    for (i, x) in made.into_iter().enumerate() {
        let kind = if i % 2 == 0 { TypeA } else { TypeB };
        let r = c.no_panic("merge_panic", || BatchArgument::<E>::setup_instance(&s.srs, x, kind));
        let Some(r) = r else { return };
        let Some(x) = c.ok(r, "setup") else { return };
        if i % 2 == 0 {
            a.push(x)
        } else {
            b.push(x)
        }
    }
    let mut seed = fork(c);
    let Some(r) = c.no_panic("merge_panic", || BatchArgument::<E>::batch_prove::<_, T>(&mut seed, &a, &b)) else {
        return;
    };
    if k == 0 && r.is_err() {
        // the type of a circuit shows in the place of its inputs
        c.ev("merging without inputs refused");
        return;
    }
    let Some(proof) = c.ok(r, "prove") else { return };
    let ka: Vec<_> = a.iter().map(|x| x.verify_key_ref()).collect();
    let kb: Vec<_> = b.iter().map(|x| x.verify_key_ref()).collect();
    let Some(keys) = c.ok(BatchArgument::<E>::aggregate_verify_keys(&ka, &kb), "merge_keys") else { return };
    let open = s.open_key();
    let (g, beta_g) = (s.at(S::<E>::one()), s.at(s.x));
    let blind = gen::field::<S<E>>(c);
    let run = |keys: &[VerifyingKey<E>], pis: &[S<E>], proof: &BatchProof<E>| {
        let (x, y) = BatchArgument::<E>::partial_verify::<T>(&beta_g, &g, keys, pis, proof, blind)?;
        BatchArgument::<E>::decide(&open, x, y)
    };
    let r = run(&keys, &pis, &proof);
    c.ev("merged proof");
    c.check(matches!(r, Ok(true)), "refused", || format!("{r:?}"));
    // the full verification agrees
    let both = [&pis[..], &pis[..]].concat();
    let kr: Vec<_> = keys.iter().collect();
    let r = Snark::<E>::verify_batch_proof::<T>(&kr, &vec![&both[..]; m], &proof);
    c.check(r.is_ok(), "refused", || format!("in full: {r:?}"));
    // other inputs, keys the wrong way round
    if k > 0 {
        let mut bad = pis.clone();
        let i = c.below(k);
        bad[i] += S::<E>::one();
        let r = run(&keys, &bad, &proof);
        c.ev("merged proof, other inputs");
        c.check(!matches!(r, Ok(true)), "merged_inputs", || "accepted".into());
        let mut half = both.clone();
        half[c.below(2 * k)] += S::<E>::one();
        let r = Snark::<E>::verify_batch_proof::<T>(&kr, &vec![&half[..]; m], &proof);
        c.check(r.is_err(), "merged_inputs", || "one half differs".into());
    }
    if let Ok(other) = BatchArgument::<E>::aggregate_verify_keys(&kb, &ka) {
        if other != keys {
            let r = run(&other, &pis, &proof);
            c.ev("merged proof, halves exchanged");
            c.check(!matches!(r, Ok(true)), "merged_keys", || "halves exchanged".into());
        }
    }
    let r = BatchArgument::<E>::aggregate_verify_keys(&ka, &kb[1..]);
    c.check(r.is_err(), "merge_lists", || "lists of different lengths".into());
    let r = BatchArgument::<E>::batch_prove::<_, T>(&mut seed, &a[1..], &b);
    c.check(r.is_err(), "merge_lists", || "lists of different lengths".into());
}

/// A circuit whose wires carry values of their own choosing.
struct Bent<'a, F: PrimeField> {
    of: &'a PlonkCircuit<F>,
    wires: Vec<Vec<F>>,
}

type Res<T> = Result<T, jf_relation::CircuitError>;

impl<F: PrimeField> Circuit<F> for Bent<'_, F> {
    fn num_gates(&self) -> usize {
        self.of.num_gates()
    }
    fn num_vars(&self) -> usize {
        self.of.num_vars()
    }
    fn num_inputs(&self) -> usize {
        self.of.num_inputs()
    }
    fn num_wire_types(&self) -> usize {
        self.of.num_wire_types()
    }
    fn public_input(&self) -> Res<Vec<F>> {
        self.of.public_input()
    }
    fn check_circuit_satisfiability(&self, pub_input: &[F]) -> Res<()> {
        self.of.check_circuit_satisfiability(pub_input)
    }
    fn zero(&self) -> usize {
        self.of.zero()
    }
    fn one(&self) -> usize {
        self.of.one()
    }
    fn witness(&self, idx: usize) -> Res<F> {
        self.of.witness(idx)
    }
    fn support_lookup(&self) -> bool {
        self.of.support_lookup()
    }
    // nothing is added to it any more
    fn create_constant_variable(&mut self, _: F) -> Res<usize> {
        unreachable!()
    }
    fn create_variable(&mut self, _: F) -> Res<usize> {
        unreachable!()
    }
    fn create_public_variable(&mut self, _: F) -> Res<usize> {
        unreachable!()
    }
    fn set_variable_public(&mut self, _: usize) -> Res<()> {
        unreachable!()
    }
    fn enforce_constant(&mut self, _: usize, _: F) -> Res<()> {
        unreachable!()
    }
    fn add_gate(&mut self, _: usize, _: usize, _: usize) -> Res<()> {
        unreachable!()
    }
    fn add(&mut self, _: usize, _: usize) -> Res<usize> {
        unreachable!()
    }
    fn sub_gate(&mut self, _: usize, _: usize, _: usize) -> Res<()> {
        unreachable!()
    }
    fn sub(&mut self, _: usize, _: usize) -> Res<usize> {
        unreachable!()
    }
    fn mul_gate(&mut self, _: usize, _: usize, _: usize) -> Res<()> {
        unreachable!()
    }
    fn mul(&mut self, _: usize, _: usize) -> Res<usize> {
        unreachable!()
    }
    fn enforce_bool(&mut self, _: usize) -> Res<()> {
        unreachable!()
    }
    fn enforce_equal(&mut self, _: usize, _: usize) -> Res<()> {
        unreachable!()
    }
    fn pad_gates(&mut self, _: usize) {
        unreachable!()
    }
}

type Poly<F> = DensePolynomial<F>;

impl<F: PrimeField> Arithmetization<F> for Bent<'_, F> {
    fn srs_size(&self) -> Res<usize> {
        self.of.srs_size()
    }
    fn eval_domain_size(&self) -> Res<usize> {
        self.of.eval_domain_size()
    }
    fn compute_selector_polynomials(&self) -> Res<Vec<Poly<F>>> {
        self.of.compute_selector_polynomials()
    }
    fn compute_extended_permutation_polynomials(&self) -> Res<Vec<Poly<F>>> {
        self.of.compute_extended_permutation_polynomials()
    }
    /// The product polynomial of the values carried, as far as it goes.
    fn compute_prod_permutation_polynomial(&self, beta: &F, gamma: &F) -> Res<Poly<F>> {
        let n = self.of.eval_domain_size()?;
        let d = Radix2EvaluationDomain::<F>::new(n).unwrap();
        let sigma: Vec<Vec<F>> =
            self.of.compute_extended_permutation_polynomials()?.iter().map(|p| d.fft(&p.coeffs)).collect();
        let k: Vec<F> = jf_relation::constants::compute_coset_representatives(self.of.num_wire_types(), Some(n));
        let mut z = vec![F::one()];
        for i in 0..n - 1 {
            let (mut a, mut b) = (F::one(), F::one());
            for j in 0..self.wires.len() {
                a *= self.wires[j][i] + *beta * k[j] * d.element(i) + gamma;
                b *= self.wires[j][i] + *beta * sigma[j][i] + gamma;
            }
            z.push(z[i] * a * b.inverse().unwrap());
        }
        d.ifft_in_place(&mut z);
        Ok(Poly::from_coefficients_vec(z))
    }
    fn compute_wire_polynomials(&self) -> Res<Vec<Poly<F>>> {
        let d = Radix2EvaluationDomain::<F>::new(self.of.eval_domain_size()?).unwrap();
        Ok(self.wires.iter().map(|w| Poly::from_coefficients_vec(d.ifft(w))).collect())
    }
    fn compute_pub_input_polynomial(&self) -> Res<Poly<F>> {
        self.of.compute_pub_input_polynomial()
    }
    fn compute_range_table_polynomial(&self) -> Res<Poly<F>> {
        self.of.compute_range_table_polynomial()
    }
    fn compute_key_table_polynomial(&self) -> Res<Poly<F>> {
        self.of.compute_key_table_polynomial()
    }
    fn compute_table_dom_sep_polynomial(&self) -> Res<Poly<F>> {
        self.of.compute_table_dom_sep_polynomial()
    }
    fn compute_q_dom_sep_polynomial(&self) -> Res<Poly<F>> {
        self.of.compute_q_dom_sep_polynomial()
    }
    fn compute_merged_lookup_table(&self, tau: F) -> Res<Vec<F>> {
        self.of.compute_merged_lookup_table(tau)
    }
    fn compute_lookup_sorted_vec_polynomials(&self, tau: F, table: &[F]) -> Res<(Vec<F>, Poly<F>, Poly<F>)> {
        self.of.compute_lookup_sorted_vec_polynomials(tau, table)
    }
    fn compute_lookup_prod_polynomial(&self, tau: &F, beta: &F, gamma: &F, table: &[F], sorted: &[F]) -> Res<Poly<F>> {
        self.of.compute_lookup_prod_polynomial(tau, beta, gamma, table, sorted)
    }
}

/// Whatever a dishonest prover gets out of the library is refused.
fn refused<E: Cv, T: PlonkTranscript<B<E>>, C: Arithmetization<S<E>>>(
    c: &mut Case,
    circuit: &C,
    pk: &ProvingKey<E>,
    pis: &[S<E>],
    sig: &'static str,
    what: &str,
) {
    let mut seed = fork(c);
    match Snark::<E>::prove::<_, _, T>(&mut seed, circuit, pk, None) {
        Err(_) => c.ev("false claim not proved"),
        Ok(proof) => {
            c.ev("false claim judged");
            let r = Snark::<E>::verify::<T>(&pk.vk, pis, &proof, None);
            c.check(r.is_err(), sig, || what.to_string());
        },
    }
}

/// The labels of the places are all different: a label that two wires share
/// would let their values stand in for each other.
fn labels<E: Cv>(c: &mut Case, vk: &VerifyingKey<E>) {
    for i in 0..vk.k.len() {
        for j in 0..i {
            let q = vk.k[i] * vk.k[j].inverse().unwrap_or_default();
            let q = q.pow([vk.domain_size as u64]);
            c.check(!q.is_zero() && !q.is_one(), "labels_shared", || format!("wires {j} and {i}"));
        }
    }
    c.ev("labels of a key");
}

/// Circuits that are not satisfied.
pub fn unsatisfied<E: Cv, T: PlonkTranscript<B<E>>>(c: &mut Case) {
    let shape = any_shape(c, 24);
    let p = program::<S<E>>(c, shape);
    let n = size(&p.cs);
    let s = Setup::<E>::new(c, n + 2);
    let r = Snark::<E>::preprocess(&s.srs, &p.cs);
    let Some((pk, _)) = c.ok(r, "preprocess") else { return };
    for _ in 0..3 {
        let (wit, pis) = p.tamper(c);
        if !p.broken(&wit, &pis) {
            continue;
        }
        let mut cs = p.with(&wit);
        if wit == p.wit {
            // only the public input differs
            cs = p.cs.clone();
        }
        c.key((shape.ultra, n, p.broken_rows(&wit, &pis), p.broken_lookups(&wit), wit == p.wit));
        c.sample(|| format!("{n} gates, range bits {:?}, lookups broken {}", shape.ultra, p.broken_lookups(&wit)));
        refused::<E, T, _>(c, &cs, &pk, &pis, "false_accepted", "an unsatisfied circuit");
    }
}

/// Gates that hold, on wires that do not carry the same value everywhere.
pub fn unwired<E: Cv, T: PlonkTranscript<B<E>>>(c: &mut Case) {
    let shape = any_shape(c, 24);
    let p = program::<S<E>>(c, shape);
    let n = size(&p.cs);
    let s = Setup::<E>::new(c, n + 2);
    let r = Snark::<E>::preprocess(&s.srs, &p.cs);
    let Some((pk, vk)) = c.ok(r, "preprocess") else { return };
    labels(c, &vk);
    let d = Radix2EvaluationDomain::<S<E>>::new(n).unwrap();
    let wires: Vec<Vec<S<E>>> = p.cs.compute_wire_polynomials().unwrap().iter().map(|w| d.fft(&w.coeffs)).collect();
    let sel: Vec<Vec<S<E>>> = p.cs.compute_selector_polynomials().unwrap().iter().map(|w| d.fft(&w.coeffs)).collect();
    let pis = p.pis();
    // as it stands, the copy is as good as the original
    let bent = Bent { of: &p.cs, wires: wires.clone() };
    let mut seed = fork(c);
    let r = Snark::<E>::prove::<_, _, T>(&mut seed, &bent, &pk, None);
    let Some(proof) = c.ok(r, "prove") else { return };
    c.ev("true claim from a copy");
    let r = Snark::<E>::verify::<T>(&vk, &pis, &proof, None);
    c.check(r.is_ok(), "refused", || format!("{r:?}"));
    // a place whose value its own gate does not look at, but others do
    let sigma: Vec<Vec<S<E>>> =
        p.cs.compute_extended_permutation_polynomials().unwrap().iter().map(|w| d.fft(&w.coeffs)).collect();
    let k: Vec<S<E>> = jf_relation::constants::compute_coset_representatives(p.cs.num_wire_types(), Some(n));
    let idle = |j: usize, i: usize| -> bool {
        let q = |k: usize| sel[k][i].is_zero();
        // no gate that multiplies wires, and no linear or power term of this one
        q(4) && q(5)
            && q(12)
            && sel.get(13).is_none_or(|x| x[i].is_zero())
            && match j {
                0..=3 => q(j) && q(6 + j),
                4 => q(10),
                _ => false,
            }
    };
    let mut places = vec![];
    for j in 0..5 {
        for i in 0..n {
            if idle(j, i) && sigma[j][i] != k[j] * d.element(i) {
                places.push((j, i));
            }
        }
    }
    if places.is_empty() {
        c.ev("no idle place");
        return;
    }
    for _ in 0..2 {
        let (j, i) = c.pick(&places);
        let mut w = wires.clone();
        w[j][i] = gen::field(c);
        if w[j][i] == wires[j][i] {
            continue;
        }
        c.key((shape.ultra, n, j, i));
        c.sample(|| format!("wire {j} of gate {i} of {n} cut loose"));
        let bent = Bent { of: &p.cs, wires: w };
        refused::<E, T, _>(c, &bent, &pk, &pis, "unwired_accepted", "a wire cut loose");
    }
}

fn points<E: Cv>(p: &mut Proof<E>) -> Vec<&mut Commitment<E>> {
    let mut v: Vec<&mut Commitment<E>> = vec![];
    v.extend(p.wires_poly_comms.iter_mut());
    v.push(&mut p.prod_perm_poly_comm);
    v.extend(p.split_quot_poly_comms.iter_mut());
    v.push(&mut p.opening_proof);
    v.push(&mut p.shifted_opening_proof);
    v
}

fn values<E: Cv>(p: &mut Proof<E>) -> Vec<&mut S<E>> {
    let mut v: Vec<&mut S<E>> = vec![];
    v.extend(p.poly_evals.wires_evals.iter_mut());
    v.extend(p.poly_evals.wire_sigma_evals.iter_mut());
    v.push(&mut p.poly_evals.perm_next_eval);
    v
}

/// A proof that was accepted, changed in any place, or offered for anything
/// else, is refused.
pub fn altered<E: Cv, T: PlonkTranscript<B<E>>>(c: &mut Case) {
    let shape = any_shape(c, 12);
    let p = program::<S<E>>(c, shape);
    let n = size(&p.cs);
    let s = Setup::<E>::new(c, n + 2);
    let r = Snark::<E>::preprocess(&s.srs, &p.cs);
    let Some((pk, vk)) = c.ok(r, "preprocess") else { return };
    let msg = message(c);
    let mut seed = fork(c);
    let mut make = |msg: &Option<Vec<u8>>| Snark::<E>::prove::<_, _, T>(&mut seed, &p.cs, &pk, msg.clone());
    let Some(proof) = c.ok(make(&msg), "prove") else { return };
    let Some(other) = c.ok(make(&msg), "prove") else { return };
    let pis = p.pis();
    let r = Snark::<E>::verify::<T>(&vk, &pis, &proof, msg.clone());
    c.check(r.is_ok(), "refused", || format!("{r:?}"));
    c.sample(|| format!("{n} gates, range bits {:?}", shape.ultra));
    for _ in 0..12 {
        let (mut q, mut key, mut pi, mut m) = (proof.clone(), vk.clone(), pis.clone(), msg.clone());
        let kind = c.below(6);
        let at = match kind {
            0 | 1 => {
                let k = points(&mut q).len();
                let i = c.below(k);
                let old = points(&mut q)[i].0;
                let new = match c.below(6) {
                    0 => (-old).into(),
                    1 => E::G1Affine::default(),
                    2 => (old + old).into_affine(),
                    3 => points(&mut other.clone())[i].0,
                    4 => {
                        let j = c.below(k);
                        points(&mut q)[j].0
                    },
                    _ => E::G1::rand(&mut c.rng).into_affine(),
                };
                points(&mut q)[i].0 = new;
                i
            },
            2 | 3 => {
                let k = values(&mut q).len();
                let i = c.below(k);
                let old = *values(&mut q)[i];
                let new = match c.below(5) {
                    0 => -old,
                    1 => S::<E>::zero(),
                    2 => old + S::<E>::one(),
                    3 => *values(&mut other.clone())[i],
                    _ => S::<E>::rand(&mut c.rng),
                };
                *values(&mut q)[i] = new;
                i
            },
            4 => {
                let i = c.below(4);
                match i {
                    0 if !pi.is_empty() => {
                        let j = c.below(pi.len());
                        pi[j] += S::<E>::one();
                    },
                    1 if !pi.is_empty() => {
                        pi.pop();
                    },
                    2 => pi.push(S::<E>::zero()),
                    _ => {
                        m = match m {
                            None => Some(vec![1]),
                            Some(mut x) => {
                                if x.is_empty() {
                                    x.push(1);
                                } else {
                                    gen::flip(c, &mut x);
                                }
                                Some(x)
                            },
                        }
                    },
                }
                i
            },
            _ => {
                let i = c.below(5);
                match i {
                    0 => {
                        let j = c.below(key.selector_comms.len());
                        key.selector_comms[j] = s.com(S::<E>::rand(&mut c.rng));
                    },
                    1 => {
                        let j = c.below(key.sigma_comms.len());
                        key.sigma_comms[j] = s.com(S::<E>::rand(&mut c.rng));
                    },
                    2 => {
                        let j = c.below(key.k.len());
                        key.k[j] = S::<E>::rand(&mut c.rng);
                    },
                    3 => key.domain_size *= 2,
                    _ => {
                        let h = (key.open_key.h * S::<E>::rand(&mut c.rng)).into_affine();
                        key.open_key.beta_h = h;
                        key.open_key.powers_of_h[1] = h;
                    },
                }
                i
            },
        };
        if (&q, &key, &pi, &m) == (&proof, &vk, &pis, &msg) {
            continue;
        }
        c.key((shape.ultra.is_some(), kind / 2 * 2, kind, at));
        c.ev("altered claim");
        let r = Snark::<E>::verify::<T>(&key, &pi, &q, m);
        c.check(r.is_err(), "altered_accepted", || format!("kind {kind} at {at}"));
    }
    // a proof is read from its own bytes and still accepted
    let b = bytes(&proof);
    match ark_serialize::CanonicalDeserialize::deserialize_compressed(&b[..]) {
        Ok::<Proof<E>, _>(q) => {
            let r = Snark::<E>::verify::<T>(&vk, &pis, &q, msg.clone());
            c.check(r.is_ok(), "refused", || format!("read back: {r:?}"));
        },
        Err(e) => c.fail("read_back", format!("{e:?}")),
    }
}

/// Circuits and keys that do not belong together.
pub fn mismatched<E: Cv, T: PlonkTranscript<B<E>>>(c: &mut Case) {
    let (sa, sb) = (any_shape(c, 16), any_shape(c, 16));
    let (a, b) = (program::<S<E>>(c, sa), program::<S<E>>(c, sb));
    let n = size(&a.cs).max(size(&b.cs));
    let s = Setup::<E>::new(c, n + 2);
    let r = Snark::<E>::preprocess(&s.srs, &a.cs);
    let Some((pa, va)) = c.ok(r, "preprocess") else { return };
    let r = Snark::<E>::preprocess(&s.srs, &b.cs);
    let Some((pb, vb)) = c.ok(r, "preprocess") else { return };
    if va == vb {
        return;
    }
    c.key((sa.ultra, sb.ultra, size(&a.cs), size(&b.cs), a.inputs.len(), b.inputs.len()));
    c.sample(|| format!("{} gates with the key of {} gates", size(&a.cs), size(&b.cs)));
    // a circuit with the key of another
    let mut seed = fork(c);
    let r = c.no_panic("mismatch_panic", || Snark::<E>::prove::<_, _, T>(&mut seed, &a.cs, &pb, None));
    c.ev("key of another circuit");
    if let Some(Ok(proof)) = r {
        c.ev("proof with the key of another circuit");
        let r = Snark::<E>::verify::<T>(&va, &a.pis(), &proof, None);
        c.check(r.is_err(), "mismatch_accepted", || "made with the key of another circuit".into());
        // it may only hold if the other circuit is satisfied by it as well
        let r = Snark::<E>::verify::<T>(&vb, &a.pis(), &proof, None);
        if r.is_ok() {
            c.ev("satisfies both");
        }
    }
    // a proof with the key of another
    let r = Snark::<E>::prove::<_, _, T>(&mut seed, &a.cs, &pa, None);
    let Some(proof) = c.ok(r, "prove") else { return };
    c.ev("proof for another key");
    let r = c.no_panic("mismatch_panic", || Snark::<E>::verify::<T>(&vb, &a.pis(), &proof, None));
    if let Some(r) = r {
        c.check(r.is_err(), "mismatch_accepted", || "a proof of another circuit".into());
    }
    let r = c.no_panic("mismatch_panic", || Snark::<E>::verify::<T>(&vb, &b.pis(), &proof, None));
    if let Some(r) = r {
        c.check(r.is_err(), "mismatch_accepted", || "a proof of another circuit, with its inputs".into());
    }
    // circuits and keys in an aggregate
    let r = c.no_panic("mismatch_panic", || {
        Snark::<E>::batch_prove::<_, _, T>(&mut seed, &[&a.cs, &b.cs], &[&pb, &pa])
    });
    if let Some(Ok(proof)) = r {
        let r = Snark::<E>::verify_batch_proof::<T>(&[&va, &vb], &[&a.pis(), &b.pis()], &proof);
        c.check(r.is_err(), "mismatch_accepted", || "keys exchanged".into());
    }
    let r = c.no_panic("mismatch_panic", || Snark::<E>::batch_prove::<_, _, T>(&mut seed, &[&a.cs, &b.cs], &[&pa]));
    if let Some(r) = r {
        c.check(r.is_err(), "mismatch_lists", || "two circuits, one key".into());
    }
    // not finalized
    let raw = Prog::<S<E>>::random(c, sa);
    let r = c.no_panic("unfinalized_panic", || Snark::<E>::preprocess(&s.srs, &raw.cs).map(|_| ()));
    c.ev("circuit not finalized");
    if let Some(r) = r {
        c.check(r.is_err(), "unfinalized", || "a key for a circuit that is not finalized".into());
    }
}

/// A source of randomness that goes another way once so many challenges have
/// been drawn.
struct Switch {
    first: Rand,
    then: Rand,
    at: usize,
}

impl RngCore for Switch {
    fn next_u32(&mut self) -> u32 {
        if drawn() > self.at { self.then.next_u32() } else { self.first.next_u32() }
    }
    fn next_u64(&mut self) -> u64 {
        if drawn() > self.at { self.then.next_u64() } else { self.first.next_u64() }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        if drawn() > self.at { self.then.fill_bytes(dest) } else { self.first.fill_bytes(dest) }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Switch {}

/// What masks have been seen, as values and as points.
struct Masks<'a, E: Cv> {
    s: &'a Setup<E>,
    n: usize,
    values: std::collections::HashSet<Vec<u8>>,
    points: std::collections::HashSet<Vec<u8>>,
}

impl<E: Cv> Masks<'_, E> {
    /// A polynomial with its commitment and the values of it that are shown.
    fn note(&mut self, c: &mut Case, com: &Commitment<E>, plain: &Poly<S<E>>, shown: &[(S<E>, S<E>)], spare: bool, what: &str) {
        let n = self.n as u64;
        let vanish = |x: S<E>| x.pow([n]) - S::<E>::one();
        let x = self.s.x;
        // commitment and values are plain + vanish * mask
        let inv = vanish(x).inverse().expect("secret outside the domain");
        let mask = ((self.s.g * -plain.evaluate(&x) + com.0) * inv).into_affine();
        c.check(!mask.is_zero(), "unmasked", || format!("commitment to {what}"));
        c.check(self.points.insert(bytes(&mask)), "mask_reused", || format!("commitment to {what}"));
        let at: Vec<(S<E>, S<E>)> = shown.iter().map(|&(p, v)| (p, (v - plain.evaluate(&p)) / vanish(p))).collect();
        for (_, m) in &at {
            c.check(!m.is_zero(), "unmasked", || format!("value of {what}"));
            c.check(self.values.insert(bytes(m)), "mask_reused", || format!("value of {what}"));
        }
        if spare {
            // the values alone do not tell what the mask is elsewhere
            let told: S<E> = (0..at.len())
                .map(|i| {
                    let mut l = at[i].1;
                    for j in (0..at.len()).filter(|&j| j != i) {
                        l *= (x - at[j].0) / (at[i].0 - at[j].0);
                    }
                    l
                })
                .sum();
            c.check(mask != self.s.at(told), "mask_told", || format!("{what}: the values shown tell the whole mask"));
        }
        c.ev("mask of a polynomial");
    }
}

/// Everything that depends on the witness is masked, each time anew.
pub fn masked<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let shape = any_shape(c, 16);
    let m = c.range(1, 2);
    let p = program::<S<E>>(c, shape);
    let n = size(&p.cs);
    let s = Setup::<E>::new(c, n + 2);
    let r = Snark::<E>::preprocess(&s.srs, &p.cs);
    let Some((pk, _)) = c.ok(r, "preprocess") else { return };
    let ultra = shape.ultra.is_some();
    c.key((shape.ultra, n, m));
    c.sample(|| format!("{m} times a circuit of {n} gates, range bits {:?}", shape.ultra));
    let plain: Vec<Poly<S<E>>> = p.cs.compute_wire_polynomials().expect("wires");
    let mut masks = Masks { s: &s, n, values: Default::default(), points: Default::default() };
    let seeds = [fork(c), fork(c)];
    let other = fork(c);
    let k = ultra as usize;
    let mut runs = vec![];
    let make = |first: &Rand, at: usize| {
        let mut g = Switch { first: first.clone(), then: other.clone(), at };
        recorded_here(|| Snark::<E>::batch_prove::<_, _, Rec<T>>(&mut g, &vec![&p.cs; m], &vec![&pk; m]))
    };
    for seed in &seeds {
        let (r, log): (_, Vec<S<E>>) = make(seed, usize::MAX);
        let Some(b) = c.ok(r, "prove") else { return };
        let (again, _): (_, Vec<S<E>>) = make(seed, usize::MAX);
        c.check(again.is_ok_and(|x| x == b), "not_repeatable", || "the same randomness, another proof".into());
        c.ev("proof made twice from one seed");
        let zeta = log[log.len() - 3];
        let next = zeta * Radix2EvaluationDomain::<S<E>>::new(n).unwrap().group_gen;
        let (beta, gamma) = (log[k], log[k + 1]);
        let parts = Parts::<E>::of(&b);
        for i in 0..m {
            for (j, w) in plain.iter().enumerate() {
                let mut shown = vec![(zeta, parts.evals[i].wires_evals[j])];
                match &parts.lks[i] {
                    Some(l) if j == 3 => shown.push((next, l.2[W3_NEXT])),
                    Some(l) if j == 4 => shown.push((next, l.2[W4_NEXT])),
                    _ => (),
                }
                // the two wires that are shown twice have no mask to spare
                let spare = shown.len() == 1;
                masks.note(c, &parts.wires[i][j], w, &shown, spare, &format!("wire {j} of instance {i}"));
            }
            let z = p.cs.compute_prod_permutation_polynomial(&beta, &gamma).expect("product");
            let shown = [(next, parts.evals[i].perm_next_eval)];
            masks.note(c, &parts.prods[i], &z, &shown, true, &format!("product of instance {i}"));
            if let Some((h, prod, v)) = &parts.lks[i] {
                let tau = log[0];
                let table = p.cs.compute_merged_lookup_table(tau).expect("table");
                let (sorted, h1, h2) = p.cs.compute_lookup_sorted_vec_polynomials(tau, &table).expect("sorted");
                let z = p.cs.compute_lookup_prod_polynomial(&tau, &beta, &gamma, &table, &sorted).expect("product");
                let shown = [(zeta, v[H1]), (next, v[H1_NEXT])];
                masks.note(c, &h[0], &h1, &shown, true, &format!("first sorted half of instance {i}"));
                masks.note(c, &h[1], &h2, &[(next, v[H2_NEXT])], true, &format!("second sorted half of instance {i}"));
                masks.note(c, prod, &z, &[(next, v[PROD_NEXT])], true, &format!("lookup product of instance {i}"));
                c.ev("masks of a lookup part");
            }
        }
        runs.push(parts);
    }
    // other randomness from the products on, and from the quotient on
    let (r, _): (_, Vec<S<E>>) = make(&seeds[0], k + 1);
    let Some(late) = c.ok(r, "prove") else { return };
    let late = Parts::<E>::of(&late);
    c.check(late.wires == runs[0].wires, "not_repeatable", || "the wires depend on later randomness".into());
    for i in 0..m {
        c.check(late.prods[i] != runs[0].prods[i], "unmasked", || format!("product of instance {i} is the same"));
        if let (Some(a), Some(b)) = (&late.lks[i], &runs[0].lks[i]) {
            c.check(a.0 == b.0 && a.1 != b.1, "unmasked", || format!("lookup part of instance {i}"));
        }
    }
    c.ev("other randomness from the products on");
    let (r, _): (_, Vec<S<E>>) = make(&seeds[0], k + 2);
    let Some(late) = c.ok(r, "prove") else { return };
    let late = Parts::<E>::of(&late);
    let same = late.wires == runs[0].wires && late.prods == runs[0].prods;
    if c.check(same, "not_repeatable", || "the products depend on later randomness".into()) {
        // parts of the quotient are part - last mask + mask * x^(n + 2)
        let inv = s.x.pow([n as u64 + 2]).inverse().expect("secret");
        let mut last = E::G1::zero();
        let count = late.quot.len();
        for (i, (a, b)) in late.quot.iter().zip(&runs[0].quot).enumerate() {
            let gap = last + a.0 - b.0;
            if i + 1 == count {
                c.check(gap.is_zero(), "quotient_masks", || "the masks of the quotient do not add up to nothing".into());
                continue;
            }
            last = gap * inv;
            c.check(!last.is_zero(), "unmasked", || format!("part {i} of the quotient"));
            c.check(masks.points.insert(bytes(&last.into_affine())), "mask_reused", || format!("part {i} of the quotient"));
            c.ev("mask of a part of the quotient");
        }
    }
    // nothing that depends on the witness is the same in both
    let (x, y) = (&runs[0], &runs[1]);
    let all = |q: &Parts<E>| -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = vec![];
        v.extend(q.wires.iter().flatten().map(bytes));
        v.extend(q.prods.iter().map(bytes));
        v.extend(q.quot.iter().map(bytes));
        v.extend(q.evals.iter().flat_map(|e| e.wires_evals.iter().map(bytes)));
        v.extend(q.evals.iter().map(|e| bytes(&e.perm_next_eval)));
        for l in q.lks.iter().flatten() {
            v.extend(l.0.iter().map(bytes));
            v.push(bytes(&l.1));
        }
        v
    };
    let (x, y) = (all(x), all(y));
    for (i, (a, b)) in x.iter().zip(&y).enumerate() {
        c.check(a != b, "unmasked", || format!("element {i} is the same in two proofs"));
    }
    let unlike: std::collections::HashSet<_> = x.iter().collect();
    c.check(unlike.len() == x.len(), "mask_reused", || "two elements of a proof are the same".into());
    c.ev("two proofs of one statement");
}

type Lk<E> = (Vec<Commitment<E>>, Commitment<E>, [S<E>; 15]);

/// The lists of an aggregated proof.
struct Parts<E: Cv> {
    wires: Vec<Vec<Commitment<E>>>,
    prods: Vec<Commitment<E>>,
    evals: Vec<jf_plonk::proof_system::structs::ProofEvaluations<S<E>>>,
    lks: Vec<Option<Lk<E>>>,
    quot: Vec<Commitment<E>>,
}

impl<E: Cv> Parts<E> {
    fn of(b: &BatchProof<E>) -> Self {
        use ark_serialize::CanonicalDeserialize as D;
        let b = bytes(b);
        let mut r = &b[..];
        let wires = D::deserialize_compressed_unchecked(&mut r).unwrap();
        let prods = D::deserialize_compressed_unchecked(&mut r).unwrap();
        let evals = D::deserialize_compressed_unchecked(&mut r).unwrap();
        let lks = D::deserialize_compressed_unchecked(&mut r).unwrap();
        let quot = D::deserialize_compressed_unchecked(&mut r).unwrap();
        Parts { wires, prods, evals, lks, quot }
    }
}
