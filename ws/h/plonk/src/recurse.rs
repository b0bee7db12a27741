//! The verifier written as a circuit.

use crate::{base::*, judge::*};
use ark_bls12_377::{g1, Bls12_377, Fq, Fr};
use ark_ec::CurveGroup;
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use jf_plonk::{
    circuit::plonk_verifier::{BatchableCircuit, VerifyingKeyVar},
    proof_system::{
        batch_arg::BatchArgument,
        structs::{BatchProof, VerifyingKey},
    },
    transcript::RescueTranscript,
};
use jf_relation::{
    gadgets::{
        ecc::{PointVariable, TEPoint},
        ultraplonk::mod_arith::FpElemVar,
    },
    Circuit, CircuitError, PlonkCircuit, Variable,
};
use jf_utils::field_switching;
use vh::{gen, Case};

type E = Bls12_377;
type T = RescueTranscript<Fq>;
type Key = VerifyingKeyVar<E>;

struct Built {
    cs: PlonkCircuit<Fq>,
    out: (PointVariable, PointVariable),
    inputs: Vec<Variable>,
}

/// What the circuit is built from.
struct Parts<'a> {
    s: &'a Setup<E>,
    keys: Vec<VerifyingKey<E>>,
    shared: Vec<Fr>,
    proof: BatchProof<E>,
    blind: Fr,
    range: usize,
}

fn build(p: &Parts) -> Result<Built, CircuitError> {
    let mut cs = PlonkCircuit::<Fq>::new_ultra_plonk(p.range);
    let m = (Fr::MODULUS_BIT_SIZE as usize).div_ceil(2).div_ceil(p.range) * p.range;
    let two_m = Some(Fq::from(2u64).pow([m as u64]));
    let mut inputs = vec![];
    let mut shared = vec![];
    for x in &p.shared {
        let v = cs.create_public_variable(field_switching(x))?;
        inputs.push(v);
        shared.push(FpElemVar::new_unchecked(&mut cs, v, m, two_m)?);
    }
    let keys = p.keys.iter().map(|k| Key::new(&mut cs, k)).collect::<Result<Vec<_>, _>>()?;
    let proof = p.proof.create_variables(&mut cs, m, two_m)?;
    let blind = cs.create_variable(field_switching(&p.blind))?;
    let beta_g: TEPoint<Fq> = p.s.srs.powers_of_g[1].into();
    let g: TEPoint<Fq> = p.s.srs.powers_of_g[0].into();
    let out = Key::partial_verify_circuit(&mut cs, &beta_g, &g, &keys, &shared, &proof, blind)?;
    Ok(Built { cs, out, inputs })
}

fn claim(c: &mut Case, m: usize, n: usize, half: usize, shared: &[Fr]) -> Claim<Fr> {
    let mut q = Claim::<Fr>::any(c, m, false, true);
    q.extra = None;
    for k in &mut q.keys {
        k.n = n;
        k.inputs = 2 * half;
    }
    q.pis = vec![[shared, shared].concat(); m];
    q.proof.open = gen::field(c);
    q.proof.shift = gen::field(c);
    q
}

fn parts<'a>(c: &mut Case, s: &'a Setup<E>, q: &Claim<Fr>, shared: &[Fr], range: usize) -> Parts<'a> {
    Parts {
        s,
        keys: q.keys.iter().map(|k| k.key(s)).collect(),
        shared: shared.to_vec(),
        proof: q.proof.batch(s),
        blind: gen::field(c),
        range,
    }
}

fn native(p: &Parts) -> Option<(TEPoint<Fq>, TEPoint<Fq>)> {
    let g = &p.s.srs.powers_of_g;
    let (a, b) =
        BatchArgument::<E>::partial_verify::<T>(&g[1], &g[0], &p.keys, &p.shared, &p.proof, p.blind).ok()?;
    Some((a.into_affine().into(), b.into_affine().into()))
}

/// The circuit computes the two elements the verifier computes, and admits no
/// others.
pub fn circuit(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let m = c.range(1, 3);
    let n = 1 << c.range(2, 7);
    let half = c.range(0, 2);
    let range = if c.thorough && c.below(8) == 0 { 16 } else { 8 };
    let shared: Vec<Fr> = gen::fields(c, half);
    let mut q = claim(c, m, n, half, &shared);
    let honest = c.coin();
    if honest && settle::<E, T>(c, &s, &mut q, false).is_none() {
        return;
    }
    c.key((m, n, half, range, honest));
    c.sample(|| format!("{m} merged instances, domain {n}, {half} shared inputs, tables of {range} bits"));
    let p = parts(c, &s, &q, &shared, range);
    let Some(want) = native(&p) else {
        c.fail("native", "the verifier refuses the shape");
        return;
    };
    let Some(mut b) = c.ok(build(&p), "build") else { return };
    let pis: Vec<Fq> = shared.iter().map(field_switching).collect();
    let r = b.cs.check_circuit_satisfiability(&pis);
    c.ev("verifier circuit");
    c.ev_n("gates", b.cs.num_gates() as u64);
    if !c.check(r.is_ok(), "unsatisfied", || format!("{r:?}")) {
        return;
    }
    let got = (b.cs.point_witness(&b.out.0), b.cs.point_witness(&b.out.1));
    c.check(got.0.as_ref().ok() == Some(&want.0), "inner1", || format!("{:?} for {:?}", got.0, want.0));
    c.check(got.1.as_ref().ok() == Some(&want.1), "inner2", || format!("{:?} for {:?}", got.1, want.1));

    // the statement is bound
    if half > 0 {
        let mut w = pis.clone();
        let i = c.below(half);
        w[i] += Fq::from(1u64);
        c.ev("another public input");
        c.check(b.cs.check_circuit_satisfiability(&w).is_err(), "other_input", || "satisfied".into());
        // both the input and its variable
        let v = b.inputs[i];
        let old = b.cs.witness(v).unwrap_or_default();
        *b.cs.witness_mut(v) = w[i];
        c.check(b.cs.check_circuit_satisfiability(&w).is_err(), "other_input", || "input without its parts".into());
        *b.cs.witness_mut(v) = old;
    }
    // and so is every value in between
    for _ in 0..3 {
        let v = c.range(2, b.cs.num_vars() - 1);
        let old = b.cs.witness(v).unwrap_or_default();
        let new = match c.below(3) {
            0 => old + Fq::from(1u64),
            1 if !old.is_zero() => Fq::from(0u64),
            _ => Fq::rand(&mut c.rng),
        };
        *b.cs.witness_mut(v) = new;
        let ok = b.cs.check_circuit_satisfiability(&pis).is_ok();
        *b.cs.witness_mut(v) = old;
        c.ev("one value changed");
        // an unused inverse of zero is free
        c.check(!ok || old.is_zero(), "value_free", || format!("variable {v}: {old} replaced by {new}"));
    }
    for (k, p) in [&b.out.0, &b.out.1].into_iter().enumerate() {
        let v = if c.coin() { p.get_x() } else { p.get_y() };
        let old = b.cs.witness(v).unwrap_or_default();
        *b.cs.witness_mut(v) = old + Fq::rand(&mut c.rng);
        let ok = b.cs.check_circuit_satisfiability(&pis).is_ok();
        *b.cs.witness_mut(v) = old;
        c.ev("one result changed");
        c.check(!ok, "result_free", || format!("result {k}"));
    }

    // one circuit serves every proof of this shape
    let shared2: Vec<Fr> = gen::fields(c, half);
    let mut q2 = claim(c, m, n, half, &shared2);
    for (a, k) in q2.keys.iter_mut().zip(&q.keys) {
        a.k = k.k.clone();
    }
    let p2 = parts(c, &s, &q2, &shared2, range);
    let want2 = native(&p2);
    let Some(b2) = c.ok(build(&p2), "build") else { return };
    if !c.eq(&b2.cs.num_vars(), &b.cs.num_vars(), "size_varies") {
        return;
    }
    for v in 2..b.cs.num_vars() {
        *b.cs.witness_mut(v) = b2.cs.witness(v).unwrap_or_default();
    }
    let pis2: Vec<Fq> = shared2.iter().map(field_switching).collect();
    let r = b.cs.check_circuit_satisfiability(&pis2);
    c.ev("the same circuit with another proof");
    c.check(r.is_ok(), "fixed_to_proof", || format!("{r:?}"));
    let got = b.cs.point_witness(&b.out.0).ok().zip(b.cs.point_witness(&b.out.1).ok());
    c.check(got == want2, "other_result", || format!("{got:?} for {want2:?}"));
}

/// Shapes that do not fit are refused.
pub fn refused(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let m = c.range(1, 3);
    let n = 1 << c.range(2, 5);
    let half = c.range(0, 2);
    let shared: Vec<Fr> = gen::fields(c, half);
    let q = claim(c, m, n, half, &shared);
    let mut p = parts(c, &s, &q, &shared, 8);
    let kind = c.below(6);
    match kind {
        0 => {
            p.keys.pop();
        },
        1 => p.keys.push(p.keys[0].clone()),
        2 => p.shared.push(Fr::from(1u64)),
        3 if half > 0 => {
            p.shared.pop();
        },
        4 if m > 1 => p.keys[c.range(1, m - 1)].domain_size *= 2,
        4 => p.keys[0].domain_size = 3,
        5 => p.keys[c.below(m)].num_inputs += 2,
        _ => p.keys.clear(),
    }
    c.key((kind, m, half));
    let Some(r) = c.no_panic("panic", || build(&p).map(|_| ())) else { return };
    c.ev("shape that does not fit");
    // a domain is rounded up to a power of two by the verifier itself
    if native(&p).is_none() {
        c.check(r.is_err(), "misfit", || format!("kind {kind}"));
    }
}

/// Keys merged inside the circuit are the keys merged outside.
pub fn keys(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let m = c.range(1, 3);
    let n = 1 << c.range(1, 6);
    let seen = &mut vec![];
    let inputs = c.range(0, 2);
    let side = |c: &mut Case, seen: &mut Vec<Fr>| -> Vec<XKey<Fr>> {
        (0..m)
            .map(|_| {
                let mut k = any_key(c, seen, n, false, false);
                k.inputs = inputs;
                k
            })
            .collect()
    };
    let (xa, mut xb) = (side(c, seen), side(c, seen));
    // sums with special results
    if c.coin() {
        for (a, b) in xa.iter().zip(&mut xb) {
            let i = c.below(b.sel.len());
            b.sel[i] = if c.coin() { a.sel[i] } else { -a.sel[i] };
            b.k = a.k.clone();
        }
    }
    for (a, b) in xa.iter().zip(&mut xb) {
        b.k = a.k.clone();
    }
    let a: Vec<_> = xa.iter().map(|k| k.key(&s)).collect();
    let mut b: Vec<_> = xb.iter().map(|k| k.key(&s)).collect();
    let kind = c.below(6);
    match kind {
        0 => {
            b.pop();
        },
        1 => b[c.below(m)].domain_size *= 2,
        2 => b[c.below(m)].num_inputs += 1,
        3 => b[c.below(m)].is_merged = true,
        _ => {},
    }
    c.key((m, n, inputs, kind));
    let (ra, rb): (Vec<_>, Vec<_>) = (a.iter().collect(), b.iter().collect());
    let want = BatchArgument::<E>::aggregate_verify_keys(&ra, &rb);
    let mut cs = if c.coin() { PlonkCircuit::<Fq>::new_ultra_plonk(8) } else { PlonkCircuit::new_turbo_plonk() };
    let mut vars = |k: &[VerifyingKey<E>]| k.iter().map(|k| Key::new(&mut cs, k)).collect::<Result<Vec<_>, _>>();
    let (Some(va), Some(vb)) = (c.ok(vars(&a), "key variables"), c.ok(vars(&b), "key variables")) else { return };
    let got = cs.aggregate_verify_keys::<E, g1::Config>(&va, &vb);
    c.ev("keys merged");
    c.check(got.is_ok() == want.is_ok(), "merge_verdict", || format!("{:?} for {:?}", got.is_ok(), want.is_ok()));
    let (Ok(got), Ok(want)) = (got, want) else {
        c.ev("keys that cannot be merged");
        return;
    };
    let r = cs.check_circuit_satisfiability(&[]);
    c.check(r.is_ok(), "merge_unsatisfied", || format!("{r:?}"));
    // the variables of a merged key are those of the key merged outside
    let mut fresh = PlonkCircuit::<Fq>::new_turbo_plonk();
    c.eq(&got.len(), &want.len(), "merge_count");
    for (g, w) in got.iter().zip(&want) {
        let Some(w) = c.ok(Key::new(&mut fresh, w), "key variables") else { return };
        let g: Vec<_> = g.to_vec().iter().map(|v| cs.witness(*v).unwrap_or_default()).collect();
        let w: Vec<_> = w.to_vec().iter().map(|v| fresh.witness(*v).unwrap_or_default()).collect();
        c.eq(&g, &w, "merge_value");
    }
    // nothing else satisfies the circuit
    let v = c.pick(&got).to_vec();
    let v = c.pick(&v);
    *cs.witness_mut(v) += Fq::from(1u64);
    c.ev("merged key changed");
    c.check(cs.check_circuit_satisfiability(&[]).is_err(), "merge_free", || format!("variable {v}"));
}
