//! The pieces of work.

use crate::Out;
use ark_ec::{
    pairing::Pairing,
    short_weierstrass::{Affine, SWCurveConfig},
    twisted_edwards::TECurveConfig,
    CurveGroup, PrimeGroup,
};
use ark_ff::PrimeField;
use ark_poly::{univariate::DensePolynomial, DenseMultilinearExtension, DenseUVPolynomial, Polynomial};
use ark_serialize::CanonicalSerialize;
use ark_std::rand::SeedableRng;
use circ::prog::{Prog, Shape};
use jf_pcs::{prelude::*, UnivariatePCS};
use jf_plonk::{
    proof_system::{PlonkKzgSnark, UniversalSNARK},
    transcript::{PlonkTranscript, RescueTranscript, SolidityTranscript, StandardTranscript},
};
use jf_relation::{
    gadgets::ecc::{MultiScalarMultiplicationCircuit, TEPoint},
    Arithmetization, Circuit, PlonkCircuit,
};
use jf_rescue::RescueParameter;
use jf_utils::par_utils::{parallelizable_chunks, parallelizable_slice_iter};
#[cfg(feature = "parallel")]
use rayon::prelude::*;
use std::sync::Arc;
use vh::{gen, Case, Rng};

type S<E> = <E as Pairing>::ScalarField;
type Rand = rand_chacha::ChaCha20Rng;

fn bytes<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).expect("serialize");
    v
}

fn fork(c: &mut Case) -> Rand {
    Rand::seed_from_u64(c.rng.gen())
}

fn poly<F: PrimeField>(c: &mut Case, max: usize) -> DensePolynomial<F> {
    let n = c.range(1, max);
    let v: Vec<F> = if c.coin() { gen::fields(c, n) } else { (0..n).map(|_| F::rand(&mut c.rng)).collect() };
    DensePolynomial::from_coefficients_vec(v)
}

pub fn slices(c: &mut Case, o: &mut Out) {
    let n = gen::len(c, 3000);
    let v: Vec<u64> = (0..n).map(|_| c.rng.gen::<u64>() >> 20).collect();
    let k = c.range(1, 40);
    c.key((n, k));
    c.sample(|| format!("{n} elements in chunks of {k}"));
    let a: Vec<u64> = parallelizable_slice_iter(&v).map(|x| x * 3 + 1).collect();
    let b: Vec<Vec<u64>> = parallelizable_chunks(&v, k).map(|x| x.to_vec()).collect();
    let s: u64 = parallelizable_slice_iter(&v).sum();
    o.put("each", &bytes(&a));
    o.put("chunks", &bytes(&b));
    o.put("sum", &s.to_le_bytes());
    // what they must be
    c.check(a == v.iter().map(|x| x * 3 + 1).collect::<Vec<_>>(), "slice_elements", || format!("{n} elements"));
    c.check(b == v.chunks(k).map(|x| x.to_vec()).collect::<Vec<_>>(), "slice_chunks", || format!("{n} by {k}"));
    c.check(s == v.iter().sum::<u64>(), "slice_sum", || format!("{n} elements"));
}

fn kzg<E: Pairing>(c: &mut Case, o: &mut Out) {
    let degree = if c.thorough { 1200 } else { 500 };
    let mut r = fork(c);
    let srs = UnivariateKzgPCS::<E>::gen_srs_for_testing(&mut r, degree).expect("srs");
    o.put("srs", &bytes(&srs));
    let (pk, vk) = UnivariateKzgPCS::<E>::trim(&srs, degree, None).expect("trim");
    let k = c.range(1, 7);
    let ps: Vec<DensePolynomial<S<E>>> = (0..k).map(|_| poly(c, degree)).collect();
    c.key((c.idx % 3, k, ps[0].degree()));
    c.sample(|| format!("{k} polynomials, the first of degree {}", ps[0].degree()));
    let zs: Vec<S<E>> = gen::fields(c, k);
    let com = UnivariateKzgPCS::<E>::commit(&pk, &ps[0]).expect("commit");
    o.put("commitment", &bytes(&com));
    let coms = UnivariateKzgPCS::<E>::batch_commit(&pk, &ps).expect("commit");
    for x in &coms {
        o.put("commitment of many", &bytes(x));
    }
    let (p, y) = UnivariateKzgPCS::<E>::open(&pk, &ps[0], &zs[0]).expect("open");
    o.put("opening", &bytes(&p));
    o.put("value", &bytes(&y));
    let (pr, ys) = UnivariateKzgPCS::<E>::batch_open(&pk, &coms, &ps, &zs).expect("open");
    for (p, y) in pr.iter().zip(&ys) {
        o.put("opening of many", &bytes(p));
        o.put("value of many", &bytes(y));
    }
    let mut bad = ys.clone();
    let i = c.below(k);
    bad[i] += S::<E>::from(1u64);
    for ys in [&ys, &bad] {
        let ok = UnivariateKzgPCS::<E>::batch_verify(&vk, &coms, &zs, ys, &pr, &mut r).expect("verify");
        o.put("verdict", &[ok as u8]);
    }
    let n = c.range(1, 90);
    let xs: Vec<S<E>> = gen::fields(c, n);
    let d = poly::<S<E>>(c, 200);
    let (p, y) = UnivariateKzgPCS::<E>::multi_open(&pk, &d, &xs).expect("open");
    for (p, y) in p.iter().zip(&y) {
        o.put("one of several points", &bytes(p));
        o.put("value there", &bytes(y));
    }
}

pub fn pcs(c: &mut Case, o: &mut Out) {
    match c.idx % 3 {
        0 => kzg::<ark_bn254::Bn254>(c, o),
        1 => kzg::<ark_bls12_381::Bls12_381>(c, o),
        _ => kzg::<ark_bls12_377::Bls12_377>(c, o),
    }
}

fn roots<E: Pairing>(c: &mut Case, o: &mut Out) {
    let degree = 255;
    let mut r = fork(c);
    let srs = UnivariateKzgPCS::<E>::gen_srs_for_testing(&mut r, degree).expect("srs");
    let (pk, _) = UnivariateKzgPCS::<E>::trim(&srs, degree, None).expect("trim");
    let p = poly::<S<E>>(c, degree);
    let k = c.range(1, 300);
    let domain = UnivariateKzgPCS::<E>::multi_open_rou_eval_domain(p.degree(), k).expect("domain");
    c.key((p.degree(), k));
    c.sample(|| format!("degree {} at {k} roots of unity", p.degree()));
    let (p, y) = UnivariateKzgPCS::<E>::multi_open_rou(&pk, &p, k, &domain).expect("open");
    o.put("number", &p.len().to_le_bytes());
    for (p, y) in p.iter().zip(&y) {
        o.put("opening", &bytes(p));
        o.put("value", &bytes(y));
    }
}

pub fn pcs_roots(c: &mut Case, o: &mut Out) {
    match c.idx % 2 {
        0 => roots::<ark_bn254::Bn254>(c, o),
        _ => roots::<ark_bls12_381::Bls12_381>(c, o),
    }
}

fn ml<E: Pairing>(c: &mut Case, o: &mut Out) {
    type P<E> = MultilinearKzgPCS<E>;
    let nv = c.range(2, 5);
    let k = c.range(1, 3);
    let top = nv + 2;
    let mut r = fork(c);
    let srs = P::<E>::gen_srs_for_testing(&mut r, top).expect("srs");
    o.put("srs", &bytes(&srs.0));
    let (pk, vk) = P::<E>::trim(&srs, 256.min(srs.1.powers_of_g.len() - 1), Some(top)).expect("trim");
    let ps: Vec<_> = (0..k)
        .map(|_| {
            let t: Vec<S<E>> = gen::fields(c, 1 << nv);
            Arc::new(DenseMultilinearExtension::from_evaluations_vec(nv, t))
        })
        .collect();
    let xs: Vec<Vec<S<E>>> = (0..k).map(|_| gen::fields(c, nv)).collect();
    c.key((nv, k, c.idx % 2));
    c.sample(|| format!("{k} polynomials of {nv} variables"));
    let com = P::<E>::commit(&pk, &ps[0]).expect("commit");
    let (p, y) = P::<E>::open(&pk, &ps[0], &xs[0]).expect("open");
    o.put("commitment", &bytes(&com));
    o.put("opening", &bytes(&p));
    o.put("value", &bytes(&y));
    let ok = P::<E>::verify(&vk, &com, &xs[0], &y, &p).expect("verify");
    o.put("verdict", &[ok as u8]);
    let Ok(com) = P::<E>::batch_commit(&pk, &ps) else { return };
    o.put("commitment of many", &bytes(&com));
    if let Ok((p, y)) = P::<E>::batch_open(&pk, &com, &ps, &xs) {
        o.put("openings", &bytes(&p));
        o.put("values", &bytes(&y));
        let ok = P::<E>::batch_verify(&vk, &com, &xs, &y, &p, &mut r).unwrap_or(false);
        o.put("verdict", &[ok as u8]);
    } else {
        o.put("refused", &[]);
    }
}

pub fn multilinear(c: &mut Case, o: &mut Out) {
    match c.idx % 2 {
        0 => ml::<ark_bn254::Bn254>(c, o),
        _ => ml::<ark_bls12_381::Bls12_381>(c, o),
    }
}

/// Everything a circuit says of itself.
fn tell<F: PrimeField>(c: &mut Case, cs: &PlonkCircuit<F>, o: &mut Out) {
    let mut put = |name: &str, p: Vec<DensePolynomial<F>>| {
        for (i, x) in p.iter().enumerate() {
            o.put(format!("{name} {i}"), &bytes(&x.coeffs));
        }
    };
    put("selector", cs.compute_selector_polynomials().expect("selectors"));
    put("permutation", cs.compute_extended_permutation_polynomials().expect("permutation"));
    put("wire", cs.compute_wire_polynomials().expect("wires"));
    put("inputs", vec![cs.compute_pub_input_polynomial().expect("inputs")]);
    let (b, g) = (gen::rand_field::<F>(c), gen::rand_field::<F>(c));
    put("product", vec![cs.compute_prod_permutation_polynomial(&b, &g).expect("product")]);
    if cs.support_lookup() {
        put("range table", vec![cs.compute_range_table_polynomial().expect("table")]);
        put("key table", vec![cs.compute_key_table_polynomial().expect("table")]);
        let t = gen::rand_field::<F>(c);
        let table = cs.compute_merged_lookup_table(t).expect("table");
        let (s, p, q) = cs.compute_lookup_sorted_vec_polynomials(t, &table).expect("sorted");
        put("sorted", vec![p, q]);
        put("lookup product", vec![cs.compute_lookup_prod_polynomial(&t, &b, &g, &table, &s).expect("product")]);
    }
}

fn program<F: PrimeField>(c: &mut Case, max: usize) -> Prog<F> {
    let ultra = c.coin().then(|| c.range(1, 4));
    let ops = c.range(3, max);
    let mut p = Prog::<F>::random(c, Shape { ultra, ops, inputs: true, tables: true });
    while p.cs.num_gates() < 3 {
        p.gate(c);
    }
    p.cs.finalize_for_arithmetization().expect("finalize");
    p
}

fn circ_<F: PrimeField>(c: &mut Case, o: &mut Out) {
    let p = program::<F>(c, 200);
    let n = p.cs.eval_domain_size().expect("domain");
    c.key((n, p.inputs.len(), p.tables.len()));
    c.sample(|| format!("circuit of {n} gates"));
    tell(c, &p.cs, o);
}

pub fn circuit(c: &mut Case, o: &mut Out) {
    match c.idx % 2 {
        0 => circ_::<ark_bn254::Fr>(c, o),
        _ => circ_::<ark_bls12_381::Fr>(c, o),
    }
}

fn gadget<P: TECurveConfig>(c: &mut Case, o: &mut Out)
where
    P::BaseField: PrimeField,
{
    let mut cs = if c.coin() { PlonkCircuit::<P::BaseField>::new_turbo_plonk() } else { PlonkCircuit::new_ultra_plonk(4) };
    let g = ark_ec::twisted_edwards::Projective::<P>::generator();
    let n = c.range(1, 3);
    c.key((n, c.idx % 4));
    c.sample(|| format!("sum of {n} multiples and multiples of fixed points"));
    let mut pts = vec![];
    let mut ks = vec![];
    for _ in 0..n {
        let k = gen::field::<P::ScalarField>(c);
        let p = (g * gen::rand_field::<P::ScalarField>(c)).into_affine();
        let kb: P::BaseField = gen::from_int(&gen::int(&k));
        let kv = cs.create_variable(kb).expect("variable");
        let f = cs.fixed_base_scalar_mul(kv, &p).expect("multiple");
        let y = cs.point_witness(&f).expect("point");
        o.put("fixed multiple", &bytes(&y.get_x()));
        o.put("fixed multiple", &bytes(&y.get_y()));
        pts.push(cs.create_point_variable(TEPoint::from(p)).expect("point"));
        ks.push(kv);
    }
    let r = MultiScalarMultiplicationCircuit::<P::BaseField, P>::msm(&mut cs, &pts, &ks).expect("sum");
    let y = cs.point_witness(&r).expect("point");
    o.put("sum", &bytes(&y.get_x()));
    o.put("sum", &bytes(&y.get_y()));
    o.put("satisfied", &[cs.check_circuit_satisfiability(&[]).is_ok() as u8]);
    cs.finalize_for_arithmetization().expect("finalize");
    tell(c, &cs, o);
}

pub fn curve_gadget(c: &mut Case, o: &mut Out) {
    match c.idx % 4 {
        0 => gadget::<ark_ed_on_bls12_377::EdwardsConfig>(c, o),
        1 => gadget::<ark_ed_on_bls12_381::EdwardsConfig>(c, o),
        2 => gadget::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c, o),
        _ => gadget::<ark_ed_on_bn254::EdwardsConfig>(c, o),
    }
}

fn crypt<F: RescueParameter, P: TECurveConfig<BaseField = F>>(c: &mut Case, o: &mut Out) {
    let mut r = fork(c);
    let kp = jf_elgamal::KeyPair::<P>::generate(&mut r);
    let n = gen::size(c, 150, 4200);
    let msg: Vec<F> = gen::fields(c, n);
    c.key((n, c.idx % 4));
    c.sample(|| format!("message of {n} elements"));
    let e = kp.enc_key().encrypt(&mut r, &msg);
    o.put("ciphertext", &bytes(&e));
    let d = kp.decrypt(&e);
    o.put("message", &bytes(&d));
    c.check(d == msg, "decrypted", || format!("{n} elements"));
    let k = gen::field::<P::ScalarField>(c);
    o.put("ciphertext", &bytes(&kp.enc_key().deterministic_encrypt(k, &msg)));
}

pub fn encryption(c: &mut Case, o: &mut Out) {
    match c.idx % 4 {
        0 => crypt::<_, ark_ed_on_bls12_377::EdwardsConfig>(c, o),
        1 => crypt::<_, ark_ed_on_bls12_381::EdwardsConfig>(c, o),
        2 => crypt::<_, ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c, o),
        _ => crypt::<_, ark_ed_on_bn254::EdwardsConfig>(c, o),
    }
}

fn prove<E, P, T>(c: &mut Case, o: &mut Out)
where
    E: Pairing<G1Affine = Affine<P>>,
    E::BaseField: RescueParameter + jf_relation::gadgets::ecc::SWToTEConParam,
    P: SWCurveConfig<BaseField = E::BaseField>,
    T: PlonkTranscript<E::BaseField>,
{
    type K<E> = PlonkKzgSnark<E>;
    let k = c.range(1, 3);
    let ultra = c.coin().then(|| c.range(1, 4));
    let max = if c.thorough { 250 } else { 100 };
    let ops = c.range(3, max);
    let ps: Vec<Prog<S<E>>> = (0..k)
        .map(|_| {
            let mut p = Prog::<S<E>>::random(c, Shape { ultra, ops, inputs: true, tables: true });
            while p.cs.num_gates() < 3 {
                p.gate(c);
            }
            p.cs.finalize_for_arithmetization().expect("finalize");
            p
        })
        .collect();
    let n = ps.iter().map(|p| p.cs.eval_domain_size().expect("domain")).max().expect("some");
    c.key((n, k, ultra));
    c.sample(|| format!("{k} circuits, the largest of {n} gates"));
    let mut r = fork(c);
    let srs = K::<E>::universal_setup_for_testing(n + 2, &mut r).expect("srs");
    let keys: Vec<_> = ps.iter().map(|p| K::<E>::preprocess(&srs, &p.cs).expect("keys")).collect();
    for k in &keys {
        o.put("key", &bytes(&k.1));
    }
    let proofs: Vec<_> = ps
        .iter()
        .zip(&keys)
        .map(|(p, k)| K::<E>::prove::<_, _, T>(&mut r, &p.cs, &k.0, None).expect("proof"))
        .collect();
    for p in &proofs {
        o.put("proof", &bytes(p));
    }
    let vks: Vec<_> = keys.iter().map(|k| &k.1).collect();
    let pis: Vec<Vec<S<E>>> = ps.iter().map(|p| p.pis()).collect();
    let pir: Vec<&[S<E>]> = pis.iter().map(|p| &p[..]).collect();
    let refs: Vec<_> = proofs.iter().collect();
    let none = vec![None; k];
    let ok = K::<E>::batch_verify::<T>(&vks, &pir, &refs, &none).is_ok();
    c.check(ok, "refused", || "true proofs".into());
    o.put("verdict", &[ok as u8]);
    let mut rev = refs.clone();
    rev.reverse();
    let ok = K::<E>::batch_verify::<T>(&vks, &pir, &rev, &none).is_ok();
    o.put("verdict on the reversed list", &[ok as u8]);
    // aggregated, where the sizes agree
    let same: Vec<usize> = (0..k).filter(|i| ps[*i].cs.eval_domain_size().ok() == ps[0].cs.eval_domain_size().ok()).collect();
    let cs: Vec<_> = same.iter().map(|i| &ps[*i].cs).collect();
    let pks: Vec<_> = same.iter().map(|i| &keys[*i].0).collect();
    match K::<E>::batch_prove::<_, _, T>(&mut r, &cs, &pks) {
        Ok(p) => o.put("aggregated proof", &bytes(&p)),
        Err(_) => o.put("no aggregated proof", &[]),
    }
}

pub fn proofs(c: &mut Case, o: &mut Out) {
    match c.idx % 4 {
        0 => prove::<ark_bn254::Bn254, _, StandardTranscript>(c, o),
        1 => prove::<ark_bn254::Bn254, _, SolidityTranscript>(c, o),
        2 => prove::<ark_bls12_381::Bls12_381, _, StandardTranscript>(c, o),
        _ => prove::<ark_bls12_377::Bls12_377, _, RescueTranscript<ark_bls12_377::Fq>>(c, o),
    }
}
