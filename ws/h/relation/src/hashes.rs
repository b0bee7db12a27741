//! R07: hashing, signature and encryption gadgets against the same functions
//! outside of circuits.

use crate::basic::{holds, input, noise};
use ark_ec::{
    twisted_edwards::{Affine, TECurveConfig},
    AffineRepr, CurveGroup,
};
use ark_ff::{AdditiveGroup, PrimeField, UniformRand};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_commitment::CommitmentScheme;
use jf_elgamal::gadgets::{ElGamalEncryptionGadget, EncKeyVars};
use jf_elgamal::{Ciphertext, EncKey, KeyPair as EncPair};
use jf_prf::PRF as _;
use jf_relation::{
    gadgets::ultraplonk::mod_arith::FpElemVar,
    Circuit, PlonkCircuit, Variable,
};
use jf_rescue::{
    commitment::FixedLengthRescueCommitment,
    crhf::RescueCRHF,
    gadgets::{
        commitment::CommitmentGadget, prf::PRFGadget, RescueNativeGadget,
        RescueNonNativeGadget, RescueStateVar,
    },
    prf::RescuePRF,
    Permutation, RescueParameter, RescueVector, PRP,
};
use jf_signature::{
    constants::CS_ID_SCHNORR,
    gadgets::schnorr::{SignatureGadget, SignatureVar},
    schnorr::{KeyPair, Signature},
};
use jf_utils::fr_to_fq;
use vh::{gen, guard, Case};

type Native<F> = RescueNativeGadget<F>;

fn any_circuit<F: PrimeField>(c: &mut Case) -> PlonkCircuit<F> {
    if c.coin() {
        PlonkCircuit::new_turbo_plonk()
    } else {
        let r = c.range(4, 9);
        PlonkCircuit::new_ultra_plonk(r)
    }
}

fn elements<F: PrimeField>(c: &mut Case, cs: &mut PlonkCircuit<F>, n: usize) -> (Vec<F>, Vec<Variable>) {
    let xs: Vec<F> = match c.below(6) {
        0 => vec![F::zero(); n],
        1 => vec![-F::one(); n],
        _ => gen::fields(c, n),
    };
    let shared = c.below(5) == 0;
    let mut vs: Vec<Variable> = vec![];
    for i in 0..n {
        if shared && i > 0 && xs[i] == xs[i - 1] {
            let v = vs[i - 1];
            vs.push(v);
        } else {
            let v = input(c, cs, xs[i]);
            vs.push(v);
        }
    }
    (xs, vs)
}

fn state<F: RescueParameter>(c: &mut Case, cs: &mut PlonkCircuit<F>) -> (RescueVector<F>, RescueStateVar) {
    let (x, v) = elements(c, cs, 4);
    (RescueVector::from(x.as_slice()), RescueStateVar::from([v[0], v[1], v[2], v[3]]))
}

fn compare<F: PrimeField>(c: &mut Case, cs: &PlonkCircuit<F>, got: &[Variable], want: &[F], name: &str) {
    let g: Vec<F> = got.iter().map(|v| cs.witness(*v).unwrap()).collect();
    c.eq(&g, &want.to_vec(), &format!("{name}_value"));
}

const OPS: &[&str] = &[
    "permutation", "prp", "schedule", "sponge", "padded_sponge", "keyed_sponge", "keyed_padded", "commitment", "prf",
    "lengths",
];

fn commit<F: RescueParameter>(x: &[F], r: &F) -> F {
    macro_rules! by_len {
        ($($n:literal $m:literal),*) => {
            match x.len() {
                $($n => {
                    let a: [F; $n] = x.to_vec().try_into().unwrap();
                    FixedLengthRescueCommitment::<F, $n, $m>::commit(&a, Some(r)).unwrap()
                })*
                _ => unreachable!(),
            }
        };
    }
    by_len!(1 2, 2 3, 3 4, 4 5, 5 6, 6 7, 7 8, 8 9)
}

fn prf<F: RescueParameter>(key: &F, x: &[F]) -> F {
    macro_rules! by_len {
        ($($n:literal),*) => {
            match x.len() {
                $($n => {
                    let a: [F; $n] = x.to_vec().try_into().unwrap();
                    RescuePRF::<F, $n, 1>::evaluate(key, &a).unwrap()[0]
                })*
                _ => unreachable!(),
            }
        };
    }
    by_len!(1, 2, 3, 4, 5, 6, 7, 8, 9)
}

/// Rescue over the field of the circuit.
pub fn rescue<F: RescueParameter>(c: &mut Case) {
    let name = OPS[c.idx % OPS.len()];
    let mut cs: PlonkCircuit<F> = any_circuit(c);
    noise(c, &mut cs);
    c.ev(name);
    let lookup = cs.support_lookup();
    match name {
        "permutation" => {
            let (x, v) = state(c, &mut cs);
            let inp = v.array().to_vec();
            let out = Native::<F>::rescue_permutation(&mut cs, v).unwrap();
            let want = Permutation::<F>::default().eval(&x);
            compare(c, &cs, out.array(), &want.elems(), name);
            c.key((name, lookup, x == RescueVector::zero()));
            holds(c, &cs, &inp, out.array(), name);
        },
        "prp" => {
            let (k, kv) = state(c, &mut cs);
            let (x, xv) = state(c, &mut cs);
            let out = Native::<F>::prp(&mut cs, &kv, &xv).unwrap();
            let want = PRP::<F>::default().prp(&k, &x);
            compare(c, &cs, out.array(), &want.elems(), name);
            c.key((name, lookup, x == RescueVector::zero(), k == RescueVector::zero()));
            let inp = [kv.array().to_vec(), xv.array().to_vec()].concat();
            holds(c, &cs, &inp, out.array(), name);
        },
        "schedule" => {
            let (k, kv) = state(c, &mut cs);
            let prp = PRP::<F>::default();
            let out = Native::<F>::key_schedule(&mut cs, prp.mds_matrix_ref(), &kv, &prp).unwrap();
            let want = prp.key_schedule(&k);
            c.eq(&out.len(), &want.len(), "schedule_length");
            for (o, w) in out.iter().zip(&want) {
                compare(c, &cs, o.array(), &w.elems(), name);
            }
            c.key((name, lookup, k == RescueVector::zero()));
            let o = out.last().unwrap().array().to_vec();
            holds(c, &cs, kv.array(), &o, name);
        },
        "sponge" | "padded_sponge" => {
            let padded = name == "padded_sponge";
            let n = if padded { c.range(1, 8) } else { 3 * c.range(1, 3) };
            let m = c.range(1, 7);
            let (x, v) = elements(c, &mut cs, n);
            let (out, want) = if padded {
                (Native::<F>::rescue_sponge_with_padding(&mut cs, &v, m), RescueCRHF::sponge_with_bit_padding(&x, m))
            } else {
                (Native::<F>::rescue_sponge_no_padding(&mut cs, &v, m), RescueCRHF::sponge_no_padding(&x, m).unwrap())
            };
            let out = out.unwrap();
            compare(c, &cs, &out, &want, name);
            c.key((name, lookup, n, m));
            holds(c, &cs, &v, &out, name);
        },
        "keyed_sponge" | "keyed_padded" => {
            let padded = name == "keyed_padded";
            let n = if padded { c.range(1, 9) } else { 4 * c.range(1, 2) };
            let (x, v) = elements(c, &mut cs, n);
            let (k, kv) = elements(c, &mut cs, 1);
            let out = if padded {
                Native::<F>::rescue_full_state_keyed_sponge_with_zero_padding(&mut cs, kv[0], &v)
            } else {
                Native::<F>::rescue_full_state_keyed_sponge_no_padding(&mut cs, kv[0], &v)
            };
            let out = out.unwrap();
            let want = prf(&k[0], &x);
            compare(c, &cs, &[out], &[want], name);
            c.key((name, lookup, n));
            let inp = [v, kv].concat();
            holds(c, &cs, &inp, &[out], name);
        },
        "commitment" => {
            let n = c.range(1, 8);
            let (x, v) = elements(c, &mut cs, n);
            let (r, rv) = elements(c, &mut cs, 1);
            let out = CommitmentGadget::commit(&mut cs, &v, rv[0]).unwrap();
            let want = commit(&x, &r[0]);
            compare(c, &cs, &[out], &[want], name);
            c.key((name, lookup, n));
            let inp = [v, rv].concat();
            holds(c, &cs, &inp, &[out], name);
        },
        "prf" => {
            let n = c.range(1, 9);
            let (x, v) = elements(c, &mut cs, n);
            let (k, kv) = elements(c, &mut cs, 1);
            let out = PRFGadget::eval_prf(&mut cs, kv[0], &v).unwrap();
            let want = prf(&k[0], &x);
            compare(c, &cs, &[out], &[want], name);
            c.key((name, lookup, n));
            let inp = [v, kv].concat();
            holds(c, &cs, &inp, &[out], name);
        },
        _ => {
            let n = c.range(0, 9);
            let (_, v) = elements(c, &mut cs, n);
            c.key((name, n));
            let r = guard(|| Native::<F>::rescue_sponge_no_padding(&mut cs, &v, 1).is_ok());
            c.eq(&r, &Ok(n > 0 && n % 3 == 0), "sponge_length");
            let r = guard(|| Native::<F>::rescue_sponge_with_padding(&mut cs, &v, 1).is_ok());
            c.eq(&r, &Ok(n > 0), "padded_length");
            let k = cs.one();
            let r = guard(|| Native::<F>::rescue_full_state_keyed_sponge_with_zero_padding(&mut cs, k, &v).is_ok());
            c.eq(&r, &Ok(n > 0), "keyed_padded_length");
            if n > 0 {
                let r = guard(|| Native::<F>::rescue_full_state_keyed_sponge_no_padding(&mut cs, k, &v).is_ok());
                c.eq(&r, &Ok(n % 4 == 0), "keyed_length");
            }
            let bad = RescueStateVar::from([0, 1, cs.num_vars() + c.below(3), 0]);
            let r = guard(|| Native::<F>::rescue_permutation(&mut cs, bad).is_err());
            c.eq(&r, &Ok(true), "bad_variable");
            let pis = cs.public_input().unwrap();
            let r = cs.check_circuit_satisfiability(&pis).is_ok();
            c.check(r, "usable_after_refusal", || "circuit unsatisfied after refused calls".to_string());
        },
    }
}

/// Rescue over another field than that of the circuit.
pub fn foreign_rescue<T: RescueParameter, F: PrimeField>(c: &mut Case) {
    let r = c.pick(&[8, 10]);
    let mut cs: PlonkCircuit<F> = PlonkCircuit::new_ultra_plonk(r);
    let m = (T::MODULUS_BIT_SIZE as usize / 2 / r + 1) * r;
    let two_m = Some(F::from(2u8).pow([m as u64]));
    let name = c.pick(&["sponge", "padded", "keyed"]);
    c.ev(name);
    c.key((name, r));
    let lift = |x: &T| -> F { gen::from_int(&gen::int(x)) };
    let n = match name {
        "sponge" => 3,
        "padded" => c.range(1, 2),
        _ => c.range(1, 4),
    };
    let x: Vec<T> = if c.below(4) == 0 { vec![T::zero(); n] } else { gen::fields(c, n) };
    let k: Vec<T> = gen::fields(c, 4);
    type G<T, F> = RescueNonNativeGadget<T, F>;
    let make = |cs: &mut PlonkCircuit<F>, x: &[T]| -> Vec<FpElemVar<F>> {
        x.iter().map(|x| FpElemVar::new_from_field_element(cs, &lift(x), m, two_m).unwrap()).collect()
    };
    let (got, want): (Vec<FpElemVar<F>>, Vec<T>) = match name {
        "sponge" => {
            let v = make(&mut cs, &x);
            let q = c.range(1, 3);
            (
                G::<T, F>::rescue_sponge_no_padding(&mut cs, &v, q).unwrap(),
                RescueCRHF::sponge_no_padding(&x, q).unwrap(),
            )
        },
        "padded" => {
            let v = make(&mut cs, &x);
            let q = c.range(1, 3);
            (
                G::<T, F>::rescue_sponge_with_padding(&mut cs, &v, q).unwrap(),
                RescueCRHF::sponge_with_bit_padding(&x, q),
            )
        },
        _ => {
            let v = make(&mut cs, &x);
            let kv = make(&mut cs, &k[..1]);
            let o = G::<T, F>::rescue_full_state_keyed_sponge_with_zero_padding(&mut cs, kv[0], &v).unwrap();
            let w = prf(&k[0], &x);
            (vec![o], vec![w])
        },
    };
    let g: Vec<F> = got.iter().map(|v| v.witness(&cs).unwrap()).collect();
    let w: Vec<F> = want.iter().map(lift).collect();
    c.eq(&g, &w, &format!("foreign_{name}_value"));
    c.check(cs.check_circuit_satisfiability(&[]).is_ok(), &format!("foreign_{name}_complete"), || {
        "honest assignment refused".to_string()
    });
    // one value of the result moved
    if let Some(o) = got.first() {
        let v = if c.coin() { o.components().0 } else { o.components().1 };
        if v > 1 {
            let old = cs.witness(v).unwrap();
            *cs.witness_mut(v) = old + F::one();
            c.check(cs.check_circuit_satisfiability(&[]).is_err(), &format!("foreign_{name}_sound"), || {
                "changed result satisfied".to_string()
            });
            *cs.witness_mut(v) = old;
        }
    }
}

fn message<F: PrimeField>(c: &mut Case, cs: &mut PlonkCircuit<F>, max: usize) -> (Vec<F>, Vec<Variable>) {
    let n = c.range(0, max);
    elements(c, cs, n)
}

fn xy(p: &jf_relation::gadgets::ecc::PointVariable) -> [Variable; 2] {
    [p.get_x(), p.get_y()]
}

/// The native parts of a signature.
fn parts<P: TECurveConfig>(s: &Signature<P>) -> (P::ScalarField, Affine<P>) {
    let mut b = vec![];
    s.serialize_uncompressed(&mut b).unwrap();
    <(P::ScalarField, Affine<P>)>::deserialize_uncompressed(&b[..]).unwrap()
}
fn joined<P: TECurveConfig>(s: P::ScalarField, r: Affine<P>) -> Signature<P> {
    let mut b = vec![];
    (s, r).serialize_uncompressed(&mut b).unwrap();
    Signature::deserialize_uncompressed_unchecked(&b[..]).unwrap()
}

/// A response and a nonce point made with the key, the nonce point moved off
/// by the point of order two.
fn moved<P: TECurveConfig>(
    c: &mut Case,
    sk: P::ScalarField,
    vk: Affine<P>,
    msg: &[P::BaseField],
) -> (P::ScalarField, Affine<P>)
where
    P::BaseField: RescueParameter,
{
    let k = P::ScalarField::rand(&mut c.rng);
    let kg = (Affine::<P>::generator() * k).into_affine();
    // adding (0, -1) changes the sign of both coordinates
    let r = Affine::<P>::new_unchecked(-kg.x, -kg.y);
    let suite = P::BaseField::from_be_bytes_mod_order(CS_ID_SCHNORR.as_bytes());
    let all = [&[suite, vk.x, vk.y, r.x, r.y], msg].concat();
    let h = gen::int(&RescueCRHF::sponge_with_bit_padding(&all, 1)[0]);
    let e: P::ScalarField = gen::from_int(&(h % (num_bigint::BigUint::from(1u8) << 248)));
    (k + e * sk, r)
}

/// Signature verification: the bit and the assertion follow the verifier.
pub fn schnorr<P: TECurveConfig>(c: &mut Case)
where
    P::BaseField: RescueParameter,
{
    let mut cs: PlonkCircuit<P::BaseField> = any_circuit(c);
    noise(c, &mut cs);
    let sk = P::ScalarField::rand(&mut c.rng);
    let kp = KeyPair::<P>::generate_with_sign_key(sk);
    let max = if c.below(8) == 0 { 30 } else { 7 };
    let (msg, mv) = message(c, &mut cs, max);
    let sig = kp.sign(&msg, CS_ID_SCHNORR);
    let (mut s, mut r) = parts(&sig);
    let mut vk = kp.ver_key();
    let mut signed = msg.clone();
    let how = c.pick(&["honest", "honest", "s", "r", "neg_r", "neg_s", "moved", "neg_moved", "vk", "msg", "longer", "domain", "zero_s"]);
    match how {
        "s" => s += if c.coin() { P::ScalarField::from(1u8) } else { P::ScalarField::rand(&mut c.rng) },
        "r" => r = (r + Affine::<P>::generator()).into_affine(),
        "neg_r" => r = -r,
        // the two sides of the equation then share one coordinate or none
        "neg_s" => s = -s,
        "moved" | "neg_moved" => {
            (s, r) = moved(c, sk, vk.to_affine(), &msg);
            if how == "neg_moved" {
                s = -s;
            }
        },
        "vk" => vk = KeyPair::<P>::generate(&mut c.rng).ver_key(),
        "zero_s" => s = P::ScalarField::ZERO,
        "msg" | "longer" => {
            if how == "msg" && !signed.is_empty() {
                let i = c.below(signed.len());
                signed[i] += P::BaseField::from(1u8);
            } else {
                signed.push(P::BaseField::ZERO);
            }
            let t = kp.sign(&signed, CS_ID_SCHNORR);
            (s, r) = parts(&t);
        },
        "domain" => {
            let t = kp.sign(&msg, "other");
            (s, r) = parts(&t);
        },
        _ => {},
    }
    let sig = joined(s, r);
    let want = vk.verify(&msg, &sig, CS_ID_SCHNORR).is_ok();
    c.eq(&want, &(how == "honest"), "schnorr_native");
    c.ev(how);
    c.ev(if want { "accepted" } else { "rejected" });
    let assert = c.coin();
    c.key((how, assert, msg.len(), cs.support_lookup()));
    let vkv = SignatureGadget::<_, P>::create_signature_vk_variable(&mut cs, &vk).unwrap();
    let sv: SignatureVar = SignatureGadget::<_, P>::create_signature_variable(&mut cs, &sig).unwrap();
    let got = [cs.witness(sv.s).unwrap(), cs.witness(sv.R.get_x()).unwrap(), cs.witness(sv.R.get_y()).unwrap()];
    c.eq(&got, &[fr_to_fq::<_, P>(&s), r.x, r.y], "schnorr_variables");
    let at = vk.to_affine();
    let got = [cs.witness(vkv.0.get_x()).unwrap(), cs.witness(vkv.0.get_y()).unwrap()];
    c.eq(&got, &[at.x, at.y], "schnorr_key_variables");
    let pis = cs.public_input().unwrap();
    if assert {
        SignatureGadget::<_, P>::verify_signature(&mut cs, &vkv, &mv, &sv).unwrap();
        let ok = cs.check_circuit_satisfiability(&pis).is_ok();
        c.eq(&ok, &want, "schnorr_assert");
        if ok {
            let v = c.pick(&[sv.s, sv.R.get_x(), sv.R.get_y(), vkv.0.get_x(), vkv.0.get_y()]);
            let x = gen::rand_field(c);
            *cs.witness_mut(v) = x;
            c.check(cs.check_circuit_satisfiability(&pis).is_err(), "schnorr_tamper", || {
                "changed signature satisfied".to_string()
            });
        }
    } else {
        let b = SignatureGadget::<_, P>::check_signature_validity(&mut cs, &vkv, &mv, &sv).unwrap();
        let got = cs.witness(b.into()).unwrap();
        c.eq(&got, &P::BaseField::from(want), "schnorr_bit");
        let ok = cs.check_circuit_satisfiability(&pis).is_ok();
        c.check(ok, "schnorr_bit_complete", || "honest assignment refused".to_string());
        let v: Variable = b.into();
        *cs.witness_mut(v) = P::BaseField::from(!want);
        c.check(cs.check_circuit_satisfiability(&pis).is_err(), "schnorr_bit_sound", || {
            "other answer satisfied".to_string()
        });
    }
}

/// Encryption inside a circuit against encryption outside.
pub fn elgamal<P: TECurveConfig>(c: &mut Case)
where
    P::BaseField: RescueParameter,
{
    let mut cs: PlonkCircuit<P::BaseField> = any_circuit(c);
    noise(c, &mut cs);
    let kp = EncPair::<P>::generate(&mut c.rng);
    let (msg, mv) = message(c, &mut cs, 9);
    let r: P::ScalarField = gen::field(c);
    let rv = input(c, &mut cs, fr_to_fq::<_, P>(&r));
    let key = if c.below(4) == 0 { EncKey::rand(&mut c.rng) } else { kp.enc_key() };
    let kv: EncKeyVars = ElGamalEncryptionGadget::<_, P>::create_enc_key_variable(&mut cs, &key).unwrap();
    let out = ElGamalEncryptionGadget::<_, P>::elgamal_encrypt(&mut cs, &kv, &mv, rv).unwrap();
    let want = key.deterministic_encrypt(r, &msg);
    let mut ov = xy(&out.ephemeral).to_vec();
    ov.extend(&out.symm_ctxts);
    compare(c, &cs, &ov, &want.to_scalars(), "elgamal");
    c.key((msg.len(), cs.support_lookup(), gen::int(&r).bits() / 64));
    c.ev_n("ciphertext_elements", ov.len() as u64);
    let pis = cs.public_input().unwrap();
    let done = cs.check_circuit_satisfiability(&pis);
    c.check(done.is_ok(), "elgamal_complete", || format!("honest assignment refused: {done:?}, randomness {r}"));
    // every value of the ciphertext is tied down
    for _ in 0..3 {
        let v = c.pick(&ov);
        if v <= 1 {
            continue;
        }
        let old = cs.witness(v).unwrap();
        *cs.witness_mut(v) = old + P::BaseField::from(1u8);
        c.check(cs.check_circuit_satisfiability(&pis).is_err(), "elgamal_sound", || {
            "changed ciphertext satisfied".to_string()
        });
        *cs.witness_mut(v) = old;
    }
    // a ciphertext brought in from outside carries the same values
    let ct: Ciphertext<P> = want;
    let cv = ElGamalEncryptionGadget::<_, P>::create_ciphertext_variable(&mut cs, &ct).unwrap();
    let mut iv = xy(&cv.ephemeral).to_vec();
    iv.extend(&cv.symm_ctxts);
    compare(c, &cs, &iv, &ct.to_scalars(), "elgamal_import");
}
