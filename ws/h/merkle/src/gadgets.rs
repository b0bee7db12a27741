//! Circuit versions of (non-)membership against the plain verifier.

use crate::reference::*;
use jf_merkle_tree::{
    gadgets::{MerkleTreeGadget, UniversalMerkleTreeGadget},
    prelude::{MerkleTreeProof, RescueHash, RescueMerkleTree, RescueSparseMerkleTree},
};
use jf_relation::{Circuit, PlonkCircuit, Variable};
use jf_rescue::RescueParameter;
use num_bigint::BigUint;
use vh::{guard, Case, Rng};

type Sparse<F> = RescueSparseMerkleTree<BigUint, F>;

fn turbo<F: RescueParameter>(c: &mut Case) -> PlonkCircuit<F> {
    let _ = c;
    PlonkCircuit::new_turbo_plonk()
}

/// Every single-variable change must break the circuit, except for variables
/// that only carry slack.
fn tamper<F: RescueParameter>(c: &mut Case, cs: &mut PlonkCircuit<F>, tries: usize, sig: &str) {
    for _ in 0..tries {
        let v = c.range(2, cs.num_vars() - 1);
        let old = cs.witness(v).unwrap();
        *cs.witness_mut(v) = old + F::from(c.rng.gen_range(1..1000u64));
        if cs.check_circuit_satisfiability(&[]).is_ok() {
            // only the free inverse inside a zero test may move
            c.check(old == F::from(0u64), sig, || format!("variable {v} of {}", cs.num_vars()));
            c.ev("gadget.slack");
        } else {
            c.check(true, "", String::new);
            c.ev("gadget.tampered");
        }
        *cs.witness_mut(v) = old;
    }
    c.check(cs.check_circuit_satisfiability(&[]).is_ok(), "restored_unsatisfied", String::new);
}

fn member_t<F>(c: &mut Case)
where
    F: RescueParameter + El,
{
    type M<F> = RescueMerkleTree<F>;
    let h = c.range(1, 3);
    let n = c.range(1, (cap(3, h) as usize).min(12));
    let m: Map<F> = (0..n as u128).map(|i| (i, F::draw(c))).collect();
    let com = root::<F, u64, F, RescueHash<F>>(&m, 3, h);
    let p = c.below(n) as u128;
    let (mut pos, mut elem, mut root_v) = (F::from(p as u64), m[&p], com);
    let mut proof = path::<F, u64, F, RescueHash<F>>(&m, 3, h, p);
    let mut path_pos = p as u64;
    let what = c.below(8);
    match what {
        0 => elem += F::from(1u64),
        1 => pos += F::from(c.rng.gen_range(1..4u64)),
        2 => root_v += F::from(1u64),
        3 => {
            let l = c.below(h);
            let k = c.below(2);
            proof[l][k] += F::from(1u64);
        },
        4 => {
            let l = c.below(h);
            proof[l].swap(0, 1);
        },
        5 => path_pos = c.rng.gen_range(0..cap(3, h) as u64),
        _ => {},
    }
    c.key((h, n, p, what, F::MODULUS_BIT_SIZE));
    // oracle: recompute the root along the claimed path
    let mut cur = {
        use jf_rescue::crhf::RescueCRHF;
        RescueCRHF::<F>::sponge_no_padding(&[F::from(1u64), pos, elem], 1).unwrap()[0]
    };
    let mut q = path_pos;
    let mut left_zero = false;
    for l in &proof {
        let mut ch = l.clone();
        ch.insert((q % 3) as usize, cur);
        q /= 3;
        left_zero |= ch[0] == F::from(0u64);
        cur = <RescueHash<F> as Rh<F, u64, F>>::node(&ch);
    }
    let truth = cur == root_v;
    let mut cs = turbo::<F>(c);
    let iv = cs.create_variable(pos).unwrap();
    let ev = cs.create_variable(elem).unwrap();
    let pv = MerkleTreeGadget::<M<F>>::create_membership_proof_variable(&mut cs, &path_pos, &MerkleTreeProof(proof)).unwrap();
    let cv = MerkleTreeGadget::<M<F>>::create_commitment_variable(&mut cs, &root_v).unwrap();
    let mut cs2 = cs.clone();
    match MerkleTreeGadget::<M<F>>::is_member(&mut cs, iv, ev, &pv, cv) {
        Ok(b) => {
            let got = cs.witness(b.into()).unwrap();
            c.eq(&got, &F::from(truth), "is_member");
            let sat = cs.check_circuit_satisfiability(&[]);
            if !left_zero {
                c.check(sat.is_ok(), "is_member_unsatisfied", || format!("{sat:?}"));
            }
        },
        Err(e) => {
            c.check(left_zero, "is_member_error", || format!("{e:?}"));
        },
    }
    let r = MerkleTreeGadget::<M<F>>::enforce_membership_proof(&mut cs2, iv, ev, &pv, cv);
    let sat = r.is_ok() && cs2.check_circuit_satisfiability(&[]).is_ok();
    c.eq(&sat, &(truth && !left_zero), "enforce_member");
    if sat {
        tamper(c, &mut cs2, 12, "member_tamper");
        // a prover's free choice of the claim itself
        for v in [iv, ev, cv] {
            claim(c, &mut cs2, v, "member_claim");
        }
    }
    c.ev(if truth { "gadget.true_claim" } else { "gadget.false_claim" });
    c.sample(|| format!("height {h}, {n} leaves, alteration {what}"));
}

fn claim<F: RescueParameter>(c: &mut Case, cs: &mut PlonkCircuit<F>, v: Variable, sig: &str) {
    let old = cs.witness(v).unwrap();
    *cs.witness_mut(v) = F::rand(&mut c.rng);
    let sat = cs.check_circuit_satisfiability(&[]).is_ok();
    c.check(!sat, sig, || format!("variable {v}"));
    *cs.witness_mut(v) = old;
}

pub fn member(c: &mut Case) {
    match c.idx % 3 {
        0 => member_t::<ark_bls12_381::Fr>(c),
        1 => member_t::<ark_bn254::Fr>(c),
        _ => member_t::<ark_bls12_377::Fq>(c),
    }
}

fn non_member_t<F>(c: &mut Case)
where
    F: RescueParameter + El,
{
    let h = c.range(1, 4);
    let k = cap(3, h);
    let mut m: Map<F> = Map::new();
    for _ in 0..c.below(6) {
        m.insert(c.rng.gen::<u128>() % k, F::draw(c));
    }
    let com = root::<F, BigUint, F, RescueHash<F>>(&m, 3, h);
    let p = c.rng.gen::<u128>() % k;
    let mut proof = path::<F, BigUint, F, RescueHash<F>>(&m, 3, h, p);
    let (mut pos, mut path_pos, mut root_v) = (p, p, com);
    let what = c.below(7);
    match what {
        0 => pos = c.rng.gen::<u128>() % k,
        1 => path_pos = c.rng.gen::<u128>() % k,
        2 => root_v += F::from(1u64),
        3 => {
            let l = c.below(h);
            if !proof[l].is_empty() {
                let j = c.below(2);
                proof[l][j] += F::from(1u64);
            }
        },
        4 => pos = p + k * c.range(1, 2) as u128,
        _ => {},
    }
    c.key((h, p, what, m.keys().cloned().collect::<Vec<_>>(), F::MODULUS_BIT_SIZE));
    let mut cur = F::from(0u64);
    let mut q = path_pos;
    for l in &proof {
        let mut ch = if l.is_empty() { vec![F::from(0u64); 2] } else { l.clone() };
        ch.insert((q % 3) as usize, cur);
        q /= 3;
        cur = if ch.iter().all(|x| *x == F::from(0u64)) {
            F::from(0u64)
        } else {
            <RescueHash<F> as Rh<F, u64, F>>::node(&ch)
        };
    }
    let truth = cur == root_v && pos == path_pos;
    if truth {
        c.check(!m.contains_key(&pos), "absence_of_present", || format!("{pos}"));
    }
    let mut cs = turbo::<F>(c);
    let iv = cs.create_variable(F::from(BigUint::from(pos))).unwrap();
    let pv = UniversalMerkleTreeGadget::<Sparse<F>>::create_non_membership_proof_variable(
        &mut cs,
        &BigUint::from(path_pos),
        &MerkleTreeProof(proof),
    )
    .unwrap();
    let cv = MerkleTreeGadget::<Sparse<F>>::create_commitment_variable(&mut cs, &root_v).unwrap();
    let mut cs2 = cs.clone();
    match UniversalMerkleTreeGadget::<Sparse<F>>::is_non_member(&mut cs, iv, &pv, cv) {
        Ok(b) => {
            let got = cs.witness(b.into()).unwrap();
            c.eq(&got, &F::from(truth), "is_non_member");
            let s = cs.check_circuit_satisfiability(&[]);
            c.check(s.is_ok(), "is_non_member_unsatisfied", || format!("{s:?}"));
        },
        Err(e) => c.fail("is_non_member_error", format!("{e:?}")),
    }
    let r = UniversalMerkleTreeGadget::<Sparse<F>>::enforce_non_membership_proof(&mut cs2, iv, &pv, cv);
    let sat = r.is_ok() && cs2.check_circuit_satisfiability(&[]).is_ok();
    c.eq(&sat, &truth, "enforce_non_member");
    if sat {
        for v in [iv, cv] {
            claim(c, &mut cs2, v, "non_member_claim");
        }
        tamper(c, &mut cs2, 12, "non_member_tamper");
    }
    c.ev(if truth { "gadget.true_absence" } else { "gadget.false_absence" });
    c.sample(|| format!("height {h}, {} leaves, alteration {what}", m.len()));
}

pub fn non_member(c: &mut Case) {
    match c.idx % 3 {
        0 => non_member_t::<ark_bls12_381::Fr>(c),
        1 => non_member_t::<ark_bn254::Fr>(c),
        _ => non_member_t::<ark_bls12_377::Fq>(c),
    }
}

/// Membership in a sparse tree, where a left sibling may be empty.
pub fn sparse_member(c: &mut Case) {
    type F = ark_bn254::Fr;
    let h = c.range(1, 3);
    let k = cap(3, h);
    let mut m: Map<F> = Map::new();
    for _ in 0..c.range(1, 5) {
        m.insert(c.rng.gen::<u128>() % k, F::draw(c));
    }
    let (&p, &e) = m.iter().next().unwrap();
    let com = root::<F, BigUint, F, RescueHash<F>>(&m, 3, h);
    let proof = path::<F, BigUint, F, RescueHash<F>>(&m, 3, h, p);
    let empty_left = proof.iter().enumerate().any(|(l, s)| (p / cap(3, l)) % 3 != 0 && s[0] == F::from(0u64));
    c.key((h, m.keys().cloned().collect::<Vec<_>>()));
    c.sample(|| format!("height {h}, {} leaves, empty left sibling: {empty_left}", m.len()));
    let mut cs = turbo::<F>(c);
    let iv = cs.create_variable(F::from(BigUint::from(p))).unwrap();
    let ev = cs.create_variable(e).unwrap();
    let pv = MerkleTreeGadget::<Sparse<F>>::create_membership_proof_variable(&mut cs, &BigUint::from(p), &MerkleTreeProof(proof)).unwrap();
    let cv = MerkleTreeGadget::<Sparse<F>>::create_commitment_variable(&mut cs, &com).unwrap();
    let r = guard(|| MerkleTreeGadget::<Sparse<F>>::enforce_membership_proof(&mut cs, iv, ev, &pv, cv));
    let sat = matches!(r, Ok(Ok(()))) && cs.check_circuit_satisfiability(&[]).is_ok();
    c.check(sat, if empty_left { "sparse_member_empty_left" } else { "sparse_member" }, || {
        format!("height {h} pos {p}: a true membership is not provable: {r:?}")
    });
    c.ev(if empty_left { "gadget.empty_left" } else { "gadget.dense_left" });
}
