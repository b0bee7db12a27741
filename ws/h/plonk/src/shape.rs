//! Proofs of the wrong shape, and what is written and read.

use crate::{base::*, judge::*};
use ark_ec::AffineRepr;
use ark_ff::{PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress};
use jf_plonk::{
    proof_system::{
        structs::{BatchProof, Proof, ProofEvaluations, VerifyingKey},
        PlonkKzgSnark, UniversalSNARK,
    },
    transcript::PlonkTranscript,
};
use std::fmt::Debug;
use vh::{gen, guard, Case};

fn resize<F: PrimeField>(c: &mut Case, v: &mut Vec<F>) {
    match c.below(4) {
        0 => v.clear(),
        1 => {
            v.pop();
        },
        2 => {
            let x = F::rand(&mut c.rng);
            v.push(x);
        },
        _ => {
            for _ in 0..c.range(1, 8) {
                v.push(F::zero());
            }
        },
    }
}

/// A proof whose lists do not have the lengths the key asks for is refused,
/// even when its numbers add up, and never makes the verifier panic.
pub fn shapes<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let ultra = c.coin();
    let single = c.coin();
    let m = if single { 1 } else { c.range(1, 3) };
    let mut q = Claim::<S<E>>::any(c, m, ultra, false);
    q.extra = None;
    let i = c.below(m);
    let inst = &mut q.proof.inst[i];
    let what = match c.below(9) {
        7 | 8 => match inst.lk.take() {
            Some(_) => "lookup part missing",
            None => {
                let seen = &mut vec![];
                inst.lk = any_inst(c, seen, true).lk;
                "lookup part superfluous"
            },
        },
        0 => {
            // move a value from one list to the other
            let k = c.range(1, 2);
            for _ in 0..k {
                if c.coin() {
                    let x = inst.sigma_evals.remove(0);
                    inst.wire_evals.push(x);
                } else {
                    let x = inst.wire_evals.pop().unwrap();
                    inst.sigma_evals.insert(0, x);
                }
            }
            if inst.wire_evals.len() == q.keys[i].sigma.len() {
                return;
            }
            "values moved"
        },
        1 => {
            resize(c, &mut inst.wires);
            "wires"
        },
        2 => {
            resize(c, &mut inst.wire_evals);
            "wire values"
        },
        3 => {
            resize(c, &mut inst.sigma_evals);
            "sigma values"
        },
        4 => {
            resize(c, &mut q.proof.quot);
            "quotient"
        },
        5 => match &mut inst.lk {
            Some(l) => {
                resize(c, &mut l.h);
                "sorted"
            },
            None => {
                resize(c, &mut q.proof.quot);
                "quotient"
            },
        },
        _ => {
            // one more commitment and one more value
            let x = S::<E>::rand(&mut c.rng);
            inst.wires.push(x);
            inst.wire_evals.push(x);
            if c.coin() {
                inst.sigma_evals.push(x);
            }
            "an extra wire"
        },
    };
    c.key((what, ultra, single, m));
    c.sample(|| format!("{what} in instance {i} of {m}, lookups {ultra}"));
    let Some((r, log)) = c.no_panic("shape_panic", || verdict::<E, T>(&s, &q, single)) else { return };
    c.ev("proof of the wrong shape");
    c.check(r.is_err(), "shape_accepted", || what.into());
    // try to make its numbers add up
    let Ok(Some((side, _))) = guard(|| eq_sides(&q, &log)) else { return };
    let Some((o, t)) = side.openings(s.x) else { return };
    (q.proof.open, q.proof.shift) = (o, t);
    let Some((r, _)) = c.no_panic("shape_panic", || verdict::<E, T>(&s, &q, single)) else { return };
    c.ev("proof of the wrong shape that adds up");
    c.check(r.is_err(), "shape_accepted", || format!("{what}, with openings to match"));
}

/// Aggregated proofs whose outer lists disagree.
pub fn outer<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let ultra = c.coin();
    let m = c.range(1, 3);
    let mut q = Claim::<S<E>>::any(c, m, ultra, false);
    q.extra = None;
    if settle::<E, T>(c, &s, &mut q, false).is_none() {
        return;
    }
    let keys: Vec<_> = q.keys.iter().map(|k| k.key(&s)).collect();
    let mut keys: Vec<&VerifyingKey<E>> = keys.iter().collect();
    let mut pis: Vec<&[S<E>]> = q.pis.iter().map(|p| &p[..]).collect();
    let good = q.proof.batch(&s);
    // cut the wire format into its lists
    let field = |k: usize, q: &Claim<S<E>>| -> Vec<u8> {
        let b = bytes(&q.proof.batch(&s));
        let mut at = vec![0];
        let mut r = &b[..];
        let total = b.len();
        Vec::<Vec<E::G1Affine>>::deserialize_compressed_unchecked(&mut r).unwrap();
        at.push(total - r.len());
        Vec::<E::G1Affine>::deserialize_compressed_unchecked(&mut r).unwrap();
        at.push(total - r.len());
        Vec::<ProofEvaluations<S<E>>>::deserialize_compressed_unchecked(&mut r).unwrap();
        at.push(total - r.len());
        Vec::<Option<jf_plonk::proof_system::structs::PlookupProof<E>>>::deserialize_compressed_unchecked(&mut r)
            .unwrap();
        at.push(total - r.len());
        at.push(total);
        b[at[k]..at[k + 1]].to_vec()
    };
    let mut other = q.clone();
    let fewer = m > 1 && c.coin();
    if fewer {
        other.proof.inst.pop();
    } else {
        let x = other.proof.inst[0].clone();
        other.proof.inst.push(x);
    }
    let which = c.below(7);
    let b: Vec<u8> = (0..5).flat_map(|k| field(k, if k == which { &other } else { &q })).collect();
    let proof = BatchProof::<E>::deserialize_compressed_unchecked(&b[..]).expect("batch proof format");
    match which {
        4 => {
            keys.pop();
        },
        5 => {
            pis.pop();
        },
        6 => {
            keys.push(keys[0]);
        },
        _ => {},
    }
    c.key((which, ultra, m, fewer));
    c.sample(|| format!("list {which} of {m} instances, fewer {fewer}, lookups {ultra}"));
    let r = c.no_panic("outer_panic", || PlonkKzgSnark::<E>::verify_batch_proof::<T>(&keys, &pis, &proof));
    c.ev("lists that disagree");
    if let Some(r) = r {
        c.check(r.is_err(), "outer_accepted", || format!("list {which}"));
    }
    let _ = good;
}

fn codec<T>(c: &mut Case, what: &'static str, x: &T)
where
    T: CanonicalSerialize + CanonicalDeserialize + PartialEq + Debug,
{
    for compressed in [true, false] {
        let mut b = vec![];
        let r = if compressed { x.serialize_compressed(&mut b) } else { x.serialize_uncompressed(&mut b) };
        if c.ok(r, "write").is_none() {
            return;
        }
        c.ev("written and read");
        let size = if compressed { x.compressed_size() } else { x.uncompressed_size() };
        c.eq(&b.len(), &size, "size");
        let y = if compressed { T::deserialize_compressed(&b[..]) } else { T::deserialize_uncompressed(&b[..]) };
        match y {
            Ok(y) => {
            c.check(y == *x, "read_back", || format!("{what} compressed {compressed}"));
        },
            Err(e) => c.fail("read_back", format!("{what} compressed {compressed}: {e:?}")),
        }
        // through a stream that comes in small pieces
        let step = c.range(1, 40);
        let mut w = vh::Drip::writer(step);
        let r = if compressed { x.serialize_compressed(&mut w) } else { x.serialize_uncompressed(&mut w) };
        c.check(r.is_ok() && w.into == b, "written_in_pieces", || format!("{what} compressed {compressed}, {step} bytes at a time"));
        let r = vh::Drip::reader(&b, step);
        let y = if compressed { T::deserialize_compressed(r) } else { T::deserialize_uncompressed(r) };
        c.check(y.as_ref().ok() == Some(x), "read_in_pieces", || format!("{what} compressed {compressed}, {step} bytes at a time"));
        // cut short
        let n = c.below(b.len());
        let y = guard(|| if compressed { T::deserialize_compressed(&b[..n]) } else { T::deserialize_uncompressed(&b[..n]) });
        c.check(matches!(y, Ok(Err(_))), "cut_short", || format!("{what} at {n} of {}: {y:?}", b.len()));
    }
}

/// Proofs and keys come back as they were written.
pub fn encoded<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 3);
    let ultra = c.coin();
    let m = c.range(1, 3);
    let merged = !ultra && c.coin();
    let mut q = Claim::<S<E>>::any(c, m, ultra, merged);
    q.extra = None;
    if settle::<E, T>(c, &s, &mut q, false).is_none() {
        return;
    }
    c.key((ultra, m, q.keys[0].n));
    c.sample(|| format!("{m} instances, lookups {ultra}"));
    let keys: Vec<_> = q.keys.iter().map(|k| k.key(&s)).collect();
    codec(c, "key", &keys[0]);
    let batch = q.proof.batch(&s);
    codec(c, "aggregated proof", &batch);
    c.eq(&batch.len(), &m, "instances");
    c.eq(&batch.is_empty(), &(m == 0), "instances");
    let single = q.proof.proof(&s);
    codec(c, "proof", &single);
    if m == 1 {
        c.check(BatchProof::from(single.clone()) == batch, "as_batch", || "a proof as an aggregated proof".into());
    }
    // text forms
    let t = single.to_string();
    match t.parse::<Proof<E>>() {
        Ok(y) => {
            c.check(y == single, "text", || t.clone());
        },
        Err(_) => c.fail("text", format!("not read back: {t}")),
    }
    let j = serde_json::to_string(&batch).expect("json");
    match serde_json::from_str::<BatchProof<E>>(&j) {
        Ok(y) => {
            c.check(y == batch, "text", || j.clone());
        },
        Err(e) => c.fail("text", format!("{e}: {j}")),
    }
    let b = bincode::serialize(&single).expect("bincode");
    match bincode::deserialize::<Proof<E>>(&b) {
        Ok(y) => {
            c.check(y == single, "binary", || "bincode".into());
        },
        Err(e) => c.fail("binary", format!("{e}")),
    }
    // a proof is not an aggregated proof in text form
    let cross = t.parse::<BatchProof<E>>();
    c.check(cross.is_err(), "text_tag", || t.clone());
    c.ev("text forms");
}

/// Bytes of a valid proof damaged in one place: what is read, if anything, is
/// refused.
pub fn damaged<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let ultra = c.coin();
    let mut q = Claim::<S<E>>::any(c, 1, ultra, false);
    if settle::<E, T>(c, &s, &mut q, true).is_none() {
        return;
    }
    let key = q.keys[0].key(&s);
    let proof = q.proof.proof(&s);
    let compressed = c.coin();
    let mut b = vec![];
    if compressed {
        proof.serialize_compressed(&mut b).unwrap();
    } else {
        proof.serialize_uncompressed(&mut b).unwrap();
    }
    // the places of the list lengths, which are left alone
    let g = s.srs.powers_of_g[0];
    let (p, f) = if compressed { (g.compressed_size(), 1) } else { (g.uncompressed_size(), 1) };
    let w = q.proof.inst[0].wires.len();
    let fr = S::<E>::zero().compressed_size() * f;
    let mut lens = vec![0];
    lens.push(8 + w * p + p);
    lens.push(lens[1] + 8 + w * p + 2 * p);
    lens.push(lens[2] + 8 + w * fr);
    if ultra {
        lens.push(lens[3] + 8 + (w - 1) * fr + fr + 1);
    }
    for _ in 0..8 {
        let at = c.below(b.len());
        if lens.iter().any(|l| (*l..*l + 8).contains(&at)) {
            continue;
        }
        let mut d = b.clone();
        d[at] ^= if c.coin() { 1 << c.below(8) } else { c.range(1, 255) as u8 };
        c.key((ultra, compressed, at));
        c.ev("damaged bytes");
        let Some(r) = c.no_panic("damaged_panic", || {
            if compressed {
                Proof::<E>::deserialize_compressed(&d[..])
            } else {
                Proof::<E>::deserialize_uncompressed(&d[..])
            }
        }) else {
            return;
        };
        let Ok(y) = r else { continue };
        if y == proof {
            // flags of a point may be written in more than one way
            c.ev("damage that reads the same");
            continue;
        }
        let v = c.no_panic("damaged_panic", || {
            PlonkKzgSnark::<E>::verify::<T>(&key, &q.pis[0], &y, q.extra.clone())
        });
        c.ev("damaged proof judged");
        if let Some(v) = v {
            c.check(v.is_err(), "damaged_accepted", || format!("byte {at}"));
        }
    }
    let _ = g.is_zero();
}

/// Proofs as lists of base field elements.
pub fn flat<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case)
where
    <E as Cv>::Pg: ark_ec::CurveConfig<ScalarField = S<E>>,
{
    let s = Setup::<E>::new(c, 1);
    let mut q = Claim::<S<E>>::any(c, 1, false, false);
    q.extra = None;
    if settle::<E, T>(c, &s, &mut q, true).is_none() {
        return;
    }
    // no point at infinity: it has no coordinates
    for (_, x) in q.cells() {
        if x.is_zero() {
            *x = S::<E>::rand(&mut c.rng);
        }
    }
    // values that the base field can hold
    let fits = S::<E>::MODULUS_BIT_SIZE < B::<E>::MODULUS_BIT_SIZE || gen::modulus::<S<E>>() < gen::modulus::<B<E>>();
    c.key((fits, q.keys[0].n));
    let proof = q.proof.proof(&s);
    let list: Vec<B<E>> = proof.clone().into();
    c.ev("proof as a list");
    c.sample(|| format!("{} elements", list.len()));
    // the layout, element by element
    let mut want: Vec<B<E>> = vec![];
    let mut point = |x: &E::G1Affine| {
        let (a, b) = x.xy().unwrap();
        want.push(a);
        want.push(b);
    };
    proof.wires_poly_comms.iter().for_each(|p| point(&p.0));
    proof.split_quot_poly_comms.iter().for_each(|p| point(&p.0));
    point(&proof.prod_perm_poly_comm.0);
    point(&proof.opening_proof.0);
    point(&proof.shifted_opening_proof.0);
    let i = &q.proof.inst[0];
    let cast = |x: &S<E>| B::<E>::from_le_bytes_mod_order(&bytes(x));
    want.extend(i.wire_evals.iter().chain(&i.sigma_evals).map(cast));
    want.push(cast(&i.z_next));
    c.check(list == want, "layout", || format!("{list:?} for {proof:?}"));
    if fits {
        match Proof::<E>::try_from(list.clone()) {
            Ok(y) => {
            c.check(y == proof, "list_back", || format!("{y:?}"));
        },
            Err(e) => c.fail("list_back", format!("{e:?}")),
        }
    }
    // the evaluations alone, with and without lookups
    for n in 0..15usize {
        let l: Vec<S<E>> = gen::fields(c, n);
        let r = c.no_panic("evals_panic", || ProofEvaluations::<S<E>>::try_from(l.clone()).ok());
        let Some(r) = r else { continue };
        c.check(r.is_some() == (n == 10 || n == 12), "evals_length", || format!("{n} elements"));
        if let Some(r) = r {
            let want = (l[..n / 2].to_vec(), l[n / 2..n - 1].to_vec(), l[n - 1]);
            c.eq(&(r.wires_evals.clone(), r.wire_sigma_evals.clone(), r.perm_next_eval), &want, "evals");
            c.eq(&Vec::<S<E>>::from(r), &l, "evals_back");
        }
    }
    // a stand-in has the shape of a proof
    let n = c.range(1, 4);
    let d = BatchProof::<E>::dummy(n);
    let one = BatchProof::from(proof.clone());
    c.check(d.len() == n && !d.is_empty() && BatchProof::<E>::dummy(0).is_empty(), "stand_in", || format!("{n} instances"));
    let (x, y) = (BatchProof::<E>::dummy(1).serialized_size(Compress::Yes), one.serialized_size(Compress::Yes));
    c.check(x == y, "stand_in", || format!("{x} bytes, {y} in a proof"));
    // other lists are refused
    let mut bad = list.clone();
    let what = match c.below(4) {
        0 => {
            bad.pop();
            "short"
        },
        1 => {
            let x = gen::field(c);
            bad.push(x);
            "long"
        },
        2 => {
            let at = c.below(26);
            bad[at] += B::<E>::from(1u64);
            "off the curve"
        },
        _ => {
            let at = c.below(13);
            bad[2 * at] = B::<E>::zero();
            bad[2 * at + 1] = B::<E>::zero();
            "zero coordinates"
        },
    };
    c.key(what);
    c.ev("list that is no proof");
    let r = c.no_panic("list_panic", || Proof::<E>::try_from(bad));
    if let Some(r) = r {
        let bad = match &r {
            Ok(y) => y.wires_poly_comms.iter().any(|p| !p.0.is_on_curve()) || what != "zero coordinates",
            Err(_) => false,
        };
        c.check(!bad, "list_accepted", || format!("{what}: {r:?}"));
    }
}
