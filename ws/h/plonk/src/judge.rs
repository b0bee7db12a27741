//! Verdicts of the verifier on proofs made up from exponents.

use crate::{base::*, equation::*};
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup};
use ark_ff::{PrimeField, UniformRand, Zero};
use jf_plonk::{
    proof_system::{batch_arg::BatchArgument, PlonkKzgSnark, UniversalSNARK},
    transcript::PlonkTranscript,
};
use vh::{gen, Case};

/// A made-up value: often random, sometimes special or a repeat.
fn val<F: PrimeField>(c: &mut Case, seen: &mut Vec<F>) -> F {
    let x = match c.below(12) {
        0 => F::zero(),
        1 => F::one(),
        2 if !seen.is_empty() => seen[c.below(seen.len())],
        3 => gen::field(c),
        _ => F::rand(&mut c.rng),
    };
    seen.push(x);
    x
}

fn vals<F: PrimeField>(c: &mut Case, seen: &mut Vec<F>, n: usize) -> Vec<F> {
    (0..n).map(|_| val(c, seen)).collect()
}

pub fn any_key<F: PrimeField>(c: &mut Case, seen: &mut Vec<F>, n: usize, ultra: bool, merged: bool) -> XKey<F> {
    let wires = if ultra { 6 } else { 5 };
    let inputs = if merged { 2 * c.range(0, (n / 2).min(3)) } else { c.range(0, n.min(6)) };
    XKey {
        n,
        inputs,
        sigma: vals(c, seen, wires),
        sel: vals(c, seen, if ultra { 14 } else { 13 }),
        k: vals(c, seen, wires),
        merged,
        lk: ultra.then(|| std::array::from_fn(|_| val(c, seen))),
    }
}

pub fn any_inst<F: PrimeField>(c: &mut Case, seen: &mut Vec<F>, ultra: bool) -> XInst<F> {
    let wires = if ultra { 6 } else { 5 };
    XInst {
        wires: vals(c, seen, wires),
        z: val(c, seen),
        wire_evals: vals(c, seen, wires),
        sigma_evals: vals(c, seen, wires - 1),
        z_next: val(c, seen),
        lk: ultra.then(|| XLookup {
            h: vals(c, seen, 2),
            prod: val(c, seen),
            ev: std::array::from_fn(|_| val(c, seen)),
        }),
    }
}

/// A statement with a made-up proof.
#[derive(Clone)]
pub struct Claim<F: PrimeField> {
    pub keys: Vec<XKey<F>>,
    pub pis: Vec<Vec<F>>,
    pub proof: XProof<F>,
    pub extra: Option<Vec<u8>>,
}

impl<F: PrimeField> Claim<F> {
    pub fn any(c: &mut Case, m: usize, ultra: bool, merged: bool) -> Self {
        let seen = &mut vec![];
        let n = 1 << c.range(1, 7);
        let keys: Vec<_> = (0..m).map(|_| any_key(c, seen, n, ultra, merged)).collect();
        let pis = keys.iter().map(|k| vals(c, seen, k.inputs)).collect();
        let inst = (0..m).map(|_| any_inst(c, seen, ultra)).collect();
        let quot = vals(c, seen, if ultra { 6 } else { 5 });
        let proof = XProof { inst, quot, open: F::zero(), shift: F::zero() };
        let extra = match c.below(3) {
            0 if m == 1 => {
                let n = if c.below(4) == 0 { 0 } else { c.range(1, 40) };
                Some(c.bytes(n))
            },
            _ => None,
        };
        Claim { keys, pis, proof, extra }
    }

    pub fn lookup(&self) -> bool {
        self.keys.iter().any(|k| k.lk.is_some())
    }

    /// Every value of the proof and the statement.
    pub fn cells(&mut self) -> Vec<(&'static str, &mut F)> {
        let mut v: Vec<(&'static str, &mut F)> = vec![];
        for k in &mut self.keys {
            v.extend(k.sigma.iter_mut().map(|x| ("key sigma", x)));
            v.extend(k.sel.iter_mut().map(|x| ("key selector", x)));
            if let Some(l) = &mut k.lk {
                v.extend(l.iter_mut().map(|x| ("key table", x)));
            }
            v.extend(k.k.iter_mut().map(|x| ("key coset", x)));
        }
        for p in &mut self.pis {
            v.extend(p.iter_mut().map(|x| ("public input", x)));
        }
        for i in &mut self.proof.inst {
            v.extend(i.wires.iter_mut().map(|x| ("wire", x)));
            v.push(("product", &mut i.z));
            v.extend(i.wire_evals.iter_mut().map(|x| ("wire value", x)));
            v.extend(i.sigma_evals.iter_mut().map(|x| ("sigma value", x)));
            v.push(("product next value", &mut i.z_next));
            if let Some(l) = &mut i.lk {
                v.extend(l.h.iter_mut().map(|x| ("sorted", x)));
                v.push(("lookup product", &mut l.prod));
                v.extend(l.ev.iter_mut().map(|x| ("lookup value", x)));
            }
        }
        v.extend(self.proof.quot.iter_mut().map(|x| ("quotient", x)));
        v.push(("opening", &mut self.proof.open));
        v.push(("shifted opening", &mut self.proof.shift));
        v
    }

    /// Change one value; says which kind.
    pub fn bend(&mut self, c: &mut Case) -> &'static str {
        let others: Vec<F> = self.cells().into_iter().map(|(_, x)| *x).collect();
        // choose the kind first so that rare kinds are met as often
        let mut kinds: Vec<&'static str> = self.cells().iter().map(|(k, _)| *k).collect();
        kinds.dedup();
        let kind = c.pick(&kinds);
        let at: Vec<usize> =
            self.cells().iter().enumerate().filter(|(_, (k, _))| *k == kind).map(|(i, _)| i).collect();
        let i = c.pick(&at);
        let old = others[i];
        let new = match c.below(5) {
            0 => F::zero(),
            1 => old + F::one(),
            2 => -old,
            3 => others[c.below(others.len())],
            _ => F::rand(&mut c.rng),
        };
        let new = if new == old { old + F::one() } else { new };
        *self.cells()[i].1 = new;
        kind
    }
}

/// The verdict, and the challenges drawn on the way.
pub fn verdict<E: Cv, T: PlonkTranscript<B<E>> + Send>(
    s: &Setup<E>,
    q: &Claim<S<E>>,
    single: bool,
) -> (Result<(), String>, Vec<S<E>>) {
    let keys: Vec<_> = q.keys.iter().map(|k| k.key(s)).collect();
    let keys: Vec<_> = keys.iter().collect();
    let pis: Vec<&[S<E>]> = q.pis.iter().map(|p| &p[..]).collect();
    recorded(|| {
        if single {
            let p = q.proof.proof(s);
            PlonkKzgSnark::<E>::verify::<Rec<T>>(keys[0], pis[0], &p, q.extra.clone())
        } else {
            let p = q.proof.batch(s);
            PlonkKzgSnark::<E>::verify_batch_proof::<Rec<T>>(&keys, &pis, &p)
        }
        .map_err(|e| format!("{e:?}"))
    })
}

pub fn eq_sides<F: PrimeField>(q: &Claim<F>, log: &[F]) -> Option<(Sides<F>, Chal<F>)> {
    let ch = Chal::of(log, q.lookup())?;
    let keys: Vec<_> = q.keys.iter().collect();
    let pis: Vec<&[F]> = q.pis.iter().map(|p| &p[..]).collect();
    Some((sides(&keys, &pis, &q.proof, &ch), ch))
}

/// Fill in openings that satisfy the equation.
pub fn settle<E: Cv, T: PlonkTranscript<B<E>> + Send>(
    c: &mut Case,
    s: &Setup<E>,
    q: &mut Claim<S<E>>,
    single: bool,
) -> Option<Sides<S<E>>> {
    let (_, log) = verdict::<E, T>(s, q, single);
    let Some((sides, _)) = eq_sides(q, &log) else {
        c.fail("challenges", format!("{} challenges drawn", log.len()));
        return None;
    };
    (q.proof.open, q.proof.shift) = sides.openings(s.x)?;
    Some(sides)
}

/// A proof that satisfies the published equation is accepted, and one that
/// does not is refused.
pub fn equation<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let ultra = c.coin();
    let m = if c.coin() { 1 } else { c.range(1, 4) };
    let merged = !ultra && c.below(4) == 0;
    let mut q = Claim::any(c, m, ultra, merged);
    let single = m == 1 && c.coin();
    if !single {
        q.extra = None;
    }
    c.key((m, ultra, merged, single, q.keys[0].n, q.pis.iter().map(|p| p.len()).collect::<Vec<_>>()));
    c.sample(|| format!("{m} instances, lookups {ultra}, merged {merged}, domain {}", q.keys[0].n));
    if settle::<E, T>(c, &s, &mut q, single).is_none() {
        return;
    }
    c.ev("settled proof");
    let (r, _) = verdict::<E, T>(&s, &q, single);
    c.check(r.is_ok(), "true_refused", || format!("{r:?}"));

    for _ in 0..6 {
        let mut b = q.clone();
        let kind = b.bend(c);
        c.ev("altered proof");
        c.key(("bend", kind, ultra, m));
        let (r, log) = verdict::<E, T>(&s, &b, single);
        let Some((sd, ch)) = eq_sides(&b, &log) else {
            c.fail("challenges", format!("{} challenges drawn", log.len()));
            return;
        };
        let holds = sd.error(s.x, ch.u, b.proof.open, b.proof.shift).is_zero();
        c.check(r.is_ok() == holds, "verdict", || format!("changed {kind}: equation holds {holds}, verdict {r:?}"));
        if kind == "opening" || kind == "shifted opening" {
            continue;
        }
        // with openings to match, it is accepted again
        if let Some((o, t)) = sd.openings(s.x) {
            (b.proof.open, b.proof.shift) = (o, t);
            let (r, _) = verdict::<E, T>(&s, &b, single);
            c.ev("altered proof with matching openings");
            c.check(r.is_ok(), "true_refused", || format!("after changing {kind}: {r:?}"));
        }
    }
    // statements that do not fit the key, also with openings to match
    let mut b = q.clone();
    let i = c.below(m);
    let step = if merged { 2 } else { 1 };
    if b.pis[i].is_empty() || c.coin() {
        b.pis[i].extend(vec![S::<E>::zero(); step]);
    } else {
        let left = b.pis[i].len() - step;
        b.pis[i].truncate(left);
    }
    let (r, log) = verdict::<E, T>(&s, &b, single);
    c.ev("wrong number of public inputs");
    c.check(r.is_err(), "input_count", || "accepted".into());
    let mut fit = b.clone();
    fit.keys[i].inputs = fit.pis[i].len();
    if let Some((o, t)) = eq_sides(&fit, &log).and_then(|(sd, _)| sd.openings(s.x)) {
        (b.proof.open, b.proof.shift) = (o, t);
        let (r, _) = verdict::<E, T>(&s, &b, single);
        c.check(r.is_err(), "input_count", || format!("{} inputs accepted for {}", b.pis[i].len(), b.keys[i].inputs));
    }
}

/// Errors in several proofs must not cancel out when they are checked
/// together.
pub fn together<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let m = c.range(1, 5);
    let mut qs = vec![];
    let mut sd = vec![];
    for _ in 0..m {
        let ultra = c.coin();
        let mut q = Claim::any(c, 1, ultra, false);
        let Some(side) = settle::<E, T>(c, &s, &mut q, true) else { return };
        qs.push(q);
        sd.push(side);
    }
    c.key((m, qs.iter().map(|q| q.lookup()).collect::<Vec<_>>()));
    c.sample(|| format!("{m} proofs checked together"));
    let run = |qs: &[Claim<S<E>>]| {
        let keys: Vec<_> = qs.iter().map(|q| q.keys[0].key(&s)).collect();
        let keys: Vec<_> = keys.iter().collect();
        let pis: Vec<&[S<E>]> = qs.iter().map(|q| &q.pis[0][..]).collect();
        let proofs: Vec<_> = qs.iter().map(|q| q.proof.proof(&s)).collect();
        let proofs: Vec<_> = proofs.iter().collect();
        let extra: Vec<_> = qs.iter().map(|q| q.extra.clone()).collect();
        recorded::<_, S<E>>(|| PlonkKzgSnark::<E>::batch_verify::<Rec<T>>(&keys, &pis, &proofs, &extra))
    };
    let (r, base) = run(&qs);
    c.ev("all true");
    c.check(r.is_ok(), "true_refused", || format!("{r:?}"));

    // the same statements in another order, and one twice
    let mut other = qs.clone();
    other.reverse();
    let at = c.below(other.len());
    let again = other[at].clone();
    other.push(again);
    let (r, _) = run(&other);
    c.ev("all true, one twice");
    c.check(r.is_ok(), "true_refused", || format!("with a repeat: {r:?}"));

    // one wrong
    for _ in 0..2 {
        let mut b = qs.clone();
        let i = c.below(m);
        let kind = b[i].bend(c);
        if kind == "key coset" && b[i].keys[0].k == qs[i].keys[0].k {
            continue;
        }
        let (r, _) = run(&b);
        let (_, log) = verdict::<E, T>(&s, &b[i], true);
        let Some((side, ch)) = eq_sides(&b[i], &log) else { return };
        let holds = side.error(s.x, ch.u, b[i].proof.open, b[i].proof.shift).is_zero();
        c.ev("one wrong");
        c.key(("bend", kind, i));
        c.check(r.is_ok() == holds, "one_wrong", || format!("{kind} of proof {i} of {m}: {r:?}"));
    }
    // a proof shown again for another statement, next to the true one or not
    for _ in 0..2 {
        let i = c.below(m);
        let mut again = qs[i].clone();
        let what = match c.below(4) {
            0 | 1 if !again.pis[0].is_empty() => {
                let l = again.pis[0].len();
                again.pis[0][c.below(l)] += S::<E>::from(1u64);
                "public input"
            },
            2 => {
                let k = &mut again.keys[0];
                let l = k.sigma.len();
                k.sigma[c.below(l)] += S::<E>::from(1u64);
                "key"
            },
            _ => {
                again.extra = match again.extra {
                    Some(_) => None,
                    None => Some(vec![7]),
                };
                "context"
            },
        };
        let (_, log) = verdict::<E, T>(&s, &again, true);
        let Some((side, ch)) = eq_sides(&again, &log) else { return };
        let holds = side.error(s.x, ch.u, again.proof.open, again.proof.shift).is_zero();
        let at = match c.below(3) {
            0 => i,
            1 => i + 1,
            _ => c.range(0, m),
        };
        let mut b = qs.clone();
        b.insert(at, again);
        let (r, _) = run(&b);
        c.ev("proof shown again for another statement");
        c.key(("again", what, at == i, at == i + 1));
        c.check(r.is_ok() == holds, "again", || format!("proof {i} of {m} again at {at} with another {what}: {r:?}"));
    }
    if m < 2 {
        return;
    }
    // errors that cancel for an obvious choice of weights
    let d = S::<E>::rand(&mut c.rng);
    let two = S::<E>::from(2u64);
    let i = c.below(m);
    let j = (i + 1 + c.below(m - 1)) % m;
    let factor = match c.below(5) {
        0 | 1 => -S::<E>::from(1u64),
        2 => S::<E>::from(1u64),
        3 => -two,
        _ => -ark_ff::Field::inverse(&two).unwrap(),
    };
    let mut b = qs.clone();
    let spoil = |q: &mut Claim<S<E>>, side: &Sides<S<E>>, e: S<E>, shifted: bool| {
        if shifted {
            q.proof.shift += e / (s.x - side.next);
        } else {
            q.proof.open += e / (s.x - side.zeta);
        }
    };
    spoil(&mut b[i], &sd[i], d, false);
    spoil(&mut b[j], &sd[j], d * factor, false);
    let (r, log) = run(&b);
    c.ev("errors that cancel");
    c.check(r.is_err(), "cancelled", || format!("errors in proofs {i} and {j} of {m}"));
    // the combination depends on every proof
    if let (Some(x), Some(y)) = (base.last(), log.last()) {
        c.check(x != y, "weights_fixed", || "the same weights for other proofs".into());
    }
    for k in 0..m {
        let mut b = qs.clone();
        let shifted = c.coin();
        spoil(&mut b[k], &sd[k], d, shifted);
        let (r, log) = run(&b);
        c.ev("one wrong opening");
        c.check(r.is_err(), "one_wrong", || format!("opening of proof {k} of {m}"));
        if let (Some(x), Some(y)) = (base.last(), log.last()) {
            c.check(x != y, "weights_fixed", || format!("weights do not depend on proof {k} of {m}"));
        }
    }
    // lists of different lengths
    let keys: Vec<_> = qs.iter().map(|q| q.keys[0].key(&s)).collect();
    let keys: Vec<_> = keys.iter().collect();
    let pis: Vec<&[S<E>]> = qs.iter().map(|q| &q.pis[0][..]).collect();
    let proofs: Vec<_> = qs.iter().map(|q| q.proof.proof(&s)).collect();
    let proofs: Vec<_> = proofs.iter().collect();
    let extra: Vec<_> = qs.iter().map(|q| q.extra.clone()).collect();
    let cut = |on: bool| if on { m - 1 } else { m };
    let which = c.below(4);
    let r = PlonkKzgSnark::<E>::batch_verify::<T>(
        &keys[..cut(which == 0)],
        &pis[..cut(which == 1)],
        &proofs[..cut(which == 2)],
        &extra[..cut(which == 3)],
    );
    c.ev("lists of different lengths");
    c.check(r.is_err(), "list_lengths", || format!("list {which} is short"));
}

/// Keys with and without lookups in one aggregated proof: no term of one
/// instance may stand in for a term of another.
pub fn mixed<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let m = c.range(2, 4);
    let mut q = Claim::<S<E>>::any(c, m, false, false);
    let n = q.keys[0].n;
    let seen = &mut vec![];
    let mut kinds: Vec<bool> = (0..m).map(|_| c.coin()).collect();
    kinds[c.below(m)] = true;
    if kinds.iter().all(|k| *k) {
        kinds[0] = false;
    }
    for i in 0..m {
        q.keys[i] = any_key(c, seen, n, kinds[i], false);
        q.pis[i] = gen::fields(c, q.keys[i].inputs);
        q.proof.inst[i] = any_inst(c, seen, kinds[i]);
    }
    q.proof.quot = gen::fields(c, q.keys[0].sigma.len());
    q.extra = None;
    c.key(kinds.clone());
    c.sample(|| format!("lookups {kinds:?}"));
    let (_, log) = verdict::<E, T>(&s, &q, false);
    if log.is_empty() {
        // refused outright
        c.ev("mixed keys refused");
        return;
    }
    let Some((sides, _)) = eq_sides(&q, &log) else {
        c.fail("challenges", format!("{} challenges drawn", log.len()));
        return;
    };
    let Some((o, t)) = sides.openings(s.x) else { return };
    (q.proof.open, q.proof.shift) = (o, t);
    let (r, log) = verdict::<E, T>(&s, &q, false);
    let Some((sd, ch)) = eq_sides(&q, &log) else { return };
    let holds = sd.error(s.x, ch.u, q.proof.open, q.proof.shift).is_zero();
    c.ev("mixed keys judged");
    c.check(r.is_ok() == holds, "mixed", || format!("equation holds {holds}, verdict {r:?}"));
}

/// The split verification of merged instances gives exactly the two group
/// elements of the equation, and the decision is that of the pairing.
pub fn partial<E: Cv, T: PlonkTranscript<B<E>> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let m = c.range(1, 4);
    let mut q = Claim::<S<E>>::any(c, m, false, true);
    q.extra = None;
    // the input is shared by all and by both halves
    let half = c.range(0, (q.keys[0].n / 2).min(3));
    let shared: Vec<S<E>> = gen::fields(c, half);
    for k in &mut q.keys {
        k.inputs = 2 * half;
    }
    q.pis = vec![[&shared[..], &shared[..]].concat(); m];
    let blind = gen::field::<S<E>>(c);
    let honest = c.coin();
    if honest {
        if settle::<E, T>(c, &s, &mut q, false).is_none() {
            return;
        }
    } else {
        q.proof.open = gen::field(c);
        q.proof.shift = gen::field(c);
    }
    c.key((m, half, q.keys[0].n, honest));
    c.sample(|| format!("{m} merged instances, {half} shared inputs, honest {honest}"));
    let keys: Vec<_> = q.keys.iter().map(|k| k.key(&s)).collect();
    let proof = q.proof.batch(&s);
    let beta_g = s.at(s.x);
    let g = s.g.into_affine();
    let (r, log) = recorded(|| {
        BatchArgument::<E>::partial_verify::<Rec<T>>(&beta_g, &g, &keys, &shared, &proof, blind)
    });
    let Some((i1, i2)) = c.ok(r, "partial") else { return };
    let Some((sd, ch)) = eq_sides(&q, &log) else {
        c.fail("challenges", format!("{} challenges drawn", log.len()));
        return;
    };
    let (o, t) = (q.proof.open, q.proof.shift);
    c.ev("split verification");
    c.eq(&i1.into_affine(), &s.at(o + ch.u * t + blind), "inner1");
    c.eq(&i2.into_affine(), &s.at(sd.zeta * o + ch.u * sd.next * t + sd.a + ch.u * sd.b + blind * s.x), "inner2");
    let holds = sd.error(s.x, ch.u, o, t).is_zero();
    let key = s.open_key();
    let d = c.ok(BatchArgument::<E>::decide(&key, i1, i2), "decide");
    c.check(d == Some(holds), "decision", || format!("equation holds {holds}, decision {d:?}"));
    // the decision on arbitrary elements
    let a = gen::field::<S<E>>(c);
    let b = if c.coin() { a * s.x } else { gen::field(c) };
    let d = c.ok(BatchArgument::<E>::decide(&key, s.g * a, s.g * b), "decide");
    c.ev("decision");
    c.check(d == Some(a * s.x == b), "decision", || format!("{d:?}"));
    // sizes that do not fit
    let r = BatchArgument::<E>::partial_verify::<T>(&beta_g, &g, &keys[..m - 1], &shared, &proof, blind);
    c.check(r.is_err(), "partial_sizes", || "a key is missing".into());
    let mut long = shared.clone();
    long.push(S::<E>::zero());
    let r = BatchArgument::<E>::partial_verify::<T>(&beta_g, &g, &keys, &long, &proof, blind);
    c.check(r.is_err(), "partial_sizes", || "an input too many".into());
    let _ = <E as Pairing>::G1Affine::zero();
}
