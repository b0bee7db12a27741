//! Independent reading of a finished circuit.
//!
//! `Sys` is rebuilt from the polynomials that the arithmetization hands to the
//! prover, so it sees what will be proved and nothing else. Which variable sits
//! on which wire is found by giving every variable a value of its own and
//! reading the wire polynomials. On top of it there are
//! * an evaluator (`unsatisfied`),
//! * a rigidity monitor (`loose`): with the inputs held, can the outputs move
//!   to first order?
//! * a forger (`forge`): hold the inputs, set outputs to false values and solve
//!   for everything else; success is a satisfying assignment of a false claim.

pub mod prog;

use ark_ff::PrimeField;
use ark_poly::{EvaluationDomain, Radix2EvaluationDomain};
use jf_relation::{Arithmetization, Circuit, PlonkCircuit, Variable};
use std::collections::{HashMap, HashSet, VecDeque};
use vh::Case;

#[derive(Clone, Debug)]
pub struct Row<F> {
    pub lc: [F; 4],
    pub mul: [F; 2],
    pub hash: [F; 4],
    pub o: F,
    pub c: F,
    pub ecc: F,
    pub w: [usize; 5],
}

#[derive(Clone, Debug)]
pub struct Lookup<F> {
    pub q: Vec<F>,
    pub q_dom: Vec<F>,
    pub t_dom: Vec<F>,
    pub t_key: Vec<F>,
    pub range: Vec<F>,
    pub range_size: u64,
    /// variable on the range wire, row by row
    pub rv: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct Sys<F> {
    pub n: usize,
    pub nv: usize,
    pub rows: Vec<Row<F>>,
    pub inputs: usize,
    pub lookup: Option<Lookup<F>>,
    /// rows of the public inputs, in their order
    pub pi_at: Vec<usize>,
}

/// Values of the extended permutation, wire by wire.
pub fn permutation<F: PrimeField>(cs: &PlonkCircuit<F>) -> Result<Vec<Vec<F>>, String> {
    let err = |e| format!("{e:?}");
    let d = Radix2EvaluationDomain::<F>::new(cs.eval_domain_size().map_err(err)?).ok_or("domain")?;
    let polys = cs.compute_extended_permutation_polynomials().map_err(err)?;
    Ok(polys.iter().map(|p| evals(&d, &p.coeffs)).collect())
}

pub fn evals<F: PrimeField>(d: &Radix2EvaluationDomain<F>, p: &[F]) -> Vec<F> {
    assert!(p.len() <= d.size(), "polynomial of degree {} on a domain of {}", p.len(), d.size());
    d.fft(p)
}

impl<F: PrimeField> Sys<F> {
    /// Reads a circuit, finalizing a copy of it where needed.
    pub fn new(cs: &PlonkCircuit<F>) -> Result<Self, String> {
        let mut cs = cs.clone();
        cs.finalize_for_arithmetization().map_err(|e| format!("finalize: {e:?}"))?;
        Self::of_final(&cs)
    }

    pub fn of_final(cs: &PlonkCircuit<F>) -> Result<Self, String> {
        let err = |e| format!("{e:?}");
        let n = cs.eval_domain_size().map_err(err)?;
        let d = Radix2EvaluationDomain::<F>::new(n).ok_or("domain")?;
        let nv = cs.num_vars();
        let mut tagged = cs.clone();
        for v in 0..nv {
            *tagged.witness_mut(v) = F::from(v as u64);
        }
        let mut wires = vec![];
        for p in tagged.compute_wire_polynomials().map_err(err)? {
            let mut col = vec![];
            for x in evals(&d, &p.coeffs) {
                let b = x.into_bigint();
                let l = b.as_ref();
                if l[1..].iter().any(|k| *k != 0) || l[0] >= nv as u64 {
                    return Err("a wire polynomial does not interpolate the variables".into());
                }
                col.push(l[0] as usize);
            }
            wires.push(col);
        }
        let ultra = cs.support_lookup();
        let sel: Vec<Vec<F>> = cs
            .compute_selector_polynomials()
            .map_err(err)?
            .iter()
            .map(|p| evals(&d, &p.coeffs))
            .collect();
        if sel.len() != 13 + ultra as usize || wires.len() != 5 + ultra as usize {
            return Err(format!("{} selectors, {} wires", sel.len(), wires.len()));
        }
        let rows = (0..n)
            .map(|j| Row {
                lc: [sel[0][j], sel[1][j], sel[2][j], sel[3][j]],
                mul: [sel[4][j], sel[5][j]],
                hash: [sel[6][j], sel[7][j], sel[8][j], sel[9][j]],
                o: sel[10][j],
                c: sel[11][j],
                ecc: sel[12][j],
                w: [wires[0][j], wires[1][j], wires[2][j], wires[3][j], wires[4][j]],
            })
            .collect();
        let lookup = if ultra {
            let e = |p: Result<ark_poly::univariate::DensePolynomial<F>, _>| p.map_err(err).map(|p| evals(&d, &p.coeffs));
            Some(Lookup {
                q: sel[13].clone(),
                q_dom: e(cs.compute_q_dom_sep_polynomial())?,
                t_dom: e(cs.compute_table_dom_sep_polynomial())?,
                t_key: e(cs.compute_key_table_polynomial())?,
                range: e(cs.compute_range_table_polynomial())?,
                range_size: cs.range_size().map_err(err)? as u64,
                rv: wires[5].clone(),
            })
        } else {
            None
        };
        let inputs = cs.num_inputs();
        Ok(Self { n, nv, rows, inputs, lookup, pi_at: (0..inputs).collect() })
    }

    pub fn residual(r: &Row<F>, w: [F; 5], pi: F) -> F {
        let p5 = |x: F| x.square().square() * x;
        pi + r.c
            + r.lc[0] * w[0]
            + r.lc[1] * w[1]
            + r.lc[2] * w[2]
            + r.lc[3] * w[3]
            + r.mul[0] * w[0] * w[1]
            + r.mul[1] * w[2] * w[3]
            + r.hash[0] * p5(w[0])
            + r.hash[1] * p5(w[1])
            + r.hash[2] * p5(w[2])
            + r.hash[3] * p5(w[3])
            + r.ecc * w[0] * w[1] * w[2] * w[3] * w[4]
            - r.o * w[4]
    }

    fn spread(&self, pis: &[F]) -> Vec<F> {
        let mut v = vec![F::zero(); self.n];
        for (x, at) in pis.iter().zip(&self.pi_at) {
            v[*at] = *x;
        }
        v
    }

    fn at(r: &Row<F>, wit: &[F]) -> [F; 5] {
        [wit[r.w[0]], wit[r.w[1]], wit[r.w[2]], wit[r.w[3]], wit[r.w[4]]]
    }

    fn dead(r: &Row<F>) -> bool {
        r.lc.iter().chain(&r.mul).chain(&r.hash).chain([&r.o, &r.c, &r.ecc]).all(|x| x.is_zero())
    }

    /// First broken constraint under the assignment, by the definition of the
    /// constraints alone. Public inputs belong to the rows of `pi_at`.
    pub fn unsatisfied(&self, wit: &[F], pis: &[F]) -> Option<String> {
        if pis.len() != self.inputs {
            return Some("number of inputs".into());
        }
        let pi = self.spread(pis);
        for (j, r) in self.rows.iter().enumerate() {
            let pi = pi[j];
            if !Self::residual(r, Self::at(r, wit), pi).is_zero() {
                return Some(format!("row {j}"));
            }
        }
        if let Some(l) = &self.lookup {
            for (j, v) in l.rv.iter().enumerate() {
                if wit[*v] >= F::from(l.range_size) {
                    return Some(format!("range {j}"));
                }
            }
            let table = self.table(wit);
            for (j, r) in self.rows.iter().enumerate() {
                if !l.q[j].is_zero() && !table.contains_key(&(l.q_dom[j], wit[r.w[0]], wit[r.w[1]], wit[r.w[2]])) {
                    return Some(format!("lookup {j}"));
                }
            }
        }
        None
    }

    fn table(&self, wit: &[F]) -> HashMap<(F, F, F, F), Option<usize>> {
        let mut t = HashMap::new();
        let z = F::zero();
        t.insert((z, z, z, z), None);
        if let Some(l) = &self.lookup {
            for (j, r) in self.rows.iter().enumerate() {
                if !l.q[j].is_zero() {
                    t.insert((l.t_dom[j], l.t_key[j], wit[r.w[3]], wit[r.w[4]]), Some(j));
                }
            }
        }
        t
    }

    /// Outputs that can move to first order while the inputs are held.
    pub fn loose(&self, wit: &[F], inputs: &[Variable], outputs: &[Variable]) -> Vec<Variable> {
        // rows of the Jacobian
        let mut jac: Vec<HashMap<usize, F>> = vec![];
        for r in &self.rows {
            if Self::dead(r) {
                continue;
            }
            let w = Self::at(r, wit);
            let d5 = |x: F| F::from(5u64) * x.square().square();
            let prod = |skip: usize| (0..5).filter(|k| *k != skip).map(|k| w[k]).product::<F>();
            let d = [
                r.lc[0] + r.mul[0] * w[1] + r.hash[0] * d5(w[0]) + r.ecc * prod(0),
                r.lc[1] + r.mul[0] * w[0] + r.hash[1] * d5(w[1]) + r.ecc * prod(1),
                r.lc[2] + r.mul[1] * w[3] + r.hash[2] * d5(w[2]) + r.ecc * prod(2),
                r.lc[3] + r.mul[1] * w[2] + r.hash[3] * d5(w[3]) + r.ecc * prod(3),
                r.ecc * prod(4) - r.o,
            ];
            let mut m: HashMap<usize, F> = HashMap::new();
            for k in 0..5 {
                *m.entry(r.w[k]).or_default() += d[k];
            }
            m.retain(|_, x| !x.is_zero());
            if !m.is_empty() {
                jac.push(m);
            }
        }
        if let Some(l) = &self.lookup {
            for v in l.rv.iter().collect::<HashSet<_>>() {
                jac.push([(*v, F::one())].into());
            }
            let table = self.table(wit);
            for (j, r) in self.rows.iter().enumerate() {
                if l.q[j].is_zero() {
                    continue;
                }
                jac.push([(r.w[0], F::one())].into());
                let hit = table.get(&(l.q_dom[j], wit[r.w[0]], wit[r.w[1]], wit[r.w[2]]));
                for k in 0..2 {
                    let mut m: HashMap<usize, F> = [(r.w[1 + k], F::one())].into();
                    if let Some(Some(t)) = hit {
                        *m.entry(self.rows[*t].w[3 + k]).or_default() -= F::one();
                    }
                    m.retain(|_, x| !x.is_zero());
                    if !m.is_empty() {
                        jac.push(m);
                    }
                }
            }
        }
        // drop what is held, then everything that follows one at a time
        let mut fixed = vec![false; self.nv];
        let mut by_var: HashMap<usize, Vec<usize>> = HashMap::new();
        for (i, m) in jac.iter().enumerate() {
            for v in m.keys() {
                by_var.entry(*v).or_default().push(i);
            }
        }
        let mut todo: Vec<usize> = inputs.to_vec();
        let mut singles: Vec<usize> = (0..jac.len()).filter(|i| jac[*i].len() == 1).collect();
        loop {
            while let Some(v) = todo.pop() {
                if fixed[v] {
                    continue;
                }
                fixed[v] = true;
                for i in by_var.get(&v).into_iter().flatten() {
                    jac[*i].remove(&v);
                    if jac[*i].len() == 1 {
                        singles.push(*i);
                    }
                }
            }
            match singles.pop() {
                None => break,
                Some(i) => todo.extend(jac[i].keys().copied()),
            }
        }
        let open: Vec<Variable> = outputs.iter().copied().filter(|v| !fixed[*v]).collect();
        if open.is_empty() {
            return open;
        }
        // eliminate the rest; outputs come last so that what is left speaks of
        // them alone
        let out: HashSet<usize> = open.iter().copied().collect();
        let mut rows: Vec<HashMap<usize, F>> = jac.into_iter().filter(|m| !m.is_empty()).collect();
        loop {
            // the shortest row with a column that is not an output
            let mut best: Option<(usize, usize)> = None;
            for (i, m) in rows.iter().enumerate() {
                if m.keys().any(|v| !out.contains(v)) && best.map_or(true, |(_, l)| m.len() < l) {
                    best = Some((i, m.len()));
                }
            }
            let Some((i, _)) = best else { break };
            let piv = rows.swap_remove(i);
            let col = *piv.keys().filter(|v| !out.contains(*v)).min().unwrap();
            let inv = piv[&col].inverse().unwrap();
            for m in rows.iter_mut() {
                if let Some(x) = m.remove(&col) {
                    let f = x * inv;
                    for (v, y) in &piv {
                        if *v != col {
                            let e = m.entry(*v).or_default();
                            *e -= f * y;
                            if e.is_zero() {
                                m.remove(v);
                            }
                        }
                    }
                }
            }
            rows.retain(|m| !m.is_empty());
        }
        // reduced row echelon form on the outputs
        let mut free: Vec<Variable> = vec![];
        let mut piv: Vec<(usize, HashMap<usize, F>)> = vec![];
        while let Some(m) = rows.pop() {
            let col = *m.keys().min().unwrap();
            let inv = m[&col].inverse().unwrap();
            let m: HashMap<usize, F> = m.into_iter().map(|(v, x)| (v, x * inv)).collect();
            let reduce = |t: &mut HashMap<usize, F>| {
                if let Some(x) = t.remove(&col) {
                    for (v, y) in &m {
                        if *v != col {
                            let e = t.entry(*v).or_default();
                            *e -= x * y;
                            if e.is_zero() {
                                t.remove(v);
                            }
                        }
                    }
                }
            };
            rows.iter_mut().for_each(reduce);
            piv.iter_mut().for_each(|(_, t)| reduce(t));
            rows.retain(|m| !m.is_empty());
            piv.push((col, m));
        }
        for v in open {
            if !piv.iter().any(|(c, m)| *c == v && m.len() == 1) {
                free.push(v);
            }
        }
        free
    }

    /// The base of a row that says `w4 = b^3 w0 + b^2 w1 + b w2 + w3`.
    fn base(r: &Row<F>) -> Option<u64> {
        if !r.o.is_one() || !r.lc[3].is_one() || r.mul.iter().chain(&r.hash).chain([&r.c, &r.ecc]).any(|x| !x.is_zero()) {
            return None;
        }
        let b = r.lc[2].into_bigint().as_ref()[0];
        let x = F::from(b);
        (b > 1 && b < 1 << 40 && r.lc[2] == x && r.lc[1] == x.square() && r.lc[0] == x.square() * x).then_some(b)
    }

    /// Whether an unknown variable can change the value of a row.
    fn matters(r: &Row<F>, v: usize, wit: &[Option<F>]) -> bool {
        let zero = |k: usize| wit[r.w[k]].map_or(false, |x| x.is_zero());
        (0..5).filter(|k| r.w[*k] == v).any(|k| {
            let lin = match k {
                4 => !r.o.is_zero(),
                _ => !r.lc[k].is_zero() || !r.hash[k].is_zero() || (!r.mul[k / 2].is_zero() && !zero(k ^ 1)),
            };
            lin || (!r.ecc.is_zero() && (0..5).all(|l| l == k || !zero(l)))
        })
    }

    /// Holds `set`, solves for the rest one unknown at a time, and falls back
    /// to the honest value where nothing is forced. Returns the assignment when
    /// it satisfies the circuit.
    pub fn forge(&self, honest: &[F], pis: &[F], set: &[(Variable, F)], hints: &HashMap<F, F>) -> Option<Vec<F>> {
        let pi = self.spread(pis);
        let mut wit: Vec<Option<F>> = vec![None; self.nv];
        let mut by_var: Vec<Vec<usize>> = vec![vec![]; self.nv];
        for (j, r) in self.rows.iter().enumerate() {
            if !Self::dead(r) {
                for v in r.w.iter().collect::<HashSet<_>>() {
                    by_var[*v].push(j);
                }
            }
        }
        let mut queue: VecDeque<usize> = VecDeque::new();
        wit[0] = Some(honest[0]);
        wit[1] = Some(honest[1]);
        for (v, x) in set {
            wit[*v] = Some(*x);
        }
        let mut seen = vec![false; self.rows.len()];
        for v in 0..self.nv {
            if wit[v].is_some() {
                queue.extend(&by_var[v]);
            }
        }
        // rows that write a value in a small base, by the variable of the value
        let mut digits: HashMap<usize, Vec<(usize, u64)>> = HashMap::new();
        for (j, r) in self.rows.iter().enumerate() {
            if let Some(b) = Self::base(r) {
                digits.entry(r.w[4]).or_default().push((j, b));
            }
        }
        // lookups that have not been answered from their table yet
        let mut asked: Vec<usize> = vec![];
        let mut entry: HashMap<(F, F), usize> = HashMap::new();
        if let Some(l) = &self.lookup {
            asked = (0..self.n).filter(|j| !l.q[*j].is_zero() && !l.q_dom[*j].is_zero()).collect();
            entry = (0..self.n).filter(|j| !l.q[*j].is_zero()).map(|j| ((l.t_dom[j], l.t_key[j]), j)).collect();
        }
        let mut next = 0;
        loop {
            while let Some(j) = queue.pop_front() {
                if seen[j] {
                    continue;
                }
                let r = &self.rows[j];
                let pi = pi[j];
                let mut un: Vec<usize> = r.w.iter().copied().filter(|v| wit[*v].is_none()).collect();
                un.sort();
                un.dedup();
                let at = |vals: &dyn Fn(usize) -> F| {
                    let mut w = [F::zero(); 5];
                    for k in 0..5 {
                        w[k] = wit[r.w[k]].unwrap_or_else(|| vals(r.w[k]));
                    }
                    Self::residual(r, w, pi)
                };
                // unknowns that do not matter in this row
                un.retain(|v| Self::matters(r, *v, &wit));
                match un.len() {
                    0 => {
                        seen[j] = true;
                        if !at(&|_| F::zero()).is_zero() {
                            return None;
                        }
                    },
                    1 => {
                        let v = un[0];
                        let f = |x: F| at(&|u| if u == v { x } else { F::zero() });
                        let (r0, r1, r2) = (f(F::zero()), f(F::one()), f(F::from(2u64)));
                        let s = r1 - r0;
                        let x = if s.is_zero() && r2 == r0 {
                            // the coefficients cancel
                            seen[j] = true;
                            if !r0.is_zero() {
                                return None;
                            }
                            continue;
                        } else if r2 - r1 == s {
                            -r0 / s
                        } else if r2 - r0 == F::from(32u64) * s {
                            // a fifth power
                            match fifth_root(-r0 / s) {
                                Some(x) => x,
                                None => continue,
                            }
                        } else {
                            continue;
                        };
                        seen[j] = true;
                        wit[v] = Some(x);
                        queue.extend(&by_var[v]);
                    },
                    _ => {},
                }
            }
            // write known values out in digits before anything is guessed
            let mut done = vec![];
            for (v, rows) in &digits {
                if let Some(x) = wit[*v] {
                    done.push((*v, x, rows.clone()));
                }
            }
            done.sort_by_key(|(v, ..)| *v);
            let mut moved = false;
            for (v, x, rows) in done {
                digits.remove(&v);
                for (j, b) in rows {
                    let r = &self.rows[j];
                    let mut limbs: Vec<u64> = x.into_bigint().as_ref().to_vec();
                    for k in [3, 2, 1, 0] {
                        let d = if k == 0 {
                            limbs.iter().rev().fold(F::zero(), |a, l| {
                                a * F::from(1u64 << 32).square() + F::from(*l)
                            })
                        } else {
                            let mut rem = 0u128;
                            for l in limbs.iter_mut().rev() {
                                let cur = rem << 64 | *l as u128;
                                *l = (cur / b as u128) as u64;
                                rem = cur % b as u128;
                            }
                            F::from(rem as u64)
                        };
                        if wit[r.w[k]].is_none() {
                            wit[r.w[k]] = Some(d);
                            queue.extend(&by_var[r.w[k]]);
                            moved = true;
                        }
                    }
                }
            }
            if let Some(l) = &self.lookup {
                asked.retain(|j| {
                    let r = &self.rows[*j];
                    let Some(key) = wit[r.w[0]] else { return true };
                    let Some(i) = entry.get(&(l.q_dom[*j], key)) else { return false };
                    let t = &self.rows[*i];
                    let mut open = false;
                    for (from, to) in [(t.w[3], r.w[1]), (t.w[4], r.w[2])] {
                        match (wit[from], wit[to]) {
                            (Some(x), None) => {
                                wit[to] = Some(x);
                                queue.extend(&by_var[to]);
                                moved = true;
                            },
                            (None, None) => open = true,
                            _ => {},
                        }
                    }
                    open
                });
            }
            if moved {
                continue;
            }
            while next < self.nv && wit[next].is_some() {
                next += 1;
            }
            if next == self.nv {
                break;
            }
            let h = honest[next];
            wit[next] = Some(*hints.get(&h).unwrap_or(&h));
            queue.extend(&by_var[next]);
        }
        let wit: Vec<F> = wit.into_iter().map(Option::unwrap).collect();
        self.unsatisfied(&wit, pis).is_none().then_some(wit)
    }
}

/// The fifth root, where raising to the fifth power is a permutation.
pub fn fifth_root<F: PrimeField>(x: F) -> Option<F> {
    // p - 1 = k mod 5; e = (1 + m (p - 1)) / 5 for the m that makes it whole
    let pm1 = F::from(-1i64).into_bigint();
    let mut k = 0u64;
    for l in pm1.as_ref().iter().rev() {
        k = (((k as u128) << 64 | *l as u128) % 5) as u64;
    }
    if k == 0 {
        return None;
    }
    let m = (1..5u64).find(|m| (1 + m * k) % 5 == 0).unwrap();
    // m * (p - 1) + 1, divided by five, in limbs
    let mut limbs: Vec<u64> = vec![];
    let mut carry = 1u128;
    for l in pm1.as_ref() {
        carry += *l as u128 * m as u128;
        limbs.push(carry as u64);
        carry >>= 64;
    }
    limbs.push(carry as u64);
    let mut rem = 0u128;
    for l in limbs.iter_mut().rev() {
        let cur = rem << 64 | *l as u128;
        *l = (cur / 5) as u64;
        rem = cur % 5;
    }
    Some(x.pow(limbs))
}

pub fn witness<F: PrimeField>(cs: &PlonkCircuit<F>) -> Vec<F> {
    (0..cs.num_vars()).map(|v| cs.witness(v).unwrap()).collect()
}

/// Monitors one gadget instance whose circuit is satisfied: the outputs must
/// follow from the inputs. `wrong` proposes false values for an output.
pub fn bound<F: PrimeField>(
    c: &mut Case,
    cs: &PlonkCircuit<F>,
    inputs: &[Variable],
    outputs: &[Variable],
    sig: &str,
) {
    let sys = match Sys::new(cs) {
        Ok(s) => s,
        Err(e) => {
            c.fail(sig, e);
            return;
        },
    };
    let wit = witness(cs);
    let pis = cs.public_input().unwrap();
    if let Some(e) = sys.unsatisfied(&wit, &pis) {
        c.fail(sig, format!("finished circuit unsatisfied at {e}"));
        return;
    }
    let loose = sys.loose(&wit, inputs, outputs);
    c.check(loose.is_empty(), &format!("{sig}_loose"), || format!("outputs {loose:?} of {outputs:?} can move"));
    c.ev("rigidity");
    let set: Vec<(Variable, F)> = inputs.iter().map(|v| (*v, wit[*v])).collect();
    let outs: Vec<Variable> = outputs.iter().copied().filter(|v| *v > 1 && !inputs.contains(v)).collect();
    if outs.is_empty() {
        return;
    }
    for _ in 0..2 {
        let o = c.pick(&outs);
        let x = match c.below(4) {
            0 => wit[o] + F::one(),
            1 => wit[o] - F::one(),
            2 => F::one() - wit[o],
            _ => vh::gen::field::<F>(c),
        };
        if x == wit[o] {
            continue;
        }
        let mut s = set.clone();
        s.push((o, x));
        let got = sys.forge(&wit, &pis, &s, &HashMap::new());
        c.check(got.is_none(), &format!("{sig}_forged"), || format!("output {o}: {} in place of {}", x, wit[o]));
        c.ev("forgery");
    }
}
