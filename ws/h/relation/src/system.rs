//! R01, R03, R06: the constraint system itself, against an independent record
//! of random programs.

use ark_ff::PrimeField;
use ark_poly::{EvaluationDomain, Polynomial, Radix2EvaluationDomain};
use circ::{
    evals, permutation,
    prog::{Con, Prog, Shape},
    Row, Sys,
};
use jf_relation::{
    constants::compute_coset_representatives, Arithmetization, Circuit, MergeableCircuitType, PlonkCircuit,
};
use std::collections::HashMap;
use vh::{gen, guard, Case};

fn shape(c: &mut Case, ultra: bool) -> Shape {
    Shape {
        ultra: ultra.then(|| c.range(1, 5)),
        ops: if c.below(8) == 0 { c.range(60, 160) } else { c.range(0, 40) },
        inputs: true,
        tables: c.below(4) != 0,
    }
}

fn is_ok<E>(r: Result<(), E>) -> bool {
    r.is_ok()
}

/// Satisfiability as reported against satisfiability by definition, before and
/// after finishing, for honest and changed assignments.
pub fn satisfiability<F: PrimeField>(c: &mut Case) {
    let ultra = c.coin();
    let s = shape(c, ultra);
    let p = Prog::<F>::random(c, s);
    assert!(!p.broken(&p.wit, &p.pis()), "generator");
    let mut cs = p.cs.clone();
    c.eq(&cs.num_vars(), &p.wit.len(), "num_vars");
    c.eq(&cs.num_inputs(), &p.inputs.len(), "num_inputs");
    let got = c.ok(cs.public_input(), "public_input").unwrap_or_default();
    c.eq(&got, &p.pis(), "public_input_value");
    let r = cs.check_circuit_satisfiability(&p.pis());
    c.check(r.is_ok(), "honest_refused", || format!("{r:?}"));
    if let Err(e) = cs.finalize_for_arithmetization() {
        return c.fail("finalize", format!("{e:?}"));
    }
    let r = cs.check_circuit_satisfiability(&p.pis());
    c.check(r.is_ok(), "honest_refused_after_finishing", || format!("{r:?}"));
    let got = c.ok(cs.public_input(), "public_input").unwrap_or_default();
    c.eq(&got, &p.pis(), "public_input_value_after_finishing");
    let sys = match Sys::of_final(&cs) {
        Ok(s) => s,
        Err(e) => return c.fail("arithmetization", e),
    };
    let u = sys.unsatisfied(&p.wit, &p.pis());
    c.check(u.is_none(), "honest_refused_by_polynomials", || format!("{u:?}"));
    c.ev("honest");
    for _ in 0..6 {
        let (wit, pis) = p.tamper(c);
        let want = !p.broken(&wit, &pis);
        let got = is_ok(p.with(&wit).check_circuit_satisfiability(&pis));
        c.check(got == want, if want { "satisfied_refused" } else { "unsatisfied_accepted" }, || format!("{:?}", p.cons));
        let mut fin = cs.clone();
        for (v, x) in wit.iter().enumerate() {
            *fin.witness_mut(v) = *x;
        }
        let got = is_ok(fin.check_circuit_satisfiability(&pis));
        c.check(got == want, if want { "satisfied_refused_after_finishing" } else { "unsatisfied_accepted_after_finishing" }, || {
            format!("{:?}", p.cons)
        });
        let got = sys.unsatisfied(&wit, &pis).is_none();
        c.check(got == want, if want { "satisfied_refused_by_polynomials" } else { "unsatisfied_accepted_by_polynomials" }, || {
            format!("{:?}", p.cons)
        });
        c.ev(if want { "satisfied" } else { "unsatisfied" });
    }
    // wrong number of public inputs
    for extra in [0, 1] {
        let mut pis = p.pis();
        if extra == 1 {
            pis.push(F::zero());
        } else if pis.pop().is_none() {
            continue;
        }
        for k in [&p.cs, &cs] {
            let r = guard(|| is_ok(k.check_circuit_satisfiability(&pis)));
            c.check(r == Ok(false), "wrong_number_of_inputs", || format!("{r:?}"));
        }
    }
    // a finished circuit is closed
    let before = (cs.num_gates(), cs.num_vars(), cs.num_inputs());
    let mut refused = cs.create_variable(F::one()).is_err();
    refused &= cs.set_variable_public(1).is_err();
    refused &= cs.add(0, 1).is_err();
    refused &= cs.enforce_equal(0, 0).is_err();
    refused &= cs.create_public_variable(F::one()).is_err();
    refused &= cs.create_constant_variable(F::one()).is_err();
    if ultra {
        refused &= cs.add_range_check_variable(0).is_err();
        refused &= cs.create_table_and_lookup_variables(&[(0, 0, 0)], &[(0, 0)]).is_err();
    }
    c.check(refused, "finished_circuit_changed", || "a change was accepted".to_string());
    c.check(cs.finalize_for_arithmetization().is_ok(), "finalize_twice", || String::new());
    c.eq(&(cs.num_gates(), cs.num_vars(), cs.num_inputs()), &before, "finished_circuit_grew");
    c.key((ultra, cs.num_gates(), p.inputs.len(), p.tables.len(), p.cons.len()));
    c.sample(|| format!("{} demands, {} inputs, {} tables, {} slots", p.cons.len(), p.inputs.len(), p.tables.len(), sys.n));
}

/// Whether the lookup argument closes on these values, in the terms of the
/// polynomials that a verifier sees.
fn argument_closes<F: PrimeField>(c: &mut Case, sys: &Sys<F>, cs: &PlonkCircuit<F>, wit: &[F]) -> Result<bool, String> {
    let l = sys.lookup.as_ref().unwrap();
    let n = sys.n;
    let d = Radix2EvaluationDomain::<F>::new(n).unwrap();
    let (tau, beta, gamma): (F, F, F) = (gen::rand_field(c), gen::rand_field(c), gen::rand_field(c));
    let err = |e| format!("{e:?}");
    let table = cs.compute_merged_lookup_table(tau).map_err(err)?;
    let Ok((sorted, h1, h2)) = cs.compute_lookup_sorted_vec_polynomials(tau, &table) else { return Ok(false) };
    let z = cs.compute_lookup_prod_polynomial(&tau, &beta, &gamma, &table, &sorted).map_err(err)?;
    let (h1, h2, z) = (evals(&d, &h1.coeffs), evals(&d, &h2.coeffs), evals(&d, &z.coeffs));
    let fold = |q: F, dom: F, key: F, a: F, b: F| q * tau * (dom + tau * (key + tau * (a + tau * b)));
    let f = |j: usize| {
        let r = &sys.rows[j];
        wit[l.rv[j]] + fold(l.q[j], l.q_dom[j], wit[r.w[0]], wit[r.w[1]], wit[r.w[2]])
    };
    let t = |j: usize| {
        let r = &sys.rows[j];
        l.range[j] + fold(l.q[j], l.t_dom[j], l.t_key[j], wit[r.w[3]], wit[r.w[4]])
    };
    for j in 0..n {
        if table[j] != t(j) {
            return Err(format!("merged table differs at {j}"));
        }
    }
    let b1 = F::one() + beta;
    let g = gamma * b1;
    let mut ok = z[0].is_one() && z[n - 1].is_one() && h1[n - 1] == h2[0];
    for j in 0..n - 1 {
        let lhs = z[j] * b1 * (gamma + f(j)) * (g + t(j) + beta * t(j + 1));
        let rhs = z[j + 1] * (g + h1[j] + beta * h1[j + 1]) * (g + h2[j] + beta * h2[j + 1]);
        ok &= lhs == rhs;
    }
    Ok(ok)
}

/// Range and table lookups: the proved argument holds exactly when every
/// looked-up value is where it must be.
pub fn lookups<F: PrimeField>(c: &mut Case) {
    let mut s = shape(c, true);
    s.ops = if c.coin() { c.range(1, 12) } else { c.range(10, 60) };
    s.tables = true;
    let mut p = Prog::<F>::random(c, s);
    if c.below(3) == 0 {
        // public inputs declared after the tables
        for _ in 0..c.range(1, 12) {
            let v = if c.coin() { c.below(p.wit.len()) } else { let x = gen::field(c); p.var(x) };
            p.publish(v);
        }
    }
    if c.below(4) == 0 {
        p.table(c);
    }
    if c.idx % 60 == 7 {
        let (n, m) = (c.range(200, 700), c.range(1, 12));
        p.table_of(c, n, m);
        c.ev("wide table");
    }
    let mut cs = p.cs.clone();
    if let Err(e) = cs.finalize_for_arithmetization() {
        return c.fail("finalize", format!("{e:?}"));
    }
    let sys = match Sys::of_final(&cs) {
        Ok(s) => s,
        Err(e) => return c.fail("arithmetization", e),
    };
    let desc = |p: &Prog<F>| {
        let k: Vec<String> = p.cons.iter().map(|k| match k {
            Con::Row(_) | Con::Built(_) => ".".to_string(),
            Con::Input(_) => "i".to_string(),
            Con::Range(_) => "r".to_string(),
            Con::Lookup(t, ..) => format!("t{t}"),
        }).collect();
        k.concat()
    };
    match argument_closes(c, &sys, &cs, &p.wit) {
        Ok(ok) => {
            c.check(ok, "honest_lookups_refused", || desc(&p));
        },
        Err(e) => c.fail("lookup_polynomials", e),
    }
    c.ev("honest");
    for _ in 0..6 {
        let (mut wit, pis) = p.tamper(c);
        // the constants also fill the unused places of the argument
        (wit[0], wit[1]) = (F::zero(), F::one());
        let want = !p.broken_lookups(&wit);
        if !p.broken_rows(&wit, &pis) {
            let got = p.with(&wit).check_circuit_satisfiability(&pis).is_ok();
            c.check(got == want, "reported_satisfiability", || desc(&p));
        }
        let mut fin = cs.clone();
        for (v, x) in wit.iter().enumerate() {
            *fin.witness_mut(v) = *x;
        }
        match argument_closes(c, &sys, &fin, &wit) {
            Ok(ok) => {
                c.check(ok == want, if want { "true_lookups_refused" } else { "false_lookups_accepted" }, || desc(&p));
            },
            Err(e) => c.fail("lookup_polynomials", e),
        }
        c.ev(if want { "lookups_hold" } else { "lookups_broken" });
    }
    c.key((sys.n, p.tables.len(), p.inputs.len(), p.cs.num_gates()));
    c.sample(|| format!("{} in {} slots", desc(&p), sys.n));
}

fn row_key<F: PrimeField>(r: &Row<F>) -> (Vec<F>, [usize; 5]) {
    let mut v: Vec<F> = r.lc.iter().chain(&r.mul).chain(&r.hash).copied().collect();
    v.extend([r.o, r.c, r.ecc]);
    (v, r.w)
}

/// Checks the copy constraints: one cycle per variable.
fn cycles<F: PrimeField>(c: &mut Case, cs: &PlonkCircuit<F>, sys: &Sys<F>) {
    let perm = match permutation(cs) {
        Ok(p) => p,
        Err(e) => return c.fail("permutation", e),
    };
    let n = sys.n;
    let d = Radix2EvaluationDomain::<F>::new(n).unwrap();
    let nw = perm.len();
    let k: Vec<F> = compute_coset_representatives(nw, Some(n));
    let mut place: HashMap<F, (usize, usize)> = HashMap::new();
    for (i, k) in k.iter().enumerate() {
        for (j, g) in d.elements().enumerate() {
            place.insert(*k * g, (i, j));
        }
    }
    if !c.check(place.len() == nw * n, "cosets_overlap", || format!("{nw} wires of {n}")) {
        return;
    }
    let var = |i: usize, j: usize| if i == 5 { sys.lookup.as_ref().unwrap().rv[j] } else { sys.rows[j].w[i] };
    let mut size: HashMap<usize, usize> = HashMap::new();
    for i in 0..nw {
        for j in 0..n {
            *size.entry(var(i, j)).or_default() += 1;
        }
    }
    let mut seen = vec![vec![false; n]; nw];
    for i in 0..nw {
        for j in 0..n {
            if seen[i][j] {
                continue;
            }
            let v = var(i, j);
            let (mut a, mut b, mut len) = (i, j, 0);
            loop {
                if seen[a][b] {
                    break;
                }
                seen[a][b] = true;
                len += 1;
                if var(a, b) != v {
                    return c.fail("cycle_mixes_variables", format!("wire {a} of row {b}"));
                }
                match place.get(&perm[a][b]) {
                    Some((x, y)) => (a, b) = (*x, *y),
                    None => return c.fail("permutation_value", format!("wire {a} of row {b}")),
                }
            }
            if !c.check((a, b) == (i, j) && len == size[&v], "copy_constraint_missing", || {
                format!("variable {v}: {len} of {} wires in one cycle", size[&v])
            }) {
                return;
            }
        }
    }
    c.ev_n("cycles", size.len() as u64);
}

fn product<F: PrimeField>(c: &mut Case, cs: &PlonkCircuit<F>, sys: &Sys<F>, wit: &[F]) {
    let n = sys.n;
    let d = Radix2EvaluationDomain::<F>::new(n).unwrap();
    let (beta, gamma): (F, F) = (gen::rand_field(c), gen::rand_field(c));
    let Some(z) = c.ok(cs.compute_prod_permutation_polynomial(&beta, &gamma), "product_polynomial") else { return };
    let z = evals(&d, &z.coeffs);
    let perm = permutation(cs).unwrap();
    let k: Vec<F> = compute_coset_representatives(perm.len(), Some(n));
    let g: Vec<F> = d.elements().collect();
    let mut ok = z[0].is_one();
    for j in 0..n {
        let (mut a, mut b) = (z[j], z[(j + 1) % n]);
        for i in 0..perm.len() {
            let v = if i == 5 { sys.lookup.as_ref().unwrap().rv[j] } else { sys.rows[j].w[i] };
            a *= wit[v] + beta * k[i] * g[j] + gamma;
            b *= wit[v] + beta * perm[i][j] + gamma;
        }
        ok &= a == b;
    }
    c.check(ok, "product_does_not_close", || format!("{n} rows"));
}

/// The polynomials handed to the prover say what the program says.
pub fn arithmetization<F: PrimeField>(c: &mut Case) {
    let ultra = c.coin();
    let s = shape(c, ultra);
    let p = Prog::<F>::random(c, s);
    let mut cs = p.cs.clone();
    let early = guard(|| {
        cs.compute_selector_polynomials().is_err()
            && cs.compute_wire_polynomials().is_err()
            && cs.compute_extended_permutation_polynomials().is_err()
            && cs.compute_pub_input_polynomial().is_err()
            && cs.eval_domain_size().is_err()
    });
    c.check(early == Ok(true), "unfinished_circuit_arithmetized", || format!("{early:?}"));
    if let Err(e) = cs.finalize_for_arithmetization() {
        return c.fail("finalize", format!("{e:?}"));
    }
    let sys = match Sys::of_final(&cs) {
        Ok(s) => s,
        Err(e) => return c.fail("arithmetization", e),
    };
    c.check(sys.n.is_power_of_two() && sys.n >= p.cs.num_gates(), "domain_size", || format!("{}", sys.n));
    c.eq(&cs.srs_size().unwrap_or(0), &(sys.n + 2), "srs_size");
    // rows: the gates of the program, in some order, and no stray ones
    let mut want: HashMap<_, isize> = HashMap::new();
    for con in &p.cons {
        if let Con::Row(r) = con {
            *want.entry(row_key(r)).or_default() += 1;
        }
    }
    let built = p.cons.iter().filter(|k| matches!(k, Con::Built(_))).count();
    let mut live = 0;
    let dead = |r: &Row<F>| row_key(r).0.iter().all(|x| x.is_zero());
    for (j, r) in sys.rows.iter().enumerate() {
        if j < p.inputs.len() {
            let io = Row { o: F::one(), ..r.clone() };
            let plain = io.lc.iter().chain(&io.mul).chain(&io.hash).chain([&io.c, &io.ecc]).all(|x| x.is_zero());
            c.check(plain && r.o.is_one() && r.w[4] == p.inputs[j], "input_row", || format!("row {j}: {r:?}"));
        } else if !dead(r) {
            live += 1;
            if let Some(k) = want.get_mut(&row_key(r)) {
                *k -= 1;
            }
        }
    }
    // gates without any selector demand nothing
    want.retain(|(v, _), _| v.iter().any(|x| !x.is_zero()));
    let asked: isize = p.cons.iter().filter(|k| matches!(k, Con::Row(r) if !dead(r))).count() as isize;
    c.check(live <= asked + built as isize, "stray_rows", || format!("{live} rows for {asked} gates and {built} built-in ones"));
    want.retain(|_, k| *k > 0);
    c.check(want.is_empty(), "rows_differ", || format!("{} kinds of rows, e.g. {:?}", want.len(), want.iter().next()));
    // public inputs and wires interpolate
    let d = Radix2EvaluationDomain::<F>::new(sys.n).unwrap();
    if let Some(poly) = c.ok(cs.compute_pub_input_polynomial(), "input_polynomial") {
        let mut e = vec![F::zero(); sys.n];
        for (i, x) in p.pis().iter().enumerate() {
            e[i] = *x;
        }
        c.eq(&evals(&d, &poly.coeffs), &e, "input_polynomial_value");
    }
    if let Some(polys) = c.ok(cs.compute_wire_polynomials(), "wire_polynomials") {
        let j = c.below(sys.n);
        let at = d.element(j);
        for (i, poly) in polys.iter().enumerate() {
            let v = if i == 5 { sys.lookup.as_ref().unwrap().rv[j] } else { sys.rows[j].w[i] };
            c.eq(&poly.evaluate(&at), &p.wit[v], "wire_polynomial_value");
        }
    }
    cycles(c, &cs, &sys);
    product(c, &cs, &sys, &p.wit);
    c.key((ultra, sys.n, p.cons.len(), p.inputs.len()));
    c.ev("circuits");
    c.sample(|| format!("{} demands in {} slots, ultra {ultra}", p.cons.len(), sys.n));
}

/// Merging a first and a second half.
pub fn merging<F: PrimeField>(c: &mut Case) {
    let ins = c.range(1, 5);
    let size = c.range(3, 30);
    let make = |c: &mut Case| {
        let mut p = Prog::<F>::new(None);
        let mut left = ins;
        for _ in 0..size {
            if left > 0 && c.below(3) == 0 {
                let v = if c.coin() { c.below(p.wit.len()) } else { let x = gen::field(c); p.var(x) };
                p.publish(v);
                left -= 1;
            } else {
                p.gate(c);
            }
        }
        for _ in 0..left {
            let v = c.below(p.wit.len());
            p.publish(v);
        }
        p
    };
    let (p, q) = (make(c), make(c));
    let (mut a, mut b) = (p.cs.clone(), q.cs.clone());
    for (x, t) in [(&mut a, MergeableCircuitType::TypeA), (&mut b, MergeableCircuitType::TypeB)] {
        if let Err(e) = x.finalize_for_mergeable_circuit(t) {
            return c.fail("finalize_mergeable", format!("{e:?}"));
        }
    }
    for (x, k) in [(&a, &p), (&b, &q)] {
        let r = x.check_circuit_satisfiability(&k.pis());
        c.check(r.is_ok(), "mergeable_half_refused", || format!("{r:?}"));
        c.eq(&x.public_input().unwrap(), &k.pis(), "mergeable_half_inputs");
    }
    // halves of the same kind or of different sizes do not merge
    for (x, y) in [(&a, &a), (&b, &b), (&b, &a)] {
        let r = guard(|| x.merge(y).is_err());
        c.check(r == Ok(true), "wrong_halves_merged", || format!("{r:?}"));
    }
    let m = match a.merge(&b) {
        Ok(m) => m,
        Err(e) => {
            let same = a.eval_domain_size().unwrap() == b.eval_domain_size().unwrap();
            c.check(!same, "merge", || format!("{e:?}"));
            c.ev("sizes_differ");
            return;
        },
    };
    let pis = [p.pis(), q.pis()].concat();
    c.eq(&m.public_input().unwrap(), &pis, "merged_inputs");
    let r = m.check_circuit_satisfiability(&pis);
    c.check(r.is_ok(), "merged_refused", || format!("{r:?}"));
    let mut sys = match Sys::of_final(&m) {
        Ok(s) => s,
        Err(e) => return c.fail("arithmetization", e),
    };
    sys.pi_at = (0..ins).chain((0..ins).map(|i| sys.n - 1 - i)).collect();
    let wit = [p.wit.clone(), q.wit.clone()].concat();
    c.eq(&circ::witness(&m), &wit, "merged_witness");
    let u = sys.unsatisfied(&wit, &pis);
    c.check(u.is_none(), "merged_refused_by_polynomials", || format!("{u:?}"));
    let d = Radix2EvaluationDomain::<F>::new(sys.n).unwrap();
    let mut e = vec![F::zero(); sys.n];
    for (i, at) in sys.pi_at.iter().enumerate() {
        e[*at] = pis[i];
    }
    c.eq(&evals(&d, &m.compute_pub_input_polynomial().unwrap().coeffs), &e, "merged_input_polynomial");
    cycles(c, &m, &sys);
    product(c, &m, &sys, &wit);
    // verifying keys of merged circuits are sums of the keys of the halves
    let sum = |x: Vec<ark_poly::univariate::DensePolynomial<F>>, y: Vec<ark_poly::univariate::DensePolynomial<F>>| {
        x.iter().zip(&y).map(|(x, y)| x + y).collect::<Vec<_>>()
    };
    let s = sum(a.compute_selector_polynomials().unwrap(), b.compute_selector_polynomials().unwrap());
    c.check(s == m.compute_selector_polynomials().unwrap(), "merged_selectors", || String::new());
    let s = sum(a.compute_extended_permutation_polynomials().unwrap(), b.compute_extended_permutation_polynomials().unwrap());
    c.check(s == m.compute_extended_permutation_polynomials().unwrap(), "merged_permutation", || String::new());
    for _ in 0..4 {
        let (w1, p1) = p.tamper(c);
        let (w2, p2) = if c.coin() { (q.wit.clone(), q.pis()) } else { q.tamper(c) };
        let want = !p.broken(&w1, &p1) && !q.broken(&w2, &p2);
        let wit = [w1, w2].concat();
        let mut t = m.clone();
        for (v, x) in wit.iter().enumerate() {
            *t.witness_mut(v) = *x;
        }
        let pis = [p1, p2].concat();
        let got = t.check_circuit_satisfiability(&pis).is_ok();
        c.check(got == want, if want { "merged_satisfied_refused" } else { "merged_unsatisfied_accepted" }, || String::new());
        let got = sys.unsatisfied(&wit, &pis).is_none();
        c.check(got == want, "merged_polynomials_disagree", || format!("want {want}"));
        c.ev(if want { "satisfied" } else { "unsatisfied" });
    }
    c.key((sys.n, ins, p.cons.len(), q.cons.len()));
}
