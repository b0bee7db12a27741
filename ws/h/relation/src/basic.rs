//! R02: arithmetic, logic, comparison and range gadgets against plain integer
//! arithmetic, with rigidity and forgery monitors on every finished circuit.

use ark_ff::PrimeField;
use circ::{bound, Sys};
use jf_relation::{BoolVar, Circuit, CircuitError, PlonkCircuit, Variable};
use num_bigint::BigUint;
use std::collections::HashMap;
use vh::{gen, guard, Case, Rng};

pub type R<T> = Result<T, CircuitError>;

pub fn new_circuit<F: PrimeField>(c: &mut Case) -> PlonkCircuit<F> {
    if c.coin() {
        PlonkCircuit::new_turbo_plonk()
    } else {
        let r = c.range(2, 9);
        PlonkCircuit::new_ultra_plonk(r)
    }
}

/// Puts unrelated variables, gates and public inputs in front, so that the
/// gadget does not start at a fixed offset.
pub fn noise<F: PrimeField>(c: &mut Case, cs: &mut PlonkCircuit<F>) {
    for _ in 0..c.below(4) {
        let x = cs.create_variable(gen::rand_field(c)).unwrap();
        match c.below(3) {
            0 => cs.set_variable_public(x).unwrap(),
            1 => {
                cs.add(x, x).unwrap();
            },
            _ => {},
        }
    }
}

/// An input as a plain, constant or public variable, or as one that is already
/// there and has the value.
pub fn input<F: PrimeField>(c: &mut Case, cs: &mut PlonkCircuit<F>, x: F) -> Variable {
    if c.coin() {
        let there: Vec<_> = (0..cs.num_vars()).filter(|v| cs.witness(*v).ok() == Some(x)).collect();
        if !there.is_empty() {
            c.ev("input_met_before");
            return c.pick(&there);
        }
    }
    match c.below(6) {
        0 => cs.create_constant_variable(x).unwrap(),
        1 => cs.create_public_variable(x).unwrap(),
        _ => cs.create_variable(x).unwrap(),
    }
}

/// A truth value, sometimes one that is already there.
fn boolean<F: PrimeField>(c: &mut Case, cs: &mut PlonkCircuit<F>, x: bool, before: &[(bool, BoolVar)]) -> BoolVar {
    let mut there: Vec<BoolVar> = before.iter().filter(|(y, _)| *y == x).map(|(_, v)| *v).collect();
    there.push(if x { cs.true_var() } else { cs.false_var() });
    if c.below(3) == 0 {
        c.pick(&there)
    } else {
        cs.create_boolean_variable(x).unwrap()
    }
}

fn booleans<F: PrimeField>(c: &mut Case, cs: &mut PlonkCircuit<F>, xs: &[bool]) -> Vec<BoolVar> {
    let mut v: Vec<(bool, BoolVar)> = vec![];
    for x in xs {
        let b = boolean(c, cs, *x, &v);
        v.push((*x, b));
    }
    v.into_iter().map(|(_, b)| b).collect()
}

/// Values, repeated as often as not.
fn with_repeats<F: PrimeField>(c: &mut Case, n: usize) -> Vec<F> {
    let v: Vec<F> = gen::fields(c, n);
    if n == 0 || c.coin() {
        return v;
    }
    (0..n)
        .map(|i| match c.below(6) {
            0 => F::zero(),
            1 => F::one(),
            2 | 3 => v[c.below(n)],
            _ => v[i],
        })
        .collect()
}

fn cmp_pair<F: PrimeField>(c: &mut Case) -> (F, F) {
    if c.below(4) == 0 {
        // a run of equal bits at the end, and a change next to where it starts
        let nbits = F::MODULUS_BIT_SIZE as usize;
        let k = c.below(nbits);
        let low = (BigUint::from(1u8) << k) - 1u8;
        let mut x = gen::int(&gen::field::<F>(c)) | &low;
        if c.coin() {
            x ^= low;
        }
        let at = (k + c.below(3)).saturating_sub(1).min(nbits - 1);
        let y = &x ^ (BigUint::from(1u8) << at);
        let (x, y) = (gen::from_int::<F>(&x), gen::from_int::<F>(&y));
        return match c.below(3) {
            0 => (y, x),
            1 => (x, x),
            _ => (x, y),
        };
    }
    let a: F = match c.below(8) {
        0 => F::zero(),
        1 => F::one(),
        _ => gen::field(c),
    };
    let b = match c.below(5) {
        0 => a,
        1 => a + F::one(),
        2 => a - F::one(),
        3 => {
            // around the middle of the field, where the comparison changes hands
            let h = F::from(F::MODULUS_MINUS_ONE_DIV_TWO);
            h + F::from(c.below(3) as u64) - F::one()
        },
        _ => gen::field(c),
    };
    if c.coin() {
        (a, b)
    } else {
        (b, a)
    }
}

/// Coefficients, zero or one as often as not.
fn coefficients<F: PrimeField>(c: &mut Case, n: usize) -> Vec<F> {
    let sparse = c.coin();
    (0..n)
        .map(|_| match c.below(4) {
            0 | 1 if sparse => F::zero(),
            2 if sparse => F::one(),
            _ => gen::field(c),
        })
        .collect()
}

fn some_bits<F: PrimeField>(c: &mut Case, bits: usize) -> F {
    let x: BigUint = gen::int(&gen::rand_field::<F>(c)) & ((BigUint::from(1u8) << bits) - 1u8);
    match c.below(8) {
        0 => F::from((BigUint::from(1u8) << bits) - 1u8),
        1 => gen::from_int(&(BigUint::from(1u8) << bits)),
        2 => F::zero(),
        3 => F::from(x.clone()) + gen::from_int::<F>(&(BigUint::from(1u8) << bits)),
        // one bit too many, anywhere above, often the last
        6 | 7 => {
            let top = F::MODULUS_BIT_SIZE as usize - 1;
            let k = if c.coin() { top } else { c.range(bits.min(top), top) };
            gen::from_int::<F>(&((x >> 2) + (BigUint::from(1u8) << k)))
        },
        _ => F::from(x),
    }
}

/// Satisfied with the honest assignment, and outputs bound to inputs.
pub fn holds<F: PrimeField>(
    c: &mut Case,
    cs: &PlonkCircuit<F>,
    inputs: &[Variable],
    outputs: &[Variable],
    name: &str,
) {
    let pis = cs.public_input().unwrap();
    if let Err(e) = cs.check_circuit_satisfiability(&pis) {
        c.fail(&format!("{name}_complete"), format!("honest assignment refused: {e:?}"));
        return;
    }
    c.ev("satisfied");
    let held: Vec<Variable> = inputs.iter().copied().chain([cs.zero(), cs.one()]).collect();
    bound(c, cs, &held, outputs, name);
}

/// A false claim: refused while building, or unsatisfied and not repairable by
/// other values of the helper variables.
pub fn refused<F: PrimeField>(
    c: &mut Case,
    cs: &PlonkCircuit<F>,
    inputs: &[Variable],
    built: Result<R<()>, String>,
    name: &str,
) {
    match built {
        Err(e) => c.fail(&format!("{name}_panic"), e),
        Ok(Err(_)) => c.ev("claim_refused_when_built"),
        Ok(Ok(())) => {
            let pis = cs.public_input().unwrap();
            if cs.check_circuit_satisfiability(&pis).is_ok() {
                c.fail(&format!("{name}_sound"), "false claim satisfied".to_string());
                return;
            }
            c.ev("claim_unsatisfied");
            match Sys::new(cs) {
                Err(e) => c.fail(&format!("{name}_final"), e),
                Ok(sys) => {
                    let wit = circ::witness(cs);
                    c.check(sys.unsatisfied(&wit, &pis).is_some(), &format!("{name}_sound"), || {
                        "false claim satisfied after finishing".to_string()
                    });
                    let set: Vec<_> = inputs.iter().map(|v| (*v, wit[*v])).collect();
                    let got = sys.forge(&wit, &pis, &set, &HashMap::new());
                    c.check(got.is_none(), &format!("{name}_forged"), || "false claim forged".to_string());
                    c.ev("forgery");
                },
            }
        },
    }
}

const VALUE_OPS: &[&str] = &[
    "add", "sub", "mul", "lc", "mul_add", "sum", "add_constant", "mul_constant", "power_11", "gen_quad_poly",
    "is_equal", "is_zero", "logic_neg", "logic_and", "logic_and_all", "logic_or", "conditional_select", "is_lt",
    "is_leq", "is_gt", "is_geq", "is_lt_constant", "is_leq_constant", "is_gt_constant", "is_geq_constant",
    "is_in_range", "unpack", "truncate",
];

fn bit<F: PrimeField>(b: bool) -> F {
    F::from(b as u64)
}

/// Runs one gadget that returns variables and compares with the model.
pub fn value_op<F: PrimeField>(c: &mut Case) {
    let name = VALUE_OPS[c.idx as usize % VALUE_OPS.len()];
    let mut cs: PlonkCircuit<F> = new_circuit(c);
    if name == "truncate" && !cs.support_lookup() {
        cs = PlonkCircuit::new_ultra_plonk(c.range(2, 9));
    }
    noise(c, &mut cs);
    let nbits = F::MODULUS_BIT_SIZE as usize;
    let (a, b): (F, F) = cmp_pair(c);
    let (ai, bi) = (gen::int(&a), gen::int(&b));
    let mut xs = vec![];
    let (va, vb) = (input(c, &mut cs, a), input(c, &mut cs, b));
    macro_rules! one {
        ($r:expr, $want:expr) => {{
            let want: F = $want;
            (guard(|| $r.map(|v| vec![Variable::from(v)])), vec![want])
        }};
    }
    let (got, want): (Result<R<Vec<Variable>>, String>, Vec<F>) = match name {
        "add" => one!(cs.add(va, vb), a + b),
        "sub" => one!(cs.sub(va, vb), a - b),
        "mul" => one!(cs.mul(va, vb), a * b),
        "lc" | "mul_add" | "gen_quad_poly" => {
            let v: Vec<F> = with_repeats(c, 4);
            let k: Vec<F> = coefficients(c, 7);
            let vars: Vec<_> = v.iter().map(|x| input(c, &mut cs, *x)).collect();
            let w = [vars[0], vars[1], vars[2], vars[3]];
            xs.extend(&vars);
            let lin = k[0] * v[0] + k[1] * v[1] + k[2] * v[2] + k[3] * v[3];
            let quad = k[4] * v[0] * v[1] + k[5] * v[2] * v[3];
            let (q_lc, q_mul) = ([k[0], k[1], k[2], k[3]], [k[4], k[5]]);
            match name {
                "lc" => one!(cs.lc(&w, &q_lc), lin),
                "mul_add" => one!(cs.mul_add(&w, &q_mul), quad),
                _ => one!(cs.gen_quad_poly(&w, &q_lc, &q_mul, k[6]), lin + quad + k[6]),
            }
        },
        "sum" => {
            let n = if c.below(4) == 0 { c.range(24, 70) } else { c.range(1, 23) };
            let v: Vec<F> = with_repeats(c, n);
            let vars: Vec<_> = v.iter().map(|x| input(c, &mut cs, *x)).collect();
            xs.extend(&vars);
            one!(cs.sum(&vars), v.iter().sum())
        },
        "add_constant" | "mul_constant" => {
            let k = if c.coin() { F::from(c.below(4) as u64) - F::one() } else { b };
            if name == "add_constant" {
                one!(cs.add_constant(va, &k), a + k)
            } else {
                one!(cs.mul_constant(va, &k), a * k)
            }
        },
        "power_11" => one!(cs.power_11_gen(va), a.pow([11u64])),
        "is_equal" => one!(cs.is_equal(va, vb), bit(a == b)),
        "is_zero" => {
            let z = if c.coin() { F::zero() } else { a };
            let v = input(c, &mut cs, z);
            xs.push(v);
            one!(cs.is_zero(v), bit(z.is_zero()))
        },
        "logic_neg" | "logic_and" | "logic_or" | "logic_and_all" | "conditional_select" => {
            let n = if name == "logic_and_all" { if c.coin() { c.range(1, 13) } else { c.range(14, 70) } } else { 2 };
            let mut bits: Vec<bool> = (0..n).map(|_| n > 2 || c.coin()).collect();
            if n > 2 {
                // rarely more than one false, often the last
                for _ in 0..c.below(3) {
                    let at = if c.coin() { n - 1 } else { c.below(n) };
                    bits[at] = false;
                }
            }
            let vars = booleans(c, &mut cs, &bits);
            xs.extend(vars.iter().map(|v| Variable::from(*v)));
            match name {
                "logic_neg" => one!(cs.logic_neg(vars[0]), bit(!bits[0])),
                "logic_and" => one!(cs.logic_and(vars[0], vars[1]), bit(bits[0] & bits[1])),
                "logic_or" => one!(cs.logic_or(vars[0], vars[1]), bit(bits[0] | bits[1])),
                "logic_and_all" => one!(cs.logic_and_all(&vars), bit(bits.iter().all(|x| *x))),
                _ => one!(cs.conditional_select(vars[0], va, vb), if bits[0] { b } else { a }),
            }
        },
        "is_lt" => one!(cs.is_lt(va, vb), bit(ai < bi)),
        "is_leq" => one!(cs.is_leq(va, vb), bit(ai <= bi)),
        "is_gt" => one!(cs.is_gt(va, vb), bit(ai > bi)),
        "is_geq" => one!(cs.is_geq(va, vb), bit(ai >= bi)),
        "is_lt_constant" => one!(cs.is_lt_constant(va, b), bit(ai < bi)),
        "is_leq_constant" => one!(cs.is_leq_constant(va, b), bit(ai <= bi)),
        "is_gt_constant" => one!(cs.is_gt_constant(va, b), bit(ai > bi)),
        "is_geq_constant" => one!(cs.is_geq_constant(va, b), bit(ai >= bi)),
        "is_in_range" => {
            let k = pick_bits(c, nbits);
            let x: F = some_bits(c, k);
            let v = input(c, &mut cs, x);
            xs.push(v);
            one!(cs.is_in_range(v, k), bit(gen::int(&x).bits() <= k as u64))
        },
        "unpack" => {
            let k = pick_bits(c, nbits);
            let x: F = some_bits(c, k);
            let x: F = gen::from_int(&(gen::int(&x) & ((BigUint::from(1u8) << k) - 1u8)));
            let xi = gen::int(&x);
            let v = input(c, &mut cs, x);
            xs.push(v);
            let got = guard(|| cs.unpack(v, k).map(|v| v.into_iter().map(Variable::from).collect::<Vec<_>>()));
            let want: Vec<F> = (0..k).map(|i| bit(xi.bit(i as u64))).collect();
            // the other integer that stands for the same element
            if let Ok(Ok(out)) = &got {
                let other = &xi + gen::modulus::<F>();
                if other.bits() <= k as u64 && out.len() == k {
                    let mut set = vec![(v, x)];
                    set.extend((0..k).map(|i| (out[i], bit(other.bit(i as u64)))));
                    let sys = Sys::new(&cs).unwrap();
                    let pis = cs.public_input().unwrap();
                    let got = sys.forge(&circ::witness(&cs), &pis, &set, &HashMap::new());
                    c.check(got.is_none(), "unpack_alias", || format!("{k} bits of {x} as {other}"));
                    c.ev("alias_tried");
                }
            }
            (got, want)
        },
        "truncate" => {
            let k = c.range(1, nbits - 1);
            let want = F::from(&ai & ((BigUint::from(1u8) << k) - 1u8));
            one!(cs.truncate(va, k), want)
        },
        _ => unreachable!(),
    };
    let out = match got {
        Err(e) => return c.fail(&format!("{name}_panic"), e),
        Ok(Err(e)) => return c.fail(&format!("{name}_error"), format!("{e:?}")),
        Ok(Ok(v)) => v,
    };
    let vals: Vec<F> = out.iter().map(|v| cs.witness(*v).unwrap()).collect();
    c.eq(&vals, &want, &format!("{name}_value"));
    c.ev("values_compared");
    xs.extend([va, vb]);
    holds(c, &cs, &xs, &out, name);
    c.key((name, ai.bits(), bi.bits(), cs.num_gates()));
    c.sample(|| format!("{name}({a}, {b}) in {} gates", cs.num_gates()));
}

fn pick_bits(c: &mut Case, nbits: usize) -> usize {
    match c.below(5) {
        0 => nbits,
        1 => nbits - 1,
        2 => c.range(1, 9),
        _ => c.range(1, nbits),
    }
}

const CLAIM_OPS: &[&str] = &[
    "enforce_constant", "enforce_equal", "enforce_bool", "add_gate", "sub_gate", "mul_gate", "quad_poly_gate",
    "lc_gate", "mul_add_gate", "add_constant_gate", "mul_constant_gate", "power_11_gate", "logic_or_gate",
    "non_zero_gate", "enforce_true", "enforce_false", "enforce_lt", "enforce_leq", "enforce_gt", "enforce_geq",
    "enforce_lt_constant", "enforce_leq_constant", "enforce_gt_constant", "enforce_geq_constant",
    "enforce_in_range", "truncate_gate",
];

/// Runs one gadget that only asserts, on a true or a false claim.
pub fn claim_op<F: PrimeField>(c: &mut Case) {
    let name = CLAIM_OPS[c.idx as usize % CLAIM_OPS.len()];
    let mut cs: PlonkCircuit<F> = new_circuit(c);
    if name == "truncate_gate" && !cs.support_lookup() {
        cs = PlonkCircuit::new_ultra_plonk(c.range(2, 9));
    }
    noise(c, &mut cs);
    let nbits = F::MODULUS_BIT_SIZE as usize;
    let (a, b): (F, F) = cmp_pair(c);
    let (ai, bi) = (gen::int(&a), gen::int(&b));
    let mut xs = vec![];
    let lie = c.coin();
    let off = |c: &mut Case, x: F| {
        if !lie {
            return x;
        }
        x + loop {
            let d: F = gen::field(c);
            if !d.is_zero() {
                break d;
            }
        }
    };
    let (va, vb) = (input(c, &mut cs, a), input(c, &mut cs, b));
    xs.extend([va, vb]);
    macro_rules! claim {
        ($r:expr, $truth:expr) => {{
            let t: bool = $truth;
            (guard(|| $r), t)
        }};
    }
    macro_rules! gate3 {
        ($f:ident, $v:expr) => {{
            let x = off(c, $v);
            let vc = input(c, &mut cs, x);
            xs.push(vc);
            claim!(cs.$f(va, vb, vc), x == $v)
        }};
    }
    let (built, truth): (Result<R<()>, String>, bool) = match name {
        "enforce_constant" => {
            let k = off(c, a);
            claim!(cs.enforce_constant(va, k), k == a)
        },
        "enforce_equal" => claim!(cs.enforce_equal(va, vb), a == b),
        "enforce_bool" => {
            let x = if lie { a } else { bit(c.coin()) };
            let v = input(c, &mut cs, x);
            xs.push(v);
            claim!(cs.enforce_bool(v), x.is_zero() || x.is_one())
        },
        "add_gate" => gate3!(add_gate, a + b),
        "sub_gate" => gate3!(sub_gate, a - b),
        "mul_gate" => gate3!(mul_gate, a * b),
        "add_constant_gate" | "mul_constant_gate" => {
            let k = if c.coin() { F::from(c.below(4) as u64) - F::one() } else { b };
            let right = if name == "add_constant_gate" { a + k } else { a * k };
            let x = off(c, right);
            let v = input(c, &mut cs, x);
            xs.push(v);
            if name == "add_constant_gate" {
                claim!(cs.add_constant_gate(va, k, v), x == right)
            } else {
                claim!(cs.mul_constant_gate(va, k, v), x == right)
            }
        },
        "power_11_gate" => {
            let x = off(c, a.pow([11u64]));
            let v = input(c, &mut cs, x);
            xs.push(v);
            claim!(cs.power_11_gate(va, v), x == a.pow([11u64]))
        },
        "quad_poly_gate" | "lc_gate" | "mul_add_gate" => {
            let v: Vec<F> = with_repeats(c, 4);
            let k: Vec<F> = coefficients(c, 8);
            let vars: Vec<_> = v.iter().map(|x| input(c, &mut cs, *x)).collect();
            xs.extend(&vars);
            let lin = k[0] * v[0] + k[1] * v[1] + k[2] * v[2] + k[3] * v[3];
            let quad = k[4] * v[0] * v[1] + k[5] * v[2] * v[3];
            let o = if name == "quad_poly_gate" { k[7] } else { F::one() };
            let rhs = match name {
                "quad_poly_gate" => lin + quad + k[6],
                "lc_gate" => lin,
                _ => quad,
            };
            let right = o.inverse().map(|i| rhs * i).unwrap_or(a);
            let y = off(c, right);
            let vy = input(c, &mut cs, y);
            xs.push(vy);
            let w = [vars[0], vars[1], vars[2], vars[3], vy];
            let (q_lc, q_mul) = ([k[0], k[1], k[2], k[3]], [k[4], k[5]]);
            let t = o * y == rhs;
            match name {
                "quad_poly_gate" => claim!(cs.quad_poly_gate(&w, &q_lc, &q_mul, o, k[6]), t),
                "lc_gate" => claim!(cs.lc_gate(&w, &q_lc), t),
                _ => claim!(cs.mul_add_gate(&w, &q_mul), t),
            }
        },
        "logic_or_gate" => {
            let (p, q) = (c.coin(), c.coin());
            let (p, q) = if lie { (false, false) } else { (p, q) };
            let v = booleans(c, &mut cs, &[p, q]);
            let (vp, vq) = (v[0], v[1]);
            xs.extend([Variable::from(vp), Variable::from(vq)]);
            claim!(cs.logic_or_gate(vp, vq), p || q)
        },
        "non_zero_gate" => {
            let x = if lie { F::zero() } else { a };
            let v = input(c, &mut cs, x);
            xs.push(v);
            claim!(cs.non_zero_gate(v), !x.is_zero())
        },
        "enforce_true" | "enforce_false" => {
            let want: F = bit(name == "enforce_true");
            let x = off(c, want);
            let v = input(c, &mut cs, x);
            xs.push(v);
            if name == "enforce_true" {
                claim!(cs.enforce_true(v), x == want)
            } else {
                claim!(cs.enforce_false(v), x == want)
            }
        },
        "enforce_lt" => claim!(cs.enforce_lt(va, vb), ai < bi),
        "enforce_leq" => claim!(cs.enforce_leq(va, vb), ai <= bi),
        "enforce_gt" => claim!(cs.enforce_gt(va, vb), ai > bi),
        "enforce_geq" => claim!(cs.enforce_geq(va, vb), ai >= bi),
        "enforce_lt_constant" => claim!(cs.enforce_lt_constant(va, b), ai < bi),
        "enforce_leq_constant" => claim!(cs.enforce_leq_constant(va, b), ai <= bi),
        "enforce_gt_constant" => claim!(cs.enforce_gt_constant(va, b), ai > bi),
        "enforce_geq_constant" => claim!(cs.enforce_geq_constant(va, b), ai >= bi),
        "enforce_in_range" => {
            let k = pick_bits(c, nbits);
            let x: F = some_bits(c, k);
            let v = input(c, &mut cs, x);
            xs.push(v);
            claim!(cs.enforce_in_range(v, k), gen::int(&x).bits() <= k as u64)
        },
        "truncate_gate" => {
            let k = c.range(1, nbits - 1);
            let low = &ai & ((BigUint::from(1u8) << k) - 1u8);
            // a false remainder, most often one that still fits
            let r = match c.below(4) {
                _ if !lie => low.clone(),
                0 => &low >> 1u32,
                1 => gen::int(&some_bits::<F>(c, k)),
                2 => &low + 1u8,
                _ => gen::int(&gen::field::<F>(c)) & ((BigUint::from(1u8) << k) - 1u8),
            };
            let x: F = gen::from_int(&r);
            let v = input(c, &mut cs, x);
            xs.push(v);
            claim!(cs.truncate_gate(va, v, k), r == low)
        },
        _ => unreachable!(),
    };
    if truth {
        match built {
            Err(e) => return c.fail(&format!("{name}_panic"), e),
            Ok(Err(e)) => return c.fail(&format!("{name}_error"), format!("{e:?}")),
            Ok(Ok(())) => holds(c, &cs, &xs, &[], name),
        }
        c.ev("true_claims");
    } else {
        refused(c, &cs, &xs, built, name);
        c.ev("false_claims");
    }
    c.key((name, truth, ai.bits(), bi.bits()));
    c.sample(|| format!("{name} {truth} on {a}, {b}"));
}

/// Variables that do not exist are refused by every gadget.
pub fn out_of_bounds<F: PrimeField>(c: &mut Case) {
    let mut cs: PlonkCircuit<F> = new_circuit(c);
    noise(c, &mut cs);
    let x = cs.create_variable(F::from(3u64)).unwrap();
    let t = cs.create_boolean_variable(true).unwrap();
    let bad = cs.num_vars() + c.below(3) as usize;
    // a boolean of another, larger circuit
    let mut other: PlonkCircuit<F> = PlonkCircuit::new_turbo_plonk();
    while other.num_vars() < bad {
        other.create_variable(F::zero()).unwrap();
    }
    let bb = other.create_boolean_variable(true).unwrap();
    assert_eq!(Variable::from(bb), bad);
    let gates = cs.num_gates();
    let z = F::zero();
    let mut tried = 0u64;
    macro_rules! refuses {
        ($($name:literal: $e:expr),* $(,)?) => {{ $(
            match guard(|| $e.is_err()) {
                Ok(true) => tried += 1,
                Ok(false) => c.fail("oob_accepted", format!("{} accepted variable {bad}", $name)),
                Err(e) => c.fail("oob_panic", format!("{}: {e}", $name)),
            }
        )* }};
    }
    refuses!(
        "add": cs.add(x, bad), "sub": cs.sub(bad, x), "mul": cs.mul(x, bad),
        "add_gate": cs.add_gate(x, x, bad), "sub_gate": cs.sub_gate(x, bad, x), "mul_gate": cs.mul_gate(bad, x, x),
        "enforce_constant": cs.enforce_constant(bad, z), "enforce_bool": cs.enforce_bool(bad),
        "enforce_equal": cs.enforce_equal(x, bad), "lc": cs.lc(&[x, x, bad, x], &[z, z, z, z]),
        "mul_add": cs.mul_add(&[x, x, x, bad], &[z, z]), "sum": cs.sum(&[x, bad]),
        "add_constant": cs.add_constant(bad, &z), "mul_constant": cs.mul_constant(bad, &z),
        "is_equal": cs.is_equal(x, bad), "is_zero": cs.is_zero(bad), "non_zero": cs.non_zero_gate(bad),
        "logic_or_gate": cs.logic_or_gate(t, bb), "logic_and": cs.logic_and(t, bb), "logic_or": cs.logic_or(bb, t),
        "logic_neg": cs.logic_neg(bb), "logic_and_all": cs.logic_and_all(&[t, bb]),
        "select": cs.conditional_select(t, x, bad), "select_b": cs.conditional_select(bb, x, x),
        "enforce_true": cs.enforce_true(bad), "enforce_false": cs.enforce_false(bad),
        "enforce_lt": cs.enforce_lt(x, bad), "enforce_leq": cs.enforce_leq(bad, x),
        "enforce_gt": cs.enforce_gt(x, bad), "enforce_geq": cs.enforce_geq(bad, x),
        "is_lt": cs.is_lt(x, bad), "is_leq": cs.is_leq(bad, x), "is_gt": cs.is_gt(x, bad), "is_geq": cs.is_geq(bad, x),
        "is_lt_constant": cs.is_lt_constant(bad, z), "enforce_lt_constant": cs.enforce_lt_constant(bad, z),
        "enforce_in_range": cs.enforce_in_range(bad, 5), "is_in_range": cs.is_in_range(bad, 5),
        "unpack": cs.unpack(bad, 5), "set_public": cs.set_variable_public(bad), "power_11": cs.power_11_gen(bad),
        "range_zero": cs.enforce_in_range(x, 0), "sum_empty": cs.sum(&[]), "and_all_empty": cs.logic_and_all(&[]),
        "witness": cs.witness(bad),
    );
    // what was refused must not have left anything behind that breaks the rest
    let pis = cs.public_input();
    c.check(pis.is_ok(), "oob_public_input", || format!("{pis:?}"));
    if let Ok(p) = pis {
        let r = guard(|| cs.check_circuit_satisfiability(&p).is_ok());
        c.check(r == Ok(true), "oob_leftover", || format!("{gates} gates before: {r:?}"));
    }
    c.ev_n("refusals", tried);
    let tag: u8 = c.rng.gen();
    c.key((cs.num_gates(), tag));
}

/// Range gadgets at and above the size of the field.
pub fn wide_range<F: PrimeField>(c: &mut Case) {
    let nbits = F::MODULUS_BIT_SIZE as usize;
    let big = (F::MODULUS.as_ref().len() * 64).min(nbits + 40);
    let k = c.range(nbits, big);
    let small = c.coin();
    let x: F = if small { F::from(c.below(5) as u64) } else { gen::field(c) };
    let xi = gen::int(&x);
    let mut cs = PlonkCircuit::<F>::new_turbo_plonk();
    let v = cs.create_variable(x).unwrap();
    match guard(|| cs.is_in_range(v, k)) {
        Ok(Ok(b)) => {
            c.check(cs.witness(b.into()).unwrap().is_one(), "wide_is_in_range", || format!("{x} in {k} bits"));
            holds(c, &cs, &[v], &[b.into()], "wide_is_in_range");
        },
        Ok(Err(e)) => c.fail("wide_is_in_range_error", format!("{k} bits: {e:?}")),
        Err(e) => c.fail("wide_is_in_range_panic", format!("{k} bits: {e}")),
    }
    let mut cs = PlonkCircuit::<F>::new_turbo_plonk();
    let v = cs.create_variable(x).unwrap();
    match guard(|| cs.unpack(v, k)) {
        Ok(Ok(bits)) => {
            let out: Vec<Variable> = bits.into_iter().map(Variable::from).collect();
            let vals: Vec<F> = out.iter().map(|v| cs.witness(*v).unwrap()).collect();
            let want: Vec<F> = (0..k).map(|i| bit(xi.bit(i as u64))).collect();
            c.eq(&vals, &want, "wide_unpack_value");
            holds(c, &cs, &[v], &out, "wide_unpack");
            let other = &xi + gen::modulus::<F>();
            if other.bits() <= k as u64 {
                let mut set = vec![(v, x)];
                set.extend((0..k).map(|i| (out[i], bit(other.bit(i as u64)))));
                let got = Sys::new(&cs).unwrap().forge(&circ::witness(&cs), &[], &set, &HashMap::new());
                c.check(got.is_none(), "wide_unpack_alias", || format!("{k} bits of {x} as {other}"));
                c.ev("alias_tried");
            }
        },
        Ok(Err(e)) => c.fail("wide_unpack_error", format!("{k} bits: {e:?}")),
        Err(e) => c.fail("wide_unpack_panic", format!("{k} bits: {e}")),
    }
    let mut cs = PlonkCircuit::<F>::new_turbo_plonk();
    let v = cs.create_variable(x).unwrap();
    match guard(|| cs.enforce_in_range(v, k)) {
        Ok(Ok(())) => holds(c, &cs, &[v], &[], "wide_range"),
        r => c.fail("wide_range", format!("{k} bits: {r:?}")),
    }
    c.key((k - nbits, small));
}

/// Range and comparison gadgets on values that differ by a single bit, for
/// every bit of the field.
pub fn every_bit<F: PrimeField>(c: &mut Case) {
    let nbits = F::MODULUS_BIT_SIZE as usize;
    let p = gen::modulus::<F>();
    let k = pick_bits(c, nbits);
    let base = gen::int(&gen::rand_field::<F>(c));
    let mut cs: PlonkCircuit<F> = new_circuit(c);
    for j in 0..nbits {
        let one = BigUint::from(1u8) << j;
        // nothing, or bits that fit, below the single one
        let low = if c.coin() { BigUint::from(0u8) } else { &base & ((BigUint::from(1u8) << k.min(j)) - 1u8) };
        let x = (&low + &one) % &p;
        let v = cs.create_variable(gen::from_int(&x)).unwrap();
        let b = cs.is_in_range(v, k).unwrap();
        c.check(cs.witness(b.into()).unwrap() == bit(x.bits() <= k as u64), "bit_in_range", || {
            format!("{x} in {k} bits")
        });
        // the same number with and without one bit
        let (mut lo, mut hi) = (base.clone(), base.clone());
        lo.set_bit(j as u64, false);
        hi.set_bit(j as u64, true);
        if hi >= p || c.below(6) > 0 {
            continue;
        }
        let (lf, hf): (F, F) = (gen::from_int(&lo), gen::from_int(&hi));
        let (l, h) = (cs.create_variable(lf).unwrap(), cs.create_variable(hf).unwrap());
        let got = [
            cs.is_lt(l, h).unwrap(),
            cs.is_leq(l, h).unwrap(),
            cs.is_gt(l, h).unwrap(),
            cs.is_geq(l, h).unwrap(),
            cs.is_lt_constant(h, lf).unwrap(),
            cs.is_geq_constant(h, lf).unwrap(),
            cs.is_equal(l, h).unwrap(),
        ]
        .map(|b| cs.witness(b.into()).unwrap().is_one());
        c.eq(&got, &[true, true, false, false, false, true, false], "bit_compare");
        cs.enforce_lt(l, h).unwrap();
        cs.enforce_geq_constant(h, lf).unwrap();
    }
    c.ev_n("bits", nbits as u64);
    c.key((k, base.bits(), cs.support_lookup()));
    let r = cs.check_circuit_satisfiability(&[]);
    c.check(r.is_ok(), "every_bit_complete", || format!("{r:?}"));
}

/// A truncation whose quotient and remainder are those of value + modulus.
pub fn truncate_alias<F: PrimeField>(c: &mut Case) {
    let nbits = F::MODULUS_BIT_SIZE as usize;
    let p = gen::modulus::<F>();
    let room = (BigUint::from(1u8) << nbits) - &p;
    let x = gen::int(&gen::field::<F>(c)) % &room;
    let k = c.range(1, nbits - 1);
    let mut cs = PlonkCircuit::<F>::new_ultra_plonk(c.range(2, 9));
    let a: F = gen::from_int(&x);
    let va = cs.create_variable(a).unwrap();
    let vb = cs.truncate(va, k).unwrap();
    let other = &x + &p;
    let low = |y: &BigUint, k: usize| y & ((BigUint::from(1u8) << k) - 1u8);
    let b = low(&other, k);
    c.ev("alias_tried");
    c.key((k, gen::int(&a).bits()));
    if b == low(&x, k) {
        return;
    }
    let r = cs.range_bit_len().unwrap();
    let (kb, z) = (k - k % r, &other >> k);
    let kz = (nbits - k) - (nbits - k) % r;
    let set: Vec<(Variable, F)> = [
        (va, x.clone()),
        (vb, b.clone()),
        (vb + 1, low(&b, kb)),
        (vb + 2, &b >> kb),
        (vb + 3, low(&z, kz)),
        (vb + 4, &z >> kz),
    ]
    .into_iter()
    .filter(|(v, _)| *v < cs.num_vars())
    .map(|(v, y)| (v, gen::from_int(&y)))
    .collect();
    let got = Sys::new(&cs).unwrap().forge(&circ::witness(&cs), &[], &set, &HashMap::new());
    c.check(got.is_none(), "truncate_alias", || format!("{k} bits of {x} truncated to {b}"));
}

/// A truncation whose remainder runs one bit over and whose quotient is one
/// less, for every length in turn.
pub fn truncate_wide<F: PrimeField>(c: &mut Case) {
    let nbits = F::MODULUS_BIT_SIZE as usize;
    let k = 1 + c.idx % (nbits - 1);
    let one = BigUint::from(1u8);
    let x = gen::int(&gen::rand_field::<F>(c));
    let mut cs = PlonkCircuit::<F>::new_ultra_plonk(c.range(2, 9));
    let a: F = gen::from_int(&x);
    let va = cs.create_variable(a).unwrap();
    let vb = cs.truncate(va, k).unwrap();
    let low = |y: &BigUint, k: usize| y & ((&one << k) - 1u8);
    let r = cs.range_bit_len().unwrap();
    let kb = k - k % r;
    let kz = (nbits - k) - (nbits - k) % r;
    c.eq(&gen::int(&cs.witness(vb).unwrap()), &low(&x, k), "truncate_value");
    c.ev("wide_tried");
    c.key((k, r));
    let z = &x >> k;
    if z < one {
        return;
    }
    let (b, z) = (low(&x, k) + (&one << k), z - 1u8);
    let set: Vec<(Variable, F)> = [
        (va, x.clone()),
        (vb, b.clone()),
        (vb + 1, low(&b, kb)),
        (vb + 2, &b >> kb),
        (vb + 3, low(&z, kz)),
        (vb + 4, &z >> kz),
    ]
    .into_iter()
    .map(|(v, y)| (v, gen::from_int(&y)))
    .collect();
    let sys = Sys::new(&cs).unwrap();
    let wit = circ::witness(&cs);
    // with the helpers where they are expected, and without saying anything of them
    for set in [&set[..set.len().min(cs.num_vars() - va)], &set[..2]] {
        let got = sys.forge(&wit, &[], set, &HashMap::new());
        c.check(got.is_none(), "truncate_wide", || format!("{k} bits of {x} truncated to {b}"));
    }
}

/// Range checks and unpacking at every length in turn.
pub fn every_length<F: PrimeField>(c: &mut Case) {
    let nbits = F::MODULUS_BIT_SIZE as usize;
    let k = 1 + c.idx as usize % nbits;
    let ultra = c.idx as usize / nbits % 2 == 1;
    let fresh = |c: &mut Case| -> PlonkCircuit<F> {
        if ultra {
            PlonkCircuit::new_ultra_plonk(c.range(2, 9))
        } else {
            PlonkCircuit::new_turbo_plonk()
        }
    };
    let mut cs = fresh(c);
    let power = BigUint::from(1u8) << k;
    let mask = &power - 1u8;
    let x: BigUint = match c.below(3) {
        0 if mask < gen::modulus::<F>() => mask.clone(),
        _ => gen::int(&gen::rand_field::<F>(c)) & &mask,
    };
    let v = cs.create_variable(gen::from_int(&x)).unwrap();
    let built = guard(|| -> R<Vec<Variable>> {
        let mut out = vec![Variable::from(cs.is_in_range(v, k)?)];
        out.extend(cs.unpack(v, k)?.into_iter().map(Variable::from));
        cs.enforce_in_range(v, k)?;
        Ok(out)
    });
    let out = match built {
        Err(e) => return c.fail("length_panic", e),
        Ok(Err(e)) => return c.fail("length_error", format!("{k} bits of {x}: {e:?}")),
        Ok(Ok(v)) => v,
    };
    let vals: Vec<F> = out.iter().map(|v| cs.witness(*v).unwrap()).collect();
    let want: Vec<F> = std::iter::once(F::one()).chain((0..k).map(|i| bit(x.bit(i as u64)))).collect();
    c.eq(&vals, &want, "length_values");
    holds(c, &cs, &[v], &out, "length");
    c.ev("every_length");
    c.key(("length", k, ultra, F::MODULUS_BIT_SIZE));
    c.sample(|| format!("{k} bits of {x}"));
    // the next bit too
    for x in [power.clone(), &x | &power] {
        if x >= gen::modulus::<F>() {
            continue;
        }
        let mut cs = fresh(c);
        let v = cs.create_variable(gen::from_int(&x)).unwrap();
        match guard(|| cs.is_in_range(v, k)) {
            Ok(Ok(b)) => {
                let b = Variable::from(b);
                c.eq(&cs.witness(b).unwrap(), &F::zero(), "length_over");
                let r = cs.check_circuit_satisfiability(&[]);
                c.check(r.is_ok(), "length_over_complete", || format!("{k} bits of {x}: {r:?}"));
            },
            e => c.fail("length_over_error", format!("{k} bits of {x}: {e:?}")),
        }
        let mut cs = fresh(c);
        let v = cs.create_variable(gen::from_int(&x)).unwrap();
        let built = guard(|| cs.enforce_in_range(v, k));
        refused(c, &cs, &[v], built, "length_over");
        let mut cs = fresh(c);
        let v = cs.create_variable(gen::from_int(&x)).unwrap();
        let built = guard(|| cs.unpack(v, k).map(|_| ()));
        refused(c, &cs, &[v], built, "length_over_unpack");
    }
}
