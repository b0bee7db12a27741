//! R05: arithmetic of a foreign field inside a circuit against the foreign
//! field itself.

use crate::basic::{noise, refused};
use ark_ec::{short_weierstrass as sw, twisted_edwards as te, AffineRepr, CurveGroup};
use ark_ff::{PrimeField, UniformRand};
use circ::Sys;
use jf_relation::{
    gadgets::{
        ecc::{
            emulated::{EmulatedSWPointVariable, EmulatedTEPointVariable, SWPoint},
            TEPoint,
        },
        from_emulated_field, to_emulated_field,
        ultraplonk::mod_arith::{FpElem, FpElemVar},
        EmulatedVariable, EmulationConfig, SerializableEmulatedStruct,
    },
    Circuit, PlonkCircuit, Variable,
};
use num_bigint::BigUint;
use std::collections::HashMap;
use vh::{gen, guard, Case, Rng};

fn circuit<F: PrimeField>(c: &mut Case) -> PlonkCircuit<F> {
    if c.coin() {
        PlonkCircuit::new_turbo_plonk()
    } else {
        // a small number of table sizes that keeps the circuits short
        let r = c.pick(&[8, 10, 11]);
        PlonkCircuit::new_ultra_plonk(r)
    }
}

/// Elements whose limbs are at their limits.
fn element<E: EmulationConfig<F>, F: PrimeField>(c: &mut Case) -> E {
    if c.below(3) == 0 {
        return gen::field(c);
    }
    let b = BigUint::from(1u8) << E::B;
    let mut x = BigUint::from(0u8);
    for _ in 0..E::NUM_LIMBS {
        let l = match c.below(5) {
            0 => BigUint::from(0u8),
            1 => &b - 1u8,
            2 => BigUint::from(1u8),
            3 => &b - 2u8,
            _ => gen::int(&gen::rand_field::<F>(c)) % &b,
        };
        x = x * &b + l;
    }
    // keep the limbs as drawn: cut at the top instead of reducing
    let bits = E::MODULUS_BIT_SIZE as usize - c.below(2);
    let x = x & ((BigUint::from(1u8) << bits) - 1u8);
    gen::from_int(&x)
}

/// A second operand that makes carries run through.
fn partner<E: EmulationConfig<F>, F: PrimeField>(c: &mut Case, a: E) -> E {
    match c.below(6) {
        0 => a,
        1 => -a,
        2 | 3 => {
            // limbs that complete those of `a`, with a carry from the lowest
            let b = BigUint::from(1u8) << E::B;
            let a = gen::int(&a);
            let mut x = BigUint::from(0u8);
            for i in (0..E::NUM_LIMBS).rev() {
                let l = (&a >> (i * E::B)) % &b;
                let mut o = &b - 1u8 - &l;
                if c.below(3) == 0 || i == 0 {
                    o = (&o + c.below(3) as u32) % &b;
                }
                x = x * &b + o;
            }
            let bits = E::MODULUS_BIT_SIZE as usize - c.range(0, 2);
            gen::from_int(&(x & ((BigUint::from(1u8) << bits) - 1u8)))
        },
        _ => element::<E, F>(c),
    }
}

fn create<E: EmulationConfig<F>, F: PrimeField>(
    c: &mut Case,
    cs: &mut PlonkCircuit<F>,
    x: E,
) -> EmulatedVariable<E> {
    match c.below(6) {
        0 => cs.create_constant_emulated_variable(x).unwrap(),
        1 => cs.create_public_emulated_variable(x).unwrap(),
        _ => cs.create_emulated_variable(x).unwrap(),
    }
}

fn satisfied<F: PrimeField>(c: &mut Case, cs: &PlonkCircuit<F>, name: &str) -> bool {
    let pis = cs.public_input().unwrap();
    let r = cs.check_circuit_satisfiability(&pis);
    c.check(r.is_ok(), &format!("{name}_complete"), || format!("honest assignment refused: {r:?}"));
    c.ev("satisfied");
    r.is_ok()
}

/// Tampers with one variable of a satisfied circuit that is not an input; what
/// is still satisfied must leave the outputs congruent.
fn tamper<F: PrimeField>(
    c: &mut Case,
    cs: &PlonkCircuit<F>,
    inputs: &[Variable],
    same: &dyn Fn(&[F]) -> bool,
    name: &str,
) {
    let Ok(sys) = Sys::new(cs) else { return };
    let wit = circ::witness(cs);
    let pis = cs.public_input().unwrap();
    let set: Vec<(Variable, F)> = inputs.iter().map(|v| (*v, wit[*v])).collect();
    for _ in 0..3 {
        let v = c.range(2, wit.len() - 1);
        if inputs.contains(&v) {
            continue;
        }
        let x = match c.below(4) {
            0 => wit[v] + F::one(),
            1 => wit[v] - F::one(),
            2 => F::one() - wit[v],
            _ => gen::field(c),
        };
        let mut s = set.clone();
        s.push((v, x));
        if let Some(w) = sys.forge(&wit, &pis, &s, &HashMap::new()) {
            c.check(same(&w), &format!("{name}_forged"), || format!("variable {v}: {x} in place of {}", wit[v]));
            c.ev("other_assignment");
        }
        c.ev("forgery");
    }
}

fn value<E: EmulationConfig<F>, F: PrimeField>(vars: &[Variable], w: &[F]) -> E {
    to_emulated_field::<E, F>(&vars.iter().map(|v| w[*v]).collect::<Vec<_>>()).unwrap()
}

const OPS: &[&str] = &[
    "create", "add", "sub", "mul", "add_constant", "sub_constant", "mul_constant", "select", "enforce_equal",
    "is_equal", "is_zero", "wrong_add", "wrong_mul", "wrong_add_constant", "wrong_mul_constant",
];

pub fn emulated<E: EmulationConfig<F>, F: PrimeField>(c: &mut Case) {
    let name = OPS[c.idx % OPS.len()];
    let mut cs: PlonkCircuit<F> = circuit(c);
    noise(c, &mut cs);
    let a: E = element::<E, F>(c);
    let b: E = partner::<E, F>(c, a);
    let ultra = cs.support_lookup();
    c.ev(name);
    let carry = {
        let m = (BigUint::from(1u8) << E::B) - 1u8;
        (0..E::NUM_LIMBS)
            .map(|i| ((gen::int(&a) >> (i * E::B)) & &m) + ((gen::int(&b) >> (i * E::B)) & &m) >= m)
            .collect::<Vec<_>>()
    };
    c.key((name, ultra, a == b, a == -b, carry));
    if name == "create" {
        let limbs: Vec<F> = from_emulated_field(a);
        c.eq(&limbs.len(), &E::NUM_LIMBS, "limbs");
        let sum = limbs.iter().rev().fold(BigUint::from(0u8), |s, l| (s << E::B) + gen::int(l));
        c.eq(&sum, &gen::int(&a), "limbs");
        c.check(to_emulated_field::<E, F>(&limbs).ok() == Some(a), "from_limbs", || format!("{a}"));
        c.check(to_emulated_field::<E, F>(&limbs[1..]).is_err(), "from_few_limbs", || "accepted".into());
        let v = cs.create_constant_emulated_variable(a).unwrap();
        c.check(cs.emulated_witness(&v).ok() == Some(a), "constant", || format!("{a}"));
        let before = cs.public_input().unwrap().len();
        let v = cs.create_public_emulated_variable(a).unwrap();
        c.check(cs.emulated_witness(&v).ok() == Some(a), "public", || format!("{a}"));
        c.check(cs.public_input().unwrap()[before..] == limbs, "public_limbs", || format!("{a}"));
        let v = cs.create_emulated_variable(a).unwrap();
        c.check(cs.emulated_witness(&v).ok() == Some(a), "witness", || format!("{a}"));
        satisfied(c, &cs, name);
        // a limb beyond its size
        let l = c.pick(&v.native_vars());
        let mut cs2 = cs.clone();
        *cs2.witness_mut(l) += F::from(BigUint::from(1u8) << E::B);
        refused(c, &cs2, &v.native_vars(), Ok(Ok(())), "wide_limb");
        return;
    }
    let av = create(c, &mut cs, a);
    let bv = create(c, &mut cs, b);
    let mut inputs = [av.native_vars(), bv.native_vars()].concat();
    let got = match name {
        "add" => cs.emulated_add(&av, &bv),
        "sub" => cs.emulated_sub(&av, &bv),
        "mul" => cs.emulated_mul(&av, &bv),
        "add_constant" => cs.emulated_add_constant(&av, b),
        "sub_constant" => cs.emulated_sub_constant(&av, b),
        "mul_constant" => cs.emulated_mul_constant(&av, b),
        "select" => {
            let bit = c.coin();
            let s = cs.create_boolean_variable(bit).unwrap();
            let v = cs.conditional_select_emulated(s, &av, &bv).unwrap();
            let want = if bit { b } else { a };
            c.check(cs.emulated_witness(&v).ok() == Some(want), name, || format!("{bit} of {a}, {b}"));
            inputs.push(s.into());
            crate::basic::holds(c, &cs, &inputs, &v.native_vars(), name);
            return;
        },
        "enforce_equal" => {
            let built = guard(|| cs.enforce_emulated_var_equal(&av, &bv));
            if a == b {
                c.check(matches!(built, Ok(Ok(()))), name, || format!("{built:?}"));
                satisfied(c, &cs, name);
            } else {
                refused(c, &cs, &inputs, built, name);
            }
            return;
        },
        "is_equal" => {
            let v = cs.is_emulated_var_equal(&av, &bv).unwrap();
            c.eq(&cs.witness(v.into()).unwrap(), &F::from((a == b) as u64), name);
            crate::basic::holds(c, &cs, &inputs, &[v.into()], name);
            return;
        },
        "is_zero" => {
            let zv = if c.coin() { create(c, &mut cs, E::zero()) } else { av };
            let want = cs.emulated_witness(&zv).unwrap().is_zero();
            let v = cs.is_emulated_var_zero(&zv).unwrap();
            c.eq(&cs.witness(v.into()).unwrap(), &F::from(want as u64), name);
            crate::basic::holds(c, &cs, &zv.native_vars(), &[v.into()], name);
            return;
        },
        _ => {
            let right = match name {
                "wrong_add" | "wrong_add_constant" => a + b,
                _ => a * b,
            };
            let wrong = match c.below(5) {
                0 => right + E::one(),
                1 => right - E::one(),
                2 => {
                    let l = c.below(E::NUM_LIMBS);
                    right + E::from(BigUint::from(1u8) << (l * E::B))
                },
                3 => right + gen::from_int::<E>(&gen::modulus::<F>()),
                _ => element::<E, F>(c),
            };
            if wrong == right {
                return;
            }
            let wv = create(c, &mut cs, wrong);
            inputs.extend(wv.native_vars());
            let built = guard(|| match name {
                "wrong_add" => cs.emulated_add_gate(&av, &bv, &wv),
                "wrong_mul" => cs.emulated_mul_gate(&av, &bv, &wv),
                "wrong_add_constant" => cs.emulated_add_constant_gate(&av, b, &wv),
                _ => cs.emulated_mul_constant_gate(&av, b, &wv),
            });
            refused(c, &cs, &inputs, built, name);
            return;
        },
    };
    let want = match name {
        "add" | "add_constant" => a + b,
        "sub" | "sub_constant" => a - b,
        _ => a * b,
    };
    let Some(v) = c.ok(got, name) else { return };
    c.check(cs.emulated_witness(&v).ok() == Some(want), name, || format!("{a}, {b}"));
    if satisfied(c, &cs, name) {
        let vars = v.native_vars();
        tamper(c, &cs, &inputs, &|w| value::<E, F>(&vars, w) == want, name);
    }
}

/// Products whose carries come as near to their bounds as a search finds them.
pub fn carries<E: EmulationConfig<F>, F: PrimeField>(c: &mut Case) {
    let b = BigUint::from(1u8) << E::B;
    let m = gen::modulus::<E>();
    let neg = (BigUint::from(1u8) << E::T) - &m;
    let limb = |x: &BigUint, i: usize| (x >> (i * E::B)) % &b;
    let n = E::NUM_LIMBS;
    // mostly ones, so that sums of products of limbs are large
    let full = |c: &mut Case| -> E {
        let from = match c.below(4) {
            0 => E::B * c.range(1, n - 1),
            1 => c.below(E::MODULUS_BIT_SIZE as usize - 2),
            _ => E::MODULUS_BIT_SIZE as usize - 2 - c.below(30),
        };
        let x = gen::int(&gen::rand_field::<E>(c)) >> 1;
        gen::from_int(&(x | ((BigUint::from(1u8) << from) - 1u8)))
    };
    let mut best: Vec<(BigUint, E, E)> = vec![];
    for _ in 0..400 {
        let x = full(c);
        let y = if c.below(4) == 0 { element::<E, F>(c) } else { full(c) };
        let (a, d) = (gen::int(&x), gen::int(&y));
        let k = &a * &d / &m;
        let mut carry = BigUint::from(0u8);
        for i in 0..n {
            let sum: BigUint = (0..=i).map(|j| limb(&k, j) * limb(&neg, i - j) + limb(&a, j) * limb(&d, i - j)).sum();
            carry = (sum + carry) / &b;
            if best.len() <= i {
                best.push((carry.clone(), x, y));
            } else if best[i].0 < carry {
                best[i] = (carry.clone(), x, y);
            }
        }
    }
    for (i, (carry, x, y)) in best.iter().enumerate() {
        let mut cs: PlonkCircuit<F> = circuit(c);
        let (xv, yv) = (create(c, &mut cs, *x), create(c, &mut cs, *y));
        let constant = c.below(3) == 0;
        let r = if constant { cs.emulated_mul_constant(&xv, *y) } else { cs.emulated_mul(&xv, &yv) };
        let name = if constant { "full_mul_constant" } else { "full_mul" };
        c.key((name, i, carry.bits(), cs.support_lookup()));
        c.sample(|| format!("carry {i} of {} bits, limbs of {} bits", carry.bits(), E::B));
        c.ev("product with a large carry");
        let Some(v) = c.ok(r, name) else { return };
        c.check(cs.emulated_witness(&v).ok() == Some(*x * *y), name, || format!("{x}, {y}"));
        satisfied(c, &cs, name);
    }
}

/// A multiplication answered modulo the two moduli of the emulation instead of
/// over the integers.
pub fn mul_wrap<E: EmulationConfig<F>, F: PrimeField>(c: &mut Case) {
    let p = gen::modulus::<F>();
    let e = gen::modulus::<E>();
    let mut cs: PlonkCircuit<F> = circuit(c);
    let a: E = gen::from_int(&(gen::int(&gen::rand_field::<F>(c)) % (BigUint::from(1u8) << 100)));
    let b: E = gen::rand_field::<E>(c);
    let constant = c.coin();
    let av = cs.create_emulated_variable(a).unwrap();
    let bv = cs.create_emulated_variable(b).unwrap();
    let v = if constant { cs.emulated_mul_constant(&av, b) } else { cs.emulated_mul(&av, &bv) }.unwrap();
    let total = gen::int(&a) * gen::int(&b) + (p << E::T);
    let (k, r) = (&total / &e, &total % &e);
    c.ev("alias_tried");
    c.key((constant, cs.support_lookup(), k.bits(), c.idx));
    if k.bits() > E::T as u64 || gen::from_int::<E>(&r) == a * b {
        return;
    }
    let wit = circ::witness(&cs);
    let mut set: Vec<(Variable, F)> = vec![];
    for x in [&av, &bv] {
        set.extend(x.native_vars().iter().map(|v| (*v, wit[*v])));
    }
    let limb = |x: &BigUint, i: usize| -> F { gen::from_int(&((x >> (i * E::B)) & ((BigUint::from(1u8) << E::B) - 1u8))) };
    // the quotient is the next value whose limbs are written in the circuit
    let honest = gen::int(&a) * gen::int(&b) / &e;
    let vars = v.native_vars();
    let last = *vars.iter().max().unwrap();
    for start in last + 1..wit.len() - E::NUM_LIMBS {
        if (0..E::NUM_LIMBS).any(|i| wit[start + i] != limb(&honest, i)) {
            continue;
        }
        let mut s = set.clone();
        for (i, v) in vars.iter().enumerate() {
            s.push((*v, limb(&r, i)));
            s.push((start + i, limb(&k, i)));
        }
        let got = Sys::new(&cs).unwrap().forge(&wit, &[], &s, &HashMap::new());
        c.check(got.is_none(), "mul_wrap", || format!("{a} times {b} is {r}"));
        c.ev("forgery");
        break;
    }
}

/// A sum that is reduced although it does not reach the modulus, with the
/// borrow left at the top.
pub fn add_wrap<E: EmulationConfig<F>, F: PrimeField>(c: &mut Case) {
    let e = gen::modulus::<E>();
    let mut cs: PlonkCircuit<F> = circuit(c);
    let a: E = gen::from_int(&(gen::int(&gen::rand_field::<E>(c)) >> 2));
    let b: E = gen::from_int(&(gen::int(&gen::rand_field::<E>(c)) >> 2));
    let constant = c.coin();
    let av = cs.create_emulated_variable(a).unwrap();
    let bv = cs.create_emulated_variable(b).unwrap();
    let v = if constant { cs.emulated_add_constant(&av, b) } else { cs.emulated_add(&av, &bv) }.unwrap();
    let r = (BigUint::from(1u8) << E::T) + gen::int(&a) + gen::int(&b) - &e;
    c.ev("alias_tried");
    c.key(("add", constant, cs.support_lookup(), c.idx));
    let wit = circ::witness(&cs);
    let limb = |x: &BigUint, i: usize| -> F { gen::from_int(&((x >> (i * E::B)) & ((BigUint::from(1u8) << E::B) - 1u8))) };
    let mut set: Vec<(Variable, F)> = vec![];
    for x in [&av, &bv] {
        set.extend(x.native_vars().iter().map(|v| (*v, wit[*v])));
    }
    let vars = v.native_vars();
    set.extend(vars.iter().enumerate().map(|(i, v)| (*v, limb(&r, i))));
    // the mark for the reduction is a bit behind the result and in front of
    // the limbs of the plain sum
    let sum = gen::int(&a) + gen::int(&b);
    let last = *vars.iter().max().unwrap();
    let sys = Sys::new(&cs).unwrap();
    for start in last + 1..wit.len() - E::NUM_LIMBS {
        if !wit[start].is_zero() || (0..E::NUM_LIMBS).any(|i| wit[start + 1 + i] != limb(&sum, i)) {
            continue;
        }
        let mut s = set.clone();
        s.push((start, F::one()));
        s.extend((0..E::NUM_LIMBS).map(|i| (start + 1 + i, limb(&sum, i))));
        let got = sys.forge(&wit, &[], &s, &HashMap::new());
        c.check(got.is_none(), "add_wrap", || format!("{a} plus {b} is {r}"));
        c.ev("forgery");
    }
}

fn sw_point<P: sw::SWCurveConfig>(c: &mut Case) -> sw::Affine<P> {
    match c.below(6) {
        0 => sw::Affine::<P>::identity(),
        1 => sw::Affine::<P>::generator(),
        2 => {
            // a point of order two, where there is one
            let y = P::BaseField::from(0u64);
            let x = -P::BaseField::from(1u64);
            let p = sw::Affine::<P>::new_unchecked(x, y);
            if p.is_on_curve() { p } else { -sw::Affine::<P>::generator() }
        },
        _ => sw::Projective::<P>::rand(&mut c.rng).into_affine(),
    }
}

fn sw_vars<E: PrimeField>(p: &EmulatedSWPointVariable<E>) -> Vec<Variable> {
    [p.0.native_vars(), p.1.native_vars(), vec![p.2.into()]].concat()
}

pub fn sw_points<P: sw::SWCurveConfig, F: PrimeField>(c: &mut Case)
where
    P::BaseField: EmulationConfig<F>,
{
    let name = c.pick(&["add", "add", "add", "wrong_add", "wrong_add", "select", "equal", "serialize"]);
    let mut cs: PlonkCircuit<F> = circuit(c);
    let p = sw_point::<P>(c);
    let q = match c.below(4) {
        0 => p,
        1 => -p,
        _ => sw_point::<P>(c),
    };
    c.key((name, cs.support_lookup(), p.infinity, q.infinity, p == q, p == -q, p.y.to_string() == "0"));
    c.ev(name);
    let mk = |c: &mut Case, cs: &mut PlonkCircuit<F>, p: sw::Affine<P>| match c.below(6) {
        0 => cs.create_constant_emulated_sw_point_variable(p.into()).unwrap(),
        1 => cs.create_public_emulated_sw_point_variable(p.into()).unwrap(),
        _ => cs.create_emulated_sw_point_variable(p.into()).unwrap(),
    };
    if name == "serialize" {
        let s: SWPoint<P::BaseField> = p.into();
        let got: Vec<F> = s.serialize_to_native_elements();
        let want = [from_emulated_field(p.x), from_emulated_field(p.y), vec![F::from(p.infinity as u64)]].concat();
        c.eq(&got, &want, name);
        return;
    }
    let (pv, qv) = (mk(c, &mut cs, p), mk(c, &mut cs, q));
    let mut inputs = [sw_vars(&pv), sw_vars(&qv)].concat();
    let sum = (p + q).into_affine();
    match name {
        "add" => {
            let v = cs.emulated_sw_ecc_add::<P::BaseField>(&pv, &qv, P::COEFF_A);
            let Some(v) = c.ok(v, name) else { return };
            let got = cs.emulated_sw_point_witness(&v).unwrap();
            c.check(got == sum.into(), "sw_add", || format!("{got:?} for {p:?} + {q:?}"));
            if satisfied(c, &cs, "sw_add") {
                let vars = sw_vars(&v);
                let n = P::BaseField::NUM_LIMBS;
                tamper(
                    c,
                    &cs,
                    &inputs,
                    &|w| {
                        let inf = w[vars[2 * n]];
                        if inf == F::one() || sum.infinity {
                            return inf == F::from(sum.infinity as u64);
                        }
                        inf.is_zero()
                            && value::<P::BaseField, F>(&vars[..n], w) == sum.x
                            && value::<P::BaseField, F>(&vars[n..2 * n], w) == sum.y
                    },
                    "sw_add",
                );
            }
        },
        "wrong_add" => {
            let wrong = match c.below(5) {
                0 => -sum,
                1 => sw::Affine::<P>::identity(),
                2 => sw::Affine::<P>::new_unchecked(sum.x, sum.y + P::BaseField::from(1u64)),
                3 => p,
                _ => sw_point::<P>(c),
            };
            let wrong = if c.below(4) == 0 && wrong.infinity {
                // finite coordinates with the mark of infinity taken away
                sw::Affine::<P>::new_unchecked(wrong.x, wrong.y)
            } else {
                wrong
            };
            if wrong == sum {
                return;
            }
            let mut marked: SWPoint<P::BaseField> = wrong.into();
            let _ = &mut marked;
            let wv = cs.create_emulated_sw_point_variable(marked).unwrap();
            inputs.extend(sw_vars(&wv));
            let built = guard(|| cs.emulated_sw_ecc_add_gate(&pv, &qv, &wv, P::COEFF_A));
            refused(c, &cs, &inputs, built, "sw_wrong_add");
            // the right coordinates with the wrong mark
            let mut flipped: SWPoint<P::BaseField> = sum.into();
            flipped.2 = !flipped.2;
            let mut cs: PlonkCircuit<F> = circuit(c);
            let (pv, qv) = (mk(c, &mut cs, p), mk(c, &mut cs, q));
            let wv = cs.create_emulated_sw_point_variable(flipped).unwrap();
            let inputs = [sw_vars(&pv), sw_vars(&qv), sw_vars(&wv)].concat();
            let built = guard(|| cs.emulated_sw_ecc_add_gate(&pv, &qv, &wv, P::COEFF_A));
            refused(c, &cs, &inputs, built, "sw_wrong_mark");
        },
        "select" => {
            let b = c.coin();
            let s = cs.create_boolean_variable(b).unwrap();
            let v = cs.binary_emulated_sw_point_vars_select(s, &pv, &qv).unwrap();
            let got = cs.emulated_sw_point_witness(&v).unwrap();
            c.check(got == if b { q } else { p }.into(), "sw_select", || format!("{got:?}"));
            inputs.push(s.into());
            crate::basic::holds(c, &cs, &inputs, &sw_vars(&v), "sw_select");
        },
        _ => {
            let v = cs.is_emulated_sw_point_equal(&pv, &qv).unwrap();
            c.eq(&cs.witness(v.into()).unwrap(), &F::from((p == q) as u64), "sw_is_equal");
            crate::basic::holds(c, &cs, &inputs, &[v.into()], "sw_is_equal");
            let built = guard(|| cs.enforce_emulated_sw_point_equal(&pv, &qv));
            if p == q {
                satisfied(c, &cs, "sw_equal");
            } else {
                refused(c, &cs, &inputs, built, "sw_equal");
            }
        },
    }
}

pub fn te_points<P: te::TECurveConfig, F: PrimeField>(c: &mut Case)
where
    P::BaseField: EmulationConfig<F>,
{
    let name = c.pick(&["add", "add", "wrong_add", "select", "equal", "serialize"]);
    let mut cs: PlonkCircuit<F> = circuit(c);
    let pick = |c: &mut Case| match c.below(5) {
        0 => te::Affine::<P>::zero(),
        1 => te::Affine::<P>::generator(),
        _ => te::Projective::<P>::rand(&mut c.rng).into_affine(),
    };
    let p = pick(c);
    let q = match c.below(4) {
        0 => p,
        1 => -p,
        _ => pick(c),
    };
    c.key(("te", name, cs.support_lookup(), p.is_zero(), q.is_zero(), p == q, p == -q));
    c.ev(name);
    let mk = |c: &mut Case, cs: &mut PlonkCircuit<F>, p: te::Affine<P>| {
        let p = TEPoint::from(p);
        match c.below(6) {
            0 => cs.create_constant_emulated_te_point_variable(p).unwrap(),
            1 => cs.create_public_emulated_te_point_variable(p).unwrap(),
            _ => cs.create_emulated_te_point_variable(p).unwrap(),
        }
    };
    fn all<E: PrimeField>(p: &EmulatedTEPointVariable<E>) -> Vec<Variable> {
        [p.0.native_vars(), p.1.native_vars()].concat()
    }
    if name == "serialize" {
        let got: Vec<F> = TEPoint::from(p).serialize_to_native_elements();
        c.eq(&got, &[from_emulated_field(p.x), from_emulated_field(p.y)].concat(), "te_serialize");
        return;
    }
    let (pv, qv) = (mk(c, &mut cs, p), mk(c, &mut cs, q));
    let mut inputs = [all(&pv), all(&qv)].concat();
    let sum = (p + q).into_affine();
    match name {
        "add" => {
            let v = cs.emulated_te_ecc_add::<P::BaseField>(&pv, &qv, P::COEFF_D);
            let Some(v) = c.ok(v, name) else { return };
            let got = cs.emulated_te_point_witness(&v).unwrap();
            c.check(got == TEPoint::from(sum), "te_add", || format!("{got:?} for {p:?} + {q:?}"));
            if satisfied(c, &cs, "te_add") {
                let vars = all(&v);
                let n = P::BaseField::NUM_LIMBS;
                tamper(
                    c,
                    &cs,
                    &inputs,
                    &|w| {
                        value::<P::BaseField, F>(&vars[..n], w) == sum.x
                            && value::<P::BaseField, F>(&vars[n..], w) == sum.y
                    },
                    "te_add",
                );
            }
        },
        "wrong_add" => {
            let wrong = match c.below(3) {
                0 => -sum,
                1 => te::Affine::<P>::new_unchecked(sum.x, sum.y + P::BaseField::from(1u64)),
                _ => pick(c),
            };
            if wrong == sum {
                return;
            }
            let wv = mk(c, &mut cs, wrong);
            inputs.extend(all(&wv));
            let built = guard(|| cs.emulated_te_ecc_add_gate(&pv, &qv, &wv, P::COEFF_D));
            refused(c, &cs, &inputs, built, "te_wrong_add");
        },
        "select" => {
            let b = c.coin();
            let s = cs.create_boolean_variable(b).unwrap();
            let v = cs.binary_emulated_te_point_vars_select(s, &pv, &qv).unwrap();
            let got = cs.emulated_te_point_witness(&v).unwrap();
            c.check(got == TEPoint::from(if b { q } else { p }), "te_select", || format!("{got:?}"));
            inputs.push(s.into());
            crate::basic::holds(c, &cs, &inputs, &all(&v), "te_select");
        },
        _ => {
            let v = cs.is_emulated_te_point_equal(&pv, &qv).unwrap();
            c.eq(&cs.witness(v.into()).unwrap(), &F::from((p == q) as u64), "te_is_equal");
            crate::basic::holds(c, &cs, &inputs, &[v.into()], "te_is_equal");
            let built = guard(|| cs.enforce_emulated_te_point_equal(&pv, &qv));
            if p == q {
                satisfied(c, &cs, "te_equal");
            } else {
                refused(c, &cs, &inputs, built, "te_equal");
            }
        },
    }
}

/// Arithmetic modulo a number smaller than the field, in two halves.
pub fn modular<F: PrimeField>(c: &mut Case) {
    let ops = [
        "mod_add", "mod_add_constant", "mod_add_vec", "mod_mul", "mod_mul_constant", "mod_negate", "split", "linear",
        "power_5", "power_11",
    ];
    let name = ops[c.idx % ops.len()];
    type T = ark_bls12_377::Fr;
    let native = matches!(name, "linear" | "power_5" | "power_11");
    let r = c.pick(&[8usize, 8, 4, 16]);
    let mut cs: PlonkCircuit<F> = PlonkCircuit::new_ultra_plonk(r);
    noise(c, &mut cs);
    // halves of m bits, and a modulus of more than m bits that leaves room
    // for carries
    let room = F::MODULUS_BIT_SIZE as usize / 2 - r;
    let m = if native { 128 } else { c.range(1, room / r) * r };
    let p: BigUint = if native {
        gen::modulus::<T>()
    } else {
        let bits = c.range(m + 1, (2 * m).min(F::MODULUS_BIT_SIZE as usize - 2 * r - 2).max(m + 1));
        let top = BigUint::from(1u8) << (bits - 1);
        match c.below(4) {
            0 => (&top << 1) - 1u8,
            1 => &top + 1u8,
            _ => &top + gen::int(&gen::rand_field::<F>(c)) % &top,
        }
    };
    if p.bits() as usize > F::MODULUS_BIT_SIZE as usize - r - 2 {
        return;
    }
    let pow = c.coin().then(|| gen::from_int::<F>(&(BigUint::from(1u8) << m)));
    let pe = FpElem::new(&gen::from_int::<F>(&p), m, pow).unwrap();
    c.ev(name);
    let draw = |c: &mut Case| -> BigUint {
        let x = match c.below(6) {
            0 => BigUint::from(0u8),
            1 => &p - 1u8,
            2 => BigUint::from(1u8),
            3 => (BigUint::from(1u8) << m) - 1u8,
            4 => BigUint::from(1u8) << m,
            _ => gen::int(&gen::rand_field::<F>(c)),
        };
        x % &p
    };
    let (x, y) = (draw(c), draw(c));
    c.key((name, r, m, p.bits(), x.bits() / 8, y.bits() / 8));
    let low = |x: &BigUint| -> F { gen::from_int(&(x & ((BigUint::from(1u8) << m) - 1u8))) };
    let fe = |x: &BigUint| FpElem::new(&gen::from_int::<F>(x), m, pow).unwrap();
    let elem = |c: &mut Case, cs: &mut PlonkCircuit<F>, x: &BigUint| -> FpElemVar<F> {
        let f: F = gen::from_int(x);
        match c.below(3) {
            0 => {
                let v = cs.create_variable(f).unwrap();
                FpElemVar::new_unchecked(cs, v, m, pow).unwrap()
            },
            1 => FpElemVar::new_from_fp_elem(cs, &FpElem::new(&f, m, pow).unwrap(), m, pow).unwrap(),
            _ => FpElemVar::new_from_field_element(cs, &f, m, pow).unwrap(),
        }
    };
    if name == "split" {
        let e = fe(&x);
        c.eq(&e.field_elem(), &gen::from_int::<F>(&x), "field_elem");
        c.eq(&e.components(), &(low(&x), gen::from_int(&(&x >> m))), "components");
        c.eq(&(e.param_m(), gen::int(&e.two_power_m())), &(m, BigUint::from(1u8) << m), "params");
        let v = elem(c, &mut cs, &x);
        c.check(v.witness(&cs).ok() == Some(gen::from_int(&x)), "split", || format!("{x}"));
        c.check(v.witness_fp_elem(&cs).ok() == Some(e), "split_elem", || format!("{x}"));
        let u = v.convert_to_var(&mut cs).unwrap();
        c.eq(&cs.witness(u).unwrap(), &gen::from_int::<F>(&x), "join");
        let z = FpElemVar::zero(&cs, m, pow);
        let o = FpElemVar::one(&cs, m, pow);
        c.check(z.witness(&cs).unwrap().is_zero() && o.witness(&cs).unwrap().is_one(), "units", || "".into());
        let (a, b) = v.components();
        crate::basic::holds(c, &cs, &[a, b], &[u], "join");
        let w = elem(c, &mut cs, &y);
        let built = guard(|| v.enforce_equal(&mut cs, &w));
        let (d, e) = w.components();
        if x == y {
            satisfied(c, &cs, "split_equal");
        } else {
            refused(c, &cs, &[a, b, d, e], built, "split_equal");
        }
        let big = F::MODULUS_BIT_SIZE as usize / 2 + 1;
        c.check(FpElem::new(&gen::from_int::<F>(&x), big, None).is_err(), "wide_split", || format!("{big} bits"));
        return;
    }
    let xv = elem(c, &mut cs, &x);
    let yv = elem(c, &mut cs, &y);
    let zero = BigUint::from(0u8);
    let halves_of = |v: &FpElemVar<F>| [v.components().0, v.components().1];
    let mut inputs: Vec<Variable> = [halves_of(&xv), halves_of(&yv)].concat();
    let from = cs.num_vars();
    let (got, want) = match name {
        "mod_add" => (cs.mod_add(&xv, &yv, &pe), (&x + &y) % &p),
        "mod_add_constant" => (cs.mod_add_constant(&xv, &fe(&y), &pe), (&x + &y) % &p),
        "mod_add_vec" => {
            let n = c.range(1, 6);
            let xs: Vec<BigUint> = (0..n).map(|_| draw(c)).collect();
            let vs: Vec<_> = xs.iter().map(|x| elem(c, &mut cs, x)).collect();
            inputs.extend(vs.iter().flat_map(halves_of));
            (cs.mod_add_vec(&vs, &pe), xs.iter().fold(zero, |a, b| a + b) % &p)
        },
        "mod_mul" => (cs.mod_mul(&xv, &yv, &pe), (&x * &y) % &p),
        "mod_mul_constant" => (cs.mod_mul_constant(&xv, &fe(&y), &pe), (&x * &y) % &p),
        "mod_negate" => {
            if x == zero {
                // the answer is the modulus itself, which is zero in the other field
                let v = cs.mod_negate(&xv, &gen::from_int(&p)).unwrap();
                let got = gen::int(&v.witness(&cs).unwrap());
                c.check(got == zero || got == p, name, || format!("{got}"));
                satisfied(c, &cs, name);
                return;
            }
            (cs.mod_negate(&xv, &gen::from_int(&p)), &p - &x)
        },
        "linear" => {
            let n = c.range(1, 4);
            let xs: Vec<BigUint> = (0..n).map(|_| draw(c)).collect();
            let ys: Vec<BigUint> = (0..n).map(|_| draw(c)).collect();
            let vs: Vec<_> = xs.iter().map(|x| elem(c, &mut cs, x)).collect();
            inputs.extend(vs.iter().flat_map(halves_of));
            let es: Vec<_> = ys.iter().map(|y| fe(y)).collect();
            let k = draw(c);
            let want = xs.iter().zip(&ys).fold(k.clone(), |a, (x, y)| a + x * y) % &p;
            let short = guard(|| cs.clone().non_native_linear_gen::<T>(&vs[1..], &es, &fe(&k)));
            c.check(matches!(short, Ok(Err(_))), "linear_mismatch", || "accepted".into());
            (cs.non_native_linear_gen::<T>(&vs, &es, &fe(&k)), want)
        },
        "power_5" => (cs.non_native_power_5_gen::<T>(&xv), x.modpow(&BigUint::from(5u8), &p)),
        _ => (cs.non_native_power_11_gen::<T>(&xv), x.modpow(&BigUint::from(11u8), &p)),
    };
    let Some(v) = c.ok(got, name) else { return };
    let g = gen::int(&v.witness(&cs).unwrap());
    c.check(g == want, name, || format!("{g} in place of {want}: {x}, {y} modulo {p}"));
    let (a, b) = v.components();
    let halves = (cs.witness(a).unwrap(), cs.witness(b).unwrap());
    c.eq(&halves, &(low(&want), gen::from_int(&(&want >> m))), &format!("{name}_halves"));
    if !satisfied(c, &cs, name) {
        return;
    }
    // another result with the honest helpers
    let out = c.pick(&[a, b]);
    if out > 1 {
        let mut w = cs.clone();
        *w.witness_mut(out) += F::from(c.rng.gen_range(1u64..1 << 20));
        let pis = w.public_input().unwrap();
        c.check(w.check_circuit_satisfiability(&pis).is_err(), &format!("{name}_tamper"), || "satisfied".into());
    }
    // another result with helpers to match: the two halves of a false answer,
    // or any other variable, are set and the rest is solved for
    if r < 16 {
        if let Ok(sys) = Sys::new(&cs) {
            let wit = circ::witness(&cs);
            let pis = cs.public_input().unwrap();
            let congruent = |w: &[F]| ((gen::int(&w[b]) << m) + gen::int(&w[a])) % &p == want;
            let mut set: Vec<(Variable, F)> = inputs.iter().map(|v| (*v, wit[*v])).collect();
            for _ in 0..3 {
                let x = match c.below(4) {
                    0 => (&want + 1u8) % &p,
                    1 => &want + &p,
                    2 => BigUint::from(0u8),
                    _ => gen::int(&gen::rand_field::<F>(c)) % &p,
                };
                if a < 2 || b < 2 {
                    continue;
                }
                set.truncate(inputs.len());
                set.extend([(a, low(&x)), (b, gen::from_int(&(&x >> m)))]);
                if let Some(w) = sys.forge(&wit, &pis, &set, &HashMap::new()) {
                    c.check(congruent(&w), &format!("{name}_forged"), || format!("{x} in place of {want} modulo {p}"));
                    c.ev("other_assignment");
                }
                c.ev("forgery");
            }
            tamper(c, &cs, &inputs, &congruent, name);
            // quotients, carries and digits off by one, and each half alone
            let small: Vec<Variable> = (from..wit.len()).filter(|v| wit[*v] < F::from(1u64 << (r + 1))).collect();
            let mut tries: Vec<(Variable, F)> = vec![];
            for v in [a, b] {
                let d = gen::rand_field::<F>(c);
                tries.extend([(v, wit[v] + F::one()), (v, wit[v] + d)]);
            }
            if let Some(v) = small.first() {
                tries.push((*v, wit[*v] + F::one()));
            }
            for _ in 0..6 {
                if !small.is_empty() {
                    let v = c.pick(&small);
                    tries.push((v, wit[v] + if c.coin() { F::one() } else { -F::one() }));
                }
            }
            for (v, x) in tries {
                if v < 2 || inputs.contains(&v) {
                    continue;
                }
                set.truncate(inputs.len());
                set.push((v, x));
                if let Some(w) = sys.forge(&wit, &pis, &set, &HashMap::new()) {
                    c.check(congruent(&w), &format!("{name}_forged"), || format!("variable {v}: {x} in place of {}", wit[v]));
                    c.ev("other_assignment");
                }
                c.ev("forgery");
            }
        }
    }
    // halves of another size
    let other = if m > r { m - r } else { m + r };
    if name == "mod_mul" || name == "mod_add" {
        let pe = FpElem::new(&gen::from_int::<F>(&p), other, None).unwrap();
        let e = if name == "mod_mul" { cs.mod_mul(&xv, &yv, &pe) } else { cs.mod_add(&xv, &yv, &pe) };
        c.check(e.is_err(), "mismatched_halves", || "accepted".into());
    }
}
