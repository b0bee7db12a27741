//! R04: curve gadgets against affine arithmetic on the real curves, with the
//! rigidity and forgery monitors of R02.

use crate::basic::{holds, input, noise, refused};
use ark_ec::{
    twisted_edwards::{Affine, Projective, TECurveConfig},
    AffineRepr, CurveConfig, CurveGroup,
};
use ark_ff::{PrimeField, UniformRand};
use circ::Sys;
use jf_relation::{
    gadgets::ecc::{MultiScalarMultiplicationCircuit, PointVariable, SWToTEConParam, TEPoint},
    BoolVar, Circuit, PlonkCircuit, Variable,
};
use num_bigint::BigUint;
use std::collections::HashMap;
use vh::{gen, guard, Case};

type Pt<P> = Affine<P>;

/// Points of the group of prime order.
fn point<P: TECurveConfig>(c: &mut Case) -> Pt<P> {
    match c.below(6) {
        0 => Pt::<P>::zero(),
        1 => Pt::<P>::generator(),
        2 => -Pt::<P>::generator(),
        _ => Projective::<P>::rand(&mut c.rng).into_affine(),
    }
}

fn times<P: TECurveConfig>(p: &Pt<P>, k: &BigUint) -> Pt<P> {
    p.mul_bigint(k.to_u64_digits()).into_affine()
}

/// Scalars near the places where windows, halves and moduli end.
fn scalar<F: PrimeField>(c: &mut Case, r: &BigUint, bits: usize) -> BigUint {
    let one = BigUint::from(1u8);
    let top = &one << bits;
    let x = match c.below(10) {
        0 => BigUint::from(c.below(40) as u32),
        1 => r - BigUint::from(c.below(3) as u32),
        2 => r + BigUint::from(c.below(3) as u32),
        3 => &top - &one,
        4 => &one << c.below(bits),
        5 => (&one << c.range(1, bits)) - &one,
        _ => gen::int(&gen::rand_field::<F>(c)),
    };
    x % top
}

fn create<F: PrimeField, P: TECurveConfig<BaseField = F>>(
    c: &mut Case,
    cs: &mut PlonkCircuit<F>,
    p: &Pt<P>,
) -> PointVariable {
    let t = TEPoint::from(*p);
    match c.below(6) {
        0 => cs.create_constant_point_variable(t).unwrap(),
        1 => cs.create_public_point_variable(t).unwrap(),
        _ => cs.create_point_variable(t).unwrap(),
    }
}

fn xy(p: &PointVariable) -> [Variable; 2] {
    [p.get_x(), p.get_y()]
}

fn boolean<F: PrimeField>(c: &mut Case, cs: &mut PlonkCircuit<F>, b: bool) -> BoolVar {
    if c.below(4) == 0 {
        let v = cs.create_public_boolean_variable(b).unwrap();
        return v;
    }
    cs.create_boolean_variable(b).unwrap()
}

fn lookup_circuit<F: PrimeField>(c: &mut Case) -> PlonkCircuit<F> {
    let r = c.range(2, 9);
    PlonkCircuit::new_ultra_plonk(r)
}

fn any_circuit<F: PrimeField>(c: &mut Case) -> PlonkCircuit<F> {
    if c.coin() { PlonkCircuit::new_turbo_plonk() } else { lookup_circuit(c) }
}

fn same<F: PrimeField, P: TECurveConfig<BaseField = F>>(
    c: &mut Case,
    cs: &PlonkCircuit<F>,
    got: &PointVariable,
    want: &Pt<P>,
    sig: &str,
) {
    let g = cs.point_witness(got).unwrap();
    c.check(TEPoint::from(*want) == g, sig, || format!("{g:?} in place of {want:?}"));
}

const POINT_OPS: &[&str] = &[
    "create", "select", "enforce_equal", "is_equal", "inverse", "is_neutral", "on_curve", "add",
];

/// One gadget on whole points.
pub fn points<P: TECurveConfig>(c: &mut Case)
where
    P::BaseField: PrimeField,
{
    let name = POINT_OPS[c.idx % POINT_OPS.len()];
    let mut cs: PlonkCircuit<P::BaseField> = any_circuit(c);
    noise(c, &mut cs);
    let p = point::<P>(c);
    let q = match c.below(4) {
        0 => p,
        1 => -p,
        2 => {
            // the same y, or a point that differs in one coordinate only
            Pt::<P>::new_unchecked(p.x, -p.y)
        },
        _ => point::<P>(c),
    };
    c.key((name, cs.support_lookup(), p == q, p == -q, p.is_zero(), q.is_zero()));
    c.ev(name);
    match name {
        "create" => {
            let v = create(c, &mut cs, &p);
            same(c, &cs, &v, &p, "create");
            let t = TEPoint::from(p);
            c.check(t.get_x() == p.x && t.get_y() == p.y, "coordinates", || format!("{t:?} for {p:?}"));
            let back: Pt<P> = t.into();
            c.check(back == p, "affine", || format!("{back:?} for {p:?}"));
            let back: Projective<P> = t.into();
            c.check(back == p.into_group(), "projective", || format!("{back:?} for {p:?}"));
            c.check(TEPoint::from(p.into_group()) == t, "from_projective", || format!("{p:?}"));
            c.check(t.inverse() == TEPoint::from(-p), "point_inverse", || format!("{p:?}"));
            let z = cs.neutral_point_variable();
            same(c, &cs, &z, &Pt::<P>::zero(), "neutral");
            // constants and public points are fixed by the circuit
            let t = TEPoint::from(p);
            let v = cs.create_constant_point_variable(t).unwrap();
            holds(c, &cs, &[], &xy(&v), "constant_point");
            let before = cs.public_input().unwrap().len();
            let v = cs.create_public_point_variable(t).unwrap();
            let pis = cs.public_input().unwrap();
            c.check(pis[before..] == [p.x, p.y], "public_point", || format!("{:?} for {p:?}", &pis[before..]));
            holds(c, &cs, &[], &xy(&v), "public_point");
        },
        "select" => {
            let b = c.coin();
            let bv = boolean(c, &mut cs, b);
            let (pv, qv) = (create(c, &mut cs, &p), create(c, &mut cs, &q));
            let s = cs.binary_point_vars_select(bv, &pv, &qv).unwrap();
            same(c, &cs, &s, if b { &q } else { &p }, "select");
            let i = [&[bv.into()][..], &xy(&pv), &xy(&qv)].concat();
            holds(c, &cs, &i, &xy(&s), "select");
        },
        "enforce_equal" => {
            let (pv, qv) = (create(c, &mut cs, &p), create(c, &mut cs, &q));
            let built = guard(|| cs.enforce_point_equal(&pv, &qv));
            let i = [xy(&pv), xy(&qv)].concat();
            if p == q {
                c.check(matches!(built, Ok(Ok(()))), "enforce_equal", || format!("{built:?}"));
                holds(c, &cs, &i, &[], "enforce_equal");
            } else {
                refused(c, &cs, &i, built, "enforce_equal");
            }
        },
        "is_equal" => {
            let (pv, qv) = (create(c, &mut cs, &p), create(c, &mut cs, &q));
            let b = cs.is_point_equal(&pv, &qv).unwrap();
            let got = cs.witness(b.into()).unwrap();
            c.eq(&got, &P::BaseField::from((p == q) as u64), "is_equal");
            holds(c, &cs, &[xy(&pv), xy(&qv)].concat(), &[b.into()], "is_equal");
        },
        "inverse" => {
            let pv = create(c, &mut cs, &p);
            let v = cs.inverse_point(&pv).unwrap();
            same(c, &cs, &v, &-p, "inverse");
            holds(c, &cs, &xy(&pv), &xy(&v), "inverse");
        },
        "is_neutral" => {
            let p = match c.below(4) {
                0 => Pt::<P>::zero(),
                1 => -Pt::<P>::new_unchecked(Pt::<P>::zero().x, -Pt::<P>::zero().y),
                2 => Pt::<P>::new_unchecked(p.x, Pt::<P>::zero().y),
                _ => p,
            };
            let pv = create(c, &mut cs, &p);
            let b = cs.is_neutral_point::<P>(&pv).unwrap();
            let want = p.x == Pt::<P>::zero().x && p.y == Pt::<P>::zero().y;
            let got = cs.witness(b.into()).unwrap();
            c.eq(&got, &P::BaseField::from(want as u64), "is_neutral");
            holds(c, &cs, &xy(&pv), &[b.into()], "is_neutral");
        },
        "on_curve" => {
            let mut p = p;
            match c.below(6) {
                0 => p.x += P::BaseField::from(1u64),
                1 => p.y += P::BaseField::from(1u64),
                2 => std::mem::swap(&mut p.x, &mut p.y),
                3 => p = Pt::<P>::new_unchecked(gen::field(c), gen::field(c)),
                _ => {},
            }
            // the equation itself, not the library's opinion
            let (x2, y2) = (p.x * p.x, p.y * p.y);
            let on = P::COEFF_A * x2 + y2 == P::BaseField::from(1u64) + P::COEFF_D * x2 * y2;
            let pv = create(c, &mut cs, &p);
            let built = guard(|| cs.enforce_on_curve::<P>(&pv));
            c.ev(if on { "point_on_curve" } else { "point_off_curve" });
            if on {
                c.check(matches!(built, Ok(Ok(()))), "on_curve", || format!("{built:?}"));
                holds(c, &cs, &xy(&pv), &[], "on_curve");
            } else {
                refused(c, &cs, &xy(&pv), built, "on_curve");
            }
        },
        _ => {
            let q = if q == -p || q == p { q } else { point::<P>(c) };
            let (pv, qv) = (create(c, &mut cs, &p), create(c, &mut cs, &q));
            let v = cs.ecc_add::<P>(&pv, &qv).unwrap();
            same(c, &cs, &v, &(p + q).into_affine(), "add");
            holds(c, &cs, &[xy(&pv), xy(&qv)].concat(), &xy(&v), "add");
        },
    }
}

const MUL_OPS: &[&str] = &["fixed", "variable", "binary", "msm", "msm_length"];

/// Scalar multiplications: value, satisfiability, and outputs bound.
pub fn multiples<P: TECurveConfig>(c: &mut Case)
where
    P::BaseField: PrimeField,
{
    let name = MUL_OPS[c.idx % MUL_OPS.len()];
    let bits = <P as CurveConfig>::ScalarField::MODULUS_BIT_SIZE as usize;
    let r = gen::modulus::<P::ScalarField>();
    let mut cs: PlonkCircuit<P::BaseField> = any_circuit(c);
    let ultra = cs.support_lookup();
    noise(c, &mut cs);
    // the endomorphism needs a point other than the neutral one
    let is_glv = ultra && bits == 253 && P::BaseField::MODULUS_BIT_SIZE == 255;
    c.ev(name);
    match name {
        "fixed" => {
            let p = point::<P>(c);
            let k = scalar::<P::BaseField>(c, &r, bits);
            let kv = input(c, &mut cs, gen::from_int(&k));
            let v = cs.fixed_base_scalar_mul(kv, &p).unwrap();
            c.key((name, ultra, k.bits(), p.is_zero()));
            same(c, &cs, &v, &times(&p, &k), "fixed");
            holds(c, &cs, &[kv], &xy(&v), "fixed");
        },
        "variable" => {
            let p = loop {
                let p = point::<P>(c);
                if !is_glv || !p.is_zero() {
                    break p;
                }
            };
            let mut k = scalar::<P::BaseField>(c, &r, bits);
            if is_glv {
                // this path takes reduced scalars only
                k %= &r;
            }
            let kv = input(c, &mut cs, gen::from_int(&k));
            let pv = create(c, &mut cs, &p);
            let v = cs.variable_base_scalar_mul::<P>(kv, &pv).unwrap();
            c.key((name, ultra, k.bits(), p.is_zero()));
            same(c, &cs, &v, &times(&p, &k), "variable");
            holds(c, &cs, &[&[kv][..], &xy(&pv)].concat(), &xy(&v), "variable");
        },
        "binary" => {
            let p = point::<P>(c);
            let n = if c.coin() { c.below(12) } else { c.range(12, 40) };
            let kb: Vec<bool> = (0..n).map(|_| c.coin()).collect();
            let k = kb.iter().rev().fold(BigUint::from(0u8), |a, b| a * 2u8 + *b as u8);
            let kv: Vec<BoolVar> = kb.iter().map(|b| boolean(c, &mut cs, *b)).collect();
            let pv = create(c, &mut cs, &p);
            let v = cs.variable_base_binary_scalar_mul::<P>(&kv, &pv).unwrap();
            c.key((name, ultra, n, p.is_zero()));
            same(c, &cs, &v, &times(&p, &k), "binary");
            let mut i: Vec<Variable> = kv.iter().map(|b| (*b).into()).collect();
            i.extend(xy(&pv));
            holds(c, &cs, &i, &xy(&v), "binary");
        },
        _ => {
            let n = c.range(1, 3);
            let len = if name == "msm" { bits } else { c.range(1, 70) };
            let ps: Vec<Pt<P>> = (0..n).map(|_| point::<P>(c)).collect();
            let ks: Vec<BigUint> = (0..n).map(|_| scalar::<P::BaseField>(c, &r, len)).collect();
            let want = ps
                .iter()
                .zip(&ks)
                .fold(Projective::<P>::from(Pt::<P>::zero()), |a, (p, k)| a + times(p, k))
                .into_affine();
            let pv: Vec<PointVariable> = ps.iter().map(|p| create(c, &mut cs, p)).collect();
            let kv: Vec<Variable> = ks.iter().map(|k| input(c, &mut cs, gen::from_int(k))).collect();
            let v = if name == "msm" {
                MultiScalarMultiplicationCircuit::<P::BaseField, P>::msm(&mut cs, &pv, &kv)
            } else {
                MultiScalarMultiplicationCircuit::<P::BaseField, P>::msm_with_var_scalar_length(&mut cs, &pv, &kv, len)
            };
            c.key((name, ultra, n, len, ks.iter().map(|k| k.bits()).collect::<Vec<_>>()));
            let Some(v) = c.ok(v, name) else { return };
            same(c, &cs, &v, &want, name);
            let mut i = kv.clone();
            for p in &pv {
                i.extend(xy(p));
            }
            holds(c, &cs, &i, &xy(&v), name);
            // scalars and bases of different number
            let short = guard(|| {
                MultiScalarMultiplicationCircuit::<P::BaseField, P>::msm(&mut cs.clone(), &pv, &kv[1..])
            });
            c.check(matches!(short, Ok(Err(_))), "msm_mismatch", || "accepted".into());
            // a scalar that does not fit the stated length
            if name == "msm_length" {
                let mut cs: PlonkCircuit<P::BaseField> = if ultra { lookup_circuit(c) } else { PlonkCircuit::new_turbo_plonk() };
                let k = (BigUint::from(1u8) << len) + scalar::<P::BaseField>(c, &r, len);
                let kv = cs.create_variable(gen::from_int(&k)).unwrap();
                let pv = create(c, &mut cs, &ps[0]);
                let built = guard(|| {
                    MultiScalarMultiplicationCircuit::<P::BaseField, P>::msm_with_var_scalar_length(
                        &mut cs, &[pv], &[kv], len,
                    )
                    .map(|_| ())
                });
                let i = [&[kv][..], &xy(&pv)].concat();
                refused(c, &cs, &i, built, "msm_too_long");
            }
        },
    }
}

/// Sums of multiples for every number of bases and every length of scalars.
pub fn msm_sizes<P: TECurveConfig>(c: &mut Case)
where
    P::BaseField: PrimeField,
{
    let r = gen::modulus::<P::ScalarField>();
    let ultra = c.coin();
    let (n, len) = if c.idx % 3 == 0 {
        (1 + c.idx as usize / 3 % 20, c.range(1, 12))
    } else {
        (c.range(1, 2), 1 + (c.idx as usize / 3 * 2 + c.idx as usize % 3 - 1) % 130)
    };
    let mut cs: PlonkCircuit<P::BaseField> = if ultra { lookup_circuit(c) } else { PlonkCircuit::new_turbo_plonk() };
    let ps: Vec<Pt<P>> = (0..n).map(|_| Projective::<P>::rand(&mut c.rng).into_affine()).collect();
    let ks: Vec<BigUint> = (0..n)
        .map(|_| if c.coin() { (BigUint::from(1u8) << len) - 1u8 } else { scalar::<P::BaseField>(c, &r, len) })
        .collect();
    let want = ps
        .iter()
        .zip(&ks)
        .fold(Projective::<P>::from(Pt::<P>::zero()), |a, (p, k)| a + times(p, k))
        .into_affine();
    let pv: Vec<PointVariable> = ps.iter().map(|p| cs.create_point_variable(TEPoint::from(*p)).unwrap()).collect();
    let kv: Vec<Variable> = ks.iter().map(|k| cs.create_variable(gen::from_int(k)).unwrap()).collect();
    c.key(("sizes", ultra, n, len));
    c.sample(|| format!("{n} bases, scalars of {len} bits"));
    let v = MultiScalarMultiplicationCircuit::<P::BaseField, P>::msm_with_var_scalar_length(&mut cs, &pv, &kv, len);
    let Some(v) = c.ok(v, "msm_sizes") else { return };
    same(c, &cs, &v, &want, "msm_sizes");
    let sat = cs.check_circuit_satisfiability(&[]);
    c.check(sat.is_ok(), "msm_sizes_complete", || format!("{n} bases, {len} bits: {sat:?}"));
    c.ev("msm_sizes");
}

/// A prover who writes the windows of `k` plus the size of the field.
pub fn window_alias<P: TECurveConfig>(c: &mut Case)
where
    P::BaseField: PrimeField,
{
    let q = gen::modulus::<P::BaseField>();
    let bits = <P as CurveConfig>::ScalarField::MODULUS_BIT_SIZE as usize;
    let r = gen::modulus::<P::ScalarField>();
    let mut cs: PlonkCircuit<P::BaseField> = lookup_circuit(c);
    let p: Pt<P> = Projective::<P>::rand(&mut c.rng).into_affine();
    let small = if c.coin() { 200 } else { bits };
    let k = scalar::<P::BaseField>(c, &r, small);
    let kv = cs.create_variable(gen::from_int(&k)).unwrap();
    let pv = cs.create_point_variable(TEPoint::from(p)).unwrap();
    let built = MultiScalarMultiplicationCircuit::<P::BaseField, P>::msm(&mut cs, &[pv], &[kv]);
    let Some(v) = c.ok(built, "msm") else { return };
    let other = &k + &q;
    let wrong = times(&p, &other);
    c.ev("alias_tried");
    c.key((k.bits(), other.bits()));
    let mut set: Vec<(Variable, P::BaseField)> = vec![(kv, gen::from_int(&k)), (pv.get_x(), p.x), (pv.get_y(), p.y)];
    // the windows follow the base point, lowest first
    for w in [3usize, 4, 5, 6] {
        if w < 64 {
            let m = (bits - 1) / w + 1;
            if &other >> (w * m) != BigUint::from(0u8) {
                continue;
            }
            let start = pv.get_y() + 1;
            let mut s = set.clone();
            for i in 0..m {
                let d = (&other >> (w * i)) & ((BigUint::from(1u8) << w) - 1u8);
                s.push((start + i, gen::from_int(&d)));
            }
            s.push((v.get_x(), wrong.x));
            s.push((v.get_y(), wrong.y));
            let wit = circ::witness(&cs);
            let got = Sys::new(&cs).unwrap().forge(&wit, &[], &s, &HashMap::new());
            c.check(got.is_none(), "window_alias", || format!("{k} times {p:?} is {wrong:?}"));
            c.ev("forgery");
        }
    }
    set.push((v.get_x(), wrong.x));
    set.push((v.get_y(), wrong.y));
    let wit = circ::witness(&cs);
    let got = Sys::new(&cs).unwrap().forge(&wit, &[], &set, &HashMap::new());
    c.check(got.is_none(), "window_alias", || format!("{k} times {p:?} is {wrong:?}"));
}

/// Short Weierstrass points in Edwards form: the map is a homomorphism onto
/// the Edwards curve.
pub fn conversion(c: &mut Case) {
    use ark_bls12_377::{g1::Config, Fq, G1Affine, G1Projective, G1TEAffine};
    let pick = |c: &mut Case| match c.below(5) {
        0 => G1Affine::zero(),
        1 => G1Affine::generator(),
        _ => G1Projective::rand(&mut c.rng).into_affine(),
    };
    let p = pick(c);
    let q = match c.below(4) {
        0 => p,
        1 => -p,
        _ => pick(c),
    };
    fn te(p: G1Affine) -> G1TEAffine {
        let t: TEPoint<Fq> = p.into();
        G1TEAffine::new_unchecked(t.get_x(), t.get_y())
    }
    fn is_param<F: SWToTEConParam>() {}
    is_param::<Fq>();
    c.key((p.is_zero(), q.is_zero(), p == q, p == -q, c.idx));
    c.ev("conversion");
    let (a, b) = (te(p), te(q));
    c.check(a.is_on_curve() && a.is_in_correct_subgroup_assuming_on_curve(), "conversion_curve", || format!("{p:?}"));
    c.check(te((p + q).into_affine()) == (a + b).into_affine(), "conversion_sum", || format!("{p:?} + {q:?}"));
    c.check((a == b) == (p == q), "conversion_injective", || format!("{p:?}, {q:?}"));
    c.check(a.is_zero() == p.is_zero(), "conversion_zero", || format!("{p:?}"));
    let _ = <Config as TECurveConfig>::COEFF_D;
}

/// Scalars of every length in turn, from either end of the group.
pub fn every_scalar<P: TECurveConfig>(c: &mut Case)
where
    P::BaseField: PrimeField,
{
    let r = gen::modulus::<P::ScalarField>();
    // all lengths for each of the curves
    let n = (c.idx / 40 * 8 + c.idx % 8) % (r.bits() as usize + 1);
    let mut cs: PlonkCircuit<P::BaseField> = any_circuit(c);
    let p: Pt<P> = Projective::<P>::rand(&mut c.rng).into_affine();
    let pv = cs.create_point_variable(TEPoint::from(p)).unwrap();
    let one = BigUint::from(1u8);
    for up in [true, false] {
        let x = gen::int(&gen::rand_field::<P::ScalarField>(c)) % (&one << n);
        let x = if n > 0 { x | &one << (n - 1) } else { x };
        let k = if up { x % &r } else { (&r - x % &r) % &r };
        let kv = cs.create_variable(gen::from_int(&k)).unwrap();
        c.ev("multiple");
        c.key((cs.support_lookup(), k.bits()));
        let v = cs.variable_base_scalar_mul::<P>(kv, &pv).unwrap();
        same(c, &cs, &v, &times(&p, &k), "variable");
        let v = cs.fixed_base_scalar_mul(kv, &p).unwrap();
        same(c, &cs, &v, &times(&p, &k), "fixed");
        let done = cs.check_circuit_satisfiability(&[]);
        if !c.check(done.is_ok(), "scalar_complete", || format!("{k} refused: {done:?}")) {
            return;
        }
    }
}

/// The endomorphism shortcut with the neutral point as base.
pub fn glv_neutral(c: &mut Case) {
    type P = ark_ed_on_bls12_381_bandersnatch::EdwardsConfig;
    let mut cs: PlonkCircuit<ark_bls12_381::Fr> = lookup_circuit(c);
    let k: ark_bls12_381::Fr = gen::from_int(&gen::int(&gen::field::<<P as CurveConfig>::ScalarField>(c)));
    let kv = cs.create_variable(k).unwrap();
    let pv = cs.create_point_variable(TEPoint::from(Pt::<P>::zero())).unwrap();
    c.ev("neutral_base");
    c.key(gen::int(&k).bits());
    match guard(|| cs.variable_base_scalar_mul::<P>(kv, &pv)) {
        Ok(Ok(v)) => {
            same(c, &cs, &v, &Pt::<P>::zero(), "glv_neutral");
            holds(c, &cs, &[&[kv][..], &xy(&pv)].concat(), &xy(&v), "glv_neutral");
        },
        e => c.fail("glv_neutral", format!("{e:?}")),
    }
}

/// A prover who splits `k` plus a multiple of the size of the field in place
/// of `k`.
pub fn glv_alias(c: &mut Case) {
    use num_bigint::BigInt;
    type P = ark_ed_on_bls12_381_bandersnatch::EdwardsConfig;
    type F = ark_bls12_381::Fr;
    let q = gen::modulus::<F>();
    let r = gen::modulus::<<P as CurveConfig>::ScalarField>();
    let p: Pt<P> = Projective::<P>::rand(&mut c.rng).into_affine();
    c.ev("alias_tried");
    let k = gen::int(&gen::rand_field::<<P as CurveConfig>::ScalarField>(c));
    let j = c.range(1, 3) as u32;
    let other = &k + &q * j;
    let k2 = &other % &r;
    let mut cs: PlonkCircuit<F> = lookup_circuit(c);
    let kv = cs.create_variable(gen::from_int(&k2)).unwrap();
    let pv = cs.create_point_variable(TEPoint::from(p)).unwrap();
    let v = cs.variable_base_scalar_mul::<P>(kv, &pv).unwrap();
    let wit = circ::witness(&cs);
    // the two halves, their sign, the quotient and two carries follow the base
    let at = pv.get_y() + 1;
    let positive = wit[at + 2] == F::from(1u64);
    let sign = BigInt::from(if positive { 1 } else { -1 });
    let t = BigInt::from(gen::int(&wit[at + 3])) * &sign + BigInt::from((&other - &k2) / &r);
    let half = BigInt::from(1u8) << 128;
    let low = |x: &BigUint| BigInt::from(x.clone()) % &half;
    let lambda = {
        // from (quotient, halves) of the honest split
        let (a, b) = (BigInt::from(gen::int(&wit[at])), BigInt::from(gen::int(&wit[at + 1])) * &sign);
        let t0 = BigInt::from(gen::int(&wit[at + 3])) * &sign;
        if b == BigInt::from(0) {
            return;
        }
        (t0 * BigInt::from(r.clone()) + a - BigInt::from(k2.clone())) / b
    };
    let Some(lambda) = lambda.to_biguint() else { return };
    let (a, b) = (BigInt::from(gen::int(&wit[at])), BigInt::from(gen::int(&wit[at + 1])) * &sign);
    let carry = low(&lambda) * &b + BigInt::from(other.clone()) - &t * low(&r) - &a;
    let f = |x: &BigInt| -> F {
        let m = BigInt::from(q.clone());
        gen::from_int(&(((x % &m) + &m) % &m).to_biguint().unwrap())
    };
    let p2 = times(&p, &k2);
    let set = [
        (kv, gen::from_int(&k)),
        (pv.get_x(), p.x),
        (pv.get_y(), p.y),
        (at, wit[at]),
        (at + 1, wit[at + 1]),
        (at + 2, wit[at + 2]),
        (at + 3, f(&(&t * &sign))),
        (at + 4, f(&carry)),
        (at + 5, f(&(&carry / &half))),
        (v.get_x(), p2.x),
        (v.get_y(), p2.y),
    ];
    c.key((positive, j, carry.bits()));
    let got = Sys::new(&cs).unwrap().forge(&wit, &[], &set, &HashMap::new());
    c.check(got.is_none(), "glv_alias", || format!("{k} times {p:?} is {p2:?}"));
    c.ev("forgery");
}
