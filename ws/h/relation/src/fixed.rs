//! R08: the statement a circuit makes depends on how it is built, never on the
//! values it is built with. The same calls are made on several sets of values
//! and the finished circuits are compared: gates, wiring, public rows, tables.

use ark_ec::{short_weierstrass as sw, twisted_edwards as te, AffineRepr, CurveConfig, CurveGroup};
use ark_ff::{PrimeField, UniformRand};
use circ::Sys;
use jf_elgamal::gadgets::ElGamalEncryptionGadget;
use jf_elgamal::KeyPair as EncPair;
use jf_merkle_tree::{
    gadgets::{MerkleTreeGadget, UniversalMerkleTreeGadget},
    prelude::{MerkleTreeProof, RescueMerkleTree, RescueSparseMerkleTree},
};
use jf_relation::{
    gadgets::{
        ecc::{MultiScalarMultiplicationCircuit, TEPoint},
        ultraplonk::mod_arith::{FpElem, FpElemVar},
        EmulationConfig,
    },
    BoolVar, Circuit, CircuitError, PlonkCircuit, Variable,
};
use jf_rescue::{
    gadgets::{commitment::CommitmentGadget, prf::PRFGadget, RescueNativeGadget, RescueNonNativeGadget, RescueStateVar},
    RescueParameter,
};
use jf_signature::{constants::CS_ID_SCHNORR, gadgets::schnorr::SignatureGadget, schnorr::KeyPair};
use jf_utils::fr_to_fq;
use num_bigint::BigUint;
use std::collections::HashMap;
use vh::{gen, guard, Case};

type R<T> = Result<T, CircuitError>;

/// Everything the prover and the verifier fix in advance, with the variables
/// numbered in the order in which they turn up on the wires.
#[derive(PartialEq)]
struct Statement<F> {
    size: usize,
    public_rows: Vec<usize>,
    gates: Vec<Vec<F>>,
    wires: Vec<Vec<usize>>,
    tables: Vec<Vec<F>>,
}

fn statement<F: PrimeField>(cs: &PlonkCircuit<F>) -> Result<Statement<F>, String> {
    let s = Sys::new(cs)?;
    let mut seen: HashMap<usize, usize> = HashMap::new();
    let mut number = |v: usize| {
        let n = seen.len();
        *seen.entry(v).or_insert(n)
    };
    let gates = s
        .rows
        .iter()
        .map(|r| [&r.lc[..], &r.mul, &r.hash, &[r.o, r.c, r.ecc]].concat())
        .collect();
    let mut wires: Vec<Vec<usize>> = s.rows.iter().map(|r| r.w.iter().map(|v| number(*v)).collect()).collect();
    let mut tables = vec![];
    if let Some(l) = &s.lookup {
        wires.push(l.rv.iter().map(|v| number(*v)).collect());
        tables = vec![l.q.clone(), l.q_dom.clone(), l.t_dom.clone(), l.t_key.clone(), l.range.clone()];
    }
    Ok(Statement { size: s.n, public_rows: s.pi_at, gates, wires, tables })
}

fn differ<F: PrimeField>(a: &Statement<F>, b: &Statement<F>) -> String {
    if a.size != b.size || a.public_rows != b.public_rows {
        return format!("{} rows, public {:?}; {} rows, public {:?}", a.size, a.public_rows, b.size, b.public_rows);
    }
    for i in 0..a.size {
        if a.gates[i] != b.gates[i] {
            return format!("gate {i}");
        }
        if a.wires[i] != b.wires[i] {
            return format!("wires of gate {i}: {:?} and {:?}", a.wires[i], b.wires[i]);
        }
    }
    "tables or range wire".into()
}

/// Builds with each set of values in turn. Sets that are refused while
/// building are left out.
fn alike<F: PrimeField>(
    c: &mut Case,
    name: &str,
    slots: Option<usize>,
    sets: usize,
    build: &dyn Fn(&mut PlonkCircuit<F>, usize) -> R<()>,
) {
    let mut first: Option<(usize, Statement<F>)> = None;
    let mut same = 0;
    for i in 0..sets {
        let mut cs = match slots {
            None => PlonkCircuit::new_turbo_plonk(),
            Some(r) => PlonkCircuit::new_ultra_plonk(r),
        };
        match guard(|| build(&mut cs, i)) {
            Ok(Ok(())) => {},
            _ => {
                c.ev("values_refused");
                continue;
            },
        }
        let s = match statement(&cs) {
            Ok(s) => s,
            Err(e) => return c.fail(&format!("{name}_final"), e),
        };
        match &first {
            None => first = Some((i, s)),
            Some((j, f)) => {
                let ok = c.check(*f == s, &format!("{name}_statement"), || {
                    format!("values {j} and {i} (slots {slots:?}): {}", differ(f, &s))
                });
                if !ok {
                    return;
                }
                same += 1;
            },
        }
    }
    c.ev_n("statements_compared", same);
    c.ev(name);
    c.key((name.to_string(), slots, first.map(|f| f.1.size)));
}

fn slots(c: &mut Case) -> Option<usize> {
    if c.coin() {
        None
    } else {
        Some(c.range(2, 9))
    }
}

const SETS: usize = 6;

/// Sets of values: zeros, ones, all the same, and unrelated ones of every kind.
fn values<F: PrimeField>(c: &mut Case, n: usize) -> Vec<Vec<F>> {
    let same: F = gen::rand_field(c);
    vec![
        (0..n).map(|_| gen::rand_field(c)).collect(),
        vec![F::zero(); n],
        vec![F::one(); n],
        vec![same; n],
        (0..n).map(|i| same + F::from(i as u64)).collect(),
        gen::fields(c, n),
    ]
}

/// How each input enters the circuit, the same for every set of values.
fn kinds(c: &mut Case, n: usize) -> Vec<bool> {
    (0..n).map(|_| c.below(5) == 0).collect()
}

fn enter<F: PrimeField>(cs: &mut PlonkCircuit<F>, x: &[F], public: &[bool]) -> R<Vec<Variable>> {
    x.iter()
        .zip(public)
        .map(|(x, p)| if *p { cs.create_public_variable(*x) } else { cs.create_variable(*x) })
        .collect()
}

const BASIC: &[&str] = &[
    "add", "sub", "mul", "lc", "mul_add", "sum", "add_constant", "mul_constant", "power_11", "gen_quad_poly",
    "is_equal", "is_zero", "logic", "logic_and_all", "conditional_select", "compare", "enforce_compare",
    "compare_constant", "enforce_constant", "is_in_range", "unpack", "truncate", "enforce_in_range", "gates",
    "constant_gates", "table",
];

/// Arithmetic, logic, comparison, range and table gadgets.
pub fn basic_fixed<F: PrimeField>(c: &mut Case) {
    let name = BASIC[c.idx % BASIC.len()];
    let nbits = F::MODULUS_BIT_SIZE as usize;
    let mut r = slots(c);
    if matches!(name, "truncate" | "table") && r.is_none() {
        r = Some(c.range(2, 9));
    }
    let n = if matches!(name, "sum" | "logic_and_all") { c.range(1, 20) } else { 8 };
    let bits = match c.below(3) {
        0 => c.range(1, 9),
        1 => nbits - 1,
        _ => c.range(1, nbits - 1),
    };
    let mut vals: Vec<Vec<F>> = values(c, n);
    let fits = matches!(name, "unpack" | "enforce_in_range" | "is_in_range");
    if fits {
        // values that fit, at both ends and in between
        let top = (BigUint::from(1u8) << bits) - 1u8;
        for v in vals.iter_mut().flatten() {
            *v = gen::from_int(&(gen::int(v) & &top));
        }
        vals.push(vec![gen::from_int(&top); n]);
    }
    let k: Vec<F> = (0..8).map(|_| if c.coin() { F::from(c.below(3) as u64) } else { gen::field(c) }).collect();
    let kinds = kinds(c, n);
    let which = c.below(6);
    let sets = vals.len();
    alike::<F>(c, name, r, sets, &|cs, i| {
        let x = &vals[i];
        let bools = |cs: &mut PlonkCircuit<F>| -> R<Vec<BoolVar>> {
            x.iter().map(|x| cs.create_boolean_variable(gen::int(x).bit(0))).collect()
        };
        if matches!(name, "logic" | "logic_and_all") {
            let b = bools(cs)?;
            if name == "logic_and_all" {
                return cs.logic_and_all(&b).map(drop);
            }
            cs.logic_neg(b[0])?;
            cs.logic_and(b[1], b[2])?;
            cs.logic_or(b[3], b[4])?;
            return cs.logic_or_gate(b[5], b[6]);
        }
        let v = enter(cs, x, &kinds)?;
        let w = |i: usize| [v[i], v[i + 1], v[i + 2], v[i + 3]];
        match name {
            "add" => cs.add(v[0], v[1]).map(drop),
            "sub" => cs.sub(v[0], v[1]).map(drop),
            "mul" => cs.mul(v[0], v[1]).map(drop),
            "lc" => cs.lc(&w(0), &[k[0], k[1], k[2], k[3]]).map(drop),
            "mul_add" => cs.mul_add(&w(0), &[k[0], k[1]]).map(drop),
            "sum" => cs.sum(&v).map(drop),
            "add_constant" => cs.add_constant(v[0], &k[0]).map(drop),
            "mul_constant" => cs.mul_constant(v[0], &k[0]).map(drop),
            "power_11" => {
                cs.power_11_gen(v[0])?;
                cs.power_11_gate(v[1], v[2])
            },
            "gen_quad_poly" => {
                cs.gen_quad_poly(&w(0), &[k[0], k[1], k[2], k[3]], &[k[4], k[5]], k[6])?;
                let five = [v[0], v[1], v[2], v[3], v[4]];
                cs.quad_poly_gate(&five, &[k[0], k[1], k[2], k[3]], &[k[4], k[5]], k[7], k[6])?;
                cs.lc_gate(&five, &[k[3], k[2], k[1], k[0]])?;
                cs.mul_add_gate(&five, &[k[1], k[4]])
            },
            "is_equal" => {
                cs.is_equal(v[0], v[1])?;
                cs.enforce_equal(v[2], v[3])
            },
            "is_zero" => {
                cs.is_zero(v[0])?;
                cs.non_zero_gate(v[1])
            },
            "conditional_select" => {
                let b = cs.create_boolean_variable(gen::int(&x[0]).bit(0))?;
                cs.conditional_select(b, v[1], v[2]).map(drop)
            },
            "compare" => match which {
                0 => cs.is_lt(v[0], v[1]).map(drop),
                1 => cs.is_leq(v[0], v[1]).map(drop),
                2 => cs.is_gt(v[0], v[1]).map(drop),
                _ => cs.is_geq(v[0], v[1]).map(drop),
            },
            "enforce_compare" => match which {
                0 => cs.enforce_lt(v[0], v[1]),
                1 => cs.enforce_leq(v[0], v[1]),
                2 => cs.enforce_gt(v[0], v[1]),
                _ => cs.enforce_geq(v[0], v[1]),
            },
            "compare_constant" => match which {
                0 => cs.is_lt_constant(v[0], k[0]).map(drop),
                1 => cs.is_leq_constant(v[0], k[0]).map(drop),
                2 => cs.is_gt_constant(v[0], k[0]).map(drop),
                _ => cs.is_geq_constant(v[0], k[0]).map(drop),
            },
            "enforce_constant" => match which {
                0 => cs.enforce_lt_constant(v[0], k[0]),
                1 => cs.enforce_leq_constant(v[0], k[0]),
                2 => cs.enforce_gt_constant(v[0], k[0]),
                3 => cs.enforce_geq_constant(v[0], k[0]),
                _ => cs.enforce_constant(v[0], k[0]),
            },
            "is_in_range" => cs.is_in_range(v[0], bits).map(drop),
            "enforce_in_range" => cs.enforce_in_range(v[0], bits),
            "unpack" => cs.unpack(v[0], bits).map(drop),
            "truncate" => cs.truncate(v[0], bits).map(drop),
            "gates" => {
                cs.add_gate(v[0], v[1], v[2])?;
                cs.sub_gate(v[2], v[3], v[4])?;
                cs.mul_gate(v[4], v[5], v[6])?;
                cs.enforce_bool(v[7])?;
                cs.enforce_true(v[0])?;
                cs.enforce_false(v[1])
            },
            "constant_gates" => {
                cs.add_constant_gate(v[0], k[0], v[1])?;
                cs.mul_constant_gate(v[2], k[1], v[3])?;
                let u = cs.create_constant_variable(k[2])?;
                cs.add(u, v[4]).map(drop)
            },
            _ => {
                let table: Vec<(Variable, Variable)> = (0..3).map(|i| (v[i], v[i + 1])).collect();
                cs.create_table_and_lookup_variables(&[(v[5], v[6], v[7])], &table)
            },
        }
    });
}

/// Curve gadgets on points and scalars of every kind.
pub fn curve_fixed<P: te::TECurveConfig>(c: &mut Case)
where
    P::BaseField: PrimeField,
{
    type Pt<P> = te::Affine<P>;
    let bits = <P as CurveConfig>::ScalarField::MODULUS_BIT_SIZE as usize;
    let ops = ["points", "add", "fixed", "variable", "binary", "msm"];
    let name = ops[c.idx % 8 % ops.len()];
    let r = slots(c);
    let n = c.range(1, 3);
    let len = c.range(1, 40);
    let base = te::Projective::<P>::rand(&mut c.rng).into_affine();
    let one = BigUint::from(1u8);
    let rm = gen::modulus::<P::ScalarField>();
    let mut pts: Vec<Vec<Pt<P>>> = vec![];
    let mut ks: Vec<Vec<BigUint>> = vec![];
    for i in 0..SETS {
        let p = te::Projective::<P>::rand(&mut c.rng).into_affine();
        pts.push(match i {
            1 => vec![Pt::<P>::zero(); 3],
            2 => vec![Pt::<P>::generator(); 3],
            3 => vec![p, -p, p],
            4 => vec![p, Pt::<P>::zero(), -p],
            _ => (0..3).map(|_| te::Projective::<P>::rand(&mut c.rng).into_affine()).collect(),
        });
        let size = if name == "msm" { len } else { bits - 1 };
        let half: u64 = c.range(1, size) as u64;
        ks.push(
            (0..3)
                .map(|_| {
                    let x = match i {
                        1 => BigUint::from(0u8),
                        2 => one.clone(),
                        3 => (&one << size) - 1u8,
                        4 => &one << (half - 1),
                        _ => gen::int(&gen::rand_field::<P::ScalarField>(c)),
                    };
                    x % (&one << size) % &rm
                })
                .collect(),
        );
    }
    alike::<P::BaseField>(c, name, r, SETS, &|cs, i| {
        let p: Vec<_> =
            pts[i].iter().map(|p| cs.create_point_variable(TEPoint::from(*p))).collect::<R<Vec<_>>>()?;
        let k: Vec<Variable> =
            ks[i].iter().map(|k| cs.create_variable(gen::from_int(k))).collect::<R<Vec<_>>>()?;
        match name {
            "points" => {
                let b = cs.create_boolean_variable(ks[i][0].bit(0))?;
                cs.binary_point_vars_select(b, &p[0], &p[1])?;
                cs.is_point_equal(&p[0], &p[1])?;
                cs.enforce_point_equal(&p[0], &p[2])?;
                cs.inverse_point(&p[1])?;
                cs.is_neutral_point::<P>(&p[2])?;
                cs.enforce_on_curve::<P>(&p[0])
            },
            "add" => cs.ecc_add::<P>(&p[0], &p[1]).map(drop),
            "fixed" => cs.fixed_base_scalar_mul(k[0], &base).map(drop),
            "variable" => cs.variable_base_scalar_mul::<P>(k[0], &p[0]).map(drop),
            "binary" => {
                let b: Vec<BoolVar> = (0..len as u64)
                    .map(|j| cs.create_boolean_variable(ks[i][0].bit(j)))
                    .collect::<R<Vec<_>>>()?;
                cs.variable_base_binary_scalar_mul::<P>(&b, &p[0]).map(drop)
            },
            _ => MultiScalarMultiplicationCircuit::<P::BaseField, P>::msm_with_var_scalar_length(
                cs,
                &p[..n],
                &k[..n],
                len,
            )
            .map(drop),
        }
    });
}

/// Hashing, signature and encryption gadgets.
pub fn hash_fixed<P: te::TECurveConfig>(c: &mut Case)
where
    P::BaseField: RescueParameter,
{
    type Native<F> = RescueNativeGadget<F>;
    let ops = ["permutation", "prp", "sponge", "keyed", "commitment", "prf", "schnorr", "elgamal"];
    let name = ops[c.idx % ops.len()];
    let r = slots(c).map(|r| r.max(4));
    let n = c.range(1, 9);
    let m = c.range(1, 5);
    let vals: Vec<Vec<P::BaseField>> = values(c, 12);
    let kp: Vec<KeyPair<P>> = (0..SETS).map(|_| KeyPair::generate(&mut c.rng)).collect();
    let ep: Vec<EncPair<P>> = (0..SETS).map(|_| EncPair::generate(&mut c.rng)).collect();
    let rand: Vec<P::ScalarField> =
        (0..SETS).map(|i| if i % 2 == 0 { gen::rand_field(c) } else { gen::field(c) }).collect();
    let kinds = kinds(c, 12);
    alike::<P::BaseField>(c, name, r, SETS, &|cs, i| {
        let x = &vals[i];
        let v = enter(cs, x, &kinds)?;
        let state = |j: usize| RescueStateVar::from([v[j], v[j + 1], v[j + 2], v[j + 3]]);
        match name {
            "permutation" => Native::<P::BaseField>::rescue_permutation(cs, state(0)).map(drop),
            "prp" => Native::<P::BaseField>::prp(cs, &state(0), &state(4)).map(drop),
            "sponge" => {
                Native::<P::BaseField>::rescue_sponge_with_padding(cs, &v[..n], m)?;
                Native::<P::BaseField>::rescue_sponge_no_padding(cs, &v[..6], m).map(drop)
            },
            "keyed" => {
                Native::<P::BaseField>::rescue_full_state_keyed_sponge_with_zero_padding(cs, v[11], &v[..n])?;
                Native::<P::BaseField>::rescue_full_state_keyed_sponge_no_padding(cs, v[10], &v[..8]).map(drop)
            },
            "commitment" => CommitmentGadget::commit(cs, &v[..n], v[11]).map(drop),
            "prf" => PRFGadget::eval_prf(cs, v[11], &v[..n]).map(drop),
            "schnorr" => {
                let sig = kp[i].sign(&x[..n], CS_ID_SCHNORR);
                let key = SignatureGadget::<_, P>::create_signature_vk_variable(cs, kp[i].ver_key_ref())?;
                let sv = SignatureGadget::<_, P>::create_signature_variable(cs, &sig)?;
                SignatureGadget::<_, P>::check_signature_validity(cs, &key, &v[..n], &sv)?;
                SignatureGadget::<_, P>::verify_signature(cs, &key, &v[..n], &sv)
            },
            _ => {
                let key = ElGamalEncryptionGadget::<_, P>::create_enc_key_variable(cs, &ep[i].enc_key())?;
                let rv = cs.create_variable(fr_to_fq::<_, P>(&rand[i]))?;
                ElGamalEncryptionGadget::<_, P>::elgamal_encrypt(cs, &key, &v[..n], rv).map(drop)
            },
        }
    });
}

/// Arithmetic of a foreign field and points over it.
pub fn foreign_fixed<P: sw::SWCurveConfig, F: PrimeField>(c: &mut Case)
where
    P::BaseField: EmulationConfig<F>,
{
    let ops = ["arithmetic", "constants", "equality", "sw_add", "sw_other"];
    let name = ops[c.idx % ops.len()];
    let r = if c.coin() { None } else { Some(c.pick(&[8, 10, 11])) };
    let vals: Vec<Vec<P::BaseField>> = values(c, 4);
    let k: P::BaseField = gen::field(c);
    let pts: Vec<Vec<sw::Affine<P>>> = (0..SETS)
        .map(|i| {
            let mut g = || sw::Projective::<P>::rand(&mut c.rng).into_affine();
            let (p, q) = (g(), g());
            match i {
                1 => vec![sw::Affine::identity(), q],
                2 => vec![p, p],
                3 => vec![p, -p],
                4 => vec![sw::Affine::identity(); 2],
                _ => vec![p, q],
            }
        })
        .collect();
    alike::<F>(c, name, r, SETS, &|cs, i| {
        if name.starts_with("sw") {
            let p = cs.create_emulated_sw_point_variable(pts[i][0].into())?;
            let q = cs.create_public_emulated_sw_point_variable(pts[i][1].into())?;
            if name == "sw_add" {
                return cs.emulated_sw_ecc_add::<P::BaseField>(&p, &q, P::COEFF_A).map(drop);
            }
            let b = cs.create_boolean_variable(gen::int(&vals[i][0]).bit(0))?;
            cs.binary_emulated_sw_point_vars_select(b, &p, &q)?;
            cs.is_emulated_sw_point_equal(&p, &q)?;
            return cs.enforce_emulated_sw_point_equal(&p, &q);
        }
        let v = vals[i].iter().map(|x| cs.create_emulated_variable(*x)).collect::<R<Vec<_>>>()?;
        match name {
            "arithmetic" => {
                cs.emulated_add(&v[0], &v[1])?;
                cs.emulated_sub(&v[1], &v[2])?;
                cs.emulated_mul(&v[2], &v[3]).map(drop)
            },
            "constants" => {
                cs.emulated_add_constant(&v[0], k)?;
                cs.emulated_sub_constant(&v[1], k)?;
                cs.emulated_mul_constant(&v[2], k).map(drop)
            },
            _ => {
                let b = cs.create_boolean_variable(gen::int(&vals[i][0]).bit(0))?;
                cs.conditional_select_emulated(b, &v[0], &v[1])?;
                cs.is_emulated_var_zero(&v[0])?;
                cs.is_emulated_var_equal(&v[0], &v[1])?;
                cs.enforce_emulated_var_equal(&v[2], &v[3])
            },
        }
    });
}

/// Arithmetic in two halves, and the foreign hash built on it.
pub fn halves_fixed<T: RescueParameter, F: PrimeField>(c: &mut Case) {
    let ops = ["mod_add", "mod_constant", "mod_vec", "mod_mul", "mod_negate", "linear", "power", "foreign_sponge"];
    let name = ops[c.idx % ops.len()];
    let r = c.pick(&[8usize, 10]);
    let m = (T::MODULUS_BIT_SIZE as usize / 2 / r + 1) * r;
    let p = gen::modulus::<T>();
    let vals: Vec<Vec<T>> = values(c, 4);
    let k: Vec<T> = gen::fields(c, 5);
    let lift = |x: &T| -> F { gen::from_int(&gen::int(x)) };
    let pow = Some(gen::from_int::<F>(&(BigUint::from(1u8) << m)));
    let sets = if name == "foreign_sponge" { 2 } else { SETS };
    let q = c.below(3);
    alike::<F>(c, name, Some(r), sets, &|cs, i| {
        let pe = FpElem::new(&gen::from_int::<F>(&p), m, pow)?;
        let e: Vec<FpElem<F>> = k.iter().map(|x| FpElem::new(&lift(x), m, pow)).collect::<R<Vec<_>>>()?;
        let x = &vals[i];
        let v = x
            .iter()
            .map(|x| match q {
                0 => FpElemVar::new_from_field_element(cs, &lift(x), m, pow),
                1 => {
                    let u = cs.create_variable(lift(x))?;
                    FpElemVar::new_unchecked(cs, u, m, pow)
                },
                _ => FpElemVar::new_from_fp_elem(cs, &FpElem::new(&lift(x), m, pow)?, m, pow),
            })
            .collect::<R<Vec<_>>>()?;
        match name {
            "mod_add" => {
                cs.mod_add(&v[0], &v[1], &pe)?;
                v[2].convert_to_var(cs)?;
                v[2].enforce_equal(cs, &v[3])
            },
            "mod_constant" => {
                cs.mod_add_constant(&v[0], &e[0], &pe)?;
                cs.mod_mul_constant(&v[1], &e[1], &pe).map(drop)
            },
            "mod_vec" => cs.mod_add_vec(&v, &pe).map(drop),
            "mod_mul" => cs.mod_mul(&v[0], &v[1], &pe).map(drop),
            "mod_negate" => cs.mod_negate(&v[0], &gen::from_int(&p)).map(drop),
            "linear" => cs.non_native_linear_gen::<T>(&v, &e[..4], &e[4]).map(drop),
            "power" => {
                cs.non_native_power_5_gen::<T>(&v[0])?;
                cs.non_native_power_11_gen::<T>(&v[1]).map(drop)
            },
            _ => RescueNonNativeGadget::<T, F>::rescue_sponge_with_padding(cs, &v[..1], 1).map(drop),
        }
    });
}

/// Membership and absence in trees of a fixed height, at every place and with
/// siblings of every kind, also empty ones.
pub fn tree_fixed<F: RescueParameter>(c: &mut Case) {
    type Dense<F> = RescueMerkleTree<F>;
    type Sparse<F> = RescueSparseMerkleTree<BigUint, F>;
    let absent = c.idx % 2 == 1;
    let name = if absent { "absence" } else { "membership" };
    let h = c.range(1, 5);
    let cap = 3u64.pow(h as u32);
    let mut sets = vec![];
    for (i, x) in values::<F>(c, 2 * h + 3).into_iter().enumerate() {
        let at = match i {
            0 => 0,
            1 => cap - 1,
            _ => c.below(cap as usize) as u64,
        };
        let levels: Vec<Vec<F>> = (0..h)
            .map(|l| if absent && c.below(3) == 0 { vec![] } else { x[2 * l..2 * l + 2].to_vec() })
            .collect();
        sets.push((at, levels, x[2 * h], x[2 * h + 1]));
    }
    let assert = c.coin();
    alike::<F>(c, name, None, sets.len(), &|cs, i| {
        let (at, levels, elem, root) = &sets[i];
        let iv = cs.create_variable(F::from(*at))?;
        let ev = cs.create_variable(*elem)?;
        let proof = MerkleTreeProof(levels.clone());
        if absent {
            let at = BigUint::from(*at);
            let pv = UniversalMerkleTreeGadget::<Sparse<F>>::create_non_membership_proof_variable(cs, &at, &proof)?;
            let cv = MerkleTreeGadget::<Sparse<F>>::create_commitment_variable(cs, root)?;
            if assert {
                UniversalMerkleTreeGadget::<Sparse<F>>::enforce_non_membership_proof(cs, iv, &pv, cv)
            } else {
                UniversalMerkleTreeGadget::<Sparse<F>>::is_non_member(cs, iv, &pv, cv).map(drop)
            }
        } else {
            let pv = MerkleTreeGadget::<Dense<F>>::create_membership_proof_variable(cs, at, &proof)?;
            let cv = MerkleTreeGadget::<Dense<F>>::create_commitment_variable(cs, root)?;
            if assert {
                MerkleTreeGadget::<Dense<F>>::enforce_membership_proof(cs, iv, ev, &pv, cv)
            } else {
                MerkleTreeGadget::<Dense<F>>::is_member(cs, iv, ev, &pv, cv).map(drop)
            }
        }
    });
}
