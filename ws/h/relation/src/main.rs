//! Monitors for circuits and gadgets.

mod basic;
mod ecc;
mod fixed;
mod hashes;
mod nonnative;
mod system;

use vh::{main_with, sc, Case, Property};

type F381 = ark_bls12_381::Fr;
type F254 = ark_bn254::Fr;
type F377 = ark_bls12_377::Fr;
type Q377 = ark_bls12_377::Fq;

macro_rules! fields {
    ($($m:ident::$name:ident;)*) => { $(
        fn $name(c: &mut Case) {
            match c.idx / 28 % 4 {
                0 => $m::$name::<F381>(c),
                1 => $m::$name::<F254>(c),
                2 => $m::$name::<F377>(c),
                _ => $m::$name::<Q377>(c),
            }
        }
    )* };
}
fields! {
    basic::value_op;
    basic::claim_op;
    system::satisfiability;
    system::lookups;
    system::arithmetization;
    system::merging;
    fixed::basic_fixed;
}
fn oob(c: &mut Case) {
    if c.coin() { basic::out_of_bounds::<F381>(c) } else { basic::out_of_bounds::<F254>(c) }
}
fn wide(c: &mut Case) {
    if c.coin() { basic::wide_range::<F381>(c) } else { basic::wide_range::<F254>(c) }
}

fn every_bit(c: &mut Case) {
    match c.idx % 3 {
        0 => basic::every_bit::<F381>(c),
        1 => basic::every_bit::<F254>(c),
        _ => basic::every_bit::<F377>(c),
    }
}

fn every_length(c: &mut Case) {
    match c.idx / 508 % 3 {
        0 => basic::every_length::<F254>(c),
        1 => basic::every_length::<F381>(c),
        _ => basic::every_length::<F377>(c),
    }
}

fn truncate_alias(c: &mut Case) {
    match c.idx % 3 {
        0 => basic::truncate_alias::<F381>(c),
        1 => basic::truncate_alias::<F254>(c),
        _ => basic::truncate_alias::<F377>(c),
    }
}

fn truncate_wide(c: &mut Case) {
    match c.idx % 3 {
        0 => basic::truncate_wide::<F381>(c),
        1 => basic::truncate_wide::<F254>(c),
        _ => basic::truncate_wide::<F377>(c),
    }
}

macro_rules! curves {
    ($($m:ident::$name:ident;)*) => { $(
        fn $name(c: &mut Case) {
            match c.idx / 8 % 5 {
                0 => $m::$name::<ark_ed_on_bls12_381::EdwardsConfig>(c),
                1 => $m::$name::<ark_ed_on_bn254::EdwardsConfig>(c),
                2 => $m::$name::<ark_ed_on_bls12_377::EdwardsConfig>(c),
                3 => $m::$name::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c),
                _ => $m::$name::<ark_bls12_377::g1::Config>(c),
            }
        }
    )* };
}
curves! {
    ecc::points;
    ecc::multiples;
    ecc::msm_sizes;
    ecc::every_scalar;
    ecc::window_alias;
    fixed::curve_fixed;
}

fn emulated(c: &mut Case) {
    if c.idx / 15 % 2 == 0 {
        nonnative::emulated::<Q377, F254>(c)
    } else {
        nonnative::emulated::<ark_bn254::Fq, F254>(c)
    }
}
fn mul_wrap(c: &mut Case) {
    if c.coin() {
        nonnative::mul_wrap::<Q377, F254>(c)
    } else {
        nonnative::mul_wrap::<ark_bn254::Fq, F254>(c)
    }
}

fn carries(c: &mut Case) {
    if c.coin() {
        nonnative::carries::<Q377, F254>(c)
    } else {
        nonnative::carries::<ark_bn254::Fq, F254>(c)
    }
}
fn rescue(c: &mut Case) {
    match c.idx / 10 % 4 {
        0 => hashes::rescue::<F381>(c),
        1 => hashes::rescue::<F254>(c),
        2 => hashes::rescue::<F377>(c),
        _ => hashes::rescue::<Q377>(c),
    }
}
fn foreign_rescue(c: &mut Case) {
    hashes::foreign_rescue::<F377, Q377>(c)
}
fn schnorr(c: &mut Case) {
    match c.idx % 4 {
        0 => hashes::schnorr::<ark_ed_on_bls12_381::EdwardsConfig>(c),
        1 => hashes::schnorr::<ark_ed_on_bls12_377::EdwardsConfig>(c),
        2 => hashes::schnorr::<ark_ed_on_bn254::EdwardsConfig>(c),
        _ => hashes::schnorr::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c),
    }
}
fn elgamal(c: &mut Case) {
    match c.idx % 4 {
        0 => hashes::elgamal::<ark_ed_on_bls12_381::EdwardsConfig>(c),
        1 => hashes::elgamal::<ark_ed_on_bls12_377::EdwardsConfig>(c),
        2 => hashes::elgamal::<ark_ed_on_bn254::EdwardsConfig>(c),
        _ => hashes::elgamal::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c),
    }
}
fn add_wrap(c: &mut Case) {
    if c.coin() {
        nonnative::add_wrap::<Q377, F254>(c)
    } else {
        nonnative::add_wrap::<ark_bn254::Fq, F254>(c)
    }
}
fn sw_points(c: &mut Case) {
    if c.coin() {
        nonnative::sw_points::<ark_bls12_377::g1::Config, F254>(c)
    } else {
        nonnative::sw_points::<ark_bn254::g1::Config, F254>(c)
    }
}
fn te_points(c: &mut Case) {
    nonnative::te_points::<ark_bls12_377::g1::Config, F254>(c)
}
fn hash_fixed(c: &mut Case) {
    match c.idx / 8 % 4 {
        0 => fixed::hash_fixed::<ark_ed_on_bls12_381::EdwardsConfig>(c),
        1 => fixed::hash_fixed::<ark_ed_on_bls12_377::EdwardsConfig>(c),
        2 => fixed::hash_fixed::<ark_ed_on_bn254::EdwardsConfig>(c),
        _ => fixed::hash_fixed::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c),
    }
}
fn foreign_fixed(c: &mut Case) {
    if c.idx / 5 % 2 == 0 {
        fixed::foreign_fixed::<ark_bls12_377::g1::Config, F254>(c)
    } else {
        fixed::foreign_fixed::<ark_bn254::g1::Config, F254>(c)
    }
}
fn tree_fixed(c: &mut Case) {
    match c.idx / 2 % 3 {
        0 => fixed::tree_fixed::<F381>(c),
        1 => fixed::tree_fixed::<F254>(c),
        _ => fixed::tree_fixed::<Q377>(c),
    }
}
fn halves_fixed(c: &mut Case) {
    fixed::halves_fixed::<F377, Q377>(c)
}
fn modular(c: &mut Case) {
    nonnative::modular::<Q377>(c)
}

fn main() {
    main_with(vec![Property {
        id: "R01",
        rule: "circuit kind, number of slots, inputs, tables and demands",
        assumptions: &["gates are inserted on existing variables, as insert_gate asks"],
        scenarios: vec![sc("satisfiability", 3000, 60000, satisfiability)],
    }, Property {
        id: "R03",
        rule: "number of slots, tables, inputs and gates",
        assumptions: &["challenges of the lookup argument are random"],
        scenarios: vec![sc("lookups", 3000, 60000, lookups)],
    }, Property {
        id: "R06",
        rule: "circuit kind, number of slots, demands and inputs",
        assumptions: &["merged circuits have at least one public input"],
        scenarios: vec![
            sc("arithmetization", 1500, 30000, arithmetization),
            sc("merging", 600, 12000, merging),
        ],
    }, Property {
        id: "R04",
        rule: "gadget, circuit kind, relation between the points, size of scalars",
        assumptions: &["points are in the group of prime order; scalars are below two to the stated length"],
        scenarios: vec![
            sc("points", 800, 16000, points),
            sc("multiples", 160, 2400, multiples),
            sc("msm_sizes", 240, 2400, msm_sizes),
            sc("every_scalar", 1280, 12800, every_scalar),
            sc("window_alias", 20, 200, window_alias),
            sc("conversion", 100, 2000, ecc::conversion),
            sc("glv_neutral", 4, 20, ecc::glv_neutral),
            sc("glv_alias", 8, 100, ecc::glv_alias),
        ],
    }, Property {
        id: "R05",
        rule: "gadget, circuit kind, relation between operands, carries, sizes",
        assumptions: &["operands are written with limbs of their reduced value"],
        scenarios: vec![
            sc("emulated", 150, 6000, emulated),
            sc("sw_points", 30, 800, sw_points),
            sc("te_points", 16, 400, te_points),
            sc("modular", 100, 4000, modular),
            sc("add_wrap", 8, 80, add_wrap),
            sc("mul_wrap", 6, 60, mul_wrap),
            sc("carries", 24, 600, carries),
        ],
    }, Property {
        id: "R07",
        rule: "gadget, circuit kind, number of inputs and outputs, kind of damage",
        assumptions: &["verification keys are not of small order"],
        scenarios: vec![
            sc("rescue", 320, 12000, rescue),
            sc("foreign_rescue", 4, 60, foreign_rescue),
            sc("schnorr", 240, 6000, schnorr),
            sc("elgamal", 96, 4000, elgamal),
        ],
    }, Property {
        id: "R08",
        rule: "gadget, circuit kind, number of rows",
        assumptions: &["calls, constants and kinds of variables are the same; only values differ"],
        scenarios: vec![
            sc("basic", 364, 10400, basic_fixed),
            sc("curve", 160, 1600, curve_fixed),
            sc("hash", 64, 960, hash_fixed),
            sc("foreign", 30, 400, foreign_fixed),
            sc("tree", 48, 960, tree_fixed),
            sc("halves", 32, 400, halves_fixed),
        ],
    }, Property {
        id: "R02",
        rule: "gadget, truth of the claim, size of operands, position in the circuit",
        assumptions: &["operands of logic gadgets are boolean, as their type says"],
        scenarios: vec![
            sc("value", 672, 11200, value_op),
            sc("claim", 624, 10400, claim_op),
            sc("out_of_bounds", 20, 200, oob),
            sc("wide_range", 20, 200, wide),
            sc("every_bit", 6, 120, every_bit),
            sc("every_length", 508, 3048, every_length),
            sc("truncate_alias", 12, 120, truncate_alias),
            sc("truncate_wide", 250, 2500, truncate_wide),
        ],
    }]);
}
