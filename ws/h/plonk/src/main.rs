//! Monitors for the proof system.

mod base;
mod equation;
mod fiat;
mod honest;
mod judge;
mod recurse;
mod shape;

use ark_bls12_377::Bls12_377;
use ark_bls12_381::Bls12_381;
use ark_bn254::Bn254;
use ark_bw6_761::BW6_761;
use jf_plonk::transcript::{RescueTranscript, SolidityTranscript, StandardTranscript};
use vh::{main_with, sc, Case, Property};

macro_rules! curves {
    ($($m:ident::$name:ident;)*) => { $(
        fn $name(c: &mut Case) {
            match c.idx % 6 {
                0 => $m::$name::<Bn254, SolidityTranscript>(c),
                1 => $m::$name::<Bls12_377, RescueTranscript<ark_bls12_377::Fq>>(c),
                2 => $m::$name::<Bls12_381, StandardTranscript>(c),
                3 => $m::$name::<Bn254, StandardTranscript>(c),
                4 => $m::$name::<Bls12_377, StandardTranscript>(c),
                _ if c.idx % 12 == 5 => $m::$name::<BW6_761, StandardTranscript>(c),
                _ => $m::$name::<Bls12_381, SolidityTranscript>(c),
            }
        }
    )* };
}
curves! {
    judge::equation;
    judge::together;
    judge::mixed;
    judge::partial;
    shape::shapes;
    shape::outer;
    shape::encoded;
    shape::damaged;
    shape::flat;
    fiat::talk;
    fiat::depend;
    honest::prove;
    honest::empty;
    honest::aggregate;
    honest::merged;
    honest::unsatisfied;
    honest::unwired;
    honest::altered;
    honest::mismatched;
    honest::masked;
}

fn main() {
    main_with(vec![
        Property {
            id: "K01",
            rule: "a case is one satisfied random circuit, or set of circuits, proved and verified; it counts when its size, kind, inputs or tables differ from those of other cases",
            assumptions: &[],
            scenarios: vec![
                sc("prove", 48, 1800, prove),
                sc("empty", 6, 12, empty),
                sc("aggregate", 24, 700, aggregate),
                sc("merged", 30, 900, merged),
            ],
        },
        Property {
            id: "K02",
            rule: "a case is one statement with one proof written as exponents, then altered in several places; it counts when the statement's shape or the place altered differs from those of other cases",
            assumptions: &["the expected verdict is the published equation between exponents, for which the secret of the reference string is known to the harness"],
            scenarios: vec![
                sc("equation", 84, 6000, equation),
                sc("mixed", 24, 1500, mixed),
            ],
        },
        Property {
            id: "K03",
            rule: "a case is one set of proofs checked together; it counts when the number, kinds or errors differ from those of other cases",
            assumptions: &[],
            scenarios: vec![
                sc("together", 42, 1500, together),
                sc("partial", 60, 2500, partial),
            ],
        },
        Property {
            id: "K04",
            rule: "a case is one sequence of transcript operations, or one proof with several changes; it counts when the operations, or the kind of thing changed and the shape of the proof, differ from those of other cases",
            assumptions: &["the hash functions and the sponge are taken from the libraries the transcripts use"],
            scenarios: vec![
                sc("talk", 120, 6000, talk),
                sc("depend", 42, 2000, depend),
            ],
        },
        Property {
            id: "K05",
            rule: "a case is one proof or key written and read, or with one list of another length; it counts when the kind of object or the place changed differs from those of other cases",
            assumptions: &["the lengths that lists announce in the wire format are left as they are"],
            scenarios: vec![
                sc("shapes", 120, 4000, shapes),
                sc("outer", 60, 2000, outer),
                sc("encoded", 36, 1000, encoded),
                sc("damaged", 36, 1000, damaged),
                sc("flat", 60, 1500, flat),
            ],
        },
        Property {
            id: "K06",
            rule: "a case is one merged statement verified inside a circuit, or keys merged inside one; it counts when the number of instances, sizes or kind of misfit differ from those of other cases",
            assumptions: &["one curve: the only one of the library with the circuit arithmetic the verifier circuit needs"],
            scenarios: vec![
                sc("circuit", 8, 200, recurse::circuit),
                sc("refused", 8, 200, recurse::refused),
                sc("keys", 30, 1500, recurse::keys),
            ],
        },
        Property {
            id: "K07",
            rule: "a case is one circuit with false witnesses, or one proof with several changes; it counts when the kind of falsehood or the place changed differs from those of other cases",
            assumptions: &["the dishonest prover is the library's own, given another witness, other wires or the key of another circuit"],
            scenarios: vec![
                sc("unsatisfied", 48, 1500, unsatisfied),
                sc("unwired", 36, 1200, unwired),
                sc("altered", 36, 1200, altered),
                sc("mismatched", 30, 900, mismatched),
            ],
        },
        Property {
            id: "K08",
            rule: "a case is one circuit proved from two seeds, twice each; it counts when its size or kind differs from those of other cases",
            assumptions: &["the masks are computed from the secret of the reference string and the challenges drawn"],
            scenarios: vec![sc("masked", 36, 1000, masked)],
        },
    ]);
}
