//! Monitors for polynomial commitments.
//!
//! The harness makes its own reference strings and keeps the secret exponents,
//! so every commitment, proof and verdict has an exact expected value.

mod multi;
mod srs;
mod transcript;
mod uni;

use vh::{main_with, sc, Case, Property};

macro_rules! curves {
    ($($m:ident::$name:ident;)*) => { $(
        fn $name(c: &mut Case) {
            match c.idx % 3 {
                0 => $m::$name::<ark_bls12_381::Bls12_381>(c),
                1 => $m::$name::<ark_bn254::Bn254>(c),
                _ => $m::$name::<ark_bls12_377::Bls12_377>(c),
            }
        }
    )* };
}
curves! {
    uni::open;
    uni::batch;
    uni::many;
    uni::crowd;
    uni::every_size;
    uni::roots;
    uni::point_set;
    uni::too_big;
    uni::judge;
    uni::judge_batch;
    uni::judge_set;
    srs::fresh;
    srs::trimmed;
    srs::encoded;
    multi::ml_open;
    multi::ml_judge;
    multi::ml_batch;
    multi::ml_batch_judge;
    multi::ml_batch_order;
    multi::ml_batch_binding;
    multi::ml_batch_points;
}

fn main() {
    main_with(vec![
        Property {
            id: "P01",
            rule: "a case is one polynomial or list of polynomials committed and opened in one way; it counts when the polynomial, the points or the sizes differ from those of other cases",
            assumptions: &["the exact values come from reference strings whose secret exponent the harness knows"],
            scenarios: vec![
                sc("open", 480, 9000, open),
                sc("batch", 60, 2000, batch),
                sc("many", 120, 4000, many),
                sc("crowd", 3, 30, crowd),
                sc("every_size", 600, 3300, every_size),
                sc("roots", 120, 4000, roots),
                sc("point_set", 120, 4000, point_set),
                sc("too_big", 60, 2000, too_big),
            ],
        },
        Property {
            id: "P02",
            rule: "a case is one claimed evaluation or set of evaluations given to a verifier, true or altered in one place; it counts when the statement or the alteration differs from those of other cases",
            assumptions: &["the expected verdict is the exact equation between exponents"],
            scenarios: vec![
                sc("judge", 900, 8000, judge),
                sc("judge_batch", 540, 5000, judge_batch),
                sc("judge_set", 540, 5000, judge_set),
            ],
        },
        Property {
            id: "P03",
            rule: "a case is one reference string, trimmed or encoded in one way; it counts when the sizes or contents differ from those of other cases",
            assumptions: &[],
            scenarios: vec![
                sc("fresh", 24, 500, fresh),
                sc("trimmed", 90, 3000, trimmed),
                sc("encoded", 30, 1000, encoded),
            ],
        },
        Property {
            id: "P04",
            rule: "a case is one multilinear polynomial opened at one point, with true and altered claims given to the verifier; it counts when the polynomial, point or alteration differs from those of other cases",
            assumptions: &["the exact values come from reference strings whose secret exponents the harness knows"],
            scenarios: vec![
                sc("ml_open", 120, 4000, ml_open),
                sc("ml_judge", 90, 3000, ml_judge),
            ],
        },
        Property {
            id: "P05",
            rule: "a case is one list of multilinear polynomials opened together, with true and altered claims given to the verifier; it counts when the polynomials, points or alteration differ from those of other cases",
            assumptions: &["the exact values come from reference strings whose secret exponents the harness knows"],
            scenarios: vec![
                sc("ml_batch", 60, 1500, ml_batch),
                sc("ml_batch_judge", 45, 1200, ml_batch_judge),
                sc("ml_batch_order", 6, 60, ml_batch_order),
                sc("ml_batch_binding", 15, 300, ml_batch_binding),
                sc("ml_batch_points", 12, 240, ml_batch_points),
            ],
        },
        Property {
            id: "P06",
            rule: "a case is one history of transcript messages and a changed copy of it; it counts when the history or the change differs from those of other cases",
            assumptions: &["distinct histories collide with negligible probability"],
            scenarios: vec![
                sc("histories", 3000, 200000, transcript::histories),
                sc("spread", 3, 20, transcript::spread),
            ],
        },
    ]);
}
