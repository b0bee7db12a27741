//! Monitors for signatures, the verifiable random function and encryption.

mod bls;
mod crypt;
mod schnorr;
mod wipe;

use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use vh::{main_with, sc, Case, Property};

/// Uncompressed bytes.
pub fn pack<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).expect("serialize");
    v
}

/// Written and read again in both forms, announced sizes included.
pub fn roundtrip<T: CanonicalSerialize + CanonicalDeserialize + PartialEq + std::fmt::Debug>(c: &mut Case, x: &T) {
    for compress in [Compress::Yes, Compress::No] {
        let mut b = vec![];
        if !c.check(x.serialize_with_mode(&mut b, compress).is_ok(), "write", || "cannot be written".into()) {
            continue;
        }
        let form = if compress == Compress::Yes { "compressed" } else { "uncompressed" };
        let size = x.serialized_size(compress);
        c.check(size == b.len(), "announced_size", || format!("{size} announced, {} written, {form}", b.len()));
        for validate in [Validate::Yes, Validate::No] {
            let y = T::deserialize_with_mode(&b[..], compress, validate);
            c.check(y.as_ref().ok() == Some(x), "read_back", || format!("{form}: {y:?}"));
        }
        // through a stream that comes in small pieces
        let step = c.range(1, 40);
        let mut w = vh::Drip::writer(step);
        c.check(x.serialize_with_mode(&mut w, compress).is_ok() && w.into == b, "written_in_pieces", || format!("{form}, {step} bytes at a time"));
        let y = T::deserialize_with_mode(vh::Drip::reader(&b, step), compress, Validate::Yes);
        c.check(y.as_ref().ok() == Some(x), "read_in_pieces", || format!("{form}, {step} bytes at a time: {y:?}"));
        for cut in [0, b.len() / 2, b.len() - 1] {
            let y = T::deserialize_with_mode(&b[..cut], compress, Validate::Yes);
            c.check(y.is_err(), "short_read", || format!("{cut} of {} bytes", b.len()));
        }
    }
}

macro_rules! curves {
    ($($m:ident::$name:ident;)*) => { $(
        fn $name(c: &mut Case) {
            match c.idx % 4 {
                0 => $m::$name::<ark_ed_on_bls12_377::EdwardsConfig>(c),
                1 => $m::$name::<ark_ed_on_bls12_381::EdwardsConfig>(c),
                2 => $m::$name::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c),
                _ => $m::$name::<ark_ed_on_bn254::EdwardsConfig>(c),
            }
        }
    )* };
}
curves! {
    schnorr::sign;
    schnorr::judge;
    schnorr::nonces;
    schnorr::encoded;
    schnorr::every_length;
    crypt::encrypt;
    crypt::scalars;
    crypt::written;
    crypt::all_lengths;
    crypt::long;
}

fn main() {
    main_with(vec![
        Property {
            id: "S01",
            rule: "a case is one key with one message or a family of close ones, on one of four curves; it counts when the length of the message, the suite or the kind of key differs from those of other cases",
            assumptions: &["the hash function is that of the library, checked on its own elsewhere"],
            scenarios: vec![
                sc("sign", 120, 6000, sign),
                sc("judge", 120, 6000, judge),
                sc("nonces", 24, 800, nonces),
                sc("encoded", 60, 2000, encoded),
                sc("every_length", 320, 1200, every_length),
            ],
        },
        Property {
            id: "S02",
            rule: "a case is one set of keys, messages and signatures; it counts when the number of keys, the lengths of messages or the kind of alteration differ from those of other cases",
            assumptions: &["one of the two schemes wraps a library that is not available here and is run over a local stand-in"],
            scenarios: vec![
                sc("single", 60, 2500, bls::single),
                sc("group", 60, 2500, bls::group),
                sc("crowd", 16, 400, bls::crowd),
                sc("every_length", 300, 1100, bls::every_length),
                sc("onto_curve", 120, 6000, bls::onto_curve),
                sc("written", 24, 1000, bls::written),
                sc("single_381", 30, 1000, bls::single_381),
                sc("written_381", 24, 800, bls::written_381),
            ],
        },
        Property {
            id: "S03",
            rule: "a case is one secret key shown and dropped; it counts when the kind of key differs, or its place among the cases",
            assumptions: &["memory is looked at after the destructor ran and before it is given back"],
            scenarios: vec![
                sc("shown", 100, 3000, wipe::shown),
                sc("wiped", 100, 3000, wipe::wiped),
            ],
        },
        Property {
            id: "V01",
            rule: "a case is one key and several inputs; it counts when the length of an input, the suite or the kind of alteration differs from those of other cases",
            assumptions: &["the underlying signatures run over a local stand-in for a library that is not available here"],
            scenarios: vec![
                sc("vrf", 150, 6000, bls::vrf),
                sc("vrf_false", 150, 6000, bls::vrf_false),
                sc("every_length", 300, 1100, bls::vrf_every_length),
            ],
        },
        Property {
            id: "E01",
            rule: "a case is one key pair and one message; it counts when the length of the message or the kind of alteration differs from those of other cases",
            assumptions: &["the permutation and the block cipher are those of the library, checked on their own elsewhere"],
            scenarios: vec![
                sc("encrypt", 120, 5000, encrypt),
                sc("every_length", 280, 1200, all_lengths),
                sc("long", 4, 24, long),
                sc("scalars", 60, 2500, scalars),
                sc("written", 40, 1500, written),
            ],
        },
        Property {
            id: "E02",
            rule: "a case is one key pair, one message and its associated data; it counts when their lengths or the kind of alteration differ from those of other cases",
            assumptions: &["the two underlying libraries are not available here; local implementations of the published algorithms stand in"],
            scenarios: vec![
                sc("sealed", 800, 30000, crypt::sealed),
                sc("every_length", 600, 4200, crypt::sealed_every_length),
                sc("sealed_many", 60, 2000, crypt::sealed_many),
                sc("sealed_bytes", 400, 15000, crypt::sealed_bytes),
            ],
        },
    ]);
}
