//! Monitors for the field, byte, erasure-code, serialization and pairing
//! helpers.

use ark_ec::{
    pairing::{Pairing, PairingOutput},
    AffineRepr, CurveConfig, CurveGroup, PrimeGroup,
};
use ark_ff::{
    fields::{Fp192, MontBackend, MontConfig},
    Field, FftField, One, PrimeField, UniformRand, Zero,
};
use ark_poly::{EvaluationDomain, Radix2EvaluationDomain};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_utils::*;
use num_bigint::BigUint;
use serde::{Deserialize, Serialize};
use sha2::{Digest, Sha512};
use std::fmt::Debug;
use vh::{gen, guard, main_with, sc, Case, Property, Rng};

/// 2^130 - 5: a field whose size is not close to a whole number of limbs.
#[derive(MontConfig)]
#[modulus = "1361129467683753853853498429727072845819"]
#[generator = "2"]
pub struct P130Config;
pub type P130 = Fp192<MontBackend<P130Config, 3>>;

/// 2^89 - 1
#[derive(MontConfig)]
#[modulus = "618970019642690137449562111"]
#[generator = "3"]
pub struct P89Config;
pub type P89 = ark_ff::Fp128<MontBackend<P89Config, 2>>;

/// 2^64 - 2^32 + 1, 2^128 - 159 and 2^256 - 189: fields whose size is a whole
/// number of bytes and of limbs.
#[derive(MontConfig)]
#[modulus = "18446744069414584321"]
#[generator = "7"]
pub struct P64Config;
pub type P64 = ark_ff::Fp64<MontBackend<P64Config, 1>>;

#[derive(MontConfig)]
#[modulus = "340282366920938463463374607431768211297"]
#[generator = "3"]
pub struct P128Config;
pub type P128 = ark_ff::Fp128<MontBackend<P128Config, 2>>;

#[derive(MontConfig)]
#[modulus = "115792089237316195423570985008687907853269984665640564039457584007913129639747"]
#[generator = "2"]
pub struct P256Config;
pub type P256 = ark_ff::Fp256<MontBackend<P256Config, 4>>;

// ---------------------------------------------------------------- U01

fn conv_curve<P: CurveConfig>(c: &mut Case)
where
    P::BaseField: PrimeField,
{
    type Sc<P> = <P as CurveConfig>::ScalarField;
    type Bs<P> = <P as CurveConfig>::BaseField;
    let (q, r) = (gen::modulus::<Bs<P>>(), gen::modulus::<Sc<P>>());
    for _ in 0..8 {
        let s: Sc<P> = gen::field(c);
        let b: Bs<P> = gen::field(c);
        c.key((gen::int(&s), gen::int(&b)));
        let up = fr_to_fq::<Bs<P>, P>(&s);
        c.eq(&gen::int(&up), &(gen::int(&s) % &q), "fr_to_fq");
        let down = fq_to_fr::<Bs<P>, P>(&b);
        c.eq(&gen::int(&down), &(gen::int(&b) % &r), "fq_to_fr");
        if r <= q {
            c.eq(&fq_to_fr::<Bs<P>, P>(&up), &s, "fr_fq_roundtrip");
            // elements just around the scalar modulus embedded in the base
            // field are where a lost reduction shows
            let d = BigUint::from(c.rng.gen_range(0..4u32));
            for w in [&r + &d, &r * 2u32 + &d, &r - 1u32] {
                if w < q {
                    let e: Bs<P> = gen::from_int(&w);
                    c.eq(
                        &gen::int(&fq_to_fr::<Bs<P>, P>(&e)),
                        &(&w % &r),
                        "fq_to_fr_wrap",
                    );
                    c.ev("conv.wrapped");
                }
            }
        }
        c.ev("conv.curve");
    }
}

fn conv_pair<F: PrimeField, T: PrimeField>(c: &mut Case) {
    let (p, t) = (gen::modulus::<F>(), gen::modulus::<T>());
    for _ in 0..6 {
        let mut xs: Vec<F> = vec![gen::field(c), gen::field(c)];
        // around the target modulus, its multiples and its byte boundary
        let k = BigUint::from(c.rng.gen_range(0..3u32));
        let tb = T::MODULUS_BIT_SIZE;
        let room = (p.bits() - 1).saturating_sub(t.bits()) as usize;
        for w in [
            &t + &k,
            &t * 3u32 + &k,
            (BigUint::one() << (tb as usize / 8 * 8)) + &k,
            (BigUint::one() << (tb as usize)) * 5u32 + &k,
            // equals k in the low bytes of the target, with high bits set
            (BigUint::one() << ((T::BigInt::NUM_LIMBS * 64) as usize)) * 7u32 + &k,
            // congruent to k both mod t and mod 2^(limbs)
            (&t << ((T::BigInt::NUM_LIMBS * 64) as usize)) + &k,
            &t - 1u32,
            // congruent to k mod t, and mod 2 to some power
            (&t << room) + &k,
            (&t << (room / 8 * 8)) + &k,
            (&t << c.below(room + 1)) + &k,
        ] {
            if w < p {
                xs.push(gen::from_int(&w));
            }
        }
        for x in xs {
            let i = gen::int(&x);
            c.key(&i);
            let got = guard(|| field_switching::<F, T>(&x));
            match got {
                Ok(v) => {
                    c.ev("switch.value");
                    c.check(gen::int(&v) == i && i < t, "field_switching_changes_value", || {
                        format!("{i} became {} in a field of {t}", gen::int(&v))
                    });
                },
                Err(_) => {
                    c.ev("switch.refused");
                    c.check(i >= t, "field_switching_refuses_fit", || format!("{i} < {t}"));
                },
            }
            if T::MODULUS_BIT_SIZE < F::MODULUS_BIT_SIZE {
                let v = fq_to_fr_with_mask::<F, T>(&x);
                let m = BigUint::one() << ((T::MODULUS_BIT_SIZE as usize / 8) * 8);
                c.eq(&gen::int(&v), &(&i % &m % &t), "mask");
                c.ev("mask.value");
            }
        }
    }
}

trait LimbCount {
    const NUM_LIMBS: usize;
}
impl<B: ark_ff::BigInteger> LimbCount for B {
    const NUM_LIMBS: usize = B::NUM_LIMBS;
}

fn u01_curve(c: &mut Case) {
    c.sample(|| "scalar<->base conversions over 8 boundary-biased values per curve".into());
    match c.idx % 8 {
        0 => conv_curve::<ark_ed_on_bls12_377::EdwardsConfig>(c),
        1 => conv_curve::<ark_ed_on_bls12_381::EdwardsConfig>(c),
        2 => conv_curve::<ark_ed_on_bn254::EdwardsConfig>(c),
        3 => conv_curve::<ark_bn254::g1::Config>(c),
        4 => conv_curve::<ark_bls12_381::g1::Config>(c),
        5 => conv_curve::<ark_bls12_377::g1::Config>(c),
        6 => conv_curve::<ark_ed_on_bls12_381::JubjubConfig>(c),
        _ => conv_curve::<ark_ed_on_bls12_377::EdwardsConfig>(c),
    }
}

fn u01_switch(c: &mut Case) {
    use ark_bls12_377::{Fq as Q377, Fr as R377};
    use ark_bls12_381::{Fq as Q381, Fr as R381};
    use ark_bn254::{Fq as Q254, Fr as R254};
    use ark_ed_on_bls12_377::Fr as J377;
    use ark_ed_on_bls12_381::Fr as J381;
    use ark_ed_on_bn254::Fr as J254;
    c.sample(|| "field_switching and masked truncation around target modulus multiples".into());
    match c.idx % 29 {
        0 => conv_pair::<J381, R381>(c),
        1 => conv_pair::<R381, J381>(c),
        2 => conv_pair::<R377, J377>(c),
        3 => conv_pair::<R254, J254>(c),
        4 => conv_pair::<J254, R254>(c),
        5 => conv_pair::<R254, Q254>(c),
        6 => conv_pair::<Q254, R254>(c),
        7 => conv_pair::<Q381, R381>(c),
        8 => conv_pair::<R381, Q381>(c),
        9 => conv_pair::<Q377, R377>(c),
        10 => conv_pair::<Q377, R254>(c),
        11 => conv_pair::<R254, Q377>(c),
        12 => conv_pair::<R381, R254>(c),
        13 => conv_pair::<R254, R381>(c),
        14 => conv_pair::<Q381, P130>(c),
        15 => conv_pair::<R254, P89>(c),
        16 => conv_pair::<P89, P130>(c),
        17 => conv_pair::<P130, P89>(c),
        18 => conv_pair::<Q381, J377>(c),
        19 => conv_pair::<Q377, P89>(c),
        20 => conv_pair::<P256, P128>(c),
        21 => conv_pair::<P128, P64>(c),
        22 => conv_pair::<P64, P256>(c),
        23 => conv_pair::<P256, R381>(c),
        24 => conv_pair::<Q381, P256>(c),
        25 => conv_pair::<R381, P256>(c),
        26 => conv_pair::<R254, P64>(c),
        27 => conv_pair::<P130, P128>(c),
        _ => conv_pair::<P128, P256>(c),
    }
}

// ---------------------------------------------------------------- U02

/// Oracle for the packing, over integers only.
fn pack_oracle<F: Field>(b: &[u8]) -> Vec<Vec<BigUint>> {
    let p = ((F::BasePrimeField::MODULUS_BIT_SIZE - 1) / 8) as usize;
    let d = F::extension_degree() as usize;
    if b.is_empty() {
        return vec![];
    }
    let mut first = vec![BigUint::zero(); d];
    first[0] = BigUint::from(b.len());
    let mut out = vec![first];
    for ch in b.chunks(p * d) {
        let mut e: Vec<BigUint> = ch.chunks(p).map(BigUint::from_bytes_le).collect();
        e.resize(d, BigUint::zero());
        out.push(e);
    }
    out
}

fn unpack_oracle<F: Field>(e: &[F]) -> Vec<u8> {
    let p = ((F::BasePrimeField::MODULUS_BIT_SIZE - 1) / 8) as usize;
    let d = F::extension_degree() as usize;
    if e.is_empty() {
        return vec![];
    }
    let lead = ints(&e[0])[0].clone() % (BigUint::one() << 64usize);
    let cap = p * d * (e.len() - 1);
    let n = if lead > BigUint::from(cap) {
        cap
    } else {
        lead.to_u64_digits().first().copied().unwrap_or(0) as usize
    };
    let mut out = vec![];
    for x in &e[1..] {
        for i in ints(x) {
            let mut b = i.to_bytes_le();
            b.resize(b.len().max(p), 0);
            out.extend_from_slice(&b[..p]);
        }
    }
    out.truncate(n);
    out
}

fn ints<F: Field>(x: &F) -> Vec<BigUint> {
    x.to_base_prime_field_elements().map(|e| gen::int(&e)).collect()
}

fn pack<F: Field>(c: &mut Case) {
    let p = ((F::BasePrimeField::MODULUS_BIT_SIZE - 1) / 8) as usize;
    let d = F::extension_degree() as usize;
    let n = match c.below(6) {
        // long strings are slow and rare
        _ if c.idx % 997 < 14 => gen::size(c, 600, 70000),
        0 => c.below(4),
        // whole elements, give or take one byte
        1 => (p * d * c.range(1, 4) + c.below(3)).saturating_sub(1),
        2 => (p * c.range(1, 5) + c.below(3)).saturating_sub(1),
        3 => c.range(0, 70),
        4 => c.range(0, 600),
        _ => c.range(200, 300),
    };
    let b = gen::bytes(c, n);
    c.key(&b);
    let e: Vec<F> = bytes_to_field_elements(b.as_slice());
    let got: Vec<Vec<BigUint>> = e.iter().map(ints).collect();
    c.eq(&got, &pack_oracle::<F>(&b), "pack");
    let Some(back) = c.no_panic("unpack_panics", || bytes_from_field_elements::<_, F>(e.as_slice()))
    else {
        return;
    };
    c.eq(&back, &b, "pack_roundtrip");
    c.ev("pack.roundtrip");
    // zero padding behind the payload is tolerated
    let mut padded = e.clone();
    for _ in 0..c.range(1, 3) {
        padded.push(F::zero());
    }
    {
        if let Some(x) = c.no_panic("unpack_padded_panics", || {
            bytes_from_field_elements::<_, F>(padded.as_slice())
        }) {
            c.eq(&x, &b, "pack_roundtrip_padded");
            c.ev("pack.padded");
        }
    }
    // appending a byte (also a zero byte) changes the encoding
    let mut b2 = b.clone();
    b2.push(0);
    let e2: Vec<F> = bytes_to_field_elements(b2.as_slice());
    c.check(e2 != e, "pack_not_injective", || format!("{b:?}"));
    // decoding is total
    let m = if c.below(50) == 0 { gen::size(c, 20, 300) } else { c.below(5) };
    let mut arb: Vec<F> = (0..m).map(|_| F::rand(&mut c.rng)).collect();
    if m > 0 {
        let cap = (p * d * (m - 1)) as u64;
        match c.below(6) {
            // far too long, with any low part
            4 => {
                let k = c.pick(&[8, 16, 24, 31, 32, 33, 48, 56, 62, 63]);
                arb[0] = F::from((1u64 << k) + c.rng.gen_range(0..=cap));
            },
            5 => arb[0] = F::from(u64::MAX) + F::from(1 + cap),
            0 => arb[0] = F::from(cap),
            1 => arb[0] = F::from(cap + 1),
            2 => arb[0] = F::from(c.rng.gen_range(0..=cap)),
            _ => {},
        }
    }
    if let Some(x) = c.no_panic("unpack_arbitrary_panics", || {
        bytes_from_field_elements::<_, F>(arb.as_slice())
    }) {
        c.eq(&x, &unpack_oracle(&arb), "unpack_arbitrary");
        c.ev("unpack.arbitrary");
    }
}

fn u02(c: &mut Case) {
    c.sample(|| "byte strings of boundary lengths packed into field elements and back".into());
    match c.idx % 16 {
        0 => pack::<ark_ed_on_bls12_381::Fr>(c),
        1 => pack::<ark_ed_on_bls12_377::Fr>(c),
        2 => pack::<ark_ed_on_bn254::Fr>(c),
        3 => pack::<ark_bn254::Fr>(c),
        4 => pack::<ark_bls12_381::Fr>(c),
        5 => pack::<ark_bls12_377::Fr>(c),
        6 => pack::<ark_bls12_381::Fq>(c),
        7 => pack::<ark_bls12_377::Fq>(c),
        8 => pack::<ark_bn254::Fq2>(c),
        9 => pack::<ark_bls12_381::Fq2>(c),
        10 => pack::<ark_bls12_377::Fq6>(c),
        11 => pack::<ark_bls12_381::Fq12>(c),
        12 => pack::<P130>(c),
        13 => pack::<P89>(c),
        14 => pack::<P128>(c),
        _ => pack::<P256>(c),
    }
}

fn pack_length<F: Field>(c: &mut Case, n: usize) {
    let b = c.bytes(n);
    let e: Vec<F> = bytes_to_field_elements(b.as_slice());
    let got: Vec<Vec<BigUint>> = e.iter().map(ints).collect();
    c.check(got == pack_oracle::<F>(&b), "pack", || format!("{n} bytes"));
    if let Some(back) = c.no_panic("unpack_panics", || bytes_from_field_elements::<_, F>(e.as_slice())) {
        c.check(back == b, "pack_roundtrip", || format!("{n} bytes"));
    }
    // as many elements as there are bytes, with room to spare
    let m = n % 160;
    let mut arb: Vec<F> = (0..m).map(|_| F::rand(&mut c.rng)).collect();
    if m > 0 {
        let p = ((F::BasePrimeField::MODULUS_BIT_SIZE - 1) / 8) as usize;
        let cap = (p * F::extension_degree() as usize * (m - 1)) as u64;
        arb[0] = F::from(cap.saturating_sub(n as u64 / 160));
    }
    if let Some(x) = c.no_panic("unpack_arbitrary_panics", || bytes_from_field_elements::<_, F>(arb.as_slice())) {
        c.check(x == unpack_oracle(&arb), "unpack_arbitrary", || format!("{m} elements"));
    }
    c.ev("pack.every_length");
}

/// Every length in turn, in every field.
fn u02_lengths(c: &mut Case) {
    let n = c.idx % 1400;
    c.key(n);
    c.sample(|| format!("{n} bytes in each field"));
    pack_length::<ark_ed_on_bls12_381::Fr>(c, n);
    pack_length::<ark_ed_on_bn254::Fr>(c, n);
    pack_length::<ark_bn254::Fr>(c, n);
    pack_length::<ark_bls12_381::Fr>(c, n);
    pack_length::<ark_bls12_377::Fr>(c, n);
    pack_length::<ark_bls12_381::Fq>(c, n);
    pack_length::<ark_bn254::Fq2>(c, n);
    pack_length::<ark_bls12_377::Fq6>(c, n);
    pack_length::<P89>(c, n);
    pack_length::<P256>(c, n);
}

// ---------------------------------------------------------------- U03

fn h2f<F: PrimeField>(c: &mut Case) {
    let n = if c.below(16) == 0 { gen::size(c, 300, 70000) } else { gen::len(c, 300) };
    let b = gen::bytes(c, n);
    c.key(&b);
    let l = (F::MODULUS_BIT_SIZE as usize).div_ceil(8) + 16;
    let want = BigUint::from_bytes_le(&Sha512::digest(&b)[..l]) % gen::modulus::<F>();
    let got: F = hash_to_field::<_, F>(&b);
    c.eq(&gen::int(&got), &want, "hash_to_field");
    let again: F = hash_to_field::<_, F>(b.as_slice());
    c.eq(&got, &again, "hash_to_field_deterministic");
    let mut b2 = b.clone();
    if b2.is_empty() {
        b2.push(0)
    } else {
        gen::flip(c, &mut b2)
    }
    c.check(hash_to_field::<_, F>(&b2) != got, "hash_to_field_collides", || format!("{b:?}"));
    c.ev("hash_to_field");
    let bits = gen::modulus::<F>().bits() as usize;
    c.eq(&field_bit_len::<F>(), &bits, "field_bit_len");
    c.eq(&field_byte_len::<F>(), &bits.div_ceil(8), "field_byte_len");
    c.eq(&challenge_bit_len::<F>(), &((bits.div_ceil(8) - 1) * 8), "challenge_bit_len");
    c.check(
        BigUint::one() << challenge_bit_len::<F>() <= gen::modulus::<F>(),
        "challenge_fits",
        || format!("{bits}"),
    );
}

fn u03(c: &mut Case) {
    c.sample(|| "byte string hashed into each supported field, against big-integer SHA-512".into());
    h2f::<ark_bn254::Fr>(c);
    h2f::<ark_bn254::Fq>(c);
    h2f::<ark_bls12_381::Fr>(c);
    h2f::<ark_bls12_377::Fr>(c);
    h2f::<ark_ed_on_bls12_381::Fr>(c);
    h2f::<ark_ed_on_bls12_377::Fr>(c);
    h2f::<ark_ed_on_bn254::Fr>(c);
    h2f::<P130>(c);
    h2f::<P89>(c);
    h2f::<P64>(c);
    h2f::<P128>(c);
    h2f::<P256>(c);
    h2f::<ark_bls12_377::Fq>(c);
    // 48 byte field: 48 + 16 = 64 bytes is the whole digest
    h2f::<ark_bls12_381::Fq>(c);
}

/// Every length in turn.
fn u03_lengths(c: &mut Case) {
    fn one<F: PrimeField>(c: &mut Case, b: &[u8]) {
        let l = (F::MODULUS_BIT_SIZE as usize).div_ceil(8) + 16;
        let want = BigUint::from_bytes_le(&Sha512::digest(b)[..l]) % gen::modulus::<F>();
        let got: F = hash_to_field::<_, F>(b);
        c.check(gen::int(&got) == want, "hash_to_field", || format!("{} bytes", b.len()));
    }
    let n = c.idx % 4200;
    c.key(n);
    c.sample(|| format!("{n} bytes"));
    let b = c.bytes(n);
    one::<ark_bn254::Fr>(c, &b);
    one::<ark_bls12_381::Fr>(c, &b);
    one::<ark_bls12_377::Fq>(c, &b);
    c.ev("hash_to_field.every_length");
}

// ---------------------------------------------------------------- U04

fn horner<F: Field>(coef: &[F], x: F) -> F {
    coef.iter().rev().fold(F::zero(), |a, b| a * x + b)
}

/// Gaussian elimination on the Vandermonde system.
fn interp<F: Field>(xs: &[F], ys: &[F]) -> Option<Vec<F>> {
    let n = xs.len();
    let mut m: Vec<Vec<F>> = (0..n)
        .map(|i| {
            let mut r = vec![F::one(); n + 1];
            for j in 1..n {
                r[j] = r[j - 1] * xs[i];
            }
            r[n] = ys[i];
            r
        })
        .collect();
    for col in 0..n {
        let piv = (col..n).find(|&i| !m[i][col].is_zero())?;
        m.swap(col, piv);
        let inv = m[col][col].inverse()?;
        for x in m[col].iter_mut() {
            *x *= inv;
        }
        for i in 0..n {
            if i != col && !m[i][col].is_zero() {
                let f = m[i][col];
                for j in col..=n {
                    let t = m[col][j] * f;
                    m[i][j] -= t;
                }
            }
        }
    }
    Some(m.into_iter().map(|r| r[n]).collect())
}

fn rs_field<F: PrimeField>(c: &mut Case) {
    use reed_solomon_code::*;
    let large = c.below(1000) == 0;
    let k = match c.below(8) {
        _ if large => c.range(100, 300),
        0 => 1,
        1 => 0,
        2 => c.range(17, 40),
        _ => c.range(1, 16),
    };
    let parity = match c.below(4) {
        0 => 0,
        _ if large => c.below(700),
        _ => c.below(24),
    };
    let mut data: Vec<F> = (0..k).map(|_| gen::field(c)).collect();
    if c.below(4) == 0 {
        // trailing zero coefficients: the polynomial has a lower degree
        let z = c.below(k + 1);
        for x in data[k - z..].iter_mut() {
            *x = F::zero();
        }
    }
    c.key((k, parity, data.iter().map(gen::int).collect::<Vec<_>>()));
    let code: Vec<F> = reed_solomon_erasure_encode(data.iter(), parity).collect();
    let want: Vec<F> =
        (1..=k + parity).map(|i| horner(&data, F::from(i as u64))).collect();
    c.eq(&code, &want, "encode");
    c.ev("rs.encode");
    // any k of n shares in any order
    let n = k + parity;
    let mut idx: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = c.below(i + 1);
        idx.swap(i, j);
    }
    let extra = if n > k { c.below(n - k + 1) } else { 0 };
    let take = &idx[..k + extra];
    let shares: Vec<(F, F)> =
        take.iter().map(|&i| (F::from(i as u64 + 1), code[i])).collect();
    match reed_solomon_erasure_decode::<F, _, _, _>(shares.iter().cloned(), k) {
        Ok(d) => {
            c.eq(&d, &data, "decode");
            c.ev("rs.decode");
        },
        Err(e) => c.fail("decode_refused", format!("{e} k={k} n={n}")),
    }
    if k > 0 {
        let short = &shares[..k - 1];
        c.check(
            reed_solomon_erasure_decode::<F, _, _, _>(short.iter().cloned(), k).is_err(),
            "decode_short_accepted",
            || format!("k={k}"),
        );
        c.ev("rs.short_refused");
        // arbitrary distinct evaluation points, arbitrary values
        let mut xs: Vec<F> = vec![];
        while xs.len() < k {
            let x = gen::field::<F>(c);
            if !xs.contains(&x) {
                xs.push(x);
            }
            if xs.len() < k && c.below(3) == 0 {
                let r = F::rand(&mut c.rng);
                if !xs.contains(&r) {
                    xs.push(r);
                }
            }
        }
        let ys: Vec<F> = (0..k).map(|_| gen::field(c)).collect();
        if k <= 20 {
            match reed_solomon_erasure_decode::<F, _, _, _>(
                xs.iter().cloned().zip(ys.iter().cloned()).collect::<Vec<_>>(),
                k,
            ) {
                Ok(d) => {
                    c.eq(&Some(d), &interp(&xs, &ys), "decode_points");
                    c.ev("rs.decode_points");
                },
                Err(e) => c.fail("decode_points_refused", format!("{e}")),
            }
        }
        if k > 1 {
            let (i, j) = (c.below(k), c.below(k));
            if i != j {
                let mut dup = xs.clone();
                dup[i] = dup[j];
                let same = c.coin();
                let mut yy = ys.clone();
                if same {
                    yy[i] = yy[j];
                }
                c.check(
                    reed_solomon_erasure_decode::<F, _, _, _>(
                        dup.into_iter().zip(yy).collect::<Vec<_>>(),
                        k,
                    )
                    .is_err(),
                    "decode_duplicate_accepted",
                    || format!("k={k} i={i} j={j} same_value={same}"),
                );
                c.ev("rs.duplicate_refused");
            }
        }
    }
}

fn rs_rou<F: FftField + PrimeField>(c: &mut Case) {
    use reed_solomon_code::*;
    let logn = if c.below(400) == 0 { c.range(6, 10) } else { c.below(6) };
    let n = 1usize << logn;
    let k = c.range(1, n);
    let data: Vec<F> = (0..k).map(|_| gen::field(c)).collect();
    let mut domain = Radix2EvaluationDomain::<F>::new(n).unwrap();
    let coset = c.below(3) == 0;
    if coset {
        let off = loop {
            let o: F = gen::field(c);
            if !o.is_zero() {
                break o;
            }
        };
        domain = domain.get_coset(off).unwrap();
    }
    c.key((n, k, data.iter().map(gen::int).collect::<Vec<_>>()));
    let mut pts = vec![];
    let mut x = domain.coset_offset();
    for _ in 0..n {
        pts.push(x);
        x *= domain.group_gen();
    }
    let code: Vec<F> = pts.iter().map(|x| horner(&data, *x)).collect();
    let mut idx: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = c.below(i + 1);
        idx.swap(i, j);
    }
    let shares: Vec<(usize, F)> = idx.iter().map(|&i| (i, code[i])).collect();
    let m = c.range(k, n);
    match reed_solomon_erasure_decode_rou(shares[..m].iter().cloned(), k, &domain) {
        Ok(d) => {
            c.eq(&d, &data, "decode_rou");
            c.ev(if coset { "rs.decode_coset" } else { "rs.decode_rou" });
        },
        Err(e) => c.fail("decode_rou_refused", format!("{e}")),
    }
    let mut bad = shares[..m].to_vec();
    let p = c.below(m);
    bad[p].0 = match c.below(4) {
        0 => n * c.range(1, 4) + bad[p].0,
        1 => usize::MAX - c.below(3),
        _ => n + c.below(3),
    };
    c.check(
        matches!(
            guard(|| reed_solomon_erasure_decode_rou(bad.iter().cloned(), k, &domain)),
            Ok(Err(_))
        ),
        "decode_rou_out_of_range",
        || format!("index {} of {n}", bad[p].0),
    );
    let none: Vec<(usize, F)> = vec![];
    c.check(
        matches!(
            guard(|| reed_solomon_erasure_decode_rou(none.iter().cloned(), k, &domain)),
            Ok(Err(_))
        ),
        "decode_rou_empty",
        || "accepted".into(),
    );
    if m > 1 && k > 1 {
        let mut dup = shares[..m].to_vec();
        // two of the shares that are used, whatever follows them
        let i = c.below(k);
        let j = (i + 1 + c.below(k - 1)) % k;
        dup[i].0 = dup[j].0;
        c.check(
            reed_solomon_erasure_decode_rou(dup.iter().cloned(), k, &domain).is_err(),
            "decode_rou_duplicate",
            || format!("n={n} k={k}"),
        );
    }
}

fn u04(c: &mut Case) {
    c.sample(|| "encode, drop, shuffle and decode shares; foreign points; duplicates".into());
    match c.idx % 5 {
        0 => rs_field::<ark_bn254::Fr>(c),
        1 => rs_field::<ark_bls12_377::Fr>(c),
        2 => rs_field::<ark_bls12_381::Fr>(c),
        3 => rs_field::<ark_bls12_381::Fq>(c),
        _ => rs_field::<P89>(c),
    }
}

fn u04_ext(c: &mut Case) {
    use reed_solomon_code::*;
    // extension field: encode / decode is generic over any field
    type F = ark_bls12_381::Fq2;
    let k = c.range(1, 8);
    let data: Vec<F> = (0..k).map(|_| F::rand(&mut c.rng)).collect();
    let parity = c.below(6);
    c.key((k, parity, data.iter().flat_map(|x| ints(x)).collect::<Vec<_>>()));
    let code: Vec<F> = reed_solomon_erasure_encode(data.iter(), parity).collect();
    for (i, v) in code.iter().enumerate() {
        c.eq(v, &horner(&data, F::from(i as u64 + 1)), "encode_ext");
    }
    let off = c.below(parity + 1);
    let sh: Vec<(F, F)> =
        (off..off + k).rev().map(|i| (F::from(i as u64 + 1), code[i])).collect();
    match reed_solomon_erasure_decode::<F, _, _, _>(sh, k) {
        Ok(d) => {
            c.eq(&d, &data, "decode_ext");
        },
        Err(e) => c.fail("decode_ext_refused", format!("{e}")),
    }
    c.ev("rs.ext");
}

/// Very many shares of little data, and much data.
fn rs_large<F: FftField + PrimeField>(c: &mut Case) {
    use reed_solomon_code::*;
    let wide = c.idx % 2 == 0;
    let k = if wide { c.range(2, 4) } else { gen::size(c, 100, 300).max(1) };
    let n = if wide { [131080usize, 1000, 65540, 1026, 70001, 4100, 20000, 65530][c.idx / 2 % 8] } else { k + c.below(9) };
    let data: Vec<F> = (0..k).map(|_| F::rand(&mut c.rng)).collect();
    c.key((k, n));
    let code: Vec<F> = reed_solomon_erasure_encode(data.iter(), n - k).collect();
    c.eq(&code.len(), &n, "large_count");
    let wrong = (0..n).find(|&i| code[i] != horner(&data, F::from(i as u64 + 1)));
    c.check(wrong.is_none(), "large_encode", || format!("share {wrong:?} of {n}, {k} elements"));
    c.ev_n("rs.large_share", n as u64);
    let mut at: Vec<usize> = (0..n).collect();
    for i in 0..k {
        let j = c.range(i, n - 1);
        at.swap(i, j);
    }
    let shares: Vec<(F, F)> = at[..k].iter().map(|&i| (F::from(i as u64 + 1), code[i])).collect();
    if let Some(d) = c.ok(reed_solomon_erasure_decode::<F, _, _, _>(shares, k), "large_decode_refused") {
        c.check(d == data, "large_decode", || format!("{k} of {n}"));
    }
    let Some(dom) = ark_poly::Radix2EvaluationDomain::<F>::new(n) else { return };
    let w: Vec<F> = dom.elements().collect();
    let shares: Vec<(usize, F)> = at[..k].iter().map(|&i| (i, horner(&data, w[i]))).collect();
    if let Some(d) = c.ok(reed_solomon_erasure_decode_rou(shares, k, &dom), "large_decode_rou_refused") {
        c.check(d == data, "large_decode_rou", || format!("{k} of {n}"));
    }
}

fn u04_large(c: &mut Case) {
    c.sample(|| "up to 131080 shares of 4 elements, and up to 300 elements".into());
    match c.idx % 3 {
        0 => rs_large::<ark_bn254::Fr>(c),
        1 => rs_large::<ark_bls12_377::Fr>(c),
        _ => rs_large::<ark_bls12_381::Fr>(c),
    }
}

/// Every number of elements and every number of further shares in turn.
fn u04_shapes(c: &mut Case) {
    use reed_solomon_code::*;
    type F = ark_bls12_377::Fr;
    let (k, parity) = match c.idx {
        i if i < 1681 => (i / 41, i % 41),
        i if i < 1681 + 600 => (1 + i % 3, (i - 1681) / 3 + 41),
        i if i < 1681 + 1200 => (41 + (i - 2281) / 6, i % 6),
        i => (i % 97, i % 89),
    };
    c.key((k, parity));
    c.sample(|| format!("{k} elements, {parity} further shares"));
    let data: Vec<F> = (0..k).map(|_| F::rand(&mut c.rng)).collect();
    let code: Vec<F> = reed_solomon_erasure_encode(data.iter(), parity).collect();
    let n = k + parity;
    let want: Vec<F> = (1..=n).map(|i| horner(&data, F::from(i as u64))).collect();
    c.check(code == want, "encode", || format!("{k} + {parity}"));
    if k == 0 || code.len() != n {
        return;
    }
    // the last ones, the first ones, and as many as there are
    for (lo, hi) in [(n - k, n), (0, k), (0, n)] {
        let shares: Vec<(F, F)> = (lo..hi).map(|i| (F::from(i as u64 + 1), code[i])).collect();
        if let Some(d) = c.ok(reed_solomon_erasure_decode::<F, _, _, _>(shares, k), "decode_refused") {
            c.check(d == data, "decode", || format!("{k} + {parity}, shares {lo}..{hi}"));
        }
        if k > 40 {
            break;
        }
    }
    let dom = ark_poly::Radix2EvaluationDomain::<F>::new(n).unwrap();
    let w: Vec<F> = dom.elements().collect();
    let last = w.len() - 1;
    let shares: Vec<(usize, F)> = (0..k).map(|i| (last - i, horner(&data, w[last - i]))).collect();
    if let Some(d) = c.ok(reed_solomon_erasure_decode_rou(shares, k, &dom), "decode_rou_refused") {
        c.check(d == data, "decode_rou", || format!("{k} of {}", last + 1));
    }
    c.ev("rs.every_shape");
}

fn u04_rou(c: &mut Case) {
    c.sample(|| "shares indexed by roots of unity, plain and coset domains".into());
    match c.idx % 3 {
        0 => rs_rou::<ark_bn254::Fr>(c),
        1 => rs_rou::<ark_bls12_377::Fr>(c),
        _ => rs_rou::<ark_bls12_381::Fr>(c),
    }
}

// ---------------------------------------------------------------- U05

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(bound = "")]
struct W<T: CanonicalSerialize + CanonicalDeserialize> {
    a: u32,
    #[serde(with = "canonical")]
    x: T,
    b: String,
}

/// What `W` looks like on the wire.
#[derive(Serialize)]
struct Raw {
    a: u32,
    x: tagged_base64::TaggedBase64,
    b: String,
}

#[derive(CanonicalSerialize, CanonicalDeserialize, PartialEq, Debug, Clone)]
struct Pt {
    f: ark_bn254::Fr,
    v: Vec<ark_bls12_381::Fq>,
    o: Option<ark_bls12_381::G1Affine>,
    n: u64,
}
deserialize_canonical_bytes!(Pt);

#[derive(CanonicalSerialize, CanonicalDeserialize, PartialEq, Debug, Clone)]
struct Gp<F: Field> {
    f: F,
    v: Vec<F>,
}
deserialize_canonical_bytes!(Gp<F: Field>);

fn ser_any<T>(c: &mut Case, x: T)
where
    T: CanonicalSerialize + CanonicalDeserialize + PartialEq + Debug + Clone,
{
    let mut want = vec![];
    x.serialize_compressed(&mut want).unwrap();
    c.key(&want);
    c.eq(&to_bytes!(&x).unwrap(), &want, "to_bytes");
    c.eq(&CanonicalBytes::from(x.clone()).0, &want, "canonical_bytes");
    let w = W { a: c.rng.gen(), x: x.clone(), b: "q\"é".into() };
    let js = serde_json::to_string(&w).unwrap();
    match serde_json::from_str::<W<T>>(&js) {
        Ok(v) => {
            c.eq(&v, &w, "json_roundtrip");
            c.ev("serde.json");
        },
        Err(e) => c.fail("json_roundtrip_refused", format!("{e} {js}")),
    }
    let bc = bincode::serialize(&w).unwrap();
    match bincode::deserialize::<W<T>>(&bc) {
        Ok(v) => {
            c.eq(&v, &w, "bincode_roundtrip");
            c.ev("serde.bincode");
        },
        Err(e) => c.fail("bincode_roundtrip_refused", format!("{e}")),
    }
    // the wire text carries the tag, and the canonical bytes
    let v: serde_json::Value = serde_json::from_str(&js).unwrap();
    let s = v["x"].as_str().unwrap_or("").to_string();
    match tagged_base64::TaggedBase64::parse(&s) {
        Ok(t) => {
            c.eq(&t.tag(), &"FIELD".to_string(), "wire_tag");
            c.eq(&t.as_ref().to_vec(), &want, "wire_payload");
        },
        Err(e) => c.fail("wire_form", format!("{e} {s}")),
    }
    // another tag must be refused, with the same payload
    let tag = c.pick(&["FIELDX", "F", "FIEL", "field", "PROOF", "XFIELD", "", "FIELE", "Field", "IELD", "FIELDFIELD"]);
    let mut v2 = v.clone();
    v2["x"] = tagged_base64::TaggedBase64::new(tag, &want).unwrap().to_string().into();
    c.check(serde_json::from_value::<W<T>>(v2).is_err(), "foreign_tag_accepted", || tag.into());
    c.ev("serde.foreign_tag_refused");
    // the same in a binary format
    let mut alt = Raw { a: w.a, x: tagged_base64::TaggedBase64::new(tag, &want).unwrap(), b: w.b.clone() };
    let bad = bincode::serialize(&alt).unwrap();
    c.check(
        matches!(guard(|| bincode::deserialize::<W<T>>(&bad)), Ok(Err(_))),
        "foreign_tag_accepted_binary",
        || tag.into(),
    );
    alt.x = tagged_base64::TaggedBase64::new("FIELD", &want).unwrap();
    c.eq(&bincode::serialize(&alt).unwrap(), &bc, "wire_payload_binary");
    let cut = c.below(bc.len());
    c.check(
        matches!(guard(|| bincode::deserialize::<W<T>>(&bc[..cut])), Ok(Err(_))),
        "truncated_accepted_binary",
        || format!("{cut} of {}", bc.len()),
    );
    // plain byte wrapper
    let cb = serde_json::to_string(&CanonicalBytes::from(x.clone())).unwrap();
    match serde_json::from_str::<CanonicalBytes>(&cb) {
        Ok(b) => {
            c.eq(&b.0, &want, "canonical_bytes_json");
        },
        Err(e) => c.fail("canonical_bytes_json_refused", e.to_string()),
    }
    let cb = bincode::serialize(&CanonicalBytes::from(x.clone())).unwrap();
    match bincode::deserialize::<CanonicalBytes>(&cb) {
        Ok(b) => {
            c.eq(&b.0, &want, "canonical_bytes_bincode");
        },
        Err(e) => c.fail("canonical_bytes_bincode_refused", e.to_string()),
    }
    // a single altered character must never produce a value silently
    let mut cs: Vec<char> = s.chars().collect();
    let i = c.below(cs.len());
    let old = cs[i];
    let repl = loop {
        let r = c.pick(&['A', 'b', '7', '-', '_', 'z', '~']);
        if r != old {
            break r;
        }
    };
    cs[i] = repl;
    let mut v3 = v.clone();
    let s3: String = cs.into_iter().collect();
    v3["x"] = s3.clone().into();
    match guard(|| serde_json::from_value::<W<T>>(v3)) {
        Ok(Err(_)) => c.ev("serde.corrupt_refused"),
        Ok(Ok(g)) => {
            // unused trailing bits of the last base64 digit may decode alike
            c.check(g.x == x, "corrupt_text_accepted", || format!("{s} -> {s3}"));
            c.ev("serde.corrupt_same_value");
        },
        Err(p) => c.fail("corrupt_text_panics", p),
    }
    c.check(true, "n", String::new);
    // truncated payload under a good tag and checksum must be refused
    if !want.is_empty() {
        let cut = c.below(want.len());
        let mut v4 = v.clone();
        v4["x"] =
            tagged_base64::TaggedBase64::new("FIELD", &want[..cut]).unwrap().to_string().into();
        match guard(|| serde_json::from_value::<W<T>>(v4)) {
            Ok(r) => {
                c.check(r.is_err(), "truncated_accepted", || format!("{cut} of {}", want.len()));
                c.ev("serde.truncated_refused");
            },
            Err(p) => c.fail("truncated_panics", p),
        }
    }
}

fn x_base() -> ark_bls12_381::G1Affine {
    ark_ec::AffineRepr::generator()
}

fn u05(c: &mut Case) {
    c.sample(|| "values wrapped in a serde struct, JSON and bincode, then tampered".into());
    match c.idx % 8 {
        0 => {
            let x = gen::field::<ark_bn254::Fr>(c);
            ser_any(c, x)
        },
        1 => {
            let x = gen::field::<ark_bls12_381::Fq>(c);
            ser_any(c, x)
        },
        2 => {
            let n = gen::size(c, 9, 2100);
            let x = gen::fields::<ark_bls12_377::Fr>(c, n);
            ser_any(c, x)
        },
        3 => {
            let x = ark_bn254::G1Affine::rand(&mut c.rng);
            ser_any(c, x);
            // points in large objects are compressed too
            if c.below(8) == 0 {
                let n = gen::size(c, 20, 300);
                let x: Vec<ark_bls12_381::G1Affine> = (0..n)
                    .map(|_| if c.below(4) == 0 { ark_bls12_381::G1Affine::zero() } else { (x_base() * gen::field::<ark_bls12_381::Fr>(c)).into() })
                    .collect();
                ser_any(c, x);
                c.ev("serde.point_list");
            }
        },
        4 => {
            let x = if c.coin() {
                ark_bls12_381::G2Affine::zero()
            } else {
                ark_bls12_381::G2Affine::rand(&mut c.rng)
            };
            ser_any(c, x)
        },
        5 => {
            let x = (gen::field::<ark_bn254::Fr>(c), c.rng.gen::<u64>(), c.coin());
            ser_any(c, x)
        },
        6 => {
            let n = gen::size(c, 5, 300);
            let x = Gp { f: gen::field::<ark_bn254::Fq>(c), v: gen::fields(c, n) };
            ser_any(c, x.clone());
            let y: Gp<ark_bn254::Fq> = CanonicalBytes::from(x.clone()).into();
            c.eq(&y, &x, "canonical_bytes_back_generic");
        },
        _ => {
            let n = gen::len(c, 5);
            let x = Pt {
                f: gen::field(c),
                v: gen::fields(c, n),
                o: if c.coin() { Some(ark_bls12_381::G1Affine::rand(&mut c.rng)) } else { None },
                n: c.rng.gen(),
            };
            ser_any(c, x.clone());
            let y: Pt = CanonicalBytes::from(x.clone()).into();
            c.eq(&y, &x, "canonical_bytes_back");
            let mut b = CanonicalBytes::from(x.clone()).0;
            b.pop();
            c.check(
                guard(|| Pt::from(CanonicalBytes(b))).is_err(),
                "canonical_bytes_truncated",
                || "accepted".into(),
            );
        },
    }
}

// ---------------------------------------------------------------- U06

fn mp<E: Pairing>(c: &mut Case) {
    let n = if c.below(60) == 0 { gen::size(c, 40, 140) } else { c.below(6) };
    let (g, h) = (E::G1::generator(), E::G2::generator());
    let mut a: Vec<E::ScalarField> = (0..n).map(|_| gen::field(c)).collect();
    let mut b: Vec<E::ScalarField> = (0..n).map(|_| gen::field(c)).collect();
    // entries that repeat, cancel or share one of their two points
    if n >= 2 && c.coin() {
        for _ in 0..c.range(1, n) {
            let i = c.below(n);
            let j = c.below(n);
            match c.below(5) {
                0 => (a[i], b[i]) = (a[j], b[j]),
                1 => (a[i], b[i]) = (-a[j], b[j]),
                2 => (a[i], b[i]) = (a[j], -b[j]),
                3 => a[i] = a[j],
                _ => b[i] = b[j],
            }
        }
        c.ev("pairing.related_entries");
    }
    let cancel = n >= 2 && c.below(3) == 0;
    if cancel {
        // force the product to be the identity
        a[0] = E::ScalarField::one();
        b[0] = E::ScalarField::zero();
        let s: E::ScalarField = a.iter().zip(&b).map(|(x, y)| *x * y).sum();
        b[0] = -s;
    }
    c.key((
        a.iter().map(gen::int).collect::<Vec<_>>(),
        b.iter().map(gen::int).collect::<Vec<_>>(),
    ));
    let p: Vec<E::G1Affine> = a.iter().map(|x| (g * x).into_affine()).collect();
    let q: Vec<E::G2Affine> = b.iter().map(|x| (h * x).into_affine()).collect();
    let got = multi_pairing::<E>(&p, &q);
    let e: E::ScalarField = a.iter().zip(&b).map(|(x, y)| *x * y).sum();
    let base = E::pairing(g.into_affine(), h.into_affine());
    let want: PairingOutput<E> = base * e;
    c.eq(&got, &want, "multi_pairing_exponent");
    let mut prod = E::TargetField::one();
    for (x, y) in p.iter().zip(&q) {
        prod *= E::pairing(*x, *y).0;
    }
    c.eq(&got.0, &prod, "multi_pairing_product");
    if cancel {
        c.check(got.0.is_one(), "multi_pairing_cancel", || format!("n={n}"));
        c.ev("pairing.cancel");
    }
    c.ev(format!("pairing.n{}", if n < 6 { n.to_string() } else { "_more".into() }));
    c.ev_n("pairing.identity_inputs", p.iter().filter(|x| x.is_zero()).count() as u64);
    // a different pairing list must not give the same product by dropping terms
    if n > 0 {
        let i = c.below(n);
        let d = E::ScalarField::one() + E::ScalarField::from(c.rng.gen_range(0..3u64));
        let mut p2 = p.clone();
        p2[i] = (g * (a[i] + d)).into_affine();
        let got2 = multi_pairing::<E>(&p2, &q);
        c.eq(&got2, &(base * (e + d * b[i])), "multi_pairing_sensitivity");
    }
}

fn u06(c: &mut Case) {
    c.sample(|| "lists of up to 140 pairs with known discrete logs, including identities".into());
    match c.idx % 3 {
        0 => mp::<ark_bn254::Bn254>(c),
        1 => mp::<ark_bls12_381::Bls12_381>(c),
        _ => mp::<ark_bls12_377::Bls12_377>(c),
    }
}

/// Every number of pairs in turn.
fn u06_lengths(c: &mut Case) {
    use ark_bn254::{Bn254, Fr};
    let n = c.idx % 130;
    c.key(n);
    c.sample(|| format!("{n} pairs"));
    let g = <Bn254 as Pairing>::G1::rand(&mut c.rng);
    let h = <Bn254 as Pairing>::G2::rand(&mut c.rng);
    let a: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut c.rng)).collect();
    let b: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut c.rng)).collect();
    let p: Vec<_> = a.iter().map(|x| (g * x).into_affine()).collect();
    let q: Vec<_> = b.iter().map(|x| (h * x).into_affine()).collect();
    let e: Fr = a.iter().zip(&b).map(|(x, y)| *x * y).sum();
    let want = Bn254::pairing(g.into_affine(), h.into_affine()) * e;
    c.check(multi_pairing::<Bn254>(&p, &q) == want, "multi_pairing_exponent", || format!("{n} pairs"));
    c.ev("pairing.every_length");
}

// ---------------------------------------------------------------- U07

/// Every vector length in turn, with every multiple.
fn u07_lengths(c: &mut Case) {
    use ark_bn254::Fr;
    let n = c.idx % 300;
    c.key(n);
    c.sample(|| format!("{n} entries, padded to multiples of 1 to 80"));
    let v: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut c.rng)).collect();
    for m in 1..=80 {
        let want = n.div_ceil(m) * m;
        c.check(compute_len_to_next_multiple(n, m) == want, "next_multiple", || format!("{n} {m}"));
        let mut w = v.clone();
        pad_with_zeros(&mut w, m);
        c.check(
            w.len() == want && w[..n] == v[..] && w[n..].iter().all(|x| x.is_zero()),
            "pad_content",
            || format!("{n} {m}"),
        );
    }
    let u: Vec<Fr> = (0..n).map(|_| Fr::rand(&mut c.rng)).collect();
    let want: Vec<Fr> = v.iter().zip(&u).map(|(x, y)| *x * y).collect();
    c.check(hadamard_product(&v, &u).is_ok_and(|r| r == want), "hadamard", || format!("{n}"));
    c.ev("vectors.every_length");
}

fn u07(c: &mut Case) {
    use ark_bn254::{Fr, G1Projective};
    c.sample(|| "slices visited through the parallel helpers on varying pools".into());
    // next multiple and padding
    for _ in 0..16 {
        let m = if c.below(20) == 0 { c.range(1, 3000) } else { c.range(1, 40) };
        let l = c.range(0, 200);
        // far apart
        let (big, mult) = (c.rng.gen::<usize>() >> c.range(2, 60), (c.rng.gen::<usize>() >> c.range(2, 62)).max(1));
        let r = compute_len_to_next_multiple(big, mult);
        c.check(r >= big && r % mult == 0 && r - big < mult, "next_multiple", || format!("{big} {mult} {r}"));
        let r = compute_len_to_next_multiple(l, m);
        c.check(r >= l && r % m == 0 && r - l < m, "next_multiple", || format!("{l} {m} {r}"));
        let most = if c.below(40) == 0 { 3000 } else { 60 };
        let vn = gen::size(c, 50, most);
        let v: Vec<Fr> = gen::fields(c, vn);
        let mut w = v.clone();
        pad_with_zeros(&mut w, m);
        let want = v.len().div_ceil(m) * m;
        c.eq(&w.len(), &want, "pad_len");
        c.check(
            w.len() >= v.len() && w[..v.len()] == v[..] && w[v.len()..].iter().all(|x| x.is_zero()),
            "pad_content",
            || format!("{} {m}", v.len()),
        );
        c.key((l, m, v.len()));
    }
    // entrywise product
    let n = gen::size(c, 40, 2100);
    let a: Vec<Fr> = gen::fields(c, n);
    let b: Vec<Fr> = gen::fields(c, n);
    let p = gen::modulus::<Fr>();
    match hadamard_product(&a, &b) {
        Ok(r) => {
            let got: Vec<BigUint> = r.iter().map(gen::int).collect();
            let want: Vec<BigUint> =
                a.iter().zip(&b).map(|(x, y)| gen::int(x) * gen::int(y) % &p).collect();
            c.eq(&got, &want, "hadamard");
        },
        Err(e) => c.fail("hadamard_refused", e),
    }
    let k = n.min(if c.below(100) == 0 { 300 } else { 6 });
    let gs: Vec<G1Projective> = (0..k)
        .map(|_| match c.below(6) {
            0 => G1Projective::zero(),
            _ => G1Projective::rand(&mut c.rng),
        })
        .collect();
    match hadamard_product(&a[..k], &gs) {
        Ok(r) => {
            let want: Vec<G1Projective> = gs.iter().zip(&a).map(|(g, x)| *g * x).collect();
            c.eq(&r, &want, "hadamard_group");
        },
        Err(e) => c.fail("hadamard_refused", e),
    }
    let mut long = b.clone();
    long.push(Fr::one());
    c.check(hadamard_product(&a, &long).is_err(), "hadamard_unequal", || format!("{n}"));
    c.check(hadamard_product(&long, &a).is_err(), "hadamard_unequal", || format!("{n}"));
    let far = n + c.range(1, 3 * n + 3);
    let short = c.below(n + 1);
    long.resize(far, Fr::one());
    c.check(hadamard_product(&a, &long).is_err(), "hadamard_unequal", || format!("{n} {far}"));
    if short < n {
        c.check(hadamard_product(&a, &b[..short]).is_err(), "hadamard_unequal", || format!("{n} {short}"));
    }
    c.ev("hadamard");
    // slice helpers
    let n = match c.below(3) {
        0 => c.below(5),
        1 => c.below(200),
        _ => gen::size(c, 5000, 140000),
    };
    let v: Vec<u64> = (0..n).map(|_| c.rng.gen()).collect();
    let ch = gen::size(c, 70, 2 * n + 2).max(1);
    c.key((n, ch));
    let threads = c.range(1, 9);
    #[cfg(feature = "parallel")]
    {
        use rayon::prelude::*;
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        let (copy, chunks) = pool.install(|| {
            (
                par_utils::parallelizable_slice_iter(&v).map(|x| *x).collect::<Vec<_>>(),
                par_utils::parallelizable_chunks(&v, ch).map(|x| x.to_vec()).collect::<Vec<_>>(),
            )
        });
        c.eq(&copy, &v, "par_iter");
        let want: Vec<Vec<u64>> = v.chunks(ch).map(|x| x.to_vec()).collect();
        c.eq(&chunks, &want, "par_chunks");
        c.ev(format!("par.threads{threads}"));
    }
    #[cfg(not(feature = "parallel"))]
    {
        let _ = threads;
        let copy: Vec<u64> = par_utils::parallelizable_slice_iter(&v).cloned().collect();
        c.eq(&copy, &v, "seq_iter");
        let chunks: Vec<Vec<u64>> =
            par_utils::parallelizable_chunks(&v, ch).map(|x| x.to_vec()).collect();
        let want: Vec<Vec<u64>> = v.chunks(ch).map(|x| x.to_vec()).collect();
        c.eq(&chunks, &want, "seq_chunks");
        c.ev("seq");
    }
}

fn main() {
    main_with(vec![
        Property {
            id: "U01",
            rule: "boundary-biased field values (0, 1, -1, powers of two, values around the target \
                   modulus, its multiples and its limb boundary) converted between 29 field pairs; \
                   a case is non-trivial by its integer value",
            assumptions: &["arkworks field arithmetic and num-bigint are correct"],
            scenarios: vec![
                sc("curve_fields", 40000, 1500000, u01_curve),
                sc("field_pairs", 40000, 1500000, u01_switch),
            ],
        },
        Property {
            id: "U02",
            rule: "byte strings whose lengths straddle chunk and element boundaries, with leading \
                   0xff and trailing 0x00 runs, packed into 14 fields, and every length up to 1399; distinct by content",
            assumptions: &["num-bigint is correct"],
            scenarios: vec![sc("pack", 300000, 8000000, u02), sc("every_length", 1400, 14000, u02_lengths)],
        },
        Property {
            id: "U03",
            rule: "byte strings of length 0..70000 hashed into 10 fields and recomputed with SHA-512 \
                   and big integers; distinct by message",
            assumptions: &["the sha2 crate is correct"],
            scenarios: vec![
                sc("hash_to_field", 30000, 1000000, u03),
                sc("every_length", 4200, 42000, u03_lengths),
            ],
        },
        Property {
            id: "U04",
            rule: "random data size, parity, erasure pattern, order and evaluation points; \
                   recomputed by Horner evaluation and Gaussian elimination; distinct by data",
            assumptions: &["arkworks field arithmetic is correct"],
            scenarios: vec![
                sc("shares_1_to_n", 12000, 400000, u04),
                sc("roots_of_unity", 12000, 300000, u04_rou),
                sc("extension_field", 3000, 80000, u04_ext),
                sc("large", 24, 600, u04_large),
                sc("every_shape", 2881, 12000, u04_shapes),
            ],
        },
        Property {
            id: "U05",
            rule: "values of 8 types through both serde formats, then tag, text and length \
                   tampering; distinct by canonical bytes",
            assumptions: &["serde_json, bincode and tagged-base64 are correct"],
            scenarios: vec![sc("serde", 60000, 2000000, u05)],
        },
        Property {
            id: "U06",
            rule: "lists of up to 140 group element pairs with known logarithms on 3 curves; distinct \
                   by exponents",
            assumptions: &["single arkworks pairings are correct"],
            scenarios: vec![
                sc("multi_pairing", 3000, 60000, u06),
                sc("every_length", 130, 1300, u06_lengths),
            ],
        },
        Property {
            id: "U07",
            rule: "vector lengths, multiples, chunk sizes and thread pool sizes; distinct by sizes",
            assumptions: &["rayon is correct"],
            scenarios: vec![sc("vectors", 5000, 60000, u07), sc("every_length", 300, 3000, u07_lengths)],
        },
    ]);
}
