//! Hostile and boundary value generators.

use crate::Case;
use ark_ff::{BigInteger, Field, PrimeField};
use num_bigint::BigUint;
use rand::Rng;

/// The integer a prime-field element stands for.
pub fn int<F: PrimeField>(x: &F) -> BigUint {
    BigUint::from_bytes_le(&x.into_bigint().to_bytes_le())
}

/// The modulus of a prime field.
pub fn modulus<F: PrimeField>() -> BigUint {
    BigUint::from_bytes_le(&F::MODULUS.to_bytes_le())
}

/// An integer reduced into the field through decimal parsing free arithmetic.
pub fn from_int<F: PrimeField>(x: &BigUint) -> F {
    let mut r = F::zero();
    let base = F::from(256u64);
    for b in x.to_bytes_be() {
        r = r * base + F::from(b as u64);
    }
    r
}

/// Field element biased to boundaries.
pub fn field<F: PrimeField>(c: &mut Case) -> F {
    match c.rng.gen_range(0..14) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(c.rng.gen_range(0..5u64)),
        4 => -F::from(c.rng.gen_range(0..5u64)),
        5 => {
            let k = c.rng.gen_range(0..F::MODULUS_BIT_SIZE as u64);
            F::from(2u64).pow([k])
        },
        6 => {
            let k = c.rng.gen_range(0..F::MODULUS_BIT_SIZE as u64);
            F::from(2u64).pow([k]) - F::one()
        },
        7 => from_int::<F>(&((modulus::<F>() - 1u32) / 2u32 + c.rng.gen_range(0..2u32))),
        8 => F::from(c.rng.gen::<u64>()),
        // words of all zeros and all ones among random ones
        9 => {
            let mut b = F::rand(&mut c.rng).into_bigint().to_bytes_le();
            let w = [1, 4, 8][c.rng.gen_range(0..3)];
            for ch in b.chunks_mut(w) {
                match c.rng.gen_range(0..3) {
                    0 => ch.fill(0),
                    1 => ch.fill(0xff),
                    _ => {},
                }
            }
            F::from_le_bytes_mod_order(&b)
        },
        // any number of bits
        10 => {
            let mut x = F::rand(&mut c.rng).into_bigint();
            x >>= c.rng.gen_range(0..F::MODULUS_BIT_SIZE);
            F::from_bigint(x).expect("smaller than the modulus")
        },
        _ => F::rand(&mut c.rng),
    }
}

/// Uniform field element.
pub fn rand_field<F: Field>(c: &mut Case) -> F {
    F::rand(&mut c.rng)
}

pub fn fields<F: PrimeField>(c: &mut Case, n: usize) -> Vec<F> {
    (0..n).map(|_| field(c)).collect()
}

/// A length biased to small and boundary values.
pub fn len(c: &mut Case, max: usize) -> usize {
    match c.rng.gen_range(0..4) {
        0 => c.rng.gen_range(0..=max.min(4)),
        _ => c.rng.gen_range(0..=max),
    }
}

/// A length that is now and then far beyond the usual, about a power of two.
pub fn size(c: &mut Case, usual: usize, most: usize) -> usize {
    if c.rng.gen_range(0..8) > 0 {
        return len(c, usual);
    }
    let (lo, hi) = (usual.max(2).ilog2(), most.max(2).ilog2());
    let k = c.rng.gen_range(lo.min(hi)..=hi);
    let n = match c.rng.gen_range(0..4) {
        0 => c.rng.gen_range(1usize << k..2 << k),
        1 => (1 << k) - 1,
        2 => 1 << k,
        _ => (1 << k) + 1,
    };
    n.min(most)
}

/// Bytes biased to extreme contents.
pub fn bytes(c: &mut Case, n: usize) -> Vec<u8> {
    match c.rng.gen_range(0..8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = c.bytes(n);
            let k = if n == 0 { 0 } else { c.rng.gen_range(0..=n) };
            for x in v[n - k..].iter_mut() {
                *x = 0;
            }
            v
        },
        3 => {
            let mut v = c.bytes(n);
            let k = if n == 0 { 0 } else { c.rng.gen_range(0..=n) };
            for x in v[..k].iter_mut() {
                *x = 0xff;
            }
            v
        },
        // zeros in front
        4 => {
            let mut v = c.bytes(n);
            let k = c.rng.gen_range(0..=n);
            v[..k].fill(0);
            v
        },
        // a run of zeros or ones somewhere inside
        5 => {
            let mut v = c.bytes(n);
            let a = c.rng.gen_range(0..=n);
            let b = c.rng.gen_range(a..=n);
            let x = [0, 0xff][c.rng.gen_range(0..2)];
            v[a..b].fill(x);
            v
        },
        _ => c.bytes(n),
    }
}

/// Flip one random bit.
pub fn flip(c: &mut Case, v: &mut [u8]) {
    if v.is_empty() {
        return;
    }
    let i = c.below(v.len());
    let b = c.below(8);
    v[i] ^= 1 << b;
}
