//! Monitors for the algebraic hash functions and what is built on them.

use ark_crypto_primitives::sponge::{
    CryptographicSponge, FieldBasedCryptographicSponge, SpongeExt,
};
use ark_ff::{Field, PrimeField};
use jf_commitment::CommitmentScheme;
use jf_crhf::CRHF;
use jf_poseidon2::{
    constants::{bls12_381::*, bn254::*},
    crhf::{FixedLenPoseidon2Hash, VariableLenPoseidon2Hash},
    permutation::Poseidon2Permutation,
    Poseidon2, Poseidon2Params,
};
use jf_prf::PRF;
use jf_rescue::{
    commitment::FixedLengthRescueCommitment,
    crhf::{FixedLengthRescueCRHF, RescueCRHF, VariableLengthRescueCRHF},
    prf::RescuePRF,
    sponge::RescueSponge,
    Permutation, RescueParameter, RescueVector, PRP, ROUNDS,
};
use num_bigint::BigUint;
use sha2::{Digest, Sha256};
use spongefish::{
    duplex_sponge::{DuplexSponge, DuplexSpongeInterface},
    Unit,
};
use std::sync::OnceLock;
use vh::{gen, main_with, sc, Case, Property, Rng};

type F381 = ark_bls12_381::Fr;
type F377 = ark_bls12_377::Fr;
type F254 = ark_bn254::Fr;
type Q254 = ark_bn254::Fq;
type Q377 = ark_bls12_377::Fq;

// ------------------------------------------------------- Rescue reference

struct Ref<F> {
    mds: [[F; 4]; 4],
    init: [F; 4],
    inj: Vec<[F; 4]>,
}

fn le<F: PrimeField>(b: &[u8]) -> F {
    gen::from_int(&BigUint::from_bytes_le(b))
}

impl<F: RescueParameter> Ref<F> {
    fn new() -> Self {
        let row = |r: &[&[u8]; 4]| -> [F; 4] { core::array::from_fn(|i| le(r[i])) };
        Ref {
            mds: core::array::from_fn(|i| row(&F::MDS_LE[i])),
            init: row(&F::INIT_VEC_LE),
            inj: F::KEY_INJECTION_LE.iter().map(row).collect(),
        }
    }
    fn mul(&self, v: &[F; 4]) -> [F; 4] {
        core::array::from_fn(|i| (0..4).map(|j| self.mds[i][j] * v[j]).sum())
    }
    /// x^(1/a), computed from the group order instead of the stored exponent
    fn root(x: &F) -> F {
        let m = gen::modulus::<F>() - 1u32;
        let inv = BigUint::from(F::A).modpow_inv(&m);
        x.pow(inv.to_u64_digits())
    }
    fn schedule(&self, key: &[F; 4]) -> Vec<[F; 4]> {
        let mut a: [F; 4] = core::array::from_fn(|i| key[i] + self.init[i]);
        let mut out = vec![a];
        for i in 0..24 {
            let p: [F; 4] = core::array::from_fn(|j| {
                if i % 2 == 0 {
                    Self::root(&a[j])
                } else {
                    a[j].pow([F::A])
                }
            });
            let q = self.mul(&p);
            a = core::array::from_fn(|j| q[j] + self.inj[i][j]);
            out.push(a);
        }
        out
    }
    fn prp(&self, keys: &[[F; 4]], x: &[F; 4]) -> [F; 4] {
        let mut s: [F; 4] = core::array::from_fn(|i| x[i] + keys[0][i]);
        for (i, k) in keys[1..].iter().enumerate() {
            let p: [F; 4] = core::array::from_fn(|j| {
                if i % 2 == 0 {
                    Self::root(&s[j])
                } else {
                    s[j].pow([F::A])
                }
            });
            let q = self.mul(&p);
            s = core::array::from_fn(|j| q[j] + k[j]);
        }
        s
    }
}

trait ModInv {
    fn modpow_inv(&self, m: &BigUint) -> BigUint;
}
impl ModInv for BigUint {
    fn modpow_inv(&self, m: &BigUint) -> BigUint {
        self.modinv(m).expect("a is invertible")
    }
}

/// Cheap reference permutation: same algorithm over cached round keys.
struct Fast<F> {
    r: Ref<F>,
    keys: Vec<[F; 4]>,
    a_inv: Vec<u64>,
}

impl<F: RescueParameter> Fast<F> {
    fn new() -> Self {
        let r = Ref::<F>::new();
        let keys = r.schedule(&[F::zero(); 4]);
        let a_inv = BigUint::from(F::A)
            .modpow_inv(&(gen::modulus::<F>() - 1u32))
            .to_u64_digits();
        Fast { r, keys, a_inv }
    }
    fn perm(&self, x: &[F; 4]) -> [F; 4] {
        let mut s: [F; 4] = core::array::from_fn(|i| x[i] + self.keys[0][i]);
        for (i, k) in self.keys[1..].iter().enumerate() {
            let p: [F; 4] = core::array::from_fn(|j| {
                if i % 2 == 0 {
                    s[j].pow(&self.a_inv)
                } else {
                    s[j].pow([F::A])
                }
            });
            let q = self.r.mul(&p);
            s = core::array::from_fn(|j| q[j] + k[j]);
        }
        s
    }
    fn absorb(&self, s: &mut [F; 4], data: &[F], rate: usize) {
        for ch in data.chunks(rate) {
            for (a, b) in s.iter_mut().zip(ch) {
                *a += b;
            }
            *s = self.perm(s);
        }
    }
    fn squeeze(&self, s: &mut [F; 4], n: usize, rate: usize) -> Vec<F> {
        let mut out = vec![];
        while out.len() < n {
            if !out.is_empty() {
                *s = self.perm(s);
            }
            for v in s.iter().take(rate.min(n - out.len())) {
                out.push(*v);
            }
        }
        out
    }
    fn sponge(&self, data: &[F], n: usize) -> Vec<F> {
        let mut s = [F::zero(); 4];
        self.absorb(&mut s, data, 3);
        self.squeeze(&mut s, n, 3)
    }
    fn zero_pad(data: &[F], m: usize) -> Vec<F> {
        let mut v = data.to_vec();
        while v.len() % m != 0 {
            v.push(F::zero());
        }
        v
    }
    fn bit_pad(data: &[F], m: usize) -> Vec<F> {
        let mut v = data.to_vec();
        v.push(F::one());
        Self::zero_pad(&v, m)
    }
    fn prf(&self, key: F, data: &[F], n: usize) -> Vec<F> {
        let mut s = [F::zero(), F::zero(), F::zero(), key];
        self.absorb(&mut s, &Self::zero_pad(data, 4), 4);
        self.squeeze(&mut s, n, 4)
    }
}

trait Refd: RescueParameter {
    fn fast() -> &'static Fast<Self>;
    const KAT: &'static str;
}
macro_rules! refd {
    ($t:ty, $k:literal) => {
        impl Refd for $t {
            fn fast() -> &'static Fast<Self> {
                static S: OnceLock<Fast<$t>> = OnceLock::new();
                S.get_or_init(Fast::new)
            }
            const KAT: &'static str = $k;
        }
    };
}
refd!(F381, "74b08992579efdce97f3c287d9c2b0f31e6626e5020aef196e7dc93a14dd5117");
refd!(F377, "53406cceb142b5a8d59434e9287907cf3ff82a1b3d8fe3b6d642a7699813cb0b");
refd!(F254, "0e334ca5edaa5b2971ef359b546e1a010624841061eb55f1db181cea631c8b0a");
refd!(Q254, "8af55cadc217b3bafb117e8f7f9c75add71ab30281640851a21b08891f57072c");
refd!(Q377, "594c5e27538ea0705a50308d150d8e7d7cca90aa7b5d5b7a69eeaf65abed50f5");

macro_rules! rescue_fields {
    ($c:expr, $f:ident) => {
        match $c.idx % 5 {
            0 => $f::<F381>($c),
            1 => $f::<F377>($c),
            2 => $f::<F254>($c),
            3 => $f::<Q254>($c),
            _ => $f::<Q377>($c),
        }
    };
}

fn arr<F: PrimeField>(c: &mut Case) -> [F; 4] {
    core::array::from_fn(|_| gen::field(c))
}
fn v4<F: PrimeField>(x: &[F; 4]) -> RescueVector<F> {
    RescueVector::from(x)
}
fn ints<F: PrimeField>(v: &[F]) -> Vec<BigUint> {
    v.iter().map(gen::int).collect()
}

fn kat_rescue<F: RescueParameter>() -> String {
    let mut h = Sha256::new();
    let mut put = |v: &[F]| {
        for x in v {
            let mut b = vec![];
            x.serialize_compressed(&mut b).unwrap();
            h.update(&b);
        }
    };
    let z = [F::zero(); 4];
    let a: [F; 4] = core::array::from_fn(|i| F::from(i as u64 + 1));
    put(&PRP::<F>::default().prp(&v4(&z), &v4(&z)).elems());
    put(&PRP::<F>::default().prp(&v4(&a), &v4(&z)).elems());
    put(&PRP::<F>::default().prp(&v4(&z), &v4(&a)).elems());
    put(&Permutation::<F>::default().eval(&v4(&a)).elems());
    put(&RescueCRHF::<F>::sponge_with_bit_padding(&a, 5));
    put(&RescueCRHF::<F>::sponge_with_zero_padding(&a, 5));
    hex::encode(h.finalize())
}

// ---------------------------------------------------------------- H01

fn h01_prp_t<F: Refd>(c: &mut Case) {
    let r = &F::fast().r;
    let prp = PRP::<F>::default();
    for _ in 0..2 {
        let (k, x) = (arr::<F>(c), arr::<F>(c));
        c.key((ints(&k), ints(&x)));
        let want_keys = r.schedule(&k);
        let keys = prp.key_schedule(&v4(&k));
        c.eq(&keys.len(), &(2 * ROUNDS + 1), "round_key_count");
        c.eq(
            &keys.iter().map(|v| v.elems()).collect::<Vec<_>>(),
            &want_keys.iter().map(|v| v.to_vec()).collect::<Vec<_>>(),
            "key_schedule",
        );
        let y = prp.prp(&v4(&k), &v4(&x)).elems();
        c.eq(&y, &r.prp(&want_keys, &x).to_vec(), "prp");
        c.eq(&prp.prp_with_round_keys(&keys, &v4(&x)).elems(), &y, "prp_with_round_keys");
        // bijective: changing any one input entry changes the output, and the
        // inverse of the reference leads back
        let mut x2 = x;
        let i = c.below(4);
        x2[i] += F::one();
        c.check(prp.prp(&v4(&k), &v4(&x2)).elems() != y, "prp_collision", || format!("{i}"));
        let mut k2 = k;
        k2[i] += F::one();
        c.check(prp.prp(&v4(&k2), &v4(&x)).elems() != y, "prp_key_ignored", || format!("{i}"));
        c.ev("rescue.prp");
        let yy: [F; 4] = core::array::from_fn(|j| y[j]);
        c.eq(&inverse(r, &want_keys, &yy).to_vec(), &x.to_vec(), "prp_inverse");
        c.ev("rescue.inverted");
    }
    c.sample(|| format!("keyed permutation over a {}-bit field", F::MODULUS_BIT_SIZE));
}

/// Inverse of the keyed permutation, from a Gauss-inverted mixing matrix.
fn inverse<F: RescueParameter>(r: &Ref<F>, keys: &[[F; 4]], y: &[F; 4]) -> [F; 4] {
    let mut m: Vec<Vec<F>> = (0..4)
        .map(|i| {
            let mut v = r.mds[i].to_vec();
            v.extend((0..4).map(|j| if i == j { F::one() } else { F::zero() }));
            v
        })
        .collect();
    for col in 0..4 {
        let p = (col..4).find(|&i| !m[i][col].is_zero()).expect("mixing matrix is invertible");
        m.swap(col, p);
        let inv = m[col][col].inverse().unwrap();
        for x in m[col].iter_mut() {
            *x *= inv;
        }
        for i in 0..4 {
            if i != col {
                let f = m[i][col];
                for j in 0..8 {
                    let t = m[col][j] * f;
                    m[i][j] -= t;
                }
            }
        }
    }
    let mut s = *y;
    for (i, k) in keys[1..].iter().enumerate().rev() {
        let d: [F; 4] = core::array::from_fn(|j| s[j] - k[j]);
        let u: [F; 4] = core::array::from_fn(|a| (0..4).map(|b| m[a][4 + b] * d[b]).sum());
        s = core::array::from_fn(|j| {
            if i % 2 == 0 {
                u[j].pow([F::A])
            } else {
                Ref::<F>::root(&u[j])
            }
        });
    }
    core::array::from_fn(|i| s[i] - keys[0][i])
}

fn h01_prp(c: &mut Case) {
    rescue_fields!(c, h01_prp_t)
}

fn h01_perm_t<F: Refd>(c: &mut Case) {
    let f = F::fast();
    let p = Permutation::<F>::default();
    for _ in 0..4 {
        let x = arr::<F>(c);
        c.key(ints(&x));
        c.eq(&p.eval(&v4(&x)).elems(), &f.perm(&x).to_vec(), "permutation");
        c.eq(&RescueVector::from(&x[..]).elems(), &x.to_vec(), "vector_of_slice");
        c.eq(
            &PRP::<F>::default().prp(&RescueVector::zero(), &v4(&x)).elems(),
            &f.perm(&x).to_vec(),
            "permutation_is_zero_key_prp",
        );
        c.ev("rescue.permutation");
    }
    c.eq(
        &p.round_keys_ref().iter().map(|v| v.elems()).collect::<Vec<_>>(),
        &f.keys.iter().map(|v| v.to_vec()).collect::<Vec<_>>(),
        "stored_round_keys",
    );
    c.eq(&kat_rescue::<F>(), &F::KAT.to_string(), "frozen_answers");
    // the linear pieces that circuits are generated from
    let prp = PRP::<F>::default();
    let (x, k) = (arr::<F>(c), arr::<F>(c));
    let mut l = v4(&x);
    l.linear(prp.mds_matrix_ref(), &v4(&k));
    let m = f.r.mul(&x);
    c.eq(&l.elems(), &(0..4).map(|i| m[i] + k[i]).collect::<Vec<_>>(), "linear");
    let mut n = v4(&x);
    n.non_linear(prp.mds_matrix_ref(), &v4(&k));
    let m = f.r.mul(&core::array::from_fn(|i| x[i].pow([F::A])));
    c.eq(&n.elems(), &(0..4).map(|i| m[i] + k[i]).collect::<Vec<_>>(), "non_linear");
    c.eq(&prp.mds_matrix_ref().len(), &4, "matrix_len");
    c.eq(&prp.init_vec_ref().elems(), &f.r.init.to_vec(), "init_vec");
    c.eq(
        &prp.key_injection_vec_ref().iter().map(|v| v.elems()).collect::<Vec<_>>(),
        &f.r.inj.iter().map(|v| v.to_vec()).collect::<Vec<_>>(),
        "key_injection",
    );
}
fn h01_perm(c: &mut Case) {
    c.sample(|| "unkeyed permutation, stored round keys and frozen answers".into());
    rescue_fields!(c, h01_perm_t)
}

// ---------------------------------------------------------------- H02

fn h02_sponge_t<F: Refd>(c: &mut Case) {
    let f = F::fast();
    let n = gen::size(c, 13, 300);
    let out = gen::size(c, 11, 130);
    let x: Vec<F> = gen::fields(c, n);
    c.key((ints(&x), out));
    let bp = RescueCRHF::<F>::sponge_with_bit_padding(&x, out);
    c.eq(&bp, &f.sponge(&Fast::bit_pad(&x, 3), out), "bit_padding");
    let zp = RescueCRHF::<F>::sponge_with_zero_padding(&x, out);
    c.eq(&zp, &f.sponge(&Fast::zero_pad(&x, 3), out), "zero_padding");
    let np = RescueCRHF::<F>::sponge_no_padding(&x, out);
    if n % 3 == 0 {
        match np {
            Ok(v) => {
                c.eq(&v, &f.sponge(&x, out), "no_padding");
            },
            Err(e) => c.fail("no_padding_refused", format!("{e}")),
        }
    } else {
        c.check(np.is_err(), "no_padding_accepts_partial", || format!("{n}"));
        c.ev("rescue.partial_refused");
    }
    // variable-length mode separates lengths: no message collides with itself
    // plus zeros or a one
    let mut ext = x.clone();
    ext.push(if c.coin() { F::zero() } else { F::one() });
    let a = RescueCRHF::<F>::sponge_with_bit_padding(&x, 3);
    let b = RescueCRHF::<F>::sponge_with_bit_padding(&ext, 3);
    c.check(a != b, "bit_padding_collision", || format!("len {n}"));
    macro_rules! var {
        ($($o:literal),*) => {{ $(
            match VariableLengthRescueCRHF::<F, $o>::evaluate(&x) {
                Ok(v) => { c.eq(&v.to_vec(), &f.sponge(&Fast::bit_pad(&x, 3), $o), "variable_length"); },
                Err(e) => c.fail("variable_length_refused", format!("{e}")),
            }
        )* }};
    }
    if c.coin() {
        var!(1, 2, 3)
    } else {
        var!(4, 7)
    }
    c.ev("rescue.sponge");
    c.sample(|| format!("{n} inputs, {out} outputs, three padding modes"));
}
fn h02_sponge(c: &mut Case) {
    rescue_fields!(c, h02_sponge_t)
}

/// Every number of inputs and every number of outputs in turn.
fn h02_lengths(c: &mut Case) {
    type F = F254;
    let f = F::fast();
    let (n, out) = if c.idx < 160 { (c.idx, 1 + c.idx % 4) } else { (c.idx % 5, c.idx % 160) };
    let x: Vec<F> = gen::fields(c, n);
    c.key((n, out));
    c.sample(|| format!("{n} inputs, {out} outputs"));
    let bp = RescueCRHF::<F>::sponge_with_bit_padding(&x, out);
    c.check(bp == f.sponge(&Fast::bit_pad(&x, 3), out), "bit_padding", || format!("{n} {out}"));
    let zp = RescueCRHF::<F>::sponge_with_zero_padding(&x, out);
    let want = f.sponge(&Fast::zero_pad(&x, 3), out);
    c.check(zp == want, "zero_padding", || format!("{n} {out}"));
    let np = RescueCRHF::<F>::sponge_no_padding(&x, out);
    c.check(np.ok() == (n % 3 == 0).then_some(want), "no_padding", || format!("{n} {out}"));
    c.ev("rescue.every_length");
}

fn h02_fixed_t<F: Refd>(c: &mut Case) {
    let f = F::fast();
    macro_rules! fixed {
        ($($i:literal, $o:literal);*) => {{ $({
            let x: [F; $i] = core::array::from_fn(|_| gen::field(c));
            c.key(ints(&x));
            match FixedLengthRescueCRHF::<F, $i, $o>::evaluate(&x) {
                Ok(v) => { c.eq(&v.to_vec(), &f.sponge(&Fast::zero_pad(&x, 3), $o), "fixed_length"); },
                Err(e) => c.fail("fixed_length_refused", format!("{e}")),
            }
        })* }};
    }
    macro_rules! com {
        ($($i:literal, $j:literal);*) => {{ $({
            type C<F> = FixedLengthRescueCommitment<F, $i, $j>;
            let x: [F; $i] = core::array::from_fn(|_| gen::field(c));
            let r: F = gen::field(c);
            let mut m = vec![r];
            m.extend_from_slice(&x);
            c.key(ints(&m));
            if let Some(v) = c.ok(C::<F>::commit(&x, Some(&r)), "commit_refused") {
                c.eq(&v, &f.sponge(&Fast::zero_pad(&m, 3), 1)[0], "commit");
                c.eq(&C::<F>::verify(&x, Some(&r), &v), &Ok(Ok(())), "commit_verify");
                let d = F::one() + F::from(c.rng.gen_range(0..3u64));
                c.eq(&C::<F>::verify(&x, Some(&(r + d)), &v), &Ok(Err(())), "commit_other_blinder");
                c.eq(&C::<F>::verify(&x, Some(&r), &(v + d)), &Ok(Err(())), "commit_other_value");
                // values that stand out, and parts of the statement, are no commitments
                let z = [F::zero(), F::one(), -F::one(), r, x[0], x[$i - 1], -v, v.double()];
                let k = c.below(z.len());
                let odd: F = z[k];
                let u = if c.coin() { odd } else { F::zero() };
                let w = C::<F>::commit(&x, Some(&u)).ok();
                c.eq(&C::<F>::verify(&x, Some(&u), &odd), &Ok(if w == Some(odd) { Ok(()) } else { Err(()) }), "commit_odd_value");
                for i in 0..$i {
                    let mut y = x;
                    y[i] += d;
                    c.eq(&C::<F>::verify(&y, Some(&r), &v), &Ok(Err(())), "commit_other_input");
                }
                if $i >= 2 && x[0] != r {
                    // swapping the blinder with an input entry is another message
                    let mut y = x;
                    y[0] = r;
                    c.eq(&C::<F>::verify(&y, Some(&x[0]), &v), &Ok(Err(())), "commit_swapped");
                }
            }
            c.check(C::<F>::commit(&x, None).is_err(), "commit_without_blinder", String::new);
            c.check(C::<F>::verify(&x, None, &r).is_err(), "verify_without_blinder", String::new);
            c.ev("rescue.commitment");
        })* }};
    }
    macro_rules! prf {
        ($($i:literal, $o:literal);*) => {{ $({
            type P<F> = RescuePRF<F, $i, $o>;
            let x: [F; $i] = core::array::from_fn(|_| gen::field(c));
            let k: F = gen::field(c);
            c.key((ints(&x), gen::int(&k)));
            if let Some(v) = c.ok(P::<F>::evaluate(&k, &x), "prf_refused") {
                c.eq(&v.to_vec(), &f.prf(k, &x, $o), "prf");
                let w = P::<F>::evaluate(&(k + F::one()), &x).unwrap();
                c.check(w != v, "prf_key_ignored", String::new);
                for i in 0..$i {
                    let mut y = x;
                    y[i] += F::one();
                    c.check(P::<F>::evaluate(&k, &y).unwrap() != v, "prf_input_ignored", || format!("{i}"));
                }
            }
            if let Some((s, v)) = c.ok(P::<F>::evaluate_with_rand_seed(&mut c.rng.clone(), &x), "prf_rand_refused") {
                c.eq(&v.to_vec(), &f.prf(s, &x, $o), "prf_rand_seed");
                let want = F::rand(&mut c.rng.clone());
                c.eq(&s, &want, "prf_seed_from_rng");
            }
            c.ev("rescue.prf");
        })* }};
    }
    match c.below(32) {
        30 => {
            fixed!(40, 1; 65, 40)
        },
        31 => {
            com!(33, 34);
            prf!(33, 1; 1, 40; 64, 2)
        },
        0..=4 => {
            fixed!(1, 1; 2, 1; 3, 1; 4, 2; 5, 3)
        },
        5..=9 => {
            fixed!(6, 4; 7, 7; 9, 1; 3, 8)
        },
        10..=14 => {
            com!(1, 2; 2, 3; 3, 4)
        },
        15..=19 => {
            com!(5, 6; 8, 9)
        },
        20..=24 => {
            prf!(1, 1; 4, 1; 5, 2)
        },
        _ => {
            prf!(3, 4; 8, 5; 2, 9)
        },
    }
    c.sample(|| "fixed-length hash, commitment or PRF with its reference sponge".into());
}
fn h02_fixed(c: &mut Case) {
    rescue_fields!(c, h02_fixed_t)
}

/// Streaming sponge with arbitrary interleavings of absorb and squeeze.
fn h02_stream_t<F: Refd>(c: &mut Case) {
    fn go<F: Refd, const R: usize>(c: &mut Case) {
        let f = F::fast();
        let perm = Permutation::<F>::default();
        let mut st = arr::<F>(c);
        let mut s = if c.coin() {
            st = [F::zero(); 4];
            RescueSponge::<F, R>::new(&perm)
        } else {
            RescueSponge::<F, R>::from_state(v4(&st), &perm)
        };
        let mut script = vec![];
        let steps = gen::size(c, 5, 20).max(1);
        for _ in 0..steps {
            if c.coin() {
                let n = gen::size(c, 7, 70);
                let x: Vec<F> = gen::fields(c, n);
                s.absorb(&x);
                f.absorb(&mut st, &x, R);
                script.push((0u8, n));
            } else {
                let n = gen::size(c, 9, 70).max(1);
                let got = s.squeeze_native_field_elements(n);
                let want = f.squeeze(&mut st, n, R);
                c.eq(&got, &want, "stream_squeeze");
                script.push((1u8, n));
            }
        }
        c.key((R, &script, ints(&st)));
        let dom = c.bytes(3);
        let fk = s.fork(&dom).squeeze_native_field_elements(2);
        let mut d2 = dom.clone();
        d2.push(0);
        let fk2 = s.fork(&d2).squeeze_native_field_elements(2);
        c.check(fk != fk2, "fork_domain_ignored", || format!("{dom:?}"));
        let mut d3 = dom.clone();
        gen::flip(c, &mut d3);
        let fk3 = s.fork(&d3).squeeze_native_field_elements(2);
        c.check(fk != fk3, "fork_domain_ignored", || format!("{dom:?} and {d3:?}"));
        c.eq(&s.fork(&dom).squeeze_native_field_elements(2), &fk, "fork_twice");
        c.eq(&s.into_state().elems(), &st.to_vec(), "stream_state");
        c.ev("rescue.stream");
        c.sample(|| format!("rate {R} script {script:?}"));
    }
    match c.below(4) {
        0 => go::<F, 1>(c),
        1 => go::<F, 2>(c),
        2 => go::<F, 3>(c),
        _ => go::<F, 4>(c),
    }
}
fn h02_stream(c: &mut Case) {
    rescue_fields!(c, h02_stream_t)
}

// ---------------------------------------------------------------- H03

fn p2_ref<F: PrimeField, P: Poseidon2Params<F, T>, const T: usize>(x: &[F; T]) -> [F; T] {
    let ext: Vec<Vec<u64>> = (0..T)
        .map(|i| {
            (0..T)
                .map(|j| {
                    if T < 4 {
                        return if i == j { 2 } else { 1 };
                    }
                    const M: [[u64; 4]; 4] = [[2, 3, 1, 1], [1, 2, 3, 1], [1, 1, 2, 3], [3, 1, 1, 2]];
                    let m = M[i % 4][j % 4];
                    if i / 4 == j / 4 {
                        2 * m
                    } else {
                        m
                    }
                })
                .collect()
        })
        .collect();
    let mul_ext = |s: &[F; T]| -> [F; T] {
        core::array::from_fn(|i| (0..T).map(|j| F::from(ext[i][j]) * s[j]).sum())
    };
    let diag = P::internal_mat_diag_m_1();
    let mul_int = |s: &[F; T]| -> [F; T] {
        core::array::from_fn(|i| {
            (0..T)
                .map(|j| {
                    let d = if T == 2 {
                        [F::from(2u64), F::from(3u64)][i % 2]
                    } else if T == 3 {
                        [F::from(2u64), F::from(2u64), F::from(3u64)][i % 3]
                    } else {
                        diag[i] + F::one()
                    };
                    if i == j {
                        d * s[j]
                    } else {
                        s[j]
                    }
                })
                .sum()
        })
    };
    let d = [P::D as u64];
    let rc = P::external_rc();
    let mut s = mul_ext(x);
    let half = P::EXT_ROUNDS / 2;
    for r in &rc[..half] {
        let t: [F; T] = core::array::from_fn(|i| (s[i] + r[i]).pow(d));
        s = mul_ext(&t);
    }
    for r in P::internal_rc() {
        s[0] = (s[0] + r).pow(d);
        s = mul_int(&s);
    }
    for r in &rc[half..] {
        let t: [F; T] = core::array::from_fn(|i| (s[i] + r[i]).pow(d));
        s = mul_ext(&t);
    }
    s
}

/// Parameters with random constants, to reach the state sizes and S-box degrees
/// that the shipped parameter sets do not use.
macro_rules! own_params {
    ($n:ident, $t:literal, $d:literal, $ext:literal, $int:literal) => {
        #[derive(Clone)]
        struct $n;
        impl $n {
            fn k() -> &'static (Vec<[F254; $t]>, Vec<F254>, [F254; $t]) {
                static S: OnceLock<(Vec<[F254; $t]>, Vec<F254>, [F254; $t])> = OnceLock::new();
                S.get_or_init(|| {
                    let mut k = 1u64;
                    let mut next = || {
                        k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        F254::from(k).pow([3u64])
                    };
                    (
                        (0..$ext).map(|_| core::array::from_fn(|_| next())).collect(),
                        (0..$int).map(|_| next()).collect(),
                        core::array::from_fn(|_| next()),
                    )
                })
            }
        }
        impl Poseidon2Params<F254, $t> for $n {
            const D: usize = $d;
            const EXT_ROUNDS: usize = $ext;
            const INT_ROUNDS: usize = $int;
            fn external_rc() -> &'static [[F254; $t]] {
                &Self::k().0
            }
            fn internal_rc() -> &'static [F254] {
                &Self::k().1
            }
            fn internal_mat_diag_m_1() -> &'static [F254; $t] {
                &Self::k().2
            }
        }
    };
}
own_params!(O4, 4, 5, 8, 5);
own_params!(O8, 8, 7, 8, 3);
own_params!(O12, 12, 11, 4, 3);
own_params!(O16, 16, 3, 8, 7);
own_params!(O20, 20, 5, 6, 2);
own_params!(O24, 24, 7, 8, 9);
own_params!(Bad5, 5, 5, 8, 5);

fn p2_perm<F: PrimeField, P: Poseidon2Params<F, T>, const T: usize>(c: &mut Case) {
    let x: [F; T] = core::array::from_fn(|_| gen::field(c));
    c.key(ints(&x));
    let want = p2_ref::<F, P, T>(&x);
    c.eq(&Poseidon2::<F>::permute::<P, T>(&x).to_vec(), &want.to_vec(), "poseidon2_permute");
    let mut y = x;
    Poseidon2::<F>::permute_mut::<P, T>(&mut y);
    c.eq(&y.to_vec(), &want.to_vec(), "poseidon2_permute_mut");
    let mut x2 = x;
    let i = c.below(T);
    x2[i] += F::one();
    c.check(
        Poseidon2::<F>::permute::<P, T>(&x2) != want,
        "poseidon2_collision",
        || format!("{i}"),
    );
    c.ev(format!("poseidon2.t{T}"));
}

fn h03_perm(c: &mut Case) {
    c.sample(|| "permutation of each state size against explicit matrices".into());
    match c.idx % 9 {
        0 => p2_perm::<F381, Poseidon2ParamsBls2, 2>(c),
        1 => p2_perm::<F381, Poseidon2ParamsBls3, 3>(c),
        2 => p2_perm::<F254, Poseidon2ParamsBn3, 3>(c),
        3 => p2_perm::<F254, O4, 4>(c),
        4 => p2_perm::<F254, O8, 8>(c),
        5 => p2_perm::<F254, O12, 12>(c),
        6 => p2_perm::<F254, O16, 16>(c),
        7 => p2_perm::<F254, O20, 20>(c),
        _ => p2_perm::<F254, O24, 24>(c),
    }
    if c.idx % 64 == 0 {
        c.check(!Bad5::sanity_check(), "bad_state_size_accepted", String::new);
        c.check(O24::sanity_check() && O4::sanity_check(), "good_params_refused", String::new);
        // published vectors (HorizenLabs)
        let hx = |s: &str| F381::from(BigUint::parse_bytes(s.as_bytes(), 16).unwrap());
        let hn = |s: &str| F254::from(BigUint::parse_bytes(s.as_bytes(), 16).unwrap());
        let o = Poseidon2::<F381>::permute::<Poseidon2ParamsBls2, 2>(&[0u64, 1].map(F381::from));
        c.eq(
            &o.to_vec(),
            &vec![
                hx("73c46dd530e248a87b61d19e67fa1b4ed30fc3d09f16531fe189fb945a15ce4e"),
                hx("1f0e305ee21c9366d5793b80251405032a3fee32b9dd0b5f4578262891b043b4"),
            ],
            "published_bls2",
        );
        let o = Poseidon2::<F381>::permute::<Poseidon2ParamsBls3, 3>(&[0u64, 1, 2].map(F381::from));
        c.eq(
            &o.to_vec(),
            &vec![
                hx("1b152349b1950b6a8ca75ee4407b6e26ca5cca5650534e56ef3fd45761fbf5f0"),
                hx("4c5793c87d51bdc2c08a32108437dc0000bd0275868f09ebc5f36919af5b3891"),
                hx("1fc8ed171e67902ca49863159fe5ba6325318843d13976143b8125f08b50dc6b"),
            ],
            "published_bls3",
        );
        let o = Poseidon2::<F254>::permute::<Poseidon2ParamsBn3, 3>(&[0u64, 1, 2].map(F254::from));
        c.eq(
            &o.to_vec(),
            &vec![
                hn("0bb61d24daca55eebcb1929a82650f328134334da98ea4f847f760054f4a3033"),
                hn("303b6f7c86d043bfcbcc80214f26a30277a15d3f74ca654992defe7ff8d03570"),
                hn("1ed25194542b12eef8617361c3ba7c52e660b145994427cc86296242cf766ec8"),
            ],
            "published_bn3",
        );
    }
}

/// Overwrite-mode duplex sponge over the reference permutation.
fn p2_sponge<F: PrimeField, P: Poseidon2Params<F, T>, const T: usize>(
    data: &[F],
    rate: usize,
    out: usize,
) -> Vec<F> {
    let mut s = [F::zero(); T];
    let chunks: Vec<&[F]> = data.chunks(rate).collect();
    for (i, ch) in chunks.iter().enumerate() {
        if i > 0 {
            s = p2_ref::<F, P, T>(&s);
        }
        s[..ch.len()].copy_from_slice(ch);
    }
    let mut o = vec![];
    while o.len() < out {
        s = p2_ref::<F, P, T>(&s);
        o.extend(s.iter().take(rate.min(out - o.len())));
    }
    o
}

fn p2_hash<F, P, const T: usize, const R: usize>(c: &mut Case)
where
    F: PrimeField + Unit,
    P: Poseidon2Params<F, T>,
{
    type S<F, P, const T: usize, const R: usize> = Poseidon2Permutation<F, T, R, P>;
    macro_rules! fixed {
        ($($i:literal, $o:literal);*) => {{ $({
            let n = c.range(0, $i);
            let x: Vec<F> = gen::fields(c, n);
            c.key((ints(&x), $i, $o));
            let mut p = x.clone();
            p.resize($i, F::zero());
            let got = FixedLenPoseidon2Hash::<F, S<F, P, T, R>, $i, $o>::evaluate(x.as_slice());
            match got {
                Ok(v) => { c.eq(&v.to_vec(), &p2_sponge::<F, P, T>(&p, R, $o), if n == 0 { "fixed_hash_empty" } else { "fixed_hash" }); },
                Err(e) => c.fail("fixed_hash_refused", format!("{e}")),
            }
            let long: Vec<F> = gen::fields(c, $i + 1);
            c.check(
                FixedLenPoseidon2Hash::<F, S<F, P, T, R>, $i, $o>::evaluate(long.as_slice()).is_err(),
                "fixed_hash_too_long", || format!("{}", $i + 1));
            c.ev("poseidon2.fixed");
        })* }};
    }
    macro_rules! var {
        ($($o:literal),*) => {{ $({
            let n = gen::size(c, 9, 130);
            let x: Vec<F> = gen::fields(c, n);
            c.key((ints(&x), $o));
            let mut p = x.clone();
            p.push(F::one());
            while p.len() % R != 0 { p.push(F::zero()); }
            match VariableLenPoseidon2Hash::<F, S<F, P, T, R>, $o>::evaluate(x.as_slice()) {
                Ok(v) => {
                    c.eq(&v.to_vec(), &p2_sponge::<F, P, T>(&p, R, $o), "variable_hash");
                    let mut y = x.clone();
                    y.push(if c.coin() { F::zero() } else { F::one() });
                    let w = VariableLenPoseidon2Hash::<F, S<F, P, T, R>, $o>::evaluate(y.as_slice());
                    c.check(w != Ok(v), "variable_hash_collision", || format!("{n}"));
                },
                Err(e) => c.fail("variable_hash_refused", format!("{e}")),
            }
            c.ev("poseidon2.variable");
        })* }};
    }
    match c.below(32) {
        31 => {
            fixed!(40, 1; 65, 20)
        },
        0..=7 => {
            fixed!(1, 1; 2, 1; 3, 2)
        },
        8..=15 => {
            fixed!(4, 1; 6, 3; 5, 5)
        },
        16..=23 => var!(1, 2),
        _ => var!(3, 6),
    }
    // raw sponge with an initial value
    let iv: [u8; 32] = core::array::from_fn(|_| c.rng.gen());
    if (T - R) as u32 * F::MODULUS_BIT_SIZE >= 200 {
        let mut sp = DuplexSponge::<S<F, P, T, R>>::new(iv);
        let n = c.range(1, 5);
        let x: Vec<F> = gen::fields(c, n);
        sp.absorb_unchecked(&x);
        let mut o = vec![F::zero(); 3];
        sp.squeeze_unchecked(&mut o);
        let mut s = [F::zero(); T];
        s[R] = gen::from_int(&BigUint::from_bytes_be(&iv));
        for (i, ch) in x.chunks(R).enumerate() {
            if i > 0 {
                s = p2_ref::<F, P, T>(&s);
            }
            s[..ch.len()].copy_from_slice(ch);
        }
        let mut want = vec![];
        while want.len() < 3 {
            s = p2_ref::<F, P, T>(&s);
            want.extend(s.iter().take(R.min(3 - want.len())));
        }
        c.eq(&o, &want, "sponge_iv");
        c.ev("poseidon2.sponge_iv");
    }
}

/// Every number of inputs in turn.
fn h03_lengths(c: &mut Case) {
    let n = c.idx % 400;
    c.key(n);
    c.sample(|| format!("{n} inputs"));
    macro_rules! one {
        ($($F:ty, $P:ty, $t:literal, $r:literal);*) => {{ $({
            let x: Vec<$F> = gen::fields(c, n);
            let mut p = x.clone();
            p.push(<$F>::from(1u64));
            while p.len() % $r != 0 { p.push(<$F>::from(0u64)); }
            let got = VariableLenPoseidon2Hash::<$F, Poseidon2Permutation<$F, $t, $r, $P>, 2>::evaluate(x.as_slice());
            c.check(got.ok().map(|v| v.to_vec()) == Some(p2_sponge::<$F, $P, $t>(&p, $r, 2)), "variable_hash", || format!("{n}"));
        })* }};
    }
    one!(F381, Poseidon2ParamsBls2, 2, 1; F381, Poseidon2ParamsBls3, 3, 2; F254, Poseidon2ParamsBn3, 3, 2);
    c.ev("poseidon2.every_length");
}

/// The named permutations and sponges are those of their parameters.
fn p2_named(c: &mut Case) {
    use jf_poseidon2::sponge::{bls12_381 as l, bn254 as n};
    macro_rules! named {
        ($($m:ident $P:ident $S:ident $F:ty, $par:ty, $t:literal, $r:literal);*) => {{ $({
            let k = c.range(0, 7);
            let x: Vec<$F> = gen::fields(c, k);
            let mut p = x.clone();
            p.resize(7, <$F>::from(0u64));
            let want = p2_sponge::<$F, $par, $t>(&p, $r, 3);
            let got = FixedLenPoseidon2Hash::<$F, $m::$P, 7, 3>::evaluate(x.as_slice()).map(|v| v.to_vec());
            c.check(got.as_ref().ok() == Some(&want), "named_permutation", || stringify!($P).into());
            let mut sp = $m::$S::default();
            sp.absorb_unchecked(&p);
            let mut o = vec![<$F>::from(0u64); 3];
            sp.squeeze_unchecked(&mut o);
            c.check(o == want, "named_sponge", || stringify!($S).into());
            c.ev("poseidon2.named");
        })* }};
    }
    named!(l Poseidon2PermutationBlsN2R1 Poseidon2SpongeBlsN2R1 F381, Poseidon2ParamsBls2, 2, 1;
        l Poseidon2PermutationBlsN3R1 Poseidon2SpongeBlsN3R1 F381, Poseidon2ParamsBls3, 3, 1;
        l Poseidon2PermutationBlsN3R2 Poseidon2SpongeBlsN3R2 F381, Poseidon2ParamsBls3, 3, 2;
        n Poseidon2PermutationBnN3R1 Poseidon2SpongeBnN3R1 F254, Poseidon2ParamsBn3, 3, 1;
        n Poseidon2PermutationBnN3R2 Poseidon2SpongeBnN3R2 F254, Poseidon2ParamsBn3, 3, 2);
    c.key(c.idx);
    c.sample(|| "named sponge types".into());
}

fn h03_hash(c: &mut Case) {
    c.sample(|| "fixed and variable length hashing of short vectors".into());
    match c.idx % 5 {
        0 => p2_hash::<F381, Poseidon2ParamsBls2, 2, 1>(c),
        1 => p2_hash::<F381, Poseidon2ParamsBls3, 3, 1>(c),
        2 => p2_hash::<F381, Poseidon2ParamsBls3, 3, 2>(c),
        3 => p2_hash::<F254, Poseidon2ParamsBn3, 3, 1>(c),
        _ => p2_hash::<F254, Poseidon2ParamsBn3, 3, 2>(c),
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("golden") {
        println!("KAT_F381 {}", kat_rescue::<F381>());
        println!("KAT_F377 {}", kat_rescue::<F377>());
        println!("KAT_F254 {}", kat_rescue::<F254>());
        println!("KAT_Q254 {}", kat_rescue::<Q254>());
        println!("KAT_Q377 {}", kat_rescue::<Q377>());
        return;
    }
    main_with(vec![
        Property {
            id: "H01",
            rule: "boundary-biased keys and states on 5 fields, forward against a reference built \
                   from the group order, backward through an inverted mixing matrix; distinct by \
                   (key, state)",
            assumptions: &["the frozen answers were taken from the published constants at the base commit"],
            scenarios: vec![
                sc("keyed", 600, 12000, h01_prp),
                sc("unkeyed", 1200, 24000, h01_perm),
            ],
        },
        Property {
            id: "H02",
            rule: "random input and output lengths for every padding mode, commitment, PRF and \
                   streaming script, against a reference sponge; distinct by inputs",
            assumptions: &["the stand-in for the sponge traits follows upstream for field elements"],
            scenarios: vec![
                sc("padding_modes", 280, 15000, h02_sponge),
                sc("fixed_modes", 700, 20000, h02_fixed),
                sc("streaming", 300, 15000, h02_stream),
                sc("every_length", 320, 3200, h02_lengths),
            ],
        },
        Property {
            id: "H03",
            rule: "states of every supported size and inputs of every length, against explicit \
                   matrices and published vectors; distinct by input",
            assumptions: &["the duplex sponge stand-in follows upstream's documented overwrite mode"],
            scenarios: vec![
                sc("permutation", 20000, 400000, h03_perm),
                sc("hashing", 8000, 400000, h03_hash),
                sc("named", 50, 1000, p2_named),
                sc("every_length", 400, 4000, h03_lengths),
            ],
        },
    ]);
}
