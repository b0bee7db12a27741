//! Monitors for the Merkle trees.

mod gadgets;
mod reference;

use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_merkle_tree::{
    append_only::MerkleTree,
    examples::{Interval, IntervalMerkleTree},
    hasher::{HasherDigestAlgorithm, HasherNode},
    light_weight::LightWeightMerkleTree,
    prelude::{
        AppendableMerkleTreeScheme, ForgetableMerkleTreeScheme,
        ForgetableUniversalMerkleTreeScheme, Keccak256Digest, Keccak256MerkleTree, Keccak256Node,
        LookupResult, MerkleTreeProof, MerkleTreeScheme, NodeValue, RescueHash, Sha3Digest,
        Sha3Node, ToTraversalPath, UniversalMerkleTree, UniversalMerkleTreeScheme,
    },
    MerkleProof, MerkleTreeError, PersistentUniversalMerkleTreeScheme, RangeProofMerkleTreeScheme,
};
use jf_poseidon2::{
    constants::{
        bls12_381::{Poseidon2ParamsBls2, Poseidon2ParamsBls3},
        bn254::Poseidon2ParamsBn3,
    },
    crhf::FixedLenPoseidon2Hash,
    permutation::Poseidon2Permutation,
};
use jf_merkle_tree::{DigestAlgorithm, Element, Index};
use num_bigint::BigUint;
use reference::*;
use sha2::Sha256;
use std::collections::BTreeSet;
use vh::{guard, main_with, sc, Case, Property, Rng};

type F381 = ark_bls12_381::Fr;
type F254 = ark_bn254::Fr;
type F377 = ark_bls12_377::Fr;
type P381x2 = W<FixedLenPoseidon2Hash<F381, Poseidon2Permutation<F381, 2, 1, Poseidon2ParamsBls2>, 4, 1>>;
type P381x3 = W<FixedLenPoseidon2Hash<F381, Poseidon2Permutation<F381, 3, 2, Poseidon2ParamsBls3>, 3, 1>>;
type P254x3 = W<FixedLenPoseidon2Hash<F254, Poseidon2Permutation<F254, 3, 2, Poseidon2ParamsBn3>, 5, 1>>;
type Hw = W<HasherDigestAlgorithm>;
type HN = HasherNode<Sha256>;

const OK: Result<Result<(), ()>, MerkleTreeError> = Ok(Ok(()));
fn accepted(r: &Result<Result<(), ()>, MerkleTreeError>) -> bool {
    matches!(r, Ok(Ok(())))
}

/// Run a generic scenario on the append-only configurations.
macro_rules! append_cfgs {
    ($c:expr, $f:ident) => {
        match $c.idx % 16 {
            0 => $f::<F381, RescueHash<F381>, 3, F381>($c, 3, 14),
            1 => $f::<F254, RescueHash<F254>, 2, F254>($c, 4, 14),
            2 => $f::<F377, RescueHash<F377>, 4, F377>($c, 2, 14),
            3 => $f::<F381, P381x2, 3, F381>($c, 3, 20),
            4 => $f::<F381, P381x3, 2, F381>($c, 4, 16),
            5 => $f::<F254, P254x3, 4, F254>($c, 3, 20),
            6 => $f::<u64, Sha3Digest, 3, Sha3Node>($c, 4, 40),
            7 => $f::<Vec<u8>, Keccak256Digest, 3, Keccak256Node>($c, 4, 40),
            8 => $f::<u64, Hw, 3, HN>($c, 4, 60),
            9 => $f::<Vec<u8>, Hw, 2, HN>($c, 6, 60),
            10 => $f::<u64, Toy, 2, Tn>($c, 7, 100),
            11 => $f::<u64, Toy, 3, Tn>($c, 5, 100),
            12 => $f::<u64, Toy, 4, Tn>($c, 4, 100),
            13 => $f::<u64, Toy, 5, Tn>($c, 3, 100),
            14 => $f::<u64, Toy, 7, Tn>($c, 2, 49),
            _ => $f::<u64, Toy, 16, Tn>($c, 2, 100),
        }
    };
}

/// Run a generic scenario on trees with many leaves.
macro_rules! large_cfgs {
    ($c:expr, $f:ident) => {
        match $c.idx % 6 {
            0 => $f::<u64, Toy, 2, Tn>($c, 12, 3000),
            1 => $f::<u64, Toy, 3, Tn>($c, 8, 2000),
            2 => $f::<u64, Toy, 16, Tn>($c, 3, 3000),
            3 => $f::<u64, Toy, 2, Tn>($c, 63, 600),
            4 => $f::<u64, Sha3Digest, 3, Sha3Node>($c, 7, 700),
            _ => $f::<Vec<u8>, Hw, 2, HN>($c, 10, 700),
        }
    };
}

/// Run a generic scenario on the key-value configurations.
macro_rules! kv_cfgs {
    ($c:expr, $f:ident) => {
        match $c.idx % 16 {
            0 => $f::<F381, RescueHash<F381>, u64, 3, F381>($c, 4),
            1 => $f::<F254, RescueHash<F254>, BigUint, 3, F254>($c, 5),
            2 => $f::<F254, RescueHash<F254>, F254, 2, F254>($c, 6),
            3 => $f::<F381, P381x2, BigUint, 3, F381>($c, 20),
            4 => $f::<F254, P254x3, u32, 4, F254>($c, 6),
            5 => $f::<F381, P381x3, F381, 2, F381>($c, 30),
            6 => $f::<u64, Sha3Digest, u64, 3, Sha3Node>($c, 10),
            7 => $f::<Vec<u8>, Keccak256Digest, BigUint, 2, Keccak256Node>($c, 40),
            8 => $f::<u64, Hw, u16, 3, HN>($c, 10),
            9 => $f::<Vec<u8>, Hw, BigUint, 5, HN>($c, 12),
            10 => $f::<u64, Toy, u8, 2, Tn>($c, 8),
            11 => $f::<u64, Toy, u64, 2, Tn>($c, 63),
            12 => $f::<u64, Toy, u64, 3, Tn>($c, 3),
            13 => $f::<u64, Toy, BigUint, 4, Tn>($c, 50),
            14 => $f::<u64, Toy, F254, 7, Tn>($c, 6),
            _ => $f::<u64, Toy, ark_bn254::Fq, 16, Tn>($c, 4),
        }
    };
}

fn min_height(a: usize, n: usize) -> usize {
    let mut h = 0;
    while cap(a, h) < n as u128 {
        h += 1;
    }
    h
}

// ---------------------------------------------------------------- M01

/// Compare an append-only tree with the list it should hold.
macro_rules! observe_append {
    ($c:expr, $t:expr, $list:expr, $h:expr, $light:expr, $T:ty, $E:ty, $H:ty, $A:expr, $Tree:ty) => {{
        let (c, t, list): (&mut Case, &$Tree, &Vec<$E>) = ($c, $t, $list);
        let m: Map<$E> = list.iter().cloned().enumerate().map(|(i, e)| (i as u128, e)).collect();
        let com = root::<$E, u64, $T, $H>(&m, $A, $h);
        c.eq(&t.commitment(), &com, "commitment");
        c.eq(&t.num_leaves(), &(list.len() as u64), "num_leaves");
        c.eq(&t.height(), &$h, "height");
        c.eq(&t.capacity(), &BigUint::from($A as u64).pow($h as u32), "capacity");
        let capacity = cap($A, $h);
        for _ in 0..3 {
            let p = if c.coin() || list.is_empty() {
                (c.rng.gen::<u128>() % capacity) as u64
            } else if c.coin() {
                list.len() as u64 - 1
            } else {
                c.below(list.len()) as u64
            };
            let want = list.get(p as usize);
            match (t.lookup(p), want) {
                (LookupResult::Ok(e, proof), Some(w)) => {
                    c.eq(e, w, "lookup_value");
                    c.eq(&proof.0, &path::<$E, u64, $T, $H>(&m, $A, $h, p as u128), "lookup_proof");
                    c.eq(&<$Tree>::verify(com, p, e, &proof), &OK, "proof_refused");
                    c.ev("append.found");
                },
                (LookupResult::NotFound(()), None) => {
                    c.check(true, "", String::new);
                    c.ev("append.absent");
                },
                (LookupResult::NotInMemory, Some(_)) if $light && p as usize + 1 != list.len() => {
                    c.check(true, "", String::new);
                    c.ev("append.not_in_memory");
                },
                (r, w) => c.fail("lookup_kind", format!("pos {p} of {}: {:?} want {w:?}", list.len(), r.expect_ok().map(|x| x.0.clone()))),
            }
        }
        let all: Vec<(u64, $E)> = list.iter().cloned().enumerate().map(|(i, e)| (i as u64, e)).collect();
        let seen: Vec<(u64, $E)> = t.iter().map(|(i, e)| (*i, e.clone())).collect();
        let owned: Vec<(u64, $E)> = t.clone().into_iter().collect();
        let refd: Vec<(u64, $E)> = t.into_iter().map(|(i, e)| (*i, e.clone())).collect();
        c.eq(&owned, &seen, "owned_iteration");
        c.eq(&refd, &seen, "ref_iteration");
        let with: Vec<_> = t.collect_leaves_with_proofs();
        c.eq(&with.len(), &seen.len(), "collected_count");
        for ((i, e, pr), s) in with.iter().zip(&seen).take(4) {
            c.eq(&(**i, (*e).clone()), s, "collected_leaf");
            c.eq(&pr.0, &path::<$E, u64, $T, $H>(&m, $A, $h, s.0 as u128), "collected_proof");
        }
        if $light {
            c.check(seen.iter().all(|x| all.contains(x)), "iteration_stranger", || format!("{}", seen.len()));
            c.check(all.last() == seen.last(), "frontier_lost", || format!("{:?}", seen.last()));
        } else {
            c.eq(&seen, &all, "iteration");
        }
    }};
}

macro_rules! append_scenario {
    ($name:ident, $Tree:ident, $light:expr) => {
        fn $name<E: El, H: Rh<E, u64, T>, const A: usize, T: NodeValue>(c: &mut Case, max_h: usize, max_n: usize)
        {
            type Tr<E, H, const A: usize, T> = $Tree<E, H, u64, A, T>;
            let mut h = c.range(0, max_h);
            let n0 = c.below(max_n / 2 + 1);
            let first: Vec<E> = (0..n0).map(|_| E::draw(c)).collect();
            let mut list: Vec<E>;
            let mut t: Tr<E, H, A, T>;
            match c.below(4) {
                0 => {
                    t = Tr::<E, H, A, T>::new(h);
                    list = vec![];
                },
                1 => {
                    h = min_height(A, n0);
                    match Tr::<E, H, A, T>::from_elems(None, &first) {
                        Ok(x) => t = x,
                        Err(e) => return c.fail("build_minimal", format!("{e:?}")),
                    }
                    list = first;
                },
                _ => {
                    let r = Tr::<E, H, A, T>::from_elems(Some(h), first.iter());
                    if first.len() as u128 > cap(A, h) {
                        c.check(r.is_err(), "build_overfull", || format!("{n0} in height {h}"));
                        c.ev("append.overfull_build");
                        t = Tr::<E, H, A, T>::new(h);
                        list = vec![];
                    } else {
                        match r {
                            Ok(x) => t = x,
                            Err(e) => return c.fail("build", format!("{e:?}")),
                        }
                        list = first;
                    }
                },
            }
            observe_append!(c, &t, &list, h, $light, T, E, H, A, Tr<E, H, A, T>);
            let mut script = vec![];
            for _ in 0..c.range(1, 5) {
                let room = (cap(A, h) - list.len() as u128).min(100_000) as usize;
                let k = match c.below(5) {
                    0 | 1 => 1,
                    2 => room.min(max_n),
                    3 => (room + c.range(1, 3)).min(max_n),
                    _ => c.below(max_n / 2 + 1),
                };
                let batch: Vec<E> = (0..k).map(|_| E::draw(c)).collect();
                let r = if k == 1 && c.coin() { t.push(&batch[0]) } else { t.extend(&batch) };
                let fits = k <= room;
                c.eq(&r.is_ok(), &fits, "capacity_verdict");
                list.extend(batch.into_iter().take(room));
                script.push((k, fits));
                c.ev(if fits { "append.extended" } else { "append.overflow" });
                observe_append!(c, &t, &list, h, $light, T, E, H, A, Tr<E, H, A, T>);
                if c.violated() {
                    return;
                }
            }
            c.key((A, h, &script, c.idx));
            c.sample(|| format!("arity {A} height {h} script {script:?}"));
        }
    };
}
append_scenario!(m01_full_t, MerkleTree, false);
append_scenario!(m01_light_t, LightWeightMerkleTree, true);
fn m01_many(c: &mut Case) {
    if c.coin() {
        large_cfgs!(c, m01_full_t)
    } else {
        large_cfgs!(c, m01_light_t)
    }
}
fn m05_many(c: &mut Case) {
    large_cfgs!(c, m05_t)
}
fn m01_full(c: &mut Case) {
    append_cfgs!(c, m01_full_t)
}
fn m01_light(c: &mut Case) {
    append_cfgs!(c, m01_light_t)
}

/// Every number of leaves in turn: built at once, one by one, and in two parts.
fn m01_count_t<const A: usize>(c: &mut Case, n: usize) {
    type Full<const A: usize> = MerkleTree<u64, Toy, u64, A, Tn>;
    type Light<const A: usize> = LightWeightMerkleTree<u64, Toy, u64, A, Tn>;
    let h = min_height(A, n) + c.below(3);
    let list: Vec<u64> = (0..n).map(|_| u64::draw(c)).collect();
    let m: Map<u64> = list.iter().enumerate().map(|(i, e)| (i as u128, *e)).collect();
    let com = root::<u64, u64, Tn, Toy>(&m, A, h);
    let least = root::<u64, u64, Tn, Toy>(&m, A, min_height(A, n));
    let split = c.below(n + 1);
    c.key((A, h, n));
    c.sample(|| format!("arity {A} height {h} leaves {n} split {split}"));
    macro_rules! build {
        ($T:ty, $name:literal) => {{
            let mut by_one = <$T>::new(h);
            let mut in_two = <$T>::new(h);
            for e in &list {
                c.check(by_one.push(e).is_ok(), concat!($name, "_push"), || format!("{n} in {A}^{h}"));
            }
            let r = in_two.extend(&list[..split]).and_then(|_| in_two.extend(&list[split..]));
            c.check(r.is_ok(), concat!($name, "_extend"), || format!("{n} in {A}^{h} at {split}"));
            for (t, how) in [(Some(by_one), "one by one"), (Some(in_two), "in two parts"), (<$T>::from_elems(Some(h), &list).ok(), "at once")] {
                c.check(
                    t.as_ref().is_some_and(|t| t.commitment() == com && t.num_leaves() == n as u64 && t.height() == h),
                    concat!($name, "_commitment"),
                    || format!("{n} leaves {how}, arity {A} height {h}"),
                );
                let Some(mut t) = t else { continue };
                let want = (n as u128) < cap(A, h);
                c.check(t.push(&7u64).is_ok() == want, concat!($name, "_capacity"), || format!("{n} in {A}^{h}"));
                if n > 0 {
                    let p = n as u64 - 1;
                    let mine = <$T>::from_elems(Some(h), &list).ok();
                    if let Some((e, pr)) = mine.and_then(|t| t.lookup(p).expect_ok().ok().map(|(e, p)| (*e, p))) {
                        c.check(e == list[n - 1] && pr.0 == path::<u64, u64, Tn, Toy>(&m, A, h, p as u128), concat!($name, "_last"), || format!("{n} in {A}^{h}"));
                    } else {
                        c.fail(concat!($name, "_last"), format!("{n} in {A}^{h}"));
                    }
                }
            }
            c.check(<$T>::from_elems(None, &list).is_ok_and(|t| t.commitment() == least), concat!($name, "_minimal"), || format!("{n} arity {A}"));
        }};
    }
    build!(Full<A>, "full");
    build!(Light<A>, "light");
    let t = Full::<A>::from_elems(Some(h), &list).unwrap();
    for p in (0..n).filter(|p| n <= 40 || p % 17 == n % 17) {
        match t.lookup(p as u64) {
            LookupResult::Ok(e, pr) => {
                c.check(*e == list[p] && pr.0 == path::<u64, u64, Tn, Toy>(&m, A, h, p as u128), "full_proof", || format!("{p} of {n}, arity {A} height {h}"));
            },
            _ => c.fail("full_lookup", format!("{p} of {n}, arity {A} height {h}")),
        }
    }
    c.ev("append.every_count");
}

fn m01_count(c: &mut Case) {
    let n = c.idx / 6 % 300;
    match c.idx % 6 {
        0 => m01_count_t::<2>(c, n),
        1 => m01_count_t::<3>(c, n),
        2 => m01_count_t::<4>(c, n),
        3 => m01_count_t::<5>(c, n),
        4 => m01_count_t::<8>(c, n),
        _ => m01_count_t::<16>(c, n),
    }
}

/// The hashes themselves: positions of every size, elements of every length
/// and any number of children.
fn m01_digests(c: &mut Case) {
    fn one<E: Element, I: Index, T: NodeValue, H: Rh<E, I, T>>(c: &mut Case, p: I, e: &E, most: usize, name: &str) {
        let got = H::digest_leaf(&p, e);
        c.check(got.is_ok_and(|x| x == H::leaf(&p, e)), &format!("{name}_leaf"), || format!("position {p:?}"));
        let n = c.range(1, most);
        let mut ch: Vec<T> = vec![];
        for _ in 0..n {
            if c.below(4) == 0 {
                ch.push(T::default());
            } else {
                let q = ch.len();
                let x = H::node(&[H::leaf(&p, e), ch.get(q / 2).copied().unwrap_or_default()]);
                ch.push(x);
            }
        }
        let got = <H as DigestAlgorithm<E, I, T>>::digest(&ch);
        c.check(got.is_ok_and(|x| x == H::node(&ch)), &format!("{name}_node"), || format!("{n} children"));
        c.ev("digest");
    }
    let bits = c.idx as u32 % 65;
    let p: u64 = if bits == 0 { 0 } else { c.rng.gen::<u64>() >> (64 - bits) | 1 << (bits - 1) };
    let (f, e) = (F381::draw(c), u64::draw(c));
    let len = c.idx % 600;
    let long: Vec<u8> = c.bytes(len);
    c.key((bits, len));
    one::<F381, u64, F381, RescueHash<F381>>(c, p, &f, 2, "rescue");
    one::<u64, u64, Sha3Node, Sha3Digest>(c, p, &e, 17, "sha3");
    one::<u64, u64, Keccak256Node, Keccak256Digest>(c, p, &e, 17, "keccak");
    one::<u64, u64, HasherNode<Sha256>, W<HasherDigestAlgorithm>>(c, p, &e, 17, "hasher");
    one::<Vec<u8>, u64, Sha3Node, Sha3Digest>(c, p, &long, 40, "sha3_bytes");
    one::<Vec<u8>, u64, Keccak256Node, Keccak256Digest>(c, p, &long, 40, "keccak_bytes");
    one::<Vec<u8>, u64, HasherNode<Sha256>, W<HasherDigestAlgorithm>>(c, p, &long, 40, "hasher_bytes");
    one::<u64, Vec<u8>, HasherNode<Sha256>, W<HasherDigestAlgorithm>>(c, long.clone(), &e, 3, "hasher_key");
    c.sample(|| format!("position {p}, element of {len} bytes"));
}

/// The shipped aliases that the generic drivers do not go through.
fn m01_alias(c: &mut Case) {
    let n = c.range(1, 9);
    let v: Vec<u64> = (0..n).map(|_| u64::draw(c)).collect();
    c.key(&v);
    let m: Map<u64> = v.iter().enumerate().map(|(i, e)| (i as u128, *e)).collect();
    let t = Keccak256MerkleTree::<u64>::from_elems(Some(2), &v).unwrap();
    c.eq(
        &t.commitment(),
        &root::<u64, u64, Keccak256Node, Keccak256Digest>(&m, 3, 2),
        "keccak_alias",
    );
    let iv: Vec<Interval<F381>> = (0..n).map(|_| Interval(F381::draw(c), F381::draw(c))).collect();
    let m: Map<Interval<F381>> = iv.iter().enumerate().map(|(i, e)| (i as u128, *e)).collect();
    if let Some(t) = c.ok(IntervalMerkleTree::<F381>::from_elems(Some(2), &iv), "interval_build") {
        let com = root::<Interval<F381>, u64, F381, RescueHash<F381>>(&m, 3, 2);
        c.eq(&t.commitment(), &com, "interval_commitment");
        let p = c.below(n) as u64;
        if let LookupResult::Ok(e, pr) = t.lookup(p) {
            c.check(*e == iv[p as usize], "interval_value", String::new);
            c.eq(&IntervalMerkleTree::<F381>::verify(com, p, e, pr), &OK, "interval_proof");
        } else {
            c.fail("interval_lookup", format!("{p}"));
        }
    }
    c.ev("append.alias");
    c.sample(|| format!("{n} leaves in the Keccak and interval trees"));
}

// ---------------------------------------------------------------- M02

fn keys<I: Ix>(c: &mut Case, a: usize, h: usize) -> Vec<u128> {
    let mut top = cap(a, h) - 1;
    if I::BITS < 128 {
        top = top.min((1u128 << I::BITS) - 1);
    }
    let mut v = vec![0, top, top / 2];
    let base = c.rng.gen::<u128>() % (top + 1);
    for d in 0..6u128 {
        v.push((base + d).min(top));
        v.push(c.rng.gen::<u128>() % (top + 1));
        // same low digits, other high digits
        v.push((base % cap(a, h / 2) + cap(a, h / 2) * d).min(top));
    }
    // now and then many, where hashing is cheap
    if c.idx % 16 > 9 && c.below(12) == 0 {
        for d in 0..200u128 {
            v.push((base + d).min(top));
            v.push(c.rng.gen::<u128>() % (top + 1));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn observe_kv<E: El, H: Rh<E, I, T>, I: Ix + ToTraversalPath<A>, const A: usize, T: NodeValue>(
    c: &mut Case,
    t: &UniversalMerkleTree<E, H, I, A, T>,
    m: &Map<E>,
    pool: &[u128],
    deep: bool,
) {
    type U<E, H, I, const A: usize, T> = UniversalMerkleTree<E, H, I, A, T>;
    let h = t.height();
    let com = root::<E, I, T, H>(m, A, h);
    c.eq(&t.commitment(), &com, "kv_commitment");
    c.eq(&t.num_leaves(), &(m.len() as u64), "kv_num_leaves");
    if !deep {
        return;
    }
    let p = c.pick(pool);
    let i = I::of(p);
    let want = path::<E, I, T, H>(m, A, h, p);
    match (t.universal_lookup(&i), m.get(&p)) {
        (LookupResult::Ok(e, pr), Some(w)) => {
            c.eq(e, w, "kv_value");
            c.eq(&pr.0, &want, "kv_proof");
            c.eq(&U::<E, H, I, A, T>::verify(com, &i, w, &pr), &OK, "kv_verify");
            c.ev("kv.found");
        },
        (LookupResult::NotFound(pr), None) => {
            c.eq(&pr.0, &want, "kv_absence_proof");
            c.eq(&U::<E, H, I, A, T>::non_membership_verify(com, &i, &pr), &OK, "kv_absence_verify");
            c.ev("kv.absent");
        },
        (r, w) => c.fail("kv_lookup", format!("pos {p}: {:?} want {w:?}", r.expect_ok().map(|x| x.0.clone()))),
    }
    match (t.lookup(&i), m.get(&p)) {
        (LookupResult::Ok(e, _), Some(w)) => {
            c.eq(e, w, "kv_value2");
        },
        (LookupResult::NotFound(()), None) => {},
        _ => c.fail("kv_lookup2", format!("pos {p}")),
    }
    let seen: Vec<(I, E)> = t.iter().map(|(i, e)| (i.clone(), e.clone())).collect();
    let all: Vec<(I, E)> = m.iter().map(|(p, e)| (I::of(*p), e.clone())).collect();
    c.eq(&seen, &all, "kv_iteration");
    let owned: Vec<(I, E)> = t.clone().into_iter().collect();
    c.eq(&owned, &all, "kv_owned_iteration");
    for (i, e, pr) in t.collect_leaves_with_proofs().into_iter().take(3) {
        c.eq(&U::<E, H, I, A, T>::verify(com, i, e, &pr), &OK, "kv_collected");
    }
}

fn m02_t<E: El, H: Rh<E, I, T>, I: Ix + ToTraversalPath<A>, const A: usize, T: NodeValue>(
    c: &mut Case,
    max_h: usize,
) {
    type U<E, H, I, const A: usize, T> = UniversalMerkleTree<E, H, I, A, T>;
    let h = c.range(if max_h > 8 { max_h / 2 } else { 0 }, max_h);
    let pool = keys::<I>(c, A, h);
    let mut m: Map<E> = Map::new();
    let mut t: U<E, H, I, A, T>;
    if c.coin() {
        t = U::new(h);
    } else {
        let n = c.below(pool.len());
        let kv: Vec<(I, E)> = (0..n)
            .map(|_| {
                let (p, e) = (c.pick(&pool), E::draw(c));
                m.insert(p, e.clone());
                (I::of(p), e)
            })
            .collect();
        match U::from_kv_set(h, &kv) {
            Ok(x) => t = x,
            Err(e) => return c.fail("kv_build", format!("{e:?}")),
        }
    }
    observe_kv(c, &t, &m, &pool, true);
    let mut old: Vec<(U<E, H, I, A, T>, Map<E>)> = vec![];
    let steps = c.range(3, 24);
    let mut script = vec![];
    for s in 0..steps {
        let p = c.pick(&pool);
        let i = I::of(p);
        let before = m.get(&p).cloned();
        let kind = c.below(7);
        script.push((kind, p));
        let mut expect = m.clone();
        let e = E::draw(c);
        match kind {
            0 | 1 | 4 => {
                expect.insert(p, e.clone());
            },
            2 | 5 => {
                expect.remove(&p);
            },
            _ => {},
        }
        let res = match kind {
            0 | 1 => t.update(&i, &e),
            2 => t.remove(&i),
            3 => {
                // keeps what is there
                let mut saw = None;
                let r = t.update_with(&i, |x| {
                    saw = Some(x.cloned());
                    x.cloned()
                });
                c.eq(&saw, &Some(before.clone()), "kv_update_fn_argument");
                r
            },
            6 => {
                // toggles presence
                let nv = if before.is_some() { None } else { Some(e.clone()) };
                match &nv {
                    Some(v) => expect.insert(p, v.clone()),
                    None => expect.remove(&p),
                };
                t.update_with(&i, |_| nv)
            },
            _ => {
                let keep = t.clone();
                let r = if kind == 4 {
                    t.persistent_update(&i, &e)
                } else {
                    t.persistent_remove(i.clone())
                };
                match r {
                    Ok(new) => {
                        c.check(t == keep, "kv_persistent_changed_original", String::new);
                        old.push((t, m.clone()));
                        t = new;
                        Ok(match &before {
                            Some(b) => LookupResult::Ok(b.clone(), ()),
                            None => LookupResult::NotFound(()),
                        })
                    },
                    Err(e) => Err(e),
                }
            },
        };
        m = expect;
        match (res, &before) {
            (Ok(LookupResult::Ok(e, ())), Some(b)) => {
                c.eq(&e, b, "kv_old_value");
            },
            (Ok(LookupResult::NotFound(())), None) => {},
            (r, b) => c.fail("kv_op_result", format!("op {kind} at {p}: {:?} before {b:?}", r.map(|x| x.expect_ok().map(|y| y.0)))),
        }
        c.ev(format!("kv.op{kind}"));
        observe_kv(c, &t, &m, &pool, s % 3 == 0 || s + 1 == steps);
        if c.violated() {
            return;
        }
    }
    // the same map reached by another history is the same tree
    let mut kv: Vec<(I, E)> = m.iter().map(|(p, e)| (I::of(*p), e.clone())).collect();
    for k in (1..kv.len()).rev() {
        let j = c.below(k + 1);
        kv.swap(k, j);
    }
    if let Some(u) = c.ok(U::<E, H, I, A, T>::from_kv_set(h, &kv), "kv_rebuild") {
        c.check(u == t, "kv_history_dependent", || format!("{} leaves", m.len()));
    }
    // remove everything in random order: back to the empty tree
    if m.len() <= 8 {
        let mut u = t.clone();
        for (i, _) in &kv {
            let _ = u.remove(i);
        }
        c.check(u == U::<E, H, I, A, T>::new(h), "kv_not_empty_again", || format!("{}", u.num_leaves()));
        c.ev("kv.emptied");
    }
    for (u, um) in &old {
        observe_kv(c, u, um, &pool, true);
    }
    c.key((A, h, &script));
    c.sample(|| format!("arity {A} height {h} operations {script:?}"));
}
fn m02_kv(c: &mut Case) {
    kv_cfgs!(c, m02_t)
}

/// Positions past the end of the tree.
fn m02_alias(c: &mut Case) {
    let h = c.range(1, 4);
    let k = cap(3, h) as u64;
    let p = c.rng.gen_range(0..k);
    let q = p + k * c.rng.gen_range(1..4u64);
    c.key((h, p, q));
    c.sample(|| format!("height {h}: position {q} against {p}"));
    let (a, b) = (u64::draw(c), u64::draw(c));
    let mut t = UniversalMerkleTree::<u64, Toy, u64, 3, Tn>::new(h);
    t.update(p, a).unwrap();
    c.check(
        !matches!(t.lookup(q), LookupResult::Ok(..)),
        "lookup_past_capacity",
        || format!("height {h}: lookup({q}) returned the leaf of {p}"),
    );
    let r = t.update(q, b);
    c.check(
        r.is_err() || matches!(t.lookup(p), LookupResult::Ok(e, _) if *e == a),
        "update_past_capacity",
        || format!("height {h}: update({q}) replaced the leaf of {p}"),
    );
    let v: Vec<u64> = (0..k).map(|_| u64::draw(c)).collect();
    let t = MerkleTree::<u64, Sha3Digest, u64, 3, Sha3Node>::from_elems(Some(h), &v).unwrap();
    let (e, pr) = t.lookup(p).expect_ok().unwrap();
    type S = MerkleTree<u64, Sha3Digest, u64, 3, Sha3Node>;
    c.check(
        !accepted(&S::verify(t.commitment(), q, e, &pr)),
        "verify_past_capacity_byte_hash",
        || format!("height {h}: proof of {p} accepted for {q}"),
    );
    let t = MerkleTree::<u64, Hw, u64, 3, HN>::from_elems(Some(h), &v).unwrap();
    let (e, pr) = t.lookup(p).expect_ok().unwrap();
    type G = MerkleTree<u64, Hw, u64, 3, HN>;
    c.check(
        !accepted(&G::verify(t.commitment(), q, e, &pr)),
        "verify_past_capacity",
        || format!("height {h}: proof of {p} accepted for {q}"),
    );
    c.ev("kv.past_capacity");
}

// ---------------------------------------------------------------- M03

/// A random alteration of a path; `None` when it is not an alteration.
fn mutate<T: NodeValue>(c: &mut Case, a: usize, p: &[Vec<T>], other: &[T]) -> Vec<Vec<T>> {
    let mut q = p.to_vec();
    for _ in 0..c.range(1, 2) {
        let l = if q.is_empty() { 0 } else { c.below(q.len()) };
        match c.below(10) {
            0 if !q.is_empty() && !q[l].is_empty() => {
                let k = c.below(q[l].len());
                q[l][k] = c.pick(other);
            },
            1 if !q.is_empty() && q[l].len() > 1 => {
                let k = c.below(q[l].len() - 1);
                q[l].swap(k, k + 1);
            },
            2 if !q.is_empty() => {
                q.remove(l);
            },
            3 => {
                let lvl = vec![c.pick(other); a - 1];
                q.insert(l, lvl);
            },
            4 if !q.is_empty() => {
                let m = c.below(q.len());
                q.swap(l, m);
            },
            5 if !q.is_empty() => q[l] = vec![],
            6 if !q.is_empty() && !q[l].is_empty() => {
                q[l].pop();
            },
            7 if !q.is_empty() => {
                let x = c.pick(other);
                q[l].push(x);
            },
            8 if !q.is_empty() => q[l] = vec![T::default(); a - 1],
            _ if !q.is_empty() => {
                let i = c.below(a - 1).min(q[l].len());
                if i < q[l].len() {
                    q[l][i] = T::default();
                }
            },
            _ => {},
        }
    }
    q
}

fn m03_t<E: El, H: Rh<E, I, T>, I: Ix + ToTraversalPath<A>, const A: usize, T: NodeValue>(
    c: &mut Case,
    max_h: usize,
) {
    type U<E, H, I, const A: usize, T> = UniversalMerkleTree<E, H, I, A, T>;
    let h = c.range(if max_h > 8 { max_h / 2 } else { 1 }, max_h);
    let pool = keys::<I>(c, A, h);
    let mut m: Map<E> = Map::new();
    for p in &pool {
        if c.below(3) > 0 {
            m.insert(*p, E::draw(c));
        }
    }
    if m.is_empty() {
        m.insert(pool[0], E::draw(c));
    }
    let kv: Vec<(I, E)> = m.iter().map(|(p, e)| (I::of(*p), e.clone())).collect();
    let Some(t) = c.ok(U::<E, H, I, A, T>::from_kv_set(h, &kv), "kv_build") else {
        return;
    };
    let com = t.commitment();
    let mut m2 = m.clone();
    let k0 = *m2.keys().next().unwrap();
    m2.insert(k0, E::draw(c));
    let com2 = root::<E, I, T, H>(&m2, A, h);
    let mut vals: Vec<T> = vec![T::default(), com, com2];
    for p in pool.iter().take(4) {
        for l in path::<E, I, T, H>(&m, A, h, *p) {
            vals.extend(l);
        }
        if let Some(e) = m.get(p) {
            vals.push(H::leaf(&I::of(*p), e));
        }
    }
    c.key((A, h, m.keys().cloned().collect::<Vec<_>>()));
    for _ in 0..14 {
        let src = c.pick(&pool);
        let honest = path::<E, I, T, H>(&m, A, h, src);
        let pos = if c.coin() { src } else { c.pick(&pool) };
        let pr = if c.coin() { honest.clone() } else { mutate(c, A, &honest, &vals) };
        let (root_v, truth) = if c.below(6) == 0 { (com2, &m2) } else { (com, &m) };
        let i = I::of(pos);
        let proof = MerkleTreeProof(pr.clone());
        // membership: acceptance means the leaf is there, and the path is the one
        // true path
        let e = match (c.below(3), m.get(&pos), m.get(&src)) {
            (0, _, Some(e)) | (1, Some(e), _) => e.clone(),
            _ => E::draw(c),
        };
        match guard(|| U::<E, H, I, A, T>::verify(root_v, &i, &e, &proof)) {
            Err(p) => c.fail("verify_panic", p),
            Ok(r) => {
                let true_path = path::<E, I, T, H>(truth, A, h, pos);
                let should = truth.get(&pos) == Some(&e) && pr == true_path;
                c.check(accepted(&r) == should, "membership_verdict", || {
                    format!("pos {pos} honest_for {src} accepted={} should={should} {pr:?}", accepted(&r))
                });
                c.ev(if should { "proof.member_accepted" } else { "proof.member_refused" });
            },
        }
        match guard(|| U::<E, H, I, A, T>::non_membership_verify(root_v, &i, &proof)) {
            Err(p) => c.fail("absence_verify_panic", p),
            Ok(r) => {
                if accepted(&r) {
                    let sig = if pr.len() != h { "absence_wrong_length" } else { "absence_of_present" };
                    c.check(!truth.contains_key(&pos), sig, || {
                        format!("pos {pos} is present, height {h}, proof of {} levels accepted", pr.len())
                    });
                    let odd = pr.iter().any(|l| !l.is_empty() && l.len() != A - 1);
                    c.check(!odd, "absence_malformed", || format!("pos {pos}, arity {A}, {pr:?}"));
                    c.ev("proof.absence_accepted");
                } else {
                    let honest_now = !truth.contains_key(&pos) && pr == path::<E, I, T, H>(truth, A, h, pos);
                    c.check(!honest_now, "absence_refused", || format!("pos {pos}"));
                    c.ev("proof.absence_refused");
                }
            },
        }
    }
    c.sample(|| format!("arity {A} height {h}, {} leaves, forged paths, positions, leaves and roots", m.len()));
}
fn m03_forge(c: &mut Case) {
    kv_cfgs!(c, m03_t)
}

/// A non-membership proof that is too short for the tree it is checked against.
fn m03_short(c: &mut Case) {
    type U = UniversalMerkleTree<u64, Toy, u64, 3, Tn>;
    let h = c.range(2, 4);
    let k = cap(3, h) as u64;
    let mut m: Map<u64> = Map::new();
    for _ in 0..c.range(1, 4) {
        m.insert(c.rng.gen_range(0..k) as u128, u64::draw(c));
    }
    let com = root::<u64, u64, Tn, Toy>(&m, 3, h);
    c.key((h, m.keys().cloned().collect::<Vec<_>>()));
    c.sample(|| format!("height {h}, {} leaves, truncated absence proofs", m.len()));
    for q in 0..k {
        let full = path::<u64, u64, Tn, Toy>(&m, 3, h, q as u128);
        for cut in 1..h {
            let pr = MerkleTreeProof(full[cut..].to_vec());
            // the digits that the short proof uses are the low ones
            let low = q / 3u64.pow(cut as u32);
            for top in 0..3u64.pow(cut as u32) {
                let pos = low + top * 3u64.pow((h - cut) as u32);
                let ok = accepted(&U::non_membership_verify(com, pos, &pr));
                c.check(!(ok && m.contains_key(&(pos as u128))), "absence_wrong_length", || {
                    format!("pos {pos} is present, height {h}, proof of {} levels accepted", h - cut)
                });
            }
        }
    }
    c.ev("proof.truncated_family");
}

// ---------------------------------------------------------------- M04

fn m04_kv_t<E: El, H: Rh<E, I, T>, I: Ix + ToTraversalPath<A>, const A: usize, T: NodeValue>(
    c: &mut Case,
    max_h: usize,
) {
    type U<E, H, I, const A: usize, T> = UniversalMerkleTree<E, H, I, A, T>;
    let h = c.range(if max_h > 8 { max_h / 2 } else { 1 }, max_h);
    let pool = keys::<I>(c, A, h);
    let mut m: Map<E> = Map::new();
    for p in &pool {
        if c.coin() {
            m.insert(*p, E::draw(c));
        }
    }
    let kv: Vec<(I, E)> = m.iter().map(|(p, e)| (I::of(*p), e.clone())).collect();
    let Some(mut t) = c.ok(U::<E, H, I, A, T>::from_kv_set(h, &kv), "kv_build") else {
        return;
    };
    // positions whose leaf or absence must be answered from memory
    let mut mem: BTreeSet<u128> = pool.iter().cloned().collect();
    if c.below(3) == 0 {
        t = U::from_commitment(t.commitment(), h, m.len() as u64);
        mem.clear();
        c.ev("forget.from_commitment");
    }
    let mut script = vec![];
    for _ in 0..c.range(4, 20) {
        let p = c.pick(&pool);
        let i = I::of(p);
        let kind = c.below(10);
        script.push((kind, p));
        let here = m.get(&p).cloned();
        let true_path = path::<E, I, T, H>(&m, A, h, p);
        let keep = t.clone();
        match kind {
            0 | 1 => {
                let r = if kind == 0 {
                    match t.forget(&i) {
                        LookupResult::Ok(e, pr) => LookupResult::Ok(e, pr),
                        LookupResult::NotInMemory => LookupResult::NotInMemory,
                        LookupResult::NotFound(()) => LookupResult::NotFound(None),
                    }
                } else {
                    match t.universal_forget(i.clone()) {
                        LookupResult::Ok(e, pr) => LookupResult::Ok(e, pr),
                        LookupResult::NotInMemory => LookupResult::NotInMemory,
                        LookupResult::NotFound(x) => LookupResult::NotFound(Some(x)),
                    }
                };
                match (r, &here) {
                    (LookupResult::Ok(e, pr), Some(w)) => {
                        c.eq(&e, w, "forget_value");
                        c.eq(&pr.0, &true_path, "forget_proof");
                        mem.remove(&p);
                        // absences next to it may have been pruned with it
                        let ms = &m;
                        mem.retain(|q| ms.contains_key(q));
                        c.check(
                            matches!(t.lookup(&i), LookupResult::NotInMemory),
                            "forgotten_still_there",
                            String::new,
                        );
                        c.ev("forget.forgot");
                    },
                    (LookupResult::NotFound(pr), None) => {
                        if let Some(pr) = pr {
                            c.eq(
                                &U::<E, H, I, A, T>::non_membership_verify(t.commitment(), &i, &pr),
                                &OK,
                                "forget_absence_proof",
                            );
                            c.eq(&pr.height(), &h, "forget_absence_height");
                        }
                        // an implementation may prune an absent position
                        mem.remove(&p);
                        c.ev("forget.absent");
                    },
                    (LookupResult::NotInMemory, _) => {
                        c.check(!mem.contains(&p), "forget_lost", || format!("{p}"));
                        c.check(t == keep, "forget_noop_changed", String::new);
                        c.ev("forget.not_in_memory");
                    },
                    (r, w) => c.fail("forget_kind", format!("{p}: {:?} want {w:?}", r.expect_ok().map(|x| x.0))),
                }
            },
            2 | 3 => match &here {
                Some(e) => {
                    let pr = MerkleTreeProof(true_path.clone());
                    if c.ok(t.remember(&i, e, &pr), "remember_refused").is_some() {
                        mem.insert(p);
                        match t.lookup(&i) {
                            LookupResult::Ok(x, q) => {
                                c.eq(x, e, "remembered_value");
                                c.eq(&q.0, &true_path, "remembered_proof");
                            },
                            _ => c.fail("remembered_missing", format!("{p}")),
                        }
                    }
                    c.ev("forget.remembered");
                },
                None => {
                    let pr = MerkleTreeProof(true_path.clone());
                    if c.ok(t.non_membership_remember(i.clone(), &pr), "absence_remember_refused").is_some() {
                        mem.insert(p);
                        match t.universal_lookup(&i) {
                            LookupResult::NotFound(q) => {
                                c.eq(
                                    &U::<E, H, I, A, T>::non_membership_verify(t.commitment(), &i, &q),
                                    &OK,
                                    "remembered_absence_proof",
                                );
                            },
                            _ => c.fail("remembered_absence_missing", format!("{p}")),
                        }
                    }
                    c.ev("forget.remembered_absence");
                },
            },
            4 => {
                // wrong claims leave the tree alone
                let bad = mutate(c, A, &true_path, &[T::default(), t.commitment()]);
                let e = if c.coin() { E::draw(c) } else { here.clone().unwrap_or_else(|| E::draw(c)) };
                let legit = here.as_ref() == Some(&e) && bad == true_path;
                let pr = MerkleTreeProof(bad.clone());
                match guard(|| t.remember(&i, &e, &pr)) {
                    Err(x) => c.fail("remember_panic", x),
                    Ok(r) => {
                        if !legit {
                            c.check(r.is_err(), "bad_remember_accepted", || format!("{p}"));
                            c.check(t == keep, "bad_remember_changed_tree", || format!("{p}"));
                        }
                    },
                }
                t = keep.clone();
                if here.is_some() || bad.len() != h {
                    match guard(|| t.non_membership_remember(i.clone(), &pr)) {
                        Err(x) => c.fail("absence_remember_panic", x),
                        Ok(r) => {
                            c.check(r.is_err(), "bad_absence_remember", || format!("{p}"));
                            c.check(t == keep, "bad_absence_changed_tree", || format!("{p}"));
                        },
                    }
                    t = keep.clone();
                }
                c.ev("forget.bad_remember");
            },
            5 | 6 | 7 => {
                let e = E::draw(c);
                let r = if kind == 7 { t.remove(&i) } else { t.update(&i, &e) };
                match r {
                    Ok(x) => {
                        match (x, &here) {
                            (LookupResult::Ok(o, ()), Some(w)) => {
                                c.eq(&o, w, "partial_old_value");
                            },
                            (LookupResult::NotFound(()), None) => {},
                            _ => c.fail("partial_op_result", format!("{p} want {here:?}")),
                        }
                        if kind == 7 {
                            m.remove(&p);
                        } else {
                            m.insert(p, e);
                        }
                        mem.insert(p);
                        c.ev("forget.updated");
                    },
                    Err(MerkleTreeError::ForgottenLeaf) => {
                        c.check(!mem.contains(&p), "update_lost", || format!("{p}"));
                        c.check(t == keep, "failed_update_changed_tree", String::new);
                        c.ev("forget.update_refused");
                    },
                    Err(e) => c.fail("partial_update_error", format!("{e:?}")),
                }
            },
            _ => match (t.universal_lookup(&i), &here) {
                (LookupResult::Ok(e, pr), Some(w)) => {
                    c.eq(e, w, "partial_value");
                    c.eq(&pr.0, &true_path, "partial_proof");
                },
                (LookupResult::NotFound(pr), None) => {
                    c.eq(
                        &U::<E, H, I, A, T>::non_membership_verify(t.commitment(), &i, &pr),
                        &OK,
                        "partial_absence",
                    );
                },
                (LookupResult::NotInMemory, _) => {
                    c.check(!mem.contains(&p), "lookup_lost", || format!("{p}"));
                },
                (r, w) => c.fail("partial_lookup", format!("{p}: {:?} want {w:?}", r.expect_ok().map(|x| x.0.clone()))),
            },
        }
        c.eq(&t.commitment(), &root::<E, I, T, H>(&m, A, h), "partial_commitment");
        c.eq(&t.num_leaves(), &(m.len() as u64), "partial_num_leaves");
        for (i, e) in t.iter() {
            if !m.iter().any(|(p, w)| I::of(*p) == *i && w == e) {
                c.fail("partial_iteration", format!("{i:?}"));
            }
        }
        if c.violated() {
            c.fail("history", format!("arity {A} height {h} script {script:?}"));
            return;
        }
    }
    c.key((A, h, &script));
    c.sample(|| format!("arity {A} height {h} forget and remember script {script:?}"));
}
fn m04_kv(c: &mut Case) {
    kv_cfgs!(c, m04_kv_t)
}

macro_rules! forget_append_scenario {
    ($name:ident, $Tree:ident, $light:expr) => {
        fn $name<E: El, H: Rh<E, u64, T>, const A: usize, T: NodeValue>(c: &mut Case, max_h: usize, max_n: usize) {
            type Tr<E, H, const A: usize, T> = $Tree<E, H, u64, A, T>;
            let h = c.range(1, max_h);
            let n = c.range(1, (max_n as u128).min(cap(A, h)) as usize);
            let mut list: Vec<E> = (0..n).map(|_| E::draw(c)).collect();
            let Some(mut t) = c.ok(Tr::<E, H, A, T>::from_elems(Some(h), &list), "build") else { return };
            let mut mem: BTreeSet<usize> = if $light { [n - 1].into() } else { (0..n).collect() };
            let mut forgot = $light;
            if c.below(4) == 0 {
                t = Tr::<E, H, A, T>::from_commitment(t.commitment(), h, n as u64);
                mem.clear();
                forgot = true;
            }
            let mut script = vec![];
            for _ in 0..c.range(3, 14) {
                let m: Map<E> = list.iter().cloned().enumerate().map(|(i, e)| (i as u128, e)).collect();
                let p = c.below(list.len());
                let tp = path::<E, u64, T, H>(&m, A, h, p as u128);
                let kind = c.below(6);
                script.push((kind, p));
                let keep = t.clone();
                match kind {
                    0 | 1 => match t.forget(p as u64) {
                        LookupResult::Ok(e, pr) => {
                            c.eq(&e, &list[p], "forget_value");
                            c.eq(&pr.0, &tp, "forget_proof");
                            c.check(matches!(t.lookup(p as u64), LookupResult::NotInMemory), "forgotten_still_there", String::new);
                            mem.remove(&p);
                            forgot = true;
                            c.ev("forget.forgot");
                        },
                        LookupResult::NotInMemory => {
                            c.check(!mem.contains(&p), "forget_lost", || format!("{p}"));
                        },
                        _ => c.fail("forget_kind", format!("{p}")),
                    },
                    2 | 3 => {
                        let pr = MerkleTreeProof(tp.clone());
                        if c.ok(t.remember(p as u64, &list[p], &pr), "remember_refused").is_some() {
                            mem.insert(p);
                        }
                        c.ev("forget.remembered");
                    },
                    4 => {
                        let k = c.range(1, 4);
                        let batch: Vec<E> = (0..k).map(|_| E::draw(c)).collect();
                        let room = (cap(A, h) - list.len() as u128).min(k as u128) as usize;
                        match t.extend(&batch) {
                            Err(MerkleTreeError::ForgottenLeaf) if forgot => {
                                c.check(t == keep, "failed_extend_changed_tree", String::new);
                                c.ev("forget.extend_refused");
                            },
                            r => {
                                c.eq(&r.is_ok(), &(room == k), "extend_verdict");
                                for e in batch.into_iter().take(room) {
                                    mem.insert(list.len());
                                    list.push(e);
                                }
                                if $light {
                                    mem = if room > 0 { [list.len() - 1].into() } else { mem };
                                }
                                c.ev("forget.extended");
                            },
                        }
                    },
                    _ => {
                        let bad = mutate(c, A, &tp, &[T::default(), t.commitment()]);
                        let e = if c.coin() { E::draw(c) } else { list[p].clone() };
                        if e != list[p] || bad != tp {
                            let pr = MerkleTreeProof(bad);
                            match guard(|| t.remember(p as u64, &e, &pr)) {
                                Err(x) => c.fail("remember_panic", x),
                                Ok(r) => {
                                    c.check(r.is_err(), "bad_remember_accepted", || format!("{p}"));
                                    c.check(t == keep, "bad_remember_changed_tree", || format!("{p}"));
                                },
                            }
                        }
                        c.ev("forget.bad_remember");
                    },
                }
                let m: Map<E> = list.iter().cloned().enumerate().map(|(i, e)| (i as u128, e)).collect();
                c.eq(&t.commitment(), &root::<E, u64, T, H>(&m, A, h), "partial_commitment");
                c.eq(&t.num_leaves(), &(list.len() as u64), "partial_num_leaves");
                let q = c.below(list.len() + 1);
                let out = q as u128 == cap(A, h);
                match t.lookup(q as u64) {
                    _ if out => {},
                    LookupResult::Ok(e, pr) => {
                        c.eq(&Some(e), &list.get(q), "partial_value");
                        c.eq(&pr.0, &path::<E, u64, T, H>(&m, A, h, q as u128), "partial_proof");
                    },
                    LookupResult::NotInMemory => {
                        c.check(!mem.contains(&q) && forgot | mem.is_empty(), "lookup_lost", || format!("{q}"));
                    },
                    LookupResult::NotFound(()) => {
                        c.check(q >= list.len(), "partial_lookup", || format!("{q} of {}", list.len()));
                    },
                }
                if c.violated() {
                    c.fail("history", format!("arity {A} height {h} script {script:?}"));
                    return;
                }
            }
            c.key((A, h, n, &script));
            c.sample(|| format!("arity {A} height {h} {n} leaves script {script:?}"));
        }
    };
}
forget_append_scenario!(m04_full_t, MerkleTree, false);
forget_append_scenario!(m04_light_t, LightWeightMerkleTree, true);
fn m04_full(c: &mut Case) {
    append_cfgs!(c, m04_full_t)
}
fn m04_light(c: &mut Case) {
    append_cfgs!(c, m04_light_t)
}

// ---------------------------------------------------------------- M05

fn m05_t<E: El, H: Rh<E, u64, T>, const A: usize, T: NodeValue>(c: &mut Case, max_h: usize, max_n: usize) {
    type Tr<E, H, const A: usize, T> = MerkleTree<E, H, u64, A, T>;
    let h = c.range(0, max_h);
    let n = c.range(1, (max_n as u128).min(cap(A, h)) as usize);
    let list: Vec<E> = (0..n).map(|_| E::draw(c)).collect();
    let Some(mut t) = c.ok(Tr::<E, H, A, T>::from_elems(Some(h), &list), "build") else { return };
    let com = t.commitment();
    let capacity = cap(A, h).min(u64::MAX as u128) as u64;
    for _ in 0..4 {
        let s = c.below(n);
        let e = if c.below(5) == 0 {
            (s as u64 + c.rng.gen_range(0..=(capacity - 1 - s as u64))) as usize
        } else {
            c.range(s, n - 1)
        };
        c.key((A, h, n, s, e));
        match t.range_lookup(s as u64, e as u64) {
            LookupResult::Ok((idx, el), pr) => {
                c.check(e < n, "range_of_absent", || format!("{s}..={e} of {n}"));
                c.eq(&idx, &(s as u64..=e as u64).collect::<Vec<_>>(), "range_indices");
                if e < n {
                    c.eq(&el, &list[s..=e].to_vec(), "range_elements");
                }
                c.eq(&Tr::<E, H, A, T>::verify_range_proof(com, &idx, &el, &pr), &OK, "range_refused");
                c.ev("range.accepted");
                let k = c.below(4);
                if k == 0 {
                    let mut b = vec![];
                    pr.serialize_compressed(&mut b).unwrap();
                    let back = CanonicalDeserialize::deserialize_compressed(&b[..]).unwrap();
                    c.check(pr == back, "range_proof_roundtrip", String::new);
                }
                for _ in 0..8 {
                    let (mut i2, mut e2, mut p2, mut r2) = (idx.clone(), el.clone(), pr.clone(), com);
                    let x = c.below(i2.len());
                    let what = c.below(13);
                    match what {
                        0 => e2[x] = E::draw(c),
                        1 => i2[x] = c.rng.gen_range(0..capacity),
                        2 => {
                            i2.remove(x);
                            e2.remove(x);
                        },
                        3 => {
                            let (a, b) = (i2[x], e2[x].clone());
                            i2.insert(x, a);
                            e2.insert(x, b);
                        },
                        4 => {
                            let y = c.below(i2.len());
                            e2.swap(x, y);
                        },
                        5 => {
                            let y = c.below(i2.len());
                            i2.swap(x, y);
                        },
                        6 => r2 = T::default(),
                        7 if h > 0 => {
                            let l = c.below(h);
                            if let Some(v) = p2.lbound[l].last_mut().or(p2.rbound[l].last_mut()) {
                                *v = com;
                            }
                        },
                        8 if h > 0 => {
                            let l = c.below(h);
                            // move a sibling to the other side
                            if let Some(v) = p2.lbound[l].pop() {
                                p2.rbound[l].insert(0, v);
                            } else if !p2.rbound[l].is_empty() {
                                let v = p2.rbound[l].remove(0);
                                p2.lbound[l].push(v);
                            }
                        },
                        9 if h > 0 => {
                            p2.lbound.pop();
                            p2.rbound.pop();
                        },
                        10 => {
                            let d = c.rng.gen_range(0..capacity);
                            for i in i2.iter_mut() {
                                *i = (*i + d) % capacity;
                            }
                        },
                        11 => {
                            e2.pop();
                        },
                        _ if h > 0 => {
                            // claim a sibling leaf position as part of the range
                            if let Some(v) = p2.lbound[0].pop() {
                                let _ = v;
                                i2.insert(0, i2[0].wrapping_sub(1));
                                e2.insert(0, E::draw(c));
                            }
                        },
                        _ => {},
                    }
                    let truth = r2 == com
                        && i2.len() == e2.len()
                        && !i2.is_empty()
                        && i2.windows(2).all(|w| w[0] + 1 == w[1])
                        && i2.iter().zip(&e2).all(|(i, e)| list.get(*i as usize) == Some(e));
                    match guard(|| Tr::<E, H, A, T>::verify_range_proof(r2, &i2, &e2, &p2)) {
                        Err(p) => c.fail("range_verify_panic", p),
                        Ok(r) => {
                            let sig = if H::POS_BOUND { "range_unsound" } else { "range_unsound_byte_hash" };
                            c.check(truth || !accepted(&r), sig, || {
                                format!("change {what}: arity {A} height {h} n {n} indices {i2:?} for {s}..={e}")
                            });
                            c.ev(if accepted(&r) { "range.mutant_true" } else { "range.mutant_refused" });
                        },
                    }
                }
            },
            LookupResult::NotFound(()) => {
                c.check(e >= n, "range_missing", || format!("{s}..={e} of {n}"));
                c.ev("range.not_found");
            },
            LookupResult::NotInMemory => c.fail("range_lost", format!("{s}..={e}")),
        }
    }
    // a forgotten leaf inside the range is reported
    let p = c.below(n);
    t.forget(p as u64);
    let (s, e) = (c.range(0, p), c.range(p, n - 1));
    c.check(
        matches!(t.range_lookup(s as u64, e as u64), LookupResult::NotInMemory),
        "range_over_forgotten",
        || format!("{s}..={e} without {p}"),
    );
    c.sample(|| format!("arity {A} height {h} {n} leaves, ranges and altered range proofs"));
}
fn m05_range(c: &mut Case) {
    append_cfgs!(c, m05_t)
}

// ---------------------------------------------------------------- M06

/// Whether byte `k` of the canonical encoding belongs to a length.
fn in_length<T: NodeValue>(pr: &MerkleTreeProof<T>, k: usize, size: usize) -> bool {
    let mut o = 8;
    let mut hit = k < o || k >= size;
    for l in &pr.0 {
        hit |= (o..o + 8).contains(&k);
        o += 8 + l.iter().map(|x| x.compressed_size()).sum::<usize>();
    }
    hit
}

fn m06_kv_t<E: El, H: Rh<E, I, T>, I: Ix + ToTraversalPath<A>, const A: usize, T: NodeValue>(
    c: &mut Case,
    max_h: usize,
) {
    type U<E, H, I, const A: usize, T> = UniversalMerkleTree<E, H, I, A, T>;
    let h = c.range(0, max_h.min(12));
    let pool = keys::<I>(c, A, h);
    let mut m: Map<E> = Map::new();
    for p in &pool {
        if c.coin() {
            m.insert(*p, E::draw(c));
        }
    }
    let kv: Vec<(I, E)> = m.iter().map(|(p, e)| (I::of(*p), e.clone())).collect();
    let Some(mut t) = c.ok(U::<E, H, I, A, T>::from_kv_set(h, &kv), "kv_build") else { return };
    if c.coin() {
        for p in &pool {
            if c.below(3) == 0 {
                t.forget(I::of(*p));
            }
        }
    }
    c.key((A, h, m.keys().cloned().collect::<Vec<_>>()));
    // trees
    let b = bincode::serialize(&t).unwrap();
    match bincode::deserialize::<U<E, H, I, A, T>>(&b) {
        Ok(u) => {
            c.check(u == t, "tree_binary", String::new);
            c.eq(&u.commitment(), &t.commitment(), "tree_binary_commitment");
        },
        Err(e) => c.fail("tree_binary_refused", format!("{e}")),
    }
    let j = serde_json::to_string(&t).unwrap();
    match serde_json::from_str::<U<E, H, I, A, T>>(&j) {
        Ok(u) => {
            c.check(u == t, "tree_text", String::new);
        },
        Err(e) => c.fail("tree_text_refused", format!("{e}")),
    }
    c.ev("serde.tree");
    // proofs
    let p = c.pick(&pool);
    let pr = MerkleTreeProof(path::<E, I, T, H>(&m, A, h, p));
    let b = bincode::serialize(&pr).unwrap();
    c.check(
        bincode::deserialize::<MerkleTreeProof<T>>(&b).ok().as_ref() == Some(&pr),
        "proof_binary",
        String::new,
    );
    let j = serde_json::to_string(&pr).unwrap();
    c.check(
        serde_json::from_str::<MerkleTreeProof<T>>(&j).ok().as_ref() == Some(&pr),
        "proof_text",
        String::new,
    );
    c.check(j.contains("MERKLE_PROOF~"), "proof_tag", || j.clone());
    let mut cb = vec![];
    pr.serialize_compressed(&mut cb).unwrap();
    c.eq(&cb.len(), &pr.compressed_size(), "proof_size");
    c.check(
        MerkleTreeProof::<T>::deserialize_compressed(&cb[..]).ok().as_ref() == Some(&pr),
        "proof_canonical",
        String::new,
    );
    // through a stream that comes in small pieces, and one that ends too soon
    let step = c.range(1, 40);
    let mut w = vh::Drip::writer(step);
    let _ = pr.serialize_uncompressed(&mut w);
    let mut ub = vec![];
    pr.serialize_uncompressed(&mut ub).unwrap();
    c.eq(&w.into, &ub, "proof_written_in_pieces");
    c.check(
        MerkleTreeProof::<T>::deserialize_uncompressed(vh::Drip::reader(&ub, step)).ok().as_ref() == Some(&pr),
        "proof_read_in_pieces",
        || format!("{step} bytes at a time"),
    );
    let got = bincode::deserialize_from::<_, MerkleTreeProof<T>>(vh::Drip::reader(&b, step));
    c.check(got.ok().as_ref() == Some(&pr), "proof_binary_in_pieces", || format!("{step} bytes at a time"));
    for cut in [0, c.below(cb.len()), cb.len() - 1] {
        let got = guard(|| MerkleTreeProof::<T>::deserialize_compressed(&cb[..cut]));
        c.check(matches!(got, Ok(Err(_))), "proof_cut", || format!("{cut} of {} bytes", cb.len()));
    }
    c.eq(&pr.height(), &h, "proof_height");
    c.eq(&pr.path_values().to_vec(), &pr.0, "proof_values");
    c.ev("serde.proof");
    // damaged encodings
    for _ in 0..4 {
        let mut d = b.clone();
        if c.coin() {
            let k = c.below(d.len());
            d.truncate(k);
        } else {
            // the lengths inside are left alone: the encoding library allocates
            // whatever they say
            let at = b.windows(cb.len()).position(|w| w == &cb[..]);
            let k = c.below(d.len());
            if at.map_or(true, |o| k < o || in_length(&pr, k - o, cb.len())) {
                continue;
            }
            d[k] ^= 1 << c.below(8);
        }
        if d == b {
            continue;
        }
        match guard(|| {
            use bincode::Options;
            bincode::options()
                .with_fixint_encoding()
                .with_limit(1 << 20)
                .deserialize::<MerkleTreeProof<T>>(&d)
        }) {
            Err(p) => c.fail("damaged_proof_panic", p),
            Ok(Ok(q)) if q != pr => {
                if let Some(e) = m.get(&p) {
                    c.check(
                        !accepted(&U::<E, H, I, A, T>::verify(root::<E, I, T, H>(&m, A, h), I::of(p), e, &q)),
                        "damaged_proof_accepted",
                        String::new,
                    );
                }
            },
            Ok(Ok(_)) => {},
            Ok(Err(_)) => c.ev("serde.damage_refused"),
        }
        let mut d = serde_json::to_string(&pr).unwrap().into_bytes();
        let k = c.below(d.len());
        d[k] = c.pick(b"A~0_z\"{[ ");
        if let Ok(s) = String::from_utf8(d) {
            if s != j {
                match guard(|| serde_json::from_str::<MerkleTreeProof<T>>(&s)) {
                    Err(p) => c.fail("damaged_text_panic", p),
                    Ok(Ok(q)) => {
                        c.check(false, "damaged_text_accepted", || format!("{} {}", q == pr, s));
                    },
                    Ok(Err(_)) => {
                        c.check(true, "", String::new);
                    },
                }
            }
        }
    }
    c.sample(|| format!("arity {A} height {h}, {} leaves, round trips and damage", m.len()));
}
fn m06_kv(c: &mut Case) {
    kv_cfgs!(c, m06_kv_t)
}

macro_rules! serde_append {
    ($name:ident, $Tree:ident) => {
        fn $name<E: El, H: Rh<E, u64, T>, const A: usize, T: NodeValue>(c: &mut Case, max_h: usize, max_n: usize) {
            type Tr<E, H, const A: usize, T> = $Tree<E, H, u64, A, T>;
            let h = c.range(0, max_h);
            let n = c.range(0, (max_n as u128).min(cap(A, h)) as usize);
            let list: Vec<E> = (0..n).map(|_| E::draw(c)).collect();
            let Some(mut t) = c.ok(Tr::<E, H, A, T>::from_elems(Some(h), &list), "build") else { return };
            if c.coin() && n > 0 {
                let k = c.below(n) as u64;
                t.forget(k);
            }
            c.key((A, h, n, c.idx));
            let mut u: Tr<E, H, A, T> = match bincode::deserialize(&bincode::serialize(&t).unwrap()) {
                Ok(u) => u,
                Err(e) => return c.fail("tree_binary_refused", format!("{e}")),
            };
            c.check(u == t, "tree_binary", String::new);
            match serde_json::from_str::<Tr<E, H, A, T>>(&serde_json::to_string(&t).unwrap()) {
                Ok(v) => {
                    c.check(v == t, "tree_text", String::new);
                },
                Err(e) => c.fail("tree_text_refused", format!("{e}")),
            }
            // the copy goes on working like the original
            let e = E::draw(c);
            let (a, b) = (t.push(&e), u.push(&e));
            c.eq(&a, &b, "push_after_load");
            c.check(u == t && u.commitment() == t.commitment(), "diverged_after_load", String::new);
            c.ev("serde.tree");
            c.sample(|| format!("arity {A} height {h} {n} leaves, load and go on"));
        }
    };
}
serde_append!(m06_full_t, MerkleTree);
serde_append!(m06_light_t, LightWeightMerkleTree);
fn m06_append(c: &mut Case) {
    if c.coin() {
        append_cfgs!(c, m06_full_t)
    } else {
        append_cfgs!(c, m06_light_t)
    }
}

/// Traversal paths of every index type are the base-ARITY digits.
fn m02_digits(c: &mut Case) {
    fn go<const A: usize>(c: &mut Case) {
        let x: u128 = match c.below(4) {
            0 => c.below(300) as u128,
            1 => c.rng.gen::<u64>() as u128,
            2 => (1u128 << c.below(128)) - 1,
            _ => c.rng.gen(),
        };
        let h = c.range(0, 70);
        c.key((A, x, h));
        let digits = |mut v: u128| -> Vec<usize> {
            (0..h)
                .map(|_| {
                    let d = (v % A as u128) as usize;
                    v /= A as u128;
                    d
                })
                .collect()
        };
        macro_rules! each {
            ($($t:ty),*) => {{ $( c.eq(&<$t as ToTraversalPath<A>>::to_traversal_path(&(x as $t), h), &digits(x as $t as u128), "digits"); )* }};
        }
        each!(u8, u16, u32, u64, usize, u128);
        c.eq(&<BigUint as ToTraversalPath<A>>::to_traversal_path(&BigUint::from(x), h), &digits(x), "digits_big");
        macro_rules! eachf {
            ($($t:ty),*) => {{ $( c.eq(&<$t as ToTraversalPath<A>>::to_traversal_path(&vh::gen::from_int::<$t>(&BigUint::from(x)), h), &digits(x), "digits_field"); )* }};
        }
        eachf!(ark_bn254::Fr, ark_bn254::Fq, ark_bls12_377::Fr, ark_bls12_377::Fq, ark_bls12_381::Fr, ark_bls12_381::Fq);
        // a whole field element
        let f = <F254 as ark_ff::UniformRand>::rand(&mut c.rng);
        let mut v = vh::gen::int(&f);
        let want: Vec<usize> = (0..h)
            .map(|_| {
                let d = (&v % A as u64).to_u64_digits().first().copied().unwrap_or(0) as usize;
                v /= A as u64;
                d
            })
            .collect();
        c.eq(&<F254 as ToTraversalPath<A>>::to_traversal_path(&f, h), &want, "digits_wide");
        c.ev("kv.digits");
        c.sample(|| format!("{x} in base {A}, {h} digits"));
    }
    match c.idx % 5 {
        0 => go::<2>(c),
        1 => go::<3>(c),
        2 => go::<4>(c),
        3 => go::<16>(c),
        _ => go::<255>(c),
    }
}

fn main() {
    main_with(vec![
        Property {
            id: "M01",
            rule: "random builds and batches (many overflowing the tree) on 16 hash/arity \
                   combinations; distinct by arity, height, script and case",
            assumptions: &["the SHA-3 family comes from a stand-in checked against known answers"],
            scenarios: vec![
                sc("full", 1280, 60000, m01_full),
                sc("light", 1280, 60000, m01_light),
                sc("aliases", 60, 1000, m01_alias),
                sc("many", 36, 2000, m01_many),
                sc("every_count", 1800, 18000, m01_count),
                sc("digests", 600, 12000, m01_digests),
            ],
        },
        Property {
            id: "M02",
            rule: "random histories of 3 to 24 operations over clustered keys, on 16 \
                   hash/arity/index combinations; distinct by arity, height and script",
            assumptions: &[],
            scenarios: vec![
                sc("histories", 720, 80000, m02_kv),
                sc("digits", 4000, 100000, m02_digits),
                sc("past_capacity", 200, 2000, m02_alias),
            ],
        },
        Property {
            id: "M03",
            rule: "14 claims per random tree, each with an altered path, position, leaf or root; \
                   distinct by arity, height and key set",
            assumptions: &["no hash collisions"],
            scenarios: vec![
                sc("forged", 560, 80000, m03_forge),
                sc("truncated", 300, 3000, m03_short),
            ],
        },
        Property {
            id: "M04",
            rule: "random histories mixing forget, remember (true and false proofs), updates and \
                   lookups on partially forgotten trees; distinct by arity, height and script",
            assumptions: &[],
            scenarios: vec![
                sc("key_value", 640, 40000, m04_kv),
                sc("full", 240, 20000, m04_full),
                sc("light", 240, 20000, m04_light),
            ],
        },
        Property {
            id: "M05",
            rule: "random ranges of random trees, each followed by eight altered claims; distinct \
                   by arity, height, size and range",
            assumptions: &["no hash collisions"],
            scenarios: vec![sc("ranges", 2400, 60000, m05_range), sc("many", 24, 2000, m05_many)],
        },
        Property {
            id: "M06",
            rule: "random (also partly forgotten) trees and proofs through two formats, and \
                   damaged encodings; distinct by arity, height and key set",
            assumptions: &[],
            scenarios: vec![
                sc("key_value", 1600, 40000, m06_kv),
                sc("append", 1600, 40000, m06_append),
            ],
        },
        Property {
            id: "M07",
            rule: "random trees, honest and altered claims given to the circuit, and single \
                   witness changes; distinct by field, height and claim",
            assumptions: &["satisfiability is decided by the library's own gate evaluation"],
            scenarios: vec![
                sc("membership", 240, 2400, gadgets::member),
                sc("non_membership", 240, 2400, gadgets::non_member),
                sc("sparse_membership", 40, 800, gadgets::sparse_member),
            ],
        },
    ]);
}
