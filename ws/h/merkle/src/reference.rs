//! Reference tree: the root as a function of the key-value map alone.

use ark_ff::PrimeField;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_crhf::CRHF;
use jf_merkle_tree::{
    examples::Interval,
    hasher::{HasherDigestAlgorithm, HasherNode},
    prelude::{
        DigestAlgorithm, Element, Index, Keccak256Digest, Keccak256Node, NodeValue, RescueHash,
        Sha3Digest, Sha3Node,
    },
    MerkleTreeError,
};
use jf_poseidon2::crhf::FixedLenPoseidon2Hash;
use jf_poseidon2::sponge::Poseidon2Sponge;
use jf_rescue::{crhf::RescueCRHF, RescueParameter};
use num_bigint::BigUint;
use sha2::{Digest, Sha256};
use spongefish::{duplex_sponge::Permutation, Unit};
use std::collections::BTreeMap;
use vh::{gen, Case, Rng};

/// Element generator.
pub trait El: Element + CanonicalSerialize + CanonicalDeserialize + std::fmt::Debug + Send {
    fn draw(c: &mut Case) -> Self;
}
impl El for u64 {
    fn draw(c: &mut Case) -> Self {
        match c.below(4) {
            0 => c.below(3) as u64,
            _ => c.rng.gen(),
        }
    }
}
impl El for Vec<u8> {
    fn draw(c: &mut Case) -> Self {
        let n = c.below(40);
        gen::bytes(c, n)
    }
}
macro_rules! el_field {
    ($($t:ty),*) => {$(
        impl El for $t {
            fn draw(c: &mut Case) -> Self { gen::field(c) }
        }
    )*};
}
el_field!(ark_bls12_381::Fr, ark_bls12_377::Fr, ark_bn254::Fr, ark_bls12_377::Fq);

/// Index types, by the integer they stand for.
pub trait Ix: Index + CanonicalSerialize + CanonicalDeserialize + Send {
    const BITS: u32;
    fn of(p: u128) -> Self;
}
macro_rules! ix_prim {
    ($($t:ty),*) => {$(
        impl Ix for $t {
            const BITS: u32 = <$t>::BITS;
            fn of(p: u128) -> Self { p.try_into().expect("position fits") }
        }
    )*};
}
ix_prim!(u8, u16, u32, u64);
impl Ix for BigUint {
    const BITS: u32 = 120;
    fn of(p: u128) -> Self {
        BigUint::from(p)
    }
}
macro_rules! ix_field {
    ($($t:ty),*) => {$(
        impl Ix for $t {
            const BITS: u32 = 120;
            fn of(p: u128) -> Self { gen::from_int(&BigUint::from(p)) }
        }
    )*};
}
ix_field!(ark_bls12_381::Fr, ark_bn254::Fr, ark_bn254::Fq);

/// A hash with an independently written definition.
pub trait Rh<E: Element, I: Index, T: NodeValue>:
    DigestAlgorithm<E, I, T> + Clone + PartialEq + std::fmt::Debug
{
    fn leaf(p: &I, e: &E) -> T;
    fn node(ch: &[T]) -> T;
    /// whether the leaf digest depends on the position
    const POS_BOUND: bool = true;
}

impl<I: Index, F: RescueParameter + From<I>> Rh<F, I, F> for RescueHash<F> {
    fn leaf(p: &I, e: &F) -> F {
        RescueCRHF::<F>::sponge_no_padding(&[F::from(1u64), F::from(p.clone()), *e], 1).unwrap()[0]
    }
    fn node(ch: &[F]) -> F {
        let mut v = vec![F::from(0u64)];
        v.extend_from_slice(ch);
        while v.len() % 3 != 0 {
            v.push(F::from(0u64));
        }
        RescueCRHF::<F>::sponge_no_padding(&v, 1).unwrap()[0]
    }
}

impl<F: RescueParameter> Rh<Interval<F>, u64, F> for RescueHash<F> {
    fn leaf(p: &u64, e: &Interval<F>) -> F {
        let z = F::from(0u64);
        RescueCRHF::<F>::sponge_no_padding(&[F::from(1u64), F::from(*p), e.0, e.1, z, z], 1).unwrap()[0]
    }
    fn node(ch: &[F]) -> F {
        <RescueHash<F> as Rh<F, u64, F>>::node(ch)
    }
}

impl<I, F, S, const N: usize> Rh<F, I, F> for W<FixedLenPoseidon2Hash<F, S, N, 1>>
where
    I: Index,
    F: PrimeField + From<I> + Unit,
    S: Permutation<U = F> + Poseidon2Sponge,
{
    fn leaf(p: &I, e: &F) -> F {
        let mut v = vec![F::zero(); N];
        v[0] = F::one();
        v[N - 2] = F::from(p.clone());
        v[N - 1] = *e;
        FixedLenPoseidon2Hash::<F, S, N, 1>::evaluate(v).unwrap()[0]
    }
    fn node(ch: &[F]) -> F {
        let mut v = vec![F::zero()];
        v.extend_from_slice(ch);
        FixedLenPoseidon2Hash::<F, S, N, 1>::evaluate(v).unwrap()[0]
    }
}

fn bytes_of<T: CanonicalSerialize>(t: &T, compress: bool) -> Vec<u8> {
    let mut b = vec![];
    if compress {
        t.serialize_compressed(&mut b).unwrap();
    } else {
        t.serialize_uncompressed(&mut b).unwrap();
    }
    b
}

macro_rules! rh_bytes {
    ($d:ident, $n:ident, $h:ty) => {
        impl<E: Element + CanonicalSerialize, I: Index> Rh<E, I, $n> for $d {
            const POS_BOUND: bool = false;
            fn leaf(_: &I, e: &E) -> $n {
                use sha3::Digest;
                let mut m = vec![b'1'];
                m.extend(bytes_of(e, true));
                let mut h = <$h>::new();
                h.update(&m);
                let o: [u8; 32] = h.finalize().into();
                $n::deserialize_compressed(&o[..]).unwrap()
            }
            fn node(ch: &[$n]) -> $n {
                use sha3::Digest;
                let mut m = vec![b'0'];
                for x in ch {
                    m.extend_from_slice(x.as_ref());
                }
                let mut h = <$h>::new();
                h.update(&m);
                let o: [u8; 32] = h.finalize().into();
                $n::deserialize_compressed(&o[..]).unwrap()
            }
        }
    };
}
rh_bytes!(Sha3Digest, Sha3Node, sha3::Sha3_256);
rh_bytes!(Keccak256Digest, Keccak256Node, sha3::Keccak256);

/// A hash of the library in a wrapper that can be cloned and compared.
pub struct W<H>(std::marker::PhantomData<H>);
impl<H> Clone for W<H> {
    fn clone(&self) -> Self {
        W(self.0)
    }
}
impl<H> PartialEq for W<H> {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl<H> std::fmt::Debug for W<H> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("W")
    }
}
impl<E: Element, I: Index, T: NodeValue, H: DigestAlgorithm<E, I, T>> DigestAlgorithm<E, I, T> for W<H> {
    fn digest(data: &[T]) -> Result<T, MerkleTreeError> {
        H::digest(data)
    }
    fn digest_leaf(pos: &I, elem: &E) -> Result<T, MerkleTreeError> {
        H::digest_leaf(pos, elem)
    }
}
impl<E: Element + CanonicalSerialize, I: Index + CanonicalSerialize> Rh<E, I, HasherNode<Sha256>>
    for W<HasherDigestAlgorithm>
{
    fn leaf(p: &I, e: &E) -> HasherNode<Sha256> {
        let mut m = vec![b'1'];
        m.extend(bytes_of(p, false));
        m.extend(bytes_of(e, false));
        HasherNode::from(Sha256::digest(&m))
    }
    fn node(ch: &[HasherNode<Sha256>]) -> HasherNode<Sha256> {
        let mut m = vec![b'0'];
        for x in ch {
            m.extend_from_slice(x.as_ref());
        }
        HasherNode::from(Sha256::digest(&m))
    }
}

/// A hash of the harness, cheap enough for long histories; counts its calls.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Toy;
pub type Tn = [u8; 32];
impl<E: Element + CanonicalSerialize, I: Index> DigestAlgorithm<E, I, Tn> for Toy {
    fn digest(data: &[Tn]) -> Result<Tn, MerkleTreeError> {
        Ok(<Toy as Rh<E, I, Tn>>::node(data))
    }
    fn digest_leaf(pos: &I, elem: &E) -> Result<Tn, MerkleTreeError> {
        Ok(<Toy as Rh<E, I, Tn>>::leaf(pos, elem))
    }
}
impl<E: Element + CanonicalSerialize, I: Index> Rh<E, I, Tn> for Toy {
    fn leaf(p: &I, e: &E) -> Tn {
        let mut m = format!("L{p:?}|").into_bytes();
        m.extend(bytes_of(e, true));
        Sha256::digest(&m).into()
    }
    fn node(ch: &[Tn]) -> Tn {
        let mut m = vec![b'N', ch.len() as u8];
        for x in ch {
            m.extend_from_slice(x);
        }
        Sha256::digest(&m).into()
    }
}

pub type Map<E> = BTreeMap<u128, E>;

pub fn cap(a: usize, height: usize) -> u128 {
    (a as u128).saturating_pow(height as u32)
}

/// Root of the tree that holds exactly `m`.
pub fn root<E: Element, I: Ix, T: NodeValue, H: Rh<E, I, T>>(m: &Map<E>, a: usize, height: usize) -> T {
    let v: Vec<(u128, &E)> = m.iter().map(|(k, e)| (*k, e)).collect();
    sub::<E, I, T, H>(&v, a, height, 0)
}

fn sub<E: Element, I: Ix, T: NodeValue, H: Rh<E, I, T>>(
    v: &[(u128, &E)],
    a: usize,
    h: usize,
    base: u128,
) -> T {
    if v.is_empty() {
        return T::default();
    }
    if h == 0 {
        return H::leaf(&I::of(v[0].0), v[0].1);
    }
    let w = cap(a, h - 1);
    let ch: Vec<T> = (0..a as u128)
        .map(|i| {
            let (lo, hi) = (base + i * w, base + (i + 1) * w);
            let s = v.partition_point(|x| x.0 < lo);
            let e = v.partition_point(|x| x.0 < hi);
            sub::<E, I, T, H>(&v[s..e], a, h - 1, lo)
        })
        .collect();
    H::node(&ch)
}

/// Sibling values on the path of `p`, lowest level first; an empty level below
/// the first empty subtree.
pub fn path<E: Element, I: Ix, T: NodeValue, H: Rh<E, I, T>>(
    m: &Map<E>,
    a: usize,
    height: usize,
    p: u128,
) -> Vec<Vec<T>> {
    let v: Vec<(u128, &E)> = m.iter().map(|(k, e)| (*k, e)).collect();
    let mut out = vec![];
    let mut base = 0;
    for h in (1..=height).rev() {
        let s = v.partition_point(|x| x.0 < base);
        let e = v.partition_point(|x| x.0 < base + cap(a, h));
        if s == e {
            out.push(vec![]);
            continue;
        }
        let w = cap(a, h - 1);
        let d = (p / w) % a as u128;
        let mut sibs = vec![];
        for i in 0..a as u128 {
            if i != d {
                let (lo, hi) = (base + i * w, base + (i + 1) * w);
                let s = v.partition_point(|x| x.0 < lo);
                let e = v.partition_point(|x| x.0 < hi);
                sibs.push(sub::<E, I, T, H>(&v[s..e], a, h - 1, lo));
            }
        }
        out.push(sibs);
        base += d * w;
    }
    out.reverse();
    out
}
