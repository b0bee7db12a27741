//! What the challenges depend on.

use crate::{base::*, judge::*};
use ark_ec::AffineRepr;
use ark_ff::{BigInteger, PrimeField, UniformRand, Zero};
use jf_crhf::CRHF;
use jf_plonk::transcript::{PlonkTranscript, RescueTranscript, SolidityTranscript, StandardTranscript};
use jf_relation::gadgets::ecc::TEPoint;
use jf_rescue::crhf::VariableLengthRescueCRHF;
use sha3::{Digest, Keccak256};
use std::collections::HashSet;
use vh::{gen, Case};

/// A record of everything said, kept apart from the library's transcripts.
pub trait Model<E: Cv>: Sized {
    fn start(label: &'static [u8]) -> Self;
    fn msg(&mut self, label: &'static [u8], b: &[u8]);
    fn com(&mut self, label: &'static [u8], p: &E::G1Affine);
    fn num(&mut self, label: &'static [u8], x: &S<E>);
    fn challenge(&mut self, label: &'static [u8]) -> S<E>;
    fn key(&mut self, k: &XKey<S<E>>, s: &Setup<E>, pi: &[S<E>]);

    fn nums(&mut self, label: &'static [u8], x: &[S<E>]) {
        x.iter().for_each(|x| self.num(label, x));
    }
    fn coms(&mut self, label: &'static [u8], p: &[E::G1Affine]) {
        p.iter().for_each(|p| self.com(label, p));
    }
}

pub trait Twin<E: Cv> {
    type M: Model<E>;
    /// whether the domain size, the input count and the coset numbers count
    const SIZES: bool;
}
impl<E: Cv> Twin<E> for StandardTranscript {
    type M = merlin::Transcript;
    const SIZES: bool = true;
}
impl<E: Cv> Twin<E> for SolidityTranscript {
    type M = Keccak;
    const SIZES: bool = true;
}
impl<E: Cv> Twin<E> for RescueTranscript<B<E>> {
    type M = Sponge<B<E>>;
    const SIZES: bool = false;
}

fn points<E: Cv>(s: &Setup<E>, x: &[S<E>]) -> Vec<E::G1Affine> {
    x.iter().map(|x| s.at(*x)).collect()
}

impl<E: Cv> Model<E> for merlin::Transcript {
    fn start(label: &'static [u8]) -> Self {
        merlin::Transcript::new(label)
    }
    fn msg(&mut self, label: &'static [u8], b: &[u8]) {
        self.append_message(label, b)
    }
    fn com(&mut self, label: &'static [u8], p: &E::G1Affine) {
        self.append_message(label, &bytes(p))
    }
    fn num(&mut self, label: &'static [u8], x: &S<E>) {
        self.append_message(label, &bytes(x))
    }
    fn challenge(&mut self, label: &'static [u8]) -> S<E> {
        let mut b = [0; 64];
        self.challenge_bytes(label, &mut b);
        S::<E>::from_le_bytes_mod_order(&b)
    }
    fn key(&mut self, k: &XKey<S<E>>, s: &Setup<E>, pi: &[S<E>]) {
        self.append_message(b"field size in bits", &S::<E>::MODULUS_BIT_SIZE.to_le_bytes());
        self.append_message(b"domain size", &(k.n as u64).to_le_bytes());
        self.append_message(b"input size", &(k.inputs as u64).to_le_bytes());
        self.append_message(b"SRS G2 element", &bytes(&s.srs.beta_h));
        Model::<E>::nums(self, b"wire subsets separators", &k.k);
        Model::<E>::coms(self, b"selector commitments", &points(s, &k.sel));
        Model::<E>::coms(self, b"sigma commitments", &points(s, &k.sigma));
        Model::<E>::nums(self, b"public input", pi);
    }
}

pub struct Keccak(Vec<u8>);
impl<E: Cv> Model<E> for Keccak {
    fn start(_: &'static [u8]) -> Self {
        Keccak(vec![0; 32])
    }
    fn msg(&mut self, _: &'static [u8], b: &[u8]) {
        self.0.extend(b)
    }
    fn com(&mut self, _: &'static [u8], p: &E::G1Affine) {
        let (x, y) = p.xy().unwrap_or((B::<E>::zero(), B::<E>::zero()));
        self.0.extend(x.into_bigint().to_bytes_be());
        self.0.extend(y.into_bigint().to_bytes_be());
    }
    fn num(&mut self, _: &'static [u8], x: &S<E>) {
        self.0.extend(x.into_bigint().to_bytes_be());
    }
    fn challenge(&mut self, _: &'static [u8]) -> S<E> {
        self.0 = Keccak256::digest(&self.0).to_vec();
        S::<E>::from_be_bytes_mod_order(&self.0)
    }
    fn key(&mut self, k: &XKey<S<E>>, s: &Setup<E>, pi: &[S<E>]) {
        self.0.extend(S::<E>::MODULUS_BIT_SIZE.to_be_bytes());
        self.0.extend((k.n as u64).to_be_bytes());
        self.0.extend((k.inputs as u64).to_be_bytes());
        self.0.extend([0; 12]);
        self.0.extend(bytes(&s.srs.beta_h));
        Model::<E>::nums(self, b"", &k.k);
        Model::<E>::coms(self, b"", &points(s, &k.sel));
        Model::<E>::coms(self, b"", &points(s, &k.sigma));
        Model::<E>::nums(self, b"", pi);
    }
}

pub struct Sponge<F>(Vec<F>);
impl<E: Cv> Model<E> for Sponge<B<E>> {
    fn start(_: &'static [u8]) -> Self {
        Sponge(vec![B::<E>::zero(); 4])
    }
    fn msg(&mut self, _: &'static [u8], b: &[u8]) {
        self.0.extend(jf_utils::bytes_to_field_elements::<_, B<E>>(b));
    }
    fn com(&mut self, _: &'static [u8], p: &E::G1Affine) {
        let p: TEPoint<B<E>> = (*p).into();
        self.0.extend([p.get_x(), p.get_y()]);
    }
    fn num(&mut self, _: &'static [u8], x: &S<E>) {
        self.0.push(B::<E>::from_le_bytes_mod_order(&bytes(x)));
    }
    fn challenge(&mut self, _: &'static [u8]) -> S<E> {
        let out: [B<E>; 4] = VariableLengthRescueCRHF::evaluate(&self.0).expect("sponge");
        self.0 = out.to_vec();
        let keep = S::<E>::MODULUS_BIT_SIZE as usize / 8;
        S::<E>::from_le_bytes_mod_order(&bytes(&out[0])[..keep])
    }
    fn key(&mut self, k: &XKey<S<E>>, s: &Setup<E>, pi: &[S<E>]) {
        Model::<E>::coms(self, b"", &points(s, &k.sel));
        Model::<E>::coms(self, b"", &points(s, &k.sigma));
        Model::<E>::nums(self, b"", pi);
    }
}

/// Any order of what can be said to a transcript.
pub fn talk<E: Cv, T: PlonkTranscript<B<E>> + Twin<E>>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let labels: [&'static [u8]; 4] = [b"a", b"b", b"PlonkProof", b""];
    let label = c.pick(&labels);
    let mut t = T::new(label);
    let mut m = T::M::start(label);
    let mut seen = HashSet::new();
    let mut kinds = vec![];
    let ops = c.range(1, 12);
    for _ in 0..ops {
        let label = c.pick(&labels);
        let k = c.below(9);
        kinds.push(k);
        let r = match k {
            0 => {
                let n = c.range(1, 80);
                let b = c.bytes(n);
                m.msg(label, &b);
                t.append_message(label, &b)
            },
            1 => {
                let x = gen::field(c);
                m.com(label, &s.at(x));
                t.append_commitment(label, &s.com(x))
            },
            2 => {
                let n = c.range(0, 4);
                let x: Vec<S<E>> = gen::fields(c, n);
                m.coms(label, &points(&s, &x));
                t.append_commitments(label, &s.coms(&x))
            },
            3 => {
                let x = gen::field(c);
                m.num(label, &x);
                t.append_field_elem::<E>(label, &x)
            },
            4 => {
                let n = c.range(0, 4);
                let x: Vec<S<E>> = gen::fields(c, n);
                m.nums(label, &x);
                t.append_field_elems::<E>(label, &x)
            },
            5 => {
                let ultra = c.coin();
                let q = Claim::<S<E>>::any(c, 1, ultra, false);
                m.key(&q.keys[0], &s, &q.pis[0]);
                t.append_vk_and_pub_input(&q.keys[0].key(&s), &q.pis[0])
            },
            6 => {
                let n = c.range(0, 3);
                let ls = vec![label; n];
                let want: Vec<S<E>> = ls.iter().map(|l| m.challenge(l)).collect();
                match t.get_n_challenges::<E>(&ls) {
                    Ok(got) => {
                        c.ev("several challenges");
                        c.eq(&got, &want, "challenge");
                        got.iter().for_each(|x| {
                            seen.insert(bytes(x));
                        });
                        Ok(())
                    },
                    Err(e) => Err(e),
                }
            },
            _ => match t.get_challenge::<E>(label) {
                Ok(got) => {
                    c.ev("challenge");
                    c.eq(&got, &m.challenge(label), "challenge");
                    c.check(seen.insert(bytes(&got)), "challenge_repeat", || format!("{got}"));
                    Ok(())
                },
                Err(e) => Err(e),
            },
        };
        if c.ok(r, "transcript_error").is_none() {
            return;
        }
    }
    c.key(kinds.clone());
    c.sample(|| format!("operations {kinds:?}"));
    let got = t.get_challenge::<E>(b"end");
    if let Some(got) = c.ok(got, "transcript_error") {
        c.ev("challenge");
        c.eq(&got, &m.challenge(b"end"), "challenge");
    }
}

/// The challenges of a verification, from the statement and the proof alone.
fn script<E: Cv, M: Model<E>>(s: &Setup<E>, q: &Claim<S<E>>) -> Vec<S<E>> {
    let mut m = M::start(b"PlonkProof");
    let mut out = vec![];
    if let Some(x) = &q.extra {
        m.msg(b"extra info", x);
    }
    for (k, pi) in q.keys.iter().zip(&q.pis) {
        m.key(k, s, pi);
    }
    for i in &q.proof.inst {
        m.coms(b"witness_poly_comms", &points(s, &i.wires));
    }
    let lks = || q.proof.inst.iter().filter_map(|i| i.lk.as_ref());
    if q.lookup() {
        out.push(m.challenge(b"tau"));
    }
    for l in lks() {
        m.coms(b"h_poly_comms", &points(s, &l.h));
    }
    out.push(m.challenge(b"beta"));
    out.push(m.challenge(b"gamma"));
    for i in &q.proof.inst {
        m.com(b"perm_poly_comms", &s.at(i.z));
    }
    for l in lks() {
        m.com(b"plookup_poly_comms", &s.at(l.prod));
    }
    out.push(m.challenge(b"alpha"));
    m.coms(b"quot_poly_comms", &points(s, &q.proof.quot));
    out.push(m.challenge(b"zeta"));
    for i in &q.proof.inst {
        m.nums(b"wire_evals", &i.wire_evals);
        m.nums(b"wire_sigma_evals", &i.sigma_evals);
        m.num(b"perm_next_eval", &i.z_next);
    }
    for l in lks() {
        for k in [RANGE, KEY, H1, Q_LOOKUP, TABLE_SEP, Q_SEP] {
            m.num(b"plookup_evals", &l.ev[k]);
        }
        for k in
            [PROD_NEXT, RANGE_NEXT, KEY_NEXT, H1_NEXT, H2_NEXT, Q_LOOKUP_NEXT, W3_NEXT, W4_NEXT, TABLE_SEP_NEXT]
        {
            m.num(b"plookup_next_evals", &l.ev[k]);
        }
    }
    out.push(m.challenge(b"v"));
    m.com(b"open_proof", &s.at(q.proof.open));
    m.com(b"shifted_open_proof", &s.at(q.proof.shift));
    out.push(m.challenge(b"u"));
    out
}

/// The first of the challenges, in the order they are drawn with lookups,
/// that comes after something of this kind has been said.
fn first_after(kind: &str) -> usize {
    match kind {
        "sorted" => 1,
        "product" | "lookup product" => 3,
        "quotient" => 4,
        "wire value" | "sigma value" | "product next value" | "lookup value" => 5,
        "opening" | "shifted opening" => 6,
        // statement, message, wires
        _ => 0,
    }
}

/// Change anything: all challenges that come later change.
pub fn depend<E: Cv, T: PlonkTranscript<B<E>> + Twin<E> + Send>(c: &mut Case) {
    let s = Setup::<E>::new(c, 1);
    let ultra = c.coin();
    let m = if c.coin() { 1 } else { c.range(2, 3) };
    let single = m == 1;
    let mut q = Claim::<S<E>>::any(c, m, ultra, false);
    (q.proof.open, q.proof.shift) = (S::<E>::rand(&mut c.rng), S::<E>::rand(&mut c.rng));
    let (_, base) = verdict::<E, T>(&s, &q, single);
    c.key((m, ultra, q.keys[0].n));
    c.ev("challenges of a verification");
    c.sample(|| format!("{m} instances, lookups {ultra}, {} challenges", base.len()));
    c.eq(&base, &script::<E, T::M>(&s, &q), "challenges");
    let unlike: HashSet<_> = base.iter().map(bytes).collect();
    c.check(unlike.len() == base.len(), "challenge_repeat", || format!("{base:?}"));
    for _ in 0..8 {
        let mut b = q.clone();
        let what = match c.below(8) {
            0 => {
                // two unlike values of the same kind change places
                let n = b.cells().len();
                let i = c.below(n);
                let (ki, xi) = (b.cells()[i].0, *b.cells()[i].1);
                let like: Vec<usize> = b
                    .cells()
                    .iter()
                    .enumerate()
                    .filter(|(_, (k, x))| *k == ki && **x != xi)
                    .map(|(j, _)| j)
                    .collect();
                if like.is_empty() {
                    continue;
                }
                let j = c.pick(&like);
                let xj = *b.cells()[j].1;
                *b.cells()[i].1 = xj;
                *b.cells()[j].1 = xi;
                ki
            },
            1 if single => {
                b.extra = match &q.extra {
                    None => Some(c.bytes(7)),
                    Some(x) => {
                        let mut x = x.clone();
                        if x.is_empty() {
                            x = c.bytes(3);
                        } else {
                            gen::flip(c, &mut x);
                        }
                        Some(x)
                    },
                };
                "message"
            },
            2 if m > 1 => {
                // whole statements change places
                b.keys.swap(0, 1);
                b.pis.swap(0, 1);
                if b.keys == q.keys {
                    continue;
                }
                "statements"
            },
            3 => {
                let k = c.below(m);
                if !T::SIZES || b.keys[k].n == 1 {
                    continue;
                }
                let n = q.keys[0].n * 2;
                b.keys.iter_mut().for_each(|k| k.n = n);
                "domain"
            },
            _ => b.bend(c),
        };
        if what == "key table" || (what == "key coset" && !T::SIZES) {
            // reflected in the values instead
            continue;
        }
        let (_, log) = verdict::<E, T>(&s, &b, single);
        c.ev("challenges after a change");
        c.key(("change", what, ultra, m));
        if log.len() != base.len() {
            c.fail("challenges", format!("{} and {} drawn", base.len(), log.len()));
            return;
        }
        let from = first_after(what).saturating_sub(if q.lookup() { 0 } else { 1 });
        for i in from..log.len() {
            c.check(log[i] != base[i], "independent", || {
                format!("challenge {i} of {} is the same after changing: {what}", log.len())
            });
        }
        c.eq(&log, &script::<E, T::M>(&s, &b), "challenges");
    }
    // another reference string with the same commitments
    if T::SIZES {
        let mut o = s.clone();
        o.srs.beta_h = (o.srs.h * S::<E>::rand(&mut c.rng)).into();
        o.srs.powers_of_h[1] = o.srs.beta_h;
        let (_, log) = verdict::<E, T>(&o, &q, single);
        c.ev("another reference string");
        c.check(log.iter().zip(&base).all(|(x, y)| x != y), "independent", || "reference string".into());
    }
}
