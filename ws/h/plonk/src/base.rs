//! Reference strings with a known secret, transcripts that keep a record, and
//! proofs written as exponents.

use ark_ec::{
    pairing::Pairing,
    short_weierstrass::{Affine, SWCurveConfig},
    CurveGroup, ScalarMul,
};
use ark_ff::{One, UniformRand};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_pcs::prelude::{Commitment, UnivariateVerifierParam};
use jf_plonk::{
    errors::PlonkError,
    proof_system::structs::{
        BatchProof, PlookupEvaluations, PlookupProof, PlookupVerifyingKey, Proof, ProofEvaluations, UniversalSrs,
        VerifyingKey,
    },
    transcript::PlonkTranscript,
};
use jf_relation::gadgets::ecc::SWToTEConParam;
use jf_rescue::RescueParameter;
use std::cell::RefCell;
use vh::Case;

/// The curves proofs are made over.
pub trait Cv: Pairing<BaseField = <Self as Cv>::Bf, G1Affine = Affine<<Self as Cv>::Pg>> {
    type Bf: RescueParameter + SWToTEConParam;
    type Pg: SWCurveConfig<BaseField = <Self as Cv>::Bf>;
}
impl Cv for ark_bn254::Bn254 {
    type Bf = ark_bn254::Fq;
    type Pg = ark_bn254::g1::Config;
}
impl Cv for ark_bls12_381::Bls12_381 {
    type Bf = ark_bls12_381::Fq;
    type Pg = ark_bls12_381::g1::Config;
}
impl Cv for ark_bls12_377::Bls12_377 {
    type Bf = ark_bls12_377::Fq;
    type Pg = ark_bls12_377::g1::Config;
}
impl Cv for ark_bw6_761::BW6_761 {
    type Bf = ark_bw6_761::Fq;
    type Pg = ark_bw6_761::g1::Config;
}

pub type S<E> = <E as Pairing>::ScalarField;
pub type B<E> = <E as Pairing>::BaseField;

/// A reference string whose secret is known.
#[derive(Clone)]
pub struct Setup<E: Pairing> {
    pub g: E::G1,
    pub x: S<E>,
    pub srs: UniversalSrs<E>,
}

impl<E: Pairing> Setup<E> {
    /// With powers up to the given degree.
    pub fn new(c: &mut Case, degree: usize) -> Self {
        let (g, h) = (E::G1::rand(&mut c.rng), E::G2::rand(&mut c.rng));
        let x = S::<E>::rand(&mut c.rng);
        let mut pow = vec![S::<E>::one()];
        for i in 0..degree {
            pow.push(pow[i] * x);
        }
        let beta_h = (h * x).into_affine();
        let h = h.into_affine();
        let srs = UniversalSrs { powers_of_g: g.batch_mul(&pow), h, beta_h, powers_of_h: vec![h, beta_h] };
        Self { g, x, srs }
    }

    pub fn at(&self, x: S<E>) -> E::G1Affine {
        (self.g * x).into_affine()
    }

    pub fn com(&self, x: S<E>) -> Commitment<E> {
        Commitment(self.at(x))
    }

    pub fn coms(&self, x: &[S<E>]) -> Vec<Commitment<E>> {
        x.iter().map(|x| self.com(*x)).collect()
    }

    pub fn open_key(&self) -> UnivariateVerifierParam<E> {
        UnivariateVerifierParam {
            g: self.srs.powers_of_g[0],
            h: self.srs.h,
            beta_h: self.srs.beta_h,
            powers_of_h: self.srs.powers_of_h.clone(),
            powers_of_g: vec![self.srs.powers_of_g[0]],
        }
    }
}

thread_local! {
    static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}

/// A transcript that notes every challenge it hands out.
pub struct Rec<T>(T);

impl<F, T: PlonkTranscript<F>> PlonkTranscript<F> for Rec<T> {
    fn new(label: &'static [u8]) -> Self {
        Rec(T::new(label))
    }
    fn append_vk_and_pub_input<E, P>(&mut self, vk: &VerifyingKey<E>, pi: &[E::ScalarField]) -> Result<(), PlonkError>
    where
        E: Pairing<BaseField = F, G1Affine = Affine<P>>,
        P: SWCurveConfig<BaseField = F>,
    {
        self.0.append_vk_and_pub_input(vk, pi)
    }
    fn append_message(&mut self, label: &'static [u8], msg: &[u8]) -> Result<(), PlonkError> {
        self.0.append_message(label, msg)
    }
    fn append_commitments<E, P>(&mut self, label: &'static [u8], comms: &[Commitment<E>]) -> Result<(), PlonkError>
    where
        E: Pairing<BaseField = F, G1Affine = Affine<P>>,
        P: SWCurveConfig<BaseField = F>,
    {
        self.0.append_commitments(label, comms)
    }
    fn append_commitment<E, P>(&mut self, label: &'static [u8], comm: &Commitment<E>) -> Result<(), PlonkError>
    where
        E: Pairing<BaseField = F, G1Affine = Affine<P>>,
        P: SWCurveConfig<BaseField = F>,
    {
        self.0.append_commitment(label, comm)
    }
    fn append_field_elem<E>(&mut self, label: &'static [u8], x: &E::ScalarField) -> Result<(), PlonkError>
    where
        E: Pairing<BaseField = F>,
    {
        self.0.append_field_elem::<E>(label, x)
    }
    fn append_field_elems<E>(&mut self, label: &'static [u8], x: &[E::ScalarField]) -> Result<(), PlonkError>
    where
        E: Pairing<BaseField = F>,
    {
        self.0.append_field_elems::<E>(label, x)
    }
    fn append_proof_evaluations<E: Pairing<BaseField = F>>(
        &mut self,
        evals: &ProofEvaluations<E::ScalarField>,
    ) -> Result<(), PlonkError> {
        self.0.append_proof_evaluations::<E>(evals)
    }
    fn append_plookup_evaluations<E: Pairing<BaseField = F>>(
        &mut self,
        evals: &PlookupEvaluations<E::ScalarField>,
    ) -> Result<(), PlonkError> {
        self.0.append_plookup_evaluations::<E>(evals)
    }
    fn get_challenge<E>(&mut self, label: &'static [u8]) -> Result<E::ScalarField, PlonkError>
    where
        E: Pairing<BaseField = F>,
    {
        let x = self.0.get_challenge::<E>(label)?;
        LOG.with(|l| l.borrow_mut().push(bytes(&x)));
        Ok(x)
    }
}

/// Run with a record of the challenges drawn, in order.
pub fn recorded<R: Send, F: CanonicalDeserialize>(f: impl FnOnce() -> R + Send) -> (R, Vec<F>) {
    // the library may hand the work to another thread, so let there be one
    let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().expect("thread pool");
    let (r, log) = pool.install(|| {
        LOG.with(|l| l.borrow_mut().clear());
        let r = f();
        (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
    });
    (r, log.iter().map(|b| F::deserialize_compressed(&b[..]).expect("challenge")).collect())
}

/// How many challenges this thread has drawn since the record began.
pub fn drawn() -> usize {
    LOG.with(|l| l.borrow().len())
}

/// The same for work that stays on this thread.
pub fn recorded_here<R, F: CanonicalDeserialize>(f: impl FnOnce() -> R) -> (R, Vec<F>) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    (r, log.iter().map(|b| F::deserialize_compressed(&b[..]).expect("challenge")).collect())
}

pub fn bytes<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_compressed(&mut v).expect("serialize");
    v
}

/// What is said about lookups in a proof. The order of the values is that of
/// the wire format.
#[derive(Clone, Debug, PartialEq)]
pub struct XLookup<F> {
    pub h: Vec<F>,
    pub prod: F,
    pub ev: [F; 15],
}

// positions in the list of lookup values
pub const RANGE: usize = 0;
pub const KEY: usize = 1;
pub const TABLE_SEP: usize = 2;
pub const Q_SEP: usize = 3;
pub const H1: usize = 4;
pub const Q_LOOKUP: usize = 5;
pub const PROD_NEXT: usize = 6;
pub const RANGE_NEXT: usize = 7;
pub const KEY_NEXT: usize = 8;
pub const TABLE_SEP_NEXT: usize = 9;
pub const H1_NEXT: usize = 10;
pub const H2_NEXT: usize = 11;
pub const Q_LOOKUP_NEXT: usize = 12;
pub const W3_NEXT: usize = 13;
pub const W4_NEXT: usize = 14;

/// One instance of a proof, commitments given by their exponents.
#[derive(Clone, Debug, PartialEq)]
pub struct XInst<F> {
    pub wires: Vec<F>,
    pub z: F,
    pub wire_evals: Vec<F>,
    pub sigma_evals: Vec<F>,
    pub z_next: F,
    pub lk: Option<XLookup<F>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct XProof<F> {
    pub inst: Vec<XInst<F>>,
    pub quot: Vec<F>,
    pub open: F,
    pub shift: F,
}

/// A verifying key by its exponents.
#[derive(Clone, Debug, PartialEq)]
pub struct XKey<F> {
    pub n: usize,
    pub inputs: usize,
    pub sigma: Vec<F>,
    pub sel: Vec<F>,
    pub k: Vec<F>,
    pub merged: bool,
    /// range table, key table, table separator, lookup separator
    pub lk: Option<[F; 4]>,
}

fn lookup_proof<E: Cv>(s: &Setup<E>, l: &XLookup<S<E>>) -> PlookupProof<E> {
    let mut b = bytes(&l.h.iter().map(|x| s.at(*x)).collect::<Vec<_>>());
    b.extend(bytes(&s.at(l.prod)));
    for x in l.ev {
        b.extend(bytes(&x));
    }
    PlookupProof::deserialize_compressed_unchecked(&b[..]).expect("lookup proof format")
}

impl<F: ark_ff::PrimeField> XInst<F> {
    pub fn evals(&self) -> ProofEvaluations<F> {
        ProofEvaluations {
            wires_evals: self.wire_evals.clone(),
            wire_sigma_evals: self.sigma_evals.clone(),
            perm_next_eval: self.z_next,
        }
    }
}

impl<F: ark_ff::PrimeField> XProof<F> {
    /// The proof of a single instance.
    pub fn proof<E: Cv + Pairing<ScalarField = F>>(&self, s: &Setup<E>) -> Proof<E> {
        let i = &self.inst[0];
        Proof {
            wires_poly_comms: s.coms(&i.wires),
            prod_perm_poly_comm: s.com(i.z),
            split_quot_poly_comms: s.coms(&self.quot),
            opening_proof: s.com(self.open),
            shifted_opening_proof: s.com(self.shift),
            poly_evals: i.evals(),
            plookup_proof: i.lk.as_ref().map(|l| lookup_proof(s, l)),
        }
    }

    pub fn batch<E: Cv + Pairing<ScalarField = F>>(&self, s: &Setup<E>) -> BatchProof<E> {
        let mut b = vec![];
        b.extend(bytes(&self.inst.iter().map(|i| s.coms(&i.wires)).collect::<Vec<_>>()));
        b.extend(bytes(&self.inst.iter().map(|i| s.com(i.z)).collect::<Vec<_>>()));
        b.extend(bytes(&self.inst.iter().map(|i| i.evals()).collect::<Vec<_>>()));
        b.extend(bytes(&self.inst.iter().map(|i| i.lk.as_ref().map(|l| lookup_proof(s, l))).collect::<Vec<_>>()));
        b.extend(bytes(&s.coms(&self.quot)));
        b.extend(bytes(&s.com(self.open)));
        b.extend(bytes(&s.com(self.shift)));
        BatchProof::deserialize_compressed_unchecked(&b[..]).expect("batch proof format")
    }
}

impl<F: ark_ff::PrimeField> XKey<F> {
    pub fn key<E: Cv + Pairing<ScalarField = F>>(&self, s: &Setup<E>) -> VerifyingKey<E> {
        VerifyingKey {
            domain_size: self.n,
            num_inputs: self.inputs,
            sigma_comms: s.coms(&self.sigma),
            selector_comms: s.coms(&self.sel),
            k: self.k.clone(),
            open_key: s.open_key(),
            is_merged: self.merged,
            plookup_vk: self.lk.as_ref().map(|l| {
                let mut b = vec![];
                for x in l {
                    b.extend(bytes(&s.at(*x)));
                }
                PlookupVerifyingKey::deserialize_compressed_unchecked(&b[..]).expect("lookup key format")
            }),
        }
    }
}
