//! What is left to see of a secret key.

use crate::{pack, schnorr::Cv};
use ark_ff::{PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_signature::{bls_over_bls12381 as b381, bls_over_bn254 as bn, schnorr, SignatureScheme};
use std::mem::{size_of, MaybeUninit};
use vh::{gen, Case};

/// The forms in which a secret could be printed.
fn forms(le: &[u8]) -> Vec<String> {
    let be: Vec<u8> = le.iter().rev().copied().collect();
    let n = num_bigint::BigUint::from_bytes_le(le);
    let mut v = vec![n.to_string(), format!("{n:x}"), format!("{n:X}")];
    for b in [le, &be[..]] {
        v.push(b.iter().map(|x| format!("{x:02x}")).collect());
        v.push(b.iter().map(|x| format!("{x:02X}")).collect());
        v.push(format!("{b:?}"));
        v.push(format!("{b:#?}"));
        v.push(format!("{:?}", &b[4..12]).trim_matches(|x| x == '[' || x == ']').to_string());
        if let Ok(t) = tagged_base64::TaggedBase64::new("A", b) {
            let t = t.to_string();
            v.push(t[2..t.len() - 3].to_string());
        }
    }
    for w in le.chunks_exact(8) {
        let w = u64::from_le_bytes(w.try_into().expect("8 bytes"));
        v.push(w.to_string());
        v.push(format!("{w:x}"));
    }
    v
}

fn hides(c: &mut Case, kind: &str, le: &[u8], inner: &[u8], texts: &[String]) {
    c.ev("text of a key");
    for t in texts {
        for f in forms(le).into_iter().chain(forms(inner)) {
            c.check(!t.contains(&f), "secret_shown", || format!("{kind}: {t}"));
        }
    }
}

fn raw<T>(x: &T) -> Vec<u8> {
    // Safety: only used on field elements, which have no padding
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, size_of::<T>()) }.to_vec()
}

fn both<T: std::fmt::Debug>(x: &T) -> Vec<String> {
    #[derive(Debug)]
    #[allow(dead_code)]
    struct Outer<'a, T> {
        held: &'a T,
    }
    vec![format!("{x:?}"), format!("{x:#?}"), format!("{:?}", Outer { held: x }), format!("{:?}", Some(x))]
}

fn big<F: PrimeField>(c: &mut Case) -> F {
    loop {
        let x = F::rand(&mut c.rng);
        if gen::int(&x).bits() > 200 {
            return x;
        }
    }
}

fn schnorr_shown<P: Cv>(c: &mut Case, kind: &str) {
    let (x, y) = (big::<P::ScalarField>(c), big::<P::ScalarField>(c));
    let kp = schnorr::KeyPair::<P>::generate_with_sign_key(x);
    let other = schnorr::KeyPair::<P>::generate_with_sign_key(y);
    hides(c, kind, &pack(&x), &raw(&x), &both(&kp));
    hides(c, kind, &pack(&x), &raw(&x), &both(&kp.sign_key()));
    c.eq(&both(&kp.sign_key()), &both(&other.sign_key()), "secret_tells");
}

pub fn shown(c: &mut Case) {
    c.key(c.idx);
    c.sample(|| "a secret key of every kind, printed alone and inside other structures".into());
    schnorr_shown::<ark_ed_on_bls12_377::EdwardsConfig>(c, "schnorr 377");
    schnorr_shown::<ark_ed_on_bls12_381::EdwardsConfig>(c, "schnorr 381");
    schnorr_shown::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c, "schnorr bandersnatch");
    schnorr_shown::<ark_ed_on_bn254::EdwardsConfig>(c, "schnorr 254");
    let (x, y) = (big::<ark_bn254::Fr>(c), big::<ark_bn254::Fr>(c));
    let kp = bn::KeyPair::generate_with_sign_key(x);
    let other = bn::KeyPair::generate_with_sign_key(y);
    hides(c, "pairing 254", &pack(&x), &raw(&x), &both(&kp));
    hides(c, "pairing 254", &pack(&x), &raw(&x), &both(kp.sign_key_ref()));
    c.eq(&both(kp.sign_key_ref()), &both(other.sign_key_ref()), "secret_tells");
    let a = b381::BLSSignatureScheme::key_gen(&(), &mut c.rng).expect("key").0;
    let b = b381::BLSSignatureScheme::key_gen(&(), &mut c.rng).expect("key").0;
    let k = a.to_bytes();
    hides(c, "pairing 381", &k, &k, &both(&a));
    c.eq(&both(&a), &both(&b), "secret_tells");
}

/// Puts the value in memory of our own, runs its destructor and looks again.
fn after<T>(c: &mut Case, kind: &str, x: T, secret: &[u8]) {
    let mut m: Box<MaybeUninit<T>> = Box::new(MaybeUninit::uninit());
    let n = size_of::<T>();
    // Safety: the memory is ours, filled before it is read and dropped once;
    // bytes that are padding were written here first
    let (before, after) = unsafe {
        let p = m.as_mut_ptr() as *mut u8;
        for i in 0..n {
            p.add(i).write_volatile(0);
        }
        m.as_mut_ptr().write(x);
        let before: Vec<u8> = (0..n).map(|i| p.add(i).read_volatile()).collect();
        std::ptr::drop_in_place(m.as_mut_ptr());
        let after: Vec<u8> = (0..n).map(|i| p.add(i).read_volatile()).collect();
        (before, after)
    };
    let at = before.windows(secret.len()).position(|w| w == secret);
    let Some(at) = at else {
        c.ev("secret not found in the value");
        return;
    };
    c.ev("secret looked for after its end");
    for (i, w) in secret.chunks(8).enumerate() {
        let o = at + 8 * i;
        if w.iter().any(|b| *b != 0) {
            c.check(after[o..o + w.len()] != *w, "secret_left", || format!("{kind}: word {i} still in memory"));
        }
    }
    // nor a copy elsewhere in it
    let found = after.windows(16).any(|w| w == &secret[..16]);
    c.check(!found, "secret_left", || format!("{kind}: a copy in the value"));
}

fn elgamal<P: Cv>(c: &mut Case, kind: &str) {
    let kp = jf_elgamal::KeyPair::<P>::generate(&mut c.rng);
    let b = pack(&kp);
    let n = P::ScalarField::zero().uncompressed_size();
    let x = P::ScalarField::deserialize_uncompressed(&b[b.len() - n..]).expect("secret at the end");
    after(c, kind, kp.clone(), &raw(&x));
    after(c, kind, kp, &raw(&x));
}

fn schnorr_wiped<P: Cv>(c: &mut Case, kind: &str) {
    let x = P::ScalarField::rand(&mut c.rng);
    let kp = schnorr::KeyPair::<P>::generate_with_sign_key(x);
    after(c, kind, kp.sign_key(), &raw(&x));
    after(c, kind, kp.clone(), &raw(&x));
    after(c, kind, kp, &raw(&x));
}

pub fn wiped(c: &mut Case) {
    c.key(c.idx);
    c.sample(|| "a secret key of every kind, dropped in memory that is looked at".into());
    schnorr_wiped::<ark_ed_on_bls12_377::EdwardsConfig>(c, "schnorr 377");
    schnorr_wiped::<ark_ed_on_bls12_381::EdwardsConfig>(c, "schnorr 381");
    schnorr_wiped::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c, "schnorr bandersnatch");
    schnorr_wiped::<ark_ed_on_bn254::EdwardsConfig>(c, "schnorr 254");
    let x = ark_bn254::Fr::rand(&mut c.rng);
    let kp = bn::KeyPair::generate_with_sign_key(x);
    after(c, "pairing 254", kp.sign_key_ref().clone(), &raw(&x));
    after(c, "pairing 254", kp, &raw(&x));
    let a = b381::BLSSignatureScheme::key_gen(&(), &mut c.rng).expect("key").0;
    let k = a.to_bytes();
    after(c, "pairing 381", a, &k);
    elgamal::<ark_ed_on_bls12_377::EdwardsConfig>(c, "elgamal 377");
    elgamal::<ark_ed_on_bls12_381::EdwardsConfig>(c, "elgamal 381");
    elgamal::<ark_ed_on_bls12_381_bandersnatch::EdwardsConfig>(c, "elgamal bandersnatch");
    elgamal::<ark_ed_on_bn254::EdwardsConfig>(c, "elgamal 254");
}
