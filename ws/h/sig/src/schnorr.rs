//! Schnorr signatures.

use crate::pack;
use ark_ec::{
    twisted_edwards::{Affine, Projective, TECurveConfig},
    AffineRepr, CurveGroup, PrimeGroup,
};
use ark_ff::{PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_crhf::CRHF;
use jf_rescue::{crhf::VariableLengthRescueCRHF, RescueParameter};
use jf_signature::{
    schnorr::{KeyPair, SchnorrSignatureScheme, SignKey, Signature, VerKey},
    SignatureScheme,
};
use num_bigint::BigUint;
use tagged_base64::TaggedBase64;
use vh::{gen, Case};

type B<P> = <P as ark_ec::CurveConfig>::BaseField;
type S<P> = <P as ark_ec::CurveConfig>::ScalarField;

/// The curves signatures are made on.
pub trait Cv: TECurveConfig<BaseField = <Self as Cv>::F> + Clone {
    type F: RescueParameter;
}
impl Cv for ark_ed_on_bls12_377::EdwardsConfig {
    type F = ark_ed_on_bls12_377::Fq;
}
impl Cv for ark_ed_on_bls12_381::EdwardsConfig {
    type F = ark_ed_on_bls12_381::Fq;
}
impl Cv for ark_ed_on_bls12_381_bandersnatch::EdwardsConfig {
    type F = ark_ed_on_bls12_381_bandersnatch::Fq;
}
impl Cv for ark_ed_on_bn254::EdwardsConfig {
    type F = ark_ed_on_bn254::Fq;
}

fn hash<P: Cv>(x: &[B<P>]) -> BigUint {
    gen::int(&VariableLengthRescueCRHF::<B<P>, 1>::evaluate(x.to_vec()).expect("hash")[0])
}

fn suite<P: Cv>(csid: &[u8]) -> B<P> {
    gen::from_int(&BigUint::from_bytes_be(csid))
}

fn challenge<P: Cv>(csid: &[u8], vk: &Affine<P>, r: &Affine<P>, msg: &[B<P>]) -> S<P> {
    let h = hash::<P>(&[&[suite::<P>(csid), vk.x, vk.y, r.x, r.y], msg].concat());
    // the lowest 248 bits
    gen::from_int(&(h % (BigUint::from(1u8) << 248)))
}

fn nonce<P: Cv>(csid: &[u8], sk: &S<P>, msg: &[B<P>]) -> S<P> {
    gen::from_int(&hash::<P>(&[&[suite::<P>(csid), gen::from_int(&gen::int(sk))], msg].concat()))
}

fn sig<P: Cv>(s: S<P>, r: Projective<P>) -> Signature<P> {
    Signature::deserialize_uncompressed_unchecked(&pack(&(s, r.into_affine()))[..]).expect("signature format")
}

fn unpack<P: Cv>(x: &Signature<P>) -> (S<P>, Affine<P>) {
    <(S<P>, Affine<P>)>::deserialize_uncompressed_unchecked(&pack(x)[..]).expect("signature format")
}

/// A point whose order divides the cofactor, other than the neutral one.
pub fn torsion<P: Cv>(c: &mut Case) -> Projective<P> {
    loop {
        let y = B::<P>::rand(&mut c.rng);
        if let Some(p) = Affine::<P>::get_point_from_y_unchecked(y, c.coin()) {
            let t = p.into_group().mul_bigint(S::<P>::MODULUS);
            // the formulas have exceptions on one of the curves
            if !t.is_zero() && !t.z.is_zero() && t.into_affine().is_on_curve() {
                return t;
            }
        }
    }
}

pub fn fingerprint<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn csid(c: &mut Case) -> Vec<u8> {
    match c.below(4) {
        0 => vec![],
        1 => jf_signature::constants::CS_ID_SCHNORR.as_bytes().to_vec(),
        _ => {
            let n = c.range(1, 70);
            gen::bytes(c, n)
        },
    }
}

fn secret<P: Cv>(c: &mut Case) -> S<P> {
    loop {
        let x = gen::field::<S<P>>(c);
        if !x.is_zero() {
            return x;
        }
    }
}

/// A signature is the one function of key, suite and message, and verifies.
pub fn sign<P: Cv>(c: &mut Case) {
    let sk = secret::<P>(c);
    let n = gen::size(c, 13, 1100);
    let msg: Vec<B<P>> = gen::fields(c, n);
    let id = csid(c);
    c.key((n, id.len()));
    c.sample(|| format!("message of {n} elements, suite of {} bytes", id.len()));
    let kp = match c.below(3) {
        0 => KeyPair::<P>::generate_with_sign_key(sk),
        1 => KeyPair::<P>::from(SignKey::from_bytes(&pack(&sk))),
        _ => {
            // the sum of two shares
            let a = if c.below(4) == 0 { sk } else { gen::field::<S<P>>(c) };
            let kp = KeyPair::<P>::generate_with_sign_key(a);
            let rest = sk - a;
            c.eq(&kp.ver_key().randomize_with(&rest), &kp.randomize_with(&rest).ver_key(), "randomize");
            kp.randomize_with(&rest)
        },
    };
    let pk = (Projective::<P>::generator() * sk).into_affine();
    c.eq(&kp.ver_key().to_affine(), &pk, "ver_key");
    c.eq(kp.sign_key_internal(), &sk, "sign_key");
    c.eq(&VerKey::from(&kp.sign_key()).to_affine(), &pk, "ver_key");
    for k in [S::<P>::zero(), S::<P>::from(1u64), -S::<P>::from(1u64), -sk, sk] {
        let x = kp.randomize_with(&k);
        let want = (Projective::<P>::generator() * (sk + k)).into_affine();
        c.eq(x.sign_key_internal(), &(sk + k), "randomized");
        c.eq(&x.ver_key().to_affine(), &want, "randomized");
        c.eq(&kp.ver_key().randomize_with(&k).to_affine(), &want, "randomized");
    }
    let got = kp.sign(&msg, &id);
    let r = nonce::<P>(&id, &sk, &msg);
    let rr = (Projective::<P>::generator() * r).into_affine();
    let want = (challenge::<P>(&id, &pk, &rr, &msg) * sk + r, rr);
    c.ev("signature");
    c.eq(&unpack(&got), &want, "signature");
    c.eq(&kp.sign(&msg, &id), &got, "deterministic");
    let v = kp.ver_key().verify(&msg, &got, &id);
    c.ev("verification");
    c.check(v.is_ok(), "true_refused", || format!("{v:?}"));
    // through the general interface
    let (sk1, vk1) = (kp.sign_key(), kp.ver_key());
    let s = SchnorrSignatureScheme::<P>::sign(&(), &sk1, &msg, &mut c.rng);
    if let Some(s) = c.ok(s, "scheme_sign") {
        c.eq(&s, &kp.sign(&msg, jf_signature::constants::CS_ID_SCHNORR), "scheme_sign");
        c.check(SchnorrSignatureScheme::<P>::verify(&(), &vk1, &msg, &s).is_ok(), "scheme_verify", || "refused".into());
    }
    let fresh = SchnorrSignatureScheme::<P>::key_gen(&(), &mut c.rng);
    if let Some((a, b)) = c.ok(fresh, "key_gen") {
        c.eq(&VerKey::from(&a), &b, "key_gen");
        c.check(b != vk1, "key_repeat", || "the same key twice".into());
    }
}

/// The verdict on any claim is that of the equation.
pub fn judge<P: Cv>(c: &mut Case) {
    let g = Projective::<P>::generator();
    let sk = secret::<P>(c);
    let n = gen::size(c, 8, 130);
    let msg: Vec<B<P>> = gen::fields(c, n);
    let id = csid(c);
    let cof = P::COFACTOR[0];
    // a key, maybe with a part of small order
    let vk = match c.below(6) {
        0 => g * sk + torsion::<P>(c),
        1 => torsion::<P>(c),
        2 => Projective::<P>::zero(),
        _ => g * sk,
    };
    let r = gen::field::<S<P>>(c);
    let rr = match c.below(4) {
        0 => g * r + torsion::<P>(c),
        1 if vk != g * sk => g * r + (vk - g * sk),
        _ => g * r,
    };
    let (vka, ra) = (vk.into_affine(), rr.into_affine());
    let ch = challenge::<P>(&id, &vka, &ra, &msg);
    let small = vk.mul_bigint([cof]).is_zero();
    let key = VerKey::<P>::from(vka);
    // the value that would be honest for the part in the group
    let s = ch * sk + r;
    let mut what = vec![("as made", msg.clone(), id.clone(), vk, rr, s)];
    let mut m2 = msg.clone();
    match c.below(4) {
        0 => m2.push(B::<P>::zero()),
        1 if n > 0 => {
            m2.pop();
        },
        2 if n > 1 => m2.swap(0, n - 1),
        _ if n > 0 => m2[c.below(n)] += B::<P>::from(1u64),
        _ => m2.push(B::<P>::from(1u64)),
    }
    what.push(("message", m2, id.clone(), vk, rr, s));
    let mut id2 = id.clone();
    match c.below(3) {
        0 => id2.push(0),
        1 => id2.insert(0, 0),
        _ => id2.push(1),
    }
    what.push(("suite", msg.clone(), id2, vk, rr, s));
    what.push(("response", msg.clone(), id.clone(), vk, rr, s + S::<P>::from(1u64)));
    what.push(("response negated", msg.clone(), id.clone(), vk, rr, -s));
    let t = torsion::<P>(c);
    what.push(("commitment", msg.clone(), id.clone(), vk, rr + t, s));
    what.push(("commitment", msg.clone(), id.clone(), vk, -rr, s));
    what.push(("key", msg.clone(), id.clone(), vk + t, rr, s));
    what.push(("key", msg.clone(), id.clone(), vk + g, rr, s));
    let (s2, r2) = (gen::field::<S<P>>(c), gen::field::<S<P>>(c));
    what.push(("all", msg.clone(), id.clone(), vk, g * r2, s2));
    c.key((small, vk == g * sk, n));
    c.sample(|| format!("key of small order {small}, honest key {}", vk == g * sk));
    for (kind, msg, id, vk, rr, s) in what {
        let (vka, ra) = (vk.into_affine(), rr.into_affine());
        let ch = challenge::<P>(&id, &vka, &ra, &msg);
        let small = vk.mul_bigint([cof]).is_zero();
        let holds = !small && g.mul_bigint(s.into_bigint()) == rr + vk.mul_bigint(ch.into_bigint());
        let got = VerKey::<P>::from(vka).verify(&msg, &sig(s, rr), &id);
        c.ev(if holds { "true claim" } else { "false claim" });
        c.check(got.is_ok() == holds, "verdict", || format!("changed {kind}: equation holds {holds}, {got:?}"));
    }
    // a forgery for a key of small order, which satisfies the equation
    let weak = if c.coin() { torsion::<P>(c) } else { Projective::zero() };
    let wa = weak.into_affine();
    let msg = msg[..n.min(8)].to_vec();
    for i in 0..200u64 {
        let s = S::<P>::from(i);
        let rr = g * s;
        let ch = challenge::<P>(&id, &wa, &rr.into_affine(), &msg);
        if weak.mul_bigint(ch.into_bigint()).is_zero() {
            c.ev("forgery with a weak key");
            let r = VerKey::<P>::from(wa).verify(&msg, &sig(s, rr), &id);
            c.check(r.is_err(), "weak_key", || "accepted".into());
            break;
        }
    }
    let _ = key;
}

/// No commitment is used for two different challenges, nor by two keys.
pub fn nonces<P: Cv>(c: &mut Case) {
    let sk = secret::<P>(c);
    let kp = KeyPair::<P>::generate_with_sign_key(sk);
    let other = KeyPair::<P>::generate_with_sign_key(sk + S::<P>::from(1u64));
    let n = gen::size(c, 8, 130).max(1);
    let base: Vec<B<P>> = gen::fields(c, n);
    let id = csid(c);
    // a family of close messages
    let mut msgs = vec![base.clone(), vec![], base[..n - 1].to_vec(), base[1..].to_vec()];
    for k in 1..5 {
        msgs.push([&base[..], &vec![B::<P>::zero(); k]].concat());
        msgs.push([&base[..], &vec![B::<P>::from(1u64); k]].concat());
    }
    let at: Vec<usize> = if n <= 8 { (0..n).collect() } else { [0, 4, 20, 40, n / 2, n - 2, n - 1].into_iter().filter(|i| *i < n).collect() };
    for i in at {
        let mut m = base.clone();
        m[i] += B::<P>::from(1u64);
        msgs.push(m);
        let mut m = base.clone();
        m.swap(i, n - 1);
        msgs.push(m);
    }
    let mut ids = vec![id.clone(), [&id[..], &[7]].concat(), [&[7][..], &id[..]].concat()];
    ids.dedup();
    let mut seen: Vec<(Affine<P>, S<P>, usize, S<P>, Vec<B<P>>)> = vec![];
    for (i, id) in ids.iter().enumerate() {
        for m in &msgs {
            for (j, k) in [&kp, &other].into_iter().enumerate() {
                if (i, j) == (1, 1) {
                    continue;
                }
                let (s, r) = unpack(&k.sign(m, id));
                let ch = challenge::<P>(id, &k.ver_key().to_affine(), &r, m);
                let secret = s - ch * k.sign_key_internal();
                c.ev("signature");
                c.check(gen::int(&secret).bits() > 160, "nonce_short", || format!("{} bits", gen::int(&secret).bits()));
                seen.push((r, ch, j, s, m.clone()));
            }
        }
    }
    c.key((n, id.len()));
    c.sample(|| format!("{} close messages and {} suites under two keys", msgs.len(), ids.len()));
    for (i, a) in seen.iter().enumerate() {
        for b in &seen[..i] {
            if a.0 == b.0 {
                c.check(a.1 == b.1 && a.2 == b.2, "nonce_reused", || format!("messages {:?} and {:?}", a.4, b.4));
            }
        }
    }
    c.ev_n("pairs of signatures", (seen.len() * (seen.len() - 1) / 2) as u64);
}

/// Keys and signatures keep their value in every encoding, and points outside
/// the group are not read.
pub fn encoded<P: Cv>(c: &mut Case) {
    let sk = gen::field::<S<P>>(c);
    let kp = KeyPair::<P>::generate_with_sign_key(sk);
    let vk = kp.ver_key();
    let msg: Vec<B<P>> = gen::fields(c, 3);
    let s = kp.sign(&msg, "x");
    c.key(c.idx % 64);
    crate::roundtrip(c, &vk);
    crate::roundtrip(c, &s);
    // as tagged text
    let t = vk.to_string();
    c.eq(&t.parse::<VerKey<P>>().ok(), &Some(vk.clone()), "ver_key_text");
    let u = s.to_string();
    c.eq(&u.parse::<Signature<P>>().ok(), &Some(s.clone()), "signature_text");
    c.check(t.parse::<Signature<P>>().is_err(), "text_kind", || "a key read as a signature".into());
    c.check(u.parse::<VerKey<P>>().is_err(), "text_kind", || "a signature read as a key".into());
    let j = serde_json::to_string(&s).unwrap_or_default();
    c.eq(&serde_json::from_str::<Signature<P>>(&j).ok(), &Some(s.clone()), "signature_json");
    let j = bincode::serialize(&vk).unwrap_or_default();
    c.eq(&bincode::deserialize::<VerKey<P>>(&j).ok(), &Some(vk.clone()), "ver_key_bincode");
    c.ev("encodings");
    // secrets
    let k = kp.sign_key();
    c.check(SignKey::from_bytes(&k.to_bytes()) == k, "sign_key_bytes", || "changed".into());
    c.check(KeyPair::<P>::from_bytes(&kp.to_bytes()) == kp, "key_pair_bytes", || "changed".into());
    if let (Ok(a), Ok(b)) = (k.to_tagged_base64(), kp.to_tagged_base64()) {
        c.check(SignKey::try_from(&a).ok() == Some(k.clone()), "sign_key_tagged", || "changed".into());
        c.check(SignKey::try_from(a.clone()).ok() == Some(k.clone()), "sign_key_tagged", || "changed".into());
        c.check(KeyPair::<P>::try_from(&b).ok() == Some(kp.clone()), "key_pair_tagged", || "changed".into());
        c.check(KeyPair::<P>::try_from(b.clone()).ok() == Some(kp.clone()), "key_pair_tagged", || "changed".into());
        c.check(SignKey::<S<P>>::try_from(&b).is_err(), "tag_mixed", || "a key pair read as a secret".into());
        c.check(SignKey::<S<P>>::try_from(b.clone()).is_err(), "tag_mixed", || "a key pair read as a secret".into());
        c.check(KeyPair::<P>::try_from(&a).is_err(), "tag_mixed", || "a secret read as a key pair".into());
        c.check(KeyPair::<P>::try_from(a.clone()).is_err(), "tag_mixed", || "a secret read as a key pair".into());
        // the text itself
        let x = TaggedBase64::parse(&a.to_string()).ok();
        c.check(x.and_then(|x| SignKey::try_from(x).ok()) == Some(k), "sign_key_tagged", || "changed as text".into());
    } else {
        c.fail("tagged", "no tagged form");
    }
    // bytes of any length are the number they spell
    let n = c.below(100);
    let b = gen::bytes(c, n);
    let want = gen::from_int::<S<P>>(&BigUint::from_bytes_le(&b));
    let got = KeyPair::<P>::from(SignKey::from_bytes(&b));
    c.eq(got.sign_key_internal(), &want, "sign_key_number");
    c.eq(KeyPair::<P>::from_bytes(&b).sign_key_internal(), &want, "key_pair_number");
    // equal means the same point, however it came about
    let p = vk.to_affine();
    let near = [p, -p, Affine::<P>::new_unchecked(p.x, -p.y), (p + p).into_affine(), Affine::zero()];
    let again = (Projective::<P>::generator() * (sk + S::<P>::from(1u64))) - Projective::<P>::generator();
    for q in near.into_iter().chain([again.into_affine()]) {
        let o = VerKey::<P>::from(q);
        c.check((o == vk) == (q == p), "ver_key_equality", || format!("{p:?} and {q:?}"));
        c.check(q != p || fingerprint(&o) == fingerprint(&vk), "ver_key_hash", || "depends on coordinates".into());
        let o = sig::<P>(unpack(&s).0, q.into_group());
        c.check((o == s) == (q == unpack(&s).1), "signature_equality", || format!("{q:?}"));
    }
    let (a, r) = unpack(&s);
    let o = sig::<P>(a, -r.into_group());
    c.check((o == s) == (-r == r), "signature_equality", || "negated point".into());
    let o = sig::<P>(-a, r.into_group());
    c.check((o == s) == (-a == a), "signature_equality", || "negated number".into());
    // what is no element of the group
    let bad = (kp.ver_key().internal().to_owned() + torsion::<P>(c)).into_affine();
    let mut b = vec![];
    if bad.serialize_compressed(&mut b).is_ok() {
        c.check(VerKey::<P>::deserialize_compressed(&b[..]).is_err(), "outside_group", || "key read".into());
        let tb = TaggedBase64::new("SCHNORR_VER_KEY", &b).map(|t| t.to_string()).unwrap_or_default();
        c.check(tb.parse::<VerKey<P>>().is_err(), "outside_group", || "key read as text".into());
        c.ev("point outside the group");
    }
    let b = pack(&(sk, bad));
    c.check(Signature::<P>::deserialize_uncompressed(&b[..]).is_err(), "outside_group", || "signature read".into());
    // damage
    let mut b = vec![];
    let _ = s.serialize_compressed(&mut b);
    gen::flip(c, &mut b);
    let r = c.no_panic("panic", || Signature::<P>::deserialize_compressed(&b[..]).ok());
    if let Some(Some(x)) = r {
        c.check(x != s, "damage_ignored", || "the same signature".into());
        c.check(vk.verify(&msg, &x, "x").is_err(), "damaged_accepted", || "accepted".into());
    }
    c.ev("damaged signature");
}

/// Every length of message and suite in turn.
pub fn every_length<P: Cv>(c: &mut Case) {
    let n = c.idx as usize / 4;
    let sk = secret::<P>(c);
    let kp = KeyPair::<P>::generate_with_sign_key(sk);
    let pk = kp.ver_key().to_affine();
    let (ms, is) = if c.coin() { (n, c.below(40)) } else { (c.below(12), n) };
    let msg: Vec<B<P>> = gen::fields(c, ms);
    let id = gen::bytes(c, is);
    c.key((ms, is));
    c.sample(|| format!("message of {ms} elements, suite of {is} bytes"));
    let got = kp.sign(&msg, &id);
    let r = nonce::<P>(&id, &sk, &msg);
    let rr = (Projective::<P>::generator() * r).into_affine();
    let want = (challenge::<P>(&id, &pk, &rr, &msg) * sk + r, rr);
    c.ev("signature");
    c.eq(&unpack(&got), &want, "signature");
    c.check(kp.ver_key().verify(&msg, &got, &id).is_ok(), "true_refused", || "verify".into());
    if ms > 0 {
        let mut m = msg;
        let i = c.below(ms);
        m[i] += B::<P>::from(1u64);
        c.check(kp.ver_key().verify(&m, &got, &id).is_err(), "false_accepted", || format!("element {i} of {ms}"));
    }
}
