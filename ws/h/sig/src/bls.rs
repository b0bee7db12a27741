//! Signatures by pairing on two curves, and the random function on top of one.

use crate::{roundtrip, schnorr::fingerprint};
use ark_bls12_381 as b381;
use ark_bn254::{Fq, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{
    field_hashers::{DefaultFieldHasher, HashToField},
    BigInteger, Field, One, PrimeField, UniformRand, Zero,
};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use jf_signature::{
    bls_over_bls12381::{BLSSignKey, BLSSignature, BLSSignatureScheme, BLSVerKey},
    bls_over_bn254::{hash_to_curve, BLSOverBN254CurveSignatureScheme as Scheme, KeyPair, SignKey, Signature, VerKey},
    constants::{CS_ID_BLS_BN254, CS_ID_BLS_MIN_SIG},
    AggregateableSignatureSchemes, SignatureScheme,
};
use jf_vrf::{
    blsvrf::{BLSVRFCipherSuite, BLSVRFScheme},
    Vrf,
};
use sha2::Digest;
use sha3::Keccak256;
use tagged_base64::TaggedBase64;
use vh::{gen, Case};

/// The point a byte string stands for: the first abscissa on the curve from
/// the hash on, with the smaller ordinate.
fn onto(msg: &[u8]) -> G1Affine {
    let h = <DefaultFieldHasher<Keccak256> as HashToField<Fq>>::new(&[1u8]);
    let mut x: Fq = h.hash_to_field::<1>(msg)[0];
    loop {
        if let Some((a, b)) = G1Affine::get_ys_from_x_unchecked(x) {
            let y = if a.into_bigint() < b.into_bigint() { a } else { b };
            return G1Affine::new_unchecked(x, y);
        }
        x += Fq::one();
    }
}

fn secret(c: &mut Case) -> Fr {
    loop {
        let x = gen::field::<Fr>(c);
        if !x.is_zero() {
            return x;
        }
    }
}

fn message(c: &mut Case) -> Vec<u8> {
    let n = gen::size(c, 300, 70000);
    gen::bytes(c, n)
}

fn csid(c: &mut Case) -> Vec<u8> {
    match c.below(3) {
        0 => vec![],
        1 => CS_ID_BLS_BN254.as_bytes().to_vec(),
        _ => {
            let n = c.range(1, 60);
            gen::bytes(c, n)
        },
    }
}

fn off_curve() -> G1Projective {
    G1Affine::new_unchecked(Fq::from(5u64), Fq::from(7u64)).into()
}

/// Keys made directly from a point that need not be in the group.
fn raw_key(p: G2Affine) -> VerKey {
    VerKey::deserialize_uncompressed_unchecked(&crate::pack(&p)[..]).expect("key format")
}

fn outside(c: &mut Case) -> G2Affine {
    loop {
        let x = ark_bn254::Fq2::rand(&mut c.rng);
        if let Some(p) = G2Affine::get_point_from_x_unchecked(x, c.coin()) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
    }
}

/// A point times the order of the group, by the group law alone (faster ways
/// only work inside the group).
fn times<G: PrimeGroup>(p: G) -> G {
    let mut r = G::zero();
    for b in G::ScalarField::characteristic().iter().rev().flat_map(|w| (0..64).rev().map(move |i| w >> i & 1)) {
        r.double_in_place();
        if b == 1 {
            r += p;
        }
    }
    assert!(!r.is_zero());
    r
}

pub fn onto_curve(c: &mut Case) {
    let m = message(c);
    let want = onto(&m);
    let got = hash_to_curve::<Keccak256>(&m);
    c.ev("hash to the curve");
    c.key(m.len());
    c.sample(|| format!("{} bytes", m.len()));
    c.eq(&got.into_affine(), &want, "hash_to_curve");
    // what the choice of ordinate means
    let y = gen::int(&got.into_affine().y);
    c.check(y.clone() + y < gen::modulus::<Fq>(), "ordinate", || "the larger one".into());
    let mut m2 = m.clone();
    match c.below(3) {
        0 => m2.push(0),
        1 => m2.insert(0, 0),
        _ => m2.push(0x80),
    }
    c.check(hash_to_curve::<Keccak256>(&m2) != got, "hash_collides", || format!("{m:?}"));
    // with another hash
    let h = <DefaultFieldHasher<sha2::Sha256> as HashToField<Fq>>::new(&[1u8]);
    let mut x: Fq = h.hash_to_field::<1>(&m)[0];
    while (x * x * x + Fq::from(3u64)).legendre().is_qnr() {
        x += Fq::one();
    }
    c.eq(&hash_to_curve::<sha2::Sha256>(&m).into_affine().x, &x, "hash_to_curve");
}

pub fn single(c: &mut Case) {
    let sk = secret(c);
    let msg = message(c);
    let id = csid(c);
    let kp = KeyPair::generate_with_sign_key(sk);
    c.key((msg.len(), id.len()));
    c.sample(|| format!("message of {} bytes, suite of {}", msg.len(), id.len()));
    c.eq(&kp.ver_key().to_affine(), &(G2Projective::generator() * sk).into_affine(), "ver_key");
    let h = onto(&[&msg[..], &id[..]].concat());
    let s = kp.sign(&msg, &id);
    c.eq(&s.sigma, &(h * sk), "signature");
    let vk = kp.ver_key();
    c.ev("signature");
    c.check(vk.verify(&msg, &s, &id).is_ok(), "true_refused", || "verify".into());
    c.check(vk.verify_unchecked(&msg, &s, &id).is_ok(), "true_refused", || "verify_unchecked".into());
    // altered
    let other = KeyPair::generate(&mut c.rng);
    let mut m2 = msg.clone();
    match c.below(3) {
        0 if !m2.is_empty() => gen::flip(c, &mut m2),
        1 if !m2.is_empty() => {
            m2.pop();
        },
        _ => m2.push(0),
    }
    let mut id2 = id.clone();
    id2.push(0);
    let one = G1Projective::generator();
    let cases: Vec<(&str, VerKey, Vec<u8>, Vec<u8>, G1Projective)> = vec![
        ("message", vk, m2.clone(), id.clone(), s.sigma),
        ("suite", vk, msg.clone(), id2, s.sigma),
        ("key", other.ver_key(), msg.clone(), id.clone(), s.sigma),
        ("signature", vk, msg.clone(), id.clone(), s.sigma + one),
        ("signature", vk, msg.clone(), id.clone(), -s.sigma),
        ("signature", vk, msg.clone(), id.clone(), G1Projective::zero()),
        ("signature", vk, msg.clone(), id.clone(), onto(&m2) * sk),
        ("signature of another", vk, msg.clone(), id.clone(), other.sign(&msg, &id).sigma),
        ("signature off the curve", vk, msg.clone(), id.clone(), off_curve()),
        ("signature off the curve", vk, msg.clone(), id.clone(), {
            let a = s.sigma.into_affine();
            G1Affine::new_unchecked(a.x, a.y + Fq::one()).into()
        }),
    ];
    for (what, vk, m, id, sigma) in cases {
        let on = sigma.into_affine().is_on_curve();
        c.ev("false claim");
        let g = Signature { sigma };
        c.check(vk.verify(&m, &g, &id).is_err(), "false_accepted", || what.into());
        if on {
            c.check(vk.verify_unchecked(&m, &g, &id).is_err(), "false_accepted", || format!("{what}, unchecked"));
        }
    }
    // the general interface
    let k = kp.sign_key_ref();
    let g = Scheme::sign(&(), k, &msg, &mut c.rng);
    if let Some(g) = c.ok(g, "scheme") {
        c.eq(&g, &kp.sign(&msg, CS_ID_BLS_BN254), "scheme");
        c.check(Scheme::verify(&(), &vk, &msg, &g).is_ok(), "true_refused", || "scheme".into());
        c.check(Scheme::verify(&(), &vk, &m2, &g).is_err(), "false_accepted", || "scheme".into());
        c.check(Scheme::verify(&(), &other.ver_key(), &msg, &g).is_err(), "false_accepted", || "scheme".into());
    }
    let r = Scheme::key_gen(&(), &mut c.rng);
    if let Some((a, b)) = c.ok(r, "key_gen") {
        c.eq(&VerKey::from(&a), &b, "key_gen");
        c.check(b != vk, "key_repeat", || "the same key twice".into());
    }
}

/// The verdict on signatures of several keys together.
pub fn group(c: &mut Case) {
    let n = c.range(1, 5);
    let kps: Vec<KeyPair> = (0..n)
        .map(|_| {
            let k = secret(c);
            KeyPair::generate_with_sign_key(k)
        })
        .collect();
    let vks: Vec<VerKey> = kps.iter().map(|k| k.ver_key()).collect();
    let common = message(c);
    let mut msgs: Vec<Vec<u8>> = (0..n).map(|_| message(c)).collect();
    if n > 1 && c.coin() {
        msgs[1] = msgs[0].clone();
    }
    c.key((n, msgs.iter().map(|m| m.len()).collect::<Vec<_>>()));
    c.sample(|| format!("{n} keys"));
    let h = |m: &[u8]| onto(&[m, CS_ID_BLS_BN254.as_bytes()].concat());
    // one signature for each
    let sigs: Vec<Signature> =
        kps.iter().zip(&msgs).map(|(k, m)| Scheme::sign(&(), k.sign_key_ref(), m, &mut c.rng).expect("sign")).collect();
    let multi: Vec<Signature> = kps
        .iter()
        .map(|k| Scheme::sign(&(), k.sign_key_ref(), &common, &mut c.rng).expect("sign"))
        .collect();
    let agg = Scheme::aggregate(&(), &vks, &sigs).ok();
    let sum: G1Projective = kps.iter().zip(&msgs).map(|(k, m)| h(m) * k.sign_key_internal()).sum();
    c.eq(&agg.as_ref().map(|s| s.sigma), &Some(sum), "aggregate");
    let magg = Scheme::aggregate(&(), &vks, &multi).ok();
    let total: Fr = kps.iter().map(|k| *k.sign_key_internal()).sum();
    c.eq(&magg.map(|s| s.sigma), &Some(h(&common) * total), "aggregate");
    c.check(Scheme::aggregate(&(), &[], &[]).is_err(), "aggregate_none", || "accepted".into());
    c.ev("aggregate");
    // keys with their secrets, messages, claimed signature
    let all: Vec<(Fr, VerKey, Vec<u8>)> =
        kps.iter().zip(&msgs).map(|(k, m)| (*k.sign_key_internal(), k.ver_key(), m.clone())).collect();
    let mut claims = vec![("as made", all.clone(), sum)];
    let i = c.below(n);
    let mut x = all.clone();
    x.reverse();
    claims.push(("order of all", x, sum));
    let mut x = all.clone();
    x.swap(0, n - 1);
    let (a, b) = (x[0].2.clone(), x[n - 1].2.clone());
    x[0].2 = b;
    x[n - 1].2 = a;
    claims.push(("messages of two swapped", x, sum));
    let mut x = all.clone();
    x.remove(i);
    claims.push(("one missing", x, sum));
    let mut x = all.clone();
    x.push(all[i].clone());
    claims.push(("one twice", x.clone(), sum));
    claims.push(("one twice, signature too", x, sum + sigs[i].sigma));
    let mut x = all.clone();
    x[i].2.push(0);
    claims.push(("a message", x, sum));
    let mut x = all.clone();
    let k = secret(c);
    x[i].0 = k;
    x[i].1 = KeyPair::generate_with_sign_key(k).ver_key();
    claims.push(("a key", x, sum));
    claims.push(("signature", all.clone(), sum + G1Projective::generator()));
    claims.push(("signature", all.clone(), -sum));
    claims.push(("signature", all.clone(), G1Projective::zero()));
    claims.push(("signature", all.clone(), sum - sigs[i].sigma));
    claims.push(("signature", all.clone(), sum.double_()));
    for (what, all, sigma) in claims {
        let vks: Vec<VerKey> = all.iter().map(|a| a.1).collect();
        let ms: Vec<Vec<u8>> = all.iter().map(|a| a.2.clone()).collect();
        let holds = !all.is_empty() && sigma == all.iter().map(|a| h(&a.2) * a.0).sum::<G1Projective>();
        let s = Signature { sigma };
        c.ev(if holds { "true claim" } else { "false claim" });
        let r = Scheme::aggregate_verify(&(), &vks, &ms, &s);
        c.check(r.is_ok() == holds, "aggregate_verdict", || format!("{n} keys, changed {what}: holds {holds}, {r:?}"));
        let r = Scheme::aggregate_verify_unchecked(&vks, &ms, &s);
        c.check(r.is_ok() == holds, "aggregate_verdict", || format!("{n} keys, changed {what}: unchecked {r:?}"));
    }
    // one message, and the list of keys altered
    let msum = h(&common) * total;
    let some: Vec<(Fr, VerKey)> = kps.iter().map(|k| (*k.sign_key_internal(), k.ver_key())).collect();
    let mut lists = vec![("as made", some.clone())];
    let mut x = some.clone();
    x.reverse();
    lists.push(("order", x));
    let mut x = some.clone();
    x.remove(i);
    lists.push(("one missing", x));
    let mut x = some.clone();
    x.push(some[i]);
    lists.push(("one twice", x));
    let mut x = some.clone();
    x[i] = (k, KeyPair::generate_with_sign_key(k).ver_key());
    lists.push(("another key", x));
    let two = kps.iter().chain([&kps[i]]).map(|k| *k.sign_key_internal()).sum::<Fr>();
    let mut m2 = common.clone();
    m2.push(1);
    for (what, list) in lists {
        for (m, sigma) in [
            (&common, msum),
            (&common, h(&common) * two),
            (&common, msum + G1Projective::generator()),
            (&common, G1Projective::zero()),
            (&m2, msum),
        ] {
            let vks: Vec<VerKey> = list.iter().map(|x| x.1).collect();
            let t: Fr = list.iter().map(|x| x.0).sum();
            let holds = !list.is_empty() && h(m) * t == sigma;
            c.ev(if holds { "true claim" } else { "false claim" });
            let s = Signature { sigma };
            let r = Scheme::multi_sig_verify(&(), &vks, m, &s);
            c.check(r.is_ok() == holds, "multi_verdict", || format!("{n} keys, {what}: holds {holds}, {r:?}"));
            let r = Scheme::multi_sig_verify_unchecked(&vks, m, &s);
            c.check(r.is_ok() == holds, "multi_verdict", || format!("{n} keys, {what}: unchecked {r:?}"));
        }
    }
    // lists that do not fit, keys and signatures outside the groups
    let good = Signature { sigma: sum };
    let bad_len = c.coin();
    let ms = if bad_len { &msgs[..n - 1] } else { &[&msgs[..], &[vec![]]].concat()[..] };
    let r = c.no_panic("panic", || Scheme::aggregate_verify(&(), &vks, ms, &good));
    c.check(matches!(r, Some(Err(_))), "length", || format!("{n} keys, {} messages: {r:?}", ms.len()));
    let r = c.no_panic("panic", || Scheme::aggregate_verify_unchecked(&vks, ms, &good));
    c.check(matches!(r, Some(Err(_))), "length", || format!("{n} keys, {} messages: {r:?}", ms.len()));
    let none: &[VerKey] = &[];
    let no: &[Vec<u8>] = &[];
    let zero = Signature { sigma: G1Projective::zero() };
    for s in [&good, &zero] {
        c.check(Scheme::aggregate_verify(&(), none, no, s).is_err(), "nobody", || "aggregate".into());
        c.check(Scheme::aggregate_verify_unchecked(none, no, s).is_err(), "nobody", || "aggregate".into());
        c.check(Scheme::multi_sig_verify(&(), none, &common, s).is_err(), "nobody", || "multi".into());
        c.check(Scheme::multi_sig_verify_unchecked(none, &common, s).is_err(), "nobody", || "multi".into());
    }
    let mut bad = vks.clone();
    bad[i] = match c.below(3) {
        0 => raw_key(outside(c)),
        1 => {
            // a true key with a part outside the group
            let t = times(outside(c).into_group());
            raw_key((bad[i].internal() + t).into_affine())
        },
        _ => {
            let p = bad[i].to_affine();
            raw_key(G2Affine::new_unchecked(p.x, p.y + ark_bn254::Fq2::one()))
        },
    };
    c.ev("key outside the group");
    let r = c.no_panic("panic", || Scheme::aggregate_verify(&(), &bad, &msgs, &good));
    c.check(matches!(r, Some(Err(_))), "outside_group", || format!("aggregate: {r:?}"));
    let r = c.no_panic("panic", || Scheme::multi_sig_verify(&(), &bad, &common, &Signature { sigma: msum }));
    c.check(matches!(r, Some(Err(_))), "outside_group", || format!("multi: {r:?}"));
    let off = Signature { sigma: off_curve() };
    let r = c.no_panic("panic", || Scheme::aggregate_verify(&(), &vks, &msgs, &off));
    c.check(matches!(r, Some(Err(_))), "off_curve", || format!("aggregate: {r:?}"));
    let r = c.no_panic("panic", || Scheme::multi_sig_verify(&(), &vks, &common, &off));
    c.check(matches!(r, Some(Err(_))), "off_curve", || format!("multi: {r:?}"));
}

/// Many keys, some of them more than once, on messages that repeat.
pub fn crowd(c: &mut Case) {
    let n = match c.idx % 8 {
        0 => 2,
        1 => c.range(3, 40),
        2 => 256 + c.below(50),
        _ => c.range(40, 140),
    };
    let mut ks: Vec<Fr> = vec![];
    let mut msgs: Vec<Vec<u8>> = vec![];
    for i in 0..n {
        // the one before again: both signatures are the same
        let twice = i > 0 && (i == 1 && c.coin() || c.below(8) == 0);
        let (k, m) = if twice { (ks[i - 1], msgs[i - 1].clone()) } else { (secret(c), { let n = c.below(80); gen::bytes(c, n) }) };
        ks.push(k);
        msgs.push(if i > 0 && c.below(8) == 0 { msgs[i - 1].clone() } else { m });
    }
    let vks: Vec<VerKey> = ks.iter().map(|k| KeyPair::generate_with_sign_key(*k).ver_key()).collect();
    let hs: Vec<G1Affine> = msgs.iter().map(|m| onto(&[&m[..], CS_ID_BLS_BN254.as_bytes()].concat())).collect();
    let sigs: Vec<Signature> = ks.iter().zip(&hs).map(|(k, h)| Signature { sigma: *h * k }).collect();
    let sum: G1Projective = sigs.iter().map(|s| s.sigma).sum();
    c.key(n);
    c.sample(|| format!("{n} keys"));
    c.eq(&Scheme::aggregate(&(), &vks, &sigs).ok().map(|s| s.sigma), &Some(sum), "aggregate");
    c.ev("aggregate");
    let good = Signature { sigma: sum };
    c.check(Scheme::aggregate_verify(&(), &vks, &msgs, &good).is_ok(), "aggregate_refused", || format!("{n} keys"));
    let i = if c.coin() { n - 1 } else { c.below(n) };
    let mut m = msgs.clone();
    m[i].push(1);
    c.check(Scheme::aggregate_verify(&(), &vks, &m, &good).is_err(), "aggregate_accepted", || format!("message {i} of {n}"));
    let mut v = vks.clone();
    v[i] = KeyPair::generate(&mut c.rng).ver_key();
    c.check(Scheme::aggregate_verify(&(), &v, &msgs, &good).is_err(), "aggregate_accepted", || format!("key {i} of {n}"));
    let less = Signature { sigma: sum - sigs[i].sigma };
    c.check(sigs[i].sigma.is_zero() || Scheme::aggregate_verify(&(), &vks, &msgs, &less).is_err(), "aggregate_accepted", || format!("without {i} of {n}"));
    let total: Fr = ks.iter().sum();
    let one = Signature { sigma: hs[0] * total };
    let m0 = &msgs[0];
    c.ev("one message");
    c.check(Scheme::multi_sig_verify(&(), &vks, m0, &one).is_ok(), "multi_refused", || format!("{n} keys"));
    c.check(Scheme::multi_sig_verify(&(), &v, m0, &one).is_err(), "multi_accepted", || format!("key {i} of {n}"));
    let mut v = vks.clone();
    v.remove(i);
    c.check(Scheme::multi_sig_verify(&(), &v, m0, &one).is_err(), "multi_accepted", || format!("without {i} of {n}"));
    v.push(vks[i]);
    c.check(Scheme::multi_sig_verify(&(), &v, m0, &one).is_ok(), "multi_refused", || format!("{n} keys, order"));
    let mut v = vks;
    v[i] = raw_key(outside(c));
    c.ev("key outside the group");
    c.check(Scheme::aggregate_verify(&(), &v, &msgs, &good).is_err(), "outside_group", || format!("key {i} of {n}"));
    let s = Scheme::multi_sig_verify(&(), &v, m0, &one);
    c.check(s.is_err(), "outside_group", || format!("key {i} of {n}"));
    // keys that cancel each other outside the group
    if n > 1 {
        let t = times(outside(c).into_group());
        let j = (i + 1) % n;
        let (a, b) = (KeyPair::generate_with_sign_key(ks[i]).ver_key(), KeyPair::generate_with_sign_key(ks[j]).ver_key());
        v[i] = raw_key((a.internal() + t).into_affine());
        v[j] = raw_key((b.internal() - t).into_affine());
        let s = Scheme::multi_sig_verify(&(), &v, m0, &one);
        c.check(s.is_err(), "outside_group", || format!("keys {i} and {j} of {n} cancel"));
    }
}

/// Every length of message in turn, in each way of verifying.
pub fn every_length(c: &mut Case) {
    let n = c.idx as usize;
    let (k, k2) = (secret(c), secret(c));
    let (a, b) = (KeyPair::generate_with_sign_key(k), KeyPair::generate_with_sign_key(k2));
    let msg = gen::bytes(c, n);
    let h = onto(&[&msg[..], CS_ID_BLS_BN254.as_bytes()].concat());
    c.key(n);
    c.sample(|| format!("message of {n} bytes"));
    let s = Scheme::sign(&(), a.sign_key_ref(), &msg, &mut c.rng);
    c.eq(&s.ok().map(|s| s.sigma), &Some(h * k), "signature");
    c.ev("signature");
    let one = Signature { sigma: h * k };
    let two = Signature { sigma: h * (k + k2) };
    let (va, vb) = (a.ver_key(), b.ver_key());
    let ms = [msg.clone(), msg.clone()];
    c.check(Scheme::verify(&(), &va, &msg, &one).is_ok(), "true_refused", || format!("{n} bytes"));
    c.check(Scheme::aggregate_verify(&(), &[va, vb], &ms, &two).is_ok(), "true_refused", || format!("{n} bytes, aggregate"));
    c.check(Scheme::multi_sig_verify(&(), &[va, vb], &msg, &two).is_ok(), "true_refused", || format!("{n} bytes, multi"));
    // suites
    let id = gen::bytes(c, n);
    let h = onto(&[&msg[..n.min(9)], &id[..]].concat());
    c.eq(&a.sign(&msg[..n.min(9)], &id).sigma, &(h * k), "signature");
    c.check(va.verify(&msg[..n.min(9)], &Signature { sigma: h * k }, &id).is_ok(), "true_refused", || format!("suite of {n} bytes"));
    // the other curve
    let x = secret_381(c);
    let (sk, vk) = pair_381(x);
    let s = BLSSignatureScheme::sign(&(), &sk, &msg, &mut c.rng);
    let Some(s) = c.ok(s, "sign") else { return };
    c.eq(&point_381(&s), &(onto_381(&msg) * x).into_affine(), "signature");
    c.check(BLSSignatureScheme::verify(&(), &vk, &msg, &s).is_ok(), "true_refused", || format!("{n} bytes, second curve"));
}

/// Every length of input in turn.
pub fn vrf_every_length(c: &mut Case) {
    let n = c.idx as usize;
    let m = gen::bytes(c, n);
    let x = secret_381(c);
    let (sk, vk) = pair_381(x);
    let p = (onto_381(&m) * x).into_affine();
    c.key(n);
    c.sample(|| format!("input of {n} bytes"));
    for (suite, long) in [(BLSVRFCipherSuite::VRF_BLS_12_381_SHA256, false), (BLSVRFCipherSuite::VRF_BLS_12_381_SHA512, true)] {
        let mut v = BLSVRFScheme::new(suite);
        let want = output(&p, long);
        c.ev("call");
        let o = v.evaluate(&(), &sk, &m, &mut c.rng).ok();
        c.eq(&o, &Some(want.clone()), "output");
        c.eq(&v.verify(&(), &sig_381(&p), &vk, &m).ok(), &Some((true, Some(want))), "verified");
        let q = (p + G1::generator()).into_affine();
        c.eq(&v.verify(&(), &sig_381(&q), &vk, &m).ok(), &Some((false, None)), "refused");
    }
}

trait Dbl {
    fn double_(&self) -> Self;
}
impl Dbl for G1Projective {
    fn double_(&self) -> Self {
        *self + *self
    }
}

pub fn written(c: &mut Case) {
    let sk = gen::field::<Fr>(c);
    let kp = KeyPair::generate_with_sign_key(sk);
    let vk = kp.ver_key();
    let msg = message(c);
    let s = kp.sign(&msg, "x");
    c.key(c.idx);
    roundtrip(c, &vk);
    roundtrip(c, &s);
    let (t, u) = (vk.to_string(), s.to_string());
    c.eq(&t.parse::<VerKey>().ok(), &Some(vk), "ver_key_text");
    c.eq(&u.parse::<Signature>().ok(), &Some(s.clone()), "signature_text");
    c.check(t.parse::<Signature>().is_err() && u.parse::<VerKey>().is_err(), "text_kind", || "mixed up".into());
    let j = serde_json::to_string(&(vk, &s)).unwrap_or_default();
    c.eq(&serde_json::from_str::<(VerKey, Signature)>(&j).ok(), &Some((vk, s.clone())), "json");
    let j = bincode::serialize(&(vk, &s)).unwrap_or_default();
    c.eq(&bincode::deserialize::<(VerKey, Signature)>(&j).ok(), &Some((vk, s.clone())), "bincode");
    let k = kp.sign_key_ref().clone();
    c.check(SignKey::from_bytes(&k.to_bytes()) == k, "sign_key_bytes", || "changed".into());
    c.check(KeyPair::from_bytes(&kp.to_bytes()) == kp, "key_pair_bytes", || "changed".into());
    c.check(KeyPair::from(k.clone()) == kp, "key_pair", || "from the secret".into());
    if let (Ok(a), Ok(b)) = (k.to_tagged_base64(), kp.to_tagged_base64()) {
        c.check(SignKey::try_from(&a).ok() == Some(k.clone()), "sign_key_tagged", || "changed".into());
        c.check(SignKey::try_from(a.clone()).ok() == Some(k), "sign_key_tagged", || "changed".into());
        c.check(KeyPair::try_from(&b).ok() == Some(kp.clone()), "key_pair_tagged", || "changed".into());
        c.check(KeyPair::try_from(b.clone()).ok() == Some(kp.clone()), "key_pair_tagged", || "changed".into());
        c.check(SignKey::try_from(&b).is_err() && SignKey::try_from(b).is_err(), "tag_mixed", || "pair as secret".into());
        c.check(KeyPair::try_from(&a).is_err() && KeyPair::try_from(a).is_err(), "tag_mixed", || "secret as pair".into());
    } else {
        c.fail("tagged", "no tagged form");
    }
    c.ev("encodings");
    // equality does not depend on the coordinates a point is held in
    let z = Fq::rand(&mut c.rng);
    let p = s.sigma;
    let q = G1Projective::new_unchecked(p.x * z * z, p.y * z * z * z, p.z * z);
    let s2 = Signature { sigma: q };
    c.check(s2 == s && fingerprint(&s2) == fingerprint(&s), "coordinates", || "not the same signature".into());
    // the order of keys
    let o = KeyPair::generate(&mut c.rng).ver_key();
    let o2 = KeyPair::generate(&mut c.rng).ver_key();
    let mut v = [vk, o, o2];
    v.sort();
    c.check(v[0] <= v[1] && v[1] <= v[2] && v[0] <= v[2], "order", || "not sorted".into());
    c.check((vk.cmp(&o) == std::cmp::Ordering::Equal) == (vk == o), "order", || "equal but different".into());
    c.check(vk.cmp(&o) == o.cmp(&vk).reverse(), "order", || "not antisymmetric".into());
    let p = vk.to_affine();
    for q in [-p, (p + p).into_affine(), G2Affine::zero(), p] {
        let o = raw_key(q);
        c.check((o == vk) == (q == p), "ver_key_equality", || format!("{p:?} and {q:?}"));
        c.check((vk.cmp(&o) == std::cmp::Ordering::Equal) == (q == p), "order", || format!("{p:?} and {q:?}"));
        c.check(vk.cmp(&o) == o.cmp(&vk).reverse(), "order", || "not antisymmetric".into());
    }
    let o = Signature { sigma: -s.sigma };
    c.check((o == s) == s.sigma.is_zero(), "signature_equality", || "negated".into());
    // bytes of any length are the number they spell
    let n = c.below(100);
    let b = gen::bytes(c, n);
    let want = gen::from_int::<Fr>(&num_bigint::BigUint::from_bytes_le(&b));
    c.eq(KeyPair::from(SignKey::from_bytes(&b)).sign_key_internal(), &want, "sign_key_number");
    c.eq(KeyPair::from_bytes(&b).sign_key_internal(), &want, "key_pair_number");
    let v2 = raw_key(vk.to_affine());
    c.check(vk.cmp(&v2) == std::cmp::Ordering::Equal && vk == v2, "order", || "depends on coordinates".into());
    // what is outside is not read
    let bad = outside(c);
    let b = crate::pack(&bad);
    c.check(VerKey::deserialize_uncompressed(&b[..]).is_err(), "outside_group", || "read".into());
    let mut b = vec![];
    bad.serialize_compressed(&mut b).expect("write");
    c.check(VerKey::deserialize_compressed(&b[..]).is_err(), "outside_group", || "read, compressed".into());
    if let Ok(t) = TaggedBase64::new(&t[..t.find('~').unwrap_or(0)], &b) {
        c.check(t.to_string().parse::<VerKey>().is_err(), "outside_group", || "read as text".into());
        c.check(VerKey::try_from(&t).is_err(), "outside_group", || "read as tagged".into());
    }
    let b = crate::pack(&off_curve().into_affine());
    c.check(Signature::deserialize_uncompressed(&b[..]).is_err(), "outside_group", || "signature read".into());
    c.ev("point outside the group");
}

// ---- the second curve ----

type G1 = b381::G1Affine;
type G2 = b381::G2Affine;

fn framed(b: &[u8]) -> Vec<u8> {
    [&(b.len() as u64).to_le_bytes()[..], b].concat()
}

fn key_381(p: &G2) -> BLSVerKey {
    BLSVerKey::deserialize_uncompressed_unchecked(&framed(&crate::pack(p))[..]).expect("key format")
}

fn sig_381(p: &G1) -> BLSSignature {
    BLSSignature::deserialize_uncompressed_unchecked(&framed(&crate::pack(p))[..]).expect("signature format")
}

fn point_381(s: &BLSSignature) -> G1 {
    G1::deserialize_uncompressed_unchecked(&s.serialize()[..]).expect("signature format")
}

fn outside_g1(c: &mut Case) -> G1 {
    loop {
        let x = b381::Fq::rand(&mut c.rng);
        if let Some(p) = G1::get_point_from_x_unchecked(x, c.coin()) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
    }
}

fn outside_g2(c: &mut Case) -> G2 {
    loop {
        let x = b381::Fq2::rand(&mut c.rng);
        if let Some(p) = G2::get_point_from_x_unchecked(x, c.coin()) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
    }
}

fn secret_381(c: &mut Case) -> b381::Fr {
    loop {
        let x = gen::field::<b381::Fr>(c);
        if !x.is_zero() {
            return x;
        }
    }
}

fn pair_381(sk: b381::Fr) -> (BLSSignKey, BLSVerKey) {
    let b: [u8; 32] = sk.into_bigint().to_bytes_be().try_into().expect("32 bytes");
    let k = BLSSignKey::from_bytes(&b).expect("a valid secret");
    (k, key_381(&(G2::generator() * sk).into_affine()))
}

fn onto_381(m: &[u8]) -> G1 {
    blst::hash_to_g1(m, CS_ID_BLS_MIN_SIG.as_bytes())
}

pub fn single_381(c: &mut Case) {
    let x = secret_381(c);
    let (sk, vk) = pair_381(x);
    let msg = message(c);
    c.key(msg.len());
    c.sample(|| format!("message of {} bytes", msg.len()));
    let s = BLSSignatureScheme::sign(&(), &sk, &msg, &mut c.rng);
    let Some(s) = c.ok(s, "sign") else { return };
    let want = (onto_381(&msg) * x).into_affine();
    c.eq(&point_381(&s), &want, "signature");
    c.ev("signature");
    c.check(BLSSignatureScheme::verify(&(), &vk, &msg, &s).is_ok(), "true_refused", || "verify".into());
    let y = secret_381(c);
    let (osk, ovk) = pair_381(y);
    let mut m2 = msg.clone();
    match c.below(3) {
        0 if !m2.is_empty() => gen::flip(c, &mut m2),
        1 if !m2.is_empty() => {
            m2.pop();
        },
        _ => m2.push(0),
    }
    let os = BLSSignatureScheme::sign(&(), &osk, &msg, &mut c.rng).expect("sign");
    let t1 = times(outside_g1(c).into_group());
    let t2 = times(outside_g2(c).into_group());
    let vkp = G2::generator() * x;
    let cases = vec![
        ("message", vk, m2, s),
        ("key", ovk, msg.clone(), s),
        ("signature", vk, msg.clone(), os),
        ("signature", vk, msg.clone(), sig_381(&(-want))),
        ("signature", vk, msg.clone(), sig_381(&(want + G1::generator()).into_affine())),
        ("signature outside the group", vk, msg.clone(), sig_381(&(want + t1).into_affine())),
        ("key outside the group", key_381(&(vkp + t2).into_affine()), msg.clone(), s),
        ("key and signature of nobody", key_381(&G2::zero()), msg.clone(), sig_381(&G1::zero())),
        ("signature of nobody", vk, msg.clone(), sig_381(&G1::zero())),
        ("key of nobody", key_381(&G2::zero()), msg.clone(), s),
    ];
    for (what, vk, m, s) in cases {
        if what != "key" || y != x {
            c.ev("false claim");
            let same = point_381(&s) == want && vk == pair_381(x).1 && m == msg;
            if !same {
                let r = c.no_panic("panic", || BLSSignatureScheme::verify(&(), &vk, &m, &s));
                c.check(matches!(r, Some(Err(_))), "false_accepted", || format!("{what}: {r:?}"));
            }
        }
    }
    // keys made by the scheme
    let r = BLSSignatureScheme::key_gen(&(), &mut c.rng);
    let q = BLSSignatureScheme::key_gen(&(), &mut c.rng);
    if let (Ok((a, b)), Ok((a2, b2))) = (&r, &q) {
        let z = b381::Fr::from_be_bytes_mod_order(&a.to_bytes());
        c.eq(b, &pair_381(z).1, "key_gen");
        c.check(a != a2 && b != b2, "key_repeat", || "the same key twice".into());
    } else {
        c.fail("key_gen", format!("{r:?} {q:?}"));
    }
    // and from given material
    let (salt, info) = (message(c), message(c));
    let n = c.range(30, 40);
    let ikm = c.bytes(n);
    let r = BLSSignatureScheme::key_gen_v5(&ikm, &salt, &info);
    c.ev("derived key");
    if n < 32 {
        c.check(r.is_err(), "short_material", || format!("{n} bytes accepted"));
    } else if let Some((a, b)) = c.ok(r, "key_gen_v5") {
        let want = blst::min_sig::SecretKey::key_gen_v5(&ikm, &salt, &info).expect("key");
        c.check(a.to_bytes() == want.to_bytes(), "key_gen_v5", || "another key".into());
        c.check(*b == want.sk_to_pk(), "key_gen_v5", || "another public key".into());
    }
}

pub fn written_381(c: &mut Case) {
    let x = secret_381(c);
    let (sk, vk) = pair_381(x);
    let msg = message(c);
    let s = BLSSignatureScheme::sign(&(), &sk, &msg, &mut c.rng).expect("sign");
    c.key(c.idx);
    roundtrip(c, &vk);
    roundtrip(c, &s);
    let (t, u) = (vk.to_string(), s.to_string());
    c.eq(&t.parse::<BLSVerKey>().ok(), &Some(vk), "ver_key_text");
    c.eq(&u.parse::<BLSSignature>().ok(), &Some(s), "signature_text");
    c.check(t.parse::<BLSSignature>().is_err() && u.parse::<BLSVerKey>().is_err(), "text_kind", || "mixed up".into());
    let j = serde_json::to_string(&(vk, s)).unwrap_or_default();
    c.eq(&serde_json::from_str::<(BLSVerKey, BLSSignature)>(&j).ok(), &Some((vk, s)), "json");
    let j = bincode::serialize(&(vk, s)).unwrap_or_default();
    c.eq(&bincode::deserialize::<(BLSVerKey, BLSSignature)>(&j).ok(), &Some((vk, s)), "bincode");
    c.check(BLSSignKey::from_bytes(&sk.to_bytes()).ok() == Some(sk.clone()), "sign_key_bytes", || "changed".into());
    if let Ok(a) = sk.to_tagged_base64() {
        c.check(BLSSignKey::try_from(&a).ok() == Some(sk.clone()), "sign_key_tagged", || "changed".into());
        c.check(BLSSignKey::try_from(a.clone()).ok() == Some(sk), "sign_key_tagged", || "changed".into());
        // another kind, another length
        let w = TaggedBase64::new("BLS_KEY_PAIR", a.as_ref()).expect("tag");
        c.check(BLSSignKey::try_from(&w).is_err() && BLSSignKey::try_from(w).is_err(), "tag_mixed", || "read".into());
        let w = TaggedBase64::new(&a.tag(), &a.as_ref()[1..]).expect("tag");
        c.check(BLSSignKey::try_from(&w).is_err() && BLSSignKey::try_from(w).is_err(), "short_secret", || "read".into());
    }
    c.check(BLSSignKey::from_bytes(&[0; 32]).is_err() && BLSSignKey::from_bytes(&[255; 32]).is_err(), "bad_secret", || "read".into());
    c.ev("encodings");
    // outside the groups, in both forms
    let (p1, p2) = (outside_g1(c), outside_g2(c));
    let mut f1 = vec![];
    p1.serialize_compressed(&mut f1).expect("write");
    let mut f2 = vec![];
    p2.serialize_compressed(&mut f2).expect("write");
    c.check(BLSSignature::deserialize_compressed(&framed(&f1)[..]).is_err(), "outside_group", || "signature".into());
    c.check(BLSVerKey::deserialize_compressed(&framed(&f2)[..]).is_err(), "outside_group", || "key".into());
    c.check(BLSSignature::deserialize_uncompressed(&framed(&crate::pack(&p1))[..]).is_err(), "outside_group", || "signature".into());
    c.check(BLSVerKey::deserialize_uncompressed(&framed(&crate::pack(&p2))[..]).is_err(), "outside_group", || "key".into());
    let z = framed(&crate::pack(&G2::zero()));
    c.check(BLSVerKey::deserialize_uncompressed(&z[..]).is_err(), "outside_group", || "key of nobody".into());
    let z = framed(&crate::pack(&G1::zero()));
    c.check(BLSSignature::deserialize_uncompressed(&z[..]).is_err(), "outside_group", || "signature of nobody".into());
    let mut z = vec![];
    G1::zero().serialize_compressed(&mut z).expect("write");
    c.check(BLSSignature::deserialize_compressed(&framed(&z)[..]).is_err(), "outside_group", || "signature of nobody".into());
    c.ev("point outside the group");
    // the announced length decides nothing on its own
    let mut b = vec![];
    vk.serialize_compressed(&mut b).expect("write");
    for n in [0u64, 48, 95, 97, 192, u64::MAX] {
        b[..8].copy_from_slice(&n.to_le_bytes());
        let r = c.no_panic("panic", || BLSVerKey::deserialize_compressed(&b[..]));
        c.check(matches!(r, Some(Err(_))), "length", || format!("key announced as {n}: {r:?}"));
    }
    let mut b = vec![];
    s.serialize_compressed(&mut b).expect("write");
    for n in [0u64, 47, 49, 96, u64::MAX] {
        b[..8].copy_from_slice(&n.to_le_bytes());
        let r = c.no_panic("panic", || BLSSignature::deserialize_compressed(&b[..]));
        c.check(matches!(r, Some(Err(_))), "length", || format!("signature announced as {n}: {r:?}"));
    }
    // any other bytes are other objects or none
    let mut b = vec![];
    s.serialize_compressed(&mut b).expect("write");
    gen::flip(c, &mut b[8..]);
    if let Some(Ok(d)) = c.no_panic("panic", || BLSSignature::deserialize_compressed(&b[..])) {
        c.check(d != s, "damage_ignored", || "the same signature".into());
    }
}

// ---- the random function ----

fn scheme(c: &mut Case) -> (BLSVRFScheme, bool) {
    let long = c.coin();
    let s = if long { BLSVRFCipherSuite::VRF_BLS_12_381_SHA512 } else { BLSVRFCipherSuite::VRF_BLS_12_381_SHA256 };
    (BLSVRFScheme::new(s), long)
}

fn output(p: &G1, long: bool) -> Vec<u8> {
    let b = [p.x.into_bigint().to_bytes_be(), p.y.into_bigint().to_bytes_be()].concat();
    if long {
        sha2::Sha512::digest(&b).to_vec()
    } else {
        sha2::Sha256::digest(&b).to_vec()
    }
}

/// The output is one function of key and input, whatever was asked before.
pub fn vrf(c: &mut Case) {
    let (mut v, long) = scheme(c);
    let x = secret_381(c);
    let (sk, vk) = pair_381(x);
    let mut inputs: Vec<Vec<u8>> = (0..3).map(|_| message(c)).collect();
    inputs.push([&inputs[0][..], &[0]].concat());
    let mut outs = vec![];
    for step in 0..6 {
        let i = c.below(inputs.len());
        let m = inputs[i].clone();
        let p = (onto_381(&m) * x).into_affine();
        let want = output(&p, long);
        c.ev("call");
        match if step == 0 { 0 } else { c.below(5) } {
            0 => {
                let pr = v.prove(&(), &sk, &m, &mut c.rng);
                if let Some(pr) = c.ok(pr, "prove") {
                    c.eq(&point_381(&pr), &p, "proof");
                    c.eq(&v.proof_to_hash(&(), &pr).ok(), &Some(want.clone()), "output");
                    c.eq(&v.verify(&(), &pr, &vk, &m).ok(), &Some((true, Some(want.clone()))), "verified");
                }
            },
            1 => {
                let o = v.evaluate(&(), &sk, &m, &mut c.rng).ok();
                c.eq(&o, &Some(want.clone()), "output");
            },
            2 => {
                c.eq(&v.proof_to_hash(&(), &sig_381(&p)).ok(), &Some(want.clone()), "output");
            },
            3 => {
                c.eq(&v.verify(&(), &sig_381(&p), &vk, &m).ok(), &Some((true, Some(want.clone()))), "verified");
            },
            _ => {
                // a refused claim leaves nothing behind
                let r = v.verify(&(), &sig_381(&(p + G1::generator()).into_affine()), &vk, &m).ok();
                c.eq(&r, &Some((false, None)), "refused");
            },
        }
        outs.push((m, want));
    }
    c.key((long, inputs.iter().map(|m| m.len()).collect::<Vec<_>>()));
    c.sample(|| format!("{} inputs, long output {long}", inputs.len()));
    for a in &outs {
        for b in &outs {
            c.check((a.0 == b.0) == (a.1 == b.1), "distinct", || "two inputs with one output".into());
        }
    }
    let r = v.key_gen(&(), &mut c.rng);
    if let Some((a, b)) = c.ok(r, "key_gen") {
        let m = inputs[0].clone();
        let o = v.evaluate(&(), &a, &m, &mut c.rng);
        let p = v.prove(&(), &a, &m, &mut c.rng);
        if let (Ok(o), Ok(p)) = (o, p) {
            c.check(o != output(&(onto_381(&m) * x).into_affine(), long), "keys_alike", || "two keys, one output".into());
            c.eq(&v.verify(&(), &p, &b, &m).ok(), &Some((true, Some(o))), "verified");
        } else {
            c.fail("evaluate", "no output");
        }
    }
}

/// No other output can be proved.
pub fn vrf_false(c: &mut Case) {
    let (mut v, long) = scheme(c);
    let x = secret_381(c);
    let (_, vk) = pair_381(x);
    let y = x + b381::Fr::one();
    let m = message(c);
    let mut m2 = m.clone();
    m2.push(c.below(256) as u8);
    let p = (onto_381(&m) * x).into_affine();
    let t = times(outside_g1(c).into_group());
    let o = if y.is_zero() { vk } else { pair_381(y).1 };
    let cases: Vec<(&str, G1, BLSVerKey, Vec<u8>)> = vec![
        ("input", p, vk, m2.clone()),
        ("proof for another input", (onto_381(&m2) * x).into_affine(), vk, m.clone()),
        ("proof of another key", (onto_381(&m) * y).into_affine(), vk, m.clone()),
        ("negated proof", -p, vk, m.clone()),
        ("shifted proof", (p + G1::generator()).into_affine(), vk, m.clone()),
        ("proof with a part outside the group", (p + t).into_affine(), vk, m.clone()),
        ("no proof", G1::zero(), vk, m.clone()),
        ("nobody", G1::zero(), key_381(&G2::zero()), m.clone()),
        ("key outside the group", p, {
            let t = times(outside_g2(c).into_group());
            key_381(&(G2::generator() * x + t).into_affine())
        }, m.clone()),
        ("key", p, o, m.clone()),
    ];
    c.key((long, m.len()));
    c.sample(|| format!("input of {} bytes", m.len()));
    for (what, q, k, n) in cases {
        if what == "key" && k == vk {
            continue;
        }
        c.ev("false claim");
        let r = c.no_panic("panic", || v.verify(&(), &sig_381(&q), &k, &n).ok());
        c.check(r == Some(Some((false, None))), "false_accepted", || format!("{what}: {r:?}"));
    }
}
