//! Encryption to a public key.

use crate::{pack, roundtrip, schnorr::{torsion, Cv}};
use ark_ec::{
    twisted_edwards::{Affine, Projective},
    CurveGroup, PrimeGroup,
};
use ark_ff::{UniformRand, Zero};
use ark_serialize::CanonicalDeserialize;
use chacha20poly1305::{
    aead::{Aead, Payload},
    KeyInit, XChaCha20Poly1305, XNonce,
};
use jf_elgamal::{Ciphertext, EncKey, KeyPair};
use jf_rescue::{Permutation, RescueVector, PRP};
use vh::{gen, Case};

type B<P> = <P as ark_ec::CurveConfig>::BaseField;
type S<P> = <P as ark_ec::CurveConfig>::ScalarField;

fn pair<P: Cv>(sk: S<P>) -> KeyPair<P> {
    let pk = (Projective::<P>::generator() * sk).into_affine();
    KeyPair::deserialize_uncompressed_unchecked(&pack(&(pk, sk))[..]).expect("key format")
}

/// What is added to the message under a shared point.
fn stream<P: Cv>(shared: Affine<P>, n: usize) -> Vec<B<P>> {
    let z = B::<P>::zero();
    let key = Permutation::default().eval(&RescueVector::from(&[shared.x, shared.y, z, z]));
    let prp = PRP::default();
    (0..n.div_ceil(4))
        .flat_map(|i| prp.prp(&key, &RescueVector::from(&[B::<P>::from(i as u64), z, z, z])).elems().to_vec())
        .take(n)
        .collect()
}

fn secret<P: Cv>(c: &mut Case) -> S<P> {
    loop {
        let x = gen::field::<S<P>>(c);
        if !x.is_zero() {
            return x;
        }
    }
}

pub fn encrypt<P: Cv>(c: &mut Case) {
    let sk = secret::<P>(c);
    let kp = pair::<P>(sk);
    let n = gen::size(c, 40, 4200);
    let msg: Vec<B<P>> = gen::fields(c, n);
    c.key(n);
    c.sample(|| format!("message of {n} elements"));
    let pk = (Projective::<P>::generator() * sk).into_affine();
    c.eq(&<(B<P>, B<P>)>::from(kp.enc_key_ref()), &(pk.x, pk.y), "key");
    // with the randomness given
    let r = secret::<P>(c);
    let e = kp.enc_key().deterministic_encrypt(r, &msg);
    let eph = (Projective::<P>::generator() * r).into_affine();
    let shared = (pk * r).into_affine();
    let mut want = vec![eph.x, eph.y];
    want.extend(stream::<P>(shared, n).iter().zip(&msg).map(|(a, b)| *a + b));
    c.ev("encryption");
    c.eq(&e.to_scalars(), &want, "ciphertext");
    c.eq(&kp.decrypt(&e), &msg, "decrypted");
    // with fresh randomness
    let a = kp.enc_key().encrypt(&mut c.rng, &msg);
    let b = kp.enc_key().encrypt(&mut c.rng, &msg);
    c.eq(&kp.decrypt(&a), &msg, "decrypted");
    c.eq(&kp.decrypt(&b), &msg, "decrypted");
    let (fa, fb) = (a.to_scalars(), b.to_scalars());
    c.check(fa[..2] != fb[..2] && fa[..2] != want[..2], "ephemeral_repeats", || "the same twice".into());
    let sa = (Affine::<P>::new_unchecked(fa[0], fa[1]) * sk).into_affine();
    let wa: Vec<B<P>> = stream::<P>(sa, n).iter().zip(&msg).map(|(a, b)| *a + b).collect();
    c.eq(&fa[2..].to_vec(), &wa, "ciphertext");
    for i in 0..n {
        c.check(fa[2 + i] != fb[2 + i], "stream_repeats", || format!("element {i}"));
        c.check(fa[2 + i] != msg[i], "in_clear", || format!("element {i}"));
    }
    // another key, another ciphertext
    let other = pair::<P>(sk + S::<P>::from(1u64));
    let q = KeyPair::<P>::generate(&mut c.rng);
    c.check(q != kp, "key_repeat", || "the same key twice".into());
    if n > 0 {
        for k in [&other, &q] {
            let d = k.decrypt(&a);
            c.check((0..n).all(|i| d[i] != msg[i]), "other_key", || "something of the message".into());
        }
        let i = c.below(n);
        let mut f = fa.clone();
        f[2 + i] += B::<P>::from(1u64);
        if let Some(x) = c.ok(Ciphertext::<P>::from_scalars(&f).map_err(|_| ()), "from_scalars") {
            let d = kp.decrypt(&x);
            let same = (0..n).all(|j| (d[j] == msg[j]) == (j != i));
            c.check(same, "changed_element", || format!("element {i} of {n}"));
        }
    }
    // a key drawn without its secret
    let p = EncKey::<P>::rand(&mut c.rng);
    let (x, y) = (&p).into();
    let p = Affine::<P>::new_unchecked(x, y);
    c.check(p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve(), "drawn_key", || "outside the group".into());
}

/// Every length in turn.
pub fn all_lengths<P: Cv>(c: &mut Case) {
    let n = c.idx as usize / 4;
    let sk = secret::<P>(c);
    let kp = pair::<P>(sk);
    let pk = (Projective::<P>::generator() * sk).into_affine();
    let msg: Vec<B<P>> = gen::fields(c, n);
    c.key(n);
    c.sample(|| format!("message of {n} elements"));
    let r = secret::<P>(c);
    let e = kp.enc_key().deterministic_encrypt(r, &msg);
    let eph = (Projective::<P>::generator() * r).into_affine();
    let mut want = vec![eph.x, eph.y];
    want.extend(stream::<P>((pk * r).into_affine(), n).iter().zip(&msg).map(|(a, b)| *a + b));
    c.ev("encryption");
    c.eq(&e.to_scalars(), &want, "ciphertext");
    c.eq(&kp.decrypt(&e), &msg, "decrypted");
    let a = kp.enc_key().encrypt(&mut c.rng, &msg);
    c.eq(&kp.decrypt(&a), &msg, "decrypted");
    let f = a.to_scalars();
    let back = Ciphertext::<P>::from_scalars(&f);
    c.check(back.as_ref().ok() == Some(&a), "flat_form", || format!("{n} elements"));
}

/// A message so long that counters grow large.
pub fn long<P: Cv>(c: &mut Case) {
    let sk = secret::<P>(c);
    let kp = pair::<P>(sk);
    let n = if c.idx < 4 { 16384 } else { 65536 } + c.range(1, 600);
    let msg: Vec<B<P>> = (0..n as u64).map(B::<P>::from).collect();
    c.key(n);
    c.sample(|| format!("message of {n} elements"));
    let r = secret::<P>(c);
    let e = kp.enc_key().deterministic_encrypt(r, &msg);
    c.ev("encryption");
    let f = e.to_scalars();
    c.check(f.len() == n + 2, "flat_length", || format!("{} for {n}", f.len()));
    let shared = (Projective::<P>::generator() * (sk * r)).into_affine();
    let z = B::<P>::zero();
    let key = Permutation::default().eval(&RescueVector::from(&[shared.x, shared.y, z, z]));
    let prp = PRP::default();
    let mut at: Vec<usize> = (0..20).map(|k| 1usize << k).filter(|i| *i < n / 4).collect();
    at.extend([0, n / 4, n / 4 - 1]);
    at.extend((0..40).map(|_| c.below(n / 4)));
    for i in at {
        let want = prp.prp(&key, &RescueVector::from(&[B::<P>::from(i as u64), z, z, z])).elems().to_vec();
        for j in 0..4 {
            let k = 4 * i + j;
            if k < n {
                c.ev("element");
                c.eq(&f[2 + k], &(want[j] + msg[k]), "ciphertext");
            }
        }
    }
    c.check(kp.decrypt(&e) == msg, "decrypted", || format!("{n} elements"));
}

/// The flat form of a ciphertext.
pub fn scalars<P: Cv>(c: &mut Case) {
    let sk = secret::<P>(c);
    let kp = pair::<P>(sk);
    let n = gen::size(c, 20, 2100);
    let msg: Vec<B<P>> = gen::fields(c, n);
    let e = kp.enc_key().encrypt(&mut c.rng, &msg);
    let f = e.to_scalars();
    c.key(n);
    c.sample(|| format!("message of {n} elements"));
    c.check(f.len() == n + 2, "flat_length", || format!("{} for {n}", f.len()));
    c.ev("flat form");
    let back = Ciphertext::<P>::from_scalars(&f);
    c.check(back.as_ref().ok() == Some(&e), "flat_form", || format!("{back:?}"));
    for k in 0..2 {
        let r = c.no_panic("short_panic", || Ciphertext::<P>::from_scalars(&f[..k]).is_err());
        c.check(r == Some(true), "short", || format!("{k} elements"));
    }
    // any data, not only what encryption gives
    let k = gen::len(c, 30);
    let mut data: Vec<B<P>> = gen::fields(c, k);
    for _ in 0..c.below(4) {
        data.push(B::<P>::zero());
    }
    let eph = Affine::<P>::new_unchecked(f[0], f[1]);
    let x = Ciphertext::<P>::deserialize_uncompressed(&pack(&(eph, data.clone()))[..]).expect("ciphertext format");
    let g = x.to_scalars();
    c.eq(&g[2..].to_vec(), &data, "flat_data");
    let back = Ciphertext::<P>::from_scalars(&g);
    c.check(back.as_ref().ok() == Some(&x), "flat_form", || format!("{back:?}"));
    c.check(kp.decrypt(&x).len() == data.len(), "decrypted_length", || format!("{}", data.len()));
    // what is no point of the group is refused
    let mut g = f.clone();
    match c.below(4) {
        0 => g[0] += B::<P>::from(1u64),
        1 => g[1] += B::<P>::from(1u64),
        2 => {
            g[0] = gen::field(c);
            g[1] = gen::field(c);
        },
        _ => {
            // on the curve, with a part outside
            let t = torsion::<P>(c);
            let p = (Affine::<P>::new_unchecked(f[0], f[1]) + t).into_affine();
            g[0] = p.x;
            g[1] = p.y;
        },
    }
    let p = Affine::<P>::new_unchecked(g[0], g[1]);
    let member = p.is_on_curve() && p.is_in_correct_subgroup_assuming_on_curve();
    c.ev("point outside the group");
    let r = c.no_panic("outside_panic", || Ciphertext::<P>::from_scalars(&g).is_ok());
    if let Some(ok) = r {
        c.check(ok == member, "outside", || format!("member {member}, read {ok}"));
    }
}

pub fn written<P: Cv>(c: &mut Case) {
    let sk = gen::field::<S<P>>(c);
    let kp = pair::<P>(sk);
    let n = gen::len(c, 12);
    let msg: Vec<B<P>> = gen::fields(c, n);
    let e = kp.enc_key().encrypt(&mut c.rng, &msg);
    c.key(n);
    c.sample(|| format!("key pair and ciphertext of {n} elements"));
    roundtrip(c, kp.enc_key_ref());
    roundtrip(c, &kp);
    roundtrip(c, &e);
    c.ev("encodings");
    let (b, f) = (pack(&kp), pack(&e));
    let k2 = KeyPair::<P>::deserialize_uncompressed(&b[..]);
    let e2 = Ciphertext::<P>::deserialize_uncompressed(&f[..]);
    if let (Ok(k), Ok(e)) = (k2, e2) {
        c.eq(&k.decrypt(&e), &msg, "decrypted");
    }
    // equal means the same point
    let (x, y) = <(B<P>, B<P>)>::from(kp.enc_key_ref());
    for (a, b) in [(x, y), (-x, y), (x, -y), (-x, -y), (B::<P>::zero(), B::<P>::from(1u64))] {
        let o = EncKey::<P>::deserialize_uncompressed_unchecked(&pack(&Affine::<P>::new_unchecked(a, b))[..]);
        if let Ok(o) = o {
            c.check((o == kp.enc_key()) == ((a, b) == (x, y)), "key_equality", || format!("({x}, {y}) and ({a}, {b})"));
        }
    }
    // a key outside the group is not read
    let t = loop {
        let y = B::<P>::rand(&mut c.rng);
        if let Some(p) = Affine::<P>::get_point_from_y_unchecked(y, true) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                break p;
            }
        }
    };
    c.check(EncKey::<P>::deserialize_uncompressed(&pack(&t)[..]).is_err(), "outside_group", || "key read".into());
    let bad = pack(&(t, msg.clone()));
    c.check(Ciphertext::<P>::deserialize_uncompressed(&bad[..]).is_err(), "outside_group", || "ciphertext read".into());
    c.ev("point outside the group");
}

// ---- with authentication ----

type Sealed = jf_aead::Ciphertext;

/// The secret and public halves of a key pair.
fn halves(k: &jf_aead::KeyPair) -> ([u8; 32], [u8; 32]) {
    let b = pack(k);
    (b[32..64].try_into().expect("secret"), b[..32].try_into().expect("public"))
}

/// Nonce, sealed bytes and sender key.
fn parts(s: &Sealed) -> (Vec<u8>, Vec<u8>, [u8; 32]) {
    let b = pack(s);
    let n = b.len();
    (b[..24].to_vec(), b[32..n - 32].to_vec(), b[n - 32..].try_into().expect("key"))
}

fn join(nonce: &[u8], ct: &[u8], pk: &[u8]) -> Sealed {
    let b = [nonce, &(ct.len() as u64).to_le_bytes(), ct, pk].concat();
    Sealed::deserialize_uncompressed(&b[..]).expect("ciphertext format")
}

fn text(c: &mut Case, max: usize) -> Vec<u8> {
    let n = gen::size(c, max, 70000);
    gen::bytes(c, n)
}

pub fn sealed(c: &mut Case) {
    let kp = jf_aead::KeyPair::generate(&mut c.rng);
    let other = jf_aead::KeyPair::generate(&mut c.rng);
    let (msg, aad) = (text(c, 300), text(c, 80));
    c.key((msg.len(), aad.len()));
    c.sample(|| format!("message of {} bytes, {} associated", msg.len(), aad.len()));
    let (sk, pk) = halves(&kp);
    c.eq(&<[u8; 32]>::from(kp.enc_key()), &pk, "public_half");
    c.check(kp.enc_key() == *kp.enc_key_ref() && jf_aead::EncKey::from(pk) == kp.enc_key(), "public_half", || "differs".into());
    c.eq(crypto_kx::SecretKey::from(sk).public_key().as_ref(), &pk, "halves");
    let s = kp.enc_key().encrypt(&mut c.rng, &msg, &aad);
    let Some(s) = c.ok(s, "encrypt") else { return };
    c.ev("encryption");
    c.eq(&kp.decrypt(&s, &aad).ok(), &Some(msg.clone()), "decrypted");
    let (nonce, ct, eph) = parts(&s);
    c.check(ct.len() == msg.len() + 16, "sealed_length", || format!("{} for {}", ct.len(), msg.len()));
    // by the published algorithms alone
    let keys = crypto_kx::Keypair::from(crypto_kx::SecretKey::from(sk)).session_keys_from(&crypto_kx::PublicKey::from(eph));
    let cipher = XChaCha20Poly1305::new(keys.rx.as_ref().into());
    let n = XNonce::clone_from_slice(&nonce);
    let open = cipher.decrypt(&n, Payload { msg: &ct, aad: &aad }).ok();
    c.eq(&open, &Some(msg.clone()), "opened_elsewhere");
    // altered
    let mut what: Vec<(&str, jf_aead::KeyPair, Sealed, Vec<u8>)> = vec![("key", other.clone(), s.clone(), aad.clone())];
    let mut x = nonce.clone();
    gen::flip(c, &mut x);
    what.push(("nonce", kp.clone(), join(&x, &ct, &eph), aad.clone()));
    let mut x = ct.clone();
    gen::flip(c, &mut x);
    what.push(("sealed bytes", kp.clone(), join(&nonce, &x, &eph), aad.clone()));
    let mut x = eph;
    gen::flip(c, &mut x);
    what.push(("sender key", kp.clone(), join(&nonce, &ct, &x), aad.clone()));
    let mut x = eph;
    x[31] ^= 0x80;
    what.push(("unused bit of the sender key", kp.clone(), join(&nonce, &ct, &x), aad.clone()));
    what.push(("receiver as sender", kp.clone(), join(&nonce, &ct, &pk), aad.clone()));
    for k in [0, 1, 15, 16] {
        if k < ct.len() {
            what.push(("end cut off", kp.clone(), join(&nonce, &ct[..ct.len() - 1 - k], &eph), aad.clone()));
        }
    }
    what.push(("start cut off", kp.clone(), join(&nonce, &ct[1..], &eph), aad.clone()));
    what.push(("nothing", kp.clone(), join(&nonce, &[], &eph), aad.clone()));
    what.push(("longer", kp.clone(), join(&nonce, &[&ct[..], &[0]].concat(), &eph), aad.clone()));
    what.push(("associated data longer", kp.clone(), s.clone(), [&aad[..], &[0]].concat()));
    what.push(("associated data longer", kp.clone(), s.clone(), [&[0], &aad[..]].concat()));
    if !aad.is_empty() {
        let mut x = aad.clone();
        gen::flip(c, &mut x);
        what.push(("associated data", kp.clone(), s.clone(), x));
        what.push(("associated data cut", kp.clone(), s.clone(), aad[..aad.len() - 1].to_vec()));
        what.push(("associated data gone", kp.clone(), s.clone(), vec![]));
        what.push(("associated data moved", kp.clone(), join(&nonce, &[&aad[..1], &ct[..]].concat(), &eph), aad[1..].to_vec()));
    }
    if msg.len() != aad.len() || msg != aad {
        what.push(("message as associated data", kp.clone(), s.clone(), msg.clone()));
    }
    let t = kp.enc_key().encrypt(&mut c.rng, &msg, &aad).expect("encrypt");
    let (n2, c2, e2) = parts(&t);
    what.push(("nonce of another", kp.clone(), join(&n2, &ct, &eph), aad.clone()));
    what.push(("bytes of another", kp.clone(), join(&nonce, &c2, &eph), aad.clone()));
    what.push(("sender of another", kp.clone(), join(&nonce, &ct, &e2), aad.clone()));
    for (kind, k, s, a) in what {
        c.ev("altered");
        let r = c.no_panic("panic", || k.decrypt(&s, &a));
        c.check(matches!(r, Some(Err(_))), "altered_accepted", || format!("{kind}: {r:?}"));
    }
}

/// Every length of message and of associated data in turn.
pub fn sealed_every_length(c: &mut Case) {
    let n = c.idx as usize;
    let kp = jf_aead::KeyPair::generate(&mut c.rng);
    let k = c.below(40);
    let (msg, aad) = (gen::bytes(c, n), gen::bytes(c, k));
    c.key(n);
    c.sample(|| format!("{n} bytes"));
    for (msg, aad) in [(&msg, &aad), (&aad, &msg)] {
        let s = kp.enc_key().encrypt(&mut c.rng, msg, aad);
        let Some(s) = c.ok(s, "encrypt") else { return };
        c.ev("encryption");
        c.eq(&kp.decrypt(&s, aad).ok(), &Some(msg.clone()), "decrypted");
        let (nonce, ct, eph) = parts(&s);
        c.check(ct.len() == msg.len() + 16, "sealed_length", || format!("{} for {}", ct.len(), msg.len()));
        let keys = crypto_kx::Keypair::from(crypto_kx::SecretKey::from(halves(&kp).0)).session_keys_from(&crypto_kx::PublicKey::from(eph));
        let cipher = XChaCha20Poly1305::new(keys.rx.as_ref().into());
        let open = cipher.decrypt(&XNonce::clone_from_slice(&nonce), Payload { msg: &ct, aad }).ok();
        c.eq(&open, &Some(msg.clone()), "opened_elsewhere");
        let mut x = ct.clone();
        gen::flip(c, &mut x);
        c.check(kp.decrypt(&join(&nonce, &x, &eph), aad).is_err(), "altered_accepted", || "sealed bytes".into());
        if !aad.is_empty() {
            let mut x = aad.clone();
            gen::flip(c, &mut x);
            c.check(kp.decrypt(&s, &x).is_err(), "altered_accepted", || "associated data".into());
        }
    }
}

/// Nothing is used twice.
pub fn sealed_many(c: &mut Case) {
    let kps: Vec<_> = (0..2).map(|_| jf_aead::KeyPair::generate(&mut c.rng)).collect();
    let msg = text(c, 60);
    let mut seen: Vec<(Vec<u8>, Vec<u8>, [u8; 32])> = vec![];
    for i in 0..12 {
        let s = kps[i % 2].enc_key().encrypt(&mut c.rng, &msg, b"").expect("encrypt");
        c.ev("encryption");
        c.eq(&kps[i % 2].decrypt(&s, b"").ok(), &Some(msg.clone()), "decrypted");
        c.check(kps[1 - i % 2].decrypt(&s, b"").is_err(), "other_key", || "opened".into());
        seen.push(parts(&s));
    }
    c.key(msg.len());
    c.sample(|| format!("12 times {} bytes", msg.len()));
    // every byte is drawn afresh
    for k in 0..24 {
        c.check(seen.iter().any(|a| a.0[k] != seen[0].0[k]), "nonce_fixed", || format!("byte {k} of the nonce"));
    }
    for k in 0..32 {
        c.check(seen.iter().any(|a| a.2[k] != seen[0].2[k]), "sender_fixed", || format!("byte {k} of the sender key"));
    }
    for (i, a) in seen.iter().enumerate() {
        for b in &seen[..i] {
            c.check(a.0 != b.0, "nonce_repeats", || "the same nonce".into());
            c.check(a.1 != b.1, "bytes_repeat", || "the same bytes".into());
            c.check(a.2 != b.2, "sender_repeats", || "the same sender key".into());
        }
        c.check(kps.iter().all(|k| halves(k).1 != a.2), "sender_is_receiver", || "a receiver's key".into());
    }
}

/// Written and read in every form; damaged bytes never panic.
pub fn sealed_bytes(c: &mut Case) {
    let kp = jf_aead::KeyPair::generate(&mut c.rng);
    let (msg, aad) = (text(c, 200), text(c, 40));
    c.key((msg.len(), aad.len()));
    c.sample(|| format!("message of {} bytes", msg.len()));
    let s = kp.enc_key().encrypt(&mut c.rng, &msg, &aad).expect("encrypt");
    roundtrip(c, &s);
    roundtrip(c, kp.enc_key_ref());
    roundtrip(c, &kp);
    // equal means every byte of the public half
    let b = pack(&kp);
    for i in 0..32 {
        let mut d = b.clone();
        d[i] ^= 1 << c.below(8);
        let o = jf_aead::KeyPair::deserialize_compressed(&d[..]).expect("read");
        c.check(o != kp && o.enc_key() != kp.enc_key(), "key_equality", || format!("byte {i}"));
    }
    // key pairs compare by their public half only
    let back = jf_aead::KeyPair::deserialize_compressed(&pack(&kp)[..]).expect("read");
    c.eq(&back.decrypt(&s, &aad).ok(), &Some(msg.clone()), "decrypted");
    let b = bincode::serialize(&s).unwrap_or_default();
    c.eq(&bincode::deserialize::<Sealed>(&b).ok(), &Some(s.clone()), "bincode");
    let k = bincode::serialize(&kp).unwrap_or_default();
    let back = bincode::deserialize::<jf_aead::KeyPair>(&k).ok();
    c.eq(&back.and_then(|k| k.decrypt(&s, &aad).ok()), &Some(msg.clone()), "bincode_key");
    c.ev("encodings");
    let j = serde_json::to_string(&s).unwrap_or_default();
    let r = c.no_panic("json_panic", || serde_json::from_str::<Sealed>(&j));
    c.check(matches!(&r, Some(Ok(x)) if *x == s), "json", || format!("{r:?}"));
    let j = serde_json::to_string(&kp).unwrap_or_default();
    let r = serde_json::from_str::<jf_aead::KeyPair>(&j).ok();
    c.eq(&r.and_then(|k| k.decrypt(&s, &aad).ok()), &Some(msg.clone()), "json_key");
    // nonces of another length
    for n in [0usize, 1, 23, 25, 32] {
        let mut d = (n as u64).to_le_bytes().to_vec();
        d.extend(c.bytes(n));
        d.extend(&b[32..]);
        c.ev("nonce of another length");
        let r = c.no_panic("nonce_panic", || bincode::deserialize::<Sealed>(&d).is_err());
        if let Some(r) = r {
            c.check(r, "nonce_length", || format!("{n} bytes accepted"));
        }
    }
    // cut short
    let n = c.below(b.len());
    let r = c.no_panic("cut_panic", || bincode::deserialize::<Sealed>(&b[..n]).is_err());
    c.check(r == Some(true), "cut", || format!("{n} of {} bytes", b.len()));
}
