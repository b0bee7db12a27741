//! Stand-in for the `XChaCha20Poly1305` part of `chacha20poly1305` (not
//! available offline), written from RFC 8439 and draft-irtf-cfrg-xchacha.
use generic_array::{
    typenum::{U24, U32},
    GenericArray,
};

pub type Key = GenericArray<u8, U32>;
pub type XNonce = GenericArray<u8, U24>;

pub trait KeyInit: Sized {
    fn new(key: &Key) -> Self;
}

pub mod aead {
    use super::XNonce;

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error;

    pub struct Payload<'msg, 'aad> {
        pub msg: &'msg [u8],
        pub aad: &'aad [u8],
    }
    impl<'msg> From<&'msg [u8]> for Payload<'msg, '_> {
        fn from(msg: &'msg [u8]) -> Self {
            Self { msg, aad: b"" }
        }
    }
    pub trait AeadCore {
        fn generate_nonce(mut rng: impl rand_core::CryptoRng + rand_core::RngCore) -> XNonce {
            let mut n = XNonce::default();
            rng.fill_bytes(&mut n);
            n
        }
    }
    pub trait Aead: AeadCore {
        fn encrypt<'msg, 'aad>(
            &self,
            nonce: &XNonce,
            plaintext: impl Into<Payload<'msg, 'aad>>,
        ) -> Result<Vec<u8>, Error>;
        fn decrypt<'msg, 'aad>(
            &self,
            nonce: &XNonce,
            ciphertext: impl Into<Payload<'msg, 'aad>>,
        ) -> Result<Vec<u8>, Error>;
    }
}

fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        qr(s, 0, 4, 8, 12);
        qr(s, 1, 5, 9, 13);
        qr(s, 2, 6, 10, 14);
        qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15);
        qr(s, 1, 6, 11, 12);
        qr(s, 2, 7, 8, 13);
        qr(s, 3, 4, 9, 14);
    }
}
fn init(key: &[u8; 32], tail: [u32; 4]) -> [u32; 16] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12..].copy_from_slice(&tail);
    s
}
fn w(b: &[u8]) -> u32 {
    u32::from_le_bytes(b[..4].try_into().unwrap())
}
fn block(key: &[u8; 32], ctr: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let s0 = init(key, [ctr, w(nonce), w(&nonce[4..]), w(&nonce[8..])]);
    let mut s = s0;
    rounds(&mut s);
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(s0[i]).to_le_bytes());
    }
    out
}
fn hchacha20(key: &[u8; 32], n: &[u8]) -> [u8; 32] {
    let mut s = init(key, [w(n), w(&n[4..]), w(&n[8..]), w(&n[12..])]);
    rounds(&mut s);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].to_le_bytes());
        out[16 + 4 * i..20 + 4 * i].copy_from_slice(&s[12 + i].to_le_bytes());
    }
    out
}
fn xor_stream(key: &[u8; 32], nonce: &[u8; 12], data: &mut [u8]) {
    for (i, c) in data.chunks_mut(64).enumerate() {
        let ks = block(key, 1 + i as u32, nonce);
        for (d, k) in c.iter_mut().zip(ks) {
            *d ^= k;
        }
    }
}
fn poly1305(key: &[u8; 32], msg: &[u8]) -> [u8; 16] {
    // 26-bit limbs
    let t = |i: usize| w(&key[i..]) as u64;
    let r = [
        t(0) & 0x3ffffff,
        (t(3) >> 2) & 0x3ffff03,
        (t(6) >> 4) & 0x3ffc0ff,
        (t(9) >> 6) & 0x3f03fff,
        (t(12) >> 8) & 0x00fffff,
    ];
    let mut h = [0u64; 5];
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        let u = |i: usize| w(&b[i..]) as u64;
        h[0] += u(0) & 0x3ffffff;
        h[1] += (u(3) >> 2) & 0x3ffffff;
        h[2] += (u(6) >> 4) & 0x3ffffff;
        h[3] += (u(9) >> 6) & 0x3ffffff;
        h[4] += (u(12) >> 8) | ((b[16] as u64) << 24);
        let mut d = [0u64; 5];
        for i in 0..5 {
            for j in 0..5 {
                let m = h[i] * r[j];
                if i + j < 5 {
                    d[i + j] += m;
                } else {
                    d[i + j - 5] += 5 * m;
                }
            }
        }
        let mut carry = 0;
        for i in 0..5 {
            d[i] += carry;
            h[i] = d[i] & 0x3ffffff;
            carry = d[i] >> 26;
        }
        h[0] += carry * 5;
        let cc = h[0] >> 26;
        h[0] &= 0x3ffffff;
        h[1] += cc;
    }
    // full carry
    for _ in 0..2 {
        let mut carry = 0;
        for x in h.iter_mut() {
            *x += carry;
            carry = *x >> 26;
            *x &= 0x3ffffff;
        }
        h[0] += carry * 5;
    }
    // subtract p if h >= p
    let mut g = [0u64; 5];
    let mut carry = 5;
    for i in 0..5 {
        g[i] = h[i] + carry;
        carry = g[i] >> 26;
        g[i] &= 0x3ffffff;
    }
    if carry != 0 {
        h = g;
    }
    let lo = h[0] as u128 | (h[1] as u128) << 26 | (h[2] as u128) << 52 | (h[3] as u128) << 78
        | (h[4] as u128) << 104;
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    lo.wrapping_add(s).to_le_bytes()
}
fn tag(key: &[u8; 32], nonce: &[u8; 12], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk: [u8; 32] = block(key, 0, nonce)[..32].try_into().unwrap();
    let mut m = aad.to_vec();
    m.resize(m.len().next_multiple_of(16), 0);
    m.extend_from_slice(ct);
    m.resize(m.len().next_multiple_of(16), 0);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&otk, &m)
}

#[derive(Clone)]
pub struct XChaCha20Poly1305([u8; 32]);
impl KeyInit for XChaCha20Poly1305 {
    fn new(key: &Key) -> Self {
        Self((*key).into())
    }
}
impl XChaCha20Poly1305 {
    fn derive(&self, n: &XNonce) -> ([u8; 32], [u8; 12]) {
        let sub = hchacha20(&self.0, &n[..16]);
        let mut nn = [0u8; 12];
        nn[4..].copy_from_slice(&n[16..]);
        (sub, nn)
    }
}
impl aead::AeadCore for XChaCha20Poly1305 {}
impl aead::Aead for XChaCha20Poly1305 {
    fn encrypt<'msg, 'aad>(
        &self,
        nonce: &XNonce,
        p: impl Into<aead::Payload<'msg, 'aad>>,
    ) -> Result<Vec<u8>, aead::Error> {
        let p = p.into();
        let (k, n) = self.derive(nonce);
        let mut out = p.msg.to_vec();
        xor_stream(&k, &n, &mut out);
        let t = tag(&k, &n, p.aad, &out);
        out.extend_from_slice(&t);
        Ok(out)
    }
    fn decrypt<'msg, 'aad>(
        &self,
        nonce: &XNonce,
        p: impl Into<aead::Payload<'msg, 'aad>>,
    ) -> Result<Vec<u8>, aead::Error> {
        let p = p.into();
        if p.msg.len() < 16 {
            return Err(aead::Error);
        }
        let (ct, t) = p.msg.split_at(p.msg.len() - 16);
        let (k, n) = self.derive(nonce);
        if tag(&k, &n, p.aad, ct) != t {
            return Err(aead::Error);
        }
        let mut out = ct.to_vec();
        xor_stream(&k, &n, &mut out);
        Ok(out)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn rfc8439_aead() {
        // RFC 8439 section 2.8.2
        let key: [u8; 32] = core::array::from_fn(|i| 0x80 + i as u8);
        let nonce: [u8; 12] = hex::decode("070000004041424344454647").unwrap().try_into().unwrap();
        let aad = hex::decode("50515253c0c1c2c3c4c5c6c7").unwrap();
        let mut m = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.".to_vec();
        xor_stream(&key, &nonce, &mut m);
        assert_eq!(hex::encode(&m[..16]), "d31a8d34648e60db7b86afbc53ef7ec2");
        assert_eq!(hex::encode(tag(&key, &nonce, &aad, &m)), "1ae10b594f09e26a7e902ecbd0600691");
    }
    #[test]
    fn hchacha_vector() {
        // draft-irtf-cfrg-xchacha section 2.2.1
        let key: [u8; 32] = core::array::from_fn(|i| i as u8);
        let n = hex::decode("000000090000004a0000000031415927").unwrap();
        assert_eq!(
            hex::encode(hchacha20(&key, &n)),
            "82413b4227b27bfed30e42508a877d73a0f9e4d58a74a853c12ec41326d3ecdc"
        );
    }
}
