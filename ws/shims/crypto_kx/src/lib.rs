//! Stand-in for `crypto_kx` (not available offline): libsodium's
//! `crypto_kx` over X25519 and BLAKE2b-512.
use curve25519_dalek::montgomery::MontgomeryPoint;
use rand_core::{CryptoRng, RngCore};
use serde::{Deserialize, Serialize};

const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
fn compress(h: &mut [u64; 8], b: &[u8; 128], t: u128, last: bool) {
    let m: [u64; 16] =
        core::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()));
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u64;
    v[13] ^= (t >> 64) as u64;
    if last {
        v[14] = !v[14];
    }
    fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    }
    for r in 0..12 {
        let s = &SIGMA[r % 10];
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}
/// Unkeyed BLAKE2b-512.
pub fn blake2b512(data: &[u8]) -> [u8; 64] {
    let mut h = IV;
    h[0] ^= 0x01010000 ^ 64;
    let n = data.len().div_ceil(128).max(1);
    for i in 0..n {
        let mut b = [0u8; 128];
        let chunk = &data[128 * i..(128 * (i + 1)).min(data.len())];
        b[..chunk.len()].copy_from_slice(chunk);
        compress(&mut h, &b, (128 * i + chunk.len()) as u128, i + 1 == n);
    }
    let mut out = [0u8; 64];
    for i in 0..8 {
        out[8 * i..8 * i + 8].copy_from_slice(&h[i].to_le_bytes());
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct PublicKey([u8; 32]);
impl PublicKey {
    pub const BYTES: usize = 32;
}
impl AsRef<[u8; 32]> for PublicKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl From<[u8; 32]> for PublicKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct SecretKey([u8; 32]);
impl SecretKey {
    pub const BYTES: usize = 32;
    pub fn to_bytes(&self) -> [u8; 32] {
        self.0
    }
    pub fn public_key(&self) -> PublicKey {
        PublicKey(MontgomeryPoint::mul_base_clamped(self.0).to_bytes())
    }
}
impl From<[u8; 32]> for SecretKey {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}

pub struct SessionKey([u8; 32]);
impl AsRef<[u8; 32]> for SessionKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
pub struct ClientSessionKeys {
    pub rx: SessionKey,
    pub tx: SessionKey,
}
pub struct ServerSessionKeys {
    pub rx: SessionKey,
    pub tx: SessionKey,
}

#[derive(Clone)]
pub struct Keypair {
    secret: SecretKey,
    public: PublicKey,
}
impl From<SecretKey> for Keypair {
    fn from(secret: SecretKey) -> Self {
        let public = secret.public_key();
        Self { secret, public }
    }
}
fn kdf(q: &[u8; 32], client: &PublicKey, server: &PublicKey) -> ([u8; 32], [u8; 32]) {
    let h = blake2b512(&[&q[..], &client.0, &server.0].concat());
    (h[..32].try_into().unwrap(), h[32..].try_into().unwrap())
}
impl Keypair {
    pub fn generate(mut rng: impl RngCore + CryptoRng) -> Self {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        SecretKey(b).into()
    }
    pub fn public(&self) -> &PublicKey {
        &self.public
    }
    pub fn secret(&self) -> &SecretKey {
        &self.secret
    }
    pub fn split(self) -> (PublicKey, SecretKey) {
        (self.public, self.secret)
    }
    pub fn session_keys_to(&self, server: &PublicKey) -> ClientSessionKeys {
        let q = MontgomeryPoint(server.0).mul_clamped(self.secret.0).to_bytes();
        let (a, b) = kdf(&q, &self.public, server);
        ClientSessionKeys { rx: SessionKey(a), tx: SessionKey(b) }
    }
    pub fn session_keys_from(&self, client: &PublicKey) -> ServerSessionKeys {
        let q = MontgomeryPoint(client.0).mul_clamped(self.secret.0).to_bytes();
        let (a, b) = kdf(&q, client, &self.public);
        ServerSessionKeys { rx: SessionKey(b), tx: SessionKey(a) }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn vectors() {
        // python3 hashlib.blake2b
        assert_eq!(hex::encode(blake2b512(b"abc")), "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923");
        let m: Vec<u8> = (0..200u8).collect();
        assert_eq!(hex::encode(blake2b512(&m)), "fb3c1f0f56a56f8e316fdf5d853c8c872c39635d083634c3904fc3ac07d1b578e85ff0e480e92d44ade33b62e893ee32343e79ddf6ef292e89b582d312502314");
        let sk = [9u8; 32];
        let a = Keypair::from(SecretKey(sk));
        let b = Keypair::from(SecretKey([3; 32]));
        assert_eq!(a.session_keys_to(b.public()).tx.0, b.session_keys_from(a.public()).rx.0);
        assert_eq!(a.session_keys_to(b.public()).rx.0, b.session_keys_from(a.public()).tx.0);
        assert_ne!(a.session_keys_to(b.public()).rx.0, a.session_keys_to(b.public()).tx.0);
    }
}
