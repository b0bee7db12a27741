//! Stand-in for the `min_sig` part of `blst` (not available offline), over
//! `ark-bls12-381`: IETF BLS signatures with signatures in G1.
use ark_bls12_381::{Fr, G1Affine, G2Affine};
use ark_ec::{
    hashing::{curve_maps::wb::WBMap, map_to_curve_hasher::MapToCurveBasedHasher, HashToCurve},
    pairing::Pairing,
    AffineRepr, CurveGroup,
};
use ark_ff::{field_hashers::DefaultFieldHasher, BigInteger, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use sha2::{Digest, Sha256};

#[allow(non_camel_case_types)]
#[repr(u32)]
#[derive(Debug, Copy, Clone, Hash, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS = 0,
    BLST_BAD_ENCODING = 1,
    BLST_POINT_NOT_ON_CURVE = 2,
    BLST_POINT_NOT_IN_GROUP = 3,
    BLST_AGGR_TYPE_MISMATCH = 4,
    BLST_VERIFY_FAIL = 5,
    BLST_PK_IS_INFINITY = 6,
    BLST_BAD_SCALAR = 7,
}

type H2C = MapToCurveBasedHasher<
    ark_bls12_381::G1Projective,
    DefaultFieldHasher<Sha256, 128>,
    WBMap<ark_bls12_381::g1::Config>,
>;

pub fn hash_to_g1(msg: &[u8], dst: &[u8]) -> G1Affine {
    H2C::new(dst).expect("dst").hash(msg).expect("hash")
}

fn hmac(key: &[u8], data: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&Sha256::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i = Sha256::new();
    i.update(k.map(|b| b ^ 0x36));
    for d in data {
        i.update(d);
    }
    let inner = i.finalize();
    let mut o = Sha256::new();
    o.update(k.map(|b| b ^ 0x5c));
    o.update(inner);
    o.finalize().into()
}

fn hkdf_mod_r(ikm: &[u8], salt: &[u8], info: &[u8]) -> Fr {
    let prk = hmac(salt, &[ikm, &[0]]);
    let l = 48u16.to_be_bytes();
    let t1 = hmac(&prk, &[info, &l, &[1]]);
    let t2 = hmac(&prk, &[&t1, info, &l, &[2]]);
    let mut okm = t1.to_vec();
    okm.extend_from_slice(&t2[..16]);
    Fr::from_be_bytes_mod_order(&okm)
}

pub mod min_sig {
    use super::*;
    use zeroize::Zeroize;

    #[derive(Clone, Debug, Default, Zeroize)]
    #[zeroize(drop)]
    pub struct SecretKey([u8; 32]);

    impl SecretKey {
        fn scalar(&self) -> Fr {
            Fr::from_be_bytes_mod_order(&self.0)
        }
        fn from_scalar(s: Fr) -> Self {
            Self(s.into_bigint().to_bytes_be().try_into().unwrap())
        }
        /// draft-irtf-cfrg-bls-signature-04 KeyGen
        pub fn key_gen(ikm: &[u8], key_info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_ERROR::BLST_BAD_ENCODING);
            }
            let mut salt = Sha256::digest(b"BLS-SIG-KEYGEN-SALT-");
            loop {
                let s = hkdf_mod_r(ikm, &salt, key_info);
                if !s.is_zero() {
                    return Ok(Self::from_scalar(s));
                }
                salt = Sha256::digest(salt);
            }
        }
        /// draft-irtf-cfrg-bls-signature-05 KeyGen
        pub fn key_gen_v5(ikm: &[u8], salt: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_ERROR::BLST_BAD_ENCODING);
            }
            let mut salt = salt.to_vec();
            loop {
                let s = hkdf_mod_r(ikm, &salt, info);
                if !s.is_zero() {
                    return Ok(Self::from_scalar(s));
                }
                salt = Sha256::digest(salt).to_vec();
            }
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey((G2Affine::generator() * self.scalar()).into_affine())
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            let m = [aug, msg].concat();
            Signature((hash_to_g1(&m, dst) * self.scalar()).into_affine())
        }
        pub fn serialize(&self) -> [u8; 32] {
            self.0
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let a: [u8; 32] = b.try_into().map_err(|_| BLST_ERROR::BLST_BAD_ENCODING)?;
            let s = Fr::from_be_bytes_mod_order(&a);
            if s.is_zero() || s.into_bigint().to_bytes_be() != a {
                return Err(BLST_ERROR::BLST_BAD_ENCODING);
            }
            Ok(Self(a))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::deserialize(b)
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct PublicKey(G2Affine);
    impl Default for PublicKey {
        fn default() -> Self {
            // blst's all-zero affine point is the point at infinity
            Self(G2Affine::identity())
        }
    }
    impl PublicKey {
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if self.0.is_zero() {
                return Err(BLST_ERROR::BLST_PK_IS_INFINITY);
            }
            if !self.0.is_on_curve() || !self.0.is_in_correct_subgroup_assuming_on_curve() {
                return Err(BLST_ERROR::BLST_POINT_NOT_IN_GROUP);
            }
            Ok(())
        }
        pub fn compress(&self) -> [u8; 96] {
            let mut v = vec![];
            self.0.serialize_compressed(&mut v).unwrap();
            v.try_into().unwrap()
        }
        pub fn serialize(&self) -> [u8; 192] {
            let mut v = vec![];
            self.0.serialize_uncompressed(&mut v).unwrap();
            v.try_into().unwrap()
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            self.compress()
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 96 || b[0] & 0x80 == 0 {
                return Err(BLST_ERROR::BLST_BAD_ENCODING);
            }
            G2Affine::deserialize_compressed_unchecked(b)
                .map(Self)
                .map_err(|_| BLST_ERROR::BLST_BAD_ENCODING)
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() == 96 && b[0] & 0x80 != 0 {
                return Self::uncompress(b);
            }
            if b.len() != 192 || b[0] & 0x80 != 0 {
                return Err(BLST_ERROR::BLST_BAD_ENCODING);
            }
            let p = G2Affine::deserialize_uncompressed_unchecked(b)
                .map_err(|_| BLST_ERROR::BLST_BAD_ENCODING)?;
            if !p.is_on_curve() {
                return Err(BLST_ERROR::BLST_POINT_NOT_ON_CURVE);
            }
            Ok(Self(p))
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Signature(G1Affine);
    impl Signature {
        pub fn validate(&self, sig_infcheck: bool) -> Result<(), BLST_ERROR> {
            if sig_infcheck && self.0.is_zero() {
                return Err(BLST_ERROR::BLST_PK_IS_INFINITY);
            }
            if !self.0.is_on_curve() || !self.0.is_in_correct_subgroup_assuming_on_curve() {
                return Err(BLST_ERROR::BLST_POINT_NOT_IN_GROUP);
            }
            Ok(())
        }
        pub fn verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            aug: &[u8],
            pk: &PublicKey,
            pk_validate: bool,
        ) -> BLST_ERROR {
            if sig_groupcheck {
                if let Err(e) = self.validate(false) {
                    return e;
                }
            }
            if pk_validate {
                if let Err(e) = pk.validate() {
                    return e;
                }
            }
            let m = [aug, msg].concat();
            let h = hash_to_g1(&m, dst);
            let r = ark_bls12_381::Bls12_381::multi_pairing(
                [self.0, (-h.into_group()).into_affine()],
                [G2Affine::generator(), pk.0],
            );
            if r.is_zero() {
                BLST_ERROR::BLST_SUCCESS
            } else {
                BLST_ERROR::BLST_VERIFY_FAIL
            }
        }
        pub fn compress(&self) -> [u8; 48] {
            let mut v = vec![];
            self.0.serialize_compressed(&mut v).unwrap();
            v.try_into().unwrap()
        }
        pub fn serialize(&self) -> [u8; 96] {
            let mut v = vec![];
            self.0.serialize_uncompressed(&mut v).unwrap();
            v.try_into().unwrap()
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            self.compress()
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() != 48 || b[0] & 0x80 == 0 {
                return Err(BLST_ERROR::BLST_BAD_ENCODING);
            }
            G1Affine::deserialize_compressed_unchecked(b)
                .map(Self)
                .map_err(|_| BLST_ERROR::BLST_BAD_ENCODING)
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            if b.len() == 48 && b[0] & 0x80 != 0 {
                return Self::uncompress(b);
            }
            if b.len() != 96 || b[0] & 0x80 != 0 {
                return Err(BLST_ERROR::BLST_BAD_ENCODING);
            }
            let p = G1Affine::deserialize_uncompressed_unchecked(b)
                .map_err(|_| BLST_ERROR::BLST_BAD_ENCODING)?;
            if !p.is_on_curve() {
                return Err(BLST_ERROR::BLST_POINT_NOT_ON_CURVE);
            }
            Ok(Self(p))
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn rfc9380_vector() {
        let p = hash_to_g1(b"", b"QUUX-V01-CS02-with-BLS12381G1_XMD:SHA-256_SSWU_RO_");
        assert_eq!(
            hex::encode(p.x.into_bigint().to_bytes_be()),
            "052926add2207b76ca4fa57a8734416c8dc95e24501772c814278700eed6d1e4e8cf62d9c09db0fac349612b759e79a1"
        );
    }
    #[test]
    fn sign_verify() {
        use min_sig::*;
        let sk = SecretKey::key_gen(&[7; 32], &[]).unwrap();
        let pk = sk.sk_to_pk();
        let s = sk.sign(b"m", b"dst", &[]);
        assert_eq!(s.verify(true, b"m", b"dst", &[], &pk, true), BLST_ERROR::BLST_SUCCESS);
        assert_ne!(s.verify(true, b"n", b"dst", &[], &pk, true), BLST_ERROR::BLST_SUCCESS);
        assert_eq!(PublicKey::uncompress(&pk.compress()).unwrap(), pk);
        assert_eq!(PublicKey::deserialize(&pk.serialize()).unwrap(), pk);
    }
    #[test]
    fn eip2333_vector() {
        // EIP-2333 test case 0: derive_master_SK (HKDF_mod_r with
        // salt = H("BLS-SIG-KEYGEN-SALT-"))
        let seed = hex::decode("c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04").unwrap();
        let sk = min_sig::SecretKey::key_gen(&seed, &[]).unwrap();
        let want: num::Big = "6083874454709270928345386274498605044986640685124978867557563392430687146096".into();
        assert_eq!(sk.to_bytes().to_vec(), want.be32());
    }
    mod num {
        pub struct Big(pub Vec<u8>);
        impl From<&str> for Big {
            fn from(s: &str) -> Self {
                let f: ark_bls12_381::Fr = s.parse().ok().unwrap();
                use ark_ff::{BigInteger, PrimeField};
                Big(f.into_bigint().to_bytes_be())
            }
        }
        impl Big {
            pub fn be32(&self) -> Vec<u8> {
                self.0.clone()
            }
        }
    }
}
