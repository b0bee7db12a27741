//! Stand-in for the `sha3` crate (not available offline): Keccak-256 and
//! SHA3-256 written from FIPS 202 behind the `digest` 0.10 traits.
use digest::{crypto_common::BlockSizeUser, 
    consts::U32, FixedOutput, FixedOutputReset, HashMarker, Output,
    OutputSizeUser, Reset, Update,
};
pub use digest::{self, Digest};

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
    0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [[u32; 5]; 5] = [
    [0, 36, 3, 41, 18],
    [1, 44, 10, 45, 2],
    [62, 6, 43, 15, 61],
    [28, 55, 25, 21, 56],
    [27, 20, 39, 8, 14],
];

/// Keccak-f[1600] on lanes `a[x + 5y]`.
pub fn keccak_f1600(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(ROT[x][y]);
            }
        }
        for y in 0..5 {
            for x in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
            }
        }
        a[0] ^= rc;
    }
}

#[derive(Clone)]
struct Sponge {
    st: [u64; 25],
    pos: usize,
}
const RATE: usize = 136;
impl Sponge {
    fn xor(&mut self, i: usize, b: u8) {
        self.st[i / 8] ^= (b as u64) << (8 * (i % 8));
    }
    fn absorb(&mut self, data: &[u8]) {
        for &b in data {
            self.xor(self.pos, b);
            self.pos += 1;
            if self.pos == RATE {
                keccak_f1600(&mut self.st);
                self.pos = 0;
            }
        }
    }
    fn finish(&mut self, pad: u8) -> [u8; 32] {
        self.xor(self.pos, pad);
        self.xor(RATE - 1, 0x80);
        keccak_f1600(&mut self.st);
        let mut out = [0u8; 32];
        for i in 0..4 {
            out[8 * i..8 * i + 8].copy_from_slice(&self.st[i].to_le_bytes());
        }
        out
    }
}

macro_rules! hasher {
    ($name:ident, $pad:expr) => {
        #[derive(Clone)]
        pub struct $name(Sponge);
        impl Default for $name {
            fn default() -> Self {
                Self(Sponge { st: [0; 25], pos: 0 })
            }
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        impl HashMarker for $name {}
        impl OutputSizeUser for $name {
            type OutputSize = U32;
        }
        impl BlockSizeUser for $name {
            type BlockSize = digest::consts::U136;
        }
        impl Update for $name {
            fn update(&mut self, data: &[u8]) {
                self.0.absorb(data)
            }
        }
        impl FixedOutput for $name {
            fn finalize_into(mut self, out: &mut Output<Self>) {
                out.copy_from_slice(&self.0.finish($pad))
            }
        }
        impl Reset for $name {
            fn reset(&mut self) {
                *self = Self::default()
            }
        }
        impl FixedOutputReset for $name {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                out.copy_from_slice(&self.0.finish($pad));
                Reset::reset(self)
            }
        }
    };
}
hasher!(Keccak256, 0x01);
hasher!(Sha3_256, 0x06);

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn vectors() {
        assert_eq!(
            hex::encode(Keccak256::digest(b"")),
            "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470"
        );
        assert_eq!(
            hex::encode(Sha3_256::digest(b"")),
            "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a"
        );
        let msg: Vec<u8> = (0..1000u32).map(|i| (i % 251) as u8).collect();
        // python3: hashlib.sha3_256(bytes(i%251 for i in range(1000))).hexdigest()
        assert_eq!(
            hex::encode(Sha3_256::digest(&msg)),
            "48e66a01861d0eadaacdb7a6ae7db6b9ac79242ecced4154a9fbb33c4e3cc571"
        );
    }
}
