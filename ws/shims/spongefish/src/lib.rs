//! Stand-in for the duplex-sponge part of `spongefish` (git dependency, not
//! available offline).  Overwrite-mode duplex sponge as documented upstream.
use zeroize::Zeroize;

/// A unit the sponge absorbs and squeezes.
pub trait Unit: Clone + Sized + Zeroize {
    fn write(bunch: &[Self], w: &mut impl std::io::Write) -> Result<(), std::io::Error>;
    fn read(r: &mut impl std::io::Read, bunch: &mut [Self]) -> Result<(), std::io::Error>;
}

impl Unit for u8 {
    fn write(bunch: &[Self], w: &mut impl std::io::Write) -> Result<(), std::io::Error> {
        w.write_all(bunch)
    }
    fn read(r: &mut impl std::io::Read, bunch: &mut [Self]) -> Result<(), std::io::Error> {
        r.read_exact(bunch)
    }
}

impl<C: ark_ff::FpConfig<N>, const N: usize> Unit for ark_ff::Fp<C, N> {
    fn write(bunch: &[Self], mut w: &mut impl std::io::Write) -> Result<(), std::io::Error> {
        use ark_serialize::CanonicalSerialize;
        for b in bunch {
            b.serialize_compressed(&mut w)
                .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "oh no!"))?;
        }
        Ok(())
    }
    fn read(mut r: &mut impl std::io::Read, bunch: &mut [Self]) -> Result<(), std::io::Error> {
        use ark_serialize::CanonicalDeserialize;
        for b in bunch.iter_mut() {
            *b = Self::deserialize_compressed(&mut r)
                .map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "Unable to deserialize"))?;
        }
        Ok(())
    }
}

pub use duplex_sponge::DuplexSpongeInterface;

pub mod duplex_sponge {
    use super::Unit;
    use zeroize::{Zeroize, ZeroizeOnDrop};

    /// The basic interface of a duplex sponge.
    pub trait DuplexSpongeInterface<U = u8>: Default + Clone + Zeroize
    where
        U: Unit,
    {
        fn new(iv: [u8; 32]) -> Self;
        fn absorb_unchecked(&mut self, input: &[U]) -> &mut Self;
        fn squeeze_unchecked(&mut self, output: &mut [U]) -> &mut Self;
        fn ratchet_unchecked(&mut self) -> &mut Self;
    }

    /// The basic state of a cryptographic sponge.
    pub trait Permutation: Zeroize + Default + Clone + AsRef<[Self::U]> + AsMut<[Self::U]> {
        type U: Unit;
        /// The width of the sponge.
        const N: usize;
        /// The rate of the sponge.
        const R: usize;
        fn new(iv: [u8; 32]) -> Self;
        fn permute(&mut self);
    }

    /// A cryptographic sponge in overwrite mode.
    #[derive(Clone, PartialEq, Eq, Default, Zeroize, ZeroizeOnDrop)]
    pub struct DuplexSponge<C: Permutation> {
        permutation: C,
        absorb_pos: usize,
        squeeze_pos: usize,
    }

    impl<U: Unit, C: Permutation<U = U>> DuplexSpongeInterface<U> for DuplexSponge<C> {
        fn new(iv: [u8; 32]) -> Self {
            assert!(C::N > C::R, "Capacity of the sponge should be > 0.");
            Self {
                permutation: C::new(iv),
                absorb_pos: 0,
                squeeze_pos: C::R,
            }
        }

        fn absorb_unchecked(&mut self, mut input: &[U]) -> &mut Self {
            while !input.is_empty() {
                if self.absorb_pos == C::R {
                    self.permutation.permute();
                    self.absorb_pos = 0;
                } else {
                    let chunk_len = usize::min(input.len(), C::R - self.absorb_pos);
                    let (chunk, rest) = input.split_at(chunk_len);
                    self.permutation.as_mut()[self.absorb_pos..self.absorb_pos + chunk_len]
                        .clone_from_slice(chunk);
                    self.absorb_pos += chunk_len;
                    input = rest;
                }
            }
            self.squeeze_pos = C::R;
            self
        }

        fn squeeze_unchecked(&mut self, output: &mut [U]) -> &mut Self {
            if output.is_empty() {
                return self;
            }
            if self.squeeze_pos == C::R {
                self.squeeze_pos = 0;
                self.absorb_pos = 0;
                self.permutation.permute();
            }
            assert!(self.squeeze_pos < C::R);
            let chunk_len = usize::min(output.len(), C::R - self.squeeze_pos);
            let (output, rest) = output.split_at_mut(chunk_len);
            output.clone_from_slice(
                &self.permutation.as_ref()[self.squeeze_pos..self.squeeze_pos + chunk_len],
            );
            self.squeeze_pos += chunk_len;
            self.squeeze_unchecked(rest)
        }

        fn ratchet_unchecked(&mut self) -> &mut Self {
            self.permutation.permute();
            self.permutation.as_mut()[0..C::R].iter_mut().for_each(Zeroize::zeroize);
            self.squeeze_pos = C::R;
            self
        }
    }
}
