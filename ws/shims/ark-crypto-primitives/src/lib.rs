//! Stand-in for the `sponge` part of `ark-crypto-primitives` (not available
//! offline): the traits with the semantics of their upstream documentation.
pub mod sponge {
    use ark_ff::{BigInteger, Fp, FpConfig, PrimeField, ToConstraintField};
    use ark_std::vec::Vec;

    /// Things a sponge can absorb.
    pub trait Absorb {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>);
        fn to_sponge_bytes_as_vec(&self) -> Vec<u8> {
            let mut result = Vec::new();
            self.to_sponge_bytes(&mut result);
            result
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>);
        fn to_sponge_field_elements_as_vec<F: PrimeField>(&self) -> Vec<F> {
            let mut result = Vec::new();
            self.to_sponge_field_elements(&mut result);
            result
        }
        fn batch_to_sponge_bytes(batch: &[Self], dest: &mut Vec<u8>)
        where
            Self: Sized,
        {
            for a in batch {
                a.to_sponge_bytes(dest)
            }
        }
        fn batch_to_sponge_bytes_as_vec(batch: &[Self]) -> Vec<u8>
        where
            Self: Sized,
        {
            let mut result = Vec::new();
            Self::batch_to_sponge_bytes(batch, &mut result);
            result
        }
        fn batch_to_sponge_field_elements<F: PrimeField>(batch: &[Self], dest: &mut Vec<F>)
        where
            Self: Sized,
        {
            for a in batch {
                a.to_sponge_field_elements(dest)
            }
        }
        fn batch_to_sponge_field_elements_as_vec<F: PrimeField>(batch: &[Self]) -> Vec<F>
        where
            Self: Sized,
        {
            let mut result = Vec::new();
            for a in batch {
                a.to_sponge_field_elements(&mut result)
            }
            result
        }
    }

    /// Absorb a sequence prefixed by its length.
    pub trait AbsorbWithLength: Absorb {
        fn to_sponge_bytes_with_length(&self, dest: &mut Vec<u8>);
        fn to_sponge_field_elements_with_length<F: PrimeField>(&self, dest: &mut Vec<F>);
    }

    impl Absorb for u8 {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            dest.push(*self)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            dest.push(F::from(*self))
        }
        fn batch_to_sponge_bytes(batch: &[Self], dest: &mut Vec<u8>) {
            dest.extend_from_slice(batch)
        }
        fn batch_to_sponge_field_elements<F: PrimeField>(batch: &[Self], dest: &mut Vec<F>) {
            let mut bytes = (batch.len() as u64).to_le_bytes().to_vec();
            bytes.extend_from_slice(batch);
            dest.extend_from_slice(&bytes.to_field_elements().unwrap())
        }
    }

    impl Absorb for bool {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            dest.push(*self as u8)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            dest.push(F::from(*self))
        }
    }

    impl<C: FpConfig<N>, const N: usize> Absorb for Fp<C, N> {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            use ark_serialize::CanonicalSerialize;
            self.serialize_compressed(dest).unwrap()
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            Self::batch_to_sponge_field_elements(&[*self], dest)
        }
        fn batch_to_sponge_field_elements<F: PrimeField>(batch: &[Self], dest: &mut Vec<F>) {
            dest.extend(batch.iter().map(|f| field_cast::<Self, F>(*f)));
        }
    }

    /// Convert between fields: identity on equal characteristic, otherwise by
    /// value (the library only absorbs native elements).
    fn field_cast<F1: PrimeField, F2: PrimeField>(x: F1) -> F2 {
        let bytes = x.into_bigint().to_bytes_le();
        assert!(
            F1::characteristic() == F2::characteristic(),
            "shim: cross-field absorb is not supported"
        );
        F2::from_le_bytes_mod_order(&bytes)
    }

    macro_rules! impl_absorb_unsigned {
        ($t:ident) => {
            impl Absorb for $t {
                fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
                    dest.extend_from_slice(&self.to_le_bytes()[..])
                }
                fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
                    dest.push(F::from(*self))
                }
            }
        };
    }
    impl_absorb_unsigned!(u16);
    impl_absorb_unsigned!(u32);
    impl_absorb_unsigned!(u64);
    impl_absorb_unsigned!(u128);

    impl Absorb for usize {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            dest.extend_from_slice(&((*self as u64).to_le_bytes())[..])
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            dest.push(F::from(*self as u64))
        }
    }

    impl<A: Absorb> Absorb for &[A] {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            A::batch_to_sponge_bytes(self, dest)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            A::batch_to_sponge_field_elements(self, dest)
        }
    }
    impl<A: Absorb> Absorb for Vec<A> {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            self.as_slice().to_sponge_bytes(dest)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            self.as_slice().to_sponge_field_elements(dest)
        }
    }
    impl<A: Absorb> AbsorbWithLength for &[A] {
        fn to_sponge_bytes_with_length(&self, dest: &mut Vec<u8>) {
            self.len().to_sponge_bytes(dest);
            self.to_sponge_bytes(dest)
        }
        fn to_sponge_field_elements_with_length<F: PrimeField>(&self, dest: &mut Vec<F>) {
            self.len().to_sponge_field_elements(dest);
            A::batch_to_sponge_field_elements(self, dest)
        }
    }
    impl<A: Absorb> AbsorbWithLength for Vec<A> {
        fn to_sponge_bytes_with_length(&self, dest: &mut Vec<u8>) {
            self.as_slice().to_sponge_bytes_with_length(dest)
        }
        fn to_sponge_field_elements_with_length<F: PrimeField>(&self, dest: &mut Vec<F>) {
            self.as_slice().to_sponge_field_elements_with_length(dest)
        }
    }
    impl Absorb for &str {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            self.as_bytes().to_sponge_bytes(dest)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            self.as_bytes().to_sponge_field_elements(dest)
        }
    }
    impl<A: Absorb> Absorb for Option<A> {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            self.is_some().to_sponge_bytes(dest);
            if let Some(item) = self {
                item.to_sponge_bytes(dest)
            }
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            self.is_some().to_sponge_field_elements(dest);
            if let Some(item) = self {
                item.to_sponge_field_elements(dest)
            }
        }
    }
    impl<A: Absorb> Absorb for &A {
        fn to_sponge_bytes(&self, dest: &mut Vec<u8>) {
            (*self).to_sponge_bytes(dest)
        }
        fn to_sponge_field_elements<F: PrimeField>(&self, dest: &mut Vec<F>) {
            (*self).to_sponge_field_elements(dest)
        }
    }

    /// Size of a squeezed element.
    #[derive(Clone, Copy, Debug)]
    pub enum FieldElementSize {
        Full,
        Truncated(usize),
    }
    impl FieldElementSize {
        pub fn num_bits<F: PrimeField>(&self) -> usize {
            let m = F::MODULUS_BIT_SIZE as usize - 1;
            match self {
                Self::Full => m,
                Self::Truncated(n) => (*n).min(m),
            }
        }
        pub fn sum<F: PrimeField>(sizes: &[Self]) -> usize {
            sizes.iter().map(|s| s.num_bits::<F>()).sum()
        }
    }

    /// A cryptographic sponge.
    pub trait CryptographicSponge: Clone {
        type Config;
        fn new(params: &Self::Config) -> Self;
        fn absorb(&mut self, input: &impl Absorb);
        fn squeeze_bytes(&mut self, num_bytes: usize) -> Vec<u8>;
        fn squeeze_bits(&mut self, num_bits: usize) -> Vec<bool>;
        fn squeeze_field_elements_with_sizes<F: PrimeField>(
            &mut self,
            sizes: &[FieldElementSize],
        ) -> Vec<F>;
        fn squeeze_field_elements<F: PrimeField>(&mut self, num_elements: usize) -> Vec<F> {
            self.squeeze_field_elements_with_sizes::<F>(
                vec![FieldElementSize::Full; num_elements].as_slice(),
            )
        }
        fn fork(&self, domain: &[u8]) -> Self {
            let mut new_sponge = self.clone();
            let mut input = Absorb::to_sponge_bytes_as_vec(&domain.len());
            input.extend_from_slice(domain);
            new_sponge.absorb(&input);
            new_sponge
        }
    }

    /// Field-based sponge.
    pub trait FieldBasedCryptographicSponge<CF: PrimeField>: CryptographicSponge {
        fn squeeze_native_field_elements(&mut self, num_elements: usize) -> Vec<CF>;
        fn squeeze_native_field_elements_with_sizes(
            &mut self,
            sizes: &[FieldElementSize],
        ) -> Vec<CF> {
            let _ = (sizes, CF::zero().is_zero());
            unimplemented!("shim")
        }
    }

    /// State export/import.
    pub trait SpongeExt: CryptographicSponge {
        type State: Clone;
        fn from_state(state: Self::State, params: &Self::Config) -> Self;
        fn into_state(self) -> Self::State;
    }

    #[macro_export]
    macro_rules! absorb {
        ($sponge:expr, $($absorbable:expr),+ ) => {
            $( $crate::sponge::CryptographicSponge::absorb($sponge, &$absorbable); )+
        };
    }
    #[macro_export]
    macro_rules! collect_sponge_bytes {
        ($head:expr $(, $tail:expr)* ) => {{
            let mut output = $crate::sponge::Absorb::to_sponge_bytes_as_vec(&$head);
            $( $crate::sponge::Absorb::to_sponge_bytes(&$tail, &mut output); )*
            output
        }};
    }
    #[macro_export]
    macro_rules! collect_sponge_field_elements {
        ($head:expr $(, $tail:expr)* ) => {{
            let mut output = $crate::sponge::Absorb::to_sponge_field_elements_as_vec(&$head);
            $( $crate::sponge::Absorb::to_sponge_field_elements(&$tail, &mut output); )*
            output
        }};
    }
}
