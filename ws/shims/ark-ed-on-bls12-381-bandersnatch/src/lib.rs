//! Stand-in for `ark-ed-on-bls12-381-bandersnatch` (not available offline):
//! the Bandersnatch curve in twisted Edwards form (ePrint 2021/1152).
pub use ark_bls12_381::{Fr as Fq, FrConfig as FqConfig};
use ark_ec::{
    models::CurveConfig,
    twisted_edwards::{Affine, MontCurveConfig, Projective, TECurveConfig},
};
use ark_ff::{Fp256, MontBackend, MontConfig, MontFp};

#[derive(MontConfig)]
#[modulus = "13108968793781547619861935127046491459309155893440570251786403306729687672801"]
#[generator = "7"]
pub struct FrConfig;
pub type Fr = Fp256<MontBackend<FrConfig, 4>>;

pub type EdwardsAffine = Affine<BandersnatchConfig>;
pub type EdwardsProjective = Projective<BandersnatchConfig>;

#[derive(Clone, Default, PartialEq, Eq)]
pub struct BandersnatchConfig;
pub type EdwardsConfig = BandersnatchConfig;

impl CurveConfig for BandersnatchConfig {
    type BaseField = Fq;
    type ScalarField = Fr;
    const COFACTOR: &'static [u64] = &[4];
    const COFACTOR_INV: Fr =
        MontFp!("9831726595336160714896451345284868594481866920080427688839802480047265754601");
}

impl TECurveConfig for BandersnatchConfig {
    const COEFF_A: Fq = MontFp!("-5");
    const COEFF_D: Fq =
        MontFp!("45022363124591815672509500913686876175488063829319466900776701791074614335719");
    const GENERATOR: EdwardsAffine = EdwardsAffine::new_unchecked(GENERATOR_X, GENERATOR_Y);
    type MontCurveConfig = BandersnatchConfig;

    #[inline(always)]
    fn mul_by_a(elem: Self::BaseField) -> Self::BaseField {
        let t = elem + elem;
        -(t + t + elem)
    }
}

impl MontCurveConfig for BandersnatchConfig {
    const COEFF_A: Fq =
        MontFp!("29978822694968839326280996386011761570173833766074948509196803838190355340952");
    const COEFF_B: Fq =
        MontFp!("25465760566081946422412445027709227188579564747101592991722834452325077642517");
    type TECurveConfig = BandersnatchConfig;
}

pub const GENERATOR_X: Fq =
    MontFp!("18886178867200960497001835917649091219057080094937609519140440539760939937304");
pub const GENERATOR_Y: Fq =
    MontFp!("19188667384257783945677642223292697773471335439753913231509108946878080696678");

#[cfg(test)]
mod tests {
    use super::*;
    use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
    use ark_ff::{Field, UniformRand};
    #[test]
    fn group() {
        let mut rng = ark_std::test_rng();
        let g = EdwardsAffine::generator();
        assert!(g.is_on_curve() && g.is_in_correct_subgroup_assuming_on_curve());
        for _ in 0..8 {
            let (a, b) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
            let g = EdwardsProjective::generator();
            assert_eq!(g * a + g * b, g * (a + b));
            assert!((g * a).into_affine().is_on_curve());
        }
        assert_eq!(BandersnatchConfig::COFACTOR_INV * Fr::from(4u8), Fr::ONE);
    }
}
