//! Stand-in for `ark-bw6-761` (not available offline): the BW6-761 curve from
//! its published parameters (ePrint 2020/351).  Group generators are computed
//! here and are not the upstream ones.
pub use ark_bls12_377::{Fq as Fr, FqConfig as FrConfig};
use ark_ec::{
    bw6::{BW6Config, G1Affine as A1, G1Projective as P1, G2Affine as A2, G2Projective as P2, TwistType, BW6},
    models::CurveConfig,
    short_weierstrass::SWCurveConfig,
};
use ark_ff::{
    fp3::{Fp3, Fp3Config},
    fp6_2over3::{Fp6, Fp6Config},
    BigInt, BigInteger768, Fp768, MontBackend, MontConfig, MontFp,
};

#[derive(MontConfig)]
#[modulus = "6891450384315732539396789682275657542479668912536150109513790160209623422243491736087683183289411687640864567753786613451161759120554247759349511699125301598951605099378508850372543631423596795951899700429969112842764913119068299"]
#[generator = "2"]
#[small_subgroup_base = "3"]
#[small_subgroup_power = "1"]
pub struct FqConfig;
pub type Fq = Fp768<MontBackend<FqConfig, 12>>;

pub struct Fq3Config;
impl Fp3Config for Fq3Config {
    type Fp = Fq;
    const NONRESIDUE: Fq = MontFp!("-4");
    // Square roots in the cubic extension are never taken by the library; the
    // constants below only satisfy the trait.
    const TWO_ADICITY: u32 = 1;
    const TRACE_MINUS_ONE_DIV_TWO: &'static [u64] = &[0];
    const QUADRATIC_NONRESIDUE_TO_T: Fq3 = Fq3::new(Fq::ONE, Fq::ZERO, Fq::ZERO);
    const FROBENIUS_COEFF_FP3_C1: &'static [Fq] = &[MontFp!("1"), MontFp!("4922464560225523242118178942575080391082002530232324381063048548642823052024664478336818169867474395270858391911405337707247735739826664939444490469542109391530482826728203582549674992333383150446779312029624171857054392282775648"), MontFp!("1968985824090209297278610739700577151397666382303825728450741611566800370218827257750865013421937292370006175842381275743914023380727582819905021229583192207421122272650305267822868639090213645505120388400344940985710520836292650")];
    const FROBENIUS_COEFF_FP3_C2: &'static [Fq] = &[MontFp!("1"), MontFp!("1968985824090209297278610739700577151397666382303825728450741611566800370218827257750865013421937292370006175842381275743914023380727582819905021229583192207421122272650305267822868639090213645505120388400344940985710520836292650"), MontFp!("4922464560225523242118178942575080391082002530232324381063048548642823052024664478336818169867474395270858391911405337707247735739826664939444490469542109391530482826728203582549674992333383150446779312029624171857054392282775648")];
}
pub type Fq3 = Fp3<Fq3Config>;

pub struct Fq6Config;
impl Fp6Config for Fq6Config {
    type Fp3Config = Fq3Config;
    const NONRESIDUE: Fq3 = Fq3::new(Fq::ZERO, Fq::ONE, Fq::ZERO);
    const FROBENIUS_COEFF_FP6_C1: &'static [Fq] = &[MontFp!("1"), MontFp!("4922464560225523242118178942575080391082002530232324381063048548642823052024664478336818169867474395270858391911405337707247735739826664939444490469542109391530482826728203582549674992333383150446779312029624171857054392282775649"), MontFp!("4922464560225523242118178942575080391082002530232324381063048548642823052024664478336818169867474395270858391911405337707247735739826664939444490469542109391530482826728203582549674992333383150446779312029624171857054392282775648"), MontFp!("6891450384315732539396789682275657542479668912536150109513790160209623422243491736087683183289411687640864567753786613451161759120554247759349511699125301598951605099378508850372543631423596795951899700429969112842764913119068298"), MontFp!("1968985824090209297278610739700577151397666382303825728450741611566800370218827257750865013421937292370006175842381275743914023380727582819905021229583192207421122272650305267822868639090213645505120388400344940985710520836292650"), MontFp!("1968985824090209297278610739700577151397666382303825728450741611566800370218827257750865013421937292370006175842381275743914023380727582819905021229583192207421122272650305267822868639090213645505120388400344940985710520836292651")];
}
pub type Fq6 = Fp6<Fq6Config>;
use ark_ff::{AdditiveGroup, Field};

#[derive(PartialEq, Eq)]
pub struct Config;
impl BW6Config for Config {
    const X: BigInteger768 = BigInt::new([0x8508c00000000001, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    const X_IS_NEGATIVE: bool = false;
    const X_MINUS_1_DIV_3: BigInteger768 =
        BigInt::new([0x2c58400000000000, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    const ATE_LOOP_COUNT_1: &'static [u64] = &[0x8508c00000000001];
    const ATE_LOOP_COUNT_1_IS_NEGATIVE: bool = false;
    // X^2 - X - 1
    #[rustfmt::skip]
    const ATE_LOOP_COUNT_2: &'static [i8] = &[-1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, -1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 0, -1, 0, 1, 0, -1, 0, 0, 0, 0, -1, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 1];
    const ATE_LOOP_COUNT_2_IS_NEGATIVE: bool = false;
    const TWIST_TYPE: TwistType = TwistType::M;
    const H_T: i64 = 13;
    const H_Y: i64 = 9;
    const T_MOD_R_IS_ZERO: bool = false;
    type Fp = Fq;
    type Fp3Config = Fq3Config;
    type Fp6Config = Fq6Config;
    type G1Config = g1::Config;
    type G2Config = g2::Config;
}
#[allow(non_camel_case_types)]
pub type BW6_761 = BW6<Config>;
pub type G1Affine = A1<Config>;
pub type G1Projective = P1<Config>;
pub type G2Affine = A2<Config>;
pub type G2Projective = P2<Config>;

pub mod g1 {
    use super::*;
    #[derive(Clone, Default, PartialEq, Eq)]
    pub struct Config;
    impl CurveConfig for Config {
        type BaseField = Fq;
        type ScalarField = Fr;
        const COFACTOR: &'static [u64] = &[0x3de580000000007c, 0x832ba4061000003b, 0xc61c554757551c0c, 0xc856a0853c9db94c, 0x2c77d5ac34cb12ef, 0xad1972339049ce76];
        const COFACTOR_INV: Fr = MontFp!("91141326767669940707819291241958318717982251277713150053234367522357946997763584490607453720072232540829942217804");
    }
    impl SWCurveConfig for Config {
        const COEFF_A: Fq = Fq::ZERO;
        const COEFF_B: Fq = MontFp!("-1");
        const GENERATOR: G1Affine = G1Affine::new_unchecked(
            MontFp!("5121082781502305659180673370797932802982723165543122975335209418297923345190975559367024470794567213188867624617939698818627134048004915564891369096213721202693630090148097888923493708182442885908076346607300083583163982163789167"),
            MontFp!("3936891438836912583780051937508657570812555345221986954460153541952284123191322673907692687918062549220672207508016306900511821136915723707181225276750353973961376292016478674329987421847947883311993206004548631860683957877121757"),
        );
        #[inline(always)]
        fn mul_by_a(_: Self::BaseField) -> Self::BaseField {
            Fq::ZERO
        }
    }
}
pub mod g2 {
    use super::*;
    #[derive(Clone, Default, PartialEq, Eq)]
    pub struct Config;
    impl CurveConfig for Config {
        type BaseField = Fq;
        type ScalarField = Fr;
        const COFACTOR: &'static [u64] = &[0x3de5800000000075, 0x832ba4061000003b, 0xc61c554757551c0c, 0xc856a0853c9db94c, 0x2c77d5ac34cb12ef, 0xad1972339049ce76];
        const COFACTOR_INV: Fr = MontFp!("214911522365886453591244899095480747723790054550866810551297776298664428889000553861210287833206024638187939842124");
    }
    impl SWCurveConfig for Config {
        const COEFF_A: Fq = Fq::ZERO;
        const COEFF_B: Fq = MontFp!("4");
        const GENERATOR: G2Affine = G2Affine::new_unchecked(
            MontFp!("4299495046121976197967899669570453663523609133273326781652351086315825538613647196868186765217397067654540962955975840176693419657193486845273767814170238104346390446211356851381676719718477415944688400098442139983341339355564981"),
            MontFp!("5390068907621955088169558704058566111636841949933812064258391788701969884935470780815806205108266591280868872340793447961301446566465351736303970166703756567269434202182284388197563290670801062112376259336491499915806321277334517"),
        );
        #[inline(always)]
        fn mul_by_a(_: Self::BaseField) -> Self::BaseField {
            Fq::ZERO
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use ark_ec::{pairing::Pairing, AffineRepr, PrimeGroup};
    use ark_ff::{UniformRand, Zero};
    #[test]
    fn pairing() {
        let mut rng = ark_std::test_rng();
        let g1 = G1Affine::generator();
        let g2 = G2Affine::generator();
        assert!(g1.is_on_curve() && g1.is_in_correct_subgroup_assuming_on_curve());
        assert!(g2.is_on_curve() && g2.is_in_correct_subgroup_assuming_on_curve());
        let (g1, g2) = (G1Projective::generator(), G2Projective::generator());
        let e = BW6_761::pairing(g1, g2);
        assert!(!e.is_zero());
        for _ in 0..3 {
            let (a, b) = (Fr::rand(&mut rng), Fr::rand(&mut rng));
            assert_eq!(BW6_761::pairing(g1 * a, g2 * b), e * (a * b));
            assert!(BW6_761::multi_pairing([g1 * a, -g1], [g2, g2 * a]).is_zero());
        }
    }
}
