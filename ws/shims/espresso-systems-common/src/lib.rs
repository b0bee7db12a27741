//! Stand-in for `espresso-systems-common` (not available offline): the tag
//! constants used by the library.
#![no_std]
pub mod jellyfish {
    pub mod tag {
        pub const PROOF: &str = "PROOF";
        pub const BATCHPROOF: &str = "BATCHPROOF";
    }
}
