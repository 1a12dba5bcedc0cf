//! The few client types the bundling code uses.
pub mod pubkey {
    #[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
    #[repr(transparent)]
    pub struct Pubkey([u8; 32]);
    impl Pubkey {
        pub const fn new_from_array(b: [u8; 32]) -> Self {
            Pubkey(b)
        }
        pub const fn to_bytes(self) -> [u8; 32] {
            self.0
        }
        /// Program-derived address: the first bump from 255 down whose hash is
        /// not a point of the curve.
        pub fn find_program_address(seeds: &[&[u8]], program: &Pubkey) -> (Pubkey, u8) {
            for bump in (0..=255u8).rev() {
                if let Some(k) = Self::derive(seeds, &[bump], program) {
                    return (k, bump);
                }
            }
            panic!("no bump")
        }
        fn derive(seeds: &[&[u8]], bump: &[u8], program: &Pubkey) -> Option<Pubkey> {
            use sha2::{Digest, Sha256};
            let mut h = Sha256::new();
            for s in seeds {
                assert!(s.len() <= 32);
                h.update(s);
            }
            h.update(bump);
            h.update(program.0);
            h.update(b"ProgramDerivedAddress");
            let k: [u8; 32] = h.finalize().into();
            let on = curve25519_dalek::edwards::CompressedEdwardsY(k).decompress().is_some();
            (!on).then_some(Pubkey(k))
        }
        pub const fn as_array(&self) -> &[u8; 32] {
            &self.0
        }
    }
    impl From<[u8; 32]> for Pubkey {
        fn from(b: [u8; 32]) -> Self {
            Pubkey(b)
        }
    }
    impl AsRef<[u8]> for Pubkey {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
    impl core::fmt::Debug for Pubkey {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            write!(f, "{:02x?}", &self.0[..4])
        }
    }
    impl core::fmt::Display for Pubkey {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str(&bs58::encode(self.0).into_string())
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum ParsePubkeyError {
        WrongSize,
        Invalid,
    }
    impl core::fmt::Display for ParsePubkeyError {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ParsePubkeyError {}
    impl core::str::FromStr for Pubkey {
        type Err = ParsePubkeyError;
        fn from_str(s: &str) -> Result<Self, ParsePubkeyError> {
            let b = bs58::decode(s).into_vec().map_err(|_| ParsePubkeyError::Invalid)?;
            Ok(Pubkey(b.try_into().map_err(|_| ParsePubkeyError::WrongSize)?))
        }
    }
}
pub mod instruction {
    use super::pubkey::Pubkey;
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    #[repr(C)]
    pub struct AccountMeta {
        pub pubkey: Pubkey,
        pub is_signer: bool,
        pub is_writable: bool,
    }
    impl AccountMeta {
        pub fn new(pubkey: Pubkey, is_signer: bool) -> Self {
            Self { pubkey, is_signer, is_writable: true }
        }
        pub fn new_readonly(pubkey: Pubkey, is_signer: bool) -> Self {
            Self { pubkey, is_signer, is_writable: false }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Instruction {
        pub program_id: Pubkey,
        pub accounts: Vec<AccountMeta>,
        pub data: Vec<u8>,
    }
    impl Instruction {
        pub fn new_with_bytes(program_id: Pubkey, data: &[u8], accounts: Vec<AccountMeta>) -> Self {
            Self { program_id, accounts, data: data.to_vec() }
        }
    }
}
pub mod hash {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct Hash(pub [u8; 32]);
    impl Hash {
        pub const fn new_from_array(b: [u8; 32]) -> Self {
            Hash(b)
        }
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
    }
    impl AsRef<[u8]> for Hash {
        fn as_ref(&self) -> &[u8] {
            &self.0
        }
    }
}
pub mod program_error {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum ProgramError {
        Custom(u32),
        InvalidArgument,
        InvalidInstructionData,
        InvalidAccountData,
    }
    impl core::fmt::Display for ProgramError {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for ProgramError {}
}
