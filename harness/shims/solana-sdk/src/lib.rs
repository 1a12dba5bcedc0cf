//! The few client types the instruction builders use.
pub use solana_program::{instruction, pubkey};
#[path = "../../../swigpbt/src/keccak.rs"]
mod keccak_impl;
pub mod hash {
    use sha2::{Digest, Sha256};
    pub use solana_program::hash::Hash;
    pub fn hashv(v: &[&[u8]]) -> Hash {
        let mut h = Sha256::new();
        for p in v {
            h.update(p);
        }
        Hash(h.finalize().into())
    }
    pub fn hash(d: &[u8]) -> Hash {
        hashv(&[d])
    }
}
pub mod keccak {
    pub use super::hash::Hash;
    pub fn hashv(v: &[&[u8]]) -> Hash {
        Hash(super::keccak_impl::keccak256(v))
    }
    pub fn hash(d: &[u8]) -> Hash {
        hashv(&[d])
    }
    #[derive(Default)]
    pub struct Hasher(Vec<u8>);
    impl Hasher {
        pub fn hash(&mut self, d: &[u8]) {
            self.0.extend_from_slice(d);
        }
        pub fn hashv(&mut self, v: &[&[u8]]) {
            v.iter().for_each(|d| self.hash(d));
        }
        pub fn result(self) -> Hash {
            hash(&self.0)
        }
    }
}
pub mod sysvar {
    pub mod instructions {
        /// Sysvar1nstructions1111111111111111111111111
        pub const ID: solana_program::pubkey::Pubkey = solana_program::pubkey::Pubkey::new_from_array([
            6, 167, 213, 23, 24, 123, 209, 102, 53, 218, 212, 4, 85, 253, 194, 192, 193, 36, 198, 143, 33, 86, 117,
            165, 219, 186, 203, 95, 8, 0, 0, 0,
        ]);
        #[test]
        fn id() {
            assert_eq!(bs58::encode(ID.to_bytes()).into_string(), "Sysvar1nstructions1111111111111111111111111");
        }
    }
}
/// A public key written in base 58, at compile time.
#[macro_export]
macro_rules! pubkey {
    ($s:expr) => {
        $crate::pubkey::Pubkey::new_from_array($crate::base58($s))
    };
}
pub const fn base58(s: &str) -> [u8; 32] {
    let s = s.as_bytes();
    let alphabet = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out = [0u8; 32];
    let mut i = 0;
    while i < s.len() {
        let mut v = 0;
        while alphabet[v] != s[i] {
            v += 1;
        }
        let mut carry = v as u32;
        let mut j = 32;
        while j > 0 {
            j -= 1;
            carry += out[j] as u32 * 58;
            out[j] = carry as u8;
            carry >>= 8;
        }
        i += 1;
    }
    out
}
pub mod account {
    use super::pubkey::Pubkey;
    #[derive(Clone, Debug, Default, PartialEq, Eq)]
    pub struct Account {
        pub lamports: u64,
        pub data: Vec<u8>,
        pub owner: Pubkey,
        pub executable: bool,
        pub rent_epoch: u64,
    }
    pub trait ReadableAccount {
        fn lamports(&self) -> u64;
        fn data(&self) -> &[u8];
        fn owner(&self) -> &Pubkey;
    }
    impl ReadableAccount for Account {
        fn lamports(&self) -> u64 {
            self.lamports
        }
        fn data(&self) -> &[u8] {
            &self.data
        }
        fn owner(&self) -> &Pubkey {
            &self.owner
        }
    }
}
pub mod clock {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Clock {
        pub slot: u64,
    }
}
pub mod rent {
    #[derive(Clone, Copy, Debug, Default)]
    pub struct Rent;
}
pub mod signature {
    use super::pubkey::Pubkey;
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Signature(pub u64);
    impl core::fmt::Display for Signature {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    /// Whoever holds one can sign for its key.
    #[derive(Debug)]
    pub struct Keypair(Pubkey);
    impl Keypair {
        pub fn of(k: [u8; 32]) -> Self {
            Keypair(Pubkey::new_from_array(k))
        }
        pub fn insecure_clone(&self) -> Self {
            Keypair(self.0)
        }
        /// A new one; which one does not matter.
        pub fn new() -> Self {
            use std::sync::atomic::{AtomicU64, Ordering};
            static N: AtomicU64 = AtomicU64::new(0);
            let n = N.fetch_add(1, Ordering::Relaxed);
            Keypair(Pubkey::new_from_array(super::hash::hashv(&[b"new keypair", &n.to_le_bytes()]).0))
        }
        /// 32 bytes that stand for the secret, and the public key.
        pub fn to_bytes(&self) -> [u8; 64] {
            let mut b = [0; 64];
            b[..32].copy_from_slice(&super::hash::hashv(&[b"secret", &self.0.to_bytes()]).0);
            b[32..].copy_from_slice(&self.0.to_bytes());
            b
        }
        pub fn to_base58_string(&self) -> String {
            bs58::encode(self.to_bytes()).into_string()
        }
        pub fn try_from_base58_string(s: &str) -> Result<Self, SignatureError> {
            let b = bs58::decode(s).into_vec().map_err(|_| SignatureError)?;
            Self::try_from(&b[..])
        }
        pub fn from_base58_string(s: &str) -> Self {
            Self::try_from_base58_string(s).unwrap()
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct SignatureError;
    impl core::fmt::Display for SignatureError {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str("signature error")
        }
    }
    impl std::error::Error for SignatureError {}
    impl TryFrom<&[u8]> for Keypair {
        type Error = SignatureError;
        fn try_from(b: &[u8]) -> Result<Self, SignatureError> {
            let k: [u8; 32] = b.get(32..).and_then(|x| x.try_into().ok()).ok_or(SignatureError)?;
            let k = Keypair::of(k);
            if k.to_bytes() == b {
                Ok(k)
            } else {
                Err(SignatureError)
            }
        }
    }
    pub fn read_keypair_file<P: AsRef<std::path::Path>>(_: P) -> Result<Keypair, SignatureError> {
        Err(SignatureError)
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum SignerError {
        KeypairPubkeyMismatch,
        NotEnoughSigners,
        TooManySigners,
    }
    impl core::fmt::Display for SignerError {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for SignerError {}
    pub trait Signer {
        fn pubkey(&self) -> Pubkey;
    }
    impl Signer for Keypair {
        fn pubkey(&self) -> Pubkey {
            self.0
        }
    }
    impl<T: Signer + ?Sized> Signer for &T {
        fn pubkey(&self) -> Pubkey {
            (**self).pubkey()
        }
    }
    impl<T: Signer + ?Sized> Signer for Box<T> {
        fn pubkey(&self) -> Pubkey {
            (**self).pubkey()
        }
    }
    pub trait Signers {
        fn pubkeys(&self) -> Vec<Pubkey>;
    }
    impl<T: Signer> Signers for [T] {
        fn pubkeys(&self) -> Vec<Pubkey> {
            self.iter().map(|s| s.pubkey()).collect()
        }
    }
    impl<T: Signer, const N: usize> Signers for [T; N] {
        fn pubkeys(&self) -> Vec<Pubkey> {
            self.iter().map(|s| s.pubkey()).collect()
        }
    }
    impl<T: Signer> Signers for Vec<T> {
        fn pubkeys(&self) -> Vec<Pubkey> {
            self.iter().map(|s| s.pubkey()).collect()
        }
    }
}
pub mod signer {
    pub use super::signature::{Signer, SignerError};
}
pub mod message {
    use super::{hash::Hash, pubkey::Pubkey};
    use solana_program::instruction::Instruction;
    #[derive(Clone, Debug)]
    pub struct AddressLookupTableAccount {
        pub key: Pubkey,
        pub addresses: Vec<Pubkey>,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum CompileError {
        AccountIndexOverflow,
    }
    impl core::fmt::Display for CompileError {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for CompileError {}
    pub mod v0 {
        use super::*;
        /// The instructions, every account with the privileges it has in any
        /// of them, and who has to sign.
        #[derive(Clone, Debug)]
        pub struct Message {
            pub ixs: Vec<Instruction>,
            pub signers: Vec<Pubkey>,
        }
        impl Message {
            pub fn try_compile(
                payer: &Pubkey,
                ixs: &[Instruction],
                _tables: &[AddressLookupTableAccount],
                _hash: Hash,
            ) -> Result<Self, CompileError> {
                let mut ixs = ixs.to_vec();
                let mut flags: Vec<(Pubkey, bool, bool)> = vec![(*payer, true, true)];
                for m in ixs.iter().flat_map(|i| &i.accounts) {
                    match flags.iter_mut().find(|f| f.0 == m.pubkey) {
                        Some(f) => {
                            f.1 |= m.is_signer;
                            f.2 |= m.is_writable;
                        }
                        None => flags.push((m.pubkey, m.is_signer, m.is_writable)),
                    }
                }
                for m in ixs.iter_mut().flat_map(|i| &mut i.accounts) {
                    let f = flags.iter().find(|f| f.0 == m.pubkey).unwrap();
                    m.is_signer = f.1;
                    m.is_writable = f.2;
                }
                Ok(Message { ixs, signers: flags.iter().filter(|f| f.1).map(|f| f.0).collect() })
            }
        }
    }
    #[derive(Clone, Debug)]
    pub enum VersionedMessage {
        V0(v0::Message),
    }
}
pub mod transaction {
    use super::message::{v0, VersionedMessage};
    use super::{hash::Hash, pubkey::Pubkey, signature::SignerError, signature::Signers};
    use solana_program::instruction::Instruction;
    #[derive(Clone, Debug)]
    pub struct VersionedTransaction {
        pub message: VersionedMessage,
    }
    impl VersionedTransaction {
        pub fn try_new<T: Signers + ?Sized>(message: VersionedMessage, keypairs: &T) -> Result<Self, SignerError> {
            let VersionedMessage::V0(m) = &message;
            let have = keypairs.pubkeys();
            if have.len() > m.signers.len() {
                return Err(SignerError::TooManySigners);
            }
            if have.len() < m.signers.len() {
                return Err(SignerError::NotEnoughSigners);
            }
            if !m.signers.iter().all(|s| have.contains(s)) {
                return Err(SignerError::KeypairPubkeyMismatch);
            }
            Ok(Self { message })
        }
    }
    #[derive(Clone, Debug)]
    pub struct Transaction {
        pub message: v0::Message,
    }
    impl Transaction {
        pub fn new_signed_with_payer<T: Signers + ?Sized>(
            ixs: &[Instruction],
            payer: Option<&Pubkey>,
            keypairs: &T,
            hash: Hash,
        ) -> Self {
            let message = v0::Message::try_compile(payer.unwrap(), ixs, &[], hash).unwrap();
            let have = keypairs.pubkeys();
            assert!(message.signers.iter().all(|s| have.contains(s)));
            Self { message }
        }
    }
    pub trait SerializableTransaction {
        fn parts(&self) -> &v0::Message;
    }
    impl SerializableTransaction for VersionedTransaction {
        fn parts(&self) -> &v0::Message {
            let VersionedMessage::V0(m) = &self.message;
            m
        }
    }
    impl SerializableTransaction for Transaction {
        fn parts(&self) -> &v0::Message {
            &self.message
        }
    }
}
