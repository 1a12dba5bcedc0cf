//! Builder of a secp256r1 precompile instruction that carries one signature:
//! count, padding, one offsets record, public key, signature, message.
use solana_program::{instruction::Instruction, pubkey::Pubkey};
/// Secp256r1SigVerify1111111111111111111111111
pub const ID: Pubkey = Pubkey::new_from_array([
    6, 146, 13, 236, 47, 234, 113, 181, 183, 35, 129, 77, 116, 45, 169, 3, 28, 131, 231, 95, 219, 121, 93, 86, 142, 117,
    71, 128, 32, 0, 0, 0,
]);
pub fn new_secp256r1_instruction_with_signature(
    message: &[u8],
    signature: &[u8; 64],
    pubkey: &[u8; 33],
) -> Instruction {
    let start = 16u16;
    let (pk, sg, ms) = (start, start + 33, start + 33 + 64);
    let mut d = vec![1u8, 0];
    for v in [sg, u16::MAX, pk, u16::MAX, ms, message.len() as u16, u16::MAX] {
        d.extend_from_slice(&v.to_le_bytes());
    }
    d.extend_from_slice(pubkey);
    d.extend_from_slice(signature);
    d.extend_from_slice(message);
    Instruction { program_id: ID, accounts: vec![], data: d }
}

use std::cell::RefCell;
thread_local! { static SIGNED: RefCell<Vec<([u8; 33], Vec<u8>)>> = const { RefCell::new(vec![]) }; }
/// Which key was asked to sign what since the last call of this.
pub fn signed() -> Vec<([u8; 33], Vec<u8>)> {
    SIGNED.with(|s| s.borrow_mut().drain(..).collect())
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NoKey;
impl core::fmt::Display for NoKey {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("not a private key")
    }
}
impl std::error::Error for NoKey {}
/// The last 33 bytes of what stands for a private key are the public key.
pub fn sign_message(message: &[u8], private_key_der: &[u8]) -> Result<[u8; 64], NoKey> {
    let at = private_key_der.len().checked_sub(33).ok_or(NoKey)?;
    let k = private_key_der[at..].try_into().unwrap();
    SIGNED.with(|s| s.borrow_mut().push((k, message.to_vec())));
    Ok([7; 64])
}
