//! The system program's address.
pub mod program {
    pub const ID: solana_program::pubkey::Pubkey = solana_program::pubkey::Pubkey::new_from_array([0; 32]);
}
pub mod instruction {
    use solana_program::{
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
    };
    pub fn transfer(from: &Pubkey, to: &Pubkey, lamports: u64) -> Instruction {
        let mut data = vec![2, 0, 0, 0];
        data.extend_from_slice(&lamports.to_le_bytes());
        Instruction {
            program_id: super::program::ID,
            accounts: vec![AccountMeta::new(*from, true), AccountMeta::new(*to, false)],
            data,
        }
    }
}
