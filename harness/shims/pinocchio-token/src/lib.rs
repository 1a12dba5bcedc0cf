//! Stand-in for pinocchio-token 0.3 (not in the offline cargo cache). The
//! program only imports `instructions::Transfer`; the wire format below is the
//! published one, so a use of it would still do the right thing.
pub mod instructions {
    use pinocchio::{
        account_info::AccountInfo,
        instruction::{AccountMeta, Instruction, Signer},
        program::invoke_signed,
        pubkey::Pubkey,
        ProgramResult,
    };
    const ID: Pubkey = [
        6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133,
        237, 95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169,
    ];
    pub struct Transfer<'a> {
        pub from: &'a AccountInfo,
        pub to: &'a AccountInfo,
        pub authority: &'a AccountInfo,
        pub amount: u64,
    }
    impl Transfer<'_> {
        pub fn invoke(&self) -> ProgramResult {
            self.invoke_signed(&[])
        }
        pub fn invoke_signed(&self, signers: &[Signer]) -> ProgramResult {
            let metas = [
                AccountMeta::writable(self.from.key()),
                AccountMeta::writable(self.to.key()),
                AccountMeta::readonly_signer(self.authority.key()),
            ];
            let mut data = [0u8; 9];
            data[0] = 3;
            data[1..9].copy_from_slice(&self.amount.to_le_bytes());
            invoke_signed(
                &Instruction { program_id: &ID, accounts: &metas, data: &data },
                &[self.from, self.to, self.authority],
                signers,
            )
        }
    }
}
