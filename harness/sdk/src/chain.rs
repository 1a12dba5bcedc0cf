//! Stand-ins for the crates that reach the network. A client talks to the
//! chain the test put in place.
use solana_program::{hash::Hash, instruction::Instruction, pubkey::Pubkey};
use solana_sdk::{account::Account, signature::Signature, transaction::SerializableTransaction};
use std::cell::RefCell;

pub trait Chain {
    fn account(&self, k: &Pubkey) -> Option<Account>;
    fn slot(&self) -> u64;
    fn send(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> Result<(), String>;
}
thread_local! {
    static CHAIN: RefCell<Option<Box<dyn Chain>>> = const { RefCell::new(None) };
}
/// Everything a client asks from now on is answered by `c`.
pub fn install(c: Box<dyn Chain>) {
    CHAIN.with(|x| *x.borrow_mut() = Some(c));
}
fn with<T>(f: impl FnOnce(&mut dyn Chain) -> T) -> T {
    CHAIN.with(|x| f(x.borrow_mut().as_mut().expect("no chain").as_mut()))
}
pub mod client_error {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct ClientError(pub String);
    impl core::fmt::Display for ClientError {
        fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for ClientError {}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct CommitmentConfig;
impl CommitmentConfig {
    pub fn confirmed() -> Self {
        Self
    }
    pub fn finalized() -> Self {
        Self
    }
    pub fn processed() -> Self {
        Self
    }
}
pub mod rpc_request {
    pub enum TokenAccountsFilter {
        Mint(super::Pubkey),
        ProgramId(super::Pubkey),
    }
}
pub mod rpc_response {
    pub struct Response<T> {
        pub value: T,
    }
    pub struct UiAccount {
        pub data: super::UiAccountData,
    }
    pub struct RpcKeyedAccount {
        pub pubkey: String,
        pub account: UiAccount,
    }
}
/// A parsed account; nothing here is ever parsed.
pub struct Value;
impl Value {
    pub fn get(&self, _: &str) -> Option<&Value> {
        None
    }
    pub fn as_str(&self) -> Option<&str> {
        None
    }
    pub fn as_f64(&self) -> Option<f64> {
        None
    }
}
impl std::ops::Index<&str> for Value {
    type Output = Value;
    fn index(&self, _: &str) -> &Value {
        &Value
    }
}
pub struct ParsedAccount {
    pub parsed: Value,
}
pub enum UiAccountData {
    LegacyBinary(String),
    Json(ParsedAccount),
}
pub mod rpc_client {
    use super::client_error::ClientError;
    use super::rpc_request::TokenAccountsFilter;
    use super::rpc_response::{Response, RpcKeyedAccount};
    use super::*;
    type R<T> = Result<T, ClientError>;
    pub struct RpcClient(String);
    impl RpcClient {
        pub fn new(url: String) -> Self {
            Self(url)
        }
        pub fn new_with_commitment(url: String, _: CommitmentConfig) -> Self {
            Self(url)
        }
        /// There is one cluster.
        fn there(&self) -> R<()> {
            if self.0 == "http://here" { Ok(()) } else { Err(ClientError(format!("no answer from {}", self.0))) }
        }
        pub fn get_account(&self, k: &Pubkey) -> R<Account> {
            self.there()?;
            with(|c| c.account(k)).ok_or(ClientError("AccountNotFound".into()))
        }
        pub fn get_account_data(&self, k: &Pubkey) -> R<Vec<u8>> {
            self.there()?;
            self.get_account(k).map(|a| a.data)
        }
        pub fn get_account_with_commitment(&self, k: &Pubkey, _: CommitmentConfig) -> R<Response<Option<Account>>> {
            self.there()?;
            Ok(Response { value: with(|c| c.account(k)) })
        }
        pub fn get_balance(&self, k: &Pubkey) -> R<u64> {
            self.there()?;
            Ok(with(|c| c.account(k)).map(|a| a.lamports).unwrap_or(0))
        }
        pub fn get_latest_blockhash(&self) -> R<Hash> {
            self.there()?;
            Ok(Hash([7; 32]))
        }
        pub fn get_slot(&self) -> R<u64> {
            self.there()?;
            Ok(with(|c| c.slot()))
        }
        pub fn get_token_accounts_by_owner(&self, _: &Pubkey, _: TokenAccountsFilter) -> R<Vec<RpcKeyedAccount>> {
            self.there()?;
            Ok(vec![])
        }
        pub fn send_and_confirm_transaction(&self, tx: &impl SerializableTransaction) -> R<Signature> {
            self.there()?;
            let m = tx.parts();
            with(|c| c.send(&m.ixs, &m.signers)).map_err(ClientError)?;
            Ok(Signature(1))
        }
    }
}
pub struct Address;
pub struct B256;
pub struct PrivateKeySigner;
pub mod state {
    pub struct AddressLookupTable;
}
/// Where the token program lives.
pub const ID: Pubkey = solana_sdk::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub const ATA_PROGRAM: Pubkey = solana_sdk::pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub fn get_associated_token_address(wallet: &Pubkey, mint: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[wallet.as_ref(), ID.as_ref(), mint.as_ref()], &ATA_PROGRAM).0
}
pub mod instruction {
    use super::*;
    use solana_program::instruction::AccountMeta;
    pub fn create_associated_token_account(
        payer: &Pubkey,
        wallet: &Pubkey,
        mint: &Pubkey,
        token_program: &Pubkey,
    ) -> Instruction {
        Instruction {
            program_id: ATA_PROGRAM,
            accounts: vec![
                AccountMeta::new(*payer, true),
                AccountMeta::new(get_associated_token_address(wallet, mint), false),
                AccountMeta::new_readonly(*wallet, false),
                AccountMeta::new_readonly(*mint, false),
                AccountMeta::new_readonly(Pubkey::new_from_array([0; 32]), false),
                AccountMeta::new_readonly(*token_program, false),
            ],
            data: vec![0],
        }
    }
}
