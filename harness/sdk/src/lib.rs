//! The SDK's sources, with stand-ins for the crates that reach the network.
//! Each `extern crate self as ...` gives this crate the name of one of them.
extern crate self as alloy_primitives;
extern crate self as alloy_signer_local;
extern crate self as solana_account_decoder_client_types;
extern crate self as solana_address_lookup_table_interface;
extern crate self as solana_client;
extern crate self as solana_commitment_config;
extern crate self as spl_associated_token_account;
extern crate self as spl_token;

/// What is printed is kept.
pub mod out {
    use std::cell::RefCell;
    thread_local! { static OUT: RefCell<String> = const { RefCell::new(String::new()) }; }
    pub fn put(s: String) {
        OUT.with(|o| {
            o.borrow_mut().push_str(&s);
            o.borrow_mut().push('\n');
        })
    }
    pub fn take() -> String {
        OUT.with(|o| std::mem::take(&mut *o.borrow_mut()))
    }
}
macro_rules! println {
    ($($x:tt)*) => { $crate::out::put(format!($($x)*)) };
}

#[path = "/repo/rust-sdk/src/client_role.rs"]
pub mod client_role;
#[path = "/repo/rust-sdk/src/error.rs"]
pub mod error;
#[path = "/repo/rust-sdk/src/instruction_builder.rs"]
pub mod instruction_builder;
#[path = "/repo/rust-sdk/src/types.rs"]
pub mod types;
#[path = "/repo/rust-sdk/src/utils.rs"]
pub mod utils;
#[path = "/repo/rust-sdk/src/wallet.rs"]
pub mod wallet;

pub use client_role::*;
pub use error::SwigError;
pub use instruction_builder::SwigInstructionBuilder;
pub use swig_state::{authority, swig};
pub use types::{Permission, RecurringConfig};
pub use utils::*;
pub use wallet::SwigWallet;

mod chain;
pub use chain::*;
