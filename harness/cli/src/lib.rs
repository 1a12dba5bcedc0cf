//! The sources of the command line client, with stand-ins for the terminal
//! and for the crates that are not here. What it prints is kept.
extern crate clikit as alloy_primitives;
extern crate clikit as alloy_signer;
extern crate clikit as alloy_signer_local;
extern crate clikit as colored;
extern crate clikit as console;
extern crate clikit as dialoguer;
extern crate clikit as directories;
extern crate clikit as dirs;
extern crate clikit as indicatif;
extern crate clikit as openssl;
extern crate clikit as spl_token;

pub use swig_sdk::out;
macro_rules! println {
    ($($x:tt)*) => { $crate::out::put(format!($($x)*)) };
}
include!("/repo/cli/src/main.rs");

pub use config::{SigningAuthority, SwigConfig as Config};

/// Options of one command that share a short name.
pub fn clashes() -> Vec<String> {
    use clap::CommandFactory;
    let mut bad = vec![];
    let root = SwigCli::command();
    for c in std::iter::once(&root).chain(root.get_subcommands()) {
        let mut seen = HashMap::new();
        for a in c.get_arguments() {
            if let Some(s) = a.get_short() {
                if let Some(b) = seen.insert(s, a.get_id().to_string()) {
                    bad.push(format!("{}: -{s} is both {b} and {}", c.get_name(), a.get_id()));
                }
            }
        }
    }
    bad
}

/// One run of the program with these arguments.
pub fn run(args: &[String], payer: Keypair, config: SwigConfig) -> Result<(), String> {
    let cli = SwigCli::try_parse_from(args).map_err(|e| e.to_string())?;
    let mut ctx = SwigCliContext {
        payer,
        config_dir: PathBuf::from("."),
        rpc_url: "http://here".to_string(),
        authority: None,
        wallet: None,
        swig_id: None,
        config,
    };
    match cli.command {
        Some(c) => run_command_mode(&mut ctx, c).map_err(|e| e.to_string()),
        None => Ok(()),
    }
}

/// The program as a dialogue, one action at a time.
pub struct Session(SwigCliContext);
impl Session {
    pub fn new(payer: Keypair) -> Self {
        Session(SwigCliContext {
            payer,
            config_dir: PathBuf::from("."),
            rpc_url: "http://here".to_string(),
            authority: None,
            wallet: None,
            swig_id: None,
            config: SwigConfig::default(),
        })
    }
    pub fn go(&mut self) -> Result<(), String> {
        run_interactive_mode(&mut self.0).map_err(|e| e.to_string())
    }
    pub fn open(&self) -> bool {
        self.0.wallet.is_some()
    }
}
