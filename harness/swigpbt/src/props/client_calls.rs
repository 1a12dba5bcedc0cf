// Written by tools/client_calls.py: every builder of the interface crate by name.
use super::client::{ixs, P};
use swig_interface::*;
pub fn call(imp: &str, f: &str, p: &P) -> Option<Result<Vec<solana_program::instruction::Instruction>, String>> {
    Some(match (imp, f) {
        ("Create", "new") => ixs(CreateInstruction::new(p.swig_account(), p.swig_bump_seed(), p.payer(), p.swig_wallet_address(), p.wallet_address_bump(), p.initial_authority(), p.actions(), p.id())),
        ("AddAuthority", "new_with_ed25519_authority") => ixs(AddAuthorityInstruction::new_with_ed25519_authority(p.swig_account(), p.payer(), p.authority(), p.acting_role_id(), p.new_authority_config(), p.actions())),
        ("AddAuthority", "new_with_secp256k1_authority") => ixs(AddAuthorityInstruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.acting_role_id(), p.new_authority_config(), p.actions())),
        ("AddAuthority", "new_with_secp256r1_authority") => ixs(AddAuthorityInstruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.acting_role_id(), p.public_key(), p.new_authority_config(), p.actions())),
        ("AddAuthority", "new_with_program_exec") => ixs(AddAuthorityInstruction::new_with_program_exec(p.swig_account(), p.payer(), p.preceding_instruction(), p.acting_role_id(), p.new_authority_config(), p.actions())),
        ("AddAuthority", "new_with_program_exec_ix_index") => ixs(AddAuthorityInstruction::new_with_program_exec_ix_index(p.swig_account(), p.payer(), p.preceding_instruction(), p.acting_role_id(), p.new_authority_config(), p.actions(), p.target_ix_index())),
        ("SignV2", "new_ed25519") => ixs(SignV2Instruction::new_ed25519(p.swig_account(), p.swig_wallet_address(), p.authority(), p.inner_instruction(), p.role_id())),
        ("SignV2", "new_ed25519_with_signers") => ixs(SignV2Instruction::new_ed25519_with_signers(p.swig_account(), p.swig_wallet_address(), p.authority(), p.inner_instruction(), p.role_id(), p.transaction_signers())),
        ("SignV2", "new_program_exec") => ixs(SignV2Instruction::new_program_exec(p.swig_account(), p.swig_wallet_address(), p.payer(), p.preceding_instruction(), p.inner_instruction(), p.role_id())),
        ("SignV2", "new_program_exec_with_ix_index") => ixs(SignV2Instruction::new_program_exec_with_ix_index(p.swig_account(), p.swig_wallet_address(), p.payer(), p.preceding_instruction(), p.inner_instruction(), p.role_id(), p.target_ix_index())),
        ("SignV2", "new_secp256k1") => ixs(SignV2Instruction::new_secp256k1(p.swig_account(), p.swig_wallet_address(), p.k1_fn(), p.current_slot(), p.counter(), p.inner_instruction(), p.role_id())),
        ("SignV2", "new_secp256k1_with_signers") => ixs(SignV2Instruction::new_secp256k1_with_signers(p.swig_account(), p.swig_wallet_address(), p.k1_fn(), p.current_slot(), p.counter(), p.inner_instruction(), p.role_id(), p.transaction_signers())),
        ("SignV2", "new_secp256r1") => ixs(SignV2Instruction::new_secp256r1(p.swig_account(), p.swig_wallet_address(), p.r1_fn(), p.current_slot(), p.counter(), p.inner_instruction(), p.role_id(), p.public_key())),
        ("SignV2", "new_secp256r1_with_signers") => ixs(SignV2Instruction::new_secp256r1_with_signers(p.swig_account(), p.swig_wallet_address(), p.r1_fn(), p.current_slot(), p.counter(), p.inner_instruction(), p.role_id(), p.public_key(), p.transaction_signers())),
        ("RemoveAuthority", "new_with_ed25519_authority") => ixs(RemoveAuthorityInstruction::new_with_ed25519_authority(p.swig_account(), p.payer(), p.authority(), p.acting_role_id(), p.authority_to_remove_id())),
        ("RemoveAuthority", "new_with_secp256k1_authority") => ixs(RemoveAuthorityInstruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.acting_role_id(), p.authority_to_remove_id())),
        ("RemoveAuthority", "new_with_secp256r1_authority") => ixs(RemoveAuthorityInstruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.acting_role_id(), p.authority_to_remove_id(), p.public_key())),
        ("RemoveAuthority", "new_with_program_exec") => ixs(RemoveAuthorityInstruction::new_with_program_exec(p.swig_account(), p.payer(), p.preceding_instruction(), p.acting_role_id(), p.authority_to_remove_id())),
        ("RemoveAuthority", "new_with_program_exec_ix_index") => ixs(RemoveAuthorityInstruction::new_with_program_exec_ix_index(p.swig_account(), p.payer(), p.preceding_instruction(), p.acting_role_id(), p.authority_to_remove_id(), p.target_ix_index())),
        ("UpdateAuthority", "new_with_ed25519_authority") => ixs(UpdateAuthorityInstruction::new_with_ed25519_authority(p.swig_account(), p.payer(), p.authority(), p.acting_role_id(), p.authority_to_update_id(), p.update_data())),
        ("UpdateAuthority", "new_with_secp256k1_authority") => ixs(UpdateAuthorityInstruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.acting_role_id(), p.authority_to_update_id(), p.update_data())),
        ("UpdateAuthority", "new_with_secp256r1_authority") => ixs(UpdateAuthorityInstruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.acting_role_id(), p.authority_to_update_id(), p.update_data(), p.public_key())),
        ("UpdateAuthority", "new_with_program_exec") => ixs(UpdateAuthorityInstruction::new_with_program_exec(p.swig_account(), p.payer(), p.preceding_instruction(), p.acting_role_id(), p.authority_to_update_id(), p.update_data())),
        ("UpdateAuthority", "new_with_program_exec_ix_index") => ixs(UpdateAuthorityInstruction::new_with_program_exec_ix_index(p.swig_account(), p.payer(), p.preceding_instruction(), p.acting_role_id(), p.authority_to_update_id(), p.update_data(), p.target_ix_index())),
        ("CreateSession", "new_with_ed25519_authority") => ixs(CreateSessionInstruction::new_with_ed25519_authority(p.swig_account(), p.payer(), p.authority(), p.role_id(), p.session_key(), p.session_duration())),
        ("CreateSession", "new_with_secp256k1_authority") => ixs(CreateSessionInstruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.role_id(), p.session_key(), p.session_duration())),
        ("CreateSession", "new_with_secp256r1_authority") => ixs(CreateSessionInstruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.role_id(), p.session_key(), p.session_duration(), p.public_key())),
        ("CreateSession", "new_with_program_exec") => ixs(CreateSessionInstruction::new_with_program_exec(p.swig_account(), p.payer(), p.preceding_instruction(), p.role_id(), p.session_duration(), p.session_key())),
        ("CreateSession", "new_with_program_exec_ix_index") => ixs(CreateSessionInstruction::new_with_program_exec_ix_index(p.swig_account(), p.payer(), p.preceding_instruction(), p.role_id(), p.session_duration(), p.session_key(), p.target_ix_index())),
        ("CreateSubAccount", "new_with_ed25519_authority") => ixs(CreateSubAccountInstruction::new_with_ed25519_authority(p.swig_account(), p.authority(), p.payer(), p.sub_account(), p.role_id(), p.sub_account_bump())),
        ("CreateSubAccount", "new_with_secp256k1_authority") => ixs(CreateSubAccountInstruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.sub_account(), p.role_id(), p.sub_account_bump())),
        ("CreateSubAccount", "new_with_secp256r1_authority") => ixs(CreateSubAccountInstruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.sub_account(), p.role_id(), p.sub_account_bump(), p.public_key())),
        ("CreateSubAccount", "new_with_program_exec") => ixs(CreateSubAccountInstruction::new_with_program_exec(p.swig_account(), p.payer(), p.preceding_instruction(), p.sub_account(), p.role_id(), p.sub_account_bump())),
        ("CreateSubAccount", "new_with_program_exec_ix_index") => ixs(CreateSubAccountInstruction::new_with_program_exec_ix_index(p.swig_account(), p.payer(), p.preceding_instruction(), p.sub_account(), p.role_id(), p.sub_account_bump(), p.target_ix_index())),
        ("WithdrawFromSubAccount", "new_with_ed25519_authority") => ixs(WithdrawFromSubAccountInstruction::new_with_ed25519_authority(p.swig_account(), p.authority(), p.payer(), p.sub_account(), p.swig_wallet_address(), p.role_id(), p.amount())),
        ("WithdrawFromSubAccount", "new_with_secp256k1_authority") => ixs(WithdrawFromSubAccountInstruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.sub_account(), p.swig_wallet_address(), p.role_id(), p.amount())),
        ("WithdrawFromSubAccount", "new_token_with_ed25519_authority") => ixs(WithdrawFromSubAccountInstruction::new_token_with_ed25519_authority(p.swig_account(), p.authority(), p.payer(), p.sub_account(), p.swig_wallet_address(), p.sub_account_token(), p.swig_token(), p.token_program(), p.role_id(), p.amount())),
        ("WithdrawFromSubAccount", "new_token_with_secp256k1_authority") => ixs(WithdrawFromSubAccountInstruction::new_token_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.sub_account(), p.swig_wallet_address(), p.sub_account_token(), p.swig_token(), p.token_program(), p.role_id(), p.amount())),
        ("WithdrawFromSubAccount", "new_with_secp256r1_authority") => ixs(WithdrawFromSubAccountInstruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.sub_account(), p.swig_wallet_address(), p.role_id(), p.amount(), p.public_key())),
        ("WithdrawFromSubAccount", "new_token_with_secp256r1_authority") => ixs(WithdrawFromSubAccountInstruction::new_token_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.sub_account(), p.swig_wallet_address(), p.sub_account_token(), p.swig_token(), p.token_program(), p.role_id(), p.amount(), p.public_key())),
        ("WithdrawFromSubAccount", "new_with_program_exec") => ixs(WithdrawFromSubAccountInstruction::new_with_program_exec(p.swig_account(), p.payer(), p.preceding_instruction(), p.sub_account(), p.swig_wallet_address(), p.role_id(), p.amount())),
        ("WithdrawFromSubAccount", "new_token_with_program_exec") => ixs(WithdrawFromSubAccountInstruction::new_token_with_program_exec(p.swig_account(), p.payer(), p.preceding_instruction(), p.sub_account(), p.swig_wallet_address(), p.sub_account_token(), p.swig_token(), p.token_program(), p.role_id(), p.amount())),
        ("WithdrawFromSubAccount", "new_with_program_exec_ix_index") => ixs(WithdrawFromSubAccountInstruction::new_with_program_exec_ix_index(p.swig_account(), p.payer(), p.preceding_instruction(), p.sub_account(), p.swig_wallet_address(), p.role_id(), p.amount(), p.target_ix_index())),
        ("WithdrawFromSubAccount", "new_token_with_program_exec_ix_index") => ixs(WithdrawFromSubAccountInstruction::new_token_with_program_exec_ix_index(p.swig_account(), p.payer(), p.preceding_instruction(), p.sub_account(), p.swig_wallet_address(), p.sub_account_token(), p.swig_token(), p.token_program(), p.role_id(), p.amount(), p.target_ix_index())),
        ("SubAccountSign", "new_with_ed25519_authority") => ixs(SubAccountSignInstruction::new_with_ed25519_authority(p.swig_account(), p.sub_account(), p.authority(), p.role_id(), p.instructions())),
        ("SubAccountSign", "new_with_secp256k1_authority") => ixs(SubAccountSignInstruction::new_with_secp256k1_authority(p.swig_account(), p.sub_account(), p.k1_fn(), p.current_slot(), p.counter(), p.role_id(), p.instructions())),
        ("SubAccountSign", "new_with_secp256r1_authority") => ixs(SubAccountSignInstruction::new_with_secp256r1_authority(p.swig_account(), p.sub_account(), p.r1_fn(), p.current_slot(), p.counter(), p.role_id(), p.instructions(), p.public_key())),
        ("SubAccountSign", "new_with_program_exec") => ixs(SubAccountSignInstruction::new_with_program_exec(p.swig_account(), p.sub_account(), p.payer(), p.preceding_instruction(), p.role_id(), p.instructions())),
        ("SubAccountSign", "new_with_program_exec_ix_index") => ixs(SubAccountSignInstruction::new_with_program_exec_ix_index(p.swig_account(), p.sub_account(), p.payer(), p.preceding_instruction(), p.role_id(), p.instructions(), p.target_ix_index())),
        ("ToggleSubAccount", "new_with_ed25519_authority") => ixs(ToggleSubAccountInstruction::new_with_ed25519_authority(p.swig_account(), p.authority(), p.payer(), p.sub_account(), p.role_id(), p.auth_role_id(), p.enabled())),
        ("ToggleSubAccount", "new_with_secp256k1_authority") => ixs(ToggleSubAccountInstruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.sub_account(), p.role_id(), p.auth_role_id(), p.enabled())),
        ("ToggleSubAccount", "new_with_secp256r1_authority") => ixs(ToggleSubAccountInstruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.sub_account(), p.role_id(), p.auth_role_id(), p.enabled(), p.public_key())),
        ("ToggleSubAccount", "new_with_program_exec") => ixs(ToggleSubAccountInstruction::new_with_program_exec(p.swig_account(), p.payer(), p.preceding_instruction(), p.sub_account(), p.role_id(), p.auth_role_id(), p.enabled())),
        ("ToggleSubAccount", "new_with_program_exec_ix_index") => ixs(ToggleSubAccountInstruction::new_with_program_exec_ix_index(p.swig_account(), p.payer(), p.preceding_instruction(), p.sub_account(), p.role_id(), p.auth_role_id(), p.enabled(), p.target_ix_index())),
        ("TransferAssetsV1", "new_with_ed25519_authority") => ixs(TransferAssetsV1Instruction::new_with_ed25519_authority(p.swig_account(), p.swig_wallet_address(), p.payer(), p.authority(), p.role_id())),
        ("TransferAssetsV1", "new_with_secp256k1_authority") => ixs(TransferAssetsV1Instruction::new_with_secp256k1_authority(p.swig_account(), p.swig_wallet_address(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.role_id())),
        ("TransferAssetsV1", "new_with_secp256r1_authority") => ixs(TransferAssetsV1Instruction::new_with_secp256r1_authority(p.swig_account(), p.swig_wallet_address(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.role_id(), p.public_key())),
        ("TransferAssetsV1", "new_with_program_exec") => ixs(TransferAssetsV1Instruction::new_with_program_exec(p.swig_account(), p.swig_wallet_address(), p.payer(), p.preceding_instruction(), p.role_id())),
        ("TransferAssetsV1", "new_with_program_exec_ix_index") => ixs(TransferAssetsV1Instruction::new_with_program_exec_ix_index(p.swig_account(), p.swig_wallet_address(), p.payer(), p.preceding_instruction(), p.role_id(), p.target_ix_index())),
        ("SetRentClaimerV1", "new_with_ed25519_authority") => ixs(SetRentClaimerV1Instruction::new_with_ed25519_authority(p.swig_account(), p.payer(), p.authority(), p.role_id(), p.rent_claimer())),
        ("SetRentClaimerV1", "new_with_secp256k1_authority") => ixs(SetRentClaimerV1Instruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.role_id(), p.rent_claimer())),
        ("SetRentClaimerV1", "new_with_secp256r1_authority") => ixs(SetRentClaimerV1Instruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.role_id(), p.rent_claimer(), p.public_key())),
        ("CloseTokenAccountV1", "new_with_ed25519_authority") => ixs(CloseTokenAccountV1Instruction::new_with_ed25519_authority(p.swig_account(), p.swig_wallet_address(), p.authority(), p.destination(), p.token_program(), p.token_accounts(), p.role_id())),
        ("CloseTokenAccountV1", "new_with_secp256k1_authority") => ixs(CloseTokenAccountV1Instruction::new_with_secp256k1_authority(p.swig_account(), p.swig_wallet_address(), p.k1_fn(), p.current_slot(), p.counter(), p.destination(), p.token_program(), p.token_accounts(), p.role_id())),
        ("CloseTokenAccountV1", "new_with_secp256r1_authority") => ixs(CloseTokenAccountV1Instruction::new_with_secp256r1_authority(p.swig_account(), p.swig_wallet_address(), p.r1_fn(), p.current_slot(), p.counter(), p.destination(), p.token_program(), p.token_accounts(), p.role_id(), p.public_key())),
        ("CloseSwigV1", "new_with_ed25519_authority") => ixs(CloseSwigV1Instruction::new_with_ed25519_authority(p.swig_account(), p.swig_wallet_address(), p.authority(), p.destination(), p.role_id())),
        ("CloseSwigV1", "new_with_secp256k1_authority") => ixs(CloseSwigV1Instruction::new_with_secp256k1_authority(p.swig_account(), p.swig_wallet_address(), p.k1_fn(), p.current_slot(), p.counter(), p.destination(), p.role_id())),
        ("CloseSwigV1", "new_with_secp256r1_authority") => ixs(CloseSwigV1Instruction::new_with_secp256r1_authority(p.swig_account(), p.swig_wallet_address(), p.r1_fn(), p.current_slot(), p.counter(), p.destination(), p.role_id(), p.public_key())),
        ("CreateSubAccountV2", "new_with_ed25519_authority") => ixs(CreateSubAccountV2Instruction::new_with_ed25519_authority(p.swig_account(), p.authority(), p.payer(), p.sub_account_state(), p.sub_account(), p.role_id(), p.state_bump(), p.asset_bump())),
        ("CreateSubAccountV2", "new_with_secp256k1_authority") => ixs(CreateSubAccountV2Instruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.sub_account_state(), p.sub_account(), p.role_id(), p.state_bump(), p.asset_bump())),
        ("CreateSubAccountV2", "new_with_secp256r1_authority") => ixs(CreateSubAccountV2Instruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.sub_account_state(), p.sub_account(), p.role_id(), p.state_bump(), p.asset_bump(), p.public_key())),
        ("ToggleSubAccountV2", "new_with_ed25519_authority") => ixs(ToggleSubAccountV2Instruction::new_with_ed25519_authority(p.swig_account(), p.authority(), p.payer(), p.sub_account_state(), p.auth_role_id(), p.subacc_id(), p.enabled())),
        ("ToggleSubAccountV2", "new_with_secp256k1_authority") => ixs(ToggleSubAccountV2Instruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.sub_account_state(), p.auth_role_id(), p.subacc_id(), p.enabled())),
        ("ToggleSubAccountV2", "new_with_secp256r1_authority") => ixs(ToggleSubAccountV2Instruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.sub_account_state(), p.auth_role_id(), p.subacc_id(), p.enabled(), p.public_key())),
        ("SubAccountSignV2", "new_with_ed25519_authority") => ixs(SubAccountSignV2Instruction::new_with_ed25519_authority(p.swig_account(), p.sub_account_state(), p.sub_account(), p.authority(), p.role_id(), p.subacc_id(), p.instructions())),
        ("SubAccountSignV2", "new_with_secp256k1_authority") => ixs(SubAccountSignV2Instruction::new_with_secp256k1_authority(p.swig_account(), p.sub_account_state(), p.sub_account(), p.k1_fn(), p.current_slot(), p.counter(), p.role_id(), p.subacc_id(), p.instructions())),
        ("SubAccountSignV2", "new_with_secp256r1_authority") => ixs(SubAccountSignV2Instruction::new_with_secp256r1_authority(p.swig_account(), p.sub_account_state(), p.sub_account(), p.r1_fn(), p.current_slot(), p.counter(), p.role_id(), p.subacc_id(), p.instructions(), p.public_key())),
        ("WithdrawFromSubAccountV2", "new_with_ed25519_authority") => ixs(WithdrawFromSubAccountV2Instruction::new_with_ed25519_authority(p.swig_account(), p.authority(), p.payer(), p.sub_account_state(), p.sub_account(), p.swig_wallet_address(), p.role_id(), p.subacc_id(), p.amount())),
        ("WithdrawFromSubAccountV2", "new_token_with_ed25519_authority") => ixs(WithdrawFromSubAccountV2Instruction::new_token_with_ed25519_authority(p.swig_account(), p.authority(), p.payer(), p.sub_account_state(), p.sub_account(), p.swig_wallet_address(), p.source_token(), p.destination_token(), p.token_program(), p.role_id(), p.subacc_id(), p.amount())),
        ("WithdrawFromSubAccountV2", "new_with_secp256k1_authority") => ixs(WithdrawFromSubAccountV2Instruction::new_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.sub_account_state(), p.sub_account(), p.swig_wallet_address(), p.role_id(), p.subacc_id(), p.amount())),
        ("WithdrawFromSubAccountV2", "new_token_with_secp256k1_authority") => ixs(WithdrawFromSubAccountV2Instruction::new_token_with_secp256k1_authority(p.swig_account(), p.payer(), p.k1_fn(), p.current_slot(), p.counter(), p.sub_account_state(), p.sub_account(), p.swig_wallet_address(), p.source_token(), p.destination_token(), p.token_program(), p.role_id(), p.subacc_id(), p.amount())),
        ("WithdrawFromSubAccountV2", "new_with_secp256r1_authority") => ixs(WithdrawFromSubAccountV2Instruction::new_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.sub_account_state(), p.sub_account(), p.swig_wallet_address(), p.role_id(), p.subacc_id(), p.amount(), p.public_key())),
        ("WithdrawFromSubAccountV2", "new_token_with_secp256r1_authority") => ixs(WithdrawFromSubAccountV2Instruction::new_token_with_secp256r1_authority(p.swig_account(), p.payer(), p.r1_fn(), p.current_slot(), p.counter(), p.sub_account_state(), p.sub_account(), p.swig_wallet_address(), p.source_token(), p.destination_token(), p.token_program(), p.role_id(), p.subacc_id(), p.amount(), p.public_key())),
        ("ReplaceAuthority", "new_with_ed25519_authority") => ixs(ReplaceAuthorityInstruction::new_with_ed25519_authority(p.swig_account(), p.authority(), p.acting_role_id(), p.target_role_id(), p.new_authority())),
        ("ReplaceAuthority", "new_with_secp256k1_authority") => ixs(ReplaceAuthorityInstruction::new_with_secp256k1_authority(p.swig_account(), p.k1_fn(), p.current_slot(), p.counter(), p.acting_role_id(), p.target_role_id(), p.new_authority())),
        ("ReplaceAuthority", "new_with_secp256r1_authority") => ixs(ReplaceAuthorityInstruction::new_with_secp256r1_authority(p.swig_account(), p.r1_fn(), p.current_slot(), p.counter(), p.acting_role_id(), p.target_role_id(), p.new_authority(), p.public_key())),
        ("ReplaceAuthority", "new_with_program_exec") => ixs(ReplaceAuthorityInstruction::new_with_program_exec(p.swig_account(), p.swig_wallet_address(), p.preceding_instruction(), p.acting_role_id(), p.target_role_id(), p.new_authority())),
        _ => return None,
    })
}
