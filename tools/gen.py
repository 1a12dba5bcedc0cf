#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or [], state=state or []))
S = "state/src/"; A = "program/src/actions/"; I = "instructions/src/"
VM = "Bounded random search (counts in the evidence file). Trusts the harness's model of the Solana runtime and of the system, token and stake programs."
UN = "Bounded random search (counts in the evidence file) over the real library code run natively with the on-chain code paths switched on."

p("P01", "Role list evolves exactly as requested",
  "After any history of adding, removing and editing roles, the wallet holds exactly the roles and permissions that the accepted requests describe, each under its own never-reused id, and everything else in the account is byte-for-byte as before. A refused request changes nothing. The account stays well formed and rent exempt at every step, and only the rent that grows or is freed moves between the payer and the wallet.",
  ["histories", "inputs"], "Every sequence of add, remove and update requests (all update forms, all authority kinds, any permission lists) on any wallet, with or without optional trailing data.",
  "Tests exercise a few short sequences with one or two authority kinds; offsets and boundaries depend on the sizes and order of all roles in the history.",
  [S+"swig.rs", S+"role.rs", A+"add_authority_v1.rs", A+"remove_authority_v1.rs", A+"update_authority_v1.rs"],
  [("role append and removal with boundary rewriting", S+"swig.rs SwigBuilder"), ("update operations", A+"update_authority_v1.rs")],
  "stateful model-based testing against a reference role list", VM, ["account data after each step"])
p("P02", "Fixed allowances never allow more than was granted",
  "For a one-time allowance of SOL, tokens, stake, or either restricted to a destination, the total of all accepted spends never exceeds the granted amount, an affordable spend is always accepted, and the remaining amount is exactly the grant minus what was spent. A refused spend leaves the allowance unchanged.",
  ["histories", "inputs"], "Every grant and every sequence of spend amounts, including zero and the extremes of the integer range.",
  "Tests try a few amounts below and above one limit; boundary and overflow behaviour depends on the amounts and their order.",
  [S+"action/sol_limit.rs", S+"action/token_limit.rs", S+"action/stake_limit.rs", S+"action/sol_destination_limit.rs", S+"action/token_destination_limit.rs"],
  [("checked decrement of the stored allowance", S+"action/*_limit.rs run")],
  "model-based property test of spend sequences against exact arithmetic", UN)
p("P03", "Recurring allowances bound the spend of every window",
  "For a recurring allowance of SOL, tokens, stake, or either restricted to a destination, the spends accepted between two refills never total more than the recurring amount, and a refill happens only when more than a full window has passed since the last one, at a spend that fits the fresh allowance. The window start only ever moves forward, never past the current slot, and a refused spend leaves the allowance unchanged.",
  ["histories", "inputs"], "Every recurring amount, window of at least one slot, starting state and sequence of (slot, amount) spends with non-decreasing slots.",
  "Tests use one window and two or three spends; window arithmetic depends on slots far apart, window edges, and states left by earlier refusals.",
  [S+"action/sol_recurring_limit.rs", S+"action/token_recurring_limit.rs", S+"action/stake_recurring_limit.rs", S+"action/sol_recurring_destination_limit.rs", S+"action/token_recurring_destination_limit.rs"],
  [("window check, refill and decrement", S+"action/*_recurring_*limit.rs run")],
  "model-based property test of (slot, amount) histories against a reference accountant", UN)
p("P04", "Program-scoped allowances count and read balances correctly",
  "A program-scoped allowance accepts spends only within its limit (per window when recurring), and the balance it watches is exactly the little-endian number of the declared width at the declared place in the account. A field that is reversed, of the wrong width or outside the account is reported as an error, never read from elsewhere, and where no field is declared the watched balance is zero.",
  ["histories", "inputs"], "Every scope kind, numeric width, field position, window of at least one slot, account content and sequence of spends.",
  "Tests cover a handful of widths and well-placed fields; out-of-range and reversed fields and mixed sequences are not sampled.",
  [S+"action/program_scope.rs", S+"util.rs"],
  [("balance field decoding", S+"util.rs read_numeric_field"), ("limit accounting", S+"action/program_scope.rs run")],
  "model-based property test plus canary-guarded memory reads", UN)
p("P05", "A permission is found exactly when the role holds it",
  "Looking up a permission in a role succeeds exactly when the role's list contains a matching entry of that kind for that subject (mint, destination, program, role or sub-account), and yields that entry's data, wherever it stands in the list. Anything not granted is absent: no other entry's bytes can be taken for it.",
  ["inputs", "configurations"], "Every valid permission list, in any order, with any number of entries of the same kind, and every subject looked up.",
  "Tests look up permissions in short lists; confusion between neighbouring entries depends on the exact list.",
  [S+"role.rs", S+"action/mod.rs", S+"action/"],
  [("cursor walk over action boundaries", S+"role.rs get_action / get_action_mut"), ("subject matching", S+"action/*.rs match_data")],
  "differential property test against an independent decoder", UN)
p("P06", "Malformed permission lists are never stored",
  "A permission list is accepted for a role only if it is a sequence of complete, known permissions whose payloads have the right size and shape, at least one and at most 255 of them, with no duplicated scoped sub-account grant; anything else is refused with an error. An accepted list is stored faithfully.",
  ["inputs"], "Every byte string offered as a permission list, including truncations, wrong lengths and unknown kinds.",
  "Tests offer well-formed lists and a couple of corruptions.",
  [S+"swig.rs", S+"action/mod.rs", S+"action/"],
  [("layout validation per permission", S+"action/mod.rs validate_layout"), ("duplicate rejection", S+"action/mod.rs reject_duplicate_v2_scoped")],
  "structure-aware fuzzing of the permission list against a reference grammar", UN)
p("P07", "Ed25519 roles act only with the holder's signature",
  "A role held by an Ed25519 key authorises a request only when the account pointed at is that very key and it signed the transaction. Any other index, key or missing signature is refused, and never by aborting.",
  ["inputs"], "Every account list, index, payload and signer set.",
  "Tests try the right key and one wrong one.",
  [S+"authority/ed25519.rs", "assertions/src/lib.rs"],
  [("signer and key check", S+"authority/ed25519.rs ed25519_authenticate")],
  "generated-input search against an acceptance oracle, at unit and whole-program level", UN)
p("P08", "Secp256k1 signatures bind the exact request",
  "A role held by a secp256k1 key authorises a request only with a fresh, canonical signature by that key over precisely this request: its covered data, the complete ordered account list with its privileges, the slot and the next counter. Changing any covered part, the key, the slot age or the signature makes it refused, and an honest signature is accepted.",
  ["inputs"], "Every key, request, account list, slot, counter, prefix and single mutation of them.",
  "Tests sign a few fixed requests; which parts are covered can only be told by mutating each of them.",
  [S+"authority/secp256k1.rs"],
  [("message hash, recovery and key comparison", S+"authority/secp256k1.rs secp256k1_authenticate")],
  "sign-then-mutate property test against an acceptance oracle", VM)
p("P09", "Secp256r1 signatures bind the exact request",
  "A role held by a secp256r1 key authorises a request only when the instruction just before it is the signature-verification instruction, checking one signature by that key, entirely from its own data, over precisely this request (data, account list, slot, next counter). Any other placement, reference, key, message, age or counter is refused, and an honest request is accepted.",
  ["inputs"], "Every key, request, account list, slot, counter, and every mutation of the verification instruction and its position.",
  "Tests cover a few offset mistakes; the accepted set is defined by all fields together.",
  [S+"authority/secp256r1.rs"],
  [("verification instruction parsing", S+"authority/secp256r1.rs verify_secp256r1_instruction_data"), ("message hash", S+"authority/secp256r1.rs compute_message_hash")],
  "sign-then-mutate property test with an idealised signature scheme", VM)
p("P10", "WebAuthn assertions commit to the request",
  "A WebAuthn assertion authorises a request only if the signed client data is an assertion (not a registration) whose top-level challenge is the encoding of this request's hash; whatever origin, field order, extra fields or nesting it contains. Every honest (browser-made) assertion within the size limits is accepted and malformed ones are refused without aborting.",
  ["inputs"], "Every authenticator data, field order, origin text and code table, and every client data JSON.",
  "Tests use a couple of fixed JSON documents; parser confusion needs nested, duplicated and escaped fields.",
  [S+"authority/secp256r1.rs"],
  [("client data reconstruction", S+"authority/secp256r1.rs webauthn_message"), ("JSON field extraction", S+"authority/secp256r1.rs extract_top_level_string_field")],
  "grammar-based generation with a reference JSON reader and Huffman encoder", VM)
p("P11", "Program-execution roles require the right prior instruction",
  "A role bound to a program authorises a request only if the named (or directly preceding) earlier instruction of the same transaction ran that program, with data starting with the agreed prefix and with this wallet's config and wallet addresses as its first two accounts. Every such transaction is accepted whatever else the instruction carries, and no other is.",
  ["inputs", "histories"], "Every transaction layout, instruction index, program, data, prefix and account list.",
  "Tests cover a few fixed transactions with one prefix.",
  [S+"authority/programexec/mod.rs", S+"authority/programexec/session.rs"],
  [("inspection of the earlier instruction", S+"authority/programexec/mod.rs program_exec_authenticate")],
  "generated transactions against an acceptance oracle", VM)
p("P12", "No signed request can be used twice",
  "For roles held by secp256k1 and secp256r1 keys, each accepted signed request advances the role's counter by exactly one and only the next counter value is accepted, so over any history no signed request is accepted a second time. A refused request does not advance the counter, and counters of different roles are independent.",
  ["histories"], "Every interleaving of honest, replayed, reordered, stale and future requests over several roles.",
  "Tests replay one request once; longer histories and interleavings of roles are not explored.",
  [S+"authority/secp256k1.rs", S+"authority/secp256r1.rs"],
  [("odometer comparison and update", S+"authority/secp256k1.rs, secp256r1.rs *_authority_authenticate")],
  "stateful model-based testing with replayed and reordered requests", VM)
p("P13", "Sessions end on time and only their key can use them",
  "A session can be opened only with the role's master credential and for no longer than the role's maximum; until its last slot requests need the session key's signature, afterwards they are refused, and opening a new session replaces the old key at once. Failed attempts leave the session unchanged, and roles without sessions cannot open one.",
  ["histories", "inputs"], "Every history of opening sessions and acting at arbitrary slots, for all four session-capable kinds.",
  "Tests open one session and check one slot inside and outside.",
  [S+"authority/ed25519.rs", S+"authority/secp256k1.rs", S+"authority/secp256r1.rs", S+"authority/programexec/session.rs", A+"create_session_v1.rs"],
  [("session expiry and key check", S+"authority/*.rs authenticate_session / start_session")],
  "stateful model-based testing over slots and keys", VM)
p("P14", "Authorities are stored and recognised faithfully",
  "Registering a credential of any kind stores exactly that credential with fresh counters and no open session, reports its kind and identity correctly, and it is recognised as itself and as no other credential of its kind. Credentials of the wrong size or shape are refused.",
  ["inputs", "configurations"], "Every authority kind, credential bytes (both key encodings), and set of registered credentials.",
  "Tests register a few keys of each kind and look up one.",
  [S+"authority/", S+"swig.rs"],
  [("credential encoding", S+"authority/*.rs set_into_bytes"), ("credential matching", S+"authority/*.rs match_data")],
  "round-trip and differential property test with an independent encoder", UN)
p("P15", "Bundled instructions decode to exactly what was encoded",
  "Decoding a bundle of inner instructions yields, in order, exactly the encoded programs, accounts, privileges and data; an account is presented as signer only if it signed the outer request or is the wallet itself, and never when restricted. Any bundle that is truncated or refers to accounts that were not supplied is refused, without reading outside the bundle or aborting.",
  ["inputs"], "Every account list and every byte string as bundle, up to the account limit.",
  "Tests decode a few small bundles; memory safety and boundary sizes depend on the input.",
  [I+"lib.rs"],
  [("bundle iterator", I+"lib.rs InstructionIterator")],
  "differential fuzzing against a reference decoder with poisoned memory", UN)
p("P16", "Client bundling preserves the instructions",
  "Packing any list of instructions into a bundle and decoding it against the produced account list gives back the same programs, accounts in order, and data, with every privilege an inner instruction needs kept and none added; who signs among the accounts the caller itself supplied stays the caller's choice, and the wallet's own signature is never demanded from the outside. The sub-account variant keeps the same guarantees.",
  ["inputs"], "Every list of instructions over any set of accounts with repeated accounts and mixed privileges, within the format's size limits.",
  "Tests pack one or two instructions without conflicting privileges.",
  [I+"compact_instructions.rs", I+"lib.rs"],
  [("account deduplication and indexing", I+"compact_instructions.rs")],
  "round-trip property test through the real decoder", UN)
p("P17", "Optional trailing data survives and is read strictly",
  "The optional trailing record of a wallet is read as absent when empty, as its exact value when well formed, and as an error in every other case; saving and restoring it across a resize reproduces it byte for byte at the right place, so that no request which grows or shrinks the roles alters it. The role region and the trailing record never overlap and together are the whole account.",
  ["inputs", "histories"], "Every role region, every trailing byte string, and every resize by a history of requests.",
  "Tests use one well-formed record and a few truncations.",
  [S+"tail/mod.rs", S+"tail/rent_claimer.rs", S+"swig.rs"],
  [("typed record reader", S+"tail/mod.rs TailDescriptor"), ("save and restore", S+"tail/mod.rs SavedTail")],
  "differential property test against a reference reader", UN)
p("P18", "Rent beneficiary is set once and receives the closing rent",
  "The beneficiary of a wallet's rent can be set only by a role with full or closing rights, only once, and afterwards no request changes or drops it. When the wallet closes, the config account's rent goes to that beneficiary.",
  ["histories"], "Every history of administration requests before and after setting a beneficiary, by roles of every kind.",
  "Tests set it once and close.",
  [A+"set_rent_claimer_v1.rs", A+"close_swig_v1.rs", S+"tail/"],
  [("set-once check", A+"set_rent_claimer_v1.rs")],
  "stateful model-based testing of the whole program", VM)
p("P19", "Addresses and account tags of different kinds never collide",
  "Config, wallet, sub-account and sub-account state addresses are each derived from the documented seeds for their own wallet, role or number, and two different (kind, wallet, number) never share a seed list. The tag and layout of every account type, and the numeric code of every permission, authority kind and sub-account state, are as documented and unknown codes are refused.",
  ["inputs", "configurations"], "Every wallet id, role id and sub-account number; every numeric code.",
  "Tests check single seeds and codes.",
  [S+"swig.rs", S+"sub_account_v2.rs", S+"lib.rs", S+"action/mod.rs", S+"authority/mod.rs"],
  [("seed constructors", S+"swig.rs *_seeds"), ("state codec", S+"sub_account_v2.rs")],
  "differential property test with independent derivations, exhaustive over codes", UN)
p("P20", "Limited roles cannot move more value than granted",
  "Whatever bundle of instructions a limited role has executed, and over any history, the SOL, tokens, stake and program-scoped balances that leave the wallet never exceed what the role's allowances permit (per window, per destination and per mint), and anything without an allowance does not move. The stored allowances afterwards account for what left.",
  ["histories", "inputs"], "Every set of allowances, every bundle of transfers, token, stake and third-party calls, and every sequence of such requests over slots.",
  "Tests run single transfers against single limits; evasion needs bundles that combine instructions, programs, refunds and accounts.",
  [A+"sign_v2.rs", "program/src/lib.rs", "program/src/util/mod.rs", S+"action/"],
  [("per-account spend tracking and charging", A+"sign_v2.rs sign_v2")],
  "stateful whole-program fuzzing against an outflow accountant", VM)
p("P21", "Limited roles cannot seize the wallet's accounts",
  "No bundle executed by a limited role changes the wallet's configuration, the ownership or emptiness of the wallet address, or the owner, delegate, close authority or state of its token accounts, or the authorities of its stake accounts. The wallet address stays rent exempt. (A token account that holds no tokens may be closed by a role with the closing permission; wrapped SOL may be closed into the wallet itself.)",
  ["inputs", "histories"], "Every bundle over system, token, stake and third-party programs by any role without full rights.",
  "Tests try a few known takeovers.",
  [A+"sign_v2.rs", "program/src/lib.rs", "program/src/util/mod.rs"],
  [("snapshot of protected account contents", A+"sign_v2.rs hash_except")],
  "whole-program fuzzing with takeover attempts against a state invariant", VM)
p("P22", "The wallet's signature reaches only permitted programs",
  "While executing a bundle for a limited role, the wallet's signature is passed only to programs that role may use (all; the system, token, Token-2022 and stake programs; or those listed), a permitted program is not kept from it, and no request ever passes the signature of another wallet or sub-account. The role must authenticate before anything in the bundle runs.",
  ["inputs"], "Every bundle, every account list, every combination of program permissions.",
  "Tests check one disallowed program.",
  [A+"sign_v2.rs", I+"lib.rs", S+"action/program_curated.rs"],
  [("program permission check", A+"sign_v2.rs"), ("signer marking", I+"lib.rs")],
  "whole-program fuzzing with every inner invocation recorded", VM)
p("P23", "Only administrators change who controls the wallet",
  "Adding, removing and editing roles succeeds only for an authenticated role with full or role-management rights; the root role can never be removed; every such role can be used for it and no other role can, except that a role may always remove itself. Whatever roles without these rights request, no other role changes and their own keeps its signer and permission kinds (creating a numbered sub-account adds the grant for it).",
  ["histories", "configurations"], "Every combination of permissions of the acting role, every target, every authority kind and every request form.",
  "Tests try the obvious permitted and forbidden roles.",
  [A+"add_authority_v1.rs", A+"remove_authority_v1.rs", A+"update_authority_v1.rs"],
  [("permission checks", A+"*_authority_v1.rs")],
  "whole-program property test against an authorisation table", VM)
p("P24", "Replacing a credential keeps the role and needs permission",
  "A role's credential can be replaced only by a role that is allowed to replace that particular role; the new credential is of the same kind (a key kind, different from the old key), and works afterwards while the old one and any session opened with it do not. The role's id, permissions and limits, and every other role, stay unchanged, and a signature made before the replacement is useless after it.",
  ["histories", "configurations"], "Every acting and target role, kind and permission set, and histories of replacements.",
  "Tests replace one key.",
  [A+"replace_authority_v1.rs", S+"action/replace_authority.rs"],
  [("in-place authority replacement", A+"replace_authority_v1.rs")],
  "stateful model-based testing of the whole program", VM)
p("P25", "Role-bound sub-accounts obey only their role",
  "A role-bound sub-account can be created once, by the role that holds the grant, at the one canonical address for that role, and signs only for that role and only while enabled. Money can be withdrawn from it by that role while enabled, by a role with full rights whatever the role's number (also after that role is gone), or by its own role's management right. Roles with full or management rights may turn any of them on and off, the role that holds the grant its own; no other role, and no role of another wallet, can use, toggle or drain it. Each request changes exactly what it asks for.",
  ["histories", "configurations"], "Every history of creating, using, toggling and withdrawing by every role of the same and of other wallets.",
  "Tests use one role and one foreign key.",
  [A+"create_sub_account_v1.rs", A+"sub_account_sign_v1.rs", A+"toggle_sub_account_v1.rs", A+"withdraw_from_sub_account_v1.rs", S+"action/sub_account.rs"],
  [("sub-account grant lookup", S+"action/sub_account.rs"), ("address derivation", A+"sub_account_sign_v1.rs")],
  "stateful model-based testing of the whole program", VM)
p("P26", "Numbered sub-accounts obey scope and kill switch",
  "A numbered sub-account can be created, used, withdrawn from and toggled only by roles holding that particular right (or all of them) for that number, numbers are handed out once and in order and stand for the one canonical address, and while disabled it signs for nobody and pays nothing out. Rights for one number or one operation never work for another.",
  ["histories", "configurations"], "Every history of create, sign, withdraw and toggle over several numbers by roles with every combination of scoped rights, and from other wallets.",
  "Tests cover each right once with one sub-account.",
  [A+"create_sub_account_v2.rs", A+"sub_account_sign_v2.rs", A+"toggle_sub_account_v2.rs", A+"withdraw_from_sub_account_v2.rs", S+"sub_account_v2.rs", S+"action/sub_account_v2.rs"],
  [("scoped permission lookup", S+"action/sub_account_v2.rs"), ("enabled flag", S+"sub_account_v2.rs")],
  "stateful model-based testing against an access matrix", VM)
p("P27", "Withdrawals from sub-accounts reach only the parent wallet",
  "A withdrawal from a sub-account moves exactly the requested SOL to the wallet address, or exactly the requested tokens to a token account of the same mint owned by the wallet, and nothing anywhere else. What cannot be moved that way is refused with nothing changed.",
  ["inputs"], "Every amount, destination, token account and program offered in a withdrawal from either kind of sub-account.",
  "Tests withdraw valid amounts to valid destinations.",
  [A+"withdraw_from_sub_account_v1.rs", A+"withdraw_from_sub_account_v2.rs"],
  [("destination validation", A+"withdraw_from_sub_account_v1.rs, withdraw_from_sub_account_v2.rs")],
  "whole-program property test over adversarial account substitutions", VM)
p("P28", "Closing a wallet is authorised, complete and final",
  "A wallet can be closed only by an authenticated role with the right to do so and only when its two addresses hold no more than their rent; all of that, less the minimum that keeps the closed config account, goes to the chosen destination (the beneficiary if one is set), never back into the wallet's own addresses. Afterwards no request to that wallet is accepted and it can never be created again.",
  ["histories", "inputs"], "Every role, destination and wallet content, followed by attempts to recreate.",
  "Tests close an ordinary wallet.",
  [A+"close_swig_v1.rs", A+"create_v1.rs"],
  [("closing and tombstone", A+"close_swig_v1.rs")],
  "stateful property test of the whole program", VM)
p("P29", "Closing token accounts loses nothing",
  "Token accounts are closed through the wallet only by a role with the right to do so, only when they belong to the wallet and are empty (wrapped SOL included), and their rent goes to the chosen destination, which is the beneficiary if one is set. All other accounts are untouched, and one account that may not be closed refuses the whole request.",
  ["inputs"], "Every mix of token accounts (owners, balances, programs, states), roles and destinations.",
  "Tests close one empty account.",
  [A+"close_token_account_v1.rs"],
  [("token account checks", A+"close_token_account_v1.rs")],
  "whole-program property test over generated account mixes", VM)
p("P30", "One wallet per identifier, created safely",
  "For each identifier there is at most one wallet, at the one canonical address; creating it needs a root role with administrative rights, stores exactly the requested credential and permissions, and cannot be blocked by someone sending SOL to its address beforehand. Creating over an existing account always fails.",
  ["inputs", "histories"], "Every identifier, bump, credential, permission list and prior balance of the addresses.",
  "Tests create ordinary wallets with the canonical bump and untouched addresses.",
  [A+"create_v1.rs", S+"swig.rs", "assertions/src/lib.rs"],
  [("address validation", A+"create_v1.rs"), ("account creation", A+"create_v1.rs")],
  "whole-program property test over bumps and prior states", VM)
p("P31", "Migration happens once and preserves the wallet",
  "An old-format wallet can be migrated only by a role with full or management rights, once, to its canonical wallet address; roles, permissions and identifier are unchanged, and its SOL is still controlled by it afterwards. A wallet already in the new format cannot be migrated again.",
  ["inputs", "histories"], "Every old and new format wallet, role, bump and balance.",
  "Tests migrate one wallet once.",
  [A+"migrate_to_wallet_address_v1.rs"],
  [("format detection", "program/src/lib.rs is_swig_v2"), ("header rewrite", A+"migrate_to_wallet_address_v1.rs")],
  "whole-program property test including repeated migration", VM)
p("P32", "Moving leftover assets reaches only the wallet address",
  "Moving assets that still sit with the config account can be done only by an administrator and moves SOL above the rent minimum and tokens exactly and only to the wallet address and its token accounts. Nothing else changes.",
  ["inputs"], "Every mix of token accounts, owners, mints, programs, roles and balances.",
  "Tests move one balance.",
  [A+"transfer_assets_v1.rs"],
  [("destination validation", A+"transfer_assets_v1.rs")],
  "whole-program property test over adversarial account substitutions", VM)
p("P33", "Without a credential nothing changes",
  "No request made by someone who holds no valid credential of a wallet, however its instruction data and accounts are formed and whatever bundle or order of instructions is used, changes the wallet's configuration or its sub-accounts or decreases any balance it controls.",
  ["inputs", "histories"], "Every request built from public data, valid requests of others, other wallets and mutated bytes.",
  "Tests check a wrong key on single instructions.",
  ["program/src/lib.rs", "program/src/instruction.rs", A, S+"authority/"],
  [("authentication in every action", A+"*.rs")],
  "mutation fuzzing of whole transactions against a no-change oracle", VM)

p("P34", "The client instruction builders make the request that was asked for",
  "For every wallet, role and arguments, the transaction built by the interface crate's builder for a request and a way of signing (Ed25519, secp256k1, secp256r1, program execution, session key) is accepted by the program whenever the same request is allowed, does exactly what was asked with exactly the given amounts, accounts, permissions and bundle and nothing else, and is refused whenever the request is not allowed.",
  ["inputs"], "Every builder, wallet, role position, credential, counter, slot, permission list, bundle and transaction position.",
  "Tests call some builders for one wallet, several of them never, and need a validator image that the ordinary build does not have.",
  ["interface/src/lib.rs", "interface/src/replace_authority.rs", "instructions/src/compact_instructions.rs"],
  [("builders per instruction and authority", "interface/src/lib.rs"), ("permission serialisation", "interface/src/lib.rs ClientAction"),
   ("bundle packing", "instructions/src/compact_instructions.rs")],
  "differential property test: the builder's transaction against one put together from the wire format, run from the same state", VM)

p("P35", "The SDK's builder and roles request what was asked and report what is stored",
  "For every wallet, kind of credential, role and arguments, the transaction made by the SDK's SwigInstructionBuilder (through its client roles) is accepted exactly when the same request put together from the wire format is, with the same effect on every account; the counters the builder uses are the ones the program expects, and the permissions the SDK reports for a role are exactly the permissions stored in it.",
  ["inputs"], "Every builder method, wallet, role, credential (session credentials included), counter, slot, permission list and bundle.",
  "The SDK's tests need a validator image that the ordinary build does not have, and call each method with one credential and one argument.",
  ["rust-sdk/src/instruction_builder.rs", "rust-sdk/src/client_role.rs", "rust-sdk/src/types.rs"],
  [("builder methods", "rust-sdk/src/instruction_builder.rs"), ("credentials", "rust-sdk/src/client_role.rs"),
   ("reported permissions", "rust-sdk/src/types.rs Permission::from_role")],
  "differential property test: the SDK's transaction against one put together from the wire format, run from the same state", VM)

p("P36", "A SwigWallet session does what its user asks and reports what the chain holds",
  "For every history of calls on the SDK's SwigWallet (creating or opening a wallet, every request method, switching authority or payer, slots passing), with every kind of credential: each call returns success exactly when the same request made by hand is accepted, with the same effect on every account; a request that was executed is never reported as failed and a refused one leaves the wallet usable; and after every call the role, permissions, signature counter, identities, sub-accounts and balances it reports are those stored on chain.",
  ["inputs", "histories"], "Every history of calls, credential (with or without sessions), role, argument, fee payer, and delay between asking for the slot and execution.",
  "The SDK's tests need a validator image that the ordinary build does not have, and follow one short script per method; counters that drift need several calls of different kinds in a row.",
  ["rust-sdk/src/wallet.rs", "rust-sdk/src/instruction_builder.rs", "rust-sdk/src/client_role.rs"],
  [("request methods", "rust-sdk/src/wallet.rs"), ("signature counter kept by the client", "rust-sdk/src/wallet.rs refresh_permissions"),
   ("role lookup on opening", "rust-sdk/src/wallet.rs new")],
  "stateful property test: random histories of SwigWallet calls against a simulated chain, each compared with the same request made by hand and with an independent reading of the accounts", VM)

p("P37", "Signing requests act only at the top of a transaction",
  "A request that makes a wallet or a sub-account sign instructions is accepted only as an instruction of the transaction itself, never when another program (or a wallet's own bundle) calls it. Any other request that is accepted when called by another program has exactly the effect it has on its own. A bundle signed by a role with limited permissions never changes the wallet's roles, also not through a request inside it that somebody with more rights signed.",
  ["inputs", "histories"], "Every request, role, credential, nesting (one or two programs in between, a bundle of the same wallet, a bundle of another wallet) and order.",
  "The tests call the program directly; nesting needs a calling program and a second, independently valid request.",
  [A+"sign_v2.rs", A+"sub_account_sign_v1.rs", A+"sub_account_sign_v2.rs", "program/src/util/mod.rs"],
  [("stack height checks", A+"sign_v2.rs, sub_account_sign_v1.rs, sub_account_sign_v2.rs"), ("snapshots of the config account", A+"sign_v2.rs")],
  "metamorphic property test: a request accepted on its own, sent again inside other programs' calls and bundles", VM)

p("P38", "The command line client does what its arguments say, or changes nothing",
  "A command of the swig program has exactly the effect of the request its arguments describe: the authority, key, permissions, amounts, sub-account and fee payer that are written on the command line (or, where left out, in the configuration) are the ones used. It reports success only if that request was executed. Arguments that cannot be read are refused with an error, never replaced by others, and without a change. What view, balance and get-role-id print is what the accounts hold, and keys printed by generate can be used.",
  ["inputs", "histories"], "Every wallet name, authority kind, way of writing keys and lists, permission, operation and malformed value.",
  "The command line client has no tests; its arguments are free text.",
  ["cli/src/main.rs", "cli/src/commands.rs", "cli/src/config.rs", "rust-sdk/src/wallet.rs"],
  [("opening a wallet", "cli/src/commands.rs create_swig_instance"), ("reading keys", "cli/src/main.rs format_authority, parse_authority"), ("reading permissions", "cli/src/commands.rs parse_permission_from_json"), ("display", "rust-sdk/src/wallet.rs display_swig")],
  "differential property test: command lines against requests encoded by hand, run on copies of one chain", VM)

p("P39", "The interactive command line client does what is picked and typed",
  "In the interactive mode of the swig program, creating or opening a wallet, adding, removing or updating an authority, transferring, switching authority, and creating, using, toggling and emptying a sub-account have exactly the effect, on the configured cluster, of the request that was picked and typed: the authority, permissions, amounts, recipient, role and sub-account given, made and signed by the authority in use and paid by the fee payer given. A request that was not executed is never reported as done, and one that was is never reported as failed; after a switch, requests are made as the authority switched to. Text that cannot be read is refused without a change, and nothing that is picked or typed crashes the program. What is shown of the wallet is what it holds.",
  ["inputs", "histories"], "Every dialogue: authority kinds, permissions with their amounts and windows, operations, roles, malformed keys, addresses and indices, several actions one after another.",
  "The dialogue has no tests; it is a tree of menus and free text, and each path keeps a wallet's state between actions.",
  ["cli/src/interactive.rs", "rust-sdk/src/wallet.rs"],
  [("opening a wallet", "cli/src/interactive.rs create_wallet_interactive"), ("describing permissions", "cli/src/interactive.rs get_permissions_interactive"), ("switching", "cli/src/interactive.rs switch_authority_interactive"), ("sub-accounts", "cli/src/interactive.rs sub_accounts_interactive")],
  "differential property test: scripted dialogues against requests encoded by hand, run on copies of one chain", VM)

p("P40", "A wallet's past does not wear it out",
  "However many roles and sub-accounts a wallet has handed out and removed over its life, every request has the same outcome as on a young wallet with the same roles, and the work it takes does not grow with the ids handed out: it stays bounded by what the wallet holds now. Role ids and sub-account numbers only go up, so a wallet that is used for years must not run out of compute budget.",
  ["inputs", "histories"], "Every request, credential kind and pair of id counters, up to 2^31 ids handed out.",
  "The tests make wallets with a handful of roles; the cost of a step per id ever made only shows after tens of thousands.",
  ["program/src/util/mod.rs", "program/src/lib.rs", "program/src/actions", "state/src/swig.rs"],
  [("collecting scopes", "program/src/util/mod.rs ProgramScopeCache::load_from_swig"), ("finding the role of a sub-account", "program/src/actions/withdraw_from_sub_account_v1.rs"), ("drawing a number", "program/src/actions/create_sub_account_v2.rs")],
  "metamorphic property test: the same request on a young and on an aged copy of a wallet, outcome and CPU time compared", VM)

def main():
    only = None
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            d = dict(id=x["id"], title=x["title"], statement=x["statement"],
                     quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                     anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                                  observe_at=x["observe"], state=x["state"], hook_needed=None))
            f.write(json.dumps(d) + "\n")
            assert len(x["title"]) <= 80, x["title"]
    done = [l.split()[0] for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip()]
    m = dict(version=1, setup_cmd="./check.sh setup", checks=[], not_applicable=[])
    for x in P:
        if x["id"] in done:
            m["checks"].append(dict(property=x["id"], quick_cmd=f"./check.sh {x['id']} quick",
                                    thorough_cmd=f"./check.sh {x['id']} thorough", technique=x["technique"],
                                    level="exploration", level_note=x["note"]))
        else:
            m["not_applicable"].append(dict(property=x["id"], reason="check not built yet"))
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
