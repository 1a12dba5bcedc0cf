//! P35: the SDK's builder, its client roles and its permissions.
use super::client::{aty, client_act, pk, Sdk, P};
use super::common::*;
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use std::cell::RefCell;
use std::rc::Rc;
use swig_interface::ClientAction as C;
use swig_sdk::client_role::*;
use swig_sdk::types::{Permission, RecurringConfig, UpdateAuthorityData};
use swig_sdk::SwigInstructionBuilder;
use swig_state::authority::{ed25519::CreateEd25519SessionAuthority, secp256k1::CreateSecp256k1SessionAuthority, secp256r1::CreateSecp256r1SessionAuthority};
use swig_state::swig::SwigWithRoles;

pub fn p35() -> Prop {
    Prop {
        id: "P35",
        rule: "the request made by the SDK's builder was accepted and changed the accounts",
        assumptions: &[
            "the caller passes the slot, the counter and the session key that belong to the role",
            "stand-ins for the client crates that cannot be fetched here",
        ],
        quick: 50_000,
        thorough: 500_000,
        fixed: None,
        run: case,
    }
}
const OPS: [&str; 18] = [
    "AddAuthority",
    "AddAuthority",
    "RemoveAuthority",
    "UpdateAuthority",
    "UpdateAuthority",
    "CreateSession",
    "SignV2",
    "SignV2",
    "CreateSubAccount",
    "SubAccountSign",
    "WithdrawFromSubAccount",
    "WithdrawFromSubAccount/token",
    "ToggleSubAccount",
    "SetRentClaimerV1",
    "CreateSubAccountV2",
    "ToggleSubAccountV2",
    "SubAccountSignV2",
    "WithdrawFromSubAccountV2",
];
const SDK: Sdk = Sdk { call, acts: fresh_acts, after };

fn case(g: &mut Gen, cx: &mut Cx) -> R {
    if g.chance(1, 15) {
        return create(g, cx);
    }
    let op = if g.chance(1, 19) { "WithdrawFromSubAccountV2/token" } else { *g.pick(&OPS) };
    super::client::go(g, cx, op, Some(&SDK))
}
thread_local! {
    /// what secp256r1 keys were asked to sign
    pub static MSGS: RefCell<Vec<([u8; 33], Vec<u8>)>> = const { RefCell::new(vec![]) };
}
/// The client's side of a credential.
pub fn role_of(cred: &Cred, session: Key, counter: u32, pre: Rc<RefCell<Instruction>>, long: bool) -> Box<dyn ClientRole> {
    let k1 = |sk: [u8; 32]| -> Box<dyn Fn(&[u8]) -> [u8; 65]> { Box::new(move |m: &[u8]| k1_sign(&sk, m.try_into().unwrap())) };
    let r1 = |pk: [u8; 33]| -> Box<dyn Fn(&[u8]) -> [u8; 64]> {
        Box::new(move |m: &[u8]| {
            MSGS.with(|v| v.borrow_mut().push((pk, m.to_vec())));
            [7; 64]
        })
    };
    let mut r: Box<dyn ClientRole> = match cred {
        Cred::Ed { pk: k } => return Box::new(Ed25519ClientRole::new(pk(k))),
        Cred::EdS { pk, max } => return Box::new(Ed25519SessionClientRole::new(CreateEd25519SessionAuthority::new(*pk, session, *max))),
        Cred::K1 { sk } => {
            let k = k1_pub(sk);
            Box::new(Secp256k1ClientRole::new(if long { k.to_vec() } else { k[1..].to_vec() }.into(), k1(*sk)))
        }
        Cred::K1S { sk, max } => {
            let k: [u8; 64] = k1_pub(sk)[1..].try_into().unwrap();
            Box::new(Secp256k1SessionClientRole::new(CreateSecp256k1SessionAuthority::new(k, session, *max), k1(*sk)))
        }
        Cred::R1 { pk } => Box::new(Secp256r1ClientRole::new(*pk, r1(*pk))),
        Cred::R1S { pk, max } => Box::new(Secp256r1SessionClientRole::new(CreateSecp256r1SessionAuthority::new(*pk, session, *max), r1(*pk))),
        Cred::Ex { program, prefix } => return Box::new(ProgramExecClientRole::new(pk(program), prefix.clone(), move || pre.borrow().clone())),
        _ => unreachable!(),
    };
    // what the role has to sign with next is one more than what is stored
    r.update_odometer(counter.wrapping_sub(1)).unwrap();
    r
}
fn call(op: &str, p: &P, cred: &Cred) -> Result<Vec<Instruction>, String> {
    MSGS.with(|v| v.borrow_mut().clear());
    let role = role_of(cred, p.authority, p.counter, Rc::new(RefCell::new(p.preceding_instruction())), p.n % 2 == 0);
    let mut b = SwigInstructionBuilder::new(p.a.id, role, p.payer(), p.acting);
    let slot = Some(p.slot);
    let e = |x: Vec<Act>| -> Vec<Permission> { x.iter().map(|a| perm_of(a).unwrap()).collect() };
    let r = match op {
        "AddAuthority" => b.add_authority_instruction(aty(p.ty), &p.auth, e(p.acts.clone()), slot),
        "RemoveAuthority" => b.remove_authority(p.target, slot),
        "UpdateAuthority" => {
            let d = match p.upd.0 {
                0 => UpdateAuthorityData::ReplaceAll(e(p.acts.clone())),
                1 => UpdateAuthorityData::AddActions(e(p.acts.clone())),
                2 => UpdateAuthorityData::RemoveActionsByType(p.upd.1.iter().map(|t| sample_perm(*t)).collect()),
                _ => UpdateAuthorityData::RemoveActionsByIndex(p.upd.2.clone()),
            };
            b.update_authority(p.target, slot, d)
        }
        "CreateSession" => b.create_session_instruction(p.session_key(), p.dur, slot, None),
        "SignV2" => b.sign_v2_instruction(p.instructions(), slot),
        "CreateSubAccount" => b.create_sub_account(slot),
        "SubAccountSign" => b.sign_instruction_with_sub_account(p.instructions(), slot),
        "WithdrawFromSubAccount" => b.withdraw_from_sub_account(p.sub_account(), p.amount, slot),
        "WithdrawFromSubAccount/token" => {
            b.withdraw_token_from_sub_account(p.sub_account(), p.source_token(), p.swig_token(), p.token_program(), p.amount, slot)
        }
        "ToggleSubAccount" => b.toggle_sub_account(p.sub_account(), p.target, p.acting, p.on, slot),
        "SetRentClaimerV1" => b.set_rent_claimer(pk(&p.claimer), slot),
        "CreateSubAccountV2" => {
            let (s, a) = b.sub_account_v2_pdas(p.n);
            b.create_sub_account_v2(s, a, p.state_bump, p.sub_bump, slot)
        }
        "ToggleSubAccountV2" => b.toggle_sub_account_v2(p.n, p.on, slot),
        "SubAccountSignV2" => b.sign_instruction_with_sub_account_v2(p.n, p.instructions(), slot),
        "WithdrawFromSubAccountV2" => b.withdraw_from_sub_account_v2(p.n, p.amount, slot),
        "WithdrawFromSubAccountV2/token" => {
            b.withdraw_token_from_sub_account_v2(p.n, p.source_token(), p.destination_token(), p.token_program(), p.amount, slot)
        }
        _ => unreachable!("{op}"),
    };
    MSGS.with(|v| p.msgs.borrow_mut().extend(v.borrow_mut().drain(..).map(|x| x.1)));
    r.map_err(|e| e.to_string())
}
/// A permission of a kind, for requests that name only the kind.
fn sample_perm(t: u8) -> Permission {
    match t as u16 {
        perm::SOL => perm_of(&mk::sol(1)),
        perm::SOL_REC => perm_of(&mk::sol_rec(1, 2, 0, 1)),
        perm::TOKEN => perm_of(&mk::token(&kk("x"), 3)),
        perm::SUB => perm_of(&mk::sub()),
        _ => unreachable!(),
    }
    .unwrap()
}
/// Permissions as they are when granted: nothing used yet.
pub fn fresh_act(g: &mut Gen, ty: u16) -> Act {
    use perm::*;
    let w = 1 + g.u64() % (1 << 40);
    let a = g.u64();
    match ty {
        SCOPE => {
            let kind = g.below(3);
            let num = g.below(4);
            let width = [1, 4, 8, 16][num as usize];
            let s = g.below(200);
            let (limit, window) = [(0, 0), (a, 0), (a, w)][kind as usize];
            mk::scope(0, limit as u128, window, 0, &pool_key(g), &pool_key(g), kind, num, s, s + width)
        }
        SOL_REC_DEST => mk::sol_rec_dest(&pool_key(g), a, w, 0, a),
        TOKEN_REC_DEST => mk::token_rec_dest(&pool_key(g), &pool_key(g), a, w, 0, a),
        CLOSE => mk::sol(a),
        t => valid_act(g, t),
    }
}
pub fn fresh_acts(g: &mut Gen, max: usize) -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    for _ in 0..1 + g.us(max) {
        let t = *g.pick(&KINDS);
        let a = fresh_act(g, t);
        if a.ty >= perm::SUB2_CREATE && v.iter().any(|x| x.ty == a.ty && (a.ty == perm::SUB2_CREATE || x.body[..4] == a.body[..4])) {
            continue;
        }
        v.push(a);
    }
    if v.is_empty() {
        v.push(mk::all());
    }
    v
}
/// What the SDK calls a stored permission; none for kinds it has no word for.
pub fn perm_of(a: &Act) -> Option<Permission> {
    use Permission as Q;
    let k = |b: [u8; 32]| Pubkey::new_from_array(b);
    let rec = |window, last_reset, current_amount| Some(RecurringConfig { window, last_reset, current_amount });
    Some(match client_act(a) {
        C::SolLimit(x) => Q::Sol { amount: x.amount, recurring: None },
        C::SolRecurringLimit(x) => Q::Sol { amount: x.recurring_amount, recurring: rec(x.window, x.last_reset, x.current_amount) },
        C::Program(x) => Q::Program { program_id: k(x.program_id) },
        C::ProgramScope(x) => Q::ProgramScope {
            program_id: k(x.program_id),
            target_account: k(x.target_account),
            numeric_type: x.numeric_type,
            limit: (x.scope_type > 0).then_some(x.limit.min(u64::MAX as u128) as u64),
            window: (x.scope_type == 2).then_some(x.window),
            balance_field_start: Some(x.balance_field_start),
            balance_field_end: Some(x.balance_field_end),
        },
        C::TokenLimit(x) => Q::Token { mint: k(x.token_mint), amount: x.current_amount, recurring: None },
        C::TokenRecurringLimit(x) => Q::Token { mint: k(x.token_mint), amount: x.limit, recurring: rec(x.window, x.last_reset, x.current) },
        C::All(_) => Q::All,
        C::ManageAuthority(_) => Q::ManageAuthority,
        C::SubAccount(x) => Q::SubAccount { sub_account: x.sub_account },
        C::StakeLimit(x) => Q::Stake { amount: x.amount, recurring: None },
        C::StakeRecurringLimit(x) => Q::Stake { amount: x.recurring_amount, recurring: rec(x.window, x.last_reset, x.current_amount) },
        C::StakeAll(_) => Q::StakeAll,
        C::ProgramAll(_) => Q::ProgramAll,
        C::ProgramCurated(_) => Q::ProgramCurated,
        C::AllButManageAuthority(_) => Q::AllButManageAuthority,
        C::SolDestinationLimit(x) => Q::SolDestination { destination: k(x.destination), amount: x.amount, recurring: None },
        C::SolRecurringDestinationLimit(x) => Q::SolDestination {
            destination: k(x.destination),
            amount: x.recurring_amount,
            recurring: rec(x.window, x.last_reset, x.current_amount),
        },
        C::TokenDestinationLimit(x) => {
            Q::TokenDestination { mint: k(x.token_mint), destination: k(x.destination), amount: x.amount, recurring: None }
        }
        C::TokenRecurringDestinationLimit(x) => Q::TokenDestination {
            mint: k(x.token_mint),
            destination: k(x.destination),
            amount: x.recurring_amount,
            recurring: rec(x.window, x.last_reset, x.current_amount),
        },
        C::ReplaceAuthority(x) => Q::ReplaceAuthority { role_id: x.role_id },
        C::SubAccountV2Create(_) => Q::SubAccountV2Create,
        C::SubAccountV2All(x) => Q::SubAccountV2All { subacc_id: x.subacc_id },
        C::SubAccountV2Sign(x) => Q::SubAccountV2Sign { subacc_id: x.subacc_id },
        C::SubAccountV2Withdraw(x) => Q::SubAccountV2Withdraw { subacc_id: x.subacc_id },
        C::SubAccountV2Toggle(x) => Q::SubAccountV2Toggle { subacc_id: x.subacc_id },
        _ => return None,
    })
}
/// The data where a field of 16 bytes is where it expects to be.
pub fn aligned(d: &[u8]) -> Vec<u128> {
    let mut v = vec![0u128; d.len().div_ceil(16)];
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), v.as_mut_ptr() as *mut u8, d.len()) };
    v
}
pub fn bytes(v: &[u128], n: usize) -> &[u8] {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, n) }
}
/// Which of a role's permissions of the same kind are about the same thing.
fn subject(a: &Act) -> Vec<u8> {
    use perm::*;
    let n = match a.ty {
        PROGRAM | TOKEN | TOKEN_REC | SUB | SOL_DEST | SOL_REC_DEST => 32,
        TOKEN_DEST | TOKEN_REC_DEST => 64,
        REPLACE | SUB2_ALL | SUB2_SIGN | SUB2_WITHDRAW | SUB2_TOGGLE => 4,
        SCOPE => a.body.len(),
        _ => 0,
    };
    a.body[..n].to_vec()
}
/// What is reported of every role is what the role holds.
pub fn told(said: &[Permission], acts: &[Act], who: &str) -> R {
    let held: Vec<Permission> = acts.iter().filter_map(perm_of).collect();
    for p in said {
        ensure!(held.contains(p), "report/not held", "{who}: reported but not held: {p:?}; holds {held:?}");
    }
    let mut seen: Vec<(u16, Vec<u8>)> = vec![];
    for a in acts {
        let k = (a.ty, subject(a));
        if seen.contains(&k) {
            continue;
        }
        seen.push(k);
        if let Some(p) = perm_of(a) {
            ensure!(said.contains(&p), format!("report/missing/{}", a.ty), "{who}: held but not reported: {p:?}; reported {said:?}");
        }
    }
    Ok(())
}
fn after(bank: &Bank, swig: &Key) -> R {
    let acct = bank.get(swig);
    let Ok(img) = SwigImg::dec(&acct.data) else { return Ok(()) };
    let buf = aligned(&acct.data);
    let d = bytes(&buf, acct.data.len());
    let Ok(s) = SwigWithRoles::from_bytes(d) else { return fail("report/unreadable", "the account cannot be read") };
    for r in &img.roles {
        let Ok(Some(role)) = s.get_role(r.id) else { return fail("report/role", format!("role {} is not found", r.id)) };
        let said = match Permission::from_role(&role) {
            Ok(v) => v,
            Err(e) => return fail("report/error", format!("role {}: {e}", r.id)),
        };
        told(&said, &r.acts, &format!("role {}", r.id))?;
        // its counter, when it is the only one with its key
        if matches!(r.ty, 3 | 5) && img.roles.iter().filter(|x| matches!(x.ty, 3..=6) && x.auth[..33] == r.auth[..33]).count() == 1 {
            let key: [u8; 33] = r.auth[..33].try_into().unwrap();
            let got = if r.ty == 3 {
                swig_sdk::get_secp256k1_signature_counter(d, &key)
            } else {
                swig_sdk::get_secp256r1_signature_counter(d, &key)
            };
            let want = odometer(r.ty, &r.auth);
            ensure!(matches!(got, Ok(n) if n == want), "report/counter", "role {}: counter {got:?}, stored {want}", r.id);
        }
    }
    Ok(())
}
fn create(g: &mut Gen, cx: &mut Cx) -> R {
    let w = World::new(g.below(1 << 20));
    let c = Cred::nth(1 + g.below(7) as u16, g.below(9));
    let own_ix = create_v1(&w.a, &w.payer, &c, &[mk::all()]);
    let pre = Instruction { program_id: pk(&NOOP1), accounts: vec![], data: vec![] };
    let b = SwigInstructionBuilder::new(w.a.id, role_of(&c, [0; 32], 1, Rc::new(RefCell::new(pre)), g.bool()), pk(&w.payer), 0);
    ensure!(b.get_swig_account().unwrap() == pk(&w.a.swig), "address/config", "get_swig_account");
    ensure!(b.swig_wallet_address() == pk(&w.a.wallet), "address/wallet", "swig_wallet_address");
    for n in [0, 1, g.below(1 << 32) as u32] {
        let want = (pk(&w.a.sub2_state(n).0), pk(&w.a.sub2(n).0));
        ensure!(b.sub_account_v2_pdas(n) == want, "address/sub-account", "sub_account_v2_pdas({n})");
    }
    let made = match b.build_swig_account() {
        Ok(m) => super::client::from_client(&m),
        Err(e) => return fail("builder/Create", e.to_string()),
    };
    let (mut x, mut y) = (w.bank.clone(), w.bank.clone());
    let o1 = x.tx(&[own_ix], &[w.payer]);
    let o2 = y.tx(&[made], &[w.payer]);
    ensure!(o1.ok() && o2.ok(), "verdict/Create", "by hand: {}, by the builder: {}", o1.err(), o2.err());
    let d = super::authvm::diff(&x, &y);
    ensure!(d.is_empty(), "effect/Create", "{d}");
    cx.label("Create");
    cx.hit();
    after(&y, &w.a.swig)
}
