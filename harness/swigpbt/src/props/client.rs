//! P34: requests made with the instruction builders of /repo/interface do what
//! requests put together from the wire format do.
use super::authvm::diff;
use super::client_calls;
use super::common::*;
use super::scene::*;
use solana_program::{
    instruction::{AccountMeta, Instruction},
    pubkey::Pubkey,
};
use std::cell::RefCell;
use std::rc::Rc;
use swig_interface::{AuthorityConfig, ClientAction, ReplaceAuthorityInstruction, UpdateAuthorityData};
use swig_state::authority::AuthorityType;

pub fn p34() -> Prop {
    Prop {
        id: "P34",
        rule: "the request made by the builder was accepted and changed the accounts",
        assumptions: &[
            "the caller passes the account addresses, slot and counter that belong to the wallet",
            "stand-ins for the client crates that cannot be fetched here (addresses, account lists, hashes, the precompile instruction)",
        ],
        quick: 60_000,
        thorough: 600_000,
        fixed: None,
        run: case,
    }
}

/// Arguments by the names the builders give them.
pub struct P {
    pub a: Addr,
    pub payer: Key,
    pub authority: Key,
    /// the role that asks
    pub acting: u32,
    /// the role it is about
    pub target: u32,
    pub ty: u16,
    pub auth: Vec<u8>,
    pub acts: Vec<Act>,
    pub slot: u64,
    pub counter: u32,
    pub sk: [u8; 32],
    pub pk: [u8; 33],
    pub msgs: Rc<RefCell<Vec<Vec<u8>>>>,
    pub pre: Ix,
    pub idx: u8,
    pub sub: Key,
    pub sub_state: Key,
    pub sub_bump: u8,
    pub state_bump: u8,
    pub n: u32,
    pub amount: u64,
    pub on: bool,
    pub inner: Vec<Ix>,
    pub signers: Vec<Key>,
    pub dest: Key,
    pub src_tok: Key,
    pub dst_tok: Key,
    pub toks: Vec<Key>,
    pub token_program: Key,
    pub session: Key,
    pub dur: u64,
    pub claimer: Key,
    pub upd: (u8, Vec<u8>, Vec<u16>),
    /// role_id means the role a sub-account belongs to, not the one that asks
    pub role_is_target: bool,
}
pub fn pk(k: &Key) -> Pubkey {
    Pubkey::new_from_array(*k)
}
pub fn to_client(i: &Ix) -> Instruction {
    Instruction {
        program_id: pk(&i.program),
        accounts: i.accts.iter().map(|m| AccountMeta { pubkey: pk(&m.key), is_signer: m.s, is_writable: m.w }).collect(),
        data: i.data.clone(),
    }
}
pub fn from_client(i: &Instruction) -> Ix {
    Ix {
        program: i.program_id.to_bytes(),
        accts: i.accounts.iter().map(|m| AM { key: m.pubkey.to_bytes(), s: m.is_signer, w: m.is_writable }).collect(),
        data: i.data.clone(),
    }
}
pub trait Ixs {
    fn list(self) -> Vec<Instruction>;
}
impl Ixs for Instruction {
    fn list(self) -> Vec<Instruction> {
        vec![self]
    }
}
impl Ixs for Vec<Instruction> {
    fn list(self) -> Vec<Instruction> {
        self
    }
}
pub fn ixs<T: Ixs, E: std::fmt::Debug>(r: Result<T, E>) -> Result<Vec<Instruction>, String> {
    r.map(|x| x.list()).map_err(|e| format!("{e:?}"))
}
pub fn aty(t: u16) -> AuthorityType {
    use AuthorityType::*;
    [Ed25519, Ed25519Session, Secp256k1, Secp256k1Session, Secp256r1, Secp256r1Session, ProgramExec, ProgramExecSession][t as usize - 1]
}
/// The client's form of a permission, every field taken from the record.
pub fn client_act(a: &Act) -> ClientAction {
    use swig_state::action as s;
    use ClientAction as C;
    fn v<T>(b: &[u8]) -> T {
        assert_eq!(b.len(), std::mem::size_of::<T>());
        unsafe { std::ptr::read_unaligned(b.as_ptr() as *const T) }
    }
    fn n(b: &[u8], i: usize) -> u64 {
        u64::from_le_bytes(b[i..i + 8].try_into().unwrap())
    }
    fn k(b: &[u8], i: usize) -> Key {
        b[i..i + 32].try_into().unwrap()
    }
    fn m(b: &[u8], i: usize) -> u32 {
        u32::from_le_bytes(b[i..i + 4].try_into().unwrap())
    }
    let b = &a.body[..];
    match a.ty {
        1 => C::SolLimit(s::sol_limit::SolLimit { amount: n(b, 0) }),
        2 => C::SolRecurringLimit(s::sol_recurring_limit::SolRecurringLimit {
            recurring_amount: n(b, 0),
            window: n(b, 8),
            last_reset: n(b, 16),
            current_amount: n(b, 24),
        }),
        3 => C::Program(s::program::Program { program_id: k(b, 0) }),
        4 => C::ProgramScope(v(b)),
        5 => C::TokenLimit(s::token_limit::TokenLimit { token_mint: k(b, 0), current_amount: n(b, 32) }),
        6 => C::TokenRecurringLimit(v(b)),
        7 => C::All(s::all::All {}),
        8 => C::ManageAuthority(s::manage_authority::ManageAuthority {}),
        9 => C::SubAccount(v(b)),
        10 => C::StakeLimit(s::stake_limit::StakeLimit { amount: n(b, 0) }),
        11 => C::StakeRecurringLimit(s::stake_recurring_limit::StakeRecurringLimit {
            recurring_amount: n(b, 0),
            window: n(b, 8),
            last_reset: n(b, 16),
            current_amount: n(b, 24),
        }),
        12 => C::StakeAll(s::stake_all::StakeAll {}),
        13 => C::ProgramAll(v(b)),
        14 => C::ProgramCurated(v(b)),
        15 => C::AllButManageAuthority(v(b)),
        16 => C::SolDestinationLimit(s::sol_destination_limit::SolDestinationLimit { destination: k(b, 0), amount: n(b, 32) }),
        17 => C::SolRecurringDestinationLimit(s::sol_recurring_destination_limit::SolRecurringDestinationLimit {
            destination: k(b, 0),
            recurring_amount: n(b, 32),
            window: n(b, 40),
            last_reset: n(b, 48),
            current_amount: n(b, 56),
        }),
        18 => C::TokenDestinationLimit(s::token_destination_limit::TokenDestinationLimit {
            token_mint: k(b, 0),
            destination: k(b, 32),
            amount: n(b, 64),
        }),
        19 => C::TokenRecurringDestinationLimit(s::token_recurring_destination_limit::TokenRecurringDestinationLimit {
            token_mint: k(b, 0),
            destination: k(b, 32),
            recurring_amount: n(b, 64),
            window: n(b, 72),
            last_reset: n(b, 80),
            current_amount: n(b, 88),
        }),
        20 => C::CloseSwigAuthority(v(b)),
        21 => C::ReplaceAuthority(v(b)),
        22 => C::SubAccountV2Create(v(b)),
        23 => C::SubAccountV2All(s::sub_account_v2::SubAccountV2All::new(m(b, 0))),
        24 => C::SubAccountV2Sign(s::sub_account_v2::SubAccountV2Sign::new(m(b, 0))),
        25 => C::SubAccountV2Withdraw(s::sub_account_v2::SubAccountV2Withdraw::new(m(b, 0))),
        26 => C::SubAccountV2Toggle(s::sub_account_v2::SubAccountV2Toggle::new(m(b, 0))),
        _ => unreachable!(),
    }
}
macro_rules! keys { ($($n:ident = $($f:ident).+;)*) => { $(pub fn $n(&self) -> Pubkey { pk(&self.$($f).+) })* } }
impl P {
    keys! {
        swig_account = a.swig; payer = payer; authority = authority; swig_wallet_address = a.wallet;
        sub_account = sub; sub_account_state = sub_state; destination = dest; sub_account_token = src_tok;
        source_token = src_tok; swig_token = dst_tok; destination_token = dst_tok; token_program = token_program;
        session_key = session;
    }
    pub fn swig_bump_seed(&self) -> u8 {
        self.a.bump
    }
    pub fn wallet_address_bump(&self) -> u8 {
        self.a.wallet_bump
    }
    pub fn id(&self) -> [u8; 32] {
        self.a.id
    }
    pub fn initial_authority(&self) -> AuthorityConfig<'_> {
        AuthorityConfig { authority_type: aty(self.ty), authority: &self.auth }
    }
    pub fn new_authority_config(&self) -> AuthorityConfig<'_> {
        self.initial_authority()
    }
    pub fn new_authority(&self) -> &[u8] {
        &self.auth
    }
    pub fn actions(&self) -> Vec<ClientAction> {
        self.acts.iter().map(client_act).collect()
    }
    pub fn k1_fn(&self) -> impl FnMut(&[u8]) -> [u8; 65] {
        let sk = self.sk;
        move |m: &[u8]| k1_sign(&sk, m.try_into().unwrap())
    }
    pub fn r1_fn(&self) -> impl FnMut(&[u8]) -> [u8; 64] {
        let v = self.msgs.clone();
        move |m: &[u8]| {
            v.borrow_mut().push(m.to_vec());
            [7; 64]
        }
    }
    pub fn current_slot(&self) -> u64 {
        self.slot
    }
    pub fn counter(&self) -> u32 {
        self.counter
    }
    pub fn public_key(&self) -> &[u8; 33] {
        &self.pk
    }
    pub fn acting_role_id(&self) -> u32 {
        self.acting
    }
    pub fn auth_role_id(&self) -> u32 {
        self.acting
    }
    pub fn role_id(&self) -> u32 {
        if self.role_is_target {
            self.target
        } else {
            self.acting
        }
    }
    pub fn target_role_id(&self) -> u32 {
        self.target
    }
    pub fn authority_to_remove_id(&self) -> u32 {
        self.target
    }
    pub fn authority_to_update_id(&self) -> u32 {
        self.target
    }
    pub fn preceding_instruction(&self) -> Instruction {
        to_client(&self.pre)
    }
    pub fn target_ix_index(&self) -> u8 {
        self.idx
    }
    pub fn inner_instruction(&self) -> Instruction {
        to_client(&self.inner[0])
    }
    pub fn instructions(&self) -> Vec<Instruction> {
        self.inner.iter().map(to_client).collect()
    }
    pub fn transaction_signers(&self) -> &'static [Pubkey] {
        // the builders only look at it during the call
        let v: Vec<Pubkey> = self.signers.iter().map(pk).collect();
        SIGNERS.with(|s| {
            let mut s = s.borrow_mut();
            if !s.iter().any(|x| x[..] == v[..]) {
                s.push(Box::leak(v.clone().into_boxed_slice()));
            }
            *s.iter().find(|x| x[..] == v[..]).unwrap()
        })
    }
    pub fn session_duration(&self) -> u64 {
        self.dur
    }
    pub fn sub_account_bump(&self) -> u8 {
        self.sub_bump
    }
    pub fn asset_bump(&self) -> u8 {
        self.sub_bump
    }
    pub fn state_bump(&self) -> u8 {
        self.state_bump
    }
    pub fn subacc_id(&self) -> u32 {
        self.n
    }
    pub fn amount(&self) -> u64 {
        self.amount
    }
    pub fn enabled(&self) -> bool {
        self.on
    }
    pub fn rent_claimer(&self) -> [u8; 32] {
        self.claimer
    }
    pub fn token_accounts(&self) -> Vec<Pubkey> {
        self.toks.iter().map(pk).collect()
    }
    pub fn update_data(&self) -> UpdateAuthorityData {
        match self.upd.0 {
            0 => UpdateAuthorityData::ReplaceAll(self.actions()),
            1 => UpdateAuthorityData::AddActions(self.actions()),
            2 => UpdateAuthorityData::RemoveActionsByType(self.upd.1.clone()),
            _ => UpdateAuthorityData::RemoveActionsByIndex(self.upd.2.clone()),
        }
    }
}
thread_local! {
    static SIGNERS: RefCell<Vec<&'static [Pubkey]>> = RefCell::new(vec![]);
}

const OPS: [&str; 24] = [
    "Create",
    "AddAuthority",
    "RemoveAuthority",
    "UpdateAuthority",
    "CreateSession",
    "SignV2",
    "SignV2/signers",
    "CreateSubAccount",
    "SubAccountSign",
    "WithdrawFromSubAccount",
    "WithdrawFromSubAccount/token",
    "ToggleSubAccount",
    "TransferAssetsV1",
    "SetRentClaimerV1",
    "CloseTokenAccountV1",
    "CloseSwigV1",
    "CreateSubAccountV2",
    "ToggleSubAccountV2",
    "SubAccountSignV2",
    "WithdrawFromSubAccountV2",
    "WithdrawFromSubAccountV2/token",
    "ReplaceAuthority",
    "ReplaceAuthority",
    "SignV2",
];
/// What the SDK says of requests it has no form for.
pub const NOT_OFFERED: &str = "not support";
const ED: usize = 0;
const K1: usize = 1;
const R1: usize = 2;
const EX: usize = 3;
const EXI: usize = 4;
fn builder(op: &str, fam: usize) -> (String, String) {
    let (imp, sub) = op.split_once('/').unwrap_or((op, ""));
    let f = match (imp, sub) {
        ("SignV2", "") => ["new_ed25519", "new_secp256k1", "new_secp256r1", "new_program_exec", "new_program_exec_with_ix_index"][fam],
        ("SignV2", _) => ["new_ed25519_with_signers", "new_secp256k1_with_signers", "new_secp256r1_with_signers", "", ""][fam],
        (_, "token") => [
            "new_token_with_ed25519_authority",
            "new_token_with_secp256k1_authority",
            "new_token_with_secp256r1_authority",
            "new_token_with_program_exec",
            "new_token_with_program_exec_ix_index",
        ][fam],
        _ => [
            "new_with_ed25519_authority",
            "new_with_secp256k1_authority",
            "new_with_secp256r1_authority",
            "new_with_program_exec",
            "new_with_program_exec_ix_index",
        ][fam],
    };
    (imp.to_string(), f.to_string())
}
fn memo() -> Ix {
    Ix { program: ids().memo, accts: vec![], data: b"hello".to_vec() }
}

fn case(g: &mut Gen, cx: &mut Cx) -> R {
    let op = *g.pick(&OPS);
    if op == "Create" {
        return create(g, cx);
    }
    go(g, cx, op, None)
}
/// Another way to the same requests: the SDK's builder.
pub struct Sdk {
    pub call: fn(&str, &P, &Cred) -> Result<Vec<Instruction>, String>,
    pub acts: fn(&mut Gen, usize) -> Vec<Act>,
    pub after: fn(&Bank, &Key) -> R,
}
pub fn go(g: &mut Gen, cx: &mut Cx, op: &str, sdk: Option<&Sdk>) -> R {
    // no client role for a program-execution authority with a session
    let ty = 1 + g.below(if sdk.is_some() { 7 } else { 8 }) as u16;
    let some_acts = |g: &mut Gen, n: usize| match sdk {
        Some(s) => (s.acts)(g, n),
        None => valid_acts(g, n),
    };
    let mut cred = Cred::nth(ty, g.below(5));
    if let Cred::Ex { prefix, .. } = &mut cred {
        if op == "ReplaceAuthority" {
            *prefix = REPLACE_PROOF.to_vec();
        }
    }
    // some roles before the acting one, one after it
    let before = g.below(3) as u32;
    let mut roles: Vec<(Cred, Vec<Act>)> = vec![];
    for i in 0..before {
        let mut acts = valid_acts(g, 2);
        if sdk.is_some() {
            acts = acts.iter().map(|x| used(g, x)).collect();
        }
        // no other role watches an account of these requests
        acts.retain(|x| x.ty != perm::SCOPE);
        acts.push(mk::sol(1));
        acts.dedup_by_key(|x| x.ty);
        roles.push((Cred::nth(1 + g.below(8) as u16, 50 + i as u64), acts));
    }
    let mut acts = vec![mk::sub(), mk::flag(perm::SUB2_CREATE), mk::all()];
    if g.chance(1, 4) {
        acts.push(mk::flag(perm::CLOSE));
    }
    g.shuffle(&mut acts);
    roles.push((cred.clone(), acts));
    roles.push((Cred::nth(1 + g.below(6) as u16, 9), vec![mk::sol(5), mk::token(&kk("m"), 7), mk::sub()]));
    let acting = before;
    let mut target = match g.below(8) {
        0 => g.below(before as u64 + 3) as u32,
        _ => before + 1,
    };
    let mut s = Scene::new(g.below(4), &roles);
    // authenticating with a master credential that signs with a counter
    let start = g.below(3) as u32 * (1 + g.below(1000) as u32);
    if matches!(ty, 3..=6) {
        let mut img = s.w.img().unwrap();
        let at = auth_counter_at(ty);
        let ra = img.role_mut(acting).unwrap();
        ra.auth[at..at + 4].copy_from_slice(&start.to_le_bytes());
        let d = img.enc();
        let mut c = s.w.bank.get(&s.w.a.swig);
        c.data = d;
        s.w.bank.put(s.w.a.swig, c);
    }
    if op.contains("SubAccount") {
        if op.contains("V2") {
            if op != "CreateSubAccountV2" || g.bool() {
                let o = s.with_sub2(acting);
                ensure!(o.ok(), "setup", "creating a numbered sub-account: {}", o.err());
            }
        } else if op != "CreateSubAccount" {
            let o = s.with_sub1(acting);
            ensure!(o.ok(), "setup", "creating a sub-account: {}", o.err());
            // the role's own sub-account
            target = acting;
        }
    }
    if op.starts_with("CloseSwig") {
        s.drained();
    }
    let a = s.w.a.clone();
    let payer = s.w.payer;
    let sg0 = s.w.sign(acting);
    let v2 = op.contains("V2");
    let n = match op {
        "CreateSubAccountV2" => s.w.img().map(|i| i.sub_counter).unwrap_or(0),
        _ => 0,
    };
    let (sub, sub_bump) = if v2 { a.sub2(n) } else { a.sub1(acting) };
    let (sub_state, state_bump) = a.sub2_state(n);
    let around = if g.bool() { 300 } else { 5 * SOLS };
    let mut p = P {
        payer,
        authority: [0; 32],
        acting,
        target,
        ty: 0,
        auth: vec![],
        acts: vec![],
        slot: sg0.slot,
        counter: sg0.counter,
        sk: [1; 32],
        pk: [2; 33],
        msgs: Default::default(),
        pre: memo(),
        idx: 0,
        sub,
        sub_state,
        sub_bump,
        state_bump,
        n,
        amount: 1 + near(g, around) % (6 * SOLS),
        on: g.bool(),
        inner: vec![],
        signers: vec![],
        dest: s.dest,
        src_tok: if v2 { s.sub2_tok() } else { s.sub1_tok(acting) },
        dst_tok: s.tok,
        toks: vec![],
        token_program: ids().token,
        session: kn("fresh", g.below(3)),
        dur: 1 + near(g, cred.max().max(1)) % (cred.max().max(1).saturating_add(2)),
        claimer: kn("claimer", g.below(3)),
        upd: (0, vec![], vec![]),
        role_is_target: op == "ToggleSubAccount",
        a: a.clone(),
    };
    // a co-signer whose account also appears in the bundle
    let friend = kk("friend");
    let mut rest: Vec<Call> = vec![];
    let mut lead: Vec<Ix> = (0..g.below(3)).map(|_| memo()).collect();
    if g.bool() {
        // who pays the fees signs and is writable in the whole transaction
        lead.push(Ix { program: ids().memo, accts: vec![ws(payer)], data: vec![] });
    }
    let call = match op {
        "AddAuthority" => {
            p.ty = 1 + g.below(8) as u16;
            p.auth = Cred::nth(p.ty, 20 + g.below(5)).create();
            p.acts = some_acts(g, 4);
            add_authority(&a, &payer, acting, p.ty, &p.auth, &enc_actions(&p.acts), p.acts.len() as u8)
        }
        "RemoveAuthority" => remove_authority(&a, &payer, acting, target),
        "UpdateAuthority" => {
            p.upd.0 = g.below(4) as u8;
            let body = match p.upd.0 {
                0 | 1 => {
                    p.acts = some_acts(g, 4);
                    if p.upd.0 == 1 {
                        p.acts.retain(|x| x.ty != perm::SUB);
                        if p.acts.is_empty() {
                            p.acts.push(mk::manage());
                        }
                    }
                    enc_actions(&p.acts)
                }
                2 => {
                    p.upd.1 = vec![*g.pick(&[1u8, 5, 9, 2])];
                    p.upd.1.clone()
                }
                _ => {
                    p.upd.2 = vec![g.below(4) as u16];
                    if g.chance(1, 3) {
                        p.upd.2.push(g.below(3) as u16);
                    }
                    p.upd.2.iter().flat_map(|x| x.to_le_bytes()).collect()
                }
            };
            update_authority(&a, &payer, acting, target, p.upd.0, &body)
        }
        "CreateSession" => create_session(&a, &payer, acting, &p.session, p.dur),
        "SignV2" | "SignV2/signers" => {
            let mut i = inner(g, &s, &a.wallet, &s.tok, &[&friend]);
            if op == "SignV2/signers" {
                // somebody who signs the transaction anyway is paid by the bundle
                lead.push(Ix { program: ids().memo, accts: vec![ws(friend)], data: vec![] });
                p.signers = vec![friend];
                i = sys_transfer(&a.wallet, &friend, 1 + g.below(SOLS));
            }
            p.inner = vec![i];
            let more = if sdk.is_some() { g.below(3) } else { 0 };
            for _ in 0..more {
                let i = inner(g, &s, &a.wallet, &s.tok, &[&friend]);
                rest.push(sign_v2(&a, acting, &[], std::slice::from_ref(&i)));
                p.inner.push(i);
            }
            sign_v2(&a, acting, &[], &p.inner[..1])
        }
        "CreateSubAccount" => create_sub1(&a, &payer, acting),
        "SubAccountSign" => {
            for _ in 0..1 + g.below(3) {
                let t = s.sub1_tok(acting);
                p.inner.push(inner(g, &s, &sub, &t, &[&friend]));
            }
            sign_sub1(&a, acting, &sub, &p.inner)
        }
        "WithdrawFromSubAccount" => withdraw_sub1(&a, &payer, acting, &sub, p.amount, None),
        "WithdrawFromSubAccount/token" => withdraw_sub1(&a, &payer, acting, &sub, p.amount, Some((p.src_tok, p.dst_tok, ids().token))),
        "ToggleSubAccount" => toggle_sub1(&a, &payer, target, acting, &sub, p.on),
        "TransferAssetsV1" => transfer_assets(&a, &payer, acting, &[]),
        "SetRentClaimerV1" => set_rent_claimer(&a, &payer, acting, &p.claimer),
        "CloseTokenAccountV1" => {
            p.toks = vec![s.empty];
            if g.chance(1, 3) {
                let mut k = s.empty;
                k[31] ^= 0x33;
                s.w.token(k, &native::Tok::new(s.mint, a.wallet, g.below(2)), ids().token);
                p.toks.push(k);
            }
            close_token(&a, &s.dest, &ids().token, &p.toks, acting)
        }
        "CloseSwigV1" => close_swig(&a, &s.dest, acting),
        "CreateSubAccountV2" => create_sub2(&a, &payer, acting, n),
        "ToggleSubAccountV2" => toggle_sub2(&a, &payer, acting, n, p.on),
        "SubAccountSignV2" => {
            for _ in 0..1 + g.below(3) {
                let t = s.sub2_tok();
                p.inner.push(inner(g, &s, &sub, &t, &[&friend]));
            }
            sign_sub2(&a, acting, n, &p.inner)
        }
        "WithdrawFromSubAccountV2" => withdraw_sub2(&a, &payer, acting, n, p.amount, None),
        "WithdrawFromSubAccountV2/token" => withdraw_sub2(&a, &payer, acting, n, p.amount, Some((p.src_tok, p.dst_tok, ids().token))),
        _ => {
            let t = s.w.img().unwrap().role(target).map(|r| r.ty).unwrap_or(1);
            let c = Cred::nth(if g.chance(1, 8) { 1 + g.below(6) as u16 } else { t }, 30 + g.below(3));
            p.auth = match &c {
                Cred::Ed { pk } | Cred::EdS { pk, .. } => pk.to_vec(),
                Cred::R1 { pk } | Cred::R1S { pk, .. } => pk.to_vec(),
                Cred::K1 { sk } | Cred::K1S { sk, .. } => {
                    if g.bool() {
                        k1_pub(sk)[1..].to_vec()
                    } else {
                        k1_pubc(sk).to_vec()
                    }
                }
                _ => vec![5; 32],
            };
            replace_authority(&a, acting, target, &p.auth)
        }
    };
    // the same moment and counter for both
    let mut sg = sg0.clone();
    if g.chance(1, 10) {
        sg.counter = sg.counter.wrapping_add(g.below(3) as u32).wrapping_sub(1);
    }
    if g.chance(1, 10) {
        sg.slot = s.w.bank.slot.saturating_sub(55 + g.below(12));
    }
    p.slot = sg.slot;
    p.counter = sg.counter;
    let second = match op {
        "SignV2" | "SignV2/signers" | "TransferAssetsV1" | "ReplaceAuthority" => a.wallet,
        "SubAccountSign" => sub,
        _ => payer,
    };
    let root = op == "CreateSession";
    let fam = if cred.session() && !root {
        p.authority = sg.session.unwrap_or_default();
        ED
    } else {
        match &cred {
            Cred::Ed { pk } | Cred::EdS { pk, .. } => {
                p.authority = *pk;
                ED
            }
            Cred::K1 { sk } | Cred::K1S { sk, .. } => {
                p.sk = *sk;
                K1
            }
            Cred::R1 { pk } | Cred::R1S { pk, .. } => {
                p.pk = *pk;
                R1
            }
            Cred::Ex { program, prefix } | Cred::ExS { program, prefix, .. } => {
                let mut d = prefix.clone();
                if op == "ReplaceAuthority" {
                    let cur = s.w.img().unwrap().role(target).and_then(|r| signer_of(r.ty, &r.auth).map(|k| (r.ty, k)));
                    let Some((ty, cur)) = cur else { return Ok(()) };
                    match ReplaceAuthorityInstruction::program_exec_proof_data(pk(&a.swig), pk(&a.wallet), acting, target, aty(ty), &cur, &p.auth) {
                        Ok(x) => d = x,
                        // a new key that does not fit: the request is refused anyway
                        Err(_) => d.extend([0; 32]),
                    }
                }
                p.pre = Ix { program: *program, accts: vec![r(a.swig), r(second)], data: d };
                if sdk.is_none() && g.bool() {
                    EXI
                } else {
                    EX
                }
            }
        }
    };
    let (imp, f) = if sdk.is_some() { Default::default() } else { builder(op, fam) };
    let gap: Vec<Ix> = if fam == EXI { (0..g.below(3)).map(|_| memo()).collect() } else { vec![] };
    p.idx = lead.len() as u8;
    // by hand
    let mut own = s.w.bank.clone();
    let mut c2 = call.clone();
    c2.pre = lead.clone();
    let mut sealed = seal(&mut own, &c2, &cred, &sg);
    for (i, c) in rest.iter().enumerate() {
        let mut sg = sg.clone();
        sg.counter = sg.counter.wrapping_add(1 + i as u32);
        let mut c = c.clone();
        c.pre = vec![];
        let x = seal(&mut own, &c, &cred, &sg);
        sealed.ixs.extend(x.ixs);
        sealed.signers.extend(x.signers);
    }
    let oo = own.tx(&sealed.ixs, &sealed.signers);
    // by the builder
    let made = match sdk {
        Some(s) => (s.call)(op, &p, &cred),
        None => match client_calls::call(&imp, &f, &p) {
            Some(m) => m,
            None => {
                cx.label("no such builder");
                return Ok(());
            }
        },
    };
    let label = format!("{op} {}", ["ed25519", "secp256k1", "secp256r1", "program exec", "program exec, index"][fam]);
    let made = match made {
        Ok(v) => v,
        Err(e) if ty == 7 && e.contains(NOT_OFFERED) => {
            cx.label("not offered for this kind");
            return Ok(());
        }
        Err(e) => {
            ensure!(!oo.ok(), format!("builder/{label}"), "{label}: the builder gave up ({e}) on a request the program accepts");
            cx.label("builder refuses");
            return Ok(());
        }
    };
    let mut tx = lead.clone();
    let made: Vec<Ix> = made.iter().map(from_client).collect();
    let last = made.len() - 1;
    tx.extend(made[..last].iter().cloned());
    tx.extend(gap);
    tx.push(made[last].clone());
    let mut bank = s.w.bank.clone();
    for m in p.msgs.borrow().iter() {
        bank.r1_signed.insert((p.pk, m.clone()));
    }
    // nobody else is there to sign
    let mut signers = sealed.signers.clone();
    signers.extend([payer, friend]);
    let oc = bank.tx(&tx, &signers);
    cx.note(|| format!("{label}: builder: {}; by hand: {}; inner {:?}", oc.err(), oo.err(), p.inner));
    cx.note(|| format!("accounts: {:?}", made[last].accts));
    ensure!(oc.ok() || !oo.ok(), format!("refused/{label}"), "{label}: the builder's request is refused: {}", oc.err());
    ensure!(oo.ok() || !oc.ok(), format!("accepted/{label}"), "{label}: the builder's request is accepted, the same request by hand is refused: {}", oo.err());
    if let Some(s) = sdk {
        (s.after)(&bank, &a.swig)?;
    }
    let d = diff(&own, &bank);
    ensure!(d.is_empty(), format!("effect/{label}"), "{label}: by hand against the builder's request: {d}");
    if oc.ok() {
        cx.label(&label);
        if !diff(&s.w.bank, &bank).is_empty() {
            cx.hit();
        }
    } else {
        cx.label("refused");
    }
    Ok(())
}
fn auth_counter_at(ty: u16) -> usize {
    // found by looking: the field that reads back as the counter
    let n = auth_len(ty).unwrap();
    for at in 0..n - 3 {
        let mut v = vec![0; n];
        v[at..at + 4].copy_from_slice(&0x01020304u32.to_le_bytes());
        if odometer(ty, &v) == 0x01020304 {
            return at;
        }
    }
    unreachable!()
}
/// An instruction that `from` signs, out of `tok` for tokens.
pub fn inner(g: &mut Gen, s: &Scene, from: &Key, tok: &Key, others: &[&Key]) -> Ix {
    match g.below(6) {
        0 | 1 => sys_transfer(from, &s.dest, 1 + g.below(SOLS)),
        2 => tok_transfer(&ids().token, tok, &s.theirs, from, 1 + g.below(350)),
        3 => Ix { program: NOOP1, accts: vec![rs(*from), rs(*others[0])], data: g.bytes(9) },
        4 => Ix { program: NOOP2, accts: vec![r(s.dest), r(s.w.a.swig), rs(*from), w(s.theirs)], data: vec![] },
        _ => tok_approve(&ids().token, tok, others[0], from, 5),
    }
}
fn create(g: &mut Gen, cx: &mut Cx) -> R {
    let w = World::new(g.below(1 << 20));
    let a = w.a.clone();
    let ty = 1 + g.below(8) as u16;
    let c = Cred::nth(ty, g.below(9));
    let mut acts = valid_acts(g, 5);
    if g.chance(3, 4) {
        acts.push(mk::all());
    }
    let own_ix = create_v1(&a, &w.payer, &c, &acts);
    let auth = c.create();
    let acts2 = acts.iter().map(client_act).collect();
    let made = swig_interface::CreateInstruction::new(
        pk(&a.swig),
        a.bump,
        pk(&w.payer),
        pk(&a.wallet),
        a.wallet_bump,
        AuthorityConfig { authority_type: aty(ty), authority: &auth },
        acts2,
        a.id,
    );
    ensure!(swig_interface::swig_key_bytes(&a.id).to_bytes() == a.swig, "address/config", "swig_key_bytes");
    ensure!(swig_interface::swig_wallet_address(&pk(&a.swig)).to_bytes() == a.wallet, "address/wallet", "swig_wallet_address");
    ensure!(swig_interface::program_id().to_bytes() == ids().swig, "address/program", "program_id");
    let made = match made {
        Ok(m) => from_client(&m),
        Err(e) => return fail("builder/Create", format!("{e:?}")),
    };
    let (mut x, mut y) = (w.bank.clone(), w.bank.clone());
    let o1 = x.tx(&[own_ix], &[w.payer]);
    let o2 = y.tx(&[made], &[w.payer]);
    cx.note(|| format!("create: by hand {}, builder {}", o1.err(), o2.err()));
    ensure!(o1.ok() == o2.ok(), "verdict/Create", "by hand: {}, by the builder: {}", o1.err(), o2.err());
    let d = diff(&x, &y);
    ensure!(d.is_empty(), "effect/Create", "{d}");
    if o2.ok() {
        cx.label("Create");
        cx.hit();
    }
    Ok(())
}
