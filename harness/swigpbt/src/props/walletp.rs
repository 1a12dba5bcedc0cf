//! P36: histories of requests made through the SDK's SwigWallet.
use super::authvm::diff;
use super::client::{aty, from_client, inner, pk, to_client, NOT_OFFERED};
use super::common::*;
use super::scene::*;
use super::sdkp::{fresh_acts, perm_of, role_of, told, MSGS};
use solana_program::{instruction::Instruction, pubkey::Pubkey};
use solana_sdk::account::Account;
use solana_sdk::signature::Keypair;
use std::cell::RefCell;
use std::rc::Rc;
use swig_sdk::types::{Permission, UpdateAuthorityData};
use swig_sdk::{Chain, SwigWallet};

pub fn p36() -> Prop {
    Prop {
        id: "P36",
        rule: "at least two requests of the history, of which one spent or changed something, were accepted",
        assumptions: &[
            "the caller passes the keypair its role signs with, and the session key that is open",
            "a role that removes itself, and a wallet shared with another client between two requests, are left out",
            "stand-ins for the client crates that cannot be fetched here",
        ],
        quick: 15_000,
        thorough: 150_000,
        fixed: None,
        run: case,
    }
}

pub struct Net {
    pub bank: Bank,
    /// slots that pass between asking for the slot and running
    pub lag: u64,
    /// the last transaction sent
    pub last: Option<Result<(), String>>,
}
pub struct Remote(pub Rc<RefCell<Net>>);
impl Chain for Remote {
    fn account(&self, k: &Pubkey) -> Option<Account> {
        let n = self.0.borrow();
        let a = n.bank.get(&k.to_bytes());
        (a.lamports > 0).then(|| Account { lamports: a.lamports, data: a.data.clone(), owner: pk(&a.owner), executable: a.executable, rent_epoch: 0 })
    }
    fn slot(&self) -> u64 {
        self.0.borrow().bank.slot
    }
    fn send(&mut self, ixs: &[Instruction], signers: &[Pubkey]) -> Result<(), String> {
        let mut n = self.0.borrow_mut();
        MSGS.with(|v| n.bank.r1_signed.extend(v.borrow_mut().drain(..)));
        #[cfg(feature = "cli")]
        n.bank.r1_signed.extend(solana_secp256r1_program::signed());
        n.bank.slot += n.lag;
        let ixs: Vec<Ix> = ixs.iter().map(from_client).collect();
        let signers: Vec<Key> = signers.iter().map(|k| k.to_bytes()).collect();
        let o = n.bank.tx(&ixs, &signers);
        let r = if o.ok() { Ok(()) } else { Err(o.err().to_string()) };
        n.last = Some(r.clone());
        r
    }
}
/// What the application knows.
struct App {
    creds: Vec<(u32, Cred)>,
    cur: u32,
    /// the key the wallet was given to sign with
    kp: Option<Key>,
    pre: Rc<RefCell<Instruction>>,
}
fn kp(k: &Key) -> &'static Keypair {
    thread_local! { static KPS: RefCell<Vec<&'static Keypair>> = const { RefCell::new(vec![]) }; }
    use solana_sdk::signature::Signer;
    KPS.with(|v| {
        let mut v = v.borrow_mut();
        if let Some(x) = v.iter().find(|x| x.pubkey() == pk(k)) {
            return *x;
        }
        let x: &'static Keypair = Box::leak(Box::new(Keypair::of(*k)));
        v.push(x);
        x
    })
}
impl App {
    fn cred(&self, role: u32) -> Cred {
        self.creds.iter().find(|x| x.0 == role).unwrap().1.clone()
    }
    /// the key that signs for a role
    fn key_for(&self, c: &Cred, root: bool, session: Key) -> Option<Key> {
        match c {
            Cred::Ed { pk } => Some(*pk),
            Cred::EdS { pk, .. } if root => Some(*pk),
            Cred::EdS { .. } => Some(session),
            Cred::K1S { .. } | Cred::R1S { .. } if !root => Some(session),
            _ => None,
        }
    }
}
pub fn naming(c: &Cred) -> Vec<u8> {
    let v = c.create();
    match c {
        Cred::Ed { .. } | Cred::EdS { .. } => v[..32].to_vec(),
        Cred::K1S { .. } => v[..64].to_vec(),
        Cred::R1S { .. } => v[..33].to_vec(),
        _ => v,
    }
}
type W = SwigWallet<'static>;
fn img(net: &Rc<RefCell<Net>>, a: &Addr) -> SwigImg {
    SwigImg::dec(&net.borrow().bank.get(&a.swig).data).expect("config")
}
/// Everything the wallet says about itself and the chain.
fn reports(w: &W, net: &Rc<RefCell<Net>>, a: &Addr, app: &App, what: &str) -> R {
    let im = img(net, a);
    let Some(me) = im.role(app.cur) else { return fail("report/role", "the acting role is gone") };
    ensure!(matches!(w.get_current_role_id(), Ok(n) if n == app.cur), "report/role", "{what}: current role");
    let held = |acts: &[Act], f: &dyn Fn(&Act) -> bool| acts.iter().any(f);
    told(w.get_current_permissions().unwrap(), &me.acts, &format!("{what}: current permissions"))?;
    match w.get_current_authority_permissions() {
        Ok(v) => told(&v, &me.acts, &format!("{what}: permissions of the current authority"))?,
        Err(e) => return fail("report/authority permissions", format!("{what}: {e}")),
    }
    ensure!(w.has_all_permissions().unwrap() == held(&me.acts, &|x| x.ty == perm::ALL), "report/all", "{what}: has_all_permissions");
    ensure!(w.can_manage_authority().unwrap() == held(&me.acts, &|x| x.ty == perm::MANAGE), "report/manage", "{what}: can_manage_authority");
    ensure!(w.current_role.role_id == app.cur && w.current_role.authority_type == aty(me.ty), "report/type", "{what}: current role's type");
    ensure!(w.current_role.session_based == (me.ty % 2 == 0), "report/session", "{what}: current role has sessions");
    if matches!(me.ty, 3..=6) {
        let n = odometer(me.ty, &me.auth);
        let got = w.get_odometer();
        ensure!(matches!(got, Ok(x) if x == n), "report/odometer", "{what}: the wallet's counter is {got:?}, the chain's is {n}");
    }
    for r in &im.roles {
        let who = format!("{what}: role {}", r.id);
        match w.get_role_permissions(r.id) {
            Ok(v) => told(&v, &r.acts, &who)?,
            Err(e) => return fail("report/permissions", format!("{who}: {e}")),
        }
        for x in &r.acts {
            if let Some(p) = perm_of(x) {
                let first = r.acts.iter().find(|y| y.ty == x.ty) == Some(x);
                ensure!(!first || matches!(w.role_has_permission(r.id, &p), Ok(true)), "report/has", "{who}: role_has_permission({p:?})");
            }
        }
        ensure!(matches!(w.get_authority_type(r.id), Ok(t) if t == aty(r.ty)), "report/type", "{who}: type");
        ensure!(matches!(w.is_session_based(r.id), Ok(b) if b == (r.ty % 2 == 0)), "report/session", "{who}: is_session_based");
        if let Some(k) = signer_of(r.ty, &r.auth) {
            ensure!(matches!(w.get_authority_identity(r.id), Ok(x) if x == k), "report/identity", "{who}: identity");
            let first = im.roles.iter().find(|x| signer_of(x.ty, &x.auth) == Some(k.clone())).unwrap().id;
            ensure!(matches!(w.get_role_id(&k), Ok(n) if n == first), "report/lookup", "{who}: get_role_id");
            ensure!(w.authenticate_authority(&k).is_ok(), "report/known", "{who}: authenticate_authority");
        }
    }
    let stranger = kk("a stranger");
    ensure!(w.get_role_id(&stranger).is_err() && w.authenticate_authority(&stranger).is_err(), "report/stranger", "{what}: a key no role has");
    ensure!(w.get_role_permissions(im.role_counter).is_err(), "report/no role", "{what}: a role that does not exist");
    let bank = &net.borrow().bank;
    ensure!(w.get_balance().ok() == Some(bank.get(&a.swig).lamports), "report/balance", "{what}: get_balance");
    ensure!(w.get_current_slot().ok() == Some(bank.slot), "report/slot", "{what}: get_current_slot");
    ensure!(w.get_swig() == pk(&a.swig) && w.get_swig_account().ok() == Some(pk(&a.swig)), "report/address", "{what}: get_swig");
    ensure!(w.get_swig_wallet_address().ok() == Some(pk(&a.wallet)), "report/address", "{what}: get_swig_wallet_address");
    let s1 = a.sub1(app.cur).0;
    let want = (bank.get(&s1).lamports > 0).then(|| pk(&s1));
    ensure!(matches!(w.get_sub_account(), Ok(x) if x == want), "report/sub-account", "{what}: get_sub_account");
    ensure!(w.get_sub_account_v2_counter().ok() == Some(im.sub_counter), "report/sub-account counter", "{what}: get_sub_account_v2_counter");
    for n in 0..2 {
        let want = (bank.get(&a.sub2_state(n).0).lamports > 0).then(|| pk(&a.sub2(n).0));
        let got = w.get_sub_account_v2(n);
        ensure!(matches!(got, Ok(x) if x == want), "report/sub-account v2", "{what}: get_sub_account_v2({n}): {got:?}");
    }
    Ok(())
}
const URL: &str = "http://here";

fn case(g: &mut Gen, cx: &mut Cx) -> R {
    let n = 1 + g.us(3) as u32;
    let payers = [kk("payer"), kk("another payer")];
    let mut app = App {
        creds: vec![],
        cur: 0,
        kp: None,
        pre: Rc::new(RefCell::new(Instruction { program_id: pk(&NOOP1), accounts: vec![], data: vec![] })),
    };
    for i in 0..n {
        let mut c = Cred::nth(1 + g.below(7) as u16, 40 + 7 * i as u64 + g.below(3));
        if i == 0 && matches!(c, Cred::Ed { .. }) && g.chance(1, 3) {
            c = Cred::Ed { pk: payers[0] };
        }
        app.creds.push((i, c));
    }
    let newborn = g.chance(1, 4);
    if newborn {
        app.creds.truncate(1);
    }
    let mut roles = vec![];
    for (i, c) in &app.creds {
        let mut acts = vec![mk::sub(), mk::flag(perm::SUB2_CREATE), mk::all()];
        if *i > 0 && g.bool() {
            acts = fresh_acts(g, 3);
            acts.retain(|x| x.ty != perm::SCOPE && x.ty != perm::SUB2_CREATE);
            acts = acts.iter().map(|x| used(g, x)).collect();
            acts.push(mk::flag([perm::ALL_BUT, perm::MANAGE, perm::SUB2_CREATE][g.us(3)]));
        } else {
            g.shuffle(&mut acts);
        }
        roles.push((c.clone(), acts));
    }
    let mut s = Scene::new(g.below(4), &roles);
    if !newborn && g.bool() {
        // sub-accounts from earlier; what a role without the right to make one tries fails
        for i in 0..n {
            s.with_sub1(i);
            if s.w.img().unwrap().sub_counter == 0 {
                s.with_sub2(i);
            }
        }
    }
    let a = s.w.a.clone();
    let net = Rc::new(RefCell::new(Net { bank: s.w.bank.clone(), lag: 0, last: None }));
    net.borrow_mut().bank.fund(payers[1], 1000 * SOLS);
    swig_sdk::install(Box::new(Remote(net.clone())));
    MSGS.with(|v| v.borrow_mut().clear());
    let mut payer = payers[0];
    // which of its roles the wallet opens with is found by its key
    app.cur = g.below(app.creds.len() as u64) as u32;
    let session = |net: &Rc<RefCell<Net>>, role: u32| -> Key {
        let b = &net.borrow().bank;
        sign_of(b, &a.swig, role).session.unwrap_or_default()
    };
    let open = |g: &mut Gen, app: &mut App, payer: &Key, net: &Rc<RefCell<Net>>, se: Key, counter: u32| -> Result<W, String> {
        let c = app.cred(app.cur);
        app.kp = app.key_for(&c, false, se);
        let role = role_of(&c, se, counter, app.pre.clone(), g.bool());
        net.borrow_mut().last = None;
        SwigWallet::new(a.id, role, kp(payer), URL.into(), app.kp.as_ref().map(kp)).map_err(|e| e.to_string())
    };
    let mut accepted = 0;
    let mut changed = false;
    let wallet;
    if newborn {
        let c = app.cred(0);
        let start = net.borrow().bank.get(&a.wallet);
        {
            let b = &mut net.borrow_mut().bank;
            b.put(a.swig, Default::default());
            b.put(a.wallet, Default::default());
        }
        let mut hand = net.borrow().bank.clone();
        let ix = create_v1(&a, &payer, &c, &[mk::all()]);
        let o = hand.tx(std::slice::from_ref(&ix), &[payer]);
        let w = open(g, &mut app, &payer, &net, [0; 32], 1);
        ensure!(o.ok() == w.is_ok(), "verdict/new", "a new wallet: by hand {}, by the SDK {:?}", o.err(), w.as_ref().err());
        let d = diff(&hand, &net.borrow().bank);
        ensure!(d.is_empty(), "effect/new", "a new wallet: {d}");
        let Ok(w) = w else { return Ok(()) };
        wallet = w;
        let mut wa = net.borrow().bank.get(&a.wallet);
        wa.lamports += start.lamports;
        net.borrow_mut().bank.put(a.wallet, wa);
        cx.label("new wallet");
    } else {
        let se = session(&net, app.cur);
        match {
            let stale = 1 + g.below(3) as u32;
            open(g, &mut app, &payer, &net, se, stale)
        } {
            Ok(w) => wallet = w,
            Err(e) => return fail("open", format!("{} role {}: the wallet cannot be opened: {e}", app.cred(app.cur).name(), app.cur)),
        }
    }
    let mut w = wallet;
    reports(&w, &net, &a, &app, "opened")?;
    for _ in 0..1 + g.us(6) {
        // what goes on besides requests
        match g.below(8) {
            0 => {
                payer = payers[g.us(2)];
                w.switch_payer(kp(&payer)).unwrap();
                ensure!(w.get_fee_payer() == pk(&payer), "payer", "switch_payer");
            }
            1 => {
                let i = img(&net, &a);
                let ids: Vec<u32> = app.creds.iter().map(|x| x.0).filter(|r| i.role(*r).is_some()).collect();
                let to = *g.pick(&ids);
                let c = app.cred(to);
                let se = session(&net, to);
                app.kp = app.key_for(&c, false, se);
                let role = role_of(&c, se, 1 + g.below(3) as u32, app.pre.clone(), g.bool());
                if let Err(e) = w.switch_authority(to, role, app.kp.as_ref().map(kp)) {
                    return fail("switch", format!("switching to role {to}: {e}"));
                }
                app.cur = to;
                reports(&w, &net, &a, &app, "switched")?;
            }
            2 => {
                let se = session(&net, app.cur);
                match {
            let stale = 1 + g.below(3) as u32;
            open(g, &mut app, &payer, &net, se, stale)
        } {
                    Ok(x) => w = x,
                    Err(e) => return fail("open", format!("{} role {}: the wallet cannot be opened again: {e}", app.cred(app.cur).name(), app.cur)),
                }
                ensure!(net.borrow().last.is_none(), "open/sent", "opening an existing wallet sent a transaction");
                reports(&w, &net, &a, &app, "reopened")?;
            }
            3 => net.borrow_mut().bank.slot += g.below(80),
            _ => {}
        }
        net.borrow_mut().lag = if g.chance(1, 4) { g.below(62) } else { g.below(3) };
        request(g, cx, &mut s, &mut w, &net, &a, &mut app, &payer, &mut accepted, &mut changed)?;
    }
    if accepted >= 2 && changed {
        cx.hit();
    }
    Ok(())
}
const OPS: [&str; 18] = [
    "add_authority",
    "remove_authority",
    "update_authority",
    "create_session",
    "create_session",
    "sign_v2",
    "sign_v2",
    "sign_v2",
    "set_rent_claimer",
    "create_sub_account",
    "sign_with_sub_account",
    "withdraw_from_sub_account",
    "withdraw_token_from_sub_account",
    "toggle_sub_account",
    "create_sub_account_v2",
    "sign_with_sub_account_v2",
    "withdraw_from_sub_account_v2",
    "toggle_sub_account_v2",
];
#[allow(clippy::too_many_arguments)]
fn request(
    g: &mut Gen,
    cx: &mut Cx,
    s: &mut Scene,
    w: &mut W,
    net: &Rc<RefCell<Net>>,
    a: &Addr,
    app: &mut App,
    payer: &Key,
    accepted: &mut usize,
    changed: &mut bool,
) -> R {
    let op = if g.chance(1, 18) { "withdraw_token_from_sub_account_v2" } else { *g.pick(&OPS) };
    let im = img(net, a);
    let cur = app.cur;
    let cred = app.cred(cur);
    let before = net.borrow().bank.clone();
    let sg = sign_of(&before, &a.swig, cur);
    // the right key for the request
    let root = op == "create_session";
    let need = app.key_for(&cred, root, sg.session.unwrap_or_default());
    let spare = root && matches!(cred, Cred::K1S { .. } | Cred::R1S { .. }) && g.bool();
    if need != app.kp && !spare {
        app.kp = need;
        let role = role_of(&cred, sg.session.unwrap_or_default(), 1 + g.below(3) as u32, app.pre.clone(), g.bool());
        if let Err(e) = w.switch_authority(cur, role, need.as_ref().map(kp)) {
            return fail("switch", format!("another key for role {cur}: {e}"));
        }
    }
    s.w.bank = before.clone();
    let sub1 = a.sub1(cur).0;
    let sub2 = a.sub2(0).0;
    let second = match op {
        "sign_v2" => a.wallet,
        "sign_with_sub_account" => sub1,
        _ => *payer,
    };
    if let Cred::Ex { program, prefix } = &cred {
        *app.pre.borrow_mut() = to_client(&Ix { program: *program, accts: vec![r(a.swig), r(second)], data: prefix.clone() });
    }
    // somebody who has to sign too is never there
    let nobody = kk("nobody");
    let around = if g.bool() { 300 } else { 5 * SOLS };
    let amount = 1 + near(g, around) % (6 * SOLS);
    let (s1t, s2t) = (s.sub1_tok(cur), s.sub2_tok());
    let mut calls: Vec<Call> = vec![];
    let perms = |v: &[Act]| -> Vec<Permission> { v.iter().map(|x| perm_of(x).unwrap()).collect() };
    let plain = |g: &mut Gen, s: &Scene, from: &Key, tok: &Key| loop {
        let i = inner(g, s, from, tok, &[&nobody]);
        if i.program != NOOP1 || g.chance(1, 10) {
            break i;
        }
    };
    let mut tries: Option<&'static str> = None;
    let mut fresh: Option<Cred> = None;
    net.borrow_mut().last = None;
    let res: Result<(), String> = match op {
        "add_authority" => {
            let c = Cred::nth(1 + g.below(7) as u16, 100 + 3 * im.role_counter as u64 + g.below(2));
            let mut acts = fresh_acts(g, 4);
            acts.retain(|x| x.ty != perm::SCOPE);
            acts.push(mk::manage());
            acts.dedup_by_key(|x| x.ty);
            calls.push(add_authority(a, payer, cur, c.ty(), &c.create(), &enc_actions(&acts), acts.len() as u8));
            let r = w.add_authority(aty(c.ty()), &c.create(), perms(&acts));
            fresh = Some(c);
            r.map(|_| ())
        }
        "remove_authority" => {
            // a key that several roles have does not name one of them
            let alone = |r: &u32| app.creds.iter().filter(|c| im.role(c.0).is_some() && naming(&c.1) == naming(&app.cred(*r))).count() == 1;
            let others: Vec<u32> = im.roles.iter().map(|r| r.id).filter(|r| *r != cur).filter(alone).collect();
            if others.is_empty() || g.chance(1, 10) {
                tries = Some("unknown");
                w.remove_authority(&kk("a stranger")).map(|_| ())
            } else {
                let t = *g.pick(&others);
                calls.push(remove_authority(a, payer, cur, t));
                w.remove_authority(&naming(&app.cred(t))).map(|_| ())
            }
        }
        "update_authority" => {
            let t = g.below(im.role_counter as u64 + 1) as u32;
            match g.below(4) as u8 {
                k @ 0..=1 => {
                    let mut acts = fresh_acts(g, 3);
                    acts.retain(|x| x.ty != perm::SCOPE && (k == 0 || x.ty != perm::SUB));
                    acts.push(if k == 0 { mk::all() } else { mk::sol(g.u64()) });
                    acts.dedup_by_key(|x| x.ty);
                    calls.push(update_authority(a, payer, cur, t, k, &enc_actions(&acts)));
                    let d = perms(&acts);
                    w.update_authority(t, if k == 0 { UpdateAuthorityData::ReplaceAll(d) } else { UpdateAuthorityData::AddActions(d) }).map(|_| ())
                }
                2 => {
                    calls.push(update_authority(a, payer, cur, t, 2, &[perm::SOL as u8]));
                    let d = perms(&[mk::sol(1)]);
                    w.update_authority(t, UpdateAuthorityData::RemoveActionsByType(d)).map(|_| ())
                }
                _ => {
                    let i = g.below(3) as u16;
                    calls.push(update_authority(a, payer, cur, t, 3, &i.to_le_bytes()));
                    w.update_authority(t, UpdateAuthorityData::RemoveActionsByIndex(vec![i])).map(|_| ())
                }
            }
        }
        "create_session" => {
            let k = kn("fresh", g.below(3));
            let d = 1 + near(g, cred.max().max(1)) % (cred.max().max(1).saturating_add(2));
            calls.push(create_session(a, payer, cur, &k, d));
            w.create_session(pk(&k), d)
        }
        "sign_v2" => {
            let mut v = vec![];
            for _ in 0..1 + g.below(3) {
                let t = s.tok;
                v.push(plain(g, s, &a.wallet, &t));
            }
            calls.extend(v.iter().map(|i| sign_v2(a, cur, &[], std::slice::from_ref(i))));
            w.sign_v2(v.iter().map(to_client).collect(), None).map(|_| ())
        }
        "set_rent_claimer" => {
            let k = kn("claimer", g.below(3));
            calls.push(set_rent_claimer(a, payer, cur, &k));
            w.set_rent_claimer(pk(&k)).map(|_| ())
        }
        "create_sub_account" => {
            calls.push(create_sub1(a, payer, cur));
            w.create_sub_account().map(|_| ())
        }
        "sign_with_sub_account" => {
            let v: Vec<Ix> = (0..1 + g.below(3)).map(|_| plain(g, s, &sub1, &s1t)).collect();
            calls.push(sign_sub1(a, cur, &sub1, &v));
            w.sign_with_sub_account(v.iter().map(to_client).collect(), None).map(|_| ())
        }
        "withdraw_from_sub_account" => {
            calls.push(withdraw_sub1(a, payer, cur, &sub1, amount, None));
            w.withdraw_from_sub_account(pk(&sub1), amount).map(|_| ())
        }
        "withdraw_token_from_sub_account" => {
            calls.push(withdraw_sub1(a, payer, cur, &sub1, amount, Some((s1t, s.tok, ids().token))));
            w.withdraw_token_from_sub_account(pk(&sub1), pk(&s1t), pk(&s.tok), pk(&ids().token), amount).map(|_| ())
        }
        "toggle_sub_account" => {
            let owner = if g.chance(1, 3) { g.below(im.role_counter as u64) as u32 } else { cur };
            let sub = a.sub1(owner).0;
            let on = g.bool();
            calls.push(toggle_sub1(a, payer, owner, cur, &sub, on));
            w.toggle_sub_account(pk(&sub), cur, owner, on).map(|_| ())
        }
        "create_sub_account_v2" => {
            calls.push(create_sub2(a, payer, cur, im.sub_counter));
            match w.create_sub_account_v2() {
                Ok((_, n)) => {
                    ensure!(n == im.sub_counter, "report/new sub-account", "create_sub_account_v2 returned {n}, it is number {}", im.sub_counter);
                    Ok(())
                }
                Err(e) => Err(e),
            }
        }
        "sign_with_sub_account_v2" => {
            let v: Vec<Ix> = (0..1 + g.below(3)).map(|_| plain(g, s, &sub2, &s2t)).collect();
            calls.push(sign_sub2(a, cur, 0, &v));
            w.sign_with_sub_account_v2(0, v.iter().map(to_client).collect(), None).map(|_| ())
        }
        "withdraw_from_sub_account_v2" => {
            calls.push(withdraw_sub2(a, payer, cur, 0, amount, None));
            w.withdraw_from_sub_account_v2(0, amount).map(|_| ())
        }
        "withdraw_token_from_sub_account_v2" => {
            calls.push(withdraw_sub2(a, payer, cur, 0, amount, Some((s2t, s.tok, ids().token))));
            w.withdraw_token_from_sub_account_v2(0, pk(&s2t), pk(&s.tok), pk(&ids().token), amount).map(|_| ())
        }
        _ => {
            let on = g.bool();
            calls.push(toggle_sub2(a, payer, cur, 0, on));
            w.toggle_sub_account_v2(0, on).map(|_| ())
        }
    }
    .map_err(|e| e.to_string());
    let label = format!("{op} {}", cred.name());
    // by hand
    let mut hand = before.clone();
    let sent = net.borrow().last.clone();
    let mut ixs = vec![];
    let mut signers = vec![*payer];
    for (i, c) in calls.iter().enumerate() {
        let mut sg = sg.clone();
        sg.counter = sg.counter.wrapping_add(i as u32);
        let x = seal(&mut hand, c, &cred, &sg);
        ixs.extend(x.ixs);
        signers.extend(x.signers);
    }
    // the friend whose signature an inner instruction needs is not asked
    signers.retain(|k| *k != nobody);
    if sent.is_some() {
        hand.slot += net.borrow().lag;
    }
    let by_hand = if tries.is_some() { Err("no such authority".to_string()) } else { let o = hand.tx(&ixs, &signers); if o.ok() { Ok(()) } else { Err(o.err().to_string()) } };
    cx.note(|| format!("role {cur} {label}: {res:?}; on chain: {sent:?}; by hand: {by_hand:?}"));
    if matches!(&res, Err(e) if e.contains(NOT_OFFERED)) && matches!(cred, Cred::Ex { .. }) && sent.is_none() {
        cx.label("not offered for this kind");
        return Ok(());
    }
    ensure!(by_hand.is_ok() || res.is_err(), format!("accepted/{label}"), "{label}: accepted; the same request by hand is refused: {by_hand:?}");
    ensure!(!(res.is_err() && matches!(sent, Some(Ok(())))), format!("told of failure/{label}"), "{label}: it was executed, but the caller was told: {res:?}");
    ensure!(res.is_ok() || by_hand.is_err(), format!("refused/{label}"), "{label}: {res:?}; the same request by hand is accepted");
    let d = diff(&hand, &net.borrow().bank);
    ensure!(d.is_empty(), format!("effect/{label}"), "{label}: by hand against the wallet's request: {d}");
    if res.is_ok() {
        cx.label(&label);
        *accepted += 1;
        *changed |= !diff(&before, &net.borrow().bank).is_empty();
        if let Some(c) = fresh {
            app.creds.push((im.role_counter, c));
        }
        // what sub-accounts hold comes from elsewhere
        let b = &mut net.borrow_mut().bank;
        for (sub, tok) in [(sub1, s1t), (sub2, s2t)] {
            let made = b.get(&sub);
            if made.lamports > 0 && before.get(&sub).lamports == 0 {
                b.fund(sub, 5 * SOLS);
                b.put(tok, Acct { lamports: rent_min(165), data: native::Tok::new(s.mint, sub, 300).pack(), owner: ids().token, executable: false });
            }
        }
    } else {
        cx.label("refused");
    }
    reports(w, net, a, app, &label)
}
