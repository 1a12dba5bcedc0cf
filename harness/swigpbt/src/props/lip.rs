//! P39: the command line client as a dialogue.
use super::authvm::diff;
use super::clip::{b58, der, kp_text, shown};
use super::common::*;
use super::scene::*;
use super::sdkp::{fresh_act, fresh_acts, perm_of};
use super::walletp::{Net, Remote};
use clikit::Answer;
use solana_sdk::signature::Keypair;
use std::cell::RefCell;
use std::rc::Rc;
use swig_cli::Session;
use swig_sdk::types::{Permission as Q, RecurringConfig};

pub fn p39() -> Prop {
    Prop {
        id: "P39",
        rule: "a request described in the dialogue that changes the accounts was accepted, or what a wallet holds was shown",
        assumptions: &[
            "the questions are asked in the order they are asked today: a dialogue that takes another course gives no verdict",
            "authorities in use sign with their own keypair (Ed25519, Secp256k1, Secp256r1); sessions are not opened in a dialogue",
            "stand-ins for the client crates that cannot be fetched here; a secp256r1 key pair is named by its public key",
        ],
        quick: 12_000,
        thorough: 120_000,
        fixed: None,
        run: case,
    }
}
type Script = Vec<(&'static str, Answer)>;
fn pick(s: &str) -> Answer {
    Answer::Pick(s.into())
}
fn text(s: impl ToString) -> Answer {
    Answer::Text(s.to_string())
}
const TYPES: [&str; 6] = ["Ed25519", "Ed25519Session", "Secp256k1", "Secp256k1Session", "Secp256r1", "Secp256r1Session"];
const KINDS: [u16; 17] = [
    perm::ALL,
    perm::MANAGE,
    perm::ALL_BUT,
    perm::TOKEN,
    perm::TOKEN_REC,
    perm::SOL,
    perm::SOL_REC,
    perm::TOKEN_DEST,
    perm::TOKEN_REC_DEST,
    perm::SOL_DEST,
    perm::SOL_REC_DEST,
    perm::PROGRAM,
    perm::PROGRAM_ALL,
    perm::SCOPE,
    perm::CURATED,
    perm::SUB,
    perm::STAKE_ALL,
];
const MORE: [u16; 2] = [perm::STAKE, perm::STAKE_REC];
/// Permissions the dialogue has questions for.
fn acts(g: &mut Gen, max: usize) -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    for _ in 0..1 + g.us(max) {
        let t = if g.chance(1, 8) { *g.pick(&MORE) } else { *g.pick(&KINDS) };
        v.push(match t {
            perm::SUB => mk::sub(),
            perm::SCOPE => {
                let (kind, limit, window) = if g.bool() { (2, g.u64(), 1 + g.u64() % (1 << 40)) } else { (0, 0, 0) };
                let p = if g.bool() { ids().token } else { ids().token22 };
                mk::scope(0, limit as u128, window, 0, &p, &kn("elsewhere", g.below(3)), kind, 2, 64, 72)
            }
            t => fresh_act(g, t),
        });
    }
    v.dedup_by_key(|x| x.ty);
    v
}
fn describe(v: &[Act]) -> Script {
    let mut s: Script = vec![];
    let often = |s: &mut Script, r: &Option<RecurringConfig>| {
        s.push(("recurring", Answer::Yes(r.is_some())));
        if let Some(r) = r {
            s.push(("window", text(r.window)));
        }
    };
    for (i, x) in v.iter().enumerate() {
        let q = perm_of(x).unwrap();
        s.push((
            "permission type",
            pick(match &q {
                Q::All => "All",
                Q::ManageAuthority => "Manage Authority",
                Q::AllButManageAuthority => "All But Manage Authority",
                Q::Token { .. } => "Token",
                Q::Sol { .. } => "SOL",
                Q::TokenDestination { .. } => "Token Destination",
                Q::SolDestination { .. } => "SOL Destination",
                Q::Program { .. } => "Program",
                Q::ProgramAll => "Program All",
                Q::ProgramScope { .. } => "Program Scope",
                Q::ProgramCurated => "Program Curated",
                Q::SubAccount { .. } => "Sub Account",
                Q::Stake { .. } => "Stake",
                Q::StakeAll => "Stake All",
                _ => unreachable!(),
            }),
        ));
        match &q {
            Q::Token { mint, amount, recurring } => {
                s.push(("mint", text(mint)));
                s.push(("amount", text(amount)));
                often(&mut s, recurring);
            }
            Q::Stake { amount, recurring } => {
                s.push(("?amount", text(amount)));
                s.push(("?recurring", Answer::Yes(recurring.is_some())));
                if let Some(r) = recurring {
                    s.push(("?window", text(r.window)));
                }
            }
            Q::Sol { amount, recurring } => {
                s.push(("amount", text(amount)));
                often(&mut s, recurring);
            }
            Q::TokenDestination { mint, destination, amount, recurring } => {
                s.push(("mint", text(mint)));
                s.push(("destination", text(destination)));
                s.push(("amount", text(amount)));
                often(&mut s, recurring);
            }
            Q::SolDestination { destination, amount, recurring } => {
                s.push(("destination", text(destination)));
                s.push(("amount", text(amount)));
                often(&mut s, recurring);
            }
            Q::Program { program_id } => s.push(("program", text(program_id))),
            Q::ProgramScope { program_id, target_account, limit, window, .. } => {
                s.push(("token program", pick(if program_id.to_bytes() == ids().token { "SPL Token" } else { "Token2022" })));
                s.push(("target", text(target_account)));
                s.push(("recurring", Answer::Yes(limit.is_some())));
                if let (Some(l), Some(w)) = (limit, window) {
                    s.push(("limit", text(l)));
                    s.push(("window", text(w)));
                }
            }
            _ => {}
        }
        s.push(("more", Answer::Yes(i + 1 < v.len())));
    }
    s
}
/// How a key is typed.
fn typed(g: &mut Gen, c: &Cred) -> String {
    let (x, short) = (g.bool(), g.bool());
    let hex = |b: &[u8]| format!("{}{}", if x { "0x" } else { "" }, hex::encode(b));
    match c {
        Cred::K1 { sk } | Cred::K1S { sk, .. } => {
            let k = k1_pub(sk);
            hex(&k[short as usize..])
        }
        Cred::R1 { pk } | Cred::R1S { pk, .. } => hex(pk),
        Cred::Ed { pk } | Cred::EdS { pk, .. } => b58(pk),
        _ => unreachable!(),
    }
}
/// How a key is listed.
fn listed(c: &Cred) -> Option<String> {
    Some(match c {
        Cred::Ed { pk } | Cred::EdS { pk, .. } => b58(pk),
        Cred::K1 { sk } | Cred::K1S { sk, .. } => format!("0x{}", hex::encode(k1_pubc(sk))),
        Cred::R1 { pk } | Cred::R1S { pk, .. } => format!("0x{}", hex::encode(pk)),
        _ => return None,
    })
}
fn garbage(g: &mut Gen) -> String {
    match g.below(6) {
        0 => "".into(),
        1 => "not a key".into(),
        2 => b58(&kk("short")),
        3 => b58(&[7; 65]),
        4 => hex::encode([9; 32]) + "zz",
        _ => kp_text(&kk("x"))[1..].to_string(),
    }
}
/// What is typed where a key pair that signs is asked for.
fn secret(g: &mut Gen, c: &Cred, pem: bool) -> String {
    match c {
        Cred::Ed { pk } | Cred::EdS { pk, .. } => kp_text(pk),
        Cred::K1 { sk } | Cred::K1S { sk, .. } => format!("{}{}", if g.bool() { "0x" } else { "" }, hex::encode(sk)),
        Cred::R1 { pk } if pem => hex::encode(clikit::ec::EcKey::of(*pk).private_key_to_pem().unwrap()),
        Cred::R1 { pk } | Cred::R1S { pk, .. } => format!("{}{}", if g.bool() { "0x" } else { "" }, hex::encode(der(pk))),
        _ => unreachable!(),
    }
}
struct Talk {
    se: Session,
    net: Rc<RefCell<Net>>,
}
struct Said {
    res: Result<(), String>,
    out: String,
    sent: Option<Result<(), String>>,
}
impl Talk {
    /// None: the questions were others.
    fn go(&mut self, cx: &mut Cx, what: &str, mut s: Script) -> Result<Option<Said>, Fail> {
        s.push(("action", pick("Exit")));
        let said = s.iter().map(|(q, a)| format!("{q}: {a:?}")).collect::<Vec<_>>().join(", ");
        self.net.borrow_mut().last = None;
        clikit::script(s);
        swig_cli::out::take();
        let res = no_panic(|| self.se.go());
        let out = swig_cli::out::take();
        let sent = self.net.borrow().last.clone();
        cx.note(|| format!("{what}: {said}\n  -> {res:?}, on chain {sent:?}; printed {out:?}"));
        let res = match res {
            Err(p) => return Err(fail::<()>(&format!("panic/{what}"), format!("{said}: {p}")).unwrap_err()),
            Ok(r) => r,
        };
        if let Some(q) = clikit::lost() {
            cx.label(&format!("another dialogue: {q}"));
            return Ok(None);
        }
        Ok(Some(Said { res, out, sent }))
    }
}

fn case(g: &mut Gen, cx: &mut Cx) -> R {
    let newborn = g.chance(1, 3);
    let n = if newborn { 1 } else { 1 + g.us(3) as u32 };
    let mut cur = g.below(n as u64) as u32;
    let mut creds = vec![];
    for i in 0..n {
        let t = if newborn {
            1 + g.below(6) as u16
        } else if i == cur || g.bool() {
            *g.pick(&[1u16, 3, 5])
        } else {
            1 + g.below(7) as u16
        };
        creds.push(Cred::nth(t, 40 + 7 * i as u64 + g.below(3)));
    }
    let roles: Vec<(Cred, Vec<Act>)> = creds
        .iter()
        .map(|c| {
            let mut v = vec![mk::all(), mk::sub()];
            if !newborn && g.chance(1, 3) {
                v = fresh_acts(g, 3);
                v.retain(|x| x.ty != perm::SCOPE);
                v.push(mk::flag(*g.pick(&[perm::ALL_BUT, perm::MANAGE, perm::SUB2_CREATE])));
                v.dedup_by_key(|x| x.ty);
            }
            (c.clone(), v)
        })
        .collect();
    let len = 1 + g.us(40);
    let name: String = (0..len).map(|_| *g.pick(&['a', 'Z', '0', '7', 'w', 'é', '_'])).collect();
    let mut id = [b'0'; 32];
    let l = name.len().min(32);
    id[..l].copy_from_slice(&name.as_bytes()[..l]);
    let mut s = Scene::of(g.below(3), World::named(id).of(&roles, WALLET_SOL));
    if !newborn && g.bool() {
        for i in 0..n {
            s.with_sub1(i);
        }
    }
    let net = Rc::new(RefCell::new(Net { bank: s.w.bank.clone(), lag: g.below(3), last: None }));
    let payers = [kk("payer"), kk("another payer")];
    net.borrow_mut().bank.fund(payers[1], 1000 * SOLS);
    swig_sdk::install(Box::new(Remote(net.clone())));
    // opening, or making, the wallet
    let mut a = s.w.a.clone();
    let payer = if matches!(creds[cur as usize], Cred::Ed { .. }) && g.chance(1, 4) {
        let Cred::Ed { pk } = creds[cur as usize] else { unreachable!() };
        net.borrow_mut().bank.fund(pk, 1000 * SOLS);
        pk
    } else {
        payers[g.us(2)]
    };
    if newborn {
        let b = &mut net.borrow_mut().bank;
        b.put(a.swig, Default::default());
        b.put(a.wallet, Default::default());
    }
    let random = newborn && g.chance(1, 4);
    let stranger = !newborn && g.chance(1, 12);
    let me = creds[cur as usize].clone();
    let cred = if stranger { Cred::nth(me.ty(), 999) } else { me };
    let mut key = secret(g, &cred, true);
    let mut fee = kp_text(&payer);
    let bad = g.below(16);
    match bad {
        0 => key = garbage(g),
        1 => fee = garbage(g),
        _ => {}
    }
    let nonsense = bad < 2;
    let mut q: Script = vec![("action", pick("Create New Wallet")), ("random", Answer::Yes(random))];
    if !random {
        q.push(("swig id", text(&name)));
    }
    q.push(("authority type", pick(TYPES[cred.ty() as usize - 1])));
    q.push(("keypair", text(&key)));
    if bad != 0 {
        q.push(("fee payer", text(&fee)));
    }
    let before = net.borrow().bank.clone();
    let mut t = Talk { se: Session::new(Keypair::of(kk("nobody"))), net: net.clone() };
    let what = format!("create {}", cred.name());
    let Some(r) = t.go(cx, &what, q)? else { return Ok(()) };
    if nonsense || stranger {
        ensure!(r.res.is_err() && !t.se.open(), format!("accepted/{what}"), "{what}: {}", if stranger { "a key of no role opened the wallet" } else { "something that is no key was accepted" });
        let d = diff(&before, &net.borrow().bank);
        ensure!(d.is_empty(), format!("effect/{what}"), "{what}: refused, yet {d}");
        cx.label("create refused");
        return Ok(());
    }
    ensure!(r.res.is_ok() && t.se.open(), format!("refused/{what}"), "{what}: {:?}", r.res);
    if random {
        let got = r.out.lines().find_map(|l| l.strip_prefix("SWIG ID: ")).and_then(|x| bs58::decode(x).into_vec().ok()).and_then(|v| Key::try_from(v).ok());
        let Some(k) = got else {
            cx.label("the name was not printed");
            return Ok(());
        };
        a = Addr::new(k);
        s.w.a = a.clone();
    }
    let Ok(im) = SwigImg::dec(&net.borrow().bank.get(&a.swig).data) else { return fail(&format!("effect/{what}"), format!("{what}: there is no wallet")) };
    if !newborn {
        let d = diff(&before, &net.borrow().bank);
        ensure!(d.is_empty() && r.sent.is_none(), format!("effect/{what}"), "{what}: a wallet was opened: {:?} {d}", r.sent);
    } else if cred.session() {
        let me = &im.roles[0];
        let named = signer_of(me.ty, &me.auth) == signer_of(cred.ty(), &cred.stored());
        ensure!(im.roles.len() == 1 && me.ty == cred.ty() && named && me.acts == [mk::all()], format!("effect/{what}"), "{what}: role 0 is {me:?}");
    } else {
        let mut hand = before.clone();
        hand.slot += net.borrow().lag;
        let o = hand.tx(&[create_v1(&a, &payer, &cred, &[mk::all()])], &[payer]);
        ensure!(o.ok(), "harness", "create by hand: {}", o.err());
        let d = diff(&hand, &net.borrow().bank);
        ensure!(d.is_empty(), format!("effect/{what}"), "{what}: by hand against the program: {d}");
    }
    shown(&r.out, &im)?;
    cx.label(&what);
    if newborn {
        cx.hit();
        if cred.session() {
            return Ok(());
        }
        net.borrow_mut().bank.fund(a.wallet, WALLET_SOL);
        if random {
            s = Scene::of(0, World { bank: net.borrow().bank.clone(), a: a.clone(), creds: vec![cred.clone()], payer });
            net.borrow_mut().bank = s.w.bank.clone();
        }
    }
    for _ in 0..1 + g.us(4) {
        net.borrow_mut().lag = g.below(3);
        net.borrow_mut().bank.slot += g.below(5);
        if !act(g, cx, &a, &s, &mut t, &mut creds, &mut cur, &payer)? {
            break;
        }
    }
    Ok(())
}
const OPS: [&str; 15] = [
    "add", "add", "add", "remove", "update", "update", "update", "view", "transfer", "transfer", "switch", "sub create", "sub transfer", "sub toggle", "sub withdraw",
];
#[allow(clippy::too_many_arguments)]
fn act(g: &mut Gen, cx: &mut Cx, a: &Addr, s: &Scene, t: &mut Talk, creds: &mut Vec<Cred>, cur: &mut u32, payer: &Key) -> Result<bool, Fail> {
    let net = t.net.clone();
    let before = net.borrow().bank.clone();
    let Ok(im) = SwigImg::dec(&before.get(&a.swig).data) else { return Ok(false) };
    let me = *cur;
    let cred = creds[me as usize].clone();
    let op = if g.chance(1, 40) { "sub exit" } else { *g.pick(&OPS) };
    let sg = sign_of(&before, &a.swig, me);
    let sub = a.sub1(me).0;
    let amount = 1 + near(g, 5 * SOLS) % (6 * SOLS);
    let mut call: Option<Call> = None;
    let mut nonsense: Option<&str> = None;
    let mut fresh = None;
    let mut to: Option<u32> = None;
    let mut q: Script = vec![];
    let recipient = |g: &mut Gen, nonsense: &mut Option<&str>| {
        if g.chance(1, 12) {
            *nonsense = Some("recipient");
            text("nobody")
        } else {
            text(b58(&s.dest))
        }
    };
    match op {
        "add" => {
            let ty = if g.chance(1, 10) { 2 + 2 * g.below(3) as u16 } else { *g.pick(&[1u16, 3, 5]) };
            let c = Cred::nth(ty, 100 + 3 * im.role_counter as u64 + g.below(2));
            q.push(("action", pick("Add Authority")));
            q.push(("authority type", pick(TYPES[ty as usize - 1])));
            if g.chance(1, 20) {
                nonsense = Some("new key");
                q.push(("public key", text(*g.pick(&["", "0x", "zz", "0x04", "deadbeef"]))));
            } else {
                q.push(("public key", text(typed(g, &c))));
                let v = acts(g, 4);
                q.extend(describe(&v));
                if ty % 2 == 0 {
                    // its sessions cannot be described here
                    nonsense = Some("session authority");
                }
                call = Some(add_authority(a, payer, me, ty, &c.create(), &enc_actions(&v), v.len() as u8));
                fresh = Some(c);
            }
        }
        "remove" => {
            let live: Vec<String> = im.roles.iter().map(|r| r.id).filter(|r| *r != me).filter_map(|r| listed(&creds[r as usize])).collect();
            if live.is_empty() {
                return Ok(true);
            }
            let x = g.pick(&live).clone();
            let i = im.roles.iter().find(|r| listed(&creds[r.id as usize]).as_deref() == Some(&x)).unwrap().id;
            q.push(("action", pick("Remove Authority")));
            q.push(("authority to remove", pick(&x)));
            call = Some(remove_authority(a, payer, me, i));
        }
        "update" => {
            let known: Vec<u32> = im.roles.iter().map(|r| r.id).filter(|r| listed(&creds[*r as usize]).is_some()).collect();
            let i = *g.pick(&known);
            q.push(("action", pick("Update Authority")));
            q.push(("authority to update", pick(&listed(&creds[i as usize]).unwrap())));
            if i == 0 {
                nonsense = Some("the first role");
            } else {
                let k = g.below(4) as u8;
                q.push(("operation", pick(["Replace All", "Add Actions", "Remove Actions By Type", "Remove Actions By Index"][k as usize])));
                let body;
                match k {
                    0 | 1 => {
                        let v = acts(g, 3);
                        q.extend(describe(&v));
                        body = enc_actions(&v);
                    }
                    2 => {
                        let names = [
                            ("All", perm::ALL),
                            ("Manage Authority", perm::MANAGE),
                            ("SOL", perm::SOL),
                            ("Token", perm::TOKEN),
                            ("SOL Destination", perm::SOL_DEST),
                            ("Token Destination", perm::TOKEN_DEST),
                            ("Program", perm::PROGRAM),
                            ("Program All", perm::PROGRAM_ALL),
                            ("Program Scope", perm::SCOPE),
                            ("Sub Account", perm::SUB),
                            ("Stake", perm::STAKE),
                            ("Stake All", perm::STAKE_ALL),
                            ("All But Manage Authority", perm::ALL_BUT),
                            ("Program Curated", perm::CURATED),
                        ];
                        let mut v: Vec<(&str, u16)> = (0..1 + g.us(3)).map(|_| *g.pick(&names)).collect();
                        if let (Some(r), true) = (im.role(i), g.bool()) {
                            let held: Vec<_> = names.iter().filter(|n| r.acts.iter().any(|y| y.ty == n.1)).collect();
                            if !held.is_empty() {
                                v[0] = **g.pick(&held);
                            }
                        }
                        for (j, x) in v.iter().enumerate() {
                            q.push(("permission type", pick(x.0)));
                            q.push(("more", Answer::Yes(j + 1 < v.len())));
                        }
                        body = v.iter().map(|x| x.1 as u8).collect();
                    }
                    _ => {
                        let held = im.role(i).map(|r| r.acts.len()).unwrap_or(2) as u64;
                        let v: Vec<u16> = (0..1 + g.us(2)).map(|_| g.below(held + 1) as u16).collect();
                        let sep = *g.pick(&[",", ", ", " ,"]);
                        let mut x = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep);
                        if g.chance(1, 12) {
                            nonsense = Some("indices");
                            x = g.pick(&["first", "0;1", "-1", "70000", "1,"]).to_string();
                        }
                        q.push(("indices", text(x)));
                        body = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                    }
                }
                call = Some(update_authority(a, payer, me, i, k, &body));
            }
        }
        "view" => q.push(("action", pick("View Wallet"))),
        "transfer" => {
            q.push(("action", pick("Transfer")));
            q.push(("recipient", recipient(g, &mut nonsense)));
            q.push(("amount", text(amount)));
            call = Some(sign_v2(a, me, &[], &[sys_transfer(&a.wallet, &s.dest, amount)]));
        }
        "switch" => {
            let ids: Vec<u32> = im.roles.iter().map(|r| r.id).filter(|r| matches!(creds[*r as usize].ty(), 1 | 5)).collect();
            if ids.is_empty() {
                return Ok(true);
            }
            let i = *g.pick(&ids);
            let c = creds[i as usize].clone();
            q.push(("action", pick("Switch Authority")));
            let mut n = i.to_string();
            let mut key = secret(g, &c, false);
            match g.below(12) {
                0 => {
                    nonsense = Some("role");
                    n = (*g.pick(&[im.role_counter, u32::MAX])).to_string();
                }
                1 => {
                    nonsense = Some("key");
                    key = garbage(g);
                }
                _ => to = Some(i),
            }
            q.push(("role id", text(n)));
            q.push(("authority type", pick(TYPES[c.ty() as usize - 1])));
            q.push(("keypair", text(key)));
        }
        x => {
            q.push(("action", pick("Sub Accounts")));
            q.push(("action", pick(match x {
                "sub create" => "Create",
                "sub transfer" => "Transfer",
                "sub toggle" => "Toggle",
                "sub withdraw" => "Withdraw",
                _ => "Exit",
            })));
            match x {
                "sub create" => {
                    if before.get(&sub).lamports > 0 {
                        // said to be there, whatever the role has a right to
                        nonsense = Some("there already");
                    }
                    call = Some(create_sub1(a, payer, me));
                }
                "sub transfer" => {
                    q.push(("recipient", recipient(g, &mut nonsense)));
                    q.push(("amount", text(amount)));
                    call = Some(sign_sub1(a, me, &sub, &[sys_transfer(&sub, &s.dest, amount)]));
                }
                "sub toggle" => {
                    let owner = if g.chance(1, 2) { g.below(im.role_counter as u64) as u32 } else { me };
                    let on = g.bool();
                    q.push(("role id", text(owner)));
                    q.push(("?enable", Answer::Yes(on)));
                    call = Some(toggle_sub1(a, payer, owner, me, &a.sub1(owner).0, on));
                }
                "sub withdraw" => {
                    if g.chance(1, 12) {
                        nonsense = Some("sub-account");
                        q.push(("sub account", text("mine")));
                    } else {
                        q.push(("sub account", text(b58(&sub))));
                        q.push(("amount", text(amount)));
                    }
                    call = Some(withdraw_sub1(a, payer, me, &sub, amount, None));
                }
                _ => {}
            }
        }
    }
    // by hand
    let mut hand = before.clone();
    let by_hand: Result<(), String> = match (&nonsense, &call) {
        (Some(c), _) => Err(format!("nonsense: {c}")),
        (_, Some(c)) => {
            let x = seal(&mut hand, c, &cred, &sg);
            let mut signers = vec![*payer];
            signers.extend(x.signers);
            hand.slot += net.borrow().lag;
            let o = hand.tx(&x.ixs, &signers);
            if o.ok() { Ok(()) } else { Err(o.err().to_string()) }
        }
        _ => Ok(()),
    };
    let label = format!("{op} {}", cred.name());
    let who = im.roles.iter().map(|r| format!("role {}: {} {}", r.id, creds[r.id as usize].name(), r.acts.iter().map(|x| x.ty.to_string()).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join("; ");
    cx.note(|| format!("as role {me} of {who}; by hand {by_hand:?}"));
    let Some(r) = t.go(cx, &label, q)? else { return Ok(false) };
    let done = matches!(r.sent, Some(Ok(())));
    let told = r.out.to_lowercase();
    // a request that sends nothing is done when it says nothing else
    let ok = if call.is_some() { done } else { r.res.is_ok() };
    ensure!(ok || !told.contains("success"), format!("told of success/{label}"), "{label}: told {:?}, but on chain: {:?}", r.out, r.sent);
    ensure!(!done || (r.res.is_ok() && !told.contains("failed")), format!("told of failure/{label}"), "{label}: executed, but told {:?} {:?}", r.res, r.out);
    let says = r.res.is_err() || told.contains("failed") || told.contains("exist") || matches!(nonsense, Some("the first role"));
    ensure!(ok || says, format!("told nothing/{label}"), "{label}: not done ({:?}), and nobody told: {:?}", r.sent, r.out);
    ensure!(!ok || by_hand.is_ok(), format!("accepted/{label}"), "{label}: accepted; the same request by hand: {by_hand:?}");
    ensure!(ok || by_hand.is_err(), format!("refused/{label}"), "{label}: {:?} {:?}; the same request by hand is accepted", r.res, r.out);
    if r.sent.is_none() {
        hand.slot = before.slot;
    }
    let d = diff(&hand, &net.borrow().bank);
    ensure!(d.is_empty(), format!("effect/{label}"), "{label}: by hand against the program: {d}");
    if !ok {
        cx.label(if nonsense.is_some() { "nonsense refused" } else { "refused" });
        return Ok(true);
    }
    cx.label(&label);
    if op == "view" {
        shown(&r.out, &im)?;
        cx.hit();
    }
    if !diff(&before, &net.borrow().bank).is_empty() {
        cx.hit();
    }
    if let Some(i) = to {
        *cur = i;
    }
    if let Some(c) = fresh {
        creds.push(c);
    }
    if op == "sub create" {
        net.borrow_mut().bank.fund(sub, 5 * SOLS);
    }
    let d = net.borrow().bank.get(&a.swig).data;
    Ok(SwigImg::dec(&d).is_ok_and(|i| i.role(*cur).is_some()))
}
