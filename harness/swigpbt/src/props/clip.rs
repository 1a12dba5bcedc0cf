//! P38: the command line client, run with arguments.
use super::authvm::diff;
use super::client::aty;
use super::common::*;
use super::scene::*;
use super::sdkp::{fresh_act, fresh_acts, perm_of};
use super::walletp::{Net, Remote};
use serde_json::{json, Value};
use solana_sdk::signature::Keypair;
use std::cell::RefCell;
use std::rc::Rc;
use swig_cli::{Config, SigningAuthority};
use swig_sdk::types::{Permission as Q, RecurringConfig};

pub fn p38() -> Prop {
    Prop {
        id: "P38",
        rule: "a request of the command line that changes the accounts was accepted, or a report was compared",
        assumptions: &[
            "authorities of the command line sign with their own keypair (Ed25519, Secp256k1, Secp256r1)",
            "a wallet id that names no wallet is used only with `create`",
            "stand-ins for the client crates that cannot be fetched here; a secp256r1 key pair is named by its public key",
        ],
        quick: 12_000,
        thorough: 120_000,
        fixed: Some(|_| {
            let bad = swig_cli::clashes();
            ensure!(bad.is_empty(), "options", "options that cannot be told apart: {bad:?}");
            Ok(())
        }),
        run: case,
    }
}
pub fn b58(k: &[u8]) -> String {
    bs58::encode(k).into_string()
}
pub fn kp_text(k: &Key) -> String {
    Keypair::of(*k).to_base58_string()
}
pub fn der(pk: &[u8; 33]) -> Vec<u8> {
    [&clikit::ec::DER[..], pk].concat()
}
fn ox(g: &mut Gen, b: &[u8]) -> String {
    format!("{}{}", if g.bool() { "0x" } else { "" }, hex::encode(b))
}
/// One of the ways a public key is written.
fn name(g: &mut Gen, c: &Cred) -> String {
    let v = c.create();
    match c {
        Cred::Ed { pk } | Cred::EdS { pk, .. } => b58(pk),
        Cred::K1 { sk } | Cred::K1S { sk, .. } => {
            let k = k1_pub(sk);
            match g.below(3) {
                0 => ox(g, &k),
                1 => ox(g, &k[1..]),
                _ => {
                    let mut s = vec![2 + (k[64] & 1)];
                    s.extend(&k[1..33]);
                    ox(g, &s)
                }
            }
        }
        Cred::R1 { pk } | Cred::R1S { pk, .. } => ox(g, pk),
        _ => b58(&v),
    }
}
/// What signs for it.
fn secret(g: &mut Gen, c: &Cred) -> String {
    match c {
        Cred::Ed { pk } => kp_text(pk),
        Cred::K1 { sk } => ox(g, sk),
        Cred::R1 { pk } => {
            if g.chance(1, 3) {
                // as `generate` prints it
                let pem = clikit::ec::EcKey::of(*pk).private_key_to_pem().unwrap();
                ox(g, &pem)
            } else {
                ox(g, &der(pk))
            }
        }
        _ => unreachable!(),
    }
}
fn type_text(ty: u16) -> String {
    format!("{:?}", aty(ty))
}
struct Line(Vec<String>);
impl Line {
    fn opt(&mut self, g: &mut Gen, name: &str, v: &str) {
        if g.bool() {
            self.0.push(format!("--{name}={v}"));
        } else {
            self.0.push(format!("--{name}"));
            self.0.push(v.to_string());
        }
    }
}
const KINDS: [u16; 14] = [
    perm::SOL,
    perm::SOL_REC,
    perm::PROGRAM,
    perm::SCOPE,
    perm::ALL,
    perm::MANAGE,
    perm::SUB,
    perm::ALL_BUT,
    perm::PROGRAM_ALL,
    perm::CURATED,
    perm::SOL_DEST,
    perm::SOL_REC_DEST,
    perm::TOKEN_DEST,
    perm::TOKEN_REC_DEST,
];
/// The words for a permission.
fn words(q: &Q) -> Value {
    let with = |mut v: Value, r: &Option<RecurringConfig>| {
        if let Some(r) = r {
            v["recurring"] = json!({"window": r.window});
        }
        v
    };
    match q {
        Q::All => json!({"type": "all"}),
        Q::ManageAuthority => json!({"type": "manageAuthority"}),
        Q::AllButManageAuthority => json!({"type": "allButManageAuthority"}),
        Q::ProgramAll => json!({"type": "programAll"}),
        Q::ProgramCurated => json!({"type": "programCurated"}),
        Q::Program { program_id } => json!({"type": "program", "programId": program_id.to_string()}),
        Q::Sol { amount, recurring } => with(json!({"type": "sol", "amount": amount}), recurring),
        Q::SolDestination { destination, amount, recurring } => {
            with(json!({"type": "solDestination", "destination": destination.to_string(), "amount": amount}), recurring)
        }
        Q::TokenDestination { mint, destination, amount, recurring } => with(
            json!({"type": "tokenDestination", "mint": mint.to_string(), "destination": destination.to_string(), "amount": amount}),
            recurring,
        ),
        Q::SubAccount { sub_account } => json!({"type": "subAccount", "subAccount": b58(sub_account)}),
        Q::ProgramScope { program_id, target_account, numeric_type, limit, window, balance_field_start, balance_field_end } => {
            let mut v = json!({"type": "programScope", "programId": program_id.to_string(), "targetAccount": target_account.to_string(), "numericType": numeric_type});
            for (k, x) in [("limit", limit), ("window", window), ("balanceFieldStart", balance_field_start), ("balanceFieldEnd", balance_field_end)] {
                if let Some(x) = x {
                    v[k] = json!(x);
                }
            }
            v
        }
        x => unreachable!("{x:?}"),
    }
}
/// Permissions the command line has words for.
fn acts(g: &mut Gen, max: usize) -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    for _ in 0..1 + g.us(max) {
        let t = *g.pick(&KINDS);
        let mut x = if t == perm::SUB { mk::sub() } else { fresh_act(g, t) };
        if t == perm::SCOPE {
            // an account no request is about
            x.body[80..112].copy_from_slice(&kn("elsewhere", g.below(3)));
        }
        v.push(x);
    }
    v.dedup_by_key(|x| x.ty);
    v
}
/// Something that is not what should be there.
fn spoil(g: &mut Gen, v: &mut Value) -> Option<String> {
    let numbers = ["amount", "limit", "window", "numericType", "balanceFieldStart", "balanceFieldEnd"];
    let keys = ["programId", "targetAccount", "destination", "mint", "subAccount"];
    let o = v.as_object_mut().unwrap();
    let mut names: Vec<String> = o.keys().cloned().collect();
    g.shuffle(&mut names);
    for n in names {
        let bad = if numbers.contains(&n.as_str()) {
            match g.below(5) {
                0 => json!("100"),
                1 => json!(-1),
                2 => json!(1.5),
                3 => json!(1e30),
                _ => json!([1]),
            }
        } else if keys.contains(&n.as_str()) {
            match g.below(5) {
                0 => json!("So1"),
                1 => json!("not a key, but as long as a key is!"),
                2 => json!(7),
                3 => json!(b58(&[1; 33])),
                _ => json!(b58(&kk("x"))[1..].to_string() + "0"),
            }
        } else if n == "recurring" {
            match g.below(3) {
                0 => json!({"window": "a day"}),
                1 => json!({"window": -5}),
                _ => json!({"window": 0.5}),
            }
        } else if n == "type" && g.chance(1, 3) {
            json!("everything")
        } else {
            continue;
        };
        let was = o.insert(n.clone(), bad.clone());
        return Some(format!("{n}: {bad} instead of {}", was.unwrap()));
    }
    None
}
const OPS: [&str; 16] = [
    "create",
    "add-authority",
    "add-authority",
    "remove-authority",
    "remove-authority",
    "update-authority",
    "update-authority",
    "update-authority",
    "get-role-id",
    "balance",
    "view",
    "create-sub-account",
    "transfer-from-sub-account",
    "toggle-sub-account",
    "withdraw-from-sub-account",
    "generate",
];

fn case(g: &mut Gen, cx: &mut Cx) -> R {
    let n = 1 + g.us(3) as u32;
    let cur = g.below(n as u64) as u32;
    let mut creds = vec![];
    for i in 0..n {
        let t = if i == cur { *g.pick(&[1u16, 3, 5]) } else { 1 + g.below(7) as u16 };
        creds.push(Cred::nth(t, 40 + 7 * i as u64 + g.below(3)));
    }
    let roles: Vec<(Cred, Vec<Act>)> = creds
        .iter()
        .map(|c| {
            let mut v = vec![mk::all(), mk::sub()];
            if g.chance(1, 3) {
                v = fresh_acts(g, 3);
                v.retain(|x| x.ty != perm::SCOPE);
                v.push(mk::flag(*g.pick(&[perm::ALL_BUT, perm::MANAGE, perm::SUB2_CREATE])));
                v.dedup_by_key(|x| x.ty);
            }
            (c.clone(), v)
        })
        .collect();
    // the wallet's name
    let len = 1 + g.us(40);
    let text: String = (0..len).map(|_| *g.pick(&['a', 'Z', '0', '7', 'w', 'é', '_'])).collect();
    let mut id = [b'0'; 32];
    let l = text.len().min(32);
    id[..l].copy_from_slice(&text.as_bytes()[..l]);
    let mut s = Scene::of(g.below(3), World::named(id).of(&roles, WALLET_SOL));
    if g.bool() {
        for i in 0..n {
            s.with_sub1(i);
        }
    }
    let net = Rc::new(RefCell::new(Net { bank: s.w.bank.clone(), lag: 0, last: None }));
    let payers = [kk("payer"), kk("another payer"), kk("a third payer")];
    for p in &payers[1..] {
        net.borrow_mut().bank.fund(*p, 1000 * SOLS);
    }
    for c in &creds {
        if let Cred::Ed { pk } = c {
            net.borrow_mut().bank.fund(*pk, 1000 * SOLS);
        }
    }
    for _ in 0..1 + g.us(3) {
        swig_sdk::install(Box::new(Remote(net.clone())));
        net.borrow_mut().lag = g.below(3);
        run(g, cx, &mut s, &net, &mut creds, cur, &text, &payers)?;
        net.borrow_mut().bank.slot += g.below(5);
        if SwigImg::dec(&net.borrow().bank.get(&s.w.a.swig).data).map_or(true, |i| i.role(cur).is_none()) {
            break;
        }
    }
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn run(g: &mut Gen, cx: &mut Cx, s: &mut Scene, net: &Rc<RefCell<Net>>, creds: &mut Vec<Cred>, cur: u32, text: &str, payers: &[Key; 3]) -> R {
    let a = s.w.a.clone();
    let op = *g.pick(&OPS);
    if op == "generate" {
        return generate(g, cx);
    }
    let before = net.borrow().bank.clone();
    let Ok(im) = SwigImg::dec(&before.get(&a.swig).data) else { return Ok(()) };
    // who asks, and where that is written
    let stranger = g.chance(1, 12);
    let me = creds[cur as usize].clone();
    let cred = if stranger { Cred::nth(me.ty(), 999) } else { me };
    let mut line = Line(vec!["swig".into(), op.into()]);
    let mut cfg = Config {
        default_authority: SigningAuthority { authority_type: "Ed25519".into(), authority: b58(&kk("nobody")), authority_kp: kp_text(&kk("nobody")), fee_payer: String::new() },
        rpc_url: None,
    };
    let here = g.below(3);
    let mut say = |g: &mut Gen, name: &str, v: String, line: &mut Line, slot: &mut String| {
        if here == 0 || (here == 1 && g.bool()) {
            line.opt(g, name, &v);
        } else {
            *slot = v;
        }
    };
    let (t, n, k) = (type_text(cred.ty()), name(g, &cred), secret(g, &cred));
    say(g, "authority-type", t, &mut line, &mut cfg.default_authority.authority_type);
    say(g, "authority", n, &mut line, &mut cfg.default_authority.authority);
    say(g, "authority-kp", k, &mut line, &mut cfg.default_authority.authority_kp);
    let ed = match &cred {
        Cred::Ed { pk } => Some(*pk),
        _ => None,
    };
    let mut payer = ed.unwrap_or(payers[0]);
    if g.chance(1, 3) {
        cfg.default_authority.fee_payer = kp_text(&payers[1]);
        payer = payers[1];
    }
    let named = matches!(op, "create" | "add-authority" | "remove-authority" | "update-authority") && g.bool();
    if named {
        line.opt(g, "fee-payer", &kp_text(&payers[2]));
        payer = payers[2];
    }
    line.opt(g, "swig-id", text);
    let sg = sign_of(&before, &a.swig, cur);
    let sub = a.sub1(cur).0;
    let amount = 1 + near(g, 5 * SOLS) % (6 * SOLS);
    let mut call: Option<Call> = None;
    // an argument that means nothing
    let mut nonsense: Option<String> = None;
    let mut report: Option<String> = None;
    let mut newborn = false;
    let mut fresh = None;
    match op {
        "create" => {
            if g.chance(2, 3) {
                let b = &mut net.borrow_mut().bank;
                b.put(a.swig, Default::default());
                b.put(a.wallet, Default::default());
                newborn = true;
            }
        }
        "add-authority" => {
            let t = if g.chance(1, 10) { 2 + 2 * g.below(3) as u16 } else { *g.pick(&[1u16, 3, 5]) };
            let c = Cred::nth(t, 100 + 3 * im.role_counter as u64 + g.below(2));
            let v = acts(g, 4);
            let mut w: Vec<Value> = v.iter().map(|x| words(&perm_of(x).unwrap())).collect();
            if g.chance(1, 6) {
                let i = g.us(w.len());
                nonsense = spoil(g, &mut w[i]);
            }
            let n = match g.below(30) {
                0 => {
                    nonsense = Some("new key".into());
                    (*g.pick(&["", "0x", "zz", "0x04", "deadbeef"])).to_string()
                }
                _ => name(g, &c),
            };
            let tt = if g.chance(1, 30) {
                nonsense = Some("new type".into());
                "Ed".to_string()
            } else {
                type_text(t)
            };
            line.opt(g, "new-authority", &n);
            line.opt(g, "new-authority-type", &tt);
            permissions(g, &mut line, &w);
            if t % 2 == 0 {
                // its sessions cannot be described here
                nonsense = Some("session authority".into());
            }
            call = Some(add_authority(&a, &payer, cur, t, &c.create(), &enc_actions(&v), v.len() as u8));
            fresh = Some(c);
        }
        "remove-authority" => {
            let live: Vec<u32> = im.roles.iter().filter(|r| !matches!(creds[r.id as usize], Cred::Ex { .. })).map(|r| r.id).filter(|r| *r != cur).collect();
            if live.is_empty() || g.chance(1, 6) {
                nonsense = Some("nobody's key".into());
                let x = match g.below(4) {
                    0 => b58(&kk("a stranger")),
                    1 => "12345678901234567890123456789012".to_string(),
                    2 => ox(g, &[3; 33]),
                    _ => "zz".into(),
                };
                line.opt(g, "remove-authority", &x);
            } else {
                let t = *g.pick(&live);
                let x = name(g, &creds[t as usize]);
                line.opt(g, "remove-authority", &x);
                call = Some(remove_authority(&a, &payer, cur, t));
            }
        }
        "update-authority" => {
            let t = g.below(im.role_counter as u64 + 1) as u32;
            line.opt(g, "authority-to-update-id", &t.to_string());
            let k = g.below(4) as u8;
            let word = ["ReplaceAll", "AddActions", "RemoveActionsByType", "RemoveActionsByIndex"][k as usize];
            if g.chance(1, 30) {
                nonsense = Some("operation".into());
                line.opt(g, "operation", "Replace");
            } else {
                line.opt(g, "operation", word);
            }
            let body;
            match k {
                0 | 1 => {
                    let v = acts(g, 3);
                    let mut w: Vec<Value> = v.iter().map(|x| words(&perm_of(x).unwrap())).collect();
                    if g.chance(1, 6) {
                        let i = g.us(w.len());
                        nonsense = spoil(g, &mut w[i]).or(nonsense);
                    }
                    permissions(g, &mut line, &w);
                    body = enc_actions(&v);
                }
                2 => {
                    let names = [
                        ("All", perm::ALL),
                        ("AllButManageAuthority", perm::ALL_BUT),
                        ("ManageAuthority", perm::MANAGE),
                        ("Sol", perm::SOL),
                        ("Token", perm::TOKEN),
                        ("Program", perm::PROGRAM),
                        ("ProgramAll", perm::PROGRAM_ALL),
                        ("ProgramCurated", perm::CURATED),
                        ("ProgramScope", perm::SCOPE),
                        ("SubAccount", perm::SUB),
                        ("Stake", perm::STAKE),
                        ("StakeAll", perm::STAKE_ALL),
                        ("SolDestination", perm::SOL_DEST),
                        ("TokenDestination", perm::TOKEN_DEST),
                    ];
                    let mut pickd: Vec<(&str, u16)> = (0..1 + g.us(3)).map(|_| *g.pick(&names)).collect();
                    if let (Some(r), true) = (im.role(t), g.bool()) {
                        if let Some(x) = names.iter().find(|n| r.acts.iter().any(|y| y.ty == n.1)) {
                            pickd[0] = *x;
                        }
                    }
                    list(g, &mut line, "action-types", pickd.iter().map(|x| x.0.to_string()).collect());
                    body = pickd.iter().map(|x| x.1 as u8).collect();
                }
                _ => {
                    let held = im.role(t).map(|r| r.acts.len()).unwrap_or(2) as u64;
                    let v: Vec<u16> = (0..1 + g.us(2)).map(|_| g.below(held + 1) as u16).collect();
                    list(g, &mut line, "indices", v.iter().map(|x| x.to_string()).collect());
                    body = v.iter().flat_map(|x| x.to_le_bytes()).collect();
                }
            }
            call = Some(update_authority(&a, &payer, cur, t, k, &body));
        }
        "get-role-id" => {
            let known: Vec<u32> = im.roles.iter().map(|r| r.id).filter(|i| !matches!(creds[*i as usize], Cred::Ex { .. })).collect();
            let (c, want) = if known.is_empty() || g.chance(1, 5) { (Cred::nth(*g.pick(&[1, 3, 5]), 777), None) } else {
                let i = *g.pick(&known);
                (creds[i as usize].clone(), Some(i))
            };
            let (n, t) = (name(g, &c), type_text(c.ty()));
            line.opt(g, "authority-to-fetch", &n);
            line.opt(g, "authority-type-to-fetch", &t);
            match want {
                Some(i) => report = Some(format!("Role ID: {i}\n")),
                None => nonsense = Some("nobody's key".into()),
            }
        }
        "balance" => report = Some(format!("Balance: {} SOL\n", before.get(&a.swig).lamports as f64 / 1e9)),
        "view" => report = Some(String::new()),
        "create-sub-account" => call = Some(create_sub1(&a, &payer, cur)),
        "transfer-from-sub-account" => {
            let to = if g.chance(1, 12) {
                nonsense = Some("recipient".into());
                "nobody".into()
            } else {
                b58(&s.dest)
            };
            line.opt(g, "recipient", &to);
            line.opt(g, "amount", &amount.to_string());
            call = Some(sign_sub1(&a, cur, &sub, &[sys_transfer(&sub, &s.dest, amount)]));
        }
        "toggle-sub-account" => {
            let owner = if g.chance(1, 3) { g.below(im.role_counter as u64) as u32 } else { cur };
            let on = g.bool();
            if on {
                line.0.push("--enabled".into());
            }
            line.opt(g, "sub-account-role-id", &owner.to_string());
            call = Some(toggle_sub1(&a, &payer, owner, cur, &a.sub1(owner).0, on));
        }
        _ => {
            line.opt(g, "sub-account", &b58(&sub));
            line.opt(g, "amount", &amount.to_string());
            call = Some(withdraw_sub1(&a, &payer, cur, &sub, amount, None));
        }
    }
    // by hand
    let mut hand = net.borrow().bank.clone();
    let lag = net.borrow().lag;
    let by_hand: Result<(), String> = if newborn {
        hand.slot += lag;
        let ix = create_v1(&a, &payer, &cred, &[mk::all()]);
        let o = hand.tx(std::slice::from_ref(&ix), &[payer]);
        if o.ok() { Ok(()) } else { Err(o.err().to_string()) }
    } else if stranger {
        Err("not an authority of the wallet".into())
    } else if let Some(c) = &nonsense {
        Err(format!("nonsense: {c}"))
    } else if let Some(c) = &call {
        let x = seal(&mut hand, c, &cred, &sg);
        let mut signers = vec![payer];
        signers.extend(x.signers);
        hand.slot += lag;
        let o = hand.tx(&x.ixs, &signers);
        if o.ok() { Ok(()) } else { Err(o.err().to_string()) }
    } else {
        Ok(())
    };
    net.borrow_mut().last = None;
    let start = net.borrow().bank.clone();
    swig_cli::out::take();
    let said = line.0.join(" ");
    let res = no_panic(|| swig_cli::run(&line.0, Keypair::of(payers[0]), cfg));
    let out = swig_cli::out::take();
    let sent = net.borrow().last.clone();
    cx.note(|| format!("{}\n{said}\n  -> {res:?}, on chain {sent:?}, by hand {by_hand:?}; printed {out:?}", im.roles.iter().map(|r| format!("role {}: {} {}", r.id, creds[r.id as usize].name(), r.acts.iter().map(|x| x.ty.to_string()).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join("; ")));
    let what = format!("{op} {}", cred.name());
    let ok = match &res {
        Err(p) => return fail(&format!("panic/{op}"), format!("{said}: {p}")),
        Ok(Ok(())) => !out.contains("does not exist"),
        Ok(Err(_)) => false,
    };
    ensure!(!(!ok && matches!(sent, Some(Ok(())))), format!("told of failure/{what}"), "{said}: executed, but the caller was told {res:?}");
    ensure!(!ok || by_hand.is_ok(), format!("accepted/{what}"), "{said}: accepted; the same request by hand: {by_hand:?}");
    ensure!(ok || by_hand.is_err(), format!("refused/{what}"), "{said}: {res:?} {out:?}; the same request by hand is accepted");
    if sent.is_none() {
        hand.slot = start.slot;
    }
    let d = diff(&hand, &net.borrow().bank);
    ensure!(d.is_empty(), format!("effect/{what}"), "{said}: by hand against the program: {d}");
    if !ok {
        cx.label(if nonsense.is_some() { "nonsense refused" } else { "refused" });
        return Ok(());
    }
    if let Some(want) = report {
        ensure!(out.contains(&want), format!("report/{op}"), "{said}: printed {out:?}, expected {want:?}");
    }
    if op == "view" {
        shown(&out, &im)?;
    }
    cx.label(&what);
    if call.is_none() || !diff(&start, &net.borrow().bank).is_empty() {
        cx.hit();
    }
    if newborn {
        // a wallet with one role
        let mut b = before.clone();
        b.slot = net.borrow().bank.slot;
        net.borrow_mut().bank = b;
    } else if let Some(c) = fresh {
        creds.push(c);
    } else if op == "create-sub-account" {
        let b = &mut net.borrow_mut().bank;
        b.fund(sub, 5 * SOLS);
    }
    Ok(())
}
/// Several values of one option: each with the option's name, or joined.
fn list(g: &mut Gen, line: &mut Line, name: &str, v: Vec<String>) {
    match g.below(3) {
        0 => line.opt(g, name, &v.join(",")),
        1 => {
            for x in v {
                line.opt(g, name, &x);
            }
        }
        _ => {
            line.0.push(format!("--{name}"));
            line.0.extend(v);
        }
    }
}
fn permissions(g: &mut Gen, line: &mut Line, w: &[Value]) {
    let v = w.iter().map(|x| if g.chance(1, 4) { serde_json::to_string_pretty(x).unwrap() } else { x.to_string() }).collect();
    list(g, line, "permissions", v)
}
/// Keys that are made here can be used here.
fn generate(g: &mut Gen, cx: &mut Cx) -> R {
    let t = 1 + g.below(6) as u16;
    let mut line = Line(vec!["swig".into(), "generate".into()]);
    line.opt(g, "authority-type", &type_text(t));
    if g.bool() {
        line.opt(g, "output-format", "json");
    }
    let said = line.0.join(" ");
    let cfg = Config::default();
    swig_cli::out::take();
    match no_panic(|| swig_cli::run(&line.0, Keypair::of(kk("payer")), cfg)) {
        Ok(Ok(())) => {}
        x => return fail("generate", format!("{said}: {x:?}")),
    }
    let out = swig_cli::out::take();
    let Ok(v) = serde_json::from_str::<Value>(&out) else { return fail("generate/json", format!("{said}: printed {out}")) };
    let (Some(p), Some(k)) = (v["public_key"].as_str(), v["private_key"].as_str()) else { return fail("generate/json", format!("{said}: printed {out}")) };
    ensure!(v["authority_type"] == type_text(t), "generate/type", "{said}: printed {out}");
    // a wallet of that key, and a report by it
    let base = t - (1 - t % 2);
    let mut bank = Bank::new();
    bank.fund(kk("payer"), 1000 * SOLS);
    let net = Rc::new(RefCell::new(Net { bank, lag: 0, last: None }));
    if base == 1 {
        let Ok(x) = bs58::decode(p).into_vec() else { return fail("generate/key", format!("{said}: {p}")) };
        net.borrow_mut().bank.fund(x.try_into().unwrap_or_default(), 100 * SOLS);
    }
    swig_sdk::install(Box::new(Remote(net.clone())));
    for op in ["create", "get-role-id"] {
        let mut l: Vec<String> = ["swig", op, "--swig-id", "mine", "--authority-type", &type_text(base), "--authority", p, "--authority-kp", k].map(String::from).into();
        if op == "get-role-id" {
            l.extend(["--authority-to-fetch", p, "--authority-type-to-fetch", &type_text(base)].map(String::from));
        }
        swig_cli::out::take();
        let r = no_panic(|| swig_cli::run(&l, Keypair::of(kk("payer")), Config::default()));
        ensure!(matches!(r, Ok(Ok(()))), format!("generate/{op} {}", type_text(t)), "{said}: what it printed ({out}) cannot be used: {}: {r:?}", l.join(" "));
    }
    ensure!(swig_cli::out::take().contains("Role ID: 0"), "generate/role", "{said}: the key that was generated is not found");
    cx.label("generate");
    cx.hit();
    Ok(())
}
/// What is printed of each role is what it holds.
pub fn shown(out: &str, im: &SwigImg) -> R {
    use swig_interface::ClientAction as C;
    let mut said: Vec<(String, Vec<String>)> = vec![];
    for l in out.lines() {
        let x = l.trim_start_matches(|c: char| c.is_whitespace() || "║│├└─".contains(c)).trim_end().to_string();
        if l.starts_with("║ Role ID:") {
            said.push((x, vec![]));
        } else if let Some((_, v)) = said.last_mut() {
            let heading = !x.contains(": ") && !x.starts_with("Full") && x != "Manage Authority";
            if !heading {
                v.push(x);
            }
        }
    }
    let b = |k: &Key| b58(k);
    let sol = |x: u64| format!("{} SOL", x as f64 / 1e9);
    let mut want = vec![];
    let mut roles: Vec<&RoleImg> = im.roles.iter().collect();
    roles.sort_by_key(|r| r.id);
    for r in roles {
        let mut v = vec![];
        let mut put = |x: String| v.push(x);
        put(format!("Type: {}", if r.ty % 2 == 0 { "Session-based Authority" } else { "Permanent Authority" }));
        put(format!("Authority Type: {:?}", aty(r.ty)));
        match r.ty {
            1 | 2 | 7 | 8 => put(format!("Authority: {}", b58(&r.auth[..32]))),
            5 | 6 => put(format!("Authority: 0x{}", hex::encode(&r.auth[..33]))),
            _ => {}
        }
        let mut once: Vec<u16> = vec![];
        let mut nth: std::collections::BTreeMap<u16, usize> = Default::default();
        for a in &r.acts {
            let k = *nth.entry(a.ty).and_modify(|x| *x += 1).or_insert(1);
            if matches!(a.ty, perm::ALL | perm::MANAGE | perm::SOL | perm::SOL_REC) {
                if once.contains(&a.ty) {
                    continue;
                }
                once.push(a.ty);
            }
            match super::client::client_act(a) {
                C::All(_) => put("Full Access (All Permissions)".into()),
                C::ManageAuthority(_) => put("Manage Authority".into()),
                C::SolLimit(x) => put(format!("SOL Limit: {}", sol(x.amount))),
                C::SolRecurringLimit(x) => {
                    put(format!("Amount: {}", sol(x.recurring_amount)));
                    put(format!("Window: {} slots", x.window));
                    put(format!("Current Usage: {}", sol(x.current_amount)));
                    put(format!("Last Reset: Slot {}", x.last_reset));
                }
                C::TokenLimit(x) => {
                    put(format!("Token {k}: {}", b(&x.token_mint)));
                    put(format!("Amount: {} tokens", x.current_amount));
                }
                C::TokenRecurringLimit(x) => {
                    put(format!("Token {k}: {}", b(&x.token_mint)));
                    put(format!("Amount: {} tokens", x.limit));
                    put(format!("Window: {} slots", x.window));
                    put(format!("Last Reset: Slot {}", x.last_reset));
                    put(format!("Current Usage: {} tokens", x.current));
                }
                C::SolDestinationLimit(x) => {
                    put(format!("Destination {k}: {}", b(&x.destination)));
                    put(format!("Amount: {}", sol(x.amount)));
                }
                C::SolRecurringDestinationLimit(x) => {
                    put(format!("Destination {k}: {}", b(&x.destination)));
                    put(format!("Amount: {}", sol(x.recurring_amount)));
                    put(format!("Window: {} slots", x.window));
                    put(format!("Last Reset: Slot {}", x.last_reset));
                    put(format!("Current Usage: {}", sol(x.current_amount)));
                }
                C::TokenDestinationLimit(x) => {
                    put(format!("Destination {k}: {}", b(&x.destination)));
                    put(format!("Amount: {} tokens", x.amount));
                }
                C::TokenRecurringDestinationLimit(x) => {
                    put(format!("Destination {k}: {}", b(&x.destination)));
                    put(format!("Amount: {} tokens", x.recurring_amount));
                    put(format!("Window: {} slots", x.window));
                    put(format!("Last Reset: Slot {}", x.last_reset));
                    put(format!("Current Usage: {} tokens", x.current_amount));
                }
                C::ProgramScope(x) => {
                    put(format!("Scope {k}: Program ID: {}", b(&x.program_id)));
                    put(format!("Target Account: {}", b(&x.target_account)));
                    put(format!("Scope Type: {}", ["Basic", "Limit", "Recurring Limit"][x.scope_type as usize]));
                    put(format!("Numeric Type: {}", ["U8", "U32", "U64", "U128"][x.numeric_type as usize]));
                    if x.scope_type > 0 {
                        put(format!("Limit: {}", { x.limit }));
                        put(format!("Current Usage: {}", { x.current_amount }));
                    }
                    if x.scope_type == 2 {
                        put(format!("Window: {} slots", x.window));
                        put(format!("Last Reset: Slot {}", x.last_reset));
                    }
                }
                C::SubAccount(x) => {
                    put(format!("SubAccount: {}", b(&x.sub_account)));
                    put(format!("Enabled: {}", x.enabled));
                    put(format!("Role ID: {}", x.role_id));
                    put(format!("Swig ID: {}", b(&x.swig_id)));
                }
                _ => {}
            }
        }
        want.push((format!("Role ID: {}", r.id), r.ty, v));
    }
    ensure!(said.len() == want.len(), "view/roles", "{} roles, {} shown: {out}", want.len(), said.len());
    for ((n, mut v), (m, ty, mut w)) in said.into_iter().zip(want) {
        if matches!(ty, 3 | 4) {
            // in what form a secp256k1 key is shown is not looked at
            v.retain(|x| !x.starts_with("Authority: "));
        }
        v.sort();
        w.sort();
        ensure!(n == m, "view/role", "{n} shown, it is {m}");
        ensure!(v == w, "view/holds", "{n}: shown {v:?}; it holds {w:?}");
    }
    Ok(())
}
