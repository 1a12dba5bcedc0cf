//! What somebody without a valid credential can do to a wallet: nothing (P33).
//! The attacker knows every public fact, has a wallet of its own with every
//! kind of role, once was a member, once held a session, and keeps the
//! transactions the wallet's members have sent.
use super::authvm::diff;
use super::common::*;
use super::party::any_kind;
use super::scene::*;

pub fn p33() -> Prop {
    Prop {
        id: "P33",
        rule: "a request that its role can make was tried without the credential and refused, or an accepted request was sent again",
        assumptions: &[
            "keys cannot be guessed and signatures cannot be forged (secp256k1 is computed; ed25519 and secp256r1 signatures are a record of who signed what)",
            "a program-exec role's program accepts its data only with its guardian's signature",
            "a member that was removed is not added again within the life of its old signatures (see the known finding of P24)",
        ],
        quick: 30_000,
        thorough: 300_000,
        fixed: None,
        run,
    }
}
const SESSION: &str = "thief's old session";
fn thief() -> Key {
    kk("thief")
}
fn guardian() -> Key {
    kk("guardian")
}
/// a member's credential
fn member(ty: u16, n: u64) -> Cred {
    let prefix = [b"guarded".to_vec(), vec![n as u8; 3]].concat();
    match Cred::nth(ty, n) {
        Cred::Ex { .. } => Cred::Ex { program: GUARD, prefix },
        Cred::ExS { max, .. } => Cred::ExS { program: GUARD, prefix, max },
        c => c,
    }
}
fn outsider(ty: u16) -> Cred {
    match Cred::nth(ty, 60) {
        Cred::Ed { .. } => Cred::Ed { pk: thief() },
        Cred::EdS { max, .. } => Cred::EdS { pk: thief(), max },
        c => c,
    }
}
fn rich() -> Vec<Act> {
    vec![mk::sub(), mk::flag(perm::SUB2_CREATE), mk::all()]
}
fn limited(g: &mut Gen) -> Vec<Act> {
    if g.bool() {
        return rich();
    }
    vec![mk::flag(perm::SUB2_CREATE), mk::flag(perm::PROGRAM_ALL), mk::sol(1 << 40), mk::token(&kk("mint"), 1 << 40), mk::flag(perm::CLOSE), mk::flag(perm::MANAGE)]
}
fn guard(mut s: Sealed) -> Sealed {
    for ix in s.ixs.iter_mut() {
        if ix.program == GUARD {
            ix.accts.push(rs(guardian()));
        }
    }
    s.signers = signers_of(&s.ixs);
    s
}
/// a member's own request
fn honest(bank: &mut Bank, a: &Addr, call: &Call, cred: &Cred, role: u32) -> Sealed {
    let sg = sign_of(bank, &a.swig, role);
    // the counter and account flags the signature covers do not depend on
    // what is added to the earlier instruction
    guard(seal(bank, call, cred, &sg))
}
/// every account of a wallet
fn estate(s: &Scene, roles: u32) -> Vec<Key> {
    let a = &s.w.a;
    let mut v = vec![a.swig, a.wallet, s.tok, s.empty, s.old, s.sub2_tok(), stake_of(s)];
    for i in 0..roles {
        v.extend([a.sub1(i).0, s.sub1_tok(i)]);
    }
    for i in 0..3 {
        v.extend([a.sub2_state(i).0, a.sub2(i).0]);
    }
    v
}
fn stake_of(s: &Scene) -> Key {
    let mut k = s.tok;
    k[29] ^= 0x33;
    k
}
fn furnish(s: &mut Scene) {
    let wa = s.w.a.wallet;
    let st = native::Stk { state: 2, reserve: rent_min(200), staker: wa, withdrawer: wa, voter: kk("vote"), stake: SOLS, activation: 0, deactivation: u64::MAX };
    let k = stake_of(s);
    s.w.bank.put(k, Acct { lamports: rent_min(200) + SOLS, data: st.pack(), owner: ids().stake, executable: false });
}
fn any_request(g: &mut Gen, s: &Scene, role: u32) -> (String, Call) {
    let (a, p) = (&s.w.a, &s.w.payer);
    let what = g.us(REQUESTS.len() + 6);
    let c = match what {
        20 => ("session".to_string(), create_session(a, p, role, &kk(SESSION), 1 + g.below(100))),
        21 => ("migrate".to_string(), migrate(a, rs(thief()), p, role)),
        22 => ("sign: token close".to_string(), sign_v2(a, role, &[], &[tok_close(&ids().token, &s.empty, &s.dest, &a.wallet)])),
        23 => ("sign: stake".to_string(), sign_v2(a, role, &[], &[stake_withdraw(&stake_of(s), &s.dest, &a.wallet, 1 + g.below(1000))])),
        24 => ("sign: approve".to_string(), sign_v2(a, role, &[], &[tok_approve(&ids().token, &s.tok, &thief(), &a.wallet, 500)])),
        25 => ("close both".to_string(), close_swig(a, &thief(), role)),
        _ => (REQUESTS[what].to_string(), request(g, s, role, what)),
    };
    c
}
fn swap_key(c: &mut Call, x: &Key, y: &Key) {
    for m in c.accts.iter_mut() {
        if m.key == *x {
            m.key = *y;
        }
    }
    for i in c.pre.iter_mut() {
        for m in i.accts.iter_mut() {
            if m.key == *x {
                m.key = *y;
            }
        }
    }
}

/// Everything of the wallet's is still there and still its own.
fn untouched(keys: &[Key], before: &Bank, after: &Bank) -> Result<(), String> {
    for k in keys {
        let (a, b) = (before.get(k), after.get(k));
        if b.lamports < a.lamports {
            return Err(format!("{} went from {} to {} lamports", short(k), a.lamports, b.lamports));
        }
        if a.owner != b.owner {
            return Err(format!("{} went from owner {} to {}", short(k), short(&a.owner), short(&b.owner)));
        }
        if a.data != b.data {
            let tok = (a.owner == ids().token || a.owner == ids().token22) && a.data.len() == 165 && b.data.len() == 165;
            let n = |d: &[u8]| u64::from_le_bytes(d[64..72].try_into().unwrap());
            if !(tok && a.data[..64] == b.data[..64] && a.data[72..] == b.data[72..] && n(&a.data) <= n(&b.data)) {
                return Err(format!("the data of {} changed from {} to {}", short(k), hex(&a.data), hex(&b.data)));
            }
        }
    }
    Ok(())
}

fn run(g: &mut Gen, cx: &mut Cx) -> R {
    let n = 2 + g.below(3) as u32;
    let mut creds = vec![];
    for i in 0..n {
        let k = if i == 0 { 1 + g.below(6) as u16 } else { any_kind(g) };
        creds.push(member(k, i as u64));
    }
    let mut roles: Vec<(Cred, Vec<Act>)> = vec![];
    for (i, c) in creds.iter().enumerate() {
        roles.push((c.clone(), if i == 0 { rich() } else { limited(g) }));
    }
    let mut v = Scene::new(0, &roles);
    let (o1, o2) = (v.with_sub2(0), v.with_sub1(0));
    ensure!(o1.ok() && o2.ok(), "honest", "setting up: {} {}", o1.err(), o2.err());
    furnish(&mut v);
    let payer = v.w.payer;
    v.w.bank.fund(thief(), 500 * SOLS);
    v.w.bank.fund(guardian(), SOLS);
    // the attacker's own wallet
    let mine: Vec<Cred> = [1u16, 3, 5, 7, 2, 4].iter().map(|t| outsider(*t)).collect();
    let mut w = Scene::new(1, &mine.iter().map(|c| (c.clone(), rich())).collect::<Vec<_>>());
    w.with_sub2(0);
    w.with_sub1(0);
    furnish(&mut w);
    for (k, a) in &w.w.bank.accts {
        if v.w.bank.get(k).lamports == 0 {
            v.w.bank.put(*k, a.clone());
        }
    }
    let mut bank = v.w.bank.clone();
    // the wallet's bank is `bank` from here on
    bank.slot += g.below(40);
    // a session of the thief's that has run out
    let mut img = SwigImg::dec(&bank.get(&v.w.a.swig).data).map_err(|e| bad("decode", e))?;
    for r in img.roles.iter_mut() {
        if r.ty % 2 == 0 && g.chance(1, 3) {
            let end = bank.slot - 1 - g.below(200);
            set_session(r.ty, &mut r.auth, &kk(SESSION), end);
        }
    }
    let d = img.enc();
    bank.put(v.w.a.swig, Acct { data: d, ..bank.get(&v.w.a.swig) });
    // a former member
    let ex_kind = any_kind(g);
    let former = outsider(ex_kind);
    if g.bool() {
        let c = add_authority(&v.w.a, &payer, 0, ex_kind, &former.create(), &enc_actions(&[mk::all()]), 1);
        let s = honest(&mut bank, &v.w.a, &c, &creds[0], 0);
        let o = bank.tx(&s.ixs, &s.signers);
        if o.ok() {
            let c = remove_authority(&v.w.a, &payer, 0, n);
            let s = honest(&mut bank, &v.w.a, &c, &creds[0], 0);
            let o = bank.tx(&s.ixs, &s.signers);
            ensure!(o.ok() || creds[0].session(), "honest", "removing a member: {}", o.err());
            if !o.ok() {
                return Ok(());
            }
        }
    }
    let keys = estate(&v, n);
    let theirs = estate(&w, n);
    let own: Vec<Key> = vec![thief(), kk(SESSION), w.w.session_key(4), w.w.session_key(5)]
        .into_iter()
        .filter(|k| !(0..n).any(|i| v.w.session_key(i) == *k))
        .collect();
    let mut seen: Vec<(Vec<Ix>, usize)> = vec![];
    let mut hit = false;
    for _ in 0..1 + g.us(7) {
        if g.bool() {
            bank.slot += g.below(100);
        }
        if g.chance(1, 3) {
            // the members go about their business
            let role = g.below(n as u64) as u32;
            let (name, call) = any_request(g, &v, role);
            if !matches!(name.as_str(), "replace authority" | "close wallet" | "close both" | "session" | "remove authority" | "update authority: replace" | "sign: approve") {
                let s = honest(&mut bank, &v.w.a, &call, &creds[role as usize], role);
                let o = bank.tx(&s.ixs, &s.signers);
                if o.ok() && !s.ixs.iter().any(|i| i.program == GUARD) {
                    cx.note(|| format!("slot {}: role {role} ({}): {name}", bank.slot, creds[role as usize].name()));
                    cx.label("sent by a member");
                    seen.push((s.ixs.clone(), s.at));
                    if g.chance(1, 4) {
                        continue;
                    }
                }
            }
        }
        let role = if g.chance(1, 6) { g.below(8) as u32 } else { g.below(n as u64) as u32 };
        let cred = creds.get(role as usize).cloned().unwrap_or_else(|| former.clone());
        let mut possible = false;
        let (what, mut ixs, mut at) = match g.weighted(&[6, 4, 3, 2]) {
            0 => {
                let (name, mut call) = any_request(g, &v, role);
                if let Some(c) = creds.get(role as usize) {
                    let mut b = bank.clone();
                    let s = honest(&mut b, &v.w.a, &call, c, role);
                    possible = b.tx(&s.ixs, &s.signers).ok();
                }
                swap_key(&mut call, &payer, &thief());
                if g.bool() {
                    swap_key(&mut call, &v.dest, &thief());
                }
                let mut sg = sign_of(&bank, &v.w.a.swig, role);
                if g.chance(1, 6) {
                    sg.counter = g.below(5) as u32;
                }
                if g.chance(1, 3) {
                    sg.session = Some(if g.bool() { thief() } else { kk(SESSION) });
                }
                sg.r1_kind = g.below(3) as u8;
                sg.explicit_index = g.chance(1, 4);
                let (by, s) = match g.below(4) {
                    0 => ("own key", seal_as(&mut bank, &call, &outsider(cred.ty()), &sg, true)),
                    1 => ("own key of another kind", seal_as(&mut bank, &call, &outsider(1 + g.below(8) as u16), &sg, true)),
                    2 => ("former member's key", seal_as(&mut bank, &call, &former, &sg, true)),
                    _ => ("the role's own key named", seal_as(&mut bank, &call, &cred, &sg, false)),
                };
                (format!("{name} as role {role} ({}) with {by}", cred.name()), s.ixs, s.at)
            }
            1 => {
                let r2 = g.below(mine.len() as u64) as u32;
                let (name, mut call) = any_request(g, &w, r2);
                swap_key(&mut call, &payer, &thief());
                let mut swapped = 0;
                for (x, y) in theirs.iter().zip(&keys) {
                    if call.accts.iter().any(|m| m.key == *x) && g.chance(1, 2) {
                        swap_key(&mut call, x, y);
                        swapped += 1;
                    }
                }
                let sg = sign_of(&bank, &w.w.a.swig, r2);
                let s = seal_as(&mut bank, &call, &mine[r2 as usize], &sg, true);
                (format!("{name} of the attacker's wallet by role {r2} with {swapped} accounts swapped"), s.ixs, s.at)
            }
            2 if !seen.is_empty() => {
                possible = true;
                let s = g.pick(&seen).clone();
                ("what a member sent before".to_string(), s.0, s.1)
            }
            _ => {
                let pool: Vec<Key> = keys.iter().chain(&theirs).copied().chain([thief(), SYSTEM, ids().token, ids().ix_sysvar, v.dest]).collect();
                let mut accts = vec![];
                if g.bool() {
                    accts.extend([w_(keys[0]), ws(thief()), w_(keys[1])]);
                    accts.truncate(1 + g.us(3));
                }
                for _ in 0..g.us(8) {
                    let k = *g.pick(&pool);
                    accts.push(AM { key: k, s: own.contains(&k), w: g.chance(3, 4) });
                }
                let mut data = vec![g.below(22) as u8, 0];
                for _ in 0..g.us(120) {
                    data.push(if g.chance(2, 3) { g.below(4) as u8 } else { g.u64() as u8 });
                }
                ("made up".to_string(), vec![Ix { program: ids().swig, accts, data }], 0)
            }
        };
        // changes to the transaction
        let mut changed = false;
        for _ in 0..*g.pick(&[0usize, 0, 1, 1, 2, 4]) {
            changed = true;
            let i = if g.chance(3, 4) { at } else { g.us(ixs.len()) };
            let m = g.below(12);
            let ix = &mut ixs[i];
            match m {
                0 | 1 if !ix.data.is_empty() => {
                    let j = g.us(ix.data.len());
                    ix.data[j] ^= 1 << g.below(8);
                }
                2 if !ix.data.is_empty() => {
                    let j = ix.data.len() - 1 - g.us(ix.data.len().min(90));
                    ix.data[j] = *g.pick(&[0u8, 1, 2, 3, 255]);
                }
                3 => {
                    let k = g.us(ix.data.len() + 1);
                    ix.data.truncate(k);
                }
                4 => ix.data.extend(vec![g.below(4) as u8; 1 + g.us(9)]),
                5 if ix.data.len() >= 16 => {
                    // another role named
                    let o = *g.pick(&[4usize, 8, 12]);
                    ix.data[o..o + 4].copy_from_slice(&(g.below(4) as u32).to_le_bytes());
                }
                6 if ix.accts.len() > 1 => {
                    let (x, y) = (g.us(ix.accts.len()), g.us(ix.accts.len()));
                    ix.accts.swap(x, y);
                }
                7 if !ix.accts.is_empty() => {
                    let x = g.us(ix.accts.len());
                    ix.accts[x].key = *g.pick(&keys);
                }
                8 if !ix.accts.is_empty() => {
                    let x = g.us(ix.accts.len());
                    ix.accts[x].key = *g.pick(&[thief(), kk(SESSION), w.w.a.swig, w.w.a.wallet, SYSTEM, ids().token]);
                }
                9 if !ix.accts.is_empty() => {
                    let x = g.us(ix.accts.len());
                    ix.accts[x].w = true;
                }
                10 => {
                    if ix.program == GUARD {
                        match g.below(3) {
                            0 => ix.program = NOOP1,
                            1 => ix.data[0] ^= 1,
                            _ => {
                                // the right bytes, but in an instruction of another program
                                ix.program = PUPPET;
                            }
                        }
                    } else if i == at && g.bool() {
                        let j = g.us(ix.accts.len() + 1);
                        let k = *g.pick(&keys);
                        ix.accts.insert(j, AM { key: k, s: false, w: g.bool() });
                    }
                }
                _ => {
                    if ixs.len() < 5 {
                        // something harmless in between
                        let j = g.us(ixs.len() + 1);
                        let extra = match g.below(4) {
                            0 => sys_transfer(&thief(), g.pick(&keys), 1 + g.below(5)),
                            1 => Ix { program: GUARD, accts: vec![r(keys[0]), r(keys[1])], data: b"other".to_vec() },
                            2 => Ix { program: NOOP1, accts: vec![r(keys[0]), r(keys[1])], data: [b"guarded".to_vec(), vec![role as u8; 3]].concat() },
                            _ => tok_transfer(&ids().token, &s_tok(&w), &v.tok, &w.w.a.wallet, 0),
                        };
                        ixs.insert(j, extra);
                        if j <= at {
                            at += 1;
                        }
                    }
                }
            }
        }
        // only the attacker signs
        for ix in ixs.iter_mut() {
            for a in ix.accts.iter_mut() {
                if a.s && !own.contains(&a.key) {
                    if g.chance(1, 4) {
                        a.key = thief();
                    } else {
                        a.s = false;
                    }
                }
            }
        }
        if g.chance(1, 12) {
            // called by a program instead of directly
            let x = ixs[at].clone();
            ixs[at] = super::spend::wrapped(&[x], vec![], &[]);
        }
        let before = bank.clone();
        let signers = signers_of(&ixs);
        let o = bank.tx(&ixs, &signers);
        cx.note(|| format!("slot {}: {what}{}: {}", bank.slot, if changed { " (changed)" } else { "" }, o.err()));
        if let Err(e) = untouched(&keys, &before, &bank) {
            return fail("changed", format!("{what}{}: {e}; all changes: {}", if changed { " (changed)" } else { "" }, diff(&before, &bank)));
        }
        cx.label(if o.ok() { "ran, nothing of the wallet's changed" } else { "refused" });
        if possible && !changed && !o.ok() {
            hit = true;
            cx.label("possible with the credential, refused without");
        }
    }
    if hit {
        cx.hit();
    }
    Ok(())
}
fn s_tok(s: &Scene) -> Key {
    s.tok
}
fn w_(k: Key) -> AM {
    AM { key: k, s: false, w: true }
}
