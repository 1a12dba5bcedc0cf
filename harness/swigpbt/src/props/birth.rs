//! The beginning of a wallet's life: creation (P30) and migration of the old
//! format (P31).
use super::common::*;
use super::lists::{list_ok, maybe_broken};
use super::party::*;
use super::authvm::diff;
use super::roles::{count, rent_record};

pub fn p30() -> Prop {
    Prop { id: "P30", rule: "an attempt was accepted and one was refused", assumptions: &[], quick: 30_000, thorough: 300_000, fixed: None, run: create }
}
pub fn p31() -> Prop {
    Prop { id: "P31", rule: "the wallet was migrated or an attempt on a migrated one was refused", assumptions: &["an old-format balance is not 1 to 255 lamports modulo 2^32 (the documented limit of telling the formats apart)"], quick: 30_000, thorough: 300_000, fixed: None, run: migration }
}
/// another valid address for the same seeds, at a lower bump
fn lower(g: &mut Gen, seeds: &[&[u8]], bump: u8) -> (Key, u8) {
    let mut skip = g.below(3);
    for b in (0..bump).rev() {
        let x = [b];
        let mut s = seeds.to_vec();
        s.push(&x);
        if let Some(k) = pda(&s, &ids().swig) {
            if skip == 0 {
                return (k, b);
            }
            skip -= 1;
        }
    }
    panic!("no other address")
}
fn create(g: &mut Gen, cx: &mut Cx) -> R {
    let mut bank = Bank::new();
    let payer = kk("payer");
    bank.fund(payer, 1000 * SOLS);
    let a = Addr::new(kn("birth", g.below(6)));
    let other = Addr::new(kn("birth", 7));
    let (mut yes, mut no) = (0, 0);
    // what is there before
    let mut there = false;
    if g.chance(1, 3) {
        let l = *g.pick(&[1u64, rent_min(0), 5 * SOLS]) + g.below(5);
        bank.fund(a.swig, l);
    } else if g.chance(1, 8) {
        there = true;
        let (d, o) = match g.below(3) {
            0 => (vec![255], ids().swig),
            1 => (vec![0; 48], ids().swig),
            _ => (vec![], PUPPET),
        };
        bank.put(a.swig, Acct { lamports: rent_min(d.len()), data: d, owner: o, executable: false });
    }
    if g.chance(1, 3) {
        let l = *g.pick(&[1u64, rent_min(0), 5 * SOLS]) + g.below(5);
        bank.fund(a.wallet, l);
    }
    for _ in 0..1 + g.us(3) {
        let mut b = a.clone();
        let mut wallet_of = b.swig;
        let mut why: Option<&'static str> = None;
        match g.weighted(&[7, 2, 1, 1]) {
            0 => {}
            1 => {
                (b.swig, b.bump) = lower(g, &[b"swig", &a.id], a.bump);
                wallet_of = b.swig;
                (b.wallet, b.wallet_bump) = find_pda(&[b"swig-wallet-address", &b.swig], &ids().swig);
                why = Some("another config address of the same id");
            }
            2 => {
                (b.wallet, b.wallet_bump) = lower(g, &[b"swig-wallet-address", &a.swig], a.wallet_bump);
                why = Some("another wallet address");
            }
            _ => match g.below(6) {
                0 => {
                    b.bump = g.u8();
                    if b.bump != a.bump {
                        why = Some("wrong bump");
                    }
                }
                1 => {
                    b.wallet_bump = g.u8();
                    if b.wallet_bump != a.wallet_bump {
                        why = Some("wrong bump");
                    }
                }
                2 => {
                    b.id = other.id;
                    why = Some("address of another id");
                }
                3 => {
                    b.wallet = other.wallet;
                    b.wallet_bump = other.wallet_bump;
                    why = Some("wallet address of another id");
                }
                4 => {
                    std::mem::swap(&mut b.swig, &mut b.wallet);
                    why = Some("addresses swapped");
                }
                _ => {
                    b.wallet = b.swig;
                    b.wallet_bump = b.bump;
                    why = Some("addresses the same");
                }
            },
        }
        let _ = wallet_of;
        let ty = 1 + g.below(8) as u16;
        let cred = Cred::nth(ty, g.below(20));
        let mut acts = valid_acts(g, 4);
        if g.chance(3, 4) && !acts.iter().any(|x| x.ty == perm::ALL || x.ty == perm::MANAGE) {
            let i = g.us(acts.len() + 1);
            acts.insert(i, mk::flag(if g.bool() { perm::ALL } else { perm::MANAGE }));
        }
        let raw = if g.chance(1, 5) { maybe_broken(g) } else { enc_actions(&acts) };
        let mut auth = cred.create();
        if g.chance(1, 12) && (ty == 1 || ty == 5) {
            if g.bool() {
                auth.pop();
            } else {
                auth.push(g.u8());
            }
            why = Some("credential of the wrong size");
        }
        let parsed = list_ok(&raw);
        match &parsed {
            Err(w) => why = Some(w),
            Ok(v) => {
                if !v.iter().any(|x| x.ty == perm::ALL || x.ty == perm::MANAGE) {
                    why = Some("root without administrative rights");
                }
            }
        }
        if there {
            why = Some("exists already");
        }
        let mut exp = bank.clone();
        let img = parsed.ok().map(|acts| {
            let mut img = SwigImg::new(a.id, a.bump, a.wallet_bump);
            img.push(ty, cred.stored(), acts);
            img
        });
        let mut ix = create_v1_raw(&b, &payer, ty, &auth, &raw);
        if g.chance(1, 20) {
            ix.accts[1].s = false;
            if bank.lamports(&a.wallet) < rent_min(0) || img.as_ref().map_or(true, |i| bank.lamports(&a.swig) < rent_min(i.enc().len())) {
                why = Some("payer did not sign");
            }
        }
        if why.is_none() {
            let d = img.unwrap().enc();
            top_up(&mut exp, &payer, &a.swig, rent_min(d.len()));
            top_up(&mut exp, &payer, &a.wallet, rent_min(0));
            let l = exp.lamports(&a.swig);
            exp.put(a.swig, Acct { lamports: l, data: d, owner: ids().swig, executable: false });
        }
        let before = bank.clone();
        let s = signers_of(&[ix.clone()]);
        let o = bank.tx(&[ix], &s);
        cx.note(|| format!("create with a {} root, bumps {} {}: {} expected {why:?}", cred.name(), b.bump, b.wallet_bump, o.err()));
        match why {
            Some(w) => {
                ensure!(!o.ok(), format!("accepted/{w}"), "a wallet was created although: {w}: {}", diff(&before, &bank));
                ensure!(before.accts == bank.accts, "refused", "a refused creation changed something: {}", diff(&before, &bank));
                cx.label(w);
                no += 1;
            }
            None => {
                let pre = before.lamports(&a.swig) > 0;
                ensure!(o.ok(), if pre { "refused/prefunded" } else { "refused" }, "creation was refused{}: {}", if pre { " (SOL was sent to its address before)" } else { "" }, o.err());
                let d = diff(&exp, &bank);
                ensure!(d.is_empty(), "effect", "creation: real outcome against the expected one: {d}");
                cx.label(if pre { "created over prior SOL" } else { "created" });
                there = true;
                yes += 1;
            }
        }
    }
    if yes > 0 && no > 0 {
        cx.hit();
    }
    Ok(())
}

fn migration(g: &mut Gen, cx: &mut Cx) -> R {
    let mut bank = Bank::new();
    let payer = kk("payer");
    bank.fund(payer, 1000 * SOLS);
    let mut p = Party::new("old", g.below(5));
    let other = Party::new("old", 9);
    let a = p.a.clone();
    for id in [0u32, 1, 5] {
        let (ty, mut acts) = (any_kind(g), mixed_acts(g, &[perm::ALL, perm::MANAGE]));
        if !acts.iter().any(|x| x.ty == perm::SUB2_CREATE) {
            acts.push(mk::flag(perm::SUB2_CREATE));
        }
        p.add(id, Cred::nth(ty, id as u64), acts, bank.slot);
    }
    p.img.role_counter += g.below(5) as u32 + if g.chance(1, 4) { any_jump(g) } else { 0 };
    let mut done = g.chance(1, 4);
    if done {
        p.img.sub_counter = g.below(2) as u32 * g.below(9) as u32;
        if g.chance(1, 3) {
            p.img.tail = rent_record(&kk("claimer"));
        }
        if g.chance(1, 8) {
            // made when other wallet addresses were still accepted
            p.img.wallet[0] = g.u8().max(1);
        }
    } else {
        // the old format kept a balance there
        let l: u64 = match g.below(4) {
            0 => 0,
            1 => rent_min(p.img.enc().len()),
            2 => g.below(10) * SOLS + rent_min(p.img.enc().len()),
            _ => g.u64(),
        };
        let b = l.to_le_bytes();
        p.img.wallet = b[..4].try_into().unwrap();
        p.img.sub_counter = u32::from_le_bytes(b[4..].try_into().unwrap());
        if b[0] != 0 && b[1..4] == [0; 3] {
            // reads as the new format; no balance that carries rent does
            return Ok(());
        }
    }
    let extra = g.below(3) * g.below(5 * SOLS);
    p.install(&mut bank, extra);
    other.install(&mut bank, 0);
    let l = match g.weighted(&[3, 1, 1]) {
        0 => 0,
        1 => rent_min(0),
        _ => SOLS,
    };
    bank.fund(a.wallet, if done { l.max(rent_min(0)) } else { l });
    let mut hit = false;
    for _ in 0..1 + g.us(4) {
        let role = if g.chance(15, 16) { *g.pick(&[0, 1, 5]) } else { 3 };
        let mut next = p.img.clone();
        let mut exp = bank.clone();
        let mut model: Verdict = if p.has(role, &[perm::ALL, perm::MANAGE]) { Ok(()) } else { Err("no right") };
        if done && p.img.wallet[0] == a.wallet_bump && g.chance(1, 3) {
            // life goes on in the new format
            if g.bool() {
                let n = next.sub_counter;
                let o = {
                    let c = create_sub2(&a, &payer, role, n);
                    let sg = sign_of(&bank, &a.swig, role);
                    let s = seal(&mut bank, &c, &p.cred(role), &sg);
                    bank.tx(&s.ixs, &s.signers)
                };
                if o.ok() {
                    ensure!(p.img.role(role).is_some(), "role", "an unknown role created a sub-account");
                    let d = SwigImg::dec(&bank.get(&a.swig).data).map_err(|e| bad("form", e))?;
                    ensure!(d.sub_counter == n + 1, "counter", "sub-account counter {} after creating number {n}", d.sub_counter);
                    p.img = d;
                    cx.label("numbered sub-account made");
                }
            } else {
                // SOL that stayed with the config account is still the wallet's
                let room = bank.lamports(&a.swig) - rent_min(p.img.enc().len());
                count(&mut next, role, &p.cred(role), false);
                exp.put(a.swig, Acct { data: next.enc(), lamports: rent_min(p.img.enc().len()), ..bank.get(&a.swig) });
                lam(&mut exp, &a.wallet, room as i128);
                if settle(cx, &mut bank, &p, role, &transfer_assets(&a, &payer, role, &[]), model, &exp, "collect")? {
                    p.img = next.clone();
                }
                if p.has(role, &[perm::ALL]) {
                    let l = bank.lamports(&a.wallet) - rent_min(0);
                    let v = g.range(0, l);
                    let mut next = p.img.clone();
                    count(&mut next, role, &p.cred(role), false);
                    let mut exp = bank.clone();
                    exp.put(a.swig, Acct { data: next.enc(), ..bank.get(&a.swig) });
                    lam(&mut exp, &a.wallet, -(v as i128));
                    let dest = kk("dest");
                    bank.fund(dest, SOLS);
                    exp.fund(dest, SOLS + v);
                    let c = sign_v2(&a, role, &[], &[sys_transfer(&a.wallet, &dest, v)]);
                    if settle(cx, &mut bank, &p, role, &c, Ok(()), &exp, "spend")? {
                        p.img = next;
                    }
                }
            }
            continue;
        }
        let mut call = migrate(&a, ws(payer), &payer, role);
        match g.weighted(&[10, 1, 1, 1, 1]) {
            0 => {}
            1 => {
                let (k, b) = lower(g, &[b"swig-wallet-address", &a.swig], a.wallet_bump);
                swap(&mut call, a.wallet, k);
                call.head[2] = b;
                call.signed[2] = b;
                model = Err("another wallet address");
            }
            2 => {
                let k = *g.pick(&[other.a.wallet, kk("stranger"), a.sub1(0).0]);
                swap(&mut call, a.wallet, k);
                model = Err("another wallet address");
            }
            3 => {
                let b = g.u8();
                if b != a.wallet_bump {
                    call.head[2] = b;
                    call.signed[2] = b;
                    model = Err("wrong bump");
                }
            }
            _ => {
                // an account that looks like the wallet but is not the program's
                let mut x = bank.get(&a.swig);
                x.owner = PUPPET;
                bank.put(kk("look-alike"), x);
                exp = bank.clone();
                let sg = sign_of(&bank, &a.swig, role);
                swap(&mut call, a.swig, kk("look-alike"));
                let before = bank.clone();
                let s = seal(&mut bank, &call, &p.cred(role), &sg);
                let o = bank.tx(&s.ixs, &s.signers);
                ensure!(!o.ok() && before.accts == bank.accts, "foreign account", "an account of another program was migrated");
                continue;
            }
        }
        if done {
            model = Err("migrated already");
        }
        if model.is_ok() {
            next.wallet = [a.wallet_bump, 0, 0, 0];
            next.sub_counter = 0;
            count(&mut next, role, &p.cred(role), false);
            exp.put(a.swig, Acct { data: next.enc(), ..bank.get(&a.swig) });
            top_up(&mut exp, &payer, &a.wallet, rent_min(0));
        }
        let was = done;
        if settle(cx, &mut bank, &p, role, &call, model, &exp, "migrate")? {
            p.img = next;
            done = true;
            hit = true;
        } else if was {
            hit = true;
        }
    }
    if hit {
        cx.hit();
    }
    Ok(())
}
