//! The end of a wallet's life: beneficiary of the rent (P18), closing the
//! wallet (P28) and its token accounts (P29), and collecting what still sits
//! with the config account (P32).
use super::authvm::diff;
use super::common::*;
use super::party::*;
use super::roles::{count, rent_record};
use super::scene::*;

pub fn p18() -> Prop {
    Prop { id: "P18", rule: "a beneficiary was set and a later attempt to set, close or edit was made", assumptions: &["no role watches a balance inside the system program's account"], quick: 30_000, thorough: 300_000, fixed: None, run: claimer }
}
pub fn p28() -> Prop {
    Prop { id: "P28", rule: "the wallet was closed and every later request was tried", assumptions: &["sub-accounts are emptied by their holders before closing"], quick: 40_000, thorough: 400_000, fixed: None, run: close_wallet }
}
pub fn p29() -> Prop {
    Prop { id: "P29", rule: "at least two accounts were named, or an honest request was accepted", assumptions: &[], quick: 40_000, thorough: 400_000, fixed: None, run: close_tokens }
}
pub fn p32() -> Prop {
    Prop { id: "P32", rule: "tokens or SOL were moved, or a request was refused for an account", assumptions: &[], quick: 40_000, thorough: 400_000, fixed: None, run: assets }
}
const IDS: [u32; 3] = [0, 1, 7];
fn parties(g: &mut Gen, bank: &mut Bank, main: &[u16]) -> [Party; 2] {
    [0u64, 1].map(|x| {
        let mut p = Party::new("closing", x);
        for id in IDS {
            let (ty, acts) = (any_kind(g), mixed_acts(g, main));
            p.add(id, Cred::nth(ty, id as u64 + 10 * x), acts, bank.slot);
        }
        if g.chance(1, 3) {
            p.img.role_counter += 1 + g.below(9) as u32 + if g.chance(1, 8) { any_jump(g) } else { 0 };
        }
        p.img.sub_counter = g.below(3) as u32;
        p
    })
}
fn role_of(g: &mut Gen) -> u32 {
    if g.chance(15, 16) {
        *g.pick(&IDS)
    } else {
        3
    }
}

// ------------------------------------------------------------------- P28
fn close_wallet(g: &mut Gen, cx: &mut Cx) -> R {
    let mut bank = Bank::new();
    bank.fund(kk("payer"), 1000 * SOLS);
    let mut ps = parties(g, &mut bank, &[perm::ALL, perm::MANAGE, perm::CLOSE]);
    let other = ps[1].clone();
    let p = &mut ps[0];
    let (a, role) = (p.a.clone(), role_of(g));
    let dest = kk("dest");
    let claimer = g.chance(1, 3).then(|| if g.chance(4, 5) { dest } else { kk("claimer") });
    if let Some(c) = claimer {
        p.img.tail = rent_record(&c);
        bank.fund(kk("claimer"), SOLS);
    }
    let over = |g: &mut Gen| if g.chance(4, 5) { 0 } else { 1 + g.below(2) * g.below(SOLS) };
    let (x, y) = (over(g), over(g));
    p.install(&mut bank, x);
    other.install(&mut bank, 0);
    bank.fund(other.a.wallet, rent_min(0));
    let wallet = match g.weighted(&[8, 1]) {
        0 => rent_min(0) + y,
        _ => 0,
    };
    bank.fund(a.wallet, wallet);
    let fresh = g.bool();
    if !fresh {
        bank.fund(dest, rent_min(0) + g.below(SOLS));
    }
    let mut call = close_swig(&a, &dest, role);
    let mut to = dest;
    let mut model: Verdict = Ok(());
    match g.weighted(&[10, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => {
            to = a.swig;
            call.accts[2].key = to;
            model = Err("to itself");
        }
        2 => {
            to = a.wallet;
            call.accts[2].key = to;
            model = Err("to itself");
        }
        3 => {
            call.accts[1].key = *g.pick(&[other.a.wallet, kk("stranger"), a.sub1(0).0]);
            bank.fund(kk("stranger"), rent_min(0));
            model = Err("another wallet address");
        }
        4 => {
            to = kk("claimer");
            if g.bool() {
                to = twin(g, &claimer.unwrap_or(to));
            }
            call.accts[2].key = to;
            bank.fund(to, SOLS);
        }
        _ => {
            call.accts[2].w = false;
            model = Err("destination not writable");
        }
    }
    if !p.has(role, &[perm::ALL, perm::MANAGE, perm::CLOSE]) {
        model = Err("no right to close");
    }
    if claimer.map_or(false, |c| c != to) {
        model = Err("not the beneficiary");
    }
    if bank.lamports(&a.swig) > rent_min(p.img.enc().len()) || bank.lamports(&a.wallet) > rent_min(0) {
        model = Err("not empty");
    }
    let mut exp = bank.clone();
    let all = bank.lamports(&a.swig) - rent_min(1) + wallet;
    if model.is_ok() {
        exp.put(a.swig, Acct { lamports: rent_min(1), data: vec![255], owner: ids().swig, executable: false });
        exp.put(a.wallet, Acct { lamports: 0, ..bank.get(&a.wallet) });
        lam(&mut exp, &to, all as i128);
        if exp.lamports(&to) < rent_min(0) {
            model = Err("destination below the rent minimum");
        }
    }
    if !settle(cx, &mut bank, p, role, &call, model, &exp, "close")? {
        return Ok(());
    }
    // nothing brings it back
    let mut names = vec![];
    for what in 0..REQUESTS.len() + 1 {
        if g.bool() {
            bank.fund(a.wallet, rent_min(0) + g.below(3) * SOLS);
        }
        let role = *g.pick(&IDS);
        let (ixs, signers, mut b) = if what == REQUESTS.len() {
            let mut b = bank.clone();
            if g.bool() {
                b.put(a.wallet, Acct { lamports: 0, ..b.get(&a.wallet) });
            }
            let c = Cred::nth(1 + g.below(8) as u16, g.below(5));
            let ix = create_v1(&a, &kk("payer"), &c, &[mk::all()]);
            let s = signers_of(&[ix.clone()]);
            (vec![ix], s, b)
        } else {
            let mut s = Scene::new(1, &[(Cred::nth(1, 0), vec![mk::all()])]);
            s.w.a = a.clone();
            s.w.payer = kk("payer");
            let c = request(g, &s, role, what);
            // what the signer knew before the wallet was closed
            let sg = sign_of(&{ let mut b = bank.clone(); p.install(&mut b, 0); b }, &a.swig, role);
            let mut b = bank.clone();
            let sealed = seal(&mut b, &c, &p.cred(role), &sg);
            (sealed.ixs, sealed.signers, b)
        };
        let before = b.clone();
        let o = b.tx(&ixs, &signers);
        let name = if what == REQUESTS.len() { "create" } else { REQUESTS[what] };
        ensure!(!o.ok(), format!("after/{name}"), "{name} was accepted for a closed wallet: {}", diff(&before, &b));
        names.push(name);
    }
    cx.note(|| format!("refused afterwards: {}", names.len()));
    cx.hit();
    Ok(())
}

// ------------------------------------------------------------------- P29
fn close_tokens(g: &mut Gen, cx: &mut Cx) -> R {
    let mut bank = Bank::new();
    bank.fund(kk("payer"), 1000 * SOLS);
    let mut ps = parties(g, &mut bank, &[perm::ALL, perm::MANAGE, perm::CLOSE]);
    let other = ps[1].clone();
    let p = &mut ps[0];
    let (a, role) = (p.a.clone(), role_of(g));
    let dest = kk("dest");
    if g.bool() {
        bank.fund(dest, SOLS);
    }
    let claimer = g.chance(1, 4).then(|| if g.chance(3, 4) { dest } else { kk("claimer") });
    if let Some(c) = claimer {
        p.img.tail = rent_record(&c);
    }
    if g.chance(1, 4) {
        // old format: a balance where the wallet bump is now
        p.img.wallet = g.arr();
        p.img.sub_counter = g.u32();
    }
    p.install(&mut bank, 0);
    other.install(&mut bank, 0);
    for k in [a.wallet, other.a.wallet] {
        bank.fund(k, rent_min(0));
    }
    let tp = if g.chance(3, 4) { ids().token } else { ids().token22 };
    let mut model: Verdict = Ok(());
    let n = match g.below(12) {
        0 => 0,
        1 => 5 + g.us(8),
        _ => 1 + g.us(4),
    };
    if n == 0 {
        model = Err("none named");
    }
    let mut named = vec![];
    for i in 0..n {
        let k = kn("tok", i as u64);
        let mut t = native::Tok::new(kk("mint"), if g.chance(3, 4) { a.wallet } else { a.swig }, 0);
        let mut prog = tp;
        let honest = g.chance(2, 3) || n > 5 && g.chance(5, 6);
        if !honest {
            match g.below(8) {
                0 => t.amount = 1 + g.below(3),
                1 => t.amount = 1 << g.below(64),
                2 => {
                    t.native = Some(rent_min(165));
                    t.amount = g.below(2) * if g.bool() { 1 + g.below(SOLS) } else { 1 << g.below(60) };
                }
                3 if g.chance(1, 3) => t.owner = if g.bool() { twin(g, &a.wallet) } else { twin(g, &a.swig) },
                3 => t.owner = *g.pick(&[other.a.wallet, other.a.swig, a.sub1(0).0, a.sub2(0).0, kk("stranger")]),
                4 => prog = if tp == ids().token { ids().token22 } else { ids().token },
                5 => t.state = 2,
                6 => t.close = Some(*g.pick(&[a.wallet, a.swig, kk("stranger")])),
                _ => t.delegate = Some(kk("stranger")),
            }
        }
        put_tok(&mut bank, k, &t, prog);
        if prog == ids().token22 && g.chance(1, 4) {
            // with an extension
            let mut x = bank.get(&k);
            x.data.extend([2, 7, 0, 0, 0]);
            x.lamports += rent_min(170) - rent_min(165);
            bank.put(k, x);
        }
        if g.chance(1, 4) {
            lam(&mut bank, &k, g.below(SOLS) as i128);
        }
        named.push(k);
        if t.owner != a.wallet && t.owner != a.swig {
            model = Err("not the wallet's");
        } else if prog != tp {
            model = Err("another token program");
        } else if t.amount != 0 {
            model = Err("not empty");
        } else if t.close.map_or(false, |c| c != t.owner) {
            model = Err("others may close it");
        }
    }
    if n > 0 && g.chance(1, 10) {
        let k = named[g.us(named.len())];
        named.push(k);
        model = Err("named twice");
    }
    let mut to = dest;
    let mut call = close_token(&a, &dest, &tp, &named, role);
    match g.weighted(&[12, 1, 1, 1, 1, 1]) {
        0 => {}
        1 if n > 0 => {
            to = *g.pick(&named);
            call.accts[2].key = to;
            model = Err("into itself");
        }
        2 => {
            to = a.wallet;
            call.accts[2].key = to;
        }
        3 => {
            to = kk("claimer");
            if g.bool() {
                to = twin(g, &claimer.unwrap_or(to));
                bank.fund(to, SOLS);
            }
            call.accts[2].key = to;
        }
        4 => {
            swap(&mut call, a.wallet, other.a.wallet);
            model = Err("another wallet address");
        }
        _ => {
            let q = *g.pick(&[SYSTEM, ids().stake, PUPPET]);
            swap(&mut call, tp, q);
            model = Err("not a token program");
        }
    }
    if !p.has(role, &[perm::ALL, perm::MANAGE, perm::CLOSE]) {
        model = Err("no right to close");
    }
    if claimer.map_or(false, |c| c != to) {
        model = Err("not the beneficiary");
    }
    let mut exp = bank.clone();
    if model.is_ok() {
        for k in &named {
            let l = exp.lamports(k);
            lam(&mut exp, &to, l as i128);
            exp.put(*k, Acct { lamports: 0, data: vec![], owner: SYSTEM, executable: false });
        }
        let mut next = p.img.clone();
        count(&mut next, role, &p.cred(role), false);
        exp.put(a.swig, Acct { data: next.enc(), ..exp.get(&a.swig) });
    }
    if settle(cx, &mut bank, p, role, &call, model, &exp, "close token accounts")? || named.len() > 1 {
        cx.hit();
    }
    Ok(())
}

// ------------------------------------------------------------------- P32
fn raw(a: &Acct) -> Option<(Key, u64)> {
    (a.data.len() >= 72).then(|| (a.data[32..64].try_into().unwrap(), u64::from_le_bytes(a.data[64..72].try_into().unwrap())))
}
fn assets(g: &mut Gen, cx: &mut Cx) -> R {
    let mut bank = Bank::new();
    bank.fund(kk("payer"), 1000 * SOLS);
    let mut ps = parties(g, &mut bank, &[perm::ALL, perm::MANAGE]);
    let other = ps[1].clone();
    let p = &mut ps[0];
    let (a, role) = (p.a.clone(), role_of(g));
    if g.chance(1, 4) {
        p.img.tail = rent_record(&kk("claimer"));
    }
    let x = g.below(3) * g.below(3 * SOLS);
    p.install(&mut bank, x);
    other.install(&mut bank, SOLS);
    let y = g.below(2) * g.below(SOLS);
    bank.fund(a.wallet, rent_min(0) + y);
    bank.fund(other.a.wallet, rent_min(0));
    let mut mints = [kk("mint0"), kk("mint1")];
    if g.bool() {
        mints[1] = twin(g, &mints[0]);
    }
    let tp = if g.chance(3, 4) { ids().token } else { ids().token22 };
    let other_tp = if tp == ids().token { ids().token22 } else { ids().token };
    let mut triples: Vec<(Key, Key, Key)> = vec![];
    let holders = [a.swig, a.wallet, other.a.swig, other.a.wallet, kk("stranger"), a.sub1(0).0];
    let n = if g.chance(1, 10) { 4 + g.us(7) } else { g.us(4) };
    for i in 0..n {
        let (s, d) = (kn("src", i as u64), kn("dst", i as u64));
        let m = *g.pick(&mints);
        let held = if g.chance(1, 5) { 1 << g.below(63) } else { g.below(3) * g.below(1000) };
        let mut st = native::Tok::new(m, a.swig, held);
        let mut dt = native::Tok::new(m, a.wallet, g.below(1000));
        let (mut so, mut po, mut prog) = (tp, tp, tp);
        if g.chance(1, if n > 3 { 15 } else { 4 }) {
            match g.below(11) {
                9 => st.owner = twin(g, &a.swig),
                10 => dt.owner = twin(g, &a.wallet),
                0 => st.owner = *g.pick(&holders[1..]),
                1 => dt.owner = *g.pick(&[holders[0], holders[2], holders[3], holders[4], holders[5]]),
                2 => dt.mint = if m == mints[0] { mints[1] } else { mints[0] },
                3 => so = *g.pick(&[other_tp, PUPPET]),
                4 => po = *g.pick(&[other_tp, PUPPET]),
                5 => prog = *g.pick(&[other_tp, PUPPET, SYSTEM]),
                6 => st.state = 2,
                7 => dt.state = 2,
                _ => dt.close = Some(kk("stranger")),
            }
        }
        put_tok(&mut bank, s, &st, so);
        put_tok(&mut bank, d, &dt, po);
        triples.push((s, d, prog));
        if g.chance(1, 6) {
            let (s2, d2, p2) = *g.pick(&triples);
            triples.push((if g.bool() { s2 } else { s }, if g.bool() { d2 } else { d }, p2));
        }
        if g.chance(1, 12) {
            triples.push((kk("payer"), d, prog));
        }
    }
    let mut call = transfer_assets(&a, &kk("payer"), role, &triples);
    let mut model: Verdict = Ok(());
    if g.chance(1, 8) {
        swap(&mut call, a.wallet, *g.pick(&[other.a.wallet, kk("payer"), a.sub1(0).0]));
        model = Err("another wallet address");
    }
    if !p.has(role, &[perm::ALL, perm::MANAGE]) {
        model = Err("no right");
    }
    let mut exp = bank.clone();
    let mut moved = false;
    if model.is_ok() {
        let up = rent_min(p.img.enc().len());
        let l = exp.lamports(&a.swig) - up;
        moved |= l > 0;
        lam(&mut exp, &a.swig, -(l as i128));
        lam(&mut exp, &a.wallet, l as i128);
        for (s, d, prog) in &triples {
            let (sa, da) = (exp.get(s), exp.get(d));
            let (Some((so, n)), Some((ho, _))) = (raw(&sa), raw(&da)) else { continue };
            if so != a.swig || ho != a.wallet || (*prog != ids().token && *prog != ids().token22) || n == 0 {
                continue;
            }
            if sa.owner != *prog || da.owner != *prog {
                model = Err("not a token account");
                break;
            }
            let (mut st, mut dt) = (native::Tok::unpack(&sa.data).unwrap(), native::Tok::unpack(&da.data).unwrap());
            if st.mint != dt.mint {
                model = Err("another mint");
            } else if st.state == 2 || dt.state == 2 {
                model = Err("frozen");
            }
            if model.is_err() {
                break;
            }
            st.amount -= n;
            dt.amount += n;
            exp.put(*s, Acct { data: st.pack(), ..sa });
            exp.put(*d, Acct { data: dt.pack(), ..da });
            moved = true;
        }
        let mut next = p.img.clone();
        count(&mut next, role, &p.cred(role), false);
        exp.put(a.swig, Acct { data: next.enc(), ..exp.get(&a.swig) });
    }
    let ok = settle(cx, &mut bank, p, role, &call, model, &exp, "collect")?;
    if ok && moved || !ok {
        cx.hit();
    }
    Ok(())
}

// ------------------------------------------------------------------- P18
fn claimer(g: &mut Gen, cx: &mut Cx) -> R {
    let mut roles = vec![];
    for i in 0..3 {
        let ty = any_kind(g);
        let mut acts = mixed_acts(g, &[perm::ALL, perm::CLOSE, perm::MANAGE]);
        if !acts.iter().any(|x| x.ty == perm::SUB2_CREATE) {
            acts.push(mk::flag(perm::SUB2_CREATE));
        }
        acts.push(mk::sub());
        roles.push((Cred::nth(ty, i), acts));
    }
    let mut s = Scene::new(2, &roles);
    let a = s.w.a.clone();
    let mut set: Option<Key> = None;
    let (mut used, mut replaced) = (false, false);
    let steps = 2 + g.us(8);
    for step in 0..steps {
        let before = s.w.img().map_err(|e| bad("form", e))?;
        if before.roles.iter().any(|r| r.acts.iter().any(|x| x.ty == perm::SCOPE && x.body[80..112] == SYSTEM)) {
            // every request names the system program
            return Ok(());
        }
        let role = if g.chance(15, 16) { g.below(3) as u32 } else { 9 };
        let what = match g.weighted(&[4, 6, 1, 1]) {
            0 => 7,
            1 => g.us(REQUESTS.len()),
            2 => 13,
            _ => 14,
        };
        let mut call = request(g, &s, role, what);
        let last = what == 14 && g.bool();
        if last {
            s.drained();
        }
        let want = *g.pick(&[kn("claimer", 0), kn("claimer", 1), [0; 32], a.swig, a.wallet, s.dest, s.w.payer]);
        if what == 7 {
            call = set_rent_claimer(&a, &s.w.payer, role, &want);
        }
        if what == 8 {
            call = create_sub2(&a, &s.w.payer, role, before.sub_counter);
        }
        let mut to = s.dest;
        if what == 13 || what == 14 {
            if let (Some(c), true) = (set, g.bool()) {
                to = c;
                call.accts[2].key = c;
            }
        }
        for k in 0..2 {
            if s.w.bank.lamports(&kn("claimer", k)) == 0 {
                s.w.bank.fund(kn("claimer", k), SOLS);
            }
        }
        let pre = s.w.bank.clone();
        let cred = s.w.cred(role);
        let sg = s.w.sign(role);
        let sealed = seal(&mut s.w.bank, &call, &cred, &sg);
        let o = s.w.bank.tx(&sealed.ixs, &sealed.signers);
        let me = before.role(role);
        cx.note(|| format!("step {step}: {} by role {role} [{}] -> {}", REQUESTS[what], me.map(|r| acts_str(&r.acts)).unwrap_or_default(), o.err()));
        if set.is_some() {
            used = true;
        }
        if what == 7 {
            let may = me.map_or(false, |r| r.has(perm::ALL) || r.has(perm::CLOSE));
            let model: Verdict = if me.is_none() {
                Err("no such role")
            } else if replaced && role == 1 {
                Err("credential replaced")
            } else if !may {
                Err("no right")
            } else if want == [0; 32] || want == a.swig || want == a.wallet {
                Err("not a possible beneficiary")
            } else if set.is_some() {
                Err("already set")
            } else {
                Ok(())
            };
            match model {
                Ok(()) => {
                    ensure!(o.ok(), "refused/set", "setting the beneficiary was refused: {}", o.err());
                    set = Some(want);
                    let mut next = before.clone();
                    next.tail = rent_record(&want);
                    count(&mut next, role, &cred, false);
                    let mut exp = pre.clone();
                    exp.put(a.swig, Acct { data: next.enc(), ..pre.get(&a.swig) });
                    top_up(&mut exp, &s.w.payer, &a.swig, rent_min(next.enc().len()));
                    let d = diff(&exp, &s.w.bank);
                    ensure!(d.is_empty(), "effect/set", "setting the beneficiary: real outcome against the expected one: {d}");
                    cx.label("set");
                }
                Err(why) => {
                    ensure!(!o.ok(), format!("accepted/{why}"), "the beneficiary was set although: {why}");
                    cx.label(why);
                }
            }
        } else if o.ok() {
            cx.label(REQUESTS[what]);
            replaced |= what == 16;
        }
        if o.ok() && (what == 13 || what == 14) {
            if let Some(c) = set {
                ensure!(to == c, "beneficiary", "rent went to somebody else than the beneficiary ({})", REQUESTS[what]);
            }
        }
        if o.ok() && what == 14 {
            let gain = s.w.bank.lamports(&to) as i128 - pre.lamports(&to) as i128;
            let had = pre.lamports(&a.swig) as i128 + pre.lamports(&a.wallet) as i128 - rent_min(1) as i128;
            ensure!(gain == had, "closing rent", "{gain} of {had} lamports reached the destination");
            if used {
                cx.hit();
            }
            return Ok(());
        }
        let now = s.w.img().map_err(|e| bad("form", format!("after {}: {e}", REQUESTS[what])))?;
        let tail = set.map_or(vec![], |c| rent_record(&c));
        ensure!(now.tail == tail, "record", "after {} (accepted: {}) the beneficiary is {} instead of {}", REQUESTS[what], o.ok(), hex(&now.tail), hex(&tail));
        ensure!(s.w.bank.lamports(&a.swig) >= rent_min(now.enc().len()), "rent", "config account below the rent minimum after {}", REQUESTS[what]);
    }
    if used {
        cx.hit();
    }
    Ok(())
}
