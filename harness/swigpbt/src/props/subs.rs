//! Sub-accounts of both generations against a model: who may create, use,
//! switch and empty them (P25, P26) and where withdrawals go (P27).
use super::authvm::diff;
use super::common::*;
use super::roles::count;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    V1,
    V2,
    Out,
}
pub fn p25() -> Prop {
    Prop { id: "P25", rule: "a request was accepted and one was refused", assumptions: &[], quick: 40_000, thorough: 400_000, fixed: None, run: |g, cx| history(g, cx, Mode::V1) }
}
pub fn p26() -> Prop {
    Prop { id: "P26", rule: "a request was accepted and one was refused", assumptions: &[], quick: 40_000, thorough: 400_000, fixed: None, run: |g, cx| history(g, cx, Mode::V2) }
}
pub fn p27() -> Prop {
    Prop { id: "P27", rule: "a withdrawal was accepted and one was refused", assumptions: &[], quick: 40_000, thorough: 400_000, fixed: None, run: |g, cx| history(g, cx, Mode::Out) }
}

#[derive(Clone)]
struct Party {
    a: Addr,
    img: SwigImg,
    creds: Vec<Cred>,
}
impl Party {
    fn cred(&self, id: u32) -> Cred {
        self.img.roles.iter().position(|r| r.id == id).map(|i| self.creds[i].clone()).unwrap_or(Cred::Ed { pk: kk("nobody") })
    }
}
pub fn state_bytes(a: &Addr, n: u32, on: bool) -> Vec<u8> {
    let (_, sb) = a.sub2_state(n);
    let (k, kb) = a.sub2(n);
    [&[2, sb, kb, on as u8][..], &n.to_le_bytes(), &a.id, &k].concat()
}
const IDS: [u32; 4] = [0, 1, 2, 11];
/// a role that is gone and whose sub-account is still there
const GONE: u32 = 7;
/// An address of the program from the same seeds with another bump.
fn other_bump(seeds: &[&[u8]], b: u8) -> Option<(Key, u8)> {
    (0..b).rev().take(6).find_map(|x| pda(&[seeds, &[&[x]]].concat(), &ids().swig).map(|k| (k, x)))
}
fn tok_of(k: &Key, m: u8) -> Key {
    let mut t = *k;
    t[31] ^= 0x77;
    t[30] ^= m;
    t
}
struct St {
    bank: Bank,
    p: [Party; 2],
    payer: Key,
    mints: [Key; 2],
    dest: Key,
    dest_tok: [Key; 2],
    /// owned by an address that is almost the wallet's, for each wallet
    near_tok: [Key; 2],
    ids: [u32; 4],
    /// the numbers the history is about start here
    base: u32,
}
/// The token account of a sub-account: mostly its own, else one of somebody
/// else's it may have been given a part of.
fn odd_tok(g: &mut Gen, k: &Key, mint: Key) -> native::Tok {
    let own = if g.chance(9, 10) { *k } else if g.bool() { kk("other owner") } else { twin(g, k) };
    let amount = g.below(500);
    let mut t = native::Tok::new(mint, own, amount);
    if own != *k && g.bool() {
        t.delegate = Some(*k);
        t.delegated = 1 + g.below(500);
    }
    t
}
fn scene(g: &mut Gen, mode: Mode) -> St {
    let mut bank = Bank::new();
    let payer = kk("payer");
    bank.fund(payer, 1000 * SOLS);
    let dest = kk("dest");
    bank.fund(dest, SOLS);
    let mut mints = [kk("mint0"), kk("mint1")];
    if g.chance(1, 3) {
        mints[1] = twin(g, &mints[0]);
    }
    let mut ids_ = IDS;
    if g.chance(1, 12) {
        ids_[3] = *g.pick(&[255, 256, 300]);
    }
    let base = if g.chance(1, 10) { *g.pick(&[253, 254, 65_534, u32::MAX - 3]) } else { 0 };
    let tp = ids().token;
    let put_tok = |bank: &mut Bank, k: Key, t: native::Tok, p: Key| bank.put(k, Acct { lamports: rent_min(165), data: t.pack(), owner: p, executable: false });
    let mut ps = vec![];
    for x in 0..2u64 {
        let a = Addr::new(kn("sub wallet", x));
        let mut img = SwigImg::new(a.id, a.bump, a.wallet_bump);
        let mut creds = vec![];
        for id in ids_ {
            img.role_counter = id;
            let ty = if g.chance(1, 3) { 1 } else { 1 + g.below(8) as u16 };
            let c = Cred::nth(ty, id as u64 + 10 * x);
            let mut st = c.stored();
            if c.session() {
                set_session(ty, &mut st, &kn("session", id as u64), bank.slot + 1_000_000);
            }
            let mut acts: Vec<Act> = vec![];
            let (k, b) = a.sub1(id);
            if mode != Mode::V2 {
                match g.below(4) {
                    0 => {}
                    1 => acts.push(mk::sub()),
                    _ => acts.push(mk::sub_full(&k, b, g.chance(3, 4), id, &a.id)),
                }
                if g.chance(1, 6) {
                    acts.push(mk::sub());
                }
            }
            if mode != Mode::V1 {
                for t in perm::SUB2_CREATE..=perm::SUB2_TOGGLE {
                    if t == perm::SUB2_CREATE {
                        if g.bool() {
                            acts.push(mk::flag(t));
                        }
                        continue;
                    }
                    for n in base..=base + 3 {
                        if g.chance(1, 4) {
                            acts.push(mk::sub2(t, n));
                        }
                    }
                }
            }
            for t in [perm::ALL, perm::MANAGE, perm::ALL_BUT, perm::CLOSE, perm::PROGRAM_ALL] {
                if g.chance(1, if t == perm::ALL || t == perm::MANAGE { 4 } else { 6 }) {
                    acts.push(mk::flag(t));
                }
            }
            if g.chance(1, 4) {
                let x = g.u64();
                acts.push(mk::sol(x));
            }
            if acts.is_empty() {
                acts.push(mk::sol(1));
            }
            g.shuffle(&mut acts);
            img.push(ty, st, acts);
            creds.push(c);
            // role-bound sub-accounts exist, or someone paid there already
            if g.chance(3, 4) {
                let l = if g.bool() { rent_min(0) + g.below(3) } else { g.range(1, 3) * SOLS };
                bank.fund(k, l);
            }
            let t = odd_tok(g, &k, mints[0]);
            put_tok(&mut bank, tok_of(&k, 0), t, tp);
        }
        let k = a.sub1(GONE).0;
        bank.fund(k, 2 * SOLS);
        put_tok(&mut bank, tok_of(&k, 0), native::Tok::new(mints[0], k, 100), tp);
        img.sub_counter = base + g.below(4) as u32;
        for n in base..img.sub_counter {
            let on = g.chance(3, 4);
            let d = state_bytes(&a, n, on);
            bank.put(a.sub2_state(n).0, Acct { lamports: rent_min(d.len()), data: d, owner: ids().swig, executable: false });
        }
        for n in base..=base.saturating_add(3) {
            let k = a.sub2(n).0;
            if n >= img.sub_counter && g.chance(1, 4) {
                // someone paid to where the state will be
                let l = if g.bool() { rent_min(0) + g.below(3) } else { rent_min(72) - 1 + g.below(3) };
                bank.fund(a.sub2_state(n).0, l);
            }
            if n < img.sub_counter || g.bool() {
                let l = if g.bool() { rent_min(0) + g.below(3) } else { g.range(1, 3) * SOLS };
                bank.fund(k, l);
            }
            let t = odd_tok(g, &k, mints[0]);
            put_tok(&mut bank, tok_of(&k, 0), t, tp);
        }
        bank.put(a.swig, Acct { lamports: rent_min(img.enc().len()), data: img.enc(), owner: ids().swig, executable: false });
        bank.fund(a.wallet, 3 * SOLS);
        for (i, m) in mints.iter().enumerate() {
            put_tok(&mut bank, tok_of(&a.wallet, i as u8), native::Tok::new(*m, a.wallet, 50), tp);
        }
        ps.push(Party { a, img, creds });
    }
    let dest_tok = [kk("dest tok 0"), kk("dest tok 1")];
    let near_tok = [kk("near tok 0"), kk("near tok 1")];
    for i in 0..2 {
        let o = twin(g, &ps[i].a.wallet);
        put_tok(&mut bank, near_tok[i], native::Tok::new(mints[0], o, 5), tp);
    }
    for i in 0..2 {
        put_tok(&mut bank, dest_tok[i], native::Tok::new(mints[i], dest, 5), tp);
    }
    let b = ps.pop().unwrap();
    let a = ps.pop().unwrap();
    St { bank, p: [a, b], payer, mints, dest, dest_tok, near_tok, ids: ids_, base }
}
fn lam(b: &mut Bank, k: &Key, d: i128) {
    let mut a = b.get(k);
    a.lamports = (a.lamports as i128 + d) as u64;
    b.put(*k, a);
}
fn amt(b: &mut Bank, k: &Key, d: i64) {
    let mut a = b.get(k);
    let mut t = native::Tok::unpack(&a.data).unwrap();
    t.amount = (t.amount as i64 + d) as u64;
    a.data = t.pack();
    b.put(*k, a);
}
fn top_up(b: &mut Bank, payer: &Key, k: &Key, min: u64) {
    let l = b.lamports(k);
    if l < min {
        lam(b, payer, -((min - l) as i128));
        lam(b, k, (min - l) as i128);
    }
}
/// system transfer in the model: enough there, and what remains is allowed
fn sol_out(b: &mut Bank, from: &Key, to: &Key, n: u64) -> Result<(), &'static str> {
    let l = b.lamports(from);
    if n > l {
        return Err("not enough SOL");
    }
    if l - n != 0 && l - n < rent_min(0) {
        return Err("left below the rent minimum");
    }
    lam(b, from, -(n as i128));
    lam(b, to, n as i128);
    Ok(())
}
/// `lent`: what somebody else lets the sub-account use counts
fn tok_out(b: &mut Bank, from: &Key, to: &Key, owner: &Key, n: u64, lent: bool) -> Result<(), &'static str> {
    let (x, y) = (b.get(from), b.get(to));
    let t = |a: &Acct| if a.owner == ids().token { native::Tok::unpack(&a.data) } else { None };
    let (Some(f), Some(t)) = (t(&x), t(&y)) else { return Err("not a token account") };
    if f.mint != t.mint {
        return Err("another mint");
    }
    let by_delegate = f.owner != *owner && f.delegate == Some(*owner) && lent;
    if f.owner != *owner && !by_delegate {
        return Err("source of somebody else");
    }
    if f.amount < n || by_delegate && f.delegated < n {
        return Err("not enough tokens");
    }
    if by_delegate && from != to {
        let mut a = x.clone();
        let mut f = f.clone();
        f.delegated -= n;
        if f.delegated == 0 {
            f.delegate = None;
        }
        a.data[..165].copy_from_slice(&f.pack());
        b.put(*from, a);
    }
    if from != to {
        amt(b, from, -(n as i64));
        amt(b, to, n as i64);
    }
    Ok(())
}
fn history(g: &mut Gen, cx: &mut Cx, mode: Mode) -> R {
    let mut s = scene(g, mode);
    let (mut yes, mut no) = (0, 0);
    for _ in 0..1 + g.us(8) {
        let (y, n) = step(g, cx, &mut s, mode)?;
        yes += y;
        no += n;
    }
    if yes > 0 && no > 0 {
        cx.hit();
    }
    Ok(())
}
fn step(g: &mut Gen, cx: &mut Cx, s: &mut St, mode: Mode) -> Result<(u32, u32), Fail> {
    let me = if g.chance(4, 5) { 0 } else { 1 };
    let other = s.p[1 - me].a.clone();
    let p = s.p[me].clone();
    let a = p.a.clone();
    let role = if g.chance(15, 16) { *g.pick(&s.ids) } else { 5 };
    let r = p.img.role(role).cloned();
    let cred = p.cred(role);
    let payer = s.payer;
    let has = |t: u16| r.as_ref().map_or(false, |r| r.has(t));
    let mut next = p.img.clone();
    let mut exp = s.bank.clone();
    let v2 = match mode {
        Mode::V1 => false,
        Mode::V2 => true,
        Mode::Out => g.bool(),
    };
    let what = if mode == Mode::Out { 3 } else { g.weighted(&[2, 4, 3, 3]) };
    let mut wrong: Option<&'static str> = None;
    // `replace` swaps one account of the request for another one
    let swap = |c: &mut Call, x: Key, y: Key| {
        for m in c.accts.iter_mut() {
            if m.key == x {
                m.key = y;
            }
        }
    };
    let (call, name, model): (Call, &str, Result<(), &'static str>);
    // whose sub-account: own role's mostly
    let t = if g.chance(2, 3) { role } else if g.chance(4, 5) { *g.pick(&s.ids) } else { GONE };
    let base = s.base;
    let n = base.saturating_add(if g.chance(5, 6) { g.below((p.img.sub_counter - base).max(1) as u64) as u32 } else { g.below(5) as u32 });
    // another number
    let n2 = if n == base { base + 1 } else { base };
    let scoped = |want: u16, n: u32| r.as_ref().map_or(false, |r| r.acts.iter().any(|x| (x.ty == want || x.ty == perm::SUB2_ALL) && x.body[..4] == n.to_le_bytes()));
    let exists = n < p.img.sub_counter;
    let enabled = exists && s.bank.get(&a.sub2_state(n).0).data[3] == 1;
    // the grant of `role` for sub-account `k`
    let grant = |k: &Key| r.as_ref().and_then(|r| r.acts.iter().find(|x| x.ty == perm::SUB && x.body[..32] == *k)).map(|x| x.body[33] == 1);
    match (what, v2) {
        (0, false) => {
            name = "create";
            let (k, b) = a.sub1(role);
            let slot = next.role_mut(role).and_then(|r| r.acts.iter_mut().find(|x| x.ty == perm::SUB && x.body[..32] == [0; 32]));
            let mut m = if let Some(x) = slot {
                *x = mk::sub_full(&k, b, true, role, &a.id);
                Ok(())
            } else {
                Err("no unused grant")
            };
            top_up(&mut exp, &payer, &k, rent_min(0));
            let mut c = create_sub1(&a, &payer, role);
            if g.chance(1, 5) {
                let (y, yb) = if g.bool() { other.sub1(role) } else { a.sub1(if role == 0 { 1 } else { 0 }) };
                swap(&mut c, k, y);
                c.head[8] = yb;
                c.signed[8] = yb;
                m = Err("not this role's address");
            } else if g.chance(1, 6) {
                if let Some((y, yb)) = other_bump(&[b"sub-account", &a.id, &role.to_le_bytes()], b) {
                    swap(&mut c, k, y);
                    c.head[8] = yb;
                    c.signed[8] = yb;
                    m = Err("not the canonical address");
                }
            } else if g.chance(1, 12) {
                c.head[8] ^= 1 << g.below(8);
                c.signed[8] = c.head[8];
                m = Err("not the canonical bump");
            }
            call = c;
            model = m;
        }
        (1, _) => {
            name = "sign";
            let k = if v2 { a.sub2(n).0 } else { a.sub1(t).0 };
            let mut m = if v2 {
                if !scoped(perm::SUB2_SIGN, n) {
                    Err("no right for this number")
                } else if !exists {
                    Err("does not exist")
                } else if !enabled {
                    Err("disabled")
                } else {
                    Ok(())
                }
            } else {
                match grant(&k) {
                    None => Err("no grant"),
                    Some(false) => Err("disabled"),
                    Some(true) => Ok(()),
                }
            };
            let mut inner = vec![];
            for _ in 0..1 + g.us(2) {
                let l = exp.lamports(&k);
                let (ix, e) = match g.weighted(&[6, 4, 1, 1, 1]) {
                    0 => {
                        let room = l.saturating_sub(rent_min(0));
                        let v = near(g, room);
                        (sys_transfer(&k, &s.dest, v), if v > l { Err("not enough SOL") } else { lam(&mut exp, &k, -(v as i128)); lam(&mut exp, &s.dest, v as i128); Ok(()) })
                    }
                    1 => {
                        let f = tok_of(&k, 0);
                        let have = native::Tok::unpack(&exp.get(&f).data).map_or(0, |t| t.amount);
                        let v = near(g, have);
                        (tok_transfer(&ids().token, &f, &s.dest_tok[0], &k, v), tok_out(&mut exp, &f, &s.dest_tok[0], &k, v, true))
                    }
                    2 => (sys_transfer(&a.wallet, &s.dest, 1), Err("not its own SOL")),
                    3 => {
                        let y = if v2 { other.sub2(n).0 } else { other.sub1(t).0 };
                        (sys_transfer(&y, &s.dest, 1), Err("not its own SOL"))
                    }
                    _ => {
                        let y = if v2 { a.sub2(n.wrapping_add(1)).0 } else { a.sub1(if t == 0 { 1 } else { 0 }).0 };
                        (sys_transfer(&y, &s.dest, 0), Err("not its own signature"))
                    }
                };
                let mut ix = ix;
                for x in ix.accts.iter_mut() {
                    // nobody can sign for an address of the program from outside
                    x.s &= x.key == k;
                }
                inner.push(ix);
                if m.is_ok() {
                    m = e;
                }
            }
            if m.is_ok() && exp.lamports(&k) < rent_min(0) {
                m = Err("left below the rent minimum");
            }
            let mut c = if v2 { sign_sub2(&a, role, n, &inner) } else { sign_sub1(&a, role, &k, &inner) };
            if g.chance(1, 6) {
                if v2 {
                    // another number's state or another wallet's
                    let x = a.sub2_state(n).0;
                    let y = match g.below(3) {
                        0 => a.sub2_state(n2).0,
                        1 => other.sub2_state(n).0,
                        _ => a.swig,
                    };
                    swap(&mut c, x, y);
                    wrong = Some("foreign state");
                } else {
                    let y = other.sub1(t).0;
                    swap(&mut c, k, y);
                    wrong = Some("foreign sub-account");
                }
            } else if g.chance(1, 8) {
                // the asset account of another number or wallet
                let y = if v2 { if g.bool() { other.sub2(n).0 } else { a.sub2(n2).0 } } else { a.wallet };
                swap(&mut c, k, y);
                wrong = Some("foreign asset account");
            } else if g.chance(1, 12) {
                // one more instruction announced than there is, or a piece of one
                let at = 16;
                c.head[at] += 1;
                if g.bool() {
                    c.head.push(0);
                    let n = (c.head.len() - at) as u16;
                    c.head[2..4].copy_from_slice(&n.to_le_bytes());
                }
                c.signed = if v2 { c.head.clone() } else { c.head[at..].to_vec() };
                wrong = Some("bundle cut off");
            }
            call = c;
            model = m;
        }
        (2, false) => {
            name = "toggle";
            let auth = role;
            let mut on = g.bool() as u8;
            let k = if g.chance(5, 6) { a.sub1(t).0 } else { other.sub1(t).0 };
            let sloppy = g.chance(1, 12);
            if sloppy {
                on = g.u8();
            }
            let mut m = Ok(());
            if auth != t && !has(perm::ALL) && !has(perm::MANAGE) {
                m = Err("not an administrator");
            }
            match next.role_mut(t).and_then(|r| r.acts.iter_mut().find(|x| x.ty == perm::SUB && x.body[..32] == k)) {
                Some(x) => x.body[33] = on,
                None => m = Err("no grant"),
            }
            if on > 1 {
                m = Err("neither on nor off");
            }
            let mut c = toggle_sub1(&a, &payer, t, auth, &k, on == 1);
            c.head[2] = on;
            c.signed[2] = on;
            call = c;
            model = m;
        }
        (0, true) => {
            name = "create";
            let n = if g.chance(4, 5) { p.img.sub_counter } else { n };
            let mut m = Ok(());
            match next.role_mut(role) {
                Some(r) if r.has(perm::SUB2_CREATE) => {
                    let x = mk::sub2(perm::SUB2_ALL, n);
                    if !r.acts.iter().any(|y| y.ty == x.ty && y.body[..4] == x.body[..4]) {
                        r.acts.push(x);
                    }
                }
                _ => m = Err("no right to create"),
            }
            if n != p.img.sub_counter {
                m = Err("not the next number");
            }
            if p.img.sub_counter == u32::MAX {
                m = Err("no number left");
            }
            next.sub_counter = next.sub_counter.wrapping_add(1);
            let sk = a.sub2_state(n).0;
            top_up(&mut exp, &payer, &sk, rent_min(72));
            top_up(&mut exp, &payer, &a.sub2(n).0, rent_min(0));
            let l = exp.lamports(&sk);
            exp.put(sk, Acct { lamports: l, data: state_bytes(&a, n, true), owner: ids().swig, executable: false });
            top_up(&mut exp, &payer, &a.swig, rent_min(next.enc().len()));
            let mut c = create_sub2(&a, &payer, role, n);
            if g.chance(1, 6) {
                let (x, y) = if g.bool() { (a.sub2(n).0, other.sub2(n).0) } else { (sk, other.sub2_state(n).0) };
                swap(&mut c, x, y);
                wrong = Some("foreign address");
            } else if g.chance(1, 5) {
                let (tag, x, at): (&[u8], _, _) = if g.bool() { (b"sub-account-v2-state", a.sub2_state(n), 8) } else { (b"sub-account-v2", a.sub2(n), 9) };
                if let Some((y, yb)) = other_bump(&[tag, &a.id, &n.to_le_bytes()], x.1) {
                    swap(&mut c, x.0, y);
                    c.head[at] = yb;
                    c.signed[at] = yb;
                    wrong = Some("not the canonical address");
                }
            }
            call = c;
            model = m;
        }
        (2, true) => {
            name = "toggle";
            let on = if g.chance(1, 10) { g.u8() } else { g.bool() as u8 };
            let sk = a.sub2_state(n).0;
            let m = if !scoped(perm::SUB2_TOGGLE, n) {
                Err("no right for this number")
            } else if !exists {
                Err("does not exist")
            } else if on > 1 {
                Err("neither on nor off")
            } else {
                let mut x = exp.get(&sk);
                x.data[3] = (on == 1) as u8;
                exp.put(sk, x);
                Ok(())
            };
            let mut c = toggle_sub2(&a, &payer, role, n, on == 1);
            c.head[2] = on;
            c.signed[2] = on;
            if g.chance(1, 6) {
                let y = match g.below(3) {
                    0 => a.sub2_state(n2).0,
                    1 => other.sub2_state(n).0,
                    _ => a.swig,
                };
                swap(&mut c, sk, y);
                wrong = Some("foreign state");
            }
            call = c;
            model = m;
        }
        (_, _) => {
            name = "withdraw";
            let k = if v2 { a.sub2(n).0 } else { a.sub1(t).0 };
            let mut m = if v2 {
                if !scoped(perm::SUB2_WITHDRAW, n) {
                    Err("no right for this number")
                } else if !exists {
                    Err("does not exist")
                } else if !enabled {
                    Err("disabled")
                } else {
                    Ok(())
                }
            } else {
                match grant(&k) {
                    Some(true) => Ok(()),
                    Some(false) => Err("disabled"),
                    None if has(perm::ALL) => Ok(()),
                    None if has(perm::MANAGE) && t != role => Err("of another role"),
                    None if has(perm::MANAGE) => Ok(()),
                    None => Err("no grant"),
                }
            };
            let toks = g.bool();
            let v;
            let mut c;
            if toks {
                let f = match g.weighted(&[8, 1, 1]) {
                    0 => tok_of(&k, 0),
                    1 => s.dest_tok[0],
                    _ => tok_of(&a.wallet, 0),
                };
                let to = match g.weighted(&[8, 1, 1, 1, 1, 1]) {
                    0 => tok_of(&a.wallet, 0),
                    1 => tok_of(&a.wallet, 1),
                    2 => tok_of(&other.wallet, 0),
                    3 => s.dest_tok[0],
                    4 => s.near_tok[me],
                    _ => tok_of(&k, 0),
                };
                let have = native::Tok::unpack(&exp.get(&f).data).map_or(0, |t| t.amount);
                v = near(g, have);
                if m.is_ok() {
                    m = if native::Tok::unpack(&exp.get(&to).data).map_or(true, |x| x.owner != a.wallet) { Err("not a token account of the wallet") } else { tok_out(&mut exp, &f, &to, &k, v, !v2) };
                }
                let mut tp = Some((f, to, ids().token));
                if g.chance(1, 10) {
                    // accounts laid out like token accounts, of a program that accepts anything
                    let (lf, lt) = (kk("lookalike source"), kk("lookalike destination"));
                    let (pf, pt) = *g.pick(&[(NOOP1, NOOP1), (NOOP1, NOOP1), (NOOP1, ids().token), (ids().token, NOOP1), (ids().token22, ids().token)]);
                    for b in [&mut s.bank, &mut exp] {
                        for (x, o, p) in [(lf, k, pf), (lt, a.wallet, pt)] {
                            b.put(x, Acct { lamports: rent_min(165), data: native::Tok::new(s.mints[0], o, 1000).pack(), owner: p, executable: false });
                        }
                    }
                    tp = Some((lf, lt, *g.pick(&[pf, pf, pt, NOOP1, ids().token])));
                    m = Err("not accounts of one token program");
                }
                c = if v2 { withdraw_sub2(&a, &payer, role, n, v, tp) } else { withdraw_sub1(&a, &payer, role, &k, v, tp) };
                if !v2 && g.chance(1, 8) {
                    // accounts nobody asked for (the numbered ones refuse them)
                    for i in 0..1 + g.below(20) {
                        c.accts.push(super::common::r(if g.bool() { kn("filler", i) } else { s.dest_tok[0] }));
                    }
                }
            } else {
                let l = exp.lamports(&k);
                v = if g.bool() { near(g, l) } else { near(g, l.saturating_sub(rent_min(0))) };
                if m.is_ok() {
                    m = sol_out(&mut exp, &k, &a.wallet, v);
                }
                c = if v2 { withdraw_sub2(&a, &payer, role, n, v, None) } else { withdraw_sub1(&a, &payer, role, &k, v, None) };
            }
            if g.chance(1, 5) {
                let sk = a.sub2_state(n).0;
                let (x, y) = match g.below(4) {
                    0 => (a.wallet, s.dest),
                    1 => (a.wallet, other.wallet),
                    2 => (k, if v2 { other.sub2(n).0 } else { other.sub1(t).0 }),
                    _ if v2 => (sk, if g.bool() { other.sub2_state(n).0 } else { a.sub2_state(n2).0 }),
                    _ => (a.wallet, a.swig),
                };
                swap(&mut c, x, y);
                wrong = Some("foreign account");
            }
            call = c;
            model = m;
        }
    }
    let mut model = model;
    if r.is_none() {
        model = Err("no such role");
    }
    if let Some(x) = wrong {
        model = Err(x);
    }
    if model.is_ok() {
        count(&mut next, role, &cred, false);
        let d = next.enc();
        let mut x = exp.get(&a.swig);
        x.data = d;
        exp.put(a.swig, x);
    }
    let before = s.bank.clone();
    let sg = sign_of(&s.bank, &a.swig, role);
    let sealed = seal(&mut s.bank, &call, &cred, &sg);
    let o = s.bank.tx(&sealed.ixs, &sealed.signers);
    let full = format!("{} v{}", name, 1 + v2 as u8);
    cx.note(|| format!("{full} wallet {me} role {role} ({}) about {}: {} expected {model:?}", cred.name(), if v2 { n } else { t }, o.err()));
    match model {
        Err(why) => {
            ensure!(!o.ok(), format!("accepted/{full}/{why}"), "{full} by role {role} ({}) [{}] about {} was accepted although: {why}: {}", cred.name(), r.map(|r| acts_str(&r.acts)).unwrap_or_default(), if v2 { n } else { t }, diff(&before, &s.bank));
            ensure!(before.accts == s.bank.accts, format!("refused/{full}"), "a refused request changed something: {}", diff(&before, &s.bank));
            cx.label(why);
            Ok((0, 1))
        }
        Ok(()) => {
            ensure!(o.ok(), format!("refused/{full}"), "{full} by role {role} ({}) [{}] about {} was refused: {}", cred.name(), r.map(|r| acts_str(&r.acts)).unwrap_or_default(), if v2 { n } else { t }, o.err());
            ensure!(s.bank.accts == exp.accts || diff(&exp, &s.bank).is_empty(), format!("effect/{full}"), "{full}: real outcome against the expected one: {}", diff(&exp, &s.bank));
            s.p[me].img = next;
            cx.label(&full);
            Ok((1, 0))
        }
    }
}
