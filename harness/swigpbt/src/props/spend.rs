//! What a role with limited rights can do with the wallet's signature:
//! how much leaves (P20), what cannot be taken over (P21), which programs
//! see the signature (P22). Bundles of system, token, stake and third-party
//! instructions are run through the program and, instruction by instruction,
//! without it; the difference between the two is the program's own doing.
use super::authvm::diff;
use super::common::*;
use super::party::*;
use super::roles::count;
use std::collections::BTreeMap;

pub fn p20() -> Prop {
    Prop {
        id: "P20",
        rule: "a bundle that moved value was accepted and one was refused for exceeding an allowance",
        assumptions: &[
            "system, token and stake programs behave as modelled in the harness",
            "recurring windows are at least one slot; no role watches an account its balance field does not fit in",
        ],
        quick: 60_000,
        thorough: 600_000,
        fixed: None,
        run: |g, cx| history(g, cx, 20),
    }
}
pub fn p21() -> Prop {
    Prop {
        id: "P21",
        rule: "a bundle was accepted and a takeover attempt was refused",
        assumptions: &["system, token and stake programs behave as modelled in the harness"],
        quick: 60_000,
        thorough: 600_000,
        fixed: None,
        run: |g, cx| history(g, cx, 21),
    }
}
pub fn p22() -> Prop {
    Prop {
        id: "P22",
        rule: "the wallet's signature reached a permitted program and was kept from another one",
        assumptions: &["a program the role may use is trusted with what it does with the signature"],
        quick: 60_000,
        thorough: 600_000,
        fixed: None,
        run: |g, cx| history(g, cx, 22),
    }
}

// ------------------------------------------------------------------- scene
struct Place {
    p: Party,
    wallet: Key,
    mints: [Key; 3],
    /// the wallet's token accounts: two of mint 0, one of mint 1, a wrapped
    /// SOL one (mint 2), one of mint 0 under the other token program
    toks: [Key; 5],
    /// somebody else's, one for each of the above
    theirs: [Key; 5],
    /// delegated, not delegated, empty, somebody else's
    stakes: [Key; 4],
    /// accounts of a third-party program whose balances roles may watch
    watched: [Key; 2],
    dests: [Key; 2],
    thief: Key,
    fresh: Key,
    other: Addr,
}
fn tok_program(i: usize) -> Key {
    if i == 4 {
        ids().token22
    } else {
        ids().token
    }
}
fn mint_of(i: usize) -> usize {
    [0, 0, 1, 2, 0][i]
}
impl Place {
    fn new(g: &mut Gen, bank: &mut Bank, mode: u8) -> Place {
        let tag = g.below(2);
        let p = Party::new("spend", tag);
        let k = |s: &str, n: u64| kn(&format!("sp-{s}"), n);
        let mut s = Place {
            wallet: p.a.wallet,
            mints: [k("mint", 0), k("mint", 1), b58("So11111111111111111111111111111111111111112")],
            toks: [0, 1, 2, 3, 4].map(|i| k("tok", i)),
            theirs: [0, 1, 2, 3, 4].map(|i| k("their", i)),
            stakes: [0, 1, 2, 3].map(|i| k("stake", i)),
            watched: [0, 1].map(|i| k("watched", i)),
            dests: [0, 1].map(|i| k("dest", i)),
            thief: kk("thief"),
            fresh: k("fresh", 0),
            other: Addr::new(kn("spend", 2)),
            p,
        };
        // addresses that are almost the same
        if g.chance(1, 4) {
            let k = s.mints[if g.bool() { 0 } else { 2 }];
            s.mints[1] = twin(g, &k);
        }
        if g.chance(1, 4) {
            s.dests[1] = twin(g, &s.dests[0]);
        }
        if g.chance(1, 4) {
            s.theirs[1] = twin(g, &s.theirs[0]);
        }
        if g.chance(1, 4) {
            s.watched[1] = twin(g, &s.watched[0]);
        }
        let s = s;
        bank.fund(s.thief, 100 * SOLS);
        bank.fund(s.dests[0], SOLS);
        bank.fund(s.dests[1], SOLS);
        let l = *g.pick(&[0u64, 1, 1000, 5 * SOLS]) + rent_min(0);
        bank.fund(s.wallet, l);
        bank.fund(s.other.wallet, 5 * SOLS);
        let mut oimg = SwigImg::new(s.other.id, s.other.bump, s.other.wallet_bump);
        oimg.push(1, kn("ed", 0).to_vec(), vec![mk::all()]);
        let od = oimg.enc();
        bank.put(s.other.swig, Acct { lamports: rent_min(od.len()), data: od, owner: ids().swig, executable: false });
        for i in 0..5 {
            let m = s.mints[mint_of(i)];
            let mut t = native::Tok::new(m, s.wallet, *g.pick(&[0u64, 1, 500, 1000, 1 << 40]));
            let mut u = native::Tok::new(m, s.thief, *g.pick(&[0u64, 700]));
            if i == 3 {
                t.native = Some(rent_min(165));
                u.native = Some(rent_min(165));
            }
            if g.chance(1, 8) {
                // a delegate or closer from before
                if g.bool() {
                    t.delegate = Some(if g.bool() { s.thief } else { s.wallet });
                    t.delegated = g.below(2000);
                } else {
                    t.close = Some(if g.bool() { s.thief } else { s.wallet });
                }
            }
            put_tok(bank, s.toks[i], &t, tok_program(i));
            put_tok(bank, s.theirs[i], &u, tok_program(i));
            if i == 4 && g.bool() {
                // with extensions (the immutable owner one)
                for k in [s.toks[i], s.theirs[i]] {
                    let mut a = bank.get(&k);
                    a.data.extend([2, 7, 0, 0, 0]);
                    a.lamports += rent_min(a.data.len()) - rent_min(165);
                    bank.put(k, a);
                }
            }
        }
        for i in 0..4 {
            let owner = if i == 3 { s.thief } else { s.wallet };
            let amount = 1_000_000 + g.below(1000);
            let st = native::Stk {
                state: [2, 1, 0, 1][i],
                reserve: rent_min(200),
                staker: if i == 1 && g.chance(1, 3) { s.thief } else { owner },
                withdrawer: owner,
                voter: if i == 0 { kk("vote") } else { [0; 32] },
                stake: if i == 0 { amount } else { 0 },
                activation: 0,
                deactivation: if i == 0 && g.chance(1, 3) { 0 } else { u64::MAX },
            };
            let data = if i == 2 { vec![0; native::STAKE_LEN] } else { st.pack() };
            let extra = if i == 2 { 0 } else { amount + g.below(2) * 500 };
            bank.put(s.stakes[i], Acct { lamports: rent_min(200) + extra, data, owner: ids().stake, executable: false });
        }
        for i in 0..2 {
            let mut d = vec![0u8; 64];
            for j in 0..8 {
                let x = 1000 * (j as u64 + 1) * if g.bool() { 1 } else { 1 << 20 };
                d[8 * j..8 * j + 8].copy_from_slice(&x.to_le_bytes());
            }
            bank.put(s.watched[i], Acct { lamports: rent_min(64) + SOLS, data: d, owner: PUPPET, executable: false });
        }
        let _ = mode;
        s
    }
}
const FIELDS: [(u64, u64); 5] = [(3, 1), (2, 1), (1, 0), (0, 2), (1, 0)];
/// a balance field of a watched account: (width code, start, end)
fn field(g: &mut Gen) -> (u64, u64, u64) {
    let i = g.us(5);
    let w = [1u64, 4, 8, 16][FIELDS[i].0 as usize];
    let s = [16, 8, 8, 32, 40][i] as u64;
    (FIELDS[i].0, s, s + w)
}
fn small(g: &mut Gen) -> u64 {
    match g.below(5) {
        0 => g.below(4),
        1 => u64::MAX - g.below(3),
        2 => 1 << 40,
        _ => 100 * g.below(20),
    }
}
fn limited_acts(g: &mut Gen, s: &Place, mode: u8) -> Vec<Act> {
    use perm::*;
    let mut v: Vec<Act> = vec![];
    let w = |g: &mut Gen| 1 + g.below(30);
    // programs
    if mode == 22 {
        match g.below(6) {
            0 => v.push(mk::flag(PROGRAM_ALL)),
            1 => v.push(mk::curated()),
            _ => {}
        }
        for k in [SYSTEM, ids().token, ids().token22, ids().stake, PUPPET, NOOP1, NOOP2, NOOP3] {
            if g.chance(1, 4) {
                v.push(mk::program(&k));
            }
        }
    } else {
        match g.below(4) {
            0 => v.push(mk::flag(PROGRAM_ALL)),
            1 => {
                v.push(mk::curated());
                v.push(mk::program(&PUPPET));
            }
            _ => {
                for k in [SYSTEM, ids().token, ids().token22, ids().stake, PUPPET] {
                    if g.chance(5, 6) {
                        v.push(mk::program(&k));
                    }
                }
            }
        }
    }
    if g.chance(1, 6) {
        let k = *g.pick(&[SYSTEM, ids().token, PUPPET, NOOP1]);
        v.push(mk::program(&twin(g, &k)));
    }
    let rich = mode != 20;
    let amount = |g: &mut Gen| if rich && g.chance(3, 4) { 1 << 50 } else { small(g) };
    // SOL
    if g.chance(if rich { 4 } else { 2 }, 5) {
        let x = amount(g);
        v.push(mk::sol(x));
    }
    if g.chance(1, 4) {
        let (x, w) = (amount(g), w(g));
        let c = if g.bool() { x } else { small(g).min(x) };
        v.push(mk::sol_rec(x, w, 0, c));
    }
    if g.chance(1, 3) {
        for d in [s.dests[0], s.dests[1], s.thief, s.wallet, s.toks[3], s.other.wallet, s.fresh] {
            if g.chance(1, 3) {
                let x = amount(g);
                v.push(mk::sol_dest(&d, x));
            }
            if g.chance(1, 5) {
                let (x, w) = (amount(g), w(g));
                let c = if g.bool() { x } else { small(g).min(x) };
                v.push(mk::sol_rec_dest(&d, x, w, 0, c));
            }
        }
    }
    // tokens
    for m in 0..3 {
        if g.chance(1, 2) {
            let x = amount(g);
            v.push(mk::token(&s.mints[m], x));
        }
        if g.chance(1, 5) {
            let (x, w) = (amount(g), w(g));
            let c = if g.bool() { x } else { small(g).min(x) };
            v.push(mk::token_rec(&s.mints[m], w, x, c, 0));
        }
        if g.chance(1, 4) {
            for i in 0..5 {
                if mint_of(i) == m || g.chance(1, 8) {
                    for k in [s.toks[i], s.theirs[i]] {
                        if g.chance(1, 3) {
                            let x = amount(g);
                            v.push(mk::token_dest(&s.mints[m], &k, x));
                        }
                        if g.chance(1, 5) {
                            let (x, w) = (amount(g), w(g));
                            let c = if g.bool() { x } else { small(g).min(x) };
                            v.push(mk::token_rec_dest(&s.mints[m], &k, x, w, 0, c));
                        }
                    }
                }
            }
        }
    }
    // stake
    match g.below(6) {
        0 => v.push(mk::flag(STAKE_ALL)),
        1 | 2 => {
            let x = amount(g);
            v.push(mk::stake(x));
        }
        3 => {
            let (x, w) = (amount(g), w(g));
            v.push(mk::stake_rec(x, w, 0, x));
        }
        _ => {}
    }
    if g.chance(1, if mode == 21 { 2 } else { 4 }) {
        v.push(mk::flag(CLOSE));
    }
    for t in [MANAGE, SUB2_CREATE] {
        if g.chance(1, 10) {
            v.push(mk::flag(t));
        }
    }
    // watched balances
    for k in s.watched {
        if g.chance(1, 2) {
            let (n, st, e) = field(g);
            let kind = g.below(3);
            let l = if g.chance(1, 6) { u128::MAX } else { amount(g) as u128 };
            let w = w(g);
            let cur = if kind == 0 || g.bool() { 0 } else { (small(g) as u128).min(l) };
            v.push(mk::scope(cur, l, w, 0, &PUPPET, &k, kind, n, st, e));
        }
    }
    if v.is_empty() {
        v.push(mk::curated());
    }
    g.shuffle(&mut v);
    v
}
/// Balance scopes are used where their 16-byte numbers are aligned (natively
/// that is required; on chain it is not).
fn align(p: &mut Party) {
    let mut off = HEADER;
    for r in p.img.roles.iter_mut() {
        off += 16 + r.auth.len();
        let mut at = off;
        let mut i = 0;
        while i < r.acts.len() {
            if r.acts[i].ty == perm::SCOPE && (at + 8) % 16 != 0 {
                // 8 or 24 more bytes in front: something of odd size from
                // behind, else a permission that is not about this
                let j = (i + 1..r.acts.len()).find(|j| r.acts[*j].ty != perm::SCOPE && (8 + r.acts[*j].body.len()) % 16 == 8);
                let x = match j {
                    Some(j) => r.acts.remove(j),
                    None if !r.acts.iter().any(|a| a.ty == perm::SUB2_CREATE) => mk::flag(perm::SUB2_CREATE),
                    None => {
                        r.acts.remove(i);
                        continue;
                    }
                };
                r.acts.insert(i, x);
            }
            at += 8 + r.acts[i].body.len();
            i += 1;
        }
        off = at;
    }
}

// ----------------------------------------------------------------- bundles
/// what the role may still spend, and other amounts worth trying
fn hints(p: &Party, role: u32, bank: &Bank, s: &Place) -> Vec<u64> {
    use perm::*;
    let mut v = vec![1, bank.lamports(&s.wallet) - rent_min(0).min(bank.lamports(&s.wallet))];
    if let Some(r) = p.img.role(role) {
        for a in &r.acts {
            let n = a.body.len();
            let u = |o: usize| u64::from_le_bytes(a.body[o..o + 8].try_into().unwrap());
            match a.ty {
                SOL | TOKEN | STAKE | SOL_DEST | TOKEN_DEST => v.push(u(n - 8)),
                SOL_REC | STAKE_REC | SOL_REC_DEST | TOKEN_REC_DEST => v.extend([u(n - 8), u(n - 32)]),
                TOKEN_REC => v.extend([u(n - 16), u(n - 24)]),
                _ => {}
            }
        }
    }
    v
}
fn amount(g: &mut Gen, hints: &[u64], have: u64) -> u64 {
    let x = match g.below(5) {
        0 => *g.pick(hints),
        1 => have,
        2 => 1 + g.below(1000),
        3 => *g.pick(hints) / 2,
        _ => *g.pick(hints),
    };
    let x = match g.below(8) {
        0 => x.saturating_add(1),
        1 => x.saturating_sub(1),
        _ => x,
    };
    if g.chance(3, 4) {
        x.min(have)
    } else {
        x
    }
}
/// Puts instructions inside one call to a third-party program.
pub fn wrapped(ixs: &[Ix], more: Vec<native::Op>, extra: &[AM]) -> Ix {
    let mut accts: Vec<AM> = extra.to_vec();
    let mut ops = more;
    for ix in ixs {
        let mut idx = |k: &Key, s: bool, wr: bool| -> u8 {
            if let Some(i) = accts.iter().position(|a| a.key == *k) {
                accts[i].s |= s;
                accts[i].w |= wr;
                return i as u8;
            }
            accts.push(AM { key: *k, s, w: wr });
            (accts.len() - 1) as u8
        };
        let p = idx(&ix.program, false, false);
        let a = ix.accts.iter().map(|a| (idx(&a.key, a.s, a.w), a.s, a.w)).collect();
        ops.push(native::Op::Cpi { program: p, accts: a, data: ix.data.clone() });
    }
    Ix { program: PUPPET, accts, data: native::script(&ops) }
}
fn create_account(from: &Key, new: &Key, l: u64, space: u64, owner: &Key) -> Ix {
    let mut d = vec![0, 0, 0, 0];
    d.extend(l.to_le_bytes());
    d.extend(space.to_le_bytes());
    d.extend(owner);
    Ix { program: SYSTEM, accts: vec![ws(*from), ws(*new)], data: d }
}
/// A third-party program's instruction that looks like a system or token one.
fn disguised(g: &mut Gen, s: &Place, bank: &Bank, h: &[u64], inner: &[Ix]) -> Ix {
    let wa = s.wallet;
    let i = g.us(5);
    let tp = tok_program(i);
    let sw = AM { key: wa, s: true, w: true };
    let (kind, accts, usual) = match g.below(3) {
        0 => (0, vec![sw, w(*g.pick(&s.dests))], sys_transfer(&wa, &s.thief, amount(g, h, bank.lamports(&wa).saturating_sub(rent_min(0))))),
        1 => {
            let have = native::Tok::unpack(&bank.get(&s.toks[i]).data).map_or(0, |t| t.amount);
            let real = tok_transfer(&tp, &s.toks[i], &s.theirs[i], &wa, amount(g, h, have));
            (1, vec![w(s.toks[i]), r(s.mints[mint_of(i)]), w(*g.pick(&s.theirs)), rs(wa)], real)
        }
        _ => (2, vec![w(s.toks[i]), sw, rs(wa)], tok_close(&tp, &s.toks[i], if g.bool() { &s.thief } else { &wa }, &wa)),
    };
    let mut real = inner.to_vec();
    if kind == 2 && g.bool() {
        let have = native::Tok::unpack(&bank.get(&s.toks[i]).data).map_or(0, |t| t.amount);
        real.push(tok_transfer(&tp, &s.toks[i], &s.theirs[i], &wa, have));
    }
    if g.chance(4, 5) {
        real.push(usual.clone());
    }
    let mut ix = wrapped(&real, vec![], &accts);
    let (head, n) = native::DISGUISES[kind];
    let mut d = head.to_vec();
    let like = if usual.program == SYSTEM { num(&usual.data, 4, 12) } else { num(&usual.data, 1, 9.min(usual.data.len())) } as u64;
    d.extend(if g.bool() { like } else { amount(g, h, 1000) }.to_le_bytes());
    d.push(6);
    d.resize(n, 0);
    d.truncate(n);
    d.extend(ix.data);
    ix.data = d;
    ix
}
fn step(g: &mut Gen, s: &Place, bank: &Bank, h: &[u64], mode: u8, depth: u8) -> Ix {
    let wa = s.wallet;
    let i = g.us(5);
    let tp = tok_program(i);
    let bal = |k: &Key| native::Tok::unpack(&bank.get(k).data).map_or(0, |t| t.amount);
    let weights: &[u64] = match mode {
        //     sol refund create take tok tokin tokx stake stakex pup noop
        20 => &[10, 2, 1, 1, 10, 2, 3, 4, 2, 6, 0],
        21 => &[3, 1, 2, 5, 4, 2, 10, 3, 5, 4, 0],
        _ => &[3, 1, 1, 0, 3, 1, 1, 1, 1, 6, 5],
    };
    match g.weighted(weights) {
        0 => {
            let to = *g.pick(&[s.dests[0], s.dests[1], s.thief, s.thief, s.dests[0], wa, s.toks[3], s.other.wallet]);
            let keep = if g.bool() { rent_min(0) } else { 0 };
            let x = amount(g, h, bank.lamports(&wa).saturating_sub(keep));
            sys_transfer(&wa, &to, x)
        }
        1 => {
            let x = amount(g, h, SOLS);
            sys_transfer(&s.thief, &wa, x)
        }
        2 => {
            let n = *g.pick(&[0u64, 0, 10, 165]);
            let from = if g.chance(3, 4) { wa } else { s.thief };
            create_account(&from, &s.fresh, rent_min(n as usize) + g.below(2), n, g.pick(&[SYSTEM, ids().token, PUPPET]))
        }
        3 => match g.below(3) {
            0 => sys_assign(&wa, g.pick(&[PUPPET, SYSTEM, ids().swig, ids().token])),
            1 => sys_allocate(&wa, *g.pick(&[0u64, 1, 8, 165, 200])),
            _ => wrapped(&[sys_assign(&wa, &PUPPET)], vec![], &[]),
        },
        4 => {
            let src = s.toks[i];
            let j = *g.pick(&[0usize, 1, 4]);
            let dst = match g.below(6) {
                0 => src,
                1 if i < 2 => s.toks[1 - i],
                2 => s.theirs[if i < 2 && j < 2 { j } else { i }],
                _ => s.theirs[i],
            };
            let x = amount(g, h, bal(&src));
            if g.bool() {
                tok_transfer(&tp, &src, &dst, &wa, x)
            } else {
                tok_transfer_checked(&tp, &src, &s.mints[mint_of(i)], &dst, &wa, x)
            }
        }
        5 => {
            // tokens come in, or the other side uses an old delegation
            let x = amount(g, h, bal(&s.theirs[i]));
            if g.chance(1, 4) {
                tok_transfer(&tp, &s.toks[i], &s.theirs[i], &s.thief, x)
            } else {
                tok_transfer(&tp, &s.theirs[i], &s.toks[i], &s.thief, x)
            }
        }
        6 => {
            let k = s.toks[i];
            match g.below(6) {
                0 => {
                    let x = amount(g, h, bal(&k));
                    tok_burn(&tp, &k, &s.mints[mint_of(i)], &wa, x)
                }
                1 => tok_approve(&tp, &k, g.pick(&[s.thief, s.dests[0], wa]), &wa, small(g)),
                2 => {
                    let kind = *g.pick(&[2u8, 3]);
                    let new = *g.pick(&[s.thief, wa, s.other.wallet]);
                    tok_set_auth(&tp, &k, &wa, kind, if kind == 3 && g.chance(1, 3) { None } else { Some(&new) })
                }
                3 => Ix { program: tp, accts: vec![w(k), rs(wa)], data: vec![5] },
                _ => tok_close(&tp, &k, g.pick(&[wa, s.thief, s.dests[0]]), if g.chance(5, 6) { &wa } else { &s.thief }),
            }
        }
        7 => {
            let k = s.stakes[g.us(2)];
            let a = bank.get(&k);
            let top = if g.bool() { a.lamports } else { a.lamports.saturating_sub(rent_min(200)) };
            let x = amount(g, h, top);
            if g.chance(1, 6) {
                // what is not staked and part of what is, in one go
                let idle = a.lamports.saturating_sub(rent_min(200) + native::Stk::unpack(&a.data).map_or(0, |t| t.stake));
                return wrapped(&[stake_withdraw(&k, &s.thief, &wa, idle.max(1)), stake_split(&k, &s.stakes[2], &wa, x)], vec![], &[]);
            }
            if g.chance(2, 3) {
                stake_withdraw(&k, g.pick(&[s.thief, wa, s.dests[0]]), &wa, x)
            } else {
                stake_split(&k, g.pick(&[s.stakes[2], s.stakes[3]]), &wa, x)
            }
        }
        8 => {
            let k = s.stakes[g.us(2)];
            match g.below(4) {
                0 => stake_authorize(&k, &wa, g.pick(&[s.thief, s.other.wallet, wa]), g.below(2) as u32),
                1 => stake_delegate(&k, &kk("vote2"), &wa),
                2 => stake_deactivate(&k, &wa),
                _ => sys_transfer(&wa, &k, 1 + g.below(1000)),
            }
        }
        9 => {
            // a third-party program: its own accounts, and calls on the wallet's behalf
            let k = *g.pick(&s.watched);
            let mut ops = vec![];
            if g.chance(2, 3) {
                let o = 8 * g.below(8) as u16;
                let d = bank.get(&k).data;
                let x = u64::from_le_bytes(d[o as usize..o as usize + 8].try_into().unwrap());
                let y = match g.below(4) {
                    0 => x.saturating_sub(amount(g, h, x)),
                    1 => x.saturating_sub(g.below(300)),
                    2 => x.wrapping_add(g.below(300)),
                    _ => 0,
                };
                ops.push(native::Op::Write { acct: 0, off: o, data: y.to_le_bytes().to_vec() });
            }
            if g.chance(1, 4) {
                ops.push(native::Op::Move { from: 0, to: 1, lamports: g.below(1000) });
            }
            let mut inner = vec![];
            if depth < 1 {
                for _ in 0..g.us(3) {
                    inner.push(step(g, s, bank, h, mode, depth + 1));
                }
            }
            if g.chance(1, 6) {
                return disguised(g, s, bank, h, &inner);
            }
            let second = if g.bool() { wa } else { s.dests[0] };
            wrapped(&inner, ops, &[w(k), AM { key: second, s: second == wa, w: true }])
        }
        _ => Ix { program: *g.pick(&[NOOP1, NOOP2, NOOP3, PUPPET, ids().memo]), accts: vec![if g.chance(3, 4) { rs(wa) } else { r(s.other.wallet) }], data: vec![] },
    }
}

// ------------------------------------------------------------------- model
fn find(acts: &[Act], ty: u16, m: &[u8]) -> Option<usize> {
    acts.iter().position(|a| a.ty == ty && match_range(ty).map_or(true, |(o, l)| a.body[o..o + l.min(m.len())] == m[..l.min(m.len())]))
}
/// one spend against one allowance
fn charge(a: &mut Act, x: u128, slot: u64) -> bool {
    use perm::*;
    let n = a.body.len();
    let u = |b: &[u8], o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    match a.ty {
        SOL | TOKEN | STAKE | SOL_DEST | TOKEN_DEST => {
            let left = u(&a.body, n - 8) as u128;
            if x > left {
                return false;
            }
            a.body[n - 8..].copy_from_slice(&((left - x) as u64).to_le_bytes());
            true
        }
        SOL_REC | STAKE_REC | SOL_REC_DEST | TOKEN_REC_DEST | TOKEN_REC => {
            let o = n - 32;
            let q = [u(&a.body, o), u(&a.body, o + 8), u(&a.body, o + 16), u(&a.body, o + 24)];
            let (amount, window, mut last, mut cur) = if a.ty == TOKEN_REC { (q[1], q[0], q[3], q[2]) } else { (q[0], q[1], q[2], q[3]) };
            let due = slot > last && slot - last > window;
            if due && x <= amount as u128 {
                cur = amount - x as u64;
                last = if matches!(a.ty, SOL_REC_DEST | TOKEN_REC_DEST) { slot } else { slot / window * window };
            } else if x <= cur as u128 {
                cur -= x as u64;
            } else {
                return false;
            }
            let q = if a.ty == TOKEN_REC { [window, amount, cur, last] } else { [amount, window, last, cur] };
            a.body[o..].copy_from_slice(&u64v(&q));
            true
        }
        SCOPE => {
            let w = |b: &[u8], o: usize| u128::from_le_bytes(b[o..o + 16].try_into().unwrap());
            let (mut cur, limit) = (w(&a.body, 0), w(&a.body, 16));
            let (window, mut last) = (u(&a.body, 32), u(&a.body, 40));
            match u(&a.body, 112) {
                0 => return true,
                1 => {}
                _ => {
                    if slot > last && slot - last > window {
                        cur = 0;
                        last = slot / window * window;
                    }
                }
            }
            if x > limit - cur.min(limit) {
                return false;
            }
            cur += x;
            a.body[..16].copy_from_slice(&cur.to_le_bytes());
            a.body[40..48].copy_from_slice(&last.to_le_bytes());
            true
        }
        _ => unreachable!(),
    }
}
fn num(d: &[u8], s: usize, e: usize) -> u128 {
    d[s..e].iter().rev().fold(0, |v, b| v << 8 | *b as u128)
}
enum Judge {
    Yes(Vec<Act>),
    No(&'static str),
    /// either is fine as long as the invariants hold
    Either,
}
type Accts = BTreeMap<Key, Acct>;
fn lam_of(m: &Accts, k: &Key) -> u64 {
    m.get(k).map_or(0, |a| a.lamports)
}
fn is_token(o: &Key) -> bool {
    *o == ids().token || *o == ids().token22
}
/// everything about a token account but its balance
fn tok_fixed(a: &Acct) -> (Key, Vec<u8>, Vec<u8>) {
    (a.owner, a.data[..64].to_vec(), a.data[72..].to_vec())
}
fn may_use(acts: &[Act], p: &Key) -> bool {
    let curated = [SYSTEM, ids().token, ids().token22, ids().stake];
    acts.iter().any(|a| a.ty == perm::PROGRAM_ALL || a.ty == perm::CURATED && curated.contains(p) || a.ty == perm::PROGRAM && a.body == p[..])
}
/// `listed`: the request's accounts with the privileges they have; `states`:
/// the accounts before the bundle and after each of its instructions.
fn judge(s: &Place, role: u32, inner: &[Ix], listed: &[AM], before: &Bank, direct: &TxOut, after: &Bank, slot: u64) -> Judge {
    use perm::*;
    let Some(r) = s.p.img.role(role) else { return Judge::No("no such role") };
    if r.has(ALL) || r.has(ALL_BUT) {
        return if direct.ok() {
            Judge::Yes(r.acts.clone())
        } else if direct.steps.iter().any(|m| m.get(&s.wallet).map_or(false, |a| a.owner != SYSTEM)) {
            // the wallet address was given to another program, so the swig
            // program moves its lamports itself
            Judge::Either
        } else { Judge::No("an instruction fails") };
    }
    let mut acts = r.acts.clone();
    let wa = s.wallet;
    for ix in inner {
        if ix.accts.iter().any(|a| a.key == wa) && !may_use(&acts, &ix.program) {
            return Judge::No("program not permitted");
        }
    }
    if !direct.ok() {
        return Judge::No("an instruction fails");
    }
    let mut states: Vec<Accts> = vec![before.accts.clone()];
    for x in &direct.steps {
        // the steps hold the accounts the instructions name
        let mut m = before.accts.clone();
        m.extend(x.iter().map(|(k, a)| (*k, a.clone())));
        states.push(m);
    }
    let states: Vec<&Accts> = states.iter().collect();
    let n = states.len();
    let mut keys: Vec<Key> = vec![];
    for a in &listed[2..] {
        if !keys.contains(&a.key) {
            keys.push(a.key);
        }
    }
    let wallet_after = after.get(&wa);
    if wallet_after.lamports < rent_min(wallet_after.data.len()) {
        return Judge::No("wallet below the rent minimum");
    }
    if wallet_after.owner != SYSTEM || wallet_after.data != before.get(&wa).data {
        return Judge::No("wallet address taken over");
    }
    // SOL
    let gone: u128 = (1..n).map(|i| lam_of(states[i - 1], &wa).saturating_sub(lam_of(states[i], &wa)) as u128).sum();
    if gone > 0 {
        let mut any = false;
        if let Some(i) = find(&acts, SOL, &[]).or_else(|| find(&acts, SOL_REC, &[])) {
            if !charge(&mut acts[i], gone, slot) {
                return Judge::No("over the SOL limit");
            }
            any = true;
        }
        if acts.iter().any(|a| a.ty == SOL_DEST || a.ty == SOL_REC_DEST) {
            let mut known = 0u128;
            for ix in inner {
                if ix.program != SYSTEM || ix.data.len() < 12 || ix.data[..4] != [2, 0, 0, 0] || ix.accts[0].key != wa {
                    continue;
                }
                let (to, x) = (ix.accts[1].key, num(&ix.data, 4, 12));
                if to == wa {
                    continue;
                }
                match find(&acts, SOL_REC_DEST, &to).or_else(|| find(&acts, SOL_DEST, &to)) {
                    Some(i) => {
                        if !charge(&mut acts[i], x, slot) {
                            return Judge::No("over a SOL destination limit");
                        }
                    }
                    None if x == 0 => return Judge::Either,
                    None => return Judge::No("SOL to another destination"),
                }
                known += x;
            }
            if known != gone {
                return Judge::No("SOL spent outside plain transfers");
            }
            any = true;
        }
        if !any {
            return Judge::No("no SOL allowance");
        }
    }
    for k in &keys {
        let a0 = before.get(k);
        let z = after.get(k);
        if is_token(&a0.owner) && a0.data.len() >= 165 && a0.data[32..64] == wa {
            let bal = |m: &Accts| m.get(k).and_then(|a| if a.data.len() >= 165 { Some(num(&a.data, 64, 72)) } else { None }).unwrap_or(0);
            let gone: u128 = (1..n).map(|i| bal(states[i - 1]).saturating_sub(bal(states[i]))).sum();
            if z.lamports == 0 || z.data.is_empty() {
                if !acts.iter().any(|a| a.ty == CLOSE) {
                    return Judge::No("closing a token account");
                }
                if z.lamports > 0 {
                    return Judge::No("token account turned into something else");
                }
                if gone > 0 {
                    // closed together with what was in it: only wrapped SOL
                    // can become the wallet's own SOL
                    let unwrapped = (1..n).all(|i| {
                        let ix = &inner[i - 1];
                        bal(states[i - 1]) <= bal(states[i]) || lam_of(states[i], k) == 0 && is_token(&ix.program) && ix.data == [9] && ix.accts[0].key == *k && ix.accts[1].key == wa
                    });
                    if !unwrapped {
                        return Judge::No("closing an account with tokens in it");
                    }
                }
                continue;
            }
            if tok_fixed(&a0) != tok_fixed(&z) {
                return Judge::No("token account taken over");
            }
            if gone == 0 {
                continue;
            }
            let m: Key = a0.data[..32].try_into().unwrap();
            let mut any = false;
            if let Some(i) = find(&acts, TOKEN, &m).or_else(|| find(&acts, TOKEN_REC, &m)) {
                if !charge(&mut acts[i], gone, slot) {
                    return Judge::No("over a token limit");
                }
                any = true;
            }
            if acts.iter().any(|a| (a.ty == TOKEN_DEST || a.ty == TOKEN_REC_DEST) && a.body[..32] == m) {
                let mut known = 0u128;
                for ix in inner {
                    let d = match ix.data.first() {
                        Some(3) => 1,
                        Some(12) => 2,
                        _ => continue,
                    };
                    if !is_token(&ix.program) || ix.accts[0].key != *k {
                        continue;
                    }
                    let (to, x) = (ix.accts[d].key, num(&ix.data, 1, 9));
                    if to == *k {
                        continue;
                    }
                    let mm = [m, to].concat();
                    match find(&acts, TOKEN_REC_DEST, &mm).or_else(|| find(&acts, TOKEN_DEST, &mm)) {
                        Some(i) => {
                            if !charge(&mut acts[i], x, slot) {
                                return Judge::No("over a token destination limit");
                            }
                        }
                        None if x == 0 => return Judge::Either,
                        None => return Judge::No("tokens to another destination"),
                    }
                    known += x;
                }
                if known != gone {
                    return Judge::No("tokens spent outside plain transfers");
                }
                any = true;
            }
            if !any {
                return Judge::No("no token allowance");
            }
        } else if a0.owner == ids().stake && a0.data[44..76] == wa {
            if a0.data[4..124] != z.data.get(4..124).unwrap_or(&[])[..] {
                return if z.lamports == 0 { Judge::Either } else { Judge::No("stake account taken over") };
            }
            let st = |m: &Accts| m.get(k).map_or((0u64, 0u128), |a| (a.lamports, num(&a.data, 156, 164)));
            let mut gone = 0u128;
            for i in 1..n {
                let ((l0, s0), (l1, s1)) = (st(states[i - 1]), st(states[i]));
                gone += (l0.saturating_sub(l1) as u128).max(s0.abs_diff(s1));
            }
            if gone == 0 || acts.iter().any(|a| a.ty == STAKE_ALL) {
                continue;
            }
            match find(&acts, STAKE, &[]).or_else(|| find(&acts, STAKE_REC, &[])) {
                Some(i) => {
                    if !charge(&mut acts[i], gone, slot) {
                        return Judge::No("over the stake limit");
                    }
                }
                None => return Judge::No("no stake allowance"),
            }
        } else if a0.owner == PUPPET && s.p.img.roles.iter().any(|r| find(&r.acts, SCOPE, k).is_some()) {
            // someone's balance is kept here
            let Some(i) = find(&acts, SCOPE, k) else { return Judge::Either };
            let b = acts[i].body.clone();
            let (st, e) = (num(&b, 128, 136) as usize, num(&b, 136, 144) as usize);
            if a0.data[..st] != z.data[..st] || a0.data[e..] != z.data[e..] || a0.owner != z.owner {
                return Judge::No("watched account changed elsewhere");
            }
            let f = |m: &Accts| num(&m[k].data, st, e);
            let gone: u128 = (1..n).map(|i| f(states[i - 1]).saturating_sub(f(states[i]))).sum();
            if gone > 0 && !charge(&mut acts[i], gone, slot) {
                return Judge::No("over the limit of a watched balance");
            }
        }
    }
    Judge::Yes(acts)
}

// -------------------------------------------------------------- invariants
/// What is left of an allowance, as an upper bound on the net outflow: what
/// could be spent before minus what can be spent after.
fn used(a: &Act, b: &Act) -> u128 {
    use perm::*;
    let n = a.body.len();
    let u = |x: &Act, o: usize| u64::from_le_bytes(x.body[o..o + 8].try_into().unwrap()) as u128;
    match a.ty {
        SOL | TOKEN | STAKE | SOL_DEST | TOKEN_DEST => u(a, n - 8).saturating_sub(u(b, n - 8)),
        TOKEN_REC => u(a, n - 16).max(u(a, n - 24)).saturating_sub(u(b, n - 16)),
        _ => u(a, n - 8).max(u(a, n - 32)).saturating_sub(u(b, n - 8)),
    }
}
fn outflow(s: &Place, a: &[Act], b: &[Act], before: &Bank, after: &Bank) -> R {
    use perm::*;
    let total = |pick: &dyn Fn(&Act) -> bool| -> Option<u128> {
        let v: Vec<u128> = a.iter().zip(b).filter(|(x, _)| pick(x)).map(|(x, y)| used(x, y)).collect();
        if v.is_empty() {
            None
        } else {
            Some(v.iter().sum())
        }
    };
    let check = |what: &str, out: u128, general: Option<u128>, dest: Option<u128>| -> R {
        if out == 0 {
            return Ok(());
        }
        ensure!(general.is_some() || dest.is_some(), format!("outflow/{what}/no allowance"), "{out} {what} left the wallet without any allowance");
        if let Some(x) = general {
            ensure!(out <= x, format!("outflow/{what}"), "{out} {what} left the wallet, the limit was charged {x}");
        }
        if let Some(x) = dest {
            ensure!(out <= x, format!("outflow/{what}/destinations"), "{out} {what} left the wallet, the destination limits were charged {x}");
        }
        Ok(())
    };
    let out = before.lamports(&s.wallet).saturating_sub(after.lamports(&s.wallet)) as u128;
    check("SOL", out, total(&|x| x.ty == SOL || x.ty == SOL_REC), total(&|x| x.ty == SOL_DEST || x.ty == SOL_REC_DEST))?;
    for (mi, m) in s.mints.iter().enumerate() {
        let sum = |b: &Bank| -> u128 {
            (0..5).filter(|i| mint_of(*i) == mi).map(|i| b.get(&s.toks[i])).filter(|x| x.data.len() >= 165 && is_token(&x.owner) && x.data[32..64] == s.wallet).map(|x| num(&x.data, 64, 72)).sum()
        };
        let mut out = sum(before).saturating_sub(sum(after));
        if mi == 2 {
            // unwrapping into the wallet is not an outflow
            // (what was unwrapped and then spent is in the SOL charge)
            let sol = total(&|x| x.ty == SOL || x.ty == SOL_REC).max(total(&|x| x.ty == SOL_DEST || x.ty == SOL_REC_DEST)).unwrap_or(0);
            out = out.saturating_sub(sol + after.lamports(&s.wallet).saturating_sub(before.lamports(&s.wallet)) as u128);
        }
        check("tokens", out, total(&|x| (x.ty == TOKEN || x.ty == TOKEN_REC) && x.body[..32] == *m), total(&|x| (x.ty == TOKEN_DEST || x.ty == TOKEN_REC_DEST) && x.body[..32] == *m))?;
    }
    if !a.iter().any(|x| x.ty == STAKE_ALL) {
        let sum = |b: &Bank| -> u128 {
            s.stakes.iter().map(|k| b.get(k)).filter(|x| x.data.len() >= 200 && x.data[44..76] == s.wallet).map(|x| x.lamports as u128).sum()
        };
        check("stake", sum(before).saturating_sub(sum(after)), total(&|x| x.ty == STAKE || x.ty == STAKE_REC), None)?;
    }
    for k in &s.watched {
        if let Some(i) = find(a, SCOPE, k) {
            let b_ = &a[i].body;
            let (st, e) = (num(b_, 128, 136) as usize, num(b_, 136, 144) as usize);
            let out = num(&before.get(k).data, st, e).saturating_sub(num(&after.get(k).data, st, e));
            let (c0, l, c1) = (num(b_, 0, 16), num(b_, 16, 32), num(&b[i].body, 0, 16));
            let kind = num(b_, 112, 120);
            if out > 0 && kind > 0 {
                ensure!(c1 <= l && out <= c1 && (kind == 2 || out <= c1.saturating_sub(c0)), "outflow/watched", "a watched balance of {:?} went down by {out}; used {c0} -> {c1} of {l}", short(k));
            }
        }
    }
    Ok(())
}
/// Nothing of the wallet's was taken over.
fn intact(s: &Place, role: u32, before: &Bank, after: &Bank, img: &SwigImg) -> R {
    let wa = after.get(&s.wallet);
    ensure!(wa.owner == SYSTEM && wa.data.is_empty(), "takeover/wallet", "the wallet address now has owner {} and {} bytes of data", short(&wa.owner), wa.data.len());
    ensure!(wa.lamports >= rent_min(0), "takeover/rent", "the wallet address holds {} lamports", wa.lamports);
    let cf = after.get(&s.p.a.swig);
    ensure!(cf.owner == ids().swig && cf.lamports == before.lamports(&s.p.a.swig), "takeover/config", "the config account now has owner {} and {} lamports", short(&cf.owner), cf.lamports);
    let mut x = img.clone();
    let mut y = s.p.img.clone();
    let close = y.role(role).map_or(false, |r| r.has(perm::CLOSE));
    for m in [&mut x, &mut y] {
        if let Some(r) = m.role_mut(role) {
            if (3..=6).contains(&r.ty) {
                r.auth[36..40].fill(0);
            }
            for a in r.acts.iter_mut() {
                let n = a.body.len();
                use perm::*;
                match a.ty {
                    SOL | TOKEN | STAKE | SOL_DEST | TOKEN_DEST => a.body[n - 8..].fill(0),
                    SOL_REC | STAKE_REC | SOL_REC_DEST | TOKEN_REC_DEST | TOKEN_REC => a.body[n - 16..].fill(0),
                    SCOPE => {
                        a.body[..16].fill(0);
                        a.body[40..48].fill(0);
                    }
                    _ => {}
                }
            }
        }
    }
    ensure!(x == y, "takeover/roles", "the configuration changed in more than allowances: {:?} -> {:?}", y.roles.iter().map(|r| acts_str(&r.acts)).collect::<Vec<_>>(), x.roles.iter().map(|r| acts_str(&r.acts)).collect::<Vec<_>>());
    for k in &s.toks {
        let (a, b) = (before.get(k), after.get(k));
        if a.data.len() < 165 || a.data[32..64] != s.wallet || !is_token(&a.owner) {
            continue;
        }
        if b.lamports == 0 {
            ensure!(close, "takeover/closed", "a token account was closed without the permission");
            continue;
        }
        ensure!(b.data.len() >= 165 && tok_fixed(&a) == tok_fixed(&b), "takeover/token", "a token account of the wallet was changed: {} -> {}", hex(&a.data), hex(&b.data));
    }
    for k in &s.stakes {
        let (a, b) = (before.get(k), after.get(k));
        if a.data.len() < 200 || a.data[44..76] != s.wallet || b.lamports == 0 {
            continue;
        }
        ensure!(a.owner == b.owner && a.data[4..124] == b.data[4..124], "takeover/stake", "a stake account's authorities changed: {} -> {}", hex(&a.data[4..124]), hex(&b.data[4..124]));
    }
    Ok(())
}

fn history(g: &mut Gen, cx: &mut Cx, mode: u8) -> R {
    let mut bank = Bank::new();
    let mut s = Place::new(g, &mut bank, mode);
    let n = 1 + g.us(3);
    for i in 0..n {
        let c = Cred::nth(any_kind(g), i as u64);
        let mut acts = limited_acts(g, &s, mode);
        if g.chance(1, 12) {
            acts.insert(0, mk::flag(if g.bool() { perm::ALL } else { perm::ALL_BUT }));
        }
        let slot = bank.slot;
        s.p.add(i as u32, c, acts, slot);
    }
    align(&mut s.p);
    s.p.install(&mut bank, g.below(2) * 999);
    let (mut moved, mut over, mut yes, mut takeover, mut reached, mut kept) = (0, 0, 0, 0, 0, 0);
    for round in 0..1 + g.us(5) {
        bank.slot += if g.bool() { g.below(12) } else { g.below(90) };
        let role = if g.chance(1, 25) { 77 } else { g.below(n as u64) as u32 };
        let h = hints(&s.p, role, &bank, &s);
        let mut inner = vec![];
        // most bundles are made of steps that work one after the other
        let mut work = bank.clone();
        let careful = g.chance(4, 5);
        for _ in 0..1 + g.us(3) {
            for left in [3, 2, 1, 0] {
                let mut ix = step(g, &s, &work, &h, mode, 0);
                if g.chance(1, 12) {
                    // accounts nobody asked for
                    ix.accts.push(r(*g.pick(&[s.dests[0], s.thief, s.theirs[0], s.theirs[1]])));
                }
                if !careful {
                    inner.push(ix);
                    break;
                }
                let mut sig = signers_of(std::slice::from_ref(&ix));
                sig.push(s.wallet);
                if work.tx(std::slice::from_ref(&ix), &sig).ok() || left == 0 {
                    inner.push(ix);
                    break;
                }
            }
        }
        if g.chance(1, 10) {
            let i = g.us(inner.len());
            inner.push(inner[i].clone());
        }
        let cred = s.p.cred(role);
        let sg = sign_of(&bank, &s.p.a.swig, role);
        let mut extra = vec![];
        if g.chance(1, 10) {
            extra.push(AM { key: *g.pick(&[s.toks[0], s.stakes[0], s.watched[0], s.thief]), s: false, w: g.bool() });
        }
        if g.chance(1, 20) {
            extra.push(r(s.other.swig));
        }
        if g.chance(1, 5) {
            // the accounts that matter come late
            for i in 0..g.below(58) {
                extra.push(AM { key: kn("sp-filler", i), s: false, w: g.chance(1, 4) });
            }
        }
        let mut call = sign_v2(&s.p.a, role, &extra, &inner);
        if call.accts.len() > 60 {
            // (a transaction names 64 at most)
            let k = extra.len() - (call.accts.len() - 60).min(extra.len());
            extra.truncate(k);
            call = sign_v2(&s.p.a, role, &extra, &inner);
        }
        let cut = g.chance(1, 30);
        if cut {
            // one more instruction announced than there is
            let at = call.head.len() - call.signed.len();
            call.head[at] += 1;
            call.signed[0] += 1;
        }
        let foreign = s.p.img.role(role).is_some() && g.chance(1, if mode == 22 { 8 } else { 30 });
        let sealed = if foreign {
            // somebody without the credential
            let other = Cred::nth(cred.ty(), 50);
            let mut s2 = sg.clone();
            s2.session = Some(kk("wrong session"));
            seal_as(&mut bank, &call, &other, &s2, false)
        } else if g.chance(1, 40) {
            // another wallet's address in place of this one's
            for a in call.accts.iter_mut() {
                if a.key == s.wallet {
                    a.key = s.other.wallet;
                }
            }
            seal(&mut bank, &call, &cred, &sg)
        } else {
            seal(&mut bank, &call, &cred, &sg)
        };
        let listed = seen_accts(&sealed.ixs, sealed.at);
        let swapped = listed[1].key != s.wallet;
        let priv_of = |k: &Key| listed.iter().find(|a| a.key == *k).map_or((false, false), |a| (a.s || *k == s.wallet, a.w));
        let direct_ixs: Vec<Ix> = inner
            .iter()
            .map(|ix| Ix { program: ix.program, data: ix.data.clone(), accts: ix.accts.iter().map(|a| { let (sg, wr) = priv_of(&a.key); AM { key: a.key, s: sg, w: wr } }).collect() })
            .collect();
        let before = bank.clone();
        let (direct, after) = {
            let mut b = bank.clone();
            b.keep_steps = true;
            let mut sig = signers_of(&direct_ixs);
            sig.push(s.wallet);
            let o = b.tx(&direct_ixs, &sig);
            b.keep_steps = false;
            (o, b)
        };
        let slot = bank.slot;
        let verdict = if foreign {
            Judge::No("not authenticated")
        } else if cut {
            Judge::No("bundle cut off")
        } else if swapped {
            // authenticated all the same; the real wallet does not sign
            Judge::Either
        } else { judge(&s, role, &inner, &listed, &before, &direct, &after, slot) };
        let o = bank.tx(&sealed.ixs, &sealed.signers);
        let who = || format!("role {role} ({}) [{}] at slot {slot}", cred.name(), s.p.img.role(role).map(|r| r.acts.iter().map(|a| format!("{}:{}", a.ty, hex(&a.body))).collect::<Vec<_>>().join(",")).unwrap_or_default());
        cx.note(|| format!("round {round}: {} runs {:?}: {} (directly: {})", who(), inner.iter().map(show).collect::<Vec<_>>(), o.err(), direct.err()));
        let limited = s.p.img.role(role).map_or(true, |r| !r.has(perm::ALL) && !r.has(perm::ALL_BUT));
        // P22
        if mode == 22 {
            let acts = s.p.img.role(role).map(|r| r.acts.clone()).unwrap_or_default();
            for v in &o.invokes {
                if v.caller != Some(ids().swig) {
                    continue;
                }
                ensure!(!foreign, "unauthenticated", "{} was called for {} without the credential", short(&v.program), who());
                for a in &v.accts {
                    if !a.s {
                        continue;
                    }
                    ensure!(a.key != s.other.wallet && a.key != s.other.swig && a.key != s.p.a.swig, "foreign signature", "{} was called with the signature of {}", short(&v.program), short(&a.key));
                    if a.key == s.wallet {
                        ensure!(!swapped, "wrong wallet", "{} was called with the wallet's signature although another address stood in its place", short(&v.program));
                        ensure!(!limited || may_use(&acts, &v.program), "program", "{} was called with the wallet's signature for {}", short(&v.program), who());
                        reached += 1;
                        cx.label("signature reached a program");
                    }
                }
            }
            let harmless = inner.iter().all(|ix| [NOOP1, NOOP2, NOOP3, ids().memo].contains(&ix.program));
            if harmless && !foreign && !swapped && !cut && s.p.img.role(role).is_some() {
                let permitted = !limited || inner.iter().all(|ix| !ix.accts.iter().any(|a| a.key == s.wallet) || may_use(&acts, &ix.program));
                // (a wallet address that was brought below the rent minimum is another matter)
                if matches!(verdict, Judge::Yes(_)) || !permitted {
                    ensure!(o.ok() == permitted, "permission", "{} calls {:?} (permitted: {permitted}): {}", who(), inner.iter().map(|i| short(&i.program)).collect::<Vec<_>>(), o.err());
                }
            }
            if matches!(verdict, Judge::Yes(_)) {
                ensure!(o.ok(), "permission", "{} may run {:?}: {}", who(), inner.iter().map(show).collect::<Vec<_>>(), o.err());
            }
            if !o.ok() && matches!(verdict, Judge::No("program not permitted")) {
                kept += 1;
                cx.label("kept from a program");
            }
        }
        // P20
        if mode == 20 {
            match &verdict {
                Judge::No(why) => {
                    ensure!(!o.ok(), format!("accepted/{why}"), "{} runs {:?}: accepted although: {why}: {}", who(), inner.iter().map(show).collect::<Vec<_>>(), diff(&before, &bank));
                    cx.label(why);
                    if why.starts_with("over") || why.starts_with("no ") && why.ends_with("allowance") {
                        over += 1;
                    }
                }
                Judge::Yes(acts) => {
                    ensure!(o.ok(), "refused", "{} runs {:?}: refused: {}", who(), inner.iter().map(show).collect::<Vec<_>>(), o.err());
                    let mut q = s.p.clone();
                    count(&mut q.img, role, &cred, false);
                    q.img.role_mut(role).unwrap().acts = acts.clone();
                    let mut exp = after.clone();
                    exp.put(s.p.a.swig, Acct { data: q.img.enc(), ..before.get(&s.p.a.swig) });
                    let d = diff(&exp, &bank);
                    let want = q.img.role(role).map(|r| acts_str(&r.acts)).unwrap_or_default();
                    let got = SwigImg::dec(&bank.get(&s.p.a.swig).data).ok().and_then(|i| i.role(role).map(|r| acts_str(&r.acts))).unwrap_or_default();
                    ensure!(d.is_empty(), "effect", "{} runs {:?}: {d}; allowances {got} instead of {want}", who(), inner.iter().map(show).collect::<Vec<_>>());
                    if limited && *acts != s.p.img.role(role).unwrap().acts {
                        moved += 1;
                        cx.label("value moved within the allowance");
                    } else {
                        cx.label("accepted");
                    }
                }
                Judge::Either => cx.label("either"),
            }
        }
        if !o.ok() {
            ensure!(before.accts == bank.accts, "refused/changed", "a refused bundle changed something: {}", diff(&before, &bank));
            if mode == 21 {
                if let Judge::No(w) = &verdict {
                    if w.contains("taken over") || w.contains("turned into") || w.contains("rent minimum") || w.contains("elsewhere") || w.contains("closing") {
                        takeover += 1;
                        cx.label(w);
                    }
                }
            }
            continue;
        }
        yes += 1;
        let img = match SwigImg::dec(&bank.get(&s.p.a.swig).data) {
            Ok(i) => i,
            Err(e) => return fail("config", format!("after {}: the configuration is broken: {e}", who())),
        };
        if swapped {
            // nothing was done in the wallet's name
        } else if limited {
            if mode == 20 {
                let (a, b) = (s.p.img.role(role).unwrap().acts.clone(), img.role(role).map(|r| r.acts.clone()).unwrap_or_default());
                ensure!(a.len() == b.len(), "config", "permissions of {} changed in number", who());
                outflow(&s, &a, &b, &before, &bank).map_err(|f| Fail { key: f.key, msg: format!("{} runs {:?}: {}", who(), inner.iter().map(show).collect::<Vec<_>>(), f.msg) })?;
            }
            if mode == 21 {
                intact(&s, role, &before, &bank, &img).map_err(|f| Fail { key: f.key, msg: format!("{} runs {:?}: {}", who(), inner.iter().map(show).collect::<Vec<_>>(), f.msg) })?;
                cx.label("accepted");
            }
        } else if bank.get(&s.wallet).owner != SYSTEM || !bank.get(&s.wallet).data.is_empty() {
            // an unrestricted role may even give the wallet address away
            return Ok(());
        }
        s.p.img = img;
    }
    let hit = match mode {
        20 => moved > 0 && over > 0,
        21 => yes > 0 && takeover > 0,
        _ => reached > 0 && kept > 0,
    };
    if hit {
        cx.hit();
    }
    Ok(())
}
fn show(ix: &Ix) -> String {
    format!("{}({}) {}", short(&ix.program), ix.accts.iter().map(|a| short(&a.key)).collect::<Vec<_>>().join(" "), hex(&ix.data))
}
