//! P02, P03, P04: allowances and program-scoped balances at library level.
use super::common::*;
use swig_state::action::{
    program_scope::ProgramScope, sol_destination_limit::SolDestinationLimit, sol_limit::SolLimit,
    sol_recurring_destination_limit::SolRecurringDestinationLimit, sol_recurring_limit::SolRecurringLimit,
    stake_limit::StakeLimit, stake_recurring_limit::StakeRecurringLimit, token_destination_limit::TokenDestinationLimit,
    token_limit::TokenLimit, token_recurring_destination_limit::TokenRecurringDestinationLimit,
    token_recurring_limit::TokenRecurringLimit,
};
use swig_state::role::RoleMut;

/// A role's permission list with the one under test at a random place.
fn among(g: &mut Gen, a: Act) -> (Vec<Act>, usize) {
    let mut v: Vec<Act> = vec![];
    for _ in 0..g.us(3) {
        let t = *g.pick(&KINDS);
        if t != a.ty {
            v.push(valid_act(g, t));
        }
    }
    let i = g.us(v.len() + 1);
    v.insert(i, a);
    // same kind, other subject, in front of it
    if let Some((o, l)) = match_range(v[i].ty) {
        if g.chance(1, 3) {
            let mut b = v[i].clone();
            let at = o + g.us(l);
            b.body[at] ^= 1 << g.below(8);
            v.insert(0, b);
            return fix_scope(v, i + 1);
        }
    }
    fix_scope(v, i)
}
/// a scope's body must be 16-aligned to be used natively
fn fix_scope(mut v: Vec<Act>, mut i: usize) -> (Vec<Act>, usize) {
    let mut j = 0;
    while j < v.len() {
        if v[j].ty == perm::SCOPE {
            let at: usize = v[..j].iter().map(|a| 8 + a.body.len()).sum::<usize>() + 8;
            if at % 16 != 0 {
                v.insert(j, mk::flag(perm::CLOSE));
                if j <= i {
                    i += 1;
                }
                continue;
            }
        }
        j += 1;
    }
    (v, i)
}

/// Runs a spend through the role's own list; Err(panic) when it aborts.
fn spend(ty: u16, d: &mut [u8], m: &[u8], amt: u64, slot: u64) -> Result<Result<(), String>, String> {
    macro_rules! go {
        ($t:ty, $r:expr) => {{
            let a: &mut $t = match RoleMut::get_action_mut::<$t>(d, m) {
                Ok(Some(a)) => a,
                Ok(None) => return Ok(Err("not found".into())),
                Err(e) => return Ok(Err(format!("lookup {e:?}"))),
            };
            let f: fn(&mut $t, u64, u64) -> Result<(), pinocchio::program_error::ProgramError> = $r;
            f(a, amt, slot).map_err(|e| format!("{e:?}"))
        }};
    }
    no_panic(|| {
        use perm::*;
        Ok(match ty {
            SOL => go!(SolLimit, |a, x, _| a.run(x)),
            TOKEN => go!(TokenLimit, |a, x, _| a.run(x)),
            STAKE => go!(StakeLimit, |a, x, _| a.run(x)),
            SOL_DEST => go!(SolDestinationLimit, |a, x, _| a.run(x)),
            TOKEN_DEST => go!(TokenDestinationLimit, |a, x, _| a.run(x)),
            SOL_REC => go!(SolRecurringLimit, |a, x, s| a.run(x, s)),
            STAKE_REC => go!(StakeRecurringLimit, |a, x, s| a.run(x, s)),
            TOKEN_REC => go!(TokenRecurringLimit, |a, x, s| a.run(x, s)),
            SOL_REC_DEST => go!(SolRecurringDestinationLimit, |a, x, s| a.run(x, s)),
            TOKEN_REC_DEST => go!(TokenRecurringDestinationLimit, |a, x, s| a.run(x, s)),
            _ => unreachable!(),
        })
    })
    .and_then(|r: Result<_, String>| r)
}

pub fn p02() -> Prop {
    Prop {
        id: "P02",
        rule: "at least one spend was accepted and at least one refused",
        assumptions: &["the library code run natively computes as on chain (release arithmetic, no overflow checks)"],
        quick: 1_200_000,
        thorough: 6_000_000,
        fixed: None,
        run: run02,
    }
}
fn run02(g: &mut Gen, cx: &mut Cx) -> R {
    use perm::*;
    let ty = *g.pick(&[SOL, TOKEN, STAKE, SOL_DEST, TOKEN_DEST]);
    let grant = g.u64();
    let (k1, k2) = (pool_key(g), pool_key(g));
    let a = match ty {
        SOL => mk::sol(grant),
        TOKEN => mk::token(&k1, grant),
        STAKE => mk::stake(grant),
        SOL_DEST => mk::sol_dest(&k1, grant),
        _ => mk::token_dest(&k1, &k2, grant),
    };
    let m: Vec<u8> = match match_range(ty) {
        Some((o, l)) => a.body[o..o + l].to_vec(),
        None => vec![],
    };
    let (mut list, at) = among(g, a);
    let mut cage = Cage::new(&enc_actions(&list), 0xA5);
    let mut left = grant as u128;
    let mut total = 0u128;
    let (mut yes, mut no) = (0, 0);
    cx.note(|| format!("kind {ty} grant {grant}"));
    for _ in 0..1 + g.us(8) {
        let x = near(g, left as u64);
        let r = spend(ty, cage.get_mut(), &m, x, g.u64()).map_err(|e| Fail { key: "abort".into(), msg: format!("spend {x} of {left} aborted: {e}") })?;
        cx.note(|| format!("spend {x} of {left}: {r:?}"));
        let fits = x as u128 <= left;
        ensure!(r.is_ok() == fits, "decision", "kind {ty}: spend of {x} with {left} left of {grant}: {r:?}");
        if fits {
            left -= x as u128;
            total += x as u128;
            yes += 1;
        } else {
            no += 1;
        }
        let n = list[at].body.len();
        list[at].body[n - 8..].copy_from_slice(&(left as u64).to_le_bytes());
        ensure!(cage.get() == enc_actions(&list), "remaining", "kind {ty}: after spending {x} the list is {} instead of {}", hex(cage.get()), hex(&enc_actions(&list)));
        ensure!(total <= grant as u128, "total", "{total} spent of {grant}");
    }
    ensure!(cage.intact(), "oob", "bytes outside the list were written");
    cx.label(["", "sol", "", "", "", "token"].get(ty as usize).filter(|s| !s.is_empty()).unwrap_or(&if ty == STAKE { "stake" } else { "destination" }));
    if yes > 0 && no > 0 {
        cx.hit();
    }
    Ok(())
}

pub fn p03() -> Prop {
    Prop {
        id: "P03",
        rule: "the history has an accepted spend, a refused spend and a refill",
        assumptions: &[
            "windows are at least one slot long; slots never go back within a history",
            "the library code run natively computes as on chain (release arithmetic, no overflow checks)",
        ],
        quick: 1_200_000,
        thorough: 6_000_000,
        fixed: None,
        run: run03,
    }
}
#[derive(Clone, Copy, Debug)]
struct Rec {
    amount: u64,
    window: u64,
    last: u64,
    cur: u64,
}
fn rec_act(ty: u16, k1: &Key, k2: &Key, r: &Rec) -> Act {
    use perm::*;
    match ty {
        SOL_REC => mk::sol_rec(r.amount, r.window, r.last, r.cur),
        STAKE_REC => mk::stake_rec(r.amount, r.window, r.last, r.cur),
        TOKEN_REC => mk::token_rec(k1, r.window, r.amount, r.cur, r.last),
        SOL_REC_DEST => mk::sol_rec_dest(k1, r.amount, r.window, r.last, r.cur),
        _ => mk::token_rec_dest(k1, k2, r.amount, r.window, r.last, r.cur),
    }
}
/// slot choices around the window edges
fn next_slot(g: &mut Gen, slot: u64, last: u64, window: u64) -> u64 {
    let s = match g.below(8) {
        0 => slot,
        1 => last.saturating_add(window),
        2 => last.saturating_add(window).saturating_add(1),
        3 => last.saturating_add(window).saturating_sub(1),
        4 => slot.saturating_add(window / 2),
        5 => (slot / window).saturating_add(1).saturating_mul(window).saturating_add(g.below(3)).saturating_sub(1),
        6 => slot.saturating_add(g.below(10)),
        _ => slot.saturating_add(g.u64() >> 1),
    };
    s.max(slot)
}
fn run03(g: &mut Gen, cx: &mut Cx) -> R {
    use perm::*;
    let ty = *g.pick(&[SOL_REC, TOKEN_REC, STAKE_REC, SOL_REC_DEST, TOKEN_REC_DEST]);
    let grid = matches!(ty, SOL_REC | TOKEN_REC | STAKE_REC);
    let (k1, k2) = (pool_key(g), pool_key(g));
    let amount = g.u64();
    let window = (if g.bool() { g.range(1, 1000) } else { g.u64() }).max(1);
    let mut st = Rec { amount, window, last: 0, cur: amount };
    if g.chance(1, 3) {
        // a state some history left behind, or one that was granted that way
        st.cur = near(g, amount).min(amount);
        st.last = if g.bool() { g.u64() >> g.below(40) } else { (g.u64() / window) * window };
    }
    let mut slot = if g.bool() { st.last.saturating_add(g.below(5)) } else { g.u64() >> g.below(40) };
    if g.chance(1, 4) {
        slot = st.last.saturating_sub(g.below(100));
    }
    let a = rec_act(ty, &k1, &k2, &st);
    let m: Vec<u8> = match match_range(ty) {
        Some((o, l)) => a.body[o..o + l].to_vec(),
        None => vec![],
    };
    let (mut list, at) = among(g, a);
    let mut cage = Cage::new(&enc_actions(&list), 0x5A);
    let (mut yes, mut no, mut refills) = (0, 0, 0);
    let mut since: u128 = 0;
    let mut base = st.cur as u128;
    cx.note(|| format!("kind {ty} {st:?} slot {slot}"));
    for _ in 0..1 + g.us(10) {
        slot = next_slot(g, slot, st.last, window);
        let x = if g.bool() { near(g, st.cur) } else { near(g, amount) };
        let due = slot > st.last && slot - st.last > window;
        let before = st;
        let mut want = st;
        let ok = if due && x <= amount {
            want.cur = amount - x;
            want.last = if grid { slot / window * window } else { slot };
            true
        } else if x <= st.cur {
            want.cur -= x;
            true
        } else {
            false
        };
        let r = spend(ty, cage.get_mut(), &m, x, slot)
            .map_err(|e| Fail { key: "abort".into(), msg: format!("spend {x} at slot {slot} with {before:?} aborted: {e}") })?;
        cx.note(|| format!("slot {slot} spend {x}: {}", if r.is_ok() { "ok" } else { "refused" }));
        ensure!(r.is_ok() == ok, "decision", "kind {ty} slot {slot}: spend of {x} with {before:?}: {r:?}");
        st = want;
        if ok {
            yes += 1;
            if due {
                refills += 1;
                base = amount as u128;
                since = 0;
            }
            since += x as u128;
        } else {
            no += 1;
        }
        ensure!(since <= base, "window total", "{since} spent since the last refill of {base}");
        list[at] = rec_act(ty, &k1, &k2, &st);
        ensure!(cage.get() == enc_actions(&list), "state", "kind {ty} slot {slot} spend {x} ({}) with {before:?}: stored {} instead of {}", if ok { "accepted" } else { "refused" }, hex(cage.get()), hex(&enc_actions(&list)));
    }
    ensure!(cage.intact(), "oob", "bytes outside the list were written");
    cx.label(if grid { "grid windows" } else { "destination windows" });
    if refills > 0 {
        cx.label("with a refill");
    }
    if yes > 0 && no > 0 && refills > 0 {
        cx.hit();
    }
    Ok(())
}

pub fn p04() -> Prop {
    Prop {
        id: "P04",
        rule: "a declared field inside the account was read, or a spend history had an accepted and a refused spend",
        assumptions: &[
            "scope kinds and width codes are below 256, recurring windows at least one slot",
            "the library code run natively computes as on chain (release arithmetic, no overflow checks)",
        ],
        quick: 1_200_000,
        thorough: 6_000_000,
        fixed: None,
        run: run04,
    }
}
fn u128g(g: &mut Gen) -> u128 {
    match g.below(4) {
        0 => g.u64() as u128,
        1 => u128::MAX - g.below(5) as u128,
        2 => (g.u64() as u128) << 64 | g.u64() as u128,
        _ => g.below(50) as u128,
    }
}
fn run04(g: &mut Gen, cx: &mut Cx) -> R {
    if g.bool() {
        read04(g, cx)
    } else {
        spend04(g, cx)
    }
}
fn read04(g: &mut Gen, cx: &mut Cx) -> R {
    let num = if g.chance(9, 10) { g.below(4) } else { g.below(256) };
    let width = [1u64, 4, 8, 16].get(num as usize).copied().unwrap_or(8);
    let n = g.us(200);
    let mut data = g.bytes(n);
    if g.chance(1, 4) {
        data = vec![0xff; n];
    }
    let start = match g.below(7) {
        0 => 0,
        1 => (n as u64).saturating_sub(width),
        2 => (n as u64).saturating_sub(width).saturating_add(g.below(4)),
        3 => g.below(n as u64 + 4),
        4 => 0u64.wrapping_sub(g.below(40)),
        5 => g.u64(),
        _ => g.below(n as u64 + 1),
    };
    let end = match g.below(8) {
        0 => start,
        1 => start.wrapping_add(width).wrapping_add(g.below(3)).wrapping_sub(1),
        2 => start.wrapping_sub(width),
        3 => g.below(n as u64 + 20),
        4 => start.wrapping_add(*g.pick(&[1, 4, 8, 16])),
        _ => start.wrapping_add(width),
    };
    let kind = g.below(3);
    let a = mk::scope(u128g(g), u128g(g), 1 + g.below(1000), 0, &pool_key(g), &pool_key(g), kind, num, start, end);
    let body = Cage::new(&a.body, 0);
    let ps = unsafe { <ProgramScope as swig_state::Transmutable>::load_unchecked(body.get()) }.map_err(|e| Fail { key: "load".into(), msg: format!("{e:?}") })?;
    let ask = |fill: u8| {
        let c = Cage::new(&data, fill);
        no_panic(|| ps.read_account_balance(c.get()).map_err(|e| format!("{e:?}")))
    };
    let (r1, r2) = (ask(0x00), ask(0xff));
    cx.note(|| format!("width code {num} field {start}..{end} in {n} bytes: {r1:?}"));
    ensure!(r1 == r2, "outside", "field {start}..{end} of {n} bytes (code {num}): the value depends on bytes outside the account: {r1:?} / {r2:?}");
    let inside = num < 4 && start < end && end - start == width && end <= n as u64;
    let want = if start == 0 && end == 0 {
        cx.label("no field declared");
        Some(0u128)
    } else if inside {
        cx.label("field inside");
        cx.hit();
        let mut v = 0u128;
        for i in (start..end).rev() {
            v = v << 8 | data[i as usize] as u128;
        }
        Some(v)
    } else {
        cx.label("field invalid");
        None
    };
    match (&r1, want) {
        (Ok(Ok(v)), Some(w)) => ensure!(*v == w, "value", "field {start}..{end} of {n} bytes (code {num}) read as {v} instead of {w}"),
        (Ok(Ok(v)), None) => return fail("accepted", format!("field {start}..{end} of {n} bytes (code {num}) read as {v}, should be an error")),
        (Ok(Err(_)), None) => {}
        (Ok(Err(e)), Some(w)) => return fail("refused", format!("field {start}..{end} of {n} bytes (code {num}) refused with {e}, should be {w}")),
        (Err(p), _) => return fail("abort", format!("field {start}..{end} of {n} bytes (code {num}): {p}")),
    }
    Ok(())
}
fn spend04(g: &mut Gen, cx: &mut Cx) -> R {
    let kind = if g.chance(1, 20) { g.below(256) } else { g.below(3) };
    let limit = u128g(g);
    let window = (if g.bool() { g.range(1, 1000) } else { g.u64() }).max(1);
    let mut cur = if g.bool() { 0 } else { u128g(g).min(limit) };
    let mut last = if kind == 2 && g.chance(1, 3) { g.u64() >> g.below(40) } else { 0 };
    let (p, t) = (pool_key(g), pool_key(g));
    let (start, end) = (g.below(50), g.below(90));
    let num = g.below(4);
    let mkit = |cur: u128, last: u64| mk::scope(cur, limit, window, last, &p, &t, kind, num, start, end);
    let a = mkit(cur, last);
    let (mut list, at) = among(g, a);
    let mut cage = Cage::new(&enc_actions(&list), 0x33);
    let mut slot = g.u64() >> g.below(40);
    let (mut yes, mut no) = (0, 0);
    let mut since = cur;
    cx.note(|| format!("kind {kind} limit {limit} used {cur} window {window} last {last}"));
    for _ in 0..1 + g.us(8) {
        slot = next_slot(g, slot, last, window);
        let left = limit - cur.min(limit);
        let x: u128 = match g.below(6) {
            0 => left,
            1 => left.saturating_add(1),
            2 => left.saturating_sub(1),
            3 => u128g(g),
            4 => limit,
            _ => left / 3,
        };
        let give = if kind == 2 && g.chance(1, 12) { None } else { Some(slot) };
        let r = no_panic(|| match RoleMut::get_action_mut::<ProgramScope>(cage.get_mut(), &t) {
            Ok(Some(a)) => a.run(x, give).map_err(|e| format!("{e:?}")),
            Ok(None) => Err("not found".into()),
            Err(e) => Err(format!("lookup {e:?}")),
        });
        let r = match r {
            Ok(r) => r,
            Err(p) => return fail("abort", format!("spend {x} of {left} (kind {kind}, slot {slot}) aborted: {p}")),
        };
        cx.note(|| format!("slot {give:?} spend {x}: {}", if r.is_ok() { "ok" } else { "refused" }));
        let due = kind == 2 && give.is_some() && slot > last && slot - last > window;
        let c0 = if due { 0 } else { cur };
        let ok = match kind {
            0 => true,
            1 => x <= limit - cur.min(limit),
            2 => give.is_some() && x <= limit - c0.min(limit),
            _ => false,
        };
        ensure!(r.is_ok() == ok, "decision", "kind {kind}: spend of {x} with {c0} of {limit} used (refill due: {due}): {r:?}");
        if ok {
            yes += 1;
            if kind != 0 {
                if due {
                    last = slot / window * window;
                    since = 0;
                }
                cur = c0 + x;
                since += x;
            }
            ensure!(since <= limit || kind == 0, "total", "{since} of {limit} since the last refill");
        } else {
            no += 1;
            // a refused spend may at most have noticed that a refill is due
            if due {
                let mut l2 = list.clone();
                l2[at] = mkit(0, slot / window * window);
                if cage.get() == enc_actions(&l2) {
                    cur = 0;
                    last = slot / window * window;
                    since = 0;
                }
            }
        }
        list[at] = mkit(cur, last);
        ensure!(cage.get() == enc_actions(&list), "state", "kind {kind} slot {slot} spend {x}: stored {} instead of {}", hex(cage.get()), hex(&enc_actions(&list)));
    }
    ensure!(cage.intact(), "oob", "bytes outside the list were written");
    cx.label(["basic", "limit", "recurring"].get(kind as usize).unwrap_or(&"unknown kind"));
    if yes > 0 && no > 0 {
        cx.hit();
    }
    Ok(())
}
