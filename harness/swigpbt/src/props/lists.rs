//! P05, P06, P14, P17, P19: how roles, permissions, credentials and the tail
//! are stored and found (library level).
use super::common::*;
use pinocchio::program_error::ProgramError;
use swig_state::action::*;
use swig_state::authority::{authority_type_to_length, AuthorityType};
use swig_state::role::RoleMut;
use swig_state::sub_account_v2::SubAccountV2;
use swig_state::swig::*;
use swig_state::tail::{self, rent_claimer, SavedTail, TailDescriptor, TailHeader, TailKind, TailReadError};
use swig_state::{Discriminator, IntoBytes, Transmutable, TransmutableMut};

macro_rules! with_kind {
    ($ty:expr, $t:ident => $e:expr) => {
        match $ty {
            1 => { type $t = sol_limit::SolLimit; $e }
            2 => { type $t = sol_recurring_limit::SolRecurringLimit; $e }
            3 => { type $t = program::Program; $e }
            4 => { type $t = program_scope::ProgramScope; $e }
            5 => { type $t = token_limit::TokenLimit; $e }
            6 => { type $t = token_recurring_limit::TokenRecurringLimit; $e }
            7 => { type $t = all::All; $e }
            8 => { type $t = manage_authority::ManageAuthority; $e }
            9 => { type $t = sub_account::SubAccount; $e }
            10 => { type $t = stake_limit::StakeLimit; $e }
            11 => { type $t = stake_recurring_limit::StakeRecurringLimit; $e }
            12 => { type $t = stake_all::StakeAll; $e }
            13 => { type $t = program_all::ProgramAll; $e }
            14 => { type $t = program_curated::ProgramCurated; $e }
            15 => { type $t = all_but_manage_authority::AllButManageAuthority; $e }
            16 => { type $t = sol_destination_limit::SolDestinationLimit; $e }
            17 => { type $t = sol_recurring_destination_limit::SolRecurringDestinationLimit; $e }
            18 => { type $t = token_destination_limit::TokenDestinationLimit; $e }
            19 => { type $t = token_recurring_destination_limit::TokenRecurringDestinationLimit; $e }
            20 => { type $t = close_swig_authority::CloseSwigAuthority; $e }
            21 => { type $t = replace_authority::ReplaceAuthority; $e }
            22 => { type $t = sub_account_v2::SubAccountV2Create; $e }
            23 => { type $t = sub_account_v2::SubAccountV2All; $e }
            24 => { type $t = sub_account_v2::SubAccountV2Sign; $e }
            25 => { type $t = sub_account_v2::SubAccountV2Withdraw; $e }
            26 => { type $t = sub_account_v2::SubAccountV2Toggle; $e }
            _ => unreachable!(),
        }
    };
}
fn e<T>(r: Result<T, ProgramError>) -> Result<T, String> {
    r.map_err(|x| format!("{x:?}"))
}

/// Where the first matching entry starts in the list, by the documented rule.
fn model_find(list: &[Act], ty: u16, q: &[u8]) -> Option<usize> {
    let mut p = 0;
    for a in list {
        if a.ty == ty && (!repeatable(ty) || matches(a, q)) {
            return Some(p + 8);
        }
        p += 8 + a.body.len();
    }
    None
}
fn matches(a: &Act, q: &[u8]) -> bool {
    if a.ty == perm::SUB {
        return if q.is_empty() { a.body[..32] == [0; 32] } else { *q == a.body[..32] };
    }
    let (o, l) = match_range(a.ty).unwrap();
    *q == a.body[o..o + l]
}
fn subject_len(ty: u16) -> usize {
    match match_range(ty) {
        Some((_, l)) => l,
        None if ty == perm::SUB => 32,
        _ => 0,
    }
}
fn subject(g: &mut Gen, list: &[Act], ty: u16) -> Vec<u8> {
    let n = subject_len(ty);
    if ty == perm::SUB && g.chance(1, 3) {
        return vec![];
    }
    let mut q = match g.below(4) {
        0 | 1 if list.iter().any(|a| a.ty == ty) => {
            let c: Vec<&Act> = list.iter().filter(|a| a.ty == ty).collect();
            let a = *g.pick(&c);
            match match_range(ty) {
                Some((o, l)) => a.body[o..o + l].to_vec(),
                None => a.body[..n.min(a.body.len())].to_vec(),
            }
        }
        _ => {
            let mut v = pool_key(g).to_vec();
            v.extend(pool_key(g));
            if n == 4 {
                v = (g.below(6) as u32).to_le_bytes().to_vec();
            }
            v.resize(n, 0);
            v
        }
    };
    if !q.is_empty() && g.chance(1, 4) {
        let i = g.us(q.len());
        q[i] ^= 1 << g.below(8);
    }
    // things the list contains but that are not subjects of this kind
    if !q.is_empty() && g.chance(1, 6) {
        let a = g.pick(list);
        if a.body.len() >= n {
            let o = g.us(a.body.len() - n + 1);
            q = a.body[o..o + n].to_vec();
        }
    }
    q
}
/// Permission lists as they can exist in an account: fresh ones, ones with
/// used limits, ones with sub-account grants in use.
fn stored_acts(g: &mut Gen, max: usize) -> Vec<Act> {
    let mut v = valid_acts(g, max);
    let same = g.chance(1, 3);
    let t0 = *g.pick(&KINDS);
    if same {
        for _ in 0..g.us(5) {
            let a = valid_act(g, t0);
            let i = g.us(v.len() + 1);
            v.insert(i, a);
        }
    }
    for a in v.iter_mut() {
        if a.ty == perm::SUB && g.bool() {
            *a = mk::sub_full(&pool_key(g), g.u8(), g.bool(), g.below(4) as u32, &pool_key(g));
        }
        if a.ty == perm::PROGRAM && g.chance(1, 4) {
            // a payload that looks like other entries
            let t = *g.pick(&KINDS);
            let x = enc_actions(&[valid_act(g, t)]);
            for (i, b) in x.iter().take(32).enumerate() {
                a.body[i] = *b;
            }
        }
    }
    v
}

pub fn p05() -> Prop {
    Prop {
        id: "P05",
        rule: "some lookup found an entry and some lookup found none, in a list of at least two entries",
        assumptions: &["lookups use a subject of the kind's own size, as every caller does"],
        quick: 500_000,
        thorough: 4_000_000,
        fixed: None,
        run: run05,
    }
}
fn run05(g: &mut Gen, cx: &mut Cx) -> R {
    let mut img = SwigImg::new(g.arr(), g.u8(), g.u8());
    img.role_counter = g.below(5) as u32;
    let n = 1 + g.us(4);
    for i in 0..n {
        let c = any_cred(g, i as u64);
        let max = if g.chance(1, 20) { 60 } else { 8 };
        let a = stored_acts(g, max);
        img.push(c.ty(), c.stored(), a);
        img.role_counter += g.below(3) as u32;
    }
    if g.bool() {
        img.tail = rent_claimer::entry(&g.arr()).to_vec();
    }
    let bytes = img.enc();
    let mut cage = Cage::new(&bytes, 0x5A);
    let which = g.us(n);
    let role = img.roles[which].clone();
    let list = role.acts.clone();
    let start: usize = HEADER + img.roles[..which].iter().map(|r| r.bytes()).sum::<usize>() + 16 + role.auth.len();
    cx.note(|| format!("{} roles, list {}", n, acts_str(&list)));
    let (mut yes, mut no) = (0, 0);

    // role lookup by id
    for id in [role.id, g.below(12) as u32, g.u32()] {
        let want = img.role(id).is_some();
        let sw = e(SwigWithRoles::from_bytes(cage.get())).map_err(|m| bad("parse", m))?;
        let got = e(sw.get_role(id)).map_err(|m| bad("get-role", m))?;
        ensure!(got.is_some() == want, "role-by-id", "role {id}: found {} expected {want}", got.is_some());
        if let Some(r) = got {
            let x = img.role(id).unwrap();
            ensure!(r.position.id() == id && r.position.num_actions() as usize == x.acts.len(), "role-by-id", "role {id}: wrong record");
            ensure!(r.actions == &enc_actions(&x.acts)[..], "role-actions", "role {id}: wrong action slice");
            ensure!(r.authority_type().map(|t| t as u16) == Ok(x.ty), "role-type", "role {id}: wrong type");
            ensure!(r.authority.authority_type() as u16 == x.ty, "role-type", "role {id}: wrong authority");
        }
        let parts = e(Swig::split_parts_mut(cage.get_mut())).map_err(|m| bad("split", m))?;
        let got = e(Swig::get_mut_role(id, parts.roles)).map_err(|m| bad("get-mut-role", m))?;
        ensure!(got.is_some() == want, "role-by-id", "mutable role {id}: found {} expected {want}", got.is_some());
        if let Some(r) = got {
            let x = img.role(id).unwrap();
            ensure!(r.position.id() == id && r.num_actions as usize == x.acts.len() & 255, "role-by-id", "mutable role {id}: wrong record");
            ensure!(r.actions == &enc_actions(&x.acts)[..], "role-actions", "mutable role {id}: wrong action slice");
            ensure!(r.authority.authority_type() as u16 == x.ty, "role-type", "mutable role {id}: wrong authority");
        }
    }

    for _ in 0..1 + g.us(6) {
        let ty = if g.bool() { g.pick(&list).ty } else { *g.pick(&KINDS) };
        let q = subject(g, &list, ty);
        let want = model_find(&list, ty, &q);
        if want.is_some() {
            yes += 1
        } else {
            no += 1
        }
        let len = body_len(ty).unwrap();
        let base = cage.get().as_ptr() as usize;
        let rel = |p: *const u8| (p as usize).wrapping_sub(base + start);
        let (mut got, mut all) = (vec![], vec![]);
        let r = no_panic(|| -> Result<(), String> {
            with_kind!(ty, T => {
                assert!(<T as Transmutable>::LEN == len, "length of kind {ty}");
                assert!(<T as Actionable>::TYPE as u16 == ty && <T as Actionable>::REPEATABLE == repeatable(ty), "declaration of kind {ty}");
                {
                    let sw = e(SwigWithRoles::from_bytes(cage.get()))?;
                    let ro = e(sw.get_role(role.id))?.ok_or("role gone")?;
                    got.push(("Role::get_action", e(ro.get_action::<T>(&q))?.map(|x| rel(x as *const T as *const u8))));
                    all = e(ro.get_all_actions_of_type::<T>())?.into_iter().map(|x| rel(x as *const T as *const u8)).collect();
                }
                {
                    let d = unsafe { std::slice::from_raw_parts_mut(base as *mut u8, bytes.len()) };
                    let parts = e(Swig::split_parts_mut(d))?;
                    let ro: RoleMut = e(Swig::get_mut_role(role.id, parts.roles))?.ok_or("role gone")?;
                    got.push(("RoleMut::get_action", e(ro.get_action::<T>(&q))?.map(|x| rel(x as *const T as *const u8))));
                }
                {
                    let d = unsafe { std::slice::from_raw_parts_mut(base as *mut u8, bytes.len()) };
                    let parts = e(Swig::split_parts_mut(d))?;
                    let ro: RoleMut = e(Swig::get_mut_role(role.id, parts.roles))?.ok_or("role gone")?;
                    got.push(("RoleMut::get_action_mut", e(RoleMut::get_action_mut::<T>(ro.actions, &q))?.map(|x| rel(x as *const T as *const u8))));
                }
                Ok(())
            })
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => return Err(bad("lookup-error", format!("kind {ty} subject {}: {m}", hex(&q)))),
            Err(m) => return Err(bad("lookup-abort", format!("kind {ty} subject {}: {m}", hex(&q)))),
        }
        for (f, x) in got {
            ensure!(x == want, "lookup", "{f} kind {ty} subject {}: at {x:?}, expected {want:?} in {}", hex(&q), acts_str(&list));
        }
        let mut p = 0;
        let mut want_all = vec![];
        for a in &list {
            if a.ty == ty {
                want_all.push(p + 8);
            }
            p += 8 + a.body.len();
        }
        ensure!(all == want_all, "all-of-type", "kind {ty}: {all:?} expected {want_all:?}");
        // subjects of another size are never granted
        if matches!(ty, perm::REPLACE | perm::SUB2_ALL | perm::SUB2_SIGN | perm::SUB2_WITHDRAW | perm::SUB2_TOGGLE) {
            let mut s = q.clone();
            if g.bool() {
                s.pop();
            } else {
                s.push(0);
            }
            let some = with_kind!(ty, T => {
                let sw = e(SwigWithRoles::from_bytes(cage.get())).unwrap();
                let ro = e(sw.get_role(role.id)).unwrap().unwrap();
                let x = ro.get_action::<T>(&s).map(|x| x.is_some());
                x
            });
            ensure!(some == Ok(false), "subject-size", "kind {ty} granted for a subject of {} bytes", s.len());
        }
    }
    // every entry in order
    {
        let sw = e(SwigWithRoles::from_bytes(cage.get())).map_err(|m| bad("parse", m))?;
        let ro = e(sw.get_role(role.id)).map_err(|m| bad("get-role", m))?.unwrap();
        let v = e(ro.get_all_actions()).map_err(|m| bad("all-actions", m))?;
        let got: Vec<(u16, usize)> = v.iter().map(|a| (a.permission().map(|p| p as u16).unwrap_or(999), a.length() as usize)).collect();
        let want: Vec<(u16, usize)> = list.iter().map(|a| (a.ty, a.body.len())).collect();
        ensure!(got == want, "all-actions", "{got:?} expected {want:?}");
    }
    // program scopes by target, over all roles
    let t = if g.bool() { pool_key(g) } else {
        img.roles.iter().flat_map(|r| &r.acts).find(|a| a.ty == perm::SCOPE).map(|a| a.body[80..112].try_into().unwrap()).unwrap_or([9; 32])
    };
    let want = {
        let mut all = img.roles.iter().flat_map(|r| r.acts.iter().map(move |a| (r.id, a)));
        all.find(|(_, a)| a.ty == perm::SCOPE && a.body[80..112] == t).map(|(id, a)| (id as u8, hex(&a.body)))
    };
    let got = {
        let sw = e(SwigWithRoles::from_bytes(cage.get())).map_err(|m| bad("parse", m))?;
        let x = no_panic(|| sw.find_program_scope_by_target(&t).map(|(id, s)| (id, hex(s.into_bytes().unwrap()))))
            .map_err(|m| bad("scope-abort", m))?;
        x
    };
    ensure!(got == want, "scope-target", "scope for {}: {got:?} expected {want:?}", short(&t));
    // find_action over a list as clients send it (stored boundaries are not to be trusted there)
    let mut client = enc_actions(&list);
    if g.bool() {
        let mut p = 0;
        for a in &list {
            let junk = g.u32();
            client[p + 4..p + 8].copy_from_slice(&junk.to_le_bytes());
            p += 8 + a.body.len();
        }
    }
    let cc = Cage::new(&client, 0x77);
    let ty = *g.pick(&KINDS);
    let base = cc.get().as_ptr() as usize;
    let got = no_panic(|| with_kind!(ty, T => e(ActionLoader::find_action::<T>(cc.get())).map(|o| o.map(|x| x as *const T as *const u8 as usize - base))));
    let mut p = 0;
    let mut want = None;
    for a in &list {
        if a.ty == ty && want.is_none() {
            want = Some(p + 8);
        }
        p += 8 + a.body.len();
    }
    ensure!(got == Ok(Ok(want)), "find-action", "kind {ty}: {got:?} expected {want:?}");
    ensure!(cage.get() == &bytes[..] && cage.intact(), "lookup-writes", "a lookup changed the account");
    if yes > 0 && no > 0 && list.len() > 1 {
        cx.hit();
    }
    cx.label(if list.len() > 8 { "long list" } else { "short list" });
    Ok(())
}

// ------------------------------------------------------------------- P06
/// Reference grammar of a permission body.
pub fn body_ok(ty: u16, b: &[u8]) -> bool {
    use perm::*;
    if ty == 0 || body_len(ty) != Some(b.len()) {
        return false;
    }
    let u = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
    match ty {
        SOL_REC | STAKE_REC => u(24) == u(0) && u(16) == 0,
        TOKEN_REC => u(48) == u(40) && u(56) == 0,
        SOL_REC_DEST => u(40) != 0 && u(56) <= u(32),
        TOKEN_REC_DEST => u(72) != 0 && u(88) <= u(64),
        SUB => b[..32] == [0; 32],
        _ => true,
    }
}
/// Reference reader of a permission list as sent by a client.
pub fn list_ok(d: &[u8]) -> Result<Vec<Act>, &'static str> {
    let mut p = 0;
    let mut v: Vec<Act> = vec![];
    while p < d.len() {
        if p + 8 > d.len() {
            return Err("header cut off");
        }
        let ty = u16::from_le_bytes([d[p], d[p + 1]]);
        let l = u16::from_le_bytes([d[p + 2], d[p + 3]]) as usize;
        p += 8;
        if p + l > d.len() {
            return Err("body cut off");
        }
        if !body_ok(ty, &d[p..p + l]) {
            return Err("bad body");
        }
        v.push(act(ty, &d[p..p + l]));
        p += l;
    }
    if v.is_empty() {
        return Err("empty");
    }
    if v.len() > 255 {
        return Err("too many");
    }
    for (i, a) in v.iter().enumerate() {
        let key = |x: &Act| if x.ty == perm::SUB2_CREATE { vec![] } else { x.body[..4].to_vec() };
        if a.ty >= perm::SUB2_CREATE && v[..i].iter().any(|x| x.ty == a.ty && key(x) == key(a)) {
            return Err("duplicate");
        }
    }
    Ok(v)
}
/// A permission list that may be broken in one of many ways.
pub fn maybe_broken(g: &mut Gen) -> Vec<u8> {
    let big = g.chance(1, 60);
    let mut v = if big {
        let n = 250 + g.us(10);
        let t = *g.pick(&[perm::CLOSE, perm::ALL, perm::PROGRAM, perm::REPLACE, perm::SUB2_SIGN]);
        (0..n).map(|i| if t == perm::SUB2_SIGN { mk::sub2(t, i as u32) } else { valid_act(g, t) }).collect()
    } else {
        valid_acts(g, 6)
    };
    // semantic damage
    for _ in 0..g.us(3) {
        match g.below(6) {
            0 => {
                // a second grant of a scoped kind, same or different subject
                let t = *g.pick(&[perm::SUB2_CREATE, perm::SUB2_ALL, perm::SUB2_SIGN, perm::SUB2_WITHDRAW, perm::SUB2_TOGGLE]);
                let a = valid_act(g, t);
                let i = g.us(v.len() + 1);
                v.insert(i, a);
            }
            1 => {
                // the same entry again somewhere else, perhaps with other reserved bytes
                let mut a = g.pick(&v).clone();
                if a.body.len() == 8 && g.bool() {
                    a.body[4 + g.us(4)] ^= 1 + g.u8() % 255;
                }
                let i = g.us(v.len() + 1);
                v.insert(i, a);
            }
            2 | 3 => {
                // limits in a state they cannot start in
                let i = g.us(v.len());
                let t = *g.pick(&[2u16, 6, 11, 17, 19, 9]);
                let mut a = valid_act(g, t);
                let o = match t {
                    9 => g.us(36),
                    _ => a.body.len() - 32 + 8 * g.us(4),
                };
                if t != 9 {
                    let x = match g.below(3) {
                        0 => 0,
                        1 => near(g, 1),
                        _ => {
                            let w = u64::from_le_bytes(a.body[o..o + 8].try_into().unwrap());
                            near(g, w)
                        }
                    };
                    a.body[o..o + 8].copy_from_slice(&x.to_le_bytes());
                } else {
                    a.body[o] ^= 1;
                }
                v.insert(i, a);
            }
            4 => {
                let i = g.us(v.len());
                let n = v[i].body.len();
                match g.below(3) {
                    0 => {
                        v[i].body.pop();
                    }
                    1 => v[i].body.push(g.u8()),
                    _ => {
                        let b = *g.pick(&KINDS);
                        v[i].body.resize(body_len(b).unwrap(), 0)
                    }
                }
                let _ = n;
            }
            _ => {
                let i = g.us(v.len());
                v[i].ty = match g.below(4) {
                    0 => 0,
                    1 => 27 + g.below(3) as u16,
                    2 => g.u16(),
                    _ => *g.pick(&KINDS),
                };
            }
        }
    }
    if g.chance(1, 20) {
        v.clear();
    }
    let mut d = enc_actions(&v);
    // boundaries are the program's business
    if g.bool() {
        let mut p = 0;
        for a in &v {
            let x = g.u32();
            d[p + 4..p + 8].copy_from_slice(&x.to_le_bytes());
            p += 8 + a.body.len();
        }
    }
    // byte damage
    match g.below(8) {
        0 if !d.is_empty() => {
            let n = g.us(d.len());
            d.truncate(n);
        }
        1 => {
            let n = 1 + g.us(9);
            d.extend(g.bytes(n));
        }
        2 if !d.is_empty() => {
            let i = g.us(d.len());
            d[i] ^= 1 << g.below(8);
        }
        3 if d.len() >= 8 => {
            let x = g.u16();
            d[2..4].copy_from_slice(&x.to_le_bytes());
        }
        _ => {}
    }
    d
}
pub fn p06() -> Prop {
    Prop {
        id: "P06",
        rule: "the list had at least one complete entry",
        assumptions: &[],
        quick: 700_000,
        thorough: 5_000_000,
        fixed: None,
        run: run06,
    }
}
fn run06(g: &mut Gen, cx: &mut Cx) -> R {
    // one permission on its own: any kind with any body
    let ty = if g.chance(1, 8) { g.below(40) as u16 } else { *g.pick(&KINDS) };
    let mut b = if ty > 0 && ty < 27 { valid_act(g, ty).body } else { vec![] };
    match g.below(4) {
        0 => {
            let n = g.us(160);
            b.resize(n, 0)
        }
        1 if !b.is_empty() => {
            let i = g.us(b.len());
            b[i] = g.u8();
        }
        2 if b.len() >= 32 => {
            let o = b.len() - 8 * (1 + g.us(4));
            let x = g.below(3);
            b[o..o + 8].copy_from_slice(&x.to_le_bytes());
        }
        _ => {}
    }
    match Permission::try_from(ty) {
        Err(_) => ensure!(ty > 26, "known-kind", "kind {ty} is not known"),
        Ok(p) => {
            ensure!(ty <= 26 && p as u16 == ty, "unknown-kind", "kind {ty} accepted as {p:?}");
            let got = no_panic(|| ActionLoader::validate_layout(p, &b).unwrap_or(false)).map_err(|m| bad("body-abort", format!("kind {ty} len {}: {m}", b.len())))?;
            ensure!(got == body_ok(ty, &b), "body", "kind {ty} body {}: accepted {got}", hex(&b));
        }
    }

    // a list offered for a role of a wallet
    let d = maybe_broken(g);
    let want = list_ok(&d);
    cx.label(match &want {
        Ok(_) => "accepted",
        Err(x) => x,
    });
    if d.len() >= 8 {
        cx.hit();
    }
    cx.note(|| format!("list {} -> {:?}", hex(&d[..d.len().min(64)]), want.as_ref().map(|v| v.len())));
    let mut img = SwigImg::new(g.arr(), g.u8(), g.u8());
    img.role_counter = g.below(3) as u32;
    for i in 0..g.us(3) {
        let c = any_cred(g, i as u64);
        let a = valid_acts(g, 3);
        img.push(c.ty(), c.stored(), a);
    }
    img.sub_counter = g.below(3) as u32;
    let c = any_cred(g, 7);
    let before = img.enc();
    let mut full = before.clone();
    full.resize(before.len() + 16 + c.stored().len() + d.len(), 0);
    let mut cage = Cage::new(&full, 0xC3);
    let ty = AuthorityType::try_from(c.ty()).unwrap();
    let got = no_panic(|| {
        let dd = unsafe { std::slice::from_raw_parts_mut(cage.get_mut().as_mut_ptr(), full.len()) };
        let mut b = e(SwigBuilder::new_from_bytes(dd))?;
        e(b.add_role(ty, &c.create(), &d))
    });
    let got = got.map_err(|m| bad("list-abort", format!("{m} on {} ({want:?})", hex(&d))))?;
    match (&want, &got) {
        (Ok(acts), Ok(())) => {
            img.push(c.ty(), c.stored(), acts.clone());
            ensure!(cage.get() == &img.enc()[..], "stored", "the accepted list {} is not stored as it should be", acts_str(acts));
        }
        (Ok(_), Err(m)) => return Err(bad("refused", format!("well formed list refused with {m}: {}", hex(&d)))),
        (Err(w), Ok(())) => return Err(bad("accepted", format!("list accepted although: {w}: {}", hex(&d)))),
        (Err(_), Err(_)) => {
            ensure!(cage.get()[..HEADER] == before[..HEADER], "refused-count", "a refused list changed the header");
            ensure!(cage.get()[..before.len()] == before[..], "refused-roles", "a refused list changed other roles");
        }
    }
    ensure!(cage.intact(), "outside", "wrote outside the account");
    // the duplicate check on its own
    let dup = no_panic(|| ActionLoader::reject_duplicate_v2_scoped(&d).is_err());
    match dup {
        Err(m) => return Err(bad("dup-abort", m)),
        Ok(x) => {
            if want.is_ok() {
                ensure!(!x, "dup", "duplicate reported in {}", hex(&d));
            }
            if want == Err("duplicate") {
                ensure!(x, "dup", "duplicate not reported in {}", hex(&d));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- P14
pub fn p14() -> Prop {
    Prop {
        id: "P14",
        rule: "at least one credential was stored and one refused or looked up in vain",
        assumptions: &["lookups use the kind's own identity format: 32 bytes for ed25519, 33 or 64 for secp256k1, 33 for secp256r1, the creation bytes for program-exec, program+length+prefix for program-exec sessions"],
        quick: 80_000,
        thorough: 2_500_000,
        fixed: None,
        run: run14,
    }
}
fn rand_cred(g: &mut Gen) -> Cred {
    let ty = 1 + g.below(8) as u16;
    let n = g.below(4);
    let mut c = Cred::nth(ty, n);
    match &mut c {
        Cred::EdS { max, .. } | Cred::K1S { max, .. } | Cred::R1S { max, .. } => *max = g.u64(),
        Cred::Ex { program, prefix } => {
            *program = kn("prog", g.below(3));
            *prefix = prefix_of(g);
        }
        Cred::ExS { program, prefix, max } => {
            *program = kn("prog", g.below(3));
            *prefix = prefix_of(g);
            *max = g.u64();
        }
        _ => {}
    }
    c
}
fn prefix_of(g: &mut Gen) -> Vec<u8> {
    let n = match g.below(4) {
        0 => g.us(4),
        1 => 40 - g.us(3),
        _ => g.us(41),
    };
    let mut p = kn("prefix", g.below(2)).to_vec();
    p.extend(kn("prefix2", 0));
    p.truncate(n);
    p
}
/// The bytes that ask for a credential.
fn query(c: &Cred, long: bool) -> Vec<u8> {
    match c {
        Cred::Ed { pk } | Cred::EdS { pk, .. } => pk.to_vec(),
        Cred::K1 { sk } | Cred::K1S { sk, .. } => {
            if long {
                k1_pub(sk)[1..].to_vec()
            } else {
                k1_pubc(sk).to_vec()
            }
        }
        Cred::R1 { pk } | Cred::R1S { pk, .. } => pk.to_vec(),
        Cred::Ex { .. } => c.create(),
        Cred::ExS { program, prefix, .. } => [&program[..], &[prefix.len() as u8], prefix].concat(),
    }
}
/// Whether a query names a credential.
fn named(c: &Cred, q: &[u8]) -> bool {
    match c {
        Cred::Ex { program, prefix } => q.len() == 80 && q[..32] == program[..] && q[32] as usize == prefix.len() && q[40..40 + prefix.len()] == prefix[..],
        // an uncompressed key is compared by its compressed form: x and the parity of y
        Cred::K1 { sk } | Cred::K1S { sk, .. } if q.len() == 64 => k1_pubc(sk)[..] == [&[2 + (q[63] & 1)], &q[..32]].concat()[..],
        _ => q == &query(c, false)[..] || q == &query(c, true)[..],
    }
}
/// Every byte pattern of the right size: what gets stored, with the bytes that
/// carry no meaning left out (None).
fn ref_stored(ty: u16, d: &[u8]) -> Vec<Option<u8>> {
    let some = |x: &[u8]| x.iter().map(|b| Some(*b)).collect::<Vec<_>>();
    let k1 = |k: &[u8]| [&[2 + (k[63] & 1)], &k[..32]].concat();
    let gap = |n| vec![None; n];
    match ty {
        1 => some(d),
        2 => [some(d), some(&[0; 8])].concat(),
        3 => [if d.len() == 64 { some(&k1(d)) } else { some(d) }, gap(3), some(&[0; 4])].concat(),
        4 => [if d[33..64] == [0; 31] { some(&d[..33]) } else { some(&k1(d)) }, gap(3), some(&[0; 4]), some(&d[64..]), some(&[0; 8])].concat(),
        5 => [some(d), gap(3), some(&[0; 4])].concat(),
        6 => [some(&d[..33]), gap(3), some(&[0; 4]), some(&d[40..]), some(&[0; 8])].concat(),
        _ => {
            let n = d[32] as usize;
            let mut v = [some(&d[..33]), gap(7), some(&d[40..40 + n]), gap(40 - n)].concat();
            if ty == 8 {
                v.extend(some(&d[80..120]));
                v.extend(some(&[0; 8]));
            }
            v
        }
    }
}
fn raw14(g: &mut Gen) -> R {
    let ty = 1 + g.below(8) as u16;
    let n = match ty {
        1 => 32,
        2 => 72,
        3 => *g.pick(&[33, 64]),
        4 => 104,
        5 => 33,
        6 | 7 => 80,
        _ => 128,
    };
    let mut d = if g.bool() { g.bytes_each(n) } else { g.bytes(n) };
    // runs of equal bytes at the places where fields meet
    for _ in 0..g.us(3) {
        let a = *g.pick(&[0usize, 1, 31, 32, 33, 40, 62, 63, 64, 72, 80, 96]);
        let l = *g.pick(&[1usize, 1, 2, 8, 31, 32]);
        let v = *g.pick(&[0u8, 0, 1, 0xff]);
        let (a, b) = (a.min(n), (a + l).min(n));
        d[a..b].fill(v);
    }
    if ty >= 7 {
        d[32] %= 41;
        if d[..32] == ids().swig {
            return Ok(());
        }
    }
    let acts = enc_actions(&[mk::all()]);
    let alen = auth_len(ty).unwrap();
    let mut full = SwigImg::new([7; 32], 1, 2).enc();
    full.resize(HEADER + 16 + alen + acts.len(), 0);
    let mut cage = Cage::new(&full, 0x22);
    let r = no_panic(|| {
        let b = unsafe { std::slice::from_raw_parts_mut(cage.get_mut().as_mut_ptr(), full.len()) };
        let mut b = e(SwigBuilder::new_from_bytes(b))?;
        e(b.add_role(AuthorityType::try_from(ty).unwrap(), &d, &acts))
    })
    .map_err(|m| bad("register-abort", format!("kind {ty} {}: {m}", hex(&d))))?;
    ensure!(r.is_ok(), "good-refused", "kind {ty} refused {}: {r:?}", hex(&d));
    let got = &cage.get()[HEADER + 16..HEADER + 16 + alen];
    let want = ref_stored(ty, &d);
    ensure!(
        got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| b.is_none() || *b == Some(*a)),
        "stored",
        "kind {ty} created from {} is stored as {}",
        hex(&d),
        hex(got)
    );
    Ok(())
}
fn run14(g: &mut Gen, cx: &mut Cx) -> R {
    for _ in 0..3 {
        raw14(g)?;
    }
    let id: [u8; 32] = g.arr();
    let (bump, wb) = (g.u8(), g.u8());
    let mut img = SwigImg::new(id, bump, wb);
    let mut creds: Vec<Cred> = vec![];
    let mut bytes;
    // the header of a new wallet
    {
        let mut cage = Cage::new(&[0; HEADER], 0x11);
        let d = unsafe { std::slice::from_raw_parts_mut(cage.get_mut().as_mut_ptr(), HEADER) };
        e(SwigBuilder::create(d, Swig::new(id, bump, wb)).map(|_| ())).map_err(|m| bad("create", m))?;
        ensure!(cage.get() == &img.enc()[..], "header", "header {} expected {}", hex(cage.get()), hex(&img.enc()));
        bytes = cage.get().to_vec();
    }
    let mut refused = 0;
    for _ in 0..1 + g.us(5) {
        let c = rand_cred(g);
        let mut data = c.create();
        let mut ty = c.ty();
        let mut stored = c.stored();
        let mut ok = true;
        let mut stored_cred = Some(c.clone());
        match g.below(10) {
            0 => {
                // wrong size
                if g.bool() {
                    data.pop();
                } else {
                    data.push(g.u8());
                }
                ok = false;
            }
            1 => {
                let n = g.us(140);
                if n != data.len() && !(ty == 3 && (n == 33 || n == 64)) {
                    data.resize(n, 7);
                    ok = false;
                }
            }
            2 if matches!(ty, 7 | 8) => {
                data[32] = 41 + g.u8() % 215;
                ok = false;
            }
            3 if matches!(ty, 7 | 8) => {
                data[..32].copy_from_slice(&ids().swig);
                ok = false;
            }
            4 if ty == 4 => {
                // compressed key in the 64-byte field
                if let Cred::K1S { sk, .. } = &c {
                    let k = k1_pubc(sk);
                    data[..64].fill(0);
                    data[..33].copy_from_slice(&k);
                }
            }
            5 if matches!(ty, 2 | 4 | 6 | 8) => {
                // a session key chosen up front is kept but not active
                let k: [u8; 32] = g.arr();
                let o = match ty {
                    2 => 32,
                    4 => 64,
                    6 => 40,
                    _ => 80,
                };
                data[o..o + 32].copy_from_slice(&k);
                if ty == 8 && g.bool() {
                    data[120..128].copy_from_slice(&g.u64().to_le_bytes()); // a claimed expiry
                }
                set_session(ty, &mut stored, &k, 0);
            }
            6 if ty == 1 || ty == 5 => {
                let k = g.bytes(data.len());
                data = k.clone();
                stored[..k.len()].copy_from_slice(&k);
                stored_cred = Some(if ty == 1 { Cred::Ed { pk: k.try_into().unwrap() } } else { Cred::R1 { pk: k.try_into().unwrap() } });
            }
            7 => {
                let t = 1 + g.below(8) as u16;
                // data of one kind offered as another
                let fits = |t: u16, n: usize| match t {
                    1 => n == 32,
                    2 => n == 72,
                    3 => n == 33 || n == 64,
                    4 => n == 104,
                    5 => n == 33,
                    6 => n == 80,
                    7 => n == 80,
                    _ => n == 128,
                };
                if !fits(t, data.len()) {
                    ty = t;
                    ok = false;
                }
            }
            _ => {}
        }
        let t = AuthorityType::try_from(ty).unwrap();
        let alen = auth_len(ty).unwrap();
        ensure!(authority_type_to_length(&t) == Ok(alen), "length", "stored length of kind {ty}");
        let acts = valid_acts(g, 2);
        let ad = enc_actions(&acts);
        let mut full = bytes.clone();
        full.resize(bytes.len() + 16 + alen + ad.len(), 0);
        let mut cage = Cage::new(&full, 0x22);
        let got = no_panic(|| {
            let d = unsafe { std::slice::from_raw_parts_mut(cage.get_mut().as_mut_ptr(), full.len()) };
            let mut b = e(SwigBuilder::new_from_bytes(d))?;
            e(b.add_role(t, &data, &ad))
        })
        .map_err(|m| bad("register-abort", format!("kind {ty}, {} bytes: {m}", data.len())))?;
        ensure!(cage.intact(), "outside", "wrote outside the account");
        match got {
            Ok(()) => {
                ensure!(ok, "bad-accepted", "kind {ty} accepted {}", hex(&data));
                img.push(ty, stored, acts);
                creds.push(stored_cred.take().unwrap());
                ensure!(cage.get() == &img.enc()[..], "stored", "kind {ty} created from {} is stored wrongly: {} expected {}", hex(&data), hex(cage.get()), hex(&img.enc()));
                bytes = cage.get().to_vec();
            }
            Err(m) => {
                ensure!(!ok, "good-refused", "kind {ty} refused with {m}: {}", hex(&data));
                ensure!(cage.get()[..bytes.len()] == bytes[..], "refused-changes", "a refused credential changed the wallet");
                refused += 1;
            }
        }
    }
    // remove one now and then: lookups must follow
    if creds.len() > 1 && g.chance(1, 3) {
        let i = g.us(creds.len());
        let id = img.roles[i].id;
        let mut cage = Cage::new(&bytes, 0x33);
        let (end, gone) = {
            let d = unsafe { std::slice::from_raw_parts_mut(cage.get_mut().as_mut_ptr(), bytes.len()) };
            let mut b = e(SwigBuilder::new_from_bytes(d)).map_err(|m| bad("parse", m))?;
            e(b.remove_role(id)).map_err(|m| bad("remove", m))?
        };
        let size = img.roles[i].bytes();
        img.roles.remove(i);
        creds.remove(i);
        ensure!(HEADER + end == bytes.len() - size && gone == size, "remove-size", "removing {size} bytes reported {end}, {gone}");
        ensure!(cage.intact(), "outside", "wrote outside the account");
        bytes = cage.get()[..HEADER + end].to_vec();
        ensure!(bytes == img.enc(), "removed", "after removing role {id} the rest is not what it was");
    }
    // what the wallet reports about each role, and finding them again
    let mut vain = 0;
    {
        let mut cage = Cage::new(&bytes, 0x44);
        let sw = e(SwigWithRoles::from_bytes(cage.get())).map_err(|m| bad("parse", m))?;
        for (r, c) in img.roles.iter().zip(&creds) {
            let ro = e(sw.get_role(r.id)).map_err(|m| bad("get-role", m))?.ok_or(bad("get-role", "gone"))?;
            let a = ro.authority;
            ensure!(a.authority_type() as u16 == r.ty && a.length() == r.auth.len() && a.session_based() == (r.ty % 2 == 0), "report", "kind {} misreported", r.ty);
            let id = match c {
                Cred::Ex { prefix, .. } | Cred::ExS { prefix, .. } => prefix.clone(),
                _ => query(c, false),
            };
            ensure!(a.identity() == Ok(&id[..]), "identity", "kind {} identity {:?}", r.ty, a.identity().map(hex));
            let od = if matches!(r.ty, 3..=6) { Some(0) } else { None };
            ensure!(a.signature_odometer() == od, "odometer", "kind {} counter {:?}", r.ty, a.signature_odometer());
        }
        for _ in 0..1 + g.us(6) {
            let c = if g.bool() && !creds.is_empty() { g.pick(&creds).clone() } else { rand_cred(g) };
            let mut q = query(&c, g.bool());
            if g.chance(1, 3) {
                let i = g.us(q.len());
                // reserved and padding bytes of a program-exec query carry no meaning
                let free = matches!(c, Cred::Ex { ref prefix, .. } if (33..40).contains(&i) || i >= 40 + prefix.len());
                if !free {
                    q[i] ^= 1 << g.below(8);
                }
            }
            if g.chance(1, 8) {
                q.truncate(31);
            }
            let want = img.roles.iter().zip(&creds).find(|(_, c)| q.len() >= 32 && named(c, &q)).map(|(r, _)| r.id);
            let got = no_panic(|| e(sw.lookup_role_id(&q))).map_err(|m| bad("find-abort", format!("{m} for {}", hex(&q))))?;
            ensure!(got == Ok(want), "find", "{} looked up as {}: {got:?} expected {want:?} among {:?}", c.name(), hex(&q), creds);
            if want.is_none() {
                vain += 1;
            }
            // each role on its own
            for (r, c) in img.roles.iter().zip(&creds) {
                let ro = sw.get_role(r.id).unwrap().unwrap();
                if q.len() >= 32 {
                    let m = no_panic(|| ro.authority.match_data(&q)).map_err(|m| bad("match-abort", m))?;
                    ensure!(m == named(c, &q), "match", "{} matched {} = {m}", c.name(), hex(&q));
                }
            }
        }
        let _ = cage.get_mut();
    }
    if !creds.is_empty() && refused + vain > 0 {
        cx.hit();
    }
    cx.label(match creds.len() {
        0 => "nothing stored",
        1 => "one role",
        _ => "several roles",
    });
    cx.note(|| format!("{:?}", creds.iter().map(|c| c.name()).collect::<Vec<_>>()));
    Ok(())
}

// ------------------------------------------------------------------- P17
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    kind: u8,
    version: u8,
    reserved: [u8; 4],
    value: Vec<u8>,
}
fn rec_bytes(r: &Rec) -> Vec<u8> {
    let mut d = vec![r.kind, r.version];
    d.extend((r.value.len() as u16).to_le_bytes());
    d.extend(r.reserved);
    d.extend(&r.value);
    d
}
/// Reference reader: the first record.
fn ref_read(d: &[u8]) -> Option<(Rec, usize)> {
    if d.len() < 8 {
        return None;
    }
    let n = u16::from_le_bytes([d[2], d[3]]) as usize;
    if d.len() < 8 + n {
        return None;
    }
    Some((Rec { kind: d[0], version: d[1], reserved: d[4..8].try_into().unwrap(), value: d[8..8 + n].to_vec() }, 8 + n))
}
pub fn p17() -> Prop {
    Prop {
        id: "P17",
        rule: "the tail was not empty",
        assumptions: &[],
        quick: 1_000_000,
        thorough: 6_000_000,
        fixed: None,
        run: run17,
    }
}
/// Real requests that grow, shrink or leave the role region of a wallet that
/// has a record; other wallets without one stay without.
fn run17_program(g: &mut Gen, cx: &mut Cx) -> R {
    use super::party::any_kind;
    use super::scene::*;
    let mut v = valid_acts(g, 3);
    v.retain(|x| x.ty != perm::SCOPE);
    v.push(mk::sol(5));
    let mut s = Scene::new(0, &[(Cred::nth(any_kind(g), 0), vec![mk::all()]), (Cred::nth(any_kind(g), 1), v), (Cred::nth(any_kind(g), 2), vec![mk::flag(perm::MANAGE)])]);
    let (a, p) = (s.w.a.clone(), s.w.payer);
    let mut tail: Vec<u8> = vec![];
    if g.chance(5, 6) {
        let k = kn("claimer", 9);
        let o = s.w.go(&set_rent_claimer(&a, &p, 0, &k), 0);
        ensure!(o.ok(), "honest", "set rent claimer: {}", o.err());
        tail.extend([1, 1, 32, 0, 0, 0, 0, 0]);
        tail.extend(k);
        cx.hit();
    }
    let steps = 1 + g.us(6);
    for _ in 0..steps {
        let role = *g.pick(&[0u32, 0, 2]);
        let what = *g.pick(&[0usize, 2, 2, 3, 4, 4, 5, 5, 6, 6, 8, 16]);
        let call = if g.chance(1, 6) {
            let idx = [g.below(4) as u8];
            update_authority(&a, &p, role, 1, 3, &idx)
        } else {
            request(g, &s, role, what)
        };
        let o = s.w.go(&call, role);
        cx.note(|| format!("{} by {role}: {}", REQUESTS[what], o.err()));
        let d = s.w.bank.get(&a.swig).data;
        let i = s.w.img().map_err(|e| bad("program/decode", format!("after {}: {e}", REQUESTS[what])))?;
        ensure!(i.tail == tail, "program/tail", "after {} the tail is {} instead of {}", REQUESTS[what], hex(&i.tail), hex(&tail));
        let read = no_panic(|| {
            let w = SwigWithRoles::from_bytes(&d).map_err(|_| ())?;
            w.get_role(0).map_err(|_| ())?.ok_or(())?;
            Ok::<_, ()>(())
        });
        ensure!(matches!(read, Ok(Ok(()))), "program/read", "after {} the account no longer reads: {read:?}", REQUESTS[what]);
        ensure!(d.ends_with(&tail), "program/tail", "after {} the account does not end in its record", REQUESTS[what]);
        cx.label(if o.ok() { "program: accepted" } else { "program: refused" });
    }
    Ok(())
}
fn run17(g: &mut Gen, cx: &mut Cx) -> R {
    if g.chance(1, 40) {
        return run17_program(g, cx);
    }
    let mut d = vec![];
    let n = [1, 1, 1, 0, 2, 3][g.us(6)];
    for _ in 0..n {
        let good = g.chance(2, 3);
        let r = Rec {
            kind: if good { 1 } else { g.below(4) as u8 },
            version: if good { 1 } else { g.below(3) as u8 },
            reserved: if good || g.bool() { [0; 4] } else { g.arr() },
            value: {
                let n = if good { 32 } else { *g.pick(&[0usize, 1, 31, 32, 33, 40, 64]) };
                g.bytes(n)
            },
        };
        d.extend(rec_bytes(&r));
    }
    match g.below(8) {
        0 if !d.is_empty() => {
            let n = g.us(d.len());
            d.truncate(n)
        }
        1 => {
            let n = 1 + g.us(48);
            d.extend(vec![0; n])
        }
        2 if !d.is_empty() => {
            let i = g.us(d.len().min(10));
            d[i] ^= 1 << g.below(8)
        }
        3 => {
            let n = g.us(90);
            d = g.bytes(n)
        }
        4 if d.len() >= 8 => {
            let x = g.u16();
            d[2..4].copy_from_slice(&x.to_le_bytes())
        }
        5 if d.len() >= 8 => {
            let i = 4 + g.us(4);
            d[i] = g.u8()
        }
        _ => {}
    }
    cx.note(|| format!("tail {}", hex(&d)));
    if !d.is_empty() {
        cx.hit();
    }
    let strict: Result<Option<[u8; 32]>, ()> = if d.is_empty() {
        Ok(None)
    } else {
        match ref_read(&d) {
            Some((r, n)) if d.len() == 40 && n == 40 && r.kind == 1 && r.version == 1 && r.reserved == [0; 4] => Ok(Some(r.value.try_into().unwrap())),
            _ => Err(()),
        }
    };
    cx.label(match strict {
        Ok(None) => "empty",
        Ok(_) => "well formed",
        Err(_) => "malformed",
    });
    macro_rules! np {
        ($x:expr, $n:expr) => {
            no_panic(|| $x).map_err(|m| bad("tail-abort", format!("{} on {}: {m}", $n, hex(&d))))?
        };
    }
    let got = np!(rent_claimer::read_strict(&d).map(|x| x.copied()).map_err(|_| ()), "read_strict");
    ensure!(got == strict, "strict", "tail {}: {got:?} expected {strict:?}", hex(&d));
    let saved = np!(SavedTail::take(&d).map_err(|_| ()), "take");
    ensure!(saved.is_ok() == strict.is_ok(), "take", "tail {} saved: {}", hex(&d), saved.is_ok());
    if let Ok(Some(k)) = strict {
        ensure!(rent_claimer::entry(&k)[..] == d[..], "entry", "entry for {} is not {}", short(&k), hex(&d));
    }
    let k: [u8; 32] = g.arr();
    let en = rent_claimer::entry(&k);
    ensure!(en.len() == RENT_TLV && rent_claimer::read_strict(&en) == Ok(Some(&k)), "entry-round-trip", "{}", hex(&en));
    ensure!(tail::MAX_TAIL_LEN == RENT_TLV, "max", "largest tail {}", tail::MAX_TAIL_LEN);

    // generic readers
    let h = np!(TailHeader::parse(&d), "parse");
    if d.len() < 8 {
        ensure!(h == Err(TailReadError::TooShort), "header", "{h:?}");
    } else {
        let n = u16::from_le_bytes([d[2], d[3]]);
        let w = TailHeader { kind: d[0], version: d[1], value_len: n, payload: d[4..8].try_into().unwrap() };
        ensure!(h == Ok(w) && w.total_len() == Ok(8 + n as usize), "header", "{h:?}");
    }
    let first = np!(rent_claimer::RentClaimerEntry::read(&d).map(|(x, n)| (*x.claimer, n)).ok(), "read");
    let want = ref_read(&d).filter(|(r, _)| r.kind == 1 && r.value.len() == 32).map(|(r, n)| (<[u8; 32]>::try_from(r.value).unwrap(), n));
    ensure!(first == want, "read", "{first:?} expected {want:?} on {}", hex(&d));
    let any = np!(
        tail::AnyTailEntry::read(&d)
            .map(|(x, n)| match x {
                tail::AnyTailEntry::RentClaimer(r) => (Rec { kind: r.header.kind, version: r.header.version, reserved: r.header.payload, value: r.claimer.to_vec() }, n),
                tail::AnyTailEntry::Unknown(u) => (Rec { kind: u.header.kind, version: u.header.version, reserved: u.header.payload, value: u.value.to_vec() }, n),
            })
            .ok(),
        "any"
    );
    let want = ref_read(&d).filter(|(r, _)| r.kind != 1 || r.value.len() == 32);
    ensure!(any == want, "any", "{any:?} expected {want:?}");
    // all records / first record of a kind
    let mut p = 0;
    let mut all = Some(0);
    let mut firstrc: Result<Option<[u8; 32]>, ()> = Ok(None);
    let mut done = false;
    while p < d.len() {
        match ref_read(&d[p..]) {
            None => {
                all = None;
                if !done {
                    firstrc = Err(());
                }
                break;
            }
            Some((r, n)) => {
                if r.kind == 1 {
                    if r.value.len() != 32 {
                        all = None;
                    }
                    if !done {
                        firstrc = r.value[..].try_into().map(Some).map_err(|_| ());
                        done = true;
                    }
                }
                all = all.map(|x| x + 1);
                p += n;
            }
        }
    }
    let got = np!(tail::AnyTailEntry::read_all(&d).map(|v| v.len()).ok(), "read_all");
    ensure!(got == all, "read-all", "{got:?} expected {all:?} on {}", hex(&d));
    let got = np!(rent_claimer::read(&d).map(|x| x.copied()).map_err(|_| ()), "read first");
    ensure!(got == firstrc, "read-first", "{got:?} expected {firstrc:?} on {}", hex(&d));
    for b in [g.u8(), 1, 0] {
        ensure!(TailKind::from_u8(b).map(|k| k.as_u8()) == if b == 1 { Some(1) } else { None }, "kind", "{b}");
    }

    // the tail in an account: regions, and a resize of the roles
    let mut img = SwigImg::new(g.arr(), g.u8(), g.u8());
    for i in 0..g.us(4) {
        let c = any_cred(g, i as u64);
        let a = stored_acts(g, 3);
        img.push(c.ty(), c.stored(), a);
    }
    img.tail = d.clone();
    let bytes = img.enc();
    let roles = img.enc_roles();
    let mut cage = Cage::new(&bytes, 0x99);
    ensure!(Swig::roles_end_offset(cage.get()) == Ok(HEADER + roles.len()), "roles-end", "{:?}", Swig::roles_end_offset(cage.get()));
    {
        let (r, t) = e(Swig::split_roles_and_tail(cage.get())).map_err(|m| bad("split", m))?;
        ensure!(r == &roles[..] && t == &d[..], "split", "regions");
        let p = e(Swig::split_parts(cage.get())).map_err(|m| bad("split", m))?;
        ensure!(p.roles == &roles[..] && p.tail == &d[..] && p.state.roles as usize == img.roles.len() && p.state.id == img.id, "split", "parts");
    }
    {
        let (r, t) = e(Swig::split_roles_and_tail_mut(cage.get_mut())).map_err(|m| bad("split", m))?;
        ensure!(r == &roles[..] && t == &d[..], "split", "mutable regions");
        let p = e(Swig::split_parts_mut(cage.get_mut())).map_err(|m| bad("split", m))?;
        ensure!(p.roles == &roles[..] && p.tail == &d[..], "split", "mutable parts");
    }
    // damaged role boundaries are refused, never followed
    if !img.roles.is_empty() {
        let i = g.us(img.roles.len());
        let at: usize = HEADER + img.roles[..i].iter().map(|r| r.bytes()).sum::<usize>();
        let mut bad = bytes.clone();
        let start = at - HEADER;
        let b = if g.bool() { g.us(start + 16) as u32 } else { (bytes.len() - HEADER + 1) as u32 + g.u32() % 100_000 };
        bad[at + 12..at + 16].copy_from_slice(&b.to_le_bytes());
        let mut c2 = Cage::new(&bad, 0x98);
        let r = np!(Swig::roles_end_offset(c2.get()), "roles_end");
        ensure!(r.is_err(), "bad-boundary", "boundary {b} of role {i} (start {start}) accepted: {r:?}");
        ensure!(np!(SwigWithRoles::from_bytes(c2.get()).is_err(), "from_bytes"), "bad-boundary", "from_bytes");
        ensure!(np!(Swig::split_parts_mut(c2.get_mut()).is_err(), "split_parts_mut"), "bad-boundary", "split_parts_mut");
    }
    if bytes.len() > HEADER && g.chance(1, 4) {
        let n = g.us(HEADER);
        let short = Cage::new(&bytes[..n], 0x97);
        ensure!(np!(Swig::roles_end_offset(short.get()).is_err(), "roles_end short"), "short", "{n} bytes");
        ensure!(np!(SwigWithRoles::from_bytes(short.get()).is_err(), "from_bytes short"), "short", "{n} bytes");
    }
    if let Ok(s) = &saved {
        ensure!(s.len() == d.len() && s.is_empty() == d.is_empty(), "saved-len", "{} for {}", s.len(), d.len());
        let n = g.us(120);
        let mut buf = Cage::new(&g.bytes(n), 0x55);
        let before = buf.get().to_vec();
        let r = np!(s.restore(unsafe { std::slice::from_raw_parts_mut(buf.get_mut().as_mut_ptr(), n) }).is_ok(), "restore");
        ensure!(r == (n >= d.len()) || d.is_empty(), "restore", "{n} bytes for a tail of {}: {r}", d.len());
        if r {
            let mut w = before.clone();
            let at = n - d.len();
            w[at..].copy_from_slice(&d);
            ensure!(buf.get() == &w[..], "restore", "restored elsewhere");
        }
        let mut buf = Cage::new(&before, 0x55);
        let at = if g.chance(1, 10) { usize::MAX - g.us(50) } else { g.us(130) };
        let r = np!(s.restore_at(unsafe { std::slice::from_raw_parts_mut(buf.get_mut().as_mut_ptr(), n) }, at).is_ok(), "restore_at");
        let fits = d.is_empty() || at.checked_add(d.len()).is_some_and(|x| x <= n);
        ensure!(r == fits, "restore-at", "{n} bytes, at {at}, tail {}: {r}", d.len());
        let mut w = before.clone();
        if fits && !d.is_empty() {
            w[at..at + d.len()].copy_from_slice(&d);
        }
        ensure!(buf.get() == &w[..] && buf.intact(), "restore-at", "wrong bytes");
    }
    Ok(())
}

// ------------------------------------------------------------------- P19
pub fn p19() -> Prop {
    Prop {
        id: "P19",
        rule: "all",
        assumptions: &["SHA-256 based address derivation has no collisions"],
        quick: 150_000,
        thorough: 1_500_000,
        fixed: Some(fixed19),
        run: run19,
    }
}
fn fixed19(_: &mut Cx) -> R {
    // every numeric code
    for x in 0..=u16::MAX {
        let p = Permission::try_from(x).ok().map(|p| p as u16);
        ensure!(p == if x <= 26 { Some(x) } else { None }, "permission-code", "{x} -> {p:?}");
        let a = AuthorityType::try_from(x).ok().map(|p| p as u16);
        ensure!(a == if (1..=8).contains(&x) { Some(x) } else { None }, "authority-code", "{x} -> {a:?}");
        let b = Permission::try_from(&x.to_le_bytes()[..]).ok().map(|p| p as u16);
        ensure!(p == b, "permission-bytes", "{x} -> {b:?}");
    }
    for n in [0usize, 1, 3, 4] {
        ensure!(Permission::try_from(&vec![0u8; n][..]).is_err(), "permission-bytes", "{n} bytes accepted");
    }
    let names: [(&str, u16); 26] = [
        ("SolLimit", 1), ("SolRecurringLimit", 2), ("Program", 3), ("ProgramScope", 4), ("TokenLimit", 5), ("TokenRecurringLimit", 6), ("All", 7),
        ("ManageAuthority", 8), ("SubAccount", 9), ("StakeLimit", 10), ("StakeRecurringLimit", 11), ("StakeAll", 12), ("ProgramAll", 13),
        ("ProgramCurated", 14), ("AllButManageAuthority", 15), ("SolDestinationLimit", 16), ("SolRecurringDestinationLimit", 17),
        ("TokenDestinationLimit", 18), ("TokenRecurringDestinationLimit", 19), ("CloseSwigAuthority", 20), ("ReplaceAuthority", 21),
        ("SubAccountV2Create", 22), ("SubAccountV2All", 23), ("SubAccountV2Sign", 24), ("SubAccountV2Withdraw", 25), ("SubAccountV2Toggle", 26),
    ];
    for (n, c) in names {
        let p = Permission::try_from(c).map(|p| format!("{p:?}")).unwrap_or_default();
        ensure!(p == n, "permission-name", "{c} is {p}, not {n}");
    }
    let auths = ["Ed25519", "Ed25519Session", "Secp256k1", "Secp256k1Session", "Secp256r1", "Secp256r1Session", "ProgramExec", "ProgramExecSession"];
    for (i, n) in auths.iter().enumerate() {
        let c = i as u16 + 1;
        let t = AuthorityType::try_from(c).unwrap();
        ensure!(format!("{t:?}") == *n, "authority-name", "{c} is {t:?}, not {n}");
        ensure!(authority_type_to_length(&t) == Ok(auth_len(c).unwrap()), "authority-length", "{n}");
    }
    ensure!(authority_type_to_length(&AuthorityType::None).is_err(), "authority-length", "none");
    for x in 0..=255u8 {
        let d = Discriminator::try_from(x).ok().map(|d| d as u8);
        ensure!(d == if matches!(x, 1 | 2 | 255) { Some(x) } else { None }, "tag", "{x} -> {d:?}");
        ensure!(TailKind::from_u8(x).is_some() == (x == 1), "tail-kind", "{x}");
    }
    for ty in KINDS {
        let (l, r, t) = with_kind!(ty, T => (<T as Transmutable>::LEN, <T as Actionable>::REPEATABLE, <T as Actionable>::TYPE as u16));
        ensure!(l == body_len(ty).unwrap() && r == repeatable(ty) && t == ty, "kind-table", "kind {ty}: length {l}, repeatable {r}, code {t}");
    }
    ensure!(Swig::LEN == HEADER && SubAccountV2::LEN == 72 && Action::LEN == 8, "sizes", "account sizes");
    ensure!(swig_assertions::ID == ids().swig, "program-id", "program address");
    Ok(())
}
fn run19(g: &mut Gen, cx: &mut Cx) -> R {
    cx.hit();
    let ids2: [[u8; 32]; 2] = [g.arr(), if g.bool() { kn("id", g.below(4)) } else { g.arr() }];
    let nums: [u32; 2] = [g.u32(), g.u32()];
    let bump = [g.u8()];
    let mut seen: Vec<(String, Vec<u8>)> = vec![];
    for id in ids2 {
        let wkey = id;
        let s = swig_account_seeds(&id);
        ensure!(s[..] == [&b"swig"[..], &id[..]], "seeds", "config seeds");
        ensure!(swig_account_seeds_with_bump(&id, &bump)[..] == [&b"swig"[..], &id[..], &bump[..]], "seeds", "config seeds with bump");
        let sg = swig_account_signer(&id, &bump);
        ensure!(sg.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == [b"swig".to_vec(), id.to_vec(), bump.to_vec()], "seeds", "config signer");
        seen.push((format!("config {}", short(&id)), s.concat()));
        let s = swig_wallet_address_seeds(&wkey);
        ensure!(s[..] == [&b"swig-wallet-address"[..], &wkey[..]], "seeds", "wallet seeds");
        ensure!(swig_wallet_address_seeds_with_bump(&wkey, &bump)[..] == [&b"swig-wallet-address"[..], &wkey[..], &bump[..]], "seeds", "wallet seeds with bump");
        let sg = swig_wallet_address_signer(&wkey, &bump);
        ensure!(sg.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == [b"swig-wallet-address".to_vec(), wkey.to_vec(), bump.to_vec()], "seeds", "wallet signer");
        seen.push((format!("wallet {}", short(&id)), s.concat()));
        for n in nums {
            let le = n.to_le_bytes();
            let want = |t: &str| -> Vec<Vec<u8>> { vec![t.as_bytes().to_vec(), id.to_vec(), le.to_vec()] };
            let wantb = |t: &str| -> Vec<Vec<u8>> { vec![t.as_bytes().to_vec(), id.to_vec(), le.to_vec(), bump.to_vec()] };
            macro_rules! three {
                ($t:expr, $a:expr, $b:expr, $c:expr) => {
                    let s = $a;
                    ensure!(s.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == want($t), "seeds", "{} seeds", $t);
                    ensure!($b.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == wantb($t), "seeds", "{} seeds with bump", $t);
                    ensure!($c.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == wantb($t), "seeds", "{} signer", $t);
                    seen.push((format!("{} {} {}", $t, short(&id), n), s.concat()));
                };
            }
            three!("sub-account", sub_account_seeds(&id, &le), sub_account_seeds_with_bump(&id, &le, &bump), sub_account_signer(&id, &le, &bump));
            three!("sub-account-v2-state", sub_account_v2_state_seeds(&id, &le), sub_account_v2_state_seeds_with_bump(&id, &le, &bump), sub_account_v2_state_signer(&id, &le, &bump));
            three!("sub-account-v2", sub_account_v2_asset_seeds(&id, &le), sub_account_v2_asset_seeds_with_bump(&id, &le, &bump), sub_account_v2_asset_signer(&id, &le, &bump));
        }
    }
    for (i, (n, s)) in seen.iter().enumerate() {
        for (m, t) in &seen[..i] {
            ensure!(s != t || n == m, "collision", "{n} and {m} have the same seeds");
        }
    }
    // numbered sub-account state record
    let st = SubAccountV2::new(g.u8(), g.u8(), nums[0], ids2[0], ids2[1]);
    let b = e(st.into_bytes()).map_err(|m| bad("state", m))?.to_vec();
    let mut w = vec![2, b[1], b[2], 1];
    w.extend(nums[0].to_le_bytes());
    w.extend(ids2[0]);
    w.extend(ids2[1]);
    ensure!(b == w && b[1] == st.bump && b[2] == st.asset_bump, "state", "record {} expected {}", hex(&b), hex(&w));
    let mut raw = if g.bool() { b.clone() } else { g.bytes(72) };
    raw[0] = match g.below(3) {
        0 => 2,
        1 => g.below(4) as u8,
        _ => g.u8(),
    };
    raw[3] = match g.below(3) {
        0 => g.below(2) as u8,
        1 => 2,
        _ => g.u8(),
    };
    let mut cage = Cage::new(&raw, 0x31);
    let s = e(unsafe { SubAccountV2::load_mut_unchecked(cage.get_mut()) }).map_err(|m| bad("state", m))?;
    ensure!(s.check_discriminator().is_ok() == (raw[0] == 2), "state-tag", "tag {} -> {:?}", raw[0], s.check_discriminator());
    let want = match raw[3] {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    };
    ensure!(s.is_enabled().ok() == want, "state-enabled", "enabled byte {} -> {:?}", raw[3], s.is_enabled());
    let on = g.bool();
    s.set_enabled(on);
    ensure!(s.subacc_id == u32::from_le_bytes(raw[4..8].try_into().unwrap()), "state", "number");
    let mut w = raw.clone();
    w[3] = on as u8;
    ensure!(cage.get() == &w[..], "state-toggle", "toggling changed something else");
    let n = [0usize, 71, 73, 72][g.us(4)];
    let z = vec![0u8; n];
    ensure!(unsafe { SubAccountV2::load_unchecked(&z) }.is_ok() == (n == 72), "state-size", "{n} bytes");
    // real addresses, now and then (expensive)
    if g.chance(1, 40) {
        let a = Addr::new(ids2[0]);
        let (k, b) = pinocchio::pubkey::find_program_address(&swig_account_seeds(&ids2[0]), &swig_assertions::ID);
        ensure!((k, b) == (a.swig, a.bump), "address", "config address");
        let (k, b) = pinocchio::pubkey::find_program_address(&swig_wallet_address_seeds(&a.swig), &swig_assertions::ID);
        ensure!((k, b) == (a.wallet, a.wallet_bump), "address", "wallet address");
        // the address checks accept exactly the address (and bump) that belongs to the seeds
        let other = kn("other", 1);
        let bb = [b];
        let seeds = swig_wallet_address_seeds_with_bump(&a.swig, &bb);
        ensure!(swig_assertions::check_self_pda(&seeds, &a.wallet, ProgramError::InvalidSeeds) == Ok(b), "pda-check", "own address refused");
        ensure!(swig_assertions::check_self_pda(&seeds, &other, ProgramError::InvalidSeeds).is_err(), "pda-check", "other address accepted");
        let s2 = swig_wallet_address_seeds(&a.swig);
        ensure!(swig_assertions::find_self_pda(&s2, &a.wallet, ProgramError::InvalidSeeds) == Ok(b), "pda-check", "own address not found");
        ensure!(swig_assertions::find_self_pda(&s2, &other, ProgramError::InvalidSeeds).is_err(), "pda-check", "other address found");
        ensure!(swig_assertions::check_any_pda(&s2, &a.wallet, &ids().swig, ProgramError::InvalidSeeds) == Ok(b), "pda-check", "own address refused");
        ensure!(swig_assertions::check_any_pda(&s2, &a.wallet, &ids().token, ProgramError::InvalidSeeds).is_err(), "pda-check", "other program accepted");
        cx.label("addresses");
    }
    Ok(())
}
