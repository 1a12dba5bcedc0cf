//! Who controls the wallet: histories of role administration against a model
//! of the config account (P01), and who may do it (P23).
use super::common::*;
use super::lists::{body_ok, list_ok, maybe_broken};
use super::scene::*;
use std::collections::BTreeMap;

pub fn p01() -> Prop {
    Prop {
        id: "P01",
        rule: "at least three requests of two kinds were accepted and one refused",
        assumptions: &["no role watches a balance inside the system program's account", "the account grows by at most 10240 bytes per request (runtime limit)"],
        quick: 40_000,
        thorough: 400_000,
        fixed: None,
        run: |g, cx| history(g, cx, false),
    }
}
pub fn p23() -> Prop {
    Prop {
        id: "P23",
        rule: "a role without administrative rights was refused and one with them was accepted",
        assumptions: &[],
        quick: 40_000,
        thorough: 400_000,
        fixed: None,
        run: |g, cx| if g.chance(2, 3) { history(g, cx, true) } else { limited(g, cx) },
    }
}
pub fn admin(r: &RoleImg) -> bool {
    r.has(perm::ALL) || r.has(perm::MANAGE)
}
/// The model of one request: the new image, or why it must be refused.
type Model = Result<SwigImg, &'static str>;

fn dup(v: &[Act]) -> bool {
    let key = |x: &Act| if x.ty == perm::SUB2_CREATE { vec![] } else { x.body[..4].to_vec() };
    (1..v.len()).any(|i| v[i].ty >= perm::SUB2_CREATE && v[..i].iter().any(|x| x.ty == v[i].ty && key(x) == key(&v[i])))
}
/// grammar of a list without the "at least one" rule and without duplicates
fn entries(d: &[u8]) -> Option<Vec<Act>> {
    let (mut p, mut v) = (0, vec![]);
    while p < d.len() {
        let h = d.get(p..p + 8)?;
        let (ty, l) = (u16::from_le_bytes([h[0], h[1]]), u16::from_le_bytes([h[2], h[3]]) as usize);
        let b = d.get(p + 8..p + 8 + l)?;
        if !body_ok(ty, b) {
            return None;
        }
        v.push(act(ty, b));
        p += 8 + l;
    }
    Some(v)
}
/// the acting role's replay counter moves on an accepted signed request
pub fn count(img: &mut SwigImg, id: u32, cred: &Cred, root: bool) {
    if (3..=6).contains(&cred.ty()) && (!cred.session() || root) {
        if let Some(r) = img.role_mut(id) {
            let n = odometer(r.ty, &r.auth).wrapping_add(1);
            r.auth[36..40].copy_from_slice(&n.to_le_bytes());
        }
    }
}
fn session_open(r: &RoleImg, slot: u64) -> bool {
    r.ty % 2 == 1 || session_of(r.ty, &r.auth).2 >= slot
}
fn admin_set(g: &mut Gen) -> Vec<Act> {
    let mut v = valid_acts(g, 4);
    if !v.iter().any(|a| a.ty == perm::ALL || a.ty == perm::MANAGE) {
        let t = if g.bool() { perm::ALL } else { perm::MANAGE };
        let i = g.us(v.len() + 1);
        v.insert(i, mk::flag(t));
    }
    v
}
/// permissions that look administrative but are not
pub fn other_set(g: &mut Gen) -> Vec<Act> {
    let mut v = valid_acts(g, 4);
    v.retain(|a| a.ty != perm::ALL && a.ty != perm::MANAGE);
    if v.is_empty() || g.bool() {
        let t = *g.pick(&[perm::ALL_BUT, perm::CLOSE, perm::PROGRAM_ALL, perm::SUB2_CREATE, perm::STAKE_ALL, perm::REPLACE, perm::SUB]);
        if !(t >= perm::SUB2_CREATE && v.iter().any(|a| a.ty == t)) && !(t == perm::SUB && v.iter().any(|a| a.ty == t)) {
            let a = valid_act(g, t);
            let i = g.us(v.len() + 1);
            v.insert(i, a);
        }
    }
    if v.is_empty() {
        v.push(mk::flag(perm::CLOSE));
    }
    v
}

fn history(g: &mut Gen, cx: &mut Cx, mixed: bool) -> R {
    let mut w = World::new(g.below(3));
    let mut img = SwigImg::new(w.a.id, w.a.bump, w.a.wallet_bump);
    let mut creds: BTreeMap<u32, Cred> = BTreeMap::new();
    let slot = w.bank.slot;
    let n0 = 1 + g.us(4);
    for i in 0..n0 {
        let ty = 1 + g.below(8) as u16;
        let c = Cred::nth(ty, i as u64);
        let mut st = c.stored();
        if c.session() && g.chance(5, 6) {
            set_session(ty, &mut st, &w.session_key(img.role_counter), slot + 10_000);
        }
        let acts = if i == 0 && !mixed || g.chance(1, 3) { admin_set(g) } else { other_set(g) };
        let id = img.push(ty, st, acts);
        creds.insert(id, c);
        if g.chance(1, 4) {
            // ids of roles that are gone
            img.role_counter += 1 + g.below(300) as u32 + if g.chance(1, 8) { any_jump(g) } else { 0 };
        }
    }
    if g.chance(1, 3) {
        img.tail = rent_record(&kk("claimer"));
    }
    img.sub_counter = g.below(3) as u32;
    w.install(&img);
    if g.chance(1, 3) {
        let x = w.bank.lamports(&w.a.swig) + 1 + g.below(SOLS);
        w.bank.fund(w.a.swig, x);
    }
    w.bank.fund(w.a.wallet, WALLET_SOL);
    let (mut yes, mut no, mut kinds, mut denied, mut admitted) = (0, 0, std::collections::BTreeSet::new(), false, false);
    let steps = 2 + g.us(14);
    for step in 0..steps {
        w.bank.slot += g.below(20);
        if g.chance(1, 12) {
            let x = w.bank.lamports(&w.a.swig) + 1 + g.below(5_000_000);
            w.bank.fund(w.a.swig, x);
        }
        let slot = w.bank.slot;
        let all_ids: Vec<u32> = img.roles.iter().map(|r| r.id).collect();
        let any_id = |g: &mut Gen, img: &SwigImg| -> u32 {
            match g.weighted(&[12, 2, 2, 1]) {
                0 => *g.pick(&all_ids),
                1 => 0,
                2 => g.below(img.role_counter as u64 + 2) as u32,
                _ => g.u32(),
            }
        };
        let acting = if mixed || g.chance(1, 4) {
            any_id(g, &img)
        } else {
            img.roles.iter().find(|r| admin(r) && session_open(r, slot)).map(|r| r.id).unwrap_or(0)
        };
        let cred = creds.get(&acting).cloned().unwrap_or(Cred::Ed { pk: kk("nobody") });
        let me = img.role(acting).cloned();
        let live = me.as_ref().map_or(false, |r| session_open(r, slot));
        let is_admin = me.as_ref().map_or(false, admin);
        let (a, p) = (w.a.clone(), w.payer);
        let mut next = img.clone();
        let mut new_cred = None;
        let (call, name, model): (Call, &str, Result<(), &'static str>) = match g.weighted(&[5, 4, 8, 1, 2, 2, 2]) {
            0 => {
                let ty = if g.chance(1, 15) { g.below(12) as u16 } else { 1 + g.below(8) as u16 };
                let c = Cred::nth(ty.clamp(1, 8), g.below(40));
                let mut au = c.create();
                let acts = if g.chance(1, 4) { maybe_broken(g) } else if g.bool() { enc_actions(&admin_set(g)) } else { enc_actions(&other_set(g)) };
                let mut m = list_ok(&acts).map(|_| ());
                if ty != c.ty() {
                    m = Err("unknown authority kind");
                } else if g.chance(1, 15) {
                    let l = au.len();
                    au.truncate(l - 1 - g.us(3));
                    m = Err("credential cut off");
                }
                if !is_admin {
                    m = Err("not an administrator");
                }
                if acts.len() + 200 > 10240 {
                    continue;
                }
                if m.is_ok() {
                    let id = next.push(ty, c.stored(), list_ok(&acts).unwrap());
                    new_cred = Some((id, c.clone()));
                }
                (add_authority(&a, &p, acting, ty, &au, &acts, g.u8()), "add", m)
            }
            1 => {
                let t = any_id(g, &img);
                let mut m = if is_admin || t == acting { Ok(()) } else { Err("not an administrator") };
                if t == 0 {
                    m = Err("the root role");
                }
                if img.role(t).is_none() {
                    m = Err("no such role");
                }
                next.roles.retain(|r| r.id != t);
                (remove_authority(&a, &p, acting, t), "remove", m)
            }
            2 => {
                let t = any_id(g, &img);
                let tgt = img.role(t).cloned();
                let have = tgt.as_ref().map(|r| r.acts.clone()).unwrap_or_default();
                let (call, r): (Call, Result<Vec<Act>, &'static str>) = match g.below(5) {
                    x @ (0 | 1) => {
                        let l = if g.chance(1, 4) { maybe_broken(g) } else if g.bool() { enc_actions(&admin_set(g)) } else { enc_actions(&other_set(g)) };
                        let r = list_ok(&l);
                        if x == 0 {
                            (update_authority(&a, &p, acting, t, 0, &l), r)
                        } else {
                            let n = 1 + g.below(255) as u8;
                            (update_authority_old(&a, &p, acting, t, &l, n), r)
                        }
                    }
                    2 => {
                        let l = if g.chance(1, 4) { maybe_broken(g) } else { enc_actions(&valid_acts(g, 3)) };
                        let r = entries(&l).ok_or("bad entry").and_then(|v| {
                            let v = [&have[..], &v].concat();
                            if v.len() > 255 {
                                Err("too many")
                            } else if dup(&v) {
                                Err("duplicate")
                            } else {
                                Ok(v)
                            }
                        });
                        if l.is_empty() {
                            continue;
                        }
                        (update_authority(&a, &p, acting, t, 1, &l), r)
                    }
                    3 => {
                        let mut ts: Vec<u8> = (0..g.us(4)).map(|_| match g.below(9) {
                            0..=5 if !have.is_empty() => g.pick(&have).ty as u8,
                            // almost the code of a kind the role has
                            6 if !have.is_empty() => g.pick(&have).ty as u8 ^ (0x20 << g.below(3)),
                            _ => g.u8() % 30,
                        }).collect();
                        g.shuffle(&mut ts);
                        let v: Vec<Act> = have.iter().filter(|x| !ts.contains(&(x.ty as u8))).cloned().collect();
                        (update_authority(&a, &p, acting, t, 2, &ts), if v.is_empty() { Err("nothing left") } else { Ok(v) })
                    }
                    _ => {
                        let ix: Vec<u16> = (0..g.us(4)).map(|_| if g.chance(4, 5) { g.below(have.len() as u64 + 1) as u16 } else { g.u16() }).collect();
                        let mut b: Vec<u8> = ix.iter().flat_map(|x| x.to_le_bytes()).collect();
                        let v: Vec<Act> = have.iter().enumerate().filter(|(i, _)| !ix.contains(&(*i as u16))).map(|x| x.1.clone()).collect();
                        let mut r = if v.is_empty() { Err("nothing left") } else { Ok(v) };
                        if g.chance(1, 12) {
                            b.push(0);
                            r = Err("half an index");
                        }
                        (update_authority(&a, &p, acting, t, 3, &b), r)
                    }
                };
                if call.head.len() > 9000 {
                    continue;
                }
                let mut m = r.as_ref().map(|_| ()).map_err(|e| *e);
                if tgt.is_none() {
                    m = Err("no such role");
                }
                if !is_admin {
                    m = Err("not an administrator");
                }
                if m.is_ok() {
                    next.role_mut(t).unwrap().acts = r.unwrap();
                }
                (call, "update", m)
            }
            3 => {
                let c = kn("beneficiary", g.below(3));
                let ok = me.as_ref().map_or(false, |r| r.has(perm::ALL) || r.has(perm::CLOSE));
                let m = if !ok {
                    Err("may not set the beneficiary")
                } else if !img.tail.is_empty() {
                    Err("already set")
                } else {
                    next.tail = rent_record(&c);
                    Ok(())
                };
                (set_rent_claimer(&a, &p, acting, &c), "beneficiary", m)
            }
            4 => {
                let m = match next.role_mut(acting).and_then(|r| r.acts.iter_mut().find(|x| x.ty == perm::SUB && x.body[..32] == [0; 32])) {
                    Some(x) => {
                        let (k, b) = a.sub1(acting);
                        *x = mk::sub_full(&k, b, true, acting, &a.id);
                        Ok(())
                    }
                    None => Err("no unused sub-account right"),
                };
                (create_sub1(&a, &p, acting), "sub-account", m)
            }
            5 => {
                let n = img.sub_counter;
                let m = match next.role_mut(acting) {
                    Some(r) if r.has(perm::SUB2_CREATE) => {
                        let x = mk::sub2(perm::SUB2_ALL, n);
                        let full = r.acts.len() == 255;
                        if !r.acts.iter().any(|y| y.ty == x.ty && y.body[..4] == x.body[..4]) {
                            r.acts.push(x);
                            if full {
                                Err("too many")
                            } else {
                                Ok(())
                            }
                        } else {
                            Ok(())
                        }
                    }
                    _ => Err("no right to create numbered sub-accounts"),
                };
                next.sub_counter += 1;
                (create_sub2(&a, &p, acting, n), "numbered sub-account", m)
            }
            _ => {
                let k = kn("sess", g.below(4));
                let d = 1 + g.below(cred.max().max(1));
                let m = if cred.session() && me.is_some() {
                    let r = next.role_mut(acting).unwrap();
                    set_session(r.ty, &mut r.auth, &k, slot + d);
                    Ok(())
                } else {
                    Err("no sessions")
                };
                (create_session(&a, &p, acting, &k, d), "session", m)
            }
        };
        let mut model = model;
        if me.is_none() {
            model = Err("no such acting role");
        } else if !live && name != "session" {
            model = Err("no open session");
        }
        if let Ok(()) = model {
            count(&mut next, acting, &cred, call.root);
        }
        let before = w.bank.clone();
        let sg = sign_of(&w.bank, &a.swig, acting);
        let sealed = seal(&mut w.bank, &call, &cred, &sg);
        let o = w.bank.tx(&sealed.ixs, &sealed.signers);
        cx.note(|| format!("{step}: {name} by role {acting} ({}) [{}] -> {} expected {:?}", cred.name(), me.as_ref().map(|r| acts_str(&r.acts)).unwrap_or_default(), o.err(), model.as_ref().map(|_| ())));
        let who = cred.name();
        match model {
            Err(why) => {
                ensure!(!o.ok(), format!("accepted/{name}/{why}"), "{name} by role {acting} ({who}) was accepted although: {why}");
                ensure!(before.accts == w.bank.accts, format!("refused/{name}"), "a refused {name} changed something: {}", super::authvm::diff(&before, &w.bank));
                no += 1;
                denied |= why == "not an administrator";
            }
            Ok(()) => {
                if !o.ok() && img.roles.iter().any(|r| r.acts.iter().any(|x| x.ty == perm::SCOPE && x.body[80..112] == SYSTEM)) {
                    // a balance that cannot be read blocks every request that names the account
                    cx.label("unreadable scope target");
                    return Ok(());
                }
                ensure!(o.ok(), format!("refused/{name}"), "{name} by role {acting} ({who}) was refused: {}", o.err());
                let d = w.bank.get(&a.swig);
                ensure!(d.owner == ids().swig, "owner", "the config account changed owner");
                if d.data != next.enc() && plain(&d.data) != plain(&next.enc()) {
                    let now = SwigImg::dec(&d.data);
                    return fail(&format!("state/{name}"), format!("after {name} by role {acting} the account holds {} instead of {}", brief(&now), brief(&Ok(next))));
                }
                let (l0, l1, r0, r1) = (before.lamports(&a.swig), d.lamports, rent_min(before.get(&a.swig).data.len()), rent_min(d.data.len()));
                ensure!(l1 >= r1, format!("rent/{name}"), "config account has {l1} lamports, needs {r1}");
                if r1 >= r0 {
                    ensure!(l1 == l0.max(r1), format!("lamports/{name}"), "config account grew: {l0} -> {l1} lamports, rent {r0} -> {r1}");
                } else {
                    ensure!(l1 == l0 - (r0 - r1), format!("lamports/{name}"), "config account shrank: {l0} -> {l1} lamports, rent {r0} -> {r1}");
                }
                // nothing else in the world moved
                let mut made = vec![];
                if name == "sub-account" {
                    made.push(a.sub1(acting).0);
                }
                if name == "numbered sub-account" {
                    made.extend([a.sub2(img.sub_counter).0, a.sub2_state(img.sub_counter).0]);
                }
                let (mut b0, mut b1) = (before.clone(), w.bank.clone());
                let mut sum = [0u128; 2];
                for (i, b) in [&mut b0, &mut b1].into_iter().enumerate() {
                    for k in made.iter().chain([&a.swig, &p]) {
                        sum[i] += b.lamports(k) as u128;
                        b.accts.remove(k);
                    }
                }
                ensure!(sum[0] == sum[1], format!("lost/{name}"), "lamports {} -> {}", sum[0], sum[1]);
                ensure!(b0.accts == b1.accts, format!("else/{name}"), "{name} changed something else: {}", super::authvm::diff(&b0, &b1));
                img = next;
                if let Some((id, c)) = new_cred {
                    creds.insert(id, c);
                }
                yes += 1;
                kinds.insert(name);
                admitted |= is_admin && matches!(name, "add" | "remove" | "update");
                cx.label(name);
            }
        }
    }
    if if mixed { denied && admitted } else { yes >= 3 && kinds.len() >= 2 && no >= 1 } {
        cx.hit();
    }
    Ok(())
}
/// The record without the filler bytes of its sub-account entries, which mean
/// nothing but may have been set by whoever supplied the entry.
fn plain(d: &[u8]) -> Option<Vec<u8>> {
    let mut s = SwigImg::dec(d).ok()?;
    for x in s.roles.iter_mut().flat_map(|r| &mut r.acts).filter(|x| x.ty == perm::SUB) {
        x.body[34..36].fill(0);
    }
    Some(s.enc())
}
fn brief(i: &Result<SwigImg, String>) -> String {
    match i {
        Err(e) => e.clone(),
        Ok(s) => format!(
            "counter {} sub {} tail {} roles [{}]",
            s.role_counter,
            s.sub_counter,
            s.tail.len(),
            s.roles.iter().map(|r| format!("{}: ty {} {} ({})", r.id, r.ty, hex(&r.auth[..4]), acts_str(&r.acts))).collect::<Vec<_>>().join("; ")
        ),
    }
}
/// The trailing record naming who receives the closing rent.
pub fn rent_record(k: &Key) -> Vec<u8> {
    [&[1, 1, 32, 0, 0, 0, 0, 0][..], k].concat()
}

/// Everything a role without administrative rights can ask for leaves the
/// roles of others, and what its own role may do, as they were.
fn limited(g: &mut Gen, cx: &mut Cx) -> R {
    let mut roles = vec![(Cred::nth(1, 0), vec![mk::all()])];
    for i in 1..4 {
        let ty = 1 + g.below(8) as u16;
        let mut acts = other_set(g);
        acts.retain(|a| a.ty != perm::REPLACE);
        if g.bool() {
            acts.push(mk::flag(perm::ALL_BUT));
        }
        if acts.is_empty() {
            acts.push(mk::curated());
        }
        roles.push((Cred::nth(ty, i), acts));
    }
    let mut s = Scene::new(g.below(3), &roles);
    let mut acc = false;
    for _ in 0..3 + g.us(6) {
        let role = 1 + g.below(3) as u32;
        let n = g.us(REQUESTS.len());
        let mut call = request(g, &s, role, n);
        let mut name = REQUESTS[n];
        if g.chance(1, 4) {
            // the scene's administrative requests are about role 1
            let t = *g.pick(&[0u32, 2, 3]);
            let (a, p) = (&s.w.a, &s.w.payer);
            (call, name) = match g.below(3) {
                0 => (update_authority(a, p, role, t, 1, &enc_actions(&[mk::all()])), "update"),
                1 => (remove_authority(a, p, role, t), "remove"),
                _ => (replace_authority(a, role, t, &Cred::nth(roles[t as usize].0.ty(), 30).create()), "replace"),
            };
        }
        let before = s.w.img().map_err(|e| bad("img", e))?;
        let o = s.w.go(&call, role);
        let d = s.w.bank.get(&s.w.a.swig);
        if d.data.len() == 1 && d.data[0] == 255 && o.ok() {
            // closed by a role that may close
            cx.label("closed");
            break;
        }
        let after = s.w.img().map_err(|e| bad("img", e))?;
        cx.note(|| format!("{name} by {role}: {}", o.err()));
        if o.ok() {
            acc = true;
            cx.label(name);
        } else {
            cx.label("refused");
        }
        let gone = o.ok() && before.role(role).is_some() && after.role(role).is_none();
        for r in &before.roles {
            if r.id == role {
                if gone {
                    continue;
                }
                let x = after.role(role);
                ensure!(x.is_some(), format!("own/{name}"), "role {role} lost itself by {name}");
                let x = x.unwrap();
                let kinds = |r: &RoleImg| r.acts.iter().map(|a| a.ty).collect::<Vec<_>>();
                let (mut k0, k1) = (kinds(r), kinds(x));
                if k1.len() == k0.len() + 1 && r.has(perm::SUB2_CREATE) {
                    k0.push(perm::SUB2_ALL);
                }
                ensure!(k0 == k1, format!("own/{name}"), "role {role} without administrative rights changed its permissions by {name}: {} -> {}", acts_str(&r.acts), acts_str(&x.acts));
                ensure!(signer_of(r.ty, &r.auth) == signer_of(x.ty, &x.auth) && r.ty == x.ty, format!("own/{name}"), "role {role} changed its signer by {name}");
            } else {
                ensure!(after.role(r.id) == Some(r), format!("other/{name}"), "role {role} without administrative rights changed role {} by {name}: {:?} -> {:?}", r.id, acts_str(&r.acts), after.role(r.id).map(|x| acts_str(&x.acts)));
            }
        }
        ensure!(after.roles.len() + gone as usize == before.roles.len(), format!("number/{name}"), "roles {} -> {}", before.roles.len(), after.roles.len());
        ensure!(after.role_counter == before.role_counter, format!("counter/{name}"), "role counter moved by {name}");
    }
    if acc {
        cx.hit();
    }
    Ok(())
}
