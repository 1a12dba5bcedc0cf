//! Replacing a role's credential (P24).
use super::authvm::diff;
use super::common::*;
use super::party::*;
use super::roles::{admin, count};

pub fn p24() -> Prop {
    Prop {
        id: "P24",
        rule: "a replacement was accepted, one was refused and the new credential was used",
        assumptions: &["an ed25519 signature belongs to one transaction (the runtime keeps those from being replayed)"],
        quick: 30_000,
        thorough: 300_000,
        fixed: Some(returned),
        run: history,
    }
}
/// something the old credential signed before it was replaced
struct Old {
    role: u32,
    key: Vec<u8>,
    sealed: Sealed,
    /// the key was away since
    away: bool,
    session: bool,
}
/// a replacement for a stored credential; `None` = malformed for the kind
fn new_key(g: &mut Gen, p: &Party, ty: u16, cur: &[u8]) -> (Vec<u8>, Option<Cred>) {
    let n = g.below(6);
    let kind = if g.chance(1, 12) { 1 + g.below(8) as u16 } else { ty };
    let max = 100;
    let family = |t: u16| (t + 1) / 2;
    let kind = if family(kind) == family(ty) { ty } else { kind };
    let (k, c) = match kind {
        1 | 2 => {
            let pk = match g.below(12) {
                0 => p.a.wallet,
                1 => [0xff; 32],
                _ => kn("ed", n),
            };
            (pk.to_vec(), Some(if kind == 1 { Cred::Ed { pk } } else { Cred::EdS { pk, max } }))
        }
        3 | 4 => {
            let sk = k1_sk(n);
            let k = if g.bool() { k1_pubc(&sk).to_vec() } else { k1_pub(&sk)[1..].to_vec() };
            (k, Some(if kind == 3 { Cred::K1 { sk } } else { Cred::K1S { sk, max } }))
        }
        5 | 6 => {
            let pk = r1_pk(n);
            (pk.to_vec(), Some(if kind == 5 { Cred::R1 { pk } } else { Cred::R1S { pk, max } }))
        }
        _ => {
            let l = *g.pick(&[32usize, 33, 64, 80]);
            (g.bytes(l), None)
        }
    };
    if kind == ty {
        if g.chance(1, 15) {
            return (cur.to_vec(), None);
        }
        if g.chance(1, 15) {
            let mut k = k;
            match g.below(3) {
                0 => {
                    k.pop();
                }
                1 => k.push(g.u8()),
                _ => k.truncate(g.us(32)),
            }
            return (k, None);
        }
        return (k, c);
    }
    (k, None)
}
fn history(g: &mut Gen, cx: &mut Cx) -> R {
    let mut bank = Bank::new();
    let mut p = Party::new("rep", g.below(3));
    let n = 2 + g.us(4);
    let mut id = 0;
    for i in 0..n {
        let c = Cred::nth(any_kind(g), if g.chance(1, 5) { 3 + 5 * g.below(2) } else { i as u64 });
        let mut acts = mixed_acts(g, &[perm::ALL, perm::MANAGE]);
        for _ in 0..g.us(3) {
            let t = *g.pick(&[0u32, 1, 2, 3, 256, 1 << 24, 7]);
            if !acts.iter().any(|x| x.ty == perm::REPLACE && x.body == mk::replace(t).body) {
                let k = g.us(acts.len() + 1);
                acts.insert(k, mk::replace(t));
            }
        }
        p.add(id, c, acts, bank.slot);
        id += *g.pick(&[1u32, 1, 1, 1, 2, 255]);
    }
    if g.chance(1, 3) {
        p.img.tail = super::roles::rent_record(&kk("claimer"));
    }
    for r in p.img.roles.iter_mut() {
        if (3..=6).contains(&r.ty) && g.bool() {
            let c = g.below(3) as u32;
            r.auth[36..40].copy_from_slice(&c.to_le_bytes());
        }
    }
    p.install(&mut bank, g.below(2) * 12345);
    bank.fund(p.a.wallet, 5 * SOLS);
    bank.fund(kk("payer"), 5 * SOLS);
    let mut olds: Vec<Old> = vec![];
    let (mut yes, mut no, mut used) = (0, 0, 0);
    for step in 0..2 + g.us(10) {
        bank.slot += g.below(8);
        let slot = bank.slot;
        let ids_: Vec<u32> = p.img.roles.iter().map(|r| r.id).collect();
        let any = |g: &mut Gen| if g.chance(1, 20) { *g.pick(&[255u32, 256, 257, 4, 1 << 16, u32::MAX]) } else { *g.pick(&ids_) };
        match g.weighted(&[8, 3, 3, 2]) {
            // replace
            0 => {
                let (acting, mut target) = (any(g), any(g));
                if g.chance(1, 3) {
                    if let Some(x) = p.img.role(acting).and_then(|r| r.acts.iter().find(|x| x.ty == perm::REPLACE)) {
                        target = u32::from_le_bytes(x.body[..4].try_into().unwrap());
                    }
                }
                let cur = p.img.role(target).and_then(|r| signer_of(r.ty, &r.auth));
                let tty = p.img.role(target).map_or(1, |r| r.ty);
                let (key, nc) = new_key(g, &p, tty, cur.as_deref().unwrap_or(&[7; 32]));
                let mut call = replace_authority(&p.a, acting, target, &key);
                let mut why: Option<&'static str> = None;
                let ar = p.img.role(acting).cloned();
                match &ar {
                    None => why = Some("no such acting role"),
                    Some(r) => {
                        let own = r.acts.iter().any(|x| x.ty == perm::REPLACE && x.body[..4] == target.to_le_bytes());
                        if !admin(r) && !own {
                            why = Some("not allowed to replace that role");
                        }
                        if r.ty % 2 == 0 && session_of(r.ty, &r.auth).2 < slot {
                            why = Some("no session");
                        }
                    }
                }
                match &cur {
                    None if p.img.role(target).is_none() => why = Some("no such target"),
                    None => why = Some("kind of credential has no key"),
                    Some(c) => {
                        let norm = if tty == 3 || tty == 4 { k1_norm(&key) } else { key.clone() };
                        if nc.is_none() && norm != *c {
                            let l = if tty <= 2 { 32 } else { 33 };
                            if norm.len() != l {
                                why = Some("key of another kind or size");
                            } else {
                                // a byte string of the right size is a key
                                continue;
                            }
                        }
                        if norm == *c {
                            why = Some("same key");
                        }
                    }
                }
                if g.chance(1, 25) {
                    let i = *g.pick(&[2usize, 3, 14, 15]);
                    call.head[i] ^= 1 + g.below(255) as u8;
                    call.signed = call.head.clone();
                    why = Some("reserved bytes in use");
                }
                // the exact proof a program-exec role needs
                let cred = p.cred(acting);
                let mut sg = sign_of(&bank, &p.a.swig, acting);
                sg.explicit_index = g.bool();
                sg.r1_kind = g.below(3) as u8;
                if let Cred::Ex { prefix, .. } = &cred {
                    if !REPLACE_PROOF.starts_with(prefix) {
                        why = Some("program never proves replacements");
                    } else if let Some(good) = replace_proof(&bank, &p.a.swig, &p.a.wallet, &call.head).filter(|_| g.chance(1, 2)) {
                        let mut d = good.clone();
                        match g.below(8) {
                            0 => {
                                let i = g.us(40);
                                d[i] ^= 1 << g.below(8);
                            }
                            1 => {
                                d.pop();
                            }
                            2 => d.push(g.u8()),
                            3 => d.truncate(8),
                            4 => {
                                let mut h = call.head.clone();
                                let i = 4 + g.us(h.len() - 4);
                                h[i] ^= 1 + g.below(255) as u8;
                                if let Some(x) = replace_proof(&bank, &p.a.swig, &p.a.wallet, &h) {
                                    d = x;
                                }
                            }
                            5 => {
                                if let Some(x) = replace_proof(&bank, &p.a.swig, &kk("w"), &call.head) {
                                    d = x;
                                }
                            }
                            6 => {
                                // for another wallet with the very same roles
                                let q = Addr::new(kn("rep", 77));
                                bank.put(q.swig, bank.get(&p.a.swig));
                                if let Some(x) = replace_proof(&bank, &q.swig, &q.wallet, &call.head) {
                                    d = x;
                                }
                                bank.put(q.swig, Acct::default());
                            }
                            _ => {}
                        }
                        if d != good {
                            why = Some("proof of something else");
                        }
                        sg.ex_data = Some(d);
                    }
                }
                let mut sealed = seal(&mut bank, &call, &cred, &sg);
                if cred.ty() == 7 && g.chance(1, 8) {
                    let at = sealed.at;
                    let prog = match &cred {
                        Cred::Ex { program, .. } => *program,
                        _ => SYSTEM,
                    };
                    let pi = sealed.ixs.iter().position(|x| x.program == prog).unwrap();
                    match g.below(5) {
                        0 => sealed.ixs[pi].accts.swap(0, 1),
                        1 => sealed.ixs[pi].accts[0].key = kk("x"),
                        2 => sealed.ixs[pi].accts[1].key = kk("x"),
                        3 => {
                            sealed.ixs[pi].accts.pop();
                        }
                        _ => sealed.ixs[at].accts[1].key = kk("x"),
                    }
                    why = Some("proof about other accounts");
                }
                let mut other = Cred::nth(cred.ty(), 99);
                if let (Cred::Ex { program: x, prefix: y }, Cred::Ex { program, prefix }) = (&mut other, &cred) {
                    *x = if *program == NOOP1 { *g.pick(&[NOOP2, NOOP3]) } else { NOOP1 };
                    *y = prefix.clone();
                }
                if ar.is_some() && g.chance(1, 15) {
                    let mut s2 = sg.clone();
                    s2.session = Some(kk("not the session key"));
                    s2.ex_data = None;
                    sealed = seal_as(&mut bank, &call, &other, &s2, false);
                    why = Some("another credential");
                }
                let mut img = p.img.clone();
                if let Some(k) = &nc {
                    count(&mut img, acting, &cred, false);
                    if let Some(t) = img.role_mut(target) {
                        if why.is_none() {
                            let fresh = k.stored();
                            match t.ty {
                                1 => t.auth = fresh,
                                2 => {
                                    t.auth[..32].copy_from_slice(&fresh[..32]);
                                    set_session(2, &mut t.auth, &[0; 32], 0);
                                }
                                ty => {
                                    t.auth[..33].copy_from_slice(&fresh[..33]);
                                    t.auth[36..40].copy_from_slice(&[0; 4]);
                                    if ty % 2 == 0 {
                                        set_session(ty, &mut t.auth, &[0; 32], 0);
                                    }
                                }
                            }
                        }
                    }
                }
                // what the old credential could still have signed
                if why.is_none() {
                    let c = p.cred(target);
                    for counter in [1, sign_of(&bank, &p.a.swig, target).counter] {
                        let mut s = sign_of(&bank, &p.a.swig, target);
                        s.counter = counter;
                        let mut call = sign_v2(&p.a, target, &[], &[]);
                        call.root = c.session() && g.bool();
                        if call.root {
                            call = create_session(&p.a, &kk("payer"), target, &kk("theft"), 50);
                        }
                        let session = c.session() && !call.root;
                        olds.push(Old { role: target, key: cur.clone().unwrap(), sealed: seal(&mut bank, &call, &c, &s), away: false, session });
                    }
                }
                let before = bank.clone();
                let o = bank.tx(&sealed.ixs, &sealed.signers);
                cx.note(|| format!("{step}: slot {slot} role {acting} ({}) [{}] replaces {target} (type {tty}) with {}: {} expected {why:?}", cred.name(), p.acts(acting), hex(&key), o.err()));
                match why {
                    Some(x) => {
                        no += 1;
                        ensure!(!o.ok(), format!("accepted/{x}"), "role {acting} ({}) [{}] replaced the key of {target} although: {x}", cred.name(), p.acts(acting));
                        ensure!(before.accts == bank.accts, "refused/changed", "a refused replacement changed something: {}", diff(&before, &bank));
                        cx.label(x);
                    }
                    None => {
                        yes += 1;
                        ensure!(o.ok(), "refused", "role {acting} ({}) [{}] could not replace the key of {target} (type {tty}): {}", cred.name(), p.acts(acting), o.err());
                        let mut exp = before.clone();
                        let mut q = p.clone();
                        q.img = img;
                        let extra = before.lamports(&p.a.swig) - rent_min(p.img.enc().len());
                        q.install(&mut exp, extra);
                        let d = diff(&exp, &bank);
                        ensure!(d.is_empty(), "effect", "replacing the key of {target} by {acting}: real against expected: {d}");
                        let i = q.img.roles.iter().position(|r| r.id == target).unwrap();
                        let mut c = nc.unwrap();
                        // the longest session stays the role's own
                        let m = p.creds[i].max();
                        match &mut c {
                            Cred::EdS { max, .. } | Cred::K1S { max, .. } | Cred::R1S { max, .. } => *max = m,
                            _ => {}
                        }
                        q.creds[i] = c;
                        p = q;
                        cx.label(&format!("replaced {}", p.creds[i].name()));
                        for o in olds.iter_mut() {
                            if o.role == target && p.img.role(target).and_then(|r| signer_of(r.ty, &r.auth)).as_ref() != Some(&o.key) {
                                o.away = true;
                            }
                        }
                        // the new credential works
                        used += 1;
                        use_it(g, cx, &mut bank, &mut p, target, "works")?;
                    }
                }
            }
            // the holder of a role uses it
            1 => {
                let r = *g.pick(&ids_);
                use_it(g, cx, &mut bank, &mut p, r, "use")?;
            }
            // old credentials come back
            2 => {
                if olds.is_empty() {
                    continue;
                }
                let i = g.us(olds.len());
                let o = &olds[i];
                let Some(r) = p.img.role(o.role) else { continue };
                let back = signer_of(r.ty, &r.auth).as_ref() == Some(&o.key);
                if back && (r.ty <= 2 || !o.away || o.session) {
                    continue;
                }
                let before = bank.clone();
                let t = bank.tx(&o.sealed.ixs, &o.sealed.signers);
                cx.note(|| format!("{step}: replay for role {}: {} (key {})", o.role, t.err(), if back { "is back" } else { "replaced" }));
                let key = if back && !o.session { "replay/returned-key" } else if o.session { "replay/session of the old key" } else { "replay/old key" };
                ensure!(!t.ok(), key, "something signed for role {} before its key was replaced was accepted afterwards ({}): {}", o.role, if back { "the key has been put back since" } else { "the key is another one now" }, diff(&before, &bank));
                cx.label(if back { "replay, key back" } else { "replay" });
                no += 1;
            }
            // the old key signs something new
            _ => {
                if olds.is_empty() {
                    continue;
                }
                let i = g.us(olds.len());
                let (role, key) = (olds[i].role, olds[i].key.clone());
                let Some(r) = p.img.role(role) else { continue };
                if signer_of(r.ty, &r.auth).as_ref() == Some(&key) {
                    continue;
                }
                let c = match r.ty {
                    1 => Cred::Ed { pk: key.as_slice().try_into().unwrap() },
                    2 => Cred::EdS { pk: key.as_slice().try_into().unwrap(), max: 50 },
                    3 | 4 => {
                        let Some(sk) = (0..40).map(k1_sk).find(|s| k1_pubc(s)[..] == key[..]) else { continue };
                        if r.ty == 3 {
                            Cred::K1 { sk }
                        } else {
                            Cred::K1S { sk, max: 50 }
                        }
                    }
                    5 => Cred::R1 { pk: key.as_slice().try_into().unwrap() },
                    _ => Cred::R1S { pk: key.as_slice().try_into().unwrap(), max: 50 },
                };
                let sg = sign_of(&bank, &p.a.swig, role);
                let call = if c.session() { create_session(&p.a, &kk("payer"), role, &kk("theft"), 50) } else { sign_v2(&p.a, role, &[], &[]) };
                let s = seal(&mut bank, &call, &c, &sg);
                let before = bank.clone();
                let t = bank.tx(&s.ixs, &s.signers);
                cx.note(|| format!("{step}: replaced key of role {role} signs: {}", t.err()));
                ensure!(!t.ok(), "old key works", "the replaced key of role {role} ({}) still works: {}", c.name(), diff(&before, &bank));
                no += 1;
                cx.label("old key");
            }
        }
    }
    if yes > 0 && no > 0 && used > 0 {
        cx.hit();
    }
    Ok(())
}
/// The role's present credential is used: an empty bundle, after opening a
/// session where the role needs one.
fn use_it(g: &mut Gen, cx: &mut Cx, bank: &mut Bank, p: &mut Party, role: u32, name: &str) -> R {
    let c = p.cred(role);
    // keys nobody holds a signature for
    match &c {
        Cred::Ed { pk } | Cred::EdS { pk, .. } if *pk == p.a.wallet => return Ok(()),
        _ => {}
    }
    let i = p.img.roles.iter().position(|r| r.id == role).unwrap();
    if c.session() && (session_of(c.ty(), &p.img.roles[i].auth).2 < bank.slot || g.chance(1, 3)) {
        let k = kk(&hex(&p.img.roles[i].auth));
        let d = 1 + g.below(c.max());
        let call = create_session(&p.a, &kk("payer"), role, &k, d);
        let mut exp = bank.clone();
        let mut q = p.clone();
        count(&mut q.img, role, &c, true);
        let slot = bank.slot;
        set_session(c.ty(), &mut q.img.roles[i].auth, &k, slot + d);
        let extra = bank.lamports(&p.a.swig) - rent_min(p.img.enc().len());
        q.install(&mut exp, extra);
        settle(cx, bank, p, role, &call, Ok(()), &exp, &format!("{name}/session"))?;
        p.img = q.img;
    }
    let call = sign_v2(&p.a, role, &[], &[]);
    let mut exp = bank.clone();
    let mut q = p.clone();
    count(&mut q.img, role, &c, false);
    let extra = bank.lamports(&p.a.swig) - rent_min(p.img.enc().len());
    q.install(&mut exp, extra);
    settle(cx, bank, p, role, &call, Ok(()), &exp, &format!("{name}/request"))?;
    p.img = q.img;
    Ok(())
}
/// A key that was replaced and put back within the lifetime of a signature.
fn returned(cx: &mut Cx) -> R {
    for ty in [3u16, 4, 5, 6] {
        let mut bank = Bank::new();
        let mut p = Party::new("back", ty as u64);
        bank.fund(kk("payer"), SOLS);
        let (a, b) = (Cred::nth(ty, 1), Cred::nth(ty, 2));
        p.add(0, Cred::nth(1, 1), vec![mk::all()], bank.slot);
        p.add(1, a.clone(), vec![mk::all()], bank.slot);
        p.install(&mut bank, 0);
        bank.fund(p.a.wallet, SOLS);
        let probe = if a.session() { create_session(&p.a, &kk("payer"), 1, &kk("theft"), 50) } else { sign_v2(&p.a, 1, &[], &[]) };
        let sg = sign_of(&bank, &p.a.swig, 1);
        let old = seal(&mut bank, &probe, &a, &sg);
        for c in [&b, &a] {
            let key = signer_of(ty, &c.stored()).unwrap();
            let call = replace_authority(&p.a, 0, 1, &key);
            let sg = sign_of(&bank, &p.a.swig, 0);
            let s = seal(&mut bank, &call, &p.creds[0], &sg);
            let o = bank.tx(&s.ixs, &s.signers);
            ensure!(o.ok(), "refused", "an administrator could not replace a {} key: {}", a.name(), o.err());
            if *c == b {
                let t = bank.simulate(&old.ixs, &old.signers).0;
                ensure!(!t.ok(), "replay/old key", "something the replaced {} key signed was accepted", a.name());
            }
        }
        cx.note(|| format!("{}: replaced, put back, replay", a.name()));
        let t = bank.tx(&old.ixs, &old.signers);
        ensure!(!t.ok(), "replay/returned-key", "{} key A is replaced by B and put back: what A signed before the replacement is accepted afterwards", a.name());
    }
    Ok(())
}
