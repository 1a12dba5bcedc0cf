//! What happens to a request that does not stand at the top of a transaction:
//! called by another program, or carried in a wallet's own bundle (P37).
use super::authvm::diff;
use super::common::*;
use super::party::any_kind;
use super::scene::*;

pub fn p37() -> Prop {
    Prop {
        id: "P37",
        rule: "the same request was accepted on its own, and then sent inside another program's call or a bundle",
        assumptions: &["a signature over account flags may stop fitting when flags differ inside a call: requests other than signing may be refused there"],
        quick: 12_000,
        thorough: 120_000,
        fixed: None,
        run,
    }
}
/// requests that make a wallet or sub-account sign instructions
fn signing(what: usize) -> bool {
    matches!(what, 0 | 1 | 9 | 17)
}
fn rich() -> Vec<Act> {
    vec![mk::sub(), mk::flag(perm::SUB2_CREATE), mk::sub2(perm::SUB2_ALL, 0), mk::all()]
}
fn limited(g: &mut Gen, mint: &Key) -> Vec<Act> {
    let mut v = vec![mk::flag(perm::PROGRAM_ALL), mk::sol(1 << 40), mk::token(mint, 1 << 40), mk::sub()];
    if g.bool() {
        v.push(mk::sub2(perm::SUB2_ALL, 0));
    }
    for t in [perm::MANAGE, perm::CLOSE, perm::SUB2_CREATE, perm::STAKE_ALL] {
        if g.bool() {
            v.push(mk::flag(t));
        }
    }
    g.shuffle(&mut v);
    v
}
/// the config with what changes in every authentication taken out
fn still(bank: &Bank, a: &Addr, role: u32) -> Result<SwigImg, String> {
    let mut i = SwigImg::dec(&bank.get(&a.swig).data)?;
    for r in i.roles.iter_mut() {
        if r.id == role {
            r.auth.clear();
        }
    }
    Ok(i)
}

fn run(g: &mut Gen, cx: &mut Cx) -> R {
    // 0: full powers; 1: the one that is administered; 2: limited;
    // 3: full powers, needs no other instruction
    let creds = [
        Cred::nth(any_kind(g), 0),
        Cred::nth(1, 1),
        Cred::nth(any_kind(g), 2),
        Cred::nth(*g.pick(&[1u16, 1, 2, 3, 4]), 3),
    ];
    let lim = limited(g, &Scene::new(0, &[(creds[0].clone(), rich())]).mint);
    let roles = [(creds[0].clone(), rich()), (creds[1].clone(), vec![mk::sol(5), mk::token(&kk("m"), 7)]), (creds[2].clone(), lim), (creds[3].clone(), rich())];
    let mut s = Scene::new(0, &roles);
    let wrapped = g.bool();
    let inner_role = if wrapped { *g.pick(&[0u32, 0, 2, 3]) } else { 3 };
    let (o1, o2) = (s.with_sub2(0), s.with_sub1(inner_role));
    ensure!(o1.ok() && o2.ok(), "honest", "setting up: {} {}", o1.err(), o2.err());
    // the bundle may be another wallet's
    let foreign = !wrapped && g.chance(1, 4);
    let mut t = Scene::new(1, &roles);
    t.w.bank.fund(t.w.a.wallet, SOLS);
    if foreign {
        for (k, a) in &t.w.bank.accts {
            if s.w.bank.get(k).lamports == 0 {
                s.w.bank.put(*k, a.clone());
            }
        }
    }
    let what = if g.chance(2, 5) { *g.pick(&[0usize, 1, 9, 17]) } else { g.us(REQUESTS.len()) };
    if what == 14 && inner_role != 2 && g.bool() {
        s.drained();
    }
    let call = request(g, &s, inner_role, what);
    let name = REQUESTS[what];
    let mut bank = s.w.bank.clone();
    let cred = creds[inner_role as usize].clone();
    let sg = sign_of(&bank, &s.w.a.swig, inner_role);
    let sealed = seal(&mut bank, &call, &cred, &sg);
    let before = bank.clone();
    let mut alone = bank.clone();
    let o = alone.tx(&sealed.ixs, &sealed.signers);
    if !o.ok() {
        cx.label("refused on its own");
        if signing(what) && inner_role != 2 {
            return fail("honest", format!("{name} by role {inner_role} ({}) was refused on its own: {}", cred.name(), o.err()));
        }
        return Ok(());
    }
    if wrapped {
        let mut ixs = sealed.ixs.clone();
        let deep = 1 + g.us(2);
        for _ in 0..deep {
            let x = ixs[sealed.at].clone();
            ixs[sealed.at] = super::spend::wrapped(&[x], vec![], &[]);
        }
        let o = bank.tx(&ixs, &signers_of(&ixs));
        let who = format!("{name} by role {inner_role} ({}), called by a program at depth {deep}", cred.name());
        cx.note(|| format!("{who}: {}", o.err()));
        cx.hit();
        if signing(what) {
            ensure!(!o.ok(), format!("called/{name}"), "{who} was accepted: {}", diff(&before, &bank));
        }
        if o.ok() {
            let d = diff(&alone, &bank);
            ensure!(d.is_empty(), format!("differs/{name}"), "{who}: against the same request on its own: {d}");
            cx.label("called by a program: same effect");
        } else {
            ensure!(before.accts == bank.accts, format!("refused/{name}"), "{who}: refused but changed {}", diff(&before, &bank));
            cx.label(if signing(what) { "called by a program: signing refused" } else { "called by a program: refused" });
        }
        return Ok(());
    }
    // inside a bundle of the wallet's own, or of another wallet with the same members
    let outer_role = *g.pick(&[0u32, 2, 2]);
    let at = if foreign { t.w.a.clone() } else { s.w.a.clone() };
    let mut inner = sealed.ixs.clone();
    ensure!(inner.len() == 1, "harness", "the inner request needs {} instructions", inner.len());
    let mut around = vec![];
    if g.chance(1, 3) {
        around.push(Ix { program: NOOP1, accts: vec![], data: vec![1] });
    }
    let pays = g.chance(1, 3);
    if pays {
        around.push(sys_transfer(&at.wallet, &s.dest, 1 + g.below(1000)));
    }
    if g.bool() {
        inner.extend(around.clone());
    } else {
        let mut v = around.clone();
        v.extend(inner);
        inner = v;
    }
    if g.chance(1, 4) {
        // a program in between
        let j = inner.iter().position(|i| i.program == ids().swig).unwrap();
        let x = inner[j].clone();
        inner[j] = super::spend::wrapped(&[x], vec![], &[]);
    }
    let outer = sign_v2(&at, outer_role, &[], &inner);
    let oc = creds[outer_role as usize].clone();
    let sgo = sign_of(&bank, &at.swig, outer_role);
    let so = seal(&mut bank, &outer, &oc, &sgo);
    let before = bank.clone();
    let o = bank.tx(&so.ixs, &so.signers);
    let who = format!(
        "{name} by role 3 ({}) in a bundle of role {outer_role} ({}) of {} wallet",
        cred.name(),
        oc.name(),
        if foreign { "another" } else { "the same" }
    );
    cx.note(|| format!("{who}: {}", o.err()));
    cx.hit();
    if signing(what) {
        ensure!(!o.ok(), format!("bundled/{name}"), "{who} was accepted: {}", diff(&before, &bank));
    }
    if !o.ok() {
        ensure!(before.accts == bank.accts, format!("refused/{name}"), "{who}: refused but changed {}", diff(&before, &bank));
        cx.label(if signing(what) { "in a bundle: signing refused" } else { "in a bundle: refused" });
        return Ok(());
    }
    if foreign {
        // to this wallet it is a call by a program like any other
        for k in [s.w.a.swig, s.w.a.wallet] {
            let (x, y) = (alone.get(&k), bank.get(&k));
            ensure!(x == y, format!("differs/{name}"), "{who}: this wallet's account {} is not as after the request on its own", short(&k));
        }
        cx.label("in another wallet's bundle: same effect");
        return Ok(());
    }
    if outer_role == 2 {
        let (x, y) = (still(&before, &at, 2).map_err(|e| bad("decode", e))?, still(&bank, &at, 2).map_err(|e| bad("decode", format!("after {who}: {e}")))?);
        // an inner request of role 3 may count up that role's own counter
        let same = x.roles.len() == y.roles.len()
            && x.role_counter == y.role_counter
            && x.roles.iter().zip(&y.roles).all(|(p, q)| p.id == q.id && p.ty == q.ty && p.auth == q.auth && (p.id == 2 || p.acts == q.acts));
        ensure!(same, format!("bundled/{name}"), "{who} changed the wallet's roles");
        let (p, q) = (x.role(2), y.role(2));
        if let (Some(p), Some(q)) = (p, q) {
            let shape = |r: &RoleImg| r.acts.iter().map(|a| (a.ty, a.body.len())).collect::<Vec<_>>();
            ensure!(shape(p) == shape(q) && (pays || p.acts == q.acts), format!("bundled/{name}"), "{who} changed its own role's permissions");
        }
        cx.label("in a limited role's bundle: roles untouched");
    } else {
        cx.label("in an unrestricted role's bundle: accepted");
    }
    Ok(())
}
