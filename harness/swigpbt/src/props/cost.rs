//! What a wallet went through does not matter to what it can still do (P40):
//! the same request on a young wallet and on one that handed out a great many
//! roles and sub-accounts has the same outcome and costs about the same.
use super::authvm::diff;
use super::common::*;
use super::scene::*;

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
/// CPU time of this thread (microseconds): other processes do not matter
fn cpu() -> u64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000 + t.n as u64 / 1000
}
/// far above what any request takes, far below one step per role ever made
fn limit(young: u64) -> u64 {
    50_000 + 20 * young
}
fn timed(b: &Bank, s: &Sealed) -> (TxOut, Bank, u64) {
    let mut c = b.clone();
    let t = cpu();
    let o = c.tx(&s.ixs, &s.signers);
    (o, c, cpu() - t)
}
pub fn p40() -> Prop {
    Prop {
        id: "P40",
        rule: "the request was executed by both wallets",
        assumptions: &["CPU time of the natively compiled program stands for the compute units of the chain: a step per role or sub-account ever made shows as seconds, everything else as microseconds"],
        quick: 12_000,
        thorough: 150_000,
        fixed: Some(searched),
        run: aged,
    }
}
fn aged(g: &mut Gen, cx: &mut Cx) -> R {
    let ty = 1 + g.below(8) as u16;
    let cred = Cred::nth(ty, g.below(5));
    let mut roles = vec![(cred.clone(), vec![mk::sub(), mk::flag(perm::SUB2_CREATE), mk::all()]), (Cred::nth(1, 9), vec![mk::sol(5), mk::token(&kk("m"), 7)])];
    for i in 0..g.below(4) {
        // (what a scope watches must be readable; P22 looks at scopes)
        let mut acts = super::roles::other_set(g);
        acts.retain(|a| a.ty != perm::SCOPE);
        acts.push(mk::flag(perm::CLOSE));
        roles.push((Cred::nth(1 + g.below(8) as u16, 20 + i), acts));
    }
    let mut s = Scene::new(g.below(4), &roles);
    let o = s.with_sub2(0);
    ensure!(o.ok(), "honest/create sub2", "{}: creating a numbered sub-account: {}", cred.name(), o.err());
    let n = g.us(REQUESTS.len() + 3);
    let name = if n < REQUESTS.len() { REQUESTS[n] } else { ["create session", "create sub-account", "another's sub-account: withdraw SOL"][n - REQUESTS.len()] };
    if name != "create sub-account" {
        let o = s.with_sub1(0);
        ensure!(o.ok(), "honest/create sub1", "{}: creating a sub-account: {}", cred.name(), o.err());
    }
    let another = s.w.a.sub1(1).0;
    s.w.bank.fund(another, 5 * SOLS);
    if n == 16 && matches!(&cred, Cred::Ex { prefix, .. } if !REPLACE_PROOF.starts_with(prefix)) || name == "create session" && !cred.session() {
        return Ok(());
    }
    if name == "close wallet" {
        s.drained();
    }
    let mut old = s.clone();
    let mut m = s.w.img().map_err(|e| bad("decode", e))?;
    let young = (m.role_counter, m.sub_counter);
    let aged = (young.0 + (1u32 << *g.pick(&[16, 24, 27, 31])) - g.below(3) as u32, young.1 + (1u32 << *g.pick(&[8, 16, 24, 31])) - g.below(3) as u32);
    m.role_counter = aged.0;
    m.sub_counter = aged.1;
    let mut x = old.w.bank.get(&old.w.a.swig);
    x.data = m.enc();
    old.w.bank.put(old.w.a.swig, x);
    let pick = g.u64();
    let call = |s: &Scene| if n < REQUESTS.len() { request(&mut Gen::random(pick), s, 0, n) } else {
        let (a, p) = (&s.w.a, &s.w.payer);
        match name {
            "create session" => create_session(a, p, 0, &kk("later"), 1),
            "create sub-account" => create_sub1(a, p, 0),
            _ => withdraw_sub1(a, p, 0, &another, SOLS, None),
        }
    };
    let (c, d) = (call(&s), call(&old));
    cx.label(name);
    let mut b = [s.w.bank.clone(), old.w.bank.clone()];
    let (sg, sh) = (s.w.sign(0), old.w.sign(0));
    let sealed = [seal(&mut b[0], &c, &cred, &sg), seal(&mut b[1], &d, &cred, &sh)];
    let (o, after, mut t) = timed(&b[0], &sealed[0]);
    let (p, mut then, mut u) = timed(&b[1], &sealed[1]);
    for _ in 0..2 {
        if u > limit(t) {
            t = t.max(timed(&b[0], &sealed[0]).2);
            u = u.min(timed(&b[1], &sealed[1]).2);
        }
    }
    ensure!(u <= limit(t), format!("cost/{name}"), "{name} by {} takes {t} us on a wallet with role counter {} and sub-account counter {}, {u} us with {} and {}", cred.name(), young.0, young.1, aged.0, aged.1);
    ensure!(o.ok(), format!("honest/{name}"), "{}: an honest request ({name}) failed: {}", cred.name(), o.err());
    ensure!(p.ok(), format!("refused/{name}"), "{}: {name} is refused once the role counter is {} and the sub-account counter {}: {}", cred.name(), aged.0, aged.1, p.err());
    cx.hit();
    // apart from the counters themselves the outcome is the same
    if n != 2 && n != 8 {
        let mut x = then.get(&s.w.a.swig);
        if x.data.len() > 48 {
            x.data[36..40].copy_from_slice(&young.0.to_le_bytes());
            x.data[44..48].copy_from_slice(&young.1.to_le_bytes());
            then.put(s.w.a.swig, x);
        }
        ensure!(after.accts == then.accts, format!("outcome/{name}"), "{name} by {}: a young and an old wallet end up different: {}", cred.name(), diff(&after, &then));
    }
    Ok(())
}
/// Full rights empty any sub-account: of the first roles, of a role made late
/// and of one since removed.
fn searched(cx: &mut Cx) -> R {
    let mut s = Scene::new(1, &[(Cred::nth(1, 1), vec![mk::all()])]);
    let (late, gone) = (200_000u32, 190_000u32);
    let mut m = s.w.img().map_err(|e| bad("decode", e))?;
    m.push(1, Cred::nth(1, 2).stored(), vec![mk::flag(perm::CLOSE)]);
    m.role_counter = late;
    m.push(1, Cred::nth(1, 3).stored(), vec![mk::flag(perm::CLOSE)]);
    s.w.install(&m);
    let mut young = 0;
    for id in [1, late, gone] {
        let k = s.w.a.sub1(id).0;
        s.w.bank.fund(k, 5 * SOLS);
        let call = withdraw_sub1(&s.w.a, &s.w.payer, 0, &k, SOLS, None);
        let mut b = s.w.bank.clone();
        let sg = s.w.sign(0);
        let sealed = seal(&mut b, &call, &s.w.creds[0], &sg);
        let (o, after, mut u) = timed(&b, &sealed);
        ensure!(o.ok() && after.lamports(&k) == 4 * SOLS, "searched/refused", "full rights could not empty the sub-account of role {id}: {}", o.err());
        if id == 1 {
            young = u;
        }
        for _ in 0..2 {
            if u > limit(young) {
                u = u.min(timed(&b, &sealed).2);
            }
        }
        cx.note(|| format!("emptying the sub-account of role {id}: {u} us"));
        let key = if id == gone { "cost/searched" } else { "cost/late role" };
        ensure!(u <= limit(young), key, "emptying the sub-account of role {id} with full rights takes {u} us, that of role 1 {young} us");
    }
    Ok(())
}
