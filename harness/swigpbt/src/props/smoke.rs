use crate::engine::*;
use crate::gen::Gen;
use crate::img::*;
use crate::sdk::*;
use crate::vm::*;
use crate::ensure;

pub fn prop() -> Prop {
    Prop { id: "SMOKE", rule: "all", assumptions: &[], quick: 2000, thorough: 20000, fixed: None, run }
}
fn run(g: &mut Gen, cx: &mut Cx) -> R {
    let c = any_cred(g, 1);
    cx.label(c.name());
    cx.hit();
    let mut w = World::new(3);
    let a = w.a.clone();
    let p = w.payer;
    let o = w.bank.tx(&[create_v1(&a, &p, &c, &[mk::all()])], &[p]);
    ensure!(o.ok(), "create", "create {}: {}", c.name(), o.err());
    w.creds.push(c.clone());
    let mut want = SwigImg::new(a.id, a.bump, a.wallet_bump);
    want.push(c.ty(), c.stored(), vec![mk::all()]);
    ensure!(w.img() == Ok(want.clone()), "img", "{:?} vs {:?}", w.img(), want);
    if c.session() {
        let k = kk("sess");
        let o = w.go(&create_session(&a, &p, 0, &k, 50), 0);
        ensure!(o.ok(), "session", "session {}: {}", c.name(), o.err());
    }
    w.bank.fund(a.wallet, 10 * SOLS);
    let mut sg = w.sign(0);
    sg.r1_kind = g.below(3) as u8;
    sg.explicit_index = g.bool();
    let n = g.us(5);
    sg.prefix = g.bytes(n);
    let cl = sign_v2(&a, 0, &[], &[sys_transfer(&a.wallet, &kk("dst"), SOLS)]);
    let o = w.go_sign(&cl, &c, &sg);
    ensure!(o.ok(), "sign", "sign {}: {} kind {}", c.name(), o.err(), sg.r1_kind);
    ensure!(w.bank.lamports(&kk("dst")) == SOLS, "moved", "");
    let c2 = any_cred(g, 2);
    let acts = [mk::sol(100), mk::manage()];
    let o = w.go(&add_authority(&a, &p, 0, c2.ty(), &c2.create(), &enc_actions(&acts), 2), 0);
    ensure!(o.ok(), "add", "add {}: {}", c2.name(), o.err());
    let o = w.go(&update_authority(&a, &p, 0, 1, 1, &enc_actions(&[mk::token(&kk("m"), 5)])), 0);
    ensure!(o.ok(), "upd", "upd {}: {}", c2.name(), o.err());
    let o = w.go(&remove_authority(&a, &p, 0, 1), 0);
    ensure!(o.ok(), "rem", "rem {}: {}", c2.name(), o.err());
    Ok(())
}
