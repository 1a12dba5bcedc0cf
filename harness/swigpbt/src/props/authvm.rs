//! Authentication through the whole program: an honest request succeeds, and a
//! tampered or repeated one is refused or is the very same request.
use super::common::*;
use super::scene::*;

fn same(a: &Bank, b: &Bank) -> bool {
    a.accts == b.accts
}
/// what differs, for messages
pub fn diff(a: &Bank, b: &Bank) -> String {
    let mut v = vec![];
    let ks: std::collections::BTreeSet<_> = a.accts.keys().chain(b.accts.keys()).collect();
    for k in ks {
        let (x, y) = (a.get(k), b.get(k));
        if x != y {
            v.push(format!("{}: lamports {}->{}, owner {}->{}, data {}", short(k), x.lamports, y.lamports, short(&x.owner), short(&y.owner), if x.data == y.data { "same" } else { "changed" }));
        }
    }
    v.join("; ")
}
pub fn case(g: &mut Gen, cx: &mut Cx, ty: u16) -> R {
    let cred = Cred::nth(ty, g.below(5));
    let acts = vec![mk::sub(), mk::flag(perm::SUB2_CREATE), mk::all()];
    let mut s = Scene::new(g.below(4), &[(cred.clone(), acts), (Cred::nth(1, 9), vec![mk::sol(5), mk::token(&kk("m"), 7)])]);
    let o = s.with_sub2(0);
    ensure!(o.ok(), "honest/create sub2", "{}: creating a numbered sub-account: {}", cred.name(), o.err());
    let o = s.with_sub1(0);
    ensure!(o.ok(), "honest/create sub1", "{}: creating a sub-account: {}", cred.name(), o.err());
    let (call, name) = if cred.session() && g.chance(1, 2) {
        (create_session(&s.w.a, &s.w.payer, 0, &kn("fresh", g.below(3)), 1 + g.below(cred.max())), "create session")
    } else {
        let n = g.us(REQUESTS.len());
        if n == 16 && ty == 7 && matches!(&cred, Cred::Ex{prefix,..} if !REPLACE_PROOF.starts_with(prefix)) {
            return Ok(());
        }
        (request(g, &s, 0, n), REQUESTS[n])
    };
    if name == "close wallet" {
        s.drained();
    }
    cx.label(name);
    cx.note(|| format!("{name} by {}", cred.name()));
    let mut sg = s.w.sign(0);
    sg.r1_kind = g.below(3) as u8;
    sg.explicit_index = g.bool();
    if g.bool() {
        let n = g.us(5);
        sg.prefix = g.bytes(n);
    }
    sg.slot = s.w.bank.slot - g.below(61);
    let mut before = s.w.bank.clone();
    let sealed = seal(&mut before, &call, &cred, &sg);
    let mut good = before.clone();
    let o = good.tx(&sealed.ixs, &sealed.signers);
    ensure!(o.ok(), format!("honest/{name}"), "{}: an honest request ({name}) failed: {}", cred.name(), o.err());
    ensure!(!same(&before, &good), format!("idle/{name}"), "{}: an accepted request ({name}) did nothing", cred.name());
    cx.hit();
    // through which key the request was really authenticated
    let master = !cred.session() || call.root;
    let signer = match &cred {
        Cred::Ed { pk } | Cred::EdS { pk, .. } if master => Some(*pk),
        _ if !master => sg.session,
        _ => None,
    };
    let me = sealed.at;
    for _ in 0..1 + g.us(4) {
        let mut b = before.clone();
        let mut ixs = sealed.ixs.clone();
        let mut must_fail = false;
        let what;
        if let Some(k) = signer {
            // only the signature itself authorises: take it away
            match g.below(3) {
                0 => {
                    what = "signature missing";
                    for i in ixs.iter_mut() {
                        for a in i.accts.iter_mut() {
                            a.s &= a.key != k;
                        }
                    }
                    must_fail = true;
                }
                1 => {
                    what = "another signer";
                    let other = if g.bool() { twin(g, &k) } else { kn("other", g.below(3)) };
                    for i in ixs.iter_mut() {
                        for a in i.accts.iter_mut() {
                            if a.key == k {
                                a.key = other;
                            }
                        }
                    }
                    must_fail = true;
                }
                _ => {
                    what = "session over";
                    if master {
                        continue;
                    }
                    b.slot += 1_000_001;
                    must_fail = true;
                }
            }
        } else if (3..=6).contains(&ty) {
            match g.below(9) {
                0 | 1 => {
                    what = "instruction bit";
                    let d = &mut ixs[me].data;
                    let i = g.us(d.len());
                    d[i] ^= 1 << g.below(8);
                }
                2 => {
                    what = "account flags";
                    let i = g.us(ixs[me].accts.len());
                    if g.bool() {
                        ixs[me].accts[i].w ^= true;
                    } else {
                        ixs[me].accts[i].s ^= true;
                    }
                }
                3 => {
                    what = "account list";
                    let v = &mut ixs[me].accts;
                    let i = g.us(v.len());
                    match g.below(4) {
                        0 => {
                            v.remove(i);
                        }
                        1 => v.insert(i, r(kk("extra"))),
                        2 => v.push(w(kk("extra"))),
                        _ => {
                            let j = g.us(v.len());
                            v.swap(i, j);
                        }
                    }
                }
                4 => {
                    what = "other destination";
                    for a in ixs[me].accts.iter_mut() {
                        if a.key == s.dest || a.key == s.theirs {
                            a.key = kk("thief");
                        }
                    }
                }
                5 => {
                    what = "too old";
                    b.slot = sg.slot + 61 + g.below(5);
                    must_fail = true;
                }
                6 => {
                    what = "from the future";
                    b.slot = sg.slot - 1;
                    must_fail = true;
                }
                7 => {
                    what = "repeated";
                    b = good.clone();
                    b.slot += g.below(3);
                    let o = b.tx(&ixs, &signers_of(&ixs));
                    ensure!(!o.ok(), format!("repeated/{name}"), "{}: the same signed request ({name}) was accepted twice", cred.name());
                    ensure!(same(&b, &good), format!("repeated-state/{name}"), "a refused repetition changed something: {}", diff(&good, &b));
                    cx.label("repeated");
                    continue;
                }
                _ => {
                    what = "another wallet";
                    // same identifier scheme, same roles, other wallet
                    let mut t = Scene::new(7, &[(cred.clone(), vec![mk::sub(), mk::flag(perm::SUB2_CREATE), mk::all()]), (Cred::nth(1, 9), vec![mk::sol(5), mk::token(&kk("m"), 7)])]);
                    if !t.with_sub2(0).ok() || !t.with_sub1(0).ok() {
                        continue;
                    }
                    let m = [
                        (s.w.a.swig, t.w.a.swig),
                        (s.w.a.wallet, t.w.a.wallet),
                        (s.w.a.sub2(0).0, t.w.a.sub2(0).0),
                        (s.w.a.sub2_state(0).0, t.w.a.sub2_state(0).0),
                        (s.w.a.sub1(0).0, t.w.a.sub1(0).0),
                        (s.tok, t.tok),
                        (s.empty, t.empty),
                        (s.old, t.old),
                    ];
                    b.accts.extend(t.w.bank.accts.clone());
                    for a in ixs[me].accts.iter_mut() {
                        if let Some((_, y)) = m.iter().find(|(x, _)| *x == a.key) {
                            a.key = *y;
                        }
                    }
                    must_fail = true;
                }
            }
        } else {
            // program-exec: the earlier instruction is the credential
            let at = ixs.iter().position(|i| i.program != ids().swig && i.program != ids().memo).unwrap_or(0);
            match g.below(6) {
                0 => {
                    what = "earlier instruction missing";
                    ixs.remove(at);
                    must_fail = true;
                }
                1 => {
                    what = "another program";
                    ixs[at].program = if ixs[at].program == NOOP1 { *g.pick(&[NOOP2, NOOP3]) } else { NOOP1 };
                    must_fail = true;
                }
                2 => {
                    what = "other prefix";
                    let n = if let Cred::Ex { prefix, .. } | Cred::ExS { prefix, .. } = &cred { prefix.len() } else { 0 };
                    let i = g.us(n);
                    ixs[at].data[i] ^= 1 << g.below(8);
                    must_fail = true;
                }
                3 => {
                    what = "other accounts";
                    let i = g.us(2);
                    let k = ixs[at].accts[i].key;
                    ixs[at].accts[i].key = if g.bool() { twin(g, &k) } else { kk("not it") };
                    must_fail = true;
                }
                4 => {
                    what = "after instead of before";
                    let x = ixs.remove(at);
                    ixs.push(x);
                    must_fail = true;
                }
                _ => {
                    what = "more data and accounts";
                    let n = g.us(8);
                    let x = g.bytes(n);
                    ixs[at].data.extend(x);
                    ixs[at].accts.push(r(kk("more")));
                }
            }
        }
        cx.label(what);
        cx.note(|| what.to_string());
        let start = b.clone();
        let o = b.tx(&ixs, &signers_of(&ixs));
        if o.ok() {
            ensure!(!must_fail, format!("accepted/{what}"), "{}: {name} was accepted with {what}: {}", cred.name(), diff(&start, &b));
            ensure!(same(&b, &good), format!("accepted/{what}"), "{}: a tampered request ({name}, {what}) was accepted with another effect: {}", cred.name(), diff(&good, &b));
        } else {
            ensure!(same(&b, &start), format!("refused/{what}"), "a refused request changed something: {}", diff(&start, &b));
            if let Err((_, Err::Panic(m))) = &o.res {
                if !m.contains("sysvar") {
                    cx.label("aborted");
                }
            }
        }
    }
    Ok(())
}
