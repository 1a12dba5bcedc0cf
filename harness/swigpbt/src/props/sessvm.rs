//! The life of a session through the whole program (P13): how long it may be
//! opened for, what is then stored, and who may use it until when.
use super::authvm::diff;
use super::common::*;
use super::scene::*;

fn with_max(c: Cred, m: u64) -> Cred {
    let mut c = c;
    match &mut c {
        Cred::EdS { max, .. } | Cred::K1S { max, .. } | Cred::R1S { max, .. } | Cred::ExS { max, .. } => *max = m,
        _ => {}
    }
    c
}
/// the replay counter in a stored secp256k1 / secp256r1 authority with sessions
const COUNTER: std::ops::Range<usize> = 36..40;
pub fn case(g: &mut Gen, cx: &mut Cx) -> R {
    let ty = 2 * (1 + g.below(4)) as u16;
    let mx = match g.below(4) {
        0 => 1 + g.below(200),
        1 => ((1 + g.below(200)) << *g.pick(&[8, 16, 32, 48])) + g.below(200),
        2 => u64::MAX - g.below(3),
        _ => g.u64().max(1),
    };
    let cred = with_max(Cred::nth(ty, g.below(3)), mx);
    let other = Cred::nth(ty, 3 + g.below(2));
    let acts = vec![mk::sub(), mk::flag(perm::SUB2_CREATE), mk::all()];
    let mut s = Scene::new(g.below(4), &[(cred.clone(), acts.clone()), (Cred::nth(1, 9), vec![mk::sol(5), mk::token(&kk("m"), 7)]), (other.clone(), acts)]);
    let o = s.with_sub2(0);
    ensure!(o.ok(), "honest/create sub2", "{}: creating a numbered sub-account: {}", cred.name(), o.err());
    let o = s.with_sub1(0);
    ensure!(o.ok(), "honest/create sub1", "{}: creating a sub-account: {}", cred.name(), o.err());
    cx.label(cred.name());
    let stored = |s: &Scene, i: usize| -> Result<(Key, u64, u64), Fail> {
        match s.w.img() {
            Ok(m) => Ok(session_of(m.roles[i].ty, &m.roles[i].auth)),
            Err(e) => Err(bad("decode", e)),
        }
    };
    let mut old: Vec<Key> = vec![s.w.session_key(0)];
    let (mut used, mut late, mut long) = (false, false, false);
    for _ in 0..2 + g.us(5) {
        let now = stored(&s, 0)?;
        let (key, end) = (now.0, now.2);
        if g.weighted(&[2, 3]) == 0 {
            let k = match g.below(4) {
                0 => twin(g, &key),
                1 => s.w.session_key(2),
                _ => kn("fresh", g.below(3)),
            };
            let d = match g.below(5) {
                0 => mx,
                1 => near(g, mx),
                2 => mx.saturating_add(1 << g.below(63)),
                3 => g.below(mx),
                _ => g.u64(),
            };
            let call = create_session(&s.w.a, &s.w.payer, 0, &k, d);
            let before = s.w.bank.clone();
            let mut exp = s.w.img().map_err(|e| bad("decode", e))?;
            let by_other = g.chance(1, 6);
            let o = if by_other { s.w.go_as(&call, 0, &other) } else { s.w.go(&call, 0) };
            if by_other {
                ensure!(!o.ok(), "session/opened by another", "{}: another role's authority opened a session", cred.name());
                s.w.bank = before;
                continue;
            }
            if d > mx {
                ensure!(!o.ok(), "session/too long", "{}: a session of {d} slots was opened although {mx} is the most", cred.name());
                s.w.bank = before;
                long = true;
                continue;
            }
            ensure!(o.ok(), "session/open", "{}: a session of {d} slots was refused although {mx} is allowed: {}", cred.name(), o.err());
            let got = s.w.img().map_err(|e| bad("decode", e))?;
            set_session(ty, &mut exp.roles[0].auth, &k, s.w.bank.slot.saturating_add(d));
            if ty == 4 || ty == 6 {
                // the replay counter moves: P08 and P09 look at it
                let (x, y) = (&mut exp.roles[0].auth, &got.roles[0].auth);
                x[COUNTER].copy_from_slice(&y[COUNTER]);
            }
            ensure!(got == exp, "session/stored", "{}: after opening a session of {d} slots at {}:\n is   {}\n want {}", cred.name(), s.w.bank.slot, hex(&got.enc()), hex(&exp.enc()));
            old.push(k);
            continue;
        }
        let slot = match g.below(4) {
            0 => end,
            1 => end.saturating_add(1),
            2 => s.w.bank.slot.saturating_add(g.below(200)),
            _ => s.w.bank.slot,
        }
        .max(s.w.bank.slot);
        s.w.bank.slot = slot;
        let n = g.us(REQUESTS.len());
        let call = request(g, &s, 0, n);
        if call.root || REQUESTS[n] == "close wallet" {
            continue;
        }
        let k = match g.below(5) {
            0 => twin(g, &key),
            1 => *g.pick(&old),
            2 => s.w.session_key(2),
            _ => key,
        };
        let mut sg = s.w.sign(0);
        sg.session = Some(k);
        let mut b = s.w.bank.clone();
        let sealed = seal(&mut b, &call, &cred, &sg);
        let before = b.clone();
        let o = b.tx(&sealed.ixs, &sealed.signers);
        let may = k == key && slot <= end;
        if !may {
            ensure!(!o.ok(), format!("session/accepted/{}", REQUESTS[n]), "{}: {} was accepted at slot {slot} with key {}; the session is {} until {end}", cred.name(), REQUESTS[n], short(&k), short(&key));
            ensure!(before.accts == b.accts, "session/failed", "a refused request changed something: {}", diff(&before, &b));
        } else {
            ensure!(o.ok(), format!("session/refused/{}", REQUESTS[n]), "{}: {} was refused at slot {slot}; the session of this key goes on until {end}: {}", cred.name(), REQUESTS[n], o.err());
            used = true;
        }
        late |= k == key && slot > end;
    }
    if used && (late || long) {
        cx.label("used and ended (whole program)");
    }
    if used || late || long {
        cx.hit();
    }
    Ok(())
}
