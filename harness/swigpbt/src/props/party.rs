//! Wallets with random roles, and the comparison of one request's real outcome
//! with the expected one; shared by the model-based whole-program checks.
use super::authvm::diff;
use super::common::*;

#[derive(Clone)]
pub struct Party {
    pub a: Addr,
    pub img: SwigImg,
    pub creds: Vec<Cred>,
}
impl Party {
    /// no roles yet
    pub fn new(tag: &str, n: u64) -> Party {
        let a = Addr::new(kn(tag, n));
        let img = SwigImg::new(a.id, a.bump, a.wallet_bump);
        Party { a, img, creds: vec![] }
    }
    pub fn add(&mut self, id: u32, c: Cred, acts: Vec<Act>, slot: u64) {
        let mut st = c.stored();
        if c.session() {
            set_session(c.ty(), &mut st, &kn("session", id as u64), slot + 1_000_000);
        }
        self.img.role_counter = id;
        self.img.push(c.ty(), st, acts);
        self.creds.push(c);
    }
    pub fn cred(&self, id: u32) -> Cred {
        self.img.roles.iter().position(|r| r.id == id).map(|i| self.creds[i].clone()).unwrap_or(Cred::Ed { pk: kk("nobody") })
    }
    pub fn has(&self, id: u32, t: &[u16]) -> bool {
        self.img.role(id).map_or(false, |r| t.iter().any(|t| r.has(*t)))
    }
    pub fn acts(&self, id: u32) -> String {
        self.img.role(id).map(|r| acts_str(&r.acts)).unwrap_or_default()
    }
    /// writes the config account, rent exempt and `extra` on top
    pub fn install(&self, bank: &mut Bank, extra: u64) {
        let d = self.img.enc();
        bank.put(self.a.swig, Acct { lamports: rent_min(d.len()) + extra, data: d, owner: ids().swig, executable: false });
    }
}
/// Some of the `main` permissions and some that should not matter.
pub fn mixed_acts(g: &mut Gen, main: &[u16]) -> Vec<Act> {
    let mut v: Vec<Act> = vec![];
    for t in main {
        if g.chance(1, 3) {
            v.push(mk::flag(*t));
        }
    }
    for t in [perm::ALL, perm::MANAGE, perm::CLOSE, perm::ALL_BUT, perm::PROGRAM_ALL, perm::SUB2_CREATE, perm::STAKE_ALL] {
        if !main.contains(&t) && g.chance(1, 8) {
            v.push(mk::flag(t));
        }
    }
    if v.is_empty() || g.chance(1, 4) {
        v.push(if g.bool() { mk::sol(g.u64()) } else { mk::replace(g.below(4) as u32) });
    }
    g.shuffle(&mut v);
    v
}
pub fn any_kind(g: &mut Gen) -> u16 {
    if g.chance(1, 3) {
        1
    } else {
        1 + g.below(8) as u16
    }
}
pub fn put_tok(bank: &mut Bank, k: Key, t: &native::Tok, p: Key) {
    let l = rent_min(165) + if t.native.is_some() { t.amount } else { 0 };
    bank.put(k, Acct { lamports: l, data: t.pack(), owner: p, executable: false });
}
pub fn lam(b: &mut Bank, k: &Key, d: i128) {
    let mut a = b.get(k);
    a.lamports = (a.lamports as i128 + d) as u64;
    b.put(*k, a);
}
pub fn top_up(b: &mut Bank, payer: &Key, k: &Key, min: u64) {
    let l = b.lamports(k);
    if l < min {
        lam(b, payer, -((min - l) as i128));
        lam(b, k, (min - l) as i128);
    }
}
pub fn swap(c: &mut Call, x: Key, y: Key) {
    for m in c.accts.iter_mut() {
        if m.key == x {
            m.key = y;
        }
    }
}
pub type Verdict = Result<(), &'static str>;
/// Runs one request and compares: refused and nothing changed, or accepted and
/// exactly the expected accounts afterwards.
pub fn settle(cx: &mut Cx, bank: &mut Bank, p: &Party, role: u32, call: &Call, model: Verdict, exp: &Bank, name: &str) -> Result<bool, Fail> {
    let cred = p.cred(role);
    let sg = sign_of(bank, &p.a.swig, role);
    let before = bank.clone();
    let sealed = seal(bank, call, &cred, &sg);
    let o = bank.tx(&sealed.ixs, &sealed.signers);
    let who = || format!("{name} by role {role} ({}) [{}]", cred.name(), p.acts(role));
    cx.note(|| format!("{}: {} expected {model:?}", who(), o.err()));
    match model {
        Err(why) => {
            ensure!(!o.ok(), format!("accepted/{name}/{why}"), "{} was accepted although: {why}: {}", who(), diff(&before, bank));
            ensure!(before.accts == bank.accts, format!("refused/{name}"), "a refused request changed something: {}", diff(&before, bank));
            cx.label(&format!("{name}: {why}"));
            Ok(false)
        }
        Ok(()) => {
            ensure!(o.ok(), format!("refused/{name}"), "{} was refused: {}", who(), o.err());
            let d = diff(exp, bank);
            ensure!(d.is_empty(), format!("effect/{name}"), "{}: real outcome against the expected one: {d}", who());
            cx.label(name);
            Ok(true)
        }
    }
}
