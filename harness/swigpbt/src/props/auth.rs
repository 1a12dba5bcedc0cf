//! P07-P13: who may act. The stored authority of a role is asked to
//! authenticate generated requests; an independent verifier says which of
//! them are genuine.
use super::common::*;
use crate::keccak::keccak256;
use crate::util::{Info, Infos};
use sha2::{Digest, Sha256};
use swig_state::swig::Swig;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    Yes,
    No,
    /// unspecified: may be accepted or refused, but never corrupts anything
    Free,
}
use Want::*;

/// One request put to one role.
#[derive(Clone)]
pub struct Req {
    pub cred: Cred,
    pub stored: Vec<u8>,
    pub infos: Vec<Info>,
    pub payload: Vec<u8>,
    pub data: Vec<u8>,
    pub slot: u64,
    pub session_call: bool,
    pub ixs: Vec<Ix>,
    pub cur: u16,
}
impl Req {
    fn metas(&self) -> Vec<AM> {
        // entries that repeat a key share one account's flags
        self.infos
            .iter()
            .map(|i| {
                let f = self.infos.iter().find(|j| j.key == i.key).unwrap();
                AM { key: i.key, s: f.s, w: f.w }
            })
            .collect()
    }
}

pub enum Op {
    Auth,
    Session,
    Start(Key, u64),
}
/// Runs one call on the role's stored bytes inside a wallet of three roles.
/// Returns (accepted, stored bytes afterwards).
pub fn exec(r: &Req, op: &Op) -> Result<(bool, Vec<u8>), Fail> {
    let mut img = SwigImg::new(kk("id"), 255, 255);
    img.push(1, kk("before").to_vec(), vec![mk::all()]);
    img.push(r.cred.ty(), r.stored.clone(), vec![mk::sol(5), mk::manage()]);
    img.push(1, kk("after").to_vec(), vec![mk::all()]);
    let before = img.enc();
    let mut cage = Cage::new(&before, 0xa5);
    let infos: Vec<Info> = r
        .infos
        .iter()
        .map(|i| {
            let mut i = i.clone();
            if i.key == ids().ix_sysvar {
                i.acct.data = ixs_sysvar_data(&r.ixs, r.cur);
            }
            i
        })
        .collect();
    let list = Infos::new(&infos);
    let ok = {
        let roles = &mut cage.get_mut()[HEADER..];
        let role = Swig::get_mut_role(1, roles).map_err(|e| bad("role", format!("{e:?}")))?.ok_or(bad("role", "role not found"))?;
        let out = no_panic(|| match op {
            Op::Auth => role.authority.authenticate(list.get(), &r.payload, &r.data, r.slot),
            Op::Session => role.authority.authenticate_session(list.get(), &r.payload, &r.data, r.slot),
            Op::Start(k, d) => role.authority.start_session(*k, r.slot, *d),
        });
        match out {
            Ok(o) => o.is_ok(),
            Err(p) => return fail("aborted", format!("authentication aborted: {p}")),
        }
    };
    ensure!(cage.intact(), "outside", "bytes outside the account changed");
    let after = cage.get().to_vec();
    let l = r.stored.len();
    let at = HEADER + img.roles[0].bytes() + 16;
    let mut expect = before.clone();
    expect[at..at + l].copy_from_slice(&after[at..at + l]);
    ensure!(expect == after, "elsewhere", "bytes outside the authority changed");
    Ok((ok, after[at..at + l].to_vec()))
}

// ------------------------------------------------------- reference verifier
fn u16at(d: &[u8], p: usize) -> usize {
    u16::from_le_bytes([d[p], d[p + 1]]) as usize
}
fn fresh(signed: u64, now: u64) -> bool {
    signed <= now && now - signed <= 60
}
fn ref_ed(r: &Req, key: &[u8], exact: bool) -> Want {
    if r.payload.is_empty() || (exact && r.payload.len() != 1) {
        return No;
    }
    match r.metas().get(r.payload[0] as usize) {
        Some(a) if a.key[..] == key[..] && a.s => {
            if r.payload.len() == 1 {
                Yes
            } else {
                Free
            }
        }
        _ => No,
    }
}
fn ref_k1(r: &Req) -> Want {
    if r.payload.len() < 77 {
        return No;
    }
    let slot = u64::from_le_bytes(r.payload[..8].try_into().unwrap());
    let ctr = u32::from_le_bytes(r.payload[8..12].try_into().unwrap());
    if ctr != odometer(r.cred.ty(), &r.stored).wrapping_add(1) || !fresh(slot, r.slot) {
        return No;
    }
    let h = k1_hash(&r.payload[77..], &r.data, &r.metas(), slot, ctr);
    let Ok(sig) = libsecp256k1::Signature::parse_standard_slice(&r.payload[12..76]) else {
        return No;
    };
    if sig.s.is_high() {
        return No;
    }
    let pk: [u8; 33] = r.stored[..33].try_into().unwrap();
    let Ok(pk) = libsecp256k1::PublicKey::parse_compressed(&pk) else {
        return No;
    };
    let m = libsecp256k1::Message::parse(&h);
    if !libsecp256k1::verify(&m, &sig, &pk) {
        return No;
    }
    if r.infos.len() > 64 {
        return Free;
    }
    let v = r.payload[76];
    if v == 27 || v == 28 {
        let rec = libsecp256k1::RecoveryId::parse(v - 27).unwrap();
        if libsecp256k1::recover(&m, &sig, &rec) == Ok(pk) {
            return Yes;
        }
    }
    Free
}
/// The message that has to be signed; None when there is none.
enum Msg {
    Bad,
    Free,
    Is(Vec<u8>),
}
fn ref_r1_msg(extra: &[u8], hash: &[u8; 32]) -> Msg {
    if extra.is_empty() {
        return Msg::Is(hash.to_vec());
    }
    if extra.len() < 6 {
        return Msg::Bad;
    }
    let alen = u16at(extra, 2);
    if alen >= 196 {
        return Msg::Free;
    }
    let Some(rest) = extra.get(4 + alen..) else {
        return Msg::Bad;
    };
    let auth = &extra[4..4 + alen];
    let b64 = b64url(hash);
    match u16at(extra, 0) {
        1 => {
            if rest.len() < 10 {
                return Msg::Bad;
            }
            let order = &rest[..4];
            if order.iter().any(|c| *c > 4) || order.iter().filter(|c| **c == 2).count() != 1 || order.iter().filter(|c| **c == 1).count() != 1 {
                return Msg::Bad;
            }
            let (ol, tl, el) = (u16at(rest, 4), u16at(rest, 6), u16at(rest, 8));
            if rest.len() < 10 + tl + el || tl == 0 || tl % 3 != 0 {
                return Msg::Bad;
            }
            let tree = &rest[10..10 + tl];
            let enc = &rest[10 + tl..10 + tl + el];
            let n = tl / 3;
            let mut at = n - 1;
            let mut out = vec![];
            for i in 0..el * 8 {
                if out.len() == ol {
                    break;
                }
                let node = &tree[at * 3..at * 3 + 3];
                if node[0] == 0 {
                    return Msg::Bad;
                }
                at = node[if enc[i / 8] >> (7 - i % 8) & 1 == 1 { 2 } else { 1 }] as usize;
                if at >= n {
                    return Msg::Bad;
                }
                if tree[at * 3] == 0 {
                    out.push(tree[at * 3 + 1]);
                    at = n - 1;
                }
            }
            if std::str::from_utf8(&out).is_err() {
                return Msg::Bad;
            }
            if out.len() != ol || rest.len() != 10 + tl + el {
                return Msg::Free;
            }
            let h: [u8; 32] = Sha256::digest(build_json(order, &b64, &out)).into();
            Msg::Is([auth, &h].concat())
        }
        2 => {
            if rest.len() < 3 || rest.len() != 2 + u16at(rest, 0) {
                return Msg::Bad;
            }
            let json = &rest[2..];
            if json.len() > 1024 {
                return Msg::Free;
            }
            let h: [u8; 32] = Sha256::digest(json).into();
            match judge_json(json, &b64) {
                Yes => Msg::Is([auth, &h].concat()),
                No => Msg::Bad,
                Free => Msg::Free,
            }
        }
        _ => Msg::Bad,
    }
}
fn build_json(order: &[u8], b64: &str, origin: &[u8]) -> Vec<u8> {
    let mut f: Vec<Vec<u8>> = vec![];
    for o in order {
        match o {
            1 => f.push(b"\"type\":\"webauthn.get\"".to_vec()),
            2 => f.push(format!("\"challenge\":\"{b64}\"").into_bytes()),
            3 => f.push([b"\"origin\":\"", origin, b"\""].concat()),
            4 => f.push(b"\"crossOrigin\":false".to_vec()),
            _ => {}
        }
    }
    [b"{", &f.join(&b","[..])[..], b"}"].concat()
}
fn ref_r1(r: &Req) -> Want {
    if r.payload.len() < 17 {
        return No;
    }
    let slot = u64::from_le_bytes(r.payload[..8].try_into().unwrap());
    let ctr = u32::from_le_bytes(r.payload[8..12].try_into().unwrap());
    if ctr != odometer(r.cred.ty(), &r.stored).wrapping_add(1) || !fresh(slot, r.slot) {
        return No;
    }
    match r.infos.get(r.payload[12] as usize) {
        Some(i) if i.key == ids().ix_sysvar => {}
        _ => return No,
    }
    if r.cur == 0 {
        return No;
    }
    let ix = &r.ixs[r.cur as usize - 1];
    if ix.program != ids().r1 {
        return No;
    }
    let d = &ix.data;
    if d.len() < 16 || d[0] != 1 {
        return No;
    }
    let mut out = Yes;
    let own = |x: usize| x == 0xffff;
    let (so, si, po, pi, mo, ms, mi) = (u16at(d, 2), u16at(d, 4), u16at(d, 6), u16at(d, 8), u16at(d, 10), u16at(d, 12), u16at(d, 14));
    for i in [si, pi, mi] {
        if !own(i) {
            if i != r.cur as usize - 1 {
                return No;
            }
            out = Free;
        }
    }
    if so != 49 || po != 16 || mo != 113 || d.len() != 113 + ms {
        out = Free;
    }
    if so + 64 > d.len() {
        // the runtime would have refused the transaction
        out = Free;
    }
    if d.get(po..po + 33) != Some(&r.stored[..33]) {
        return No;
    }
    let Some(m) = d.get(mo..mo + ms) else {
        return No;
    };
    let h = r1_hash(&r.data, &r.metas(), slot, ctr);
    match ref_r1_msg(&r.payload[17..], &h) {
        Msg::Bad => return No,
        Msg::Free => out = Free,
        Msg::Is(x) if x == m => {}
        Msg::Is(_) => return No,
    }
    if r.infos.len() > 64 {
        out = Free;
    }
    out
}
fn ref_ex(r: &Req) -> Want {
    let (Cred::Ex { program, prefix } | Cred::ExS { program, prefix, .. }) = &r.cred else { return No };
    if r.payload.is_empty() || r.payload.len() > 2 {
        return No;
    }
    match r.infos.get(r.payload[0] as usize) {
        Some(i) if i.key == ids().ix_sysvar => {}
        _ => return No,
    }
    let t = match r.payload.get(1) {
        Some(t) => *t as usize,
        None if r.cur == 0 => return No,
        None => r.cur as usize - 1,
    };
    if t >= r.cur as usize || r.infos.len() < 2 {
        return No;
    }
    let ix = &r.ixs[t];
    if ix.program == *program && ix.data.starts_with(prefix) && ix.accts.len() >= 2 && ix.accts[0].key == r.infos[0].key && ix.accts[1].key == r.infos[1].key {
        Yes
    } else {
        No
    }
}
pub fn verify(r: &Req) -> Want {
    match r.cred.ty() {
        1 | 2 => ref_ed(r, &r.stored[..32], true),
        3 | 4 => ref_k1(r),
        5 | 6 => ref_r1(r),
        _ => ref_ex(r),
    }
}
pub fn verify_session(r: &Req) -> Want {
    let t = r.cred.ty();
    if t % 2 != 0 {
        return No;
    }
    let (k, _, exp) = session_of(t, &r.stored);
    if r.slot > exp {
        return No;
    }
    ref_ed(r, &k, t == 2 || t == 8)
}

// ------------------------------------------------------------- JSON oracle
#[derive(Debug)]
enum J {
    Str(Vec<u8>, bool),
    Other { array: bool },
}
struct Jp<'a> {
    d: &'a [u8],
    i: usize,
}
impl Jp<'_> {
    fn ws(&mut self) {
        while self.i < self.d.len() && matches!(self.d[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.d.get(self.i) == Some(&c) {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    /// decoded text and whether it used escapes
    fn string(&mut self) -> Option<(Vec<u8>, bool)> {
        self.eat(b'"')?;
        let mut o = vec![];
        let mut esc = false;
        loop {
            let c = *self.d.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return Some((o, esc)),
                b'\\' => {
                    esc = true;
                    let e = *self.d.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => o.push(e),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'n' => o.push(10),
                        b'r' => o.push(13),
                        b't' => o.push(9),
                        b'u' => {
                            let h = std::str::from_utf8(self.d.get(self.i..self.i + 4)?).ok()?;
                            let n = u32::from_str_radix(h, 16).ok()?;
                            self.i += 4;
                            let c = char::from_u32(n).unwrap_or('\u{fffd}');
                            o.extend(c.to_string().bytes());
                        }
                        _ => return None,
                    }
                }
                0..=31 => return None,
                _ => o.push(c),
            }
        }
    }
    fn value(&mut self, depth: usize) -> Option<J> {
        if depth > 64 {
            return None;
        }
        self.ws();
        match *self.d.get(self.i)? {
            b'"' => self.string().map(|(s, e)| J::Str(s, e)),
            b'{' => self.object(depth + 1).map(|_| J::Other { array: false }),
            b'[' => {
                self.i += 1;
                self.ws();
                if self.eat(b']').is_some() {
                    return Some(J::Other { array: true });
                }
                loop {
                    self.value(depth + 1)?;
                    self.ws();
                    if self.eat(b']').is_some() {
                        return Some(J::Other { array: true });
                    }
                    self.eat(b',')?;
                }
            }
            _ => {
                let s = self.i;
                while self.i < self.d.len() && (self.d[self.i].is_ascii_alphanumeric() || matches!(self.d[self.i], b'+' | b'-' | b'.')) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.d[s..self.i]).ok()?;
                if ["true", "false", "null"].contains(&t) || (!t.is_empty() && t.parse::<f64>().is_ok()) {
                    Some(J::Other { array: false })
                } else {
                    None
                }
            }
        }
    }
    fn object(&mut self, depth: usize) -> Option<Vec<(Vec<u8>, bool, J)>> {
        self.eat(b'{')?;
        let mut v = vec![];
        self.ws();
        if self.eat(b'}').is_some() {
            return Some(v);
        }
        loop {
            self.ws();
            let (k, e) = self.string()?;
            self.ws();
            self.eat(b':')?;
            let x = self.value(depth)?;
            v.push((k, e, x));
            self.ws();
            if self.eat(b'}').is_some() {
                return Some(v);
            }
            self.eat(b',')?;
        }
    }
}
/// Does this client data commit to the challenge?
fn judge_json(d: &[u8], b64: &str) -> Want {
    let doc = std::str::from_utf8(d).ok().and_then(|_| {
        let mut p = Jp { d, i: 0 };
        p.ws();
        let o = p.object(0)?;
        p.ws();
        (p.i == d.len()).then_some(o)
    });
    let has = |s: &[u8]| d.windows(s.len()).any(|x| x == s);
    let Some(doc) = doc else {
        // not a JSON object: cannot be an assertion
        return if has(b64.as_bytes()) && has(b"webauthn.get") { Free } else { No };
    };
    let of = |k: &[u8]| doc.iter().enumerate().filter(|(_, x)| x.0 == k).map(|(i, _)| i).collect::<Vec<_>>();
    let (c, t) = (of(b"challenge"), of(b"type"));
    let is = |i: &usize, s: &[u8]| matches!(&doc[*i].2, J::Str(x, _) if x == s);
    if !c.iter().any(|i| is(i, b64.as_bytes())) || !t.iter().any(|i| is(i, b"webauthn.get")) {
        return No;
    }
    if c.len() > 1 || t.len() > 1 {
        return Free;
    }
    // what a browser writes: nothing escaped and no list up to these fields
    let last = c[0].max(t[0]);
    let plain = doc[..=last].iter().all(|(_, e, v)| !*e && !matches!(v, J::Str(_, true) | J::Other { array: true }));
    if plain {
        Yes
    } else {
        Free
    }
}

// -------------------------------------------------------------- generation
fn some_infos(g: &mut Gen, max: usize) -> Vec<Info> {
    let n = g.us(max + 1);
    (0..n).map(|i| Info::new(if g.chance(1, 8) { pool_key(g) } else { kn("acct", i as u64) }, g.chance(1, 4), g.bool())).collect()
}
fn put(g: &mut Gen, v: &mut Vec<Info>, i: Info) -> usize {
    let at = g.us(v.len() + 1);
    v.insert(at, i);
    at
}
fn set_odo(ty: u16, st: &mut [u8], n: u32) {
    debug_assert!((3..=6).contains(&ty));
    st[36..40].copy_from_slice(&n.to_le_bytes());
}
fn any_slot(g: &mut Gen) -> u64 {
    match g.below(5) {
        0 => g.below(3),
        1 => 59 + g.below(4),
        2 => u64::MAX - g.below(62),
        _ => 1000 + g.below(1000),
    }
}
fn signed_slot(g: &mut Gen, now: u64) -> u64 {
    match g.below(10) {
        0 => now.saturating_add(1),
        1 => now.saturating_sub(61),
        2 => now.saturating_sub(60),
        3 => g.u64(),
        4 => now.wrapping_add(60),
        _ => now.saturating_sub(g.below(60)),
    }
}
/// A request signed by `cred` the way a client does.
fn honest(g: &mut Gen, cred: &Cred, stored: Vec<u8>, big: bool, now: u64, slot: u64, ctr: u32) -> Req {
    let max = if big && g.chance(1, 8) { 66 } else { 6 };
    let mut infos = some_infos(g, max);
    let n = if g.chance(1, 10) { 500 } else { 40 };
    let n = g.us(n);
    let data = g.bytes(n);
    let mut ixs: Vec<Ix> = vec![];
    for _ in 0..g.us(3) {
        let n = g.us(9);
        let accts = vec![r(pool_key(g)); g.us(3)];
        ixs.push(Ix { program: *g.pick(&[NOOP1, NOOP2, NOOP3, ids().memo, ids().r1]), accts, data: g.bytes(n) });
    }
    let mut payload = vec![];
    match cred {
        Cred::Ed { pk } | Cred::EdS { pk, .. } => {
            let i = put(g, &mut infos, Info::new(*pk, true, false));
            payload.push(i as u8);
        }
        Cred::K1 { sk } | Cred::K1S { sk, .. } => {
            let p = if g.bool() { 0 } else { g.us(40) };
            let p = g.bytes(p);
            let rq = Req { cred: cred.clone(), stored: vec![], infos: infos.clone(), payload: vec![], data: vec![], slot, session_call: false, ixs: vec![], cur: 0 };
            let h = k1_hash(&p, &data, &rq.metas(), slot, ctr);
            payload.extend(slot.to_le_bytes());
            payload.extend(ctr.to_le_bytes());
            payload.extend(k1_sign(sk, &h));
            payload.extend(p);
        }
        Cred::R1 { pk } | Cred::R1S { pk, .. } => {
            let i = put(g, &mut infos, Info::new(ids().ix_sysvar, false, false));
            let rq = Req { cred: cred.clone(), stored: vec![], infos: infos.clone(), payload: vec![], data: vec![], slot, session_call: false, ixs: vec![], cur: 0 };
            let h = r1_hash(&data, &rq.metas(), slot, ctr);
            payload.extend(slot.to_le_bytes());
            payload.extend(ctr.to_le_bytes());
            payload.push(i as u8);
            payload.extend(g.bytes(4));
            let salt = g.below(1 << 20);
            let m = match g.below(3) {
                0 => h.to_vec(),
                1 => {
                    let (p, m) = webauthn(&h, salt);
                    payload.extend(p);
                    m
                }
                _ => {
                    let (p, m) = webauthn_raw(&h, salt);
                    payload.extend(p);
                    m
                }
            };
            ixs.push(r1_ix(pk, &m));
        }
        Cred::Ex { program, prefix } | Cred::ExS { program, prefix, .. } => {
            while infos.len() < 2 {
                infos.push(Info::new(kn("cfg", infos.len() as u64), false, true));
            }
            infos.truncate(6);
            let i = 2 + g.us(infos.len() - 1);
            infos.insert(i, Info::new(ids().ix_sysvar, false, false));
            let mut d = prefix.clone();
            let n = g.us(20);
            d.extend(g.bytes(n));
            let mut accts = vec![r(infos[0].key), w(infos[1].key)];
            for _ in 0..g.us(8) {
                accts.push(rs(pool_key(g)));
            }
            let at = g.us(ixs.len() + 1);
            ixs.insert(at, Ix { program: *program, accts, data: d });
            payload.push(i as u8);
            if at + 1 != ixs.len() || g.chance(1, 3) {
                payload.push(at as u8);
            }
        }
    }
    let cur = ixs.len() as u16;
    ixs.push(Ix { program: ids().swig, accts: vec![], data: vec![] });
    for _ in 0..g.us(2) {
        ixs.push(Ix { program: NOOP1, accts: vec![], data: vec![] });
    }
    Req { cred: cred.clone(), stored, infos, payload, data, slot: now, session_call: false, ixs, cur }
}
fn flip(g: &mut Gen, d: &mut [u8]) {
    if !d.is_empty() {
        let i = g.us(d.len());
        d[i] ^= 1 << g.below(8);
    }
}
const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
/// n - s, the other root of the same signature
fn negate(s: &mut [u8]) {
    let mut borrow = 0i32;
    for i in (0..32).rev() {
        let x = ORDER[i] as i32 - s[i] as i32 - borrow;
        s[i] = (x & 255) as u8;
        borrow = (x < 0) as i32;
    }
}
/// One change somewhere in the request; returns what was changed.
fn tamper(g: &mut Gen, q: &mut Req) -> &'static str {
    let t = q.cred.ty();
    loop {
        let what = g.below(26);
        return match what {
            0 => {
                flip(g, &mut q.data);
                "data bit"
            }
            1 => {
                let n = g.us(q.data.len() + 1);
                q.data.truncate(n);
                "data cut"
            }
            2 => {
                let x = g.us(3) as u8;
                q.data.push(x);
                "data longer"
            }
            3 if !q.infos.is_empty() => {
                let i = g.us(q.infos.len());
                q.infos[i].s ^= true;
                "signer flag"
            }
            4 if !q.infos.is_empty() => {
                let i = g.us(q.infos.len());
                q.infos[i].w ^= true;
                "writable flag"
            }
            5 if !q.infos.is_empty() => {
                let i = g.us(q.infos.len());
                let b = g.us(256);
                q.infos[i].key[b / 8] ^= 1 << (b % 8);
                "account key"
            }
            6 if q.infos.len() > 1 => {
                let i = g.us(q.infos.len());
                let j = g.us(q.infos.len());
                q.infos.swap(i, j);
                "account order"
            }
            7 if !q.infos.is_empty() => {
                let i = g.us(q.infos.len());
                q.infos.remove(i);
                "account dropped"
            }
            8 => {
                let k = g.below(4);
                let i = Info::new(kn("extra", k), g.bool(), g.bool());
                put(g, &mut q.infos, i);
                "account added"
            }
            9 => {
                let i = Info::new(kn("extra", 0), g.bool(), g.bool());
                let at = q.infos.len();
                q.infos.insert(at, i);
                "account appended"
            }
            10 => {
                q.slot = match g.below(4) {
                    0 => q.slot.saturating_add(60 + g.below(3)),
                    1 => q.slot.saturating_sub(1 + g.below(3)),
                    2 => q.slot.saturating_add(1 + g.below(61)),
                    _ => g.u64(),
                };
                "current slot"
            }
            11 if t >= 3 && t <= 6 => {
                let o = odometer(t, &q.stored);
                let n = match g.below(3) {
                    0 => o.wrapping_add(1),
                    1 => o.wrapping_sub(1),
                    _ => g.u32(),
                };
                set_odo(t, &mut q.stored, n);
                "stored counter"
            }
            12 => {
                let n = if t <= 2 { 32 } else if t <= 6 { 33 } else { return_len(q) };
                let i = g.us(n);
                q.stored[i] ^= 1 << g.below(8);
                resync(q);
                "stored credential"
            }
            13 | 14 => {
                flip(g, &mut q.payload);
                "payload bit"
            }
            15 => {
                let n = g.us(q.payload.len().max(1));
                q.payload.truncate(n);
                "payload cut"
            }
            16 => {
                let x = g.us(4);
                let x = g.bytes(1 + x);
                q.payload.extend(x);
                "payload longer"
            }
            17 if (t == 3 || t == 4) && q.payload.len() >= 77 => {
                negate(&mut q.payload[44..76]);
                if g.bool() {
                    q.payload[76] ^= 27 ^ 28;
                }
                "other signature root"
            }
            18 if (t == 3 || t == 4) && q.payload.len() >= 77 => {
                q.payload[76] = *g.pick(&[27, 28, 0, 1, 2, 29, 255]);
                "recovery id"
            }
            19 if (t == 3 || t == 4) && q.payload.len() >= 77 => {
                let at = if g.bool() { 12 } else { 44 };
                match g.below(3) {
                    0 => q.payload[at..at + 32].fill(0),
                    1 => q.payload[at..at + 32].copy_from_slice(&ORDER),
                    _ => q.payload[at..at + 32].fill(255),
                }
                "signature edge value"
            }
            20 => {
                let n = q.payload.len().min(if t <= 2 { 1 } else { 17 });
                if n == 0 {
                    continue;
                }
                let i = g.us(n);
                q.payload[i] = g.u8();
                "payload head"
            }
            21 if t >= 5 && q.cur > 0 => {
                // another instruction runs in between
                let at = q.cur as usize;
                let n = g.us(8);
                let ix = match g.below(3) {
                    0 => Ix { program: ids().memo, accts: vec![], data: g.bytes(n) },
                    1 => Ix { program: NOOP1, accts: vec![], data: g.bytes(n) },
                    _ => q.ixs[at - 1].clone(),
                };
                q.ixs.insert(at, ix);
                q.cur += 1;
                "instruction in between"
            }
            22 if t >= 5 => {
                match g.below(3) {
                    0 => q.cur = 0,
                    1 => q.cur = g.below(q.ixs.len() as u64) as u16,
                    _ => {
                        if q.cur > 0 {
                            q.ixs.remove(q.cur as usize - 1);
                            q.cur -= 1;
                        }
                    }
                }
                "place in the transaction"
            }
            23 if t >= 5 && q.cur > 0 => {
                let i = q.payload.get(1).filter(|_| t >= 7).map(|i| *i as usize).unwrap_or(q.cur as usize - 1);
                let i = i.min(q.ixs.len() - 1);
                let ix = &mut q.ixs[i];
                match g.below(6) {
                    0 => {
                        let b = g.us(256);
                        ix.program[b / 8] ^= 1 << (b % 8);
                    }
                    1 => ix.program = *g.pick(&[NOOP1, NOOP2, NOOP3, ids().r1, ids().swig]),
                    2 => {
                        let n = g.us(ix.data.len() + 1);
                        ix.data.truncate(n);
                    }
                    3 => flip(g, &mut ix.data),
                    4 => {
                        let n = 1 + g.us(40);
                        let x = g.bytes(n);
                        ix.data.extend(x);
                    }
                    _ => {
                        if ix.accts.is_empty() {
                            ix.data.push(0);
                        } else {
                            let j = g.us(ix.accts.len().min(3));
                            match g.below(3) {
                                0 => {
                                    let b = g.us(256);
                                    ix.accts[j].key[b / 8] ^= 1 << (b % 8);
                                }
                                1 => ix.accts.truncate(j),
                                _ => {
                                    let k = g.us(ix.accts.len());
                                    ix.accts.swap(j, k);
                                }
                            }
                        }
                    }
                }
                "earlier instruction"
            }
            24 if t == 5 || t == 6 => {
                let i = q.cur as usize;
                if i == 0 {
                    continue;
                }
                let d = &mut q.ixs[i - 1].data;
                if d.len() < 113 {
                    continue;
                }
                match g.below(5) {
                    0 => d[0] = g.below(4) as u8,
                    1 => {
                        let f = *g.pick(&[4usize, 8, 14]);
                        let x = *g.pick(&[0u16, 1, 2, 3, 0xfffe, 0x00ff, 0xff00]);
                        d[f..f + 2].copy_from_slice(&x.to_le_bytes());
                    }
                    2 => {
                        let f = *g.pick(&[2usize, 6, 10, 12]);
                        let x = u16at(d, f) as i64 + *g.pick(&[-32i64, -1, 1, 32, 33, 64]);
                        d[f..f + 2].copy_from_slice(&(x.max(0) as u16).to_le_bytes());
                    }
                    3 => {
                        // the real key and message moved elsewhere
                        let key = d[16..49].to_vec();
                        let at = d.len();
                        d.extend(key);
                        d[6..8].copy_from_slice(&(at as u16).to_le_bytes());
                        if g.bool() {
                            d[20] ^= 1;
                        }
                    }
                    _ => {
                        // points at other bytes while the fixed place looks right
                        let n = u16at(d, 12).min(200);
                        let at = d.len();
                        let x = g.bytes(n);
                        d.extend(x);
                        d[10..12].copy_from_slice(&(at as u16).to_le_bytes());
                    }
                }
                "precompile fields"
            }
            25 if t >= 5 => {
                let k = ids().ix_sysvar;
                if let Some(i) = q.infos.iter().position(|x| x.key == k) {
                    // a look-alike account with the same contents
                    q.infos[i].acct.data = ixs_sysvar_data(&q.ixs, q.cur);
                    let b = g.us(256);
                    q.infos[i].key[b / 8] ^= 1 << (b % 8);
                }
                "look-alike sysvar"
            }
            _ => continue,
        };
    }
}
fn return_len(q: &Req) -> usize {
    match &q.cred {
        Cred::Ex { prefix, .. } | Cred::ExS { prefix, .. } => {
            if prefix.is_empty() {
                32
            } else {
                40 + prefix.len()
            }
        }
        _ => 32,
    }
}
/// keeps the description in step with changed stored bytes
fn resync(q: &mut Req) {
    let l = q.stored[..].get(32).copied().unwrap_or(0) as usize;
    let st = &mut q.stored;
    match &mut q.cred {
        Cred::Ex { program, prefix } | Cred::ExS { program, prefix, .. } => {
            let l = prefix.len().min(l.max(prefix.len()));
            st[32] = l as u8;
            program.copy_from_slice(&st[..32]);
            prefix.copy_from_slice(&st[40..40 + l]);
        }
        _ => {}
    }
}
fn check_one(q: &Req, what: &str) -> Result<bool, Fail> {
    let want = verify(q);
    let (ok, after) = exec(q, &Op::Auth)?;
    let t = q.cred.ty();
    if ok {
        ensure!(want != No, format!("accepted/{what}"), "{} accepted a request that is not genuine ({what})", q.cred.name());
        let mut e = q.stored.clone();
        if (3..=6).contains(&t) {
            let n = odometer(t, &q.stored).wrapping_add(1);
            set_odo(t, &mut e, n);
        }
        ensure!(after == e, format!("state/{what}"), "{}: stored authority after acceptance\n  is   {}\n  want {}", q.cred.name(), hex(&after), hex(&e));
    } else {
        ensure!(want != Yes, format!("refused/{what}"), "{} refused a genuine request ({what})", q.cred.name());
        ensure!(after == q.stored, format!("changed/{what}"), "{}: a refused request changed the stored authority", q.cred.name());
    }
    Ok(ok)
}
fn prefix_len(g: &mut Gen) -> usize {
    match g.below(4) {
        0 => 1,
        1 => 40,
        _ => 1 + g.us(16),
    }
}
fn cred_of(g: &mut Gen, ty: u16) -> Cred {
    let n = g.below(6);
    let mut c = Cred::nth(ty, n);
    if let Cred::Ex { prefix, program } | Cred::ExS { prefix, program, .. } = &mut c {
        let l = prefix_len(g);
        *prefix = g.bytes(l);
        if g.bool() {
            *program = g.arr();
        }
    }
    if let Cred::K1 { sk } | Cred::K1S { sk, .. } = &mut c {
        if g.bool() {
            *sk = k1_sk(g.below(1 << 30));
        }
    }
    c
}
fn unit(g: &mut Gen, cx: &mut Cx, ty: u16) -> R {
    if g.chance(1, if (3..=4).contains(&ty) { 5 } else { 12 }) {
        cx.label("through the whole program");
        return super::authvm::case(g, cx, ty);
    }
    let cred = cred_of(g, ty);
    let mut st = cred.stored();
    let mut ctr = 1;
    if (3..=6).contains(&ty) {
        let o = match g.below(5) {
            0 => 0,
            1 => u32::MAX - g.below(2) as u32,
            2 => 0xff + (g.below(2) << 8) as u32,
            _ => g.u32(),
        };
        set_odo(ty, &mut st, o);
        ctr = o.wrapping_add(1);
    }
    let now = any_slot(g);
    let slot = signed_slot(g, now);
    let ctr = if g.chance(1, 12) { ctr.wrapping_add(1 + g.below(3) as u32) } else { ctr };
    let q = honest(g, &cred, st, true, now, slot, ctr);
    cx.label(cred.name());
    let ok = check_one(&q, "as made")?;
    if ok {
        cx.label("honest accepted");
        cx.hit();
    }
    let n = 1 + g.us(4);
    for _ in 0..n {
        let mut m = q.clone();
        let mut what = tamper(g, &mut m);
        if g.chance(1, 5) {
            what = tamper(g, &mut m);
        }
        cx.note(|| format!("{what}"));
        let want = verify(&m);
        let ok = check_one(&m, what)?;
        cx.label(match (want, ok) {
            (Free, _) => "tampered, unspecified",
            (_, true) => "tampered, still genuine",
            (_, false) => "tampered, refused",
        });
    }
    Ok(())
}

// ---------------------------------------------------------------- P07, P08
fn run_p07(g: &mut Gen, cx: &mut Cx) -> R {
    let ty = 1 + g.below(2) as u16;
    unit(g, cx, ty)
}
pub fn p07() -> Prop {
    Prop {
        id: "P07",
        rule: "the honest form of the request was accepted, so its tampered forms are one step from an accepted request",
        assumptions: &["the signer flags the runtime hands to the program are true"],
        quick: 60_000,
        thorough: 1_500_000,
        fixed: None,
        run: run_p07,
    }
}
fn run_p08(g: &mut Gen, cx: &mut Cx) -> R {
    let ty = 3 + g.below(2) as u16;
    unit(g, cx, ty)
}
pub fn p08() -> Prop {
    Prop {
        id: "P08",
        rule: "the honest form of the request was accepted, so its tampered forms are one step from an accepted request",
        assumptions: &["SHA-256, Keccak and ECDSA are secure"],
        quick: 6_000,
        thorough: 150_000,
        fixed: None,
        run: run_p08,
    }
}
fn run_p09(g: &mut Gen, cx: &mut Cx) -> R {
    let ty = 5 + g.below(2) as u16;
    unit(g, cx, ty)
}
pub fn p09() -> Prop {
    Prop {
        id: "P09",
        rule: "the honest form of the request was accepted, so its tampered forms are one step from an accepted request",
        assumptions: &["the runtime's secp256r1 instruction verifies what it is told to verify", "Keccak and SHA-256 are secure"],
        quick: 60_000,
        thorough: 1_500_000,
        fixed: None,
        run: run_p09,
    }
}
fn run_p11(g: &mut Gen, cx: &mut Cx) -> R {
    let ty = 7 + g.below(2) as u16;
    unit(g, cx, ty)
}
pub fn p11() -> Prop {
    Prop {
        id: "P11",
        rule: "the honest form of the request was accepted, so its tampered forms are one step from an accepted request",
        assumptions: &["the instructions sysvar lists the transaction's instructions truthfully"],
        quick: 60_000,
        thorough: 1_500_000,
        fixed: None,
        run: run_p11,
    }
}

// --------------------------------------------------------------------- P10
fn text(g: &mut Gen, n: usize) -> String {
    const C: &[&str] = &["a", "b", "https://", ".", "-", ":", "/", "é", "漢", "😀", "0", "{", "}", "[", "]", ",", " ", "challenge", "type", "webauthn.get"];
    let n = g.us(n + 1);
    (0..n).map(|_| *g.pick(C)).collect()
}
fn esc_text(g: &mut Gen) -> String {
    const C: &[&str] = &["a", "\\\"", "\\\\", "\\/", "\\n", "\\u0022", "{", "}", "[", ",", ":", "\\\"challenge\\\":", "x"];
    let n = g.us(6);
    (0..n).map(|_| *g.pick(C)).collect()
}
fn space(g: &mut Gen) -> &'static str {
    if g.chance(1, 6) {
        [" ", "\n", "\t ", "\r\n"][g.us(4)]
    } else {
        ""
    }
}
/// any JSON value; may contain decoys of the wanted fields
fn json_value(g: &mut Gen, b64: &str, depth: usize, plain: bool) -> String {
    match g.below(if depth == 0 { 4 } else { 6 }) {
        0 => ["true", "false", "null", "0", "-1.5e3"][g.us(5)].into(),
        1 => format!("\"{}\"", text(g, 4)),
        2 if !plain => format!("\"{}\"", esc_text(g)),
        2 | 3 => format!("\"{}\"", ["webauthn.get", b64, "challenge", ""][g.us(4)]),
        4 if plain => "{}".into(),
        4 => {
            let n = g.us(3);
            let v: Vec<String> = (0..n).map(|_| json_value(g, b64, depth - 1, plain)).collect();
            format!("[{}]", v.join(","))
        }
        _ => {
            let n = g.us(4);
            let v: Vec<String> = (0..n)
                .map(|_| {
                    let k = ["challenge", "type", "x", "a\\\"b", "{"][g.us(5)];
                    format!("{}\"{k}\"{}:{}{}", space(g), space(g), space(g), json_value(g, b64, depth - 1, false))
                })
                .collect();
            format!("{{{}}}", v.join(","))
        }
    }
}
fn client_json(g: &mut Gen, b64: &str) -> Vec<u8> {
    let wrong = g.chance(1, 4);
    let mut other = b64.to_string();
    match g.below(5) {
        0 => {
            other.pop();
        }
        1 => other.push('='),
        2 => other.push('A'),
        3 => {
            // another digit, one bit away in the last place or anywhere
            let i = if g.bool() { 42 } else { g.us(43) };
            let c = other.as_bytes()[i];
            let d = if c == b'A' { 'B' } else { 'A' };
            other.replace_range(i..i + 1, &d.to_string());
        }
        _ => other = other.swap_case(),
    }
    let ch = if wrong { other } else { b64.to_string() };
    let ty = if g.chance(1, 5) { ["webauthn.create", "webauthn.get ", "webauthn.ge", "", "payment.get", "Webauthn.get"][g.us(6)] } else { "webauthn.get" };
    let mut f: Vec<(String, String)> = vec![("type".into(), format!("\"{ty}\"")), ("challenge".into(), format!("\"{ch}\"")), ("origin".into(), format!("\"https://{}\"", text(g, 5).replace(['{', '}'], "")))];
    if g.bool() {
        f.push(("crossOrigin".into(), (if g.bool() { "true" } else { "false" }).into()));
    }
    let style = g.below(4);
    for _ in 0..g.us(4) {
        let k = match g.below(8) {
            0 => "challenge".into(),
            1 => "type".into(),
            2 => "challenge2".into(),
            3 => "\\u0063hallenge".into(),
            4 => "Challenge".into(),
            5 => "topOrigin".into(),
            _ => text(g, 2),
        };
        let k: String = if style < 2 && (k == "challenge" || k == "type" || k.contains('\\')) { "other_keys_can_be_added_here".into() } else { k };
        let v = json_value(g, b64, 3, style == 1);
        let at = if style == 0 { f.len() } else { g.us(f.len() + 1) };
        f.insert(at, (k, v));
    }
    if style >= 2 {
        g.shuffle(&mut f);
    }
    if g.chance(1, 12) {
        let i = g.us(f.len());
        if g.bool() {
            f.remove(i);
        } else {
            f[i].1 = json_value(g, b64, 2, false);
        }
    }
    let mut s = String::from("{");
    for (i, (k, v)) in f.iter().enumerate() {
        if i > 0 {
            s += ",";
        }
        if style > 0 {
            s += space(g);
            s += &format!("\"{k}\"{}:{}{v}{}", space(g), space(g), space(g));
        } else {
            s += &format!("\"{k}\":{v}");
        }
    }
    s += "}";
    let mut b = s.into_bytes();
    if g.chance(1, 8) {
        match g.below(5) {
            0 => {
                let n = g.us(b.len());
                b.truncate(n);
            }
            1 => flip(g, &mut b),
            2 => b.insert(0, b' '),
            3 => b.extend(b"}"),
            _ => {
                let i = g.us(b.len());
                b.insert(i, *g.pick(b"{}[]\",:\\"));
            }
        }
    }
    b
}
trait Swap {
    fn swap_case(&self) -> String;
}
impl Swap for String {
    fn swap_case(&self) -> String {
        self.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
    }
}
fn run_p10(g: &mut Gen, cx: &mut Cx) -> R {
    let ty = 5 + g.below(2) as u16;
    let cred = Cred::nth(ty, g.below(5));
    let pk: [u8; 33] = cred.stored()[..33].try_into().unwrap();
    let now = 1000;
    let mut infos = some_infos(g, 3);
    let at = put(g, &mut infos, Info::new(ids().ix_sysvar, false, false));
    let n = g.us(20);
    let data = g.bytes(n);
    let mut q = Req { cred: cred.clone(), stored: cred.stored(), infos, payload: vec![], data, slot: now, session_call: false, ixs: vec![], cur: 1 };
    let h = r1_hash(&q.data, &q.metas(), now, 1);
    let b64 = b64url(&h);
    q.payload.extend(now.to_le_bytes());
    q.payload.extend(1u32.to_le_bytes());
    q.payload.push(at as u8);
    q.payload.extend([0; 4]);
    let alen = match g.below(6) {
        0 => 195,
        1 => 194,
        2 => g.us(200),
        3 => 0,
        _ => 37,
    };
    let auth = g.bytes(alen);
    let mut x = vec![];
    let json;
    if g.bool() {
        cx.label("reconstructed client data");
        let origin = text(g, 8);
        let mut order: [u8; 4] = *g.pick(&[[1, 2, 3, 4], [2, 1, 3, 4], [1, 2, 3, 0], [4, 3, 2, 1], [0, 0, 2, 1], [3, 2, 3, 1], [2, 4, 4, 1]]);
        if g.chance(1, 6) {
            for o in order.iter_mut() {
                *o = g.below(6) as u8;
            }
        }
        // what the authenticator signed: this request's challenge or another
        let signed_ch = if g.chance(1, 8) { b64url(&g.arr::<32>()) } else { b64.clone() };
        json = build_json(&order, &signed_ch, origin.as_bytes());
        let (mut tree, mut enc) = huffman(origin.as_bytes());
        let mut ol = origin.len();
        if tree.is_empty() {
            tree = vec![0, b'x', 0];
        }
        match g.below(16) {
            0 => flip(g, &mut tree),
            1 => flip(g, &mut enc),
            2 => {
                let i = g.us(tree.len());
                tree[i] = g.below(8) as u8;
            }
            3 => ol = g.us(ol + 3),
            4 => {
                let n = g.us(tree.len() + 1);
                tree.truncate(n);
            }
            5 => {
                let n = g.us(enc.len() + 1);
                enc.truncate(n);
            }
            6 => enc.push(g.u8()),
            _ => {}
        }
        x.extend([1, 0]);
        x.extend((alen as u16).to_le_bytes());
        x.extend(&auth);
        x.extend(order);
        for n in [ol, tree.len(), enc.len()] {
            x.extend((n as u16).to_le_bytes());
        }
        x.extend(&tree);
        x.extend(&enc);
    } else {
        cx.label("verbatim client data");
        let mut j = client_json(g, &b64);
        if g.chance(1, 20) && j.len() < 1024 && j.len() > 2 {
            // up to the size limit, and over
            let n = 1023 + g.us(3);
            let l = j.len();
            j.splice(l - 1..l - 1, std::iter::repeat_n(b' ', n - l));
        }
        json = j;
        x.extend([2, 0]);
        x.extend((alen as u16).to_le_bytes());
        x.extend(&auth);
        x.extend((json.len() as u16).to_le_bytes());
        x.extend(&json);
    }
    if g.chance(1, 10) {
        match g.below(5) {
            0 => {
                let n = g.us(x.len());
                x.truncate(n);
            }
            1 => x[0] = g.below(4) as u8,
            2 => x[1] = g.u8(),
            3 => {
                let v = g.u16();
                x[2..4].copy_from_slice(&v.to_le_bytes());
            }
            _ => x.push(g.u8()),
        }
    }
    let jh: [u8; 32] = Sha256::digest(&json).into();
    let mut m = [&auth[..], &jh].concat();
    if g.chance(1, 12) {
        match g.below(4) {
            0 => flip(g, &mut m),
            1 => m = jh.to_vec(),
            2 => m = h.to_vec(),
            _ => m.reverse(),
        }
    }
    q.payload.extend(&x);
    q.ixs = vec![r1_ix(&pk, &m), Ix { program: ids().swig, accts: vec![], data: vec![] }];
    cx.note(|| format!("json {}", String::from_utf8_lossy(&json)));
    let want = verify(&q);
    let ok = check_one(&q, "webauthn")?;
    match (want, ok) {
        (Yes, _) => {
            cx.label("genuine");
            cx.hit();
        }
        (Free, true) => cx.label("unspecified, accepted"),
        (Free, false) => cx.label("unspecified, refused"),
        _ => {
            cx.label("not genuine");
            cx.hit();
        }
    }
    Ok(())
}
pub fn p10() -> Prop {
    Prop {
        id: "P10",
        rule: "the reference says definitely genuine or definitely not",
        assumptions: &["an authenticator signs authenticator data followed by the hash of the client data", "Keccak and SHA-256 are secure"],
        quick: 120_000,
        thorough: 3_000_000,
        fixed: None,
        run: run_p10,
    }
}

// --------------------------------------------------------------------- P12
fn run_p12(g: &mut Gen, cx: &mut Cx) -> R {
    let ty = 3 + g.below(4) as u16;
    let cred = cred_of(g, ty);
    let mut st = cred.stored();
    let o = match g.below(4) {
        0 => u32::MAX - g.below(3) as u32,
        1 => g.u32(),
        _ => 0,
    };
    set_odo(ty, &mut st, o);
    let mut used: Vec<Req> = vec![];
    let mut pending: Vec<Req> = vec![];
    let mut now = 1000;
    let (mut acc, mut rep) = (0u32, 0);
    let n = 2 + g.us(8);
    for _ in 0..n {
        now += *g.pick(&[0, 0, 1, 30, 61]);
        let next = o.wrapping_add(acc).wrapping_add(1);
        ensure!(odometer(ty, &st) == o.wrapping_add(acc), "counter", "after {acc} accepted requests from {o} the counter is {}", odometer(ty, &st));
        match g.weighted(&[4, 3, 2, 2]) {
            0 => {
                let mut q = honest(g, &cred, st.clone(), false, now, now, next);
                if g.chance(1, 4) {
                    pending.push(q.clone());
                    continue;
                }
                if g.chance(1, 5) {
                    q.data.push(1);
                    let (ok, a) = exec(&q, &Op::Auth)?;
                    ensure!(!ok && a == st, "refused", "a request with other data was accepted, or its refusal changed the counter");
                    continue;
                }
                let (ok, a) = exec(&q, &Op::Auth)?;
                ensure!(ok, "honest", "the next request was refused (counter {next})");
                st = a;
                acc += 1;
                used.push(q);
            }
            1 if !used.is_empty() => {
                let i = g.us(used.len());
                let mut q = used[i].clone();
                q.stored = st.clone();
                // other bytes that are not covered by the signature
                if g.bool() {
                    q.slot = now;
                }
                if (ty == 5 || ty == 6) && g.bool() {
                    q.payload[13] ^= 1;
                }
                let (ok, a) = exec(&q, &Op::Auth)?;
                ensure!(!ok, "replay", "a request was accepted a second time (counter then {}, now {})", odometer(ty, &used[i].stored), odometer(ty, &st));
                ensure!(a == st, "replay-state", "a refused replay changed the stored authority");
                rep += 1;
            }
            2 if !pending.is_empty() => {
                let i = g.us(pending.len());
                let mut q = pending.remove(i);
                q.stored = st.clone();
                q.slot = now;
                let want = verify(&q);
                let (ok, a) = exec(&q, &Op::Auth)?;
                ensure!(ok == (want == Yes), "late", "a request made earlier: expected {want:?}, accepted {ok}");
                if ok {
                    st = a;
                    acc += 1;
                    used.push(q);
                } else {
                    ensure!(a == st, "late-state", "a refusal changed the stored authority");
                }
            }
            _ => {
                let d = *g.pick(&[0u32, 2, 3, 1 << 8, 1 << 16, 1 << 31, u32::MAX]);
                let c = next.wrapping_sub(1).wrapping_add(d);
                let q = honest(g, &cred, st.clone(), false, now, now, c);
                let (ok, a) = exec(&q, &Op::Auth)?;
                ensure!(!ok && a == st, "gap", "counter {c} accepted after {}", odometer(ty, &st));
            }
        }
    }
    cx.label(cred.name());
    if rep > 0 && acc > 0 {
        cx.hit();
    }
    Ok(())
}
pub fn p12() -> Prop {
    Prop {
        id: "P12",
        rule: "at least one request was accepted and one replay was tried",
        assumptions: &["fewer than 2^32 requests are signed by one role"],
        quick: 10_000,
        thorough: 250_000,
        fixed: None,
        run: run_p12,
    }
}

// --------------------------------------------------------------------- P13
fn run_p13(g: &mut Gen, cx: &mut Cx) -> R {
    if g.chance(1, 8) {
        return super::sessvm::case(g, cx);
    }
    let ty = 1 + g.below(8) as u16;
    let mut cred = cred_of(g, ty);
    let mx = g.u64();
    match &mut cred {
        Cred::EdS { max, .. } | Cred::K1S { max, .. } | Cred::R1S { max, .. } | Cred::ExS { max, .. } => *max = mx,
        _ => {}
    }
    let mut st = cred.stored();
    cx.label(cred.name());
    let mut slot = any_slot(g).max(1);
    let s1 = twin(g, &kk("s1"));
    let keys = [kk("s1"), kk("s2"), kn("ed", 0), cred.stored()[..32].try_into().unwrap(), s1];
    // (key, last slot)
    let mut open: Option<(Key, u64)> = None;
    let (mut used, mut late) = (false, false);
    let n = 2 + g.us(8);
    for _ in 0..n {
        let mut q = Req { cred: cred.clone(), stored: st.clone(), infos: some_infos(g, 4), payload: vec![], data: vec![], slot, session_call: true, ixs: vec![Ix { program: ids().swig, accts: vec![], data: vec![] }], cur: 0 };
        if g.weighted(&[2, 3]) == 0 {
            let k = if g.chance(1, 4) { g.arr() } else { *g.pick(&keys) };
            let d = if g.chance(1, 4) { g.u64() } else { near(g, mx) };
            let (ok, a) = exec(&q, &Op::Start(k, d))?;
            if !cred.session() {
                ensure!(!ok && a == st, "none", "a role without sessions opened one");
            } else if d > mx {
                ensure!(!ok, "too long", "a session of {d} slots was opened although {mx} is the most");
                ensure!(a == st, "failed-open", "a refused session changed the role");
            } else {
                ensure!(ok, "open", "a session of {d} slots was refused although {mx} is allowed");
                let exp = slot.saturating_add(d);
                let mut e = st.clone();
                set_session(ty, &mut e, &k, exp);
                ensure!(a == e, "opened", "stored after opening\n is   {}\n want {}", hex(&a), hex(&e));
                open = Some((k, exp));
                st = a;
            }
            continue;
        }
        // move time, often to the edge of the session
        slot = match (g.below(4), open) {
            (0, Some((_, e))) => e,
            (1, Some((_, e))) => e.saturating_add(1),
            (2, _) => slot.saturating_add(g.below(200)),
            _ => slot,
        }
        .max(slot);
        q.slot = slot;
        let k = match (g.below(3), open) {
            (0 | 1, Some((k, _))) => k,
            _ => *g.pick(&keys),
        };
        let signed = !g.chance(1, 6);
        let w = g.bool();
        let i = put(g, &mut q.infos, Info::new(k, signed, w));
        q.payload = vec![i as u8];
        match g.below(10) {
            0 => q.payload[0] = g.u8(),
            1 => q.payload.push(g.u8()),
            2 => q.payload.clear(),
            _ => {}
        }
        let mut want = match open {
            Some((k, e)) if slot <= e => ref_ed(&q, &k, ty == 2 || ty == 8),
            // nothing was ever opened, or it ended
            _ => No,
        };
        if open.is_some() && ty % 2 == 1 {
            want = No;
        }
        let (ok, a) = exec(&q, &Op::Session)?;
        ensure!(a == st, "use", "using a session changed the role");
        ensure!(!ok || want != No, "accepted", "a session request was accepted at slot {slot}, session {:?}, key used {}, signed {signed}", open.map(|(k, e)| (hex(&k[..4]), e)), hex(&k[..4]));
        ensure!(ok || want != Yes, "refused", "a session request was refused at slot {slot}, session ends {:?}", open.map(|x| x.1));
        used |= ok;
        late |= !ok && open.is_some_and(|x| slot > x.1);
    }
    if used && late {
        cx.label("used and ended");
    }
    if used || !cred.session() {
        cx.hit();
    }
    let _ = keccak256;
    Ok(())
}
pub fn p13() -> Prop {
    Prop {
        id: "P13",
        rule: "a session was opened and used, or the role has no sessions",
        assumptions: &["the signer flags the runtime hands to the program are true"],
        quick: 60_000,
        thorough: 1_500_000,
        fixed: None,
        run: run_p13,
    }
}
