//! Independent codec of the wallet config account: what the bytes mean,
//! written from the documented layout, shared by generators and oracles.
pub use crate::vm::Key;

pub mod perm {
    pub const SOL: u16 = 1;
    pub const SOL_REC: u16 = 2;
    pub const PROGRAM: u16 = 3;
    pub const SCOPE: u16 = 4;
    pub const TOKEN: u16 = 5;
    pub const TOKEN_REC: u16 = 6;
    pub const ALL: u16 = 7;
    pub const MANAGE: u16 = 8;
    pub const SUB: u16 = 9;
    pub const STAKE: u16 = 10;
    pub const STAKE_REC: u16 = 11;
    pub const STAKE_ALL: u16 = 12;
    pub const PROGRAM_ALL: u16 = 13;
    pub const CURATED: u16 = 14;
    pub const ALL_BUT: u16 = 15;
    pub const SOL_DEST: u16 = 16;
    pub const SOL_REC_DEST: u16 = 17;
    pub const TOKEN_DEST: u16 = 18;
    pub const TOKEN_REC_DEST: u16 = 19;
    pub const CLOSE: u16 = 20;
    pub const REPLACE: u16 = 21;
    pub const SUB2_CREATE: u16 = 22;
    pub const SUB2_ALL: u16 = 23;
    pub const SUB2_SIGN: u16 = 24;
    pub const SUB2_WITHDRAW: u16 = 25;
    pub const SUB2_TOGGLE: u16 = 26;
}

/// Body length of every permission kind.
pub fn body_len(t: u16) -> Option<usize> {
    use perm::*;
    Some(match t {
        SOL | STAKE => 8,
        SOL_REC | STAKE_REC => 32,
        PROGRAM | CURATED => 32,
        SCOPE => 144,
        TOKEN => 40,
        TOKEN_REC => 64,
        SUB => 72,
        SOL_DEST => 40,
        SOL_REC_DEST => 64,
        TOKEN_DEST => 72,
        TOKEN_REC_DEST => 96,
        REPLACE | SUB2_ALL | SUB2_SIGN | SUB2_WITHDRAW | SUB2_TOGGLE => 8,
        ALL | MANAGE | STAKE_ALL | PROGRAM_ALL | ALL_BUT | CLOSE | SUB2_CREATE => 0,
        _ => return None,
    })
}
pub fn repeatable(t: u16) -> bool {
    use perm::*;
    matches!(
        t,
        PROGRAM | SCOPE | TOKEN | TOKEN_REC | SUB | SOL_DEST | SOL_REC_DEST | TOKEN_DEST | TOKEN_REC_DEST | REPLACE | SUB2_ALL | SUB2_SIGN | SUB2_WITHDRAW | SUB2_TOGGLE
    )
}
/// Length of the part of the body that selects one of several actions of a kind
/// (offset, length).
pub fn match_range(t: u16) -> Option<(usize, usize)> {
    use perm::*;
    Some(match t {
        PROGRAM | TOKEN | TOKEN_REC | SOL_DEST | SOL_REC_DEST => (0, 32),
        SCOPE => (80, 32),
        TOKEN_DEST | TOKEN_REC_DEST => (0, 64),
        REPLACE | SUB2_ALL | SUB2_SIGN | SUB2_WITHDRAW | SUB2_TOGGLE => (0, 4),
        _ => return None,
    })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Act {
    pub ty: u16,
    pub body: Vec<u8>,
}
pub fn act(ty: u16, body: impl Into<Vec<u8>>) -> Act {
    Act { ty, body: body.into() }
}
fn cat(p: &[&[u8]]) -> Vec<u8> {
    p.concat()
}
pub fn u64v(xs: &[u64]) -> Vec<u8> {
    xs.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub mod mk {
    use super::*;
    use perm::*;
    pub fn all() -> Act {
        act(ALL, vec![])
    }
    pub fn manage() -> Act {
        act(MANAGE, vec![])
    }
    pub fn flag(t: u16) -> Act {
        act(t, vec![])
    }
    pub fn sol(a: u64) -> Act {
        act(SOL, u64v(&[a]))
    }
    /// recurring, window, last_reset, current
    pub fn sol_rec(r: u64, w: u64, l: u64, c: u64) -> Act {
        act(SOL_REC, u64v(&[r, w, l, c]))
    }
    pub fn sol_dest(d: &Key, a: u64) -> Act {
        act(SOL_DEST, cat(&[d, &a.to_le_bytes()]))
    }
    pub fn sol_rec_dest(d: &Key, r: u64, w: u64, l: u64, c: u64) -> Act {
        act(SOL_REC_DEST, cat(&[d, &u64v(&[r, w, l, c])]))
    }
    pub fn token(m: &Key, a: u64) -> Act {
        act(TOKEN, cat(&[m, &a.to_le_bytes()]))
    }
    /// window, limit, current, last_reset
    pub fn token_rec(m: &Key, w: u64, limit: u64, cur: u64, last: u64) -> Act {
        act(TOKEN_REC, cat(&[m, &u64v(&[w, limit, cur, last])]))
    }
    pub fn token_dest(m: &Key, d: &Key, a: u64) -> Act {
        act(TOKEN_DEST, cat(&[m, d, &a.to_le_bytes()]))
    }
    pub fn token_rec_dest(m: &Key, d: &Key, r: u64, w: u64, l: u64, c: u64) -> Act {
        act(TOKEN_REC_DEST, cat(&[m, d, &u64v(&[r, w, l, c])]))
    }
    pub fn stake(a: u64) -> Act {
        act(STAKE, u64v(&[a]))
    }
    pub fn stake_rec(r: u64, w: u64, l: u64, c: u64) -> Act {
        act(STAKE_REC, u64v(&[r, w, l, c]))
    }
    pub fn program(p: &Key) -> Act {
        act(PROGRAM, p.to_vec())
    }
    pub fn curated() -> Act {
        act(CURATED, vec![0; 32])
    }
    pub fn replace(role: u32) -> Act {
        act(REPLACE, cat(&[&role.to_le_bytes(), &[0; 4]]))
    }
    pub fn sub2(t: u16, id: u32) -> Act {
        act(t, cat(&[&id.to_le_bytes(), &[0; 4]]))
    }
    /// The blank sub-account grant a role is created with.
    pub fn sub() -> Act {
        act(SUB, vec![0; 72])
    }
    pub fn sub_full(k: &Key, bump: u8, enabled: bool, role: u32, swig_id: &Key) -> Act {
        act(SUB, cat(&[k, &[bump, enabled as u8, 0, 0], &role.to_le_bytes(), swig_id]))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn scope(cur: u128, limit: u128, window: u64, last: u64, program: &Key, target: &Key, kind: u64, num: u64, start: u64, end: u64) -> Act {
        act(
            SCOPE,
            cat(&[&cur.to_le_bytes(), &limit.to_le_bytes(), &u64v(&[window, last]), program, target, &u64v(&[kind, num, start, end])]),
        )
    }
}

/// Actions as a role stores them: each header's boundary is the end of the
/// action, relative to the start of the list.
pub fn enc_actions(a: &[Act]) -> Vec<u8> {
    let mut d = vec![];
    for x in a {
        let end = d.len() + 8 + x.body.len();
        d.extend(x.ty.to_le_bytes());
        d.extend((x.body.len() as u16).to_le_bytes());
        d.extend((end as u32).to_le_bytes());
        d.extend(&x.body);
    }
    d
}
pub fn dec_actions(d: &[u8], n: usize) -> Result<Vec<Act>, String> {
    let mut p = 0;
    let mut v = vec![];
    for i in 0..n {
        if p + 8 > d.len() {
            return Err(format!("action {i}: header past the end"));
        }
        let ty = u16::from_le_bytes([d[p], d[p + 1]]);
        let len = u16::from_le_bytes([d[p + 2], d[p + 3]]) as usize;
        let b = u32::from_le_bytes(d[p + 4..p + 8].try_into().unwrap()) as usize;
        if p + 8 + len > d.len() {
            return Err(format!("action {i}: body past the end"));
        }
        if b != p + 8 + len {
            return Err(format!("action {i}: boundary {b} instead of {}", p + 8 + len));
        }
        if ty == 0 || body_len(ty) != Some(len) {
            return Err(format!("action {i}: type {ty} with length {len}"));
        }
        v.push(act(ty, d[p + 8..p + 8 + len].to_vec()));
        p = b;
    }
    if p != d.len() {
        return Err(format!("{} bytes after the last action", d.len() - p));
    }
    Ok(v)
}

pub const HEADER: usize = 48;
pub const RENT_TLV: usize = 40;
pub fn auth_len(t: u16) -> Option<usize> {
    Some(match t {
        1 => 32,
        2 => 80,
        3 => 40,
        4 => 88,
        5 => 40,
        6 => 88,
        7 => 80,
        8 => 128,
        _ => return None,
    })
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RoleImg {
    pub id: u32,
    pub ty: u16,
    pub auth: Vec<u8>,
    pub acts: Vec<Act>,
}
impl RoleImg {
    pub fn bytes(&self) -> usize {
        16 + self.auth.len() + self.acts.iter().map(|a| 8 + a.body.len()).sum::<usize>()
    }
    pub fn has(&self, t: u16) -> bool {
        self.acts.iter().any(|a| a.ty == t)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SwigImg {
    pub bump: u8,
    pub id: Key,
    pub role_counter: u32,
    /// bytes 40..44 (wallet bump and reserved bytes)
    pub wallet: [u8; 4],
    pub sub_counter: u32,
    pub roles: Vec<RoleImg>,
    pub tail: Vec<u8>,
}
impl SwigImg {
    pub fn new(id: Key, bump: u8, wallet_bump: u8) -> SwigImg {
        SwigImg { bump, id, role_counter: 0, wallet: [wallet_bump, 0, 0, 0], sub_counter: 0, roles: vec![], tail: vec![] }
    }
    pub fn push(&mut self, ty: u16, auth: Vec<u8>, acts: Vec<Act>) -> u32 {
        let id = self.role_counter;
        self.role_counter += 1;
        self.roles.push(RoleImg { id, ty, auth, acts });
        id
    }
    pub fn role(&self, id: u32) -> Option<&RoleImg> {
        self.roles.iter().find(|r| r.id == id)
    }
    pub fn role_mut(&mut self, id: u32) -> Option<&mut RoleImg> {
        self.roles.iter_mut().find(|r| r.id == id)
    }
    pub fn enc_roles(&self) -> Vec<u8> {
        let mut d = vec![];
        for r in &self.roles {
            let end = d.len() + r.bytes();
            d.extend(r.ty.to_le_bytes());
            d.extend((r.auth.len() as u16).to_le_bytes());
            d.extend((r.acts.len() as u16).to_le_bytes());
            d.extend([0, 0]);
            d.extend(r.id.to_le_bytes());
            d.extend((end as u32).to_le_bytes());
            d.extend(&r.auth);
            d.extend(enc_actions(&r.acts));
        }
        d
    }
    pub fn header(&self) -> Vec<u8> {
        let mut d = vec![1, self.bump];
        d.extend(self.id);
        d.extend((self.roles.len() as u16).to_le_bytes());
        d.extend(self.role_counter.to_le_bytes());
        d.extend(self.wallet);
        d.extend(self.sub_counter.to_le_bytes());
        d
    }
    pub fn enc(&self) -> Vec<u8> {
        let mut d = self.header();
        d.extend(self.enc_roles());
        d.extend(&self.tail);
        d
    }
    /// Strict: everything must be where it belongs.
    pub fn dec(d: &[u8]) -> Result<SwigImg, String> {
        if d.len() < HEADER {
            return Err("shorter than the header".into());
        }
        if d[0] != 1 {
            return Err(format!("discriminator {}", d[0]));
        }
        let n = u16::from_le_bytes([d[34], d[35]]) as usize;
        let mut s = SwigImg {
            bump: d[1],
            id: d[2..34].try_into().unwrap(),
            role_counter: u32::from_le_bytes(d[36..40].try_into().unwrap()),
            wallet: d[40..44].try_into().unwrap(),
            sub_counter: u32::from_le_bytes(d[44..48].try_into().unwrap()),
            roles: vec![],
            tail: vec![],
        };
        let b = &d[HEADER..];
        let mut p = 0;
        for i in 0..n {
            if p + 16 > b.len() {
                return Err(format!("role {i}: header past the end"));
            }
            let h = |o: usize| u16::from_le_bytes([b[p + o], b[p + o + 1]]);
            let (ty, al, na, pad) = (h(0), h(2) as usize, h(4) as usize, h(6));
            let id = u32::from_le_bytes(b[p + 8..p + 12].try_into().unwrap());
            let end = u32::from_le_bytes(b[p + 12..p + 16].try_into().unwrap()) as usize;
            if auth_len(ty) != Some(al) {
                return Err(format!("role {i}: authority type {ty} length {al}"));
            }
            if pad != 0 {
                return Err(format!("role {i}: padding {pad}"));
            }
            if end > b.len() || end < p + 16 + al {
                return Err(format!("role {i}: boundary {end}, start {p}, data {}", b.len()));
            }
            let acts = dec_actions(&b[p + 16 + al..end], na).map_err(|e| format!("role {i} (id {id}): {e}"))?;
            if id >= s.role_counter {
                return Err(format!("role {i}: id {id} >= counter {}", s.role_counter));
            }
            if s.roles.iter().any(|r| r.id == id) {
                return Err(format!("role id {id} twice"));
            }
            s.roles.push(RoleImg { id, ty, auth: b[p + 16..p + 16 + al].to_vec(), acts });
            p = end;
        }
        s.tail = b[p..].to_vec();
        if !s.tail.is_empty() && s.tail.len() != RENT_TLV {
            return Err(format!("tail of {} bytes", s.tail.len()));
        }
        Ok(s)
    }
}
