//! Built-in programs: system, SPL token (both), stake, secp256r1 precompile,
//! the scriptable puppet, and no-op programs.
use super::*;

fn e<T>(m: &'static str) -> Result<T, Err> {
    Err(Err::Native(m))
}
fn get(k: &Key) -> Acct {
    TX.with(|t| t.borrow().accts.get(k).cloned().unwrap_or_default())
}
fn set(k: &Key, a: Acct) {
    TX.with(|t| t.borrow_mut().accts.insert(*k, a));
}
fn u64at(d: &[u8], o: usize) -> Result<u64, Err> {
    d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).ok_or(Err::Native("short"))
}
fn u32at(d: &[u8], o: usize) -> Result<u32, Err> {
    d.get(o..o + 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).ok_or(Err::Native("short"))
}
fn keyat(d: &[u8], o: usize) -> Result<Key, Err> {
    d.get(o..o + 32).map(|b| b.try_into().unwrap()).ok_or(Err::Native("short"))
}

pub fn run(program: &Key, m: &[AM], d: &[u8]) -> Result<(), Err> {
    let i = ids();
    if *program == SYSTEM {
        system(m, d)
    } else if *program == i.token || *program == i.token22 {
        token(program, m, d)
    } else if *program == i.stake {
        stake(m, d)
    } else if *program == i.r1 {
        r1(d)
    } else if *program == PUPPET {
        puppet(m, d)
    } else if *program == GUARD && d.starts_with(b"guarded") && !m.iter().any(|a| a.s && a.key == crate::sdk::kk("guardian")) {
        e("guard: the guardian must sign")
    } else {
        Ok(())
    }
}

// ---------------------------------------------------------------- system
fn need(m: &[AM], n: usize) -> Result<(), Err> {
    if m.len() < n {
        e("NotEnoughAccountKeys")
    } else {
        Ok(())
    }
}
fn sys_transfer(m: &[AM], from: usize, to: usize, l: u64) -> Result<(), Err> {
    if !m[from].s {
        return e("system: from must sign");
    }
    let f = get(&m[from].key);
    if !f.data.is_empty() {
        return e("system: from carries data");
    }
    if f.owner != SYSTEM {
        // ExternalAccountLamportSpend from the runtime
        if l > 0 && m[from].key != m[to].key {
            return e("system: from not system owned");
        }
    }
    if f.lamports < l {
        return e("system: insufficient funds");
    }
    if l > 0 && (!m[from].w || !m[to].w) {
        return e("ReadonlyLamportChange");
    }
    let mut f = f;
    f.lamports -= l;
    set(&m[from].key, f);
    let mut t = get(&m[to].key);
    t.lamports = match t.lamports.checked_add(l) {
        Some(x) => x,
        None => return e("overflow"),
    };
    set(&m[to].key, t);
    Ok(())
}
fn sys_allocate(m: &AM, space: u64) -> Result<(), Err> {
    if !m.s {
        return e("allocate: must sign");
    }
    let mut a = get(&m.key);
    if !a.data.is_empty() || a.owner != SYSTEM {
        return e("allocate: already in use");
    }
    if space > 10 * 1024 * 1024 {
        return e("allocate: too big");
    }
    if !m.w && space > 0 {
        return e("ReadonlyDataModified");
    }
    a.data = vec![0; space as usize];
    set(&m.key, a);
    Ok(())
}
fn sys_assign(m: &AM, owner: Key) -> Result<(), Err> {
    let mut a = get(&m.key);
    if a.owner == owner {
        return Ok(());
    }
    if !m.s {
        return e("assign: must sign");
    }
    if !m.w || a.owner != SYSTEM || a.data.iter().any(|b| *b != 0) {
        return e("ModifiedProgramId");
    }
    a.owner = owner;
    set(&m.key, a);
    Ok(())
}
fn system(m: &[AM], d: &[u8]) -> Result<(), Err> {
    match u32at(d, 0)? {
        0 => {
            need(m, 2)?;
            let (l, sp, ow) = (u64at(d, 4)?, u64at(d, 12)?, keyat(d, 20)?);
            if get(&m[1].key).lamports > 0 {
                return e("create: account already in use");
            }
            sys_allocate(&m[1], sp)?;
            sys_assign(&m[1], ow)?;
            sys_transfer(m, 0, 1, l)
        }
        1 => {
            need(m, 1)?;
            sys_assign(&m[0], keyat(d, 4)?)
        }
        2 => {
            need(m, 2)?;
            sys_transfer(m, 0, 1, u64at(d, 4)?)
        }
        8 => {
            need(m, 1)?;
            sys_allocate(&m[0], u64at(d, 4)?)
        }
        _ => e("system: unsupported"),
    }
}

// ----------------------------------------------------------------- token
/// SPL token account (165 bytes).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub mint: Key,
    pub owner: Key,
    pub amount: u64,
    pub delegate: Option<Key>,
    pub state: u8,
    pub native: Option<u64>,
    pub delegated: u64,
    pub close: Option<Key>,
}
pub fn copt(o: &Option<Key>) -> [u8; 36] {
    let mut r = [0; 36];
    if let Some(k) = o {
        r[0] = 1;
        r[4..].copy_from_slice(k);
    }
    r
}
pub fn ropt(d: &[u8]) -> Option<Key> {
    if u32::from_le_bytes(d[..4].try_into().unwrap()) == 1 {
        Some(d[4..36].try_into().unwrap())
    } else {
        None
    }
}
impl Tok {
    pub fn new(mint: Key, owner: Key, amount: u64) -> Tok {
        Tok { mint, owner, amount, delegate: None, state: 1, native: None, delegated: 0, close: None }
    }
    pub fn pack(&self) -> Vec<u8> {
        let mut d = Vec::with_capacity(165);
        d.extend(self.mint);
        d.extend(self.owner);
        d.extend(self.amount.to_le_bytes());
        d.extend(copt(&self.delegate));
        d.push(self.state);
        d.extend((self.native.is_some() as u32).to_le_bytes());
        d.extend(self.native.unwrap_or(0).to_le_bytes());
        d.extend(self.delegated.to_le_bytes());
        d.extend(copt(&self.close));
        d
    }
    pub fn unpack(d: &[u8]) -> Option<Tok> {
        if d.len() < 165 {
            return None;
        }
        let nat = u32::from_le_bytes(d[109..113].try_into().unwrap()) == 1;
        let t = Tok {
            mint: d[0..32].try_into().unwrap(),
            owner: d[32..64].try_into().unwrap(),
            amount: u64::from_le_bytes(d[64..72].try_into().unwrap()),
            delegate: ropt(&d[72..108]),
            state: d[108],
            native: nat.then(|| u64::from_le_bytes(d[113..121].try_into().unwrap())),
            delegated: u64::from_le_bytes(d[121..129].try_into().unwrap()),
            close: ropt(&d[129..165]),
        };
        (t.state == 1 || t.state == 2).then_some(t)
    }
}
fn tget(p: &Key, k: &Key) -> Result<(Acct, Tok), Err> {
    let a = get(k);
    if a.owner != *p {
        return e("token: IncorrectProgramId");
    }
    match Tok::unpack(&a.data) {
        Some(t) => Ok((a, t)),
        None => e("token: uninitialized"),
    }
}
fn tset(m: &AM, mut a: Acct, t: &Tok) -> Result<(), Err> {
    if !m.w {
        return e("ReadonlyDataModified");
    }
    a.data[..165].copy_from_slice(&t.pack());
    set(&m.key, a);
    Ok(())
}
fn auth(m: &AM, who: &Key) -> Result<(), Err> {
    if m.key != *who {
        return e("token: OwnerMismatch");
    }
    if !m.s {
        return e("token: MissingRequiredSignature");
    }
    Ok(())
}
fn token_move(p: &Key, m: &[AM], src: usize, dst: Option<usize>, au: usize, amt: u64) -> Result<(), Err> {
    let (sa, mut st) = tget(p, &m[src].key)?;
    if st.state == 2 {
        return e("token: frozen");
    }
    if st.amount < amt {
        return e("token: insufficient");
    }
    let mut dt = None;
    if let Some(dst) = dst {
        let (da, d) = tget(p, &m[dst].key)?;
        if d.mint != st.mint {
            return e("token: MintMismatch");
        }
        if d.state == 2 {
            return e("token: frozen");
        }
        dt = Some((da, d, dst));
    }
    if st.delegate == Some(m[au].key) {
        auth(&m[au], &st.delegate.unwrap())?;
        if st.delegated < amt {
            return e("token: insufficient delegated");
        }
        st.delegated -= amt;
        if st.delegated == 0 {
            st.delegate = None;
        }
    } else {
        auth(&m[au], &st.owner)?;
    }
    if let Some(dst) = dst {
        if m[dst].key == m[src].key {
            return Ok(());
        }
    }
    if amt == 0 && st == Tok::unpack(&sa.data).unwrap() {
        return Ok(());
    }
    let native = st.native.is_some();
    st.amount -= amt;
    let mut sa = sa;
    if native && dst.is_some() {
        sa.lamports -= amt;
    }
    tset(&m[src], sa, &st)?;
    if let Some((mut da, mut d, dst)) = dt {
        d.amount = d.amount.checked_add(amt).ok_or(Err::Native("overflow"))?;
        if native {
            da.lamports += amt;
        }
        tset(&m[dst], da, &d)?;
    }
    Ok(())
}
fn token(p: &Key, m: &[AM], d: &[u8]) -> Result<(), Err> {
    let Some(op) = d.first() else { return e("token: empty") };
    match *op {
        3 => {
            need(m, 3)?;
            token_move(p, m, 0, Some(1), 2, u64at(d, 1)?)
        }
        12 => {
            need(m, 4)?;
            token_move(p, m, 0, Some(2), 3, u64at(d, 1)?)
        }
        8 => {
            need(m, 3)?;
            token_move(p, m, 0, None, 2, u64at(d, 1)?)
        }
        15 => {
            need(m, 3)?;
            token_move(p, m, 0, None, 2, u64at(d, 1)?)
        }
        4 | 13 => {
            let (di, ai) = if *op == 4 { (1, 2) } else { (2, 3) };
            need(m, ai + 1)?;
            let (a, mut t) = tget(p, &m[0].key)?;
            if t.state == 2 {
                return e("token: frozen");
            }
            auth(&m[ai], &t.owner)?;
            t.delegate = Some(m[di].key);
            t.delegated = u64at(d, 1)?;
            tset(&m[0], a, &t)
        }
        5 => {
            need(m, 2)?;
            let (a, mut t) = tget(p, &m[0].key)?;
            auth(&m[1], &t.owner)?;
            t.delegate = None;
            t.delegated = 0;
            tset(&m[0], a, &t)
        }
        6 => {
            need(m, 2)?;
            let (a, mut t) = tget(p, &m[0].key)?;
            let kind = *d.get(1).ok_or(Err::Native("short"))?;
            let new = match d.get(2) {
                Some(1) => Some(keyat(d, 3)?),
                Some(0) => None,
                _ => return e("token: bad option"),
            };
            if t.state == 2 {
                return e("token: frozen");
            }
            match kind {
                2 => {
                    auth(&m[1], &t.owner)?;
                    t.owner = new.ok_or(Err::Native("token: owner required"))?;
                    t.delegate = None;
                    t.delegated = 0;
                    if t.native.is_some() {
                        t.close = None;
                    }
                }
                3 => {
                    auth(&m[1], &t.close.unwrap_or(t.owner))?;
                    t.close = new;
                }
                _ => return e("token: authority type"),
            }
            tset(&m[0], a, &t)
        }
        9 => {
            need(m, 3)?;
            let (a, t) = tget(p, &m[0].key)?;
            if m[0].key == m[1].key {
                return e("token: self close");
            }
            if t.native.is_none() && t.amount != 0 {
                return e("token: NonNativeHasBalance");
            }
            auth(&m[2], &t.close.unwrap_or(t.owner))?;
            if !m[0].w || !m[1].w {
                return e("ReadonlyLamportChange");
            }
            let mut dst = get(&m[1].key);
            dst.lamports += a.lamports;
            set(&m[1].key, dst);
            set(&m[0].key, Acct { lamports: 0, data: vec![], owner: SYSTEM, executable: false });
            Ok(())
        }
        18 => {
            need(m, 2)?;
            let a = get(&m[0].key);
            if a.owner != *p || a.data.len() < 165 || a.data[108] != 0 {
                return e("token: init");
            }
            let t = Tok::new(m[1].key, keyat(d, 1)?, 0);
            tset(&m[0], a, &t)
        }
        _ => e("token: unsupported"),
    }
}

// ----------------------------------------------------------------- stake
pub const STAKE_LEN: usize = 200;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Stk {
    pub state: u32,
    pub reserve: u64,
    pub staker: Key,
    pub withdrawer: Key,
    pub voter: Key,
    pub stake: u64,
    pub activation: u64,
    pub deactivation: u64,
}
impl Stk {
    pub fn pack(&self) -> Vec<u8> {
        let mut d = vec![];
        d.extend(self.state.to_le_bytes());
        d.extend(self.reserve.to_le_bytes());
        d.extend(self.staker);
        d.extend(self.withdrawer);
        d.extend([0u8; 48]);
        d.extend(self.voter);
        d.extend(self.stake.to_le_bytes());
        d.extend(self.activation.to_le_bytes());
        d.extend(self.deactivation.to_le_bytes());
        d.extend(0.25f64.to_le_bytes());
        d.extend([0u8; 8]);
        d.resize(STAKE_LEN, 0);
        d
    }
    pub fn unpack(d: &[u8]) -> Option<Stk> {
        if d.len() < STAKE_LEN {
            return None;
        }
        let u = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
        let k = |o: usize| -> Key { d[o..o + 32].try_into().unwrap() };
        Some(Stk {
            state: u32::from_le_bytes(d[..4].try_into().unwrap()),
            reserve: u(4),
            staker: k(12),
            withdrawer: k(44),
            voter: k(124),
            stake: u(156),
            activation: u(164),
            deactivation: u(172),
        })
    }
}
fn sget(k: &Key) -> Result<(Acct, Stk), Err> {
    let a = get(k);
    if a.owner != ids().stake {
        return e("stake: owner");
    }
    match Stk::unpack(&a.data) {
        Some(s) => Ok((a, s)),
        None => e("stake: data"),
    }
}
fn sset(m: &AM, mut a: Acct, s: &Stk) -> Result<(), Err> {
    if !m.w {
        return e("ReadonlyDataModified");
    }
    a.data = s.pack();
    set(&m.key, a);
    Ok(())
}
fn signed(m: &[AM], k: &Key) -> Result<(), Err> {
    if m.iter().any(|x| x.key == *k && x.s) {
        Ok(())
    } else {
        e("stake: MissingRequiredSignature")
    }
}
fn stake(m: &[AM], d: &[u8]) -> Result<(), Err> {
    let epoch = TX.with(|t| t.borrow().slot) / 432_000;
    match u32at(d, 0)? {
        // Authorize { key, kind }
        1 => {
            need(m, 1)?;
            let (a, mut s) = sget(&m[0].key)?;
            let k = keyat(d, 4)?;
            match u32at(d, 36)? {
                0 => {
                    if signed(m, &s.staker).is_err() {
                        signed(m, &s.withdrawer)?;
                    }
                    s.staker = k;
                }
                1 => {
                    signed(m, &s.withdrawer)?;
                    s.withdrawer = k;
                }
                _ => return e("stake: kind"),
            }
            sset(&m[0], a, &s)
        }
        // DelegateStake [stake, vote]
        2 => {
            need(m, 2)?;
            let (a, mut s) = sget(&m[0].key)?;
            signed(m, &s.staker)?;
            s.state = 2;
            s.voter = m[1].key;
            s.stake = a.lamports.saturating_sub(s.reserve);
            s.activation = epoch;
            s.deactivation = u64::MAX;
            sset(&m[0], a, &s)
        }
        // Split(lamports) [from, to]
        3 => {
            need(m, 2)?;
            let (mut a, mut s) = sget(&m[0].key)?;
            let l = u64at(d, 4)?;
            signed(m, &s.staker)?;
            let (mut b, t) = sget(&m[1].key)?;
            if t.state != 0 || a.lamports < l || m[0].key == m[1].key {
                return e("stake: split");
            }
            if s.state == 2 && s.stake < l {
                return e("stake: insufficient stake");
            }
            a.lamports -= l;
            b.lamports += l;
            let mut n = s.clone();
            if s.state == 2 {
                s.stake -= l;
                n.stake = l;
            }
            sset(&m[0], a, &s)?;
            sset(&m[1], b, &n)
        }
        // Withdraw(lamports) [stake, to]
        4 => {
            need(m, 2)?;
            let (mut a, s) = sget(&m[0].key)?;
            signed(m, &s.withdrawer)?;
            let l = u64at(d, 4)?;
            let locked = if s.state == 2 && s.deactivation == u64::MAX { s.stake + s.reserve } else { 0 };
            if l > a.lamports || a.lamports - l < locked || m[0].key == m[1].key {
                return e("stake: insufficient");
            }
            if !m[0].w || !m[1].w {
                return e("ReadonlyLamportChange");
            }
            a.lamports -= l;
            set(&m[0].key, a);
            let mut t = get(&m[1].key);
            t.lamports += l;
            set(&m[1].key, t);
            Ok(())
        }
        // Deactivate [stake]
        5 => {
            need(m, 1)?;
            let (a, mut s) = sget(&m[0].key)?;
            signed(m, &s.staker)?;
            if s.state != 2 || s.deactivation != u64::MAX {
                return e("stake: deactivate");
            }
            s.deactivation = epoch;
            sset(&m[0], a, &s)
        }
        _ => e("stake: unsupported"),
    }
}

// -------------------------------------------------------------- secp256r1
/// Idealised precompile: the layout of the instruction is parsed as on chain;
/// a signature is good iff the key holder really signed that message.
fn r1(d: &[u8]) -> Result<(), Err> {
    if d.len() < 2 {
        return e("r1: short");
    }
    let n = d[0] as usize;
    if n == 0 || n > 8 || d.len() < 2 + 14 * n {
        return e("r1: count");
    }
    let ixs = TX.with(|t| t.borrow().top_ixs.clone());
    for i in 0..n {
        let o = 2 + 14 * i;
        let f = |j: usize| u16::from_le_bytes([d[o + 2 * j], d[o + 2 * j + 1]]) as usize;
        let pick = |ix: usize, off: usize, len: usize| -> Result<Vec<u8>, Err> {
            let data = if ix == 0xffff {
                d
            } else {
                match ixs.get(ix) {
                    Some(x) => &x.data[..],
                    None => return e("r1: ix index"),
                }
            };
            data.get(off..off + len).map(|x| x.to_vec()).ok_or(Err::Native("r1: offset"))
        };
        let _sig = pick(f(1), f(0), 64)?;
        let pk = pick(f(3), f(2), 33)?;
        let msg = pick(f(6), f(4), f(5))?;
        let pk: [u8; 33] = pk.try_into().unwrap();
        let ok = TX.with(|t| t.borrow().r1_signed.contains(&(pk, msg)));
        if !ok {
            return e("r1: bad signature");
        }
    }
    Ok(())
}

// ----------------------------------------------------------------- puppet
/// Script: a list of operations.
/// 0: fail. 1: move lamports from an account it owns.
/// 2: CPI. 3: write to the data of an account it owns.
/// A script may begin like another program's instruction (`DISGUISES`).
#[derive(Clone, Debug)]
pub enum Op {
    Fail,
    Move { from: u8, to: u8, lamports: u64 },
    Cpi { program: u8, accts: Vec<(u8, bool, bool)>, data: Vec<u8> },
    Write { acct: u8, off: u16, data: Vec<u8> },
}
pub fn script(ops: &[Op]) -> Vec<u8> {
    let mut d = vec![];
    for o in ops {
        match o {
            Op::Fail => d.push(0),
            Op::Move { from, to, lamports } => {
                d.extend([1, *from, *to]);
                d.extend(lamports.to_le_bytes());
            }
            Op::Cpi { program, accts, data } => {
                d.extend([2, *program, accts.len() as u8]);
                for (i, s, w) in accts {
                    d.extend([*i, *s as u8 | (*w as u8) << 1]);
                }
                d.extend((data.len() as u16).to_le_bytes());
                d.extend(data);
            }
            Op::Write { acct, off, data } => {
                d.extend([3, *acct]);
                d.extend(off.to_le_bytes());
                d.extend((data.len() as u16).to_le_bytes());
                d.extend(data);
            }
        }
    }
    d
}
/// What a script can begin with without it meaning anything: the bytes that
/// tell (and how many there are with the rest): a system transfer, a token
/// transfer with decimals, a token account being closed.
pub const DISGUISES: [(&[u8], usize); 3] = [(&[2, 0, 0, 0], 12), (&[12], 10), (&[9], 1)];
fn puppet(m: &[AM], d: &[u8]) -> Result<(), Err> {
    let mut p = DISGUISES.iter().find(|x| d.len() >= x.1 && d.starts_with(x.0)).map_or(0, |x| x.1);
    macro_rules! take {
        ($n:expr) => {{
            let n = $n;
            let s = match d.get(p..p + n) {
                Some(s) => s,
                None => return Ok(()),
            };
            p += n;
            s
        }};
    }
    while p < d.len() {
        match take!(1)[0] {
            0 => return e("puppet: told to fail"),
            1 => {
                let h = take!(2).to_vec();
                let l = u64::from_le_bytes(take!(8).try_into().unwrap());
                let (f, t) = (h[0] as usize, h[1] as usize);
                need(m, f.max(t) + 1)?;
                let mut fa = get(&m[f].key);
                if fa.owner != PUPPET || fa.lamports < l || !m[f].w || !m[t].w {
                    return e("puppet: cannot move lamports");
                }
                fa.lamports -= l;
                set(&m[f].key, fa);
                let mut ta = get(&m[t].key);
                ta.lamports += l;
                set(&m[t].key, ta);
            }
            2 => {
                let h = take!(2).to_vec();
                let mut accts = vec![];
                need(m, h[0] as usize + 1)?;
                for _ in 0..h[1] {
                    let x = take!(2);
                    need(m, x[0] as usize + 1)?;
                    accts.push(AM { key: m[x[0] as usize].key, s: x[1] & 1 != 0, w: x[1] & 2 != 0 });
                }
                let n = u16::from_le_bytes(take!(2).try_into().unwrap()) as usize;
                let data = take!(n).to_vec();
                cpi(&Ix { program: m[h[0] as usize].key, accts, data }, &[], None)?;
            }
            3 => {
                let a = take!(1)[0] as usize;
                let off = u16::from_le_bytes(take!(2).try_into().unwrap()) as usize;
                let n = u16::from_le_bytes(take!(2).try_into().unwrap()) as usize;
                let data = take!(n).to_vec();
                need(m, a + 1)?;
                let mut acc = get(&m[a].key);
                if acc.owner != PUPPET || !m[a].w || acc.data.len() < off + n {
                    return e("puppet: cannot write");
                }
                acc.data[off..off + n].copy_from_slice(&data);
                set(&m[a].key, acc);
            }
            _ => return Ok(()),
        }
    }
    Ok(())
}
