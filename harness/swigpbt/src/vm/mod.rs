//! A small Solana runtime: enough of the transaction, account, CPI and sysvar
//! rules for the swig program to run natively, byte for byte as on chain.
//! Every rule that the program relies on for safety (privilege escalation,
//! ownership, lamport conservation, rent state, atomicity) is enforced here.
pub mod native;
pub mod syscalls;

use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub type Key = [u8; 32];

pub fn b58(s: &str) -> Key {
    let mut k = [0u8; 32];
    let n = bs58::decode(s).onto(&mut k).unwrap();
    assert_eq!(n, 32);
    k
}
pub fn short(k: &Key) -> String {
    let s = bs58::encode(k).into_string();
    s.chars().take(6).collect()
}

pub const SYSTEM: Key = [0; 32];
macro_rules! ids { ($($n:ident = $s:expr;)*) => {
    pub struct Ids { $(pub $n: Key,)* }
    thread_local! { static IDS: &'static Ids = Box::leak(Box::new(Ids { $($n: b58($s),)* })); }
    pub fn ids() -> &'static Ids { IDS.with(|i| *i) }
}}
ids! {
    swig = "swigypWHEksbC64pWKwah1WTeh9JXwx8H1rJHLdbQMB";
    token = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA";
    token22 = "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb";
    stake = "Stake11111111111111111111111111111111111111";
    r1 = "Secp256r1SigVerify1111111111111111111111111";
    ix_sysvar = "Sysvar1nstructions1111111111111111111111111";
    sysvar_owner = "Sysvar1111111111111111111111111111111111111";
    native_loader = "NativeLoader1111111111111111111111111111111";
    compute_budget = "ComputeBudget111111111111111111111111111111";
    memo = "MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr";
    ata = "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL";
}
/// The scriptable program (see native.rs).
pub const PUPPET: Key = *b"puppet-program-that-does-as-told";
/// Programs that accept anything and do nothing.
/// succeeds on data that starts with "guarded" only with its guardian's signature
pub const GUARD: Key = *b"guard-program-with-a-guardian---";
pub const NOOP1: Key = *b"noop-program-number-1-----------";
/// almost the first one
pub const NOOP3: Key = *b"noop-program-number-1----------.";
pub const NOOP2: Key = *b"noop-program-number-2-----------";

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Key,
    pub executable: bool,
}

pub fn rent_min(len: usize) -> u64 {
    (128 + len as u64) * 3480 * 2
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AM {
    pub key: Key,
    pub s: bool,
    pub w: bool,
}
pub fn w(key: Key) -> AM {
    AM { key, s: false, w: true }
}
pub fn ws(key: Key) -> AM {
    AM { key, s: true, w: true }
}
pub fn r(key: Key) -> AM {
    AM { key, s: false, w: false }
}
pub fn rs(key: Key) -> AM {
    AM { key, s: true, w: false }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ix {
    pub program: Key,
    pub accts: Vec<AM>,
    pub data: Vec<u8>,
}

/// One invocation that started, as the callee saw it.
#[derive(Clone, Debug)]
pub struct Invoke {
    pub top: usize,
    pub depth: usize,
    pub caller: Option<Key>,
    pub program: Key,
    pub accts: Vec<AM>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Err {
    Program(u64),
    Panic(String),
    Runtime(&'static str),
    Native(&'static str),
}

pub struct TxOut {
    pub res: Result<(), (usize, Err)>,
    pub invokes: Vec<Invoke>,
    /// Accounts after the transaction as executed (valid also on failure, for
    /// diagnostics only).
    pub logs: Vec<String>,
    /// accounts after each instruction, when asked for
    pub steps: Vec<BTreeMap<Key, Acct>>,
}
impl TxOut {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn err(&self) -> String {
        match &self.res {
            Ok(()) => "ok".into(),
            Err((i, e)) => format!("ix{} {:?}", i, e),
        }
    }
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accts: BTreeMap<Key, Acct>,
    pub slot: u64,
    /// (public key, message) pairs a secp256r1 key holder really signed.
    pub r1_signed: BTreeSet<([u8; 33], Vec<u8>)>,
    pub keep_steps: bool,
}

pub(crate) struct Frame {
    pub program: Key,
    pub buf: *mut u8,
    /// offset of the (first) serialized copy
    pub offs: Vec<(Key, usize)>,
    pub metas: Vec<AM>,
    pub orig_len: BTreeMap<Key, usize>,
    pub sum: u128,
}

#[derive(Default)]
pub(crate) struct Tx {
    pub accts: BTreeMap<Key, Acct>,
    pub frames: Vec<Frame>,
    pub invokes: Vec<Invoke>,
    pub slot: u64,
    pub top: usize,
    pub logs: Vec<String>,
    pub keep_logs: bool,
    pub r1_signed: BTreeSet<([u8; 33], Vec<u8>)>,
    pub top_ixs: Vec<Ix>,
}

thread_local! {
    pub(crate) static TX: RefCell<Tx> = RefCell::new(Tx::default());
}

pub(crate) struct CpiAbort(pub Err);

pub fn is_reserved_pub(k: &Key) -> bool {
    is_reserved(k)
}
fn is_reserved(k: &Key) -> bool {
    let i = ids();
    *k == SYSTEM
        || *k == i.ix_sysvar
        || *k == i.token
        || *k == i.token22
        || *k == i.stake
        || *k == i.r1
        || *k == i.swig
}

pub fn pda(seeds: &[&[u8]], program: &Key) -> Option<Key> {
    if seeds.len() > 16 || seeds.iter().any(|s| s.len() > 32) {
        return None;
    }
    let mut h = Sha256::new();
    for s in seeds {
        h.update(s);
    }
    h.update(program);
    h.update(b"ProgramDerivedAddress");
    let k: Key = h.finalize().into();
    if on_curve(&k) {
        None
    } else {
        Some(k)
    }
}
pub fn on_curve(k: &Key) -> bool {
    curve25519_dalek::edwards::CompressedEdwardsY(*k).decompress().is_some()
}
pub fn find_pda(seeds: &[&[u8]], program: &Key) -> (Key, u8) {
    for b in (0..=255u8).rev() {
        let bump = [b];
        let mut s: Vec<&[u8]> = seeds.to_vec();
        s.push(&bump);
        if let Some(k) = pda(&s, program) {
            return (k, b);
        }
    }
    panic!("no pda")
}

pub fn ixs_sysvar_data(ixs: &[Ix], cur: u16) -> Vec<u8> {
    let mut d = vec![];
    d.extend((ixs.len() as u16).to_le_bytes());
    let tab = d.len();
    d.resize(tab + 2 * ixs.len(), 0);
    for (i, ix) in ixs.iter().enumerate() {
        let off = d.len() as u16;
        d[tab + 2 * i..tab + 2 * i + 2].copy_from_slice(&off.to_le_bytes());
        d.extend((ix.accts.len() as u16).to_le_bytes());
        for a in &ix.accts {
            d.push(a.s as u8 | (a.w as u8) << 1);
            d.extend(a.key);
        }
        d.extend(ix.program);
        d.extend((ix.data.len() as u16).to_le_bytes());
        d.extend(&ix.data);
    }
    d.extend(cur.to_le_bytes());
    d
}

#[derive(PartialEq, Clone, Copy)]
enum RentState {
    Uninit,
    Paying(u64, usize),
    Exempt,
}
fn rent_state(a: &Acct) -> RentState {
    if a.lamports == 0 {
        RentState::Uninit
    } else if a.lamports >= rent_min(a.data.len()) {
        RentState::Exempt
    } else {
        RentState::Paying(a.lamports, a.data.len())
    }
}

impl Bank {
    pub fn new() -> Self {
        let mut b = Bank { slot: 1000, ..Default::default() };
        let i = ids();
        for k in [SYSTEM, i.swig, i.token, i.token22, i.stake, i.r1, i.memo, i.compute_budget, i.ata, PUPPET, NOOP1, NOOP2, NOOP3, GUARD] {
            b.add_program(k);
        }
        b
    }
    pub fn add_program(&mut self, k: Key) {
        self.accts.insert(
            k,
            Acct { lamports: 1_000_000_000, data: vec![], owner: ids().native_loader, executable: true },
        );
    }
    pub fn get(&self, k: &Key) -> Acct {
        self.accts.get(k).cloned().unwrap_or_default()
    }
    pub fn lamports(&self, k: &Key) -> u64 {
        self.accts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn fund(&mut self, k: Key, lamports: u64) {
        self.accts.entry(k).or_default().lamports += lamports;
    }
    pub fn put(&mut self, k: Key, a: Acct) {
        self.accts.insert(k, a);
    }

    /// Runs a transaction signed by `signers`. On failure nothing changes.
    pub fn tx(&mut self, ixs: &[Ix], signers: &[Key]) -> TxOut {
        self.tx_opt(ixs, signers, true, false)
    }
    /// Same, without committing.
    pub fn simulate(&self, ixs: &[Ix], signers: &[Key]) -> (TxOut, Bank) {
        let mut b = self.clone();
        let o = b.tx_opt(ixs, signers, true, false);
        (o, b)
    }
    pub fn tx_opt(&mut self, ixs: &[Ix], signers: &[Key], commit: bool, keep_logs: bool) -> TxOut {
        // message-level privileges
        let mut sg: BTreeMap<Key, bool> = BTreeMap::new();
        let mut wr: BTreeMap<Key, bool> = BTreeMap::new();
        for ix in ixs {
            sg.entry(ix.program).or_default();
            wr.entry(ix.program).or_default();
            for a in &ix.accts {
                *sg.entry(a.key).or_default() |= a.s;
                *wr.entry(a.key).or_default() |= a.w;
            }
        }
        for (k, v) in wr.iter_mut() {
            if is_reserved(k) {
                *v = false;
            }
        }
        for (k, v) in &sg {
            if *v && !signers.contains(k) {
                return TxOut {
                    res: Err((0, Err::Runtime("SignatureMissing"))),
                    invokes: vec![],
                    logs: vec![],
                    steps: vec![],
                };
            }
        }
        let ixs: Vec<Ix> = ixs
            .iter()
            .map(|ix| Ix {
                program: ix.program,
                data: ix.data.clone(),
                accts: ix.accts.iter().map(|a| AM { key: a.key, s: sg[&a.key], w: wr[&a.key] }).collect(),
            })
            .collect();
        let mut accts: BTreeMap<Key, Acct> = BTreeMap::new();
        for k in sg.keys() {
            if let Some(a) = self.accts.get(k) {
                accts.insert(*k, a.clone());
            } else {
                accts.insert(*k, Acct::default());
            }
        }
        if accts.contains_key(&ids().ix_sysvar) {
            accts.insert(
                ids().ix_sysvar,
                Acct { lamports: 0, data: vec![], owner: ids().sysvar_owner, executable: false },
            );
        }
        let pre: BTreeMap<Key, RentState> = accts
            .iter()
            .filter(|(k, _)| wr[*k])
            .map(|(k, a)| (*k, rent_state(a)))
            .collect();
        TX.with(|t| {
            *t.borrow_mut() = Tx {
                accts,
                slot: self.slot,
                keep_logs,
                r1_signed: self.r1_signed.clone(),
                top_ixs: ixs.clone(),
                ..Default::default()
            }
        });
        let mut res = Ok(());
        let mut steps = vec![];
        for (i, ix) in ixs.iter().enumerate() {
            TX.with(|t| {
                let mut t = t.borrow_mut();
                t.top = i;
                if let Some(a) = t.accts.get_mut(&ids().ix_sysvar) {
                    a.data = ixs_sysvar_data(&ixs, i as u16);
                }
            });
            if let Err(e) = invoke(&ix.program, &ix.accts, &ix.data) {
                res = Err((i, e));
                break;
            }
            if self.keep_steps {
                steps.push(TX.with(|t| t.borrow().accts.clone()));
            }
        }
        let mut tx = TX.with(|t| std::mem::take(&mut *t.borrow_mut()));
        if res.is_ok() {
            for (k, p) in &pre {
                let post = rent_state(&tx.accts[k]);
                if let RentState::Paying(l, n) = post {
                    let fine = matches!(p, RentState::Paying(pl, pn) if *pn == n && l <= *pl);
                    if !fine {
                        res = Err((ixs.len(), Err::Runtime("InsufficientFundsForRent")));
                        break;
                    }
                }
            }
        }
        if res.is_ok() && commit {
            tx.accts.remove(&ids().ix_sysvar);
            for (k, a) in std::mem::take(&mut tx.accts) {
                if a.lamports == 0 {
                    self.accts.remove(&k);
                } else {
                    self.accts.insert(k, a);
                }
            }
        }
        TxOut { res, invokes: tx.invokes, logs: tx.logs, steps }
    }
}

const HDR: usize = 88;
const GROW: usize = 10240;

/// Invokes a program with already checked privileges.
pub(crate) fn invoke(program: &Key, metas: &[AM], data: &[u8]) -> Result<(), Err> {
    // duplicate metas share privileges
    let mut uni: BTreeMap<Key, (bool, bool)> = BTreeMap::new();
    for m in metas {
        let e = uni.entry(m.key).or_default();
        e.0 |= m.s;
        e.1 |= m.w;
    }
    let metas: Vec<AM> = metas.iter().map(|m| AM { key: m.key, s: uni[&m.key].0, w: uni[&m.key].1 }).collect();
    if metas.len() > 255 {
        return Err(Err::Runtime("TooManyAccounts"));
    }
    let (depth, sum) = TX.with(|t| {
        let mut t = t.borrow_mut();
        let depth = t.frames.len() + 1;
        let caller = t.frames.last().map(|f| f.program);
        let top = t.top;
        t.invokes.push(Invoke { top, depth, caller, program: *program, accts: metas.clone(), data: data.to_vec() });
        let sum: u128 = uni.keys().map(|k| t.accts.get(k).map(|a| a.lamports as u128).unwrap_or(0)).sum();
        (depth, sum)
    });
    if depth > 5 {
        return Err(Err::Runtime("CallDepth"));
    }
    let is_exec = TX.with(|t| t.borrow().accts.get(program).map(|a| a.executable).unwrap_or(false));
    if !is_exec {
        return Err(Err::Runtime("UnsupportedProgramId"));
    }
    let r = if *program == ids().swig {
        run_swig(program, &metas, data, sum)
    } else {
        TX.with(|t| {
            t.borrow_mut().frames.push(Frame {
                program: *program,
                buf: std::ptr::null_mut(),
                offs: vec![],
                metas: metas.clone(),
                orig_len: BTreeMap::new(),
                sum,
            })
        });
        let r = native::run(program, &metas, data);
        TX.with(|t| t.borrow_mut().frames.pop());
        r
    };
    r?;
    let post: u128 = TX.with(|t| {
        let t = t.borrow();
        uni.keys().map(|k| t.accts.get(k).map(|a| a.lamports as u128).unwrap_or(0)).sum()
    });
    if post != sum {
        return Err(Err::Runtime("UnbalancedInstruction"));
    }
    Ok(())
}

fn run_swig(program: &Key, metas: &[AM], data: &[u8], sum: u128) -> Result<(), Err> {
    // serialize as the loader does
    let mut offs: Vec<(Key, usize)> = vec![];
    let mut orig_len = BTreeMap::new();
    let mut buf: Vec<u64> = TX.with(|t| {
        let t = t.borrow();
        let mut total = 8;
        let mut seen: BTreeMap<Key, usize> = BTreeMap::new();
        for (i, m) in metas.iter().enumerate() {
            if seen.contains_key(&m.key) {
                total += 8;
            } else {
                seen.insert(m.key, i);
                let l = t.accts[&m.key].data.len();
                total += (HDR + l + GROW + 7) / 8 * 8 + 8;
            }
        }
        total += 8 + data.len() + 32 + 16;
        let mut v: Vec<u64> = vec![0; total / 8 + 2];
        let b = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, v.len() * 8) };
        b[0..8].copy_from_slice(&(metas.len() as u64).to_le_bytes());
        let mut p = 8;
        for (i, m) in metas.iter().enumerate() {
            let first = seen[&m.key];
            if first < i {
                b[p] = first as u8;
                p += 8;
                continue;
            }
            let a = &t.accts[&m.key];
            offs.push((m.key, p));
            orig_len.insert(m.key, a.data.len());
            b[p] = 0xff;
            b[p + 1] = m.s as u8;
            b[p + 2] = m.w as u8;
            b[p + 3] = a.executable as u8;
            b[p + 8..p + 40].copy_from_slice(&m.key);
            b[p + 40..p + 72].copy_from_slice(&a.owner);
            b[p + 72..p + 80].copy_from_slice(&a.lamports.to_le_bytes());
            b[p + 80..p + 88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
            b[p + 88..p + 88 + a.data.len()].copy_from_slice(&a.data);
            p += (HDR + a.data.len() + GROW + 7) / 8 * 8;
            b[p..p + 8].copy_from_slice(&u64::MAX.to_le_bytes());
            p += 8;
        }
        b[p..p + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
        p += 8;
        b[p..p + data.len()].copy_from_slice(data);
        p += data.len();
        b[p..p + 32].copy_from_slice(program);
        v
    });
    let ptr = buf.as_mut_ptr() as *mut u8;
    TX.with(|t| {
        t.borrow_mut().frames.push(Frame {
            program: *program,
            buf: ptr,
            offs: offs.clone(),
            metas: metas.to_vec(),
            orig_len: orig_len.clone(),
            sum,
        })
    });
    let depth = TX.with(|t| t.borrow().frames.len());
    let r = crate::engine::quiet_catch(|| {
        let ctx = unsafe { pinocchio::lazy_entrypoint::InstructionContext::new_unchecked(ptr) };
        swig::process_instruction(ctx)
    });
    let out = match r {
        Ok(Ok(())) => {
            // copy back
            let mut e = Ok(());
            for (k, off) in &offs {
                e = sync_from_caller(k, *off, ptr, orig_len[k], metas, program, true);
                if e.is_err() {
                    break;
                }
            }
            e
        }
        Ok(Err(pe)) => Err(Err::Program(pe.into())),
        Err(p) => match p.downcast::<CpiAbort>() {
            Ok(a) => Err(a.0),
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "?".into()
                };
                Err(Err::Panic(m))
            }
        },
    };
    TX.with(|t| {
        let mut t = t.borrow_mut();
        t.frames.truncate(depth);
        t.frames.pop();
    });
    drop(buf);
    out
}

/// Copies an account from a program's input buffer into the transaction, with
/// the runtime's checks on what a program may change.
pub(crate) fn sync_from_caller(
    k: &Key,
    off: usize,
    ptr: *mut u8,
    orig_len: usize,
    metas: &[AM],
    program: &Key,
    set_owner: bool,
) -> Result<(), Err> {
    let writable = metas.iter().any(|m| m.key == *k && m.w);
    let hdr = unsafe { std::slice::from_raw_parts(ptr.add(off), HDR) };
    let lam = u64::from_le_bytes(hdr[72..80].try_into().unwrap());
    let len = u64::from_le_bytes(hdr[80..88].try_into().unwrap()) as usize;
    let owner: Key = hdr[40..72].try_into().unwrap();
    if len > orig_len + GROW {
        return Err(Err::Runtime("InvalidRealloc"));
    }
    let data = unsafe { std::slice::from_raw_parts(ptr.add(off + HDR), len) };
    TX.with(|t| {
        let mut t = t.borrow_mut();
        let a = t.accts.get_mut(k).unwrap();
        let owned = a.owner == *program;
        if lam != a.lamports {
            if !writable {
                return Err(Err::Runtime("ReadonlyLamportChange"));
            }
            if !owned && lam < a.lamports {
                return Err(Err::Runtime("ExternalAccountLamportSpend"));
            }
            a.lamports = lam;
        }
        if data != &a.data[..] {
            if !writable {
                return Err(Err::Runtime("ReadonlyDataModified"));
            }
            if !owned {
                return Err(Err::Runtime("ExternalAccountDataModified"));
            }
            a.data = data.to_vec();
        }
        if set_owner && owner != a.owner {
            if !writable || !owned || a.data.iter().any(|b| *b != 0) {
                return Err(Err::Runtime("ModifiedProgramId"));
            }
            a.owner = owner;
        }
        Ok(())
    })
}

/// Copies an account from the transaction back into a program's input buffer
/// after a CPI.
pub(crate) fn sync_to_caller(k: &Key, off: usize, ptr: *mut u8, orig_len: usize) -> Result<(), Err> {
    TX.with(|t| {
        let t = t.borrow();
        let a = &t.accts[k];
        if a.data.len() > orig_len + GROW {
            return Err(Err::Runtime("InvalidRealloc"));
        }
        let b = unsafe { std::slice::from_raw_parts_mut(ptr.add(off), HDR + orig_len + GROW) };
        let old_len = u64::from_le_bytes(b[80..88].try_into().unwrap()) as usize;
        b[40..72].copy_from_slice(&a.owner);
        b[72..80].copy_from_slice(&a.lamports.to_le_bytes());
        b[80..88].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
        b[HDR..HDR + a.data.len()].copy_from_slice(&a.data);
        if a.data.len() < old_len {
            b[HDR + a.data.len()..HDR + old_len].fill(0);
        }
        Ok(())
    })
}

/// A CPI as requested by any program in the current frame.
pub(crate) fn cpi(ix: &Ix, pda_signers: &[Key], infos: Option<&[Key]>) -> Result<(), Err> {
    let (program, metas, buf, offs, orig, sum) = TX.with(|t| {
        let t = t.borrow();
        let f = t.frames.last().unwrap();
        (f.program, f.metas.clone(), f.buf, f.offs.clone(), f.orig_len.clone(), f.sum)
    });
    // privileges
    for a in &ix.accts {
        let Some(m) = metas.iter().find(|m| m.key == a.key) else {
            return Err(Err::Runtime("MissingAccount"));
        };
        if a.w && !m.w {
            return Err(Err::Runtime("PrivilegeEscalation(writable)"));
        }
        if a.s && !(m.s || pda_signers.contains(&a.key)) {
            return Err(Err::Runtime("PrivilegeEscalation(signer)"));
        }
        if let Some(i) = infos {
            let exec = TX.with(|t| t.borrow().accts.get(&a.key).map(|x| x.executable).unwrap_or(false));
            if !exec && !i.contains(&a.key) {
                return Err(Err::Runtime("MissingAccountInfo"));
            }
        }
    }
    if !metas.iter().any(|m| m.key == ix.program) {
        return Err(Err::Runtime("MissingAccount(program)"));
    }
    // reentrancy: only direct self recursion
    let reent = TX.with(|t| {
        let t = t.borrow();
        let n = t.frames.len();
        t.frames.iter().take(n - 1).any(|f| f.program == ix.program) && t.frames[n - 1].program != ix.program
    });
    if reent {
        return Err(Err::Runtime("ReentrancyNotAllowed"));
    }
    if !buf.is_null() {
        for (k, off) in &offs {
            if ix.accts.iter().any(|a| a.key == *k) {
                sync_from_caller(k, *off, buf, orig[k], &metas, &program, true)?;
            }
        }
    }
    let now: u128 = TX.with(|t| {
        let t = t.borrow();
        let ks: BTreeSet<Key> = metas.iter().map(|m| m.key).collect();
        ks.iter().map(|k| t.accts.get(k).map(|a| a.lamports as u128).unwrap_or(0)).sum()
    });
    if now != sum {
        return Err(Err::Runtime("UnbalancedInstruction(cpi)"));
    }
    invoke(&ix.program, &ix.accts, &ix.data)?;
    if !buf.is_null() {
        for (k, off) in &offs {
            if ix.accts.iter().any(|a| a.key == *k && a.w) {
                sync_to_caller(k, *off, buf, orig[k])?;
            }
        }
    }
    Ok(())
}
