//! P15, P16: bundles of inner instructions.
use super::common::*;
use crate::util::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey as Pk;
use swig_compact_instructions::{compact_instructions, compact_instructions_sub_account, InstructionIterator};

/// One decoded inner instruction.
#[derive(Clone, Debug, PartialEq, Eq)]
struct In {
    program: usize,
    idx: Vec<u8>,
    data: Vec<u8>,
}
/// Reference decoder: the instructions up to the first broken one, whether one
/// is broken, and how many bytes were used.
fn ref_decode(d: &[u8], accounts: usize) -> Option<(Vec<In>, bool, usize)> {
    let n = *d.first()? as usize;
    let mut p = 1;
    let mut out = vec![];
    for _ in 0..n {
        let one = (|| {
            let program = *d.get(p)? as usize;
            let k = *d.get(p + 1)? as usize;
            let idx = d.get(p + 2..p + 2 + k)?.to_vec();
            let q = p + 2 + k;
            let l = *d.get(q)? as usize | (*d.get(q + 1)? as usize) << 8;
            let data = d.get(q + 2..q + 2 + l)?.to_vec();
            if program >= accounts || idx.iter().any(|i| *i as usize >= accounts) {
                return None;
            }
            Some((In { program, idx, data }, q + 2 + l))
        })();
        match one {
            Some((i, e)) => {
                out.push(i);
                p = e;
            }
            None => return Some((out, true, p)),
        }
    }
    Some((out, false, p))
}
fn encode(v: &[In]) -> Vec<u8> {
    let mut d = vec![v.len() as u8];
    for i in v {
        d.push(i.program as u8);
        d.push(i.idx.len() as u8);
        d.extend(&i.idx);
        d.extend((i.data.len() as u16).to_le_bytes());
        d.extend(&i.data);
    }
    d
}
/// What the real decoder says, in the same terms.
#[derive(Debug, PartialEq, Eq)]
struct Seen {
    program: Option<usize>,
    accts: Vec<(Key, bool, bool)>,
    infos: Vec<(Option<usize>, bool, bool)>,
    idx: Vec<u8>,
    data: Vec<u8>,
    wallet_signs: bool,
}
fn info_fields(a: &pinocchio::instruction::Account) -> (*const Key, bool, bool) {
    // repr(C): key, lamports, data_len, data, owner, rent_epoch, then flags
    #[repr(C)]
    struct Raw {
        key: *const Key,
        lamports: *const u64,
        data_len: u64,
        data: *const u8,
        owner: *const Key,
        rent_epoch: u64,
        is_signer: bool,
        is_writable: bool,
        executable: bool,
    }
    assert_eq!(std::mem::size_of::<Raw>(), std::mem::size_of_val(a));
    let r = unsafe { &*(a as *const _ as *const Raw) };
    (r.key, r.is_signer, r.is_writable)
}
fn decode(infos: &Infos, d: &[u8], signer: &Key, restricted: &[&Key]) -> Result<Result<(Vec<Seen>, bool, usize), String>, String> {
    no_panic(|| {
        let it = match InstructionIterator::new(infos.get(), d, signer, restricted) {
            Ok(i) => i,
            Err(e) => return Err(format!("{}", e as u32)),
        };
        let mut out = vec![];
        let mut broken = false;
        let mut n = 0;
        for x in it {
            n += 1;
            match x {
                Ok(h) if !broken => out.push(Seen {
                    program: infos.index_of(h.program_id),
                    accts: h.accounts.iter().map(|m| (*m.pubkey, m.is_signer, m.is_writable)).collect(),
                    infos: h.cpi_accounts.iter().map(|a| { let (k, s, w) = info_fields(a); (infos.index_of(k), s, w) }).collect(),
                    idx: h.indexes.to_vec(),
                    data: h.data.to_vec(),
                    wallet_signs: h.uses_swig_signer,
                }),
                Ok(_) => {}
                Err(_) => broken = true,
            }
            if n > 256 {
                return Err("does not end".into());
            }
        }
        Ok((out, broken, n))
    })
}

// ------------------------------------------------------------------- P15
pub fn p15() -> Prop {
    Prop {
        id: "P15",
        rule: "the bundle held at least one instruction with accounts, or was refused after a valid start",
        assumptions: &["decoding stops at the first refused instruction, as every caller does"],
        quick: 800_000,
        thorough: 8_000_000,
        fixed: None,
        run: run15,
    }
}
fn first_of(accts: &[Info], k: &Key) -> Option<usize> {
    accts.iter().position(|a| a.key == *k)
}
fn run15(g: &mut Gen, cx: &mut Cx) -> R {
    let n = match g.below(12) {
        0 => 0,
        1 => 250 + g.us(7),
        2 => 20 + g.us(60),
        _ => 1 + g.us(12),
    };
    let keys = 1 + g.us(n.max(1));
    let mut accts = vec![];
    for i in 0..n {
        let k = if g.chance(3, 4) { i } else { g.us(keys) };
        let mut a = Info::new(kn("acct", k as u64), g.chance(1, 3), g.bool());
        // a nearly equal key now and then
        if g.chance(1, 8) {
            a.key = kn("acct", g.us(keys) as u64);
            a.key[g.us(32)] ^= 1 << g.below(8);
        }
        a.acct.lamports = i as u64;
        if let Some(j) = first_of(&accts, &a.key) {
            a = accts[j].clone();
        }
        accts.push(a);
    }
    let signer = if n > 0 && g.chance(4, 5) { accts[g.us(n)].key } else { kk("outside") };
    let mut restricted: Vec<Key> = vec![];
    for _ in 0..[0, 1, 1, 2, 3][g.us(5)] {
        restricted.push(match g.below(4) {
            0 => signer,
            1 => kk("other"),
            _ if n > 0 => accts[g.us(n)].key,
            _ => signer,
        });
    }
    let mut v = vec![];
    let many = match g.below(20) {
        0 => 255,
        1 => 0,
        _ => 1 + g.us(5),
    };
    for _ in 0..many {
        let k = match g.below(20) {
            0 => 255,
            1 => 0,
            _ => g.us(7),
        };
        let k = if many == 255 { k.min(4) } else { k };
        let i = |g: &mut Gen| -> usize {
            let r = g.us(n.max(1));
            if n == 0 { g.us(256) } else { r }
        };
        let program = i(g);
        let idx = (0..k).map(|_| i(g) as u8).collect();
        let l = match g.below(40) {
            0 if many < 10 => 65535 - g.us(3),
            1 if many < 10 => 250 + g.us(20),
            _ => g.us(40).min(g.us(40)),
        };
        v.push(In { program, idx, data: g.bytes(l) });
    }
    let mut d = encode(&v);
    let how = g.below(8);
    match how {
        0 => d.truncate(g.us(d.len() + 1)),
        1 => {
            let i = g.us(d.len());
            d[i] = g.u8();
        }
        2 => d[0] = d[0].wrapping_add(1 + g.u8() % 3),
        3 => {
            let k = 1 + g.us(4);
            let x = g.bytes(k);
            d.extend(x);
        }
        4 if !d.is_empty() && n > 0 => {
            // an index right at the end of the account list
            let i = g.us(v.len().max(1));
            if i < v.len() {
                let off = if v[i].idx.is_empty() || g.chance(1, 3) {
                    v[i].program = n + g.us(2);
                    0
                } else {
                    1
                };
                if off == 1 {
                    let j = g.us(v[i].idx.len());
                    v[i].idx[j] = (n + g.us(3)).min(255) as u8;
                }
                d = encode(&v);
            }
        }
        5 if g.chance(1, 4) => {
            let k = g.us(40);
            d = g.bytes_each(k);
        }
        _ => {}
    }
    let cage = if g.bool() { Cage::tight(&d, 0, 1) } else { Cage::new(&d, 0) };
    let infos = Infos::new(&accts);
    let rk: Vec<&Key> = restricted.iter().collect();
    let got = decode(&infos, cage.get(), &signer, &rk).map_err(|m| bad("abort", format!("{m} on {}", hex(&d[..d.len().min(80)]))))?;
    let want = ref_decode(&d, n);
    let show = || format!("{n} accounts, bundle {}", hex(&d[..d.len().min(120)]));
    match (&want, &got) {
        (None, Err(_)) => {}
        (None, Ok(_)) => return fail("accepted-empty", "an empty bundle was accepted"),
        (Some(_), Err(m)) => return fail("refused", format!("{m}: {}", show())),
        (Some((w, broken, _)), Ok((s, b, cnt))) => {
            ensure!(*broken == *b, "broken", "refused={b} expected {broken}: {}", show());
            ensure!(s.len() == w.len(), "count", "{} instructions, expected {}: {}", s.len(), w.len(), show());
            ensure!(*cnt <= d[0] as usize && (*b || *cnt == d[0] as usize), "count", "{cnt} items, announced {}", d[0]);
            for (x, y) in s.iter().zip(w) {
                let first = |i: usize| first_of(&accts, &accts[i].key);
                ensure!(x.program == first(y.program), "program", "program {:?} expected {}: {}", x.program, y.program, show());
                ensure!(x.idx == y.idx, "indexes", "{:?} expected {:?}", x.idx, y.idx);
                ensure!(x.data == y.data, "data", "data {} expected {}", hex(&x.data), hex(&y.data));
                let mut ws = false;
                let metas: Vec<(Key, bool, bool)> = y
                    .idx
                    .iter()
                    .map(|i| {
                        let a = &accts[*i as usize];
                        let s = (a.key == signer || a.s) && !restricted.contains(&a.key);
                        ws |= s && a.key == signer;
                        (a.key, s, a.w)
                    })
                    .collect();
                ensure!(x.accts == metas, "accounts", "accounts {:?} expected {:?}", x.accts.iter().map(|a| (short(&a.0), a.1, a.2)).collect::<Vec<_>>(), metas.iter().map(|a| (short(&a.0), a.1, a.2)).collect::<Vec<_>>());
                ensure!(x.wallet_signs == ws, "wallet-signs", "wallet signs: {} expected {ws}", x.wallet_signs);
                let inf: Vec<(Option<usize>, bool, bool)> = y.idx.iter().map(|i| (first(*i as usize), accts[*i as usize].s, accts[*i as usize].w)).collect();
                ensure!(x.infos == inf, "infos", "{:?} expected {:?}", x.infos, inf);
            }
            if w.iter().any(|i| !i.idx.is_empty()) {
                cx.hit();
            }
            cx.label(if *broken { "refused" } else { "decoded" });
        }
    }
    cx.note(show);
    Ok(())
}

// ------------------------------------------------------------------- P16
pub fn p16() -> Prop {
    Prop {
        id: "P16",
        rule: "at least two inner instructions, with an account that occurs more than once",
        assumptions: &["at most 256 accounts in total, 255 instructions and accounts per instruction, and 65535 data bytes per instruction (the format's limits)"],
        quick: 800_000,
        thorough: 8_000_000,
        fixed: None,
        run: run16,
    }
}
fn meta(g: &mut Gen, k: Key) -> AccountMeta {
    AccountMeta { pubkey: Pk::new_from_array(k), is_signer: g.chance(2, 5), is_writable: g.bool() }
}
fn run16(g: &mut Gen, cx: &mut Cx) -> R {
    let wallet = kk("the wallet");
    let sub = kk("the sub account");
    let other = g.chance(1, 3);
    let big = g.chance(1, 30);
    let pool = if big { 80 } else { 3 + g.us(8) };
    let key = |g: &mut Gen| -> Key {
        match g.below(6) {
            0 => wallet,
            1 if other => sub,
            _ => kn("p16", g.us(pool) as u64),
        }
    };
    // what the caller supplies: usually distinct accounts
    let mut supplied: Vec<AccountMeta> = vec![];
    for _ in 0..g.us(6) {
        let k = key(g);
        if g.chance(1, 12) || !supplied.iter().any(|a| a.pubkey.to_bytes() == k) {
            let mut m = meta(g, k);
            if k == wallet || k == sub {
                m.is_signer = g.chance(1, 6);
            }
            supplied.push(m);
        }
    }
    let mut inner = vec![];
    let n = match g.below(30) {
        0 => 0,
        1 => 60,
        _ => 1 + g.us(4),
    };
    for _ in 0..n {
        let m = if big && g.chance(1, 3) { 120 } else { g.us(6) };
        let l = match g.below(60) {
            0 if n < 10 => 65535,
            1 if n < 10 => 255 + g.us(3),
            _ => g.us(12),
        };
        let pk = key(g);
        inner.push(Instruction {
            program_id: Pk::new_from_array(pk),
            accounts: (0..m).map(|_| { let k = key(g); meta(g, k) }).collect(),
            data: g.bytes(l),
        });
    }
    let (accts, bundle) = if other {
        compact_instructions_sub_account(Pk::new_from_array(wallet), Pk::new_from_array(sub), supplied.clone(), inner.clone())
    } else {
        compact_instructions(Pk::new_from_array(wallet), supplied.clone(), inner.clone())
    };
    if accts.len() > 256 {
        cx.label("too many accounts");
        return Ok(());
    }
    let held: Vec<Key> = if other { vec![wallet, sub] } else { vec![wallet] };
    let d = bundle.into_bytes();
    ensure!(accts.len() >= supplied.len() && accts.iter().zip(&supplied).all(|(a, b)| a.pubkey == b.pubkey), "supplied", "the supplied accounts are not first");
    // privileges of the outer request
    let outer = |k: &Pk, f: &dyn Fn(&AccountMeta) -> bool| accts.iter().any(|a| a.pubkey == *k && f(a));
    let asked = |k: &Pk, f: &dyn Fn(&AccountMeta) -> bool| inner.iter().any(|i| i.accounts.iter().any(|a| a.pubkey == *k && f(a)));
    let given = |k: &Pk, f: &dyn Fn(&AccountMeta) -> bool| supplied.iter().any(|a| a.pubkey == *k && f(a));
    for a in &accts {
        let k = &a.pubkey;
        let w = given(k, &|m| m.is_writable) || asked(k, &|m| m.is_writable);
        ensure!(outer(k, &|m| m.is_writable) == w, "writable", "account {k:?} writable: expected {w}");
        let s = if given(k, &|_| true) {
            given(k, &|m| m.is_signer)
        } else if held.contains(&k.to_bytes()) {
            false
        } else {
            asked(k, &|m| m.is_signer)
        };
        ensure!(outer(k, &|m| m.is_signer) == s, "signer", "account {k:?} signer: expected {s}");
        ensure!(given(k, &|_| true) || inner.iter().any(|i| i.program_id == *k) || asked(k, &|_| true), "added", "account {k:?} was added");
    }
    for (a, b) in accts.iter().zip(&supplied) {
        let only = supplied.iter().filter(|x| x.pubkey == b.pubkey).count() == 1;
        ensure!(!only || a.is_signer == b.is_signer, "supplied-signer", "a supplied account's signature changed");
    }
    // what the program will see
    let (w, broken, used) = ref_decode(&d, accts.len()).ok_or(bad("empty", "no bundle"))?;
    ensure!(!broken && used == d.len(), "malformed", "bundle {}", hex(&d[..d.len().min(100)]));
    ensure!(w.len() == inner.len(), "count", "{} instructions became {}", inner.len(), w.len());
    let me = if other { sub } else { wallet };
    let seen: Vec<Info> = accts.iter().map(|a| Info::new(a.pubkey.to_bytes(), outer(&a.pubkey, &|m| m.is_signer), outer(&a.pubkey, &|m| m.is_writable))).collect();
    let infos = Infos::new(&seen);
    let (real, b, _) = decode(&infos, &d, &me, &[])
        .map_err(|m| bad("abort", m))?
        .map_err(|m| bad("refused", m))?;
    ensure!(!b && real.len() == inner.len(), "refused", "the program refuses the bundle");
    for ((x, y), i) in real.iter().zip(&w).zip(&inner) {
        ensure!(seen[y.program].key == i.program_id.to_bytes(), "program", "program {:?}", i.program_id);
        ensure!(x.program == first_of(&seen, &i.program_id.to_bytes()), "program", "program {:?}", i.program_id);
        ensure!(x.data == i.data && y.data == i.data, "data", "data differs");
        let keys: Vec<Key> = i.accounts.iter().map(|a| a.pubkey.to_bytes()).collect();
        ensure!(x.accts.iter().map(|a| a.0).collect::<Vec<_>>() == keys, "accounts", "accounts differ");
        for (a, m) in x.accts.iter().zip(&i.accounts) {
            ensure!(!m.is_writable || a.2, "privilege-lost", "{:?} is no longer writable", m.pubkey);
            let may = held.contains(&a.0) || given(&m.pubkey, &|_| true);
            ensure!(!m.is_signer || a.1 || may, "privilege-lost", "{:?} no longer signs", m.pubkey);
            ensure!(!m.is_signer || a.1 || a.0 != me, "wallet-signer", "the wallet does not sign");
        }
    }
    let mut rep = false;
    let mut seen_keys = vec![];
    for i in &inner {
        for a in &i.accounts {
            rep |= seen_keys.contains(&a.pubkey);
            seen_keys.push(a.pubkey);
        }
    }
    if inner.len() >= 2 && rep {
        cx.hit();
    }
    cx.label(if other { "sub-account" } else { "wallet" });
    cx.note(|| format!("{} supplied, {} instructions, bundle {}", supplied.len(), inner.len(), hex(&d[..d.len().min(60)])));
    Ok(())
}
