//! Account lists for calling library code directly.
use crate::vm::{Acct, Key};
use pinocchio::account_info::AccountInfo;

#[derive(Clone, Debug)]
pub struct Info {
    pub key: Key,
    pub s: bool,
    pub w: bool,
    pub acct: Acct,
}
impl Info {
    pub fn new(key: Key, s: bool, w: bool) -> Info {
        Info { key, s, w, acct: Acct::default() }
    }
}
const HEAD: usize = 88;
/// Accounts laid out as the loader does, followed by decoys: a list that is
/// read past its end yields accounts nobody supplied.
pub struct Infos {
    _bufs: Vec<Vec<u64>>,
    list: Vec<AccountInfo>,
    len: usize,
}
pub const DECOY: Key = *b"an account that nobody supplied!";
impl Infos {
    /// Entries with a key that was seen before share the first one's memory.
    pub fn new(v: &[Info]) -> Infos {
        let mut bufs: Vec<Vec<u64>> = vec![];
        let mut at: Vec<(Key, usize)> = vec![];
        let mut ptrs: Vec<*mut u64> = vec![];
        let mut mk = |i: &Info| {
            let d = &i.acct.data;
            let n = HEAD + d.len() + 10240 / 8;
            let mut b = vec![0u64; n / 8 + 2];
            let s = unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr() as *mut u8, b.len() * 8) };
            s[0] = 0xff;
            s[1] = i.s as u8;
            s[2] = i.w as u8;
            s[3] = i.acct.executable as u8;
            s[8..40].copy_from_slice(&i.key);
            s[40..72].copy_from_slice(&i.acct.owner);
            s[72..80].copy_from_slice(&i.acct.lamports.to_le_bytes());
            s[80..88].copy_from_slice(&(d.len() as u64).to_le_bytes());
            s[88..88 + d.len()].copy_from_slice(d);
            let p = b.as_mut_ptr();
            bufs.push(b);
            p
        };
        for i in v {
            match at.iter().find(|(k, _)| *k == i.key) {
                Some((_, n)) => ptrs.push(ptrs[*n]),
                None => {
                    at.push((i.key, ptrs.len()));
                    ptrs.push(mk(i));
                }
            }
        }
        let decoy = mk(&Info::new(DECOY, true, true));
        for _ in 0..260 {
            ptrs.push(decoy);
        }
        let list = ptrs.into_iter().map(|p| unsafe { std::mem::transmute::<*mut u64, AccountInfo>(p) }).collect();
        Infos { _bufs: bufs, list, len: v.len() }
    }
    pub fn get(&self) -> &[AccountInfo] {
        &self.list[..self.len]
    }
    pub fn index_of(&self, p: *const Key) -> Option<usize> {
        self.list.iter().position(|a| std::ptr::eq(a.key(), p))
    }
}
