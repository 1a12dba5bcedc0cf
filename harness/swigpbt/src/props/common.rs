//! Shared pieces of the library-level properties.
pub use crate::engine::*;
pub use crate::ensure;
pub use crate::gen::Gen;
pub use crate::img::*;
pub use crate::sdk::*;
pub use crate::vm::*;

/// Bytes with a chosen alignment (16) and known surroundings. One time in
/// four (by content) what follows is memory that cannot be touched at all.
pub struct Cage {
    v: Buf,
    off: usize,
    len: usize,
    fill: u8,
}
const PAD: usize = 4096;
const PAGE: usize = 4096;
enum Buf {
    Heap(Vec<u128>),
    /// so many bytes, followed by an inaccessible page
    Map(*mut u8, usize),
}
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn munmap(a: *mut u8, n: usize) -> i32;
}
const ROOM: usize = 32 * PAGE;
thread_local! { static MAPS: std::cell::RefCell<Vec<*mut u8>> = const { std::cell::RefCell::new(vec![]) }; }
fn map(n: usize) -> Option<*mut u8> {
    if n == ROOM {
        if let Some(p) = MAPS.with(|m| m.borrow_mut().pop()) {
            return Some(p);
        }
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), n + PAGE, 3, 0x22, -1, 0);
        if p as isize == -1 {
            return None;
        }
        if mprotect(p.add(n), PAGE, 0) != 0 {
            munmap(p, n + PAGE);
            return None;
        }
        Some(p)
    }
}
impl Buf {
    fn all(&self) -> &[u8] {
        match self {
            Buf::Heap(v) => unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, v.len() * 16) },
            Buf::Map(p, n) => unsafe { std::slice::from_raw_parts(*p, *n) },
        }
    }
    fn all_mut(&mut self) -> &mut [u8] {
        match self {
            Buf::Heap(v) => unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, v.len() * 16) },
            Buf::Map(p, n) => unsafe { std::slice::from_raw_parts_mut(*p, *n) },
        }
    }
}
impl Drop for Buf {
    fn drop(&mut self) {
        if let Buf::Map(p, n) = self {
            if *n == ROOM {
                MAPS.with(|m| m.borrow_mut().push(*p));
            } else {
                unsafe { munmap(*p, *n + PAGE) };
            }
        }
    }
}
impl Cage {
    pub fn new(d: &[u8], fill: u8) -> Cage {
        let h = d.iter().fold(d.len() as u32, |h, b| h.wrapping_mul(31).wrapping_add(*b as u32));
        if (h >> 7) % 4 == 0 {
            return Cage::tight(d, fill, 16);
        }
        let n = (d.len() + 2 * PAD + 31) / 16;
        Cage::put(Buf::Heap(vec![0u128; n]), PAD, d, fill)
    }
    /// The data start at a multiple of `align`; less than that after their
    /// end nothing can be read or written.
    pub fn tight(d: &[u8], fill: u8, align: usize) -> Cage {
        let n = (PAD + d.len() + align + PAGE) / PAGE * PAGE;
        let n = if n <= ROOM { ROOM } else { n };
        match map(n) {
            Some(p) => Cage::put(Buf::Map(p, n), (n - d.len()) / align * align, d, fill),
            None => Cage::put(Buf::Heap(vec![0u128; (d.len() + 2 * PAD + 31) / 16]), PAD, d, fill),
        }
    }
    fn put(mut v: Buf, off: usize, d: &[u8], fill: u8) -> Cage {
        let b = v.all_mut();
        let from = off - PAD;
        b[from..].fill(fill);
        b[off..off + d.len()].copy_from_slice(d);
        Cage { v, off, len: d.len(), fill }
    }
    pub fn get(&self) -> &[u8] {
        &self.v.all()[self.off..self.off + self.len]
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        let (a, n) = (self.off, self.len);
        &mut self.v.all_mut()[a..a + n]
    }
    /// the bytes around the data are still what they were
    pub fn intact(&self) -> bool {
        let b = self.v.all();
        b[self.off - PAD..self.off].iter().chain(&b[self.off + self.len..]).all(|x| *x == self.fill)
    }
}

/// A key that differs from `k` in one bit.
pub fn twin(g: &mut Gen, k: &Key) -> Key {
    let mut x = *k;
    let i = *g.pick(&[0usize, 7, 8, 15, 16, 23, 24, 30, 31, 31]);
    x[i] ^= 1 << g.below(8);
    x
}
/// An amount that is interesting next to `around`.
pub fn near(g: &mut Gen, around: u64) -> u64 {
    match g.below(7) {
        0 => 0,
        1 => around,
        2 => around.saturating_add(1 + g.below(3)),
        3 => around.saturating_sub(1 + g.below(3)),
        4 => g.u64(),
        5 => around / (2 + g.below(4)),
        _ => {
            if around == 0 {
                g.below(3)
            } else {
                g.range(0, around)
            }
        }
    }
}

/// any permission, with keys from a small pool so that lookups can collide
pub fn pool_key(g: &mut Gen) -> Key {
    match g.below(6) {
        0 => [0; 32],
        1 => {
            let mut k = kn("pool", 0);
            k[31] ^= 1;
            k
        }
        2 => {
            let mut k = kn("pool", 0);
            k[0] ^= 0x80;
            k
        }
        n => kn("pool", n - 3),
    }
}
pub const KINDS: [u16; 26] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26];

/// A permission that is accepted when a role is made.
pub fn valid_act(g: &mut Gen, ty: u16) -> Act {
    use perm::*;
    let w = 1 + g.u64() % (1 << 40);
    let a = g.u64();
    match ty {
        SOL => mk::sol(a),
        SOL_REC => mk::sol_rec(a, w, 0, a),
        PROGRAM => mk::program(&pool_key(g)),
        SCOPE => {
            let kind = g.below(3);
            let num = g.below(4);
            let width = [1, 4, 8, 16][num as usize];
            let s = g.below(200);
            mk::scope(0, g.u64() as u128, w, 0, &pool_key(g), &pool_key(g), kind, num, s, s + width)
        }
        TOKEN => mk::token(&pool_key(g), a),
        TOKEN_REC => mk::token_rec(&pool_key(g), w, a, a, 0),
        SUB => mk::sub(),
        STAKE => mk::stake(a),
        STAKE_REC => mk::stake_rec(a, w, 0, a),
        CURATED => mk::curated(),
        SOL_DEST => mk::sol_dest(&pool_key(g), a),
        SOL_REC_DEST => mk::sol_rec_dest(&pool_key(g), a, w, 0, near(g, a).min(a)),
        TOKEN_DEST => mk::token_dest(&pool_key(g), &pool_key(g), a),
        TOKEN_REC_DEST => mk::token_rec_dest(&pool_key(g), &pool_key(g), a, w, 0, near(g, a).min(a)),
        REPLACE => mk::replace(g.below(5) as u32),
        SUB2_ALL | SUB2_SIGN | SUB2_WITHDRAW | SUB2_TOGGLE => mk::sub2(ty, g.below(5) as u32),
        t => mk::flag(t),
    }
}
/// A permission after some use.
pub fn used(g: &mut Gen, a: &Act) -> Act {
    use perm::*;
    let mut x = a.clone();
    let then = g.below(1000).to_le_bytes();
    let mut put = |i: usize, v: &[u8]| x.body[i..i + v.len()].copy_from_slice(v);
    let num = |i: usize| u64::from_le_bytes(a.body[i..i + 8].try_into().unwrap());
    let some = |g: &mut Gen, n: u64| near(g, n).min(n).to_le_bytes();
    match a.ty {
        SOL | STAKE => put(0, &some(g, num(0))),
        // amount, window, last, current
        SOL_REC | STAKE_REC => {
            put(16, &then);
            put(24, &some(g, num(0)));
        }
        TOKEN | SOL_DEST => put(32, &some(g, num(32))),
        TOKEN_DEST => put(64, &some(g, num(64))),
        // window, limit, current, last
        TOKEN_REC => {
            put(48, &some(g, num(40)));
            put(56, &then);
        }
        SOL_REC_DEST | TOKEN_REC_DEST => {
            let i = if a.ty == SOL_REC_DEST { 32 } else { 64 };
            put(i + 16, &then);
            put(i + 24, &some(g, num(i)));
        }
        _ => {}
    }
    x
}
/// A list that is accepted when a role is made.
pub fn valid_acts(g: &mut Gen, max: usize) -> Vec<Act> {
    let n = 1 + g.us(max);
    let mut v: Vec<Act> = vec![];
    for _ in 0..n {
        let t = *g.pick(&KINDS);
        let a = valid_act(g, t);
        if a.ty >= perm::SUB2_CREATE && v.iter().any(|x| x.ty == a.ty && (a.ty == perm::SUB2_CREATE || x.body[..4] == a.body[..4])) {
            continue;
        }
        v.push(a);
    }
    if v.is_empty() {
        v.push(mk::all());
    }
    v
}
pub fn acts_str(a: &[Act]) -> String {
    a.iter().map(|x| format!("{}:{}", x.ty, hex(&x.body[..x.body.len().min(8)]))).collect::<Vec<_>>().join(",")
}

/// how far the role ids of a long-lived wallet may be apart
pub fn any_jump(g: &mut Gen) -> u32 {
    *g.pick(&[250, 65_533, 65_536, 1 << 24, 1 << 29])
}
