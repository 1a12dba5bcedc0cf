//! Keccak-256 (the sha3 crate is not resolvable offline).
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000,
    0x000000000000808B, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008A, 0x0000000000000088, 0x0000000080008009, 0x000000008000000A,
    0x000000008000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [
    1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44,
];
const PIL: [usize; 24] = [
    10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1,
];
fn f(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut last = a[1];
        for i in 0..24 {
            let t = a[PIL[i]];
            a[PIL[i]] = last.rotate_left(ROT[i]);
            last = t;
        }
        for y in 0..5 {
            let row: [u64; 5] = core::array::from_fn(|x| a[5 * y + x]);
            for x in 0..5 {
                a[5 * y + x] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}
pub fn keccak256(parts: &[&[u8]]) -> [u8; 32] {
    let mut msg: Vec<u8> = parts.concat();
    let rate = 136;
    let pad = rate - msg.len() % rate;
    msg.push(1);
    msg.resize(msg.len() + pad - 1, 0);
    *msg.last_mut().unwrap() |= 0x80;
    let mut st = [0u64; 25];
    for blk in msg.chunks(rate) {
        for (i, w) in blk.chunks(8).enumerate() {
            st[i] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f(&mut st);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&st[i].to_le_bytes());
    }
    out
}
#[cfg(test)]
mod t {
    #[test]
    fn empty() {
        let h = super::keccak256(&[b""]);
        assert_eq!(h[..4], [0xc5, 0xd2, 0x46, 0x01]);
    }
}
