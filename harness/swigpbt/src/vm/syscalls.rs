//! The Solana syscalls the program links against, implemented natively.
use super::*;
use std::slice::from_raw_parts;

unsafe fn slices<'a>(vals: *const u8, n: u64) -> Vec<&'a [u8]> {
    (0..n as usize)
        .map(|i| {
            let p = (vals as *const u64).add(2 * i);
            let ptr = *p as *const u8;
            let len = *p.add(1) as usize;
            if len == 0 {
                &[][..]
            } else {
                from_raw_parts(ptr, len)
            }
        })
        .collect()
}
fn abort_tx(e: Err) -> ! {
    std::panic::resume_unwind(Box::new(CpiAbort(e)))
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_(m: *const u8, len: u64) {
    TX.with(|t| {
        let mut t = t.borrow_mut();
        if t.keep_logs {
            let s = String::from_utf8_lossy(from_raw_parts(m, len as usize)).into_owned();
            t.logs.push(s);
        }
    })
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_64_(_a: u64, _b: u64, _c: u64, _d: u64, _e: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_compute_units_() {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_pubkey(_p: *const u8) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_log_data(_d: *const u8, _n: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcpy_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memmove_(d: *mut u8, s: *const u8, n: u64) {
    std::ptr::copy(s, d, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memset_(d: *mut u8, c: u8, n: u64) {
    std::ptr::write_bytes(d, c, n as usize)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_memcmp_(a: *const u8, b: *const u8, n: u64, out: *mut i32) {
    let mut res = 0;
    for i in 0..n as usize {
        let (x, y) = (*a.add(i), *b.add(i));
        if x != y {
            res = x as i32 - y as i32;
            break;
        }
    }
    *out = res;
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_sha256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let mut h = Sha256::new();
    for s in slices(vals, n) {
        h.update(s);
    }
    let r: [u8; 32] = h.finalize().into();
    std::ptr::copy(r.as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_keccak256(vals: *const u8, n: u64, out: *mut u8) -> u64 {
    let r = crate::keccak::keccak256(&slices(vals, n));
    std::ptr::copy(r.as_ptr(), out, 32);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_secp256k1_recover(hash: *const u8, rid: u64, sig: *const u8, out: *mut u8) -> u64 {
    let h: [u8; 32] = from_raw_parts(hash, 32).try_into().unwrap();
    let s: [u8; 64] = from_raw_parts(sig, 64).try_into().unwrap();
    let Ok(msg) = libsecp256k1::Message::parse_slice(&h) else { return 1 };
    let Ok(rid) = libsecp256k1::RecoveryId::parse(rid as u8) else { return 2 };
    let Ok(sg) = libsecp256k1::Signature::parse_standard_slice(&s) else { return 3 };
    match libsecp256k1::recover(&msg, &sg, &rid) {
        Ok(pk) => {
            std::ptr::copy(pk.serialize()[1..].as_ptr(), out, 64);
            0
        }
        Err(_) => 3,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_clock_sysvar(out: *mut u8) -> u64 {
    let slot = TX.with(|t| t.borrow().slot);
    let p = out as *mut u64;
    p.write_unaligned(slot);
    p.add(1).write_unaligned(0);
    p.add(2).write_unaligned(slot / 432_000);
    p.add(3).write_unaligned(slot / 432_000 + 1);
    p.add(4).write_unaligned(1_700_000_000 + slot / 2);
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_rent_sysvar(out: *mut u8) -> u64 {
    let p = out as *mut u64;
    p.write_unaligned(3480);
    (p.add(1) as *mut f64).write_unaligned(2.0);
    *out.add(16) = 50;
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_create_program_address(seeds: *const u8, n: u64, program: *const u8, out: *mut u8) -> u64 {
    let prog: Key = from_raw_parts(program, 32).try_into().unwrap();
    match pda(&slices(seeds, n), &prog) {
        Some(k) => {
            std::ptr::copy(k.as_ptr(), out, 32);
            0
        }
        None => 1,
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_try_find_program_address(
    seeds: *const u8,
    n: u64,
    program: *const u8,
    out: *mut u8,
    bump_out: *mut u8,
) -> u64 {
    let prog: Key = from_raw_parts(program, 32).try_into().unwrap();
    let mut s = slices(seeds, n);
    for b in (0..=255u8).rev() {
        let bump = [b];
        s.push(unsafe { from_raw_parts(bump.as_ptr(), 1) });
        let k = pda(&s, &prog);
        s.pop();
        if let Some(k) = k {
            std::ptr::copy(k.as_ptr(), out, 32);
            *bump_out = b;
            return 0;
        }
    }
    1
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_stack_height() -> u64 {
    // Direct unit-level calls run as if at top level.
    TX.with(|t| t.borrow().frames.len().max(1) as u64)
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_curve_validate_point(curve: u64, p: *const u8, _out: *mut u8) -> u64 {
    let k: Key = from_raw_parts(p, 32).try_into().unwrap();
    if curve == 0 && on_curve(&k) {
        0
    } else {
        1
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_set_return_data(_d: *const u8, _l: u64) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_return_data(_d: *mut u8, _l: u64, _p: *mut u8) -> u64 {
    0
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sol_get_sysvar(_id: *const u8, _r: *mut u8, _o: u64, _l: u64) -> u64 {
    1
}

#[repr(C)]
struct CIx {
    program: *const Key,
    accounts: *const CMeta,
    n: u64,
    data: *const u8,
    len: u64,
}
#[repr(C)]
struct CMeta {
    key: *const Key,
    w: u8,
    s: u8,
}
#[repr(C)]
struct CInfo {
    key: *const Key,
    lamports: *const u64,
    data_len: u64,
    data: *const u8,
    owner: *const Key,
    rent_epoch: u64,
    is_signer: u8,
    is_writable: u8,
    executable: u8,
}

#[no_mangle]
pub unsafe extern "C-unwind" fn sol_invoke_signed_c(
    ix: *const u8,
    infos: *const u8,
    n_infos: u64,
    seeds: *const u8,
    n_seeds: u64,
) -> u64 {
    let c = &*(ix as *const CIx);
    let metas = if c.n == 0 { &[][..] } else { from_raw_parts(c.accounts, c.n as usize) };
    let infos = if n_infos == 0 { &[][..] } else { from_raw_parts(infos as *const CInfo, n_infos as usize) };
    let (prog, buf, offs) = TX.with(|t| {
        let t = t.borrow();
        match t.frames.last() {
            Some(f) => (Some(f.program), f.buf, f.offs.clone()),
            None => (None, std::ptr::null_mut(), vec![]),
        }
    });
    let Some(prog) = prog else {
        abort_tx(Err::Runtime("CPI outside a transaction"))
    };
    // account infos must be the runtime's own
    for i in infos {
        let ok = offs.iter().any(|(k, o)| {
            *k == *i.key
                && i.lamports as usize == buf as usize + o + 72
                && i.data as usize == buf as usize + o + 88
                && i.owner as usize == buf as usize + o + 40
        });
        if !ok {
            abort_tx(Err::Runtime("InvalidPointer(account info)"));
        }
    }
    let mut ix = Ix {
        program: *c.program,
        accts: metas.iter().map(|m| AM { key: *m.key, s: m.s != 0, w: m.w != 0 }).collect(),
        data: if c.len == 0 { vec![] } else { from_raw_parts(c.data, c.len as usize).to_vec() },
    };
    if ix.data.len() > 10 * 1024 {
        abort_tx(Err::Runtime("MaxInstructionDataLenExceeded"));
    }
    let mut pdas = vec![];
    for (i, s) in slices(seeds, n_seeds).iter().enumerate() {
        let _ = i;
        // each entry is itself a (ptr,len) list of seeds; `len` counts seeds
        let sv = slices(s.as_ptr(), s.len() as u64);
        match pda(&sv, &prog) {
            Some(k) => pdas.push(k),
            None => abort_tx(Err::Runtime("InvalidSeeds")),
        }
    }
    // duplicate metas are merged
    let snapshot = ix.accts.clone();
    for a in ix.accts.iter_mut() {
        for b in &snapshot {
            if b.key == a.key {
                a.s |= b.s;
                a.w |= b.w;
            }
        }
    }
    let keys: Vec<Key> = infos.iter().map(|i| *i.key).collect();
    if let Result::Err(e) = cpi(&ix, &pdas, Some(&keys)) {
        abort_tx(e)
    }
    0
}
