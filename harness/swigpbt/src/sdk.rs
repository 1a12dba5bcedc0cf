//! Client side of the program, written from the documented formats: who can
//! sign (credentials), how requests are laid out and what gets signed.
use crate::gen::{expand, mix, Gen};
use crate::img::*;
use crate::keccak::keccak256;
use crate::vm::{self, *};
use sha2::{Digest, Sha256};

pub fn kk(s: &str) -> Key {
    let h: [u8; 32] = Sha256::digest(s.as_bytes()).into();
    h
}
pub fn kn(s: &str, n: u64) -> Key {
    kk(&format!("{s}/{n}"))
}

/// What it takes to act as a role.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cred {
    Ed { pk: Key },
    EdS { pk: Key, max: u64 },
    K1 { sk: [u8; 32] },
    K1S { sk: [u8; 32], max: u64 },
    R1 { pk: [u8; 33] },
    R1S { pk: [u8; 33], max: u64 },
    Ex { program: Key, prefix: Vec<u8> },
    ExS { program: Key, prefix: Vec<u8>, max: u64 },
}
pub fn k1_pub(sk: &[u8; 32]) -> [u8; 65] {
    let s = libsecp256k1::SecretKey::parse(sk).unwrap();
    libsecp256k1::PublicKey::from_secret_key(&s).serialize()
}
pub fn k1_pubc(sk: &[u8; 32]) -> [u8; 33] {
    let s = libsecp256k1::SecretKey::parse(sk).unwrap();
    libsecp256k1::PublicKey::from_secret_key(&s).serialize_compressed()
}
pub fn r1_pk(n: u64) -> [u8; 33] {
    let mut k = [2; 33];
    k[1..].copy_from_slice(&kn("r1", n));
    k[0] = 2 + (k[32] & 1);
    k
}
pub fn k1_sk(n: u64) -> [u8; 32] {
    let mut k = kn("k1", n);
    k[0] &= 0x7f;
    k
}
fn ex_prefix(n: u64) -> Vec<u8> {
    let k = kn("pfx", n);
    let l = 4 + (n % 5) as usize;
    if l > 6 { REPLACE_PROOF[..l].to_vec() } else { k[..l].to_vec() }
}
impl Cred {
    /// the n-th credential of a kind (authority type code)
    pub fn nth(ty: u16, n: u64) -> Cred {
        match ty {
            1 => Cred::Ed { pk: kn("ed", n) },
            2 => Cred::EdS { pk: kn("ed", n), max: 100 + n % 50 },
            3 => Cred::K1 { sk: k1_sk(n) },
            4 => Cred::K1S { sk: k1_sk(n), max: 100 + n % 50 },
            5 => Cred::R1 { pk: r1_pk(n) },
            6 => Cred::R1S { pk: r1_pk(n), max: 100 + n % 50 },
            7 => Cred::Ex { program: if n % 2 == 0 { NOOP1 } else { NOOP2 }, prefix: ex_prefix(n) },
            _ => Cred::ExS {
                program: if n % 2 == 0 { NOOP1 } else { NOOP2 },
                prefix: ex_prefix(n),
                max: 100 + n % 50,
            },
        }
    }
    pub fn ty(&self) -> u16 {
        match self {
            Cred::Ed { .. } => 1,
            Cred::EdS { .. } => 2,
            Cred::K1 { .. } => 3,
            Cred::K1S { .. } => 4,
            Cred::R1 { .. } => 5,
            Cred::R1S { .. } => 6,
            Cred::Ex { .. } => 7,
            Cred::ExS { .. } => 8,
        }
    }
    pub fn session(&self) -> bool {
        self.ty() % 2 == 0
    }
    pub fn max(&self) -> u64 {
        match self {
            Cred::EdS { max, .. } | Cred::K1S { max, .. } | Cred::R1S { max, .. } | Cred::ExS { max, .. } => *max,
            _ => 0,
        }
    }
    /// The bytes that name this authority when a role is made.
    pub fn create(&self) -> Vec<u8> {
        let z = [0u8; 32];
        match self {
            Cred::Ed { pk } => pk.to_vec(),
            Cred::EdS { pk, max } => [&pk[..], &z, &max.to_le_bytes()].concat(),
            Cred::K1 { sk } => {
                if sk[31] & 1 == 0 {
                    k1_pubc(sk).to_vec()
                } else {
                    k1_pub(sk)[1..].to_vec()
                }
            }
            Cred::K1S { sk, max } => [&k1_pub(sk)[1..], &z, &max.to_le_bytes()].concat(),
            Cred::R1 { pk } => pk.to_vec(),
            Cred::R1S { pk, max } => [&pk[..], &[0; 7], &z, &max.to_le_bytes()].concat(),
            Cred::Ex { program, prefix } => {
                let mut d = program.to_vec();
                d.push(prefix.len() as u8);
                d.extend([0; 7]);
                d.extend(prefix);
                d.resize(80, 0);
                d
            }
            Cred::ExS { program, prefix, max } => {
                let mut d = program.to_vec();
                d.push(prefix.len() as u8);
                d.extend([0; 7]);
                d.extend(prefix);
                d.resize(80, 0);
                d.extend(z);
                d.extend(max.to_le_bytes());
                d.extend([0; 8]);
                d
            }
        }
    }
    /// The bytes a role stores for a fresh authority of this kind.
    pub fn stored(&self) -> Vec<u8> {
        let z = [0u8; 32];
        match self {
            Cred::Ed { pk } => pk.to_vec(),
            Cred::EdS { pk, max } => [&pk[..], &z, &max.to_le_bytes(), &[0; 8]].concat(),
            Cred::K1 { sk } => [&k1_pubc(sk)[..], &[0; 7]].concat(),
            Cred::K1S { sk, max } => [&k1_pubc(sk)[..], &[0; 7], &z, &max.to_le_bytes(), &[0; 8]].concat(),
            Cred::R1 { pk } => [&pk[..], &[0; 7]].concat(),
            Cred::R1S { pk, max } => [&pk[..], &[0; 7], &z, &max.to_le_bytes(), &[0; 8]].concat(),
            Cred::Ex { .. } | Cred::ExS { .. } => self.create(),
        }
    }
    pub fn name(&self) -> &'static str {
        ["?", "ed25519", "ed25519-session", "secp256k1", "secp256k1-session", "secp256r1", "secp256r1-session", "program-exec", "program-exec-session"]
            [self.ty() as usize]
    }
}
/// Reads the replay counter out of a stored authority.
pub fn odometer(ty: u16, auth: &[u8]) -> u32 {
    match ty {
        3..=6 => u32::from_le_bytes(auth[36..40].try_into().unwrap()),
        _ => 0,
    }
}
/// (session key, max, expiration) of a stored session authority.
pub fn session_of(ty: u16, auth: &[u8]) -> (Key, u64, u64) {
    let o = match ty {
        2 => 32,
        4 | 6 => 40,
        8 => 80,
        _ => unreachable!(),
    };
    let u = |p: usize| u64::from_le_bytes(auth[p..p + 8].try_into().unwrap());
    (auth[o..o + 32].try_into().unwrap(), u(o + 32), u(o + 40))
}
pub fn set_session(ty: u16, auth: &mut [u8], key: &Key, exp: u64) {
    let o = match ty {
        2 => 32,
        4 | 6 => 40,
        8 => 80,
        _ => unreachable!(),
    };
    auth[o..o + 32].copy_from_slice(key);
    auth[o + 40..o + 48].copy_from_slice(&exp.to_le_bytes());
}

/// A request to the program before it is authenticated.
#[derive(Clone, Debug)]
pub struct Call {
    pub accts: Vec<AM>,
    /// instruction data up to the authority payload
    pub head: Vec<u8>,
    /// the part of it the signature covers
    pub signed: Vec<u8>,
    /// instructions that go before it in the transaction
    pub pre: Vec<Ix>,
    /// the request must use the master credential although sessions exist
    pub root: bool,
    /// offset in `head` where the length of the authority payload goes (u16)
    pub len_at: Option<usize>,
    /// account slot reserved for the credential (its signer or the
    /// instructions sysvar); otherwise that account goes at the end
    pub auth_at: Option<usize>,
}

/// How a signature is made; the defaults are what an honest client does.
#[derive(Clone, Debug)]
pub struct Sign {
    pub slot: u64,
    pub counter: u32,
    /// session key to use (session roles, except when opening a session)
    pub session: Option<Key>,
    /// secp256k1 message prefix
    pub prefix: Vec<u8>,
    /// secp256r1: 0 raw, 1 webauthn, 2 webauthn with raw client data
    pub r1_kind: u8,
    /// program exec: explicit instruction index
    pub explicit_index: bool,
    pub ex_extra: Vec<u8>,
    /// program exec: the whole data of the earlier instruction
    pub ex_data: Option<Vec<u8>>,
}

pub struct Sealed {
    pub ixs: Vec<Ix>,
    pub at: usize,
    pub signers: Vec<Key>,
    /// where the authority payload begins in the instruction data
    pub payload_at: usize,
}
impl Sealed {
    pub fn ix(&mut self) -> &mut Ix {
        let a = self.at;
        &mut self.ixs[a]
    }
}
pub fn signers_of(ixs: &[Ix]) -> Vec<Key> {
    let mut v = vec![];
    for i in ixs {
        for a in &i.accts {
            if a.s && !v.contains(&a.key) {
                v.push(a.key);
            }
        }
    }
    v
}
/// The account list as the program will see it (message-level privileges).
pub fn seen_accts(ixs: &[Ix], at: usize) -> Vec<AM> {
    let m = |k: &Key, f: &dyn Fn(&AM) -> bool| ixs.iter().any(|i| i.accts.iter().any(|a| a.key == *k && f(a)));
    ixs[at]
        .accts
        .iter()
        .map(|a| AM { key: a.key, s: m(&a.key, &|x| x.s), w: m(&a.key, &|x| x.w) && !vm::is_reserved_pub(&a.key) })
        .collect()
}
pub fn accts_payload(a: &[AM]) -> Vec<u8> {
    let mut d = vec![];
    for x in a {
        d.extend(x.key);
        d.push(x.w as u8);
        d.push(x.s as u8);
        d.extend([0; 6]);
    }
    d
}
pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn k1_hash(prefix: &[u8], data: &[u8], accts: &[AM], slot: u64, counter: u32) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(data);
    h.update(accts_payload(accts));
    h.update(slot.to_le_bytes());
    h.update(counter.to_le_bytes());
    let x: [u8; 32] = h.finalize().into();
    keccak256(&[prefix, hex(&x).as_bytes()])
}
pub fn r1_hash(data: &[u8], accts: &[AM], slot: u64, counter: u32) -> [u8; 32] {
    keccak256(&[data, &accts_payload(accts), &slot.to_le_bytes(), &counter.to_le_bytes()])
}
pub fn k1_sign(sk: &[u8; 32], hash: &[u8; 32]) -> [u8; 65] {
    let s = libsecp256k1::SecretKey::parse(sk).unwrap();
    let (sig, rec) = libsecp256k1::sign(&libsecp256k1::Message::parse(hash), &s);
    let mut o = [0; 65];
    o[..64].copy_from_slice(&sig.serialize());
    o[64] = 27 + rec.serialize();
    o
}
pub fn b64url(d: &[u8]) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            o.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    o
}
/// Precompile instruction carrying one signature.
pub fn r1_ix(pk: &[u8; 33], msg: &[u8]) -> Ix {
    let mut d = vec![1, 0];
    for x in [49u16, 0xffff, 16, 0xffff, 113, msg.len() as u16, 0xffff] {
        d.extend(x.to_le_bytes());
    }
    d.extend(pk);
    d.extend(expand(mix(msg.len() as u64 + pk[5] as u64), 64));
    d.extend(msg);
    Ix { program: ids().r1, accts: vec![], data: d }
}
/// WebAuthn payload (kind 1) and the message that gets signed.
pub fn webauthn(challenge: &[u8; 32], salt: u64) -> (Vec<u8>, Vec<u8>) {
    let auth = expand(mix(salt), 37 + (salt % 20) as usize);
    let origin = ["example.com", "https://a.io", "x", "https://wallet.example.org"][(salt % 4) as usize];
    let order: [u8; 4] = [[1, 2, 3, 4], [2, 1, 3, 0], [3, 4, 2, 1], [1, 2, 0, 0]][(salt % 4) as usize];
    let (tree, enc) = huffman(origin.as_bytes());
    let ch = b64url(challenge);
    let mut f = vec![];
    for o in order {
        match o {
            1 => f.push("\"type\":\"webauthn.get\"".to_string()),
            2 => f.push(format!("\"challenge\":\"{ch}\"")),
            3 => f.push(format!("\"origin\":\"{origin}\"")),
            4 => f.push("\"crossOrigin\":false".to_string()),
            _ => {}
        }
    }
    let json = format!("{{{}}}", f.join(","));
    let h: [u8; 32] = Sha256::digest(json.as_bytes()).into();
    let mut p = vec![1, 0];
    p.extend((auth.len() as u16).to_le_bytes());
    p.extend(&auth);
    p.extend(order);
    p.extend((origin.len() as u16).to_le_bytes());
    p.extend((tree.len() as u16).to_le_bytes());
    p.extend((enc.len() as u16).to_le_bytes());
    p.extend(tree);
    p.extend(enc);
    (p, [&auth[..], &h].concat())
}
/// Raw client data payload (kind 2).
pub fn webauthn_raw(challenge: &[u8; 32], salt: u64) -> (Vec<u8>, Vec<u8>) {
    let auth = expand(mix(salt), 37);
    let ch = b64url(challenge);
    let json = match salt % 3 {
        0 => format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{ch}\",\"origin\":\"https://x.io\",\"crossOrigin\":false}}"),
        1 => format!("{{ \"challenge\" : \"{ch}\" , \"other\": {{\"challenge\":\"no\"}}, \"type\":\"webauthn.get\"}}"),
        _ => format!("{{\"type\":\"webauthn.get\",\"challenge\":\"{ch}\",\"origin\":\"http:\\/\\/x\",\"n\":[1,2]}}"),
    };
    let h: [u8; 32] = Sha256::digest(json.as_bytes()).into();
    let mut p = vec![2, 0];
    p.extend((auth.len() as u16).to_le_bytes());
    p.extend(&auth);
    p.extend((json.len() as u16).to_le_bytes());
    p.extend(json.as_bytes());
    (p, [&auth[..], &h].concat())
}
/// Huffman tree (3-byte nodes, root last) and encoding of a text.
pub fn huffman(text: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut freq = std::collections::BTreeMap::new();
    for b in text {
        *freq.entry(*b).or_insert(0usize) += 1;
    }
    let mut nodes: Vec<[u8; 3]> = vec![];
    let mut live: Vec<(usize, usize)> = vec![];
    for (b, n) in &freq {
        live.push((*n, nodes.len()));
        nodes.push([0, *b, 0]);
    }
    if live.len() == 1 {
        // a lone symbol still needs a parent so that a bit selects it
        nodes.push([1, 0, 0]);
    }
    while live.len() > 1 {
        live.sort();
        let (a, x) = live.remove(0);
        let (b, y) = live.remove(0);
        live.push((a + b, nodes.len()));
        nodes.push([1, x as u8, y as u8]);
    }
    let mut codes: std::collections::BTreeMap<u8, Vec<bool>> = Default::default();
    if !nodes.is_empty() {
        let mut st = vec![(nodes.len() - 1, vec![])];
        while let Some((i, c)) = st.pop() {
            if nodes[i][0] == 0 {
                codes.entry(nodes[i][1]).or_insert(c);
            } else {
                let mut l = c.clone();
                l.push(false);
                let mut r = c;
                r.push(true);
                if nodes[i][1] == nodes[i][2] {
                    codes.insert(nodes[nodes[i][1] as usize][1], l);
                    continue;
                }
                st.push((nodes[i][1] as usize, l));
                st.push((nodes[i][2] as usize, r));
            }
        }
    }
    let mut bits = vec![];
    for b in text {
        bits.extend(codes[b].iter().copied());
    }
    let mut enc = vec![];
    for c in bits.chunks(8) {
        let mut x = 0u8;
        for (i, b) in c.iter().enumerate() {
            x |= (*b as u8) << (7 - i);
        }
        enc.push(x);
    }
    (nodes.concat(), enc)
}

pub fn sign_of(bank: &Bank, swig: &Key, role: u32) -> Sign {
    let d = bank.get(swig).data;
    let (ctr, sess) = match SwigImg::dec(&d).ok().and_then(|s| s.role(role).cloned()) {
        Some(r) => (odometer(r.ty, &r.auth).wrapping_add(1), if r.ty % 2 == 0 { Some(session_of(r.ty, &r.auth).0) } else { None }),
        None => (1, None),
    };
    Sign { slot: bank.slot, counter: ctr, session: sess, prefix: vec![], r1_kind: 0, explicit_index: false, ex_extra: vec![], ex_data: None }
}

fn index_of(accts: &mut Vec<AM>, k: &Key, signer: bool) -> u8 {
    if let Some(i) = accts.iter().position(|a| a.key == *k) {
        accts[i].s |= signer;
        return i as u8;
    }
    accts.push(AM { key: *k, s: signer, w: false });
    (accts.len() - 1) as u8
}

/// Authenticates a request.
pub fn seal(bank: &mut Bank, call: &Call, cred: &Cred, sg: &Sign) -> Sealed {
    seal_as(bank, call, cred, sg, true)
}
/// `really`: whether the holder of the key takes part (a forger has only
/// public data and signs with keys of its own).
pub fn seal_as(bank: &mut Bank, call: &Call, cred: &Cred, sg: &Sign, really: bool) -> Sealed {
    let mut accts = call.accts.clone();
    let mut ixs = call.pre.clone();
    let mut data = call.head.clone();
    let payload_at = data.len();
    let put = |accts: &mut Vec<AM>, k: &Key, signer: bool| -> u8 {
        match call.auth_at {
            Some(i) => {
                accts[i] = AM { key: *k, s: signer, w: false };
                i as u8
            }
            None => index_of(accts, k, signer),
        }
    };
    let fix = |data: &mut Vec<u8>, n: usize| {
        if let Some(o) = call.len_at {
            data[o..o + 2].copy_from_slice(&(n as u16).to_le_bytes());
        }
    };
    let me = ids().swig;
    if cred.session() && !call.root {
        let k = sg.session.unwrap_or_default();
        let i = put(&mut accts, &k, true);
        fix(&mut data, 1);
        data.push(i);
        ixs.push(Ix { program: me, accts, data });
        let at = ixs.len() - 1;
        let signers = signers_of(&ixs);
        return Sealed { ixs, at, signers, payload_at };
    }
    let fixed_signed = |data: &Vec<u8>| -> Vec<u8> {
        // the signature covers the length field too when it is part of the args
        match call.len_at {
            Some(o) if call.signed.len() >= o + 2 && call.signed[..o] == call.head[..o] => {
                let mut s = call.signed.clone();
                s[o..o + 2].copy_from_slice(&data[o..o + 2]);
                s
            }
            _ => call.signed.clone(),
        }
    };
    match cred {
        Cred::Ed { pk } | Cred::EdS { pk, .. } => {
            let i = put(&mut accts, pk, true);
            fix(&mut data, 1);
            data.push(i);
            ixs.push(Ix { program: me, accts, data });
        }
        Cred::K1 { sk } | Cred::K1S { sk, .. } => {
            fix(&mut data, 77 + sg.prefix.len());
            let signed = fixed_signed(&data);
            ixs.push(Ix { program: me, accts, data: vec![] });
            let at = ixs.len() - 1;
            let h = k1_hash(&sg.prefix, &signed, &seen_accts(&ixs, at), sg.slot, sg.counter);
            let sk = if really { *sk } else { k1_sk(mix(sk[3] as u64) ^ 77777) };
            let sig = k1_sign(&sk, &h);
            data.extend(sg.slot.to_le_bytes());
            data.extend(sg.counter.to_le_bytes());
            data.extend(sig);
            data.extend(&sg.prefix);
            ixs[at].data = data;
        }
        Cred::R1 { pk } | Cred::R1S { pk, .. } => {
            let si = put(&mut accts, &ids().ix_sysvar, false);
            let mut tail = vec![];
            // the payload length does not depend on the challenge
            let (ext, _) = match sg.r1_kind {
                1 => webauthn(&[0; 32], sg.slot ^ sg.counter as u64),
                2 => webauthn_raw(&[0; 32], sg.slot ^ sg.counter as u64),
                _ => (vec![], vec![]),
            };
            fix(&mut data, 17 + ext.len());
            let signed = fixed_signed(&data);
            ixs.push(Ix { program: ids().r1, accts: vec![], data: vec![] });
            ixs.push(Ix { program: me, accts, data: vec![] });
            let at = ixs.len() - 1;
            let h = r1_hash(&signed, &seen_accts(&ixs, at), sg.slot, sg.counter);
            let msg = match sg.r1_kind {
                1 | 2 => {
                    let (p, m) = if sg.r1_kind == 1 { webauthn(&h, sg.slot ^ sg.counter as u64) } else { webauthn_raw(&h, sg.slot ^ sg.counter as u64) };
                    tail = p;
                    m
                }
                _ => h.to_vec(),
            };
            data.extend(sg.slot.to_le_bytes());
            data.extend(sg.counter.to_le_bytes());
            data.push(si);
            data.extend([0; 4]);
            data.extend(tail);
            let pk2 = if really {
                *pk
            } else {
                let mut p = *pk;
                p[7] ^= 1;
                p
            };
            bank.r1_signed.insert((pk2, msg.clone()));
            ixs[at - 1] = r1_ix(&pk2, &msg);
            ixs[at].data = data;
        }
        Cred::Ex { program, prefix } | Cred::ExS { program, prefix, .. } => {
            let mut d = prefix.clone();
            d.extend(&sg.ex_extra);
            if call.head[..2] == [16, 0] && cred.ty() == 7 {
                // replacing a signer needs the exact change in the proof
                let wk = find_pda(&[b"swig-wallet-address", &accts[0].key], &ids().swig).0;
                index_of(&mut accts, &wk, false);
                if REPLACE_PROOF.starts_with(prefix) {
                    if let Some(p) = replace_proof(bank, &accts[0].key, &wk, &call.head) {
                        d = p;
                    }
                }
            }
            if let Some(x) = &sg.ex_data {
                d = x.clone();
            }
            let si = put(&mut accts, &ids().ix_sysvar, false);
            let second = accts.get(1).map(|a| a.key).unwrap_or(accts[0].key);
            ixs.push(Ix { program: *program, accts: vec![r(accts[0].key), r(second)], data: d });
            let tgt = (ixs.len() - 1) as u8;
            if sg.explicit_index {
                ixs.push(Ix { program: ids().memo, accts: vec![], data: b"hi".to_vec() });
                fix(&mut data, 2);
                data.extend([si, tgt]);
            } else {
                fix(&mut data, 1);
                data.push(si);
            }
            ixs.push(Ix { program: me, accts, data });
        }
    }
    let at = ixs.len() - 1;
    let signers = signers_of(&ixs);
    Sealed { ixs, at, signers, payload_at }
}

pub const REPLACE_PROOF: &[u8] = b"rplauth1";
/// What a program must have been called with for a program-exec role to
/// replace a signer: the tag and the hash of the exact change.
pub fn replace_proof(bank: &Bank, swig: &Key, wallet: &Key, head: &[u8]) -> Option<Vec<u8>> {
    let img = SwigImg::dec(&bank.get(swig).data).ok()?;
    let target = u32::from_le_bytes(head[8..12].try_into().unwrap());
    let r = img.role(target)?;
    let new = &head[16..];
    let cur = signer_of(r.ty, &r.auth)?;
    let norm = if r.ty == 3 || r.ty == 4 { k1_norm(new) } else { new.to_vec() };
    let mut h = Sha256::new();
    for p in [&b"swig-replace-authority-v1"[..], swig, wallet, &head[4..8], &head[8..12], &r.ty.to_le_bytes(), &cur, &norm] {
        h.update(p);
    }
    Some([REPLACE_PROOF, &h.finalize()[..]].concat())
}
/// the key a stored authority answers to
pub fn signer_of(ty: u16, auth: &[u8]) -> Option<Vec<u8>> {
    match ty {
        1 | 2 => Some(auth[..32].to_vec()),
        3..=6 => Some(auth[..33].to_vec()),
        _ => None,
    }
}
/// compressed form of a secp256k1 key
pub fn k1_norm(k: &[u8]) -> Vec<u8> {
    if k.len() == 64 {
        let mut v = vec![2 + (k[63] & 1)];
        v.extend(&k[..32]);
        return v;
    }
    k.to_vec()
}

// ------------------------------------------------------------ instructions
fn le<const N: usize>(x: [u8; N]) -> [u8; N] {
    x
}
#[derive(Default)]
struct Bf(Vec<u8>);
impl Bf {
    fn u8(mut self, x: u8) -> Self {
        self.0.push(x);
        self
    }
    fn u16(mut self, x: u16) -> Self {
        self.0.extend(le(x.to_le_bytes()));
        self
    }
    fn u32(mut self, x: u32) -> Self {
        self.0.extend(le(x.to_le_bytes()));
        self
    }
    fn u64(mut self, x: u64) -> Self {
        self.0.extend(le(x.to_le_bytes()));
        self
    }
    fn b(mut self, x: &[u8]) -> Self {
        self.0.extend(x);
        self
    }
}
fn bf() -> Bf {
    Bf::default()
}
fn call(accts: Vec<AM>, head: Vec<u8>, signed: Vec<u8>) -> Call {
    Call { accts, head, signed, pre: vec![], root: false, len_at: None, auth_at: None }
}

/// Addresses of one wallet.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Addr {
    pub id: Key,
    pub swig: Key,
    pub bump: u8,
    pub wallet: Key,
    pub wallet_bump: u8,
}
impl Addr {
    pub fn new(id: Key) -> Addr {
        let (swig, bump) = find_pda(&[b"swig", &id], &ids().swig);
        let (wallet, wallet_bump) = find_pda(&[b"swig-wallet-address", &swig], &ids().swig);
        Addr { id, swig, bump, wallet, wallet_bump }
    }
    pub fn sub1(&self, role: u32) -> (Key, u8) {
        find_pda(&[b"sub-account", &self.id, &role.to_le_bytes()], &ids().swig)
    }
    pub fn sub2_state(&self, n: u32) -> (Key, u8) {
        find_pda(&[b"sub-account-v2-state", &self.id, &n.to_le_bytes()], &ids().swig)
    }
    pub fn sub2(&self, n: u32) -> (Key, u8) {
        find_pda(&[b"sub-account-v2", &self.id, &n.to_le_bytes()], &ids().swig)
    }
}

/// Compact encoding of the inner instructions of a sign request. Accounts are
/// appended to `accts` as needed; `wallet` never signs at the outer level.
pub fn compact(accts: &mut Vec<AM>, inner: &[Ix], pdas: &[Key]) -> Vec<u8> {
    let mut idx = |k: &Key, s: bool, w: bool| -> u8 {
        let s = s && !pdas.contains(k);
        if let Some(i) = accts.iter().position(|a| a.key == *k) {
            accts[i].s |= s;
            accts[i].w |= w;
            return i as u8;
        }
        accts.push(AM { key: *k, s, w });
        (accts.len() - 1) as u8
    };
    let mut d = vec![inner.len() as u8];
    for ix in inner {
        d.push(idx(&ix.program, false, false));
        d.push(ix.accts.len() as u8);
        for a in &ix.accts {
            d.push(idx(&a.key, a.s, a.w));
        }
        d.extend((ix.data.len() as u16).to_le_bytes());
        d.extend(&ix.data);
    }
    d
}

pub fn create_v1(a: &Addr, payer: &Key, cred: &Cred, acts: &[Act]) -> Ix {
    create_v1_raw(a, payer, cred.ty(), &cred.create(), &enc_actions(acts))
}
pub fn create_v1_raw(a: &Addr, payer: &Key, ty: u16, auth: &[u8], acts: &[u8]) -> Ix {
    let d = bf().u16(0).u16(ty).u16(auth.len() as u16).u8(a.bump).u8(a.wallet_bump).b(&a.id).b(auth).b(acts).0;
    Ix { program: ids().swig, accts: vec![w(a.swig), ws(*payer), w(a.wallet), r(SYSTEM)], data: d }
}
pub fn add_authority(a: &Addr, payer: &Key, acting: u32, ty: u16, auth: &[u8], acts: &[u8], n: u8) -> Call {
    let d = bf().u16(1).u16(auth.len() as u16).u16(acts.len() as u16).u16(ty).u8(n).b(&[0; 3]).u32(acting).b(auth).b(acts).0;
    call(vec![w(a.swig), ws(*payer), r(SYSTEM)], d.clone(), d)
}
pub fn remove_authority(a: &Addr, payer: &Key, acting: u32, target: u32) -> Call {
    let d = bf().u16(2).u16(0).u32(0).u32(acting).u32(target).0;
    let mut c = call(vec![w(a.swig), ws(*payer), r(SYSTEM)], d.clone(), d);
    c.len_at = Some(2);
    c
}
/// op: 0 replace all, 1 add, 2 remove by type, 3 remove by index
pub fn update_authority(a: &Addr, payer: &Key, acting: u32, target: u32, op: u8, body: &[u8]) -> Call {
    let d = bf().u16(3).u16(1 + body.len() as u16).u8(0).b(&[0; 3]).u32(acting).u32(target).u8(op).b(body).0;
    call(vec![w(a.swig), ws(*payer), r(SYSTEM)], d.clone(), d)
}
/// the older format: a full replacement list with an explicit count
pub fn update_authority_old(a: &Addr, payer: &Key, acting: u32, target: u32, acts: &[u8], n: u8) -> Call {
    let d = bf().u16(3).u16(acts.len() as u16).u8(n).b(&[0; 3]).u32(acting).u32(target).b(acts).0;
    call(vec![w(a.swig), ws(*payer), r(SYSTEM)], d.clone(), d)
}
pub fn create_session(a: &Addr, payer: &Key, role: u32, key: &Key, dur: u64) -> Call {
    let d = bf().u16(5).u16(0).u32(role).u64(dur).b(key).0;
    let mut c = call(vec![w(a.swig), ws(*payer), r(SYSTEM)], d.clone(), d);
    c.root = true;
    c
}
pub fn replace_authority(a: &Addr, acting: u32, target: u32, new: &[u8]) -> Call {
    let d = bf().u16(16).u16(0).u32(acting).u32(target).u16(new.len() as u16).u16(0).b(new).0;
    call(vec![w(a.swig)], d.clone(), d)
}
pub fn set_rent_claimer(a: &Addr, payer: &Key, role: u32, claimer: &Key) -> Call {
    let d = bf().u16(17).u16(0).u32(role).b(claimer).0;
    call(vec![w(a.swig), ws(*payer), r(SYSTEM)], d.clone(), d)
}
pub fn sign_v2(a: &Addr, role: u32, extra: &[AM], inner: &[Ix]) -> Call {
    let mut accts = vec![w(a.swig), w(a.wallet), r(SYSTEM)];
    accts.extend(extra.iter().cloned());
    let p = compact(&mut accts, inner, &[a.wallet, a.swig]);
    sign_v2_raw(a, role, accts, p)
}
pub fn sign_v2_raw(_a: &Addr, role: u32, accts: Vec<AM>, p: Vec<u8>) -> Call {
    let d = bf().u16(11).u16(p.len() as u16).u32(role).b(&p).0;
    call(accts, d, p)
}
pub fn create_sub1(a: &Addr, payer: &Key, role: u32) -> Call {
    let (k, b) = a.sub1(role);
    let d = bf().u16(6).u16(0).u32(role).u8(b).b(&[0; 7]).0;
    call(vec![w(a.swig), ws(*payer), w(k), r(SYSTEM)], d.clone(), d)
}
pub fn sign_sub1(a: &Addr, role: u32, sub: &Key, inner: &[Ix]) -> Call {
    let mut accts = vec![w(a.swig), w(*sub), r(SYSTEM)];
    let p = compact(&mut accts, inner, &[*sub, a.swig, a.wallet]);
    let d = bf().u16(9).u16(p.len() as u16).u32(role).u64(0).b(&p).0;
    call(accts, d, p)
}
pub fn withdraw_sub1(a: &Addr, payer: &Key, role: u32, sub: &Key, amount: u64, tok: Option<(Key, Key, Key)>) -> Call {
    let d = bf().u16(7).u16(0).u32(role).u64(amount).0;
    let mut accts = vec![w(a.swig), ws(*payer), w(*sub), rs(*payer), w(a.wallet), r(SYSTEM)];
    if let Some((s, t, p)) = tok {
        accts.extend([w(s), w(t), r(p)]);
    }
    let mut c = call(accts, d.clone(), d);
    c.auth_at = Some(3);
    c
}
pub fn toggle_sub1(a: &Addr, payer: &Key, role: u32, auth_role: u32, sub: &Key, on: bool) -> Call {
    let d = bf().u16(10).u8(on as u8).b(&[0; 5]).u32(role).u32(auth_role).0;
    call(vec![w(a.swig), ws(*payer), w(*sub)], d.clone(), d)
}
pub fn create_sub2(a: &Addr, payer: &Key, role: u32, n: u32) -> Call {
    let (s, sb) = a.sub2_state(n);
    let (k, kb) = a.sub2(n);
    let d = bf().u16(18).u16(0).u32(role).u8(sb).u8(kb).b(&[0; 6]).0;
    call(vec![w(a.swig), ws(*payer), w(s), w(k), r(SYSTEM)], d.clone(), d)
}
pub fn sign_sub2(a: &Addr, role: u32, n: u32, inner: &[Ix]) -> Call {
    let (s, _) = a.sub2_state(n);
    let (k, _) = a.sub2(n);
    let mut accts = vec![w(a.swig), r(s), w(k), r(SYSTEM)];
    let p = compact(&mut accts, inner, &[k, a.swig, a.wallet]);
    let d = bf().u16(20).u16(p.len() as u16).u32(role).u32(n).u32(0).b(&p).0;
    call(accts, d.clone(), d)
}
pub fn toggle_sub2(a: &Addr, payer: &Key, role: u32, n: u32, on: bool) -> Call {
    let (s, _) = a.sub2_state(n);
    let d = bf().u16(19).u8(on as u8).u8(0).u32(role).u32(n).u32(0).0;
    call(vec![w(a.swig), ws(*payer), w(s)], d.clone(), d)
}
pub fn withdraw_sub2(a: &Addr, payer: &Key, role: u32, n: u32, amount: u64, tok: Option<(Key, Key, Key)>) -> Call {
    let (s, _) = a.sub2_state(n);
    let (k, _) = a.sub2(n);
    let d = bf().u16(21).u16(0).u32(role).u32(n).u32(0).u64(amount).0;
    let mut accts = vec![w(a.swig), ws(*payer), r(s), w(k), w(a.wallet), rs(*payer), r(SYSTEM)];
    if let Some((s, t, p)) = tok {
        accts.extend([w(s), w(t), r(p)]);
    }
    let mut c = call(accts, d.clone(), d);
    c.auth_at = Some(5);
    c
}
pub fn close_token(a: &Addr, dest: &Key, program: &Key, toks: &[Key], role: u32) -> Call {
    let mut accts = vec![w(a.swig), w(a.wallet), w(*dest), r(*program), r(SYSTEM)];
    let off = accts.len() as u16;
    accts.extend(toks.iter().map(|t| w(*t)));
    let d = bf().u16(14).u16(off).u32(role).0;
    let mut c = call(accts, d.clone(), d);
    c.auth_at = Some(4);
    c
}
pub fn close_swig(a: &Addr, dest: &Key, role: u32) -> Call {
    let d = bf().u16(15).u16(0).u32(role).0;
    call(vec![w(a.swig), w(a.wallet), w(*dest), r(SYSTEM)], d.clone(), d)
}
pub fn transfer_assets(a: &Addr, payer: &Key, role: u32, toks: &[(Key, Key, Key)]) -> Call {
    let d = bf().u16(13).u16(0).u32(role).0;
    let mut accts = vec![w(a.swig), w(a.wallet), ws(*payer), r(SYSTEM)];
    for (s, t, p) in toks {
        accts.extend([w(*s), w(*t), r(*p)]);
    }
    call(accts, d.clone(), d)
}
pub fn migrate(a: &Addr, authority: AM, payer: &Key, role: u32) -> Call {
    let d = bf().u16(12).u8(a.wallet_bump).u8(0).u32(role).0;
    call(vec![w(a.swig), authority, ws(*payer), w(a.wallet), r(SYSTEM)], d.clone(), d)
}

// --------------------------------------------------------- inner requests
pub fn sys_transfer(from: &Key, to: &Key, l: u64) -> Ix {
    Ix { program: SYSTEM, accts: vec![ws(*from), w(*to)], data: bf().u32(2).u64(l).0 }
}
pub fn sys_assign(k: &Key, owner: &Key) -> Ix {
    Ix { program: SYSTEM, accts: vec![ws(*k)], data: bf().u32(1).b(owner).0 }
}
pub fn sys_allocate(k: &Key, n: u64) -> Ix {
    Ix { program: SYSTEM, accts: vec![ws(*k)], data: bf().u32(8).u64(n).0 }
}
pub fn tok_transfer(p: &Key, s: &Key, d: &Key, au: &Key, amt: u64) -> Ix {
    Ix { program: *p, accts: vec![w(*s), w(*d), rs(*au)], data: bf().u8(3).u64(amt).0 }
}
pub fn tok_transfer_checked(p: &Key, s: &Key, mint: &Key, d: &Key, au: &Key, amt: u64) -> Ix {
    Ix { program: *p, accts: vec![w(*s), r(*mint), w(*d), rs(*au)], data: bf().u8(12).u64(amt).u8(6).0 }
}
pub fn tok_approve(p: &Key, s: &Key, del: &Key, au: &Key, amt: u64) -> Ix {
    Ix { program: *p, accts: vec![w(*s), r(*del), rs(*au)], data: bf().u8(4).u64(amt).0 }
}
pub fn tok_set_auth(p: &Key, s: &Key, au: &Key, kind: u8, new: Option<&Key>) -> Ix {
    let mut d = bf().u8(6).u8(kind);
    d = match new {
        Some(k) => d.u8(1).b(k),
        None => d.u8(0),
    };
    Ix { program: *p, accts: vec![w(*s), rs(*au)], data: d.0 }
}
pub fn tok_burn(p: &Key, s: &Key, mint: &Key, au: &Key, amt: u64) -> Ix {
    Ix { program: *p, accts: vec![w(*s), w(*mint), rs(*au)], data: bf().u8(8).u64(amt).0 }
}
pub fn tok_close(p: &Key, s: &Key, d: &Key, au: &Key) -> Ix {
    Ix { program: *p, accts: vec![w(*s), w(*d), rs(*au)], data: vec![9] }
}
pub fn stake_authorize(s: &Key, au: &Key, new: &Key, kind: u32) -> Ix {
    Ix { program: ids().stake, accts: vec![w(*s), rs(*au)], data: bf().u32(1).b(new).u32(kind).0 }
}
pub fn stake_delegate(s: &Key, vote: &Key, au: &Key) -> Ix {
    Ix { program: ids().stake, accts: vec![w(*s), r(*vote), rs(*au)], data: bf().u32(2).0 }
}
pub fn stake_withdraw(s: &Key, to: &Key, au: &Key, l: u64) -> Ix {
    Ix { program: ids().stake, accts: vec![w(*s), w(*to), rs(*au)], data: bf().u32(4).u64(l).0 }
}
pub fn stake_split(s: &Key, t: &Key, au: &Key, l: u64) -> Ix {
    Ix { program: ids().stake, accts: vec![w(*s), w(*t), rs(*au)], data: bf().u32(3).u64(l).0 }
}
pub fn stake_deactivate(s: &Key, au: &Key) -> Ix {
    Ix { program: ids().stake, accts: vec![w(*s), rs(*au)], data: bf().u32(5).0 }
}

// ------------------------------------------------------------------ world
pub const SOLS: u64 = 1_000_000_000;
/// A bank with one wallet whose config was written directly from an image.
#[derive(Clone)]
pub struct World {
    pub bank: Bank,
    pub a: Addr,
    pub creds: Vec<Cred>,
    pub payer: Key,
}
impl World {
    pub fn new(tag: u64) -> World {
        World::named(kn("id", tag))
    }
    pub fn named(id: Key) -> World {
        let mut bank = Bank::new();
        let payer = kk("payer");
        bank.fund(payer, 1000 * SOLS);
        let a = Addr::new(id);
        World { bank, a, creds: vec![], payer }
    }
    /// one role per entry; role ids are positions
    pub fn with(tag: u64, roles: &[(Cred, Vec<Act>)], wallet_lamports: u64) -> World {
        World::new(tag).of(roles, wallet_lamports)
    }
    pub fn of(self, roles: &[(Cred, Vec<Act>)], wallet_lamports: u64) -> World {
        let mut wd = self;
        let mut img = SwigImg::new(wd.a.id, wd.a.bump, wd.a.wallet_bump);
        for (c, acts) in roles {
            let mut st = c.stored();
            if c.session() {
                // sessions start open for tests that are not about sessions
                set_session(c.ty(), &mut st, &wd.session_key(img.role_counter), wd.bank.slot + 1_000_000);
            }
            img.push(c.ty(), st, acts.clone());
            wd.creds.push(c.clone());
        }
        wd.install(&img);
        wd.bank.fund(wd.a.wallet, wallet_lamports);
        wd
    }
    pub fn session_key(&self, role: u32) -> Key {
        kn("session", role as u64)
    }
    pub fn install(&mut self, img: &SwigImg) {
        let d = img.enc();
        let l = rent_min(d.len());
        self.bank.put(self.a.swig, Acct { lamports: l, data: d, owner: ids().swig, executable: false });
    }
    pub fn img(&self) -> Result<SwigImg, String> {
        let a = self.bank.get(&self.a.swig);
        if a.owner != ids().swig {
            return Err("config account not owned by the program".into());
        }
        SwigImg::dec(&a.data)
    }
    pub fn sign(&self, role: u32) -> Sign {
        sign_of(&self.bank, &self.a.swig, role)
    }
    pub fn cred(&self, role: u32) -> Cred {
        self.creds.get(role as usize).cloned().unwrap_or(Cred::Ed { pk: kk("nobody") })
    }
    /// authenticate as `role` and run
    pub fn go(&mut self, c: &Call, role: u32) -> TxOut {
        let cred = self.cred(role);
        self.go_as(c, role, &cred)
    }
    pub fn go_as(&mut self, c: &Call, role: u32, cred: &Cred) -> TxOut {
        let sg = self.sign(role);
        let s = seal(&mut self.bank, c, cred, &sg);
        self.bank.tx(&s.ixs, &s.signers)
    }
    pub fn go_sign(&mut self, c: &Call, cred: &Cred, sg: &Sign) -> TxOut {
        let s = seal(&mut self.bank, c, cred, sg);
        self.bank.tx(&s.ixs, &s.signers)
    }
    pub fn token(&mut self, k: Key, t: &native::Tok, program: Key) {
        self.bank.put(k, Acct { lamports: rent_min(165), data: t.pack(), owner: program, executable: false });
    }
    pub fn tok(&self, k: &Key) -> Option<native::Tok> {
        let a = self.bank.get(k);
        if a.owner != ids().token && a.owner != ids().token22 {
            return None;
        }
        native::Tok::unpack(&a.data)
    }
}
pub fn any_cred(g: &mut Gen, n: u64) -> Cred {
    let t = 1 + g.below(8) as u16;
    Cred::nth(t, n)
}
