//! A wallet with everything in it, and a list of requests that a role with
//! full rights can make; shared by the whole-program properties.
use super::common::*;

#[derive(Clone)]
pub struct Scene {
    pub w: World,
    pub mint: Key,
    /// token account of the wallet address with a balance
    pub tok: Key,
    /// empty token account of the wallet address
    pub empty: Key,
    /// token account still owned by the config account
    pub old: Key,
    /// somebody else's token account
    pub theirs: Key,
    pub dest: Key,
}
pub const WALLET_SOL: u64 = 50 * SOLS;
impl Scene {
    pub fn new(tag: u64, roles: &[(Cred, Vec<Act>)]) -> Scene {
        Scene::of(tag, World::with(tag, roles, WALLET_SOL))
    }
    pub fn of(tag: u64, w: World) -> Scene {
        let mut w = w;
        let t = kn("scene", tag);
        let k = |s: &str| {
            let mut x = t;
            x[..s.len()].copy_from_slice(s.as_bytes());
            x
        };
        let s = Scene { mint: k("mint"), tok: k("tok"), empty: k("empty"), old: k("old"), theirs: k("theirs"), dest: k("dest"), w: w.clone() };
        let p = ids().token;
        let (wa, cf) = (w.a.wallet, w.a.swig);
        w.token(s.tok, &native::Tok::new(s.mint, wa, 1000), p);
        w.token(s.empty, &native::Tok::new(s.mint, wa, 0), p);
        w.token(s.old, &native::Tok::new(s.mint, cf, 700), p);
        w.token(s.theirs, &native::Tok::new(s.mint, kk("them"), 10), p);
        w.bank.fund(s.dest, SOLS);
        // lamports that were left with the config account
        w.bank.fund(cf, SOLS);
        Scene { w, ..s }
    }
    /// numbered sub-account 0 with SOL and tokens, made by `role`
    pub fn with_sub2(&mut self, role: u32) -> TxOut {
        let (a, p) = (self.w.a.clone(), self.w.payer);
        let o = self.w.go(&create_sub2(&a, &p, role, 0), role);
        if o.ok() {
            let k = a.sub2(0).0;
            self.w.bank.fund(k, 5 * SOLS);
            self.w.token(self.sub2_tok(), &native::Tok::new(self.mint, k, 300), ids().token);
        }
        o
    }
    /// nothing above the rent minimum on the wallet's two accounts
    pub fn drained(&mut self) {
        for k in [self.w.a.swig, self.w.a.wallet] {
            let mut x = self.w.bank.get(&k);
            x.lamports = rent_min(x.data.len());
            self.w.bank.put(k, x);
        }
    }
    pub fn sub2_tok(&self) -> Key {
        let mut k = self.tok;
        k[31] ^= 0x5a;
        k
    }
    /// role-bound sub-account of `role`
    pub fn with_sub1(&mut self, role: u32) -> TxOut {
        let (a, p) = (self.w.a.clone(), self.w.payer);
        let o = self.w.go(&create_sub1(&a, &p, role), role);
        if o.ok() {
            let k = a.sub1(role).0;
            self.w.bank.fund(k, 5 * SOLS);
            self.w.token(self.sub1_tok(role), &native::Tok::new(self.mint, k, 300), ids().token);
        }
        o
    }
    pub fn sub1_tok(&self, role: u32) -> Key {
        let mut k = self.tok;
        k[31] ^= 0xa5;
        k[30] ^= role as u8;
        k
    }
}
pub const REQUESTS: [&str; 20] = [
    "sign: SOL",
    "sign: tokens",
    "add authority",
    "remove authority",
    "update authority: replace",
    "update authority: add",
    "update authority: remove by kind",
    "set rent claimer",
    "create numbered sub-account",
    "numbered sub-account: sign",
    "numbered sub-account: toggle",
    "numbered sub-account: withdraw SOL",
    "numbered sub-account: withdraw tokens",
    "close token account",
    "close wallet",
    "transfer assets",
    "replace authority",
    "sub-account: sign",
    "sub-account: withdraw SOL",
    "sub-account: toggle",
];
/// One request by `role`. Role 1 is the one administrative requests are about.
/// `sub2`/`sub1`: those sub-accounts exist (number 0, role `role`).
pub fn request(g: &mut Gen, s: &Scene, role: u32, what: usize) -> Call {
    let (a, p) = (&s.w.a, &s.w.payer);
    match what {
        0 => sign_v2(a, role, &[], &[sys_transfer(&a.wallet, &s.dest, 1 + g.below(SOLS))]),
        1 => sign_v2(a, role, &[], &[tok_transfer(&ids().token, &s.tok, &s.theirs, &a.wallet, 1 + g.below(900))]),
        2 => {
            let n = 20 + g.below(5);
            let t = 1 + g.below(8) as u16;
            let c = Cred::nth(t, n);
            let acts = valid_acts(g, 3);
            add_authority(a, p, role, t, &c.create(), &enc_actions(&acts), acts.len() as u8)
        }
        3 => remove_authority(a, p, role, 1),
        4 => {
            let acts = valid_acts(g, 3);
            update_authority(a, p, role, 1, 0, &enc_actions(&acts))
        }
        5 => update_authority(a, p, role, 1, 1, &enc_actions(&[mk::token(&kk("another mint"), g.u64())])),
        6 => update_authority(a, p, role, 1, 2, &[perm::SOL as u8]),
        7 => set_rent_claimer(a, p, role, &kn("claimer", g.below(3))),
        8 => create_sub2(a, p, role, s.w.img().map(|i| i.sub_counter).unwrap_or(1)),
        9 => sign_sub2(a, role, 0, &[sys_transfer(&a.sub2(0).0, &s.dest, 1 + g.below(SOLS))]),
        10 => toggle_sub2(a, p, role, 0, false),
        11 => withdraw_sub2(a, p, role, 0, 1 + g.below(SOLS), None),
        12 => withdraw_sub2(a, p, role, 0, 1 + g.below(300), Some((s.sub2_tok(), s.tok, ids().token))),
        13 => close_token(a, &s.dest, &ids().token, &[s.empty], role),
        14 => close_swig(a, &s.dest, role),
        15 => transfer_assets(a, p, role, &[(s.old, s.tok, ids().token)]),
        16 => replace_authority(a, role, 1, &Cred::nth(1, 30 + g.below(3)).create()),
        17 => sign_sub1(a, role, &a.sub1(role).0, &[sys_transfer(&a.sub1(role).0, &s.dest, 1 + g.below(SOLS))]),
        18 => withdraw_sub1(a, p, role, &a.sub1(role).0, 1 + g.below(SOLS), None),
        _ => toggle_sub1(a, p, role, role, &a.sub1(role).0, false),
    }
}
