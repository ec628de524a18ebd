//! The simulated exchange: configuration, accounts, instruction building.
use crate::chain::*;
use crate::layout::*;
use crate::rng::{mix, Rng};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program, sysvar};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MCfg {
    pub coin: usize,
    pub pc: usize,
    pub coin_lot: u64,
    pub pc_lot: u64,
    /// Number of authority accounts: 0 plain, 1 open orders, 2 and prune, 3 and crank.
    pub auths: usize,
    pub cap: u64,
    pub nodes: u64,
    /// Position of the (empty) event queue and of the order counter, as if that many had gone by.
    pub head: u64,
    pub rounds: u64,
    pub next: u64,
    pub stable: Option<usize>,
    pub init: bool,
    /// What is wrong with the accounts of a market still to be created.
    pub defect: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cfg {
    pub seed: u64,
    pub users: usize,
    pub mints: usize,
    pub oos: usize,
    pub rich: Vec<u64>,
    pub discounts: Vec<(u8, u64)>,
    /// Which traded mint is itself one that gives fee discounts: 1 and 3 to 4 (mint 0, 1, 2) SRM, 2 (mint 0) MSRM.
    #[serde(default)]
    pub fee_mint: u8,
    pub markets: Vec<MCfg>,
}

#[derive(Clone, Debug)]
pub struct MarketKit {
    pub cfg: MCfg,
    pub market: Aid,
    pub reqq: Aid,
    pub evq: Aid,
    pub bids: Aid,
    pub asks: Aid,
    pub coin_vault: Aid,
    pub pc_vault: Aid,
    /// The mints named when the market is created.
    pub mints: [Aid; 2],
    pub signer: Aid,
    pub nonce: u64,
    pub auths: Vec<Aid>,
    /// Open-orders accounts by user.
    pub oos: Vec<Vec<Aid>>,
    /// Token accounts of the vault signer that are not the vaults.
    pub vaultlike: Vec<Aid>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tamper {
    Unsign(usize),
    Readonly(usize),
    Sub(usize, Aid),
    Drop(usize),
    Dup(usize),
    Append(Aid),
    Swap(usize, usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OpT {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tamper: Vec<Tamper>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Tx {
        ixs: Vec<OpT>,
        #[serde(default, skip_serializing_if = "Faults::none")]
        faults: Faults,
    },
    Clock(i64),
    /// A fork point; `Restore` abandons everything since.
    Snapshot,
    Restore,
    /// Fault-free drain under different crank schedules from the current state; results must agree.
    Drain(u64),
    /// Fault-free exit of every user from every market.
    Exit,
    /// The transaction, tried with a failure or a wrong amount at each of its token calls and an abort at each of
    /// its system calls; nothing of it is kept.
    FaultSweep(Vec<OpT>),
}

/// History-dependent bookkeeping of the oracle.
#[derive(Clone, Default)]
pub struct Track {
    pub oids: BTreeMap<u32, u128>,
    /// Tokens in vaults that no instruction deposited.
    pub surplus: BTreeMap<Aid, u64>,
    /// Every order id a market ever issued.
    pub issued: Vec<std::collections::BTreeSet<u128>>,
}

pub struct World {
    pub cfg: Cfg,
    pub chain: Chain,
    pub roles: Vec<Role>,
    pub dex: Pubkey,
    pub users: Vec<Aid>,
    pub mints: Vec<Aid>,
    pub fee_mint: Option<usize>,
    pub freeze: Aid,
    /// [user][mint] -> two token accounts.
    pub toks: Vec<Vec<[Aid; 2]>>,
    pub discs: Vec<Option<Aid>>,
    /// Almost a balance of the discount token.
    pub likedisc: Vec<Aid>,
    pub refs: Vec<Aid>,
    pub mk: Vec<MarketKit>,
    pub disabler: Aid,
    pub sweeper: Aid,
    pub token_prog: Aid,
    pub rent_acct: Aid,
    pub fakes: Vec<Aid>,
    pub track: Track,
    pub snap: Option<Box<(Chain, Track)>>,
    pub names: Vec<String>,
}

pub fn dex_handler(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    serum_dex::state::State::process(id, infos, data).map_err(|e| e.into())
}

/// The address a world gives an account. Addresses are the account creator's choice, so in half of the worlds they
/// are as alike as they can be: all of them equal but for eight bytes somewhere, or those of one kind equal but for
/// two. Code that compares only part of an address takes them for one another.
pub fn skey(seed: u64, label: &str) -> Pubkey {
    let plain = |label: &str| {
        let mut h = vec![seed];
        h.extend(label.bytes().map(|b| b as u64));
        Rng::new(mix(&h)).bytes32()
    };
    let own = plain(label);
    let style = mix(&[seed, 0x6b696e]);
    let at = style / 8;
    match style % 8 {
        0 | 1 => {
            let mut k = plain("kin");
            let o = (at % 25) as usize;
            k[o..o + 8].copy_from_slice(&own[..8]);
            Pubkey::new(&k)
        }
        2 | 3 => {
            let (mut kind, mut n, mut digit) = (String::new(), 0u64, false);
            for c in label.chars() {
                match c.to_digit(10) {
                    Some(d) => {
                        n = n.wrapping_mul(10).wrapping_add(d as u64);
                        if !digit {
                            kind.push('#');
                        }
                        digit = true;
                    }
                    None => {
                        kind.push(c);
                        digit = false;
                    }
                }
            }
            if !kind.contains('#') || n > 0xffff {
                return Pubkey::new(&own);
            }
            let mut k = plain(&kind);
            let o = (at % 31) as usize;
            let b = if at & 1 << 20 == 0 { (n as u16).to_le_bytes() } else { (n as u16).to_be_bytes() };
            k[o..o + 2].copy_from_slice(&b);
            Pubkey::new(&k)
        }
        _ => Pubkey::new(&own),
    }
}

/// An address that differs from the given one in a single byte.
pub fn near(seed: u64, key: &Key) -> Key {
    let mut k = *key;
    let x = mix(&[seed, 0x6e656172]);
    k[(x % 32) as usize] ^= 1 << (x / 32 % 8);
    k
}

pub fn evq_len(cap: u64) -> usize {
    // Queue sizes are rounded so that the account keeps its alignment.
    12 + 32 + 88 * cap as usize
}
pub fn book_len(nodes: u64) -> usize {
    12 + 8 + 32 + 72 * nodes as usize
}

/// Applies a byzantine client's changes to an instruction's account list.
pub fn tamper_metas(metas: &mut Vec<Meta>, tamper: &[Tamper], n: usize, cannot_sign: &dyn Fn(Aid) -> bool) {
    for t in tamper {
        match *t {
            Tamper::Unsign(i) if i < metas.len() => metas[i].signer = false,
            Tamper::Readonly(i) if i < metas.len() => metas[i].writable = false,
            Tamper::Sub(i, a) if i < metas.len() && a < n => {
                metas[i].aid = a;
                if cannot_sign(a) {
                    metas[i].signer = false;
                }
            }
            Tamper::Drop(i) if i < metas.len() => {
                metas.remove(i);
            }
            Tamper::Dup(i) if i < metas.len() => {
                let m = metas[i].clone();
                metas.insert(i, m);
            }
            Tamper::Append(a) if a < n => metas.push(Meta { aid: a, signer: false, writable: true }),
            Tamper::Swap(i, j) if i < metas.len() && j < metas.len() => {
                let x = metas[i].aid;
                metas[i].aid = metas[j].aid;
                metas[j].aid = x;
                for q in [i, j] {
                    if cannot_sign(metas[q].aid) {
                        metas[q].signer = false;
                    }
                }
            }
            _ => {}
        }
    }
}

/// Privileges belong to the transaction: an account signed or writable once is so in every instruction.
pub fn merge_privileges(ixs: &mut [Ix]) {
    let mut p: BTreeMap<Aid, (bool, bool)> = BTreeMap::new();
    for m in ixs.iter().flat_map(|i| i.metas.iter()) {
        let e = p.entry(m.aid).or_default();
        e.0 |= m.signer;
        e.1 |= m.writable;
    }
    for m in ixs.iter_mut().flat_map(|i| i.metas.iter_mut()) {
        let e = p[&m.aid];
        m.signer = e.0;
        m.writable = e.1;
    }
}

struct B<'a> {
    c: &'a mut Chain,
    roles: &'a mut Vec<Role>,
    names: &'a mut Vec<String>,
    seed: u64,
}

impl<'a> B<'a> {
    fn add_key(&mut self, key: Pubkey, name: &str, owner: Pubkey, data: Vec<u8>, lam: Option<u64>, role: Role) -> Aid {
        let a = match lam {
            None => self.c.add_exempt(key, owner, data),
            Some(l) => self.c.add(key, owner, data, l),
        };
        self.roles.push(role);
        self.names.push(name.to_string());
        assert!(self.roles.len() == a + 1);
        a
    }
    fn add(&mut self, name: &str, owner: Pubkey, data: Vec<u8>, role: Role) -> Aid {
        self.add_key(skey(self.seed, name), name, owner, data, None, role)
    }
    fn tok(&mut self, name: &str, mint: Key, owner: Key, amount: u64) -> Aid {
        let t = Tok { mint, owner, amount, state: 1, ..Tok::default() };
        self.add(name, spl_token::ID, tok_bytes(&t), Role::Tok)
    }
}

pub const SOL: u64 = 1_000_000_000;

impl World {
    pub fn new(cfg: &Cfg) -> World {
        let dex = anchor_spl::dex::ID;
        set_handlers(&[(dex, dex_handler as Handler)]);
        let mut chain = Chain::new();
        let mut roles = vec![];
        let mut names = vec![];
        let mut b = B { c: &mut chain, roles: &mut roles, names: &mut names, seed: cfg.seed };
        let evil = skey(cfg.seed, "evil program");
        let token_prog = b.add_key(spl_token::ID, "token program", system_program::ID, vec![], Some(1), Role::Other);
        let rent_acct = b.add_key(sysvar::rent::ID, "rent sysvar", sysvar::ID, vec![0; 17], None, Role::Other);
        let sys = b.add_key(system_program::ID, "system program", system_program::ID, vec![], Some(1), Role::Other);
        let freeze = b.add("freezer", system_program::ID, vec![], Role::Other);
        let fk = b.c.key(freeze).to_bytes();
        let mut mints = vec![];
        let supply = u64::MAX;
        for i in 0..cfg.mints {
            let m = MintSt { supply, decimals: 6, init: true, freeze: Some(fk), ..MintSt::default() };
            let key = match (cfg.fee_mint, i) {
                (1, 0) | (3, 1) | (4, 2) => pkey(SRM),
                (2, 0) => pkey(MSRM),
                _ => skey(cfg.seed, &format!("mint{}", i)),
            };
            mints.push(b.add_key(key, &format!("mint{}", i), spl_token::ID, mint_bytes(&m), None, Role::Mint));
        }
        let fee_mint = match cfg.fee_mint {
            0 => None,
            1 | 2 => Some(0),
            k => Some(k as usize - 2),
        };
        let m = MintSt { supply, decimals: 6, init: true, ..MintSt::default() };
        let srm = match fee_mint {
            Some(i) if cfg.fee_mint != 2 => mints[i],
            _ => b.add_key(pkey(SRM), "srm", spl_token::ID, mint_bytes(&m), None, Role::Mint),
        };
        let msrm = match fee_mint {
            Some(i) if cfg.fee_mint == 2 => mints[i],
            _ => b.add_key(pkey(MSRM), "msrm", spl_token::ID, mint_bytes(&m), None, Role::Mint),
        };
        let disabler = b.add_key(pkey(DISABLER), "disabler", system_program::ID, vec![], Some(SOL), Role::Other);
        let sweeper = b.add_key(pkey(SWEEPER), "sweeper", system_program::ID, vec![], Some(SOL), Role::Other);
        let (mut users, mut toks, mut discs) = (vec![], vec![], vec![]);
        for u in 0..cfg.users {
            let n = format!("user{}", u);
            let a = b.add_key(crate::user_key(cfg.seed, &n), &n, system_program::ID, vec![], Some(50 * SOL), Role::Other);
            users.push(a);
            let ok = b.c.key(a).to_bytes();
            let mut v = vec![];
            for (i, mt) in mints.iter().enumerate() {
                let mk = b.c.key(*mt).to_bytes();
                let amt = cfg.rich[u % cfg.rich.len()];
                let t0 = b.tok(&format!("u{}m{}a", u, i), mk, ok, amt);
                let t1 = b.tok(&format!("u{}m{}b", u, i), mk, ok, amt / 10);
                v.push([t0, t1]);
            }
            toks.push(v);
            let (kind, amt) = cfg.discounts.get(u).cloned().unwrap_or((0, 0));
            discs.push(match kind {
                0 => None,
                k => {
                    let mk = b.c.key(if k == 1 { srm } else { msrm }).to_bytes();
                    Some(b.tok(&format!("disc{}", u), mk, ok, amt))
                }
            });
        }
        let rk = skey(cfg.seed, "referrer").to_bytes();
        let mut refs = vec![];
        for (i, mt) in mints.iter().enumerate() {
            let mk = b.c.key(*mt).to_bytes();
            refs.push(b.tok(&format!("ref{}", i), mk, rk, 0));
        }
        let mut kits = vec![];
        for (mi, mc) in cfg.markets.iter().enumerate() {
            let p = format!("mk{}", mi);
            let d = mc.defect;
            let mkey = match mc.stable {
                Some(i) if i >= STABLE_MARKETS.len() => {
                    pk(&near(cfg.seed, &pkey(STABLE_MARKETS[i % STABLE_MARKETS.len()]).to_bytes()))
                }
                Some(i) => pkey(STABLE_MARKETS[i]),
                None => skey(cfg.seed, &p),
            };
            let mut mlen = if mc.auths > 0 { MARKET_V2_LEN } else { MARKET_LEN };
            if d == 1 {
                mlen -= 8;
            }
            let own = |k: u8| if d == k { evil } else { dex };
            let market =
                b.add_key(mkey, &p, own(2), vec![0; mlen], if d == 3 { Some(1000) } else { None }, Role::Market(mi));
            // Room that is no whole entry.
            let slop = |k: u64, n: u64| 8 * (mix(&[cfg.seed, 78, mi as u64, k]) % n) as usize;
            let rl = 12 + 32 + if d == 4 { 0 } else { 800 } + slop(0, 10);
            let reqq = b.add(&format!("{}reqq", p), own(5), vec![0; rl], Role::ReqQ(mi));
            let el = evq_len(if d == 6 { 127 } else { mc.cap }) + slop(1, 11);
            let evqk = skey(cfg.seed, &format!("{}evq", p));
            let evq = b.add_key(
                evqk,
                &format!("{}evq", p),
                own(7),
                vec![0; el],
                if d == 8 { Some(1000) } else { None },
                Role::EvQ(mi),
            );
            let bids = b.add(
                &format!("{}bids", p),
                own(9),
                vec![0; book_len(if d == 10 { 199 + slop(4, 2) as u64 / 8 } else { mc.nodes }) + slop(2, 9)],
                Role::Bids(mi),
            );
            let asks = b.add(
                &format!("{}asks", p),
                own(11),
                vec![0; book_len(if d == 12 { 199 + slop(5, 2) as u64 / 8 } else { mc.nodes }) + slop(3, 9)],
                Role::Asks(mi),
            );
            let mk32 = mkey.to_bytes();
            let mut nonce = (mi as u64) * 1000 + [0, 0, 1 << 32, u64::MAX - 100_000][(mix(&[cfg.seed, 77]) % 4) as usize];
            let sg = loop {
                if let Some(k) = vault_signer(&dex, &mk32, nonce) {
                    break k;
                }
                nonce += 1;
            };
            let signer =
                b.add_key(pk(&sg), &format!("{}signer", p), system_program::ID, vec![], Some(0), Role::Other);
            let mut mm = [mints[mc.coin], mints[mc.pc]];
            if (25..=28).contains(&d) {
                // A mint that is none: foreign program, wrong size, not initialised, short of rent.
                let st = MintSt { supply, decimals: 6, init: d != 27, freeze: Some(fk), ..MintSt::default() };
                let mut by = mint_bytes(&st);
                if d == 26 {
                    by.resize([81, 83, 165, 355][(cfg.seed / 2 % 4) as usize], 1);
                }
                mm[(cfg.seed % 2) as usize] = b.add_key(
                    skey(cfg.seed, &format!("{}mint", p)),
                    &format!("{}mint", p),
                    if d == 25 { evil } else { spl_token::ID },
                    by,
                    if d == 28 { Some(1000) } else { None },
                    Role::Mint,
                );
            }
            let (ck, qk) = (b.c.key(mm[0]).to_bytes(), b.c.key(mm[1]).to_bytes());
            let coin_vault = b.tok(&format!("{}coinvault", p), ck, sg, if d == 13 { 5 } else { 0 });
            let pc_vault = b.tok(&format!("{}pcvault", p), qk, sg, 0);
            if (14..=21).contains(&d) {
                let x = if d % 2 == 0 { coin_vault } else { pc_vault };
                let mut t = tok(&b.c.accts[x].data).unwrap();
                match d / 2 {
                    7 => {
                        t.delegate = Some(b.c.key(users[0]).to_bytes());
                        t.delegated = 1_000_000;
                    }
                    8 => t.close_auth = Some(b.c.key(users[0]).to_bytes()),
                    9 => t.owner = b.c.key(users[0]).to_bytes(),
                    _ => t.mint = if d % 2 == 0 { qk } else { ck },
                }
                b.c.accts[x].data = tok_bytes(&t);
            }
            if d == 22 || d == 23 {
                // A header left over from an earlier life.
                let x = [bids, asks, evq, reqq, market][(cfg.seed % 5) as usize];
                let n = b.c.accts[x].data.len();
                if d == 22 {
                    let h = mix(&[cfg.seed, 22]);
                    b.c.accts[x].data[5 + (h % 8) as usize] = 1 << (h / 8 % 8);
                } else {
                    b.c.accts[x].data[..5].copy_from_slice(b"serum");
                    b.c.accts[x].data[n - 7..].copy_from_slice(b"padding");
                }
            }
            if d == 24 {
                b.c.accts[pc_vault].lamports = 100;
            }
            if d == 29 {
                // A size the layout does not allow.
                let x = [bids, asks, evq, reqq, market][(cfg.seed % 5) as usize];
                let n = b.c.accts[x].data.len() + 1 + (cfg.seed / 5 % 7) as usize;
                b.c.accts[x].data.resize(n, 0);
                b.c.accts[x].lamports = b.c.rent.minimum_balance(n);
            }
            if d == 30 || d == 31 {
                // A vault that is no token account: too long, or the token program's but not initialised.
                let x = if cfg.seed % 2 == 0 { coin_vault } else { pc_vault };
                if d == 30 {
                    b.c.accts[x].data.resize(355, 1);
                    b.c.accts[x].lamports = b.c.rent.minimum_balance(355);
                } else {
                    b.c.accts[x].data[108] = 0;
                }
            }
            if (32..=35).contains(&d) {
                // Owner or mint all but right.
                let x = if d % 2 == 0 { coin_vault } else { pc_vault };
                let mut t = tok(&b.c.accts[x].data).unwrap();
                match d / 2 {
                    16 => t.owner = near(cfg.seed, &t.owner),
                    _ => t.mint = near(cfg.seed, &t.mint),
                }
                b.c.accts[x].data = tok_bytes(&t);
            }
            let mut auths = vec![];
            for (i, n) in ["ooauth", "pruneauth", "crankauth"].iter().enumerate() {
                if i < mc.auths {
                    let n = format!("{}{}", p, n);
                    let k = crate::user_key(cfg.seed, &n);
                    auths.push(b.add_key(k, &n, system_program::ID, vec![], None, Role::Other));
                }
            }
            let mut oos = vec![];
            for u in 0..cfg.users {
                let mut v = vec![];
                for k in 0..cfg.oos {
                    let n = format!("{}oo{}.{}", p, u, k);
                    // Most accounts exist; one in eight has to be created first, one is short of rent.
                    let h = mix(&[cfg.seed, mi as u64, u as u64, k as u64]) % 16;
                    v.push(match h {
                        0 | 1 => {
                            b.add_key(skey(cfg.seed, &n), &n, system_program::ID, vec![], Some(0), Role::Oo)
                        }
                        2 => b.add_key(skey(cfg.seed, &n), &n, dex, vec![0; OO_LEN], Some(1_000_000), Role::Oo),
                        _ => b.add(&n, dex, vec![0; OO_LEN], Role::Oo),
                    });
                }
                oos.push(v);
            }
            let vl = vec![
                b.tok(&format!("{}likecoin", p), ck, sg, 1_000_000_000),
                b.tok(&format!("{}likepc", p), qk, sg, 1_000_000_000),
            ];
            kits.push(MarketKit {
                cfg: mc.clone(),
                market,
                reqq,
                evq,
                bids,
                asks,
                coin_vault,
                pc_vault,
                mints: mm,
                signer,
                nonce,
                auths,
                oos,
                vaultlike: vl,
            });
        }
        let mut fakes = vec![sys];
        fakes.push(b.add("fake token program", system_program::ID, vec![], Role::Other));
        // A token account look-alike under a foreign program.
        let t = Tok {
            mint: b.c.key(mints[0]).to_bytes(),
            owner: b.c.key(users[0]).to_bytes(),
            amount: 1 << 40,
            state: 1,
            ..Tok::default()
        };
        fakes.push(b.add("fake wallet", evil, tok_bytes(&t), Role::Tok));
        let t2 = Tok { mint: pkey(MSRM).to_bytes(), amount: 5, ..t.clone() };
        fakes.push(b.add("fake msrm", evil, tok_bytes(&t2), Role::Tok));
        let t3 = Tok { state: 0, ..t };
        fakes.push(b.add("uninitialised wallet", spl_token::ID, tok_bytes(&t3), Role::Tok));
        let mut by = tok_bytes(&Tok { state: 1, ..t3 });
        by.resize(355, 1);
        fakes.push(b.add("long wallet", spl_token::ID, by, Role::Tok));
        // Almost the well-known addresses.
        let n = |s: &str| pk(&near(cfg.seed, &pkey(s).to_bytes()));
        fakes.push(b.add_key(n(DISABLER), "almost disabler", system_program::ID, vec![], Some(SOL), Role::Other));
        fakes.push(b.add_key(n(SWEEPER), "almost sweeper", system_program::ID, vec![], Some(SOL), Role::Other));
        let k = pk(&near(cfg.seed, &spl_token::ID.to_bytes()));
        fakes.push(b.add_key(k, "almost token program", system_program::ID, vec![], Some(SOL), Role::Other));
        let st = if cfg.seed % 2 == 0 { MSRM } else { SRM };
        let likedisc: Vec<Aid> = (0..cfg.users)
            .map(|u| {
                let (ok, sk) = (b.c.key(users[u]).to_bytes(), pkey(st).to_bytes());
                let n = format!("likedisc{}", u);
                let t = Tok { mint: sk, owner: ok, amount: 1 << 50, state: 1, ..Tok::default() };
                match mix(&[cfg.seed, u as u64, 3]) % 6 {
                    0 | 1 => b.tok(&n, near(cfg.seed, &sk), ok, 1 << 50),
                    2 => b.tok(&n, sk, near(cfg.seed, &ok), 1 << 50),
                    3 => b.add(&n, evil, tok_bytes(&t), Role::Tok),
                    4 => b.add(&n, spl_token::ID, tok_bytes(&Tok { state: 0, ..t }), Role::Tok),
                    _ => {
                        let mut by = tok_bytes(&t);
                        by.resize(355, 1);
                        b.add(&n, spl_token::ID, by, Role::Tok)
                    }
                }
            })
            .collect();
        let mut w = World {
            cfg: cfg.clone(),
            chain,
            roles,
            dex,
            users,
            mints,
            fee_mint,
            freeze,
            toks,
            discs,
            likedisc,
            refs,
            mk: kits,
            disabler,
            sweeper,
            token_prog,
            rent_acct,
            fakes,
            track: Track::default(),
            snap: None,
            names,
        };
        w.track.issued = vec![Default::default(); cfg.markets.len()];
        w
    }

    /// Creates the initial markets through the real instruction; returns an error text if that fails.
    pub fn boot(&mut self) -> Result<(), String> {
        for mi in 0..self.mk.len() {
            if !self.mk[mi].cfg.init {
                continue;
            }
            let op = self.init_op(mi);
            let ix = self.build(&op, &[]);
            let r = self.chain.exec(&[ix], &Faults::default());
            if !r.ok {
                return Err(format!("market {} could not be created: {}", mi, r.err));
            }
            self.fast_forward(mi);
        }
        // Look-alikes that copy real state but belong to another program.
        let evil = skey(self.cfg.seed, "evil program");
        if let Some(m0) = self.mk.iter().position(|k| k.cfg.init) {
            let d = self.chain.accts[self.mk[m0].market].data.clone();
            let k = skey(self.cfg.seed, "fake market");
            let a = self.chain.add_exempt(k, evil, d);
            self.roles.push(Role::Market(m0));
            self.names.push("fake market".into());
            self.fakes.push(a);
            let mut d = vec![0u8; OO_LEN];
            d[..5].copy_from_slice(b"serum");
            d[OO_LEN - 7..].copy_from_slice(b"padding");
            d[5] = (F_INIT | F_OO) as u8;
            d[13..45].copy_from_slice(&self.chain.key(self.mk[m0].market).to_bytes());
            d[45..77].copy_from_slice(&self.chain.key(self.users[0]).to_bytes());
            for o in [72, 80, 88, 96] {
                d[5 + o..5 + o + 8].copy_from_slice(&1_000_000u64.to_le_bytes());
            }
            d[5 + 104..5 + 120].copy_from_slice(&u128::MAX.to_le_bytes());
            let k = skey(self.cfg.seed, "fake oo");
            let a = self.chain.add_exempt(k, evil, d);
            self.roles.push(Role::Oo);
            self.names.push("fake oo".into());
            self.fakes.push(a);
        }
        Ok(())
    }

    pub fn init_op(&self, mi: usize) -> Op {
        let k = &self.mk[mi];
        Op::InitMarket {
            m: mi,
            auths: k.auths.clone(),
            coin_lot: k.cfg.coin_lot,
            pc_lot: k.cfg.pc_lot,
            bps: 0,
            nonce: k.nonce,
            dust: 100,
        }
    }

    /// As if `head + rounds * cap` events and `next` orders had come and gone.
    pub fn fast_forward(&mut self, mi: usize) {
        let k = self.mk[mi].clone();
        let d = &mut self.chain.accts[k.evq].data;
        let cap = (d.len() - 44) as u64 / 88;
        let head = k.cfg.head % cap;
        let seq = k.cfg.rounds.wrapping_mul(cap).wrapping_add(head);
        d[5 + 8..5 + 16].copy_from_slice(&head.to_le_bytes());
        d[5 + 24..5 + 32].copy_from_slice(&seq.to_le_bytes());
        let d = &mut self.chain.accts[k.reqq].data;
        d[5 + 24..5 + 32].copy_from_slice(&k.cfg.next.to_le_bytes());
    }

    /// Accounts nobody holds a key for.
    pub fn cannot_sign(&self, a: Aid) -> bool {
        a == self.token_prog || a == self.rent_acct || a == self.fakes[0] || self.mk.iter().any(|k| k.signer == a)
    }

    pub fn market(&self, m: usize) -> Option<Market> {
        let a = &self.chain.accts[self.mk[m].market];
        if a.owner != self.dex {
            return None;
        }
        market(&a.data).filter(|m| m.flags & F_MARKET != 0)
    }
    pub fn evq(&self, m: usize) -> EvQ {
        evq(&self.chain.accts[self.mk[m].evq].data).unwrap_or_default()
    }
    pub fn book(&self, m: usize, bid: bool) -> Book {
        let a = if bid { self.mk[m].bids } else { self.mk[m].asks };
        book(&self.chain.accts[a].data).unwrap_or_default()
    }
    pub fn oo(&self, a: Aid) -> Option<Oo> {
        let acc = &self.chain.accts[a];
        if acc.owner != self.dex {
            return None;
        }
        oo(&acc.data)
    }
    pub fn live_oo(&self, a: Aid) -> Option<Oo> {
        self.oo(a).filter(|o| o.live())
    }
    pub fn amount(&self, a: Aid) -> u64 {
        tok(&self.chain.accts[a].data).map(|t| t.amount).unwrap_or(0)
    }
    /// All open-orders accounts of a market, sorted the way the exchange searches them.
    pub fn all_oos(&self, m: usize) -> Vec<Aid> {
        let mut v: Vec<Aid> = self.bound(m);
        if v.is_empty() {
            v = self.mk[m].oos.iter().flatten().cloned().collect();
        }
        v.sort_by_key(|a| key_words(&self.chain.key(*a).to_bytes()));
        v
    }
    /// Accounts bound to a market, whoever they were made for.
    pub fn bound(&self, m: usize) -> Vec<Aid> {
        let k = self.chain.key(self.mk[m].market).to_bytes();
        (0..self.chain.accts.len()).filter(|a| self.bound_to(*a, &k)).collect()
    }
    fn bound_to(&self, a: Aid, market: &Key) -> bool {
        let x = &self.chain.accts[a];
        self.roles[a] == Role::Oo
            && x.owner == self.dex
            && x.data.len() == OO_LEN
            && x.data[5] & F_OO as u8 != 0
            && x.data[13..45] == *market
    }
    /// The market whose state this account is part of.
    pub fn market_of(&self, a: Aid) -> Option<usize> {
        match self.roles[a] {
            Role::Market(m) | Role::EvQ(m) | Role::ReqQ(m) | Role::Bids(m) | Role::Asks(m) => Some(m),
            Role::Tok => self.mk.iter().position(|k| k.coin_vault == a || k.pc_vault == a),
            Role::Oo => (0..self.mk.len()).find(|m| self.bound_to(a, &self.chain.key(self.mk[*m].market).to_bytes())),
            _ => None,
        }
    }
    pub fn sort_oos(&self, v: &mut Vec<Aid>) {
        v.sort_by_key(|a| key_words(&self.chain.key(*a).to_bytes()));
    }
    pub fn owner_of_oo(&self, m: usize, oo: Aid) -> Option<Aid> {
        self.mk[m].oos.iter().position(|v| v.contains(&oo)).map(|u| self.users[u])
    }

    fn order_bytes(o: &Ord_, long: bool) -> Vec<u8> {
        let mut d = vec![];
        d.extend((!o.bid as u32).to_le_bytes());
        d.extend(o.price.to_le_bytes());
        d.extend(o.qty.to_le_bytes());
        d.extend(o.pc.to_le_bytes());
        d.extend((o.stb as u32).to_le_bytes());
        d.extend((o.ty as u32).to_le_bytes());
        d.extend(o.cid.to_le_bytes());
        d.extend(o.limit.to_le_bytes());
        if long {
            d.extend(o.ts.unwrap_or(i64::MAX).to_le_bytes());
        }
        d
    }

    pub fn op_market(op: &Op) -> Option<usize> {
        match op {
            Op::New { m, .. }
            | Op::Replace { m, .. }
            | Op::Take { m, .. }
            | Op::Cancel { m, .. }
            | Op::CancelCid { m, .. }
            | Op::CancelCids { m, .. }
            | Op::Consume { m, .. }
            | Op::ConsumePerm { m, .. }
            | Op::Settle { m, .. }
            | Op::Sweep { m, .. }
            | Op::Disable { m, .. }
            | Op::InitOo { m, .. }
            | Op::CloseOo { m, .. }
            | Op::Prune { m, .. }
            | Op::InitMarket { m, .. }
            | Op::Old { m, .. } => Some(*m),
            _ => None,
        }
    }

    pub fn oid_of(&self, id: &OrdRef) -> u128 {
        match id {
            OrdRef::Tag(t) => self.track.oids.get(t).cloned().unwrap_or(0),
            OrdRef::Raw(s) => s.parse().unwrap_or(0),
        }
    }

    /// The instruction a client would send, with the given accounts tampered with.
    pub fn build(&self, op: &Op, tamper: &[Tamper]) -> Ix {
        let r = |aid: Aid| Meta { aid, signer: false, writable: false };
        let w = |aid: Aid| Meta { aid, signer: false, writable: true };
        let s = |aid: Aid| Meta { aid, signer: true, writable: false };
        let ws = |aid: Aid| Meta { aid, signer: true, writable: true };
        let mut program = self.dex;
        let mut data: Vec<u8> = vec![0];
        let tag = |data: &mut Vec<u8>, t: u32| data.extend(t.to_le_bytes());
        let k = Self::op_market(op).map(|m| &self.mk[m]);
        let mut metas: Vec<Meta>;
        match op {
            Op::New { oo, owner, payer, disc, .. } | Op::Replace { oo, owner, payer, disc, .. } => {
                let k = k.unwrap();
                metas = vec![
                    w(k.market),
                    w(*oo),
                    w(k.reqq),
                    w(k.evq),
                    w(k.bids),
                    w(k.asks),
                    w(*payer),
                    s(*owner),
                    w(k.coin_vault),
                    w(k.pc_vault),
                    r(self.token_prog),
                    r(self.rent_acct),
                ];
                if let Some(d) = disc {
                    metas.push(r(*d));
                }
                match op {
                    Op::New { o, .. } => {
                        tag(&mut data, 10);
                        data.extend(Self::order_bytes(o, o.ts.is_some()));
                    }
                    Op::Replace { os, single, .. } => {
                        if *single && os.len() == 1 {
                            tag(&mut data, 19);
                            data.extend(Self::order_bytes(&os[0], true));
                        } else {
                            tag(&mut data, 20);
                            data.extend((os.len() as u64).to_le_bytes());
                            for o in os {
                                data.extend(Self::order_bytes(o, true));
                            }
                        }
                    }
                    _ => unreachable!(),
                }
            }
            Op::Take { signer, cw, pw, disc, bid, price, qty, pc, min_coin, min_pc, limit, .. } => {
                let k = k.unwrap();
                metas = vec![
                    w(k.market),
                    w(k.reqq),
                    w(k.evq),
                    w(k.bids),
                    w(k.asks),
                    w(*cw),
                    w(*pw),
                    s(*signer),
                    w(k.coin_vault),
                    w(k.pc_vault),
                    r(self.token_prog),
                    r(k.signer),
                ];
                if let Some(d) = disc {
                    metas.push(r(*d));
                }
                tag(&mut data, 13);
                data.extend((!*bid as u32).to_le_bytes());
                for x in [price, qty, pc, min_coin, min_pc] {
                    data.extend(x.to_le_bytes());
                }
                data.extend(limit.to_le_bytes());
            }
            Op::Cancel { oo, owner, .. } | Op::CancelCid { oo, owner, .. } | Op::CancelCids { oo, owner, .. } => {
                let k = k.unwrap();
                metas = vec![w(k.market), w(k.bids), w(k.asks), w(*oo), s(*owner), w(k.evq)];
                match op {
                    Op::Cancel { bid, id, .. } => {
                        tag(&mut data, 11);
                        data.extend((!*bid as u32).to_le_bytes());
                        data.extend(self.oid_of(id).to_le_bytes());
                    }
                    Op::CancelCid { cid, .. } => {
                        tag(&mut data, 12);
                        data.extend(cid.to_le_bytes());
                    }
                    Op::CancelCids { cids, .. } => {
                        tag(&mut data, 18);
                        for c in cids {
                            data.extend(c.to_le_bytes());
                        }
                    }
                    _ => unreachable!(),
                }
            }
            Op::Consume { oos, limit, .. } => {
                let k = k.unwrap();
                metas = oos.iter().map(|a| w(*a)).collect();
                metas.extend([w(k.market), w(k.evq), w(self.refs[k.cfg.coin]), w(self.refs[k.cfg.pc])]);
                tag(&mut data, 3);
                data.extend(limit.to_le_bytes());
            }
            Op::ConsumePerm { oos, auth, limit, .. } => {
                let k = k.unwrap();
                metas = oos.iter().map(|a| w(*a)).collect();
                metas.extend([w(k.market), w(k.evq), s(*auth)]);
                tag(&mut data, 17);
                data.extend(limit.to_le_bytes());
            }
            Op::Settle { oo, owner, cw, pw, refr, .. } => {
                let k = k.unwrap();
                metas = vec![
                    w(k.market),
                    w(*oo),
                    s(*owner),
                    w(k.coin_vault),
                    w(k.pc_vault),
                    w(*cw),
                    w(*pw),
                    r(k.signer),
                    r(self.token_prog),
                ];
                if let Some(x) = refr {
                    metas.push(w(*x));
                }
                tag(&mut data, 5);
            }
            Op::Sweep { auth, to, .. } => {
                let k = k.unwrap();
                metas = vec![w(k.market), w(k.pc_vault), s(*auth), w(*to), r(k.signer), r(self.token_prog)];
                tag(&mut data, 8);
            }
            Op::Disable { auth, .. } => {
                metas = vec![w(k.unwrap().market), s(*auth)];
                tag(&mut data, 7);
            }
            Op::InitOo { oo, owner, auth, .. } => {
                metas = vec![w(*oo), s(*owner), r(k.unwrap().market), r(self.rent_acct)];
                if let Some(a) = auth {
                    metas.push(s(*a));
                }
                tag(&mut data, 15);
            }
            Op::CloseOo { oo, owner, dest, .. } => {
                metas = vec![w(*oo), s(*owner), w(*dest), r(k.unwrap().market)];
                tag(&mut data, 14);
            }
            Op::Prune { auth, oo, owner, limit, .. } => {
                let k = k.unwrap();
                metas = vec![w(k.market), w(k.bids), w(k.asks), s(*auth), w(*oo), r(*owner), w(k.evq)];
                tag(&mut data, 16);
                data.extend(limit.to_le_bytes());
            }
            Op::InitMarket { m, auths, coin_lot, pc_lot, bps, nonce, dust } => {
                let k = &self.mk[*m];
                metas = vec![
                    w(k.market),
                    w(k.reqq),
                    w(k.evq),
                    w(k.bids),
                    w(k.asks),
                    r(k.coin_vault),
                    r(k.pc_vault),
                    r(k.mints[0]),
                    r(k.mints[1]),
                    r(self.rent_acct),
                ];
                for a in auths {
                    metas.push(r(*a));
                }
                tag(&mut data, 0);
                data.extend(coin_lot.to_le_bytes());
                data.extend(pc_lot.to_le_bytes());
                data.extend(bps.to_le_bytes());
                data.extend(nonce.to_le_bytes());
                data.extend(dust.to_le_bytes());
            }
            Op::Old { tag: t, .. } => {
                let k = k.unwrap();
                // The account lists of the old instructions, as far as they survive.
                metas = vec![
                    w(k.market),
                    w(k.oos[0][0]),
                    w(k.reqq),
                    w(self.toks[0][k.cfg.pc][0]),
                    s(self.users[0]),
                    w(k.coin_vault),
                    w(k.pc_vault),
                    r(self.token_prog),
                    r(self.rent_acct),
                ];
                tag(&mut data, *t);
                let n = match t {
                    1 => 32,
                    2 => 2,
                    4 => 53,
                    6 => 8,
                    _ => 36,
                };
                data.extend((0..n).map(|i| if i % 8 == 4 { 1u8 } else { 0 }));
            }
            Op::TokTransfer { from, to, auth, amount } => {
                program = spl_token::ID;
                metas = vec![w(*from), w(*to), s(*auth)];
                data = vec![3];
                data.extend(amount.to_le_bytes());
            }
            Op::Approve { acct, delegate, owner, amount } => {
                program = spl_token::ID;
                metas = vec![w(*acct), r(*delegate), s(*owner)];
                data = vec![4];
                data.extend(amount.to_le_bytes());
            }
            Op::Freeze { acct, mint, auth, thaw } => {
                program = spl_token::ID;
                metas = vec![w(*acct), r(*mint), s(*auth)];
                data = vec![if *thaw { 11 } else { 10 }];
            }
            Op::SysTransfer { from, to, lamports } => {
                program = system_program::ID;
                metas = vec![ws(*from), w(*to)];
                data = 2u32.to_le_bytes().to_vec();
                data.extend(lamports.to_le_bytes());
            }
            Op::CreateOo { payer, oo, lamports } => {
                program = system_program::ID;
                metas = vec![ws(*payer), ws(*oo)];
                data = 0u32.to_le_bytes().to_vec();
                data.extend(lamports.to_le_bytes());
                data.extend((OO_LEN as u64).to_le_bytes());
                data.extend(self.dex.to_bytes());
            }
        }
        tamper_metas(&mut metas, tamper, self.chain.accts.len(), &|a| self.cannot_sign(a));
        Ix { program, metas, data }
    }

    pub fn build_tx(&self, ops: &[OpT]) -> Vec<Ix> {
        let mut ixs: Vec<Ix> = ops.iter().map(|o| self.build(&o.op, &o.tamper)).collect();
        merge_privileges(&mut ixs);
        ixs
    }
}
