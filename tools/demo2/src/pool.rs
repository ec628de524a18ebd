//! Pools: the generic pool program (simple pool) and the admin-controlled pool, as a simulation family.
use crate::chain::*;
use crate::driver::Family;
use crate::layout::*;
use crate::oracle::{c, why_text, Stats, Viol};
use crate::rng::{mix, Rng};
use crate::spec::{commit, same, signed, token_program, view, Auth, Over, Trace, Why, R};
use crate::world::{merge_privileges, skey, tamper_metas, Tamper};
use serde::{Deserialize, Serialize};
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError, pubkey::Pubkey, system_program,
    sysvar,
};

enum SimplePool {}
impl serum_pool::Pool for SimplePool {}

fn simple_handler(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    // Saving the pool's state writes through the account's slice and so shortens it. On chain that slice is a view of
    // the loader's buffer, which is what the runtime reads back; here the view is put back in place of that.
    let views: Vec<(*mut u8, usize)> = infos
        .iter()
        .map(|i| i.data.try_borrow_mut().map(|mut d| (d.as_mut_ptr(), d.len())).unwrap_or((std::ptr::null_mut(), 0)))
        .collect();
    let r = serum_pool::pool_entrypoint::<SimplePool>(id, infos, data);
    for (i, (p, n)) in infos.iter().zip(views) {
        if let (false, Ok(mut d)) = (p.is_null(), i.data.try_borrow_mut()) {
            if d.len() < n {
                *d = unsafe { std::slice::from_raw_parts_mut(p, n) };
            }
        }
    }
    r
}

/// The admin-controlled pool is reached the way the loader reaches it: through its exported entrypoint.
pub fn admin_handler(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    const SPARE: usize = 10 * 1024;
    let mut len = 8 + 8 + data.len() + 32;
    for i in infos {
        len += 8 + 32 + 32 + 8 + 8 + i.data_len() + SPARE + 16 + 8;
    }
    let mut store: Vec<u64> = vec![0; len / 8 + 2];
    let buf: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(store.as_mut_ptr() as *mut u8, store.len() * 8) };
    let mut p = 0;
    let mut at: Vec<Option<(usize, usize, usize)>> = vec![];
    buf[..8].copy_from_slice(&(infos.len() as u64).to_le_bytes());
    p += 8;
    for (n, i) in infos.iter().enumerate() {
        if let Some(d) = infos[..n].iter().position(|x| x.key == i.key) {
            buf[p] = d as u8;
            p += 8;
            at.push(None);
            continue;
        }
        buf[p] = 0xff;
        buf[p + 1] = i.is_signer as u8;
        buf[p + 2] = i.is_writable as u8;
        p += 8;
        buf[p..p + 32].copy_from_slice(&i.key.to_bytes());
        p += 32;
        buf[p..p + 32].copy_from_slice(&i.owner.to_bytes());
        p += 32;
        let lam = p;
        buf[p..p + 8].copy_from_slice(&i.lamports().to_le_bytes());
        p += 8;
        let n = i.data_len();
        buf[p..p + 8].copy_from_slice(&(n as u64).to_le_bytes());
        p += 8;
        buf[p..p + n].copy_from_slice(&i.data.borrow());
        at.push(Some((lam, p, n)));
        p += n + SPARE;
        p = (p + 7) / 8 * 8;
        p += 8;
    }
    buf[p..p + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
    p += 8;
    buf[p..p + data.len()].copy_from_slice(data);
    p += data.len();
    buf[p..p + 32].copy_from_slice(&id.to_bytes());
    let r = unsafe { serum_pool_examples_admin_controlled::entrypoint(buf.as_mut_ptr()) };
    if r != 0 {
        return Err(ProgramError::from(r));
    }
    for (i, a) in infos.iter().zip(at) {
        if let Some((lam, p, n)) = a {
            **i.lamports.borrow_mut() = u64::from_le_bytes(buf[lam..lam + 8].try_into().unwrap());
            i.data.borrow_mut().copy_from_slice(&buf[p..p + n]);
        }
    }
    Ok(())
}

/// The return-buffer program: writes the data after the 8-byte offset into its account.
pub fn retbuf_handler(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if infos.is_empty() || infos[0].owner != id || data.len() < 8 {
        return Err(ProgramError::InvalidArgument);
    }
    let off = u64::from_le_bytes(data[..8].try_into().unwrap()) as usize;
    let mut d = infos[0].try_borrow_mut_data()?;
    let n = data.len() - 8;
    match d.get_mut(off..off.saturating_add(n)) {
        Some(x) => x.copy_from_slice(&data[8..]),
        None => return Err(ProgramError::AccountDataTooSmall),
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PoolCfg {
    pub admin: bool,
    pub assets: Vec<usize>,
    pub amounts: Vec<u64>,
    pub supply: u64,
    pub fee: u32,
    pub size: usize,
    pub init: bool,
    pub defect: u8,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PCfg {
    pub seed: u64,
    pub users: usize,
    pub mints: usize,
    pub rich: u64,
    pub pools: Vec<PoolCfg>,
}

#[derive(Clone, Debug)]
pub struct Kit {
    pub cfg: PoolCfg,
    pub program: Pubkey,
    pub pool: Aid,
    pub mint: Aid,
    pub vaults: Vec<Aid>,
    pub signer: Aid,
    pub nonce: u8,
    pub lqd: Aid,
    pub init: Aid,
    pub admins: [Aid; 2],
    pub refr: Aid,
    /// Further token accounts: owned by the vault signer (two mints), and by a user.
    pub extra: Vec<Aid>,
    /// Pool token accounts of the users.
    pub ptoks: Vec<Aid>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Create(u64),
    Redeem(u64),
    Swap(Vec<u64>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AdminAct {
    Pause,
    Unpause,
    Approve { vault: Aid, delegate: Aid, amount: u64 },
    Add { vault: Aid },
    Remove { vault: Aid },
    Fee(u32),
    NewAdmin(Aid),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum POp {
    Init { p: usize, nonce: u8, n: u8, fee: u32 },
    Exec { p: usize, act: Act, ptok: Aid, assets: Vec<Aid>, auth: Aid, refr: Aid },
    Basket { p: usize, act: Act, buf: Aid },
    Admin { p: usize, admin: Aid, act: AdminAct },
    /// A request that is not one: cut short, or with a wrong tag.
    Raw { p: usize, data: Vec<u8>, admin: Aid },
    Transfer { from: Aid, to: Aid, auth: Aid, amount: u64 },
    Approve { acct: Aid, delegate: Aid, owner: Aid, amount: u64 },
    Burn { acct: Aid, mint: Aid, auth: Aid, amount: u64 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct POpT {
    pub op: POp,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tamper: Vec<Tamper>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PStep {
    Tx {
        ixs: Vec<POpT>,
        #[serde(default, skip_serializing_if = "Faults::none")]
        faults: Faults,
    },
    Sweep(Vec<POpT>),
    /// Everyone redeems everything, fault-free.
    Exit,
}

pub struct PWorld {
    pub cfg: PCfg,
    pub chain: Chain,
    pub roles: Vec<Role>,
    pub names: Vec<String>,
    pub users: Vec<Aid>,
    pub mints: Vec<Aid>,
    pub toks: Vec<Vec<[Aid; 2]>>,
    pub kits: Vec<Kit>,
    pub token_prog: Aid,
    pub rent_acct: Aid,
    pub retprog: Aid,
    pub bufs: Vec<Aid>,
    pub lqd_owner: Aid,
    pub init_owner: Aid,
    pub retbuf_id: Pubkey,
}

pub fn req(inner: u8, act: &Act) -> Vec<u8> {
    let mut d = 0x220a6cbdcd1cc4cfu64.to_le_bytes().to_vec();
    d.push(inner);
    match act {
        Act::Create(n) => {
            d.push(0);
            d.extend(n.to_le_bytes());
        }
        Act::Redeem(n) => {
            d.push(1);
            d.extend(n.to_le_bytes());
        }
        Act::Swap(v) => {
            d.push(2);
            d.extend((v.len() as u32).to_le_bytes());
            for x in v {
                d.extend(x.to_le_bytes());
            }
        }
    }
    d
}

impl PWorld {
    pub fn add(&mut self, label: &str, owner: Pubkey, data: Vec<u8>, role: Role) -> Aid {
        let k = skey(self.cfg.seed, label);
        self.add_key(k, label, owner, data, role)
    }
    pub fn add_key(&mut self, k: Pubkey, label: &str, owner: Pubkey, data: Vec<u8>, role: Role) -> Aid {
        self.roles.push(role);
        self.names.push(label.to_string());
        self.chain.add_exempt(k, owner, data)
    }
    pub fn tok(&mut self, label: &str, mint: Key, owner: Key, amount: u64) -> Aid {
        let t = Tok { mint, owner, amount, state: 1, ..Tok::default() };
        self.add(label, spl_token::ID, tok_bytes(&t), Role::Tok)
    }
    pub fn edit(&mut self, a: Aid, f: impl FnOnce(&mut Tok)) {
        let mut t = tok(&self.chain.accts[a].data).unwrap();
        f(&mut t);
        self.chain.accts[a].data = tok_bytes(&t);
    }
    pub fn k32(&self, a: Aid) -> Key {
        self.chain.key(a).to_bytes()
    }

    pub fn new(cfg: &PCfg) -> PWorld {
        let simple = skey(cfg.seed, "simple pool program");
        let admin = skey(cfg.seed, "admin pool program");
        let retbuf_id = skey(cfg.seed, "retbuf program");
        set_handlers(&[
            (simple, simple_handler as Handler),
            (admin, admin_handler as Handler),
            (retbuf_id, retbuf_handler as Handler),
        ]);
        let mut w = PWorld {
            cfg: cfg.clone(),
            chain: Chain::new(),
            roles: vec![],
            names: vec![],
            users: vec![],
            mints: vec![],
            toks: vec![],
            kits: vec![],
            token_prog: 0,
            rent_acct: 0,
            retprog: 0,
            bufs: vec![],
            lqd_owner: 0,
            init_owner: 0,
            retbuf_id,
        };
        let sys = system_program::ID;
        w.token_prog = w.add_key(spl_token::ID, "token program", sys, vec![], Role::Other);
        let mut rd = w.chain.rent.lamports_per_byte_year.to_le_bytes().to_vec();
        rd.extend(w.chain.rent.exemption_threshold.to_le_bytes());
        rd.push(w.chain.rent.burn_percent);
        w.rent_acct = w.add_key(sysvar::rent::ID, "rent", sys, rd, Role::Other);
        w.retprog = w.add_key(retbuf_id, "retbuf program", sys, vec![], Role::Other);
        let b = w.add("retbuf", retbuf_id, vec![0; 128], Role::Raw);
        let b2 = w.add("foreign retbuf", simple, vec![0; 128], Role::Raw);
        let b3 = w.add("small retbuf", retbuf_id, vec![0; 9], Role::Raw);
        w.bufs = vec![b, b2, b3];
        w.lqd_owner = w.add_key(
            serum_pool_schema::fee_owner::ID,
            "fee owner",
            sys,
            vec![],
            Role::Other,
        );
        w.init_owner = w.add("initialiser", sys, vec![], Role::Other);
        for u in 0..cfg.users {
            let a = w.add(&format!("user{}", u), sys, vec![], Role::Other);
            w.users.push(a);
        }
        for m in 0..cfg.mints {
            let mi = MintSt { authority: None, supply: u64::MAX, decimals: 0, init: true, freeze: None };
            let a = w.add(&format!("mint{}", m), spl_token::ID, mint_bytes(&mi), Role::Mint);
            w.mints.push(a);
        }
        for u in 0..cfg.users {
            let mut v = vec![];
            for m in 0..cfg.mints {
                let (mk, uk) = (w.k32(w.mints[m]), w.k32(w.users[u]));
                let a = w.tok(&format!("tok{}.{}", u, m), mk, uk, cfg.rich);
                let b = w.tok(&format!("tok{}.{}b", u, m), mk, uk, cfg.rich / 7);
                v.push([a, b]);
            }
            w.toks.push(v);
        }
        for (pi, pc) in cfg.pools.iter().enumerate() {
            let p = format!("pool{}", pi);
            let d = pc.defect;
            let program = if pc.admin { admin } else { simple };
            let owner = if d == 18 { retbuf_id } else { program };
            let pool = w.add(&p, owner, vec![0; if d == 19 { 100 } else { pc.size }], Role::Pool);
            let pk = w.chain.key(pool);
            let mut nonce = (cfg.seed % 200) as u8;
            let sg = loop {
                if let Ok(k) = Pubkey::create_program_address(&[pk.as_ref(), &[nonce]], &program) {
                    break k;
                }
                nonce = nonce.wrapping_add(1);
            };
            let sg32 = sg.to_bytes();
            let signer = w.add_key(sg, &format!("{}signer", p), sys, vec![], Role::Other);
            let u0 = w.k32(w.users[0]);
            let lq = w.k32(w.lqd_owner);
            let io = w.k32(w.init_owner);
            let mi = MintSt {
                authority: Some(if d == 6 { u0 } else { sg32 }),
                supply: pc.supply,
                decimals: 6,
                init: true,
                freeze: None,
            };
            let mint = w.add(&format!("{}mint", p), spl_token::ID, mint_bytes(&mi), Role::Mint);
            let pm = w.k32(mint);
            let mut vaults: Vec<Aid> = vec![];
            for (i, m) in pc.assets.iter().enumerate() {
                let mk = w.k32(w.mints[*m]);
                let a = w.tok(&format!("{}vault{}", p, i), mk, sg32, pc.amounts[i]);
                vaults.push(a);
            }
            let m0 = w.k32(w.mints[pc.assets[0]]);
            let lqd = w.tok(&format!("{}lqd", p), if d == 13 { m0 } else { pm }, lq, 0);
            let init = w.tok(&format!("{}initfee", p), if d == 14 { m0 } else { pm }, io, 0);
            let refr = w.tok(&format!("{}ref", p), pm, io, 0);
            let mut ptoks = vec![];
            let n = cfg.users as u64;
            for u in 0..cfg.users {
                let share = if u == 0 { pc.supply - pc.supply / n * (n - 1) } else { pc.supply / n };
                let uk = w.k32(w.users[u]);
                ptoks.push(w.tok(&format!("{}tok{}", p, u), pm, uk, share));
            }
            let lastv = *vaults.last().unwrap();
            match d {
                1 => w.chain.accts[pool].lamports = 1000,
                2 => w.chain.accts[mint].lamports = 1000,
                3 => w.chain.accts[lastv].lamports = 1000,
                4 => w.chain.accts[lqd].lamports = 1000,
                5 => w.chain.accts[init].lamports = 1000,
                7 => w.edit(lastv, |t| t.owner = u0),
                8 => w.edit(lastv, |t| {
                    t.owner = u0;
                    t.delegate = Some(sg32);
                    t.delegated = 1_000_000;
                }),
                9 => w.edit(lqd, |t| t.owner = u0),
                10 => w.edit(lqd, |t| {
                    t.delegate = Some(u0);
                    t.delegated = 5;
                }),
                11 => w.edit(lqd, |t| t.close_auth = Some(u0)),
                12 => w.edit(lqd, |t| t.close_auth = Some(sg32)),
                17 => w.chain.accts[pool].data[70] = 1,
                20 => vaults.push(vaults[0]),
                21 => w.edit(lastv, |t| t.state = 0),
                22 => w.edit(lqd, |t| {
                    t.owner = u0;
                    t.delegate = Some(lq);
                    t.delegated = 5;
                }),
                _ => {}
            }
            let a1 = w.add(&format!("{}admin", p), sys, vec![], Role::Other);
            let a2 = w.add(&format!("{}admin2", p), sys, vec![], Role::Other);
            let mut extra = vec![];
            for m in 0..cfg.mints.min(4) {
                let mk = w.k32(w.mints[m]);
                extra.push(w.tok(&format!("{}extra{}", p, m), mk, sg32, if m % 2 == 0 { 0 } else { 1000 }));
                if m == 0 {
                    extra.push(w.tok(&format!("{}foreign{}", p, m), mk, u0, 0));
                }
            }
            w.kits.push(Kit {
                cfg: pc.clone(),
                program,
                pool,
                mint,
                vaults,
                signer,
                nonce,
                lqd,
                init,
                admins: [a1, a2],
                refr,
                extra,
                ptoks,
            });
        }
        w
    }

    pub fn state(&self, p: usize) -> Option<PoolSt> {
        match pool_acct(&self.chain.accts[self.kits[p].pool].data) {
            PoolAcct::State(s) => Some(s),
            _ => None,
        }
    }
    pub fn aid(&self, k: &Key) -> Aid {
        self.chain.index.borrow().get(&pk(k)).cloned().unwrap_or(0)
    }
    pub fn vaults(&self, p: usize) -> Vec<Aid> {
        match self.state(p) {
            Some(s) => s.assets.iter().map(|a| self.aid(&a.1)).collect(),
            None => self.kits[p].vaults.clone(),
        }
    }
    pub fn amount(&self, a: Aid) -> u64 {
        tok(&self.chain.accts[a].data).map(|t| t.amount).unwrap_or(0)
    }
    pub fn supply(&self, p: usize) -> u64 {
        mint(&self.chain.accts[self.kits[p].mint].data).map(|m| m.supply).unwrap_or(0)
    }
    pub fn cannot_sign(&self, a: Aid) -> bool {
        a == self.token_prog || a == self.rent_acct || a == self.retprog || self.kits.iter().any(|k| k.signer == a)
    }

    pub fn build(&self, o: &POpT) -> Ix {
        let r = |aid: Aid| Meta { aid, signer: false, writable: false };
        let w = |aid: Aid| Meta { aid, signer: false, writable: true };
        let s = |aid: Aid| Meta { aid, signer: true, writable: false };
        let program;
        let data;
        let mut metas: Vec<Meta>;
        match &o.op {
            POp::Init { p, nonce, n, fee } => {
                let k = &self.kits[*p];
                program = k.program;
                metas = vec![w(k.pool), w(k.mint)];
                metas.extend(k.vaults.iter().map(|a| w(*a)));
                metas.extend([r(k.signer), r(k.lqd), r(k.init), r(self.rent_acct)]);
                if k.cfg.admin {
                    metas.push(r(k.admins[0]));
                }
                let mut d = 0x220a6cbdcd1cc4cfu64.to_le_bytes().to_vec();
                d.extend([0, *nonce, *n]);
                d.extend(4u32.to_le_bytes());
                d.extend(b"pool");
                d.extend(fee.to_le_bytes());
                d.extend(0u32.to_le_bytes());
                data = d;
            }
            POp::Exec { p, act, ptok, assets, auth, refr } => {
                let k = &self.kits[*p];
                program = k.program;
                metas = vec![w(k.pool), w(k.mint)];
                metas.extend(self.vaults(*p).iter().map(|a| w(*a)));
                metas.extend([r(k.signer), w(*ptok)]);
                metas.extend(assets.iter().map(|a| w(*a)));
                metas.extend([s(*auth), w(k.lqd), w(k.init), w(*refr), r(self.token_prog)]);
                data = req(2, act);
            }
            POp::Basket { p, act, buf } => {
                let k = &self.kits[*p];
                program = k.program;
                metas = vec![r(k.pool), r(k.mint)];
                metas.extend(self.vaults(*p).iter().map(|a| r(*a)));
                metas.extend([r(k.signer), w(*buf), r(self.retprog)]);
                data = req(1, act);
            }
            POp::Admin { p, admin, act } => {
                let k = &self.kits[*p];
                program = k.program;
                metas = vec![w(k.pool), s(*admin)];
                let mut d = 0x31e6452361a17878u64.to_le_bytes().to_vec();
                match act {
                    AdminAct::Pause => d.push(0),
                    AdminAct::Unpause => {
                        d.push(1);
                        metas.extend(self.vaults(*p).iter().map(|a| r(*a)));
                    }
                    AdminAct::Approve { vault, delegate, amount } => {
                        d.push(2);
                        d.extend(amount.to_le_bytes());
                        metas.extend([w(*vault), r(*delegate), r(k.signer), r(self.token_prog)]);
                    }
                    AdminAct::Add { vault } => {
                        d.push(3);
                        metas.push(r(*vault));
                    }
                    AdminAct::Remove { vault } => {
                        d.push(4);
                        metas.push(r(*vault));
                    }
                    AdminAct::Fee(f) => {
                        d.push(5);
                        d.extend(f.to_le_bytes());
                    }
                    AdminAct::NewAdmin(a) => {
                        d.push(6);
                        metas.push(s(*a));
                    }
                }
                data = d;
            }
            POp::Raw { p, data: d, admin } => {
                let k = &self.kits[*p];
                program = k.program;
                metas = vec![w(k.pool), s(*admin), w(k.mint)];
                metas.extend(self.vaults(*p).iter().map(|a| w(*a)));
                data = d.clone();
            }
            POp::Transfer { from, to, auth, amount } => {
                program = spl_token::ID;
                metas = vec![w(*from), w(*to), s(*auth)];
                let mut d = vec![3];
                d.extend(amount.to_le_bytes());
                data = d;
            }
            POp::Approve { acct, delegate, owner, amount } => {
                program = spl_token::ID;
                metas = vec![w(*acct), r(*delegate), s(*owner)];
                let mut d = vec![4];
                d.extend(amount.to_le_bytes());
                data = d;
            }
            POp::Burn { acct, mint, auth, amount } => {
                program = spl_token::ID;
                metas = vec![w(*acct), w(*mint), s(*auth)];
                let mut d = vec![8];
                d.extend(amount.to_le_bytes());
                data = d;
            }
        }
        tamper_metas(&mut metas, &o.tamper, self.chain.accts.len(), &|a| self.cannot_sign(a));
        Ix { program, metas, data }
    }

    pub fn build_tx(&self, ops: &[POpT]) -> Vec<Ix> {
        let mut v: Vec<Ix> = ops.iter().map(|o| self.build(o)).collect();
        merge_privileges(&mut v);
        v
    }
}

// ---- reference model ----

/// A readable token account; frozen ones count.
pub fn readable(o: &mut Over, a: Aid) -> R<Tok> {
    match &o.v(a).body {
        Parsed::Tok(t) if t.state == 1 || t.state == 2 => Ok(t.clone()),
        _ => Err(Why::Subst),
    }
}
pub fn token_of(o: &mut Over, a: Aid, mint: &Key, by: Option<&Key>) -> R<Tok> {
    if o.v(a).owner != spl_token::ID {
        return Err(Why::Subst);
    }
    let t = readable(o, a)?;
    if t.mint != *mint {
        return Err(Why::Subst);
    }
    if let Some(k) = by {
        if t.owner != *k && t.delegate != Some(*k) {
            return Err(Why::Subst);
        }
    }
    Ok(t)
}
pub fn supply_of(o: &mut Over, a: Aid) -> R<u64> {
    match &o.v(a).body {
        Parsed::Mint(m) if m.init => Ok(m.supply),
        _ => Err(Why::Subst),
    }
}

pub struct Fee {
    pub lqd: u64,
    pub init: u64,
    pub refr: u64,
}
impl Fee {
    pub fn total(&self) -> u64 {
        self.lqd + self.init + self.refr
    }
}
/// The fee schedule: the rate rounded up; two fifths of it (at least one in ten thousand tokens, rounded up) to
/// the protocol, half as much as that to the referrer as far as it goes, the rest to the initialiser.
pub fn fee_for(rate: u32, n: u64) -> R<Fee> {
    if !(150..1_000_000).contains(&rate) {
        return Err(Why::Arith);
    }
    let total = ((n as u128 * rate as u128 + 999_999) / 1_000_000) as u64;
    if total > u64::MAX / 2 {
        return Err(Why::Arith);
    }
    let lqd = (total * 2 / 5).max(((n as u128 + 9_999) / 10_000) as u64);
    let refr = (lqd / 2).min(total - lqd);
    Ok(Fee { lqd, refr, init: total - lqd - refr })
}

pub struct Acc {
    st: PoolSt,
    vaults: Vec<Aid>,
    next: usize,
}

/// The part common to all requests: the pool's own mint, vaults and signer, and nothing else.
pub fn pool_accounts(o: &mut Over, a: &[Aid], st: PoolSt) -> R<Acc> {
    let n = st.assets.len();
    if a.len() < 3 + n {
        return Err(Why::Count);
    }
    same(o, a[1], &st.mint)?;
    let mv = o.v(a[1]);
    let ok = mv.owner == spl_token::ID && matches!(&mv.body, Parsed::Mint(m) if m.init && m.authority == Some(st.signer));
    if !ok {
        return Err(Why::Subst);
    }
    let mut vaults = vec![];
    for i in 0..n {
        same(o, a[2 + i], &st.assets[i].1)?;
        token_of(o, a[2 + i], &st.assets[i].0, Some(&st.signer))?;
        vaults.push(a[2 + i]);
    }
    same(o, a[2 + n], &st.signer)?;
    Ok(Acc { st, vaults, next: 3 + n })
}

pub fn paused(st: &PoolSt, admin: bool) -> R<bool> {
    if !admin {
        return Ok(false);
    }
    let mut want = 0x4a3ab7f76f93f94eu64.to_le_bytes().to_vec();
    want.push(0);
    if st.custom == want {
        return Ok(false);
    }
    want[8] = 1;
    if st.custom == want {
        return Ok(true);
    }
    Err(Why::Subst)
}
pub fn custom(p: bool) -> Vec<u8> {
    let mut v = 0x4a3ab7f76f93f94eu64.to_le_bytes().to_vec();
    v.push(p as u8);
    v
}

pub fn basket(o: &mut Over, x: &Acc, mint: Aid, n: u64, up: bool) -> R<Vec<u64>> {
    let s = supply_of(o, mint)? as u128;
    if s == 0 {
        return Err(Why::Funds);
    }
    let mut v = vec![];
    for a in &x.vaults {
        let q = readable(o, *a)?.amount as u128 * n as u128;
        let r = if up { (q + s - 1) / s } else { q / s };
        if r > i64::MAX as u128 {
            return Err(Why::Arith);
        }
        v.push(r as u64);
    }
    Ok(v)
}

pub fn mint_to(o: &mut Over, ms: &[Meta], mint: Aid, to: Aid, n: u64, tr: &mut Trace) -> R<()> {
    let w = |a: Aid| ms.iter().any(|m| m.aid == a && m.writable);
    if !w(mint) || !w(to) {
        if n == 0 {
            tr.soft = Some("nothing moved over a read-only account");
            return Ok(());
        }
        return Err(Why::ReadOnly);
    }
    let t = o.token_account(to)?;
    let mk = o.key(mint);
    if t.mint != mk {
        return Err(Why::Subst);
    }
    match &mut o.v(mint).body {
        Parsed::Mint(m) => m.supply = m.supply.checked_add(n).ok_or(Why::Arith)?,
        _ => return Err(Why::Subst),
    }
    let t = o.tok(to)?;
    t.amount = t.amount.checked_add(n).ok_or(Why::Arith)?;
    Ok(())
}

pub fn burn(o: &mut Over, ms: &[Meta], from: Aid, mint: Aid, auth: Aid, n: u64, tr: &mut Trace) -> R<()> {
    let w = |a: Aid| ms.iter().any(|m| m.aid == a && m.writable);
    if !w(mint) || !w(from) {
        if n == 0 {
            tr.soft = Some("nothing moved over a read-only account");
            return Ok(());
        }
        return Err(Why::ReadOnly);
    }
    let t = o.token_account(from)?;
    if t.mint != o.key(mint) {
        return Err(Why::Subst);
    }
    if t.amount < n {
        return Err(Why::Funds);
    }
    let k = o.key(auth);
    let by = t.delegate == Some(k);
    if by && t.delegated < n || !by && t.owner != k {
        return Err(Why::TokenAuth);
    }
    if !ms.iter().any(|m| m.aid == auth && m.signer) {
        return Err(Why::Signer);
    }
    match &mut o.v(mint).body {
        Parsed::Mint(m) if m.init => m.supply = m.supply.checked_sub(n).ok_or(Why::Arith)?,
        _ => return Err(Why::Subst),
    }
    let t = o.tok(from)?;
    t.amount -= n;
    if by {
        t.delegated -= n;
        if t.delegated == 0 {
            t.delegate = None;
        }
    }
    Ok(())
}

pub fn model(w: &PWorld, o: &mut Over, op: &POp, ms: &[Meta], tr: &mut Trace) -> R<()> {
    let a: Vec<Aid> = ms.iter().map(|m| m.aid).collect();
    let load = |o: &mut Over, p: usize| -> R<PoolSt> {
        if a.is_empty() {
            return Err(Why::Count);
        }
        if o.v(a[0]).owner != w.kits[p].program {
            return Err(Why::Subst);
        }
        match &o.v(a[0]).body {
            Parsed::Pool(PoolAcct::State(s)) => Ok(s.clone()),
            _ => Err(Why::OoState),
        }
    };
    match op {
        POp::Init { p, nonce, n, fee } => {
            let k = &w.kits[*p];
            if a.is_empty() {
                return Err(Why::Count);
            }
            if o.v(a[0]).owner != k.program {
                return Err(Why::Subst);
            }
            if !matches!(o.v(a[0]).body, Parsed::Pool(PoolAcct::Blank)) {
                return Err(Why::InitCheck);
            }
            let n = *n as usize;
            if a.len() < 2 + n + 4 {
                return Err(Why::Count);
            }
            let mut st = PoolSt {
                mint: o.key(a[1]),
                signer: o.key(a[2 + n]),
                nonce: *nonce,
                name: b"pool".to_vec(),
                lqd: o.key(a[3 + n]),
                init: o.key(a[4 + n]),
                fee: *fee,
                ..PoolSt::default()
            };
            for i in 0..n {
                let t = readable(o, a[2 + i])?;
                st.assets.push((t.mint, o.key(a[2 + i])));
                if a[2..2 + i].contains(&a[2 + i]) {
                    return Err(Why::InitCheck);
                }
            }
            let x = pool_accounts(o, &a, st.clone()).map_err(|_| Why::InitCheck)?;
            let (lqd, init) = (a[x.next], a[x.next + 1]);
            let t = token_of(o, lqd, &st.mint, None).map_err(|_| Why::InitCheck)?;
            let fo = serum_pool_schema::fee_owner::ID.to_bytes();
            if t.owner != fo || t.delegate.is_some() || t.close_auth.map_or(false, |k| k != st.signer) {
                return Err(Why::InitCheck);
            }
            token_of(o, init, &st.mint, None).map_err(|_| Why::InitCheck)?;
            if a[x.next + 2] != w.rent_acct {
                return Err(Why::Subst);
            }
            let mut rent = vec![a[0], a[1], lqd, init];
            rent.extend(&x.vaults);
            for y in rent {
                let v = o.v(y);
                let (l, n) = (v.lamports, v.len);
                if l < o.chain.rent.minimum_balance(n) {
                    return Err(Why::InitCheck);
                }
            }
            if k.cfg.admin {
                let ad = *a.get(x.next + 3).ok_or(Why::Count)?;
                st.admin = Some(o.key(ad));
                st.custom = custom(false);
            }
            let sg = Pubkey::create_program_address(&[&o.key(a[0])[..], &[*nonce]], &k.program);
            if sg.map(|s| s.to_bytes()) != Ok(st.signer) {
                return Err(Why::InitCheck);
            }
            if !(150..1_000_000).contains(fee) {
                return Err(Why::InitCheck);
            }
            if st.size() > o.v(a[0]).len {
                return Err(Why::InitCheck);
            }
            o.v(a[0]).body = Parsed::Pool(PoolAcct::State(st));
            Ok(())
        }
        POp::Exec { p, act, .. } => {
            let st = load(o, *p)?;
            let x = pool_accounts(o, &a, st)?;
            let n = x.vaults.len();
            if a.len() < x.next + 1 + n + 5 {
                return Err(Why::Count);
            }
            let st = &x.st;
            let ptok = a[x.next];
            let assets: Vec<Aid> = a[x.next + 1..x.next + 1 + n].to_vec();
            let q = x.next + 1 + n;
            let (auth, lqd, init, refr, tp) = (a[q], a[q + 1], a[q + 2], a[q + 3], a[q + 4]);
            token_of(o, ptok, &st.mint, None)?;
            for i in 0..n {
                token_of(o, assets[i], &st.assets[i].0, None)?;
            }
            same(o, lqd, &st.lqd)?;
            same(o, init, &st.init)?;
            let fo = serum_pool_schema::fee_owner::ID.to_bytes();
            token_of(o, lqd, &st.mint, Some(&fo))?;
            token_of(o, init, &st.mint, None)?;
            token_of(o, refr, &st.mint, None)?;
            token_program(o, tp)?;
            let size = match act {
                Act::Create(z) | Act::Redeem(z) => *z,
                Act::Swap(_) => return Err(Why::Gone),
            };
            if paused(st, w.kits[*p].cfg.admin)? {
                return Err(Why::Disabled);
            }
            // Who is paid a fee does not pay it to himself.
            let mut f = fee_for(st.fee, size)?;
            if ptok == lqd {
                f = Fee { lqd: 0, init: 0, refr: 0 };
            }
            if ptok == init {
                f.init = 0;
            }
            if ptok == refr {
                f.refr = 0;
            }
            tr.tier_used = f.total() > 0;
            let net = size - f.total();
            match act {
                Act::Create(_) => {
                    let b = basket(o, &x, a[1], size, true)?;
                    for i in 0..n {
                        o.transfer(ms, assets[i], x.vaults[i], Auth::Signer(auth), b[i], tr)?;
                    }
                    for (to, m) in [(lqd, f.lqd), (init, f.init), (refr, f.refr), (ptok, net)] {
                        if m > 0 {
                            mint_to(o, ms, a[1], to, m, tr)?;
                        }
                    }
                }
                _ => {
                    let b = basket(o, &x, a[1], net, false)?;
                    for (to, m) in [(lqd, f.lqd), (init, f.init), (refr, f.refr)] {
                        if m > 0 {
                            o.transfer(ms, ptok, to, Auth::Signer(auth), m, tr)?;
                        }
                    }
                    burn(o, ms, ptok, a[1], auth, net, tr)?;
                    for i in 0..n {
                        o.transfer(ms, x.vaults[i], assets[i], Auth::Pda(st.signer), b[i], tr)?;
                    }
                }
            }
            Ok(())
        }
        POp::Basket { p, act, .. } => {
            let st = load(o, *p)?;
            let x = pool_accounts(o, &a, st)?;
            if a.len() < x.next + 2 {
                return Err(Why::Count);
            }
            let (buf, prog) = (a[x.next], a[x.next + 1]);
            if o.v(buf).owner.to_bytes() != o.key(prog) {
                return Err(Why::Subst);
            }
            let b = match act {
                Act::Swap(_) => return Err(Why::Gone),
                _ if paused(&x.st, w.kits[*p].cfg.admin)? => return Err(Why::Disabled),
                Act::Create(n) => basket(o, &x, a[1], *n, true)?,
                Act::Redeem(n) => basket(o, &x, a[1], *n, false)?,
            };
            if o.key(prog) != w.retbuf_id.to_bytes() {
                // Some other program would be asked to store the answer.
                return Err(Why::Void);
            }
            if !ms.iter().any(|m| m.aid == buf && m.writable) {
                return Err(Why::ReadOnly);
            }
            let mut d = (b.len() as u32).to_le_bytes().to_vec();
            for q in b {
                d.extend(q.to_le_bytes());
            }
            match &mut o.v(buf).body {
                Parsed::Raw(r) if r.len() >= d.len() => r[..d.len()].copy_from_slice(&d),
                _ => return Err(Why::Funds),
            }
            Ok(())
        }
        POp::Admin { p, act, .. } => {
            if !w.kits[*p].cfg.admin {
                return Err(Why::Gone);
            }
            let mut st = load(o, *p)?;
            if a.len() < 2 {
                return Err(Why::Count);
            }
            if st.admin != Some(o.key(a[1])) {
                return Err(Why::Authority);
            }
            signed(ms, 1)?;
            let mut ps = paused(&st, true)?;
            let arg = |i: usize| a.get(2 + i).cloned().ok_or(Why::Count);
            match act {
                AdminAct::Pause => ps = true,
                AdminAct::Unpause => {
                    for i in 0..st.assets.len() {
                        let v = arg(i)?;
                        same(o, v, &st.assets[i].1)?;
                        if o.v(v).owner != spl_token::ID {
                            return Err(Why::Subst);
                        }
                        let t = readable(o, v)?;
                        if t.delegate.is_some() && t.delegated > 0 {
                            return Err(Why::Nonempty);
                        }
                    }
                    ps = false;
                }
                AdminAct::Approve { amount, .. } => {
                    let (v, d, sg, tp) = (arg(0)?, arg(1)?, arg(2)?, arg(3)?);
                    let vk = o.key(v);
                    if !st.assets.iter().any(|x| x.1 == vk) {
                        return Err(Why::Subst);
                    }
                    same(o, sg, &st.signer)?;
                    token_program(o, tp)?;
                    if !ms.iter().any(|m| m.aid == v && m.writable) {
                        return Err(Why::ReadOnly);
                    }
                    let t = o.token_account(v)?;
                    if t.owner != st.signer {
                        return Err(Why::TokenAuth);
                    }
                    let dk = o.key(d);
                    let t = o.tok(v)?;
                    t.delegate = Some(dk);
                    t.delegated = *amount;
                    ps = true;
                }
                AdminAct::Add { .. } => {
                    let v = arg(0)?;
                    if o.v(v).owner != spl_token::ID {
                        return Err(Why::Subst);
                    }
                    let t = readable(o, v)?;
                    let vk = o.key(v);
                    if st.assets.iter().any(|x| x.1 == vk || x.0 == t.mint) {
                        return Err(Why::InitCheck);
                    }
                    if t.owner != st.signer {
                        return Err(Why::TokenAuth);
                    }
                    st.assets.push((t.mint, vk));
                }
                AdminAct::Remove { .. } => {
                    let v = arg(0)?;
                    if o.v(v).owner != spl_token::ID {
                        return Err(Why::Subst);
                    }
                    if readable(o, v)?.amount > 0 {
                        return Err(Why::Nonempty);
                    }
                    let vk = o.key(v);
                    if !st.assets.iter().any(|x| x.1 == vk) {
                        return Err(Why::Subst);
                    }
                    st.assets.retain(|x| x.1 != vk);
                }
                AdminAct::Fee(f) => {
                    if !(150..1_000_000).contains(f) {
                        return Err(Why::InitCheck);
                    }
                    st.fee = *f;
                }
                AdminAct::NewAdmin(_) => {
                    let x = arg(0)?;
                    signed(ms, 2)?;
                    st.admin = Some(o.key(x));
                }
            }
            st.custom = custom(ps);
            if st.size() > o.v(a[0]).len {
                return Err(Why::Funds);
            }
            o.v(a[0]).body = Parsed::Pool(PoolAcct::State(st));
            Ok(())
        }
        POp::Raw { .. } => Err(Why::Gone),
        POp::Transfer { amount, .. } => {
            if a.len() < 3 {
                return Err(Why::Count);
            }
            o.transfer(ms, a[0], a[1], Auth::Signer(a[2]), *amount, tr)
        }
        POp::Approve { amount, .. } => {
            if a.len() < 3 {
                return Err(Why::Count);
            }
            let t = o.token_account(a[0])?;
            if t.owner != o.key(a[2]) {
                return Err(Why::TokenAuth);
            }
            signed(ms, 2)?;
            let k = o.key(a[1]);
            let t = o.tok(a[0])?;
            t.delegate = Some(k);
            t.delegated = *amount;
            Ok(())
        }
        POp::Burn { amount, .. } => {
            if a.len() < 3 {
                return Err(Why::Count);
            }
            burn(o, ms, a[0], a[1], a[2], *amount, tr)
        }
    }
}

// ---- oracle ----

pub fn name(op: &POp) -> &'static str {
    match op {
        POp::Init { .. } => "init_pool",
        POp::Exec { act: Act::Create(_), .. } => "create",
        POp::Exec { act: Act::Redeem(_), .. } => "redeem",
        POp::Exec { .. } => "swap",
        POp::Basket { .. } => "get_basket",
        POp::Admin { act, .. } => match act {
            AdminAct::Pause => "pause",
            AdminAct::Unpause => "unpause",
            AdminAct::Approve { .. } => "approve_delegate",
            AdminAct::Add { .. } => "add_asset",
            AdminAct::Remove { .. } => "remove_asset",
            AdminAct::Fee(_) => "update_fee",
            AdminAct::NewAdmin(_) => "update_admin",
        },
        POp::Raw { .. } => "malformed request",
        POp::Transfer { .. } => "transfer",
        POp::Approve { .. } => "approve",
        POp::Burn { .. } => "burn",
    }
}
pub fn stat(op: &POp, ok: bool) -> &'static str {
    match (op, ok) {
        (POp::Init { .. }, true) => "ok: init_pool",
        (POp::Init { .. }, false) => "refused: init_pool",
        (POp::Exec { act: Act::Create(_), .. }, true) => "ok: create",
        (POp::Exec { act: Act::Redeem(_), .. }, true) => "ok: redeem",
        (POp::Exec { .. }, true) => "ok: swap",
        (POp::Exec { .. }, false) => "refused: create/redeem/swap",
        (POp::Basket { .. }, true) => "ok: get_basket",
        (POp::Basket { .. }, false) => "refused: get_basket",
        (POp::Admin { .. }, true) => "ok: admin",
        (POp::Admin { .. }, false) => "refused: admin",
        (POp::Raw { .. }, _) => "refused: malformed request",
        (_, true) => "ok: token",
        (_, false) => "refused: token",
    }
}
pub fn props(op: &POp) -> u64 {
    match op {
        POp::Exec { .. } | POp::Basket { .. } => c(22),
        POp::Init { .. } => c(23),
        POp::Admin { .. } => c(23),
        POp::Raw { .. } => c(23),
        _ => c(22) | c(23),
    }
}

impl PWorld {
    pub fn tx(&mut self, ops: &[POpT], faults: &Faults, st: &mut Stats) -> Vec<Viol> {
        let ixs = self.build_tx(ops);
        let pre = self.chain.clone();
        let r = self.chain.exec(&ixs, faults);
        let tampered = ops.iter().any(|o| !o.tamper.is_empty());
        st.hit("tx");
        for o in ops {
            let n: u64 = name(&o.op).bytes().fold(7, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
            st.log(&[n, o.tamper.len() as u64]);
        }
        st.log(&[r.ok as u64, r.cpis as u64, r.syscalls as u64]);
        if r.ok {
            st.hit("tx committed");
            st.states.insert(mix(&[st.h & 0xffff, ops.len() as u64, r.cpis as u64]));
        }
        for (f, n) in [
            (r.fired.cpi_fail, "fault: token call failed"),
            (r.fired.abort, "fault: aborted at a system call"),
            (r.panicked, "tx panicked in the program"),
        ] {
            if f {
                st.hit(n);
            }
        }
        let metas: Vec<Vec<Meta>> = ixs.iter().map(|i| i.metas.clone()).collect();
        let mut tr = Trace::default();
        let mut exp: Result<(), (usize, Why)> = Ok(());
        let mut ov = Over::new(&pre, &self.roles, Pubkey::default(), None);
        for (i, o) in ops.iter().enumerate() {
            if let Err(w) = model(self, &mut ov, &o.op, &metas[i], &mut tr) {
                exp = Err((i, w));
                break;
            }
        }
        if exp.is_ok() {
            if let Err(w) = commit(&mut ov, &metas) {
                exp = Err((ops.len() - 1, w));
            }
        }
        if let Err((_, Why::Void)) = exp {
            drop(ov);
            self.chain = pre;
            st.hit("tx taken back");
            return vec![];
        }
        let mut v = vec![];
        let fault = r.fired.cpi_fail || r.fired.abort;
        if r.ok {
            if fault {
                let i = r.failed_ix.min(ops.len() - 1);
                v.push(Viol {
                    props: props(&ops[i].op) | c(22),
                    class: format!("succeeded despite a fault: {}", name(&ops[i].op)),
                    detail: format!("{} reported success although a token call failed", name(&ops[i].op)),
                });
            } else if let Err((i, w)) = exp {
                let mut p = props(&ops[i].op);
                if !matches!(w, Why::Funds | Why::Arith) {
                    p |= c(23);
                }
                if tampered {
                    p |= c(22) | c(23);
                }
                v.push(Viol {
                    props: p,
                    class: format!("accepted {:?} {}", w, name(&ops[i].op)),
                    detail: format!("{} was accepted although it had to fail ({})", name(&ops[i].op), why_text(w)),
                });
            } else {
                let mut seen = vec![];
                for m in metas.iter().flatten() {
                    if seen.contains(&m.aid) {
                        continue;
                    }
                    seen.push(m.aid);
                    let act = view(&self.chain, &self.roles, m.aid);
                    let ex = ov.m.get(&m.aid).cloned().unwrap_or_else(|| view(&pre, &self.roles, m.aid));
                    if ex != act {
                        let mut p = 0;
                        for o in ops {
                            p |= props(&o.op);
                        }
                        if self.roles[m.aid] == Role::Pool {
                            p |= c(23);
                        }
                        if tampered {
                            p |= c(22) | c(23);
                        }
                        let names: Vec<&str> = ops.iter().map(|o| name(&o.op)).collect();
                        v.push(Viol {
                            props: p,
                            class: format!("effect of {}", names[0]),
                            detail: format!(
                                "after {}: {} is {} instead of {}",
                                names.join("+"),
                                self.names[m.aid],
                                short(&act.body),
                                short(&ex.body)
                            ),
                        });
                    }
                }
            }
            // No dilution: what a pool token stands for never falls through a pool instruction.
            if ops.len() == 1 {
                if let POp::Exec { p, .. } = &ops[0].op {
                    self.dilution(*p, &pre, &mut v);
                }
            }
        } else if exp.is_ok() && !fault && tr.soft.is_none() && !tampered {
            let i = r.failed_ix.min(ops.len() - 1);
            v.push(Viol {
                props: props(&ops[i].op),
                class: format!("rejected {}", name(&ops[i].op)),
                detail: format!("{} was rejected ({}) although it had to succeed", name(&ops[i].op), r.err),
            });
        }
        if r.ok && tr.tier_used {
            st.hit("reach: fee charged");
        }
        match &exp {
            Ok(()) if r.ok => ops.iter().for_each(|o| st.hit(stat(&o.op, true))),
            Err((i, _)) => st.hit(stat(&ops[*i].op, false)),
            _ => {}
        }
        if tampered {
            st.hit(if r.ok { "byzantine tx (harmless, accepted)" } else { "byzantine tx (rejected)" });
        }
        v
    }

    pub fn dilution(&self, p: usize, pre: &Chain, v: &mut Vec<Viol>) {
        let k = &self.kits[p];
        let (s0, s1) = match (pool_acct(&pre.accts[k.pool].data), self.state(p)) {
            (PoolAcct::State(a), Some(b)) => (a, b),
            _ => return,
        };
        let ms = |ch: &Chain| mint(&ch.accts[self.aid(&s0.mint)].data).map(|m| m.supply).unwrap_or(0) as u128;
        let (m0, m1) = (ms(pre), ms(&self.chain));
        if s0 != s1 || s0.assets.iter().any(|x| x.0 == s0.mint) || m1 == 0 {
            return;
        }
        for (i, x) in s0.assets.iter().enumerate() {
            let a = self.aid(&x.1);
            let am = |ch: &Chain| tok(&ch.accts[a].data).map(|t| t.amount).unwrap_or(0) as u128;
            let (v0, v1) = (am(pre), am(&self.chain));
            if v1 * m0 < v0 * m1 {
                v.push(Viol {
                    props: c(22),
                    class: "dilution".into(),
                    detail: format!("asset {} per pool token fell from {}/{} to {}/{}", i, v0, m0, v1, m1),
                });
            }
        }
    }

    pub fn sweep(&mut self, ops: &[POpT], st: &mut Stats) -> Vec<Viol> {
        let saved = self.chain.clone();
        let base = self.chain.exec(&self.build_tx(ops), &Faults::default());
        self.chain = saved.clone();
        let mut v = vec![];
        if !base.ok {
            return v;
        }
        st.hit("fault sweeps");
        let mut fs = vec![];
        for i in 0..base.cpis.min(16) {
            for e in [0u32, 1, 17, 1_000_000, 1_000_001] {
                fs.push(Faults { cpi_fail: Some((i, e)), ..Faults::default() });
            }
        }
        for i in 0..base.syscalls.min(24) {
            fs.push(Faults { abort_at: Some(i), ..Faults::default() });
        }
        for f in fs {
            v.extend(self.tx(ops, &f, st));
            self.chain = saved.clone();
            if !v.is_empty() {
                break;
            }
        }
        v
    }

    pub fn exit(&mut self, st: &mut Stats) -> Vec<Viol> {
        let mut v = vec![];
        for p in 0..self.kits.len() {
            let s = match self.state(p) {
                Some(s) => s,
                None => continue,
            };
            if self.kits[p].cfg.admin && s.custom.last() == Some(&1) {
                continue;
            }
            for u in 0..self.users.len() {
                let ptok = self.kits[p].ptoks[u];
                let n = self.amount(ptok);
                let assets: Vec<Aid> = s
                    .assets
                    .iter()
                    .map(|x| match self.mints.iter().position(|m| self.k32(*m) == x.0) {
                        Some(m) => self.toks[u][m][0],
                        None => self.kits[p].ptoks[u],
                    })
                    .collect();
                let op = POp::Exec { p, act: Act::Redeem(n), ptok, assets, auth: self.users[u], refr: self.kits[p].refr };
                v.extend(self.tx(&[POpT { op, tamper: vec![] }], &Faults::default(), st));
                if !v.is_empty() {
                    return v;
                }
                st.hit("exit phases");
            }
        }
        v
    }
}

pub fn short(b: &Parsed) -> String {
    match b {
        Parsed::Tok(t) => format!("{} tokens (delegated {})", t.amount, t.delegated),
        Parsed::Mint(m) => format!("supply {}", m.supply),
        Parsed::Pool(PoolAcct::State(s)) => {
            format!("pool of {} assets, fee {}, custom {:?}", s.assets.len(), s.fee, s.custom)
        }
        Parsed::Raw(r) => format!("{:?}", &r[..r.len().min(24)]),
        x => format!("{:?}", x).chars().take(40).collect(),
    }
}

// ---- generation ----

pub struct PGen {
    admin: u32,
    tamper: u32,
    fault: u32,
    init: u32,
    sweep: u32,
}

pub fn magnitude(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.below(3),
        1 => r.below(20),
        2 => r.below(10_000),
        3 => 1 << r.below(40),
        4 => (1u64 << r.below(40)).wrapping_sub(1),
        _ => {
            let s = r.range(4, 40);
            r.below(1 << s)
        }
    }
}

impl PGen {
    pub fn user_assets(&self, w: &PWorld, p: usize, u: usize, r: &mut Rng) -> Vec<Aid> {
        let ms: Vec<Key> = match w.state(p) {
            Some(s) => s.assets.iter().map(|x| x.0).collect(),
            None => w.kits[p].cfg.assets.iter().map(|m| w.k32(w.mints[*m])).collect(),
        };
        ms.iter()
            .map(|k| match w.mints.iter().position(|m| w.k32(*m) == *k) {
                Some(m) => w.toks[u][m][(r.below(4) == 0) as usize],
                None => w.kits[p].ptoks[u],
            })
            .collect()
    }
    pub fn amount(&self, w: &PWorld, p: usize, ptok: Aid, r: &mut Rng) -> u64 {
        let (s, b) = (w.supply(p), w.amount(ptok));
        match r.below(14) {
            0 => 0,
            1 => 1,
            2 => s,
            3 => b,
            4 => b.wrapping_add(1),
            5 => s / r.range(1, 9),
            6 => b / r.range(1, 9),
            7 => r.range(1, 20_000),
            8 => u64::MAX - r.below(3),
            9 => 1 << r.below(64),
            10 => r.range(0, b),
            11 => r.range(0, s),
            _ => magnitude(r),
        }
    }
    pub fn op(&self, w: &PWorld, r: &mut Rng) -> POp {
        let p = r.below(w.kits.len() as u64) as usize;
        let k = &w.kits[p];
        let u = r.below(w.users.len() as u64) as usize;
        let live = w.state(p).is_some();
        if !live && r.below(3) > 0 || r.permille(self.init) {
            let nonce = if r.below(8) == 0 { k.nonce.wrapping_add(1) } else { k.nonce };
            let n = k.vaults.len() as u8;
            let n = if r.below(10) == 0 { n.wrapping_sub(1) } else { n };
            let fee = if r.below(6) == 0 { *r.pick(&[0, 149, 150, 999_999, 1_000_000, u32::MAX]) } else { k.cfg.fee };
            return POp::Init { p, nonce, n, fee };
        }
        if r.permille(self.admin) {
            let s = w.state(p);
            let now = s.as_ref().and_then(|s| s.admin).map(|k| w.aid(&k)).unwrap_or(k.admins[0]);
            let admin = match r.below(8) {
                0 => k.admins[1],
                1 => w.users[u],
                _ => now,
            };
            let vs = w.vaults(p);
            let vault = if r.below(4) == 0 || vs.is_empty() { *r.pick(&k.extra) } else { *r.pick(&vs) };
            let stuck = s.map_or(false, |s| s.custom.last() == Some(&1));
            let act = match r.below(if stuck { 12 } else { 9 }) {
                0 => AdminAct::Pause,
                1 => AdminAct::Unpause,
                2 => AdminAct::Approve {
                    vault,
                    delegate: w.users[u],
                    amount: if r.coin() { 0 } else { magnitude(r) },
                },
                3 | 4 => AdminAct::Add { vault: *r.pick(&k.extra) },
                5 => AdminAct::Remove { vault },
                6 => AdminAct::Fee(*r.pick(&[0, 149, 150, 151, 2500, 10_000, 500_000, 999_999, 1_000_000, u32::MAX])),
                7 => AdminAct::NewAdmin(if r.coin() { k.admins[1] } else { k.admins[0] }),
                8 => AdminAct::Approve { vault, delegate: w.users[u], amount: 0 },
                _ => AdminAct::Unpause,
            };
            return POp::Admin { p, admin, act };
        }
        match r.below(24) {
            0 => {
                let act = self.act(w, p, k.ptoks[u], r);
                let buf = if r.below(6) == 0 { *r.pick(&w.bufs) } else { w.bufs[0] };
                POp::Basket { p, act, buf }
            }
            1 => {
                // Pool tokens between users, gifts to vaults, anything the token program allows.
                let v = r.below(w.users.len() as u64) as usize;
                let (from, to) = match r.below(3) {
                    0 => (k.ptoks[u], k.ptoks[v]),
                    1 => {
                        let i = r.below(k.vaults.len() as u64) as usize;
                        let m = *k.cfg.assets.get(i).unwrap_or(&k.cfg.assets[0]);
                        (w.toks[u][m][0], k.vaults[i])
                    }
                    _ => (*r.pick(&w.vaults(p).into_iter().chain([k.lqd]).collect::<Vec<_>>()), w.toks[u][0][0]),
                };
                POp::Transfer { from, to, auth: w.users[u], amount: magnitude(r) }
            }
            2 => {
                let v = r.below(w.users.len() as u64) as usize;
                let m = r.below(w.mints.len() as u64) as usize;
                let acct = if r.coin() { k.ptoks[v] } else { w.toks[v][m][0] };
                POp::Approve { acct, delegate: w.users[u], owner: w.users[v], amount: magnitude(r) }
            }
            3 => POp::Burn { acct: k.ptoks[u], mint: k.mint, auth: w.users[u], amount: magnitude(r) },
            4 => {
                let mut data = match r.below(3) {
                    0 => req(2, &self.act(w, p, k.ptoks[u], r)),
                    1 => req(1, &self.act(w, p, k.ptoks[u], r)),
                    _ => {
                        let mut d = 0x31e6452361a17878u64.to_le_bytes().to_vec();
                        d.push(r.below(9) as u8);
                        d
                    }
                };
                if r.coin() {
                    let n = r.below(data.len() as u64) as usize;
                    data.truncate(n);
                    if n == 9 && data[0] == 0x78 {
                        data.pop();
                    }
                } else {
                    data[r.below(8) as usize] ^= 1 << r.below(8);
                }
                POp::Raw { p, data, admin: k.admins[0] }
            }
            _ => {
                let refr = match r.below(8) {
                    0 => k.init,
                    1 => k.lqd,
                    2 => k.ptoks[u],
                    _ => k.refr,
                };
                let (ptok, auth) = match r.below(14) {
                    0 => (k.lqd, w.lqd_owner),
                    1 => (k.init, w.init_owner),
                    2 => (k.refr, w.init_owner),
                    3 => (*r.pick(&k.ptoks), w.users[u]),
                    _ => (k.ptoks[u], w.users[u]),
                };
                let act = self.act(w, p, ptok, r);
                POp::Exec { p, act, ptok, assets: self.user_assets(w, p, u, r), auth, refr }
            }
        }
    }
    pub fn act(&self, w: &PWorld, p: usize, ptok: Aid, r: &mut Rng) -> Act {
        match r.below(16) {
            0 => Act::Swap((0..r.below(4)).map(|_| magnitude(r)).collect()),
            1..=8 => Act::Create(self.amount(w, p, ptok, r)),
            _ => Act::Redeem(self.amount(w, p, ptok, r)),
        }
    }
    pub fn tamper(&self, w: &PWorld, op: &POp, r: &mut Rng) -> Vec<Tamper> {
        let ms = w.build(&POpT { op: op.clone(), tamper: vec![] }).metas;
        let mut v = vec![];
        for _ in 0..1 + (r.below(5) == 0) as usize {
            let i = r.below(ms.len() as u64) as usize;
            let a = ms[i].aid;
            let like: Vec<Aid> = (0..w.roles.len()).filter(|x| *x != a && w.roles[*x] == w.roles[a]).collect();
            let pick_sub = |r: &mut Rng| -> Aid {
                if w.roles[a] == Role::Tok && r.below(3) > 0 {
                    let m = tok(&w.chain.accts[a].data).map(|t| t.mint);
                    let l2: Vec<Aid> = like
                        .iter()
                        .cloned()
                        .filter(|x| tok(&w.chain.accts[*x].data).map(|t| t.mint) == m)
                        .collect();
                    if !l2.is_empty() {
                        return *r.pick(&l2);
                    }
                }
                if like.is_empty() {
                    0
                } else {
                    *r.pick(&like)
                }
            };
            v.push(match r.below(10) {
                0 | 1 => match ms.iter().position(|m| m.signer) {
                    Some(s) => Tamper::Unsign(s),
                    None => Tamper::Sub(i, pick_sub(r)),
                },
                2 => Tamper::Readonly(i),
                3 => Tamper::Swap(i, r.below(ms.len() as u64) as usize),
                4 => Tamper::Drop(i),
                5 => Tamper::Append(r.below(w.roles.len() as u64) as usize),
                _ => Tamper::Sub(i, pick_sub(r)),
            });
        }
        v
    }
}

pub struct Pool;

impl Family for Pool {
    type Cfg = PCfg;
    type Step = PStep;
    type World = PWorld;
    type Gen = PGen;
    const NAME: &'static str = "pool";
    const REAL: &'static str = "serum-pool (request handling, baskets, fees, account checks), the admin-controlled pool through its entrypoint, the simple pool, spl-token program";
    const STUB: &'static str = "Solana runtime (accounts, privileges, ownership rules, rollback, cross-program calls), loader input format, return-buffer program, rent sysvar account";
    fn draw(prop: &str, seed: u64, r: &mut Rng) -> (PCfg, PGen, usize) {
        let admin_heavy = prop == "C23";
        let mints = r.range(2, 5) as usize;
        let mut pools = vec![];
        for i in 0..r.range(1, 3) {
            let mut ids: Vec<usize> = (0..mints).collect();
            r.shuffle(&mut ids);
            let n = r.range(1, (mints as u64).min(4)) as usize;
            let big = r.below(8) == 0;
            let amounts = (0..n)
                .map(|_| match r.below(8) {
                    0 => 0,
                    1 => r.below(4),
                    2 if big => u64::MAX >> r.below(4),
                    _ => magnitude(r),
                })
                .collect();
            let supply = match r.below(8) {
                0 => r.below(3),
                1 if big => u64::MAX >> r.below(4),
                _ => magnitude(r),
            };
            let init = i == 0 || r.below(if admin_heavy { 3 } else { 6 }) > 0;
            let defect = if !init { r.below(24) as u8 } else { 0 };
            pools.push(PoolCfg {
                admin: r.below(if admin_heavy { 4 } else { 2 }) > 0,
                assets: ids[..n].to_vec(),
                amounts,
                supply,
                fee: *r.pick(&[150, 151, 200, 2500, 2500, 10_000, 333_333, 999_999]),
                size: if r.below(6) == 0 { 260 + 64 * n } else { 1200 },
                init,
                defect,
            });
        }
        let rich = match r.below(6) {
            0 => 1000,
            1 => u64::MAX / 64,
            _ => 1 << 42,
        };
        let cfg = PCfg { seed, users: r.range(2, 3) as usize, mints, rich, pools };
        let g = PGen {
            admin: *r.pick(if admin_heavy { &[300, 500] } else { &[0, 30] }),
            tamper: *r.pick(if admin_heavy { &[0, 250, 500] } else { &[0, 100] }),
            fault: *r.pick(&[0, 60, 150]),
            init: *r.pick(if admin_heavy { &[20, 100] } else { &[2, 10] }),
            sweep: *r.pick(&[0, 30]),
        };
        let n = r.range(20, 80) as usize;
        (cfg, g, n)
    }
    fn boot(cfg: &PCfg) -> Result<PWorld, Viol> {
        let mut w = PWorld::new(cfg);
        for p in 0..w.kits.len() {
            if !w.kits[p].cfg.init {
                continue;
            }
            let (nonce, n, fee) = (w.kits[p].nonce, w.kits[p].vaults.len() as u8, w.kits[p].cfg.fee);
            let op = POpT { op: POp::Init { p, nonce, n, fee }, tamper: vec![] };
            let v = w.tx(&[op], &Faults::default(), &mut Stats::default());
            if let Some(mut x) = v.into_iter().next() {
                x.props |= c(22) | c(23);
                return Err(x);
            }
        }
        Ok(w)
    }
    fn next(g: &mut PGen, w: &PWorld, r: &mut Rng) -> PStep {
        let mut ixs = vec![];
        let n = if r.below(12) == 0 { r.range(2, 3) } else { 1 };
        for _ in 0..n {
            let op = g.op(w, r);
            let tamper = if r.permille(g.tamper) { g.tamper(w, &op, r) } else { vec![] };
            ixs.push(POpT { op, tamper });
        }
        if r.permille(g.sweep) {
            return PStep::Sweep(ixs);
        }
        let mut faults = Faults::default();
        if r.permille(g.fault) {
            if r.coin() {
                faults.cpi_fail = Some((r.below(8) as u32, *r.pick(&[0u32, 1, 4, 17, 1_000_000, 1_000_001])));
            } else {
                faults.abort_at = Some(r.below(8) as u32);
            }
        }
        PStep::Tx { ixs, faults }
    }
    fn tail(_g: &mut PGen, _w: &PWorld, _r: &mut Rng) -> Vec<PStep> {
        vec![PStep::Exit]
    }
    fn apply(w: &mut PWorld, s: &PStep, st: &mut Stats) -> Vec<Viol> {
        match s {
            PStep::Tx { ixs, faults } if !ixs.is_empty() => {
                w.chain.slot += 1;
                w.tx(ixs, faults, st)
            }
            PStep::Sweep(ixs) if !ixs.is_empty() => w.sweep(ixs, st),
            PStep::Exit => w.exit(st),
            _ => vec![],
        }
    }
    fn state_hash(w: &PWorld) -> u64 {
        crate::dexfam::chain_hash(&w.chain)
    }
    fn slots(w: &PWorld) -> u64 {
        w.chain.slot
    }
    fn simplify(s: &PStep) -> Vec<PStep> {
        let mut v = vec![];
        if let PStep::Tx { ixs, faults } = s {
            if ixs.len() > 1 {
                for i in 0..ixs.len() {
                    let mut x = ixs.clone();
                    x.remove(i);
                    v.push(PStep::Tx { ixs: x, faults: faults.clone() });
                }
            }
            if !faults.none() {
                v.push(PStep::Tx { ixs: ixs.clone(), faults: Faults::default() });
            }
            for i in 0..ixs.len() {
                for j in 0..ixs[i].tamper.len() {
                    let mut x = ixs.clone();
                    x[i].tamper.remove(j);
                    v.push(PStep::Tx { ixs: x, faults: faults.clone() });
                }
            }
        }
        v
    }
}
