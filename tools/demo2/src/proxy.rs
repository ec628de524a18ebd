//! The permissioned-market proxy as a simulation family.
//!
//! The proxy runs as real code in front of the real exchange and token program. Every relayed instruction is judged
//! by refinement: what the same user could have done by calling the token program and the exchange directly, with the
//! runtime granting the signature of the one derived account that user is entitled to, is run on a copy of the state
//! from before; verdict and every byte of the outcome have to agree.
use crate::chain::*;
use crate::driver::Family;
use crate::layout::*;
use crate::oracle::{c, op_name, Stats, Viol};
use crate::rng::{mix, Rng};
use crate::spec::*;
use crate::world::*;
use anchor_lang::prelude::ProgramError;
use serde::{Deserialize, Serialize};
use serum_dex::instruction::{CancelOrderInstructionV2, NewOrderInstructionV3};
use serum_dex_permissioned::{Context, Logger, MarketMiddleware, MarketProxy, OpenOrdersPda, ReferralFees};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program};
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct XCfg {
    pub base: Cfg,
    /// The referral check runs after the account derivation instead of before.
    pub late_ref: bool,
    /// An access-control middleware takes an extra account in front.
    pub gate: bool,
    /// A middleware lowers the limits of requests to this.
    pub clamp: Option<u16>,
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Head {
    /// One discriminator byte, not zero.
    Plain(u8),
    /// Zero and two bumps; deviations from the right ones.
    Bumps(u8, u8),
    /// The instruction cut off after that many bytes.
    Cut(usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct XOp {
    pub op: Op,
    /// None: sent straight to its own program, not through the proxy.
    pub head: Option<Head>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tamper: Vec<Tamper>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum XStep {
    Tx {
        ixs: Vec<XOp>,
        #[serde(default, skip_serializing_if = "Faults::none")]
        faults: Faults,
    },
    /// The transaction with a failure at each inner call and an abort at each system call; nothing is kept.
    Sweep(Vec<XOp>),
    Exit,
}

#[derive(Clone, Default)]
struct Rig {
    referral: Pubkey,
    gate: Option<Pubkey>,
    clamp: Option<u16>,
    late_ref: bool,
}

thread_local! {
    static RIG: RefCell<Rig> = RefCell::new(Rig::default());
    /// What the exchange saw of the payer's delegation when an order came in.
    static SEEN: RefCell<Vec<(Pubkey, Option<Key>, u64)>> = RefCell::new(vec![]);
    /// Callbacks: arguments and the number of cross-program calls made before.
    static CALLS: RefCell<Vec<(Vec<u8>, u32)>> = RefCell::new(vec![]);
}

pub fn callback<'a, 'info>(_id: &'a Pubkey, _accs: Vec<AccountInfo<'info>>, _ix: Vec<u8>, args: Vec<u8>) -> ProgramResult {
    CALLS.with(|x| x.borrow_mut().push((args, cpi_count())));
    Ok(())
}

/// Access control, limits and a callback: middlewares a venue would write.
struct Venue {
    gate: Option<Pubkey>,
    clamp: Option<u16>,
}

impl Venue {
    pub fn enter(&self, ctx: &mut Context) -> ProgramResult {
        if let Some(g) = self.gate {
            if ctx.accounts.is_empty() || *ctx.accounts[0].key != g {
                return Err(ProgramError::Custom(77));
            }
            ctx.accounts = ctx.accounts[1..].to_vec();
        }
        ctx.post_callbacks.push((callback, vec![], vec![7, 9]));
        Ok(())
    }
    pub fn lower(&self, l: &mut u16) {
        if let Some(x) = self.clamp {
            *l = (*l).min(x);
        }
    }
}

impl MarketMiddleware for Venue {
    fn init_open_orders(&self, ctx: &mut Context) -> ProgramResult {
        self.enter(ctx)
    }
    fn new_order_v3(&self, ctx: &mut Context, ix: &mut NewOrderInstructionV3) -> ProgramResult {
        self.lower(&mut ix.limit);
        self.enter(ctx)
    }
    fn cancel_order_v2(&self, ctx: &mut Context, _ix: &mut CancelOrderInstructionV2) -> ProgramResult {
        self.enter(ctx)
    }
    fn cancel_order_by_client_id_v2(&self, ctx: &mut Context, _id: &mut u64) -> ProgramResult {
        self.enter(ctx)
    }
    fn settle_funds(&self, ctx: &mut Context) -> ProgramResult {
        self.enter(ctx)
    }
    fn close_open_orders(&self, ctx: &mut Context) -> ProgramResult {
        self.enter(ctx)
    }
    fn consume_events(&self, ctx: &mut Context, limit: &mut u16) -> ProgramResult {
        self.lower(limit);
        self.enter(ctx)
    }
    fn consume_events_permissioned(&self, ctx: &mut Context, limit: &mut u16) -> ProgramResult {
        self.lower(limit);
        self.enter(ctx)
    }
    fn prune(&self, ctx: &mut Context, limit: &mut u16) -> ProgramResult {
        self.lower(limit);
        self.enter(ctx)
    }
}

pub fn proxy_handler(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let rig = RIG.with(|r| r.borrow().clone());
    let mut log = Logger;
    let mut venue = Venue { gate: rig.gate, clamp: rig.clamp };
    let mut refs = ReferralFees::new(rig.referral);
    let mut pda = OpenOrdersPda::new();
    let p = MarketProxy::new().middleware(&mut log).middleware(&mut venue);
    if rig.late_ref {
        p.middleware(&mut pda).middleware(&mut refs).run(id, infos, data)
    } else {
        p.middleware(&mut refs).middleware(&mut pda).run(id, infos, data)
    }
}

pub fn seen_dex(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data.len() > 5 && data[1] == 10 && infos.len() > 7 {
        if let Some(t) = infos[6].data.try_borrow().ok().and_then(|d| tok(&d)) {
            SEEN.with(|s| s.borrow_mut().push((*infos[6].key, t.delegate, t.delegated)));
        }
    }
    dex_handler(id, infos, data)
}

pub struct XWorld {
    pub cfg: XCfg,
    pub w: World,
    pub proxy: Pubkey,
    pub dex_acct: Aid,
    pub sys: Aid,
    pub gate: Aid,
    /// [market] bump of the account that admits users.
    pub init_bump: Vec<u8>,
    /// [market][user] -> (derived account, its bump).
    pub pda: Vec<Vec<(Aid, u8)>>,
    /// [market][user] -> an ordinary account of that user's own.
    pub own: Vec<Vec<Aid>>,
    pub locked: Vec<Aid>,
    /// Referral accounts of a stranger, by mint.
    pub strange: Vec<Aid>,
    pub pdisc: Vec<Aid>,
}

impl XWorld {
    pub fn new(cfg: &XCfg) -> XWorld {
        let mut w = World::new(&cfg.base);
        let seed = cfg.base.seed;
        let proxy = skey(seed, "proxy program");
        set_handlers(&[(w.dex, seen_dex as Handler), (proxy, proxy_handler as Handler)]);
        let dex = w.dex;
        let add = |w: &mut World, key: Pubkey, name: String, owner: Pubkey, data: Vec<u8>, lam: Option<u64>, role: Role| {
            let a = match lam {
                Some(l) => w.chain.add(key, owner, data, l),
                None => w.chain.add_exempt(key, owner, data),
            };
            w.roles.push(role);
            w.names.push(name);
            a
        };
        let mut rent = vec![];
        rent.extend(w.chain.rent.lamports_per_byte_year.to_le_bytes());
        rent.extend(w.chain.rent.exemption_threshold.to_le_bytes());
        rent.push(w.chain.rent.burn_percent);
        let ra = w.rent_acct;
        w.chain.accts[ra].data = rent;
        let dex_acct = add(&mut w, dex, "dex program".into(), system_program::ID, vec![], Some(1), Role::Other);
        let gate = add(&mut w, skey(seed, "gate"), "gate".into(), system_program::ID, vec![], Some(SOL), Role::Other);
        let (mut init_bump, mut pda, mut own, mut locked, mut pdisc) = (vec![], vec![], vec![], vec![], vec![]);
        locked.push(dex_acct);
        for m in 0..w.mk.len() {
            let mkey = w.chain.key(w.mk[m].market);
            let (ik, ib) = Pubkey::find_program_address(&[b"open-orders-init", dex.as_ref(), mkey.as_ref()], &proxy);
            let ia = add(&mut w, ik, format!("mk{}init", m), system_program::ID, vec![], Some(0), Role::Other);
            init_bump.push(ib);
            locked.push(ia);
            if w.mk[m].auths.is_empty() {
                // An open market: the proxy's account is just an extra.
                w.mk[m].vaultlike.push(ia);
            } else {
                w.mk[m].auths[0] = ia;
            }
            let mut ps = vec![];
            own.push(w.mk[m].oos.iter().map(|v| v[0]).collect::<Vec<_>>());
            for u in 0..w.users.len() {
                let uk = w.chain.key(w.users[u]);
                let (k, b) = Pubkey::find_program_address(
                    &[b"open-orders", dex.as_ref(), mkey.as_ref(), uk.as_ref()],
                    &proxy,
                );
                let a = add(&mut w, k, format!("mk{}pda{}", m, u), system_program::ID, vec![], Some(0), Role::Oo);
                w.mk[m].oos[u] = vec![a];
                locked.push(a);
                ps.push((a, b));
                if m == 0 {
                    let t = Tok {
                        mint: pkey(SRM).to_bytes(),
                        owner: k.to_bytes(),
                        amount: 1_000_000_000_000,
                        state: 1,
                        ..Tok::default()
                    };
                    let dk = skey(seed, &format!("pdisc{}", u));
                    let d = add(&mut w, dk, format!("pdisc{}", u), spl_token::ID, tok_bytes(&t), None, Role::Tok);
                    pdisc.push(d);
                }
            }
            pda.push(ps);
        }
        let mut strange = vec![];
        for i in 0..w.mints.len() {
            let t = Tok {
                mint: w.chain.key(w.mints[i]).to_bytes(),
                owner: skey(seed, "stranger").to_bytes(),
                state: 1,
                ..Tok::default()
            };
            let k = skey(seed, &format!("strange{}", i));
            strange.push(add(&mut w, k, format!("strange{}", i), spl_token::ID, tok_bytes(&t), None, Role::Tok));
        }
        let sys = w.fakes[0];
        let referral = skey(seed, "referrer");
        let gk = w.chain.key(gate);
        RIG.with(|r| {
            *r.borrow_mut() = Rig {
                referral,
                gate: if cfg.gate { Some(gk) } else { None },
                clamp: cfg.clamp,
                late_ref: cfg.late_ref,
            }
        });
        XWorld { cfg: cfg.clone(), w, proxy, dex_acct, sys, gate, init_bump, pda, own, locked, strange, pdisc }
    }

    pub fn init_auth(&self, m: usize) -> Aid {
        self.w.mk[m].auths.first().cloned().unwrap_or(*self.w.mk[m].vaultlike.last().unwrap())
    }
    pub fn permissioned(&self, m: usize) -> bool {
        self.w.market(m).map(|x| x.flags & F_PERM != 0).unwrap_or(false)
    }
    pub fn cannot_sign(&self, a: Aid) -> bool {
        self.locked.contains(&a) || self.w.cannot_sign(a)
    }

    pub fn build(&self, x: &XOp) -> Ix {
        let mut ix = self.w.build(&x.op, &[]);
        if let Some(h) = x.head {
            let r = |aid: Aid| Meta { aid, signer: false, writable: false };
            let mut metas = vec![r(self.dex_acct)];
            if self.cfg.gate {
                metas.push(r(self.gate));
            }
            if let Op::InitOo { m, oo, owner, .. } = &x.op {
                metas.push(r(self.dex_acct));
                metas.push(r(self.sys));
                metas.push(Meta { aid: *oo, signer: false, writable: true });
                metas.push(Meta { aid: *owner, signer: true, writable: true });
                metas.push(r(self.w.mk[*m].market));
                metas.push(r(self.w.rent_acct));
                metas.push(r(self.init_auth(*m)));
            } else {
                metas.extend(ix.metas);
            }
            ix.metas = metas;
            ix.program = self.proxy;
            ix.data = match h {
                Head::Plain(d) => [vec![d], ix.data].concat(),
                Head::Bumps(..) => {
                    let (b, i) = self.bumps(x);
                    [vec![0, b, i], ix.data].concat()
                }
                Head::Cut(n) => {
                    let mut d = [vec![1], ix.data].concat();
                    d.truncate(n);
                    d
                }
            };
        }
        for m in ix.metas.iter_mut() {
            if m.signer && self.cannot_sign(m.aid) {
                m.signer = false;
            }
        }
        tamper_metas(&mut ix.metas, &x.tamper, self.w.chain.accts.len(), &|a| self.cannot_sign(a));
        ix
    }

    pub fn bumps(&self, x: &XOp) -> (u8, u8) {
        let m = World::op_market(&x.op).unwrap_or(0);
        let b = match &x.op {
            Op::InitOo { oo, .. } => self.pda[m].iter().find(|p| p.0 == *oo).map(|p| p.1).unwrap_or(255),
            _ => 255,
        };
        match x.head {
            Some(Head::Bumps(d, e)) => (b.wrapping_sub(d), self.init_bump[m].wrapping_sub(e)),
            _ => (0, 0),
        }
    }

    /// What the proxied instruction stands for: direct calls with the derived account's signature.
    /// None: it has to fail. Some(empty): it must not change anything.
    pub fn meaning(&self, x: &XOp, metas: &[Meta]) -> Option<Vec<Ix>> {
        let ch = &self.w.chain;
        if metas.first()?.aid != self.dex_acct {
            return None;
        }
        let mut a: Vec<Meta> = metas[1..].to_vec();
        let relayed = matches!(
            x.op,
            Op::New { .. }
                | Op::Cancel { .. }
                | Op::CancelCid { .. }
                | Op::Settle { .. }
                | Op::CloseOo { .. }
                | Op::Consume { .. }
                | Op::ConsumePerm { .. }
                | Op::Prune { .. }
                | Op::InitOo { .. }
        );
        // Zero amounts are not an encoding of an order.
        let void = match &x.op {
            Op::New { o, .. } => o.price == 0 || o.qty == 0 || o.pc == 0,
            _ => false,
        };
        if !relayed || void || matches!(x.head, Some(Head::Cut(_))) {
            return Some(vec![]);
        }
        if self.cfg.gate {
            if a.is_empty() || a[0].aid != self.gate {
                return None;
            }
            a.remove(0);
        }
        let mut op = x.op.clone();
        if let Some(c) = self.cfg.clamp {
            match &mut op {
                Op::New { o, .. } => o.limit = o.limit.min(c),
                Op::Consume { limit, .. } | Op::ConsumePerm { limit, .. } | Op::Prune { limit, .. } => {
                    *limit = (*limit).min(c)
                }
                _ => {}
            }
        }
        let data = self.w.build(&op, &[]).data;
        let main = |a: Vec<Meta>| Ix { program: self.w.dex, metas: a, data: data.clone() };
        // The derived account of (market, user) signs in place of the user.
        let act_as = |a: &mut Vec<Meta>, market: usize, oo: usize, user: usize| -> Option<()> {
            if a.len() <= market.max(oo).max(user) || !a[user].signer {
                return None;
            }
            let (mk, uk) = (ch.key(a[market].aid), ch.key(a[user].aid));
            let seeds: [&[u8]; 4] = [b"open-orders", self.w.dex.as_ref(), mk.as_ref(), uk.as_ref()];
            let pda = Pubkey::find_program_address(&seeds, &self.proxy).0;
            if ch.key(a[oo].aid) != pda && !a[oo].signer {
                return None;
            }
            let mut o = a[oo].clone();
            o.signer = true;
            a[user] = o;
            Some(())
        };
        match &op {
            Op::New { o, .. } => {
                let user = a.get(7)?.clone();
                let (payer, oo) = (a[6].clone(), a[1].aid);
                let lot = market(&ch.accts[a[0].aid].data)?.coin_lot;
                act_as(&mut a, 0, 1, 7)?;
                let amount = if o.bid { o.pc } else { o.qty.checked_mul(lot)? };
                let mut d = vec![4];
                d.extend(amount.to_le_bytes());
                let r = Meta { aid: oo, signer: false, writable: false };
                Some(vec![
                    Ix { program: spl_token::ID, metas: vec![payer.clone(), r, user.clone()], data: d },
                    main(a),
                    Ix { program: spl_token::ID, metas: vec![payer, user], data: vec![5] },
                ])
            }
            Op::Cancel { .. } | Op::CancelCid { .. } => {
                act_as(&mut a, 0, 3, 4)?;
                Some(vec![main(a)])
            }
            Op::Settle { .. } => {
                let d = &ch.accts[a.get(9)?.aid].data;
                let want = RIG.with(|r| r.borrow().referral);
                if d.len() < 64 || d[32..64] != want.to_bytes() {
                    return None;
                }
                act_as(&mut a, 0, 1, 2)?;
                Some(vec![main(a)])
            }
            Op::CloseOo { .. } => {
                act_as(&mut a, 3, 0, 1)?;
                Some(vec![main(a)])
            }
            Op::Prune { .. } => {
                if a.len() < 6 {
                    return None;
                }
                a[5] = a[4].clone();
                Some(vec![main(a)])
            }
            Op::Consume { .. } | Op::ConsumePerm { .. } => Some(vec![main(a)]),
            Op::InitOo { .. } => {
                if a.len() < 7 || a[0].aid != self.dex_acct || a[1].aid != self.sys || a[5].aid != self.w.rent_acct {
                    return None;
                }
                let (user, oo) = (a[3].clone(), a[2].clone());
                if !user.signer {
                    return None;
                }
                let (mk, uk) = (ch.key(a[4].aid), ch.key(user.aid));
                let (bump, ib) = self.bumps(x);
                let seeds: [&[u8]; 4] = [b"open-orders", self.w.dex.as_ref(), mk.as_ref(), uk.as_ref()];
                if Pubkey::find_program_address(&seeds, &self.proxy) != (ch.key(oo.aid), bump) {
                    return None;
                }
                let seeds: [&[u8]; 4] = [b"open-orders-init", self.w.dex.as_ref(), mk.as_ref(), &[ib]];
                if Pubkey::create_program_address(&seeds, &self.proxy).ok() != Some(ch.key(a[6].aid)) {
                    return None;
                }
                let mut v = vec![];
                let mut so = oo.clone();
                so.signer = true;
                let need = ch.rent.minimum_balance(OO_LEN).max(1).saturating_sub(ch.accts[oo.aid].lamports);
                if need > 0 {
                    let mut d = 2u32.to_le_bytes().to_vec();
                    d.extend(need.to_le_bytes());
                    v.push(Ix { program: system_program::ID, metas: vec![user, oo], data: d });
                }
                let mut d = 8u32.to_le_bytes().to_vec();
                d.extend((OO_LEN as u64).to_le_bytes());
                v.push(Ix { program: system_program::ID, metas: vec![so.clone()], data: d });
                let mut d = 1u32.to_le_bytes().to_vec();
                d.extend(self.w.dex.to_bytes());
                v.push(Ix { program: system_program::ID, metas: vec![so.clone()], data: d });
                let mut b = a[2..].to_vec();
                b[1] = so;
                b[4].signer = true;
                v.push(main(b));
                Some(v)
            }
            _ => None,
        }
    }

    /// Whether the exchange must refuse this when it does not come through the proxy.
    pub fn forbidden(&self, x: &XOp) -> bool {
        if x.head.is_some() {
            return false;
        }
        match &x.op {
            Op::InitOo { m, .. } => self.permissioned(*m),
            Op::New { oo, .. }
            | Op::Replace { oo, .. }
            | Op::Cancel { oo, .. }
            | Op::CancelCid { oo, .. }
            | Op::CancelCids { oo, .. }
            | Op::Settle { oo, .. }
            | Op::CloseOo { oo, .. } => x.tamper.is_empty() && self.locked.contains(oo),
            _ => false,
        }
    }

    pub fn ixs(&self, ops: &[XOp]) -> Vec<Ix> {
        let mut v: Vec<Ix> = ops.iter().map(|o| self.build(o)).collect();
        merge_privileges(&mut v);
        v
    }

    pub fn tx(&mut self, ops: &[XOp], faults: &Faults, keep: bool, st: &mut Stats) -> (bool, Vec<Viol>) {
        let ixs = self.ixs(ops);
        let pre = self.w.chain.clone();
        SEEN.with(|s| s.borrow_mut().clear());
        CALLS.with(|s| s.borrow_mut().clear());
        let r = self.w.chain.exec(&ixs, faults);
        let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
        let calls = CALLS.with(|s| std::mem::take(&mut *s.borrow_mut()));
        let post = self.w.chain.clone();
        let mut v: Vec<Viol> = vec![];
        let bad = |class: String, detail: String| Viol { props: c(24), class, detail };
        st.hit("tx");
        for o in ops {
            let n = op_name(&o.op).bytes().fold(7u64, |h, b| h.wrapping_mul(31) + b as u64);
            st.log(&[n, o.head.is_some() as u64, o.tamper.len() as u64]);
        }
        st.log(&[r.ok as u64, r.cpis as u64, r.syscalls as u64]);
        if r.fired.cpi_fail {
            st.hit("fault: inner call failed");
        }
        if r.fired.abort {
            st.hit("fault: aborted in a system call");
        }
        if r.fired.rent_err {
            st.hit("fault: rent sysvar unavailable");
        }
        if ops.iter().any(|o| !o.tamper.is_empty()) {
            st.hit(if r.ok { "byzantine tx (harmless, accepted)" } else { "byzantine tx (rejected)" });
        }
        let label = |i: usize| {
            format!("{}{}", if ops[i].head.is_some() { "proxied " } else { "direct " }, op_name(&ops[i].op))
        };
        let names = || (0..ops.len()).map(|i| label(i)).collect::<Vec<_>>().join(" + ");
        if r.fired.any() {
            if r.ok {
                v.push(bad(
                    "fault swallowed".into(),
                    format!("{} committed although an inner call failed ({:?})", names(), r.fired),
                ));
            }
            if !keep {
                self.w.chain = pre;
            }
            return (r.ok, v);
        }
        // The reference: the direct calls, one after the other, on the state from before.
        self.w.chain = pre.clone();
        let mut ok = true;
        let mut at = 0;
        let mut relayed: Vec<usize> = vec![];
        for (i, o) in ops.iter().enumerate() {
            at = i;
            if o.head.is_none() {
                let ix = ixs[i].clone();
                ok = self.w.chain.exec_open(&[ix], &Faults::default()).ok;
            } else {
                match self.meaning(o, &ixs[i].metas) {
                    None => ok = false,
                    Some(d) => {
                        let noop = d.is_empty();
                        if !noop {
                            relayed.push(i);
                        }
                        // Nothing to relay: allowed to fail, never to have an effect.
                        if noop && !r.ok && r.failed_ix == i {
                            ok = false;
                        } else if !noop {
                            ok = self.w.chain.exec_open(&d, &Faults::default()).ok;
                        }
                    }
                }
            }
            if !ok {
                break;
            }
        }
        self.w.chain.close();
        let relays = relayed.len() as u64;
        let want = std::mem::replace(&mut self.w.chain, post);
        if ok != r.ok {
            let l = label(if r.ok { at } else { r.failed_ix.min(ops.len() - 1) });
            v.push(bad(
                format!("{} {}", if r.ok { "accepted" } else { "rejected" }, l),
                if r.ok {
                    format!("{} committed, but the signing user has no right to it on the exchange", names())
                } else {
                    format!("{} failed ({}), but the exchange itself accepts it from the derived account", names(), r.err)
                },
            ));
        }
        if r.ok && ok {
            for a in 0..want.accts.len() {
                if want.accts[a] != self.w.chain.accts[a] {
                    v.push(bad(
                        format!("effect of {}", label(ops.len() - 1)),
                        format!(
                            "after {} account {} differs from what the direct calls leave (lamports {} instead of {})",
                            names(),
                            self.w.names[a],
                            self.w.chain.accts[a].lamports,
                            want.accts[a].lamports
                        ),
                    ));
                    break;
                }
            }
        }
        if r.ok {
            st.hit("tx committed");
            for o in ops {
                st.hit(if o.head.is_some() { pname(&o.op) } else { "ok: direct instruction" });
            }
            st.states.insert(mix(&[st.h & 0xfff, relays, r.cpis as u64]));
            for (i, o) in ops.iter().enumerate() {
                if self.forbidden(o) {
                    v.push(bad(
                        format!("accepted {}", label(i)),
                        format!("{} was accepted past the proxy", label(i)),
                    ));
                }
                if relayed.contains(&i) && matches!(o.op, Op::New { .. }) && ops.iter().all(|o| o.head.is_some()) {
                    let at = 7 + self.cfg.gate as usize;
                    if let Some(m) = ixs[i].metas.get(at) {
                        if let Some(t) = tok(&self.w.chain.accts[m.aid].data) {
                            if t.delegate.is_some() {
                                v.push(bad(
                                    "approval left behind".into(),
                                    format!("{}: {} still has a delegate over {}", label(i), self.w.names[m.aid], t.delegated),
                                ));
                            }
                        }
                    }
                }
            }
            // One order at a time: the approval the exchange saw is for its account and no more than the order needs.
            if let [XOp { op: Op::New { o, m, .. }, head: Some(_), .. }] = ops {
                let lot = self.w.market(*m).map(|x| x.coin_lot).unwrap_or(0);
                let max = if o.bid { o.pc as u128 } else { o.qty as u128 * lot as u128 };
                for (k, _, n) in &seen {
                    if *n as u128 > max {
                        v.push(bad(
                            "approval too large".into(),
                            format!("{}: {} approved on {:?}, the order needs at most {}", label(0), n, k, max),
                        ));
                    }
                }
                if ops[0].tamper.is_empty() && !seen.is_empty() {
                    st.hit("reach: approval observed");
                }
            }
            if calls.len() as u64 != relays || calls.iter().any(|x| x.0 != [7, 9]) {
                v.push(bad(
                    "callbacks".into(),
                    format!("{}: {} callbacks ran for {} relayed requests", names(), calls.len(), relays),
                ));
            }
            if let ([_], Some(x)) = (ops, calls.last()) {
                if x.1 != r.cpis {
                    v.push(bad("callback order".into(), format!("{}: the callback ran before the last call", names())));
                }
            }
            if self.w.chain.accts.iter().any(|a| a.owner == self.proxy) {
                v.push(bad("effect".into(), format!("{}: an account was given to the proxy program", names())));
            }
        } else {
            st.hit(if ops.iter().any(|o| self.forbidden(o)) { "refused: past the proxy" } else { "refused: any" });
        }
        if !keep {
            self.w.chain = pre;
        } else if r.ok {
            self.learn(ops);
        }
        (r.ok, v)
    }

    /// Remembers the ids of orders that rest under a tag.
    pub fn learn(&mut self, ops: &[XOp]) {
        for x in ops {
            if let Op::New { oo, o, .. } = &x.op {
                if let Some(s) = self.w.live_oo(*oo).and_then(|q| q.slots.iter().find(|s| s.cid == o.cid).cloned()) {
                    self.w.track.oids.insert(o.tag, s.oid);
                }
            }
        }
    }

    pub fn sweep(&mut self, ops: &[XOp], st: &mut Stats) -> Vec<Viol> {
        st.hit("fault sweeps");
        let keep = self.w.chain.clone();
        let ixs = self.ixs(ops);
        let r = self.w.chain.exec(&ixs, &Faults::default());
        self.w.chain = keep.clone();
        if !r.ok {
            return vec![];
        }
        for n in 0..r.cpis {
            let f = Faults { cpi_fail: Some((n, 1)), ..Faults::default() };
            let (_, v) = self.tx(ops, &f, false, st);
            if !v.is_empty() {
                return v;
            }
            self.w.chain = keep.clone();
        }
        for n in 0..r.syscalls.min(60) {
            let f = Faults { abort_at: Some(n), ..Faults::default() };
            let (_, v) = self.tx(ops, &f, false, st);
            if !v.is_empty() {
                return v;
            }
            self.w.chain = keep.clone();
        }
        vec![]
    }

    pub fn via(&self, op: Op) -> XOp {
        XOp { op, head: Some(Head::Plain(1)), tamper: vec![] }
    }

    pub fn drain(&mut self, m: usize, st: &mut Stats, v: &mut Vec<Viol>) {
        while v.is_empty() {
            let n = self.w.evq(m).count;
            if n == 0 {
                return;
            }
            let op = self.w.consume_op(m, self.w.all_oos(m), 64);
            let op = self.via(op);
            let (ok, x) = self.tx(&[op], &Faults::default(), true, st);
            v.extend(x);
            if (!ok || self.w.evq(m).count >= n) && self.cfg.clamp != Some(0) {
                v.push(Viol {
                    props: c(24),
                    class: "exit consume".into(),
                    detail: format!("market {}: consuming through the proxy made no progress", m),
                });
            }
        }
    }

    pub fn must(&mut self, op: Op, what: &str, st: &mut Stats, v: &mut Vec<Viol>) {
        let op = self.via(op);
        let (ok, x) = self.tx(&[op], &Faults::default(), true, st);
        v.extend(x);
        if !ok {
            v.push(Viol {
                props: c(24),
                class: format!("exit {}", what),
                detail: format!("a user cannot {} through the proxy", what),
            });
        }
    }

    /// Every user leaves through the proxy, taking everything along.
    pub fn exit(&mut self, st: &mut Stats) -> Vec<Viol> {
        st.hit("exit phases");
        let saved = (self.w.chain.clone(), self.w.track.clone());
        let mut v = vec![];
        self.w.thaw_all(&mut Stats::default(), &mut vec![]);
        for m in 0..self.w.mk.len() {
            self.drain(m, st, &mut v);
            for u in 0..self.w.users.len() {
                let (oo, owner) = (self.pda[m][u].0, self.w.users[u]);
                let o = match self.w.live_oo(oo) {
                    Some(o) if v.is_empty() => o,
                    _ => continue,
                };
                let k = self.w.mk[m].clone();
                for s in &o.slots {
                    let id = OrdRef::Raw(s.oid.to_string());
                    self.must(Op::Cancel { m, oo, owner, bid: s.bid, id }, "cancel", st, &mut v);
                }
                self.drain(m, st, &mut v);
                let have = self.w.live_oo(oo).unwrap_or_default();
                let (cw, pw) = (self.w.toks[u][k.cfg.coin][0], self.w.toks[u][k.cfg.pc][0]);
                let (c0, p0) = (self.w.amount(cw), self.w.amount(pw));
                let refr = Some(self.w.refs[k.cfg.pc]);
                self.must(Op::Settle { m, oo, owner, cw, pw, refr }, "settle", st, &mut v);
                if v.is_empty()
                    && (self.w.amount(cw) != c0 + have.coin_total || self.w.amount(pw) != p0 + have.pc_total)
                {
                    v.push(Viol {
                        props: c(24),
                        class: "exit settle".into(),
                        detail: format!("user {} did not get everything back on market {}", u, m),
                    });
                }
                self.must(Op::CloseOo { m, oo, owner, dest: owner }, "close", st, &mut v);
            }
            if !v.is_empty() {
                break;
            }
        }
        self.w.chain = saved.0;
        self.w.track = saved.1;
        v
    }
}

pub fn pname(op: &Op) -> &'static str {
    match op {
        Op::New { .. } => "ok: proxied new_order",
        Op::Cancel { .. } => "ok: proxied cancel",
        Op::CancelCid { .. } => "ok: proxied cancel_by_client_id",
        Op::Settle { .. } => "ok: proxied settle",
        Op::CloseOo { .. } => "ok: proxied close_open_orders",
        Op::InitOo { .. } => "ok: proxied init_open_orders",
        Op::Prune { .. } => "ok: proxied prune",
        Op::Consume { .. } => "ok: proxied consume_events",
        Op::ConsumePerm { .. } => "ok: proxied consume_events_permissioned",
        _ => "ok: proxied instruction without effect",
    }
}

pub struct XGen {
    tamper: u32,
    fault: u32,
    sweep: u32,
    attack: u32,
    tag: u32,
    self_bias: u32,
}

impl XGen {
    pub fn op(&mut self, x: &XWorld, r: &mut Rng) -> XOp {
        let w = &x.w;
        let m = r.below(w.mk.len() as u64) as usize;
        let k = &w.mk[m];
        let u = r.below(w.users.len() as u64) as usize;
        let owner = w.users[u];
        let oo = x.pda[m][u].0;
        let head = if r.below(12) == 0 { Head::Bumps(0, 0) } else { Head::Plain(r.range(1, 255) as u8) };
        let via = |op: Op| XOp { op, head: Some(head), tamper: vec![] };
        let direct = |op: Op| XOp { op, head: None, tamper: vec![] };
        let live = w.live_oo(oo);
        if r.permille(self.attack) {
            let mine = if r.coin() { x.own[m][u] } else { oo };
            let auth = Some(x.init_auth(m));
            return match r.below(14) {
                0 | 1 => direct(Op::InitOo { m, oo: mine, owner, auth: if r.coin() { auth } else { None } }),
                2 => {
                    let v = r.below(w.users.len() as u64) as usize;
                    let auth = if r.coin() { Some(w.users[v]) } else { k.auths.get(1).cloned() };
                    direct(Op::InitOo { m, oo: mine, owner, auth })
                }
                3 => direct(Op::Settle {
                    m,
                    oo,
                    owner: if r.coin() { owner } else { oo },
                    cw: w.toks[u][k.cfg.coin][0],
                    pw: w.toks[u][k.cfg.pc][0],
                    refr: None,
                }),
                4 => direct(Op::CloseOo { m, oo, owner: if r.coin() { owner } else { oo }, dest: owner }),
                5 => {
                    let o = self.order(x, m, r);
                    let payer = w.toks[u][if o.bid { k.cfg.pc } else { k.cfg.coin }][0];
                    direct(Op::New { m, oo, owner: if r.coin() { owner } else { oo }, payer, disc: None, o })
                }
                6 => direct(Op::SysTransfer {
                    from: owner,
                    to: oo,
                    lamports: *r.pick(&[1, 1000, 890_880, 23_357_760, 30_000_000]),
                }),
                7 => direct(Op::Approve {
                    acct: w.toks[u][k.cfg.pc][0],
                    delegate: if r.coin() { oo } else { w.users[(u + 1) % w.users.len()] },
                    owner,
                    amount: r.below(1000),
                }),
                8 => {
                    let i = if r.coin() { k.cfg.coin } else { k.cfg.pc };
                    direct(Op::Freeze { acct: w.toks[u][i][0], mint: w.mints[i], auth: w.freeze, thaw: r.below(3) > 0 })
                }
                9 => {
                    let op = w.consume_op(m, w.all_oos(m), r.range(1, 20) as u16);
                    direct(op)
                }
                // Requests the proxy does not relay.
                10 => {
                    let (cw, pw) = (w.toks[u][k.cfg.coin][0], w.toks[u][k.cfg.pc][0]);
                    let o = self.order(x, m, r);
                    let op = Op::Take {
                        m,
                        signer: owner,
                        cw,
                        pw,
                        disc: None,
                        bid: o.bid,
                        price: o.price,
                        qty: o.qty,
                        pc: o.pc,
                        min_coin: 0,
                        min_pc: 0,
                        limit: 10,
                    };
                    if r.coin() {
                        direct(op)
                    } else {
                        via(op)
                    }
                }
                11 => via(match r.below(3) {
                    0 => Op::CancelCids { m, oo, owner, cids: vec![1, 2, 3] },
                    1 => Op::Sweep { m, auth: w.sweeper, to: w.toks[u][k.cfg.pc][0] },
                    _ => Op::Disable { m, auth: w.disabler },
                }),
                12 => {
                    let o = self.order(x, m, r);
                    let payer = w.toks[u][if o.bid { k.cfg.pc } else { k.cfg.coin }][0];
                    let mut o = o;
                    o.ts = None;
                    via(Op::Replace { m, oo, owner, payer, disc: None, os: vec![o], single: true })
                }
                _ => {
                    let op = self.order(x, m, r);
                    let payer = w.toks[u][if op.bid { k.cfg.pc } else { k.cfg.coin }][0];
                    XOp {
                        op: Op::New { m, oo, owner, payer, disc: None, o: op },
                        head: Some(Head::Cut(r.below(20) as usize)),
                        tamper: vec![],
                    }
                }
            };
        }
        if live.is_none() && r.below(4) > 0 || r.below(60) == 0 {
            let head = match r.below(8) {
                0 => Head::Bumps(r.below(3) as u8, r.below(3) as u8),
                1 => Head::Plain(1),
                _ => Head::Bumps(0, 0),
            };
            let oo = if r.below(12) == 0 { x.pda[m][(u + 1) % w.users.len()].0 } else { oo };
            return XOp { op: Op::InitOo { m, oo, owner, auth: Some(x.init_auth(m)) }, head: Some(head), tamper: vec![] };
        }
        match r.below(40) {
            0..=15 => {
                let o = self.order(x, m, r);
                let side = if o.bid { k.cfg.pc } else { k.cfg.coin };
                let payer = w.toks[u][side][(r.below(5) == 0) as usize];
                let disc = match r.below(12) {
                    0 => Some(x.pdisc[u]),
                    1 => w.discs[u],
                    _ => None,
                };
                via(Op::New { m, oo, owner, payer, disc, o })
            }
            16..=20 => match live.and_then(|l| if l.slots.is_empty() { None } else { Some(r.pick(&l.slots).clone()) }) {
                Some(s) => {
                    let bid = if r.below(12) == 0 { !s.bid } else { s.bid };
                    via(Op::Cancel { m, oo, owner, bid, id: OrdRef::Raw(s.oid.to_string()) })
                }
                None => via(Op::Cancel { m, oo, owner, bid: r.coin(), id: OrdRef::Tag(r.below(20) as u32) }),
            },
            21..=24 => {
                let cid = live
                    .and_then(|l| if l.slots.is_empty() { None } else { Some(r.pick(&l.slots).cid) })
                    .unwrap_or(r.below(6));
                via(Op::CancelCid { m, oo, owner, cid })
            }
            25..=30 => {
                let mut oos = w.all_oos(m);
                if r.below(5) == 0 && oos.len() > 1 {
                    let i = r.below(oos.len() as u64) as usize;
                    oos.remove(i);
                }
                via(w.consume_op(m, oos, *r.pick(&[1, 2, 5, 20, 64])))
            }
            31..=35 => {
                let refr = match r.below(10) {
                    0 => None,
                    1 => Some(x.strange[k.cfg.pc]),
                    2 => Some(w.refs[k.cfg.coin]),
                    3 => Some(w.toks[u][k.cfg.pc][1]),
                    _ => Some(w.refs[k.cfg.pc]),
                };
                let cw = w.toks[u][k.cfg.coin][r.below(2) as usize];
                via(Op::Settle { m, oo, owner, cw, pw: w.toks[u][k.cfg.pc][0], refr })
            }
            36 | 37 => {
                let auth = k.auths.get(1).cloned().unwrap_or(owner);
                let op = Op::Prune { m, auth, oo, owner: if r.coin() { owner } else { oo }, limit: r.range(1, 20) as u16 };
                if r.below(5) == 0 {
                    direct(op)
                } else {
                    via(op)
                }
            }
            38 => via(Op::CloseOo { m, oo, owner, dest: owner }),
            _ => {
                let auth = k.auths.get(2).cloned().unwrap_or(owner);
                via(Op::ConsumePerm { m, oos: w.all_oos(m), auth, limit: 10 })
            }
        }
    }
    pub fn order(&mut self, x: &XWorld, m: usize, r: &mut Rng) -> Ord_ {
        let k = &x.w.mk[m].cfg;
        self.tag += 1;
        let price = r.range(95, 105);
        let qty = match r.below(12) {
            0 => 0,
            1 => u64::MAX / k.coin_lot.max(1) + r.below(2),
            2 => r.next(),
            _ => r.range(1, 30),
        };
        let base = (qty as u128 * price as u128 * k.pc_lot as u128).min(u64::MAX as u128) as u64;
        let pc = match r.below(10) {
            0 => r.range(1, base.max(1)),
            1 => base,
            2 => r.next() >> r.below(64),
            3 => 0,
            _ => base.saturating_add(base / 100 + 1),
        };
        Ord_ {
            bid: r.coin(),
            price,
            qty,
            pc,
            stb: if r.permille(self.self_bias) { r.below(3) as u8 } else { 0 },
            ty: *r.pick(&[0, 0, 0, 0, 1, 2]),
            cid: r.below(6),
            limit: *r.pick(&[0, 1, 5, 50, 65535]),
            ts: match r.below(4) {
                0 => Some(x.w.chain.clock + r.range(0, 10) as i64),
                1 => Some(i64::MAX),
                2 => Some(x.w.chain.clock - 1),
                _ => None,
            },
            tag: self.tag,
        }
    }
    pub fn tamper(&self, x: &XWorld, op: &XOp, r: &mut Rng) -> Vec<Tamper> {
        let ms = x.build(op).metas;
        let w = &x.w;
        let mut v = vec![];
        for _ in 0..1 + (r.below(5) == 0) as usize {
            let i = r.below(ms.len() as u64) as usize;
            let a = ms[i].aid;
            let mut like: Vec<Aid> = (0..w.roles.len()).filter(|y| *y != a && w.roles[*y] == w.roles[a]).collect();
            if w.users.contains(&a) {
                like = w.users.iter().cloned().filter(|y| *y != a).collect();
            }
            if matches!(w.roles[a], Role::Market(_) | Role::Bids(_) | Role::Asks(_) | Role::EvQ(_)) {
                like = w.mk.iter().map(|k| k.market).chain(w.mk.iter().map(|k| k.evq)).filter(|y| *y != a).collect();
            }
            v.push(match r.below(10) {
                0 | 1 => match ms.iter().position(|m| m.signer) {
                    Some(s) => Tamper::Unsign(s),
                    None => Tamper::Unsign(i),
                },
                2 => Tamper::Readonly(i),
                3 => Tamper::Swap(i, r.below(ms.len() as u64) as usize),
                4 => Tamper::Drop(i),
                5 => Tamper::Append(r.below(w.roles.len() as u64) as usize),
                _ if like.is_empty() => Tamper::Dup(i),
                _ => Tamper::Sub(i, *r.pick(&like)),
            });
        }
        v
    }
}

pub struct Proxy;

impl Family for Proxy {
    type Cfg = XCfg;
    type Step = XStep;
    type World = XWorld;
    type Gen = XGen;
    const NAME: &'static str = "proxy";
    const REAL: &'static str = "serum-dex-permissioned (MarketProxy, OpenOrdersPda, ReferralFees, Logger), serum_dex program behind it, spl-token program";
    const STUB: &'static str = "Solana runtime (accounts, privileges, derived addresses, rollback, cross-program calls), system program, clock and rent sysvars, a venue's own middleware (gate, limits, callback)";
    fn draw(_prop: &str, seed: u64, r: &mut Rng) -> (XCfg, XGen, usize) {
        let users = r.range(2, 3) as usize;
        let nm = r.range(1, 2) as usize;
        let mut markets = vec![];
        for i in 0..nm {
            let cap = *r.pick(&[128u64, 130, 150]);
            markets.push(MCfg {
                coin: i % 2,
                pc: 2,
                coin_lot: *r.pick(&[1, 10, 100, 1000]),
                pc_lot: *r.pick(&[1, 10, 7]),
                auths: if i > 0 && r.below(3) == 0 { 0 } else { r.range(1, 3) as usize },
                cap,
                nodes: 201,
                head: r.below(cap),
                rounds: 0,
                next: *r.pick(&[0, 250, 1 << 40]),
                stable: None,
                init: true,
                defect: 0,
            });
        }
        let rich = (0..3).map(|_| *r.pick(&[1_000_000_000u64, 1_000_000_000, 10_000])).collect();
        let discounts = (0..users).map(|_| if r.coin() { (1, 1_000_000_000) } else { (0, 0) }).collect();
        let base = Cfg { seed, users, mints: 3, oos: 1, rich, discounts, markets };
        let cfg = XCfg {
            base,
            late_ref: r.coin(),
            gate: r.below(3) == 0,
            clamp: if r.below(4) == 0 { Some(r.range(1, 5) as u16) } else { None },
        };
        let g = XGen {
            tamper: *r.pick(&[0, 150, 400]),
            fault: *r.pick(&[0, 50, 120]),
            sweep: *r.pick(&[0, 20]),
            attack: *r.pick(&[50, 200]),
            tag: 0,
            self_bias: *r.pick(&[0, 500]),
        };
        (cfg, g, r.range(30, 90) as usize)
    }
    fn boot(cfg: &XCfg) -> Result<XWorld, Viol> {
        let mut x = XWorld::new(cfg);
        match x.w.boot() {
            Ok(()) => Ok(x),
            Err(e) => Err(Viol { props: c(20), class: "rejected init_market".into(), detail: e }),
        }
    }
    fn next(g: &mut XGen, x: &XWorld, r: &mut Rng) -> XStep {
        let mut ixs = vec![];
        let n = if r.below(10) == 0 { r.range(2, 3) } else { 1 };
        for _ in 0..n {
            let mut op = g.op(x, r);
            if op.head.is_some() && r.permille(g.tamper) {
                op.tamper = g.tamper(x, &op, r);
            }
            ixs.push(op);
        }
        if r.permille(g.sweep) {
            return XStep::Sweep(ixs);
        }
        let mut faults = Faults::default();
        if r.permille(g.fault) {
            match r.below(5) {
                0 | 1 => faults.cpi_fail = Some((r.below(6) as u32, *r.pick(&[0u32, 1, 4, 17, 1_000_000, 1_000_001]))),
                2 => faults.rent_err = true,
                _ => faults.abort_at = Some(r.below(12) as u32),
            }
        }
        XStep::Tx { ixs, faults }
    }
    fn tail(_g: &mut XGen, _x: &XWorld, _r: &mut Rng) -> Vec<XStep> {
        vec![XStep::Exit]
    }
    fn apply(x: &mut XWorld, s: &XStep, st: &mut Stats) -> Vec<Viol> {
        match s {
            XStep::Tx { ixs, faults } if !ixs.is_empty() => {
                x.w.chain.slot += 1;
                x.w.chain.clock += 1;
                x.tx(ixs, faults, true, st).1
            }
            XStep::Sweep(ixs) if !ixs.is_empty() => x.sweep(ixs, st),
            XStep::Exit => x.exit(st),
            _ => vec![],
        }
    }
    fn state_hash(x: &XWorld) -> u64 {
        crate::dexfam::chain_hash(&x.w.chain)
    }
    fn slots(x: &XWorld) -> u64 {
        x.w.chain.slot
    }
    fn simplify(s: &XStep) -> Vec<XStep> {
        let mut v = vec![];
        if let XStep::Tx { ixs, faults } = s {
            if ixs.len() > 1 {
                for i in 0..ixs.len() {
                    let mut y = ixs.clone();
                    y.remove(i);
                    v.push(XStep::Tx { ixs: y, faults: faults.clone() });
                }
            }
            if !faults.none() {
                v.push(XStep::Tx { ixs: ixs.clone(), faults: Faults::default() });
            }
            for i in 0..ixs.len() {
                for j in 0..ixs[i].tamper.len() {
                    let mut y = ixs.clone();
                    y[i].tamper.remove(j);
                    v.push(XStep::Tx { ixs: y, faults: faults.clone() });
                }
            }
        }
        v
    }
}
