//! Executable reference model of the exchange, one instruction at a time, over parsed account contents.
//!
//! It is written from the documented behaviour (price-time priority, fee schedule, ledger rules, account
//! requirements), not from the program's data structures: a book is a sorted list, a queue a vector.
use crate::chain::{Aid, Chain, Meta};
use crate::layout::*;
use serde::{Deserialize, Serialize};
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ord_ {
    pub bid: bool,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    /// Self-trade rule: 0 decrement take, 1 cancel provide, 2 abort.
    pub stb: u8,
    /// 0 limit, 1 immediate or cancel, 2 post only.
    pub ty: u8,
    pub cid: u64,
    pub limit: u16,
    /// None: the short encoding without a timestamp.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ts: Option<i64>,
    pub tag: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum OrdRef {
    Tag(u32),
    Raw(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    New { m: usize, oo: Aid, owner: Aid, payer: Aid, disc: Option<Aid>, o: Ord_ },
    Replace { m: usize, oo: Aid, owner: Aid, payer: Aid, disc: Option<Aid>, os: Vec<Ord_>, single: bool },
    Take {
        m: usize,
        signer: Aid,
        cw: Aid,
        pw: Aid,
        disc: Option<Aid>,
        bid: bool,
        price: u64,
        qty: u64,
        pc: u64,
        min_coin: u64,
        min_pc: u64,
        limit: u16,
    },
    Cancel { m: usize, oo: Aid, owner: Aid, bid: bool, id: OrdRef },
    CancelCid { m: usize, oo: Aid, owner: Aid, cid: u64 },
    CancelCids { m: usize, oo: Aid, owner: Aid, cids: Vec<u64> },
    Consume { m: usize, oos: Vec<Aid>, limit: u16 },
    ConsumePerm { m: usize, oos: Vec<Aid>, auth: Aid, limit: u16 },
    Settle { m: usize, oo: Aid, owner: Aid, cw: Aid, pw: Aid, refr: Option<Aid> },
    Sweep { m: usize, auth: Aid, to: Aid },
    Disable { m: usize, auth: Aid },
    InitOo { m: usize, oo: Aid, owner: Aid, auth: Option<Aid> },
    CloseOo { m: usize, oo: Aid, owner: Aid, dest: Aid },
    Prune { m: usize, auth: Aid, oo: Aid, owner: Aid, limit: u16 },
    InitMarket { m: usize, auths: Vec<Aid>, coin_lot: u64, pc_lot: u64, bps: u16, nonce: u64, dust: u64 },
    /// Deprecated instructions by tag; they must never change anything.
    Old { m: usize, tag: u32 },
    TokTransfer { from: Aid, to: Aid, auth: Aid, amount: u64 },
    Approve { acct: Aid, delegate: Aid, owner: Aid, amount: u64 },
    Freeze { acct: Aid, mint: Aid, auth: Aid, thaw: bool },
    SysTransfer { from: Aid, to: Aid, lamports: u64 },
    CreateOo { payer: Aid, oo: Aid, lamports: u64 },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Count,
    Signer,
    Authority,
    Subst,
    OoSubst,
    Discount,
    Disabled,
    Expired,
    Funds,
    TokenAuth,
    Frozen,
    SelfTrade,
    QueueFull,
    MinOut,
    NotFound,
    NotYours,
    OoState,
    SlotsFull,
    Nonempty,
    InitCheck,
    /// A blank account of another kind, put to a use the simulated world has no typed view for.
    Void,
    ReadOnly,
    Arith,
    Gone,
}

pub type R<T> = Result<T, Why>;

#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// Either outcome is acceptable; if it succeeds the effect must still be the modelled one.
    pub soft: Option<&'static str>,
    pub self_trade: bool,
    pub evicted: bool,
    pub disabled: bool,
    pub fills: u32,
    pub needs_rent: bool,
    pub needs_clock: bool,
    pub init_oo: bool,
    pub high_slot: bool,
    pub full_match: bool,
    pub wrapped: bool,
    pub rested: bool,
    pub oids: Vec<(u32, u128)>,
    pub consumed: u64,
    pub referrer_paid: bool,
    pub tier_used: bool,
    pub limit_hit: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct View {
    pub key: Key,
    pub owner: Pubkey,
    pub lamports: u64,
    pub len: usize,
    pub role: Role,
    pub body: Parsed,
}

pub fn view(chain: &Chain, roles: &[Role], a: Aid) -> View {
    let acc = &chain.accts[a];
    View {
        key: acc.key.to_bytes(),
        owner: acc.owner,
        lamports: acc.lamports,
        len: acc.data.len(),
        role: roles[a],
        body: parse(roles[a], &acc.data),
    }
}

/// Copy-on-read overlay over the chain's state before the transaction.
pub struct Over<'a> {
    pub chain: &'a Chain,
    pub roles: &'a [Role],
    pub dex: Pubkey,
    pub m: BTreeMap<Aid, View>,
    pub clock: i64,
    /// The state after the transaction, where the model leaves a choice to the program.
    pub post: Option<&'a Chain>,
}

impl<'a> Over<'a> {
    pub fn new(chain: &'a Chain, roles: &'a [Role], dex: Pubkey, post: Option<&'a Chain>) -> Self {
        Over { chain, roles, dex, m: BTreeMap::new(), clock: chain.clock, post }
    }
    pub fn v(&mut self, a: Aid) -> &mut View {
        let (c, r) = (self.chain, self.roles);
        self.m.entry(a).or_insert_with(|| view(c, r, a))
    }
    pub fn key(&self, a: Aid) -> Key {
        self.chain.accts[a].key.to_bytes()
    }
    pub fn tok(&mut self, a: Aid) -> R<&mut Tok> {
        match &mut self.v(a).body {
            Parsed::Tok(t) => Ok(t),
            _ => Err(Why::Subst),
        }
    }
    /// A live token account (initialised, not frozen).
    pub fn token_account(&mut self, a: Aid) -> R<Tok> {
        let v = self.v(a);
        if v.owner != spl_token::ID {
            return Err(Why::Subst);
        }
        match &v.body {
            Parsed::Tok(t) if t.state == 1 => Ok(t.clone()),
            Parsed::Tok(t) if t.state == 2 => Err(Why::Frozen),
            _ => Err(Why::Subst),
        }
    }
    fn mk(&mut self, a: Aid) -> &mut Market {
        match &mut self.v(a).body {
            Parsed::Market(m) => m,
            _ => unreachable!(),
        }
    }
    fn evq(&mut self, a: Aid) -> &mut EvQ {
        match &mut self.v(a).body {
            Parsed::EvQ(m) => m,
            _ => unreachable!(),
        }
    }
    fn reqq(&mut self, a: Aid) -> &mut ReqQ {
        match &mut self.v(a).body {
            Parsed::ReqQ(m) => m,
            _ => unreachable!(),
        }
    }
    fn book(&mut self, a: Aid) -> &mut Book {
        match &mut self.v(a).body {
            Parsed::Book(m) => m,
            _ => unreachable!(),
        }
    }
    fn oo(&mut self, a: Aid) -> &mut Oo {
        match &mut self.v(a).body {
            Parsed::Oo(m) => m,
            _ => unreachable!(),
        }
    }

    fn load_market(&mut self, a: Aid, allow_disabled: bool, tr: &mut Trace) -> R<Market> {
        let dex = self.dex;
        let v = self.v(a);
        if v.owner != dex {
            return Err(Why::Subst);
        }
        let len = v.len;
        let m = match &v.body {
            Parsed::Market(m) => m.clone(),
            _ => return Err(Why::Subst),
        };
        if !m.framed {
            return Err(Why::Subst);
        }
        let base = m.flags & !F_DISABLED;
        let ok = if m.flags & F_PERM != 0 {
            len == MARKET_V2_LEN
                && (base == F_INIT | F_MARKET | F_PERM || base == F_INIT | F_MARKET | F_PERM | F_CRANK)
        } else {
            len == MARKET_LEN && base == F_INIT | F_MARKET
        };
        if !ok {
            return Err(Why::Subst);
        }
        if m.flags & F_DISABLED != 0 {
            tr.disabled = true;
            if !allow_disabled {
                return Err(Why::Disabled);
            }
        }
        Ok(m)
    }

    /// Loads an open-orders account of this market, initialising a fresh one where allowed.
    fn load_oo(
        &mut self,
        a: Aid,
        mk: &Market,
        owner: Option<Key>,
        init: Option<Option<Key>>,
        tr: &mut Trace,
    ) -> R<()> {
        let dex = self.dex;
        let min = self.chain.rent.minimum_balance(OO_LEN);
        let v = self.v(a);
        if v.owner != dex {
            return Err(Why::OoSubst);
        }
        let lamports = v.lamports;
        let oo = match &mut v.body {
            Parsed::Oo(o) => o,
            _ => return Err(Why::OoSubst),
        };
        if oo.flags == 0 {
            let auth = match init {
                None => return Err(Why::OoState),
                Some(a) => a,
            };
            let want = if mk.flags & F_PERM != 0 { Some(mk.oo_auth) } else { None };
            if auth != want {
                return Err(Why::Authority);
            }
            tr.needs_rent = true;
            if lamports < min {
                return Err(Why::OoState);
            }
            tr.init_oo = true;
            let owner = owner.ok_or(Why::OoState)?;
            *oo = Oo {
                flags: F_INIT | F_OO,
                market: mk.own,
                owner,
                slots: vec![],
                rebates: oo.rebates,
                framed: true,
                ..Oo::default()
            };
        }
        oo.framed = true;
        if oo.flags != F_INIT | F_OO {
            return Err(Why::OoState);
        }
        if oo.market != mk.own {
            return Err(Why::OoSubst);
        }
        if let Some(o) = owner {
            if oo.owner != o {
                return Err(Why::NotYours);
            }
        }
        Ok(())
    }

    /// A token transfer as the token program performs it.
    /// A delegate that has nothing left to spend is forgotten by its next use,
    /// even one that moves nothing.
    pub fn spent(&mut self, a: Aid, k: &[u8; 32]) {
        if let Ok(t) = self.tok(a) {
            if t.delegate.as_ref() == Some(k) && t.delegated == 0 {
                t.delegate = None;
            }
        }
    }

    pub fn transfer(&mut self, metas: &[Meta], src: Aid, dst: Aid, auth: Auth, amount: u64, tr: &mut Trace) -> R<()> {
        let w = |a: Aid| metas.iter().any(|m| m.aid == a && m.writable);
        if !w(src) || !w(dst) {
            if amount == 0 || src == dst {
                tr.soft = Some("transfer that moves nothing, over a read-only account");
                if src != dst && w(src) {
                    let k = match auth {
                        Auth::Pda(k) => k,
                        Auth::Signer(a) => self.key(a),
                    };
                    self.spent(src, &k);
                }
                return Ok(());
            }
            return Err(Why::ReadOnly);
        }
        let s = self.token_account(src)?;
        let d = self.token_account(dst)?;
        if s.mint != d.mint {
            return Err(Why::Subst);
        }
        if s.amount < amount {
            return Err(Why::Funds);
        }
        let mut by_delegate = false;
        match auth {
            Auth::Pda(k) => {
                if s.delegate == Some(k) {
                    if s.delegated < amount {
                        return Err(Why::TokenAuth);
                    }
                    by_delegate = true;
                } else if s.owner != k {
                    return Err(Why::TokenAuth);
                }
            }
            Auth::Signer(a) => {
                let signed = metas.iter().any(|m| m.aid == a && m.signer);
                let k = self.key(a);
                if s.delegate == Some(k) {
                    if s.delegated < amount {
                        return Err(Why::TokenAuth);
                    }
                    by_delegate = true;
                } else if s.owner != k {
                    return Err(Why::TokenAuth);
                }
                if !signed {
                    return Err(Why::Signer);
                }
            }
        }
        if src == dst {
            return Ok(());
        }
        let d2 = d.amount.checked_add(amount).ok_or(Why::Arith)?;
        let st = self.tok(src)?;
        st.amount -= amount;
        if by_delegate {
            st.delegated -= amount;
            if st.delegated == 0 {
                st.delegate = None;
            }
        }
        self.tok(dst)?.amount = d2;
        Ok(())
    }

    fn push(&mut self, evq: Aid, e: Ev) -> R<()> {
        let q = self.evq(evq);
        if q.count >= q.cap {
            return Err(Why::QueueFull);
        }
        q.count += 1;
        q.seq = q.seq.wrapping_add(1);
        q.evs.push(e);
        Ok(())
    }
}

#[derive(Clone, Copy)]
pub enum Auth {
    Pda(Key),
    Signer(Aid),
}

/// Fee rate of a tier in 1/1000 of a percent.
pub fn tier_rate(tier: u8) -> u128 {
    match tier {
        0 => 40,
        1 => 39,
        2 => 38,
        3 => 36,
        4 => 34,
        5 => 32,
        6 => 30,
        _ => 10,
    }
}

fn rate_fixed(tier: u8) -> u128 {
    (tier_rate(tier) << 64) / 100_000
}

pub fn taker_fee(tier: u8, q: u64) -> u64 {
    let x = rate_fixed(tier) * q as u128;
    ((x >> 64) + if x as u64 != 0 { 1 } else { 0 }) as u64
}

pub fn without_fee(tier: u8, q: u64) -> u64 {
    (((q as u128) << 64) / ((1u128 << 64) + rate_fixed(tier))) as u64
}

pub const STABLE_MARKETS: [&str; 6] = [
    "77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS",
    "5cLrMai1DsLRYc1Nio9qMTicsWtvzjzZfJPXyAoF4t1Z",
    "EERNEEnBqdGzBS8dd46wwNY5F2kwnaCQ3vsq2fNKGogZ",
    "8sFf9TW3KzxLiBXcDcjAxqabEsRroo4EiRr3UG1xbJ9m",
    "2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD62",
    "CaFjigEgJdtGPxQxRjneA1hzNcY5MsHoAAL6Et67QrC5",
];
pub const SRM: &str = "SRMuApVNdxXokk5GT7XD5cUUgXMBCoAz2LHeuAoKWRt";
pub const MSRM: &str = "MSRMcoVyrFxnSgo5uXwone5SKcGhT1KEJMFEkMEWf9L";
pub const DISABLER: &str = "5ZVJgwWxMsqXxRMYHXqMwH2hd4myX5Ef4Au2iUsuNQ7V";
pub const SWEEPER: &str = "DeqYsmBd9BnrbgUwQjVH4sQWK71dEgE6eoZFw3Rp4ftE";

pub fn pkey(s: &str) -> Pubkey {
    use std::str::FromStr;
    Pubkey::from_str(s).unwrap()
}

pub struct Consts {
    pub stable: Vec<Key>,
    pub srm: Key,
    pub msrm: Key,
    pub disabler: Key,
    pub sweeper: Key,
}

thread_local! {
    pub static CONSTS: Consts = Consts {
        stable: STABLE_MARKETS.iter().map(|s| pkey(s).to_bytes()).collect(),
        srm: pkey(SRM).to_bytes(),
        msrm: pkey(MSRM).to_bytes(),
        disabler: pkey(DISABLER).to_bytes(),
        sweeper: pkey(SWEEPER).to_bytes(),
    };
}

fn tier_of(o: &mut Over, mk: &Market, who: Key, disc: Option<Aid>, tr: &mut Trace) -> R<u8> {
    let stable = CONSTS.with(|c| c.stable.contains(&mk.own));
    let mut t = 0u8;
    if let Some(d) = disc {
        let a = o.token_account(d).map_err(|_| Why::Discount)?;
        if a.owner != who {
            return Err(Why::Discount);
        }
        let (srm, msrm) = CONSTS.with(|c| (a.mint == c.srm, a.mint == c.msrm));
        if srm {
            let whole = 1_000_000u64;
            t = match a.amount {
                x if x >= 1_000_000 * whole => 5,
                x if x >= 100_000 * whole => 4,
                x if x >= 10_000 * whole => 3,
                x if x >= 1_000 * whole => 2,
                x if x >= 100 * whole => 1,
                _ => 0,
            };
        } else if msrm && a.amount >= 1 {
            t = 6;
        }
        tr.tier_used = t != 0;
    }
    Ok(if stable { 7 } else { t })
}

struct Incoming {
    bid: bool,
    price: u64,
    qty: u64,
    /// Native pc budget of a bid.
    pc: u64,
    ty: u8,
    stb: u8,
    limit: u16,
    oid: u128,
    owner: Key,
    slot: u8,
    cid: u64,
    tier: u8,
    anonymous: bool,
}

#[derive(Default, Debug)]
struct Result_ {
    coin_lots_in: u64,
    coin_lots_out: u64,
    coin_lots_unlocked: u64,
    pc_in: u64,
    pc_out: u64,
    pc_unlocked: u64,
}

struct MarketAccts {
    mk: Aid,
    evq: Aid,
    bids: Aid,
    asks: Aid,
}

/// Price-time matching of one incoming order against the opposite side, then posting of the rest.
fn match_order(o: &mut Over, a: &MarketAccts, mk: &Market, inc: &Incoming, tr: &mut Trace) -> R<Result_> {
    let mut r = Result_::default();
    let (coin_lot, pc_lot) = (mk.coin_lot as u128, mk.pc_lot as u128);
    let n = |x: u128| -> R<u64> { u64::try_from(x).map_err(|_| Why::Arith) };
    let mut qty = inc.qty;
    let mut pc = inc.pc;
    let opp = if inc.bid { a.asks } else { a.bids };
    let own = if inc.bid { a.bids } else { a.asks };
    let taker_out = |unlocked: u64, still: u64| Ev {
        fill: false,
        bid: inc.bid,
        maker: false,
        release: false,
        slot: inc.slot,
        tier: 0,
        a: unlocked,
        b: still,
        fee: 0,
        oid: inc.oid,
        owner: inc.owner,
        cid: inc.cid,
        valid: true,
    };
    let mut left = inc.limit;
    let crossed;
    loop {
        // Best opposite order.
        let bk = o.book(opp);
        let best = match if inc.bid { bk.leaves.first() } else { bk.leaves.last() } {
            None => {
                crossed = false;
                break;
            }
            Some(l) => l.clone(),
        };
        let p = best.price();
        let crosses = if inc.bid { inc.price >= p } else { inc.price <= p };
        if !crosses {
            crossed = false;
            break;
        }
        if inc.ty == 2 || left == 0 {
            tr.limit_hit |= left == 0 && inc.ty != 2;
            crossed = true;
            break;
        }
        let mut t = best.qty.min(qty);
        if inc.bid {
            if mk.pc_lot == 0 {
                return Err(Why::Arith);
            }
            t = t.min(without_fee(inc.tier, pc) / mk.pc_lot / p);
        }
        if t == 0 {
            crossed = true;
            break;
        }
        left -= 1;
        let pos = if inc.bid { 0 } else { o.book(opp).leaves.len() - 1 };
        let maker_ev = |fill: bool, release: bool, av: u64, bv: u64| Ev {
            fill,
            bid: !inc.bid,
            maker: fill,
            release,
            slot: best.slot,
            tier: if fill { best.tier } else { 0 },
            a: av,
            b: bv,
            fee: 0,
            oid: best.key,
            owner: best.owner,
            cid: best.cid,
            valid: true,
        };
        if best.owner == inc.owner {
            tr.self_trade = true;
            let (provide, take) = match inc.stb {
                0 => (t, t),
                1 => (best.qty, 0),
                _ => return Err(Why::SelfTrade),
            };
            let rest = best.qty - provide;
            let unit = if inc.bid { coin_lot } else { p as u128 * pc_lot };
            o.push(a.evq, maker_ev(false, true, n(provide as u128 * unit)?, n(rest as u128 * unit)?))?;
            if rest == 0 {
                o.book(opp).leaves.remove(pos);
            } else {
                o.book(opp).leaves[pos].qty = rest;
            }
            if inc.bid {
                let freed = n(take as u128 * p as u128 * pc_lot)?;
                let still = pc - freed;
                if qty - take > 0 && still > 0 {
                    r.pc_unlocked += freed;
                    o.push(a.evq, taker_out(freed, still))?;
                    qty -= take;
                    pc = still;
                } else {
                    r.pc_unlocked += pc;
                    o.push(a.evq, taker_out(pc, 0))?;
                    return Ok(r);
                }
            } else {
                qty -= take;
                r.coin_lots_unlocked += take;
                o.push(a.evq, taker_out(n(take as u128 * coin_lot)?, qty))?;
                if qty == 0 {
                    return Ok(r);
                }
            }
            continue;
        }
        tr.fills += 1;
        let coin_native = n(t as u128 * coin_lot)?;
        let pc_native = n(t as u128 * p as u128 * pc_lot)?;
        let (recv, paid) = if inc.bid { (pc_native, coin_native) } else { (coin_native, pc_native) };
        o.push(a.evq, maker_ev(true, false, recv, paid))?;
        if best.qty == t {
            o.push(a.evq, maker_ev(false, true, 0, 0))?;
            o.book(opp).leaves.remove(pos);
        } else {
            o.book(opp).leaves[pos].qty -= t;
        }
        let fee = taker_fee(inc.tier, pc_native);
        let m = o.mk(a.mk);
        m.rebates = m.rebates.wrapping_add(fee / 5);
        m.pc_fees = m.pc_fees.wrapping_add(fee - fee / 5);
        m.pc_dep = m.pc_dep.wrapping_sub(fee);
        qty -= t;
        let (trecv, tpaid);
        if inc.bid {
            tpaid = pc_native + fee;
            trecv = coin_native;
            pc -= tpaid;
            r.coin_lots_in += t;
            r.pc_out += tpaid;
        } else {
            tpaid = coin_native;
            trecv = pc_native.wrapping_sub(fee);
            r.coin_lots_out += t;
            r.pc_in += trecv;
        }
        if pc_native > 0 && !inc.anonymous {
            o.push(
                a.evq,
                Ev {
                    fill: true,
                    bid: inc.bid,
                    maker: false,
                    release: false,
                    slot: inc.slot,
                    tier: inc.tier,
                    a: trecv,
                    b: tpaid,
                    fee,
                    oid: inc.oid,
                    owner: inc.owner,
                    cid: inc.cid,
                    valid: true,
                },
            )?;
        }
        if qty == 0 || (inc.bid && pc == 0) {
            tr.full_match = true;
            crossed = true;
            break;
        }
    }
    // What is left rests at the limit price if it may, and is unlocked otherwise.
    let may_post = inc.ty != 1 && !crossed;
    let mut post = 0u64;
    if inc.bid {
        if may_post {
            if mk.pc_lot == 0 {
                return Err(Why::Arith);
            }
            post = qty.min(pc / mk.pc_lot / inc.price);
        }
        if !inc.anonymous {
            let still = n(post as u128 * inc.price as u128 * pc_lot)?;
            r.pc_unlocked += pc - still;
            o.push(a.evq, taker_out(pc - still, still))?;
        }
    } else {
        if may_post {
            post = qty;
        }
        if post == 0 && !inc.anonymous {
            r.coin_lots_unlocked += qty;
            o.push(a.evq, taker_out(n(qty as u128 * coin_lot)?, 0))?;
        }
    }
    if post > 0 {
        tr.rested = true;
        let bk = o.book(own);
        if bk.leaves.len() as u64 >= bk.max_leaves {
            tr.evicted = true;
            let gone = if inc.bid { bk.leaves.remove(0) } else { bk.leaves.pop().unwrap() };
            let unit = if inc.bid { gone.price() as u128 * pc_lot } else { coin_lot };
            o.push(
                a.evq,
                Ev {
                    fill: false,
                    bid: inc.bid,
                    maker: false,
                    release: true,
                    slot: gone.slot,
                    tier: 0,
                    a: n(gone.qty as u128 * unit)?,
                    b: 0,
                    fee: 0,
                    oid: gone.key,
                    owner: gone.owner,
                    cid: gone.cid,
                    valid: true,
                },
            )?;
        }
        let bk = o.book(own);
        let leaf = Leaf { key: inc.oid, slot: inc.slot, tier: inc.tier, owner: inc.owner, qty: post, cid: inc.cid };
        let pos = bk.leaves.iter().position(|l| l.key > leaf.key).unwrap_or(bk.leaves.len());
        bk.leaves.insert(pos, leaf);
    }
    Ok(r)
}

fn next_oid(o: &mut Over, reqq: Aid, price: u64, bid: bool) -> u128 {
    let q = o.reqq(reqq);
    let seq = q.next;
    q.next = q.next.wrapping_add(1);
    ((price as u128) << 64) | (if bid { !seq } else { seq }) as u128
}

pub fn signed(metas: &[Meta], i: usize) -> R<()> {
    if metas[i].signer {
        Ok(())
    } else {
        Err(Why::Signer)
    }
}

pub fn same(o: &Over, a: Aid, k: &Key) -> R<()> {
    if o.key(a) == *k {
        Ok(())
    } else {
        Err(Why::Subst)
    }
}

pub fn token_program(o: &Over, a: Aid) -> R<()> {
    same(o, a, &spl_token::ID.to_bytes())
}

fn wallet(o: &mut Over, a: Aid, mint: &Key) -> R<()> {
    let t = o.token_account(a)?;
    if t.mint != *mint {
        return Err(Why::Subst);
    }
    Ok(())
}

fn vault(o: &mut Over, a: Aid, k: &Key) -> R<()> {
    o.token_account(a)?;
    same(o, a, k)
}

/// PDA of a market, computed once per (market, nonce).
pub fn vault_signer(dex: &Pubkey, market: &Key, nonce: u64) -> Option<Key> {
    thread_local! {
        static CACHE: std::cell::RefCell<BTreeMap<(Key, u64), Option<Key>>> = Default::default();
    }
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 4096 {
            c.clear();
        }
        *c.entry((*market, nonce)).or_insert_with(|| {
            Pubkey::create_program_address(&[market, &nonce.to_le_bytes()], dex).ok().map(|k| k.to_bytes())
        })
    })
}

fn check_vault_signer(o: &Over, a: Aid, mk: &Market) -> R<Key> {
    let k = vault_signer(&o.dex, &mk.own, mk.nonce).ok_or(Why::Subst)?;
    same(o, a, &k)?;
    Ok(k)
}

fn place(o: &mut Over, ms: &[Meta], p: &Ord_, tr: &mut Trace) -> R<()> {
    if ms.len() != 12 && ms.len() != 13 {
        return Err(Why::Count);
    }
    let a: Vec<Aid> = ms.iter().map(|m| m.aid).collect();
    let disc = a.get(12).cloned();
    if let Some(d) = disc {
        o.token_account(d).map_err(|_| Why::Discount)?;
    }
    let mk = o.load_market(a[0], false, tr)?;
    signed(ms, 7)?;
    let owner = o.key(a[7]);
    let tier = tier_of(o, &mk, owner, disc, tr)?;
    same(o, a[2], &mk.req_q)?;
    same(o, a[3], &mk.event_q)?;
    wallet(o, a[6], if p.bid { &mk.pc_mint } else { &mk.coin_mint })?;
    vault(o, a[8], &mk.coin_vault)?;
    vault(o, a[9], &mk.pc_vault)?;
    token_program(o, a[10])?;
    same(o, a[4], &mk.bids)?;
    same(o, a[5], &mk.asks)?;
    o.load_oo(a[1], &mk, Some(owner), Some(None), tr)?;
    if let Some(ts) = p.ts {
        if ts < i64::MAX {
            tr.needs_clock = true;
            if o.clock > ts {
                return Err(Why::Expired);
            }
        }
    }
    let oo = o.oo(a[1]);
    let lock = if p.bid {
        p.pc
    } else {
        u64::try_from(p.qty as u128 * mk.coin_lot as u128).map_err(|_| Why::Funds)?
    };
    let from_free = lock.min(if p.bid { oo.pc_free } else { oo.coin_free });
    let deposit = lock - from_free;
    if p.bid {
        oo.pc_free -= from_free;
        oo.pc_total = oo.pc_total.checked_add(deposit).ok_or(Why::Arith)?;
    } else {
        oo.coin_free -= from_free;
        oo.coin_total = oo.coin_total.checked_add(deposit).ok_or(Why::Arith)?;
    }
    if o.tok(a[6])?.amount < deposit {
        return Err(Why::Funds);
    }
    let m = o.mk(a[0]);
    if p.bid {
        m.pc_dep = m.pc_dep.checked_add(deposit).ok_or(Why::Arith)?;
    } else {
        m.coin_dep = m.coin_dep.checked_add(deposit).ok_or(Why::Arith)?;
    }
    let oid = next_oid(o, a[2], p.price, p.bid);
    tr.oids.push((p.tag, oid));
    let slot = o.oo(a[1]).lowest_free().ok_or(Why::SlotsFull)?;
    tr.high_slot |= slot >= 64;
    o.oo(a[1]).fill_slot(Slot { slot, oid, bid: p.bid, cid: p.cid });
    let okey = o.key(a[1]);
    let inc = Incoming {
        bid: p.bid,
        price: p.price,
        qty: p.qty,
        pc: if p.bid { p.pc } else { 0 },
        ty: p.ty,
        stb: p.stb,
        limit: p.limit,
        oid,
        owner: okey,
        slot,
        cid: p.cid,
        tier,
        anonymous: false,
    };
    let acc = MarketAccts { mk: a[0], evq: a[3], bids: a[4], asks: a[5] };
    let r = match_order(o, &acc, &mk, &inc, tr)?;
    let oo = o.oo(a[1]);
    let lot = mk.coin_lot;
    oo.coin_total += r.coin_lots_in * lot;
    oo.coin_free += (r.coin_lots_in + r.coin_lots_unlocked) * lot;
    oo.coin_total -= r.coin_lots_out * lot;
    oo.pc_total = oo.pc_total.wrapping_add(r.pc_in);
    oo.pc_free = oo.pc_free.wrapping_add(r.pc_in.wrapping_add(r.pc_unlocked));
    oo.pc_total = oo.pc_total.wrapping_sub(r.pc_out);
    if deposit > 0 {
        let v = if p.bid { a[9] } else { a[8] };
        if v == a[6] {
            return Err(Why::TokenAuth);
        }
        o.transfer(ms, a[6], v, Auth::Signer(a[7]), deposit, tr)?;
    }
    Ok(())
}

/// Cancels one resting order; `None` if it is not resting on that side.
fn cancel_one(o: &mut Over, a: &MarketAccts, oo: Aid, mk: &Market, bid: bool, oid: u128) -> R<Option<()>> {
    let side = if bid { a.bids } else { a.asks };
    let okey = o.key(oo);
    let bk = o.book(side);
    let pos = match bk.leaves.iter().position(|l| l.key == oid) {
        None => return Ok(None),
        Some(p) => p,
    };
    if bk.leaves[pos].owner != okey {
        return Err(Why::NotYours);
    }
    let l = bk.leaves.remove(pos);
    let amount = if bid { l.qty * l.price() * mk.pc_lot } else { l.qty * mk.coin_lot };
    let acc = o.oo(oo);
    if bid {
        acc.pc_free += amount;
    } else {
        acc.coin_free += amount;
    }
    o.push(
        a.evq,
        Ev {
            fill: false,
            bid,
            maker: false,
            release: false,
            slot: l.slot,
            tier: 0,
            a: amount,
            b: 0,
            fee: 0,
            oid,
            owner: okey,
            cid: l.cid,
            valid: true,
        },
    )?;
    Ok(Some(()))
}

/// Accounts common to the cancel family: market, bids, asks, open orders, owner, event queue.
fn cancel_accts(o: &mut Over, ms: &[Meta], idx: [usize; 6], tr: &mut Trace) -> R<(MarketAccts, Aid, Market)> {
    if ms.len() <= *idx.iter().max().unwrap() {
        return Err(Why::Count);
    }
    let a: Vec<Aid> = idx.iter().map(|i| ms[*i].aid).collect();
    let mk = o.load_market(a[0], true, tr)?;
    signed(ms, idx[4])?;
    let owner = o.key(a[4]);
    o.load_oo(a[3], &mk, Some(owner), None, tr)?;
    same(o, a[1], &mk.bids)?;
    same(o, a[2], &mk.asks)?;
    same(o, a[5], &mk.event_q)?;
    Ok((MarketAccts { mk: a[0], evq: a[5], bids: a[1], asks: a[2] }, a[3], mk))
}

fn cancel_ids(o: &mut Over, acc: &MarketAccts, oo: Aid, mk: &Market, ids: &[u64]) -> R<()> {
    let hits: Vec<Slot> =
        o.oo(oo).slots.iter().filter(|s| s.cid != 0 && ids.contains(&s.cid)).cloned().collect();
    for s in hits {
        cancel_one(o, acc, oo, mk, s.bid, s.oid)?;
    }
    Ok(())
}

fn consume(o: &mut Over, ms: &[Meta], mk: &Market, evq: Aid, oos: &[Meta], limit: u16, tr: &mut Trace) -> R<()> {
    let _ = ms;
    let keys: Vec<[u64; 4]> = oos.iter().map(|m| key_words(&o.key(m.aid))).collect();
    let sorted = keys.windows(2).all(|w| w[0] <= w[1]);
    let mut max = limit as u64;
    if !sorted {
        // The lookup may miss accounts of an unsorted list: any shorter prefix is acceptable.
        tr.soft = Some("unsorted crank accounts");
        if let Some(post) = o.post {
            let before = o.evq(evq).count;
            let after = evq_of(post, evq).map(|q| q.count).unwrap_or(0);
            max = max.min(before.saturating_sub(after));
        }
    }
    for _ in 0..max {
        let (cap, e) = {
            let q = o.evq(evq);
            match q.evs.first() {
                None => break,
                Some(e) => (q.cap, e.clone()),
            }
        };
        let oo = match oos.iter().find(|m| o.key(m.aid) == e.owner) {
            None => break,
            Some(m) => m.aid,
        };
        o.load_oo(oo, mk, None, None, tr)?;
        let acc = o.oo(oo);
        match acc.at(e.slot) {
            Some(s) if s.bid == e.bid && s.oid == e.oid => {}
            _ => return Err(Why::OoState),
        }
        if e.fill && e.maker {
            if e.bid {
                acc.pc_total = acc.pc_total.wrapping_sub(e.b);
                acc.coin_total = acc.coin_total.wrapping_add(e.a);
                acc.coin_free = acc.coin_free.wrapping_add(e.a);
            } else {
                acc.coin_total = acc.coin_total.wrapping_sub(e.b);
                acc.pc_total = acc.pc_total.wrapping_add(e.a);
                acc.pc_free = acc.pc_free.wrapping_add(e.a);
            }
        } else if e.fill {
            acc.rebates = acc.rebates.wrapping_add(e.fee / 5);
        } else {
            if e.release {
                if e.bid {
                    acc.pc_free = acc.pc_free.wrapping_add(e.a);
                } else {
                    acc.coin_free = acc.coin_free.wrapping_add(e.a);
                }
            }
            if e.bid && acc.pc_free > acc.pc_total || !e.bid && acc.coin_free > acc.coin_total {
                return Err(Why::Arith);
            }
            if e.b == 0 {
                acc.slots.retain(|s| s.slot != e.slot);
            }
        }
        let q = o.evq(evq);
        q.evs.remove(0);
        q.count -= 1;
        if q.head + 1 == cap {
            tr.wrapped = true;
        }
        q.head = (q.head + 1) % cap;
        tr.consumed += 1;
    }
    Ok(())
}

fn evq_of(c: &Chain, a: Aid) -> Option<EvQ> {
    evq(&c.accts[a].data)
}

fn prune(o: &mut Over, ms: &[Meta], limit: u16, tr: &mut Trace) -> R<()> {
    if ms.len() != 7 {
        return Err(Why::Count);
    }
    let a: Vec<Aid> = ms.iter().map(|m| m.aid).collect();
    signed(ms, 3)?;
    let mk = o.load_market(a[0], false, tr)?;
    if mk.flags & F_PERM == 0 || o.key(a[3]) != mk.prune_auth {
        return Err(Why::Authority);
    }
    let owner = o.key(a[5]);
    o.load_oo(a[4], &mk, Some(owner), None, tr)?;
    same(o, a[1], &mk.bids)?;
    same(o, a[2], &mk.asks)?;
    same(o, a[6], &mk.event_q)?;
    let okey = o.key(a[4]);
    let acc = MarketAccts { mk: a[0], evq: a[6], bids: a[1], asks: a[2] };
    let total = 2 * (o.book(a[1]).leaves.len() + o.book(a[2]).leaves.len());
    let mine: Vec<(bool, u128)> = {
        let mut v: Vec<(bool, u128)> =
            o.book(a[1]).leaves.iter().filter(|l| l.owner == okey).map(|l| (true, l.key)).collect();
        v.extend(o.book(a[2]).leaves.iter().filter(|l| l.owner == okey).map(|l| (false, l.key)));
        v
    };
    let all = limit as usize >= total;
    // Which orders a limited call reaches, and in which sequence, is the program's choice.
    let mut todo: Vec<(bool, u128)> = vec![];
    if let Some(post) = o.post {
        let seen = evq_of(post, a[6]).unwrap_or_default();
        let n = o.evq(a[6]).evs.len();
        for e in seen.evs.iter().skip(n) {
            if mine.contains(&(e.bid, e.oid)) && !todo.contains(&(e.bid, e.oid)) {
                todo.push((e.bid, e.oid));
            }
        }
        if all {
            for x in &mine {
                if !todo.contains(x) {
                    todo.push(*x);
                }
            }
        }
        todo.truncate(limit as usize);
    } else {
        todo = mine.clone();
        if !all {
            tr.soft = Some("limited prune");
        }
    }
    for (bid, oid) in todo {
        cancel_one(o, &acc, a[4], &mk, bid, oid)?;
    }
    Ok(())
}

fn init_market(o: &mut Over, ms: &[Meta], op: &Op, tr: &mut Trace) -> R<()> {
    let (coin_lot, pc_lot, bps, nonce, dust) = match op {
        Op::InitMarket { coin_lot, pc_lot, bps, nonce, dust, .. } => (*coin_lot, *pc_lot, *bps, *nonce, *dust),
        _ => unreachable!(),
    };
    if ms.len() < 10 || ms.len() > 13 {
        return Err(Why::Count);
    }
    tr.needs_rent = true;
    let a: Vec<Aid> = ms.iter().map(|m| m.aid).collect();
    for x in &a[0..9] {
        let (l, n) = {
            let v = o.v(*x);
            (v.lamports, v.len)
        };
        if l < o.chain.rent.minimum_balance(n) {
            return Err(Why::InitCheck);
        }
    }
    for x in &a[0..5] {
        let dex = o.dex;
        let v = o.v(*x);
        if v.owner != dex || v.len % 8 != 4 || v.len < 20 {
            return Err(Why::InitCheck);
        }
        let d = &o.chain.accts[*x].data;
        let used = match &o.v(*x).body {
            Parsed::Market(m) => m.flags != 0 || m.framed,
            Parsed::Oo(m) => m.flags != 0 || m.framed,
            Parsed::EvQ(m) => m.flags != 0 || m.framed,
            Parsed::ReqQ(m) => m.flags != 0 || m.framed,
            Parsed::Book(m) => m.flags != 0 || m.framed,
            _ => true,
        };
        // (header bytes of a fresh account; earlier instructions of the same transaction show up in `used`)
        if used || d[..13].iter().any(|b| *b != 0) || d[d.len() - 7..].iter().any(|b| *b != 0) {
            return Err(Why::InitCheck);
        }
    }
    for i in 0..5 {
        for j in 0..i {
            if a[i] == a[j] {
                return Err(Why::InitCheck);
            }
        }
    }
    let mkey = o.key(a[0]);
    let signer = vault_signer(&o.dex, &mkey, nonce).ok_or(Why::InitCheck)?;
    for i in 0..2 {
        let v = o.token_account(a[5 + i]).map_err(|_| Why::InitCheck)?;
        let mv = o.v(a[7 + i]);
        let ok = mv.owner == spl_token::ID && matches!(&mv.body, Parsed::Mint(m) if m.init);
        if !ok || v.owner != signer || v.delegate.is_some() || v.close_auth.is_some() || v.mint != o.key(a[7 + i]) {
            return Err(Why::InitCheck);
        }
    }
    // Sizes.
    let lens: Vec<usize> = a[0..5].iter().map(|x| o.chain.accts[*x].data.len()).collect();
    if lens[1] < 12 + 32 + 80 {
        return Err(Why::InitCheck);
    }
    if lens[2] < 12 + 32 + 88 * 128 {
        return Err(Why::InitCheck);
    }
    for i in 3..5 {
        if lens[i] < 12 + 8 + 32 + 72 * 201 {
            return Err(Why::InitCheck);
        }
        if (lens[i] - 12 - 8 - 32) % 72 != 0 {
            tr.soft = Some("odd book size");
        }
    }
    let perm = ms.len() > 10;
    if lens[0] != if perm { MARKET_V2_LEN } else { MARKET_LEN } {
        return Err(Why::InitCheck);
    }
    for x in &a[0..5] {
        if !ms.iter().any(|m| m.aid == *x && m.writable) {
            return Err(Why::ReadOnly);
        }
    }
    let k: Vec<Key> = a.iter().map(|x| o.key(*x)).collect();
    match (&mut o.v(a[1]).body, lens[1]) {
        (Parsed::ReqQ(q), _) => *q = ReqQ { flags: F_INIT | F_REQQ, head: 0, count: 0, next: 0, framed: true },
        _ => return Err(Why::Void),
    }
    match &mut o.v(a[2]).body {
        Parsed::EvQ(q) => {
            *q = EvQ { flags: F_INIT | F_EVQ, head: 0, count: 0, seq: 0, cap: q.cap, evs: vec![], framed: true }
        }
        _ => return Err(Why::Void),
    }
    for (x, f) in [(a[3], F_BIDS), (a[4], F_ASKS)] {
        match &mut o.v(x).body {
            Parsed::Book(b) => {
                *b = Book { flags: F_INIT | f, leaves: vec![], max_leaves: b.max_leaves, bad: None, framed: true }
            }
            _ => return Err(Why::Void),
        }
    }
    let mut flags = F_INIT | F_MARKET;
    if perm {
        flags |= F_PERM;
        if ms.len() == 13 {
            flags |= F_CRANK;
        }
    }
    let z = [0u8; 32];
    match &mut o.v(a[0]).body {
        Parsed::Market(m) => {
            *m = Market {
                flags,
                own: k[0],
                nonce,
                coin_mint: k[7],
                pc_mint: k[8],
                coin_vault: k[5],
                coin_dep: 0,
                coin_fees: 0,
                pc_vault: k[6],
                pc_dep: 0,
                pc_fees: 0,
                dust,
                req_q: k[1],
                event_q: k[2],
                bids: k[3],
                asks: k[4],
                coin_lot,
                pc_lot,
                fee_bps: bps as u64,
                rebates: 0,
                oo_auth: k.get(10).cloned().unwrap_or(z),
                prune_auth: k.get(11).cloned().unwrap_or(z),
                crank_auth: k.get(12).cloned().unwrap_or(z),
                framed: true,
                tail_zero: m.tail_zero,
            }
        }
        _ => return Err(Why::Void),
    }
    Ok(())
}

/// The modelled effect of one instruction. `Err` means it must fail.
pub fn step(o: &mut Over, op: &Op, ms: &[Meta], oid: Option<u128>, tr: &mut Trace) -> R<()> {
    let a: Vec<Aid> = ms.iter().map(|m| m.aid).collect();
    let need = match op {
        Op::TokTransfer { .. } | Op::Approve { .. } | Op::Freeze { .. } => 3,
        Op::SysTransfer { .. } | Op::CreateOo { .. } => 2,
        _ => 0,
    };
    if ms.len() < need {
        return Err(Why::Count);
    }
    match op {
        Op::New { o: p, .. } => place(o, ms, p, tr),
        Op::Replace { os, .. } => {
            if ms.len() < 8 {
                return Err(Why::Count);
            }
            let (acc, oo, mk) = cancel_accts(o, ms, [0, 4, 5, 1, 7, 3], tr)?;
            let ids: Vec<u64> = os.iter().map(|p| p.cid).collect();
            cancel_ids(o, &acc, oo, &mk, &ids)?;
            for p in os {
                let mut q = p.clone();
                if q.ts.is_none() {
                    q.ts = Some(i64::MAX);
                }
                place(o, ms, &q, tr)?;
            }
            Ok(())
        }
        Op::Take { bid, price, qty, pc, min_coin, min_pc, limit, .. } => {
            if ms.len() != 12 && ms.len() != 13 {
                return Err(Why::Count);
            }
            let disc = a.get(12).cloned();
            if let Some(d) = disc {
                o.token_account(d).map_err(|_| Why::Discount)?;
            }
            let mk = o.load_market(a[0], false, tr)?;
            signed(ms, 7)?;
            let who = o.key(a[7]);
            let tier = tier_of(o, &mk, who, disc, tr)?;
            same(o, a[1], &mk.req_q)?;
            same(o, a[2], &mk.event_q)?;
            wallet(o, a[5], &mk.coin_mint)?;
            wallet(o, a[6], &mk.pc_mint)?;
            vault(o, a[8], &mk.coin_vault)?;
            vault(o, a[9], &mk.pc_vault)?;
            token_program(o, a[10])?;
            let signer = check_vault_signer(o, a[11], &mk)?;
            same(o, a[3], &mk.bids)?;
            same(o, a[4], &mk.asks)?;
            let oid = next_oid(o, a[1], *price, *bid);
            let inc = Incoming {
                bid: *bid,
                price: *price,
                qty: *qty,
                pc: if *bid { *pc } else { 0 },
                ty: 1,
                stb: 2,
                limit: *limit,
                oid,
                owner: system_program::ID.to_bytes(),
                slot: 0,
                cid: 0,
                tier,
                anonymous: true,
            };
            let acc = MarketAccts { mk: a[0], evq: a[2], bids: a[3], asks: a[4] };
            let r = match_order(o, &acc, &mk, &inc, tr)?;
            if *bid && r.coin_lots_in < *min_coin || !*bid && r.pc_in < *min_pc {
                return Err(Why::MinOut);
            }
            let m = o.mk(a[0]);
            let (dep, wd, dsrc, dvault, wdst, wvault);
            if *bid {
                dep = r.pc_out;
                wd = r.coin_lots_in * mk.coin_lot;
                m.pc_dep += dep;
                m.coin_dep = m.coin_dep.checked_sub(wd).ok_or(Why::Arith)?;
                dsrc = a[6];
                dvault = a[9];
                wdst = a[5];
                wvault = a[8];
            } else {
                dep = r.coin_lots_out * mk.coin_lot;
                wd = r.pc_in;
                m.coin_dep += dep;
                m.pc_dep = m.pc_dep.checked_sub(wd).ok_or(Why::Arith)?;
                dsrc = a[5];
                dvault = a[8];
                wdst = a[6];
                wvault = a[9];
            }
            if dep > 0 {
                if dsrc == dvault {
                    return Err(Why::TokenAuth);
                }
                o.transfer(ms, dsrc, dvault, Auth::Signer(a[7]), dep, tr)?;
            }
            if wd > 0 {
                o.transfer(ms, wvault, wdst, Auth::Pda(signer), wd, tr)?;
            }
            Ok(())
        }
        Op::Cancel { bid, .. } => {
            let (acc, oo, mk) = cancel_accts(o, ms, [0, 1, 2, 3, 4, 5], tr)?;
            cancel_one(o, &acc, oo, &mk, *bid, oid.unwrap_or(0))?.ok_or(Why::NotFound)
        }
        Op::CancelCid { cid, .. } => {
            if *cid == 0 {
                return Err(Why::NotFound);
            }
            let (acc, oo, mk) = cancel_accts(o, ms, [0, 1, 2, 3, 4, 5], tr)?;
            let s = o.oo(oo).slots.iter().find(|s| s.cid == *cid).cloned().ok_or(Why::NotFound)?;
            cancel_one(o, &acc, oo, &mk, s.bid, s.oid)?.ok_or(Why::NotFound)
        }
        Op::CancelCids { cids, .. } => {
            let (acc, oo, mk) = cancel_accts(o, ms, [0, 1, 2, 3, 4, 5], tr)?;
            cancel_ids(o, &acc, oo, &mk, cids)
        }
        Op::Consume { limit, .. } => {
            if ms.len() < 5 {
                return Err(Why::Count);
            }
            let n = ms.len() - 4;
            let mk = o.load_market(a[n], true, tr)?;
            if mk.flags & F_CRANK != 0 {
                return Err(Why::Authority);
            }
            same(o, a[n + 1], &mk.event_q)?;
            consume(o, ms, &mk, a[n + 1], &ms[..n], *limit, tr)
        }
        Op::ConsumePerm { limit, .. } => {
            if ms.len() < 4 {
                return Err(Why::Count);
            }
            let n = ms.len() - 3;
            let mk = o.load_market(a[n], true, tr)?;
            if !ms[n + 2].signer || mk.flags & F_CRANK == 0 || o.key(a[n + 2]) != mk.crank_auth {
                return Err(Why::Authority);
            }
            same(o, a[n + 1], &mk.event_q)?;
            consume(o, ms, &mk, a[n + 1], &ms[..n], *limit, tr)
        }
        Op::Settle { .. } => {
            if ms.len() != 9 && ms.len() != 10 {
                return Err(Why::Count);
            }
            token_program(o, a[8])?;
            let mk = o.load_market(a[0], true, tr)?;
            signed(ms, 2)?;
            vault(o, a[3], &mk.coin_vault)?;
            vault(o, a[4], &mk.pc_vault)?;
            wallet(o, a[5], &mk.coin_mint)?;
            wallet(o, a[6], &mk.pc_mint)?;
            if let Some(r) = a.get(9) {
                wallet(o, *r, &mk.pc_mint)?;
            }
            let signer = check_vault_signer(o, a[7], &mk)?;
            let owner = o.key(a[2]);
            o.load_oo(a[1], &mk, Some(owner), None, tr)?;
            let oo = o.oo(a[1]);
            let (c, p, rb) = (oo.coin_free, oo.pc_free, oo.rebates);
            oo.coin_free = 0;
            oo.pc_free = 0;
            oo.coin_total = oo.coin_total.checked_sub(c).ok_or(Why::Arith)?;
            oo.pc_total = oo.pc_total.checked_sub(p).ok_or(Why::Arith)?;
            oo.rebates = 0;
            let m = o.mk(a[0]);
            m.coin_dep = m.coin_dep.wrapping_sub(c);
            m.pc_dep = m.pc_dep.wrapping_sub(p);
            m.rebates = m.rebates.wrapping_sub(rb);
            if a.len() == 9 {
                m.pc_fees = m.pc_fees.wrapping_add(rb);
            }
            o.transfer(ms, a[3], a[5], Auth::Pda(signer), c, tr)?;
            o.transfer(ms, a[4], a[6], Auth::Pda(signer), p, tr)?;
            if a.len() == 10 && rb > 0 {
                tr.referrer_paid = true;
                o.transfer(ms, a[4], a[9], Auth::Pda(signer), rb, tr)?;
            }
            Ok(())
        }
        Op::Sweep { .. } => {
            if ms.len() != 6 {
                return Err(Why::Count);
            }
            let mk = o.load_market(a[0], false, tr)?;
            vault(o, a[1], &mk.pc_vault)?;
            wallet(o, a[3], &mk.pc_mint)?;
            let signer = check_vault_signer(o, a[4], &mk)?;
            token_program(o, a[5])?;
            if !ms[2].signer || o.key(a[2]) != CONSTS.with(|c| c.sweeper) {
                return Err(Why::Authority);
            }
            let fees = mk.pc_fees;
            o.mk(a[0]).pc_fees = 0;
            o.transfer(ms, a[1], a[3], Auth::Pda(signer), fees, tr)
        }
        Op::Disable { .. } => {
            if ms.len() != 2 {
                return Err(Why::Count);
            }
            o.load_market(a[0], false, tr)?;
            if !ms[1].signer || o.key(a[1]) != CONSTS.with(|c| c.disabler) {
                return Err(Why::Authority);
            }
            o.mk(a[0]).flags |= F_DISABLED;
            Ok(())
        }
        Op::InitOo { .. } => {
            if ms.len() != 4 && ms.len() != 5 {
                return Err(Why::Count);
            }
            let auth = match ms.get(4) {
                Some(m) if !m.signer => return Err(Why::Authority),
                Some(m) => Some(o.key(m.aid)),
                None => None,
            };
            signed(ms, 1)?;
            let mk = o.load_market(a[2], false, tr)?;
            let owner = o.key(a[1]);
            o.load_oo(a[0], &mk, Some(owner), Some(auth), tr)
        }
        Op::CloseOo { .. } => {
            if ms.len() != 4 {
                return Err(Why::Count);
            }
            signed(ms, 1)?;
            let mk = o.load_market(a[3], true, tr)?;
            let owner = o.key(a[1]);
            o.load_oo(a[0], &mk, Some(owner), None, tr)?;
            let oo = o.oo(a[0]);
            if !oo.slots.is_empty() || oo.coin_total != 0 || oo.pc_total != 0 {
                return Err(Why::Nonempty);
            }
            oo.flags = F_CLOSED;
            oo.slots.clear();
            if a[0] == a[2] {
                return Err(Why::OoState);
            }
            let l = o.v(a[0]).lamports;
            o.v(a[0]).lamports = 0;
            let d = o.v(a[2]);
            d.lamports = d.lamports.checked_add(l).ok_or(Why::Arith)?;
            Ok(())
        }
        Op::Prune { limit, .. } => prune(o, ms, *limit, tr),
        Op::InitMarket { .. } => init_market(o, ms, op, tr),
        Op::Old { tag, .. } => {
            if *tag == 2 {
                Ok(())
            } else {
                Err(Why::Gone)
            }
        }
        Op::TokTransfer { amount, .. } => o.transfer(ms, a[0], a[1], Auth::Signer(a[2]), *amount, tr),
        Op::Approve { amount, .. } => {
            let t = o.token_account(a[0])?;
            if t.owner != o.key(a[2]) {
                return Err(Why::TokenAuth);
            }
            signed(ms, 2)?;
            let k = o.key(a[1]);
            let t = o.tok(a[0])?;
            t.delegate = Some(k);
            t.delegated = *amount;
            Ok(())
        }
        Op::Freeze { thaw, .. } => {
            let auth = match &o.v(a[1]).body {
                Parsed::Mint(m) => m.freeze,
                _ => return Err(Why::Subst),
            };
            if auth != Some(o.key(a[2])) {
                return Err(Why::TokenAuth);
            }
            signed(ms, 2)?;
            let mint = o.key(a[1]);
            let t = o.tok(a[0])?;
            if t.mint != mint || (t.state == 2) != *thaw {
                return Err(Why::Subst);
            }
            t.state = if *thaw { 1 } else { 2 };
            Ok(())
        }
        Op::SysTransfer { lamports, .. } => {
            signed(ms, 0)?;
            let f = o.v(a[0]);
            if f.owner != system_program::ID || f.lamports < *lamports {
                return Err(Why::Funds);
            }
            f.lamports -= *lamports;
            o.v(a[1]).lamports += *lamports;
            Ok(())
        }
        Op::CreateOo { lamports, .. } => {
            signed(ms, 0)?;
            signed(ms, 1)?;
            let dex = o.dex;
            if o.v(a[1]).lamports != 0 || o.v(a[1]).len != 0 {
                return Err(Why::OoState);
            }
            let f = o.v(a[0]);
            if f.owner != system_program::ID || f.lamports < *lamports {
                return Err(Why::Funds);
            }
            f.lamports -= *lamports;
            let v = o.v(a[1]);
            v.lamports = *lamports;
            v.len = OO_LEN;
            v.owner = dex;
            v.body = Parsed::Oo(Oo::default());
            Ok(())
        }
    }
}

/// End of a transaction: what the runtime does with the result.
pub fn commit(o: &mut Over, all: &[Vec<Meta>]) -> R<()> {
    let writable = |a: Aid| all.iter().flatten().any(|m| m.aid == a && m.writable);
    let aids: Vec<Aid> = o.m.keys().cloned().collect();
    for a in aids {
        let pre = view(o.chain, o.roles, a);
        if *o.v(a) != pre && !writable(a) {
            return Err(Why::ReadOnly);
        }
        let v = o.v(a);
        if v.lamports == 0 && v.len > 0 {
            v.len = 0;
            v.owner = system_program::ID;
            v.body = Parsed::Plain;
        }
    }
    Ok(())
}
