//! The client library: real builders, encoders, token helpers and order calls against the simulated node. What a
//! call asks for is compared with the same request written by hand, executed on a copy of the state before it.
use crate::chain::*;
use crate::crankfam::scratch;
use crate::driver::Family;
use crate::gen::{draw, Gen};
use crate::host::*;
use crate::layout::*;
use crate::node::*;
use crate::oracle::{c, Stats, Viol};
use crate::rng::{mix, Rng};
use crate::spec::*;
use crate::world::{merge_privileges, Cfg, OpT, Step as DexStep, World, SOL};
use crank::MarketPubkeys;
use serde::{Deserialize, Serialize};
use serum_common::client::rpc;
use serum_dex::instruction as ib;
use serum_dex::instruction::*;
use serum_dex::matching::{OrderType, Side};
use solana_client::rpc_client::RpcClient;
use solana_sdk::instruction::Instruction;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use solana_sdk::transaction::Transaction;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::num::NonZeroU64;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
    Cut(usize),
    Add(Vec<u8>),
    Set(usize, u8),
    Word(usize, u32),
    All(Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Call {
    /// The library's own function for the operation.
    Lib { op: Op, payer: usize },
    /// The instruction builder, sent by `send_txn`.
    Build { op: Op, payer: usize },
    /// The instruction enum's encoding under hand-written accounts.
    Pack { op: Op, payer: usize },
    /// The hand-written instruction with its bytes changed.
    Raw { op: Op, edits: Vec<Edit> },
    /// An order or an open-orders account without an account given: the library creates one.
    OrderFresh { m: usize, u: usize, o: Ord_ },
    InitFresh { m: usize, u: usize },
    Match { m: usize, u: usize, start: bool },
    ConsumeIx { m: usize, u: usize },
    Account { u: usize, len: usize, owner: Aid },
    TokenAccount { u: usize, mint: usize, owner: Aid },
    InitToken { u: usize, mint: usize },
    NewMint { u: usize, owner: usize, decimals: u8, start: bool },
    MintNew { u: usize, by: usize, mint: usize, qty: u64, start: bool },
    MintTo { u: usize, by: usize, mint: usize, to: Aid, qty: u64 },
    Transfer { u: usize, from: Aid, to: Aid, auth: usize, amount: u64 },
    GetToken { a: Aid },
    List { coin: usize, pc: usize, coin_lot: u64, pc_lot: u64 },
    Shebang,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Tx(Vec<OpT>),
    Clock(i64),
    Call {
        call: Call,
        /// What goes wrong at which of its RPC calls.
        #[serde(default, skip_serializing_if = "Vec::is_empty")]
        faults: Vec<(u16, How)>,
    },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct KCfg {
    pub world: Cfg,
    pub up_ms: u64,
    pub slot0: u64,
}

pub struct ClientW {
    pub cfg: KCfg,
    pub n: Node,
    clocks: Arc<Clocks>,
    calls: u64,
    /// Mints made by the client, with the user who may mint.
    mints: Vec<(Aid, usize)>,
    payer: Aid,
    dir: String,
}

pub struct KGen {
    g: Gen,
    fault: u32,
    lib: u32,
    rare: bool,
}

fn v(class: &str, detail: String) -> Viol {
    Viol { props: c(26), class: class.into(), detail }
}

fn nz(x: u64) -> Option<NonZeroU64> {
    NonZeroU64::new(x)
}

fn side(bid: bool) -> Side {
    if bid {
        Side::Bid
    } else {
        Side::Ask
    }
}

fn order(o: &Ord_) -> Option<NewOrderInstructionV3> {
    Some(NewOrderInstructionV3 {
        side: side(o.bid),
        limit_price: nz(o.price)?,
        max_coin_qty: nz(o.qty)?,
        max_native_pc_qty_including_fees: nz(o.pc)?,
        self_trade_behavior: SelfTradeBehavior::try_from(o.stb).ok()?,
        order_type: OrderType::try_from(o.ty).ok()?,
        client_order_id: o.cid,
        limit: o.limit,
        max_ts: o.ts.unwrap_or(i64::MAX),
    })
}

/// The hand-written rules of the encoding: the one full-length form of these bytes, if they are an instruction.
pub fn canon(b: &[u8]) -> Option<Vec<u8>> {
    if b.len() < 5 || b[0] != 0 {
        return None;
    }
    let u32_ = |d: &[u8], o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    let u64_ = |d: &[u8], o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    let ord = |d: &[u8]| {
        u32_(d, 0) < 2 && u64_(d, 4) > 0 && u64_(d, 12) > 0 && u64_(d, 20) > 0 && u32_(d, 28) < 3 && u32_(d, 32) < 3
    };
    let d = &b[5..];
    let mut out = b.to_vec();
    let ok = match (u32_(b, 1), d.len()) {
        (0, 34) => true,
        (1, 32) | (9, 36) => {
            u32_(d, 0) < 2 && u64_(d, 4) > 0 && u64_(d, 12) > 0 && u32_(d, 20) < 3 && (d.len() == 32 || u32_(d, 32) < 3)
        }
        (2, 2) | (3, 2) | (16, 2) | (17, 2) => true,
        (4, 53) | (11, 20) => u32_(d, 0) < 2,
        (5, 0) | (7, 0) | (8, 0) | (14, 0) | (15, 0) => true,
        (6, 8) | (12, 8) => true,
        (10, 46) => {
            out.extend(i64::MAX.to_le_bytes());
            ord(d)
        }
        (10, 54) | (19, 54) => ord(d),
        (13, 46) => u32_(d, 0) < 2 && u64_(d, 4) > 0 && u64_(d, 12) > 0 && u64_(d, 20) > 0,
        (18, n) => {
            out.resize(5 + 64, 0);
            n % 8 == 0 && n <= 64
        }
        (20, n) if n >= 8 => {
            let k = u64_(d, 0);
            k <= 8 && n as u64 == 8 + 54 * k && d[8..].chunks(54).all(ord)
        }
        _ => false,
    };
    if ok {
        Some(out)
    } else {
        None
    }
}

/// Bytes that are an instruction or nearly so, of any kind.
fn any_bytes(r: &mut Rng) -> Vec<u8> {
    let d = r.below(22) as u32;
    let mut b = vec![0u8];
    b.extend(d.to_le_bytes());
    fn num(r: &mut Rng, n: usize) -> Vec<u8> {
        let x = *r.pick(&[0, 1, 1, 2, 255, 256, 1 << 32, u64::MAX, 77]);
        let x = if r.below(3) == 0 { r.next() } else { x };
        x.to_le_bytes()[..n].to_vec()
    }
    fn few(r: &mut Rng, n: u64) -> Vec<u8> {
        let x = match r.below(12) {
            0 => 256 + r.below(n),
            1 => n,
            2 => 1 << 31,
            _ => r.below(n),
        };
        (x as u32).to_le_bytes().to_vec()
    }
    fn pos(r: &mut Rng) -> Vec<u8> {
        let x = if r.below(12) == 0 { 0 } else { *r.pick(&[1u64, 9, 256, 1 << 32, u64::MAX]) };
        x.to_le_bytes().to_vec()
    }
    fn ord(r: &mut Rng) -> Vec<u8> {
        let mut v = few(r, 2);
        for _ in 0..3 {
            v.extend(pos(r));
        }
        v.extend(few(r, 3));
        v.extend(few(r, 3));
        v.extend(num(r, 8));
        v.extend(num(r, 2));
        v
    }
    match d {
        0 => {
            for n in [8, 8, 2, 8, 8] {
                b.extend(num(r, n));
            }
        }
        1 | 9 => {
            b.extend(few(r, 2));
            b.extend(pos(r));
            b.extend(pos(r));
            b.extend(few(r, 3));
            b.extend(num(r, 8));
            if d == 9 {
                b.extend(few(r, 3));
            }
        }
        2 | 3 | 16 | 17 => b.extend(num(r, 2)),
        4 => {
            b.extend(few(r, 2));
            for _ in 0..6 {
                b.extend(num(r, 8));
            }
            b.push(r.next() as u8);
        }
        6 | 12 => b.extend(num(r, 8)),
        10 | 19 => {
            b.extend(ord(r));
            if r.below(3) > 0 {
                b.extend(num(r, 8));
            }
        }
        11 => {
            b.extend(few(r, 2));
            b.extend(num(r, 8));
            b.extend(num(r, 8));
        }
        13 => {
            b.extend(few(r, 2));
            for _ in 0..3 {
                b.extend(pos(r));
            }
            b.extend(num(r, 8));
            b.extend(num(r, 8));
            b.extend(num(r, 2));
        }
        18 => {
            for _ in 0..r.below(10) {
                b.extend(num(r, 8));
            }
        }
        20 => {
            let n = r.below(10);
            let said = if r.below(8) == 0 { r.below(10) } else { n };
            b.extend(said.to_le_bytes());
            for _ in 0..n {
                b.extend(ord(r));
                b.extend(num(r, 8));
            }
        }
        _ => {}
    }
    b
}

fn unpack(b: &[u8]) -> Result<Option<MarketInstruction>, ()> {
    std::panic::catch_unwind(|| MarketInstruction::unpack(b)).map_err(|_| ())
}

#[derive(Default)]
struct Out {
    key: Option<Pubkey>,
    tok: Option<spl_token::state::Account>,
    market: Option<MarketPubkeys>,
}

type Work = Box<dyn FnOnce(&RpcClient, &Arc<Mutex<Out>>) -> Result<(), String> + Send>;

fn es<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}

impl ClientW {
    fn ch(&self) -> &Chain {
        &self.n.w.chain
    }
    fn key(&self, a: Aid) -> Pubkey {
        self.n.w.chain.key(a)
    }
    /// Whoever can really sign.
    fn kp(&self, a: Aid) -> Option<Keypair> {
        if a == self.payer {
            return Some(crate::crankfam::payer_key());
        }
        let k = crate::user_keypair(self.cfg.world.seed, &self.n.w.names[a]);
        if k.pubkey() == self.key(a) {
            Some(k)
        } else {
            None
        }
    }
    fn user(&self, u: usize) -> Keypair {
        self.kp(self.n.w.users[u % self.n.w.users.len()]).expect("user key")
    }
    fn ua(&self, u: usize) -> Aid {
        self.n.w.users[u % self.n.w.users.len()]
    }
    fn keys(&self, m: usize) -> MarketPubkeys {
        let k = &self.n.w.mk[m];
        let b = |a| Box::new(self.key(a));
        MarketPubkeys {
            market: b(k.market),
            req_q: b(k.reqq),
            event_q: b(k.evq),
            bids: b(k.bids),
            asks: b(k.asks),
            coin_vault: b(k.coin_vault),
            pc_vault: b(k.pc_vault),
            vault_signer_key: b(k.signer),
        }
    }

    fn market_ix(&self, op: &Op) -> Option<MarketInstruction> {
        Some(match op {
            Op::New { o, .. } => MarketInstruction::NewOrderV3(order(o)?),
            Op::Replace { os, single, .. } if *single && os.len() == 1 => {
                MarketInstruction::ReplaceOrderByClientId(order(&os[0])?)
            }
            Op::Replace { os, .. } => {
                MarketInstruction::ReplaceOrdersByClientIds(os.iter().map(order).collect::<Option<Vec<_>>>()?)
            }
            Op::Take { bid, price, qty, pc, min_coin, min_pc, limit, .. } => {
                MarketInstruction::SendTake(SendTakeInstruction {
                    side: side(*bid),
                    limit_price: nz(*price)?,
                    max_coin_qty: nz(*qty)?,
                    max_native_pc_qty_including_fees: nz(*pc)?,
                    min_coin_qty: *min_coin,
                    min_native_pc_qty: *min_pc,
                    limit: *limit,
                })
            }
            Op::Cancel { bid, id, .. } => MarketInstruction::CancelOrderV2(CancelOrderInstructionV2 {
                side: side(*bid),
                order_id: self.n.w.oid_of(id),
            }),
            Op::CancelCid { cid, .. } => MarketInstruction::CancelOrderByClientIdV2(*cid),
            Op::CancelCids { cids, .. } => MarketInstruction::CancelOrdersByClientIds(eight(cids)),
            Op::Consume { limit, .. } => MarketInstruction::ConsumeEvents(*limit),
            Op::ConsumePerm { limit, .. } => MarketInstruction::ConsumeEventsPermissioned(*limit),
            Op::Settle { .. } => MarketInstruction::SettleFunds,
            Op::Sweep { .. } => MarketInstruction::SweepFees,
            Op::Disable { .. } => MarketInstruction::DisableMarket,
            Op::InitOo { .. } => MarketInstruction::InitOpenOrders,
            Op::CloseOo { .. } => MarketInstruction::CloseOpenOrders,
            Op::Prune { limit, .. } => MarketInstruction::Prune(*limit),
            Op::InitMarket { coin_lot, pc_lot, bps, nonce, dust, .. } => {
                MarketInstruction::InitializeMarket(InitializeMarketInstruction {
                    coin_lot_size: *coin_lot,
                    pc_lot_size: *pc_lot,
                    fee_rate_bps: *bps,
                    vault_signer_nonce: *nonce,
                    pc_dust_threshold: *dust,
                })
            }
            _ => return None,
        })
    }

    fn build(&self, op: &Op) -> Option<Instruction> {
        let w = &self.n.w;
        let d = w.dex;
        let k = |a: &Aid| self.key(*a);
        let tp = spl_token::ID;
        let rent = solana_program::sysvar::rent::ID;
        let mk = &w.mk[World::op_market(op)?];
        let [market, reqq, evq, bids, asks, cv, pv, vs] =
            [mk.market, mk.reqq, mk.evq, mk.bids, mk.asks, mk.coin_vault, mk.pc_vault, mk.signer].map(|a| self.key(a));
        match op {
            Op::New { oo, owner, payer, disc, o, .. } => {
                let x = order(o)?;
                ib::new_order(
                    &market,
                    &k(oo),
                    &reqq,
                    &evq,
                    &bids,
                    &asks,
                    &k(payer),
                    &k(owner),
                    &cv,
                    &pv,
                    &tp,
                    &rent,
                    disc.as_ref().map(|a| k(a)).as_ref(),
                    &d,
                    x.side,
                    x.limit_price,
                    x.max_coin_qty,
                    x.order_type,
                    x.client_order_id,
                    x.self_trade_behavior,
                    x.limit,
                    x.max_native_pc_qty_including_fees,
                    x.max_ts,
                )
            }
            Op::Take { signer, cw, pw, disc, bid, price, qty, pc, min_coin, min_pc, limit, .. } => ib::send_take(
                &market,
                &reqq,
                &evq,
                &bids,
                &asks,
                &k(cw),
                &k(pw),
                &k(signer),
                &cv,
                &pv,
                &tp,
                &vs,
                disc.as_ref().map(|a| k(a)).as_ref(),
                &d,
                side(*bid),
                nz(*price)?,
                nz(*qty)?,
                nz(*pc)?,
                *min_coin,
                *min_pc,
                *limit,
            ),
            Op::Cancel { oo, owner, bid, id, .. } => {
                ib::cancel_order(&d, &market, &bids, &asks, &k(oo), &k(owner), &evq, side(*bid), w.oid_of(id))
            }
            Op::CancelCid { oo, owner, cid, .. } => {
                ib::cancel_order_by_client_order_id(&d, &market, &bids, &asks, &k(oo), &k(owner), &evq, *cid)
            }
            Op::CancelCids { oo, owner, cids, .. } => ib::cancel_orders_by_client_order_ids(
                &d,
                &market,
                &bids,
                &asks,
                &k(oo),
                &k(owner),
                &evq,
                eight(cids),
            ),
            Op::Consume { oos, limit, .. } => {
                let v: Vec<Pubkey> = oos.iter().map(k).collect();
                ib::consume_events(
                    &d,
                    v.iter().collect(),
                    &market,
                    &evq,
                    &self.key(w.refs[mk.cfg.coin]),
                    &self.key(w.refs[mk.cfg.pc]),
                    *limit,
                )
            }
            Op::ConsumePerm { oos, auth, limit, .. } => {
                let v: Vec<Pubkey> = oos.iter().map(k).collect();
                ib::consume_events_permissioned(&d, v.iter().collect(), &market, &evq, &k(auth), *limit)
            }
            Op::Settle { oo, owner, cw, pw, refr, .. } => ib::settle_funds(
                &d,
                &market,
                &tp,
                &k(oo),
                &k(owner),
                &cv,
                &k(cw),
                &pv,
                &k(pw),
                refr.as_ref().map(|a| k(a)).as_ref(),
                &vs,
            ),
            Op::Sweep { auth, to, .. } => ib::sweep_fees(&d, &market, &pv, &k(auth), &k(to), &vs, &tp),
            Op::Disable { auth, .. } => ib::disable_market(&d, &market, &k(auth)),
            Op::InitOo { oo, owner, auth, .. } => {
                ib::init_open_orders(&d, &k(oo), &k(owner), &market, auth.as_ref().map(|a| k(a)).as_ref())
            }
            Op::CloseOo { oo, owner, dest, .. } => ib::close_open_orders(&d, &k(oo), &k(owner), &k(dest), &market),
            Op::Prune { auth, oo, owner, limit, .. } => {
                ib::prune(&d, &market, &bids, &asks, &k(auth), &k(oo), &k(owner), &evq, *limit)
            }
            Op::InitMarket { auths, coin_lot, pc_lot, bps: 0, nonce, dust, .. } => ib::initialize_market(
                &market,
                &d,
                &self.key(mk.mints[0]),
                &self.key(mk.mints[1]),
                &cv,
                &pv,
                auths.get(0).map(|a| k(a)).as_ref(),
                auths.get(1).map(|a| k(a)).as_ref(),
                auths.get(2).map(|a| k(a)).as_ref(),
                &bids,
                &asks,
                &reqq,
                &evq,
                *coin_lot,
                *pc_lot,
                *nonce,
                *dust,
            ),
            _ => return None,
        }
        .ok()
    }

    fn to_ix(&mut self, i: &Instruction) -> Ix {
        Ix {
            program: i.program_id,
            metas: i
                .accounts
                .iter()
                .map(|m| Meta { aid: self.n.aid_or_new(&m.pubkey), signer: m.is_signer, writable: m.is_writable })
                .collect(),
            data: i.data.clone(),
        }
    }

    fn file(&self, k: &Keypair, what: &str) -> String {
        let id = format!("{:?}", std::thread::current().id());
        let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
        let f = format!("{}/{}-{}.json", self.dir, id, what);
        let b: Vec<u8> = k.to_bytes().to_vec();
        std::fs::write(&f, serde_json::to_string(&b).unwrap()).expect("key file");
        f
    }

    fn opts(command: crank::Command) -> crank::Opts {
        crank::Opts { cluster: serum_common::client::Cluster::Custom("http://simulated".into()), command }
    }

    /// Runs the client to its end; gives its outcome and whether anything went wrong on the way.
    fn run(&mut self, work: Work, faults: &[(u16, How)], st: &mut Stats) -> Result<(Result<(), String>, bool, Out), Viol> {
        self.calls += 1;
        // Two equal transactions under one blockhash are one transaction: each call gets a blockhash of its own.
        self.n.tick(SLOT_MS);
        self.n.put = (self.ch().clock, self.ch().slot);
        self.sync();
        let out = Arc::new(Mutex::new(Out::default()));
        let o2 = out.clone();
        let mut p = Proc::start(self.clocks.clone(), mix(&[self.cfg.world.seed, self.calls]), move || {
            let c = client();
            work(&c, &o2)
        });
        let mut i = 0u16;
        let mut hit = false;
        loop {
            if p.hung {
                return Err(v("client hangs", "a call never came back".into()));
            }
            if let Some(e) = p.ended() {
                let e = e.clone();
                drop(p);
                let out = Arc::try_unwrap(out).map(|m| m.into_inner().unwrap_or_default()).unwrap_or_default();
                let r = match e {
                    End::Ok => Ok(()),
                    End::Err(e) => Err(e),
                    End::Panic(e) => Err(format!("panic: {}", e)),
                    End::Killed => Err("killed".into()),
                };
                st.log(&[21, r.is_ok() as u64, i as u64]);
                return Ok((r, hit, out));
            }
            match std::mem::replace(&mut p.th[0].st, St::Gone) {
                St::Rpc(req, params) => {
                    let how = faults.iter().find(|f| f.0 == i).map(|f| f.1).unwrap_or(How::Ok);
                    i += 1;
                    match how {
                        How::Ok => {}
                        How::Fail(_) => st.hit("fault: RPC error"),
                        How::FailAfter(_) => st.hit("fault: RPC error after the effect"),
                        How::Stale(_) => st.hit("fault: stale RPC answer"),
                        How::Null => st.hit("fault: account unknown to the node"),
                        How::Lose => st.hit("fault: transaction lost"),
                    }
                    hit |= how != How::Ok;
                    let (res, _) = self.n.serve(&req, &params, how);
                    self.sync();
                    p.answer(0, res);
                }
                St::Sleep(until) => {
                    if until > self.n.up_ms {
                        self.n.tick(until - self.n.up_ms);
                    }
                    self.sync();
                    p.go(0);
                }
                other => {
                    p.th[0].st = other;
                    p.go(0);
                }
            }
        }
    }

    fn sync(&mut self) {
        self.clocks.up_ms.store(self.n.up_ms, Ordering::SeqCst);
        self.clocks.unix_ms.store((self.n.w.chain.clock.max(0) * 1000) as u64, Ordering::SeqCst);
    }

    /// The state as it was, with blank accounts where new ones appeared since.
    fn padded(&self, pre: &Chain) -> Chain {
        let mut ch = pre.clone();
        while ch.accts.len() < self.ch().accts.len() {
            let a = &self.ch().accts[ch.accts.len()];
            ch.accts.push(Acct { key: a.key, owner: solana_program::system_program::ID, data: vec![], lamports: 0 });
        }
        ch
    }

    fn diff(&self, want: &Chain) -> Option<String> {
        for (a, x) in self.ch().accts.iter().enumerate() {
            let y = match want.accts.get(a) {
                Some(y) => y,
                None => return Some(format!("{} appeared", self.n.w.names[a])),
            };
            if x != y {
                let at = x.data.iter().zip(y.data.iter()).position(|(p, q)| p != q);
                return Some(format!(
                    "{}: {} lamports, {} bytes instead of {} and {}, first difference at {:?}",
                    self.n.w.names[a],
                    x.lamports,
                    x.data.len(),
                    y.lamports,
                    y.data.len(),
                    at
                ));
            }
        }
        None
    }

    fn same(&self, want: &Chain) -> bool {
        self.diff(want).is_none()
    }

    /// Compares what happened with what was asked for. `want`: the state after the request, if it can be met.
    fn judge(
        &mut self,
        what: &str,
        pre: &Chain,
        want: Option<&Chain>,
        r: &Result<(), String>,
        faulty: bool,
        st: &mut Stats,
    ) -> Vec<Viol> {
        let pre = self.padded(pre);
        let mut out = vec![];
        match (r, want) {
            (Ok(()), Some(w)) => {
                st.hit("client calls done");
                st.hit("tx committed");
                if let Some(d) = self.diff(w) {
                    out.push(v("client call does something else", format!("{}: {}", what, d)));
                }
            }
            (Ok(()), None) => {
                out.push(v("client reports success", format!("{}: the exchange refuses what was asked for", what)))
            }
            (Err(e), w) => {
                st.hit("client calls failed");
                if !faulty {
                    if w.is_some() {
                        out.push(v("client call fails", format!("{}: {}", what, e)));
                    } else if let Some(d) = self.diff(&pre) {
                        out.push(v("failed client call has effects", format!("{}: {}", what, d)));
                    }
                } else if !self.same(&pre) && !w.map(|w| self.same(w)).unwrap_or(false) {
                    out.push(v(
                        "failed client call has effects",
                        format!("{} with faults: {}", what, self.diff(&pre).unwrap_or_default()),
                    ));
                } else if !self.same(&pre) {
                    st.hit("client calls done though reported failed");
                }
            }
        }
        out
    }

    /// Hand-written transaction of these operations with this fee payer, on a copy of `pre`.
    fn by_hand(&self, pre: &Chain, mut ixs: Vec<Ix>, payer: Aid) -> Option<Chain> {
        for m in ixs.iter_mut().flat_map(|i| i.metas.iter_mut()) {
            if m.aid == payer {
                m.signer = true;
                m.writable = true;
            }
        }
        merge_privileges(&mut ixs);
        let mut ch = self.padded(pre);
        ch.clock = self.n.put.0;
        ch.slot = self.n.put.1;
        let r = ch.exec(&ixs, &Faults::default());
        if r.ok {
            Some(ch)
        } else {
            None
        }
    }

    /// The accounts that came to life since.
    fn born(&self, pre: &Chain) -> Vec<Aid> {
        (pre.accts.len()..self.ch().accts.len()).filter(|a| self.ch().accts[*a].lamports > 0).collect()
    }

    fn signers(&self, op: &Op) -> Option<Vec<Keypair>> {
        let ix = self.n.w.build(op, &[]);
        ix.metas.iter().filter(|m| m.signer).map(|m| self.kp(m.aid)).collect()
    }

    fn name(op: &Op) -> String {
        let s = format!("{:?}", op);
        s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
    }

    fn call(&mut self, call: &Call, faults: &[(u16, How)], st: &mut Stats) -> Result<Vec<Viol>, Viol> {
        let dex = self.n.w.dex;
        let pre = self.ch().clone();
        st.hit("client calls");
        st.hit(match call {
            Call::Lib { .. } => "call: library function",
            Call::Build { .. } => "call: instruction builder",
            Call::Pack { .. } => "call: instruction encoder",
            Call::Raw { .. } => "call: changed bytes",
            Call::OrderFresh { .. } => "call: order without an account",
            Call::InitFresh { .. } => "call: new open-orders account",
            Call::Match { .. } => "call: match orders",
            Call::ConsumeIx { .. } => "call: consume_events_instruction",
            Call::Account { .. } => "call: new account",
            Call::TokenAccount { .. } => "call: new token account",
            Call::InitToken { .. } => "call: InitializeTokenAccount",
            Call::NewMint { .. } => "call: new mint",
            Call::MintNew { .. } => "call: mint to a new account",
            Call::MintTo { .. } => "call: mint",
            Call::Transfer { .. } => "call: transfer",
            Call::GetToken { .. } => "call: read a token account",
            Call::List { .. } => "call: list a market",
            Call::Shebang => "call: whole shebang",
        });
        match call {
            Call::Raw { op, edits } => {
                let mut ix = self.n.w.build(op, &[]);
                for e in edits {
                    match e {
                        Edit::All(b) => ix.data = b.clone(),
                        Edit::Cut(n) => ix.data.truncate(*n),
                        Edit::Add(b) => ix.data.extend(b),
                        Edit::Set(i, x) => {
                            if let Some(p) = ix.data.get_mut(*i) {
                                *p = *x
                            }
                        }
                        Edit::Word(i, x) => {
                            if ix.data.len() >= i + 4 {
                                ix.data[*i..*i + 4].copy_from_slice(&x.to_le_bytes())
                            }
                        }
                    }
                }
                let want = canon(&ix.data);
                let what = format!("{} as {} bytes", Self::name(op), ix.data.len());
                let got = match unpack(&ix.data) {
                    Ok(g) => g,
                    Err(()) => return Ok(vec![v("decoding panics", what)]),
                };
                let mut out = vec![];
                match (&want, &got) {
                    (None, Some(g)) => {
                        st.hit("malformed bytes");
                        out.push(v("malformed bytes accepted", format!("{} decode to {:?}", what, g)))
                    }
                    (None, None) => {
                        st.hit("malformed bytes");
                    }
                    (Some(_), None) => out.push(v("instruction rejected", format!("{} do not decode", what))),
                    (Some(w), Some(g)) => {
                        st.hit("changed bytes that still are an instruction");
                        if g.pack() != *w {
                            out.push(v("decodes to something else", format!("{} decode to {:?}", what, g)));
                        }
                    }
                }
                let mut ch = pre.clone();
                let r = ch.exec(&[ix.clone()], &Faults::default());
                match want {
                    None => {
                        if r.ok || ch.accts != pre.accts {
                            out.push(v("malformed bytes have effects", what));
                        }
                    }
                    Some(w) => {
                        let mut c2 = pre.clone();
                        let r2 = c2.exec(&[Ix { data: w, ..ix }], &Faults::default());
                        if r.ok != r2.ok || ch.accts != c2.accts {
                            out.push(v("decodes to something else", format!("{}: another effect", what)));
                        }
                    }
                }
                st.log(&[22, r.ok as u64]);
                Ok(out)
            }
            Call::Pack { op, payer } | Call::Build { op, payer } => {
                let mut out = vec![];
                let mut hand = self.n.w.build(op, &[]);
                if let Some(c) = canon(&hand.data) {
                    hand.data = c;
                }
                let mi = match self.market_ix(op) {
                    Some(m) => m,
                    None => return Ok(out),
                };
                let packed = mi.pack();
                let name = Self::name(op);
                if packed != hand.data {
                    out.push(v("encodes to something else", format!("{}: {:?}", name, mi)));
                }
                match unpack(&packed) {
                    Ok(Some(m)) if m == mi => {}
                    x => out.push(v("does not round-trip", format!("{:?} decodes to {:?}", mi, x))),
                }
                let ins = match call {
                    Call::Pack { .. } => Instruction {
                        program_id: dex,
                        accounts: hand
                            .metas
                            .iter()
                            .map(|m| solana_sdk::instruction::AccountMeta {
                                pubkey: self.key(m.aid),
                                is_signer: m.signer,
                                is_writable: m.writable,
                            })
                            .collect(),
                        data: packed,
                    },
                    _ => match self.build(op) {
                        Some(i) => i,
                        None => return Ok(out),
                    },
                };
                let payer = self.ua(*payer);
                if let Some(sg) = self.signers(op) {
                    let pay = self.kp(payer).unwrap();
                    let work: Work = Box::new(move |c, _| {
                        let h = es(c.get_latest_blockhash())?;
                        let mut s = vec![&pay];
                        s.extend(sg.iter());
                        let mut t = Transaction::new_with_payer(&[ins], Some(&pay.pubkey()));
                        // Whoever the instruction wants to sign has to.
                        es(t.try_sign(&s, h))?;
                        es(rpc::send_txn(c, &t, false)).map(|_| ())
                    });
                    let (r, bad, _) = self.run(work, faults, st)?;
                    let want = self.by_hand(&pre, vec![hand], payer);
                    out.extend(self.judge(&name, &pre, want.as_ref(), &r, bad, st));
                } else {
                    // Nobody here holds the key: put to the exchange directly.
                    st.hit("built instructions put directly");
                    self.n.put = (self.ch().clock, self.ch().slot);
                    let ix = self.to_ix(&ins);
                    let want = self.by_hand(&pre, vec![hand], payer);
                    let mut ixs = vec![ix];
                    merge_privileges(&mut ixs);
                    let r = self.n.w.chain.exec(&ixs, &Faults::default());
                    self.n.changed();
                    let r = if r.ok { Ok(()) } else { Err(r.err) };
                    out.extend(self.judge(&name, &pre, want.as_ref(), &r, false, st));
                }
                Ok(out)
            }
            Call::Lib { op, payer } => {
                let m = World::op_market(op).unwrap_or(0);
                let keys = self.keys(m);
                let mut hand = self.n.w.build(op, &[]);
                if let Some(c) = canon(&hand.data) {
                    hand.data = c;
                }
                let (work, fee): (Work, Aid) = match op {
                    Op::New { oo, owner, payer, disc: None, o, .. } => {
                        let (ow, wal, oo) = (self.kp(*owner), self.key(*payer), self.key(*oo));
                        let (ow, o) = match (ow, order(o)) {
                            (Some(a), Some(b)) => (a, b),
                            _ => return Ok(vec![]),
                        };
                        let fee = *owner;
                        (
                            Box::new(move |c, _| {
                                es(crank::place_order(c, &dex, &ow, &wal, &keys, &mut Some(oo), o))
                            }),
                            fee,
                        )
                    }
                    Op::CancelCid { oo, owner, cid, .. } => {
                        let (ow, oo, cid) = (self.kp(*owner), self.key(*oo), *cid);
                        let ow = match ow {
                            Some(a) => a,
                            None => return Ok(vec![]),
                        };
                        (
                            Box::new(move |c, _| es(crank::cancel_order_by_client_order_id(c, &dex, &ow, &keys, &oo, cid))),
                            *owner,
                        )
                    }
                    Op::CancelCids { oo, owner, cids, .. } => {
                        let (ow, oo, cids) = (self.kp(*owner), self.key(*oo), eight(cids));
                        let ow = match ow {
                            Some(a) => a,
                            None => return Ok(vec![]),
                        };
                        (
                            Box::new(move |c, _| {
                                es(crank::cancel_orders_by_client_order_ids(c, &dex, &ow, &keys, &oo, cids))
                            }),
                            *owner,
                        )
                    }
                    Op::InitOo { oo, owner, auth: None, .. } => {
                        let (ow, oo) = (self.kp(*owner), self.key(*oo));
                        let ow = match ow {
                            Some(a) => a,
                            None => return Ok(vec![]),
                        };
                        (Box::new(move |c, _| es(crank::init_open_orders(c, &dex, &ow, &keys, &mut Some(oo)))), *owner)
                    }
                    Op::CloseOo { oo, owner, dest, .. } if owner == dest => {
                        let (ow, oo) = (self.kp(*owner), self.key(*oo));
                        let ow = match ow {
                            Some(a) => a,
                            None => return Ok(vec![]),
                        };
                        (Box::new(move |c, _| es(crank::close_open_orders(c, &dex, &ow, &keys, &oo))), *owner)
                    }
                    Op::Settle { oo, owner, cw, pw, refr: None, .. } => {
                        let ow = match self.kp(*owner) {
                            Some(a) => a,
                            None => return Ok(vec![]),
                        };
                        let fee = self.ua(*payer);
                        let (pf, sf) = if fee == *owner {
                            (self.file(&ow, "payer"), if self.calls % 2 == 0 { None } else { Some(self.file(&ow, "signer")) })
                        } else {
                            let k = self.kp(fee).unwrap();
                            (self.file(&k, "payer"), Some(self.file(&ow, "signer")))
                        };
                        let o = Self::opts(crank::Command::SettleFunds {
                            payer: pf,
                            dex_program_id: dex,
                            market: *keys.market,
                            orders: self.key(*oo),
                            coin_wallet: self.key(*cw),
                            pc_wallet: self.key(*pw),
                            signer: sf,
                        });
                        (Box::new(move |_, _| es(crank::start(o))), fee)
                    }
                    _ => return Ok(vec![]),
                };
                let name = Self::name(op);
                st.hit(match op {
                    Op::New { .. } => "library: place_order",
                    Op::CancelCid { .. } => "library: cancel by client id",
                    Op::CancelCids { .. } => "library: cancel by client ids",
                    Op::InitOo { .. } => "library: init_open_orders",
                    Op::CloseOo { .. } => "library: close_open_orders",
                    _ => "library: settle_funds",
                });
                let init = self.n.w.mk[m].cfg.init || self.n.w.market(m).is_some();
                let (r, bad, _) = self.run(work, faults, st)?;
                if !init && matches!(op, Op::Settle { .. }) {
                    // Not a market: the client cannot even name its accounts.
                    return Ok(self.judge(&name, &pre, None, &r, bad, st));
                }
                let want = self.by_hand(&pre, vec![hand], fee);
                Ok(self.judge(&name, &pre, want.as_ref(), &r, bad, st))
            }
            Call::OrderFresh { m, u, o } => {
                let x = match order(o) {
                    Some(x) => x,
                    None => return Ok(vec![]),
                };
                let ow = self.user(*u);
                let owner = self.ua(*u);
                let k = &self.n.w.mk[*m];
                let ui = *u % self.n.w.users.len();
                let payer = self.n.w.toks[ui][if o.bid { k.cfg.pc } else { k.cfg.coin }][0];
                let (wal, keys) = (self.key(payer), self.keys(*m));
                let work: Work = Box::new(move |c, out| {
                    let mut oo = None;
                    let r = crank::place_order(c, &dex, &ow, &wal, &keys, &mut oo, x);
                    out.lock().unwrap().key = oo;
                    es(r)
                });
                let (r, bad, out) = self.run(work, faults, st)?;
                let oo = self.fresh(&pre, &out);
                let op = Op::New { m: *m, oo, owner, payer, disc: None, o: o.clone() };
                self.fresh_judge("an order without an account", pre, oo, owner, op, r, bad, st)
            }
            Call::InitFresh { m, u } => {
                let ow = self.user(*u);
                let owner = self.ua(*u);
                let keys = self.keys(*m);
                let work: Work = Box::new(move |c, out| {
                    let mut oo = None;
                    let r = crank::init_open_orders(c, &dex, &ow, &keys, &mut oo);
                    out.lock().unwrap().key = oo;
                    es(r)
                });
                let (r, bad, out) = self.run(work, faults, st)?;
                let oo = self.fresh(&pre, &out);
                let op = Op::InitOo { m: *m, oo, owner, auth: None };
                self.fresh_judge("a new open-orders account", pre, oo, owner, op, r, bad, st)
            }
            Call::Match { m, u, start } => {
                let k = &self.n.w.mk[*m];
                let (cw, pw) = (self.key(self.n.w.refs[k.cfg.coin]), self.key(self.n.w.refs[k.cfg.pc]));
                let keys = self.keys(*m);
                let kp = self.user(*u);
                let work: Work = if *start {
                    let o = Self::opts(crank::Command::MatchOrders {
                        dex_program_id: dex,
                        payer: self.file(&kp, "payer"),
                        market: *keys.market,
                        coin_wallet: cw,
                        pc_wallet: pw,
                    });
                    Box::new(move |_, _| es(crank::start(o)))
                } else {
                    Box::new(move |c, _| es(crank::match_orders(c, &dex, &kp, &keys, &cw, &pw)))
                };
                let (_, _, _) = self.run(work, faults, st)?;
                // Matching is no longer a step of its own: nothing may change, whatever is reported.
                let p = self.padded(&pre);
                Ok(match self.diff(&p) {
                    Some(d) => vec![v("client call does something else", format!("MatchOrders: {}", d))],
                    None => vec![],
                })
            }
            Call::ConsumeIx { m, u } => {
                let k = self.n.w.mk[*m].clone();
                let (cw, pw) = (self.key(self.n.w.refs[k.cfg.coin]), self.key(self.n.w.refs[k.cfg.pc]));
                let (keys, kp) = (self.keys(*m), self.user(*u));
                let evs = evq(&pre.accts[k.evq].data).map(|q| q.evs).unwrap_or_default();
                let work: Work = Box::new(move |c, out| {
                    let i = match es(crank::consume_events_instruction(c, &dex, &keys, &cw, &pw))? {
                        Some(i) => i,
                        None => return Ok(()),
                    };
                    out.lock().unwrap().key = Some(i.program_id);
                    let h = es(c.get_latest_blockhash())?;
                    let t = Transaction::new_signed_with_payer(&[i], Some(&kp.pubkey()), &[&kp], h);
                    es(rpc::send_txn(c, &t, false)).map(|_| ())
                });
                let (r, bad, o) = self.run(work, faults, st)?;
                let fee = self.ua(*u);
                if self.n.w.market(*m).is_none() {
                    let p = self.padded(&pre);
                    return Ok(match self.diff(&p) {
                        Some(d) => vec![v("client call does something else", format!("ConsumeEvents, no market: {}", d))],
                        None => vec![],
                    });
                }
                let did = evs.len() - self.n.w.evq(*m).evs.len().min(evs.len());
                let mut oos: BTreeSet<Aid> = Default::default();
                for e in &evs {
                    if let Some(a) = self.n.aid(&pk(&e.owner)) {
                        oos.insert(a);
                    }
                    if oos.len() == 24 {
                        break;
                    }
                }
                let mut oos: Vec<Aid> = oos.into_iter().collect();
                self.n.w.sort_oos(&mut oos);
                let mut out = vec![];
                if !bad && o.key.is_none() && r.is_ok() && !evs.is_empty() {
                    out.push(v("client call does something else", format!("no transaction for {} events", evs.len())));
                    return Ok(out);
                }
                if r.is_ok() && did == 0 && !evs.is_empty() && !bad {
                    out.push(v("client call does something else", format!("none of {} events consumed", evs.len())));
                }
                let want = if evs.is_empty() || did == 0 {
                    if evs.is_empty() || bad { Some(self.padded(&pre)) } else { None }
                } else {
                    let hand = self.n.w.build(&Op::Consume { m: *m, oos: oos.clone(), limit: did as u16 }, &[]);
                    self.by_hand(&pre, vec![hand], fee)
                };
                if want.is_none() {
                    // Can it be done at all?
                    let hand = self.n.w.build(&Op::Consume { m: *m, oos, limit: 1 }, &[]);
                    let one = self.by_hand(&pre, vec![hand], fee);
                    out.extend(self.judge("ConsumeEvents", &pre, one.as_ref(), &r, bad, st));
                } else {
                    out.extend(self.judge("ConsumeEvents", &pre, want.as_ref(), &r, bad, st));
                }
                Ok(out)
            }
            Call::Account { u, len, owner } => {
                let (kp, own, len) = (self.user(*u), self.key(*owner), *len);
                let work: Work = Box::new(move |c, out| {
                    let k = es(rpc::create_account_rent_exempt(c, &kp, len, &own))?;
                    out.lock().unwrap().key = Some(k.pubkey());
                    Ok(())
                });
                let (r, bad, out) = self.run(work, faults, st)?;
                let a = self.fresh(&pre, &out);
                let mut w = self.padded(&pre);
                let ok = self.give(&mut w, self.ua(*u), a, vec![0; len], own);
                Ok(self.judge("a new account", &pre, if ok { Some(&w) } else { None }, &r, bad, st))
            }
            Call::TokenAccount { u, mint, owner } => {
                let mint = self.mint_at(*mint);
                let (kp, own, mk) = (self.user(*u), self.key(*owner), self.key(mint));
                let work: Work = Box::new(move |c, out| {
                    let k = es(rpc::create_token_account(c, &mk, &own, &kp))?;
                    out.lock().unwrap().key = Some(k.pubkey());
                    Ok(())
                });
                let (r, bad, out) = self.run(work, faults, st)?;
                self.new_tok("a new token account", pre, *u, mint, own, 0, r, bad, out, st)
            }
            Call::InitToken { u, mint } => {
                let mint = self.mint_at(*mint);
                let kp = self.user(*u);
                let own = kp.pubkey();
                let o = Self::opts(crank::Command::InitializeTokenAccount {
                    mint: self.key(mint),
                    owner_account: self.file(&kp, "payer"),
                });
                let work: Work = Box::new(move |_, _| es(crank::start(o)));
                let (r, bad, out) = self.run(work, faults, st)?;
                self.new_tok("InitializeTokenAccount", pre, *u, mint, own, 0, r, bad, out, st)
            }
            Call::NewMint { u, owner, decimals, start } => {
                let (kp, own, d) = (self.user(*u), self.user(*owner).pubkey(), *decimals);
                let work: Work = if *start {
                    let mk = crate::user_keypair(self.cfg.world.seed, &format!("mint call {}", self.calls));
                    let o = Self::opts(crank::Command::Genesis {
                        payer: self.file(&kp, "payer"),
                        mint: self.file(&mk, "mint"),
                        owner_pubkey: own,
                        decimals: d,
                    });
                    Box::new(move |_, out| {
                        es(crank::start(o))?;
                        out.lock().unwrap().key = Some(mk.pubkey());
                        Ok(())
                    })
                } else {
                    Box::new(move |c, out| {
                        let (k, _) = es(rpc::new_mint(c, &kp, &own, d))?;
                        out.lock().unwrap().key = Some(k.pubkey());
                        Ok(())
                    })
                };
                let (r, bad, out) = self.run(work, faults, st)?;
                let a = self.fresh(&pre, &out);
                let mut w = self.padded(&pre);
                let ms = MintSt { authority: Some(own.to_bytes()), decimals: d, init: true, ..MintSt::default() };
                let ok = self.give(&mut w, self.ua(*u), a, mint_bytes(&ms), spl_token::ID);
                let x = self.judge("a new mint", &pre, if ok { Some(&w) } else { None }, &r, bad, st);
                if x.is_empty() && self.born(&pre).contains(&a) {
                    let o = *owner % self.n.w.users.len();
                    self.mints.push((a, o));
                }
                Ok(x)
            }
            Call::MintNew { u, by, mint: mi, qty, start } => {
                let (m, auth) = match self.mints.get(*mi % self.mints.len().max(1)) {
                    Some(x) => *x,
                    None => return Ok(vec![]),
                };
                let (kp, bk, mk, q) = (self.user(*u), self.user(*by), self.key(m), *qty);
                let own = kp.pubkey();
                let work: Work = if *start {
                    let o = Self::opts(crank::Command::Mint {
                        payer: self.file(&kp, "payer"),
                        signer: self.file(&bk, "signer"),
                        mint_pubkey: mk,
                        recipient: None,
                        quantity: q,
                    });
                    Box::new(move |_, _| es(crank::start(o)))
                } else {
                    Box::new(move |c, out| {
                        let k = es(rpc::mint_to_new_account(c, &kp, &bk, &mk, q))?;
                        out.lock().unwrap().key = Some(k.pubkey());
                        Ok(())
                    })
                };
                let (r, bad, out) = self.run(work, faults, st)?;
                let a = self.fresh(&pre, &out);
                let mut w = self.padded(&pre);
                let ms = mint(&w.accts[m].data).unwrap_or_default();
                let may = *by % self.n.w.users.len() == auth;
                let want = match ms.supply.checked_add(q) {
                    Some(s) if may => {
                        w.accts[m].data = mint_bytes(&MintSt { supply: s, ..ms });
                        let t = Tok { mint: mk.to_bytes(), owner: own.to_bytes(), amount: q, state: 1, ..Tok::default() };
                        let ok = self.give(&mut w, self.ua(*u), a, tok_bytes(&t), spl_token::ID);
                        if ok {
                            Some(w)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                Ok(self.judge("minting to a new account", &pre, want.as_ref(), &r, bad, st))
            }
            Call::MintTo { u, by, mint: mi, to, qty } => {
                let (m, auth) = match self.mints.get(*mi % self.mints.len().max(1)) {
                    Some(x) => *x,
                    None => return Ok(vec![]),
                };
                let o = Self::opts(crank::Command::Mint {
                    payer: self.file(&self.user(*u), "payer"),
                    signer: self.file(&self.user(*by), "signer"),
                    mint_pubkey: self.key(m),
                    recipient: Some(self.key(*to)),
                    quantity: *qty,
                });
                let (r, bad, _) = self.run(Box::new(move |_, _| es(crank::start(o))), faults, st)?;
                let mut w = self.padded(&pre);
                let ms = mint(&w.accts[m].data).unwrap_or_default();
                let t = tok(&w.accts[*to].data);
                let fits = t
                    .as_ref()
                    .map(|t| t.mint == self.key(m).to_bytes() && t.state == 1 && w.accts[*to].owner == spl_token::ID)
                    .unwrap_or(false);
                let want = match (ms.supply.checked_add(*qty), t) {
                    (Some(s), Some(t)) if fits && *by % self.n.w.users.len() == auth => {
                        w.accts[m].data = mint_bytes(&MintSt { supply: s, ..ms });
                        w.accts[*to].data[64..72].copy_from_slice(&(t.amount + qty).to_le_bytes());
                        Some(w)
                    }
                    _ => None,
                };
                Ok(self.judge("minting", &pre, want.as_ref(), &r, bad, st))
            }
            Call::Transfer { u, from, to, auth, amount } => {
                let (kp, ak, fk, tk, am) = (self.user(*u), self.user(*auth), self.key(*from), self.key(*to), *amount);
                let work: Work = Box::new(move |c, _| es(rpc::transfer(c, &fk, &tk, am, &ak, &kp)).map(|_| ()));
                let (r, bad, _) = self.run(work, faults, st)?;
                let hand =
                    self.n.w.build(&Op::TokTransfer { from: *from, to: *to, auth: self.ua(*auth), amount: *amount }, &[]);
                let want = self.by_hand(&pre, vec![hand], self.ua(*u));
                Ok(self.judge("a transfer", &pre, want.as_ref(), &r, bad, st))
            }
            Call::GetToken { a } => {
                let k = self.key(*a);
                let work: Work = Box::new(move |c, out| {
                    let t: spl_token::state::Account = es(rpc::get_token_account(c, &k))?;
                    out.lock().unwrap().tok = Some(t);
                    Ok(())
                });
                let (r, bad, out) = self.run(work, faults, st)?;
                let mut vs = vec![];
                let p = self.padded(&pre);
                if let Some(d) = self.diff(&p) {
                    vs.push(v("client call does something else", format!("reading a token account: {}", d)));
                }
                let want = tok(&pre.accts[*a].data);
                match (r, out.tok, want) {
                    (Ok(()), Some(t), Some(w)) if !bad => {
                        if t.amount != w.amount || t.owner.to_bytes() != w.owner || t.mint.to_bytes() != w.mint {
                            vs.push(v("client reads something else", format!("{:?} is not {:?}", t, w)));
                        }
                    }
                    (Err(e), _, Some(w)) if !bad && w.state != 0 => {
                        vs.push(v("client call fails", format!("reading a token account: {}", e)))
                    }
                    _ => {}
                }
                Ok(vs)
            }
            Call::List { coin, pc, coin_lot, pc_lot } => {
                let (cm, pm) = (self.mint_at(*coin), self.mint_at(*pc));
                let (ck, pk_, cl, pl) = (self.key(cm), self.key(pm), *coin_lot, *pc_lot);
                let pay = self.kp(self.payer).unwrap();
                let work: Work = Box::new(move |c, out| {
                    let k = es(crank::list_market(c, &dex, &pay, &ck, &pk_, cl, pl))?;
                    out.lock().unwrap().market = Some(k);
                    Ok(())
                });
                let (r, bad, out) = self.run(work, faults, st)?;
                Ok(self.check_list(pre, cm, pm, cl, pl, r, bad, out.market, st))
            }
            Call::Shebang => {
                let o = Self::opts(crank::Command::WholeShebang {
                    payer: self.file(&self.kp(self.payer).unwrap(), "payer"),
                    dex_program_id: dex,
                });
                let (r, bad, _) = self.run(Box::new(move |_, _| es(crank::start(o))), faults, st)?;
                if r.is_ok() {
                    st.hit("whole rounds through a new market");
                }
                if let (Err(e), false) = (&r, bad) {
                    return Ok(vec![v("client call fails", format!("the whole round through a new market: {}", e))]);
                }
                // Nothing that existed before is touched, the payer apart.
                let mut vs = vec![];
                for (a, x) in pre.accts.iter().enumerate() {
                    if a != self.payer && self.ch().accts[a] != *x {
                        vs.push(v("client call does something else", format!("{} changes", self.n.w.names[a])));
                    }
                }
                Ok(vs)
            }
        }
    }

    /// Whether every account the step names exists: in a shortened schedule its creator may be gone.
    fn known(&self, s: &Step) -> bool {
        let n = self.ch().accts.len();
        let op = |o: &Op| self.n.w.build(o, &[]).metas.iter().all(|m| m.aid < n);
        match s {
            Step::Tx(ops) => ops.iter().all(|x| op(&x.op)),
            Step::Clock(_) => true,
            Step::Call { call, .. } => match call {
                Call::Lib { op: o, .. } | Call::Build { op: o, .. } | Call::Pack { op: o, .. } | Call::Raw { op: o, .. } => {
                    op(o)
                }
                Call::Account { owner: a, .. } | Call::TokenAccount { owner: a, .. } => *a < n,
                Call::MintTo { to: a, .. } | Call::GetToken { a } => *a < n,
                Call::Transfer { from, to, .. } => *from < n && *to < n,
                _ => true,
            },
        }
    }

    fn mint_at(&self, i: usize) -> Aid {
        let n = self.n.w.mints.len();
        let j = i % (n + self.mints.len());
        if j < n {
            self.n.w.mints[j]
        } else {
            self.mints[j - n].0
        }
    }

    /// The account a call was to create: what it says, or what appeared.
    fn fresh(&mut self, pre: &Chain, out: &Out) -> Aid {
        match out.key {
            Some(k) => self.n.aid_or_new(&k),
            None => match self.born(pre).first() {
                Some(a) => *a,
                None => self.n.aid_or_new(&crate::user_key(self.cfg.world.seed, "nothing")),
            },
        }
    }

    /// A rent-exempt account with this content, paid for by `from`.
    fn give(&self, ch: &mut Chain, from: Aid, to: Aid, data: Vec<u8>, owner: Pubkey) -> bool {
        let lam = ch.rent.minimum_balance(data.len());
        if ch.accts[from].lamports < lam {
            return false;
        }
        ch.accts[from].lamports -= lam;
        let a = &mut ch.accts[to];
        a.data = data;
        a.owner = owner;
        a.lamports = lam;
        true
    }

    fn new_tok(
        &mut self,
        what: &str,
        pre: Chain,
        u: usize,
        mint: Aid,
        owner: Pubkey,
        amount: u64,
        r: Result<(), String>,
        bad: bool,
        out: Out,
        st: &mut Stats,
    ) -> Result<Vec<Viol>, Viol> {
        let a = self.fresh(&pre, &out);
        let mut w = self.padded(&pre);
        let t = Tok { mint: self.key(mint).to_bytes(), owner: owner.to_bytes(), amount, state: 1, ..Tok::default() };
        let ok = self.give(&mut w, self.ua(u), a, tok_bytes(&t), spl_token::ID);
        Ok(self.judge(what, &pre, if ok { Some(&w) } else { None }, &r, bad, st))
    }

    fn fresh_judge(
        &mut self,
        what: &str,
        pre: Chain,
        oo: Aid,
        owner: Aid,
        op: Op,
        r: Result<(), String>,
        bad: bool,
        st: &mut Stats,
    ) -> Result<Vec<Viol>, Viol> {
        self.n.w.roles[oo] = Role::Oo;
        let lam = pre.rent.minimum_balance(OO_LEN);
        let mk = self.n.w.build(&Op::CreateOo { payer: owner, oo, lamports: lam }, &[]);
        let hand = self.n.w.build(&op, &[]);
        let want = self.by_hand(&pre, vec![mk, hand], owner);
        Ok(self.judge(what, &pre, want.as_ref(), &r, bad, st))
    }

    fn check_list(
        &mut self,
        pre: Chain,
        cm: Aid,
        pm: Aid,
        cl: u64,
        pl: u64,
        r: Result<(), String>,
        bad: bool,
        keys: Option<MarketPubkeys>,
        st: &mut Stats,
    ) -> Vec<Viol> {
        let mut vs = vec![];
        let fits = cl > 0 && pl > 0 && cm != pm;
        for (a, x) in pre.accts.iter().enumerate() {
            if a != self.payer && self.ch().accts[a] != *x {
                vs.push(v("client call does something else", format!("listing changes {}", self.n.w.names[a])));
            }
        }
        let born = self.born(&pre);
        match (r, keys) {
            (Err(e), _) => {
                if !bad && fits {
                    vs.push(v("client call fails", format!("listing a market: {}", e)));
                }
                // All of the market or none of it.
                let n = born.iter().filter(|a| self.ch().accts[**a].owner == self.n.w.dex).count();
                if n != 0 && (n != 5 || !bad) {
                    vs.push(v("failed client call has effects", format!("listing left {} accounts", n)));
                }
            }
            (Ok(()), None) => {}
            (Ok(()), Some(k)) => {
                st.hit("markets listed");
let id = |x: &Pubkey| self.n.aid(x).filter(|a| born.contains(a));
                let ids: Option<Vec<Aid>> =
                    [&k.market, &k.req_q, &k.event_q, &k.bids, &k.asks, &k.coin_vault, &k.pc_vault]
                        .iter()
                        .map(|x| id(x))
                        .collect();
                let ids = match ids {
                    Some(x) => x,
                    None => {
                        vs.push(v("client reports success", "an account of the listed market is missing".into()));
                        return vs;
                    }
                };
                let distinct: BTreeSet<Aid> = ids.iter().cloned().collect();
                if distinct.len() != 7 || born.len() != 7 {
                    vs.push(v("client call does something else", format!("listing made {} accounts", born.len())));
                }
                let a = |i: usize| &self.ch().accts[ids[i]];
                let mut bad_ = vec![];
                let key = |p: &Pubkey| p.to_bytes();
                match market(&a(0).data) {
                    None => bad_.push("the market is not initialised"),
                    Some(m) => {
                        if m.coin_mint != key(&self.key(cm)) || m.pc_mint != key(&self.key(pm)) {
                            bad_.push("mints");
                        }
                        if m.coin_lot != cl || m.pc_lot != pl {
                            bad_.push("lot sizes");
                        }
                        if m.own != key(&k.market)
                            || m.req_q != key(&k.req_q)
                            || m.event_q != key(&k.event_q)
                            || m.bids != key(&k.bids)
                            || m.asks != key(&k.asks)
                            || m.coin_vault != key(&k.coin_vault)
                            || m.pc_vault != key(&k.pc_vault)
                        {
                            bad_.push("accounts");
                        }
                        if vault_signer(&self.n.w.dex, &m.own, m.nonce) != Some(key(&k.vault_signer_key)) {
                            bad_.push("vault signer");
                        }
                    }
                }
                for (i, mt) in [(5, cm), (6, pm)] {
                    let t = Tok {
                        mint: key(&self.key(mt)),
                        owner: key(&k.vault_signer_key),
                        state: 1,
                        ..Tok::default()
                    };
                    if a(i).data != tok_bytes(&t) || a(i).owner != spl_token::ID {
                        bad_.push("vaults");
                    }
                }
                let rent: u64 = ids.iter().map(|x| pre.rent.minimum_balance(self.ch().accts[*x].data.len())).sum();
                let paid = pre.accts[self.payer].lamports - self.ch().accts[self.payer].lamports;
                if paid != rent {
                    bad_.push("price");
                }
                if !bad_.is_empty() {
                    vs.push(v("client call does something else", format!("listing: wrong {}", bad_.join(", "))));
                    return vs;
                }
                vs.extend(self.try_market(k, cm, pm, st));
            }
        }
        vs
    }

    /// A listed market can be traded on.
    fn try_market(&mut self, k: MarketPubkeys, cm: Aid, pm: Aid, st: &mut Stats) -> Vec<Viol> {
        let w = &self.n.w;
        let wallet = |mt: Aid, u: usize| {
            let i = w.mints.iter().position(|x| *x == mt)?;
            Some(w.toks[u][i][0])
        };
        let (cw, _pw) = match (wallet(cm, 0), wallet(pm, 0)) {
            (Some(a), Some(b)) => (a, b),
            _ => return vec![],
        };
        let pre_c = w.amount(cw);
        let lot = match market(&w.chain.accts[self.n.aid(&k.market).unwrap()].data) {
            Some(m) if m.pc_lot > 0 => m.coin_lot,
            _ => return vec![],
        };
        if pre_c < lot || lot == 0 || tok(&w.chain.accts[cw].data).map(|t| t.state != 1).unwrap_or(true) {
            return vec![];
        }
        if w.chain.accts[w.users[0]].lamports < SOL {
            return vec![];
        }
        let (dex, ow, ck) = (w.dex, self.user(0), self.key(cw));
        let (asks, mk) = (self.n.aid(&k.asks).unwrap(), *k.market);
        let x = order(&crate::plain_order(false, 5, 1, 2, 7)).unwrap();
        let work: Work = Box::new(move |c, _| es(crank::place_order(c, &dex, &ow, &ck, &k, &mut None, x)));
        let r = match self.run(work, &[], st) {
            Ok(r) => r.0,
            Err(e) => return vec![e],
        };
        let n = book(&self.ch().accts[asks].data).map(|b| b.leaves.len()).unwrap_or(0);
        if r.is_err() || n != 1 || self.n.w.amount(cw) != pre_c - lot {
            return vec![v("client call fails", format!("an order on a market just listed ({}): {:?}", mk, r))];
        }
        st.hit("orders on a listed market");
        vec![]
    }
}

fn eight(cids: &[u64]) -> [u64; 8] {
    let mut x = [0u64; 8];
    for (a, b) in x.iter_mut().zip(cids) {
        *a = *b;
    }
    x
}

pub struct Client;

impl Family for Client {
    type Cfg = KCfg;
    type Step = Step;
    type World = ClientW;
    type Gen = KGen;
    const NAME: &'static str = "client";
    const REAL: &'static str = "instruction encoding and builders, crank library calls (orders, cancels, settling, listing, token commands), common RPC helpers, solana RPC client library above its transport, serum_dex program, spl-token program";
    const STUB: &'static str = "RPC node and network, clock, randomness, Solana runtime, system program";

    fn draw(prop: &str, seed: u64, r: &mut Rng) -> (KCfg, KGen, usize) {
        let (mut world, mut g, n) = draw(prop, seed, r);
        g.p.tamper = 0;
        g.p.fault = 0;
        g.p.sweep_faults = 0;
        g.p.drain = 0;
        g.p.exit_mid = 0;
        g.p.fork = 0;
        g.p.multi = *r.pick(&[0, 0, 60]);
        g.p.w.init_oo += 3;
        g.p.w.close += 3;
        g.p.w.settle += 4;
        g.p.w.cancel_cid += 4;
        g.p.w.cancel_cids += 2;
        g.p.w.replace += 3;
        g.p.cids = *r.pick(&[3, 10, 30]);
        if r.below(5) == 0 {
            g.p.w.disable += 3;
        }
        for m in world.markets.iter_mut() {
            m.stable = None;
        }
        let cfg = KCfg { world, up_ms: *r.pick(&[0, 500, 100_000_000]), slot0: *r.pick(&[200, 1000, 150_000_000]) };
        let k = KGen { g, fault: *r.pick(&[0, 100, 400]), lib: *r.pick(&[300, 600, 900]), rare: r.below(12) == 0 };
        (cfg, k, n.min(80))
    }

    fn boot(cfg: &KCfg) -> Result<ClientW, Viol> {
        let mut w = World::new(&cfg.world);
        if let Err(e) = w.boot() {
            return Err(v("rejected init_market", e));
        }
        let payer =
            w.chain.add(crate::crankfam::payer_key().pubkey(), solana_program::system_program::ID, vec![], 1000 * SOL);
        w.roles.push(Role::Other);
        w.names.push("payer".into());
        let mut n = Node::new(w, cfg.slot0, cfg.up_ms, cfg.world.seed);
        n.instant = true;
        Ok(ClientW {
            cfg: cfg.clone(),
            n,
            clocks: Arc::new(Clocks::default()),
            calls: 0,
            mints: vec![],
            payer,
            dir: scratch(),
        })
    }

    fn next(g: &mut KGen, w: &ClientW, r: &mut Rng) -> Step {
        let faults = |r: &mut Rng, g: &KGen| {
            let mut f = vec![];
            if r.permille(g.fault) {
                for _ in 0..r.range(1, 2) {
                    let b = *r.pick(&[Bad::Timeout, Bad::Reset, Bad::Busy, Bad::Unhealthy, Bad::Garbled]);
                    let how = match r.below(8) {
                        0 | 1 | 2 => How::Fail(b),
                        3 | 4 => How::FailAfter(b),
                        5 => How::Stale(r.below(10) as u16),
                        6 => How::Null,
                        _ => How::Lose,
                    };
                    f.push((r.below(8) as u16, how));
                }
            }
            f
        };
        let nu = w.n.w.users.len() as u64;
        let any_u = |r: &mut Rng| r.below(nu) as usize;
        if r.permille(120) {
            let nm = w.n.w.mk.len() as u64;
            let m = r.below(nm) as usize;
            let all = w.n.w.chain.accts.len() as u64;
            let tk = |r: &mut Rng| {
                if r.below(8) == 0 {
                    return r.below(all) as usize;
                }
                let u = r.below(nu) as usize;
                let ts = &w.n.w.toks[u];
                let i = r.below(ts.len() as u64) as usize;
                ts[i][r.below(2) as usize]
            };
            let call = match r.below(if g.rare { 17 } else { 15 }) {
                0 | 1 => {
                    let bid = r.coin();
                    let ts = *r.pick(&[None, Some(i64::MAX), Some(w.n.w.chain.clock), Some(w.n.w.chain.clock - 1)]);
                    let mut o = crate::plain_order(bid, r.range(1, 200), r.range(1, 20), r.below(3) as u8, r.below(9));
                    o.ts = ts;
                    o.stb = r.below(3) as u8;
                    Call::OrderFresh { m, u: any_u(r), o }
                }
                2 => Call::InitFresh { m, u: any_u(r) },
                3 => Call::Match { m, u: any_u(r), start: r.coin() },
                4 | 5 => Call::ConsumeIx { m, u: any_u(r) },
                6 => Call::Account { u: any_u(r), len: *r.pick(&[0, 1, 82, 165, 3228]), owner: r.below(all) as usize },
                7 => Call::TokenAccount { u: any_u(r), mint: r.below(8) as usize, owner: r.below(all) as usize },
                8 => Call::InitToken { u: any_u(r), mint: r.below(8) as usize },
                9 => Call::NewMint { u: any_u(r), owner: any_u(r), decimals: r.below(256) as u8, start: r.coin() },
                10 => {
                    let u = any_u(r);
                    let mint = r.below(4) as usize;
                    let by = match w.mints.get(mint % w.mints.len().max(1)) {
                        Some(x) if r.below(4) > 0 => x.1,
                        _ => any_u(r),
                    };
                    let qty = *r.pick(&[0, 1, 1000, u64::MAX, u64::MAX / 2]);
                    Call::MintNew { u, by, mint, qty, start: r.coin() }
                }
                11 => {
                    let mint = r.below(4) as usize;
                    let x = w.mints.get(mint % w.mints.len().max(1)).cloned();
                    // Mostly a fitting recipient.
                    let to = x
                        .and_then(|x| {
                            let k = w.key(x.0).to_bytes();
                            (0..w.ch().accts.len())
                                .rev()
                                .find(|a| tok(&w.ch().accts[*a].data).map(|t| t.mint == k).unwrap_or(false))
                        })
                        .filter(|_| r.below(4) > 0)
                        .unwrap_or_else(|| tk(r));
                    let by = x.map(|x| x.1).filter(|_| r.below(4) > 0).unwrap_or_else(|| any_u(r));
                    Call::MintTo { u: any_u(r), by, mint, to, qty: *r.pick(&[1, 1000, u64::MAX / 2]) }
                }
                12 => {
                    let from = tk(r);
                    let t = tok(&w.ch().accts[from].data).unwrap_or_default();
                    let auth = (0..nu as usize).find(|u| w.key(w.ua(*u)).to_bytes() == t.owner);
                    let auth = auth.filter(|_| r.below(5) > 0).unwrap_or_else(|| any_u(r));
                    let mut to = tk(r);
                    for _ in 0..6 {
                        if tok(&w.ch().accts[to].data).map(|x| x.mint == t.mint).unwrap_or(false) {
                            break;
                        }
                        to = tk(r);
                    }
                    let amount = match r.below(4) {
                        0 => t.amount,
                        1 => t.amount.wrapping_add(1),
                        _ => r.below(t.amount.saturating_add(1).max(1)),
                    };
                    Call::Transfer { u: any_u(r), from, to, auth, amount }
                }
                13 | 14 => Call::GetToken { a: tk(r) },
                15 => Call::List {
                    coin: r.below(4) as usize,
                    pc: r.below(4) as usize,
                    coin_lot: *r.pick(&[0, 1, 10, 1_000_000]),
                    pc_lot: *r.pick(&[0, 1, 10, 10_000]),
                },
                _ => Call::Shebang,
            };
            return Step::Call { call, faults: faults(r, g) };
        }
        match g.g.next(&w.n.w, r) {
            DexStep::Tx { mut ixs, .. } => {
                for x in ixs.iter_mut() {
                    x.tamper.clear();
                    // Orders are not tracked here: name one that rests.
                    if let Op::Cancel { m, oo, bid, id, .. } = &mut x.op {
                        let k = w.key(*oo).to_bytes();
                        let b = w.n.w.market(*m).map(|_| w.n.w.book(*m, *bid));
                        let ids: Vec<u128> =
                            b.map(|b| b.leaves.iter().filter(|l| l.owner == k).map(|l| l.key).collect()).unwrap_or_default();
                        let x = if ids.is_empty() { r.next() as u128 } else { ids[r.below(ids.len() as u64) as usize] };
                        *id = OrdRef::Raw(x.to_string());
                    }
                }
                if ixs.len() != 1 || World::op_market(&ixs[0].op).is_none() || matches!(ixs[0].op, Op::Old { .. }) {
                    return Step::Tx(ixs);
                }
                let op = ixs.remove(0).op;
                let payer = any_u(r);
                let lib = matches!(
                    op,
                    Op::New { disc: None, .. }
                        | Op::CancelCid { .. }
                        | Op::CancelCids { .. }
                        | Op::InitOo { auth: None, .. }
                        | Op::Settle { refr: None, .. }
                ) || matches!(&op, Op::CloseOo { owner, dest, .. } if owner == dest);
                let call = if r.permille(150) {
                    let mut edits = vec![];
                    for _ in 0..r.range(1, 2) {
                        let e = match r.below(12) {
                            7 | 8 => Edit::All(any_bytes(r)),
                            9 => Edit::Set(0, *r.pick(&[1, 1, 2, 3, 0x7f, 0x80, 0xff])),
                            10 | 11 => Edit::Set(r.below(70) as usize, *r.pick(&[1, 2, 3, 4, 5, 0x7f, 0x80, 0xff])),
                            0 => Edit::Cut(r.below(80) as usize),
                            1 => Edit::Add((0..r.range(1, 9)).map(|_| r.next() as u8).collect()),
                            2 => Edit::Set(r.below(70) as usize, r.next() as u8),
                            3 => Edit::Set(r.below(70) as usize, 0),
                            4 => Edit::Word(1, r.below(24) as u32),
                            5 => Edit::Word(*r.pick(&[5, 33, 37, 13, 1]), *r.pick(&[0, 1, 2, 3, 256, 1 << 31])),
                            _ => {
                                // A field all zero.
                                let at = *r.pick(&[9, 17, 25, 33, 37, 41]);
                                edits.push(Edit::Word(at, 0));
                                Edit::Word(at + 4, 0)
                            }
                        };
                        edits.push(e);
                    }
                    return Step::Call { call: Call::Raw { op, edits }, faults: vec![] };
                } else if lib && r.permille(g.lib) {
                    Call::Lib { op, payer }
                } else if r.below(3) > 0 {
                    Call::Build { op, payer }
                } else {
                    Call::Pack { op, payer }
                };
                Step::Call { call, faults: faults(r, g) }
            }
            // The client reads a clock too: keep to dates it can be run at.
            DexStep::Clock(t) => Step::Clock(t.clamp(1_000_000_000, 10_000_000_000)),
            _ => Step::Tx(vec![]),
        }
    }

    fn tail(_g: &mut KGen, _w: &ClientW, _r: &mut Rng) -> Vec<Step> {
        vec![]
    }

    fn apply(w: &mut ClientW, s: &Step, st: &mut Stats) -> Vec<Viol> {
        if !w.known(s) {
            return vec![];
        }
        match s {
            Step::Tx(ops) => {
                if ops.is_empty() {
                    return vec![];
                }
                let ixs = w.n.w.build_tx(ops);
                let r = w.n.w.chain.exec(&ixs, &Faults::default());
                w.n.changed();
                st.hit("tx");
                st.log(&[7, r.ok as u64]);
                vec![]
            }
            Step::Clock(t) => {
                w.n.w.chain.clock = *t;
                w.n.unix0 = *t - (w.n.up_ms / 1000) as i64;
                vec![]
            }
            Step::Call { call, faults } => {
                st.hit("tx");
                let r = match w.call(call, faults, st) {
                    Ok(x) => x,
                    Err(e) => vec![e],
                };
                let k = format!("{:?}", call);
                let k: u64 = k.bytes().take(12).fold(0, |h, b| mix(&[h, b as u64]));
                st.states.insert(mix(&[k, crate::dexfam::chain_hash(w.ch())]));
                r
            }
        }
    }

    fn state_hash(w: &ClientW) -> u64 {
        crate::dexfam::chain_hash(&w.n.w.chain)
    }
    fn slots(w: &ClientW) -> u64 {
        (w.n.up_ms - w.cfg.up_ms) / SLOT_MS
    }
    fn simplify(s: &Step) -> Vec<Step> {
        match s {
            Step::Call { call, faults } if !faults.is_empty() => {
                let mut v = vec![Step::Call { call: call.clone(), faults: vec![] }];
                if faults.len() > 1 {
                    v.push(Step::Call { call: call.clone(), faults: faults[..1].to_vec() });
                    v.push(Step::Call { call: call.clone(), faults: faults[1..].to_vec() });
                }
                v
            }
            Step::Tx(ops) if ops.len() > 1 => (0..ops.len())
                .map(|i| {
                    let mut x = ops.clone();
                    x.remove(i);
                    Step::Tx(x)
                })
                .collect(),
            _ => vec![],
        }
    }
}
