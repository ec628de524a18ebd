//! The crank: real `consume_events_loop` and its workers against the simulated node, with the real exchange behind.
use crate::chain::*;
use crate::driver::Family;
use crate::host::*;
use crate::layout::*;
use crate::node::*;
use crate::oracle::{c, Stats, Viol};
use crate::rng::{mix, Rng};
use crate::spec::*;
use crate::world::*;
use serde::{Deserialize, Serialize};
use solana_client::rpc_request::RpcRequest;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct CCfg {
    pub world: Cfg,
    pub up_ms: u64,
    pub slot0: u64,
    pub workers: usize,
    pub per: usize,
    pub accounts: Option<usize>,
    pub max_q: Option<u64>,
    pub max_wait: Option<u64>,
    pub tiny_reqq: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    /// Somebody else's transaction.
    Tx(Vec<OpT>),
    Time(u64),
    /// One of the crank's threads goes on.
    Go { pick: u32, how: How },
    /// One of its transactions gets into a block; with `again` another copy is still under way.
    Land { pick: u32, again: bool },
    Lose { pick: u32 },
    Kill,
    /// Faults and other traffic stop: the queue has to run empty.
    Drain,
}

/// What a batch of jobs was started from.
struct Seen {
    slot: u64,
    evs: Vec<Ev>,
    chain: Option<Chain>,
}

pub struct CrankW {
    pub cfg: CCfg,
    pub n: Node,
    clocks: Arc<Clocks>,
    proc_: Option<Proc>,
    payer: Aid,
    dir: String,
    starts: u64,
    /// The main thread has entered its loop; a fault hit it before that.
    looping: bool,
    start_fault: bool,
    seen: Option<Rc<Seen>>,
    /// By job number, what it was started from.
    jobs: Vec<Option<Rc<Seen>>>,
    sent_slot: u64,
    batch_end: Option<u64>,
    in_batch: bool,
}

pub struct CGen {
    users: usize,
    w: [u32; 7],
    fault: u32,
    t: usize,
    fill: usize,
    tag: u64,
    width: u64,
    drain_pm: u32,
}

pub fn payer_key() -> Keypair {
    solana_sdk::signature::keypair_from_seed(&[9; 32]).unwrap()
}

fn v(class: &str, detail: String) -> Viol {
    Viol { props: c(25), class: class.into(), detail }
}

impl CrankW {
    fn opts(&self) -> crank::Opts {
        let k = &self.n.w.mk[0];
        let ch = &self.n.w.chain;
        crank::Opts {
            cluster: serum_common::client::Cluster::Custom("http://simulated".into()),
            command: crank::Command::ConsumeEvents {
                dex_program_id: self.n.w.dex,
                payer: format!("{}/payer.json", self.dir),
                market: ch.key(k.market),
                coin_wallet: ch.key(self.n.w.refs[k.cfg.coin]),
                pc_wallet: ch.key(self.n.w.refs[k.cfg.pc]),
                num_workers: self.cfg.workers,
                events_per_worker: self.cfg.per,
                num_accounts: self.cfg.accounts,
                log_directory: "unused".into(),
                max_q_length: self.cfg.max_q,
                max_wait_for_events_delay: self.cfg.max_wait,
            },
        }
    }

    fn sync(&mut self) {
        self.clocks.up_ms.store(self.n.up_ms, Ordering::SeqCst);
        self.clocks.unix_ms.store((self.n.w.chain.clock * 1000) as u64, Ordering::SeqCst);
    }

    fn ensure(&mut self, st: &mut Stats) {
        if self.proc_.is_some() {
            return;
        }
        if self.starts > 0 {
            st.hit("crank restarts");
        }
        self.starts += 1;
        self.sync();
        let o = self.opts();
        self.looping = false;
        self.start_fault = false;
        self.seen = None;
        self.jobs.clear();
        self.sent_slot = 0;
        self.batch_end = None;
        self.in_batch = false;
        let p = Proc::start(self.clocks.clone(), mix(&[self.cfg.world.seed, self.starts]), move || {
            crank::start(o).map_err(|e| format!("{:?}", e))
        });
        self.proc_ = Some(p);
    }

    fn kill(&mut self) {
        self.proc_ = None;
    }

    fn events(&self) -> usize {
        self.n.w.evq(0).evs.len()
    }

    /// The crank's process may not end by itself.
    fn check_alive(&mut self, st: &mut Stats) -> Vec<Viol> {
        let p = match &self.proc_ {
            Some(p) => p,
            None => return vec![],
        };
        if p.hung {
            self.proc_ = None;
            return vec![v("crank hangs", "a thread of the crank never came back".into())];
        }
        if let Some(e) = p.ended() {
            let e = e.clone();
            self.proc_ = None;
            if !self.looping && self.start_fault && matches!(e, End::Err(_)) {
                st.hit("crank gave up while starting");
                return vec![];
            }
            return vec![v("crank stops", format!("the crank ended by itself: {:?}", e))];
        }
        vec![]
    }

    /// The number of leading events whose accounts are among the first `n` different ones.
    fn covered(evs: &[Ev], n: usize) -> usize {
        let mut set = BTreeSet::new();
        for (i, e) in evs.iter().enumerate() {
            if !set.contains(&e.owner) {
                if set.len() == n {
                    return i;
                }
                set.insert(e.owner);
            }
        }
        evs.len()
    }

    fn check_send(&mut self, job: Option<usize>, p: &serde_json::Value, st: &mut Stats) -> Vec<Viol> {
        let mut out = vec![];
        let seen = match job.and_then(|j| self.jobs.get(j).cloned().flatten()) {
            Some(s) => s,
            None => return vec![v("crank sends blindly", "a transaction was sent without reading the queue".into())],
        };
        let raw = match base64::decode(p[0].as_str().unwrap_or("")) {
            Ok(r) => r,
            Err(_) => return out,
        };
        let tx: solana_sdk::transaction::Transaction = match bincode::deserialize(&raw) {
            Ok(t) => t,
            Err(_) => return vec![v("crank sends garbage", "a transaction that cannot be read".into())],
        };
        if raw.len() > PACKET {
            st.hit("oversized transactions");
            if self.cfg.accounts.is_none() {
                out.push(v("oversized transaction", format!("{} bytes with default settings", raw.len())));
            }
            return out;
        }
        if tx.verify().is_err() {
            out.push(v("bad signature", "a transaction is not signed properly".into()));
            return out;
        }
        let ixs = self.n.decode(&tx);
        let mut ch = match &seen.chain {
            Some(c) => c.clone(),
            None => return vec![v("cranks an empty queue", "a transaction was sent for an empty queue".into())],
        };
        while ch.accts.len() < self.n.w.chain.accts.len() {
            let a = &self.n.w.chain.accts[ch.accts.len()];
            ch.accts.push(Acct { key: a.key, owner: solana_program::system_program::ID, data: vec![], lamports: 0 });
        }
        let before = ch.accts.clone();
        let r = ch.exec(&ixs, &Faults::default());
        if !r.ok {
            out.push(v("consume fails", format!("a transaction fails on the very state it was made for: {}", r.err)));
            return out;
        }
        let k = &self.n.w.mk[0];
        let left = evq(&ch.accts[k.evq].data).map(|q| q.evs.len()).unwrap_or(0);
        let did = seen.evs.len() - left.min(seen.evs.len());
        let want = match self.cfg.accounts {
            Some(n) => Self::covered(&seen.evs, n).min(self.cfg.per),
            None => 1.min(self.cfg.per),
        };
        st.hit("crank transactions checked");
        if did < want || (self.cfg.accounts.is_some() && did != want) {
            out.push(v(
                "consume takes wrong events",
                format!(
                    "made from a queue of {} events, a transaction consumes {} of them instead of {}",
                    seen.evs.len(),
                    did,
                    want
                ),
            ));
        }
        let oos = self.n.w.all_oos(0);
        for (a, old) in before.iter().enumerate() {
            let may = a == k.market || a == k.evq || oos.contains(&a);
            if !may && ch.accts[a] != *old {
                out.push(v("crank touches other accounts", format!("{} changes", self.n.w.names[a])));
            }
        }
        out
    }

    fn go(&mut self, t: usize, how: How, st: &mut Stats) -> Vec<Viol> {
        let mut out = vec![];
        let evqk = self.n.w.chain.key(self.n.w.mk[0].evq);
        let mut p = self.proc_.take().unwrap();
        let jobs0 = p.jobs;
        match std::mem::replace(&mut p.th[t].st, St::Gone) {
            St::Rpc(req, params) => {
                match how {
                    How::Ok => {}
                    How::Fail(_) => st.hit("fault: RPC error"),
                    How::FailAfter(_) => st.hit("fault: RPC error after the effect"),
                    How::Stale(_) => st.hit("fault: stale RPC answer"),
                    How::Null => st.hit("fault: account unknown to the node"),
                    How::Lose => st.hit("fault: transaction lost"),
                }
                if how != How::Ok && !self.looping {
                    self.start_fault = true;
                }
                let send = matches!(req, RpcRequest::SendTransaction);
                if send {
                    let job = if t == 0 { None } else { Some(t - 1) };
                    out.extend(self.check_send(job, &params, st));
                    st.hit("tx committed");
                }
                let (res, shown) = self.n.serve(&req, &params, how);
                if let Some((key, slot, old)) = shown {
                    if key == evqk && t == 0 {
                        let ch = self.n.state(old);
                        let evs = evq(&ch.accts[self.n.w.mk[0].evq].data).map(|q| q.evs).unwrap_or_default();
                        let chain = if evs.is_empty() { None } else { Some(ch.clone()) };
                        self.seen = Some(Rc::new(Seen { slot, evs, chain }));
                    }
                }
                if send && res.is_ok() && t > 0 {
                    if let Some(Some(s)) = self.jobs.get(t - 1) {
                        self.sent_slot = self.sent_slot.max(s.slot);
                    }
                }
                self.sync();
                st.log(&[1, t as u64, res.is_ok() as u64]);
                p.answer(t, res);
            }
            St::Sleep(until) => {
                if until > self.n.up_ms {
                    self.n.tick(until - self.n.up_ms);
                }
                if t == 0 {
                    self.looping = true;
                }
                self.sync();
                st.log(&[2, t as u64]);
                p.go(t);
            }
            St::Join(_) => {
                if t == 0 {
                    self.batch_end = Some(self.n.up_ms);
                    self.in_batch = false;
                }
                st.log(&[3]);
                p.go(t);
            }
            other => {
                st.log(&[4, t as u64]);
                p.th[t].st = other;
                p.go(t);
            }
        }
        // Jobs handed out in this turn.
        if p.jobs > jobs0 {
            let n = (p.jobs - jobs0) as usize;
            for _ in 0..n {
                self.jobs.push(self.seen.clone());
            }
            st.add("crank jobs", n as u64);
            if let Some(s) = &self.seen {
                let set: BTreeSet<Key> = s.evs.iter().map(|e| e.owner).collect();
                st.hit(match set.len() {
                    0..=1 => "batches: one owner",
                    2..=5 => "batches: up to 5 owners",
                    6..=24 => "batches: up to 24 owners",
                    _ => "batches: more owners than fit",
                });
                if s.slot <= self.sent_slot {
                    out.push(v("slot cranked twice", format!("slot {} after {}", s.slot, self.sent_slot)));
                }
                let wait = self.cfg.max_wait.unwrap_or(60) * 1000;
                let short = (s.evs.len() as u64) < self.cfg.max_q.unwrap_or(1);
                if let (true, Some(e)) = (short, self.batch_end) {
                    if self.n.up_ms - e < wait {
                        out.push(v(
                            "cranks too eagerly",
                            format!("{} events, {} ms after the last batch", s.evs.len(), self.n.up_ms - e),
                        ));
                    }
                }
                if s.evs.is_empty() {
                    out.push(v("cranks an empty queue", "transactions sent for an empty queue".into()));
                }
            }
            if n > self.cfg.workers {
                out.push(v("too many workers", format!("{} jobs for {} workers", n, self.cfg.workers)));
            }
        }
        let busy = p.th.iter().filter(|x| x.pool.is_some() && x.started && !x.dead()).count();
        if busy > self.cfg.workers {
            out.push(v("too many workers", format!("{} jobs under way for {} workers", busy, self.cfg.workers)));
        }
        self.proc_ = Some(p);
        out.extend(self.check_alive(st));
        out
    }

    fn drain(&mut self, st: &mut Stats) -> Vec<Viol> {
        let mut out = vec![];
        let n0 = self.events();
        if n0 == 0 {
            return out;
        }
        st.hit("drains");
        let wait = self.cfg.max_wait.unwrap_or(60);
        // Every batch consumes at least one event, and a batch is at most the delay and a few rounds away.
        let mut rounds = (n0 as u64 + 3) * (wait + 6);
        loop {
            self.ensure(st);
            out.extend(self.check_alive(st));
            if !out.is_empty() {
                return out;
            }
            // What is under way arrives before the next round.
            let p = self.proc_.as_ref().unwrap();
            let go = p.runnable();
            let t = match go.iter().find(|t| !matches!(p.th[**t].st, St::Sleep(_))).or(go.first()) {
                Some(t) => *t,
                None => return vec![v("crank hangs", "no thread of the crank can go on".into())],
            };
            if matches!(p.th[t].st, St::Sleep(_)) {
                while let Some(s) = self.n.inflight.pop() {
                    self.n.land(&s.tx, &s.sig);
                }
                if self.events() == 0 {
                    return out;
                }
                if rounds == 0 {
                    return vec![v(
                        "queue never drains",
                        format!("{} of {} events are left long after all faults stopped", self.events(), n0),
                    )];
                }
                rounds -= 1;
                st.hit("drain rounds");
            }
            out.extend(self.go(t, How::Ok, st));
            if !out.is_empty() {
                return out;
            }
        }
    }
}

pub fn scratch() -> String {
    // One directory per process, made once.
    use std::sync::Once;
    static O: Once = Once::new();
    let d = format!("{}/crank-{}", std::env::temp_dir().display(), std::process::id());
    O.call_once(|| {
        std::fs::create_dir_all(&d).expect("scratch directory");
        let b: Vec<u8> = payer_key().to_bytes().to_vec();
        std::fs::write(format!("{}/payer.json", d), serde_json::to_string(&b).unwrap()).expect("payer file");
    });
    d
}

pub fn clean_scratch() {
    let d = format!("{}/crank-{}", std::env::temp_dir().display(), std::process::id());
    let _ = std::fs::remove_dir_all(d);
}

pub struct Crank;

impl Family for Crank {
    type Cfg = CCfg;
    type Step = Step;
    type World = CrankW;
    type Gen = CGen;
    const NAME: &'static str = "crank";
    const REAL: &'static str = "crank client (start, consume_events_loop, its workers, consume_events_once, queue parsing), solana RPC client library above its transport, serum_dex program, spl-token program";
    const STUB: &'static str = "RPC node and network, clock, sleep, thread pool scheduling, randomness, Solana runtime, system program";

    fn draw(_prop: &str, seed: u64, r: &mut Rng) -> (CCfg, CGen, usize) {
        let users = *r.pick(&[2, 3, 5, 8, 30, 45, 45]);
        let cap = *r.pick(&[128, 129, 150, 200]);
        let auths = r.below(3) as usize;
        let m = MCfg {
            coin: 0,
            pc: 1,
            coin_lot: *r.pick(&[1, 10, 100]),
            pc_lot: *r.pick(&[1, 10]),
            auths: if auths == 2 { 0 } else { auths },
            cap,
            nodes: 201 + r.below(3),
            head: if r.coin() { cap - 1 - r.below(20) } else { r.below(cap) },
            rounds: *r.pick(&[0, 1, 1000]),
            next: *r.pick(&[0, 250, 1 << 16]),
            stable: None,
            init: true,
            defect: 0,
        };
        let world = Cfg {
            seed,
            users,
            mints: 2,
            oos: 1,
            rich: vec![1_000_000_000_000],
            discounts: vec![],
            fee_mint: 0,
            markets: vec![m],
        };
        let max_wait = *r.pick(&[Some(0), Some(1), Some(3), Some(5), Some(10), None]);
        let cfg = CCfg {
            world,
            up_ms: *r.pick(&[0, 500, 5_000, 100_000_000]),
            slot0: *r.pick(&[1, 1000, 150_000_000]),
            workers: r.range(1, 5) as usize,
            per: *r.pick(&[1, 2, 3, 5, 10, 50, 256, 300, 65535]),
            accounts: *r.pick(&[None, None, Some(1), Some(2), Some(3), Some(5), Some(24)]),
            max_q: *r.pick(&[None, Some(1), Some(2), Some(5), Some(20), Some(300), Some(1000)]),
            max_wait,
            tiny_reqq: r.below(4) == 0,
        };
        let g = CGen {
            users,
            w: [*r.pick(&[5, 20, 40]), 4, 60, *r.pick(&[5, 15, 40]), *r.pick(&[0, 2, 10]), *r.pick(&[0, 0, 1, 3]), 0],
            fault: *r.pick(&[0, 30, 150, 400]),
            t: 0,
            fill: *r.pick(&[0, 10, 40, 120, 250]),
            tag: 0,
            width: *r.pick(&[1, 3, 10]),
            drain_pm: *r.pick(&[0, 2, 8]),
        };
        let n = g.fill + *r.pick(&[40, 120, 300]);
        (cfg, g, n)
    }

    fn boot(cfg: &CCfg) -> Result<CrankW, Viol> {
        let mut w = World::new(&cfg.world);
        if cfg.tiny_reqq {
            let a = w.mk[0].reqq;
            w.chain.accts[a].data.truncate(12 + 32 + 80);
        }
        if let Err(e) = w.boot() {
            return Err(v("rejected init_market", e));
        }
        let dir = scratch();
        let payer = w.chain.add(payer_key().pubkey(), solana_program::system_program::ID, vec![], 1000 * SOL);
        w.roles.push(Role::Other);
        w.names.push("payer".into());
        let n = Node::new(w, cfg.slot0, cfg.up_ms, cfg.world.seed);
        Ok(CrankW {
            cfg: cfg.clone(),
            n,
            clocks: Arc::new(Clocks::default()),
            proc_: None,
            payer,
            dir,
            starts: 0,
            looping: false,
            start_fault: false,
            seen: None,
            jobs: vec![],
            sent_slot: 0,
            batch_end: None,
            in_batch: false,
        })
    }

    fn next(g: &mut CGen, w: &CrankW, r: &mut Rng) -> Step {
        g.t += 1;
        if g.t <= g.fill {
            return Step::Tx(g.traffic(w, r));
        }
        if r.permille(g.drain_pm) {
            return Step::Drain;
        }
        match r.weighted(&g.w) {
            0 => Step::Tx(g.traffic(w, r)),
            1 => Step::Time(*r.pick(&[1, 100, 400, 1000, 3000, 30_000, 70_000])),
            2 => {
                let how = if r.permille(g.fault) {
                    let b = *r.pick(&[Bad::Timeout, Bad::Reset, Bad::Busy, Bad::Unhealthy, Bad::Garbled]);
                    match r.below(8) {
                        0 | 1 | 2 => How::Fail(b),
                        3 => How::FailAfter(b),
                        4 | 5 => How::Stale(r.below(10) as u16),
                        6 => How::Null,
                        _ => How::Lose,
                    }
                } else {
                    How::Ok
                };
                Step::Go { pick: r.next() as u32, how }
            }
            3 => Step::Land { pick: r.next() as u32, again: r.below(5) == 0 },
            4 => Step::Lose { pick: r.next() as u32 },
            _ => Step::Kill,
        }
    }

    fn tail(_g: &mut CGen, _w: &CrankW, _r: &mut Rng) -> Vec<Step> {
        vec![Step::Drain]
    }

    fn apply(w: &mut CrankW, s: &Step, st: &mut Stats) -> Vec<Viol> {
        match s {
            Step::Tx(ops) => {
                if ops.is_empty() {
                    return vec![];
                }
                let ixs = w.n.w.build_tx(ops);
                let r = w.n.w.chain.exec(&ixs, &Faults::default());
                w.n.changed();
                st.hit("tx");
                if r.ok {
                    st.hit("other traffic committed");
                }
                st.log(&[7, r.ok as u64]);
                vec![]
            }
            Step::Time(ms) => {
                w.n.tick(*ms);
                w.sync();
                vec![]
            }
            Step::Go { pick, how } => {
                w.ensure(st);
                let vs = w.check_alive(st);
                if !vs.is_empty() || w.proc_.is_none() {
                    return vs;
                }
                let go = w.proc_.as_ref().unwrap().runnable();
                if go.is_empty() {
                    return vec![v("crank hangs", "no thread of the crank can go on".into())];
                }
                let t = go[*pick as usize % go.len()];
                w.go(t, *how, st)
            }
            Step::Land { pick, again } => {
                if w.n.inflight.is_empty() {
                    return vec![];
                }
                let i = *pick as usize % w.n.inflight.len();
                if i > 0 {
                    st.hit("fault: transactions reordered");
                }
                let s = w.n.inflight.remove(i);
                if s.at + 2 < w.n.w.chain.slot {
                    st.hit("fault: transaction delayed");
                }
                let e0 = w.events();
                let ok = w.n.land(&s.tx, &s.sig);
                st.hit(if ok { "crank transactions landed" } else { "crank transactions refused" });
                st.add("events consumed by the crank", (e0 - w.events().min(e0)) as u64);
                st.states.insert(mix(&[w.events() as u64, w.n.inflight.len() as u64, w.starts, ok as u64]));
                if *again {
                    st.hit("fault: transaction duplicated");
                    w.n.inflight.push(s);
                }
                vec![]
            }
            Step::Lose { pick } => {
                if !w.n.inflight.is_empty() {
                    st.hit("fault: transaction lost");
                    let i = *pick as usize % w.n.inflight.len();
                    w.n.inflight.remove(i);
                }
                vec![]
            }
            Step::Kill => {
                if w.proc_.is_some() {
                    st.hit("fault: crank killed");
                    w.kill();
                }
                vec![]
            }
            Step::Drain => w.drain(st),
        }
    }

    fn state_hash(w: &CrankW) -> u64 {
        crate::dexfam::chain_hash(&w.n.w.chain)
    }
    fn slots(w: &CrankW) -> u64 {
        (w.n.up_ms - w.cfg.up_ms) / SLOT_MS
    }
    fn simplify(s: &Step) -> Vec<Step> {
        match s {
            Step::Go { pick, how } if *how != How::Ok => vec![Step::Go { pick: *pick, how: How::Ok }],
            Step::Land { pick, again: true } => vec![Step::Land { pick: *pick, again: false }],
            _ => vec![],
        }
    }
}

impl CGen {
    fn traffic(&mut self, cw: &CrankW, r: &mut Rng) -> Vec<OpT> {
        let w = &cw.n.w;
        let u = r.below(self.users as u64) as usize;
        let k = &w.mk[0];
        let oo = k.oos[u][0];
        let owner = w.users[u];
        let one = |op| OpT { op, tamper: vec![] };
        let ready = w.chain.accts[oo].data.len() == OO_LEN;
        let mut v = vec![];
        if !ready {
            v.push(one(Op::CreateOo { payer: owner, oo, lamports: 100_000_000 }));
        } else if w.chain.accts[oo].lamports < 50_000_000 && w.live_oo(oo).is_none() {
            v.push(one(Op::SysTransfer { from: owner, to: oo, lamports: 50_000_000 }));
        }
        if k.cfg.auths > 0 && w.live_oo(oo).is_none() {
            v.push(one(Op::InitOo { m: 0, oo, owner, auth: Some(k.auths[0]) }));
        }
        self.tag += 1;
        let filling = self.t <= self.fill;
        match if filling && r.below(10) > 0 { 9 } else { r.below(10) } {
            0 | 1 => v.push(one(Op::CancelCid { m: 0, oo, owner, cid: r.range(1, self.tag) })),
            2 => v.push(one(Op::Settle {
                m: 0,
                oo,
                owner,
                cw: w.toks[u][k.cfg.coin][0],
                pw: w.toks[u][k.cfg.pc][0],
                refr: None,
            })),
            3 if r.below(4) == 0 => {
                // Another crank.
                let mut oos: Vec<Aid> = w.evq(0).evs.iter().take(3).filter_map(|e| w.chain.index.borrow().get(&Pubkey::new(&e.owner)).cloned()).collect();
                oos.dedup();
                w.sort_oos(&mut oos);
                oos.dedup();
                v = vec![one(Op::Consume { m: 0, oos, limit: r.range(1, 4) as u16 })];
            }
            _ => {
                let bid = r.coin();
                let price = 100 + r.below(self.width);
                let kind = *r.pick(&[0u8, 0, 0, 1, 2]);
                v.push(one(Op::New {
                    m: 0,
                    oo,
                    owner,
                    payer: w.toks[u][if bid { k.cfg.pc } else { k.cfg.coin }][0],
                    disc: None,
                    o: crate::plain_order(bid, price, r.range(1, 5), kind, self.tag),
                }));
            }
        }
        v
    }
}
