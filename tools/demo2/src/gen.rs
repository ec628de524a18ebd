//! Seeded workload and fault generator: users, market makers, takers, cranks, admins and attackers whose
//! transactions are delayed, reordered, duplicated, dropped, rolled back and made to fail.
use crate::chain::*;
use crate::layout::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;

#[derive(Clone, Debug, Default)]
pub struct W {
    pub new: u32,
    pub replace: u32,
    pub take: u32,
    pub cancel: u32,
    pub cancel_cid: u32,
    pub cancel_cids: u32,
    pub consume: u32,
    pub settle: u32,
    pub sweep: u32,
    pub disable: u32,
    pub init_oo: u32,
    pub close: u32,
    pub prune: u32,
    pub init_market: u32,
    pub old: u32,
    pub donate: u32,
    pub approve: u32,
    pub freeze: u32,
    pub create: u32,
    pub revive: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum Mode {
    Normal,
    /// Post many resting orders on one side, from one or all users.
    Post(bool, Option<usize>),
    NoCrank,
    Drain,
    /// Aggressive orders only.
    Sweep,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub w: W,
    pub tamper: u32,
    pub fault: u32,
    pub delay: u32,
    pub dup: u32,
    pub drop: u32,
    pub fork: u32,
    pub clock: u32,
    pub multi: u32,
    pub sweep_faults: u32,
    pub drain: u32,
    pub exit_mid: u32,
    pub modes: [u32; 5],
    pub width: u64,
    pub mid: u64,
    pub qmax: u64,
    pub cids: u64,
    pub ts: u32,
    pub ts_near: u32,
    pub big: u32,
    pub odd_crank: u32,
    pub unsign_bias: u32,
    pub tail_drain: bool,
    pub tail_exit: bool,
    pub self_bias: u32,
    pub low_limit: u32,
}

pub struct Gen {
    pub p: Profile,
    pool: Vec<(u64, Vec<OpT>, Faults)>,
    t: u64,
    mode: Mode,
    mode_left: u32,
    tag: u32,
    tags: Vec<(usize, Aid, bool, u32)>,
    snap_at: Option<u64>,
    steps: usize,
}

fn base_w() -> W {
    W {
        new: 40,
        replace: 4,
        take: 7,
        cancel: 8,
        cancel_cid: 3,
        cancel_cids: 3,
        consume: 14,
        settle: 8,
        sweep: 1,
        disable: 0,
        init_oo: 2,
        close: 2,
        prune: 1,
        init_market: 0,
        old: 0,
        donate: 1,
        approve: 1,
        freeze: 0,
        create: 1,
        revive: 0,
    }
}

fn prop_no(p: &str) -> u32 {
    p.trim_start_matches('C').parse().unwrap_or(0)
}

/// Draws one run: configuration, profile and number of steps.
pub fn draw(prop: &str, seed: u64, r: &mut Rng) -> (Cfg, Gen, usize) {
    let pn = prop_no(prop);
    let mut w = base_w();
    let mut p = Profile {
        w: W::default(),
        tamper: *r.pick(&[0, 20, 60]),
        fault: *r.pick(&[0, 20, 60]),
        delay: *r.pick(&[0, 100, 300]),
        dup: *r.pick(&[0, 30, 80]),
        drop: *r.pick(&[0, 30, 80]),
        fork: *r.pick(&[0, 0, 5, 15]),
        clock: *r.pick(&[0, 20, 60]),
        multi: *r.pick(&[0, 60, 120]),
        sweep_faults: *r.pick(&[0, 0, 10]),
        drain: *r.pick(&[0, 0, 5]),
        exit_mid: 0,
        modes: [60, 8, 8, 8, 8],
        width: *r.pick(&[1, 2, 4, 10, 40]),
        mid: *r.pick(&[6, 20, 100, 1000, 99_999]),
        qmax: *r.pick(&[2, 5, 20, 100, 1000]),
        cids: *r.pick(&[3, 10, 1 << 40]),
        ts: *r.pick(&[0, 100, 300]),
        ts_near: 500,
        big: *r.pick(&[0, 0, 10, 40]),
        odd_crank: *r.pick(&[0, 200, 500]),
        unsign_bias: 300,
        tail_drain: r.below(4) == 0,
        tail_exit: r.below(4) == 0,
        self_bias: *r.pick(&[0, 0, 200]),
        low_limit: *r.pick(&[0, 100, 300]),
    };
    let mut users = r.range(2, 4) as usize;
    let mut nm = *r.pick(&[1usize, 1, 2]);
    let mut oos = *r.pick(&[1usize, 1, 2]);
    let mut steps = *r.pick(&[40usize, 80, 150, 250]);
    let mut perm_pm = 250;
    let mut spare = 0usize;
    let mut stable_pm = 60;
    let mut big_books = 150;
    let mut disc_pm = 400;
    if r.below(8) == 0 {
        w.disable = 1;
    }
    if r.below(10) == 0 {
        w.freeze = 2;
    }
    if r.below(10) == 0 {
        w.init_market = 1;
        spare = 1;
    }
    if r.below(10) == 0 {
        w.old = 1;
    }
    if r.below(10) == 0 {
        w.revive = 1;
    }
    // Most runs lean towards the property under test; some stay general.
    let lean = r.below(10) < 8;
    if lean {
        match pn {
            1 => {
                w.donate = 3;
                w.settle = 12;
                w.sweep = 3;
                w.take = 12;
                p.fault = 80;
                p.tail_exit = true;
            }
            2 => {
                w.settle = 14;
                w.cancel = 12;
                p.self_bias = *r.pick(&[0, 150]);
                p.width = *r.pick(&[1, 2, 4]);
            }
            3 => {
                w.new = 60;
                w.take = 14;
                p.width = *r.pick(&[1, 2, 3, 6, 12]);
                p.mid = *r.pick(&[6, 20, 100, 1000]);
                p.tamper = 0;
                p.modes = [50, 12, 5, 10, 20];
            }
            4 => {
                w.new = 60;
                w.cancel = 16;
                w.prune = 4;
                p.width = *r.pick(&[2, 6, 40, 400]);
                p.tamper = 0;
                p.modes = [40, 25, 5, 10, 15];
            }
            5 => {
                w.new = 60;
                w.take = 25;
                p.low_limit = 300;
                p.tamper = 0;
                p.big = *r.pick(&[0, 30, 60]);
                p.mid = *r.pick(&[6, 20, 100, 2501, 99_999]);
            }
            6 => {
                w.consume = 25;
                p.odd_crank = 600;
                p.dup = 150;
                p.modes = [40, 10, 20, 20, 10];
                oos = *r.pick(&[1, 2]);
            }
            7 => {
                w.cancel = 30;
                w.cancel_cid = 15;
                w.prune = 4;
                p.delay = 400;
                p.dup = 150;
                p.width = *r.pick(&[1, 2, 4]);
                p.cids = *r.pick(&[3, 10]);
            }
            8 => {
                p.tail_exit = true;
                p.exit_mid = 8;
                w.disable = *r.pick(&[0, 1, 2]);
                w.freeze = *r.pick(&[0, 2]);
                p.self_bias = *r.pick(&[0, 200]);
                p.modes = [40, 15, 20, 5, 10];
                steps = *r.pick(&[30, 80, 150]);
            }
            9 => {
                p.fault = 350;
                p.sweep_faults = 80;
                w.settle = 16;
                w.take = 16;
                w.sweep = 6;
                w.replace = 8;
                w.freeze = 1;
                steps = *r.pick(&[40, 80]);
            }
            10 => {
                p.tamper = 500;
                p.unsign_bias = 400;
                w.settle = 14;
                w.close = 6;
                w.replace = 8;
                w.approve = 4;
                disc_pm = 800;
                users = r.range(2, 4) as usize;
            }
            11 => {
                p.tamper = 450;
                p.unsign_bias = 450;
                w.sweep = 10;
                w.disable = 3;
                w.prune = 12;
                w.init_oo = 8;
                w.consume = 20;
                perm_pm = 800;
                nm = r.range(1, 3) as usize;
            }
            12 => {
                w.disable = 5;
                w.sweep = 4;
                w.prune = 4;
                w.init_oo = 6;
                w.close = 5;
                w.settle = 12;
                w.cancel = 16;
                w.cancel_cids = 8;
                perm_pm = 500;
                p.tail_exit = r.coin();
                nm = r.range(1, 3) as usize;
            }
            13 => {
                w.take = 20;
                w.settle = 20;
                w.sweep = 8;
                w.consume = 20;
                disc_pm = 900;
                stable_pm = 200;
                p.mid = *r.pick(&[6, 100, 2500, 99_999]);
                p.width = *r.pick(&[1, 2, 4]);
                p.tamper = *r.pick(&[0, 60]);
            }
            14 => {
                users = r.range(1, 3) as usize;
                oos = 1;
                p.self_bias = 600;
                p.width = *r.pick(&[1, 2, 4]);
                p.low_limit = *r.pick(&[0, 200]);
                p.tamper = 0;
            }
            15 => {
                p.modes = [15, 60, 25, 5, 15];
                big_books = 0;
                steps = *r.pick(&[60, 120, 200]);
                p.tamper = 0;
                w.cancel = 3;
                p.multi = 100;
            }
            16 => {
                w.init_oo = 12;
                w.close = 16;
                w.create = 12;
                w.revive = 10;
                w.settle = 16;
                w.consume = 20;
                p.multi = 200;
                oos = r.range(1, 3) as usize;
                p.modes = [50, 20, 5, 20, 5];
                perm_pm = 300;
            }
            17 => {
                p.ts = 800;
                p.ts_near = 700;
                p.clock = 250;
                p.delay = 400;
                w.replace = 20;
                p.fault = 100;
            }
            18 => {
                w.replace = 40;
                w.cancel_cids = 25;
                w.cancel_cid = 6;
                p.cids = *r.pick(&[2, 4, 8]);
                p.width = *r.pick(&[1, 2, 4]);
                p.self_bias = *r.pick(&[0, 200]);
            }
            19 => {
                p.tamper = 550;
                p.unsign_bias = 60;
                nm = r.range(2, 3) as usize;
                w.settle = 14;
                w.sweep = 5;
                w.prune = 5;
                w.close = 5;
                w.replace = 6;
            }
            20 => {
                w.init_market = 40;
                spare = r.range(2, 5) as usize;
                p.tamper = 250;
                p.unsign_bias = 30;
                perm_pm = 500;
                steps = *r.pick(&[40, 80]);
                w.old = 2;
            }
            21 => {
                p.drain = 60;
                p.tail_drain = true;
                p.modes = [50, 10, 25, 5, 10];
                p.width = *r.pick(&[1, 2, 4]);
                w.settle = 6;
                steps = *r.pick(&[40, 80]);
            }
            _ => {}
        }
    }
    // Swarm: some operations vanish, some dominate.
    {
        let mut f = |x: &mut u32| match r.below(10) {
            0 => *x /= 4,
            1 | 2 => *x *= 3,
            _ => {}
        };
        f(&mut w.take);
        f(&mut w.cancel);
        f(&mut w.cancel_cid);
        f(&mut w.cancel_cids);
        f(&mut w.consume);
        f(&mut w.settle);
        f(&mut w.replace);
        f(&mut w.sweep);
        f(&mut w.prune);
        f(&mut w.close);
    }
    p.w = w;
    let mints = 3usize;
    let mut markets = vec![];
    for i in 0..nm + spare {
        let coin = r.below(2) as usize;
        let auths = if r.permille(perm_pm) { r.range(1, 3) as usize } else { 0 };
        let cap = *r.pick(&[128u64, 128, 130, 150, 200, 300]);
        let nodes = if r.permille(big_books) { 600 } else { *r.pick(&[201u64, 201, 203, 211, 202]) };
        let init = i < nm;
        markets.push(MCfg {
            coin,
            pc: if r.below(4) == 0 { 1 - coin } else { 2 },
            coin_lot: *r.pick(&[1, 1, 10, 100, 1000, 12_345]),
            pc_lot: *r.pick(&[1, 1, 10, 100, 7]),
            auths,
            cap,
            nodes,
            head: if r.coin() { cap - 1 - r.below(20) } else { r.below(cap) },
            rounds: *r.pick(&[0, 0, 1, 1000]),
            next: *r.pick(&[0, 0, 250, 1 << 16, (1 << 32) - 5, 1 << 40]),
            stable: if r.permille(stable_pm) && i < 6 { Some(i) } else { None },
            init,
            defect: if !init && r.below(3) > 0 { r.range(1, 31) as u8 } else { 0 },
        });
    }
    let whole = 1_000_000u64;
    let discounts = (0..users)
        .map(|_| {
            if !r.permille(disc_pm) {
                return (0u8, 0u64);
            }
            if r.below(3) == 0 {
                return (2, r.below(3));
            }
            let t = *r.pick(&[100u64, 1000, 10_000, 100_000, 1_000_000]) * whole;
            (1, match r.below(4) {
                0 => t,
                1 => t - 1,
                2 => t + r.below(t),
                _ => r.below(t),
            })
        })
        .collect();
    let rich = (0..4).map(|_| *r.pick(&[1_000_000_000_000u64, 1_000_000_000_000, 100_000_000, 100_000])).collect();
    let cfg = Cfg { seed, users, mints, oos, rich, discounts, markets };
    let g = Gen {
        p,
        pool: vec![],
        t: 0,
        mode: Mode::Normal,
        mode_left: 10,
        tag: 0,
        tags: vec![],
        snap_at: None,
        steps,
    };
    (cfg, g, steps)
}

impl Gen {
    fn one(op: Op) -> Vec<OpT> {
        vec![OpT { op, tamper: vec![] }]
    }

    pub fn tail(&mut self, r: &mut Rng) -> Vec<Step> {
        let mut v = vec![];
        if self.p.tail_drain {
            v.push(Step::Drain(r.next()));
        }
        if self.p.tail_exit {
            v.push(Step::Exit);
        }
        v
    }

    pub fn next(&mut self, w: &World, r: &mut Rng) -> Step {
        self.t += 1;
        // Forks: everything since the snapshot is abandoned after a while.
        if let Some(at) = self.snap_at {
            if self.t >= at {
                self.snap_at = None;
                return Step::Restore;
            }
        } else if r.permille(self.p.fork) {
            self.snap_at = Some(self.t + r.range(1, 12));
            return Step::Snapshot;
        }
        if r.permille(self.p.clock) {
            let c = w.chain.clock;
            let d = match r.below(6) {
                0 => -(r.range(1, 100) as i64),
                1 => r.range(100, 100_000) as i64,
                2 => -1,
                _ => r.range(1, 3) as i64,
            };
            return Step::Clock(if r.below(30) == 0 { *r.pick(&[0, i64::MAX, -1, i64::MAX - 1]) } else { c.saturating_add(d) });
        }
        if r.permille(self.p.drain) {
            return Step::Drain(r.next());
        }
        if r.permille(self.p.exit_mid) {
            return Step::Exit;
        }
        // Deliver what is due.
        if let Some(i) = (0..self.pool.len()).find(|i| self.pool[*i].0 <= self.t) {
            let (_, ixs, faults) = self.pool.swap_remove(i);
            if r.permille(self.p.dup) {
                self.pool.push((self.t + r.range(1, 10), ixs.clone(), Faults::default()));
            }
            return Step::Tx { ixs, faults };
        }
        if self.mode_left == 0 {
            self.mode = match r.weighted(&self.p.modes) {
                0 => Mode::Normal,
                1 => Mode::Post(r.coin(), if r.coin() { Some(r.below(w.users.len() as u64) as usize) } else { None }),
                2 => Mode::NoCrank,
                3 => Mode::Drain,
                _ => Mode::Sweep,
            };
            self.mode_left = r.range(4, 40) as u32;
        }
        self.mode_left -= 1;
        let mut ixs = self.make(w, r);
        let prune = ixs.iter().any(|o| matches!(o.op, Op::Prune { .. }));
        let multi_ok = |o: &OpT| {
            !matches!(o.op, Op::Prune { .. } | Op::Consume { .. } | Op::ConsumePerm { .. } | Op::InitMarket { .. })
        };
        if !prune && ixs.len() == 1 && multi_ok(&ixs[0]) && r.permille(self.p.multi) {
            for _ in 0..r.range(1, 4) {
                let more = self.make(w, r);
                for o in more {
                    if multi_ok(&o) {
                        ixs.push(o);
                    }
                }
            }
        }
        if r.permille(self.p.sweep_faults) {
            return Step::FaultSweep(ixs);
        }
        if r.permille(self.p.tamper) && ixs.len() == 1 && World::op_market(&ixs[0].op).is_some() {
            let n = w.build(&ixs[0].op, &[]).metas.len();
            let k = if r.below(6) == 0 { 2 } else { 1 };
            for _ in 0..k {
                let t = self.tamper(w, r, &ixs[0].op, n);
                ixs[0].tamper.push(t);
            }
        }
        let mut faults = Faults::default();
        if r.permille(self.p.fault) {
            match r.below(10) {
                0..=3 => {
                    faults.cpi_fail =
                        Some((r.below(3) as u32, *r.pick(&[0, 1, 3, 4, 17, 1_000_000, 1_000_001, 1_000_002, 1_000_005])))
                }
                4 | 5 => {
                    if ixs.len() == 1 && matches!(ixs[0].op, Op::New { .. } | Op::Take { .. } | Op::Replace { .. }) {
                        let i = if matches!(ixs[0].op, Op::Replace { .. }) { r.below(2) as u32 } else { 0 };
                        faults.cpi_short = Some((i, *r.pick(&[1i64, 1, 7, 1 << 20, i64::MAX, -1, -5])));
                    } else {
                        faults.abort_at = Some(r.below(8) as u32);
                    }
                }
                6 | 7 => faults.abort_at = Some(r.below(8) as u32),
                8 => faults.clock_err = true,
                _ => faults.rent_err = true,
            }
        }
        if r.permille(self.p.drop) {
            // Lost on the way; the sender may try again later with the same bytes.
            if r.coin() {
                self.pool.push((self.t + r.range(1, 15), ixs, Faults::default()));
            }
            return self.next_small(w, r);
        }
        if r.permille(self.p.delay) {
            self.pool.push((self.t + r.range(1, 20), ixs, faults));
            return self.next_small(w, r);
        }
        if r.permille(self.p.dup) {
            self.pool.push((self.t + r.range(1, 10), ixs.clone(), Faults::default()));
        }
        Step::Tx { ixs, faults }
    }

    /// Something to do in place of a lost or delayed transaction.
    fn next_small(&mut self, w: &World, r: &mut Rng) -> Step {
        let ixs = self.make(w, r);
        Step::Tx { ixs, faults: Faults::default() }
    }

    fn tamper(&mut self, w: &World, r: &mut Rng, op: &Op, n: usize) -> Tamper {
        let ix = w.build(op, &[]);
        if n == 0 {
            return Tamper::Append(r.below(w.chain.accts.len() as u64) as usize);
        }
        if r.permille(self.p.unsign_bias) {
            let s: Vec<usize> = (0..n).filter(|i| ix.metas[*i].signer).collect();
            if !s.is_empty() {
                let i = *r.pick(&s);
                return if r.below(3) == 0 {
                    let mut c = w.users.clone();
                    c.extend([w.sweeper, w.disabler, w.freeze]);
                    c.extend(w.mk.iter().flat_map(|k| k.auths.iter().cloned()));
                    Tamper::Sub(i, *r.pick(&c))
                } else {
                    Tamper::Unsign(i)
                };
            }
        }
        let i = r.below(n as u64) as usize;
        match r.below(24) {
            0 => Tamper::Drop(i),
            1 => Tamper::Dup(i),
            2 => Tamper::Append(r.below(w.chain.accts.len() as u64) as usize),
            3 => Tamper::Readonly(i),
            4 => Tamper::Swap(i, r.below(n as u64) as usize),
            5..=8 => Tamper::Sub(i, r.below(w.chain.accts.len() as u64) as usize),
            _ => Tamper::Sub(i, self.similar(w, r, ix.metas[i].aid)),
        }
    }

    /// An account of the same kind as `a` somewhere else in the system.
    fn similar(&self, w: &World, r: &mut Rng, a: Aid) -> Aid {
        let kind = |x: Role| match x {
            Role::Market(_) => 0,
            Role::EvQ(_) => 1,
            Role::ReqQ(_) => 2,
            Role::Bids(_) | Role::Asks(_) => 3,
            Role::Oo => 4,
            Role::Tok => 5,
            Role::Mint => 6,
            Role::Other | Role::Pool | Role::Raw => 7,
        };
        let k = kind(w.roles[a]);
        let mut c: Vec<Aid> = (0..w.chain.accts.len()).filter(|x| *x != a && kind(w.roles[*x]) == k).collect();
        if k == 5 && r.below(3) > 0 {
            // Prefer the same mint.
            let m = tok(&w.chain.accts[a].data).map(|t| t.mint);
            let d: Vec<Aid> = c.iter().cloned().filter(|x| tok(&w.chain.accts[*x].data).map(|t| t.mint) == m).collect();
            if !d.is_empty() {
                c = d;
            }
        }
        if c.is_empty() {
            return r.below(w.chain.accts.len() as u64) as usize;
        }
        *r.pick(&c)
    }

    fn pick_market(&self, w: &World, r: &mut Rng) -> usize {
        let live: Vec<usize> = (0..w.mk.len()).filter(|m| w.market(*m).is_some()).collect();
        if live.is_empty() || r.below(60) == 0 {
            return r.below(w.mk.len() as u64) as usize;
        }
        *r.pick(&live)
    }

    fn make(&mut self, w: &World, r: &mut Rng) -> Vec<OpT> {
        let m = self.pick_market(w, r);
        let q = w.evq(m);
        let nearly_full = q.count + 20 > q.cap;
        match self.mode.clone() {
            Mode::Post(bid, who) => {
                if nearly_full && r.below(4) > 0 {
                    return Self::one(self.consume(w, r, m, true));
                }
                if r.below(5) > 0 {
                    let n = r.range(1, 8);
                    let mut v = vec![];
                    for _ in 0..n {
                        let u = who.filter(|_| r.below(10) > 0).unwrap_or(r.below(w.users.len() as u64) as usize);
                        v.push(OpT { op: self.order(w, r, m, u, Some(bid), true), tamper: vec![] });
                    }
                    return v;
                }
            }
            Mode::Drain => {
                if r.below(3) > 0 {
                    let good = r.below(3) > 0;
                    return Self::one(if r.below(3) > 0 && q.count > 0 {
                        self.consume(w, r, m, good)
                    } else {
                        self.settle(w, r, m)
                    });
                }
            }
            Mode::Sweep => {
                if r.below(3) > 0 {
                    if r.below(3) == 0 {
                        return Self::one(self.take(w, r, m));
                    }
                    let u = r.below(w.users.len() as u64) as usize;
                    return Self::one(self.order(w, r, m, u, None, false));
                }
            }
            _ => {}
        }
        let x = &self.p.w;
        let consume = if self.mode == Mode::NoCrank { 0 } else { x.consume };
        let ws = [
            x.new,
            x.replace,
            x.take,
            x.cancel,
            x.cancel_cid,
            x.cancel_cids,
            consume,
            x.settle,
            x.sweep,
            x.disable,
            x.init_oo,
            x.close,
            x.prune,
            x.init_market,
            x.old,
            x.donate,
            x.approve,
            x.freeze,
            x.create,
            x.revive,
        ];
        let u = r.below(w.users.len() as u64) as usize;
        let owner = w.users[u];
        let k = &w.mk[m];
        let oo = *r.pick(&k.oos[u]);
        let op = match r.weighted(&ws) {
            0 => self.order(w, r, m, u, None, false),
            1 => self.replace(w, r, m, u),
            2 => self.take(w, r, m),
            3 => self.cancel(w, r, m),
            4 => Op::CancelCid { m, oo, owner, cid: self.cid_of(w, r, oo) },
            5 => {
                let n = r.range(0, 8);
                let cids = (0..n).map(|_| self.cid_of(w, r, oo)).collect();
                Op::CancelCids { m, oo, owner, cids }
            }
            6 => self.consume(w, r, m, false),
            7 => self.settle(w, r, m),
            8 => {
                let auth = if r.below(8) == 0 { owner } else { w.sweeper };
                let to = if r.below(6) == 0 { w.toks[u][k.cfg.pc][0] } else { w.refs[k.cfg.pc] };
                Op::Sweep { m, auth, to }
            }
            9 => Op::Disable { m, auth: if r.below(3) == 0 { owner } else { w.disabler } },
            10 => {
                let auth = match (k.auths.first(), r.below(8)) {
                    (_, 0) => Some(owner),
                    (Some(a), 1..=6) => Some(*a),
                    _ => None,
                };
                Op::InitOo { m, oo, owner, auth }
            }
            11 => {
                let dest = if r.below(5) == 0 { w.users[r.below(w.users.len() as u64) as usize] } else { owner };
                // Prefer an account that is empty, or nearly.
                let mut oo = oo;
                for v in &k.oos[u] {
                    if w.live_oo(*v).map(|o| o.coin_total == 0 && o.pc_total == 0).unwrap_or(false) && r.coin() {
                        oo = *v;
                    }
                }
                Op::CloseOo { m, oo, owner, dest }
            }
            12 => {
                let auth = if k.auths.len() > 1 && r.below(6) > 0 { k.auths[1] } else { owner };
                Op::Prune { m, auth, oo, owner, limit: *r.pick(&[u16::MAX, u16::MAX, 1000, 1, 3, 10]) }
            }
            13 => {
                let cand: Vec<usize> = (0..w.mk.len()).filter(|m| w.market(*m).is_none()).collect();
                let m = if cand.is_empty() || r.below(4) == 0 {
                    r.below(w.mk.len() as u64) as usize
                } else {
                    *r.pick(&cand)
                };
                let mut op = w.init_op(m);
                if let Op::InitMarket { nonce, dust, bps, .. } = &mut op {
                    if r.below(8) == 0 {
                        *nonce += r.range(1, 5);
                    }
                    *dust = *r.pick(&[100, 1, 12_345]);
                    *bps = *r.pick(&[0, 0, 5, 150]);
                }
                op
            }
            14 => Op::Old { m, tag: *r.pick(&[1, 2, 4, 6, 9]) },
            15 => {
                let pc = r.coin();
                let mint = if pc { k.cfg.pc } else { k.cfg.coin };
                Op::TokTransfer {
                    from: w.toks[u][mint][0],
                    to: if pc { k.pc_vault } else { k.coin_vault },
                    auth: owner,
                    amount: r.range(1, 50),
                }
            }
            16 => {
                let mint = if r.coin() { k.cfg.pc } else { k.cfg.coin };
                Op::Approve {
                    acct: w.toks[u][mint][r.below(2) as usize],
                    delegate: w.users[r.below(w.users.len() as u64) as usize],
                    owner,
                    amount: *r.pick(&[1000, 1_000_000, 1 << 40]),
                }
            }
            17 => {
                let pc = r.coin();
                let mint = if pc { k.cfg.pc } else { k.cfg.coin };
                let a = match r.below(5) {
                    0 => {
                        if pc {
                            k.pc_vault
                        } else {
                            k.coin_vault
                        }
                    }
                    1 => w.refs[mint],
                    _ => w.toks[u][mint][0],
                };
                let frozen = tok(&w.chain.accts[a].data).map(|t| t.state == 2).unwrap_or(false);
                Op::Freeze { acct: a, mint: w.mints[mint], auth: w.freeze, thaw: frozen }
            }
            18 => {
                let lam = w.chain.rent.minimum_balance(OO_LEN);
                let mut oo = oo;
                for v in k.oos.iter().flatten() {
                    if w.chain.accts[*v].data.is_empty() && r.coin() {
                        oo = *v;
                    }
                }
                if r.below(3) == 0 {
                    Op::SysTransfer { from: owner, to: oo, lamports: lam }
                } else {
                    Op::CreateOo { payer: owner, oo, lamports: *r.pick(&[lam, lam, lam, lam - 1, lam + 5]) }
                }
            }
            _ => {
                // Close and try to bring the account back within the same transaction.
                let lam = w.chain.rent.minimum_balance(OO_LEN);
                let mut v = vec![Op::CloseOo { m, oo, owner, dest: owner }];
                if r.below(4) > 0 {
                    v.push(Op::SysTransfer { from: owner, to: oo, lamports: lam });
                }
                match r.below(4) {
                    0 => v.push(Op::InitOo { m, oo, owner, auth: k.auths.first().cloned() }),
                    1 => v.push(self.settle(w, r, m)),
                    2 => v.push(Op::CloseOo { m, oo, owner, dest: owner }),
                    _ => {
                        let mut o = self.order(w, r, m, u, None, false);
                        if let Op::New { oo: x, .. } = &mut o {
                            *x = oo;
                        }
                        v.push(o);
                    }
                }
                return v.into_iter().map(|op| OpT { op, tamper: vec![] }).collect();
            }
        };
        Self::one(op)
    }

    fn cid_of(&self, w: &World, r: &mut Rng, oo: Aid) -> u64 {
        if let Some(o) = w.live_oo(oo) {
            if !o.slots.is_empty() && r.below(4) > 0 {
                return r.pick(&o.slots).cid;
            }
        }
        r.below(self.p.cids + 1)
    }

    fn mid(&self, w: &World, m: usize) -> u64 {
        let b = w.book(m, true).leaves.last().map(|l| l.price());
        let a = w.book(m, false).leaves.first().map(|l| l.price());
        let cap = |x: u64| x.clamp(1, 1_000_000_000);
        match (b, a) {
            (Some(b), Some(a)) => cap(b / 2 + a / 2),
            (Some(b), None) => cap(b),
            (None, Some(a)) => cap(a),
            _ => self.p.mid,
        }
        .max(1)
    }

    fn price(&self, w: &World, r: &mut Rng, m: usize, bid: bool, passive: bool) -> u64 {
        let mid = if r.below(3) == 0 { self.p.mid } else { self.mid(w, m) };
        let wd = if passive { self.p.width * 4 + 3 } else { self.p.width };
        let d = r.below(wd + 1);
        if passive {
            // Away from the other side.
            if bid {
                let top = w.book(m, false).leaves.first().map(|l| l.price()).unwrap_or(mid + 1);
                top.saturating_sub(1 + d).max(1)
            } else {
                let top = w.book(m, true).leaves.last().map(|l| l.price()).unwrap_or(mid);
                top.saturating_add(1 + d)
            }
        } else if r.coin() {
            mid.saturating_add(d)
        } else {
            mid.saturating_sub(d).max(1)
        }
    }

    fn qty(&self, r: &mut Rng) -> u64 {
        match r.below(8) {
            0 => 1,
            1 => self.p.qmax * r.range(1, 5),
            _ => r.range(1, self.p.qmax),
        }
    }

    fn budget(&self, r: &mut Rng, price: u64, qty: u64, lot: u64) -> u64 {
        let exact = (price as u128 * qty as u128 * lot as u128).min(1 << 62) as u64;
        match r.below(12) {
            0 => exact.max(1),
            1 => exact.saturating_sub(r.range(1, 5)).max(1),
            2 => exact / 2 + 1,
            3 => r.range(1, lot.saturating_mul(price).max(2)),
            4 => exact + 1,
            5 => exact.saturating_mul(2),
            6 => exact + (exact / 2500) + 1,
            _ => exact + exact / 1000 + 3,
        }
    }

    fn payload(&mut self, w: &World, r: &mut Rng, m: usize, bid: bool, passive: bool) -> Ord_ {
        let lot = w.mk[m].cfg.pc_lot;
        let mut price = self.price(w, r, m, bid, passive);
        let mut qty = self.qty(r);
        let mut pc = if bid { self.budget(r, price, qty, lot) } else { *r.pick(&[1, 1000, u64::MAX]) };
        if r.permille(self.p.big) {
            match r.below(5) {
                0 => price = u64::MAX - r.below(3),
                1 => qty = u64::MAX - r.below(3),
                2 => pc = u64::MAX - r.below(3),
                3 => {
                    price = u64::MAX;
                    qty = u64::MAX
                }
                _ => qty = 1 << 50,
            }
        }
        let ty = if passive {
            *r.pick(&[0, 0, 2])
        } else if self.mode == Mode::Sweep {
            *r.pick(&[0, 1, 1])
        } else {
            *r.pick(&[0, 0, 0, 0, 1, 1, 2])
        };
        let ts = if r.permille(self.p.ts) {
            let c = w.chain.clock;
            Some(if r.permille(self.p.ts_near) {
                c.saturating_add(r.range(0, 6) as i64 - 3)
            } else {
                *r.pick(&[i64::MAX, i64::MAX - 1, 0, -1, c.saturating_add(1000), c.saturating_sub(1000), i64::MIN])
            })
        } else {
            None
        };
        self.tag += 1;
        Ord_ {
            bid,
            price,
            qty,
            pc,
            stb: r.below(3) as u8,
            ty,
            cid: r.below(self.p.cids + 1),
            limit: if r.permille(self.p.low_limit) { r.below(4) as u16 } else { *r.pick(&[u16::MAX, 10, 100]) },
            ts,
            tag: self.tag,
        }
    }

    fn payer(&self, w: &World, r: &mut Rng, m: usize, u: usize, bid: bool) -> Aid {
        let c = &w.mk[m].cfg;
        let mint = if bid { c.pc } else { c.coin };
        if r.below(12) == 0 {
            // Somebody else's account the user may have an allowance on.
            let k = w.chain.key(w.users[u]).to_bytes();
            for v in &w.toks {
                for a in &v[mint] {
                    if tok(&w.chain.accts[*a].data).map(|t| t.delegate == Some(k)).unwrap_or(false) {
                        return *a;
                    }
                }
            }
        }
        w.toks[u][mint][if r.below(8) == 0 { 1 } else { 0 }]
    }

    fn order(&mut self, w: &World, r: &mut Rng, m: usize, u: usize, side: Option<bool>, passive: bool) -> Op {
        let mut u = u;
        let mut bid = side.unwrap_or(r.coin());
        if side.is_none() && r.permille(self.p.self_bias) {
            // Aim at the best order of the other side with its own owner.
            let b = w.book(m, !bid);
            let best = if bid { b.leaves.first() } else { b.leaves.last() };
            if let Some(l) = best {
                if let Some(x) = (0..w.users.len())
                    .find(|x| w.mk[m].oos[*x].iter().any(|a| w.chain.key(*a).to_bytes() == l.owner))
                {
                    u = x;
                }
            } else {
                bid = !bid;
            }
        }
        let o = self.payload(w, r, m, bid, passive);
        let mut oo = *r.pick(&w.mk[m].oos[u]);
        if r.below(4) > 0 {
            if let Some(x) = w.mk[m].oos[u].iter().find(|x| w.live_oo(**x).is_some()) {
                oo = *x;
            }
        }
        self.tags.push((m, oo, bid, o.tag));
        let disc = w.discs[u].filter(|_| r.below(3) > 0);
        let payer = self.payer(w, r, m, u, bid);
        Op::New { m, oo, owner: w.users[u], payer, disc, o }
    }

    fn replace(&mut self, w: &World, r: &mut Rng, m: usize, u: usize) -> Op {
        let n = *r.pick(&[1usize, 1, 2, 3, 5, 8]);
        let bid = r.coin();
        let mut oo = *r.pick(&w.mk[m].oos[u]);
        if r.below(4) > 0 {
            if let Some(x) = w.mk[m].oos[u].iter().find(|x| w.live_oo(**x).is_some()) {
                oo = *x;
            }
        }
        let mut os = vec![];
        for _ in 0..n {
            let b = if r.below(12) == 0 { !bid } else { bid };
            let passive = r.coin();
            let mut o = self.payload(w, r, m, b, passive);
            if r.coin() {
                o.cid = self.cid_of(w, r, oo);
            }
            if o.ts.is_none() {
                o.ts = Some(i64::MAX);
            }
            self.tags.push((m, oo, b, o.tag));
            os.push(o);
        }
        let disc = w.discs[u].filter(|_| r.below(3) > 0);
        let payer = self.payer(w, r, m, u, bid);
        Op::Replace { m, oo, owner: w.users[u], payer, disc, os, single: n == 1 && r.coin() }
    }

    fn take(&mut self, w: &World, r: &mut Rng, m: usize) -> Op {
        let u = r.below(w.users.len() as u64) as usize;
        let bid = r.coin();
        let c = &w.mk[m].cfg;
        let price = if r.below(4) == 0 {
            if bid {
                u64::MAX
            } else {
                1
            }
        } else {
            self.price(w, r, m, bid, false)
        };
        let qty = if r.below(8) == 0 { u64::MAX } else { self.qty(r) };
        let mid = self.mid(w, m);
        let pc = if bid { self.budget(r, mid, qty.min(self.p.qmax * 5), c.pc_lot) } else { *r.pick(&[1, u64::MAX]) };
        // Minimum outputs near what the best order offers.
        let b = w.book(m, !bid);
        let best = if bid { b.leaves.first() } else { b.leaves.last() };
        let near = best.map(|l| l.qty.min(qty)).unwrap_or(1);
        let (mut min_coin, mut min_pc) = (0, 0);
        if r.below(3) == 0 {
            min_coin = near.saturating_add(r.below(3)).saturating_sub(1);
        }
        if r.below(3) == 0 {
            let v = near.saturating_mul(best.map(|l| l.price()).unwrap_or(1)).saturating_mul(c.pc_lot);
            min_pc = v.saturating_sub(r.below(4)).saturating_sub(if r.coin() { v / 2500 } else { 0 });
        }
        if r.permille(self.p.big) {
            min_coin = u64::MAX;
        }
        Op::Take {
            m,
            signer: w.users[u],
            cw: w.toks[u][c.coin][if r.below(8) == 0 { 1 } else { 0 }],
            pw: w.toks[u][c.pc][0],
            disc: w.discs[u].filter(|_| r.below(3) > 0),
            bid,
            price,
            qty,
            pc,
            min_coin,
            min_pc,
            limit: if r.permille(self.p.low_limit) { r.below(4) as u16 } else { *r.pick(&[u16::MAX, 10, 100]) },
        }
    }

    fn cancel(&mut self, w: &World, r: &mut Rng, m: usize) -> Op {
        if !self.tags.is_empty() && r.below(3) == 0 {
            // From a possibly stale view: an order sent earlier, whatever became of it.
            let n = self.tags.len() as u64;
            let i = if r.coin() { n - 1 - r.below(n.min(6)) } else { r.below(n) };
            let (m, oo, bid, t) = self.tags[i as usize];
            let owner = w.owner_of_oo(m, oo).unwrap_or(w.users[0]);
            return Op::Cancel { m, oo, owner, bid: if r.below(15) == 0 { !bid } else { bid }, id: OrdRef::Tag(t) };
        }
        let bid = r.coin();
        let b = w.book(m, bid);
        if b.leaves.is_empty() {
            let u = r.below(w.users.len() as u64) as usize;
            let oo = *r.pick(&w.mk[m].oos[u]);
            let id = r.next().to_string();
            return Op::Cancel { m, oo, owner: w.users[u], bid, id: OrdRef::Raw(id) };
        }
        let l = match r.below(4) {
            0 => b.leaves.first().unwrap(),
            1 => b.leaves.last().unwrap(),
            _ => r.pick(&b.leaves),
        };
        let mut oo = w.chain.index.borrow().get(&pk(&l.owner)).cloned().unwrap_or(w.mk[m].oos[0][0]);
        if r.below(12) == 0 {
            let u = r.below(w.users.len() as u64) as usize;
            oo = *r.pick(&w.mk[m].oos[u]);
        }
        let owner = w.owner_of_oo(m, oo).unwrap_or(w.users[0]);
        let side = if r.below(20) == 0 { !bid } else { bid };
        Op::Cancel { m, oo, owner, bid: side, id: OrdRef::Raw(l.key.to_string()) }
    }

    fn consume(&mut self, w: &World, r: &mut Rng, m: usize, good: bool) -> Op {
        let q = w.evq(m);
        let k = r.range(1, 24) as usize;
        let mut oos: Vec<Aid> = vec![];
        for e in q.evs.iter().take(k) {
            if let Some(a) = w.chain.index.borrow().get(&pk(&e.owner)) {
                if !oos.contains(a) {
                    oos.push(*a);
                }
            }
        }
        if r.below(5) == 0 || oos.is_empty() {
            oos = w.all_oos(m);
        }
        w.sort_oos(&mut oos);
        if !good && r.permille(self.p.odd_crank) {
            match r.below(7) {
                0 if oos.len() > 1 => {
                    let i = r.below(oos.len() as u64) as usize;
                    oos.remove(i);
                }
                1 => {
                    let i = r.below(oos.len() as u64) as usize;
                    let x = oos[i];
                    oos.insert(i, x);
                }
                2 => r.shuffle(&mut oos),
                3 => {
                    // Accounts of other markets and strangers, in order.
                    for _ in 0..r.range(1, 4) {
                        let j = r.below(w.mk.len() as u64) as usize;
                        let u = r.below(w.users.len() as u64) as usize;
                        oos.push(*r.pick(&w.mk[j].oos[u]));
                    }
                    w.sort_oos(&mut oos);
                    oos.dedup();
                }
                4 => {
                    oos = vec![*r.pick(&oos)];
                }
                5 => {
                    oos.push(r.below(w.chain.accts.len() as u64) as usize);
                    w.sort_oos(&mut oos);
                }
                _ => oos.reverse(),
            }
        }
        let limit = *r.pick(&[u16::MAX, 64, 10, 5, 3, 2, 1, 1, 0]);
        let perm = w.market(m).map(|x| x.flags & F_CRANK != 0).unwrap_or(false);
        let wrong = r.below(30) == 0;
        if (perm != wrong) && !w.mk[m].auths.is_empty() {
            let auth = if r.below(10) == 0 { w.users[0] } else { *w.mk[m].auths.last().unwrap() };
            Op::ConsumePerm { m, oos, auth, limit }
        } else {
            Op::Consume { m, oos, limit }
        }
    }

    fn settle(&mut self, w: &World, r: &mut Rng, m: usize) -> Op {
        let k = &w.mk[m];
        let mut u = r.below(w.users.len() as u64) as usize;
        let mut oo = *r.pick(&k.oos[u]);
        if r.below(3) > 0 {
            let mut c = vec![];
            for (x, v) in k.oos.iter().enumerate() {
                for a in v {
                    if w.live_oo(*a).map(|o| o.coin_free + o.pc_free + o.rebates > 0).unwrap_or(false) {
                        c.push((x, *a));
                    }
                }
            }
            if !c.is_empty() {
                let (x, a) = *r.pick(&c);
                u = x;
                oo = a;
            }
        }
        let t = if r.below(10) == 0 { r.below(w.users.len() as u64) as usize } else { u };
        let refr = if r.below(5) < 2 { Some(w.refs[k.cfg.pc]) } else { None };
        Op::Settle {
            m,
            oo,
            owner: w.users[u],
            cw: w.toks[t][k.cfg.coin][r.below(2) as usize],
            pw: w.toks[t][k.cfg.pc][0],
            refr,
        }
    }

    #[allow(dead_code)]
    pub fn steps(&self) -> usize {
        self.steps
    }
}
