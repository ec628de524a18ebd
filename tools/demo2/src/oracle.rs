//! Judges every step: refinement against the model, invariants over the committed state, whole-run checks.
use crate::chain::*;
use crate::layout::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::world::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Viol {
    /// Bit n stands for property Cn.
    pub props: u64,
    pub class: String,
    pub detail: String,
}

pub const fn c(n: u32) -> u64 {
    1 << n
}

/// What a run reached; summed over runs for the evidence file.
#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    pub states: std::collections::HashSet<u64>,
    /// Running hash of the current run's (operation, outcome) sequence.
    pub h: u64,
}

impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.n.entry(k).or_default() += 1;
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_default() += v;
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).cloned().unwrap_or(0)
    }
    /// Everything that went against a transaction: injected faults, refusals, byzantine transactions.
    pub fn faults(&self) -> u64 {
        self.n
            .iter()
            .filter(|(k, _)| k.starts_with("fault") || k.starts_with("refused: ") || k.starts_with("byzantine"))
            .map(|x| *x.1)
            .sum()
    }
    pub fn log(&mut self, parts: &[u64]) {
        let mut v = vec![self.h];
        v.extend_from_slice(parts);
        self.h = crate::rng::mix(&v);
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.n {
            *self.n.entry(k).or_default() += v;
        }
        self.states.extend(o.states);
    }
}

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::New { .. } => "new_order",
        Op::Replace { .. } => "replace",
        Op::Take { .. } => "send_take",
        Op::Cancel { .. } => "cancel",
        Op::CancelCid { .. } => "cancel_by_client_id",
        Op::CancelCids { .. } => "cancel_by_client_ids",
        Op::Consume { .. } => "consume_events",
        Op::ConsumePerm { .. } => "consume_events_permissioned",
        Op::Settle { .. } => "settle",
        Op::Sweep { .. } => "sweep",
        Op::Disable { .. } => "disable",
        Op::InitOo { .. } => "init_open_orders",
        Op::CloseOo { .. } => "close_open_orders",
        Op::Prune { .. } => "prune",
        Op::InitMarket { .. } => "init_market",
        Op::Old { .. } => "deprecated",
        Op::TokTransfer { .. } => "token_transfer",
        Op::Approve { .. } => "approve",
        Op::Freeze { .. } => "freeze",
        Op::SysTransfer { .. } => "lamport_transfer",
        Op::CreateOo { .. } => "create_account",
    }
}

fn is_place(op: &Op) -> bool {
    matches!(op, Op::New { .. } | Op::Replace { .. } | Op::Take { .. })
}
fn is_exit_op(op: &Op) -> bool {
    matches!(
        op,
        Op::Cancel { .. }
            | Op::CancelCid { .. }
            | Op::CancelCids { .. }
            | Op::Consume { .. }
            | Op::ConsumePerm { .. }
            | Op::Settle { .. }
            | Op::CloseOo { .. }
    )
}

/// Properties about the operation itself.
fn op_props(op: &Op) -> u64 {
    match op {
        Op::New { .. } => c(5),
        Op::Replace { .. } => c(18) | c(5),
        Op::Take { .. } => c(5),
        Op::Cancel { .. } | Op::CancelCid { .. } => c(7),
        Op::CancelCids { .. } => c(18) | c(7),
        Op::Consume { .. } | Op::ConsumePerm { .. } => c(6) | c(21),
        Op::Settle { .. } => c(2),
        Op::Sweep { .. } => c(13) | c(11),
        Op::Disable { .. } => c(12) | c(11),
        Op::InitOo { .. } => c(16),
        Op::CloseOo { .. } => c(16),
        Op::Prune { .. } => c(11),
        Op::InitMarket { .. } => c(20),
        Op::Old { .. } => c(19),
        _ => 0,
    }
}

/// Context in which the operation ran.
fn ctx_props(op: &Op, tr: &Trace, fired: &Fired, exit: bool) -> u64 {
    let mut p = 0;
    if tr.self_trade {
        p |= c(14);
    }
    if tr.evicted {
        p |= c(15);
    }
    if tr.disabled {
        p |= c(12);
    }
    if exit {
        p |= c(8);
    }
    if tr.init_oo || tr.high_slot {
        p |= c(16);
    }
    if fired.any() {
        p |= c(9);
    }
    if let Op::New { o, .. } = op {
        if o.ts.is_some() {
            p |= c(17);
        }
    }
    p
}

fn accepted_props(why: Why, op: &Op) -> u64 {
    let auth_op = matches!(
        op,
        Op::Sweep { .. } | Op::Disable { .. } | Op::Prune { .. } | Op::ConsumePerm { .. }
    );
    match why {
        Why::Count => op_props(op) | c(19),
        Why::Signer if auth_op => c(11),
        Why::Signer => c(10),
        Why::Authority => c(11) | if matches!(op, Op::InitOo { .. } | Op::New { .. }) { c(16) } else { 0 },
        Why::Subst => c(19) | if matches!(op, Op::InitMarket { .. }) { c(20) } else { 0 },
        Why::OoSubst => c(19) | c(10) | c(16),
        Why::NotYours => {
            c(10) | c(19) | if matches!(op, Op::Cancel { .. } | Op::CancelCid { .. }) { c(7) } else { 0 }
        }
        Why::Discount => c(10) | c(13),
        Why::Disabled => c(12),
        Why::Expired => c(17),
        Why::Funds => c(5) | c(1) | c(9),
        Why::TokenAuth => c(10) | c(19),
        Why::Frozen => c(9),
        Why::SelfTrade => c(14),
        Why::QueueFull => c(15) | c(6),
        Why::MinOut => c(5),
        Why::NotFound => c(7),
        Why::OoState => c(16),
        Why::SlotsFull => c(16),
        Why::Nonempty => c(16),
        Why::InitCheck | Why::Void => c(20),
        Why::ReadOnly => c(19),
        Why::Arith => c(1) | c(2),
        Why::Gone => c(19) | c(10),
    }
}

/// Which property aspects differ between the modelled and the actual content of one account.
fn diff(w: &World, a: Aid, e: &View, x: &View) -> Vec<(u64, String)> {
    let mut out = vec![];
    let mut d = |m: u64, s: String| out.push((m, s));
    let name = &w.names[a];
    let is_vault = w.mk.iter().any(|k| k.coin_vault == a || k.pc_vault == a);
    if e.owner != x.owner || e.len != x.len {
        d(c(16) | c(19), format!("{}: owner or size differs", name));
    }
    if e.lamports != x.lamports {
        d(c(16), format!("{}: lamports {} instead of {}", name, x.lamports, e.lamports));
    }
    match (&e.body, &x.body) {
        (Parsed::Market(p), Parsed::Market(q)) => {
            if (p.coin_dep, p.pc_dep) != (q.coin_dep, q.pc_dep) {
                d(
                    c(1) | c(2),
                    format!(
                        "{}: deposits ({}, {}) instead of ({}, {})",
                        name, q.coin_dep, q.pc_dep, p.coin_dep, p.pc_dep
                    ),
                );
            }
            if (p.pc_fees, p.rebates, p.coin_fees) != (q.pc_fees, q.rebates, q.coin_fees) {
                d(
                    c(13) | c(1),
                    format!(
                        "{}: fees/rebates ({}, {}) instead of ({}, {})",
                        name, q.pc_fees, q.rebates, p.pc_fees, p.rebates
                    ),
                );
            }
            if p.flags != q.flags {
                let dis = (p.flags ^ q.flags) & F_DISABLED != 0;
                d(
                    if dis { c(12) } else { 0 } | c(20) | c(11),
                    format!("{}: flags {:#x} instead of {:#x}", name, q.flags, p.flags),
                );
            }
            let (mut p2, mut q2) = (p.clone(), q.clone());
            for z in [&mut p2, &mut q2] {
                z.coin_dep = 0;
                z.pc_dep = 0;
                z.pc_fees = 0;
                z.coin_fees = 0;
                z.rebates = 0;
                z.flags = 0;
            }
            if p2 != q2 {
                let auth = (p2.oo_auth, p2.prune_auth, p2.crank_auth) != (q2.oo_auth, q2.prune_auth, q2.crank_auth);
                d(c(20) | if auth { c(11) } else { 0 }, format!("{}: market parameters differ", name));
            }
        }
        (Parsed::Oo(p), Parsed::Oo(q)) => {
            if (p.coin_free, p.coin_total, p.pc_free, p.pc_total) != (q.coin_free, q.coin_total, q.pc_free, q.pc_total)
            {
                d(
                    c(2),
                    format!(
                        "{}: coin free/total {}/{} pc free/total {}/{} instead of {}/{} {}/{}",
                        name,
                        q.coin_free,
                        q.coin_total,
                        q.pc_free,
                        q.pc_total,
                        p.coin_free,
                        p.coin_total,
                        p.pc_free,
                        p.pc_total
                    ),
                );
            }
            if p.slots != q.slots {
                let n = p.slots.iter().filter(|s| !q.slots.contains(s)).count();
                let k = q.slots.iter().filter(|s| !p.slots.contains(s)).count();
                d(c(4) | c(16), format!("{}: order slots differ ({} missing, {} extra)", name, n, k));
            }
            if p.rebates != q.rebates {
                d(c(13), format!("{}: referrer rebates {} instead of {}", name, q.rebates, p.rebates));
            }
            if (p.flags, p.market, p.owner, p.framed) != (q.flags, q.market, q.owner, q.framed) {
                d(c(16) | c(10), format!("{}: account identity or flags differ", name));
            }
        }
        (Parsed::EvQ(p), Parsed::EvQ(q)) => {
            if (p.flags, p.framed, p.cap) != (q.flags, q.framed, q.cap) {
                d(c(20) | c(6), format!("{}: event queue header differs", name));
            }
            if p.evs != q.evs || p.count != q.count {
                let i = p.evs.iter().zip(&q.evs).position(|(a, b)| a != b).unwrap_or(p.evs.len().min(q.evs.len()));
                d(
                    c(6),
                    format!(
                        "{}: events differ from element {}: {} instead of {} ({} instead of {} events)",
                        name,
                        i,
                        q.evs.get(i).map(show_ev).unwrap_or("nothing".into()),
                        p.evs.get(i).map(show_ev).unwrap_or("nothing".into()),
                        q.count,
                        p.count
                    ),
                );
            } else if (p.head, p.seq) != (q.head, q.seq) {
                d(
                    c(6),
                    format!("{}: queue head/sequence {}/{} instead of {}/{}", name, q.head, q.seq, p.head, p.seq),
                );
            }
        }
        (Parsed::ReqQ(p), Parsed::ReqQ(q)) => {
            if p != q {
                d(c(4) | c(20), format!("{}: order counter {} instead of {}", name, q.next, p.next));
            }
        }
        (Parsed::Book(p), Parsed::Book(q)) => {
            if (p.flags, p.framed, p.max_leaves) != (q.flags, q.framed, q.max_leaves) {
                d(c(20) | c(4), format!("{}: book header differs", name));
            }
            if p.leaves != q.leaves {
                let gone: Vec<String> = p.leaves.iter().filter(|l| !q.leaves.contains(l)).map(show_leaf).collect();
                let extra: Vec<String> = q.leaves.iter().filter(|l| !p.leaves.contains(l)).map(show_leaf).collect();
                d(c(4), format!("{}: book differs, missing {:?}, extra {:?}", name, short(&gone), short(&extra)));
            }
            if let Some(b) = &q.bad {
                d(c(4), format!("{}: book structure: {}", name, b));
            }
        }
        (Parsed::Tok(p), Parsed::Tok(q)) => {
            if p.amount != q.amount {
                d(
                    if is_vault { c(1) } else { c(2) | c(1) },
                    format!("{}: token balance {} instead of {}", name, q.amount, p.amount),
                );
            }
            let (mut p2, mut q2) = (p.clone(), q.clone());
            p2.amount = 0;
            q2.amount = 0;
            if p2 != q2 {
                d(c(10), format!("{}: token account owner, delegate or state differs", name));
            }
        }
        (p, q) => {
            if p != q {
                d(c(19) | c(16), format!("{}: account content differs", name));
            }
        }
    }
    out
}

fn short(v: &[String]) -> Vec<String> {
    let mut x: Vec<String> = v.iter().take(3).cloned().collect();
    if v.len() > 3 {
        x.push(format!("and {} more", v.len() - 3));
    }
    x
}

fn show_leaf(l: &Leaf) -> String {
    format!("{}@{} seq {} slot {} client {}", l.qty, l.price(), l.key as u64, l.slot, l.cid)
}

fn show_ev(e: &Ev) -> String {
    format!(
        "{} {} maker={} release={} a={} b={} fee={} slot={} order {}@{}",
        if e.fill { "fill" } else { "out" },
        if e.bid { "bid" } else { "ask" },
        e.maker,
        e.release,
        e.a,
        e.b,
        e.fee,
        e.slot,
        e.oid as u64,
        (e.oid >> 64) as u64
    )
}

pub struct Outcome {
    pub ok: bool,
    pub viols: Vec<Viol>,
    pub tr: Trace,
}

impl World {
    /// Executes one transaction and judges it.
    pub fn tx(&mut self, ops: &[OpT], faults: &Faults, exit: bool, st: &mut Stats) -> Outcome {
        let ixs = self.build_tx(ops);
        let oids: Vec<Option<u128>> = ops
            .iter()
            .map(|o| match &o.op {
                Op::Cancel { id, .. } => Some(self.oid_of(id)),
                _ => None,
            })
            .collect();
        let pre = self.chain.clone();
        let r = self.chain.exec(&ixs, faults);
        let tampered = ops.iter().any(|o| !o.tamper.is_empty());
        st.hit("tx");
        for o in ops {
            let n: u64 = op_name(&o.op).bytes().fold(7, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
            st.log(&[n, o.tamper.len() as u64]);
        }
        st.log(&[r.ok as u64, r.cpis as u64, r.syscalls as u64]);
        if r.ok {
            st.hit("tx committed");
        }
        if r.panicked {
            st.hit("tx panicked in the program");
        }
        for (f, n) in [
            (r.fired.cpi_fail, "fault: token call failed"),
            (r.fired.cpi_short, "fault: token call moved a wrong amount"),
            (r.fired.abort, "fault: aborted at a system call"),
            (r.fired.clock_err, "fault: clock unreadable"),
            (r.fired.rent_err, "fault: rent unreadable"),
        ] {
            if f {
                st.hit(n);
            }
        }
        let mut tr = Trace::default();
        let mut exp: Result<(), (usize, Why)> = Ok(());
        let post = if r.ok { Some(&self.chain) } else { None };
        let mut ov = Over::new(&pre, &self.roles, self.dex, post);
        let metas: Vec<Vec<Meta>> = ixs.iter().map(|i| i.metas.clone()).collect();
        for (i, o) in ops.iter().enumerate() {
            if let Err(w) = step(&mut ov, &o.op, &metas[i], oids[i], &mut tr) {
                exp = Err((i, w));
                break;
            }
        }
        if exp.is_ok() {
            if let Err(w) = commit(&mut ov, &metas) {
                exp = Err((ops.len() - 1, w));
            }
        }
        if let Err((_, Why::Void)) = exp {
            // Legitimate either way, but not followed any further: the transaction is taken back.
            drop(ov);
            self.chain = pre;
            st.hit("tx taken back (blank account of another kind)");
            return Outcome { ok: false, viols: vec![], tr };
        }
        let mut viols = vec![];
        // A fault that fired overrides the expectation.
        let must_fail = r.fired.cpi_fail
            || r.fired.cpi_short
            || r.fired.abort
            || (r.fired.clock_err && tr.needs_clock)
            || (r.fired.rent_err && tr.needs_rent);
        let fault_soft = r.fired.rent_err && !tr.needs_rent;
        let head = |i: usize| op_name(&ops[i].op);
        if r.ok {
            if must_fail {
                let mut p = c(9);
                if r.fired.cpi_fail || r.fired.cpi_short {
                    p |= c(1);
                }
                if r.fired.clock_err {
                    p |= c(17);
                }
                if r.fired.rent_err {
                    p |= c(16) | c(20);
                }
                let i = r.failed_ix.min(ops.len() - 1);
                p |= op_props(&ops[i].op) & (c(13) | c(18));
                viols.push(Viol {
                    props: p,
                    class: format!("succeeded despite fault {}", fault_name(&r.fired)),
                    detail: format!("{} reported success although {}", head(i), fault_name(&r.fired)),
                });
            } else if let Err((i, w)) = exp {
                let op = &ops[i].op;
                let mut p = accepted_props(w, op) | (op_props(op) & !c(5) & !c(2)) | ctx_props(op, &tr, &r.fired, exit);
                if is_place(op) && matches!(w, Why::Funds | Why::MinOut) {
                    p |= c(5);
                }
                if ops.len() > 1 && matches!(w, Why::OoState | Why::Nonempty) {
                    p |= c(16);
                }
                viols.push(Viol {
                    props: p,
                    class: format!("accepted {:?} {}", w, head(i)),
                    detail: format!("{} was accepted although it had to fail ({})", head(i), why_text(w)),
                });
            } else {
                // Compare every account of the transaction with the model.
                let mut seen = vec![];
                for m in metas.iter().flatten() {
                    if seen.contains(&m.aid) {
                        continue;
                    }
                    seen.push(m.aid);
                    let act = view(&self.chain, &self.roles, m.aid);
                    let ex = match ov.m.get(&m.aid) {
                        Some(v) => v.clone(),
                        None => view(&pre, &self.roles, m.aid),
                    };
                    if ex == act {
                        continue;
                    }
                    for (mask, s) in diff(self, m.aid, &ex, &act) {
                        let mut p = mask;
                        for o in ops {
                            p |= op_props(&o.op) | ctx_props(&o.op, &tr, &r.fired, exit);
                            if is_place(&o.op) {
                                if mask & (c(4) | c(6)) != 0 {
                                    p |= c(3);
                                }
                                // An event of a placement is matching, not consumption.
                                if tr.tier_used {
                                    p |= c(13);
                                }
                            }
                            if matches!(o.op, Op::Consume { .. } | Op::ConsumePerm { .. }) && mask & c(2) != 0 {
                                p |= c(8);
                            }
                            if tampered {
                                p |= c(10) | c(19);
                            }
                            if let Some(mi) = World::op_market(&o.op) {
                                let foreign = self.market_of(m.aid).map(|j| j != mi).unwrap_or(false);
                                if foreign && ops.len() == 1 {
                                    p |= c(19);
                                }
                            }
                        }
                        let names: Vec<&str> = ops.iter().map(|o| op_name(&o.op)).collect();
                        viols.push(Viol {
                            props: p,
                            class: format!("effect of {} on {:?}", names[0], role_kind(self.roles[m.aid])),
                            detail: format!("after {}: {}", names.join("+"), s),
                        });
                    }
                }
            }
        } else if exp.is_ok() && !must_fail && !fault_soft && tr.soft.is_none() && !tampered {
            let i = r.failed_ix.min(ops.len() - 1);
            let op = &ops[i].op;
            let mut p = op_props(op) | ctx_props(op, &tr, &r.fired, exit);
            if is_exit_op(op) {
                p |= c(8);
            }
            if r.fired.clock_err {
                p |= c(17);
            }
            match op {
                Op::New { .. } | Op::Replace { .. } | Op::Take { .. } => {
                    if tr.fills > 0 {
                        p |= c(3);
                    }
                    if tr.rested {
                        p |= c(4);
                    }
                    if tr.tier_used {
                        p |= c(13);
                    }
                    if let Some(mi) = World::op_market(op) {
                        let q = evq(&pre.accts[self.mk[mi].evq].data).unwrap_or_default();
                        let e = evq_after(&ov, self.mk[mi].evq);
                        if e + 8 >= q.cap {
                            p |= c(15);
                        }
                    }
                }
                Op::Settle { .. } => p |= c(13) | c(2),
                Op::Prune { .. } | Op::Sweep { .. } | Op::Disable { .. } => p |= c(11),
                Op::InitOo { auth: Some(_), .. } | Op::ConsumePerm { .. } => p |= c(11),
                _ => {}
            }
            viols.push(Viol {
                props: p,
                class: format!("rejected {}", head(i)),
                detail: format!("{} was rejected ({}) although it had to succeed", head(i), r.err),
            });
        }
        // Reach probes.
        if r.ok {
            for (b, n) in [
                (tr.self_trade, "reach: self trade"),
                (tr.evicted, "reach: eviction from a full book"),
                (tr.disabled, "reach: operation on a disabled market"),
                (tr.fills > 0, "reach: fill"),
                (tr.fills > 3, "reach: multi-level fill"),
                (tr.init_oo, "reach: account opened"),
                (tr.high_slot, "reach: order slot above 64"),
                (tr.wrapped, "reach: event queue wrapped"),
                (tr.rested, "reach: order rested"),
                (tr.referrer_paid, "reach: referrer paid"),
                (tr.tier_used, "reach: fee discount"),
                (tr.limit_hit, "reach: match limit hit"),
                (tr.needs_clock, "reach: timestamped order"),
            ] {
                if b {
                    st.hit(n);
                }
            }
            st.add("events consumed", tr.consumed);
            st.add("fills", tr.fills as u64);
            for o in ops {
                st.hit(op_stat(&o.op, true));
            }
        } else {
            if let Err((i, w)) = exp {
                st.hit(why_stat(w));
                st.hit(op_stat(&ops[i].op, false));
            }
        }
        if tampered {
            st.hit(if r.ok { "byzantine tx (harmless, accepted)" } else { "byzantine tx (rejected)" });
        }
        drop(ov);
        if r.ok {
            for (t, o) in &tr.oids {
                self.track.oids.insert(*t, *o);
            }
            self.track_surplus(ops, &metas, &pre);
            let mut ms: Vec<usize> = vec![];
            for m in metas.iter().flatten() {
                if let Some(i) = self.market_of(m.aid) {
                    if !ms.contains(&i) {
                        ms.push(i);
                    }
                }
            }
            for m in ms {
                self.market_invariants(m, &pre, exit, tampered, r.fired.any(), &mut viols, st);
            }
        }
        Outcome { ok: r.ok, viols, tr }
    }

    /// Tokens that reach a vault without being a deposit: donations, and withdrawals into a vault.
    fn track_surplus(&mut self, ops: &[OpT], metas: &[Vec<Meta>], pre: &Chain) {
        for (i, o) in ops.iter().enumerate() {
            let a: Vec<Aid> = metas[i].iter().map(|m| m.aid).collect();
            let is_vault = |x: Aid| self.mk.iter().any(|k| k.coin_vault == x || k.pc_vault == x);
            match &o.op {
                Op::TokTransfer { amount, .. } if a.len() > 1 && a[0] != a[1] && is_vault(a[1]) => {
                    *self.track.surplus.entry(a[1]).or_default() += *amount;
                }
                Op::InitMarket { .. } if a.len() > 6 => {
                    for v in [a[5], a[6]] {
                        let have = tok(&pre.accts[v].data).map(|t| t.amount).unwrap_or(0);
                        self.track.surplus.insert(v, have);
                    }
                }
                Op::Settle { .. } | Op::Sweep { .. } | Op::Take { .. } => {
                    // Destinations that are themselves vaults: what arrived there is not a deposit.
                    let dests: Vec<Aid> = match &o.op {
                        Op::Settle { .. } => a.iter().skip(5).take(2).chain(a.iter().skip(9)).cloned().collect(),
                        Op::Sweep { .. } => a.iter().skip(3).take(1).cloned().collect(),
                        _ => a.iter().skip(5).take(2).cloned().collect(),
                    };
                    let mut done = vec![];
                    for d in dests {
                        if is_vault(d) && !done.contains(&d) {
                            done.push(d);
                            // Recompute from the books: surplus is what the vault holds beyond its market's records.
                            let (held, rec) = self.vault_books(d);
                            if held >= rec {
                                self.track.surplus.insert(d, held - rec);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }

    fn vault_books(&self, v: Aid) -> (u64, u64) {
        for (m, k) in self.mk.iter().enumerate() {
            if let Some(mk) = self.market(m) {
                if k.coin_vault == v {
                    return (self.amount(v), mk.coin_dep);
                }
                if k.pc_vault == v {
                    return (self.amount(v), mk.pc_dep.wrapping_add(mk.pc_fees).wrapping_add(mk.rebates));
                }
            }
        }
        (self.amount(v), 0)
    }

    /// Facts that hold in every committed state of a market.
    pub fn market_invariants(
        &mut self,
        m: usize,
        pre: &Chain,
        exit: bool,
        tampered: bool,
        faulty: bool,
        viols: &mut Vec<Viol>,
        st: &mut Stats,
    ) {
        let mk = match self.market(m) {
            Some(x) => x,
            None => return,
        };
        let mut extra = 0;
        if exit {
            extra |= c(8);
        }
        if tampered {
            extra |= c(19);
        }
        if faulty {
            extra |= c(9);
        }
        let mut bad = |p: u64, cl: &str, s: String| {
            viols.push(Viol { props: p | extra, class: format!("invariant {}", cl), detail: s })
        };
        let k = self.mk[m].clone();
        let q = self.evq(m);
        let (bids, asks) = (self.book(m, true), self.book(m, false));
        // Vaults against records.
        let (vc, vp) = (self.amount(k.coin_vault), self.amount(k.pc_vault));
        let sc = self.track.surplus.get(&k.coin_vault).cloned().unwrap_or(0);
        let sp = self.track.surplus.get(&k.pc_vault).cloned().unwrap_or(0);
        if vc as u128 != mk.coin_dep as u128 + sc as u128 {
            bad(
                c(1),
                "coin vault",
                format!("market {}: coin vault holds {} but deposits are {} (donated {})", m, vc, mk.coin_dep, sc),
            );
        }
        if vp as u128 != mk.pc_dep as u128 + mk.pc_fees as u128 + mk.rebates as u128 + sp as u128 {
            bad(
                c(1) | c(13),
                "pc vault",
                format!(
                    "market {}: pc vault holds {} but deposits {} + fees {} + rebates {} (donated {})",
                    m, vp, mk.pc_dep, mk.pc_fees, mk.rebates, sp
                ),
            );
        }
        // Claims.
        let mut accts: Vec<(Aid, Oo)> = vec![];
        for a in self.bound(m) {
            if let Some(o) = self.live_oo(a) {
                accts.push((a, o));
            }
        }
        let (mut ct, mut pt, mut rb) = (0i128, 0i128, 0u128);
        for (_, o) in &accts {
            ct += o.coin_total as i128;
            pt += o.pc_total as i128;
            rb += o.rebates as u128;
        }
        let mut last_maker: Option<&Ev> = None;
        for e in &q.evs {
            if !e.valid {
                bad(c(6), "event", format!("market {}: malformed event in the queue", m));
            }
            if e.fill && e.maker {
                last_maker = Some(e);
                if e.bid {
                    ct += e.a as i128;
                    pt -= e.b as i128;
                } else {
                    pt += e.a as i128;
                    ct -= e.b as i128;
                }
            } else if e.fill {
                rb += (e.fee / 5) as u128;
                if let Some(l) = last_maker {
                    if l.owner == e.owner && l.bid != e.bid {
                        bad(c(14), "self trade", format!("market {}: an account traded with itself", m));
                    }
                }
            }
        }
        if ct != mk.coin_dep as i128 || pt != mk.pc_dep as i128 {
            bad(
                c(1) | c(2),
                "claims",
                format!(
                    "market {}: users' claims with pending fills are ({}, {}) but deposits are ({}, {})",
                    m, ct, pt, mk.coin_dep, mk.pc_dep
                ),
            );
        }
        if (mk.rebates as u128) < rb {
            bad(
                c(13) | c(1),
                "rebates",
                format!("market {}: rebates owed {} exceed those set aside {}", m, rb, mk.rebates),
            );
        }
        for (bk, n) in [(&bids, "bids"), (&asks, "asks")] {
            if let Some(b) = &bk.bad {
                bad(c(4), "book structure", format!("market {} {}: {}", m, n, b));
            }
        }
        if let (Some(b), Some(a)) = (bids.leaves.last(), asks.leaves.first()) {
            if b.price() >= a.price() {
                bad(
                    c(4) | c(3),
                    "crossed book",
                    format!("market {}: best bid {} is not below best ask {}", m, b.price(), a.price()),
                );
            }
        }
        if q.count > q.cap {
            bad(c(6) | c(15), "queue count", format!("market {}: {} events in a queue of {}", m, q.count, q.cap));
        }
        let pre_oos: BTreeMap<Aid, Oo> = accts
            .iter()
            .filter_map(|(a, _)| {
                if pre.accts[*a].owner == self.dex {
                    oo(&pre.accts[*a].data).map(|o| (*a, o))
                } else {
                    None
                }
            })
            .collect();
        for (a, o) in &accts {
            let key = self.chain.key(*a).to_bytes();
            let nm = &self.names[*a];
            if o.coin_free > o.coin_total || o.pc_free > o.pc_total {
                bad(c(2) | c(1), "free over total", format!("{}: free exceeds total", nm));
                continue;
            }
            let (mut lc, mut lp) = (0u128, 0u128);
            for l in bids.leaves.iter().filter(|l| l.owner == key) {
                lp += l.qty as u128 * l.price() as u128 * mk.pc_lot as u128;
            }
            for l in asks.leaves.iter().filter(|l| l.owner == key) {
                lc += l.qty as u128 * mk.coin_lot as u128;
            }
            for e in q.evs.iter().filter(|e| e.owner == key) {
                let x = if e.fill && e.maker {
                    e.b as u128
                } else if !e.fill && e.release {
                    e.a as u128
                } else {
                    0
                };
                if e.bid {
                    lp += x;
                } else {
                    lc += x;
                }
            }
            if lc != (o.coin_total - o.coin_free) as u128 || lp != (o.pc_total - o.pc_free) as u128 {
                bad(
                    c(2),
                    "locked funds",
                    format!(
                        "{}: locked ({}, {}) but its orders and pending events account for ({}, {})",
                        nm,
                        o.coin_total - o.coin_free,
                        o.pc_total - o.pc_free,
                        lc,
                        lp
                    ),
                );
            }
            // Slots against book and queue.
            for s in &o.slots {
                let bk = if s.bid { &bids } else { &asks };
                let rests = bk.leaves.iter().any(|l| l.key == s.oid && l.owner == key && l.slot == s.slot);
                let outs = q
                    .evs
                    .iter()
                    .filter(|e| !e.fill && e.b == 0 && e.owner == key && e.slot == s.slot && e.oid == s.oid)
                    .count();
                if rests as usize + outs != 1 {
                    bad(
                        c(4) | c(7) | c(8) | c(16),
                        "slot",
                        format!(
                            "{}: slot {} is {} in the book and has {} final events pending",
                            nm,
                            s.slot,
                            if rests { "resting" } else { "not" },
                            outs
                        ),
                    );
                }
                let new = !pre_oos.get(a).map(|p| p.slots.contains(s)).unwrap_or(false);
                if new && !self.track.issued[m].insert(s.oid) {
                    bad(c(4), "order id", format!("{}: order id {} was issued before", nm, s.oid));
                }
            }
        }
        for (bk, bid) in [(&bids, true), (&asks, false)] {
            for l in &bk.leaves {
                let ok = accts.iter().any(|(a, o)| {
                    self.chain.key(*a).to_bytes() == l.owner
                        && o.slots
                            .iter()
                            .any(|s| s.slot == l.slot && s.oid == l.key && s.bid == bid && s.cid == l.cid)
                });
                if !ok || l.qty == 0 || l.price() == 0 {
                    bad(
                        c(4),
                        "unbacked order",
                        format!("market {}: resting order {} is empty or has no slot", m, show_leaf(l)),
                    );
                }
            }
        }
        let b = |x: usize| (x as u64 + 1).ilog2() as u64;
        st.states.insert(crate::rng::mix(&[
            m as u64,
            b(bids.leaves.len()),
            b(asks.leaves.len()),
            b(q.evs.len()),
            mk.flags,
            accts.len() as u64,
            accts.iter().map(|(_, o)| b(o.slots.len())).sum::<u64>(),
            q.evs.first().map(|e| e.fill as u64 * 4 + e.maker as u64 * 2 + e.release as u64).unwrap_or(9),
            accts.iter().filter(|(_, o)| o.coin_free > 0 || o.pc_free > 0).count() as u64,
            (mk.pc_fees > 0) as u64 + 2 * (mk.rebates > 0) as u64,
        ]));
    }

    fn plain(&mut self, op: Op, exit: bool, st: &mut Stats, viols: &mut Vec<Viol>) -> bool {
        let o = self.tx(&[OpT { op, tamper: vec![] }], &Faults::default(), exit, st);
        viols.extend(o.viols);
        o.ok
    }

    pub fn thaw_all(&mut self, st: &mut Stats, viols: &mut Vec<Viol>) {
        for a in 0..self.chain.accts.len() {
            if self.roles[a] == Role::Tok && self.chain.accts[a].owner == spl_token::ID {
                let t = match tok(&self.chain.accts[a].data) {
                    Some(t) => t,
                    None => continue,
                };
                if t.state == 2 {
                    let mint = self.mints.iter().find(|x| self.chain.key(**x).to_bytes() == t.mint).cloned();
                    if let Some(mint) = mint {
                        let op = Op::Freeze { acct: a, mint, auth: self.freeze, thaw: true };
                        self.plain(op, false, st, viols);
                    }
                }
            }
        }
    }

    pub fn consume_op(&self, m: usize, oos: Vec<Aid>, limit: u16) -> Op {
        if self.market(m).map(|x| x.flags & F_CRANK != 0).unwrap_or(false) && self.mk[m].auths.len() == 3 {
            Op::ConsumePerm { m, oos, auth: self.mk[m].auths[2], limit }
        } else {
            Op::Consume { m, oos, limit }
        }
    }

    /// Consumes everything; each call must make progress.
    fn drain(&mut self, m: usize, exit: bool, st: &mut Stats, viols: &mut Vec<Viol>) -> bool {
        loop {
            let n = self.evq(m).count;
            if n == 0 {
                return true;
            }
            let op = self.consume_op(m, self.all_oos(m), 64);
            let ok = self.plain(op, exit, st, viols);
            if !ok || self.evq(m).count >= n {
                viols.push(Viol {
                    props: c(8) | c(6) | c(21) | if exit { c(12) } else { 0 },
                    class: "queue wedged".into(),
                    detail: format!(
                        "market {}: a crank with all accounts made no progress on {} events (ok={})",
                        m, n, ok
                    ),
                });
                return false;
            }
        }
    }

    /// Every user leaves every market; the vaults must end up with fees, rebates and donations only.
    pub fn exit_all(&mut self, st: &mut Stats) -> Vec<Viol> {
        let saved = (self.chain.clone(), self.track.clone());
        let mut v = vec![];
        st.hit("exit phases");
        self.thaw_all(st, &mut v);
        v.clear();
        for m in 0..self.mk.len() {
            if self.market(m).is_none() {
                continue;
            }
            if !self.drain(m, true, st, &mut v) {
                break;
            }
            let mut budget = 2000;
            {
                for a in self.bound(m) {
                    let o = match self.live_oo(a) {
                        Some(o) => o,
                        None => continue,
                    };
                    let owner = match self.users.iter().find(|x| self.chain.key(**x).to_bytes() == o.owner) {
                        Some(x) => *x,
                        None => continue,
                    };
                    for s in &o.slots {
                        let op = Op::Cancel { m, oo: a, owner, bid: s.bid, id: OrdRef::Raw(s.oid.to_string()) };
                        if !self.plain(op, true, st, &mut v) {
                            v.push(Viol {
                                props: c(8) | c(7),
                                class: "exit cancel".into(),
                                detail: format!("{}: order in slot {} cannot be cancelled", self.names[a], s.slot),
                            });
                        }
                        budget -= 1;
                        if self.evq(m).count + 4 >= self.evq(m).cap && !self.drain(m, true, st, &mut v) {
                            break;
                        }
                    }
                    if budget < 0 || !v.is_empty() {
                        break;
                    }
                    if !self.drain(m, true, st, &mut v) {
                        break;
                    }
                    let want = self.live_oo(a).unwrap_or_default();
                    let k = self.mk[m].clone();
                    let ui = self.users.iter().position(|x| *x == owner).unwrap();
                    let (cw, pw) = (self.toks[ui][k.cfg.coin][0], self.toks[ui][k.cfg.pc][0]);
                    let (c0, p0) = (self.amount(cw), self.amount(pw));
                    let ok = self.plain(Op::Settle { m, oo: a, owner, cw, pw, refr: None }, true, st, &mut v);
                    let same = k.cfg.coin == k.cfg.pc;
                    if !ok
                        || (!same
                            && (self.amount(cw) - c0 != want.coin_total || self.amount(pw) - p0 != want.pc_total))
                    {
                        v.push(Viol {
                            props: c(8) | c(2),
                            class: "exit settle".into(),
                            detail: format!("{}: owner could not withdraw everything", self.names[a]),
                        });
                    }
                    let l0 = self.chain.accts[owner].lamports;
                    let rent = self.chain.accts[a].lamports;
                    let ok = self.plain(Op::CloseOo { m, oo: a, owner, dest: owner }, true, st, &mut v);
                    if !ok || self.chain.accts[owner].lamports != l0 + rent {
                        v.push(Viol {
                            props: c(8) | c(16),
                            class: "exit close".into(),
                            detail: format!("{}: account could not be closed for its rent", self.names[a]),
                        });
                    }
                }
            }
            if let Some(mk) = self.market(m) {
                let k = self.mk[m].clone();
                let (bl, al) = (self.book(m, true).leaves.len(), self.book(m, false).leaves.len());
                if v.is_empty() && (mk.coin_dep != 0 || mk.pc_dep != 0 || bl + al + self.evq(m).count as usize != 0) {
                    v.push(Viol {
                        props: c(8) | c(1),
                        class: "exit rest".into(),
                        detail: format!(
                            "market {}: after all exits deposits are ({}, {}), {} orders and {} events remain",
                            m,
                            mk.coin_dep,
                            mk.pc_dep,
                            bl + al,
                            self.evq(m).count
                        ),
                    });
                }
                let sc = self.track.surplus.get(&k.coin_vault).cloned().unwrap_or(0);
                let sp = self.track.surplus.get(&k.pc_vault).cloned().unwrap_or(0);
                if v.is_empty()
                    && (self.amount(k.coin_vault) != sc || self.amount(k.pc_vault) != mk.pc_fees + mk.rebates + sp)
                {
                    v.push(Viol {
                        props: c(8) | c(1) | c(13),
                        class: "exit vaults".into(),
                        detail: format!("market {}: after all exits the vaults hold more or less than fees", m),
                    });
                }
            }
            if !v.is_empty() {
                break;
            }
        }
        self.chain = saved.0;
        self.track = saved.1;
        v
    }

    /// Drains every market under one big crank and under a random crank schedule interleaved with settlements and
    /// sweeps; afterwards all balances must agree.
    pub fn drain_compare(&mut self, seed: u64, st: &mut Stats) -> Vec<Viol> {
        let mut v = vec![];
        let saved = (self.chain.clone(), self.track.clone());
        st.hit("drain comparisons");
        self.thaw_all(st, &mut v);
        v.clear();
        let base = (self.chain.clone(), self.track.clone());
        let ms: Vec<usize> = (0..self.mk.len()).filter(|m| self.market(*m).is_some()).collect();
        for m in &ms {
            self.drain(*m, false, st, &mut v);
        }
        self.settle_everything(&ms, st, &mut v);
        let a = self.chain.clone();
        if v.is_empty() {
            self.chain = base.0;
            self.track = base.1;
            let mut r = Rng::new(seed);
            for m in &ms {
                let mut idle = 0;
                while self.evq(*m).count > 0 && idle < 50 {
                    let n = self.evq(*m).count;
                    idle += 1;
                    match r.below(10) {
                        0..=6 => {
                            let mut oos = self.all_oos(*m);
                            if r.coin() {
                                oos.retain(|_| r.below(4) > 0);
                            }
                            let lim = r.range(1, 6) as u16;
                            let op = self.consume_op(*m, oos, lim);
                            if let Op::Consume { oos, .. } | Op::ConsumePerm { oos, .. } = &op {
                                if oos.is_empty() {
                                    continue;
                                }
                            }
                            self.plain(op, false, st, &mut v);
                        }
                        7 | 8 => {
                            let b = self.bound(*m);
                            if !b.is_empty() {
                                let x = *r.pick(&b);
                                self.settle_one(*m, x, st, &mut v);
                            }
                        }
                        _ => {
                            let op = Op::Sweep { m: *m, auth: self.sweeper, to: self.refs[self.mk[*m].cfg.pc] };
                            if self.market(*m).map(|k| k.flags & F_DISABLED == 0).unwrap_or(false) {
                                self.plain(op, false, st, &mut v);
                            }
                        }
                    }
                    if self.evq(*m).count < n {
                        idle = 0;
                    }
                    if !v.is_empty() {
                        break;
                    }
                }
                if v.is_empty() {
                    self.drain(*m, false, st, &mut v);
                }
            }
            self.settle_everything(&ms, st, &mut v);
            if v.is_empty() {
                for x in 0..a.accts.len() {
                    let (p, q) = (view(&a, &self.roles, x), view(&self.chain, &self.roles, x));
                    if p != q {
                        v.push(Viol {
                            props: c(21),
                            class: "crank schedule".into(),
                            detail: format!("{} depends on the crank schedule", self.names[x]),
                        });
                        break;
                    }
                }
            }
        }
        for x in v.iter_mut() {
            x.props |= c(21);
        }
        self.chain = saved.0;
        self.track = saved.1;
        v
    }

    fn settle_one(&mut self, m: usize, a: Aid, st: &mut Stats, v: &mut Vec<Viol>) {
        let o = match self.live_oo(a) {
            Some(o) => o,
            None => return,
        };
        let u = match self.users.iter().position(|x| self.chain.key(*x).to_bytes() == o.owner) {
            Some(u) => u,
            None => return,
        };
        let k = self.mk[m].cfg.clone();
        let (cw, pw) = (self.toks[u][k.coin][0], self.toks[u][k.pc][0]);
        let owner = self.users[u];
        self.plain(Op::Settle { m, oo: a, owner, cw, pw, refr: None }, false, st, v);
    }

    fn settle_everything(&mut self, ms: &[usize], st: &mut Stats, v: &mut Vec<Viol>) {
        for m in ms {
            for a in self.bound(*m) {
                self.settle_one(*m, a, st, v);
            }
            if self.market(*m).map(|k| k.flags & F_DISABLED == 0).unwrap_or(false) {
                let op = Op::Sweep { m: *m, auth: self.sweeper, to: self.refs[self.mk[*m].cfg.pc] };
                self.plain(op, false, st, v);
            }
        }
    }

    fn fault_sweep(&mut self, ops: &[OpT], st: &mut Stats) -> Vec<Viol> {
        let saved = (self.chain.clone(), self.track.clone());
        let mut v = vec![];
        let base = self.chain.exec(&self.build_tx(ops), &Faults::default());
        self.chain = saved.0.clone();
        if base.ok {
            st.hit("fault sweeps");
            let deposit = |i: u32| match &ops[0].op {
                Op::New { .. } | Op::Take { .. } => i == 0 && ops.len() == 1,
                Op::Replace { .. } => ops.len() == 1,
                _ => false,
            };
            let mut fs = vec![];
            for i in 0..base.cpis.min(8) {
                for e in [0u32, 1, 4, 17, 1_000_000, 1_000_001, 1_000_004] {
                    fs.push(Faults { cpi_fail: Some((i, e)), ..Faults::default() });
                }
                if deposit(i) {
                    for d in [1i64, i64::MAX, -1] {
                        fs.push(Faults { cpi_short: Some((i, d)), ..Faults::default() });
                    }
                }
            }
            for i in 0..base.syscalls.min(24) {
                fs.push(Faults { abort_at: Some(i), ..Faults::default() });
            }
            for f in fs {
                let o = self.tx(ops, &f, false, st);
                v.extend(o.viols);
                self.chain = saved.0.clone();
                self.track = saved.1.clone();
                if !v.is_empty() {
                    break;
                }
            }
        }
        v
    }

    pub fn apply(&mut self, s: &Step, st: &mut Stats) -> Vec<Viol> {
        match s {
            Step::Tx { ixs, faults } => {
                if ixs.is_empty() {
                    return vec![];
                }
                self.chain.slot += 1;
                self.tx(ixs, faults, false, st).viols
            }
            Step::Clock(t) => {
                st.hit("fault: clock jump");
                self.chain.clock = *t;
                vec![]
            }
            Step::Snapshot => {
                self.snap = Some(Box::new((self.chain.clone(), self.track.clone())));
                vec![]
            }
            Step::Restore => {
                if let Some(b) = self.snap.take() {
                    st.hit("fault: fork rolled back");
                    let clock = self.chain.clock;
                    self.chain = b.0;
                    self.chain.clock = clock;
                    self.track = b.1;
                }
                vec![]
            }
            Step::Drain(seed) => self.drain_compare(*seed, st),
            Step::Exit => self.exit_all(st),
            Step::FaultSweep(ops) => {
                if ops.is_empty() {
                    return vec![];
                }
                self.fault_sweep(ops, st)
            }
        }
    }
}

fn evq_after(ov: &Over, a: Aid) -> u64 {
    match ov.m.get(&a).map(|v| &v.body) {
        Some(Parsed::EvQ(q)) => q.count,
        _ => 0,
    }
}

fn role_kind(r: Role) -> &'static str {
    match r {
        Role::Market(_) => "market",
        Role::EvQ(_) => "event queue",
        Role::ReqQ(_) => "request queue",
        Role::Bids(_) | Role::Asks(_) => "book",
        Role::Oo => "open orders",
        Role::Tok => "token account",
        Role::Mint => "mint",
        Role::Pool => "pool",
        Role::Raw => "buffer",
        Role::Other => "account",
    }
}

fn fault_name(f: &Fired) -> &'static str {
    if f.cpi_fail {
        "a token call failed"
    } else if f.cpi_short {
        "a token call moved a wrong amount"
    } else if f.abort {
        "it was aborted"
    } else if f.clock_err {
        "the clock was unreadable"
    } else {
        "rent was unreadable"
    }
}

pub fn why_text(w: Why) -> &'static str {
    match w {
        Why::Count => "wrong number of accounts",
        Why::Signer => "required signature missing",
        Why::Authority => "not the required authority",
        Why::Subst => "substituted account",
        Why::OoSubst => "open-orders account of another market or program",
        Why::Discount => "discount account of another owner",
        Why::Disabled => "market disabled",
        Why::Expired => "order expired",
        Why::Funds => "insufficient funds",
        Why::TokenAuth => "no authority over the tokens",
        Why::Frozen => "token account frozen",
        Why::SelfTrade => "would trade with itself",
        Why::QueueFull => "event queue full",
        Why::MinOut => "minimum output not met",
        Why::NotFound => "no such resting order",
        Why::NotYours => "belongs to another owner",
        Why::OoState => "open-orders account not usable",
        Why::SlotsFull => "all order slots taken",
        Why::Nonempty => "account not empty",
        Why::InitCheck | Why::Void => "unsuitable accounts for a market",
        Why::ReadOnly => "account is read-only",
        Why::Arith => "arithmetic limit",
        Why::Gone => "removed instruction",
    }
}

fn why_stat(w: Why) -> &'static str {
    match w {
        Why::Count => "refused: wrong number of accounts",
        Why::Signer => "refused: signature missing",
        Why::Authority => "refused: wrong authority",
        Why::Subst => "refused: substituted account",
        Why::OoSubst => "refused: foreign open-orders account",
        Why::Discount => "refused: foreign discount account",
        Why::Disabled => "refused: market disabled",
        Why::Expired => "refused: expired",
        Why::Funds => "refused: insufficient funds",
        Why::TokenAuth => "refused: no token authority",
        Why::Frozen => "refused: frozen",
        Why::SelfTrade => "refused: self trade abort",
        Why::QueueFull => "refused: event queue full",
        Why::MinOut => "refused: minimum output",
        Why::NotFound => "refused: order not found",
        Why::NotYours => "refused: other owner",
        Why::OoState => "refused: account not usable",
        Why::SlotsFull => "refused: slots full",
        Why::Nonempty => "refused: close of nonempty account",
        Why::InitCheck | Why::Void => "refused: market creation check",
        Why::ReadOnly => "refused: read-only account",
        Why::Arith => "refused: arithmetic",
        Why::Gone => "refused: removed instruction",
    }
}

fn op_stat(op: &Op, ok: bool) -> &'static str {
    macro_rules! s {
        ($n:literal) => {
            if ok {
                concat!("ok: ", $n)
            } else {
                concat!("refused op: ", $n)
            }
        };
    }
    match op {
        Op::New { .. } => s!("new_order"),
        Op::Replace { .. } => s!("replace"),
        Op::Take { .. } => s!("send_take"),
        Op::Cancel { .. } => s!("cancel"),
        Op::CancelCid { .. } => s!("cancel_by_client_id"),
        Op::CancelCids { .. } => s!("cancel_by_client_ids"),
        Op::Consume { .. } => s!("consume_events"),
        Op::ConsumePerm { .. } => s!("consume_events_permissioned"),
        Op::Settle { .. } => s!("settle"),
        Op::Sweep { .. } => s!("sweep"),
        Op::Disable { .. } => s!("disable"),
        Op::InitOo { .. } => s!("init_open_orders"),
        Op::CloseOo { .. } => s!("close_open_orders"),
        Op::Prune { .. } => s!("prune"),
        Op::InitMarket { .. } => s!("init_market"),
        Op::Old { .. } => s!("deprecated"),
        Op::TokTransfer { .. } => s!("token_transfer"),
        Op::Approve { .. } => s!("approve"),
        Op::Freeze { .. } => s!("freeze"),
        Op::SysTransfer { .. } => s!("lamport_transfer"),
        Op::CreateOo { .. } => s!("create_account"),
    }
}
