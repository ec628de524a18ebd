//! Shorthands for scripted histories.
#![allow(dead_code)]
pub use crate::chain::*;
pub use crate::layout::*;
pub use crate::spec::{Op, OrdRef, Ord_};
pub use crate::world::*;

pub struct D {
    pub w: World,
    tag: u32,
}

pub fn mcfg() -> MCfg {
    MCfg { coin: 0, pc: 2, coin_lot: 10, pc_lot: 10, auths: 0, cap: 128, nodes: 201, head: 0, rounds: 0, next: 0, stable: None, init: true, defect: 0 }
}
pub fn cfg(markets: Vec<MCfg>) -> Cfg {
    Cfg {
        seed: 7,
        users: 4,
        mints: 3,
        oos: 2,
        rich: vec![1_000_000_000_000; 4],
        discounts: vec![(0, 0); 4],
        markets,
    }
}
pub fn ord(bid: bool, price: u64, qty: u64) -> Ord_ {
    // Enough pc for the quantity and any fee.
    Ord_ { bid, price, qty, pc: 20 * price * qty + 1000, stb: 0, ty: 0, cid: 0, limit: 100, ts: None, tag: 0 }
}

impl D {
    pub fn new(c: Cfg) -> D {
        install();
        let mut w = World::new(&c);
        w.boot().expect("boot");
        let mut d = D { w, tag: 0 };
        for m in 0..d.w.mk.len() {
            if d.w.mk[m].cfg.init && d.w.mk[m].cfg.auths == 0 {
                for u in 0..d.w.users.len() {
                    d.must(Op::InitOo { m, oo: d.oo(m, u), owner: d.w.users[u], auth: None });
                }
            }
        }
        d
    }
    pub fn simple() -> D {
        D::new(cfg(vec![mcfg()]))
    }
    pub fn oo(&self, m: usize, u: usize) -> Aid {
        self.w.mk[m].oos[u][0]
    }
    pub fn run(&mut self, ops: Vec<Op>, f: &Faults) -> TxResult {
        let ops: Vec<OpT> = ops.into_iter().map(|op| OpT { op, tamper: vec![] }).collect();
        let ixs = self.w.build_tx(&ops);
        self.w.chain.exec(&ixs, f)
    }
    pub fn tx(&mut self, op: Op) -> TxResult {
        self.run(vec![op], &Faults::default())
    }
    pub fn must(&mut self, op: Op) {
        let s = format!("{:?}", op);
        let r = self.tx(op);
        assert!(r.ok, "{} failed: {}", s, r.err);
    }
    pub fn wallet(&self, m: usize, u: usize, coin: bool) -> Aid {
        let c = &self.w.mk[m].cfg;
        self.w.toks[u][if coin { c.coin } else { c.pc }][0]
    }
    pub fn order_op(&mut self, m: usize, u: usize, mut o: Ord_) -> Op {
        self.tag += 1;
        o.tag = self.tag;
        Op::New { m, oo: self.oo(m, u), owner: self.w.users[u], payer: self.wallet(m, u, !o.bid), disc: None, o }
    }
    pub fn order(&mut self, m: usize, u: usize, o: Ord_) -> TxResult {
        let op = self.order_op(m, u, o);
        self.tx(op)
    }
    pub fn rest(&mut self, m: usize, u: usize, o: Ord_) {
        let r = self.order(m, u, o.clone());
        assert!(r.ok, "order {:?} of user {} failed: {}", o, u, r.err);
    }
    pub fn consume(&mut self, m: usize, limit: u16) -> TxResult {
        let mut oos: Vec<Aid> = (0..self.w.users.len()).map(|u| self.oo(m, u)).collect();
        self.w.sort_oos(&mut oos);
        self.tx(Op::Consume { m, oos, limit })
    }
    pub fn drain(&mut self, m: usize) {
        for _ in 0..400 {
            if self.w.evq(m).count == 0 {
                return;
            }
            let before = self.w.evq(m).count;
            let r = self.consume(m, 8);
            assert!(r.ok, "consume failed: {}", r.err);
            assert!(self.w.evq(m).count < before, "the crank made no progress");
        }
        panic!("the queue does not drain");
    }
    pub fn settle_op(&self, m: usize, u: usize) -> Op {
        Op::Settle { m, oo: self.oo(m, u), owner: self.w.users[u], cw: self.wallet(m, u, true), pw: self.wallet(m, u, false), refr: None }
    }
    pub fn settle(&mut self, m: usize, u: usize) {
        let op = self.settle_op(m, u);
        self.must(op)
    }
    pub fn state(&self, m: usize, u: usize) -> Oo {
        self.w.oo(self.oo(m, u)).expect("open orders")
    }
    pub fn mkt(&self, m: usize) -> Market {
        self.w.market(m).expect("market")
    }
    /// The vaults hold what the market's books say.
    pub fn vaults_ok(&self, m: usize) {
        let k = self.mkt(m);
        assert_eq!(self.w.amount(self.w.mk[m].coin_vault), k.coin_dep, "coin vault");
        assert_eq!(self.w.amount(self.w.mk[m].pc_vault), k.pc_dep + k.pc_fees + k.rebates, "pc vault");
    }
    /// With an empty queue the recorded deposits are the users' claims.
    pub fn claims_ok(&self, m: usize) {
        let k = self.mkt(m);
        let (mut c, mut p) = (0, 0);
        for u in 0..self.w.users.len() {
            if let Some(o) = self.w.oo(self.oo(m, u)) {
                c += o.coin_total;
                p += o.pc_total;
            }
        }
        assert_eq!((c, p), (k.coin_dep, k.pc_dep), "sum of the users' claims against the recorded deposits");
    }
    pub fn cancel(&mut self, m: usize, u: usize, bid: bool, oid: u128) -> TxResult {
        let op = Op::Cancel { m, oo: self.oo(m, u), owner: self.w.users[u], bid, id: OrdRef::Raw(oid.to_string()) };
        self.tx(op)
    }
}
