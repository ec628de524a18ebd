//! Shorthands for scripted pool and proxy histories.
pub use crate::chain::*;
pub use crate::dkit::{cfg, mcfg, ord};
pub use crate::layout::*;
pub use crate::pool::*;
pub use crate::proxy::*;
pub use crate::spec::{Op, OrdRef, Ord_};
pub use crate::world::*;

pub struct P {
    pub w: PWorld,
}

pub fn pcfg(admin: bool, amounts: Vec<u64>, supply: u64, fee: u32) -> PoolCfg {
    PoolCfg { admin, assets: (0..amounts.len()).collect(), amounts, supply, fee, size: 1000, init: true, defect: 0 }
}

impl P {
    pub fn new(pools: Vec<PoolCfg>) -> P {
        let mut p = P { w: PWorld::new(&PCfg { seed: 7, users: 3, mints: 4, rich: 1_000_000_000, pools }) };
        for i in 0..p.w.kits.len() {
            if p.w.kits[i].cfg.init {
                let k = p.w.kits[i].clone();
                p.must(POp::Init { p: i, nonce: k.nonce, n: k.vaults.len() as u8, fee: k.cfg.fee });
            }
        }
        p
    }
    pub fn run(&mut self, op: POp, tamper: Vec<Tamper>) -> TxResult {
        let ixs = self.w.build_tx(&[POpT { op, tamper }]);
        self.w.chain.exec(&ixs, &Faults::default())
    }
    pub fn tx(&mut self, op: POp) -> TxResult {
        self.run(op, vec![])
    }
    pub fn must(&mut self, op: POp) {
        let s = format!("{:?}", op);
        let r = self.tx(op);
        assert!(r.ok, "{} failed: {}", s, r.err);
    }
    pub fn exec(&self, p: usize, u: usize, act: Act) -> POp {
        let k = &self.w.kits[p];
        let n = self.w.vaults(p).len();
        let assets = (0..n).map(|m| self.w.toks[u][m][0]).collect();
        POp::Exec { p, act, ptok: k.ptoks[u], assets, auth: self.w.users[u], refr: k.refr }
    }
    pub fn admin(&mut self, p: usize, act: AdminAct) -> TxResult {
        let admin = self.w.kits[p].admins[0];
        self.tx(POp::Admin { p, admin, act })
    }
}

pub struct X {
    pub x: XWorld,
    tag: u32,
}

impl X {
    pub fn new(permissioned: bool) -> X {
        let mut m = mcfg();
        m.auths = permissioned as u8 as _;
        let mut x = XWorld::new(&XCfg { base: cfg(vec![m]), late_ref: false, gate: false, clamp: None });
        x.w.boot().expect("boot");
        let mut d = X { x, tag: 0 };
        for u in 0..d.x.w.users.len() {
            let op = Op::InitOo { m: 0, oo: d.oo(u), owner: d.x.w.users[u], auth: None };
            let r = d.run(XOp { op, head: Some(Head::Bumps(0, 0)), tamper: vec![] });
            assert!(r.ok, "opening an account failed: {}", r.err);
        }
        d
    }
    pub fn oo(&self, u: usize) -> Aid {
        self.x.w.mk[0].oos[u][0]
    }
    pub fn run(&mut self, op: XOp) -> TxResult {
        let ixs = self.x.ixs(&[op]);
        self.x.w.chain.exec(&ixs, &Faults::default())
    }
    pub fn via(&mut self, op: Op) -> TxResult {
        self.run(XOp { op, head: Some(Head::Plain(1)), tamper: vec![] })
    }
    pub fn wallet(&self, u: usize, coin: bool) -> Aid {
        let c = &self.x.w.mk[0].cfg;
        self.x.w.toks[u][if coin { c.coin } else { c.pc }][0]
    }
    pub fn order_op(&mut self, u: usize, mut o: Ord_) -> Op {
        self.tag += 1;
        o.tag = self.tag;
        Op::New { m: 0, oo: self.oo(u), owner: self.x.w.users[u], payer: self.wallet(u, !o.bid), disc: None, o }
    }
    pub fn order(&mut self, u: usize, o: Ord_) -> TxResult {
        let op = self.order_op(u, o);
        self.via(op)
    }
    pub fn tok(&self, a: Aid) -> Tok {
        tok(&self.x.w.chain.accts[a].data).expect("token account")
    }
    pub fn state(&self, u: usize) -> Oo {
        self.x.w.oo(self.oo(u)).expect("open orders")
    }
    pub fn drain(&mut self) {
        for _ in 0..50 {
            let mut oos: Vec<Aid> = (0..self.x.w.users.len()).map(|u| self.oo(u)).collect();
            self.x.w.sort_oos(&mut oos);
            if self.x.w.evq(0).count == 0 {
                return;
            }
            let r = self.run(XOp { op: Op::Consume { m: 0, oos, limit: 8 }, head: None, tamper: vec![] });
            assert!(r.ok, "consume failed: {}", r.err);
        }
        panic!("the queue does not drain");
    }
}
