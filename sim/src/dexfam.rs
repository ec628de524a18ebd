//! The exchange as a simulation family.
use crate::chain::Faults;
use crate::driver::Family;
use crate::gen::{draw, Gen};
use crate::oracle::{c, Stats, Viol};
use crate::rng::{mix, Rng};
use crate::world::*;

pub struct Dex;

pub fn chain_hash(ch: &crate::chain::Chain) -> u64 {
    let mut h = vec![ch.clock as u64];
    for a in &ch.accts {
        let mut x = 0xcbf29ce484222325u64 ^ a.lamports;
        for w in a.data.chunks(8) {
            let mut b = [0u8; 8];
            b[..w.len()].copy_from_slice(w);
            x = (x ^ u64::from_le_bytes(b)).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        h.push(x);
    }
    mix(&h)
}

impl Family for Dex {
    type Cfg = Cfg;
    type Step = Step;
    type World = World;
    type Gen = Gen;
    const NAME: &'static str = "dex";
    const REAL: &'static str = "serum_dex program (all instruction handlers, matching engine, order book, queues, fees), spl-token program";
    const STUB: &'static str = "Solana runtime (accounts, privileges, ownership rules, rollback, cross-program calls), system program, clock and rent sysvars";
    fn draw(prop: &str, seed: u64, r: &mut Rng) -> (Cfg, Gen, usize) {
        draw(prop, seed, r)
    }
    fn boot(cfg: &Cfg) -> Result<World, Viol> {
        let mut w = World::new(cfg);
        match w.boot() {
            Ok(()) => Ok(w),
            Err(e) => Err(Viol { props: c(20), class: "rejected init_market".into(), detail: e }),
        }
    }
    fn next(g: &mut Gen, w: &World, r: &mut Rng) -> Step {
        g.next(w, r)
    }
    fn tail(g: &mut Gen, _w: &World, r: &mut Rng) -> Vec<Step> {
        g.tail(r)
    }
    fn apply(w: &mut World, s: &Step, st: &mut Stats) -> Vec<Viol> {
        w.apply(s, st)
    }
    fn state_hash(w: &World) -> u64 {
        chain_hash(&w.chain)
    }
    fn slots(w: &World) -> u64 {
        w.chain.slot
    }
    fn simplify(s: &Step) -> Vec<Step> {
        let mut v = vec![];
        match s {
            Step::Tx { ixs, faults } => {
                if ixs.len() > 1 {
                    for i in 0..ixs.len() {
                        let mut x = ixs.clone();
                        x.remove(i);
                        v.push(Step::Tx { ixs: x, faults: faults.clone() });
                    }
                }
                if !faults.none() {
                    v.push(Step::Tx { ixs: ixs.clone(), faults: Faults::default() });
                }
                for i in 0..ixs.len() {
                    for j in 0..ixs[i].tamper.len() {
                        let mut x = ixs.clone();
                        x[i].tamper.remove(j);
                        v.push(Step::Tx { ixs: x, faults: faults.clone() });
                    }
                }
            }
            Step::FaultSweep(ixs) if ixs.len() > 1 => {
                for i in 0..ixs.len() {
                    let mut x = ixs.clone();
                    x.remove(i);
                    v.push(Step::FaultSweep(x));
                }
            }
            _ => {}
        }
        v
    }
}
