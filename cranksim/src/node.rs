//! The simulated RPC node and the network between client and chain.
use crate::chain::*;
use crate::host::Bad;
use crate::layout::*;
use crate::rng::mix;
use crate::world::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use solana_client::rpc_request::RpcRequest;
use solana_sdk::hash::Hash;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::transaction::Transaction;
use std::collections::{BTreeMap, VecDeque};
use std::str::FromStr;

pub const SLOT_MS: u64 = 400;
pub const PACKET: usize = 1232;

/// What happens to one RPC call.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
    Ok,
    /// Nothing happens and the client gets an error.
    Fail(Bad),
    /// It happens and the client gets an error all the same.
    FailAfter(Bad),
    /// The node is this many states (for a blockhash: slots) behind.
    Stale(u16),
    /// The node does not know the account.
    Null,
    /// The node accepts the transaction and loses it.
    Lose,
}

pub struct Sent {
    pub tx: Transaction,
    pub sig: String,
    pub at: u64,
}

pub struct Node {
    pub w: World,
    pub up_ms: u64,
    pub slot0: u64,
    pub unix0: i64,
    /// Older states.
    pub past: VecDeque<(u64, Chain)>,
    pub fresh: bool,
    pub inflight: Vec<Sent>,
    /// Outcome by signature.
    pub done: BTreeMap<String, Result<(), String>>,
    pub seed: u64,
    pub instant: bool,
    /// Clock and slot when a transaction was last put to the chain.
    pub put: (i64, u64),
}

fn ctx(slot: u64, value: Value) -> Value {
    json!({"context": {"slot": slot}, "value": value})
}

impl Node {
    pub fn new(w: World, slot0: u64, up_ms: u64, seed: u64) -> Node {
        let unix0 = w.chain.clock;
        let mut n = Node {
            w,
            up_ms,
            slot0,
            unix0,
            past: VecDeque::new(),
            fresh: true,
            inflight: vec![],
            done: BTreeMap::new(),
            seed,
            instant: false,
            put: (0, 0),
        };
        n.tick(0);
        n
    }

    /// Time passes.
    pub fn tick(&mut self, ms: u64) {
        self.up_ms += ms;
        let slot = self.slot0 + self.up_ms / SLOT_MS;
        if slot != self.w.chain.slot {
            if self.fresh {
                self.past.push_front((self.w.chain.slot, self.w.chain.clone()));
                self.past.truncate(10);
                self.fresh = false;
            }
            self.w.chain.slot = slot;
        }
        self.w.chain.clock = self.unix0 + (self.up_ms / 1000) as i64;
    }

    pub fn state(&self, old: Option<usize>) -> &Chain {
        match old {
            Some(i) => &self.past[i].1,
            None => &self.w.chain,
        }
    }

    pub fn changed(&mut self) {
        self.fresh = true;
    }

    fn hash_at(&self, slot: u64) -> Hash {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&slot.to_le_bytes());
        b[8..16].copy_from_slice(&mix(&[self.seed, slot]).to_le_bytes());
        Hash::new(&b)
    }

    fn hash_slot(&self, h: &Hash) -> Option<u64> {
        let mut b = [0u8; 8];
        b.copy_from_slice(&h.as_ref()[..8]);
        let s = u64::from_le_bytes(b);
        if self.hash_at(s) == *h && s <= self.w.chain.slot {
            Some(s)
        } else {
            None
        }
    }

    pub fn hash_ok(&self, h: &Hash) -> bool {
        self.hash_slot(h).map(|s| self.w.chain.slot - s <= 150).unwrap_or(false)
    }

    pub fn aid(&self, k: &Pubkey) -> Option<Aid> {
        self.w.chain.index.borrow().get(k).cloned()
    }

    pub fn aid_or_new(&mut self, k: &Pubkey) -> Aid {
        if let Some(a) = self.aid(k) {
            return a;
        }
        let a = self.w.chain.add(*k, solana_program::system_program::ID, vec![], 0);
        self.w.roles.push(Role::Other);
        self.w.names.push(format!("new {}", a));
        a
    }

    /// A wire transaction as instructions of the simulated chain.
    pub fn decode(&mut self, tx: &Transaction) -> Vec<Ix> {
        let m = &tx.message;
        let aids: Vec<Aid> = m.account_keys.clone().iter().map(|k| self.aid_or_new(k)).collect();
        m.instructions
            .iter()
            .map(|i| Ix {
                program: m.account_keys[i.program_id_index as usize],
                metas: i
                    .accounts
                    .iter()
                    .map(|x| Meta {
                        aid: aids[*x as usize],
                        signer: m.is_signer(*x as usize),
                        writable: m.is_writable(*x as usize),
                    })
                    .collect(),
                data: i.data.clone(),
            })
            .collect()
    }

    /// The transaction gets into a block, unless it is too old or already there.
    pub fn land(&mut self, tx: &Transaction, sig: &str) -> bool {
        if self.done.contains_key(sig) || !self.hash_ok(&tx.message.recent_blockhash) {
            return false;
        }
        self.put = (self.w.chain.clock, self.w.chain.slot);
        let ixs = self.decode(tx);
        let r = self.w.chain.exec(&ixs, &Faults::default());
        self.changed();
        self.done.insert(sig.to_string(), if r.ok { Ok(()) } else { Err(r.err) });
        r.ok
    }

    fn account_json(a: &Acct) -> Value {
        json!({
            "lamports": a.lamports,
            "data": [base64::encode(&a.data), "base64"],
            "owner": a.owner.to_string(),
            "executable": false,
            "rentEpoch": 0,
        })
    }

    fn parse_tx(&self, s: &str, b58: bool) -> Result<Transaction, Bad> {
        let raw = if b58 { bs58::decode(s).into_vec().ok() } else { base64::decode(s).ok() };
        let raw = raw.ok_or(Bad::Busy)?;
        if raw.len() > PACKET {
            return Err(Bad::Busy);
        }
        bincode::deserialize(&raw).map_err(|_| Bad::Busy)
    }

    /// Serves one call. For a stale or current read of an account also says which state was shown.
    pub fn serve(&mut self, req: &RpcRequest, p: &Value, how: How) -> (Result<Value, Bad>, Option<(Pubkey, u64, Option<usize>)>) {
        if let How::Fail(b) = how {
            return (Err(b), None);
        }
        let slot = self.w.chain.slot;
        let mut shown = None;
        let res = match req {
            RpcRequest::GetVersion => Ok(json!({"solana-core": "1.10.3", "feature-set": 1})),
            RpcRequest::GetAccountInfo => {
                let k = Pubkey::from_str(p[0].as_str().unwrap_or("")).unwrap_or_default();
                let (s, ch, old) = match how {
                    How::Stale(n) if !self.past.is_empty() => {
                        let i = (n as usize) % self.past.len();
                        let e = &self.past[i];
                        (e.0, &e.1, Some(i))
                    }
                    _ => (slot, &self.w.chain, None),
                };
                let a = self.w.chain.index.borrow().get(&k).cloned();
                let v = match a.and_then(|a| ch.accts.get(a)) {
                    Some(acc) if how != How::Null && acc.lamports > 0 => {
                        shown = Some((k, s, old));
                        Self::account_json(acc)
                    }
                    _ => Value::Null,
                };
                Ok(ctx(s, v))
            }
            RpcRequest::GetLatestBlockhash => {
                let s = match how {
                    How::Stale(n) => slot.saturating_sub(n as u64 * 20),
                    _ => slot,
                };
                Ok(ctx(s, json!({"blockhash": self.hash_at(s).to_string(), "lastValidBlockHeight": s + 150})))
            }
            RpcRequest::IsBlockhashValid => {
                let h = Hash::from_str(p[0].as_str().unwrap_or("")).unwrap_or_default();
                Ok(ctx(slot, json!(self.hash_ok(&h))))
            }
            RpcRequest::GetMinimumBalanceForRentExemption => {
                let n = p[0].as_u64().unwrap_or(0) as usize;
                Ok(json!(self.w.chain.rent.minimum_balance(n)))
            }
            RpcRequest::SendTransaction => match self.parse_tx(p[0].as_str().unwrap_or(""), false) {
                Ok(tx) if tx.verify().is_ok() => {
                    let sig = tx.signatures[0].to_string();
                    if how != How::Lose {
                        if self.instant {
                            self.land(&tx, &sig);
                        } else {
                            self.inflight.push(Sent { tx, sig: sig.clone(), at: slot });
                        }
                    }
                    Ok(json!(sig))
                }
                Ok(_) => Err(Bad::Busy),
                Err(b) => Err(b),
            },
            RpcRequest::SimulateTransaction => match self.parse_tx(p[0].as_str().unwrap_or(""), true) {
                Ok(tx) => {
                    self.put = (self.w.chain.clock, slot);
                    let ixs = self.decode(&tx);
                    let mut ch = self.w.chain.clone();
                    let r = ch.exec(&ixs, &Faults::default());
                    let err = if r.ok && self.hash_ok(&tx.message.recent_blockhash) && tx.verify().is_ok() {
                        Value::Null
                    } else {
                        json!({"InstructionError": [r.failed_ix, {"Custom": 1}]})
                    };
                    Ok(ctx(slot, json!({"err": err, "logs": [], "accounts": null, "unitsConsumed": 0})))
                }
                Err(b) => Err(b),
            },
            RpcRequest::GetSignatureStatuses => {
                let sigs: Vec<String> = serde_json::from_value(p[0].clone()).unwrap_or_default();
                let v: Vec<Value> = sigs
                    .iter()
                    .map(|s| match self.done.get(s) {
                        None => Value::Null,
                        Some(r) => {
                            let err = match r {
                                Ok(()) => Value::Null,
                                Err(_) => json!({"InstructionError": [0, {"Custom": 1}]}),
                            };
                            let st = match r {
                                Ok(()) => json!({"Ok": null}),
                                Err(_) => json!({"Err": err}),
                            };
                            json!({"slot": slot, "confirmations": null, "status": st, "err": err,
                                   "confirmationStatus": "finalized"})
                        }
                    })
                    .collect();
                if v.iter().any(|x| x.is_null()) && self.instant {
                    // By the time the client gives up the blockhash has expired.
                    self.tick(151 * SLOT_MS);
                }
                Ok(ctx(slot, json!(v)))
            }
            _ => Err(Bad::Unhealthy),
        };
        if let How::FailAfter(b) = how {
            return (Err(b), None);
        }
        (res, shown)
    }
}
