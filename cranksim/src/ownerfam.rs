//! Ownership assertions: transactions guarded by the real assertion program land on a chain where other parties
//! create, close, re-create and hand over the accounts meanwhile.
use crate::chain::*;
use crate::driver::Family;
use crate::oracle::{c, Stats, Viol};
use crate::rng::{mix, Rng};
use crate::world::{merge_privileges, skey, SOL};
use serde::{Deserialize, Serialize};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::{ProgramResult, MAX_PERMITTED_DATA_INCREASE};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

const USERS: usize = 3;
const TARGETS: usize = 4;
/// Owners: the system program, the token program and keepers that differ in one byte each.
const OWNERS: usize = 7;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Want {
    /// Whoever owned the account when the transaction was signed.
    Seen([u8; 32]),
    Owner(usize),
    /// An owner with one bit changed.
    Near(usize, u8),
    /// The account's own key.
    Own,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Part {
    Assert {
        /// No account: the assertion has nothing to look at.
        accts: Vec<usize>,
        want: Want,
        /// Bytes added to (positive) or cut from (negative) the encoding.
        #[serde(default, skip_serializing_if = "is0")]
        extra: i32,
        #[serde(default, skip_serializing_if = "std::ops::Not::not")]
        write: bool,
    },
    Pay { from: usize, to: usize, n: u64 },
    Create { by: usize, t: usize, owner: usize, len: u64, n: u64 },
    Assign { t: usize, owner: usize },
    /// The owning program empties the account.
    Close { t: usize, owner: usize, to: usize },
}

fn is0(x: &i32) -> bool {
    *x == 0
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Sign(Vec<Part>),
    /// A pending transaction lands; it may stay around to land again, and may be cut short.
    Land {
        i: usize,
        #[serde(default, skip_serializing_if = "std::ops::Not::not")]
        keep: bool,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        abort: Option<u32>,
    },
    Lose(usize),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OCfg {
    pub seed: u64,
}

pub struct OwnerW {
    ch: Chain,
    program: Pubkey,
    owners: Vec<Pubkey>,
    /// Users, then targets, then owners.
    pending: Vec<(u64, Vec<Part>)>,
    now: u64,
}

pub struct OGen {
    odd: u32,
    fault: u32,
}

fn v(class: &str, detail: String) -> Viol {
    Viol { props: c(27), class: class.into(), detail }
}

/// The real program, entered as the runtime enters it.
fn assert_owner(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let mut b: Vec<u8> = vec![];
    b.extend((infos.len() as u64).to_le_bytes());
    let mut at: Vec<(usize, usize)> = vec![];
    for (i, a) in infos.iter().enumerate() {
        if let Some(j) = infos[..i].iter().position(|x| x.key == a.key) {
            b.push(j as u8);
            b.extend([0u8; 7]);
            continue;
        }
        b.push(0xff);
        b.extend([a.is_signer as u8, a.is_writable as u8, a.executable as u8, 0, 0, 0, 0]);
        b.extend(a.key.as_ref());
        b.extend(a.owner.as_ref());
        at.push((i, b.len()));
        b.extend(a.lamports().to_le_bytes());
        let d = a.data.borrow();
        b.extend((d.len() as u64).to_le_bytes());
        b.extend(&**d);
        b.extend(vec![0u8; MAX_PERMITTED_DATA_INCREASE + (8 - d.len() % 8) % 8]);
        b.extend(a.rent_epoch.to_le_bytes());
    }
    b.extend((data.len() as u64).to_le_bytes());
    b.extend(data);
    b.extend(id.as_ref());
    let mut words = vec![0u64; b.len() / 8 + 1];
    let p = words.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len()) };
    type Entry = unsafe extern "C-unwind" fn(*mut u8) -> u64;
    let f: Entry =
        unsafe { std::mem::transmute(serum_assert_owner::entrypoint as unsafe extern "C" fn(*mut u8) -> u64) };
    let r = unsafe { std::hint::black_box(f)(p) };
    if r != 0 {
        return Err(ProgramError::from(r));
    }
    // Whatever it wrote is what the runtime gets to judge.
    let out = unsafe { std::slice::from_raw_parts(p as *const u8, b.len()) };
    for (i, o) in at {
        let a = &infos[i];
        let lam = u64::from_le_bytes(out[o..o + 8].try_into().unwrap());
        if lam != a.lamports() {
            **a.lamports.borrow_mut() = lam;
        }
        let n = a.data_len();
        if a.data.borrow()[..] != out[o + 16..o + 16 + n] {
            a.data.borrow_mut().copy_from_slice(&out[o + 16..o + 16 + n]);
        }
    }
    Ok(())
}

/// Stub of a program that owns accounts: gives all lamports of the first account to the second.
fn keeper(id: &Pubkey, infos: &[AccountInfo], _data: &[u8]) -> ProgramResult {
    if infos[0].owner != id {
        return Err(ProgramError::IllegalOwner);
    }
    let n = infos[0].lamports();
    **infos[0].lamports.borrow_mut() = 0;
    let m = infos[1].lamports();
    **infos[1].lamports.borrow_mut() = m + n;
    Ok(())
}

impl OwnerW {
    fn bytes(&self, p: &Part) -> Vec<u8> {
        if let Part::Assert { accts, want, extra, .. } = p {
            let mut d = match want {
                Want::Seen(k) => k.to_vec(),
                Want::Owner(o) => self.owners[o % OWNERS].to_bytes().to_vec(),
                Want::Near(o, bit) => {
                    let mut k = self.owners[o % OWNERS].to_bytes();
                    k[*bit as usize / 8] ^= 1 << (bit % 8);
                    k.to_vec()
                }
                Want::Own => self.ch.key(accts.get(0).cloned().unwrap_or(0) % self.ch.accts.len()).to_bytes().to_vec(),
            };
            if *extra < 0 {
                d.truncate(d.len().saturating_sub(-extra as usize));
            } else {
                d.extend(vec![7u8; *extra as usize]);
            }
            return d;
        }
        vec![]
    }

    fn ix(&self, p: &Part) -> Ix {
        let m = |a: usize, signer: bool, writable: bool| Meta { aid: a, signer, writable };
        let t = |x: &usize| USERS + x % TARGETS;
        let u = |x: &usize| x % USERS;
        let o = |x: &usize| self.owners[x % OWNERS];
        match p {
            Part::Assert { accts, write, .. } => Ix {
                program: self.program,
                metas: accts.iter().map(|a| m(a % self.ch.accts.len(), false, *write)).collect(),
                data: self.bytes(p),
            },
            Part::Pay { from, to, n } => {
                let mut data = 2u32.to_le_bytes().to_vec();
                data.extend(n.to_le_bytes());
                let to = to % (USERS + TARGETS);
                Ix { program: system_program::ID, metas: vec![m(u(from), true, true), m(to, false, true)], data }
            }
            Part::Create { by, t: x, owner, len, n } => {
                let mut data = 0u32.to_le_bytes().to_vec();
                data.extend(n.to_le_bytes());
                data.extend(len.to_le_bytes());
                data.extend(o(owner).as_ref());
                Ix { program: system_program::ID, metas: vec![m(u(by), true, true), m(t(x), true, true)], data }
            }
            Part::Assign { t: x, owner } => {
                let mut data = 1u32.to_le_bytes().to_vec();
                data.extend(o(owner).as_ref());
                Ix { program: system_program::ID, metas: vec![m(t(x), true, true)], data }
            }
            Part::Close { t: x, owner, to } => {
                Ix { program: o(owner), metas: vec![m(t(x), false, true), m(u(to), false, true)], data: vec![9] }
            }
        }
    }

    /// What the assertion is to say in this state.
    fn holds(&self, ch: &Chain, p: &Part) -> bool {
        let d = self.bytes(p);
        match p {
            Part::Assert { accts, .. } => match accts.get(0) {
                Some(a) => d[..] == ch.accts[a % ch.accts.len()].owner.to_bytes()[..],
                None => false,
            },
            _ => true,
        }
    }

    fn land(&mut self, parts: &[Part], abort: Option<u32>, st: &mut Stats) -> Vec<Viol> {
        let mut ixs: Vec<Ix> = parts.iter().map(|p| self.ix(p)).collect();
        merge_privileges(&mut ixs);
        // The same transaction with the assertions taken from the specification.
        let mut want = self.ch.clone();
        let mut ok = true;
        for (p, ix) in parts.iter().zip(&ixs) {
            ok = match p {
                Part::Assert { .. } => {
                    let h = self.holds(&want, p);
                    st.hit(if h { "assertions that hold" } else { "refused: assertion that does not hold" });
                    h
                }
                _ => want.exec_open(std::slice::from_ref(ix), &Faults::default()).ok,
            };
            if !ok {
                break;
            }
        }
        let pre = self.ch.clone();
        let f = Faults { abort_at: abort, ..Faults::default() };
        let r = self.ch.exec_open(&ixs, &f);
        st.hit("tx");
        st.log(&[parts.len() as u64, ok as u64, r.ok as u64]);
        if r.fired.abort {
            st.hit("fault: aborted");
        }
        let mut out = vec![];
        if r.fired.abort {
            if r.ok || self.ch.accts != pre.accts {
                out.push(v("aborted transaction has effects", format!("{:?}", parts)));
            }
            return out;
        }
        if r.ok != ok {
            let class = if r.ok { "guarded transaction goes through" } else { "guarded transaction is refused" };
            out.push(v(class, format!("{:?}: {}", parts, r.err)));
        } else if r.ok && self.ch.accts != want.accts {
            out.push(v("assertion changes something", format!("{:?}", parts)));
        } else if !r.ok && self.ch.accts != pre.accts {
            out.push(v("refused transaction has effects", format!("{:?}", parts)));
        }
        if r.ok {
            st.hit("tx committed");
            for a in self.ch.accts.iter_mut().take(USERS + TARGETS) {
                if a.lamports == 0 {
                    a.data.clear();
                    a.owner = system_program::ID;
                }
            }
        }
        out
    }
}

pub struct Owner;

impl Family for Owner {
    type Cfg = OCfg;
    type Step = Step;
    type World = OwnerW;
    type Gen = OGen;
    const NAME: &'static str = "owner";
    const REAL: &'static str = "assertion program, entered through its exported entry point";
    const STUB: &'static str = "Solana runtime, system program, programs that own accounts, network";

    fn draw(_prop: &str, seed: u64, r: &mut Rng) -> (OCfg, OGen, usize) {
        (OCfg { seed }, OGen { odd: *r.pick(&[0, 100, 400]), fault: *r.pick(&[0, 50, 200]) }, r.range(10, 60) as usize)
    }

    fn boot(cfg: &OCfg) -> Result<OwnerW, Viol> {
        let mut ch = Chain::new();
        let program = skey(cfg.seed, "assert");
        let k = skey(cfg.seed, "keeper");
        let near = |i: usize| {
            let mut b = k.to_bytes();
            b[i] ^= 0x10;
            Pubkey::new(&b)
        };
        let owners = vec![system_program::ID, spl_token::ID, k, near(0), near(31), near(15), near(8)];
        for i in 0..USERS {
            ch.add(skey(cfg.seed, &format!("user {}", i)), system_program::ID, vec![], 100 * SOL);
        }
        for i in 0..TARGETS {
            ch.add(skey(cfg.seed, &format!("target {}", i)), system_program::ID, vec![], 0);
        }
        let loader = skey(cfg.seed, "loader");
        for o in &owners {
            ch.add(*o, loader, vec![], SOL);
        }
        let mut h: Vec<(Pubkey, Handler)> = vec![(program, assert_owner as Handler)];
        h.extend(owners[2..].iter().map(|o| (*o, keeper as Handler)));
        set_handlers(&h);
        Ok(OwnerW { ch, program, owners, pending: vec![], now: 0 })
    }

    fn next(g: &mut OGen, w: &OwnerW, r: &mut Rng) -> Step {
        if !w.pending.is_empty() && r.below(5) < 3 {
            let i = r.below(w.pending.len() as u64) as usize;
            if r.below(20) == 0 {
                return Step::Lose(i);
            }
            let abort = if r.permille(g.fault) { Some(r.below(3) as u32) } else { None };
            return Step::Land { i, keep: r.below(6) == 0, abort };
        }
        let mut parts = vec![];
        let all = w.ch.accts.len() as u64;
        let own = |a: usize| w.owners.iter().position(|o| *o == w.ch.accts[a].owner).unwrap_or(0);
        for _ in 0..r.range(1, 5) {
            let x = r.below(TARGETS as u64) as usize;
            let t = USERS + x;
            parts.push(match r.below(10) {
                0..=3 => {
                    let a = if r.below(5) == 0 { r.below(all) as usize } else { t };
                    let mut accts = vec![a];
                    if r.permille(g.odd) {
                        match r.below(4) {
                            0 => accts.clear(),
                            1 => accts.push(a),
                            _ => {
                                for _ in 0..r.range(1, 4) {
                                    accts.push(r.below(all) as usize);
                                }
                            }
                        }
                    }
                    let want = match r.below(8) {
                        0 => Want::Owner(r.below(OWNERS as u64) as usize),
                        1 => Want::Near(own(a), r.below(256) as u8),
                        2 if r.below(3) == 0 => Want::Own,
                        _ => Want::Seen(w.ch.accts[a].owner.to_bytes()),
                    };
                    let extra = if r.permille(g.odd / 2) { *r.pick(&[-32, -1, 1, -8, 32, -31, 8]) } else { 0 };
                    Part::Assert { accts, want, extra, write: r.below(4) == 0 }
                }
                4 | 5 => {
                    let to = r.below((USERS + TARGETS) as u64) as usize;
                    Part::Pay { from: r.below(USERS as u64) as usize, to, n: *r.pick(&[0, 1, SOL, 200 * SOL]) }
                }
                6 | 7 => Part::Create {
                    by: r.below(USERS as u64) as usize,
                    t: x,
                    owner: r.below(OWNERS as u64) as usize,
                    len: *r.pick(&[0, 1, 8, 33, 165]),
                    n: *r.pick(&[1, SOL / 10, SOL]),
                },
                8 => Part::Assign { t: x, owner: r.below(OWNERS as u64) as usize },
                _ => {
                    let owner = if r.below(6) == 0 { r.below(OWNERS as u64) as usize } else { own(t) };
                    Part::Close { t: x, owner, to: r.below(USERS as u64) as usize }
                }
            });
        }
        Step::Sign(parts)
    }

    fn tail(_g: &mut OGen, w: &OwnerW, _r: &mut Rng) -> Vec<Step> {
        w.pending.iter().map(|_| Step::Land { i: 0, keep: false, abort: None }).collect()
    }

    fn apply(w: &mut OwnerW, s: &Step, st: &mut Stats) -> Vec<Viol> {
        w.now += 1;
        w.ch.slot = w.now;
        match s {
            Step::Sign(p) => {
                w.pending.push((w.now, p.clone()));
                vec![]
            }
            Step::Lose(i) => {
                if *i < w.pending.len() {
                    st.hit("fault: transaction lost");
                    w.pending.remove(*i);
                }
                vec![]
            }
            Step::Land { i, keep, abort } => {
                if *i >= w.pending.len() {
                    return vec![];
                }
                let (at, p) = w.pending[*i].clone();
                if *keep {
                    st.hit("fault: transaction submitted again");
                } else {
                    w.pending.remove(*i);
                }
                if at + 1 < w.now {
                    st.hit("fault: transaction delayed or reordered");
                }
                let r = w.land(&p, *abort, st);
                let owners: Vec<u64> = w.ch.accts[USERS..USERS + TARGETS]
                    .iter()
                    .map(|a| w.owners.iter().position(|o| *o == a.owner).unwrap_or(9) as u64 * 2 + (a.lamports > 0) as u64)
                    .collect();
                st.states.insert(mix(&[mix(&owners), p.len() as u64]));
                r
            }
        }
    }

    fn state_hash(w: &OwnerW) -> u64 {
        crate::dexfam::chain_hash(&w.ch)
    }
    fn slots(w: &OwnerW) -> u64 {
        w.now
    }
    fn simplify(s: &Step) -> Vec<Step> {
        match s {
            Step::Sign(p) if p.len() > 1 => (0..p.len())
                .map(|i| {
                    let mut x = p.clone();
                    x.remove(i);
                    Step::Sign(x)
                })
                .collect(),
            Step::Land { i, keep, abort } if *keep || abort.is_some() => {
                vec![Step::Land { i: *i, keep: false, abort: None }]
            }
            _ => vec![],
        }
    }
}
