//! The simulated chain: account store, transactions, cross-program calls, sysvars and fault injection.
//!
//! Programs run as real code. The runtime around them (account privileges, ownership rules, lamport balance,
//! atomic commit, garbage collection of empty accounts) is simulated here with the rules of the real one.
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_stubs, pubkey::Pubkey, rent::Rent, system_program,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

pub type Aid = usize;

#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub key: Pubkey,
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
}

#[derive(Clone)]
pub struct Chain {
    pub accts: Vec<Acct>,
    pub index: Rc<RefCell<HashMap<Pubkey, Aid>>>,
    pub clock: i64,
    pub slot: u64,
    pub rent: Rent,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub aid: Aid,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

/// Faults armed for one transaction. Indices count from 0 over the whole transaction.
#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Faults {
    /// The n-th cross-program call returns this error instead of running.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cpi_fail: Option<(u32, u32)>,
    /// The n-th cross-program call, if a token transfer, moves this many units less (negative: more) and still
    /// reports success.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cpi_short: Option<(u32, i64)>,
    /// The transaction is aborted inside its n-th system call (compute budget exhausted, validator crash).
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub abort_at: Option<u32>,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub clock_err: bool,
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub rent_err: bool,
}

impl Faults {
    pub fn none(&self) -> bool {
        *self == Faults::default()
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fired {
    pub cpi_fail: bool,
    pub cpi_short: bool,
    pub abort: bool,
    pub clock_err: bool,
    pub rent_err: bool,
}

impl Fired {
    pub fn any(&self) -> bool {
        self.cpi_fail || self.cpi_short || self.abort || self.clock_err || self.rent_err
    }
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub ok: bool,
    pub err: String,
    pub failed_ix: usize,
    pub panicked: bool,
    /// The runtime itself (not the program) rejected the transaction.
    pub runtime_rejected: bool,
    pub syscalls: u32,
    pub cpis: u32,
    pub fired: Fired,
}

pub type Handler = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

struct Frame {
    program: Pubkey,
    privs: Vec<(Pubkey, bool, bool)>,
    pre: Vec<(Pubkey, u64, Vec<u8>, Pubkey)>,
}

#[derive(Default)]
struct Ctx {
    frames: Vec<Frame>,
    faults: Faults,
    fired: Fired,
    syscalls: u32,
    cpis: u32,
    clock: i64,
    slot: u64,
    rent: Rent,
    handlers: Vec<(Pubkey, Handler)>,
    chain: Option<*mut Chain>,
    runtime_rejected: Option<String>,
    logs: Option<Vec<String>>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static IN_TX: Cell<bool> = Cell::new(false);
}

struct AbortMarker;

fn tick() {
    let abort = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let n = c.syscalls;
        c.syscalls += 1;
        if c.faults.abort_at == Some(n) {
            c.fired.abort = true;
            true
        } else {
            false
        }
    });
    if abort {
        std::panic::resume_unwind(Box::new(AbortMarker));
    }
}

struct Stubs;

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if IN_TX.with(|t| t.get()) {
            CTX.with(|c| {
                if let Some(l) = c.borrow_mut().logs.as_mut() {
                    l.push(m.to_string());
                }
            });
            tick();
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_get_clock_sysvar(&self, addr: *mut u8) -> u64 {
        tick();
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.faults.clock_err {
                c.fired.clock_err = true;
                return solana_program::program_error::UNSUPPORTED_SYSVAR;
            }
            let clock = Clock { slot: c.slot, unix_timestamp: c.clock, ..Clock::default() };
            unsafe { std::ptr::write_unaligned(addr as *mut Clock, clock) };
            0
        })
    }
    fn sol_get_rent_sysvar(&self, addr: *mut u8) -> u64 {
        tick();
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.faults.rent_err {
                c.fired.rent_err = true;
                return solana_program::program_error::UNSUPPORTED_SYSVAR;
            }
            unsafe { std::ptr::write_unaligned(addr as *mut Rent, c.rent) };
            0
        })
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        invoke(ix, infos, seeds)
    }
}

fn runtime_reject(why: &str) -> ProgramError {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.runtime_rejected.is_none() {
            c.runtime_rejected = Some(why.to_string());
        }
    });
    ProgramError::Custom(0xdead)
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    tick();
    // Fault injection.
    enum Act {
        Fail(u32),
        Short(u64),
        Run,
    }
    let (act, program, depth) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let n = c.cpis;
        c.cpis += 1;
        let program = c.frames.last().map(|f| f.program).unwrap_or_default();
        let depth = c.frames.len();
        let act = match (c.faults.cpi_fail, c.faults.cpi_short) {
            (Some((i, e)), _) if i == n => {
                c.fired.cpi_fail = true;
                Act::Fail(e)
            }
            (_, Some((i, d))) if i == n => {
                let is_transfer = ix.program_id == spl_token::ID && ix.data.len() == 9 && ix.data[0] == 3;
                let amount = if is_transfer { u64::from_le_bytes(ix.data[1..9].try_into().unwrap()) } else { 0 };
                if amount > 0 && d != 0 {
                    c.fired.cpi_short = true;
                    Act::Short(if d > 0 {
                        amount - (d as u64).clamp(1, amount)
                    } else {
                        amount.saturating_add(d.unsigned_abs())
                    })
                } else {
                    Act::Run
                }
            }
            _ => Act::Run,
        };
        (act, program, depth)
    });
    let mut data = ix.data.clone();
    match act {
        Act::Fail(e) => {
            return Err(match e {
                1_000_000 => ProgramError::InsufficientFunds,
                1_000_001 => ProgramError::InvalidAccountData,
                1_000_002 => ProgramError::MissingRequiredSignature,
                1_000_003 => ProgramError::AccountNotRentExempt,
                1_000_004 => ProgramError::InvalidArgument,
                1_000_005 => ProgramError::IncorrectProgramId,
                e => ProgramError::Custom(e),
            })
        }
        Act::Short(a) => data[1..9].copy_from_slice(&a.to_le_bytes()),
        Act::Run => {}
    }
    if depth >= 5 {
        return Err(runtime_reject("call depth"));
    }
    let mut pdas = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &program) {
            Ok(k) => pdas.push(k),
            Err(_) => return Err(runtime_reject("bad signer seeds")),
        }
    }
    // Privileges are those the runtime granted to the calling frame, not what the caller's copies claim.
    let mut callee: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
    let mut privs: Vec<(Pubkey, bool, bool)> = vec![];
    for m in &ix.accounts {
        let info = match infos.iter().find(|i| *i.key == m.pubkey) {
            Some(i) => i,
            None => return Err(runtime_reject("missing account in cross-program call")),
        };
        let granted = CTX.with(|c| {
            let c = c.borrow();
            c.frames.last().and_then(|f| f.privs.iter().find(|p| p.0 == m.pubkey).cloned())
        });
        let (cs, cw) = granted.map(|p| (p.1, p.2)).unwrap_or((false, false));
        if m.is_signer && !cs && !pdas.contains(&m.pubkey) {
            return Err(runtime_reject("signer privilege escalation"));
        }
        if m.is_writable && !cw {
            return Err(runtime_reject("writable privilege escalation"));
        }
        callee.push(info.clone());
        match privs.iter_mut().find(|p| p.0 == m.pubkey) {
            Some(p) => {
                p.1 |= m.is_signer;
                p.2 |= m.is_writable;
            }
            None => privs.push((m.pubkey, m.is_signer, m.is_writable)),
        }
    }
    // The callee sees each account with the privileges of all its appearances.
    for i in callee.iter_mut() {
        if let Some(p) = privs.iter().find(|p| p.0 == *i.key) {
            i.is_signer = p.1;
            i.is_writable = p.2;
        }
    }
    // What the caller changed so far must be legal for the caller.
    check_frame(&callee, true)?;
    let pre = snapshot(&callee)?;
    CTX.with(|c| c.borrow_mut().frames.push(Frame { program: ix.program_id, privs, pre }));
    let r = run_program(&ix.program_id, &callee, &data);
    let r = r.and_then(|_| check_frame(&callee, false));
    CTX.with(|c| c.borrow_mut().frames.pop());
    r?;
    // The callee's changes become part of what the caller starts from.
    let now = snapshot(&callee)?;
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(f) = c.frames.last_mut() {
            for n in now {
                if let Some(p) = f.pre.iter_mut().find(|p| p.0 == n.0) {
                    *p = n;
                }
            }
        }
    });
    Ok(())
}

fn snapshot(infos: &[AccountInfo]) -> Result<Vec<(Pubkey, u64, Vec<u8>, Pubkey)>, ProgramError> {
    let mut v: Vec<(Pubkey, u64, Vec<u8>, Pubkey)> = Vec::with_capacity(infos.len());
    for i in infos {
        if v.iter().any(|p| p.0 == *i.key) {
            continue;
        }
        let l = **i.lamports.try_borrow().map_err(|_| ProgramError::AccountBorrowFailed)?;
        let d = i.data.try_borrow().map_err(|_| ProgramError::AccountBorrowFailed)?.to_vec();
        v.push((*i.key, l, d, *i.owner));
    }
    Ok(v)
}

/// Checks the changes the current frame's program made to these accounts against the runtime's rules.
fn check_frame(infos: &[AccountInfo], partial: bool) -> ProgramResult {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = &mut *c;
        let f = match c.frames.last() {
            Some(f) => f,
            None => return Ok(()),
        };
        let mut seen: Vec<Pubkey> = vec![];
        let (mut before, mut after) = (0u128, 0u128);
        for i in infos {
            if seen.contains(i.key) {
                continue;
            }
            seen.push(*i.key);
            let p = match f.pre.iter().find(|p| p.0 == *i.key) {
                Some(p) => p,
                None => continue,
            };
            let w = f.privs.iter().any(|x| x.0 == *i.key && x.2);
            let l = match i.lamports.try_borrow() {
                Ok(l) => **l,
                Err(_) => continue,
            };
            let d = match i.data.try_borrow() {
                Ok(d) => d,
                Err(_) => continue,
            };
            before += p.1 as u128;
            after += l as u128;
            let data_changed = **d != *p.2;
            let why = if !w && (data_changed || l != p.1) {
                "read-only account changed"
            } else if data_changed && p.3 != f.program && f.program != system_program::ID {
                "data of a foreign account changed"
            } else if l < p.1 && p.3 != f.program {
                "lamports of a foreign account spent"
            } else if d.len() != p.2.len() && f.program != system_program::ID {
                "account data resized"
            } else {
                continue;
            };
            if c.runtime_rejected.is_none() {
                c.runtime_rejected = Some(why.to_string());
            }
            return Err(ProgramError::Custom(0xdead));
        }
        if !partial && before != after {
            c.runtime_rejected = Some("sum of lamports changed".to_string());
            return Err(ProgramError::Custom(0xdead));
        }
        Ok(())
    })
}

fn run_program(id: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if *id == spl_token::ID {
        return spl_token::processor::Processor::process(id, infos, data);
    }
    if *id == system_program::ID {
        return system_program_process(infos, data);
    }
    let h = CTX.with(|c| c.borrow().handlers.iter().find(|h| h.0 == *id).map(|h| h.1));
    match h {
        Some(h) => h(id, infos, data),
        None => Err(runtime_reject("no such program")),
    }
}

/// Stub of the system program: create_account, transfer, allocate and assign.
fn system_program_process(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let tag = u32::from_le_bytes(data.get(..4).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap());
    let rd = |o: usize| -> Result<u64, ProgramError> {
        Ok(u64::from_le_bytes(data.get(o..o + 8).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap()))
    };
    let mv = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer || *from.owner != system_program::ID {
            return Err(ProgramError::MissingRequiredSignature);
        }
        let have = from.lamports();
        if have < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.lamports.borrow_mut() = have - n;
        let t = to.lamports();
        **to.lamports.borrow_mut() = t + n;
        Ok(())
    };
    let grow = |a: &AccountInfo, space: usize, owner: Option<Pubkey>| -> ProgramResult {
        if !a.is_signer || *a.owner != system_program::ID || !a.data_is_empty() {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        let chain = CTX.with(|c| c.borrow().chain).ok_or(ProgramError::InvalidArgument)?;
        unsafe {
            let chain = &mut *chain;
            let aid = *chain.index.borrow().get(a.key).ok_or(ProgramError::InvalidArgument)?;
            let acc = &mut chain.accts[aid];
            if space > 0 {
                acc.data = vec![0u8; space];
                *a.data.borrow_mut() = std::slice::from_raw_parts_mut(acc.data.as_mut_ptr(), acc.data.len());
            }
            if let Some(o) = owner {
                std::ptr::write(a.owner as *const Pubkey as *mut Pubkey, o);
            }
        }
        Ok(())
    };
    match tag {
        0 => {
            let lam = rd(4)?;
            let space = rd(12)?;
            let owner = Pubkey::new(data.get(20..52).ok_or(ProgramError::InvalidInstructionData)?);
            if infos[1].lamports() > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            grow(&infos[1], space as usize, Some(owner))?;
            mv(&infos[0], &infos[1], lam)
        }
        1 => {
            let owner = Pubkey::new(data.get(4..36).ok_or(ProgramError::InvalidInstructionData)?);
            grow(&infos[0], 0, Some(owner)).or_else(|_| {
                if infos[0].is_signer && *infos[0].owner == system_program::ID {
                    unsafe { std::ptr::write(infos[0].owner as *const Pubkey as *mut Pubkey, owner) };
                    Ok(())
                } else {
                    Err(ProgramError::MissingRequiredSignature)
                }
            })
        }
        2 => mv(&infos[0], &infos[1], rd(4)?),
        8 => grow(&infos[0], rd(4)? as usize, None),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

pub fn install() {
    use std::sync::Once;
    static O: Once = Once::new();
    O.call_once(|| {
        program_stubs::set_syscall_stubs(Box::new(Stubs));
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !IN_TX.try_with(|t| t.get()).unwrap_or(false) {
                old(i);
            }
        }));
    });
}

/// Registers the non-token programs of this thread's simulation.
pub fn set_handlers(h: &[(Pubkey, Handler)]) {
    CTX.with(|c| c.borrow_mut().handlers = h.to_vec());
}

/// Cross-program calls made so far by the current transaction.
pub fn cpi_count() -> u32 {
    CTX.with(|c| c.borrow().cpis)
}

pub fn capture_logs(on: bool) {
    CTX.with(|c| c.borrow_mut().logs = if on { Some(vec![]) } else { None });
}

pub fn take_logs() -> Vec<String> {
    CTX.with(|c| c.borrow_mut().logs.as_mut().map(std::mem::take).unwrap_or_default())
}

impl Chain {
    pub fn new() -> Self {
        install();
        Chain {
            accts: vec![],
            index: Rc::new(RefCell::new(HashMap::new())),
            clock: 1_650_000_000,
            slot: 1,
            rent: Rent::default(),
        }
    }

    pub fn add(&mut self, key: Pubkey, owner: Pubkey, data: Vec<u8>, lamports: u64) -> Aid {
        assert!(!self.index.borrow().contains_key(&key));
        let aid = self.accts.len();
        self.index.borrow_mut().insert(key, aid);
        self.accts.push(Acct { key, lamports, data, owner });
        aid
    }

    pub fn add_exempt(&mut self, key: Pubkey, owner: Pubkey, data: Vec<u8>) -> Aid {
        let l = self.rent.minimum_balance(data.len());
        self.add(key, owner, data, l)
    }

    pub fn key(&self, a: Aid) -> Pubkey {
        self.accts[a].key
    }

    /// Executes one transaction: all instructions commit, or none.
    pub fn exec(&mut self, ixs: &[Ix], faults: &Faults) -> TxResult {
        let r = self.exec_open(ixs, faults);
        if r.ok {
            self.close();
        }
        r
    }

    /// The end of a transaction: accounts without lamports are gone.
    pub fn close(&mut self) {
        for acc in self.accts.iter_mut() {
            if acc.lamports == 0 && !acc.data.is_empty() {
                acc.data.clear();
                acc.owner = system_program::ID;
            }
        }
    }

    /// Executes instructions without ending the transaction.
    pub fn exec_open(&mut self, ixs: &[Ix], faults: &Faults) -> TxResult {
        let self_ptr = self as *mut Chain;
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.frames.clear();
            c.faults = faults.clone();
            c.fired = Fired::default();
            c.syscalls = 0;
            c.cpis = 0;
            c.clock = self.clock;
            c.slot = self.slot;
            c.rent = self.rent;
            c.runtime_rejected = None;
            c.chain = Some(self_ptr);
        });
        let mut undo: Vec<(Aid, Acct)> = vec![];
        for ix in ixs {
            for m in &ix.metas {
                if !undo.iter().any(|u| u.0 == m.aid) {
                    undo.push((m.aid, self.accts[m.aid].clone()));
                }
            }
        }
        let mut res = TxResult {
            ok: true,
            err: String::new(),
            failed_ix: 0,
            panicked: false,
            runtime_rejected: false,
            syscalls: 0,
            cpis: 0,
            fired: Fired::default(),
        };
        // Signatures belong to the transaction: a signer anywhere is a signer everywhere it is marked.
        for (n, ix) in ixs.iter().enumerate() {
            IN_TX.with(|t| t.set(true));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.exec_ix(ix)));
            IN_TX.with(|t| t.set(false));
            let fail = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(format!("{:?}", e)),
                Err(p) => {
                    if p.downcast_ref::<AbortMarker>().is_some() {
                        Some("aborted".to_string())
                    } else {
                        res.panicked = true;
                        Some("panicked".to_string())
                    }
                }
            };
            if let Some(e) = fail {
                res.ok = false;
                res.err = e;
                res.failed_ix = n;
                break;
            }
        }
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.frames.clear();
            res.syscalls = c.syscalls;
            res.cpis = c.cpis;
            res.fired = c.fired.clone();
            if let Some(w) = c.runtime_rejected.take() {
                res.runtime_rejected = true;
                if !res.ok {
                    res.err = format!("runtime: {}", w);
                }
            }
            c.chain = None;
        });
        if !res.ok {
            for (a, old) in undo {
                self.accts[a] = old;
            }
        }
        res
    }

    fn exec_ix(&mut self, ix: &Ix) -> ProgramResult {
        // One shared cell per distinct account.
        let mut uniq: Vec<Aid> = vec![];
        for m in &ix.metas {
            if !uniq.contains(&m.aid) {
                uniq.push(m.aid);
            }
        }
        let mut owners: Vec<Box<Pubkey>> = uniq.iter().map(|a| Box::new(self.accts[*a].owner)).collect();
        let base = self.accts.as_mut_ptr();
        let mut cells: Vec<(Rc<RefCell<&mut u64>>, Rc<RefCell<&mut [u8]>>)> = vec![];
        for a in &uniq {
            // Each account appears once in `uniq`, so these exclusive borrows are disjoint.
            let acc = unsafe { &mut *base.add(*a) };
            let data: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(acc.data.as_mut_ptr(), acc.data.len()) };
            let lam: &mut u64 = unsafe { &mut *(&mut acc.lamports as *mut u64) };
            cells.push((Rc::new(RefCell::new(lam)), Rc::new(RefCell::new(data))));
        }
        let keys: Vec<Pubkey> = uniq.iter().map(|a| self.accts[*a].key).collect();
        let mut privs: Vec<(Pubkey, bool, bool)> = keys.iter().map(|k| (*k, false, false)).collect();
        let mut infos: Vec<AccountInfo> = Vec::with_capacity(ix.metas.len());
        for m in &ix.metas {
            let u = uniq.iter().position(|a| *a == m.aid).unwrap();
            privs[u].1 |= m.signer;
            privs[u].2 |= m.writable;
        }
        for m in &ix.metas {
            let u = uniq.iter().position(|a| *a == m.aid).unwrap();
            let owner: &Pubkey = unsafe { &*(&*owners[u] as *const Pubkey) };
            infos.push(AccountInfo {
                key: unsafe { &*(&keys[u] as *const Pubkey) },
                is_signer: privs[u].1,
                is_writable: privs[u].2,
                lamports: cells[u].0.clone(),
                data: cells[u].1.clone(),
                owner,
                executable: false,
                rent_epoch: 0,
            });
        }
        let pre = snapshot(&infos)?;
        CTX.with(|c| c.borrow_mut().frames.push(Frame { program: ix.program, privs, pre }));
        run_program(&ix.program, &infos, &ix.data)?;
        check_frame(&infos, false)?;
        CTX.with(|c| c.borrow_mut().frames.pop());
        drop(infos);
        for (i, a) in uniq.iter().enumerate() {
            let o = std::mem::take(&mut *owners[i]);
            self.accts[*a].owner = o;
        }
        Ok(())
    }
}
