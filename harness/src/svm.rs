//! A small re-implementation of the Solana transaction runtime that executes the real program code
//! (the phoenix crate and the real spl-token processor) over accounts held in memory, enforcing the
//! rules the real runtime enforces: ownership, writability, signatures, lamport conservation,
//! rent-exempt state, privilege (non-)escalation over CPI, return-data scoping and atomicity.
use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_program,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// when the instruction each worker is executing was started (0: none), to notice those that never end
pub static SINCE: [AtomicU64; 64] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; 64]
};
thread_local! {
    pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(63) };
}
pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(1)
}

#[cfg(feature = "asan")]
mod poison {
    extern "C" {
        fn __asan_poison_memory_region(p: *const u8, n: usize);
        fn __asan_unpoison_memory_region(p: *const u8, n: usize);
    }
    pub fn forbid(p: *const u8, n: usize) {
        unsafe { __asan_poison_memory_region(p, n) }
    }
    pub fn allow(p: *const u8, n: usize) {
        unsafe { __asan_unpoison_memory_region(p, n) }
    }
}
#[cfg(not(feature = "asan"))]
mod poison {
    pub fn forbid(_: *const u8, _: usize) {}
    pub fn allow(_: *const u8, _: usize) {}
}

pub const MAX_GROW: usize = 10 * 1024;
/// the runtime's limit on the size of an inner instruction (data and account metas)
pub const MAX_CPI: usize = 1280;
/// the runtime's limit on return data
pub const MAX_RETURN: usize = 1024;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Account {
    pub fn system(lamports: u64) -> Self {
        Account { lamports, data: vec![], owner: system_program::id(), executable: false }
    }
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accounts: HashMap<Pubkey, Account>,
    pub slot: u64,
    pub unix_timestamp: i64,
}

#[derive(Clone, Debug)]
pub struct Changed {
    pub key: Pubkey,
    pub pre: Account,
}

#[derive(Debug, Default)]
pub struct TxOut {
    pub ok: bool,
    pub err: String,
    pub panicked: bool,
    /// raw instruction data of each successful self-CPI to the Log instruction
    pub logs: Vec<Vec<u8>>,
    pub ret: Option<(Pubkey, Vec<u8>)>,
    /// accounts whose content changed, with their content before
    pub changed: Vec<Changed>,
    pub cpis: u64,
    /// memory outside of the realloc window or of read-only metadata was touched
    pub guard: Option<String>,
}

#[derive(Clone)]
struct Priv {
    key: Pubkey,
    signer: bool,
    writable: bool,
}

struct Frame {
    program: Pubkey,
    privs: Vec<Priv>,
    /// content of the accounts as last synchronised with the runtime (owner, lamports, data)
    base: HashMap<Pubkey, Rc<Account>>,
}

#[derive(Default)]
struct Rt {
    slot: u64,
    ts: i64,
    ret: Option<(Pubkey, Vec<u8>)>,
    stack: Vec<Frame>,
    logs: Vec<Vec<u8>>,
    cpis: u64,
    rt_err: Option<String>,
}

thread_local! {
    static RT: RefCell<Rt> = RefCell::new(Rt::default());
}

struct Stubs;

fn rterr(s: &str) -> ProgramError {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        if r.rt_err.is_none() {
            r.rt_err = Some(s.to_string());
        }
    });
    ProgramError::Custom(0xdead)
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        // A runtime error inside a CPI aborts the whole transaction on chain.
        let r = cpi(ix, infos, seeds);
        if let Err(e) = &r {
            let _ = rterr(&format!("cpi failed: {:?}", e));
        }
        r
    }
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        RT.with(|r| {
            let r = r.borrow();
            unsafe {
                *(var as *mut Clock) = Clock {
                    slot: r.slot,
                    epoch_start_timestamp: 0,
                    epoch: 1,
                    leader_schedule_epoch: 1,
                    unix_timestamp: r.ts,
                };
            }
        });
        0
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe {
            *(var as *mut Rent) = Rent::default();
        }
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        RT.with(|r| r.borrow().ret.clone())
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        if data.len() > MAX_RETURN {
            rterr("ReturnDataTooLarge");
        }
        RT.with(|r| {
            let mut r = r.borrow_mut();
            if let Some(p) = r.stack.last().map(|f| f.program) {
                r.ret = if data.is_empty() { None } else { Some((p, data.to_vec())) };
            }
        })
    }
}

pub fn install() {
    set_syscall_stubs(Box::new(Stubs));
}

fn snapshot(info: &AccountInfo) -> Result<Account, ProgramError> {
    Ok(Account {
        lamports: **info.try_borrow_lamports()?,
        data: info.try_borrow_data()?.to_vec(),
        owner: *info.owner,
        executable: info.executable,
    })
}

/// The runtime's rule for what `program` may do to one account.
fn check_change(
    program: &Pubkey,
    key: &Pubkey,
    pre: &Account,
    post_lamports: u64,
    post_owner: &Pubkey,
    post_data: &[u8],
    writable: bool,
) -> Result<(), String> {
    let data_changed = pre.data.len() != post_data.len() || pre.data[..] != post_data[..];
    if pre.owner != *post_owner {
        if !writable || pre.executable || pre.owner != *program || post_data.iter().any(|b| *b != 0) {
            return Err(format!("ModifiedProgramId {}", key));
        }
    }
    if pre.lamports != post_lamports {
        if !writable || pre.executable {
            return Err(format!("ReadonlyLamportChange {}", key));
        }
        if post_lamports < pre.lamports && pre.owner != *program {
            return Err(format!("ExternalAccountLamportSpend {}", key));
        }
    }
    if data_changed {
        if !writable || pre.executable {
            return Err(format!("ReadonlyDataModified {}", key));
        }
        if pre.owner != *program {
            return Err(format!("ExternalAccountDataModified {}", key));
        }
    }
    Ok(())
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let (caller, depth) = RT.with(|r| {
        let r = r.borrow();
        (r.stack.last().map(|f| f.program).unwrap_or_default(), r.stack.len())
    });
    if depth >= 5 {
        return Err(rterr("CallDepth"));
    }
    if seeds.len() > 16 {
        return Err(rterr("MaxSeeds"));
    }
    if ix.data.len() + 34 * ix.accounts.len() > MAX_CPI {
        return Err(rterr("InstructionTooLarge"));
    }
    let mut pdas = vec![];
    for s in seeds {
        match Pubkey::create_program_address(s, &caller) {
            Ok(p) => pdas.push(p),
            Err(_) => return Err(rterr("bad seeds")),
        }
    }
    // merge duplicate metas as the runtime does
    let mut uniq: Vec<Priv> = vec![];
    let mut order: Vec<usize> = vec![];
    for m in &ix.accounts {
        if let Some(i) = uniq.iter().position(|u| u.key == m.pubkey) {
            uniq[i].signer |= m.is_signer;
            uniq[i].writable |= m.is_writable;
            order.push(i);
        } else {
            uniq.push(Priv { key: m.pubkey, signer: m.is_signer, writable: m.is_writable });
            order.push(uniq.len() - 1);
        }
    }
    let priv_err = RT.with(|r| -> Option<String> {
        let r = r.borrow();
        let f = r.stack.last().unwrap();
        for u in &uniq {
            match f.privs.iter().find(|p| p.key == u.key) {
                None => return Some(format!("MissingAccount {}", u.key)),
                Some(p) => {
                    if u.writable && !p.writable {
                        return Some(format!("PrivilegeEscalation writable {}", u.key));
                    }
                    if u.signer && !(p.signer || pdas.contains(&u.key)) {
                        return Some(format!("PrivilegeEscalation signer {}", u.key));
                    }
                }
            }
        }
        if !f.privs.iter().any(|p| p.key == ix.program_id) {
            return Some("MissingAccount (program)".to_string());
        }
        // direct re-entrancy of the same program is allowed, anything else is not
        let n = r.stack.len();
        if r.stack[..n - 1].iter().any(|f| f.program == ix.program_id) {
            return Some("ReentrancyNotAllowed".to_string());
        }
        None
    });
    if let Some(e) = priv_err {
        return Err(rterr(&e));
    }
    // find the caller's account infos
    let mut idx = vec![];
    for u in &uniq {
        match infos.iter().position(|i| *i.key == u.key) {
            Some(i) => idx.push(i),
            None => return Err(rterr(&format!("MissingAccount info {}", u.key))),
        }
    }
    // the caller's own changes so far must be legal
    let mut callee: Vec<(Pubkey, Account)> = vec![];
    for (u, i) in uniq.iter().zip(idx.iter()) {
        let cur = match snapshot(&infos[*i]) {
            Ok(c) => c,
            Err(_) => return Err(rterr("AccountBorrowFailed")),
        };
        let bad = RT.with(|r| {
            let r = r.borrow();
            let f = r.stack.last().unwrap();
            let w = f.privs.iter().find(|p| p.key == u.key).map(|p| p.writable).unwrap_or(false);
            match f.base.get(&u.key) {
                Some(b) => check_change(&caller, &u.key, b, cur.lamports, &cur.owner, &cur.data, w).err(),
                None => Some("no baseline".to_string()),
            }
        });
        if let Some(e) = bad {
            return Err(rterr(&e));
        }
        callee.push((u.key, cur));
    }
    let pre: Vec<Account> = callee.iter().map(|c| c.1.clone()).collect();
    RT.with(|r| {
        let mut r = r.borrow_mut();
        r.cpis += 1;
        if r.cpis > 20_000 {
            panic!("compute budget exhausted");
        }
        r.ret = None;
        let mut base = HashMap::new();
        for (k, a) in &callee {
            base.insert(*k, Rc::new(a.clone()));
        }
        r.stack.push(Frame { program: ix.program_id, privs: uniq.clone(), base });
    });
    let res = if ix.program_id == system_program::id() {
        system_process(ix, &uniq, &pdas, &mut callee)
    } else {
        run_callee(ix, &uniq, &order, &pdas, &mut callee)
    };
    RT.with(|r| {
        r.borrow_mut().stack.pop();
    });
    if let Err(e) = res {
        return Err(e);
    }
    // callee's rules
    let mut sum_pre = 0u128;
    let mut sum_post = 0u128;
    for (i, (k, a)) in callee.iter().enumerate() {
        sum_pre += pre[i].lamports as u128;
        sum_post += a.lamports as u128;
        if ix.program_id != system_program::id() {
            if let Err(e) =
                check_change(&ix.program_id, k, &pre[i], a.lamports, &a.owner, &a.data, uniq[i].writable)
            {
                return Err(rterr(&e));
            }
        }
    }
    if sum_pre != sum_post {
        return Err(rterr("UnbalancedInstruction"));
    }
    if ix.program_id == phoenix::id() && ix.data.first() == Some(&15) {
        RT.with(|r| r.borrow_mut().logs.push(ix.data.clone()));
    }
    // write back to the caller
    for (j, i) in idx.iter().enumerate() {
        if callee[j].1 == pre[j] {
            continue;
        }
        let info = &infos[*i];
        let a = &callee[j].1;
        match info.try_borrow_mut_lamports() {
            Ok(mut l) => **l = a.lamports,
            Err(_) => return Err(rterr("AccountBorrowFailed")),
        }
        if info.owner != &a.owner {
            info.assign(&a.owner);
        }
        let cur_len = match info.try_borrow_data() {
            Ok(d) => d.len(),
            Err(_) => return Err(rterr("AccountBorrowFailed")),
        };
        if cur_len != a.data.len() {
            if let Ok(d) = info.try_borrow_data() {
                poison::allow(d.as_ptr(), a.data.len());
            }
            if info.realloc(a.data.len(), false).is_err() {
                return Err(rterr("InvalidRealloc"));
            }
        }
        match info.try_borrow_mut_data() {
            Ok(mut d) => d.copy_from_slice(&a.data),
            Err(_) => return Err(rterr("AccountBorrowFailed")),
        }
        RT.with(|r| {
            let mut r = r.borrow_mut();
            let f = r.stack.last_mut().unwrap();
            f.base.insert(callee[j].0, Rc::new(a.clone()));
        });
    }
    Ok(())
}

fn run_callee(
    ix: &Instruction,
    uniq: &[Priv],
    order: &[usize],
    pdas: &[Pubkey],
    callee: &mut [(Pubkey, Account)],
) -> ProgramResult {
    let signer: Vec<bool> = uniq.iter().map(|u| u.signer || pdas.contains(&u.key)).collect();
    let _ = pdas;
    let owners: Vec<Pubkey> = callee.iter().map(|c| c.1.owner).collect();
    let res = {
        let mut base_infos: Vec<AccountInfo> = vec![];
        for (i, (k, a)) in callee.iter_mut().enumerate() {
            base_infos.push(AccountInfo {
                key: k,
                is_signer: signer[i] && uniq[i].signer,
                is_writable: uniq[i].writable,
                lamports: Rc::new(RefCell::new(&mut a.lamports)),
                data: Rc::new(RefCell::new(&mut a.data[..])),
                owner: &owners[i],
                executable: a.executable,
                rent_epoch: 0,
            });
        }
        let infos: Vec<AccountInfo> = order.iter().map(|i| base_infos[*i].clone()).collect();
        if ix.program_id == spl_token::id() {
            spl_token::processor::Processor::process(&ix.program_id, &infos, &ix.data)
        } else if ix.program_id == phoenix::id() {
            phoenix::process_instruction(&ix.program_id, &infos, &ix.data)
        } else {
            // attacker programs: succeed without doing anything
            Ok(())
        }
    };
    res
}

fn rd_u64(d: &[u8], o: usize) -> Option<u64> {
    d.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
}
fn rd_key(d: &[u8], o: usize) -> Option<Pubkey> {
    d.get(o..o + 32).map(Pubkey::new)
}

fn system_process(
    ix: &Instruction,
    uniq: &[Priv],
    pdas: &[Pubkey],
    accs: &mut [(Pubkey, Account)],
) -> ProgramResult {
    let d = &ix.data;
    let tag = d
        .get(0..4)
        .map(|b| u32::from_le_bytes(b.try_into().unwrap()))
        .ok_or_else(|| rterr("system data"))?;
    let at = |i: usize| -> Result<usize, ProgramError> {
        let k = ix.accounts.get(i).map(|m| m.pubkey).ok_or_else(|| rterr("NotEnoughAccountKeys"))?;
        Ok(uniq.iter().position(|u| u.key == k).unwrap())
    };
    let is_signer = |i: usize| uniq[i].signer || pdas.contains(&uniq[i].key);
    match tag {
        0 => {
            let (lam, space, owner) = match (rd_u64(d, 4), rd_u64(d, 12), rd_key(d, 20)) {
                (Some(a), Some(b), Some(c)) => (a, b, c),
                _ => return Err(rterr("system data")),
            };
            let (f, t) = (at(0)?, at(1)?);
            if !is_signer(t) || !is_signer(f) {
                return Err(rterr("MissingRequiredSignature"));
            }
            if accs[t].1.lamports > 0 || !accs[t].1.data.is_empty() || accs[t].1.owner != system_program::id() {
                return Err(rterr("AccountAlreadyInUse"));
            }
            if space > 10 * 1024 * 1024 {
                return Err(rterr("InvalidAccountDataLength"));
            }
            if !uniq[f].writable || !uniq[t].writable {
                return Err(rterr("readonly"));
            }
            if !accs[f].1.data.is_empty() || accs[f].1.owner != system_program::id() || accs[f].1.lamports < lam {
                return Err(rterr("ResultWithNegativeLamports"));
            }
            accs[t].1.data = vec![0; space as usize];
            accs[t].1.owner = owner;
            accs[f].1.lamports -= lam;
            accs[t].1.lamports += lam;
            Ok(())
        }
        1 => {
            let owner = rd_key(d, 4).ok_or_else(|| rterr("system data"))?;
            let a = at(0)?;
            if accs[a].1.owner == owner {
                return Ok(());
            }
            if !is_signer(a) || !uniq[a].writable || accs[a].1.owner != system_program::id() {
                return Err(rterr("assign"));
            }
            accs[a].1.owner = owner;
            Ok(())
        }
        2 => {
            let lam = rd_u64(d, 4).ok_or_else(|| rterr("system data"))?;
            let (f, t) = (at(0)?, at(1)?);
            if !is_signer(f) || !uniq[f].writable || !uniq[t].writable {
                return Err(rterr("transfer privileges"));
            }
            if !accs[f].1.data.is_empty() || accs[f].1.owner != system_program::id() || accs[f].1.lamports < lam {
                return Err(rterr("ResultWithNegativeLamports"));
            }
            accs[f].1.lamports -= lam;
            accs[t].1.lamports += lam;
            Ok(())
        }
        8 => {
            let space = rd_u64(d, 4).ok_or_else(|| rterr("system data"))?;
            let a = at(0)?;
            if !is_signer(a) || !uniq[a].writable {
                return Err(rterr("allocate"));
            }
            if !accs[a].1.data.is_empty() || accs[a].1.owner != system_program::id() || space > 10 * 1024 * 1024 {
                return Err(rterr("allocate"));
            }
            accs[a].1.data = vec![0; space as usize];
            Ok(())
        }
        _ => Err(rterr("unsupported system instruction")),
    }
}

struct Slot {
    key: Pubkey,
    signer: bool,
    writable: bool,
    off: usize,
    len: usize,
}

/// A raw parameter region in the layout the loader hands to a program.
struct Region {
    buf: Vec<u64>,
    used: usize,
    slots: Vec<Slot>,
}

impl Region {
    fn bytes(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut u8, self.buf.len() * 8) }
    }
}

fn build_region(bank: &Bank, metas: &[AccountMeta], data: &[u8], program: &Pubkey) -> Region {
    let empty = Account::system(0);
    let mut slots: Vec<Slot> = vec![];
    let mut order: Vec<usize> = vec![];
    for m in metas {
        if let Some(i) = slots.iter().position(|s| s.key == m.pubkey) {
            slots[i].signer |= m.is_signer;
            slots[i].writable |= m.is_writable;
            order.push(i);
        } else {
            slots.push(Slot { key: m.pubkey, signer: m.is_signer, writable: m.is_writable, off: 0, len: 0 });
            order.push(slots.len() - 1);
        }
    }
    let mut size = 8;
    for s in &slots {
        let l = bank.accounts.get(&s.key).map(|a| a.data.len()).unwrap_or(0);
        size += 8 + 32 + 32 + 8 + 8 + l + MAX_GROW + 8 + 8;
    }
    size += metas.len() * 8 + 8 + data.len() + 32 + 64;
    let mut buf: Vec<u64> = vec![0; size / 8 + 2];
    let b = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 8) };
    let mut o = 0;
    b[o..o + 8].copy_from_slice(&(metas.len() as u64).to_le_bytes());
    o += 8;
    let mut first: Vec<Option<u8>> = vec![None; slots.len()];
    for (pos, si) in order.iter().enumerate() {
        if let Some(p) = first[*si] {
            b[o] = p;
            o += 8;
            continue;
        }
        first[*si] = Some(pos as u8);
        let s = &mut slots[*si];
        let a = bank.accounts.get(&s.key).unwrap_or(&empty);
        b[o] = 0xff;
        b[o + 1] = s.signer as u8;
        b[o + 2] = s.writable as u8;
        b[o + 3] = a.executable as u8;
        o += 8;
        s.off = o;
        s.len = a.data.len();
        b[o..o + 32].copy_from_slice(s.key.as_ref());
        o += 32;
        b[o..o + 32].copy_from_slice(a.owner.as_ref());
        o += 32;
        b[o..o + 8].copy_from_slice(&a.lamports.to_le_bytes());
        o += 8;
        b[o..o + 8].copy_from_slice(&(a.data.len() as u64).to_le_bytes());
        o += 8;
        b[o..o + a.data.len()].copy_from_slice(&a.data);
        o += a.data.len() + MAX_GROW;
        o = (o + 7) & !7;
        o += 8; // rent epoch
    }
    b[o..o + 8].copy_from_slice(&(data.len() as u64).to_le_bytes());
    o += 8;
    b[o..o + data.len()].copy_from_slice(data);
    o += data.len();
    b[o..o + 32].copy_from_slice(program.as_ref());
    o += 32;
    Region { buf, used: o, slots }
}

impl Bank {
    pub fn get(&self, k: &Pubkey) -> Option<&Account> {
        self.accounts.get(k)
    }

    /// Executes one top-level instruction of the phoenix program as its own transaction.
    pub fn execute(&mut self, ix: &Instruction) -> TxOut {
        let mut out = TxOut::default();
        if ix.accounts.len() > 200 {
            out.err = "too many accounts".into();
            return out;
        }
        let mut region = build_region(self, &ix.accounts, &ix.data, &ix.program_id);
        let used = region.used;
        let tail = 0xA5u8;
        for b in region.bytes()[used..].iter_mut() {
            *b = tail;
        }
        let empty = Account::system(0);
        RT.with(|r| {
            let mut r = r.borrow_mut();
            *r = Rt::default();
            r.slot = self.slot;
            r.ts = self.unix_timestamp;
            let mut base = HashMap::new();
            for s in &region.slots {
                let a = self.accounts.get(&s.key).unwrap_or(&empty);
                // large program-owned accounts are never passed to a CPI by reference of data we need
                // to diff before the end; the bank itself is the baseline for them
                base.insert(s.key, Rc::new(a.clone()));
            }
            r.stack.push(Frame {
                program: ix.program_id,
                privs: region
                    .slots
                    .iter()
                    .map(|s| Priv { key: s.key, signer: s.signer, writable: s.writable })
                    .collect(),
                base,
            });
        });
        let ptr = region.buf.as_mut_ptr() as *mut u8;
        // nothing may be read or written behind an account's data as long as it is not enlarged
        for s in &region.slots {
            poison::forbid(unsafe { (ptr as *const u8).add(s.off + 80 + s.len) }, MAX_GROW);
        }
        let size = region.buf.len() * 8;
        let me = WORKER.with(|w| w.get());
        SINCE[me].store(now_ms(), SeqCst);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let (pid, infos, data) = unsafe { solana_program::entrypoint::deserialize(ptr) };
            phoenix::process_instruction(pid, &infos, data)
        }));
        SINCE[me].store(0, SeqCst);
        poison::allow(ptr, size);
        let rt = RT.with(|r| std::mem::take(&mut *r.borrow_mut()));
        out.cpis = rt.cpis;
        match res {
            Ok(Ok(())) => out.ok = true,
            Ok(Err(e)) => out.err = format!("{:?}", e),
            Err(_) => {
                out.panicked = true;
                out.err = "panic".into();
            }
        }
        if let Some(e) = rt.rt_err {
            out.ok = false;
            out.err = format!("{} / {}", out.err, e);
        }
        if region.bytes()[used..].iter().any(|b| *b != tail) {
            out.guard = Some("wrote behind the parameter region".into());
        }
        if !out.ok {
            return out;
        }
        // verify and collect
        let mut post: Vec<(Pubkey, Account)> = vec![];
        let mut sum_pre = 0u128;
        let mut sum_post = 0u128;
        let base = &rt.stack[0].base;
        let slots = std::mem::take(&mut region.slots);
        let b = region.bytes();
        for s in &slots {
            let o = s.off;
            if b[o..o + 32] != *s.key.as_ref() || b[o - 8] != 0xff || b[o - 7] != s.signer as u8 || b[o - 6] != s.writable as u8 {
                out.guard = Some(format!("account metadata of {} overwritten", s.key));
            }
            let owner = Pubkey::new(&b[o + 32..o + 64]);
            let lam = u64::from_le_bytes(b[o + 64..o + 72].try_into().unwrap());
            let dlen = u64::from_le_bytes(b[o + 72..o + 80].try_into().unwrap()) as usize;
            if dlen > s.len + MAX_GROW {
                out.ok = false;
                out.err = "InvalidRealloc".into();
                return out;
            }
            let data = &b[o + 80..o + 80 + dlen];
            let bs = base.get(&s.key).unwrap();
            if let Err(e) = check_change(&ix.program_id, &s.key, bs, lam, &owner, data, s.writable) {
                out.ok = false;
                out.err = e;
                return out;
            }
            let pre = self.accounts.get(&s.key).unwrap_or(&empty);
            sum_pre += pre.lamports as u128;
            sum_post += lam as u128;
            if pre.lamports != lam || pre.owner != owner || pre.data[..] != *data {
                // rent state
                let rent = Rent::default();
                if lam > 0 && !rent.is_exempt(lam, dlen) {
                    let was_paying = pre.lamports > 0 && !rent.is_exempt(pre.lamports, pre.data.len());
                    if !(was_paying && pre.data.len() == dlen && lam <= pre.lamports) {
                        out.ok = false;
                        out.err = "InvalidRentPayingAccount".into();
                        return out;
                    }
                }
                post.push((
                    s.key,
                    Account { lamports: lam, data: data.to_vec(), owner, executable: pre.executable },
                ));
            }
        }
        if sum_pre != sum_post {
            out.ok = false;
            out.err = "UnbalancedInstruction".into();
            return out;
        }
        for (k, a) in post {
            let pre = if a.lamports == 0 && a.data.is_empty() {
                self.accounts.remove(&k)
            } else if a.lamports == 0 {
                // zero-lamport accounts are purged at the end of the transaction
                self.accounts.remove(&k)
            } else {
                self.accounts.insert(k, a)
            };
            out.changed.push(Changed { key: k, pre: pre.unwrap_or_else(|| Account::system(0)) });
        }
        out.logs = rt.logs;
        out.ret = rt.ret;
        out
    }
}
