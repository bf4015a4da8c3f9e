//! A small deterministic Solana runtime that runs the real program code natively.
//!
//! It reproduces what the programs can observe: the serialized input buffer (with duplicate
//! markers and the 10 KiB growth area), cross-program calls with privilege checks and signer
//! seeds, sysvars, stack height, and the runtime's rules on what an instruction may change.

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::Instruction,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_program,
};
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    panic::{catch_unwind, panic_any, AssertUnwindSafe},
    sync::{Arc, Once, OnceLock, RwLock},
};

pub const MAX_GROW: usize = 10240;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub exec: bool,
}

impl Acct {
    pub fn wallet(lamports: u64) -> Self {
        Acct { lamports, owner: system_program::ID, data: vec![], exec: false }
    }
    pub fn absent() -> Self {
        Acct::wallet(0)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Arc<Acct>>,
    pub clock: i64,
    /// members of a group that are not shown (never touched by any call)
    pub elsewhere: BTreeMap<Pubkey, u64>,
}

impl World {
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).map(|a| (**a).clone()).unwrap_or_else(Acct::absent)
    }
    pub fn set(&mut self, k: Pubkey, a: Acct) {
        self.accts.insert(k, Arc::new(a));
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accts.get(k).map(|a| a.data.as_slice()).unwrap_or(&[])
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accts.get(k).map(|a| a.lamports).unwrap_or(0)
    }
    pub fn owner(&self, k: &Pubkey) -> Pubkey {
        self.accts.get(k).map(|a| a.owner).unwrap_or(system_program::ID)
    }
    pub fn program(&mut self, k: Pubkey) {
        self.set(
            k,
            Acct { lamports: 1, owner: solana_program::bpf_loader::ID, data: vec![], exec: true },
        );
    }
}

pub fn rent(len: usize) -> u64 {
    (len as u64 + 128) * 3480 * 2
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ix {
    pub program: Pubkey,
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

impl From<&Instruction> for Ix {
    fn from(i: &Instruction) -> Self {
        Ix {
            program: i.program_id,
            metas: i
                .accounts
                .iter()
                .map(|m| Meta { key: m.pubkey, signer: m.is_signer, writable: m.is_writable })
                .collect(),
            data: i.data.clone(),
        }
    }
}

pub type NativeFn = fn(&mut World, &[Meta], &[u8]) -> Result<(), String>;
pub type SolFn = for<'a> fn(&'a Pubkey, &'a [AccountInfo<'a>], &[u8]) -> ProgramResult;

#[derive(Clone, Copy)]
pub enum Prog {
    Asset,
    Sol(SolFn),
    Native(NativeFn),
}

static PROGRAMS: OnceLock<RwLock<Vec<(Pubkey, Prog)>>> = OnceLock::new();

pub fn register(id: Pubkey, p: Prog) {
    let mut v = PROGRAMS.get_or_init(|| RwLock::new(vec![])).write().unwrap();
    if !v.iter().any(|x| x.0 == id) {
        v.push((id, p));
    }
}

fn lookup(id: &Pubkey) -> Option<Prog> {
    PROGRAMS
        .get_or_init(|| RwLock::new(vec![]))
        .read()
        .unwrap()
        .iter()
        .find(|x| x.0 == *id)
        .map(|x| x.1)
}

struct Slot {
    key: Pubkey,
    off: usize,
    signer: bool,
    writable: bool,
    orig_len: usize,
    pre: Acct,
}

struct Frame {
    program: Pubkey,
    buf: *mut u8,
    len: usize,
    slots: Vec<Slot>,
}

thread_local! {
    static FRAMES: RefCell<Vec<Frame>> = const { RefCell::new(Vec::new()) };
    static WORLD: RefCell<World> = RefCell::new(World::default());
    static ABORT: Cell<bool> = const { Cell::new(false) };
    static HEIGHT: Cell<u64> = const { Cell::new(1) };
    static POOL: RefCell<Vec<Vec<u64>>> = const { RefCell::new(Vec::new()) };
    static IN_VM: Cell<bool> = const { Cell::new(false) };
    static WHY: RefCell<String> = const { RefCell::new(String::new()) };
    /// log of executed inner instructions (program, metas, data), kept when enabled
    pub static TRACE: RefCell<Option<Vec<Ix>>> = const { RefCell::new(None) };
}

/// A cross-program call that was recorded instead of being executed.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Captured {
    pub ix: Ix,
    pub infos: Vec<Pubkey>,
    pub seeds: Vec<Vec<Vec<u8>>>,
}

thread_local! {
    static CAPTURE: RefCell<Option<Vec<Captured>>> = const { RefCell::new(None) };
}

/// Runs `f` recording its cross-program calls.
pub fn capture<T>(f: impl FnOnce() -> T) -> (T, Vec<Captured>) {
    init();
    CAPTURE.with(|c| *c.borrow_mut() = Some(vec![]));
    let r = f();
    (r, CAPTURE.with(|c| c.borrow_mut().take()).unwrap_or_default())
}

/// Marker payload of a transaction abort.
struct TxAbort;

fn abort(why: &str) -> ! {
    ABORT.with(|a| a.set(true));
    WHY.with(|w| *w.borrow_mut() = why.to_string());
    panic_any(TxAbort)
}

struct Stubs;

fn frame_region() -> Option<(usize, usize)> {
    FRAMES.with(|f| f.borrow().last().map(|f| (f.buf as usize, f.buf as usize + f.len)))
}

/// A pointer range that starts in the input region must stay in it (the VM's access check).
fn check_range(p: usize, n: usize) {
    if n == 0 {
        return;
    }
    if let Some((lo, hi)) = frame_region() {
        // ranges that touch or come near the input region have to be inside of it
        const NEAR: usize = 1 << 20;
        let inside = p >= lo && p.checked_add(n).map_or(false, |e| e <= hi);
        let touches = p < hi && p.saturating_add(n) > lo;
        let beyond = p >= hi && p < hi.saturating_add(NEAR) && !is_live_heap(p);
        if !inside && (touches || beyond) {
            abort("access violation");
        }
    }
}

/// Pointers just past the region may belong to other live allocations (e.g. a `Vec` of the
/// program under test); only the guard zone right behind the region counts as a violation.
fn is_live_heap(p: usize) -> bool {
    match frame_region() {
        Some((_, hi)) => p >= hi + GUARD,
        None => true,
    }
}
const GUARD: usize = 64 * 1024;

impl SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let ix = Ix::from(ix);
        let recorded = CAPTURE.with(|c| match c.borrow_mut().as_mut() {
            Some(v) => {
                v.push(Captured {
                    ix: ix.clone(),
                    infos: infos.iter().map(|i| *i.key).collect(),
                    seeds: seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect(),
                });
                true
            }
            None => false,
        });
        if recorded {
            return Ok(());
        }
        // all accounts must be handed over as account infos too
        for m in &ix.metas {
            if !infos.iter().any(|i| *i.key == m.key) {
                abort("missing account info");
            }
        }
        cpi(&ix, seeds);
        // refresh the length of the caller's views
        FRAMES.with(|f| {
            let f = f.borrow();
            let fr = f.last().unwrap();
            for i in infos {
                if let Some(s) = fr.slots.iter().find(|s| s.key == *i.key) {
                    if let Ok(mut d) = i.data.try_borrow_mut() {
                        unsafe {
                            let ptr = fr.buf.add(s.off + 88);
                            let len = *(fr.buf.add(s.off + 80) as *const u64) as usize;
                            *d = std::slice::from_raw_parts_mut(ptr, len);
                        }
                    }
                }
            }
        });
        Ok(())
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock {
            unix_timestamp: WORLD.with(|w| w.borrow().clock),
            ..Clock::default()
        };
        unsafe { *(p as *mut Clock) = c };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = Rent::default() };
        0
    }
    unsafe fn sol_memcpy(&self, d: *mut u8, s: *const u8, n: usize) {
        check_range(d as usize, n);
        check_range(s as usize, n);
        if n > 0 && (d as usize) < s as usize + n && (s as usize) < d as usize + n {
            abort("overlapping copy");
        }
        std::ptr::copy_nonoverlapping(s, d, n);
    }
    unsafe fn sol_memmove(&self, d: *mut u8, s: *const u8, n: usize) {
        check_range(d as usize, n);
        check_range(s as usize, n);
        std::ptr::copy(s, d, n);
    }
    unsafe fn sol_memset(&self, s: *mut u8, c: u8, n: usize) {
        check_range(s as usize, n);
        std::ptr::write_bytes(s, c, n);
    }
    fn sol_get_stack_height(&self) -> u64 {
        HEIGHT.with(|h| h.get())
    }
}

fn nitrate_invoke(
    ix: &nitrate_program::cpi::CInstruction,
    _infos: &[nitrate_program::cpi::CAccountInfo],
) {
    let ix = unsafe {
        Ix {
            program: *ix.program_id,
            metas: std::slice::from_raw_parts(ix.accounts, ix.accounts_len as usize)
                .iter()
                .map(|m| Meta { key: *m.pubkey, signer: m.is_signer, writable: m.is_writable })
                .collect(),
            data: std::slice::from_raw_parts(ix.data, ix.data_len as usize).to_vec(),
        }
    };
    cpi(&ix, &[]);
}

/// Cross-program call from the top frame. Failure aborts the whole transaction.
fn cpi(ix: &Ix, seeds: &[&[&[u8]]]) {
    let caller = FRAMES.with(|f| f.borrow().last().map(|f| f.program)).expect("cpi without frame");
    let pdas: Vec<Pubkey> = seeds
        .iter()
        .map(|s| match Pubkey::create_program_address(s, &caller) {
            Ok(p) => p,
            Err(_) => abort("invalid seeds"),
        })
        .collect();
    if let Err(e) = sync_out(true) {
        abort(&e);
    }
    FRAMES.with(|f| {
        let f = f.borrow();
        let fr = f.last().unwrap();
        for m in &ix.metas {
            let Some(s) = fr.slots.iter().find(|s| s.key == m.key) else {
                abort("cpi: account not in caller");
            };
            if m.writable && !s.writable {
                abort("cpi: writable privilege escalated");
            }
            if m.signer && !s.signer && !pdas.contains(&m.key) {
                abort("cpi: signer privilege escalated");
            }
        }
        if !fr.slots.iter().any(|s| s.key == ix.program) {
            abort("cpi: unknown program");
        }
        let n = f.len();
        if f.iter().take(n - 1).any(|x| x.program == ix.program) {
            abort("cpi: reentrancy");
        }
        if HEIGHT.with(|h| h.get()) >= 5 {
            abort("cpi: call depth");
        }
    });
    HEIGHT.with(|h| h.set(h.get() + 1));
    let r = invoke(ix);
    HEIGHT.with(|h| h.set(h.get() - 1));
    if let Err(e) = r {
        abort(&e);
    }
    if let Err(e) = sync_in() {
        abort(&e);
    }
}

fn read_slot(fr: &Frame, s: &Slot) -> Result<Acct, String> {
    unsafe {
        let p = fr.buf.add(s.off);
        let owner = *(p.add(40) as *const Pubkey);
        let lamports = *(p.add(72) as *const u64);
        let len = *(p.add(80) as *const u64) as usize;
        if len > s.orig_len + MAX_GROW {
            return Err("invalid realloc".into());
        }
        let data = std::slice::from_raw_parts(p.add(88), len).to_vec();
        Ok(Acct { lamports, owner, data, exec: s.pre.exec })
    }
}

/// Verifies what the top frame changed and publishes it to the world.
fn sync_out(_mid: bool) -> Result<(), String> {
    FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        let fr = f.last_mut().unwrap();
        let program = fr.program;
        let mut updates = vec![];
        let (mut before, mut after) = (0u128, 0u128);
        for (i, s) in fr.slots.iter().enumerate() {
            let now = read_slot(fr, s)?;
            before += s.pre.lamports as u128;
            after += now.lamports as u128;
            if now == s.pre {
                continue;
            }
            if !s.writable {
                return Err(format!("read-only account modified {}", s.key));
            }
            if s.pre.exec {
                return Err("executable account modified".into());
            }
            if now.lamports < s.pre.lamports && s.pre.owner != program {
                return Err("external account lamport spend".into());
            }
            if now.data != s.pre.data && s.pre.owner != program {
                return Err("external account data modified".into());
            }
            if now.owner != s.pre.owner
                && (s.pre.owner != program || now.data.iter().any(|b| *b != 0))
            {
                return Err("modified program id".into());
            }
            updates.push((i, now));
        }
        if before != after {
            return Err("unbalanced instruction".into());
        }
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            for (i, now) in updates {
                let s = &mut fr.slots[i];
                w.accts.insert(s.key, Arc::new(now.clone()));
                s.pre = now;
            }
        });
        Ok(())
    })
}

/// Copies the world's accounts into the top frame's buffer after a cross-program call.
fn sync_in() -> Result<(), String> {
    FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        let fr = f.last_mut().unwrap();
        let buf = fr.buf;
        WORLD.with(|w| {
            let w = w.borrow();
            for s in fr.slots.iter_mut() {
                let now = w.get(&s.key);
                if now == s.pre {
                    continue;
                }
                if now.data.len() > s.orig_len + MAX_GROW {
                    return Err("cpi: account grew too much".into());
                }
                unsafe {
                    let p = buf.add(s.off);
                    *(p.add(40) as *mut Pubkey) = now.owner;
                    *(p.add(72) as *mut u64) = now.lamports;
                    let old = *(p.add(80) as *const u64) as usize;
                    *(p.add(80) as *mut u64) = now.data.len() as u64;
                    std::ptr::copy_nonoverlapping(now.data.as_ptr(), p.add(88), now.data.len());
                    if old > now.data.len() {
                        std::ptr::write_bytes(p.add(88 + now.data.len()), 0, old - now.data.len());
                    }
                }
                s.pre = now;
            }
            Ok(())
        })
    })
}

fn align8(n: usize) -> usize {
    (n + 7) & !7
}

/// Runs one instruction on the thread's world.
fn invoke(ix: &Ix) -> Result<(), String> {
    TRACE.with(|t| {
        if let Some(t) = t.borrow_mut().as_mut() {
            t.push(ix.clone());
        }
    });
    // merged privileges
    let mut metas = ix.metas.clone();
    for i in 0..metas.len() {
        for j in 0..metas.len() {
            if metas[i].key == metas[j].key {
                metas[i].signer |= metas[j].signer;
                metas[i].writable |= metas[j].writable;
            }
        }
    }
    if ix.program == system_program::ID {
        return WORLD.with(|w| system(&mut w.borrow_mut(), &metas, &ix.data));
    }
    let prog = lookup(&ix.program).ok_or("unknown program")?;
    if let Prog::Native(f) = prog {
        return WORLD.with(|w| f(&mut w.borrow_mut(), &metas, &ix.data));
    }

    // serialize the input
    let mut size = 8 + 8 + ix.data.len() + 32 + 64;
    WORLD.with(|w| {
        let w = w.borrow();
        for m in &metas {
            size += 88 + w.data(&m.key).len() + MAX_GROW + 16 + 8;
        }
    });
    let words = (size + GUARD) / 8 + 2;
    let mut store = POOL.with(|p| p.borrow_mut().pop()).unwrap_or_default();
    if store.len() < words {
        store.resize(words, 0);
    }
    store[..size / 8 + 2].fill(0);
    let buf = store.as_mut_ptr() as *mut u8;
    let mut slots: Vec<Slot> = Vec::with_capacity(metas.len());
    let mut o = 0usize;
    unsafe {
        *(buf as *mut u64) = metas.len() as u64;
        o += 8;
        WORLD.with(|w| {
            let w = w.borrow();
            let mut first: Vec<(Pubkey, usize)> = vec![];
            for (i, m) in metas.iter().enumerate() {
                if let Some((_, j)) = first.iter().find(|x| x.0 == m.key) {
                    *buf.add(o) = *j as u8;
                    o += 8;
                    continue;
                }
                first.push((m.key, i));
                let a = w.get(&m.key);
                let p = buf.add(o);
                *p = 0xff;
                *p.add(1) = m.signer as u8;
                *p.add(2) = m.writable as u8;
                *p.add(3) = a.exec as u8;
                *(p.add(8) as *mut Pubkey) = m.key;
                *(p.add(40) as *mut Pubkey) = a.owner;
                *(p.add(72) as *mut u64) = a.lamports;
                *(p.add(80) as *mut u64) = a.data.len() as u64;
                std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(88), a.data.len());
                slots.push(Slot {
                    key: m.key,
                    off: o,
                    signer: m.signer,
                    writable: m.writable,
                    orig_len: a.data.len(),
                    pre: a,
                });
                o += 88 + slots.last().unwrap().orig_len + MAX_GROW;
                o = align8(o);
                *(buf.add(o) as *mut u64) = 0;
                o += 8;
            }
        });
        *(buf.add(o) as *mut u64) = ix.data.len() as u64;
        o += 8;
        std::ptr::copy_nonoverlapping(ix.data.as_ptr(), buf.add(o), ix.data.len());
        o += ix.data.len();
        *(buf.add(o) as *mut [u8; 32]) = ix.program.to_bytes();
        o += 32;
    }
    debug_assert!(o <= size);
    FRAMES.with(|f| {
        f.borrow_mut().push(Frame { program: ix.program, buf, len: size, slots });
    });
    let depth = FRAMES.with(|f| f.borrow().len());

    let run = catch_unwind(AssertUnwindSafe(|| unsafe {
        match prog {
            Prog::Asset => {
                match asset_program::entrypoint::entrypoint(buf) {
                    0 => Ok(()),
                    e => Err(solana_program::program_error::ProgramError::from(e)),
                }
            }
            Prog::Sol(f) => {
                let (pid, accounts, data) = solana_program::entrypoint::deserialize(buf);
                let pid: &'static Pubkey = std::mem::transmute(pid);
                let accounts: Vec<AccountInfo<'static>> = std::mem::transmute(accounts);
                let slice: &'static [AccountInfo<'static>] = std::mem::transmute(accounts.as_slice());
                let r = f(pid, slice, data);
                drop(accounts);
                r
            }
            Prog::Native(_) => unreachable!(),
        }
    }));
    // a panic may have left deeper frames behind
    FRAMES.with(|f| f.borrow_mut().truncate(depth));
    let result = match run {
        _ if ABORT.with(|a| a.get()) => Err(WHY.with(|w| w.borrow().clone())),
        Err(_) => {
            ABORT.with(|a| a.set(true));
            Err("program panicked".to_string())
        }
        Ok(Err(e)) => Err(format!("{e:?}")),
        Ok(Ok(())) => sync_out(false),
    };
    FRAMES.with(|f| f.borrow_mut().pop());
    POOL.with(|p| p.borrow_mut().push(store));
    result
}

fn u64_at(d: &[u8], o: usize) -> Result<u64, String> {
    d.get(o..o + 8)
        .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
        .ok_or_else(|| "system: bad data".to_string())
}

fn sys_transfer(w: &mut World, from: &Meta, to: &Meta, amount: u64) -> Result<(), String> {
    let mut a = w.get(&from.key);
    if !from.signer || !from.writable || !to.writable {
        return Err("system: missing privilege".into());
    }
    if !a.data.is_empty() || a.owner != system_program::ID {
        return Err("system: from must not carry data".into());
    }
    if a.lamports < amount {
        return Err("system: insufficient funds".into());
    }
    if a.exec || w.get(&to.key).exec {
        return Err("system: executable".into());
    }
    a.lamports -= amount;
    w.set(from.key, a);
    let mut b = w.get(&to.key);
    b.lamports += amount;
    w.set(to.key, b);
    Ok(())
}

fn system(w: &mut World, m: &[Meta], d: &[u8]) -> Result<(), String> {
    let op = d.get(0..4).ok_or("system: bad data")?;
    let need = |n: usize| if m.len() < n { Err("system: accounts".to_string()) } else { Ok(()) };
    match u32::from_le_bytes(op.try_into().unwrap()) {
        0 => {
            need(2)?;
            let (lamports, space) = (u64_at(d, 4)?, u64_at(d, 12)?);
            let owner = Pubkey::try_from(d.get(20..52).ok_or("system: bad data")?).unwrap();
            let to = w.get(&m[1].key);
            if to.lamports > 0 {
                return Err("system: account in use".into());
            }
            if !m[1].signer || !m[1].writable {
                return Err("system: new account must sign".into());
            }
            if !to.data.is_empty() || to.owner != system_program::ID || space > 10 * 1024 * 1024 {
                return Err("system: cannot allocate".into());
            }
            let mut to = to;
            to.data = vec![0; space as usize];
            to.owner = owner;
            w.set(m[1].key, to);
            sys_transfer(w, &m[0], &m[1], lamports)
        }
        1 => {
            need(1)?;
            let owner = Pubkey::try_from(d.get(4..36).ok_or("system: bad data")?).unwrap();
            let mut a = w.get(&m[0].key);
            if !m[0].signer || !m[0].writable || a.owner != system_program::ID {
                return Err("system: assign".into());
            }
            a.owner = owner;
            w.set(m[0].key, a);
            Ok(())
        }
        2 => {
            need(2)?;
            sys_transfer(w, &m[0], &m[1], u64_at(d, 4)?)
        }
        8 => {
            need(1)?;
            let space = u64_at(d, 4)?;
            let mut a = w.get(&m[0].key);
            if !m[0].signer
                || !m[0].writable
                || a.owner != system_program::ID
                || !a.data.is_empty()
                || space > 10 * 1024 * 1024
            {
                return Err("system: allocate".into());
            }
            a.data = vec![0; space as usize];
            w.set(m[0].key, a);
            Ok(())
        }
        _ => Err("system: unsupported".into()),
    }
}

static INIT: Once = Once::new();

pub fn init() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let _ = nitrate_program::NATIVE_INVOKE.set(nitrate_invoke);
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !IN_VM.with(|v| v.get()) {
                old(i)
            }
        }));
        register(asset_program::ID, Prog::Asset);
        crate::proxy::init();
    });
}

/// Executes a transaction; on success returns the new world. `height` is the stack height of the
/// instructions (1 = top level, 2 = as if issued by another program).
pub fn exec(world: &World, ixs: &[Ix], height: u64) -> Result<World, String> {
    init();
    ABORT.with(|a| a.set(false));
    HEIGHT.with(|h| h.set(height));
    FRAMES.with(|f| f.borrow_mut().clear());
    IN_VM.with(|v| v.set(true));
    WORLD.with(|w| *w.borrow_mut() = world.clone());
    // message-wide privileges
    let mut flags: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    for m in ixs.iter().flat_map(|i| i.metas.iter()) {
        let f = flags.entry(m.key).or_default();
        f.0 |= m.signer;
        f.1 |= m.writable;
    }
    let mut result = Ok(());
    for ix in ixs {
        let mut ix = ix.clone();
        if height == 1 {
            for m in ix.metas.iter_mut() {
                let f = flags[&m.key];
                m.signer = f.0;
                m.writable = f.1;
            }
        }
        result = invoke(&ix);
        if result.is_err() {
            break;
        }
    }
    IN_VM.with(|v| v.set(false));
    result?;
    let mut out = WORLD.with(|w| std::mem::take(&mut *w.borrow_mut()));
    // rent state
    for (k, f) in &flags {
        if !f.1 {
            continue;
        }
        let (pre, post) = (world.get(k), out.get(k));
        if post.lamports > 0 && post.lamports < rent(post.data.len()) {
            let was_paying = pre.lamports > 0
                && pre.lamports < rent(pre.data.len())
                && pre.data.len() == post.data.len()
                && post.lamports <= pre.lamports;
            if !was_paying {
                return Err(format!("insufficient funds for rent: {k}"));
            }
        }
    }
    out.accts.retain(|_, a| a.lamports > 0);
    Ok(out)
}

/// Runs `f` with panic messages suppressed.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            IN_VM.with(|v| v.set(self.0));
        }
    }
    let _r = Reset(IN_VM.with(|v| v.replace(true)));
    f()
}

/// Runs `f`; a panic becomes `None`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    init();
    quiet(|| catch_unwind(AssertUnwindSafe(f)).ok())
}
