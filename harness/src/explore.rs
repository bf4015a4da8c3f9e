//! Exhaustive breadth-first exploration of all call sequences from a set of initial worlds.

use crate::{
    judge::{invariants, judge, Bad},
    op::Call,
    spec::{Out, Tags},
    vm::World,
};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    sync::{
        atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::*},
        Mutex,
    },
};

/// How an instruction reaches the asset program.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Via {
    /// sent to the asset program (at the given stack height)
    Direct,
    /// sent to a program that forwards it with the library's interface processor
    Forward,
    /// sent to the example proxy program
    Proxy,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub call: Call,
    pub height: u64,
    pub via: Via,
    /// seconds that pass before it
    pub dt: i64,
    /// properties that any divergence here concerns too
    pub also: Tags,
}

impl From<Call> for Tx {
    fn from(call: Call) -> Tx {
        Tx { call, height: 1, via: Via::Direct, dt: 0, also: 0 }
    }
}

impl Tx {
    pub fn cpi(mut self) -> Tx {
        self.height = 2;
        self
    }
    pub fn via(mut self, v: Via) -> Tx {
        self.via = v;
        self
    }
}

pub type Alphabet = Box<dyn Fn(&World) -> Vec<Tx> + Sync + Send>;

pub struct Scenario {
    pub name: String,
    pub tags: Tags,
    pub inits: Vec<(String, World)>,
    pub alphabet: Alphabet,
    /// number of steps; usize::MAX = until no new state appears
    pub depth: usize,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub message: String,
    pub replay: String,
    pub locator: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub must_fail: u64,
    pub must_succeed: u64,
    pub open: u64,
    pub depth: u64,
    pub closed: bool,
    /// complete histories (branches of the search tree) executed on the implementation
    pub traces: u64,
    pub kinds: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.accepted += o.accepted;
        self.must_fail += o.must_fail;
        self.must_succeed += o.must_succeed;
        self.open += o.open;
        self.depth = self.depth.max(o.depth);
        self.traces += o.traces;
        for (k, v) in &o.kinds {
            let e = self.kinds.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
        for s in &o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s.clone());
            }
        }
    }
}

// ---- watchdog -------------------------------------------------------------------------------

struct Watch {
    seq: AtomicU64,
    w: AtomicPtr<World>,
    call: AtomicPtr<Call>,
    out: AtomicPtr<Out>,
    note: AtomicPtr<Note>,
}

/// A case of an enumeration.
pub struct Note {
    pub tags: Tags,
    pub name: &'static str,
    pub index: usize,
}
const NT: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const W0: Watch = Watch {
    seq: AtomicU64::new(0),
    w: AtomicPtr::new(std::ptr::null_mut()),
    call: AtomicPtr::new(std::ptr::null_mut()),
    out: AtomicPtr::new(std::ptr::null_mut()),
    note: AtomicPtr::new(std::ptr::null_mut()),
};
static WATCH: [Watch; NT] = [W0; NT];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static MASK: AtomicU64 = AtomicU64::new(0);
static PROP: Mutex<String> = Mutex::new(String::new());

thread_local! {
    static ME: usize = NEXT.fetch_add(1, SeqCst) % NT;
}

pub fn watch(w: &World, call: &Call, out: &Out) {
    BUSY.with(|b| b.set(true));
    ME.with(|i| {
        let s = &WATCH[*i];
        s.w.store(w as *const _ as *mut _, Relaxed);
        s.call.store(call as *const _ as *mut _, Relaxed);
        s.out.store(out as *const _ as *mut _, Relaxed);
        s.seq.fetch_add(1, Release);
    })
}

/// Whether any of the properties is being checked.
pub fn wants(tags: crate::spec::Tags) -> bool {
    let m = MASK.load(Relaxed);
    m == 0 || m & tags as u64 != 0
}

/// What reading a stored account has to do.
fn reading() -> &'static Out {
    static R: std::sync::OnceLock<Out> = std::sync::OnceLock::new();
    R.get_or_init(|| Out { live: crate::spec::P05 | crate::spec::P19, ..Out::default() })
}

pub fn watch_note(n: &Note) {
    BUSY.with(|b| b.set(true));
    ME.with(|i| {
        let s = &WATCH[*i];
        s.note.store(n as *const _ as *mut _, Relaxed);
        s.seq.fetch_add(1, Release);
    })
}

pub fn unwatch() {
    BUSY.with(|b| b.set(false));
    ME.with(|i| {
        let s = &WATCH[*i];
        s.note.store(std::ptr::null_mut(), Release);
        s.w.store(std::ptr::null_mut(), Release);
        s.seq.fetch_add(1, Release);
    })
}

/// The code under test crashed or hangs in the call of watch slot `i`: it neither succeeded nor
/// failed in an orderly way. On chain this is a failed transaction.
unsafe fn last_words(i: usize, how: &str) -> ! {
    let s = &WATCH[i];
    let (w, c, o) = (s.w.load(SeqCst), s.call.load(SeqCst), s.out.load(SeqCst));
    let n = s.note.load(SeqCst);
    if !n.is_null() {
        let n = &*n;
        let prop = PROP.lock().map(|p| p.clone()).unwrap_or_default();
        if n.tags as u64 & MASK.load(SeqCst) != 0 {
            let path = crate::report::save_replay(&prop, &format!("{how}\nenumeration={} index={}", n.name, n.index));
            println!("VIOLATION property={prop} replay={path}");
            println!("{how}: {} case {}", n.name, n.index);
            std::process::exit(1);
        }
        eprintln!("error: {how} in {} case {}", n.name, n.index);
        std::process::exit(2);
    }
    if w.is_null() || c.is_null() || o.is_null() {
        eprintln!("error: {how} outside of the code under test");
        std::process::exit(2);
    }
    let (w, c, o) = (&*w, &*c, &*o);
    let prop = PROP.lock().map(|p| p.clone()).unwrap_or_default();
    let text = format!(
        "{how} in\n{}\non\n{}",
        call_text(c),
        world_text(w)
    );
    if o.must_succeed() && (o.live as u64) & MASK.load(SeqCst) != 0 {
        let path = crate::report::save_replay(&prop, &format!("{how}\n{text}"));
        println!("VIOLATION property={prop} replay={path}");
        println!("{how}: {}", c.ins.name());
        std::process::exit(1);
    }
    // a failed transaction as far as this property goes: start again, with this call failing
    let mut skip = skips().clone();
    if skip.len() < 8 {
        skip.push(call_mark(w, c));
        let list: Vec<String> = skip.iter().map(|x| x.to_string()).collect();
        let mut none: libc::sigset_t = std::mem::zeroed();
        libc::sigemptyset(&mut none);
        libc::sigprocmask(libc::SIG_SETMASK, &none, std::ptr::null_mut());
        use std::os::unix::process::CommandExt;
        let mut a = std::env::args_os();
        let e = std::process::Command::new(a.next().unwrap()).args(a).env("VP_SKIP", list.join(",")).exec();
        eprintln!("error: {e}");
    }
    eprintln!("error: {text}");
    std::process::exit(2);
}

/// Calls that crashed or did not return in an earlier attempt.
fn skips() -> &'static Vec<u64> {
    static S: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        std::env::var("VP_SKIP").map_or(vec![], |v| v.split(',').filter_map(|x| x.parse().ok()).collect())
    })
}

fn call_mark(w: &World, c: &Call) -> u64 {
    let mut m = Mix(1, 2);
    m.bytes(call_text(c).as_bytes());
    let d = digest(w);
    (m.0 ^ m.1.rotate_left(17)) ^ d as u64 ^ (d >> 64) as u64
}

/// Whether the call on this world is known to crash or hang (a failed transaction).
pub fn crashes(w: &World, c: &Call) -> bool {
    let s = skips();
    !s.is_empty() && s.contains(&call_mark(w, c))
}

/// Stops calls that would take all memory.
pub struct Limit;
thread_local! {
    static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
const MOST: usize = 1 << 28;
fn too_much(size: usize) {
    if size >= MOST && BUSY.try_with(|b| b.replace(false)).unwrap_or(false) {
        let i = ME.try_with(|i| *i).unwrap_or(0);
        unsafe { last_words(i, "no termination (memory)") }
    }
}
unsafe impl std::alloc::GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        too_much(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        too_much(l.size());
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        too_much(n);
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}

extern "C" fn on_signal(sig: i32) {
    let i = ME.try_with(|i| *i).unwrap_or(0);
    unsafe { last_words(i, &format!("crash (signal {sig})")) }
}

pub fn start_watchdog(prop: &str, mask: Tags) {
    *PROP.lock().unwrap() = prop.to_string();
    MASK.store(mask as u64, SeqCst);
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::thread::spawn(|| {
        let mut last = [(0u64, 0u32); NT];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(1000));
            for i in 0..NT {
                let n = WATCH[i].seq.load(Acquire);
                let busy = !WATCH[i].w.load(Acquire).is_null() || !WATCH[i].note.load(Acquire).is_null();
                if n == last[i].0 && busy {
                    last[i].1 += 1;
                    if last[i].1 >= 15 {
                        unsafe { last_words(i, "no termination") }
                    }
                } else {
                    last[i] = (n, 0);
                }
            }
        }
    });
}

// ---- texts ----------------------------------------------------------------------------------

pub fn call_text(c: &Call) -> String {
    let slots = c.ins.slots();
    let mut s = format!("{:?}\n", c.ins);
    for (i, m) in c.metas.iter().enumerate() {
        s += &format!(
            "    {}: {}{}{}\n",
            slots.get(i).map_or("extra", |x| x.0),
            crate::keys::name(&m.key),
            if m.signer { " signer" } else { "" },
            if m.writable { " writable" } else { "" },
        );
    }
    s
}

pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

pub fn world_text(w: &World) -> String {
    let mut s = format!("  clock {}\n", w.clock);
    for (k, n) in &w.elsewhere {
        s += &format!("  {n} more members of {}\n", crate::keys::name(k));
    }
    for (k, a) in &w.accts {
        if (a.lamports == crate::scenarios::RICH && a.data.is_empty() && a.owner == solana_program::system_program::ID)
            || a.exec
        {
            continue;
        }
        s += &format!(
            "  account {} ({k}) lamports={} owner={} data={}\n",
            crate::keys::name(k),
            a.lamports,
            crate::keys::name(&a.owner),
            hex(&a.data)
        );
    }
    s
}

pub fn brief(t: &Tx) -> String {
    let a: Vec<String> = t
        .call
        .metas
        .iter()
        .map(|m| format!("{}{}", crate::keys::name(&m.key), if m.signer { "*" } else { "" }))
        .collect();
    let mut d = format!("{:?}", t.call.ins);
    if d.len() > 120 {
        d = format!("{}…", d.chars().take(110).collect::<String>());
    }
    format!("{d} ({}){}", a.join(","), if t.height > 1 { " via cpi".to_string() } else if t.via != Via::Direct { format!(" via {:?}", t.via) } else { String::new() })
}

// ---- search ---------------------------------------------------------------------------------

/// 128-bit digest of a world.
pub struct Mix(u64, u64);
impl Mix {
    pub fn of(b: &[u8]) -> u128 {
        let mut m = Mix(0x243f_6a88_85a3_08d3, 0x1319_8a2e_0370_7344);
        m.bytes(b);
        m.word(1);
        m.word(2);
        ((m.0 as u128) << 64) | m.1 as u128
    }
    fn word(&mut self, x: u64) {
        let m = ((self.0 ^ x) as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835);
        self.0 = (m as u64) ^ (m >> 64) as u64 ^ self.0.rotate_left(23);
        let m = (self.1.wrapping_add(x) as u128 | 1 << 64).wrapping_mul(0xd6e8_feb8_6659_fd93_a076_1d64_78bd_642f);
        self.1 = (m as u64).rotate_left(31) ^ (m >> 64) as u64;
    }
    fn bytes(&mut self, b: &[u8]) {
        self.word(b.len() as u64);
        let mut c = b.chunks_exact(8);
        for x in &mut c {
            self.word(u64::from_le_bytes(x.try_into().unwrap()));
        }
        let mut t = [0u8; 8];
        t[..c.remainder().len()].copy_from_slice(c.remainder());
        self.word(u64::from_le_bytes(t));
    }
}

pub fn digest(w: &World) -> u128 {
    let mut m = Mix(0x243f_6a88_85a3_08d3, 0x1319_8a2e_0370_7344);
    m.word(w.clock as u64);
    for (k, a) in &w.accts {
        m.bytes(k.as_ref());
        m.word(a.lamports);
        m.bytes(a.owner.as_ref());
        m.word(a.exec as u64);
        m.bytes(&a.data);
    }
    m.word(1);
    m.word(2);
    ((m.0 as u128) << 64) | m.1 as u128
}

/// Digests seen so far.
struct Seen(Vec<Mutex<HashSet<u128>>>);
impl Seen {
    fn new() -> Seen {
        Seen((0..256).map(|_| Mutex::new(HashSet::new())).collect())
    }
    fn insert(&self, h: u128) -> bool {
        self.0[(h >> 120) as usize].lock().unwrap().insert(h)
    }
}

/// Wallets of the initial world are topped up (or drained) to their initial balance after each
/// step, which every user can do with a plain system transfer.
fn refill(init: &World, w: &mut World) {
    for (k, a) in &init.accts {
        if a.owner == solana_program::system_program::ID && a.data.is_empty() {
            match w.accts.get_mut(k) {
                None => {
                    w.accts.insert(*k, a.clone());
                }
                Some(x) if x.owner == a.owner && x.data.is_empty() => {
                    if x.lamports != a.lamports {
                        *x = a.clone();
                    }
                }
                _ => (),
            }
        }
    }
}

struct Node {
    parent: usize,
    tx: usize,
    init: usize,
}

struct Local {
    stats: Stats,
    cand: Vec<(usize, usize, World)>,
    bad: Vec<(usize, usize, Bad)>,
}

pub fn threads() -> usize {
    std::env::var("VP_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    })
}

pub fn explore(sc: &Scenario, mask: Tags) -> (Stats, Vec<Found>) {
    let mut stats = Stats::default();
    let mut found: Vec<Found> = vec![];
    let mut nodes: Vec<Node> = vec![];
    let seen = Seen::new();
    let mut frontier: Vec<(usize, World)> = vec![];
    for (i, (label, w)) in sc.inits.iter().enumerate() {
        let none = Call { ins: crate::op::Ins::Raw(vec![], "reading the initial world"), metas: vec![] };
        watch(w, &none, reading());
        let inv = if crashes(w, &none) { vec![] } else { invariants(w) };
        unwatch();
        for (t, m) in inv {
            if t & mask != 0 {
                found.push(Found {
                    message: format!("initial world {label}: {m}"),
                    replay: world_text(w),
                    locator: format!("{}/init{i}", sc.name),
                });
            }
        }
        if seen.insert(digest(w)) {
            nodes.push(Node { parent: usize::MAX, tx: 0, init: i });
            frontier.push((nodes.len() - 1, w.clone()));
        }
    }
    stats.states = nodes.len() as u64;
    let mut depth = 0;
    while !frontier.is_empty() && depth < sc.depth && found.is_empty() {
        let next = AtomicUsize::new(0);
        let results: Mutex<Vec<Local>> = Mutex::new(vec![]);
        let (f, s, nd) = (&frontier, &seen, &nodes);
        std::thread::scope(|scope| {
            for _ in 0..threads().min(f.len()) {
                scope.spawn(|| {
                    let mut l =
                        Local { stats: Stats::default(), cand: vec![], bad: vec![] };
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= f.len() {
                            break;
                        }
                        let (n, w) = &f[i];
                        let init = &sc.inits[nd[*n].init].1;
                        for (ti, tx) in (sc.alphabet)(w).iter().enumerate() {
                            let v = judge(w, tx);
                            l.stats.transitions += 1;
                            let kind = l.stats.kinds.entry(tx.call.ins.name().to_string()).or_default();
                            if v.out.must_fail() {
                                l.stats.must_fail += 1;
                            } else if v.out.must_succeed() {
                                l.stats.must_succeed += 1;
                            } else {
                                l.stats.open += 1;
                            }
                            let clean = v.bad.is_empty();
                            if !clean {
                                let b: Bad = v.bad.into_iter().filter(|b| b.0 & mask != 0).collect();
                                if !b.is_empty() {
                                    l.bad.push((*n, ti, b));
                                }
                            }
                            let Some(mut w2) = v.next else {
                                kind.1 += 1;
                                continue;
                            };
                            kind.0 += 1;
                            l.stats.accepted += 1;
                            if !clean || v.out.no_post {
                                continue;
                            }
                            refill(init, &mut w2);
                            let h = digest(&w2);
                            if !s.insert(h) {
                                continue;
                            }
                            if crashes(&w2, &tx.call) {
                                continue;
                            }
                            watch(&w2, &tx.call, reading());
                            let inv = invariants(&w2);
                            unwatch();
                            if !inv.is_empty() {
                                let b: Bad = inv.into_iter().filter(|b| b.0 & mask != 0).collect();
                                if !b.is_empty() {
                                    l.bad.push((*n, ti, b));
                                }
                                continue;
                            }
                            l.cand.push((*n, ti, w2));
                        }
                    }
                    results.lock().unwrap().push(l);
                });
            }
        });
        let mut cand = vec![];
        let mut bad = vec![];
        for l in results.into_inner().unwrap() {
            stats.add(&l.stats);
            cand.extend(l.cand);
            bad.extend(l.bad);
        }
        bad.sort_by_key(|b| (b.0, b.1));
        for (n, ti, b) in bad.iter().take(40) {
            let (path, text) = trace(sc, &nodes, *n, Some(*ti));
            let msg = b.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("; ");
            found.push(Found {
                message: msg.clone(),
                replay: format!("{msg}\n{text}"),
                locator: path,
            });
        }
        depth += 1;
        cand.sort_by_key(|c| (c.0, c.1));
        frontier = vec![];
        for (n, ti, w) in cand {
            nodes.push(Node { parent: n, tx: ti, init: nodes[n].init });
            frontier.push((nodes.len() - 1, w));
        }
        stats.states = nodes.len() as u64;
    }
    stats.depth = depth as u64;
    stats.closed = frontier.is_empty() && found.is_empty();
    let mut inner = vec![false; nodes.len()];
    for n in &nodes {
        if n.parent != usize::MAX {
            inner[n.parent] = true;
        }
    }
    stats.traces = inner.iter().filter(|x| !**x).count() as u64;
    if stats.samples.len() < 2 && nodes.len() > 1 {
        for n in [nodes.len() - 1, nodes.len() / 2] {
            stats.samples.push(sample(sc, &nodes, n));
        }
    }
    (stats, found)
}

fn path_of(nodes: &[Node], mut n: usize) -> (usize, Vec<usize>) {
    let init = nodes[n].init;
    let mut v = vec![];
    while nodes[n].parent != usize::MAX {
        v.push(nodes[n].tx);
        n = nodes[n].parent;
    }
    v.reverse();
    (init, v)
}

fn sample(sc: &Scenario, nodes: &[Node], n: usize) -> String {
    let (init, path) = path_of(nodes, n);
    let mut w = sc.inits[init].1.clone();
    let mut s = format!("{} from {}:", sc.name, sc.inits[init].0);
    for ti in path {
        let tx = (sc.alphabet)(&w)[ti].clone();
        s += &format!(" {};", brief(&tx));
        match judge(&w, &tx).next {
            Some(x) => w = x,
            None => break,
        }
        refill(&sc.inits[init].1, &mut w);
    }
    s
}

fn trace(sc: &Scenario, nodes: &[Node], n: usize, last: Option<usize>) -> (String, String) {
    let (init, mut path) = path_of(nodes, n);
    path.extend(last);
    let loc = format!(
        "{}/{}/{}",
        sc.name,
        init,
        path.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(",")
    );
    let text = follow(sc, init, &path).0;
    (loc.clone(), format!("scenario={} init={init} path={}\n{text}", sc.name, loc.rsplit('/').next().unwrap()))
}

/// Re-executes a path step by step; returns the text and everything judged wrong on it.
pub fn follow(sc: &Scenario, init: usize, path: &[usize]) -> (String, Bad) {
    let i = &sc.inits[init];
    let mut w = i.1.clone();
    let mut s = format!("initial world: {}\n{}", i.0, world_text(&w));
    let mut all = vec![];
    for (n, ti) in path.iter().enumerate() {
        let txs = (sc.alphabet)(&w);
        let Some(tx) = txs.get(*ti) else {
            s += "step not available\n";
            break;
        };
        s += &format!("step {}: stack height {} {:?}\n  {}", n + 1, tx.height, tx.via, call_text(&tx.call));
        s += &format!("  data: {}\n", hex(&tx.call.ins.encode()));
        let v = judge(&w, tx);
        s += &format!(
            "  reference: {}\n",
            if v.out.must_fail() {
                format!("must fail {:?}", v.out.fail.iter().map(|x| x.1).collect::<Vec<_>>())
            } else if v.out.must_succeed() {
                "must succeed".into()
            } else {
                format!("open {:?}", v.out.may)
            }
        );
        match v.next {
            None => s += &format!("  result: refused ({})\n", v.err.unwrap_or_default()),
            Some(x) => {
                s += "  result: ok\n";
                w = x;
            }
        }
        for b in &v.bad {
            s += &format!("  WRONG: {}\n", b.1);
        }
        all.extend(v.bad);
        refill(&i.1, &mut w);
        let inv = invariants(&w);
        for b in &inv {
            s += &format!("  INVARIANT BROKEN: {}\n", b.1);
        }
        all.extend(inv);
    }
    s += &format!("final world:\n{}", world_text(&w));
    (s, all)
}

pub type Named = HashMap<String, u64>;
