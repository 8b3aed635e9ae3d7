//! Stateless, deviation-bounded model checker.
//!
//! An *execution* is a deterministic function of the answers it gets from `Ch::free` (data choices,
//! always enumerated completely) and `Ch::dev` (environment/scheduling choices whose default, 0, is free
//! and whose other answers cost one deviation).  `run_check` enumerates every execution whose number
//! of deviations is within the bound: for every scenario, every sequence of answers.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- counting allocator

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static SLOT: Cell<*const AtomicI64> = const { Cell::new(std::ptr::null()) };
}
#[inline]
fn account(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = SLOT.try_with(|s| {
            let p = s.get();
            if !p.is_null() {
                unsafe { (*p).store(v, Relaxed) }
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[allow(dead_code)]
pub fn live_bytes() -> i64 {
    LIVE.with(|l| l.get())
}
#[allow(dead_code)]
pub fn reset_peak() -> i64 {
    let v = live_bytes();
    PEAK.with(|p| p.set(v));
    v
}
#[allow(dead_code)]
pub fn peak_bytes() -> i64 {
    PEAK.with(|p| p.get())
}

// ---------------------------------------------------------------- choices

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pt {
    pub c: u32,
    pub n: u32,
    pub dev: bool,
}

pub struct ChI {
    prefix: Vec<Pt>,
    log: Vec<Pt>,
    devs: u32,
    bound: u32,
    fp: u64,
    trans: u64,
    states: Vec<u64>,
    trace: Option<Vec<String>>,
    diverged: bool,
}

#[derive(Clone)]
pub struct Ch(pub Rc<RefCell<ChI>>);

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_add(0x9E3779B97F4A7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    x ^= x >> 32;
    x = x.wrapping_mul(0xd6e8feb86659fd93);
    x ^= x >> 32;
    x
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}

pub struct Diverged;

impl Ch {
    fn new(prefix: Vec<Pt>, bound: u32, trace: bool) -> Ch {
        Ch(Rc::new(RefCell::new(ChI {
            prefix,
            log: Vec::with_capacity(64),
            devs: 0,
            bound,
            fp: 0,
            trans: 0,
            states: Vec::with_capacity(64),
            trace: if trace { Some(vec![]) } else { None },
            diverged: false,
        })))
    }
    fn pick(&self, n: usize, dev: bool, label: &str) -> usize {
        assert!(n > 0, "harness: empty choice {label}");
        if n == 1 {
            return 0;
        }
        let mut s = self.0.borrow_mut();
        // an environment choice is not a choice any more once the bound is used up; this has to be
        // decided before the prefix is consulted, which does not contain such points either
        if dev && s.devs >= s.bound {
            return 0;
        }
        let pos = s.log.len();
        let c;
        if pos < s.prefix.len() {
            let p = s.prefix[pos];
            if p.n != n as u32 || p.dev != dev {
                s.diverged = true;
                if std::env::var_os("HMC_BT").is_some() {
                    eprintln!("diverged at choice {pos} ({label}): recorded {p:?}, now n={n} dev={dev}");
                }
                drop(s);
                std::panic::panic_any(Diverged);
            }
            c = p.c;
        } else {
            c = 0;
        }
        if dev && c != 0 {
            s.devs += 1;
        }
        s.log.push(Pt { c, n: n as u32, dev });
        s.fp = mix(s.fp, (c as u64) << 32 | n as u64);
        s.trans += 1;
        if let Some(t) = s.trace.as_mut() {
            t.push(format!("choose {label}: {c} of {n}"));
        }
        c as usize
    }
    /// Data choice: every value is explored.
    pub fn free(&self, n: usize, label: &str) -> usize {
        self.pick(n, false, label)
    }
    /// Environment/schedule choice: 0 is the default, everything else costs one deviation.
    pub fn dev(&self, n: usize, label: &str) -> usize {
        self.pick(n, true, label)
    }
    pub fn may_deviate(&self) -> bool {
        let s = self.0.borrow();
        s.log.len() < s.prefix.len() || s.devs < s.bound
    }
    /// Records one observable step; the running fingerprint identifies the state reached.
    pub fn step(&self, v: u64) {
        let mut s = self.0.borrow_mut();
        s.fp = mix(s.fp, v);
        s.trans += 1;
        let f = s.fp;
        s.states.push(f);
    }
    pub fn steps(&self) -> u64 {
        self.0.borrow().trans
    }
    pub fn tracing(&self) -> bool {
        self.0.borrow().trace.is_some()
    }
    pub fn log(&self, f: impl FnOnce() -> String) {
        let on = self.0.borrow().trace.is_some();
        if on {
            let m = f();
            self.0.borrow_mut().trace.as_mut().unwrap().push(m);
        }
    }
    pub fn devs(&self) -> u32 {
        self.0.borrow().devs
    }
}

// ---------------------------------------------------------------- checks

/// `Ok(outcome hash)` or a violation: (signature, message).
pub type ExecResult = Result<u64, Viol>;
#[derive(Debug, Clone)]
pub struct Viol {
    /// stable identification of *what* fails (used to match known findings)
    pub sig: String,
    pub msg: String,
}
pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}

pub struct Scenario {
    pub name: String,
    pub bound: u32,
    pub run: Box<dyn Fn(&Ch) -> ExecResult + Send + Sync>,
}
pub fn scenario(
    name: impl Into<String>,
    bound: u32,
    run: impl Fn(&Ch) -> ExecResult + Send + Sync + 'static,
) -> Scenario {
    Scenario { name: name.into(), bound, run: Box::new(run) }
}

pub struct Check {
    pub id: &'static str,
    pub scenarios: Vec<Scenario>,
    pub rule: String,
    pub assumptions: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static CURRENT: RefCell<Option<(String, &'static str, Vec<Pt>)>> = const { RefCell::new(None) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let bt = if std::env::var_os("HMC_BT").is_some() {
            format!("\n{}", std::backtrace::Backtrace::force_capture())
        } else {
            String::new()
        };
        let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = format!("{m} ({loc}){bt}"));
    }));
}

struct RunOut {
    res: ExecResult,
    log: Vec<Pt>,
    trans: u64,
    states: Vec<u64>,
    trace: Vec<String>,
    devs: u32,
    diverged: bool,
}

fn run_one(sc: &Scenario, prefix: &[Pt], bound: u32, trace: bool) -> RunOut {
    let ch = Ch::new(prefix.to_vec(), bound, trace);
    let r = catch_unwind(AssertUnwindSafe(|| (sc.run)(&ch)));
    let mut s = ch.0.borrow_mut();
    let res = match r {
        Ok(r) => r,
        Err(p) => {
            if p.downcast_ref::<Diverged>().is_some() {
                s.diverged = true;
                viol("diverged", "diverged while replaying a prefix")
            } else {
                let m = PANIC_MSG.with(|p| p.borrow().clone());
                viol(format!("panic in {}", sc.name), format!("panic: {m}"))
            }
        }
    };
    if s.log.len() < s.prefix.len() {
        // an execution that ended before consuming its prefix is a divergence too
        s.diverged = true;
    }
    RunOut {
        res,
        log: std::mem::take(&mut s.log),
        trans: s.trans,
        states: std::mem::take(&mut s.states),
        trace: s.trace.take().unwrap_or_default(),
        devs: s.devs,
        diverged: s.diverged,
    }
}

struct Found {
    scen: usize,
    choices: Vec<Pt>,
    bound: u32,
    v: Viol,
    devs: u32,
}

#[derive(Default)]
struct Agg {
    execs: u64,
    trans: u64,
    states: HashSet<u64>,
    states_over: u64,
    outcomes: HashSet<u64>,
    nontrivial: HashSet<u64>,
    per_scen: BTreeMap<usize, (u64, u64)>,
    max_choices: usize,
    max_devs: u32,
}

const STATE_CAP: usize = 1_500_000;

struct Pool {
    jobs: Mutex<Vec<(usize, Vec<Pt>)>>,
    pending: AtomicUsize,
    hungry: AtomicUsize,
    stop: AtomicBool,
}

struct WSlot {
    start_ms: AtomicU64, // 0 = idle
    live: AtomicI64,
    cur: Mutex<(usize, Vec<Pt>)>,
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn known_findings(id: &str) -> Vec<(String, String)> {
    // lines:  KNOWN property=<id> sig="<signature>" <description>
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) {
        for l in s.lines() {
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("KNOWN ") {
                if let Some(rest) = rest.strip_prefix(&format!("property={id} ")) {
                    if let Some(rest) = rest.strip_prefix("sig=\"") {
                        if let Some(i) = rest.find('"') {
                            out.push((rest[..i].to_string(), rest[i + 1..].trim().to_string()));
                        }
                    }
                }
            }
        }
    }
    out
}

fn enc_choices(c: &[Pt]) -> String {
    let mut s = String::new();
    for p in c {
        let _ = write!(s, "{}{}/{} ", if p.dev { "d" } else { "f" }, p.c, p.n);
    }
    s
}
fn dec_choices(s: &str) -> Vec<Pt> {
    s.split_whitespace()
        .map(|t| {
            let dev = t.starts_with('d');
            let (a, b) = t[1..].split_once('/').unwrap();
            Pt { c: a.parse().unwrap(), n: b.parse().unwrap(), dev }
        })
        .collect()
}

fn write_replay(
    id: &str,
    k: usize,
    tier: Tier,
    scen: &str,
    bound: u32,
    choices: &[Pt],
    msg: &str,
    trace: &[String],
) -> String {
    let dir = format!("{}/out", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{k}.replay");
    let mut s = String::new();
    let _ = writeln!(s, "property: {id}\ntier: {}\nscenario: {scen}\nbound: {bound}\nchoices: {}", tier.name(), enc_choices(choices));
    let _ = writeln!(s, "message: {}", msg.replace('\n', "\n   "));
    let _ = writeln!(s, "--- replay with: {}/target/release/hmc replay {path}\n--- trace:", "/verif/mc");
    for t in trace {
        let _ = writeln!(s, "{t}");
    }
    let _ = std::fs::write(&path, s);
    path
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\t' => s.push_str("\\t"),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => {
                let _ = write!(s, "\\x{c:02x}");
            }
        }
    }
    s
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static CRASH_ID: Mutex<(&'static str, &'static str)> = Mutex::new(("?", "quick"));

extern "C" fn crash_handler(sig: libc::c_int) {
    // Best effort: the process is going down anyway.  Another thread may crash at the same time: the first one reports.
    static FIRST: AtomicU64 = AtomicU64::new(0);
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
    match FIRST.compare_exchange(0, me, SeqCst, SeqCst) {
        Ok(_) => {}
        Err(t) if t == me => unsafe { libc::_exit(4) },
        Err(_) => loop {
            std::thread::sleep(Duration::from_secs(1));
        },
    }
    let msg = CURRENT.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten();
    let (id, tier) = CRASH_ID.try_lock().map(|g| *g).unwrap_or(("?", "quick"));
    if let Some((scen, _, prefix)) = msg {
        let t = if tier == "quick" { Tier::Quick } else { Tier::Thorough };
        let pm = PANIC_MSG.try_with(|p| p.try_borrow().map(|x| x.clone()).unwrap_or_default()).unwrap_or_default();
        let p = write_replay(id, 0, t, &scen, 99, &prefix, &format!("process crashed with signal {sig}; last panic: {pm}"), &[]);
        println!("VIOLATION property={id} replay={p}");
        println!("  process crashed (signal {sig}) in scenario {scen}; last panic: {pm}");
        unsafe { libc::_exit(1) }
    }
    eprintln!("crash (signal {sig}) outside an execution");
    unsafe { libc::_exit(4) }
}

fn install_crash_handler(id: &'static str, tier: Tier) {
    *CRASH_ID.lock().unwrap() = (id, tier.name());
    unsafe {
        for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = crash_handler as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

/// Explores the whole check; returns the process exit code.
pub fn run_check(chk: Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    install_panic_hook();
    install_crash_handler(chk.id, tier);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let cap_s: u64 = std::env::var("HMC_CAP_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == Tier::Quick { 240 } else { 800 });
    let workers: usize = std::env::var("HMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    });
    let filter = std::env::var("HMC_FILTER").ok();
    let nscen = chk.scenarios.len();
    {
        let mut names = HashSet::new();
        for s in &chk.scenarios {
            if !names.insert(&s.name) {
                eprintln!("harness error: duplicate scenario name {}", s.name);
                return 3;
            }
        }
    }
    let maxbound = chk.scenarios.iter().map(|s| s.bound).max().unwrap_or(0);
    let known = known_findings(chk.id);
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let mut agg = Agg::default();
    let mut capped = false;
    let mut completed_bound: i64 = -1;
    let mut engine_error = false;
    let samples: Mutex<Vec<String>> = Mutex::new(vec![]);

    // one bound after the other: shortest counterexamples first, and a run that is cut short has completed
    // all bounds below the one it was in
    for pass in 0..=maxbound {
        let pool = Pool {
            jobs: Mutex::new(
                (0..nscen)
                    .rev()
                    .filter(|i| filter.as_ref().map_or(true, |f| chk.scenarios[*i].name.contains(f.as_str())))
                    // scenarios whose own bound is below this pass were completed by an earlier one
                    .filter(|i| chk.scenarios[*i].bound >= pass)
                    .map(|i| (i, vec![]))
                    .collect(),
            ),
            pending: AtomicUsize::new(0),
            hungry: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
        };
        pool.pending.store(pool.jobs.lock().unwrap().len(), SeqCst);
        let slots: Vec<WSlot> = (0..workers)
            .map(|_| WSlot { start_ms: AtomicU64::new(0), live: AtomicI64::new(0), cur: Mutex::new((0, vec![])) })
            .collect();
        let aggs: Mutex<Vec<Agg>> = Mutex::new(vec![]);
        let err: Mutex<Option<String>> = Mutex::new(None);
        let hit_cap = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            let mut hs = vec![];
            for w in 0..workers {
                let (pool, chk, found, aggs, slot, err, hit_cap, samples) =
                    (&pool, &chk, &found, &aggs, &slots[w], &err, &hit_cap, &samples);
                let b = std::thread::Builder::new().stack_size(16 << 20);
                hs.push(
                    b.spawn_scoped(s, move || {
                        SLOT.with(|x| x.set(&slot.live as *const _));
                        let mut a = Agg::default();
                        let mut local: Vec<(usize, Vec<Pt>)> = vec![];
                        let mut k = 0u64;
                        'outer: loop {
                            let job = match local.pop() {
                                Some(j) => j,
                                None => {
                                    let got = pool.jobs.lock().unwrap().pop();
                                    match got {
                                        Some(j) => j,
                                        None => {
                                            pool.hungry.fetch_add(1, SeqCst);
                                            loop {
                                                if pool.pending.load(SeqCst) == 0 || pool.stop.load(SeqCst) {
                                                    break 'outer;
                                                }
                                                let j = pool.jobs.lock().unwrap().pop();
                                                if let Some(j) = j {
                                                    pool.hungry.fetch_sub(1, SeqCst);
                                                    break j;
                                                }
                                                std::thread::sleep(Duration::from_micros(50));
                                            }
                                        }
                                    }
                                }
                            };
                            if pool.stop.load(Relaxed) {
                                break 'outer;
                            }
                            k += 1;
                            let (si, prefix) = job;
                            let sc = &chk.scenarios[si];
                            let bound = sc.bound.min(pass);
                            {
                                let mut c = slot.cur.lock().unwrap();
                                c.0 = si;
                                c.1.clear();
                                c.1.extend_from_slice(&prefix);
                            }
                            CURRENT.with(|c| {
                                *c.borrow_mut() = Some((sc.name.clone(), chk.id, prefix.clone()))
                            });
                            slot.start_ms.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                            let out = run_one(sc, &prefix, bound, false);
                            slot.start_ms.store(0, SeqCst);
                            CURRENT.with(|c| *c.borrow_mut() = None);
                            {
                                let e = a.per_scen.entry(si).or_default();
                                e.0 += 1;
                                e.1 += out.trans;
                            }
                            a.max_choices = a.max_choices.max(out.log.len());
                            a.max_devs = a.max_devs.max(out.devs);
                            for st in &out.states {
                                if a.states.len() < STATE_CAP {
                                    a.states.insert(mix(*st, si as u64));
                                } else {
                                    a.states_over += 1;
                                }
                            }
                            if out.diverged {
                                *err.lock().unwrap() = Some(format!(
                                    "nondeterminism: scenario {} diverged while replaying {}",
                                    sc.name,
                                    enc_choices(&prefix)
                                ));
                                pool.stop.store(true, SeqCst);
                                break 'outer;
                            }
                            match &out.res {
                                Ok(h) => {
                                    let o = mix(*h, si as u64);
                                    a.outcomes.insert(*h);
                                    if !a.nontrivial.contains(&o) && a.nontrivial.len() < STATE_CAP {
                                        a.nontrivial.insert(o);
                                        if pass == maxbound.min(1) && a.nontrivial.len() < 3 {
                                            let mut sm = samples.lock().unwrap();
                                            if sm.len() < 6 {
                                                sm.push(format!(
                                                    "scenario={} choices=[{}] outcome={:016x}",
                                                    sc.name,
                                                    enc_choices(&out.log).trim(),
                                                    h
                                                ));
                                            }
                                        }
                                    }
                                }
                                Err(v) => {
                                    // determinism: the same choices must fail the same way
                                    let again = run_one(sc, &out.log, bound, false);
                                    let same = matches!(&again.res, Err(v2) if v2.sig == v.sig);
                                    if !same {
                                        *err.lock().unwrap() = Some(format!(
                                            "nondeterminism: scenario {} failed ({}) but its replay gave {:?}; choices {}",
                                            sc.name, v.msg, again.res, enc_choices(&out.log)
                                        ));
                                        pool.stop.store(true, SeqCst);
                                        break 'outer;
                                    }
                                    let mut f = found.lock().unwrap();
                                    let same: Vec<usize> = (0..f.len()).filter(|i| f[*i].v.sig == v.sig).collect();
                                    if let Some(&i) = same.first() {
                                        if f[i].choices.len() > out.log.len() && f[i].bound >= bound {
                                            f[i] = Found { scen: si, choices: out.log.clone(), bound, v: v.clone(), devs: out.devs };
                                        }
                                    } else if f.len() < 200 {
                                        f.push(Found { scen: si, choices: out.log.clone(), bound, v: v.clone(), devs: out.devs });
                                    }
                                }
                            }
                            // expand
                            let plen = prefix.len();
                            let mut spent = out.log[..plen].iter().filter(|p| p.dev && p.c != 0).count() as u32;
                            let mut added = 0;
                            for i in plen..out.log.len() {
                                let p = out.log[i];
                                let ok = if p.dev { spent + 1 <= bound } else { true };
                                if ok {
                                    for alt in (p.c + 1)..p.n {
                                        let mut np = Vec::with_capacity(i + 1);
                                        np.extend_from_slice(&out.log[..i]);
                                        np.push(Pt { c: alt, ..p });
                                        local.push((si, np));
                                        added += 1;
                                    }
                                }
                                if p.dev && p.c != 0 {
                                    spent += 1;
                                }
                            }
                            pool.pending.fetch_add(added, SeqCst);
                            pool.pending.fetch_sub(1, SeqCst);
                            if local.len() > 1 && pool.hungry.load(Relaxed) > 0 {
                                let mut g = pool.jobs.lock().unwrap();
                                if g.len() < workers {
                                    let half = local.len() / 2;
                                    g.extend(local.drain(..half));
                                }
                            }
                            if k % 64 == 0 && t0.elapsed().as_secs() >= cap_s {
                                hit_cap.store(true, SeqCst);
                                pool.stop.store(true, SeqCst);
                            }
                        }
                        SLOT.with(|x| x.set(std::ptr::null()));
                        aggs.lock().unwrap().push(a);
                    })
                    .unwrap(),
                );
            }
            // watchdog
            let (slots, done, chk) = (&slots, &done, &chk);
            let wd = s.spawn(move || {
                while !done.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = t0.elapsed().as_millis() as u64;
                    for sl in slots {
                        let st = sl.start_ms.load(SeqCst);
                        let hung = st != 0 && now > st + 20_000;
                        let fat = st != 0 && sl.live.load(Relaxed) > (1i64 << 30);
                        if hung || fat {
                            let (si, prefix) = sl.cur.lock().unwrap().clone();
                            let sc = &chk.scenarios[si];
                            let m = if hung {
                                "execution does not terminate (20 s)"
                            } else {
                                "execution holds more than 1 GiB of memory"
                            };
                            let p = write_replay(chk.id, 0, tier, &sc.name, sc.bound.min(pass), &prefix, m, &[]);
                            println!("VIOLATION property={} replay={}", chk.id, p);
                            println!("  scenario {}: {}", sc.name, m);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, SeqCst);
            let _ = wd.join();
        });
        if let Some(e) = err.into_inner().unwrap() {
            eprintln!("ENGINE ERROR: {e}");
            engine_error = true;
        }
        if hit_cap.load(SeqCst) {
            capped = true;
        } else if !engine_error {
            completed_bound = pass as i64;
        }
        // every pass of a scenario contains the earlier ones: only its largest is counted
        let mut now: std::collections::HashMap<usize, (u64, u64)> = Default::default();
        agg.states_over = 0;
        for a in aggs.into_inner().unwrap() {
            if agg.states.len() < 8 * STATE_CAP {
                agg.states.extend(a.states);
            }
            agg.states_over += a.states_over;
            agg.outcomes.extend(a.outcomes);
            agg.nontrivial.extend(a.nontrivial);
            for (k, v) in a.per_scen {
                let e = now.entry(k).or_default();
                e.0 += v.0;
                e.1 += v.1;
            }
            agg.max_choices = agg.max_choices.max(a.max_choices);
            agg.max_devs = agg.max_devs.max(a.max_devs);
        }
        for (k, v) in now {
            let e = agg.per_scen.entry(k).or_default();
            *e = (e.0.max(v.0), e.1.max(v.1));
        }
        agg.execs = agg.per_scen.values().map(|v| v.0).sum();
        agg.trans = agg.per_scen.values().map(|v| v.1).sum();
        let unknown = found.lock().unwrap().iter().filter(|f| !known.iter().any(|k| k.0 == f.v.sig)).count();
        if unknown > 0 || capped || engine_error {
            break;
        }
    }

    let mut found = found.into_inner().unwrap();
    found.sort_by(|a, b| (a.devs, a.choices.len(), &a.v.sig).cmp(&(b.devs, b.choices.len(), &b.v.sig)));
    let mut exit = 0;
    let mut nviol = 0;
    let mut reported_known: HashSet<String> = HashSet::new();
    for (k, f) in found.iter().enumerate() {
        let sc = &chk.scenarios[f.scen];
        if let Some((sig, desc)) = known.iter().find(|k| k.0 == f.v.sig) {
            if reported_known.insert(sig.clone()) {
                println!("KNOWN-FINDING: property={} {} [sig={}]", chk.id, desc, sig);
            }
            continue;
        }
        nviol += 1;
        exit = 1;
        if nviol <= 10 {
            let out = run_one(sc, &f.choices, f.bound, true);
            let p = write_replay(chk.id, k, tier, &sc.name, f.bound, &f.choices, &format!("[{}] {}", f.v.sig, f.v.msg), &out.trace);
            println!("VIOLATION property={} replay={}", chk.id, p);
            println!("  scenario {} (deviations {}): [{}] {}", sc.name, f.devs, f.v.sig, f.v.msg);
        }
    }
    if nviol > 10 {
        println!("  ... and {} further distinct violations", nviol - 10);
    }
    for (sig, desc) in &known {
        if !reported_known.contains(sig) && filter.is_none() {
            println!("note: listed finding did not occur in this run: {sig} {desc}");
        }
    }

    // ---- evidence
    let wall = t0.elapsed().as_secs_f64();
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
        jstr(chk.id),
        jstr(tier.name()),
        seed
    );
    let _ = write!(
        ev,
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n",
        agg.states.len() as u64,
        agg.trans,
        agg.execs
    );
    let _ = write!(
        ev,
        "  \"scenarios\": {},\n  \"distinct_outcomes\": {},\n  \"distinct_scenario_outcomes\": {},\n  \"deviation_bound_max\": {},\n  \"deviation_bound_completed\": {},\n  \"max_choice_points\": {},\n  \"states_not_stored_over_cap\": {},\n  \"exhaustive\": {},\n",
        agg.per_scen.len(),
        agg.outcomes.len(),
        agg.nontrivial.len(),
        maxbound,
        completed_bound,
        agg.max_choices,
        agg.states_over,
        !capped && !engine_error && filter.is_none() && exit == 0
    );
    let _ = write!(
        ev,
        "  \"rule\": {},\n",
        jstr(&format!(
            "Each trace is one complete execution of the real hyper code (no separate model), so every trace explored is a trace of the implementation; states are distinct fingerprints of the observable history at scheduling steps, transitions are environment answers and task polls. {}",
            chk.rule
        ))
    );
    let mut per: Vec<(usize, u64)> = agg.per_scen.iter().map(|(a, b)| (*a, b.0)).collect();
    per.sort_by(|a, b| b.1.cmp(&a.1));
    let top: Vec<String> = per
        .iter()
        .take(8)
        .map(|(i, n)| jstr(&format!("{} (bound {}): {} executions", chk.scenarios[*i].name, chk.scenarios[*i].bound, n)))
        .collect();
    let _ = write!(ev, "  \"largest_scenarios\": [{}],\n", top.join(", "));
    let sm: Vec<String> = samples.into_inner().unwrap().iter().map(|s| jstr(s)).collect();
    let _ = write!(ev, "  \"samples\": [{}]\n }},\n", sm.join(",\n   "));
    let _ = write!(
        ev,
        " \"violations\": {},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}\n}}\n",
        nviol,
        chk.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall
    );
    let evdir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&evdir);
    if let Err(e) = std::fs::write(format!("{evdir}/{}.json", chk.id), ev) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }
    println!(
        "{} {}: {} scenarios, {} executions, {} transitions, {} states, {} distinct outcomes, bound {} (completed {}), {:.1}s{}",
        chk.id,
        tier.name(),
        agg.per_scen.len(),
        agg.execs,
        agg.trans,
        agg.states.len(),
        agg.nontrivial.len(),
        maxbound,
        completed_bound,
        wall,
        if capped { " CAPPED" } else { "" }
    );
    if engine_error && exit == 0 {
        return 3;
    }
    exit
}

pub fn replay(chk: Check, path: &str) -> i32 {
    install_panic_hook();
    let s = std::fs::read_to_string(path).expect("replay file");
    let get = |k: &str| {
        s.lines().find_map(|l| l.strip_prefix(&format!("{k}: ")).map(|x| x.to_string())).unwrap_or_default()
    };
    let scen = get("scenario");
    let bound: u32 = get("bound").parse().unwrap_or(99);
    let choices = dec_choices(&get("choices"));
    let Some(sc) = chk.scenarios.iter().find(|x| x.name == scen) else {
        eprintln!("no such scenario: {scen}");
        return 2;
    };
    let out = run_one(sc, &choices, bound, true);
    for t in &out.trace {
        println!("{t}");
    }
    println!("=> {:?}{}", out.res, if out.diverged { " (DIVERGED)" } else { "" });
    match out.res {
        Ok(_) => 0,
        Err(_) => 1,
    }
}
