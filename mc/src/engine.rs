//! A small stateless model checker.
//!
//! A *harness* is a deterministic function that drives the real scribe code and takes every
//! decision (which operation, which argument, which environment answer) through
//! `Ctx::choose`. The engine enumerates **every** sequence of decisions by re-execution:
//! after running a prefix of decisions (continuing with alternative 0), every untried
//! alternative at every later decision point becomes a new prefix. The search space of a
//! harness is finite (depths and alphabets are bounded inside the harness), so the search
//! ends exactly when the bounded space has been covered.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub type HResult = Result<(), String>;

/// Tier independent description of one bounded space.
pub struct Harness {
    pub name: &'static str,
    /// What is enumerated and within which bounds.
    pub bounds: String,
    pub run: Box<dyn Fn(&mut Ctx) -> HResult + Sync>,
}

impl Harness {
    pub fn new(
        name: &'static str,
        bounds: impl Into<String>,
        run: impl Fn(&mut Ctx) -> HResult + Sync + 'static,
    ) -> Harness {
        Harness { name, bounds: bounds.into(), run: Box::new(run) }
    }
}

/// Identity hasher for values that are already hashes.
#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// FNV-1a with a final mix; deterministic across runs.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z ^= z >> 33;
        z = z.wrapping_mul(0xff51afd7ed558ccd);
        z ^= z >> 33;
        z = z.wrapping_mul(0xc4ceb9fe1a85ec53);
        z ^ (z >> 33)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

const STATE_CAP: usize = 3_000_000; // per worker

#[derive(Default)]
struct Stats {
    executions: u64,
    transitions: u64,
    max_points: usize,
    states: IdSet,
    states_capped: bool,
    counts: Vec<(&'static str, u64)>,
    foreign: u64,
    diverged: u64,
}

/// The view a harness has of the engine during one execution.
pub struct Ctx<'a> {
    prefix: &'a [u16],
    fresh_from: usize,
    trail: Vec<(u16, u16)>,
    trace: Option<Vec<String>>,
    stats: &'a mut Stats,
    pub scratch: &'a Path,
    pub worker: usize,
}

struct Diverged(String);

/// Lowers the number of files this process can have open to what it has, and some more.
pub fn few_handles(more: u64) {
    let n = more + std::fs::read_dir("/proc/self/fd").map_or(10, |d| d.count() as u64);
    unsafe {
        let mut lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        if libc::getrlimit(libc::RLIMIT_NOFILE, &mut lim) == 0 && lim.rlim_cur > n {
            lim.rlim_cur = n;
            libc::setrlimit(libc::RLIMIT_NOFILE, &lim);
        }
    }
}

struct Foreign;
/// Gives up an execution whose beginnings already deviate in something other properties own.
pub fn foreign_from_the_start() -> ! {
    std::panic::panic_any(Foreign)
}

impl<'a> Ctx<'a> {
    /// Takes one decision among `n` alternatives. Alternative 0 is the default one.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 60000, "bad arity {}", n);
        let at = self.trail.len();
        let c = if at < self.prefix.len() { self.prefix[at] as usize } else { 0 };
        if c >= n {
            std::panic::panic_any(Diverged(format!(
                "replay diverged: decision {} is {} of {}",
                at, c, n
            )));
        }
        self.trail.push((c as u16, n as u16));
        slot_progress(self.worker, at, c);
        c
    }
    pub fn pick<'t, T>(&mut self, items: &'t [T]) -> &'t T {
        &items[self.choose(items.len())]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// True if what happens after the last decision has not been executed before, i.e. it is
    /// not merely the replay of a prefix that an earlier execution already checked.
    pub fn fresh(&self) -> bool {
        self.trail.len() > self.fresh_from
    }
    /// Counts one real operation executed in a new context.
    pub fn transition(&mut self) {
        if self.fresh() {
            self.stats.transitions += 1;
        }
    }
    pub fn transitions(&mut self, n: u64) {
        if self.fresh() {
            self.stats.transitions += n;
        }
    }
    /// Records an observed state.
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) {
        if self.fresh() {
            if self.stats.states.len() < STATE_CAP {
                self.stats.states.insert(hash_of(s));
            } else {
                self.stats.states_capped = true;
            }
        }
    }
    /// Counts an outcome class, to show that the exploration is not vacuous.
    pub fn count(&mut self, name: &'static str) {
        if self.fresh() {
            for c in self.stats.counts.iter_mut() {
                if std::ptr::eq(c.0, name) || c.0 == name {
                    c.1 += 1;
                    return;
                }
            }
            self.stats.counts.push((name, 1));
        }
    }
    /// The code deviates from the model in something another property owns; this execution
    /// is abandoned without a verdict for this property.
    pub fn foreign(&mut self) -> HResult {
        self.stats.foreign += 1;
        Ok(())
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            t.push(f());
        }
    }
}

// ---------------------------------------------------------------------------------------
// What each worker is executing right now, readable from a signal handler and the watchdog.

pub const MAX_WORKERS: usize = 16;
const SLOT_LEN: usize = 2048;
pub struct Slot {
    len: AtomicUsize,
    started: AtomicU64,
    choices: [AtomicU16; SLOT_LEN],
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    len: AtomicUsize::new(0),
    started: AtomicU64::new(0),
    choices: [const { AtomicU16::new(0) }; SLOT_LEN],
};
pub static SLOTS: [Slot; MAX_WORKERS] = [SLOT0; MAX_WORKERS];
static HARNESS_INDEX: AtomicUsize = AtomicUsize::new(usize::MAX);
thread_local! { static MY_SLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }
thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

thread_local! { static PANIC_OWN: Cell<bool> = const { Cell::new(false) }; }

fn slot_progress(w: usize, at: usize, c: usize) {
    if at < SLOT_LEN {
        SLOTS[w].choices[at].store(c as u16, Relaxed);
        SLOTS[w].len.store(at + 1, Relaxed);
    }
}

/// Async-signal-safe: writes "MC-CRASH <signal> <harness> <n> <choices...>" to stderr.
extern "C" fn on_crash(sig: i32) {
    // The alternate stack this runs on after a stack overflow is small.
    static CRASHED: AtomicBool = AtomicBool::new(false);
    static mut BUF: [u8; 65536] = [0; 65536];
    if CRASHED.swap(true, SeqCst) {
        // Another thread is writing already, and will end the process.
        loop {
            unsafe { libc::pause() };
        }
    }
    let buf: &mut [u8] = unsafe { &mut *std::ptr::addr_of_mut!(BUF) };
    let mut n = 0;
    fn put(buf: &mut [u8], n: &mut usize, s: &[u8]) {
        for b in s {
            if *n < buf.len() {
                buf[*n] = *b;
                *n += 1;
            }
        }
    }
    fn num(buf: &mut [u8], n: &mut usize, mut v: usize) {
        let mut d = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            d[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        put(buf, n, b" ");
        put(buf, n, &d[i..]);
    }
    let slot = MY_SLOT.with(|s| s.get());
    put(buf, &mut n, b"\nMC-CRASH");
    num(buf, &mut n, sig as usize);
    num(buf, &mut n, HARNESS_INDEX.load(Relaxed));
    if slot < MAX_WORKERS {
        let len = SLOTS[slot].len.load(Relaxed).min(SLOT_LEN);
        num(buf, &mut n, len);
        for i in 0..len {
            num(buf, &mut n, SLOTS[slot].choices[i].load(Relaxed) as usize);
        }
    } else {
        num(buf, &mut n, 99999);
    }
    put(buf, &mut n, b"\n");
    unsafe {
        libc::syscall(libc::SYS_write, 2, buf.as_ptr(), n);
        libc::_exit(70);
    }
}

pub fn install_crash_handler() {
    unsafe {
        for s in [libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGBUS] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_crash as extern "C" fn(i32) as usize;
            sa.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
        // SIGSEGV: std's handler diagnoses stack overflows on worker threads and aborts
        // (handled above); a plain segmentation fault falls back to the default action,
        // so install ours for it too, on the alternate stack std has set up.
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_crash as extern "C" fn(i32) as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        // A runaway allocation must end this process, not the machine.
        let lim = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        // A panic raised by this crate's own code is a fault of the checker, not a verdict.
        let own = info.location().map_or(false, |l| l.file().starts_with("src/"));
        PANIC_OWN.with(|o| o.set(own));
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{}{}", msg, loc));
        if MY_SLOT.with(|s| s.get()) == usize::MAX {
            eprintln!("engine panic: {}{}", msg, loc);
        }
    }));
}

// ---------------------------------------------------------------------------------------

pub enum Outcome {
    Pass,
    Violation(String),
    EngineError(String),
    Diverged(String),
}

fn run_once(
    h: &Harness,
    prefix: &[u16],
    fresh_from: usize,
    stats: &mut Stats,
    trail: &mut Vec<(u16, u16)>,
    trace: Option<Vec<String>>,
    scratch: &Path,
    worker: usize,
) -> (Outcome, Option<Vec<String>>) {
    SLOTS[worker].len.store(0, Relaxed);
    SLOTS[worker].started.store(now_ms(), Relaxed);
    let mut t = std::mem::take(trail);
    t.clear();
    let mut ctx = Ctx { prefix, fresh_from, trail: t, trace, stats, scratch, worker };
    let r = catch_unwind(AssertUnwindSafe(|| (h.run)(&mut ctx)));
    SLOTS[worker].started.store(0, Relaxed);
    let out = match r {
        Ok(Ok(())) => {
            if ctx.trail.len() < prefix.len() {
                Outcome::Diverged(format!(
                    "replay diverged: {} of {} decisions consumed",
                    ctx.trail.len(),
                    prefix.len()
                ))
            } else {
                Outcome::Pass
            }
        }
        Ok(Err(m)) => Outcome::Violation(m),
        Err(p) => {
            if let Some(d) = p.downcast_ref::<Diverged>() {
                Outcome::Diverged(d.0.clone())
            } else if p.is::<Foreign>() {
                ctx.stats.foreign += 1;
                Outcome::Pass
            } else {
                let m = PANIC_MSG.with(|m| m.borrow().clone());
                if PANIC_OWN.with(|o| o.get()) {
                    Outcome::EngineError(format!("the checker panicked: {}", m))
                } else {
                    Outcome::Violation(format!("panicked: {}", m))
                }
            }
        }
    };
    let trace = ctx.trace.take();
    *trail = std::mem::take(&mut ctx.trail);
    (out, trace)
}

fn now_ms() -> u64 {
    static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub struct Violation {
    pub message: String,
    pub choices: Vec<u16>,
    pub trace: Vec<String>,
}

pub struct Report {
    pub name: &'static str,
    pub bounds: String,
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub states_capped: bool,
    pub max_points: usize,
    pub counts: BTreeMap<&'static str, u64>,
    pub foreign: u64,
    /// Executions that could not follow their decisions, because the code took other ones (as
    /// when it keeps something across calls); not counted as executions.
    pub diverged: u64,
    pub complete: bool,
    pub wall_s: f64,
    pub violation: Option<Violation>,
    pub engine_error: Option<String>,
    /// A violation that did not recur in isolation, so that it is either an effect of earlier
    /// executions in the same process, or of something outside the checker's control.
    pub unconfirmed: bool,
    pub samples: Vec<(Vec<u16>, Vec<String>)>,
}

pub fn replay(h: &Harness, choices: &[u16], scratch: &Path, traced: bool) -> (Outcome, Vec<String>) {
    MY_SLOT.with(|s| s.set(0));
    let mut stats = Stats::default();
    let mut trail = Vec::new();
    let (o, t) = run_once(
        h,
        choices,
        0,
        &mut stats,
        &mut trail,
        if traced { Some(Vec::new()) } else { None },
        scratch,
        0,
    );
    MY_SLOT.with(|s| s.set(usize::MAX));
    (o, t.unwrap_or_default())
}

struct Shared {
    queue: Mutex<Vec<Vec<u16>>>,
    wake: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    /// Choices and message of the shortest violation so far.
    found: Mutex<Option<(Vec<u16>, String)>>,
    error: Mutex<Option<String>>,
}

/// A single execution may take this long before it counts as non-terminating. Executions
/// normally take microseconds to a few milliseconds.
const HANG_MS: u64 = 60_000;

pub fn explore(h: &Harness, index: usize, scratch: &Path, deadline: Instant) -> Report {
    let start = Instant::now();
    HARNESS_INDEX.store(index, Relaxed);
    // What the code does may depend on what this process did before; see `Report::unconfirmed`.
    let sequential = std::env::var_os("MC_SEQUENTIAL").is_some();
    let n = if sequential {
        1
    } else {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(MAX_WORKERS)
    };
    let sh = Shared {
        queue: Mutex::new(vec![Vec::new()]),
        wake: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        found: Mutex::new(None),
        error: Mutex::new(None),
    };
    let all: Mutex<Vec<Stats>> = Mutex::new(Vec::new());
    let live = AtomicUsize::new(n);
    let mut hung: Option<Vec<u16>> = None;
    std::thread::scope(|scope| {
        for w in 0..n {
            let (sh, all, live) = (&sh, &all, &live);
            let dir = scratch.join(format!("w{}", w));
            let _ = std::fs::create_dir_all(&dir);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || {
                    MY_SLOT.with(|s| s.set(w));
                    let stats = worker(h, sh, n, w, &dir, deadline);
                    all.lock().unwrap().push(stats);
                    MY_SLOT.with(|s| s.set(usize::MAX));
                    live.fetch_sub(1, SeqCst);
                    sh.wake.notify_all();
                })
                .unwrap();
        }
        // Watchdog.
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(5));
            for w in 0..n {
                let s = SLOTS[w].started.load(Relaxed);
                if s != 0 && now_ms().saturating_sub(s) > HANG_MS {
                    let len = SLOTS[w].len.load(Relaxed).min(SLOT_LEN);
                    let c: Vec<u16> =
                        (0..len).map(|i| SLOTS[w].choices[i].load(Relaxed)).collect();
                    hung = Some(c);
                }
            }
            if let Some(c) = &hung {
                // The worker cannot be stopped; hand the case to the supervising process.
                eprintln!(
                    "\nMC-HANG 0 {} {} {}",
                    index,
                    c.len(),
                    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")
                );
                unsafe { libc::_exit(71) };
            }
        }
    });
    let mut rep = Report {
        name: h.name,
        bounds: h.bounds.clone(),
        executions: 0,
        transitions: 0,
        states: 0,
        states_capped: false,
        max_points: 0,
        counts: BTreeMap::new(),
        foreign: 0,
        diverged: 0,
        complete: !sh.capped.load(SeqCst),
        wall_s: 0.0,
        violation: None,
        engine_error: sh.error.into_inner().unwrap(),
        unconfirmed: false,
        samples: Vec::new(),
    };
    let mut union: IdSet = IdSet::default();
    for mut s in all.into_inner().unwrap() {
        rep.executions += s.executions;
        rep.transitions += s.transitions;
        rep.max_points = rep.max_points.max(s.max_points);
        rep.foreign += s.foreign;
        rep.diverged += s.diverged;
        rep.states_capped |= s.states_capped;
        for (k, v) in s.counts {
            *rep.counts.entry(k).or_default() += v;
        }
        if union.len() < s.states.len() {
            std::mem::swap(&mut union, &mut s.states);
        }
        union.extend(s.states.iter());
    }
    rep.states = union.len() as u64;
    if rep.diverged > 0 {
        rep.complete = false;
        if rep.diverged > rep.executions && rep.engine_error.is_none() {
            rep.engine_error = Some(format!("{} of {} executions diverged", rep.diverged, rep.diverged + rep.executions));
        }
    }
    let dir = scratch.join("w0");
    if let Some((choices, message)) = sh.found.into_inner().unwrap() {
        // The same decisions must fail again.
        let mut again = 0;
        let mut trace = Vec::new();
        let mut msg = message.clone();
        for _ in 0..5 {
            let (o, t) = replay(h, &choices, &dir, true);
            if let Outcome::Violation(m) = o {
                again += 1;
                trace = t;
                msg = m;
            }
        }
        if again == 0 && sequential {
            msg.push_str(&format!(" [after {} other executions in the same process]", rep.executions - 1));
            rep.violation = Some(Violation { message: msg, choices, trace });
        } else if again == 0 {
            rep.unconfirmed = true;
            rep.engine_error = Some(format!(
                "violation did not recur on replay (uncontrolled nondeterminism): {}",
                message
            ));
        } else {
            if again < 5 {
                msg.push_str(&format!(" [recurred in {} of 5 replays]", again));
            }
            rep.violation = Some(Violation { message: msg, choices, trace });
        }
        rep.complete = false;
    } else if rep.engine_error.is_none() {
        // Samples: the default execution and one that takes the last alternative everywhere.
        let (_, t) = replay(h, &[], &dir, true);
        rep.samples.push((vec![], t));
        let mut p: Vec<u16> = Vec::new();
        loop {
            let mut stats = Stats::default();
            let mut trail = Vec::new();
            let _ = run_once(h, &p, 0, &mut stats, &mut trail, None, &dir, 0);
            if trail.len() <= p.len() || p.len() > 60 {
                break;
            }
            let a = trail[p.len()].1;
            p.push(a - 1);
        }
        let (_, t) = replay(h, &p, &dir, true);
        rep.samples.push((p, t));
    }
    rep.wall_s = start.elapsed().as_secs_f64();
    rep
}

fn worker(
    h: &Harness,
    sh: &Shared,
    n: usize,
    w: usize,
    scratch: &Path,
    deadline: Instant,
) -> Stats {
    let mut stats = Stats::default();
    let mut local: Vec<Vec<u16>> = Vec::new();
    let mut trail: Vec<(u16, u16)> = Vec::new();
    let mut since = 0u32;
    'outer: loop {
        let prefix = match local.pop() {
            Some(p) => p,
            None => {
                let mut q = sh.queue.lock().unwrap();
                sh.idle.fetch_add(1, SeqCst);
                loop {
                    if sh.stop.load(SeqCst) {
                        break 'outer;
                    }
                    if let Some(p) = q.pop() {
                        sh.idle.fetch_sub(1, SeqCst);
                        break p;
                    }
                    if sh.idle.load(SeqCst) == n {
                        sh.wake.notify_all();
                        break 'outer;
                    }
                    q = sh.wake.wait_timeout(q, Duration::from_millis(20)).unwrap().0;
                }
            }
        };
        let fresh_from = prefix.len().saturating_sub(1);
        let (out, _) = run_once(h, &prefix, fresh_from, &mut stats, &mut trail, None, scratch, w);
        stats.executions += 1;
        stats.max_points = stats.max_points.max(trail.len());
        match out {
            Outcome::Pass => (),
            Outcome::Violation(m) => {
                let choices: Vec<u16> = trail.iter().map(|t| t.0).collect();
                let mut f = sh.found.lock().unwrap();
                if f.as_ref().map_or(true, |(c, _)| {
                    choices.len() < c.len() || (choices.len() == c.len() && choices < *c)
                }) {
                    *f = Some((choices, m));
                }
                // First violation ends the search.
                sh.stop.store(true, SeqCst);
                sh.wake.notify_all();
            }
            Outcome::Diverged(_) => {
                stats.executions -= 1;
                stats.diverged += 1;
                continue;
            }
            Outcome::EngineError(m) => {
                *sh.error.lock().unwrap() = Some(m);
                sh.stop.store(true, SeqCst);
                sh.wake.notify_all();
            }
        }
        // Siblings at every new decision point, deepest pushed last so that the search is
        // depth first and the stack stays small.
        for i in prefix.len()..trail.len() {
            for alt in (1..trail[i].1).rev() {
                let mut p = Vec::with_capacity(i + 1);
                p.extend(trail[..i].iter().map(|t| t.0));
                p.push(alt);
                local.push(p);
            }
        }
        if local.len() > 1 && sh.idle.load(Relaxed) > 0 {
            let mut q = sh.queue.lock().unwrap();
            if q.len() < n {
                // The bottom half holds the shallowest prefixes, i.e. the largest subtrees.
                let k = local.len() / 2;
                q.extend(local.drain(..k));
                sh.wake.notify_all();
            }
        }
        since += 1;
        if since & 0xff == 0 && Instant::now() > deadline {
            sh.capped.store(true, SeqCst);
            sh.stop.store(true, SeqCst);
            sh.wake.notify_all();
        }
        if sh.stop.load(Relaxed) {
            break;
        }
    }
    stats
}

pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("scribe-mc-{}", std::process::id()))
}
