//! Stateless choice-tree explorer and explicit-state breadth-first explorer.
//!
//! A harness is a closure that asks `ctx.choose(n)` for every nondeterministic decision; the
//! explorer runs it once for *every* sequence of answers (depth-first, shared between worker
//! threads by handing over unexplored sibling ranges).  Nothing is sampled.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- memory accounting
/// Live bytes allocated by the current execution; an execution that exceeds the limit is parked
/// and reported by the watchdog (unbounded memory growth of the code under test).
pub struct Alloc;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LIMITED: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub const MEM_LIMIT: isize = 512 << 20;
static OOM_SLOT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn account(d: isize) {
    let over = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
        v > MEM_LIMIT && LIMITED.try_with(|x| x.get()).unwrap_or(false)
    });
    if let Ok(true) = over {
        let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
        let _ = OOM_SLOT.compare_exchange(usize::MAX, slot, SeqCst, SeqCst);
        loop {
            std::thread::sleep(Duration::from_millis(50));
        }
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
/// Peak of bytes allocated by `f` above the level at entry.
pub fn peak_bytes<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
pub enum Caught {
    /// panic raised by the code under test (or a library it calls)
    Sut(String),
    /// panic raised by the harness itself: an error of the check, never a verdict
    Harness(String),
}
fn classify_panic() -> Caught {
    let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
    let text = format!("panic at {loc}: {msg}");
    // panics of the explorer itself are errors of the check; a harness unwrapping what the code
    // under test returned (never failing on the unchanged tree) is a wrong answer of that code
    let own = loc.starts_with("src/") || loc.contains("/verif/mc/");
    if own && (msg.starts_with("choose(0)") || msg.starts_with("replay divergence") || loc.contains("src/engine.rs")) {
        Caught::Harness(text)
    } else {
        Caught::Sut(text)
    }
}
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| classify_panic())
}

// ---------------------------------------------------------------- fatal signals
/// Stack overflow, abort or a wild access of the code under test ends the process: the handler
/// writes the replay file of the execution that was running (raw system calls only).
static FATAL: Mutex<Option<(Vec<u8>, Vec<u8>, Vec<u8>)>> = Mutex::new(None);
static FATAL_PTR: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static CUR_PATH: Cell<(*const u32, usize)> = const { Cell::new((std::ptr::null(), 0)) };
}
pub fn set_path(p: &[u32]) {
    CUR_PATH.with(|c| c.set((p.as_ptr(), p.len())));
}
fn arm(run: &Run, harness: &str) {
    let _ = std::fs::create_dir_all(&run.replay_dir);
    let file = format!("{}/{}-{}-{}-fatal.replay\0", run.replay_dir, run.property, run.config, harness).into_bytes();
    let head = format!("property={}\nconfig={}\nharness={}\nthorough={}\npath=", run.property, run.config, harness, run.thorough as u8).into_bytes();
    let line = format!("\nVIOLATION property={} replay={}\n  harness {harness} [{}]: the process died from a signal (stack overflow, abort or invalid memory access)\n", run.property, std::str::from_utf8(&file[..file.len() - 1]).unwrap(), run.config).into_bytes();
    // leaked on purpose: the handler may run at any time
    let b: &'static (Vec<u8>, Vec<u8>, Vec<u8>) = Box::leak(Box::new((file, head, line)));
    FATAL_PTR.store(b as *const _ as usize, SeqCst);
    let mut g = FATAL.lock().unwrap();
    if g.is_none() {
        *g = Some(Default::default());
        unsafe {
            for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_fatal as *const () as usize;
                sa.sa_flags = libc::SA_ONSTACK | libc::SA_RESETHAND;
                libc::sigaction(sig, &sa, std::ptr::null_mut());
            }
        }
    }
}
extern "C" fn on_fatal(_sig: i32) {
    unsafe {
        let p = FATAL_PTR.load(SeqCst) as *const (Vec<u8>, Vec<u8>, Vec<u8>);
        if !p.is_null() {
            let (file, head, line) = &*p;
            let fd = libc::open(file.as_ptr() as *const libc::c_char, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
            libc::write(fd, head.as_ptr() as *const libc::c_void, head.len());
            let (ptr, n) = CUR_PATH.try_with(|c| c.get()).unwrap_or((std::ptr::null(), 0));
            for i in 0..n {
                let mut v = *ptr.add(i);
                let mut buf = [0u8; 12];
                let mut k = 11;
                buf[k] = b',';
                loop {
                    k -= 1;
                    buf[k] = b'0' + (v % 10) as u8;
                    v /= 10;
                    if v == 0 {
                        break;
                    }
                }
                libc::write(fd, buf.as_ptr().add(k) as *const libc::c_void, 12 - k);
            }
            let m = b"\nmessage=the process died from a signal\n";
            libc::write(fd, m.as_ptr() as *const libc::c_void, m.len());
            libc::close(fd);
            libc::write(1, line.as_ptr() as *const libc::c_void, line.len());
        }
        libc::_exit(1);
    }
}

// ---------------------------------------------------------------- verdicts
#[derive(Clone, Debug)]
pub struct Violation(pub String);
pub type Res = Result<(), Violation>;
pub fn fail<T>(msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation(msg.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Violation(format!($($a)*))); } };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub executions: u64,
    pub steps: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub known: BTreeMap<String, (u64, String)>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, Vec<u32>, String)>, // harness, path, message
    pub capped: bool,
    pub max_depth: usize,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.executions += o.executions;
        self.steps += o.steps;
        self.states += o.states;
        self.transitions += o.transitions;
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            let e = self.known.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
        self.samples.extend(o.samples);
        self.violations.extend(o.violations);
        self.capped |= o.capped;
        self.max_depth = self.max_depth.max(o.max_depth);
    }
}

// ---------------------------------------------------------------- choice context
pub struct Ctx {
    prefix: Vec<u32>,
    path: Vec<(u32, u32)>,
    pub tracing: bool,
    pub trace: Vec<String>,
    steps: u64,
    states: Vec<u64>,
    outcomes: Vec<&'static str>,
    known: Vec<(&'static str, String)>,
    pub thorough: bool,
}
impl Ctx {
    fn new(prefix: Vec<u32>, tracing: bool, thorough: bool) -> Self {
        Ctx { prefix, path: Vec::new(), tracing, trace: Vec::new(), steps: 0, states: Vec::new(), outcomes: Vec::new(), known: Vec::new(), thorough }
    }
    /// One nondeterministic decision with `n` alternatives (all of them are explored).
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize, "choose(0)");
        let i = self.path.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "replay divergence: choice {c} of {n} at depth {i}");
        self.path.push((c, n as u32));
        c as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn path_hash(&self) -> u64 {
        hash64(&self.path)
    }
    /// A call into the code under test.
    pub fn step(&mut self) {
        self.steps += 1;
    }
    /// A state (input, message, object value) reached by this execution.
    pub fn state<T: Hash + ?Sized>(&mut self, v: &T) {
        self.states.push(hash64(v));
    }
    pub fn outcome(&mut self, o: &'static str) {
        self.outcomes.push(o);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            self.trace.push(f());
        }
    }
    /// The execution shows the behaviour described by finding `key`; whether that is tolerated is
    /// decided by the committed known-findings file.
    pub fn known(&mut self, key: &'static str, detail: impl FnOnce() -> String) {
        let d = detail();
        self.note(|| format!("finding {key}: {d}"));
        self.known.push((key, d));
    }
}
pub fn hash64<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Fx(0xcbf29ce484222325);
    v.hash(&mut h);
    h.finish()
}
struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 33;
        x = x.wrapping_mul(0xff51afd7ed558ccd);
        x ^= x >> 33;
        x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
        x ^ (x >> 33)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 57)).wrapping_mul(0x9E3779B97F4A7C15);
        }
    }
}

struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_u64(&mut self, i: u64) {
        self.0 = i
    }
}
#[derive(Default, Clone)]
pub struct IdBuild;
impl std::hash::BuildHasher for IdBuild {
    type Hasher = IdHasherPub;
    fn build_hasher(&self) -> IdHasherPub {
        IdHasherPub(IdHasher(0))
    }
}
pub struct IdHasherPub(IdHasher);
impl Hasher for IdHasherPub {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
    fn write_u64(&mut self, i: u64) {
        self.0.write_u64(i)
    }
}
const SHARDS: usize = 64;
struct StateSet(Vec<Mutex<HashSet<u64, IdBuild>>>);
impl StateSet {
    fn new() -> Self {
        StateSet((0..SHARDS).map(|_| Mutex::new(HashSet::default())).collect())
    }
    fn insert_all(&self, v: &[u64]) {
        for h in v {
            self.0[(h >> 58) as usize % SHARDS].lock().unwrap().insert(*h);
        }
    }
    fn len(&self) -> u64 {
        self.0.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
}

// ---------------------------------------------------------------- configuration shared by a run
pub struct Run {
    pub property: String,
    pub thorough: bool,
    pub threads: usize,
    pub known_listed: HashSet<String>,
    pub deadline: Instant,
    pub replay_dir: String,
    pub config: String,
    pub only: Option<String>,
    pub stop: AtomicBool,
}
struct Slot {
    start_ms: AtomicU64, // 0 = idle
    current: Mutex<Vec<u32>>,
}
const HANG_MS: u64 = 20_000;

pub type Body<'a> = dyn Fn(&mut Ctx) -> Res + Sync + 'a;

struct Job {
    prefix: Vec<u32>,
    lo: u32,
    hi: u32, // u32::MAX: whole subtree below prefix (no choice pinned yet)
}
struct Queue {
    jobs: Vec<Job>,
    idle: usize,
    done: bool,
}

impl Run {
    /// Writes a replay file and prints the verdict line.
    pub fn report(&self, harness: &str, path: &[u32], msg: &str, trace: &[String]) -> String {
        let _ = std::fs::create_dir_all(&self.replay_dir);
        let file = format!("{}/{}-{}-{}-{:08x}.replay", self.replay_dir, self.property, self.config, harness, hash64(path) as u32);
        let p: Vec<String> = path.iter().map(|c| c.to_string()).collect();
        let mut t = format!("property={}\nconfig={}\nharness={}\nthorough={}\npath={}\nmessage={}\n", self.property, self.config, harness, self.thorough as u8, p.join(","), msg.replace('\n', " "));
        for l in trace {
            t.push_str(&format!("trace={}\n", l.replace('\n', " ")));
        }
        let _ = std::fs::write(&file, t);
        file
    }

    pub fn explore(&self, name: &str, body: &Body) -> Stats {
        if let Some(o) = &self.only {
            if o != name {
                return Stats::default();
            }
        }
        arm(self, name);
        let t0 = Instant::now();
        let q = Mutex::new(Queue { jobs: vec![Job { prefix: vec![], lo: 0, hi: u32::MAX }], idle: 0, done: false });
        let cv = Condvar::new();
        let states = StateSet::new();
        let slots: Vec<Slot> = (0..self.threads).map(|_| Slot { start_ms: AtomicU64::new(0), current: Mutex::new(vec![]) }).collect();
        let total = Mutex::new(Stats::default());
        let want_work = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let finished = AtomicBool::new(false);
        let seq: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));

        std::thread::scope(|sc| {
            for id in 0..self.threads {
                let (q, cv, states, slots, total, want_work, stop, seq) = (&q, &cv, &states, &slots, &total, &want_work, &stop, seq.clone());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        SLOT.with(|s| s.set(id));
                        let mut st = Stats::default();
                        loop {
                            let job = {
                                let mut g = q.lock().unwrap();
                                g.idle += 1;
                                want_work.fetch_add(1, SeqCst);
                                loop {
                                    if g.done || stop.load(Relaxed) {
                                        g.done = true;
                                        cv.notify_all();
                                        break None;
                                    }
                                    if let Some(j) = g.jobs.pop() {
                                        g.idle -= 1;
                                        want_work.fetch_sub(1, SeqCst);
                                        break Some(j);
                                    }
                                    if g.idle == self.threads {
                                        g.done = true;
                                        cv.notify_all();
                                        break None;
                                    }
                                    g = cv.wait(g).unwrap();
                                }
                            };
                            let Some(job) = job else { break };
                            self.run_job(name, body, job, &mut st, q, cv, states, &slots[id], want_work, stop, &seq, t0);
                        }
                        total.lock().unwrap().merge(st);
                    })
                    .expect("spawn");
            }
            // watchdog
            let (slots, finished, total) = (&slots, &finished, &total);
            let wd = sc.spawn(move || loop {
                std::thread::sleep(Duration::from_millis(100));
                if finished.load(SeqCst) {
                    return;
                }
                let now = t0.elapsed().as_millis() as u64;
                let oom = OOM_SLOT.load(SeqCst);
                for (i, s) in slots.iter().enumerate() {
                    let st = s.start_ms.load(SeqCst);
                    let hung = st != 0 && now.saturating_sub(st - 1) > HANG_MS;
                    if hung || oom == i {
                        let why = if oom == i { "memory use of one execution exceeds 512 MiB (unbounded growth)" } else { "one execution does not terminate (over 20 s)" };
                        let path = s.current.lock().unwrap().clone();
                        let file = self.report(name, &path, why, &[]);
                        let st = total.try_lock().map(|g| g.clone()).unwrap_or_default();
                        let _ = st;
                        println!("VIOLATION property={} replay={}", self.property, file);
                        println!("  harness {name} [{}]: {why}", self.config);
                        crate::hang_exit(self, name, why);
                    }
                }
            });
            // wait for the workers through the queue, then release the watchdog
            loop {
                std::thread::sleep(Duration::from_millis(5));
                let g = q.lock().unwrap();
                if g.done {
                    break;
                }
            }
            // workers merge their statistics before leaving; `done` is set under the lock
            while Arc::strong_count(&seq) > 1 {
                std::thread::sleep(Duration::from_millis(2));
                if t0.elapsed() > Duration::from_secs(3600) {
                    break;
                }
            }
            finished.store(true, SeqCst);
            let _ = wd.join();
        });
        let mut s = total.into_inner().unwrap();
        s.states = states.len();
        s.transitions += s.steps;
        s.violations.sort_by(|a, b| (a.1.len(), &a.1).cmp(&(b.1.len(), &b.1)));
        eprintln!(
            "  [{}] {:<28} exec={} states={} steps={} depth={} {:.2}s{}{}",
            self.config,
            name,
            s.executions,
            s.states,
            s.steps,
            s.max_depth,
            t0.elapsed().as_secs_f64(),
            if s.capped { " CAPPED" } else { "" },
            if s.violations.is_empty() { "" } else { " VIOLATED" }
        );
        s
    }

    #[allow(clippy::too_many_arguments)]
    fn run_job(&self, name: &str, body: &Body, job: Job, st: &mut Stats, q: &Mutex<Queue>, cv: &Condvar, states: &StateSet, slot: &Slot, want: &AtomicUsize, stop: &AtomicBool, _seq: &AtomicU64, t0: Instant) {
        let base = job.prefix.len();
        let mut cur: Vec<u32> = job.prefix.clone();
        // limit[i]: exclusive upper bound of choices at depth base+i that belong to this job
        let mut limit: Vec<u32> = Vec::new();
        if job.hi != u32::MAX {
            cur.push(job.lo);
            limit.push(job.hi);
        }
        loop {
            if stop.load(Relaxed) {
                return;
            }
            let (res, ctx) = self.exec(body, cur.clone(), false, slot, t0);
            st.executions += 1;
            st.steps += ctx.steps;
            st.max_depth = st.max_depth.max(ctx.path.len());
            states.insert_all(&ctx.states);
            for o in &ctx.outcomes {
                *st.outcomes.entry(o.to_string()).or_default() += 1;
            }
            let path: Vec<u32> = ctx.path.iter().map(|x| x.0).collect();
            for (k, d) in &ctx.known {
                if self.known_listed.contains(*k) {
                    let e = st.known.entry(k.to_string()).or_insert((0, d.clone()));
                    e.0 += 1;
                } else if st.violations.len() < 3 {
                    st.violations.push((name.to_string(), path.clone(), format!("[{k}] {d}")));
                }
            }
            if let Err(v) = res {
                if st.violations.len() < 3 {
                    st.violations.push((name.to_string(), path.clone(), v.0));
                }
                stop.store(true, SeqCst);
                return;
            }
            if !st.violations.is_empty() {
                stop.store(true, SeqCst);
                return;
            }
            if st.executions == 1 || st.executions == 1000 {
                // one execution is replayed twice with tracing: identical observations required
                let (r1, c1) = self.exec(body, path.clone(), true, slot, t0);
                let (r2, c2) = self.exec(body, path.clone(), true, slot, t0);
                // the harness has to make the same decisions; a difference in what the code did is
                // the code's own nondeterminism (hash order) and is only counted
                assert!(r1.is_err() || r2.is_err() || c1.path == c2.path, "harness {name} is not deterministic");
                let same = r1.is_ok() == r2.is_ok() && c1.states == c2.states;
                *st.outcomes.entry(if same { "replayed-identically".into() } else { "replayed-differently".into() }).or_default() += 1;
                if st.samples.len() < 2 {
                    st.samples.push(format!("{name} path={:?}: {}", path, c1.trace.join("; ")));
                }
            }
            // donate work
            if want.load(Relaxed) > 0 {
                let mut g = q.lock().unwrap();
                if g.jobs.is_empty() {
                    for i in base..ctx.path.len() {
                        let (c, n) = ctx.path[i];
                        let hi = limit.get(i - base).copied().unwrap_or(n).min(n);
                        if hi > c + 1 {
                            let mid = c + 1 + (hi - c - 1) / 2;
                            let mid = if mid == hi { c + 1 } else { mid };
                            while limit.len() <= i - base {
                                let k = base + limit.len();
                                limit.push(ctx.path[k].1);
                            }
                            limit[i - base] = mid;
                            g.jobs.push(Job { prefix: path[..i].to_vec(), lo: mid, hi });
                            cv.notify_one();
                            break;
                        }
                    }
                }
            }
            if Instant::now() > self.deadline {
                st.capped = true;
                stop.store(true, SeqCst);
                return;
            }
            // advance to the next path
            let mut i = ctx.path.len();
            loop {
                if i == base {
                    return;
                }
                i -= 1;
                let (c, n) = ctx.path[i];
                let hi = limit.get(i - base).copied().unwrap_or(n).min(n);
                if c + 1 < hi {
                    cur.clear();
                    cur.extend_from_slice(&path[..i]);
                    cur.push(c + 1);
                    limit.truncate(i - base + 1);
                    break;
                }
            }
        }
    }

    fn exec(&self, body: &Body, prefix: Vec<u32>, tracing: bool, slot: &Slot, t0: Instant) -> (Res, Ctx) {
        slot.current.lock().unwrap().clone_from(&prefix);
        slot.start_ms.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
        let mut ctx = Ctx::new(prefix, tracing, self.thorough);
        set_path(&ctx.prefix);
        LIVE.with(|l| l.set(0));
        LIMITED.with(|l| l.set(true));
        let r = guarded(|| body(&mut ctx));
        LIMITED.with(|l| l.set(false));
        slot.start_ms.store(0, SeqCst);
        let r = match r {
            Ok(r) => r,
            Err(Caught::Sut(m)) => Err(Violation(m)),
            Err(Caught::Harness(m)) => {
                eprintln!("INTERNAL ERROR in harness: {m} path={:?}", ctx.path);
                std::process::exit(2);
            }
        };
        (r, ctx)
    }

    /// Re-runs one path with tracing; prints what happened.
    pub fn replay(&self, name: &str, path: Vec<u32>, body: &Body) -> (Res, Vec<String>, Vec<(&'static str, String)>) {
        let slot = Slot { start_ms: AtomicU64::new(0), current: Mutex::new(vec![]) };
        let (r, c) = self.exec(body, path, true, &slot, Instant::now());
        let _ = name;
        (r, c.trace, c.known)
    }

    /// Explicit-state breadth-first search. `step` applies operation `op` to a state (real object
    /// plus model) and checks the property on the transition; `canon` is a complete fingerprint.
    pub fn bfs<T: Clone + Send + Sync>(&self, name: &str, init: Vec<T>, nops: usize, max_depth: usize, step: &(dyn Fn(&T, usize, &mut Ctx) -> Result<Option<T>, Violation> + Sync), canon: &(dyn Fn(&T) -> u64 + Sync)) -> Stats {
        if let Some(o) = &self.only {
            if o != name {
                return Stats::default();
            }
        }
        arm(self, name);
        let t0 = Instant::now();
        let slots: Vec<Slot> = (0..self.threads + 1).map(|_| Slot { start_ms: AtomicU64::new(0), current: Mutex::new(vec![]) }).collect();
        let slots = &slots;
        let mut seen: HashMap<u64, ()> = HashMap::new();
        let mut st = Stats::default();
        let mut frontier: Vec<(T, Vec<u32>)> = Vec::new();
        for (i, s) in init.into_iter().enumerate() {
            if seen.insert(canon(&s), ()).is_none() {
                frontier.push((s, vec![i as u32]));
            }
        }
        let mut depth = 0;
        let mut exhausted = false;
        while depth < max_depth {
            if frontier.is_empty() {
                exhausted = true;
                break;
            }
            depth += 1;
            let n = frontier.len();
            let chunk = n.div_ceil(self.threads).max(1);
            let level_done = AtomicBool::new(false);
            let level_done = &level_done;
            let results: Vec<_> = std::thread::scope(|sc| {
                sc.spawn(move || {
                    while !level_done.load(SeqCst) {
                        std::thread::sleep(Duration::from_millis(2));
                        let now = t0.elapsed().as_millis() as u64;
                        for s in slots {
                            let st = s.start_ms.load(SeqCst);
                            if st != 0 && now.saturating_sub(st - 1) > HANG_MS {
                                let why = "one operation does not terminate (over 20 s)";
                                let path = s.current.lock().unwrap().clone();
                                let file = self.report(name, &path, why, &[]);
                                println!("VIOLATION property={} replay={}", self.property, file);
                                println!("  harness {name} [{}]: {why}", self.config);
                                crate::hang_exit(self, name, why);
                            }
                        }
                    }
                });
                let hs: Vec<_> = frontier
                    .chunks(chunk)
                    .zip(slots)
                    .map(|(part, slot)| {
                        sc.spawn(move || {
                            let mut out: Vec<(u64, T, Vec<u32>)> = Vec::new();
                            let mut st = Stats::default();
                            let mut local: HashSet<u64> = HashSet::new();
                            'o: for (s, path) in part {
                                for op in 0..nops {
                                    let mut ctx = Ctx::new(vec![], false, self.thorough);
                                    st.transitions += 1;
                                    let mut p = path.clone();
                                    p.push(op as u32);
                                    set_path(&p);
                                    slot.current.lock().unwrap().clone_from(&p);
                                    slot.start_ms.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                    let r = guarded(|| step(s, op, &mut ctx));
                                    slot.start_ms.store(0, SeqCst);
                                    for o in &ctx.outcomes {
                                        *st.outcomes.entry(o.to_string()).or_default() += 1;
                                    }
                                    for (k, d) in &ctx.known {
                                        if self.known_listed.contains(*k) {
                                            st.known.entry(k.to_string()).or_insert((0, d.clone())).0 += 1;
                                        } else {
                                            st.violations.push((name.to_string(), p.clone(), format!("[{k}] {d}")));
                                        }
                                    }
                                    match r {
                                        Ok(Ok(Some(t))) => {
                                            let h = canon(&t);
                                            if local.insert(h) {
                                                out.push((h, t, p));
                                            }
                                        }
                                        Ok(Ok(None)) => {}
                                        Ok(Err(v)) => {
                                            st.violations.push((name.to_string(), p, v.0));
                                        }
                                        Err(Caught::Sut(m)) => {
                                            st.violations.push((name.to_string(), p, m));
                                        }
                                        Err(Caught::Harness(m)) => {
                                            eprintln!("INTERNAL ERROR in harness: {m} path={p:?}");
                                            std::process::exit(2);
                                        }
                                    }
                                    if st.violations.len() >= 3 {
                                        break 'o;
                                    }
                                }
                            }
                            (out, st)
                        })
                    })
                    .collect();
                let r = hs.into_iter().map(|h| h.join().expect("bfs worker")).collect();
                level_done.store(true, SeqCst);
                r
            });
            frontier = Vec::new();
            for (out, s) in results {
                st.merge(s);
                for (h, t, p) in out {
                    if seen.insert(h, ()).is_none() {
                        if st.samples.len() < 2 && p.len() > 3 {
                            st.samples.push(format!("{name} ops={p:?}"));
                        }
                        frontier.push((t, p));
                    }
                }
            }
            if !st.violations.is_empty() {
                break;
            }
            if Instant::now() > self.deadline {
                st.capped = true;
                break;
            }
        }
        if frontier.is_empty() {
            exhausted = true;
        }
        st.states = seen.len() as u64;
        st.executions = st.transitions;
        st.max_depth = depth;
        if st.samples.is_empty() {
            st.samples.push(format!("{name}: {} states", st.states));
        }
        *st.outcomes.entry(if exhausted { "bfs-fixpoint".into() } else { format!("bfs-depth-{depth}") }).or_default() += 1;
        st.violations.sort_by(|a, b| (a.1.len(), &a.1).cmp(&(b.1.len(), &b.1)));
        eprintln!("  [{}] {:<28} bfs states={} transitions={} depth={}{} {:.2}s{}", self.config, name, st.states, st.transitions, depth, if exhausted { " (fixpoint)" } else { "" }, t0.elapsed().as_secs_f64(), if st.violations.is_empty() { "" } else { " VIOLATED" });
        st
    }

    /// Replays an operation list of a breadth-first search.
    pub fn bfs_replay<T: Clone>(&self, init: Vec<T>, path: &[u32], step: &(dyn Fn(&T, usize, &mut Ctx) -> Result<Option<T>, Violation> + Sync)) -> (Res, Vec<String>) {
        let mut trace = vec![];
        let mut s = init[path[0] as usize].clone();
        for op in &path[1..] {
            let mut ctx = Ctx::new(vec![], true, self.thorough);
            let r = guarded(|| step(&s, *op as usize, &mut ctx));
            trace.extend(ctx.trace);
            for (k, d) in ctx.known {
                if !self.known_listed.contains(k) {
                    return (fail(format!("[{k}] {d}")), trace);
                }
            }
            match r {
                Ok(Ok(Some(t))) => s = t,
                Ok(Ok(None)) => {}
                Ok(Err(v)) => return (Err(v), trace),
                Err(Caught::Sut(m)) => return (fail(m), trace),
                Err(Caught::Harness(m)) => {
                    eprintln!("INTERNAL ERROR {m}");
                    std::process::exit(2);
                }
            }
        }
        (Ok(()), trace)
    }
}
