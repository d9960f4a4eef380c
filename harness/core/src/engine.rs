//! Stateless exhaustive exploration.
//!
//! An execution is a deterministic function of the answers to its calls of
//! [`choose`] (free choice) and [`dev`] (deviation from the default
//! environment answer, bounded by the space's budget). The explorer runs the
//! execution for *every* sequence of answers: depth first, subtrees shared
//! between worker threads. Nothing is sampled.
//!
//! Process structure: the parent supervises a child (`--worker`) that does the
//! exploring and publishes, for every thread, the choice sequence it is about
//! to run. If the child dies or hangs *inside an execution*, the parent re-runs
//! just that execution in isolation; only if it dies or hangs again is that a
//! violation. Everything else that goes wrong is an error of the check.

use crate::vclock;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

// ---------------------------------------------------------------- hashing
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
        x ^= x >> 32;
        x
    }
}
pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
type HSet = HashSet<u64, BuildHasherDefault<Ident>>;

// ---------------------------------------------------------------- spaces
/// One finite space of executions.
pub struct Space {
    pub name: String,
    /// What is enumerated, and the bounds.
    pub desc: String,
    /// Number of deviations from default environment answers.
    pub budget: u32,
    pub run: Box<dyn Fn() -> Res + Send + Sync>,
}
pub fn space(
    name: impl Into<String>,
    desc: impl Into<String>,
    run: impl Fn() -> Res + Send + Sync + 'static,
) -> Space {
    Space {
        name: name.into(),
        desc: desc.into(),
        budget: 0,
        run: Box::new(run),
    }
}
impl Space {
    pub fn budget(mut self, b: u32) -> Space {
        self.budget = b;
        self
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Level {
    Exploration,
    Fault,
    Model,
}
pub struct Check {
    pub level: Level,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub spaces: Vec<Space>,
    pub assumptions: Vec<&'static str>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

// ---------------------------------------------------------------- execution context
pub const MAX_CHOICES: usize = 20_000;
struct Ctx {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    budget: u32,
    used: u32,
    steps: u64,
    nontrivial: bool,
    verbose: bool,
    notes: Vec<String>,
    states: HSet,
    outcomes: HSet,
    cases: HSet,
}
impl Ctx {
    fn new() -> Ctx {
        Ctx {
            prefix: vec![],
            trace: vec![],
            budget: 0,
            used: 0,
            steps: 0,
            nontrivial: false,
            verbose: false,
            notes: vec![],
            states: HSet::default(),
            outcomes: HSet::default(),
            cases: HSet::default(),
        }
    }
    #[inline]
    fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.trace.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        if c as usize >= n {
            panic::panic_any(EngineError(format!(
                "replayed choice {c} out of range {n} at depth {i}: the execution is not a function of its choices"
            )));
        }
        if i >= MAX_CHOICES {
            panic!("horizon of {MAX_CHOICES} choice points exceeded: the code under test does not terminate");
        }
        self.trace.push((c, n as u32));
        c as usize
    }
}
pub struct EngineError(pub String);

thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}
#[inline]
fn ctx() -> &'static mut Ctx {
    let p = CTX.with(|c| c.get());
    assert!(!p.is_null(), "no exploration context on this thread");
    // Only ever used for the duration of one non-reentrant call on the owning thread.
    unsafe { &mut *p }
}
/// A free choice among `n` alternatives.
#[inline]
pub fn choose(n: usize) -> usize {
    ctx().choose(n)
}
/// Choice with default 0; any other answer costs one deviation.
#[inline]
pub fn dev(n: usize) -> usize {
    let c = ctx();
    if c.used >= c.budget {
        return 0;
    }
    let r = c.choose(n);
    if r != 0 {
        c.used += 1;
    }
    r
}
pub fn devs_left() -> u32 {
    let c = ctx();
    c.budget - c.used
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[choose(xs.len())].clone()
}
pub fn flip() -> bool {
    choose(2) == 1
}
/// Report a visited model state (deduplicated by 64-bit hash).
#[inline]
pub fn state<T: Hash + ?Sized>(t: &T) {
    let c = ctx();
    c.steps += 1;
    c.states.insert(hash64(t));
}
#[inline]
pub fn step() {
    ctx().steps += 1;
}
#[inline]
pub fn nontrivial() {
    ctx().nontrivial = true;
}
/// A non-trivial case, identified by `t` (deduplicated by hash).
#[inline]
pub fn case<T: Hash + ?Sized>(t: &T) {
    let c = ctx();
    c.nontrivial = true;
    c.cases.insert(hash64(t));
}
/// Report the observed outcome of the execution (deduplicated).
#[inline]
pub fn outcome<T: Hash + ?Sized>(t: &T) {
    ctx().outcomes.insert(hash64(t));
}
pub fn verbose() -> bool {
    ctx().verbose
}
pub fn note(f: impl FnOnce() -> String) {
    if ctx().verbose {
        let s = f();
        ctx().notes.push(s);
    }
}
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    if b.len() > 400 {
        s = format!("[{} bytes] \"", b.len());
    }
    for &c in b.iter().take(400) {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            32..=126 => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s.push('"');
    if b.len() > 400 {
        s.push_str("...");
    }
    s
}

enum RunResult {
    Ok,
    Fail(String),
    Engine(String),
}
fn run_once(sp: &Space, c: &mut Ctx, prefix: &[u32]) -> RunResult {
    c.prefix.clear();
    c.prefix.extend_from_slice(prefix);
    c.trace.clear();
    c.budget = sp.budget;
    c.used = 0;
    c.nontrivial = false;
    c.notes.clear();
    CTX.with(|x| x.set(c as *mut Ctx));
    let r = {
        let _clock = vclock::Frozen::new();
        panic::catch_unwind(AssertUnwindSafe(|| (sp.run)()))
    };
    CTX.with(|x| x.set(std::ptr::null_mut()));
    match r {
        Ok(Ok(())) => {
            if c.trace.len() < c.prefix.len() {
                return RunResult::Engine(format!(
                    "execution made {} choices while replaying a prefix of {}",
                    c.trace.len(),
                    c.prefix.len()
                ));
            }
            RunResult::Ok
        }
        Ok(Err(m)) => RunResult::Fail(m),
        Err(p) => {
            if let Some(e) = p.downcast_ref::<EngineError>() {
                return RunResult::Engine(e.0.clone());
            }
            let m = PANIC_MSG.with(|m| m.borrow_mut().take());
            RunResult::Fail(format!("panic: {}", m.unwrap_or_default()))
        }
    }
}

// ---------------------------------------------------------------- published progress
const SLOT_WORDS: usize = 4096;
const HDR: usize = 4; // busy+exec counter, space, len
/// A file mapped by worker and supervisor: per thread, the execution it runs.
struct Board {
    ptr: *mut u32,
    n: usize,
}
unsafe impl Send for Board {}
unsafe impl Sync for Board {}
impl Board {
    fn open(path: &Path, n: usize) -> Board {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("board");
        let len = n * SLOT_WORDS * 4;
        f.set_len(len as u64).expect("board size");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                len,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap of the board failed");
        Board {
            ptr: p as *mut u32,
            n,
        }
    }
    fn slot(&self, i: usize) -> &[AtomicU32] {
        assert!(i < self.n);
        unsafe { std::slice::from_raw_parts(self.ptr.add(i * SLOT_WORDS) as *const AtomicU32, SLOT_WORDS) }
    }
    #[inline]
    fn begin(&self, i: usize, space: usize, prefix: &[u32]) {
        let s = self.slot(i);
        s[0].store(0, Relaxed);
        s[2].store(space as u32, Relaxed);
        s[3].store(prefix.len() as u32, Relaxed);
        for (k, p) in prefix.iter().take(SLOT_WORDS - HDR).enumerate() {
            s[HDR + k].store(*p, Relaxed);
        }
        s[1].store(s[1].load(Relaxed).wrapping_add(1), Relaxed);
        s[0].store(1, Release);
    }
    #[inline]
    fn end(&self, i: usize) {
        self.slot(i)[0].store(0, Release);
    }
    fn busy(&self, i: usize) -> Option<(u32, usize, Vec<u32>)> {
        let s = self.slot(i);
        if s[0].load(Acquire) == 0 {
            return None;
        }
        let n = (s[3].load(Relaxed) as usize).min(SLOT_WORDS - HDR);
        Some((
            s[1].load(Relaxed),
            s[2].load(Relaxed) as usize,
            (0..n).map(|k| s[HDR + k].load(Relaxed)).collect(),
        ))
    }
}

// ---------------------------------------------------------------- parallel DFS
#[derive(Clone, Debug)]
pub struct Failure {
    pub space: usize,
    pub choices: Vec<u32>,
    pub msg: String,
    pub notes: Vec<String>,
    pub stable: bool,
}
#[derive(Default)]
struct SpaceStats {
    execs: u64,
    nontrivial: u64,
    steps: u64,
    edges: u64,
    max_depth: usize,
    states: HSet,
    outcomes: HSet,
    cases: HSet,
    wall: f64,
    slowest: f64,
    complete: bool,
}
struct Shared {
    queue: Mutex<Vec<Vec<u32>>>,
    cv: Condvar,
    idle: AtomicUsize,
    hungry: AtomicBool,
    stop: AtomicBool,
    done: AtomicBool,
    capped: AtomicBool,
    fail: Mutex<Option<(Vec<u32>, String)>>,
    engine: Mutex<Option<String>>,
}
const SPLIT_CAP: usize = 1024;

fn worker(
    sh: &Shared,
    sp: &Space,
    sidx: usize,
    tid: usize,
    nthreads: usize,
    board: &Board,
    deadline: Instant,
) -> SpaceStats {
    TIDS[tid % TIDS.len()].store(unsafe { libc::syscall(libc::SYS_gettid) } as u32, SeqCst);
    let times = std::env::var_os("VERIF_TIMES").is_some();
    let mut c = Ctx::new();
    let mut st = SpaceStats::default();
    let mut cur: Vec<u32> = vec![];
    'outer: loop {
        // take a subtree
        {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Relaxed) || sh.done.load(Relaxed) {
                    break 'outer;
                }
                if let Some(p) = q.pop() {
                    cur = p;
                    if q.is_empty() {
                        sh.hungry.store(true, Relaxed);
                    }
                    break;
                }
                sh.hungry.store(true, Relaxed);
                if sh.idle.fetch_add(1, SeqCst) + 1 == nthreads {
                    sh.done.store(true, SeqCst);
                    sh.cv.notify_all();
                    break 'outer;
                }
                q = sh.cv.wait(q).unwrap();
                sh.idle.fetch_sub(1, SeqCst);
            }
        }
        let mut root = cur.len();
        // explore it
        loop {
            board.begin(tid, sidx, &cur);
            let t = if times { Some(Instant::now()) } else { None };
            let r = run_once(sp, &mut c, &cur);
            if let Some(t) = t {
                st.slowest = st.slowest.max(t.elapsed().as_secs_f64());
            }
            board.end(tid);
            st.execs += 1;
            st.edges += (c.trace.len() - root.min(c.trace.len())) as u64;
            st.max_depth = st.max_depth.max(c.trace.len());
            if c.nontrivial {
                st.nontrivial += 1;
            }
            match r {
                RunResult::Ok => (),
                RunResult::Fail(m) => {
                    let mut f = sh.fail.lock().unwrap();
                    let t: Vec<u32> = c.trace.iter().map(|x| x.0).collect();
                    if f.as_ref().map_or(true, |(o, _)| (t.len(), &t) < (o.len(), o)) {
                        *f = Some((t, m));
                    }
                    sh.stop.store(true, SeqCst);
                    let _q = sh.queue.lock().unwrap();
                    sh.cv.notify_all();
                    break 'outer;
                }
                RunResult::Engine(m) => {
                    *sh.engine.lock().unwrap() = Some(m);
                    sh.stop.store(true, SeqCst);
                    let _q = sh.queue.lock().unwrap();
                    sh.cv.notify_all();
                    break 'outer;
                }
            }
            if sh.stop.load(Relaxed) {
                break 'outer;
            }
            if st.execs % 64 == 0 && Instant::now() > deadline {
                sh.capped.store(true, SeqCst);
                sh.stop.store(true, SeqCst);
                let _q = sh.queue.lock().unwrap();
                sh.cv.notify_all();
                break 'outer;
            }
            // give the shallowest open alternatives away if others starve
            if sh.hungry.load(Relaxed) {
                if let Some(i) = (root..c.trace.len()).find(|&i| c.trace[i].0 + 1 < c.trace[i].1) {
                    let mut q = sh.queue.lock().unwrap();
                    let (from, n) = c.trace[i];
                    let base: Vec<u32> = c.trace[..i].iter().map(|x| x.0).collect();
                    for alt in (from + 1..n).rev() {
                        let mut p = base.clone();
                        p.push(alt);
                        q.push(p);
                    }
                    root = i + 1;
                    if q.len() >= nthreads.min(SPLIT_CAP) {
                        sh.hungry.store(false, Relaxed);
                    }
                    sh.cv.notify_all();
                }
            }
            // next leaf
            let mut i = c.trace.len();
            loop {
                if i <= root {
                    continue 'outer;
                }
                i -= 1;
                if c.trace[i].0 + 1 < c.trace[i].1 {
                    cur.clear();
                    cur.extend(c.trace[..i].iter().map(|x| x.0));
                    cur.push(c.trace[i].0 + 1);
                    break;
                }
            }
        }
    }
    st.steps = c.steps;
    st.states = std::mem::take(&mut c.states);
    st.outcomes = std::mem::take(&mut c.outcomes);
    st.cases = std::mem::take(&mut c.cases);
    st
}

fn explore(sp: &Arc<Vec<Space>>, sidx: usize, nthreads: usize, board: &Arc<Board>, deadline: Instant)
    -> (SpaceStats, Option<(Vec<u32>, String)>, Option<String>) {
    let t0 = Instant::now();
    let sh = Arc::new(Shared {
        queue: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        hungry: AtomicBool::new(true),
        stop: AtomicBool::new(false),
        done: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        fail: Mutex::new(None),
        engine: Mutex::new(None),
    });
    let hs: Vec<_> = (0..nthreads)
        .map(|tid| {
            let (sh, sp, board) = (sh.clone(), sp.clone(), board.clone());
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || worker(&sh, &sp[sidx], sidx, tid, nthreads, &board, deadline))
                .unwrap()
        })
        .collect();
    let mut tot = SpaceStats::default();
    for h in hs {
        let s = h.join().expect("explorer thread died");
        tot.execs += s.execs;
        tot.nontrivial += s.nontrivial;
        tot.steps += s.steps;
        tot.edges += s.edges;
        tot.slowest = tot.slowest.max(s.slowest);
        tot.max_depth = tot.max_depth.max(s.max_depth);
        if tot.states.len() < s.states.len() {
            let o = std::mem::replace(&mut tot.states, s.states);
            tot.states.extend(o);
        } else {
            tot.states.extend(s.states);
        }
        tot.outcomes.extend(s.outcomes);
        tot.cases.extend(s.cases);
    }
    tot.wall = t0.elapsed().as_secs_f64();
    tot.complete = !sh.stop.load(SeqCst);
    let f = sh.fail.lock().unwrap().take();
    let e = sh.engine.lock().unwrap().take();
    (tot, f, e)
}

/// Run one execution in the current thread, with notes.
fn replay_here(sp: &Space, choices: &[u32]) -> (RunResult, Vec<String>) {
    let mut c = Ctx::new();
    c.verbose = true;
    let r = run_once(sp, &mut c, choices);
    (r, c.notes)
}

// ---------------------------------------------------------------- JSON
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jarr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

// ---------------------------------------------------------------- driver
fn install_hook() {
    panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if CTX.with(|c| c.get()).is_null() {
            eprintln!("panic outside an execution: {m} at {l}");
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{m} at {l}")));
    }));
}

/// An execution hangs if it takes this many seconds of its thread's processor time ...
const HANG_CPU_S: f64 = 50.0;
/// ... or stays this many seconds without using any to speak of, or this long altogether
const HANG_IDLE_S: u64 = 60;
const HANG_WALL_S: u64 = 300;
/// The kernel's names of the exploring threads
static TIDS: [AtomicU32; 64] = [const { AtomicU32::new(0) }; 64];
/// Processor time used by thread `t` of process `pid`, in seconds.
fn cpu_s(pid: u32, t: u32) -> f64 {
    std::fs::read_to_string(format!("/proc/{pid}/task/{t}/schedstat"))
        .ok()
        .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<f64>().ok()))
        .map(|ns| ns / 1e9)
        .unwrap_or(0.0)
}
fn hangs(wall: u64, cpu: f64) -> bool {
    cpu > HANG_CPU_S || (wall > HANG_IDLE_S && cpu < 1.0) || wall > HANG_WALL_S
}
const EXIT_HANG: i32 = 78;
const EXIT_MEM: i32 = 77;
const RSS_LIMIT_MB: u64 = 20_000;

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096 >> 20)
        .unwrap_or(0)
}

pub fn main(table: &[(&'static str, fn(Tier) -> Check)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    // everything, replays included, runs on a stack of the size the explorers have
    let table: Vec<(&'static str, fn(Tier) -> Check)> = table.to_vec();
    let code = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || main_(&table, &args[1..]))
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code)
}

fn main_(table: &[(&'static str, fn(Tier) -> Check)], args: &[String]) -> i32 {
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let get = |id: &str| table.iter().find(|x| x.0 == id).map(|x| (x.1)(tier));
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for t in table {
                println!("{}", t.0);
            }
            0
        }
        Some("--worker") => {
            install_hook();
            worker_main(get(&args[1]).expect("property"), &args[1], tier, &args[2])
        }
        Some("--case") => {
            // --case ID SPACE choices : run one execution, exit 0 ok / 1 fail
            install_hook();
            let ck = get(&args[1]).expect("property");
            let choices = parse_choices(&args[3]);
            let Some(sp) = ck.spaces.iter().find(|s| s.name == args[2]) else {
                eprintln!("no such space");
                return 2;
            };
            let (r, notes) = replay_here(sp, &choices);
            for n in &notes {
                println!("  {n}");
            }
            match r {
                RunResult::Ok => {
                    println!("execution satisfies the property");
                    0
                }
                RunResult::Fail(m) => {
                    println!("FAIL {m}");
                    1
                }
                RunResult::Engine(m) => {
                    println!("ENGINE {m}");
                    2
                }
            }
        }
        Some(id) => match get(id) {
            Some(ck) => {
                let t0 = Instant::now();
                let rc = supervise(ck, id, tier, &root, Build::Checked);
                match (rc, std::env::var_os("VERIF_PLAIN_EXE")) {
                    // the same code as it is released: without overflow checks and debug assertions
                    (0, Some(_)) => {
                        std::env::set_var("VERIF_TIER", "quick");
                        if tier == Tier::Quick && std::env::var_os("VERIF_WALL_CAP_S").is_none() {
                            // on a machine so slow that it matters, the two share 600 s
                            let left = 600u64.saturating_sub(t0.elapsed().as_secs()).min(400).max(100);
                            std::env::set_var("VERIF_WALL_CAP_S", left.to_string());
                        }
                        let ck = table.iter().find(|x| x.0 == id).map(|x| (x.1)(Tier::Quick)).expect("property");
                        supervise(ck, id, Tier::Quick, &root, Build::Plain)
                    }
                    _ => rc,
                }
            }
            None => {
                eprintln!("unknown property {id}");
                2
            }
        },
        None => {
            eprintln!("usage: ID | list | --case ID SPACE CHOICES");
            2
        }
    }
}
fn parse_choices(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("choice")).collect()
}
fn join_choices(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn threads() -> usize {
    std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16))
}

/// Explores everything; writes the result file `out`; exit 0 / 1 / 2.
fn worker_main(ck: Check, id: &str, tier: Tier, out: &str) -> i32 {
    assert!(vclock::works(), "the clock is not under control");
    let n = threads();
    let board = Arc::new(Board::open(Path::new(&format!("{out}.board")), n));
    let only = std::env::var("VERIF_SPACE").ok();
    let progress = Arc::new(AtomicU64::new(0));
    {
        let (board, _p) = (board.clone(), progress.clone());
        std::thread::spawn(move || {
            let me = std::process::id();
            let cpu = |i: usize| cpu_s(me, TIDS[i % TIDS.len()].load(SeqCst));
            let mut last: HashMap<usize, (u32, Instant, f64)> = HashMap::new();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                for i in 0..board.n {
                    match board.busy(i) {
                        Some((c, _, _)) => {
                            let e = last.entry(i).or_insert_with(|| (c, Instant::now(), cpu(i)));
                            if e.0 != c {
                                *e = (c, Instant::now(), cpu(i));
                            } else if hangs(e.1.elapsed().as_secs(), cpu(i) - e.2) {
                                eprintln!("watchdog: execution in slot {i} does not end");
                                std::process::exit(EXIT_HANG);
                            }
                        }
                        None => {
                            last.remove(&i);
                        }
                    }
                }
                if rss_mb() > RSS_LIMIT_MB {
                    eprintln!("watchdog: memory");
                    std::process::exit(EXIT_MEM);
                }
            }
        });
    }
    let cap = std::env::var("VERIF_WALL_CAP_S")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(tier.pick(400u64, 6 * 3600));
    let deadline = Instant::now() + Duration::from_secs(cap);
    let spaces = Arc::new(ck.spaces);
    let t0 = Instant::now();
    let mut stats: Vec<(usize, SpaceStats)> = vec![];
    let mut failure: Option<Failure> = None;
    for i in 0..spaces.len() {
        if let Some(o) = &only {
            if !spaces[i].name.starts_with(o.as_str()) {
                continue;
            }
        }
        let (st, fail, eng) = explore(&spaces, i, n, &board, deadline);
        eprintln!(
            "{id} {}: {} executions ({} non-trivial), {} states, {} steps, {} outcomes, depth {}, {:.2} s{}",
            spaces[i].name, st.execs, st.nontrivial, st.states.len(), st.steps, st.outcomes.len(), st.max_depth, st.wall,
            if st.complete { String::new() } else { " [NOT COMPLETED]".to_string() } + &if st.slowest > 0.0 { format!(" slowest {:.3} s", st.slowest) } else { String::new() }
        );
        stats.push((i, st));
        if let Some(m) = eng {
            eprintln!("engine error in space {}: {m}", spaces[i].name);
            return 2;
        }
        if let Some((choices, msg)) = fail {
            // The same execution must fail every time.
            let (r1, notes) = replay_here(&spaces[i], &choices);
            let (r2, _) = replay_here(&spaces[i], &choices);
            let stable = matches!(r1, RunResult::Fail(_)) && matches!(r2, RunResult::Fail(_));
            failure = Some(Failure { space: i, choices, msg, notes, stable });
            break;
        }
    }
    // samples: replay first, a middle and last-ish executions verbosely
    let mut samples = vec![];
    for (i, _) in stats.iter().take(6) {
        if failure.is_some() {
            break;
        }
        let (_, notes) = replay_here(&spaces[*i], &[]);
        let mut last = Ctx::new();
        // walk to the "all largest" execution
        let mut prefix: Vec<u32> = vec![];
        for _ in 0..200 {
            let _ = run_once(&spaces[*i], &mut last, &prefix);
            let k = prefix.len();
            if last.trace.len() <= k {
                break;
            }
            // alternate middle / last alternatives so that the sample is typical
            let (_, a) = last.trace[k];
            prefix.push(if k % 2 == 0 { a / 2 } else { a - 1 });
        }
        let (_, notes2) = replay_here(&spaces[*i], &prefix);
        for (which, ns) in [("default choices", notes), ("middle choices", notes2)] {
            let mut s = ns.join("; ");
            if s.len() > 700 {
                let mut k = 700;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            samples.push(jstr(&format!("[{}; {}] {}", spaces[*i].name, which, s)));
        }
    }
    let sum = |f: &dyn Fn(&SpaceStats) -> u64| stats.iter().map(|s| f(&s.1)).sum::<u64>();
    let complete = stats.iter().all(|s| s.1.complete) && only.is_none();
    let mut all_states = HSet::default();
    let mut n_states = 0u64;
    for s in &stats {
        // states of different spaces are kept apart (their encodings differ)
        n_states += s.1.states.len() as u64;
        all_states.extend(s.1.outcomes.iter());
    }
    let spaces_json: Vec<String> = stats
        .iter()
        .map(|(i, s)| {
            format!(
                "{{\"name\":{},\"bounds\":{},\"deviation_budget\":{},\"executions\":{},\"nontrivial\":{},\"states\":{},\"steps\":{},\"choice_edges\":{},\"distinct_cases\":{},\"distinct_outcomes\":{},\"max_choice_depth\":{},\"wall_s\":{:.2},\"completed\":{}}}",
                jstr(&spaces[*i].name), jstr(&spaces[*i].desc), spaces[*i].budget, s.execs, s.nontrivial,
                s.states.len(), s.steps, s.edges, if s.cases.is_empty() { s.nontrivial as usize } else { s.cases.len() }, s.outcomes.len(), s.max_depth, s.wall, s.complete
            )
        })
        .collect();
    let execs = sum(&|s| s.execs);
    // distinct non-trivial cases: distinct inputs where the check names them, else
    // distinct choice sequences (one per execution)
    let mut cases = HSet::default();
    let mut distinct = 0u64;
    for (_, s) in &stats {
        if s.cases.is_empty() {
            distinct += s.nontrivial;
        }
        cases.extend(s.cases.iter());
    }
    distinct += cases.len() as u64;
    let head = match ck.level {
        Level::Model => format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{}",
            n_states, sum(&|s| s.steps), execs
        ),
        _ => format!(
            "\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{}",
            execs, distinct, jstr(ck.rule)
        ),
    };
    let level = match ck.level {
        Level::Model => "model_checking",
        Level::Fault => "fault_enumeration",
        Level::Exploration => "exploration",
    };
    let ev = format!(
        "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{},\n \"level\":{},\n \"coverage\":{{{},\n  \"distinct_outcomes\":{},\n  \"exhaustive\":{},\n  \"spaces\":{},\n  \"samples\":{},\n  \"explanation\":{}}},\n \"assumptions\":{},\n \"violations\":{},\n \"wall_s\":{:.2}\n}}\n",
        jstr(id),
        jstr(tier.pick("quick", "thorough")),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        jstr(level),
        head,
        all_states.len(),
        complete && failure.is_none(),
        jarr(&spaces_json),
        jarr(&samples),
        jstr(&format!("Stateless exhaustive exploration of the real code: every choice sequence of every space is one execution, compared step by step with an independent reference model. {}", ck.rule)),
        jarr(&ck.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>()),
        failure.is_some() as u32,
        t0.elapsed().as_secs_f64()
    );
    std::fs::write(format!("{out}.evidence"), ev).expect("evidence");
    if let Some(f) = &failure {
        std::fs::write(
            format!("{out}.fail"),
            format!(
                "{}\n{}\n{}\n{}\n{}",
                spaces[f.space].name,
                join_choices(&f.choices),
                f.stable,
                f.msg.replace('\n', "\\n"),
                f.notes.join("\n")
            ),
        )
        .expect("fail file");
        return 1;
    }
    0
}

/// How the code under test is compiled.
#[derive(Clone, Copy, PartialEq)]
enum Build {
    /// with overflow checks and debug assertions
    Checked,
    /// without
    Plain,
}
/// The evidence of the first run, with the counts of the second one.
fn merge(first: &Path, second: &str) {
    let (Ok(a), Ok(b)) = (std::fs::read_to_string(first), std::fs::read_to_string(second)) else {
        panic!("evidence");
    };
    let n = |key: &str| -> u64 {
        let k = format!("\"{key}\":");
        b.split(&k).skip(1).filter_map(|r| r.split(|c: char| !c.is_ascii_digit()).next()?.parse::<u64>().ok()).sum()
    };
    let done = b.contains("\"exhaustive\":true");
    let add = format!(
        "\"coverage\":{{\"without_overflow_checks_and_debug_assertions\":{{\"tier\":\"quick\",\"executions\":{},\"steps\":{},\"exhaustive\":{done}}},",
        n("executions"), n("steps")
    );
    let mut a = a.replacen("\"coverage\":{", &add, 1);
    if !done {
        a = a.replacen("\"exhaustive\":true,\n", "\"exhaustive\":false,\n", 1);
    }
    std::fs::write(first, a).expect("evidence");
}
fn supervise(ck: Check, id: &str, tier: Tier, root: &Path, build: Build) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let tmp = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch");
    let out = tmp.join("out");
    let outs = out.to_str().unwrap().to_string();
    let exe = match build {
        Build::Checked => std::env::current_exe().expect("exe"),
        Build::Plain => std::env::var_os("VERIF_PLAIN_EXE").expect("exe").into(),
    };
    let t0 = Instant::now();
    let status = std::process::Command::new(&exe)
        .args(["--worker", id, &outs])
        .status()
        .expect("worker");
    let rc = status.code();
    let code = match rc {
        Some(0) => {
            let ev = evdir.join(format!("{id}.json"));
            match build {
                Build::Checked => {
                    std::fs::copy(format!("{outs}.evidence"), ev).expect("evidence");
                    println!("OK property={id} wall_s={:.1}", t0.elapsed().as_secs_f64());
                }
                Build::Plain => {
                    merge(&ev, &format!("{outs}.evidence"));
                    println!("OK property={id} without overflow checks and debug assertions, wall_s={:.1}", t0.elapsed().as_secs_f64());
                }
            }
            0
        }
        Some(1) => {
            std::fs::copy(format!("{outs}.evidence"), evdir.join(format!("{id}.json"))).expect("evidence");
            let f = std::fs::read_to_string(format!("{outs}.fail")).expect("fail file");
            let mut it = f.splitn(5, '\n');
            let (sp, ch, stable, msg, notes) = (
                it.next().unwrap_or(""),
                it.next().unwrap_or(""),
                it.next().unwrap_or(""),
                it.next().unwrap_or(""),
                it.next().unwrap_or(""),
            );
            report(root, id, tier, build, sp, ch, msg, notes, stable == "true")
        }
        Some(2) => {
            eprintln!("the check itself failed");
            2
        }
        _ => {
            // died or hung inside some execution: which one, and does it do so alone?
            let why = match rc {
                Some(EXIT_HANG) => "an execution did not end".to_string(),
                Some(EXIT_MEM) => "memory use without bound".to_string(),
                Some(c) => format!("exit status {c}"),
                None => format!("killed by signal {:?}", status.signal()),
            };
            eprintln!("explorer died: {why}; re-running the executions that were in progress, one by one");
            let board = Board::open(Path::new(&format!("{outs}.board")), threads());
            let mut res = 2;
            for i in 0..board.n {
                let Some((_, s, choices)) = board.busy(i) else { continue };
                let Some(sp) = ck.spaces.get(s) else { continue };
                let chs = join_choices(&choices);
                let mut ch = std::process::Command::new(&exe)
                    .args(["--case", id, &sp.name, &chs])
                    .stdout(std::process::Stdio::null())
                    .spawn()
                    .expect("case");
                let t = Instant::now();
                let how = loop {
                    match ch.try_wait().expect("wait") {
                        Some(st) => {
                            break match st.code() {
                                Some(0) => None,
                                Some(1) => Some("fails when run alone".to_string()),
                                Some(2) => None,
                                Some(c) => Some(format!("exit status {c}")),
                                None => Some(format!("the process is killed by signal {:?} (crash, e.g. stack overflow)", st.signal())),
                            }
                        }
                        None if hangs(t.elapsed().as_secs(), std::fs::read_dir(format!("/proc/{}/task", ch.id())).map_or(0.0, |d| {
                            d.filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).map(|t| cpu_s(ch.id(), t)).fold(0.0, f64::max)
                        })) => {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            break Some("does not end".to_string());
                        }
                        None => {
                            let rss = std::fs::read_to_string(format!("/proc/{}/statm", ch.id()))
                                .ok()
                                .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
                                .map(|p| p * 4096 >> 20)
                                .unwrap_or(0);
                            if rss > 8000 {
                                let _ = ch.kill();
                                let _ = ch.wait();
                                break Some("uses memory without bound".to_string());
                            }
                            std::thread::sleep(Duration::from_millis(20));
                        }
                    }
                };
                if let Some(h) = how {
                    write_min_evidence(&evdir, id, tier, &ck, t0, &h);
                    res = report(root, id, tier, build, &sp.name, &chs, &h, "", true);
                    break;
                }
            }
            if res == 2 {
                eprintln!("no execution reproduces it alone: error of the check");
            }
            res
        }
    };
    let _ = std::fs::remove_dir_all(&tmp);
    code
}
fn write_min_evidence(evdir: &Path, id: &str, tier: Tier, ck: &Check, t0: Instant, h: &str) {
    let cov = match ck.level {
        Level::Model => "\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":1".to_string(),
        _ => format!("\"evaluations\":1,\"distinct_nontrivial\":1,\"rule\":{}", jstr(ck.rule)),
    };
    let level = match ck.level {
        Level::Model => "model_checking",
        Level::Fault => "fault_enumeration",
        Level::Exploration => "exploration",
    };
    let _ = std::fs::write(
        evdir.join(format!("{id}.json")),
        format!(
            "{{\"property\":{},\"tier\":{},\"seed\":1,\"level\":{},\"coverage\":{{{},\"samples\":[{}],\"exhaustive\":false}},\"violations\":1,\"wall_s\":{:.2}}}\n",
            jstr(id), jstr(tier.pick("quick", "thorough")), jstr(level), cov, jstr(h), t0.elapsed().as_secs_f64()
        ),
    );
}
#[allow(clippy::too_many_arguments)]
fn report(root: &Path, id: &str, tier: Tier, build: Build, space: &str, choices: &str, msg: &str, notes: &str, stable: bool) -> i32 {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.json"));
    let _ = std::fs::write(
        &path,
        format!(
            "{{\n \"property\":{},\n \"tier\":{},\n \"build\":{},\n \"space\":{},\n \"choices\":{},\n \"fails_every_time\":{},\n \"message\":{},\n \"execution\":{}\n}}\n",
            jstr(id), jstr(tier.pick("quick", "thorough")), jstr(if build == Build::Plain { "plain" } else { "release" }), jstr(space), jstr(choices), stable, jstr(msg),
            jarr(&notes.split('\n').map(jstr).collect::<Vec<_>>())
        ),
    );
    if build == Build::Plain {
        println!("built without overflow checks and debug assertions:");
    }
    println!("{}", msg.chars().take(2000).collect::<String>());
    for n in notes.lines().take(60) {
        println!("  {}", n.chars().take(600).collect::<String>());
    }
    if !stable {
        println!("  (re-running this execution alone does not fail every time: the code under test keeps state across executions)");
    }
    println!("VIOLATION property={id} replay={}", path.display());
    1
}
