//! Explorer used by every check of this directory.
//!
//! A check is a list of *families*. A family is a finite, numbered space of
//! cases (`0..n`); running case `i` builds the i-th input / configuration /
//! history of that space, drives the real sqrid code with it and compares
//! what it does with a reference model. The explorer runs *every* case of
//! every family, so that a finished run is a statement about the whole
//! bounded space; nothing is sampled.
//!
//! Processes: the parent starts one child that does the exploration with one
//! thread per core. Each thread writes the case it is working on in a journal
//! (a shared mapping), so that the parent can tell which case the child was
//! working on if it crashes, is killed by a failed unsafe-precondition check
//! or gets stuck. A suspected crash or hang only becomes a violation after
//! the same case, run alone in a new process, fails again.

pub mod gb;
pub mod search;
pub mod model;
pub mod dims;
pub mod iter;
pub mod compiler;

use std::any::Any;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a case found to be wrong.
#[derive(Debug, Clone)]
pub struct Viol {
    /// Identifies the failing input / call site; matched against known-findings.txt
    pub key: String,
    pub detail: String,
}

impl From<String> for Viol {
    fn from(s: String) -> Viol {
        Viol { key: String::new(), detail: s }
    }
}

pub type Res = Result<(), Viol>;

/// Fail the current case.
#[macro_export]
macro_rules! bad {
    ($($arg:tt)*) => { return Err($crate::Viol::from(format!($($arg)*))) };
}

/// Fail the current case unless the two values are equal.
#[macro_export]
macro_rules! same {
    ($got:expr, $want:expr, $($arg:tt)*) => {{
        let got = $got;
        let want = $want;
        if got != want {
            return Err($crate::Viol::from(format!("{}: got {:?}, expected {:?}", format_args!($($arg)*), got, want)));
        }
    }};
}

/// Measured while a case runs.
#[derive(Default)]
pub struct Ctx {
    /// Model states / inputs visited
    pub states: u64,
    /// Calls into the code under test whose result was compared with the model
    pub steps: u64,
    outcomes: HashSet<u64>,
    /// Description of the case, for the samples in the evidence
    pub note: String,
    /// True if the case should write its description into `note`
    pub want_note: bool,
    /// True when a single case is being replayed
    pub replaying: bool,
}

impl Ctx {
    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
    }
    #[inline]
    pub fn step(&mut self) {
        self.steps += 1;
    }
    #[inline]
    pub fn add(&mut self, states: u64, steps: u64) {
        self.states += states;
        self.steps += steps;
    }
    /// Record an observed outcome: the number of distinct ones is reported, as
    /// a guard against an exploration in which nothing ever differs.
    #[inline]
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 4096 {
            use std::hash::Hasher;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            self.outcomes.insert(h.finish());
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            self.note = f();
        }
    }
}

type CaseFn = Box<dyn Fn(u64, &mut Ctx) -> Res + Send + Sync>;

/// A finite numbered space of cases.
pub struct Family {
    pub name: String,
    pub bounds: String,
    pub n: u64,
    pub limit_s: u64,
    f: CaseFn,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    pub property: &'static str,
    pub tier: Tier,
    pub fams: Vec<Family>,
    pub assumptions: Vec<String>,
    pub what_states: &'static str,
    pub what_transitions: &'static str,
}

impl Check {
    pub fn new(property: &'static str, what_states: &'static str, what_transitions: &'static str) -> Check {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        Check { property, tier, fams: vec![], assumptions: vec![], what_states, what_transitions }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// Add a family.
    pub fn fam(
        &mut self,
        name: impl Into<String>,
        bounds: impl Into<String>,
        n: u64,
        f: impl Fn(u64, &mut Ctx) -> Res + Send + Sync + 'static,
    ) {
        // Lists of both tiers may overlap
        let mut name: String = name.into();
        while self.fams.iter().any(|f| f.name == name) {
            name.push_str(" (again)");
        }
        self.fams.push(Family {
            name,
            bounds: bounds.into(),
            n,
            limit_s: self.pick(90, 600),
            f: Box::new(f),
        });
    }
    pub fn run(self) -> ! {
        run(self)
    }
}

/* ---------------------------------------------------------------- journal */

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, rlim: *const [u64; 2]) -> i32;
}

const NTHREADS_MAX: usize = 16;
const SLOT: usize = 4; // busy, family, case, sequence
const JOURNAL_LEN: usize = NTHREADS_MAX * SLOT * 8;

struct Journal(*const AtomicU64);
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}

impl Journal {
    fn open(path: &Path, create: bool) -> Journal {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(create).open(path).expect("journal");
        if create {
            f.set_len(JOURNAL_LEN as u64).expect("journal size");
        }
        use std::os::fd::AsRawFd;
        // PROT_READ|PROT_WRITE = 3, MAP_SHARED = 1
        let p = unsafe { mmap(std::ptr::null_mut(), JOURNAL_LEN, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Journal(p as *const AtomicU64)
    }
    fn slot(&self, thread: usize, field: usize) -> &AtomicU64 {
        unsafe { &*self.0.add(thread * SLOT + field) }
    }
    #[inline]
    fn begin(&self, t: usize, fam: u64, case: u64) {
        self.slot(t, 1).store(fam, Ordering::Relaxed);
        self.slot(t, 2).store(case, Ordering::Relaxed);
        self.slot(t, 3).fetch_add(1, Ordering::Relaxed);
        self.slot(t, 0).store(1, Ordering::Release);
    }
    #[inline]
    fn end(&self, t: usize) {
        self.slot(t, 0).store(0, Ordering::Release);
    }
    fn busy(&self) -> Vec<(u64, u64, u64, usize)> {
        (0..NTHREADS_MAX)
            .filter(|&t| self.slot(t, 0).load(Ordering::Acquire) == 1)
            .map(|t| {
                (
                    self.slot(t, 1).load(Ordering::Relaxed),
                    self.slot(t, 2).load(Ordering::Relaxed),
                    self.slot(t, 3).load(Ordering::Relaxed),
                    t,
                )
            })
            .collect()
    }
}

/* ------------------------------------------------------------------ panics */

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(info.payload());
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Run `f`; `Err` with the message if it panics.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => Err(payload(&*p)),
    }
}

fn run_case(f: &Family, i: u64, ctx: &mut Ctx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| (f.f)(i, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            Err(Viol { key: String::new(), detail: format!("panicked: {m}") })
        }
    }
}

/* ------------------------------------------------------------------- child */

#[derive(Default, Clone)]
struct FamStat {
    cases: u64,
    states: u64,
    steps: u64,
    outcomes: u64,
    wall: f64,
    sample: String,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}

const STACK: usize = 512 << 20;

fn nthreads() -> usize {
    std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8))
        .clamp(1, NTHREADS_MAX)
}

fn key_known(known: &BTreeMap<String, String>, key: &str) -> bool {
    !key.is_empty() && known.contains_key(key)
}

fn child(check: Check, dir: &Path) -> ! {
    unsafe {
        // RLIMIT_AS, RLIMIT_CORE
        let lim = 18u64 << 30;
        let _ = setrlimit(9, &[lim, lim]);
        let _ = setrlimit(4, &[0, 0]);
    }
    install_panic_hook();
    let journal = Journal::open(&dir.join("journal"), false);
    let known = read_known(check.property);
    let stop = AtomicBool::new(false);
    let viols: Mutex<Vec<(usize, u64, Viol)>> = Mutex::new(vec![]);
    let knowns: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    let mut stats: Vec<FamStat> = vec![];
    let nt = nthreads();
    // All families are one long line of cases, so that the threads do not
    // wait for each other between families.
    let counters: Vec<AtomicU64> = check.fams.iter().map(|_| AtomicU64::new(0)).collect();
    let results: Vec<Mutex<(FamStat, HashSet<u64>)>> = check.fams.iter().map(|_| Mutex::new(Default::default())).collect();
    std::thread::scope(|s| {
        for t in 0..nt {
            let (check, journal, stop, viols, knowns, known, counters, results) =
                (&check, &journal, &stop, &viols, &knowns, &known, &counters, &results);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    for (fi, fam) in check.fams.iter().enumerate() {
                        let chunk = (fam.n / (nt as u64 * 32)).clamp(1, 4096);
                        let mut ctx = Ctx::default();
                        let mut cases = 0u64;
                        let mut sample = String::new();
                        let t0 = Instant::now();
                        'fam: loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let lo = counters[fi].fetch_add(chunk, Ordering::Relaxed);
                            if lo >= fam.n {
                                break;
                            }
                            for i in lo..(lo + chunk).min(fam.n) {
                                // one sample per family: its middle case
                                ctx.want_note = i == fam.n / 2;
                                journal.begin(t, fi as u64, i);
                                let r = run_case(fam, i, &mut ctx);
                                journal.end(t);
                                cases += 1;
                                if ctx.want_note {
                                    sample = format!("case {i}: {}", if ctx.note.is_empty() { "(as described in bounds)" } else { &ctx.note });
                                }
                                if let Err(v) = r {
                                    if key_known(known, &v.key) {
                                        knowns.lock().unwrap().insert(v.key.clone());
                                    } else {
                                        viols.lock().unwrap().push((fi, i, v));
                                        stop.store(true, Ordering::Relaxed);
                                        break 'fam;
                                    }
                                }
                            }
                        }
                        let mut r = results[fi].lock().unwrap();
                        r.0.cases += cases;
                        r.0.states += ctx.states;
                        r.0.steps += ctx.steps;
                        r.0.wall += t0.elapsed().as_secs_f64();
                        if !sample.is_empty() {
                            r.0.sample = sample;
                        }
                        r.1.extend(ctx.outcomes.drain());
                    }
                })
                .expect("thread");
        }
    });
    for r in &results {
        let g = r.lock().unwrap();
        let mut st = g.0.clone();
        st.outcomes = g.1.len() as u64;
        stats.push(st);
    }
    let mut out = String::new();
    let mut vs = viols.into_inner().unwrap();
    vs.sort_by_key(|v| (v.0, v.1));
    for (fi, i, v) in &vs {
        let _ = writeln!(out, "V\t{fi}\t{i}\t{}\t{}", line(&v.key), line(&v.detail));
    }
    for k in knowns.into_inner().unwrap() {
        let _ = writeln!(out, "K\t{}", line(&k));
    }
    for (fi, st) in stats.iter().enumerate() {
        let _ = writeln!(out, "F\t{fi}\t{}\t{}\t{}\t{}\t{:.3}\t{}", st.cases, st.states, st.steps, st.outcomes, st.wall, line(&st.sample));
    }
    out.push_str("END\n");
    std::fs::write(dir.join("result"), out).expect("result");
    std::process::exit(0)
}

/// Child that runs one case only: exit 0 fine, 3 violated (detail on stdout).
fn single(check: Check, spec: &str) -> ! {
    unsafe {
        let lim = 18u64 << 30;
        let _ = setrlimit(9, &[lim, lim]);
        let _ = setrlimit(4, &[0, 0]);
    }
    install_panic_hook();
    let (name, i) = spec.rsplit_once('#').expect("family#case");
    let i: u64 = i.parse().expect("case number");
    let fam = check.fams.iter().find(|f| f.name == name).expect("no such family");
    assert!(i < fam.n, "no such case");
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut ctx = Ctx { want_note: true, replaying: true, ..Default::default() };
                let r = run_case(fam, i, &mut ctx);
                if !ctx.note.is_empty() {
                    println!("case: {}", ctx.note);
                }
                r
            })
            .expect("thread")
            .join()
    });
    match r {
        Ok(Ok(())) => std::process::exit(0),
        Ok(Err(v)) => {
            println!("violated: {}", v.detail);
            std::process::exit(3)
        }
        Err(_) => std::process::exit(4),
    }
}

/* ------------------------------------------------------------------ parent */

fn verif_dir() -> PathBuf {
    std::env::var_os("MC_VERIF").map(PathBuf::from).unwrap_or_else(|| {
        Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

/// Lines `known: property=<id> key=<key> <what fails>` of known-findings.txt
fn read_known(property: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(k), Some(what)) = (it.next(), it.next(), it.next()) else { continue };
        if p == property {
            if let Some(k) = k.strip_prefix("key=") {
                m.insert(k.to_string(), what.to_string());
            }
        }
    }
    m
}

enum Alone {
    Fine,
    Violated(String),
    Crashed(String),
    Stuck,
}

fn run_alone(family: &str, case: u64, limit: Duration) -> Alone {
    let exe = std::env::current_exe().expect("exe");
    let mut ch = Command::new(exe)
        .env("MC_SINGLE", format!("{family}#{case}"))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            let mut s = String::new();
            use std::io::Read;
            let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
            return match st.code() {
                Some(0) => Alone::Fine,
                Some(3) => Alone::Violated(s),
                _ => Alone::Crashed(format!("{st}")),
            };
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return Alone::Stuck;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn replay_path(property: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{property}.json"))
}

fn report(check: &Check, fam: &Family, case: u64, detail: &str) -> PathBuf {
    let p = replay_path(check.property);
    let tier = check.pick("quick", "thorough");
    let text = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"family\": \"{}\",\n \"bounds\": \"{}\",\n \"case\": {},\n \"detail\": \"{}\",\n \"rerun\": \"VERIF_TIER={} /verif/check.sh {} --replay '{}#{}'\"\n}}\n",
        check.property, tier, esc(&fam.name), esc(&fam.bounds), case, esc(detail), tier, check.property, esc(&fam.name), case
    );
    let _ = std::fs::write(&p, text);
    p
}

fn run(check: Check) -> ! {
    if let Ok(spec) = std::env::var("MC_SINGLE") {
        single(check, &spec);
    }
    if let Ok(d) = std::env::var("MC_CHILD") {
        child(check, Path::new(&d));
    }
    if std::env::var("MC_LIST").is_ok() {
        for f in &check.fams {
            println!("{:>12} {} [{}]", f.n, f.name, f.bounds);
        }
        std::process::exit(0);
    }
    let mut names = HashSet::new();
    for f in &check.fams {
        assert!(names.insert(f.name.clone()), "two families named {}", f.name);
        assert!(f.n > 0, "empty family {}", f.name);
    }
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", check.property, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let mut code = parent(&check, &dir, t0, 0, false);
    if code == DIED {
        // Perhaps the cases were too much for the memory only together
        eprintln!("exploring again, one case at a time");
        code = parent(&check, &dir, t0, 1, false);
    }
    if code == UNSTEADY {
        // A case that fails only after others, or only sometimes: it counts
        // if a second, independent exploration fails as well.
        eprintln!("exploring again");
        code = parent(&check, &dir, t0, 0, true);
    }
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

/// Exit code: the explorer died, and nobody knows why.
const DIED: i32 = 2;
/// Exit code: no verdict for another reason.
const UNDECIDED: i32 = 3;
/// Exit code: a case failed, but not when run alone.
const UNSTEADY: i32 = 4;

fn parent(check: &Check, dir: &Path, t0: Instant, threads: usize, again: bool) -> i32 {
    let journal = Journal::open(&dir.join("journal"), true);
    let exe = std::env::current_exe().expect("exe");
    let _ = std::fs::remove_file(dir.join("result"));
    let mut cmd = Command::new(exe);
    if threads > 0 {
        cmd.env("MC_THREADS", threads.to_string());
    }
    let mut ch = match cmd.env("MC_CHILD", dir).stdin(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start the explorer: {e}");
            return UNDECIDED;
        }
    };
    // (family, case, sequence) last seen per thread, and since when
    let mut seen: BTreeMap<usize, ((u64, u64, u64), Instant)> = BTreeMap::new();
    let mut suspects: Vec<(u64, u64)> = vec![];
    let mut how = String::new();
    let status = loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            break Some(st);
        }
        let now = Instant::now();
        let mut stuck = false;
        for (f, c, q, t) in journal.busy() {
            let e = seen.entry(t).or_insert(((f, c, q), now));
            if e.0 != (f, c, q) {
                *e = ((f, c, q), now);
            } else if now.duration_since(e.1) > Duration::from_secs(check.fams.get(f as usize).map_or(90, |x| x.limit_s)) {
                stuck = true;
                suspects.push((f, c));
                how = "does not terminate".into();
            }
        }
        if stuck {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 2 { 5 } else { 50 }));
    };
    let clean = status.map(|s| s.success()).unwrap_or(false);
    let result = std::fs::read_to_string(dir.join("result")).unwrap_or_default();
    if !clean || !result.ends_with("END\n") {
        if let Some(st) = status {
            suspects = journal.busy().into_iter().map(|(f, c, _, _)| (f, c)).collect();
            how = format!("kills the process ({st})");
        }
        suspects.sort();
        suspects.dedup();
        eprintln!("explorer ended early ({how}); confirming {} suspected cases one by one", suspects.len());
        for (f, c) in suspects {
            let Some(fam) = check.fams.get(f as usize) else { continue };
            let limit = Duration::from_secs(fam.limit_s);
            let detail = match run_alone(&fam.name, c, limit) {
                Alone::Fine => continue,
                Alone::Violated(s) => s,
                Alone::Crashed(s) => match run_alone(&fam.name, c, limit) {
                    Alone::Crashed(_) => format!("kills the process ({s}): failed unsafe precondition, stack overflow or out of memory"),
                    _ => continue,
                },
                Alone::Stuck => "does not terminate".to_string(),
            };
            let p = report(check, fam, c, &detail);
            println!("{} case {c}: {}", fam.name, detail.trim());
            println!("VIOLATION property={} replay={}", check.property, p.display());
            write_evidence(check, t0, &[], 1);
            return 1;
        }
        eprintln!("the explorer died but no case fails when run alone: no verdict");
        return 2;
    }
    let known = read_known(check.property);
    let mut stats: Vec<FamStat> = vec![FamStat::default(); check.fams.len()];
    let mut viol: Option<(usize, u64, String)> = None;
    let mut nviol = 0u64;
    let unline = |s: &str| s.replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\");
    for l in result.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "V" => {
                nviol += 1;
                let x = (p[1].parse::<usize>().unwrap(), p[2].parse::<u64>().unwrap(), unline(p[4]));
                if viol.is_none() {
                    viol = Some(x);
                }
            }
            "K" => {
                let k = unline(p[1]);
                println!("KNOWN-FINDING: property={} {}", check.property, known.get(&k).cloned().unwrap_or(k));
            }
            "F" => {
                stats[p[1].parse::<usize>().unwrap()] = FamStat {
                    cases: p[2].parse().unwrap(),
                    states: p[3].parse().unwrap(),
                    steps: p[4].parse().unwrap(),
                    outcomes: p[5].parse().unwrap(),
                    wall: p[6].parse().unwrap(),
                    sample: unline(p[7]),
                };
            }
            _ => {}
        }
    }
    write_evidence(check, t0, &stats, nviol);
    if let Some((f, c, detail)) = viol {
        let fam = &check.fams[f];
        // sqrid is deterministic, so the case should fail again on its own. If
        // it does not, something is carried over from one case to another (or
        // left to chance), which takes a second exploration to confirm.
        let mut alone = false;
        for _ in 0..8 {
            alone = !matches!(run_alone(&fam.name, c, Duration::from_secs(fam.limit_s)), Alone::Fine);
            if alone {
                break;
            }
        }
        let detail = match (alone, again) {
            (true, _) => detail,
            (false, true) => format!("{detail} (in two explorations, but not when this case is run alone)"),
            (false, false) => {
                eprintln!("{} case {c} failed ({detail}) but passes when replayed", fam.name);
                return UNSTEADY;
            }
        };
        let p = report(check, fam, c, &detail);
        println!("{} case {c}: {detail}", fam.name);
        println!("VIOLATION property={} replay={}", check.property, p.display());
        return 1;
    }
    for (f, st) in check.fams.iter().zip(&stats) {
        if st.cases != f.n {
            eprintln!("family {} ran {} of {} cases: no verdict", f.name, st.cases, f.n);
            return UNDECIDED;
        }
    }
    let (cases, states, steps) = stats.iter().fold((0, 0, 0), |a, s| (a.0 + s.cases, a.1 + s.states, a.2 + s.steps));
    println!(
        "{} held: {} families, {} executions, {} states, {} transitions, {:.1} s",
        check.property,
        stats.len(),
        cases,
        states,
        steps,
        t0.elapsed().as_secs_f64()
    );
    0
}

fn write_evidence(check: &Check, t0: Instant, stats: &[FamStat], violations: u64) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = check.pick("quick", "thorough");
    let (cases, states, steps) = stats.iter().fold((0, 0, 0), |a, s| (a.0 + s.cases, a.1 + s.states, a.2 + s.steps));
    let complete = stats.len() == check.fams.len() && stats.iter().zip(&check.fams).all(|(s, f)| s.cases == f.n);
    if let Ok(summary) = std::env::var("MC_SUMMARY") {
        // Only an additional run, which the main one reports about
        let text = format!("{{\"states\": {states}, \"transitions\": {steps}, \"cases\": {cases}, \"exhaustive\": {complete}, \"violations\": {violations}, \"wall_s\": {:.3}}}", t0.elapsed().as_secs_f64());
        std::fs::write(summary, text).expect("summary");
        if violations == 0 {
            return;
        }
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {states},\n  \"transitions\": {steps},\n  \"traces_validated_against_impl\": {cases},\n  \"exhaustive\": {complete},\n  \"states_are\": \"{}\",\n  \"transitions_are\": \"{}\",\n  \"traces_are\": \"cases: complete executions of the real code, each compared with the reference model at every step\",\n  \"samples\": [",
        check.property, esc(check.what_states), esc(check.what_transitions)
    );
    let mut first = true;
    for (s, f) in stats.iter().zip(&check.fams).filter(|(s, _)| !s.sample.is_empty()).take(12) {
        let _ = write!(o, "{}\n   \"{}\"", if first { "" } else { "," }, esc(&format!("{} {}", f.name, s.sample)));
        first = false;
    }
    let _ = write!(o, "\n  ],\n  \"families\": [");
    first = true;
    for (s, f) in stats.iter().zip(&check.fams) {
        let _ = write!(
            o,
            "{}\n   {{\"name\": \"{}\", \"bounds\": \"{}\", \"cases_in_space\": {}, \"cases_run\": {}, \"states\": {}, \"transitions\": {}, \"distinct_outcomes_capped_4096\": {}, \"thread_s\": {:.2}}}",
            if first { "" } else { "," },
            esc(&f.name),
            esc(&f.bounds),
            f.n,
            s.cases,
            s.states,
            s.steps,
            s.outcomes,
            s.wall
        );
        first = false;
    }
    let _ = write!(o, "\n  ]");
    if let Some(also) = std::env::var("MC_ALSO").ok().and_then(|f| std::fs::read_to_string(f).ok()) {
        let _ = write!(o, ",\n  \"same_cases_compiled_without_runtime_checks\": {also}");
    }
    let _ = write!(o, "\n }},\n \"assumptions\": [");
    for (i, a) in check.assumptions.iter().enumerate() {
        let _ = write!(o, "{}\n  \"{}\"", if i > 0 { "," } else { "" }, esc(a));
    }
    let _ = write!(o, "\n ],\n \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n", t0.elapsed().as_secs_f64());
    let d = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    std::fs::write(d.join(format!("{}.json", check.property)), o).expect("evidence");
}

/// Decode `i` as mixed-radix digits, least significant first.
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<u64> {
    radices
        .iter()
        .map(|&r| {
            let d = i % r;
            i /= r;
            d
        })
        .collect()
}

/// `base` digits of `i`, `n` of them.
pub fn digs(mut i: u64, base: u64, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let d = (i % base) as u8;
            i /= base;
            d
        })
        .collect()
}
