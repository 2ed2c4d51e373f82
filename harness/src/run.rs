//! The runner: a parent process which watches a worker process, which runs the cases of a property
//! on several threads. A case is a function of (seed, property, section, index), so any case can be
//! replayed alone. The parent turns crashes and runaway cases of the worker into violations, after
//! confirming them by replaying the case.

use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// CPU seconds (not wall time) one case may use; cases take milliseconds.
const CASE_CPU_S: f64 = 25.0;
const THREADS: usize = 8;

pub struct Section {
    pub name: &'static str,
    /// Number of cases in the quick tier.
    pub quick: u64,
    /// Number of cases in the thorough tier.
    pub thorough: u64,
    pub f: fn(&mut Ctx),
}

pub struct Known {
    /// Printed after KNOWN-FINDING: property=<id>
    pub what: &'static str,
    /// Whether it still fails.
    pub fails: fn() -> bool,
}

pub struct Spec {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub sections: Vec<Section>,
    pub known: Vec<Known>,
}

/// What a case sees.
pub struct Ctx {
    pub rng: Rng,
    pub index: u64,
    pub total: u64,
    pub section: &'static str,
    pub thorough: bool,
    pub verbose: bool,
    log: Vec<String>,
    problems: Vec<String>,
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    nontrivial: bool,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", msg, loc)));
    }));
}

/// Runs `f`, returning the panic message if it panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

impl Ctx {
    fn new(thorough: bool, verbose: bool) -> Self {
        Ctx {
            rng: Rng::new(0),
            index: 0,
            total: 0,
            section: "",
            thorough,
            verbose,
            log: vec![],
            problems: vec![],
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            nontrivial: false,
        }
    }

    /// A context for use outside of the runner (eg. under an interpreter).
    pub fn standalone(seed: u64) -> Self {
        install_hook();
        let mut c = Ctx::new(false, true);
        c.rng = Rng::new(seed);
        c.section = "standalone";
        c
    }

    pub fn take_problems(&mut self) -> Vec<String> {
        std::mem::take(&mut self.problems)
    }

    pub fn counters(&self) -> &BTreeMap<String, u64> {
        &self.counters
    }

    /// Records a violation of the property.
    pub fn fail(&mut self, msg: impl Into<String>) {
        let msg = msg.into();
        if self.problems.len() < 20 {
            self.problems.push(msg);
        }
    }

    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        self.bump("oracle comparisons");
        if !ok {
            self.fail(msg());
        }
    }

    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: &T, want: &T) {
        self.bump("oracle comparisons");
        if got != want {
            self.fail(format!("{}: got {:?}, expected {:?}", what, got, want));
        }
    }

    pub fn bump(&mut self, name: &str) {
        self.add(name, 1);
    }

    pub fn add(&mut self, name: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(name) {
            *v += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }

    pub fn max(&mut self, name: &str, n: u64) {
        let v = self.counters.entry(format!("max {}", name)).or_insert(0);
        *v = (*v).max(n);
    }

    /// Runs an operation of the code under test; a panic is a violation.
    pub fn op<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.bump(name);
        match guarded(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(format!("{} panicked: {}", name, m));
                None
            }
        }
    }

    /// Runs an operation which may panic.
    pub fn try_op<T>(&mut self, name: &str, f: impl FnOnce() -> T) -> Result<T, String> {
        self.bump(name);
        guarded(f)
    }

    /// Runs an operation which must panic.
    pub fn must_panic<T>(&mut self, name: &str, f: impl FnOnce() -> T) {
        self.bump(name);
        if guarded(f).is_ok() {
            self.fail(format!("{}: returned, but must panic", name));
        } else {
            self.bump("expected panics observed");
        }
    }

    /// Marks the case as non-trivial, with a hash by which distinct cases are counted.
    pub fn distinct(&mut self, hash: u64) {
        self.nontrivial = true;
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(mix(hash ^ hash_bytes(self.section.as_bytes())));
        }
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let prefix = format!("{}#", self.section);
        if self.verbose || self.samples.iter().filter(|s| s.starts_with(&prefix)).count() < 2 {
            let s = format!("{}#{}: {}", self.section, self.index, f());
            if self.verbose {
                self.log.push(s);
            } else {
                let mut s = s;
                if s.len() > 400 {
                    let mut k = 400;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    s.truncate(k);
                    s.push_str("...");
                }
                self.samples.push(s);
            }
        }
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
}

fn case_rng(seed: u64, id: &str, section: &str, index: u64) -> Rng {
    let h = hash_bytes(format!("{}/{}", id, section).as_bytes());
    Rng::new(mix(seed ^ mix(h)).wrapping_add(mix(index.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ h)))
}

fn run_case(spec: &Spec, s: &Section, seed: u64, index: u64, ctx: &mut Ctx) {
    ctx.rng = case_rng(seed, spec.id, s.name, index);
    crate::poly::restart_copies(mix(index));
    ctx.index = index;
    ctx.total = if ctx.thorough { s.thorough } else { s.quick };
    ctx.section = s.name;
    ctx.nontrivial = false;
    if let Err(m) = guarded(|| (s.f)(ctx)) {
        if m.contains("harness:") {
            // A defect of the harness itself is not a verdict.
            if ctx.counters.get("HARNESS ERRORS").copied().unwrap_or(0) < 2 {
                eprintln!("harness error in {}#{}: {}", s.name, index, m);
            }
            ctx.add("HARNESS ERRORS", 1);
        } else {
            ctx.fail(format!("panicked outside of a watched operation: {}", m));
        }
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}

struct Opts {
    seed: u64,
    thorough: bool,
}

fn opts() -> Opts {
    Opts {
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<i64>().ok())
            .unwrap_or(1) as u64,
        thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
    }
}

/// Scales the number of cases (for measurements by hand).
fn cases(s: &Section, o: &Opts) -> u64 {
    let n = if o.thorough { s.thorough } else { s.quick };
    let f: f64 = std::env::var("VH_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    if f == 1.0 {
        n
    } else {
        ((n as f64 * f) as u64).max(1)
    }
}

static KNOWN: OnceLock<Vec<(String, fn() -> bool)>> = OnceLock::new();

fn is_listed(line: &str) -> bool {
    std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default().lines().any(|l| l.trim() == line)
}

/// A defect that is recorded rather than repaired: a violation unless the file lists it.
fn known_case(ctx: &mut Ctx) {
    let known = KNOWN.get().expect("known");
    let (line, fails) = &known[ctx.index as usize % known.len()];
    ctx.distinct(ctx.index);
    if fails() {
        ctx.check(is_listed(line), || format!("not listed in KNOWN_FINDINGS.txt: {}", line));
    }
}

pub fn main(mut spec: Spec) -> ! {
    let n = spec.known.len() as u64;
    KNOWN.set(spec.known.iter().map(|k| (format!("KNOWN-FINDING: property={} {}", spec.id, k.what), k.fails)).collect()).ok();
    if n > 0 {
        spec.sections.push(Section { name: "known-findings", quick: n, thorough: n, f: known_case });
    }
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("worker") => worker(&spec, Path::new(&args[2])),
        Some("case") => {
            let (section, index) = (&args[2], args[3].parse::<u64>().expect("index"));
            let code = replay(&spec, section, index);
            exit(code)
        }
        _ => parent(&spec),
    }
}

/// Runs one case with a log on stdout; exit code 3 if it violates the property.
fn replay(spec: &Spec, section: &str, index: u64) -> i32 {
    install_hook();
    let o = opts();
    let s = spec
        .sections
        .iter()
        .find(|s| s.name == section)
        .expect("no such section");
    let mut ctx = Ctx::new(o.thorough, true);
    run_case(spec, s, o.seed, index, &mut ctx);
    for l in &ctx.log {
        println!("  {}", l);
    }
    for p in &ctx.problems {
        println!("  PROBLEM: {}", p);
    }
    if ctx.problems.is_empty() {
        0
    } else {
        3
    }
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    seq: Vec<AtomicU64>,
    tids: Vec<AtomicU64>,
}

fn thread_cpu(tid: u64) -> Option<f64> {
    stat_cpu(&format!("/proc/self/task/{}/stat", tid))
}

fn stat_cpu(path: &str) -> Option<f64> {
    let s = std::fs::read_to_string(path).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

fn worker(spec: &Spec, dir: &Path) -> ! {
    install_hook();
    let o = opts();
    let slots = std::fs::File::create(dir.join("slots")).expect("slots");
    // A flat index over all sections, in an order which mixes them.
    let counts: Vec<u64> = spec.sections.iter().map(|s| cases(s, &o)).collect();
    let total: u64 = counts.iter().sum();
    let shared = Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        seq: (0..THREADS).map(|_| AtomicU64::new(0)).collect(),
        tids: (0..THREADS).map(|_| AtomicU64::new(0)).collect(),
    };
    let merged: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    let violations: Mutex<Vec<(String, u64, Vec<String>)>> = Mutex::new(vec![]);
    let per_section: Vec<(AtomicU64, AtomicU64)> = counts
        .iter()
        .map(|_| (AtomicU64::new(0), AtomicU64::new(0)))
        .collect();
    let locate = |mut i: u64| -> (usize, u64) {
        for (k, c) in counts.iter().enumerate() {
            if i < *c {
                return (k, i);
            }
            i -= c;
        }
        unreachable!()
    };

    std::thread::scope(|sc| {
        let mut handles = vec![];
        for t in 0..THREADS {
            let (shared, merged, violations, slots, locate, per_section) =
                (&shared, &merged, &violations, &slots, &locate, &per_section);
            let o = &o;
            handles.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        if let Ok(p) = std::fs::read_link("/proc/thread-self") {
                            if let Some(tid) = p.file_name().and_then(|n| n.to_str()) {
                                shared.tids[t].store(tid.parse().unwrap_or(0), SeqCst);
                            }
                        }
                        let mut ctx = Ctx::new(o.thorough, false);
                        const BATCH: u64 = 8;
                        'outer: loop {
                            let start = shared.next.fetch_add(BATCH, SeqCst);
                            if start >= total {
                                break;
                            }
                            for flat in start..(start + BATCH).min(total) {
                                if shared.stop.load(SeqCst) {
                                    break 'outer;
                                }
                                let (k, index) = locate(flat);
                                let mut buf = [0u8; 16];
                                buf[..8].copy_from_slice(&(k as u64 + 1).to_le_bytes());
                                buf[8..].copy_from_slice(&index.to_le_bytes());
                                let _ = slots.write_at(&buf, (t * 16) as u64);
                                shared.seq[t].fetch_add(1, SeqCst);
                                run_case(spec, &spec.sections[k], o.seed, index, &mut ctx);
                                per_section[k].0.fetch_add(1, SeqCst);
                                if ctx.nontrivial {
                                    per_section[k].1.fetch_add(1, SeqCst);
                                }
                                if !ctx.problems.is_empty() {
                                    let p = ctx.take_problems();
                                    let mut v = violations.lock().unwrap();
                                    v.push((spec.sections[k].name.to_string(), index, p));
                                    if v.len() >= 5 {
                                        shared.stop.store(true, SeqCst);
                                    }
                                }
                            }
                        }
                        let _ = slots.write_at(&[0u8; 16], (t * 16) as u64);
                        shared.seq[t].store(u64::MAX, SeqCst);
                        merged.lock().unwrap().push(ctx);
                    })
                    .expect("spawn"),
            );
        }
        // Watch for a case which uses too much CPU time.
        let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); THREADS];
        while handles.iter().any(|h| !h.is_finished()) {
            std::thread::sleep(Duration::from_millis(100));
            for t in 0..THREADS {
                let seq = shared.seq[t].load(SeqCst);
                if seq == 0 || seq == u64::MAX {
                    continue;
                }
                let Some(cpu) = thread_cpu(shared.tids[t].load(SeqCst)) else {
                    continue;
                };
                if seen[t].0 != seq {
                    seen[t] = (seq, cpu);
                } else if cpu - seen[t].1 > CASE_CPU_S {
                    let _ = std::fs::write(dir.join("runaway"), t.to_string());
                    exit(77);
                }
            }
        }
    });

    // Merge.
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    for c in merged.into_inner().unwrap() {
        for (k, v) in c.counters {
            let e = counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        distinct.extend(c.distinct);
        samples.extend(c.samples);
    }
    // Two of every section.
    let samples: Vec<String> = spec
        .sections
        .iter()
        .flat_map(|s| {
            let prefix = format!("{}#", s.name);
            let mut v: Vec<String> = samples.iter().filter(|x: &&String| x.starts_with(&prefix)).cloned().collect();
            v.sort_by_key(|x| (x.len() > 150, x.len()));
            let k = v.len() / 2;
            let mut two: Vec<String> = vec![];
            if let Some(x) = v.get(k) { two.push(x.clone()); }
            if let Some(x) = v.last() { if k + 1 < v.len() { two.push(x.clone()); } }
            two
        })
        .collect();
    let evaluations: u64 = per_section.iter().map(|p| p.0.load(SeqCst)).sum();
    let harness_errors = counters.get("HARNESS ERRORS").copied().unwrap_or(0);
    let mut cov = String::new();
    let _ = write!(
        cov,
        "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], ",
        evaluations,
        distinct.len(),
        esc(spec.rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        cov,
        "\"sections\": {{{}}}, \"observed\": {{{}}}",
        spec.sections
            .iter()
            .zip(&per_section)
            .map(|(s, p)| format!(
                "{}: {{\"cases\": {}, \"non_trivial\": {}}}",
                esc(s.name),
                p.0.load(SeqCst),
                p.1.load(SeqCst)
            ))
            .collect::<Vec<_>>()
            .join(", "),
        counters
            .iter()
            .map(|(k, v)| format!("{}: {}", esc(k), v))
            .collect::<Vec<_>>()
            .join(", ")
    );
    std::fs::write(dir.join("coverage"), cov).expect("coverage");

    let mut v = violations.into_inner().unwrap();
    v.sort();
    let mut out = String::new();
    for (section, index, problems) in &v {
        let _ = writeln!(out, "{}\t{}\t{}", section, index, problems.join(" | ").replace(['\n', '\t'], " "));
    }
    std::fs::write(dir.join("violations"), out).expect("violations");
    for (line, fails) in KNOWN.get().expect("known") {
        if is_listed(line) && fails() {
            println!("{}", line);
        }
    }
    std::io::stdout().flush().ok();
    if harness_errors > 0 {
        exit(5);
    }
    // A run whose monitors saw nothing is inconclusive.
    if v.is_empty() {
        for (s, p) in spec.sections.iter().zip(&per_section) {
            if p.1.load(SeqCst) == 0 {
                eprintln!("section {} observed no non-trivial case", s.name);
                exit(6);
            }
        }
    }
    exit(0)
}

/// Runs one case in a process of its own. Ok(None): no violation.
fn confirm(section: &str, index: u64) -> Result<Option<(String, String)>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut child = Command::new(exe)
        .args(["case", section, &index.to_string()])
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut s = vec![];
        std::io::Read::read_to_end(&mut so, &mut s).ok();
        String::from_utf8_lossy(&s).into_owned()
    });
    let h2 = std::thread::spawn(move || {
        let mut s = vec![];
        std::io::Read::read_to_end(&mut se, &mut s).ok();
        String::from_utf8_lossy(&s).into_owned()
    });
    let stat = format!("/proc/{}/stat", child.id());
    let mut cpu = 0.0;
    let status = loop {
        if let Some(st) = child.try_wait().map_err(|e| e.to_string())? {
            break Some(st);
        }
        cpu = stat_cpu(&stat).unwrap_or(cpu);
        if cpu > CASE_CPU_S {
            child.kill().ok();
            child.wait().ok();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let log = format!("{}{}", h1.join().unwrap_or_default(), h2.join().unwrap_or_default());
    Ok(match status {
        None => Some((
            format!("did not finish within {} s of CPU time (cases take milliseconds)", CASE_CPU_S),
            log,
        )),
        Some(st) => match (st.code(), st.signal()) {
            (Some(0), _) => None,
            (Some(3), _) => Some(("property violated".to_string(), log)),
            (_, Some(sig)) => Some((format!("the process died of signal {}", sig), log)),
            (c, _) => Some((format!("the process ended with code {:?}", c), log)),
        },
    })
}

fn parent(spec: &Spec) -> ! {
    let start = Instant::now();
    let o = opts();
    let root = verif_dir();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", spec.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let exe = std::env::current_exe().expect("exe");
    let limit = Duration::from_secs(if o.thorough { 6 * 3600 } else { 840 });
    let mut child = Command::new(&exe)
        .arg("worker")
        .arg(&dir)
        .spawn()
        .expect("worker");
    let status = loop {
        if let Some(s) = child.try_wait().expect("wait") {
            break Some(s);
        }
        if start.elapsed() > limit {
            child.kill().ok();
            child.wait().ok();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };

    let read = |n: &str| std::fs::read_to_string(dir.join(n)).unwrap_or_default();
    let slots = std::fs::read(dir.join("slots")).unwrap_or_default();
    let mut suspects: Vec<(String, u64)> = vec![];
    let mut inconclusive: Option<String> = None;
    let mut found: Vec<(String, u64, String, String)> = vec![];
    let in_flight = |only: Option<usize>| -> Vec<(String, u64)> {
        let mut v = vec![];
        for (t, b) in slots.chunks_exact(16).enumerate() {
            if only.map_or(false, |o| o != t) {
                continue;
            }
            let k = u64::from_le_bytes(b[..8].try_into().unwrap());
            let i = u64::from_le_bytes(b[8..].try_into().unwrap());
            if k > 0 {
                v.push((spec.sections[k as usize - 1].name.to_string(), i));
            }
        }
        v
    };
    match status {
        None => inconclusive = Some("the wall-clock watchdog ended the run".to_string()),
        Some(s) => match (s.code(), s.signal()) {
            (Some(0), _) => {
                for line in read("violations").lines() {
                    let mut f = line.splitn(3, '\t');
                    let (s, i, m) = (
                        f.next().unwrap_or("").to_string(),
                        f.next().unwrap_or("0").parse().unwrap_or(0),
                        f.next().unwrap_or("").to_string(),
                    );
                    let log = match confirm(&s, i) {
                        Ok(Some((_, log))) => log,
                        Ok(None) => "(the case alone does not fail: it depends on what ran before or beside it)".to_string(),
                        Err(e) => e,
                    };
                    found.push((s, i, m, log));
                }
            }
            (Some(77), _) => {
                let t = read("runaway").trim().parse::<usize>().ok();
                suspects = in_flight(t);
            }
            (Some(5), _) => inconclusive = Some("harness error".to_string()),
            (Some(6), _) => inconclusive = Some("nothing observed".to_string()),
            _ => suspects = in_flight(None),
        },
    }
    if !suspects.is_empty() {
        for (s, i) in &suspects {
            match confirm(s, *i) {
                Ok(Some((m, log))) => {
                    found.push((s.clone(), *i, m, log));
                    break;
                }
                Ok(None) => {}
                Err(e) => eprintln!("{}", e),
            }
        }
        if found.is_empty() {
            inconclusive = Some(format!("the worker ended with {:?}, but no case in flight reproduces it", status));
        }
    } else if found.is_empty() && inconclusive.is_none() {
        if let Some(s) = status {
            if s.code() != Some(0) {
                inconclusive = Some(format!("the worker ended with {:?}", s));
            }
        }
    }

    // Evidence.
    let mut cov = read("coverage");
    if cov.is_empty() {
        cov = format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}]",
            suspects.len(),
            suspects.len(),
            esc("the worker did not finish; only the cases in flight are known"),
            suspects.iter().map(|(s, i)| esc(&format!("{}#{}", s, i))).collect::<Vec<_>>().join(", ")
        );
    }
    if let Ok(extra) = std::env::var("VH_EXTRA_COVERAGE") {
        if !extra.is_empty() {
            cov = format!("{}, {}", cov, extra);
        }
    }
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
        esc(spec.id),
        esc(if o.thorough { "thorough" } else { "quick" }),
        o.seed as i64,
        cov,
        spec.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        found.len()
    );
    std::fs::create_dir_all(root.join("evidence")).ok();
    if let Err(e) = std::fs::write(root.join("evidence").join(format!("{}.json", spec.id)), ev) {
        eprintln!("can not write evidence: {}", e);
        exit(2);
    }
    std::fs::remove_dir_all(&dir).ok();

    if !found.is_empty() {
        let replays = root.join("replays");
        std::fs::create_dir_all(&replays).ok();
        for (section, index, msg, log) in &found {
            let path = replays.join(format!("{}-s{}-{}-{}.txt", spec.id, o.seed, section, index));
            let text = format!(
                "property: {}\nseed: {}\ntier: {}\ncase: {} {}\nwhat: {}\nreplay: {}VERIF_SEED={} VERIF_TIER={} bash /verif/check.sh {} case {} {}\n\n{}\n",
                spec.id, o.seed as i64,
                if o.thorough { "thorough" } else { "quick" },
                section, index, msg,
                if std::env::var("VH_ASAN").is_ok() { "VH_ASAN=1 " } else { "" },
                o.seed as i64,
                if o.thorough { "thorough" } else { "quick" },
                spec.id, section, index, log
            );
            std::fs::write(&path, text).ok();
            let mut m = msg.clone();
            if m.len() > 600 {
                let mut k = 600;
                while !m.is_char_boundary(k) {
                    k -= 1;
                }
                m.truncate(k);
            }
            println!("{}#{}: {}", section, index, m);
            println!("VIOLATION property={} replay={}", spec.id, path.display());
        }
        std::io::stdout().flush().ok();
        exit(1);
    }
    if let Some(why) = inconclusive {
        println!("INCONCLUSIVE property={}: {}", spec.id, why);
        exit(2);
    }
    println!(
        "held property={} seed={} tier={} wall={:.1}s",
        spec.id,
        o.seed as i64,
        if o.thorough { "thorough" } else { "quick" },
        start.elapsed().as_secs_f64()
    );
    exit(0)
}

/// The debug text of a value, cut off after 300 bytes (without producing the rest).
pub fn brief<T: std::fmt::Debug>(x: &T) -> String {
    struct Short(String);
    impl std::fmt::Write for Short {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            if self.0.len() + s.len() > 300 {
                return Err(std::fmt::Error);
            }
            self.0.push_str(s);
            Ok(())
        }
    }
    let mut w = Short(String::new());
    if std::fmt::write(&mut w, format_args!("{:?}", x)).is_err() {
        w.0.push_str("...");
    }
    w.0
}
