//! Runs a property: committed regressions, exhaustive part, generated search
//! over shards, shrinking, replay files, evidence.

use crate::gen::Src;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one evaluation observed.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Obs {
    pub fn new(nontrivial: bool) -> Obs {
        Obs { nontrivial, labels: Vec::new() }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Obs {
        if on {
            self.labels.push(l);
        }
        self
    }
}

pub trait Prop: Sync {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + Hash;
    fn id(&self) -> &'static str;
    /// How cases are made and what makes one non-trivial.
    fn rule(&self) -> &'static str;
    fn gen(&self, s: &mut Src) -> Self::Case;
    /// Err: the property is violated on this case.
    fn check(&self, c: &Self::Case) -> Result<Obs, String>;
    fn shrink(&self, c: &Self::Case) -> Vec<Self::Case>;
    /// Cases per shard in the quick tier (there are 64 shards).
    fn quick(&self) -> usize;
    fn thorough(&self) -> usize {
        self.quick() * 30
    }
    /// A finite space checked completely before the search, split in parts.
    fn exhaustive_parts(&self, _t: Tier) -> usize {
        0
    }
    fn exhaustive(&self, _part: usize, _t: Tier) -> Vec<Self::Case> {
        Vec::new()
    }
    /// A case of extraordinary size; only a few are made.
    fn huge(&self, _: &mut Src) -> Option<Self::Case> {
        None
    }
    /// Executions of each coverage-guided process in the quick tier (one
    /// process per core); 0: this property is not searched that way.
    fn fuzz_runs(&self) -> usize {
        0
    }
    /// A case that runs for longer than this is suspected not to terminate.
    fn hang_secs(&self) -> u64 {
        30
    }
    fn assumptions(&self) -> Vec<&'static str> {
        Vec::new()
    }
}

const SHARDS: usize = 64;
/// Units of huge cases, which run between the exhaustive part and the shards.
const HUGE: usize = 32;
/// Seconds of CPU time; every case of the harness needs a few milliseconds.
const CPU_LIMIT: u64 = 20;

/// Whether a replay, run on its own, uses up its CPU time without an answer
/// (or ends in a violation: a child process of it may be what does not end).
fn exceeds_cpu(id: &str, replay: &Path) -> bool {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let s = format!("ulimit -t {CPU_LIMIT}; exec \"$@\"");
    std::process::Command::new("/bin/sh")
        .args(["-c", &s, "sh"])
        .arg(exe)
        .args(["replay-one", id])
        .arg(replay)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map(|s| matches!(s.signal(), Some(9) | Some(24)) || s.code() == Some(1))
        .unwrap_or(false)
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, &x| (h ^ x as u64).wrapping_mul(0x100_0000_01b3))
}

fn hash_case<C: Hash>(c: &C) -> u64 {
    // SipHash with fixed keys: deterministic.
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    c.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------- panic capturing

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            // The harness itself: no verdict.
            old(info);
            std::process::exit(3);
        }
    }));
}

pub enum Verdict {
    Ok(Obs),
    Violated(String),
}

/// Runs `f`; a panic of the code under test becomes a message, a panic of the
/// harness itself ends the run as an error.
pub fn guarded<T>(what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    r.map_err(|_| {
        let (loc, msg) = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
        if loc.starts_with("src/") || loc.starts_with(concat!(env!("CARGO_MANIFEST_DIR"), "/src")) {
            eprintln!("harness error: panic at {loc}: {msg}\ncase: {}", what());
            std::process::exit(3);
        }
        // Standard-library locations vary between toolchains: keep only the file name.
        let short = loc.strip_prefix("/repo/").unwrap_or(&loc).to_string();
        format!("panicked at {short}: {msg}")
    })
}

/// Evaluates one case.
pub fn judge<P: Prop>(p: &P, c: &P::Case) -> Verdict {
    match guarded(&|| serde_json::to_string(c).unwrap(), || p.check(c)) {
        Ok(Ok(o)) => Verdict::Ok(o),
        Ok(Err(m)) | Err(m) => Verdict::Violated(m),
    }
}

// ------------------------------------------------------------ reporting

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn write_replay<C: Serialize>(id: &str, c: &C, msg: &str) -> PathBuf {
    let msg: String = msg.chars().take(3000).collect();
    let v = json!({"property": id, "message": msg, "case": c});
    let s = serde_json::to_string_pretty(&v).unwrap();
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:016x}.json", fnv(serde_json::to_string(&v["case"]).unwrap().as_bytes())));
    if let Err(e) = std::fs::write(&path, s) {
        eprintln!("cannot write {}: {e}", path.display());
    }
    path
}

fn announce(id: &str, path: &Path, msg: &str, case: &str) {
    let case: String = case.chars().take(1500).collect();
    let msg: String = msg.chars().take(3000).collect();
    println!("violated: {msg}");
    println!("case: {case}");
    println!("VIOLATION property={id} replay={}", path.display());
    use std::io::Write;
    let _ = std::io::stdout().flush();
}

struct Worker<C> {
    current: Mutex<Option<(Instant, C)>>,
    journal: Option<PathBuf>,
}

impl<C: Clone + Serialize> Worker<C> {
    fn enter(&self, c: &C) {
        *self.current.lock().unwrap() = Some((Instant::now(), c.clone()));
        if let Some(p) = &self.journal {
            let _ = std::fs::write(p, serde_json::to_vec(c).unwrap());
        }
    }
    fn leave(&self) {
        *self.current.lock().unwrap() = None;
    }
}

pub struct Limits {
    pub tier: Tier,
    pub seed: u64,
    pub deadline: Duration,
    pub threads: usize,
}

struct Failure<C> {
    shard: usize,
    case: C,
    msg: String,
}

/// Runs a property in this process. Returns the exit code.
pub fn run<P: Prop>(p: &P, lim: &Limits, journal: Option<&Path>) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let id = p.id();
    let workers: Vec<Worker<P::Case>> = (0..lim.threads + 1)
        .map(|i| Worker { current: Mutex::new(None), journal: journal.map(|d| d.join(format!("w{i}.json"))) })
        .collect();
    let done = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let fail: Mutex<Option<Failure<P::Case>>> = Mutex::new(None);
    let stop_above = AtomicUsize::new(usize::MAX);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let labels: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let nontrivial_total = AtomicU64::new(0);
    let samples: Mutex<Vec<(usize, &'static str, Value)>> = Mutex::new(Vec::new());
    let shards_done = AtomicUsize::new(0);
    let exhaustive_cases = AtomicU64::new(0);
    let huge_cases = AtomicU64::new(0);
    let slowest = AtomicU64::new(0);
    // A single case to judge and to shrink, instead of a search.
    let only = std::env::var_os("VH_ONLY");
    let regressions = match &only {
        Some(f) => vec![load_case::<P>(Path::new(f))],
        None => load_regressions(p),
    };
    let n_reg = regressions.len();

    let ex_parts = p.exhaustive_parts(lim.tier);
    let per_shard = match lim.tier {
        Tier::Quick => p.quick(),
        Tier::Thorough => p.thorough(),
    };
    let per_huge = match lim.tier {
        Tier::Quick => 12,
        Tier::Thorough => 200,
    };
    // Unit 0: regressions; 1..=ex_parts: exhaustive; then huge cases; then the
    // random shards.
    let units = if only.is_some() { 1 } else { 1 + ex_parts + HUGE + SHARDS };
    let next = AtomicUsize::new(0);

    std::thread::scope(|sc| {
        let workers = &workers;
        let done = &done;
        sc.spawn(move || {
            // Cases found slow (on a busy machine, say) but not endless.
            let mut slow = vec![None; workers.len()];
            while !done.load(SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for (w, slow) in workers.iter().zip(&mut slow) {
                    let hung = match &*w.current.lock().unwrap() {
                        Some((t, c)) if t.elapsed().as_secs() > p.hang_secs() && *slow != Some(*t) => {
                            Some((*t, c.clone()))
                        }
                        Some((t, _)) if t.elapsed().as_secs() > 20 * p.hang_secs() => {
                            eprintln!("{id}: a case takes more than {} s here but ends when run alone: no verdict", 20 * p.hang_secs());
                            std::process::exit(3);
                        }
                        _ => None,
                    };
                    if let Some((t, c)) = hung {
                        // Wall-clock time is only the trigger: what decides is
                        // the CPU time the case uses when run on its own.
                        let msg = format!("no answer after {CPU_LIMIT} s of CPU time");
                        let path = write_replay(id, &c, &msg);
                        if !exceeds_cpu(id, &path) {
                            let _ = std::fs::remove_file(&path);
                            *slow = Some(t);
                            continue;
                        }
                        announce(id, &path, &msg, &serde_json::to_string(&c).unwrap());
                        std::process::exit(1);
                    }
                }
            }
        });
        let handles: Vec<_> = (0..lim.threads)
            .map(|wi| {
                let w = &workers[wi];
                let (next, fail, stop_above, distinct, labels, samples) =
                    (&next, &fail, &stop_above, &distinct, &labels, &samples);
                let (evals, nontrivial_total, shards_done, exhaustive_cases, huge_cases, slowest, regressions) = (
                    &evals,
                    &nontrivial_total,
                    &shards_done,
                    &exhaustive_cases,
                    &huge_cases,
                    &slowest,
                    &regressions,
                );
                sc.spawn(move || {
                    let mut my_distinct: HashSet<u64> = HashSet::new();
                    let mut my_labels: BTreeMap<&'static str, u64> = BTreeMap::new();
                    let (mut my_evals, mut my_nt) = (0u64, 0u64);
                    loop {
                        let u = next.fetch_add(1, SeqCst);
                        if u >= units {
                            break;
                        }
                        let is_random = u > ex_parts;
                        if is_random && t0.elapsed() > lim.deadline {
                            break;
                        }
                        let mut src = Src::seeded(
                            fnv(id.as_bytes()) ^ lim.seed.wrapping_mul(0x9E37_79B9) ^ ((u as u64) << 40),
                        );
                        let fixed: Vec<P::Case> = if u == 0 {
                            regressions.clone()
                        } else if !is_random {
                            p.exhaustive(u - 1, lim.tier)
                        } else {
                            Vec::new()
                        };
                        let is_huge = is_random && u <= ex_parts + HUGE;
                        let n = if is_huge {
                            per_huge
                        } else if is_random {
                            per_shard
                        } else {
                            fixed.len()
                        };
                        if u > 0 && !is_random {
                            exhaustive_cases.fetch_add(n as u64, SeqCst);
                        }
                        let mut complete = true;
                        for k in 0..n {
                            if (k % 64 == 0 || is_huge)
                                && (stop_above.load(SeqCst) < u
                                    || (is_random && t0.elapsed() > lim.deadline))
                            {
                                complete = false;
                                break;
                            }
                            let case = if is_huge {
                                match p.huge(&mut src) {
                                    Some(c) => c,
                                    None => break,
                                }
                            } else if is_random {
                                p.gen(&mut src)
                            } else {
                                fixed[k].clone()
                            };
                            if is_huge {
                                huge_cases.fetch_add(1, SeqCst);
                            }
                            let began = Instant::now();
                            w.enter(&case);
                            let v = judge(p, &case);
                            w.leave();
                            if is_huge {
                                slowest.fetch_max(began.elapsed().as_millis() as u64, SeqCst);
                            }
                            my_evals += 1;
                            match v {
                                Verdict::Ok(o) => {
                                    for l in &o.labels {
                                        *my_labels.entry(l).or_insert(0) += 1;
                                    }
                                    if o.nontrivial {
                                        my_nt += 1;
                                        let fresh = my_distinct.insert(hash_case(&case));
                                        if fresh && my_nt % 37 == 1 {
                                            let l = o.labels.last().copied().unwrap_or("");
                                            let mut s = samples.lock().unwrap();
                                            if s.len() < 400 && s.iter().filter(|x| x.1 == l).count() < 12 {
                                                let v = json!({"labels": o.labels, "case": &case});
                                                if v.to_string().len() < 1200 {
                                                    s.push((u, l, v));
                                                }
                                            }
                                        }
                                    }
                                }
                                Verdict::Violated(msg) => {
                                    stop_above.fetch_min(u, SeqCst);
                                    let mut f = fail.lock().unwrap();
                                    if f.as_ref().map_or(true, |x| x.shard > u) {
                                        *f = Some(Failure { shard: u, case, msg });
                                    }
                                    complete = false;
                                    break;
                                }
                            }
                        }
                        if complete && is_random && !is_huge {
                            shards_done.fetch_add(1, SeqCst);
                        }
                    }
                    evals.fetch_add(my_evals, SeqCst);
                    nontrivial_total.fetch_add(my_nt, SeqCst);
                    let mut d = distinct.lock().unwrap();
                    d.extend(my_distinct);
                    let mut l = labels.lock().unwrap();
                    for (k, v) in my_labels {
                        *l.entry(k).or_insert(0) += v;
                    }
                })
            })
            .collect();
        for h in handles {
            h.join().unwrap();
        }
        if let Some(f) = fail.lock().unwrap().as_mut() {
            let (c, m) = shrink_failure(p, f.case.clone(), f.msg.clone(), &workers[lim.threads]);
            f.case = c;
            f.msg = m;
        }
        done.store(true, SeqCst);
    });

    let fail = fail.into_inner().unwrap();
    let mut samples = samples.into_inner().unwrap();
    samples.sort_by_key(|s| s.0);
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    let chosen: Vec<Value> = samples
        .iter()
        .filter(|s| {
            let n = seen.entry(s.1).or_insert(0);
            *n += 1;
            *n <= 2
        })
        .map(|s| s.2.clone())
        .take(12)
        .collect();
    let wall = t0.elapsed().as_secs_f64();
    let nd = distinct.into_inner().unwrap().len();
    let ev = json!({
        "property": id,
        "tier": if lim.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": lim.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals.load(SeqCst),
            "distinct_nontrivial": nd,
            "rule": p.rule(),
            "samples": chosen,
            "shards_completed": shards_done.load(SeqCst),
            "shards_planned": SHARDS,
            "regression_cases": n_reg,
            "exhaustive_cases": exhaustive_cases.load(SeqCst),
            "huge_cases": huge_cases.load(SeqCst),
            "slowest_huge_case_ms": slowest.load(SeqCst),
            "nontrivial": nontrivial_total.load(SeqCst),
            "classes": labels.into_inner().unwrap(),
        },
        "assumptions": p.assumptions(),
        "wall_s": wall,
        "violations": if fail.is_some() { 1 } else { 0 },
    });
    if only.is_some() && fail.is_none() {
        return 0;
    }
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n")
        .expect("evidence file");
    match fail {
        Some(f) => {
            let path = write_replay(id, &f.case, &f.msg);
            announce(id, &path, &f.msg, &serde_json::to_string(&f.case).unwrap());
            1
        }
        None => {
            println!(
                "{id}: held on {} cases ({} distinct non-trivial) in {:.1} s",
                evals.load(SeqCst),
                nd,
                wall
            );
            0
        }
    }
}

fn shrink_failure<P: Prop>(p: &P, mut case: P::Case, mut msg: String, w: &Worker<P::Case>) -> (P::Case, String) {
    let t = Instant::now();
    let mut budget = 200_000usize;
    'again: loop {
        for c in p.shrink(&case) {
            if budget == 0 || t.elapsed() > Duration::from_secs(40) {
                break 'again;
            }
            budget -= 1;
            w.enter(&c);
            let v = judge(p, &c);
            w.leave();
            if let Verdict::Violated(m) = v {
                case = c;
                msg = m;
                continue 'again;
            }
        }
        break;
    }
    (case, msg)
}

fn load_regressions<P: Prop>(p: &P) -> Vec<P::Case> {
    let dir = root().join("regress").join(p.id());
    let mut files: Vec<_> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    files.iter().map(|f| load_case::<P>(f)).collect()
}

fn load_case<P: Prop>(f: &Path) -> P::Case {
    let s = std::fs::read_to_string(f).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {e}", f.display());
        std::process::exit(3)
    });
    let v: Value = serde_json::from_str(&s).unwrap();
    let c = if v.get("case").is_some() && v.get("property").is_some() { v["case"].clone() } else { v };
    serde_json::from_value(c).unwrap_or_else(|e| {
        eprintln!("{}: not a case of this property: {e}", f.display());
        std::process::exit(3)
    })
}

/// Re-runs one replay file without any search.
pub fn replay<P: Prop>(p: &P, f: &Path) -> i32 {
    install_hook();
    let c = load_case::<P>(f);
    match judge(p, &c) {
        Verdict::Ok(_) => {
            println!("{}: the case of {} satisfies the property", p.id(), f.display());
            0
        }
        Verdict::Violated(m) => {
            println!("violated: {m}");
            println!("VIOLATION property={} replay={}", p.id(), f.display());
            1
        }
    }
}

/// Re-runs one replay file in a child process, so that a crash or a case that
/// does not end is reported too.
pub fn replay_supervised(id: &str, f: &Path) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let s = format!("ulimit -t {CPU_LIMIT}; exec \"$@\"");
    let st = std::process::Command::new("/bin/sh")
        .args(["-c", &s, "sh"])
        .arg(exe)
        .args(["replay-one", id])
        .arg(f)
        .status()
        .expect("cannot start the child process");
    match st.code() {
        Some(c) => c,
        None => {
            println!("violated: the process was ended: {st}");
            println!("VIOLATION property={id} replay={}", f.display());
            1
        }
    }
}

/// The search, and after it the coverage-guided one.
pub fn check<P: Prop>(p: &P, lim: &Limits) -> i32 {
    let code = supervised(p, lim, None);
    match std::env::var_os("VH_FUZZ") {
        Some(fz) if code == 0 && p.fuzz_runs() > 0 => fuzz(p, lim, Path::new(&fz)),
        _ => code,
    }
}

/// Coverage-guided search: libFuzzer chooses the bytes the generator draws
/// from. Everything it reports is judged again by this build.
fn fuzz<P: Prop>(p: &P, lim: &Limits, fz: &Path) -> i32 {
    let id = p.id();
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("vh-fuzz-{id}-{}", std::process::id()));
    let (runs, secs) = match lim.tier {
        Tier::Quick => (p.fuzz_runs(), 120),
        Tier::Thorough => (p.fuzz_runs() * 40, 3600),
    };
    let procs = lim.threads.min(8);
    let mut children = Vec::new();
    for i in 0..procs {
        let corpus = dir.join(format!("corpus{i}"));
        std::fs::create_dir_all(&corpus).expect("scratch directory");
        let mut s = Src::seeded(lim.seed.wrapping_mul(1000) + i as u64);
        for k in 0..150 {
            let n = if k % 3 == 0 { s.range(4, 48) } else { s.range(48, 1500) };
            let b: Vec<u8> = (0..n).map(|_| s.below(256) as u8).collect();
            std::fs::write(corpus.join(format!("s{k:03}")), b).expect("scratch file");
        }
        let log = std::fs::File::create(dir.join(format!("log{i}"))).expect("scratch file");
        let c = std::process::Command::new(fz)
            .env("VH_FUZZ_ID", id)
            .arg(&corpus)
            .arg(format!("-runs={runs}"))
            .arg(format!("-seed={}", lim.seed as usize % 1_000_000 * 1000 + i + 1))
            .arg(format!("-use_value_profile={}", i % 2))
            .arg(format!("-artifact_prefix={}/found{i}-", dir.display()))
            .arg(format!("-max_total_time={secs}"))
            .args(["-max_len=2048", "-timeout=60", "-rss_limit_mb=3000", "-detect_leaks=0", "-print_final_stats=1"])
            .stdin(std::process::Stdio::null())
            .stdout(log.try_clone().expect("scratch file"))
            .stderr(log)
            .spawn();
        match c {
            Ok(c) => children.push(c),
            Err(e) => {
                eprintln!("{id}: cannot start {}: {e}", fz.display());
                return 2;
            }
        }
    }
    let ended: Vec<_> = children.iter_mut().map(|c| c.wait().expect("child")).collect();
    let log = |i: usize| String::from_utf8_lossy(&std::fs::read(dir.join(format!("log{i}"))).unwrap_or_default()).into_owned();
    let (mut execs, mut corpus, mut features, mut edges) = (0u64, 0u64, 0u64, 0u64);
    let mut code = 0;
    for (i, st) in ended.iter().enumerate() {
        let text = log(i);
        let after = |line: &str, k: &str| -> u64 {
            line.split(k).nth(1).and_then(|r| r.trim().split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()).unwrap_or(0)
        };
        if let Some(l) = text.lines().rev().find(|l| l.contains(" ft: ")) {
            corpus += after(l, "corp:");
            features = features.max(after(l, "ft:"));
            edges = edges.max(after(l, "cov:"));
        }
        execs += text.lines().find(|l| l.starts_with("stat::number_of_executed_units:")).map_or(0, |l| after(l, "units:"));
        if st.success() || code != 0 {
            continue;
        }
        let found = std::fs::read_dir(&dir)
            .ok()
            .and_then(|d| d.filter_map(|e| e.ok()).find(|e| e.file_name().to_string_lossy().starts_with(&format!("found{i}-"))));
        let Some(found) = found else {
            eprintln!("{}\n{id}: the coverage-guided search ended with {st}", text.chars().rev().take(2000).collect::<Vec<_>>().iter().rev().collect::<String>());
            code = 2;
            continue;
        };
        let bytes = std::fs::read(found.path()).expect("what libFuzzer found");
        let case = p.gen(&mut Src::bytes(&bytes));
        let file = dir.join("case.json");
        std::fs::write(&file, serde_json::to_vec(&case).unwrap()).expect("scratch file");
        let again = supervised(p, lim, Some(&file));
        if again != 0 {
            code = again;
        } else if found.file_name().to_string_lossy().contains("-crash-") {
            // It needs the calls made before it.
            let msg = text.lines().find(|l| l.starts_with("violated: ")).unwrap_or("violated: the process was ended").to_string();
            let msg = format!("{} (after earlier cases)", &msg["violated: ".len()..]);
            let path = write_replay(id, &case, &msg);
            announce(id, &path, &msg, &serde_json::to_string(&case).unwrap());
            code = 1;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let file = root().join("evidence").join(format!("{id}.json"));
    let ev = std::fs::read_to_string(&file).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
    if let Some(mut ev) = ev {
        let n = ev["coverage"]["evaluations"].as_u64().unwrap_or(0);
        ev["coverage"]["evaluations"] = json!(n + execs);
        ev["coverage"]["coverage_guided"] =
            json!({"processes": procs, "executions": execs, "edges": edges, "features": features, "corpus": corpus});
        ev["wall_s"] = json!(ev["wall_s"].as_f64().unwrap_or(0.0) + t0.elapsed().as_secs_f64());
        if code == 1 {
            ev["violations"] = json!(1);
        }
        std::fs::write(&file, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence file");
    }
    if code == 0 {
        println!("{id}: coverage-guided search: {execs} executions, {features} features, {corpus} inputs kept, {:.1} s", t0.elapsed().as_secs_f64());
    }
    code
}

/// Runs the property in a child process, so that a crash (signal) of the code
/// under test is reported as a violation with a replay instead of ending the
/// check without an answer.
fn supervised<P: Prop>(p: &P, lim: &Limits, only: Option<&Path>) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let child = |journal: Option<&Path>| {
        let mut c = std::process::Command::new(&exe);
        c.args(["child", p.id()]);
        if let Some(j) = journal {
            c.env("VH_JOURNAL", j);
        }
        if let Some(f) = only {
            c.env("VH_ONLY", f);
        }
        c.status().expect("cannot start the child process")
    };
    let st = child(None);
    if let Some(code) = st.code() {
        return code;
    }
    eprintln!("{}: ended by signal {:?}; running again with a journal", p.id(), st.signal());
    let dir = std::env::temp_dir().join(format!("vh-journal-{}-{}", p.id(), std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let st2 = child(Some(&dir));
    let mut code = st2.code().unwrap_or(2);
    if st2.code().is_none() {
        let crashes = |f: &Path| {
            std::process::Command::new(&exe)
                .args(["replay-one", p.id()])
                .arg(f)
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .status()
                .map(|s| s.code().is_none())
                .unwrap_or(false)
        };
        let mut found = None;
        for i in 0..=lim.threads {
            let f = dir.join(format!("w{i}.json"));
            if f.exists() && crashes(&f) {
                found = Some(load_case::<P>(&f));
                break;
            }
        }
        if let Some(mut case) = found {
            let probe = dir.join("probe.json");
            let mut budget = 300;
            'again: loop {
                for c in p.shrink(&case) {
                    if budget == 0 {
                        break 'again;
                    }
                    budget -= 1;
                    std::fs::write(&probe, serde_json::to_vec(&c).unwrap()).unwrap();
                    if crashes(&probe) {
                        case = c;
                        continue 'again;
                    }
                }
                break;
            }
            let msg = format!("the process was ended by signal {:?}", st2.signal().unwrap_or(0));
            let path = write_replay(p.id(), &case, &msg);
            announce(p.id(), &path, &msg, &serde_json::to_string(&case).unwrap());
            code = 1;
        } else {
            eprintln!("{}: the crash could not be tied to one case", p.id());
            code = 2;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}
