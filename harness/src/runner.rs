//! Runs the cases of a property in parallel, shrinks failures, writes evidence and replay files.

use crate::tape::{shrink, Src};
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

/// What a case is about; filled in while it runs.
#[derive(Default)]
pub struct Ctx {
    /// Readable steps.
    pub trace: Vec<String>,
    /// Classification labels.
    pub labels: Vec<&'static str>,
    /// Set by the property if the case is non-trivial by its rule.
    pub nontrivial: bool,
    pub scratch: PathBuf,
    pub thorough: bool,
}

impl Ctx {
    pub fn log(&mut self, s: impl Into<String>) {
        self.trace.push(s.into());
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

/// Why a case failed.
#[derive(Debug, Clone)]
pub struct Failure {
    /// Identifies the kind of failure, for known findings and shrinking.
    pub signature: String,
    pub message: String,
}

pub type CaseResult = Result<(), Failure>;

pub fn fail<T>(signature: &str, message: impl Into<String>) -> Result<T, Failure> {
    Err(Failure {
        signature: signature.to_string(),
        message: message.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::runner::fail($sig, format!($($arg)*));
        }
    };
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: usize,
    pub thorough: usize,
    pub threads: usize,
    /// A single case must not take longer (watchdog, an error and not a verdict).
    pub case_timeout_s: u64,
    /// Cases that enumerate a space instead of sampling: number of them by tier.
    pub exhaustive: bool,
    pub case: fn(&mut Src, &mut Ctx, usize) -> CaseResult,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static LAST_PANIC_GLOBAL: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let short: String = msg.chars().take(300).collect();
        let text = format!("{loc}: {short}");
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("panic {text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        *LAST_PANIC_GLOBAL.lock().unwrap() = Some(text.clone());
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            // Keep the first one: later ones are usually consequences.
            if p.is_none() {
                *p = Some(text);
            }
        });
    }));
}

pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// The first panic recorded on this thread, kept.
pub fn peek_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow().clone())
        .or_else(|| LAST_PANIC_GLOBAL.lock().unwrap().clone())
        .unwrap_or_else(|| "unknown".into())
}

/// A file name and message without the line number, so that it is stable.
pub fn panic_signature(text: &str) -> String {
    let mut it = text.splitn(2, ": ");
    let loc = it.next().unwrap_or("");
    let msg = it.next().unwrap_or("");
    let file = loc.rsplit('/').next().unwrap_or(loc);
    let file = file.split(':').next().unwrap_or(file);
    let msg: String = msg.chars().take(60).collect();
    format!("panic:{file}:{msg}")
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn hash64(x: impl Hash) -> u64 {
    // Fixed keys: the default hasher of `DefaultHasher::new` is deterministic.
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn scratch_root() -> PathBuf {
    let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    PathBuf::from(base).join(format!("verif-scratch-{}", std::process::id()))
}

/// Properties about what the daemon must not reach run as a user who owns nothing but the scratch
/// directory, so that a broken daemon can not do any harm either.
const UNPRIVILEGED: [&str; 6] = ["C09", "C10", "C11", "C12", "C16", "C24"];
const NOBODY: u32 = 65534;

fn drop_privileges(prop: &Prop) {
    if !UNPRIVILEGED.contains(&prop.id) || unsafe { libc::geteuid() } != 0 {
        return;
    }
    let root = scratch_root();
    std::fs::create_dir_all(&root).expect("scratch");
    std::os::unix::fs::chown(&root, Some(NOBODY), Some(NOBODY)).expect("chown");
    std::env::set_var("HOME", &root);
    std::env::set_current_dir(&root).expect("chdir");
    let ok = unsafe {
        libc::setgroups(0, std::ptr::null()) == 0
            && libc::setegid(NOBODY) == 0
            && libc::seteuid(NOBODY) == 0
    };
    assert!(ok, "could not drop privileges");
}

/// For the files of the harness itself, while no case runs.
fn regain_privileges() {
    unsafe {
        if libc::getuid() == 0 && libc::geteuid() != 0 {
            libc::seteuid(0);
            libc::setegid(0);
        }
    }
}

static SCRATCH_COUNTER: AtomicU64 = AtomicU64::new(0);

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let n = SCRATCH_COUNTER.fetch_add(1, Ordering::Relaxed);
        let p = scratch_root().join(format!("{n}"));
        std::fs::create_dir_all(&p).expect("scratch");
        Self(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

enum Ran {
    Pass,
    Fail(Failure),
    /// The harness itself is at fault.
    Broken(String),
}

fn run_case(prop: &Prop, src: &mut Src, ctx: &mut Ctx, index: usize) -> Ran {
    let scratch = Scratch::new();
    ctx.scratch = scratch.0.clone();
    take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| (prop.case)(src, ctx, index)));
    match r {
        Ok(Ok(())) => Ran::Pass,
        Ok(Err(f)) => {
            if f.signature.starts_with("harness") {
                Ran::Broken(format!("{}: {}", f.signature, f.message))
            } else {
                Ran::Fail(f)
            }
        }
        Err(_) => {
            let p = take_panic().unwrap_or_else(|| "unknown panic".into());
            if p.starts_with("src/") || p.contains("/verif/harness/") {
                Ran::Broken(p)
            } else {
                Ran::Fail(Failure {
                    signature: panic_signature(&p),
                    message: format!("panic at {p}"),
                })
            }
        }
    }
}

#[derive(Clone)]
struct Known {
    signature: String,
    what: String,
}

/// Lines `known: property=<id> signature=<signature> :: <what fails>`; `fixed:` lines suppress nothing.
fn load_known(id: &str) -> Vec<Known> {
    let path = verif_dir().join("known-findings.txt");
    let Ok(text) = std::fs::read_to_string(path) else {
        return vec![];
    };
    let prefix = format!("known: property={id} signature=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .filter_map(|l| l.split_once(" :: "))
        .map(|(signature, what)| Known {
            signature: signature.to_string(),
            what: what.to_string(),
        })
        .collect()
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn write_json(path: &Path, v: &Value) {
    if let Some(d) = path.parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap() + "\n").expect("write json");
}

pub struct Opts {
    pub thorough: bool,
    pub cases: Option<usize>,
    pub only: Option<usize>,
    pub keep_going: bool,
    pub budget_s: u64,
}

fn cleanup_and_exit(code: i32) -> ! {
    regain_privileges();
    let _ = std::fs::remove_dir_all(scratch_root());
    std::process::exit(code)
}

pub fn replay(prop: &Prop, file: &Path) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
        .expect("replay json");
    let tape: Vec<u64> = serde_json::from_value(v["tape"].clone()).expect("tape");
    let index = v["index"].as_u64().unwrap_or(0) as usize;
    let tries = v["tries"].as_u64().unwrap_or(20);
    drop_privileges(prop);
    for t in 0..tries {
        let mut src = Src::replay(&tape);
        let mut ctx = Ctx {
            thorough: v["tier"] == "thorough",
            ..Ctx::default()
        };
        match run_case(prop, &mut src, &mut ctx, index) {
            Ran::Pass => {
                if t == 0 {
                    println!("{}", ctx.trace.join("\n"));
                    println!("(passed in try 1)");
                }
            }
            Ran::Fail(f) => {
                println!("{}", ctx.trace.join("\n"));
                println!("FAILED in try {}: [{}] {}", t + 1, f.signature, f.message);
                println!("VIOLATION property={} replay={}", prop.id, file.display());
                cleanup_and_exit(1);
            }
            Ran::Broken(m) => {
                println!("harness error: {m}");
                cleanup_and_exit(2);
            }
        }
    }
    cleanup_and_exit(0);
}

pub fn run(prop: &Prop, opts: &Opts) -> ! {
    let start = Instant::now();
    let seed = seed();
    let total = opts.cases.unwrap_or(if opts.thorough {
        prop.thorough
    } else {
        prop.quick
    });
    let budget = Duration::from_secs(opts.budget_s);
    let known = load_known(prop.id);
    drop_privileges(prop);

    let next = AtomicUsize::new(0);
    let stop_at = AtomicUsize::new(usize::MAX);
    let out_of_time = AtomicBool::new(false);
    let evaluations = AtomicUsize::new(0);
    let done = AtomicBool::new(false);
    struct Shared {
        distinct: HashSet<u64>,
        labels: BTreeMap<&'static str, usize>,
        samples: BTreeMap<u64, (usize, Vec<String>, Vec<&'static str>)>,
        failures: BTreeMap<usize, (Failure, Vec<u64>, Vec<String>)>,
        known_hits: BTreeMap<String, usize>,
        broken: Option<String>,
        steps: usize,
    }
    let shared = Mutex::new(Shared {
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        samples: BTreeMap::new(),
        failures: BTreeMap::new(),
        known_hits: BTreeMap::new(),
        broken: None,
        steps: 0,
    });
    let threads = prop.threads.max(1);
    let watch: Vec<Mutex<Option<(Instant, usize)>>> = (0..threads).map(|_| Mutex::new(None)).collect();

    std::thread::scope(|scope| {
        scope.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                for w in &watch {
                    if let Some((t, i)) = *w.lock().unwrap() {
                        if t.elapsed().as_secs() > prop.case_timeout_s {
                            println!(
                                "ERROR property={} case {i} did not finish within {} s (watchdog; no verdict)",
                                prop.id, prop.case_timeout_s
                            );
                            cleanup_and_exit(3);
                        }
                    }
                }
            }
        });
        let workers: Vec<_> = (0..threads)
            .map(|w| {
                let (next, stop_at, out_of_time, evaluations, shared, known, watch) = (
                    &next,
                    &stop_at,
                    &out_of_time,
                    &evaluations,
                    &shared,
                    &known,
                    &watch,
                );
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || loop {
                        let i = opts.only.unwrap_or_else(|| next.fetch_add(1, Ordering::Relaxed));
                        if i >= total && opts.only.is_none() || i > stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        if start.elapsed() > budget {
                            out_of_time.store(true, Ordering::Relaxed);
                            break;
                        }
                        *watch[w].lock().unwrap() = Some((Instant::now(), i));
                        let mut src = Src::random(hash64((seed, prop.id, i)));
                        let mut ctx = Ctx {
                            thorough: opts.thorough,
                            ..Ctx::default()
                        };
                        let r = run_case(prop, &mut src, &mut ctx, i);
                        *watch[w].lock().unwrap() = None;
                        evaluations.fetch_add(1, Ordering::Relaxed);
                        let mut s = shared.lock().unwrap();
                        s.steps += ctx.trace.len();
                        for l in &ctx.labels {
                            *s.labels.entry(l).or_default() += 1;
                        }
                        match r {
                            Ran::Pass => {
                                if ctx.nontrivial {
                                    s.distinct.insert(hash64((&src.tape, if prop.exhaustive || src.tape.is_empty() { i + 1 } else { 0 })));
                                    // A sample of cases: those with the smallest hashes.
                                    let h = hash64((seed, i, "sample"));
                                    s.samples.insert(h, (i, ctx.trace, ctx.labels));
                                    if s.samples.len() > 4 {
                                        s.samples.pop_last();
                                    }
                                }
                            }
                            Ran::Fail(f) => {
                                if let Some(k) = known.iter().find(|k| k.signature == f.signature) {
                                    *s.known_hits.entry(k.what.clone()).or_default() += 1;
                                } else {
                                    if !opts.keep_going {
                                        stop_at.fetch_min(i, Ordering::Relaxed);
                                    }
                                    s.failures.insert(i, (f, src.tape.clone(), ctx.trace));
                                }
                            }
                            Ran::Broken(m) => {
                                s.broken.get_or_insert(format!("case {i}: {m}"));
                                stop_at.fetch_min(0, Ordering::Relaxed);
                            }
                        }
                        drop(s);
                        if opts.only.is_some() {
                            break;
                        }
                    })
                    .expect("thread")
            })
            .collect();
        for w in workers {
            let _ = w.join();
        }
        done.store(true, Ordering::Relaxed);
    });

    let s = shared.into_inner().unwrap();
    if let Some(m) = s.broken {
        println!("ERROR property={} harness: {m}", prop.id);
        cleanup_and_exit(2);
    }
    let evals = evaluations.load(Ordering::Relaxed);
    if out_of_time.load(Ordering::Relaxed) && s.failures.is_empty() && evals < total / 5 {
        println!(
            "ERROR property={} only {evals} of {total} cases within {} s (no verdict)",
            prop.id, opts.budget_s
        );
        cleanup_and_exit(3);
    }

    let samples: Vec<Value> = s
        .samples
        .values()
        .map(|(i, trace, labels)| {
            let mut t = trace.clone();
            if t.len() > 60 {
                t.truncate(60);
                t.push("...".into());
            }
            json!({"case": i, "labels": labels, "steps": t})
        })
        .collect();
    let evidence = json!({
        "property": prop.id,
        "tier": if opts.thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": s.distinct.len(),
            "rule": prop.rule,
            "samples": samples,
            "steps": s.steps,
            "classes": s.labels,
            "known_findings_met": s.known_hits,
            "exhaustive": prop.exhaustive && !out_of_time.load(Ordering::Relaxed) && evals >= total,
        },
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
        "violations": s.failures.len(),
    });
    regain_privileges();
    write_json(
        &verif_dir().join("evidence").join(format!("{}.json", prop.id)),
        &evidence,
    );
    for (what, n) in &s.known_hits {
        println!("KNOWN-FINDING: property={} {what} ({n} cases)", prop.id);
    }
    println!(
        "property={} tier={} seed={seed} cases={evals} nontrivial={} steps={} wall={:.1}s",
        prop.id,
        if opts.thorough { "thorough" } else { "quick" },
        s.distinct.len(),
        s.steps,
        start.elapsed().as_secs_f64()
    );
    for (l, n) in &s.labels {
        println!("  {l}: {n}");
    }
    if opts.keep_going {
        let mut by_sig: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
        for (i, (f, _, _)) in &s.failures {
            by_sig.entry(&f.signature).or_default().push(*i);
        }
        for (i, (f, _, _)) in s.failures.iter().take(40) {
            println!("  {i} [{}] {}", f.signature, f.message.chars().take(600).collect::<String>());
        }
        for (sig, is) in by_sig {
            println!("FAILURES [{sig}] {} cases, e.g. {:?}", is.len(), &is[..is.len().min(5)]);
        }
    }

    if let Some((index, (failure, tape, trace))) = s.failures.into_iter().next() {
        println!("case {index} failed: [{}] {}", failure.signature, failure.message);
        // Shrink, keeping the kind of failure.
        let deadline = Instant::now() + Duration::from_secs(if opts.thorough { 120 } else { 40 });
        let mut best: (Failure, Vec<String>) = (failure.clone(), trace);
        let watch_shrink = std::sync::Arc::new(Mutex::new(Instant::now()));
        let provisional = verif_dir()
            .join("replays")
            .join(format!("{}-seed{}-case{}.json", prop.id, seed, index));
        let save = |tape: &[u64], best: &(Failure, Vec<String>)| {
            write_json(
                &provisional,
                &json!({
                    "property": prop.id,
                    "seed": seed,
                    "tier": if opts.thorough { "thorough" } else { "quick" },
                    "index": index,
                    "tries": 20,
                    "signature": best.0.signature,
                    "message": best.0.message,
                    "tape": tape,
                    "trace": best.1,
                    "how": format!("bash /verif/run.sh {} --replay <this file>", prop.id),
                }),
            );
        };
        save(&tape, &best);
        drop_privileges(prop);
        println!("VIOLATION property={} replay={}", prop.id, provisional.display());
        use std::io::Write;
        let _ = std::io::stdout().flush();
        {
            // If a shrinking candidate hangs we still have a verdict and a replay file.
            let w = watch_shrink.clone();
            let limit = prop.case_timeout_s;
            std::thread::spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                if w.lock().unwrap().elapsed().as_secs() > limit {
                    cleanup_and_exit(1);
                }
            });
        }
        let sig = failure.signature.clone();
        let small = shrink(tape, deadline, |cand| {
            // Two tries: document actor ids are random.
            for _ in 0..2 {
                *watch_shrink.lock().unwrap() = Instant::now();
                let mut src = Src::replay(cand);
                let mut ctx = Ctx {
                    thorough: opts.thorough,
                    ..Ctx::default()
                };
                if let Ran::Fail(f) = run_case(prop, &mut src, &mut ctx, index) {
                    if f.signature == sig {
                        best = (f, ctx.trace);
                        return Some(src.tape);
                    }
                }
            }
            None
        });
        // `best` may belong to a candidate that was not accepted; run the result once more.
        for _ in 0..10 {
            let mut src = Src::replay(&small);
            let mut ctx = Ctx {
                thorough: opts.thorough,
                ..Ctx::default()
            };
            if let Ran::Fail(f) = run_case(prop, &mut src, &mut ctx, index) {
                best = (f, ctx.trace);
                break;
            }
        }
        regain_privileges();
        save(&small, &best);
        println!("shrunk to {} choices: [{}] {}", small.len(), best.0.signature, best.0.message);
        for l in &best.1 {
            println!("  {l}");
        }
        cleanup_and_exit(1);
    }
    cleanup_and_exit(0);
}
