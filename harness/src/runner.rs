//! Runs the cases of a property in a worker process, finds and shrinks failures, writes evidence.

use crate::shrink::shrink;
use crate::src::{Src, fnv, mix};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const STACK: usize = 64 << 20;
const STALL: Duration = Duration::from_secs(240);
const SHRINKING: Duration = Duration::from_secs(150);

/// What one case reports besides its verdict.
pub struct Ctx {
    pub thorough: bool,
    pub render: bool,
    pub evals: u64,
    pub nontrivial: Option<u64>,
    pub labels: Vec<String>,
    pub text: String,
    pub maxima: Vec<(String, u64)>,
}

impl Ctx {
    fn new(thorough: bool, render: bool) -> Self {
        Ctx { thorough, render, evals: 0, nontrivial: None, labels: vec![], text: String::new(), maxima: vec![] }
    }
    /// Counts one comparison with the oracle.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Marks the case as non-trivial; `what` identifies the case for counting distinct ones.
    pub fn nontrivial(&mut self, what: &[u8]) {
        self.nontrivial = Some(fnv(what));
    }
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    /// Description of the case for replays and samples.
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.render {
            let t = f();
            if !self.text.is_empty() {
                self.text.push('\n');
            }
            self.text.push_str(&t);
        }
    }
    pub fn max(&mut self, name: &str, v: u64) {
        self.maxima.push((name.to_string(), v));
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

/// A fixed input that exposes a known defect. Returns what fails while it still fails.
pub struct Probe {
    pub id: &'static str,
    pub run: fn() -> Option<String>,
}

pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub probes: &'static [Probe],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Keeps panics quiet and remembers where they came from.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((msg, at)));
    }));
}

pub enum Caught {
    /// The code under test panicked.
    Panic(String),
    /// The harness itself is at fault.
    Harness(String),
}

/// Runs `f`, telling panics of the code under test from mistakes of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (msg, at) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if let Some(m) = msg.strip_prefix("ORACLE: ") {
                Err(Caught::Panic(m.to_string()))
            } else if msg.starts_with("HARNESS") || at.starts_with("src/") || at.contains("/verif/") {
                Err(Caught::Harness(format!("{msg} at {at}")))
            } else {
                Err(Caught::Panic(format!("panicked: {msg} ({at})")))
            }
        }
    }
}

enum Outcome {
    Pass,
    Fail(String),
    Broken(String),
}

fn run_case(p: &Prop, src: &mut Src, ctx: &mut Ctx) -> Outcome {
    match guard(|| (p.case)(src, ctx)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Fail(m),
        Err(Caught::Panic(m)) => Outcome::Fail(m),
        Err(Caught::Harness(m)) => Outcome::Broken(m),
    }
}

fn case_seed(p: &Prop, seed: u64, index: u64) -> u64 {
    mix(mix(seed, fnv(p.id.as_bytes())), index)
}

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

struct Stats {
    cases: u64,
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    maxima: BTreeMap<String, u64>,
    samples: BTreeMap<u64, ()>,
}

impl Stats {
    fn new() -> Self {
        Stats { cases: 0, evals: 0, nontrivial: 0, distinct: HashSet::new(), labels: BTreeMap::new(), maxima: BTreeMap::new(), samples: BTreeMap::new() }
    }
    fn add(&mut self, index: u64, ctx: Ctx) {
        self.cases += 1;
        self.evals += ctx.evals;
        if let Some(h) = ctx.nontrivial {
            self.nontrivial += 1;
            self.distinct.insert(h);
            self.samples.insert(index, ());
            if self.samples.len() > 5 {
                self.samples.pop_last();
            }
        }
        for l in ctx.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        for (k, v) in ctx.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
    }
    fn merge(&mut self, o: Stats) {
        self.cases += o.cases;
        self.evals += o.evals;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.samples.extend(o.samples);
        while self.samples.len() > 5 {
            self.samples.pop_last();
        }
    }
}

fn describe(p: &Prop, choices: &[u64], thorough: bool) -> (String, String) {
    let mut ctx = Ctx::new(thorough, true);
    let out = run_case(p, &mut Src::replay(choices), &mut ctx);
    let msg = match out {
        Outcome::Pass => String::new(),
        Outcome::Fail(m) | Outcome::Broken(m) => m,
    };
    (msg, ctx.text)
}

/// Executed in the worker process: runs all cases and writes a result file.
pub fn worker(p: &'static Prop, thorough: bool, seed: u64, dir: &Path) -> i32 {
    let parent = std::os::unix::process::parent_id();
    let count = cases(p, thorough);
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let failures: Mutex<Vec<(u64, Vec<u64>, String)>> = Mutex::new(vec![]);
    let broken: Mutex<Option<String>> = Mutex::new(None);
    let stats = Mutex::new(Stats::new());
    let progress: Vec<AtomicU64> = (0..THREADS).map(|_| AtomicU64::new(0)).collect();
    let journal = std::fs::File::create(dir.join("journal")).expect("journal");
    for t in 0..THREADS {
        journal.write_at(&u64::MAX.to_le_bytes(), t as u64 * 8).expect("journal");
    }
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        let mut handles = vec![];
        for t in 0..THREADS {
            let (next, stop, failures, broken, stats, progress, journal) = (&next, &stop, &failures, &broken, &stats, &progress, &journal);
            let h = std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, move || {
                    let mut local = Stats::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= count || i > stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let _ = journal.write_at(&i.to_le_bytes(), t as u64 * 8);
                        progress[t].fetch_add(1, Ordering::Relaxed);
                        let mut src = Src::random(case_seed(p, seed, i));
                        let mut ctx = Ctx::new(thorough, false);
                        match run_case(p, &mut src, &mut ctx) {
                            Outcome::Pass => local.add(i, ctx),
                            Outcome::Fail(m) => {
                                stop.fetch_min(i, Ordering::SeqCst);
                                let mut all = failures.lock().unwrap();
                                all.push((i, src.rec, m));
                                // kept in case the worker does not live to report it
                                let first = all.iter().min().expect("pushed");
                                let _ = std::fs::write(dir.join("failure"), json!({"index": first.0, "choices": first.1, "message": first.2}).to_string());
                            }
                            Outcome::Broken(m) => {
                                stop.store(0, Ordering::SeqCst);
                                *broken.lock().unwrap() = Some(format!("case {i}: {m}"));
                            }
                        }
                    }
                    let _ = journal.write_at(&u64::MAX.to_le_bytes(), t as u64 * 8);
                    progress[t].store(u64::MAX, Ordering::SeqCst);
                    stats.lock().unwrap().merge(local);
                })
                .expect("thread");
            handles.push(h);
        }
        let (progress, done) = (&progress, &done);
        s.spawn(move || {
            let mut seen: Vec<(u64, Instant)> = (0..THREADS).map(|_| (0, Instant::now())).collect();
            while done.load(Ordering::SeqCst) == 0 {
                std::thread::sleep(Duration::from_millis(50));
                if std::os::unix::process::parent_id() != parent {
                    // nobody waits for the result any more
                    std::process::exit(3);
                }
                for t in 0..THREADS {
                    let v = progress[t].load(Ordering::Relaxed);
                    if v != seen[t].0 || v == u64::MAX {
                        seen[t] = (v, Instant::now());
                    } else if seen[t].1.elapsed() > STALL {
                        eprintln!("a case makes no progress, giving up");
                        std::process::exit(3);
                    }
                }
            }
        });
        for h in handles {
            let _ = h.join();
        }
        done.store(1, Ordering::SeqCst);
    });

    if let Some(m) = broken.lock().unwrap().take() {
        eprintln!("the harness failed: {m}");
        return 2;
    }
    let mut failures = failures.into_inner().unwrap();
    failures.sort();
    let st = stats.into_inner().unwrap();
    let mut result = json!({
        "cases": st.cases, "evals": st.evals, "nontrivial": st.nontrivial, "distinct": st.distinct.len(),
        "labels": st.labels, "maxima": st.maxima,
    });
    if let Some((i, choices, msg)) = failures.into_iter().next() {
        let _ = std::fs::write(dir.join("shrinking"), "");
        // shrinking happens on a thread with the same stack as the cases
        let (best, evals) = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || {
                    let begun = Instant::now();
                    shrink(choices, 4000, |c| {
                        if begun.elapsed() > Duration::from_secs(60) {
                            return None;
                        }
                        let mut src = Src::replay(c);
                        match run_case(p, &mut src, &mut Ctx::new(thorough, false)) {
                            Outcome::Fail(_) => Some(src.rec),
                            _ => None,
                        }
                    })
                })
                .expect("thread")
                .join()
                .expect("shrinking")
        });
        let (m, text) = on_big_stack(|| describe(p, &best, thorough));
        let m = if m.is_empty() { format!("{msg} (did not fail again when replayed)") } else { m };
        result["failure"] = json!({"index": i, "choices": best, "message": m, "original_message": msg, "case": text, "shrink_evals": evals});
    } else {
        let mut samples = vec![];
        for i in st.samples.keys() {
            let text = on_big_stack(|| {
                let mut ctx = Ctx::new(thorough, true);
                let mut src = Src::random(case_seed(p, seed, *i));
                let _ = run_case(p, &mut src, &mut ctx);
                ctx.text
            });
            let t: String = text.chars().take(600).collect();
            samples.push(json!({"case": i, "input": t}));
        }
        result["samples"] = Value::Array(samples);
    }
    std::fs::write(dir.join("result.json"), result.to_string()).expect("result");
    0
}

pub fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).expect("thread").join().expect("joined")
    })
}

fn cases(p: &Prop, thorough: bool) -> u64 {
    let n = if thorough { p.thorough } else { p.quick };
    match std::env::var("GVASPROP_CASES").ok().and_then(|v| v.parse().ok()) {
        Some(v) => v,
        None => n,
    }
}

/// Runs one case (by index or by choices) in this process; used by the parent to confirm aborts.
pub fn one(p: &'static Prop, thorough: bool, seed: u64, what: &str) -> i32 {
    let mut src = if let Some(path) = what.strip_prefix('@') {
        let text = std::fs::read_to_string(path).expect("choices");
        let v: Vec<u64> = text.split_whitespace().map(|w| w.parse().expect("number")).collect();
        Src::replay(&v)
    } else {
        Src::random(case_seed(p, seed, what.parse().expect("index")))
    };
    let save = std::env::var("GVASPROP_SAVE").ok();
    let r = on_big_stack(move || {
        let mut ctx = Ctx::new(thorough, false);
        if let Some(path) = &save {
            // choices are written as they are made, so that they survive an abort
            src.tee(path);
        }
        match run_case(p, &mut src, &mut ctx) {
            Outcome::Pass => 0,
            Outcome::Fail(_) => 1,
            Outcome::Broken(_) => 2,
        }
    });
    r
}

fn crashed(st: &std::process::ExitStatus) -> bool {
    matches!(st.signal(), Some(4 | 6 | 7 | 11))
}

fn run_one(p: &Prop, tier: &str, seed: u64, what: &str, save: Option<&Path>) -> Option<std::process::ExitStatus> {
    let exe = std::env::current_exe().ok()?;
    let mut c = Command::new(exe);
    c.args(["one", p.id, tier, &seed.to_string(), what]).stdout(Stdio::null()).stderr(Stdio::null());
    if let Some(s) = save {
        c.env("GVASPROP_SAVE", s);
    }
    let mut child = c.spawn().ok()?;
    let begun = Instant::now();
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            return Some(st);
        }
        if begun.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn write_replay(p: &Prop, tier: &str, seed: u64, choices: &[u64], message: &str, case: &str) -> PathBuf {
    let dir = verif().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let hash = fnv(format!("{choices:?}").as_bytes());
    let path = dir.join(format!("{}-{:016x}.json", p.id, hash));
    let v = json!({
        "property": p.id, "tier": tier, "seed": seed, "choices": choices, "message": message, "case": case,
        "how": format!("bash check.sh replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

fn known_findings() -> Vec<(String, String)> {
    let text = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: property=") {
            let mut w = rest.split_whitespace();
            let prop = w.next().unwrap_or("").to_string();
            if let Some(id) = w.next().and_then(|x| x.strip_prefix("id=")) {
                out.push((prop, id.to_string()));
            }
        }
    }
    out
}

/// The check: 0 held, 1 violated, anything else an error of the check.
pub fn check(p: &'static Prop, thorough: bool, seed: u64) -> i32 {
    let begun = Instant::now();
    let tier = if thorough { "thorough" } else { "quick" };
    let dir = verif().join("work").join(format!("run-{}-{}", p.id, std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    // counts of an earlier run must not pass for counts of this one
    let _ = std::fs::remove_file(verif().join("evidence").join(format!("{}.json", p.id)));
    let code = check_in(p, tier, seed, &dir, begun);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn violation(p: &Prop, replay: &Path, message: &str) -> i32 {
    let m: String = message.chars().take(1500).map(|c| if c.is_control() && c != '\n' { '.' } else { c }).collect();
    println!("{}: {}", p.id, m);
    println!("VIOLATION property={} replay={}", p.id, replay.display());
    let _ = std::io::stdout().flush();
    1
}

/// Reports the failure a worker found before it died, while shrinking it or in another case.
fn salvage(p: &'static Prop, tier: &str, seed: u64, dir: &Path) -> Option<i32> {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(dir.join("failure")).ok()?).ok()?;
    let choices: Vec<u64> = f["choices"].as_array()?.iter().filter_map(|v| v.as_u64()).collect();
    let cand = dir.join("candidate");
    let fails = |c: &[u64]| {
        let t: Vec<String> = c.iter().map(|v| v.to_string()).collect();
        std::fs::write(&cand, t.join(" ")).ok()?;
        let st = run_one(p, tier, seed, &format!("@{}", cand.display()), None)?;
        (st.code() == Some(1)).then(|| c.to_vec())
    };
    fails(&choices)?;
    let begun = Instant::now();
    let (best, _) = shrink(choices, 400, |c| if begun.elapsed() > Duration::from_secs(60) { None } else { fails(c) });
    // the last sequence that failed does so without ending the process, so it can be shown here
    let (m, text) = on_big_stack(|| describe(p, &best, tier == "thorough"));
    let m = if m.is_empty() { f["message"].as_str().unwrap_or("").to_string() } else { m };
    let path = write_replay(p, tier, seed, &best, &m, &text);
    Some(violation(p, &path, &m))
}

fn check_in(p: &'static Prop, tier: &str, seed: u64, dir: &Path, begun: Instant) -> i32 {
    // Known defects: fixed inputs, each listed by name.
    let known = known_findings();
    let mut probe_results = vec![];
    for probe in p.probes {
        match guard(probe.run) {
            Ok(None) => probe_results.push(json!({"id": probe.id, "result": "no longer fails"})),
            Ok(Some(what)) => {
                if known.iter().any(|(a, b)| a == p.id && b == probe.id) {
                    println!("KNOWN-FINDING: property={} {}: {}", p.id, probe.id, what);
                    probe_results.push(json!({"id": probe.id, "result": "known finding", "what": what}));
                } else {
                    let path = write_replay(p, tier, seed, &[], &what, &format!("probe {}", probe.id));
                    return violation(p, &path, &what);
                }
            }
            Err(Caught::Panic(m)) => {
                let path = write_replay(p, tier, seed, &[], &m, &format!("probe {}", probe.id));
                return violation(p, &path, &m);
            }
            Err(Caught::Harness(m)) => {
                eprintln!("probe {} failed: {m}", probe.id);
                return 2;
            }
        }
    }

    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(_) => return 2,
    };
    let child = Command::new(exe)
        .args(["worker", p.id, tier, &seed.to_string(), &dir.display().to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::inherit())
        .spawn();
    let Ok(mut child) = child else { return 2 };
    let mut shrinking: Option<Instant> = None;
    let status = loop {
        match child.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) => {}
            Err(_) => return 2,
        }
        if shrinking.is_none() && dir.join("shrinking").exists() {
            shrinking = Some(Instant::now());
        }
        if shrinking.is_some_and(|t| t.elapsed() > SHRINKING) {
            // the failure is known already, only a smaller form of it does not come to an end
            let _ = child.kill();
        }
        std::thread::sleep(Duration::from_millis(20));
    };

    if !status.success()
        && let Some(code) = salvage(p, tier, seed, dir)
    {
        return code;
    }
    if crashed(&status) {
        // Find the case among those in flight, confirm it in a process of its own, shrink it.
        let journal = std::fs::read(dir.join("journal")).unwrap_or_default();
        let mut flying: Vec<u64> = journal.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|v| *v != u64::MAX).collect();
        flying.sort();
        for i in flying {
            let save = dir.join("choices");
            let Some(st) = run_one(p, tier, seed, &i.to_string(), Some(&save)) else { continue };
            if !crashed(&st) {
                continue;
            }
            let text = std::fs::read_to_string(&save).unwrap_or_default();
            let choices: Vec<u64> = text.split_whitespace().filter_map(|w| w.parse().ok()).collect();
            let shrinking = Instant::now();
            let cand = dir.join("candidate");
            let (best, _) = shrink(choices, 400, |c| {
                if shrinking.elapsed() > Duration::from_secs(60) {
                    return None;
                }
                let t: Vec<String> = c.iter().map(|v| v.to_string()).collect();
                std::fs::write(&cand, t.join(" ")).ok()?;
                let st = run_one(p, tier, seed, &format!("@{}", cand.display()), None)?;
                if crashed(&st) { Some(c.to_vec()) } else { None }
            });
            let m = format!("the process was terminated by signal {} while this case ran", st.signal().unwrap_or(0));
            let path = write_replay(p, tier, seed, &best, &m, "(not rendered: the case ends the process)");
            return violation(p, &path, &m);
        }
        eprintln!("the worker crashed ({status}) but no single case reproduces it");
        return 2;
    }
    if !status.success() {
        eprintln!("the worker failed: {status}");
        return 2;
    }
    let Some(result): Option<Value> = std::fs::read_to_string(dir.join("result.json")).ok().and_then(|t| serde_json::from_str(&t).ok()) else {
        eprintln!("no result from the worker");
        return 2;
    };
    let failure = result.get("failure").cloned();
    let mut coverage = json!({
        "evaluations": result["cases"], "distinct_nontrivial": result["distinct"],
        "rule": format!("each case is generated from a recorded choice sequence; non-trivial: {}", p.rule),
        "samples": result.get("samples").cloned().unwrap_or(json!([])),
        "labels": result["labels"],
    });
    if result["evals"] != result["cases"] {
        coverage["oracle_comparisons"] = result["evals"].clone();
    }
    if result["maxima"].as_object().is_some_and(|m| !m.is_empty()) {
        coverage["maxima"] = result["maxima"].clone();
    }
    if !probe_results.is_empty() {
        coverage["known_finding_probes"] = Value::Array(probe_results);
    }
    let mut evidence = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level, "coverage": coverage,
        "wall_s": begun.elapsed().as_secs_f64(), "assumptions": p.assumptions,
        "violations": if failure.is_some() { 1 } else { 0 },
    });
    let code = if let Some(f) = failure {
        let choices: Vec<u64> = f["choices"].as_array().map(|a| a.iter().filter_map(|v| v.as_u64()).collect()).unwrap_or_default();
        let path = write_replay(p, tier, seed, &choices, f["message"].as_str().unwrap_or(""), f["case"].as_str().unwrap_or(""));
        evidence["coverage"]["samples"] = json!([{"case": f["index"], "input": f["case"]}]);
        violation(p, &path, f["message"].as_str().unwrap_or(""))
    } else {
        println!(
            "{}: held; {} cases, {} comparisons, {} distinct non-trivial, {:.1} s",
            p.id, result["cases"], result["evals"], result["distinct"], begun.elapsed().as_secs_f64()
        );
        0
    };
    let edir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if std::fs::write(edir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap()).is_err() {
        eprintln!("cannot write the evidence file");
        return 2;
    }
    code
}

/// Replays a failure file.
pub fn replay(props: &'static [Prop], path: &str) -> i32 {
    let Some(v): Option<Value> = std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Some(p) = props.iter().find(|p| Some(p.id) == v["property"].as_str()) else { return 2 };
    let choices: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(|v| v.as_u64()).collect()).unwrap_or_default();
    let thorough = v["tier"].as_str() == Some("thorough");
    let (m, text) = on_big_stack(|| describe(p, &choices, thorough));
    println!("{text}");
    if m.is_empty() {
        println!("{}: this case holds", p.id);
        0
    } else {
        violation(p, Path::new(path), &m)
    }
}
