//! Exhaustive-enumeration engine.
//!
//! A check is a deterministic program that calls [`Cx::case`] once for every element of its
//! bounded space, in a fixed order.  The parent process starts `n` shard workers (separate
//! processes: the parser runtime has process-wide locks); each runs the whole generator and
//! executes the cases whose index belongs to its shard.  The union over the shards is the
//! complete space.  The parent supervises progress (a case that never returns, or a worker
//! killed by a signal, is confirmed by re-running that single case and then reported), merges
//! the counts and state hashes, writes the evidence and prints the verdict.

use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
/// A single case (normally well below a millisecond) that takes longer than this hangs.
pub const CASE_TIMEOUT_S: u64 = 30;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // final avalanche
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 ^= *x as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    fnv(&h.finish().to_le_bytes())
}

#[derive(Clone, Copy, Debug)]
enum Mode {
    Count,
    Shard(u64, u64),
    Single(u64),
}

pub struct Violation {
    pub index: u64,
    pub message: String,
    pub data: Value,
}

/// Per-run context given to a check.
pub struct Cx {
    pub tier: Tier,
    mode: Mode,
    idx: u64,
    pub executed: u64,
    pub transitions: u64,
    pub traces: u64,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violations: Vec<Violation>,
    known: BTreeMap<String, u64>,
    known_entries: Vec<KnownFinding>,
    pub scratch: PathBuf,
    pub verbose: bool,
    progress: Option<std::fs::File>,
    stop: bool,
    notes: BTreeMap<String, Value>,
    filter_hit: bool,
}

#[derive(Clone)]
pub struct KnownFinding {
    pub property: String,
    pub key: String,
    pub what: String,
}

/// Handle to the case being executed.
pub struct Case<'a> {
    cx: &'a mut Cx,
    pub index: u64,
}

pub type Res = Result<(), Fail>;

pub struct Fail {
    pub message: String,
    pub data: Value,
    /// Identity under which a known finding may list this failure.
    pub key: Option<String>,
}
impl Fail {
    pub fn new(m: impl Into<String>, data: Value) -> Fail {
        Fail { message: m.into(), data, key: None }
    }
    pub fn key(mut self, k: impl Into<String>) -> Fail {
        self.key = Some(k.into());
        self
    }
}
#[macro_export]
macro_rules! fail {
    ($data:expr, $($fmt:tt)*) => { return Err($crate::engine::Fail::new(format!($($fmt)*), $data)) };
}

impl<'a> Case<'a> {
    /// Record the model state (canonical input) this case exercises.
    pub fn state<T: Hash + ?Sized>(&mut self, s: &T) {
        let h = hash_of(&s);
        self.cx.states.insert(h);
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, s: &T) {
        let h = hash_of(&s);
        self.cx.outcomes.insert(h);
    }
    /// Count model transitions (tokens, operations, crash points, ...).
    pub fn steps(&mut self, n: usize) {
        self.cx.transitions += n as u64;
    }
    /// One trace was replayed on the implementation and compared with the model.
    pub fn trace(&mut self) {
        self.cx.traces += 1;
    }
    pub fn count(&mut self, k: &str) {
        *self.cx.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        let n = self.cx.samples.len();
        if n < 3 || (n < 6 && self.cx.executed.is_power_of_two()) {
            let v = f();
            self.cx.samples.push(v);
        }
    }
    pub fn verbose(&self) -> bool {
        self.cx.verbose
    }
    pub fn scratch(&self) -> &Path {
        &self.cx.scratch
    }
}

impl Cx {
    fn new(tier: Tier, mode: Mode, scratch: PathBuf, prop: &str) -> Cx {
        Cx {
            tier,
            mode,
            idx: 0,
            executed: 0,
            transitions: 0,
            traces: 0,
            states: HashSet::new(),
            outcomes: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            known: BTreeMap::new(),
            known_entries: load_known().into_iter().filter(|k| k.property == prop).collect(),
            scratch,
            verbose: false,
            progress: None,
            stop: false,
            notes: BTreeMap::new(),
            filter_hit: false,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    /// Describe a bound in the evidence.
    pub fn note(&mut self, k: &str, v: impl Into<Value>) {
        self.notes.insert(k.to_string(), v.into());
    }
    /// True when nothing more needs to be generated (too many violations, or single case done).
    pub fn done(&self) -> bool {
        self.stop
    }
    /// One element of the space.
    pub fn case(&mut self, f: impl FnOnce(&mut Case) -> Res) {
        let i = self.idx;
        self.idx += 1;
        match self.mode {
            Mode::Count => return,
            Mode::Shard(k, n) => {
                if i % n != k || self.stop {
                    return;
                }
            }
            Mode::Single(x) => {
                if i != x {
                    return;
                }
                self.filter_hit = true;
                self.stop = true;
            }
        }
        if let Some(p) = &self.progress {
            use std::os::unix::fs::FileExt;
            let _ = p.write_all_at(&(i + 1).to_le_bytes(), 0);
        }
        self.executed += 1;
        let r = {
            let mut c = Case { cx: self, index: i };
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)))
        };
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                let loc = LAST_PANIC.with(|l| l.borrow().clone());
                let src = LAST_INPUT.with(|l| l.borrow().clone());
                Err(Fail::new(format!("panic: {msg} at {loc}"), json!({"input": src})))
            }
        };
        if let Err(f) = r {
            if let Some(k) = &f.key {
                if let Some(e) = self.known_entries.iter().find(|e| &e.key == k) {
                    *self.known.entry(e.key.clone()).or_default() += 1;
                    return;
                }
            }
            let mut data = f.data;
            if let (Some(k), Value::Object(m)) = (&f.key, &mut data) {
                m.insert("finding_key".into(), json!(k));
            }
            self.violations.push(Violation { index: i, message: f.message, data });
            if self.violations.len() >= 10 {
                self.stop = true;
            }
        }
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    pub static LAST_INPUT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn note_input(s: &str) {
    LAST_INPUT.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.push_str(s);
    });
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn load_known() -> Vec<KnownFinding> {
    let p = verif_dir().join("known_findings.jsonl");
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            let l = l.trim();
            if !l.starts_with('{') {
                continue;
            }
            let v: Value = serde_json::from_str(l).expect("known_findings.jsonl: bad line");
            if v["status"] == "finding" {
                out.push(KnownFinding {
                    property: v["property"].as_str().unwrap().into(),
                    key: v["key"].as_str().unwrap().into(),
                    what: v["what"].as_str().unwrap().into(),
                });
            }
        }
    }
    out
}

pub type CheckFn = fn(&mut Cx);

pub struct Check {
    pub id: &'static str,
    pub run: CheckFn,
    pub assumptions: &'static [&'static str],
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = loc);
        if std::env::var_os("MC_TRACE_PANIC").is_some() {
            eprintln!("{info}");
        }
    }));
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    // 8 MiB, the usual main-thread stack, whatever `ulimit -s` says here.
    std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap().join().unwrap()
}

fn tier_arg(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

pub fn main(checks: &'static [Check]) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let usage = || {
        eprintln!("usage: mc run ID quick|thorough | mc count ID TIER | mc case ID TIER INDEX | mc list");
        2
    };
    let Some(cmd) = a.get(1) else { return usage() };
    if cmd == "list" {
        for c in checks {
            println!("{}", c.id);
        }
        return 0;
    }
    let (Some(id), Some(tier)) = (a.get(2), a.get(3)) else { return usage() };
    let Some(ck) = checks.iter().find(|c| c.id == *id) else {
        eprintln!("no such check {id}");
        return 2;
    };
    let tier = tier_arg(tier);
    match cmd.as_str() {
        "count" => {
            let mut cx = Cx::new(tier, Mode::Count, PathBuf::from("/nonexistent"), ck.id);
            (ck.run)(&mut cx);
            println!("{}", cx.idx);
            0
        }
        "worker" => {
            let k: u64 = a[4].parse().unwrap();
            let n: u64 = a[5].parse().unwrap();
            let dir = PathBuf::from(&a[6]);
            install_hook();
            on_big_stack(move || worker(ck, tier, Mode::Shard(k, n), &dir, k))
        }
        "case" => {
            let i: u64 = a[4].parse().unwrap();
            install_hook();
            let quiet = a.get(5).is_some();
            let dir = match a.get(5) {
                Some(d) => PathBuf::from(d),
                None => mktemp(),
            };
            let d2 = dir.clone();
            let rc = on_big_stack(move || {
                let mut cx = Cx::new(tier, Mode::Single(i), scratch_for(&d2, 900), ck.id);
                cx.verbose = !quiet;
                (ck.run)(&mut cx);
                if !cx.filter_hit {
                    eprintln!("no case {i}");
                    return 2;
                }
                if !quiet {
                    for s in &cx.samples {
                        println!("sample {s:#}");
                    }
                }
                for v in &cx.violations {
                    if quiet {
                        continue;
                    }
                    println!("case {}: {}", v.index, v.message);
                    print_data(&v.data);
                }
                if cx.violations.is_empty() { 0 } else { 1 }
            });
            if !quiet {
                let _ = std::fs::remove_dir_all(&dir);
            }
            rc
        }
        "run" => parent(ck, tier),
        _ => usage(),
    }
}

fn print_data(v: &Value) {
    if let Value::Object(m) = v {
        for (k, x) in m {
            match x {
                Value::String(s) => println!("  --- {k}:\n{s}"),
                x => println!("  --- {k}:\n{x:#}"),
            }
        }
    } else {
        println!("{v:#}");
    }
}

fn mktemp() -> PathBuf {
    let base = std::env::temp_dir();
    for i in 0..1000 {
        let p = base.join(format!("avdl-mc-{}-{}", std::process::id(), i));
        if std::fs::create_dir(&p).is_ok() {
            return p.canonicalize().unwrap();
        }
    }
    panic!("cannot create scratch dir");
}

fn scratch_for(dir: &Path, k: u64) -> PathBuf {
    let p = dir.join(format!("s{k}"));
    let _ = std::fs::create_dir_all(&p);
    p
}

fn worker(ck: &'static Check, tier: Tier, mode: Mode, dir: &Path, k: u64) -> i32 {
    let mut cx = Cx::new(tier, mode, scratch_for(dir, k), ck.id);
    cx.progress = Some(std::fs::File::create(dir.join(format!("progress{k}"))).unwrap());
    (ck.run)(&mut cx);
    let out = json!({
        "executed": cx.executed,
        "total": cx.idx,
        "transitions": cx.transitions,
        "traces": cx.traces,
        "counters": cx.counters,
        "samples": cx.samples,
        "notes": cx.notes,
        "known": cx.known,
        "stopped": cx.stop,
        "violations": cx.violations.iter().map(|v| json!({"index": v.index, "message": v.message, "data": v.data})).collect::<Vec<_>>(),
    });
    let dump = |name: &str, s: &HashSet<u64>| {
        let mut b = Vec::with_capacity(s.len() * 8);
        for x in s {
            b.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(dir.join(format!("{name}{k}")), b).unwrap();
    };
    dump("states", &cx.states);
    dump("outcomes", &cx.outcomes);
    std::fs::write(dir.join(format!("result{k}")), serde_json::to_vec(&out).unwrap()).unwrap();
    0
}

fn read_set(p: &Path, into: &mut HashSet<u64>) {
    if let Ok(b) = std::fs::read(p) {
        for c in b.chunks_exact(8) {
            into.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

struct Cleanup(PathBuf);
impl Drop for Cleanup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn progress_of(dir: &Path, k: u64) -> u64 {
    std::fs::read(dir.join(format!("progress{k}")))
        .ok()
        .and_then(|b| b.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())))
        .unwrap_or(0)
}

/// Re-run one case in its own process: Some(reason) if it crashes or hangs again.
fn confirm(ck: &Check, tier: Tier, idx: u64, dir: &Path) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let t = if tier == Tier::Thorough { "thorough" } else { "quick" };
    let mut ch = std::process::Command::new(exe)
        .args(["case", ck.id, t, &idx.to_string(), dir.to_str().unwrap()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .ok()?;
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().ok()? {
            use std::os::unix::process::ExitStatusExt;
            return st.signal().map(|s| format!("the process is killed by signal {s} (abort or stack overflow)"));
        }
        if t0.elapsed() > Duration::from_secs(CASE_TIMEOUT_S) {
            let _ = ch.kill();
            let _ = ch.wait();
            return Some(format!("the call does not return within {CASE_TIMEOUT_S} s"));
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

fn parent(ck: &'static Check, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let dir = mktemp();
    let _clean = Cleanup(dir.clone());
    let tname = if tier == Tier::Thorough { "thorough" } else { "quick" };
    struct W {
        k: u64,
        ch: std::process::Child,
        last: u64,
        since: Instant,
        finished: bool,
    }
    let mut ws: Vec<W> = (0..SHARDS)
        .map(|k| W {
            k,
            ch: std::process::Command::new(&exe)
                .args(["worker", ck.id, tname, &k.to_string(), &SHARDS.to_string(), dir.to_str().unwrap()])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::null())
                .stderr(if std::env::var_os("MC_TRACE_PANIC").is_some() {
                    std::process::Stdio::inherit()
                } else {
                    std::process::Stdio::null()
                })
                .spawn()
                .unwrap(),
            last: 0,
            since: Instant::now(),
            finished: false,
        })
        .collect();
    let mut violations: Vec<Violation> = vec![];
    let mut engine_error: Option<String> = None;
    loop {
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.finished {
                continue;
            }
            match w.ch.try_wait().unwrap() {
                Some(st) => {
                    w.finished = true;
                    if !st.success() {
                        let p = progress_of(&dir, w.k);
                        if p > 0 {
                            match confirm(ck, tier, p - 1, &dir) {
                                Some(r) => violations.push(Violation { index: p - 1, message: r, data: json!({}) }),
                                None => engine_error = Some(format!("worker {} ended with {st} at case {} and did not do so again", w.k, p - 1)),
                            }
                        } else {
                            engine_error = Some(format!("worker {} ended with {st} before its first case", w.k));
                        }
                    }
                }
                None => {
                    alive = true;
                    let p = progress_of(&dir, w.k);
                    if p != w.last {
                        w.last = p;
                        w.since = Instant::now();
                    } else if p > 0 && w.since.elapsed() > Duration::from_secs(CASE_TIMEOUT_S) {
                        match confirm(ck, tier, p - 1, &dir) {
                            Some(r) => {
                                violations.push(Violation { index: p - 1, message: r, data: json!({}) });
                                let _ = w.ch.kill();
                                let _ = w.ch.wait();
                                w.finished = true;
                            }
                            None => w.since = Instant::now(),
                        }
                    }
                }
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let (mut executed, mut transitions, mut traces, mut total) = (0u64, 0u64, 0u64, 0u64);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut notes = Value::Null;
    let mut states = HashSet::new();
    let mut outcomes = HashSet::new();
    for k in 0..SHARDS {
        let Ok(b) = std::fs::read(dir.join(format!("result{k}"))) else { continue };
        let v: Value = serde_json::from_slice(&b).unwrap();
        executed += v["executed"].as_u64().unwrap();
        total = total.max(v["total"].as_u64().unwrap());
        transitions += v["transitions"].as_u64().unwrap();
        traces += v["traces"].as_u64().unwrap();
        for (n, c) in v["counters"].as_object().unwrap() {
            *counters.entry(n.clone()).or_default() += c.as_u64().unwrap();
        }
        for (n, c) in v["known"].as_object().unwrap() {
            *known.entry(n.clone()).or_default() += c.as_u64().unwrap();
        }
        if samples.len() < 8 {
            samples.extend(v["samples"].as_array().unwrap().iter().take(2).cloned());
        }
        if notes.is_null() {
            notes = v["notes"].clone();
        }
        for x in v["violations"].as_array().unwrap() {
            violations.push(Violation {
                index: x["index"].as_u64().unwrap(),
                message: x["message"].as_str().unwrap().into(),
                data: x["data"].clone(),
            });
        }
        read_set(&dir.join(format!("states{k}")), &mut states);
        read_set(&dir.join(format!("outcomes{k}")), &mut outcomes);
    }
    violations.sort_by_key(|v| v.index);
    let exhaustive = executed == total && engine_error.is_none() && total > 0;
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": ck.id,
        "tier": tname,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": states.len(),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "cases": executed,
            "cases_in_space": total,
            "distinct_outcomes": outcomes.len(),
            "exhaustive": exhaustive,
            "counters": counters,
            "bounds": notes,
            "samples": samples,
        },
        "assumptions": ck.assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": violations.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", ck.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{} {tname}: cases={executed}/{total} states={} transitions={transitions} traces={traces} outcomes={} wall={wall:.1}s",
        ck.id,
        states.len(),
        outcomes.len()
    );
    for (k, c) in &counters {
        println!("  {k}: {c}");
    }
    for e in load_known().iter().filter(|e| e.property == ck.id) {
        // every listed finding is announced, together with the number of cases it explained
        println!("KNOWN-FINDING: property={} {} [{}] ({} cases)", ck.id, e.what, e.key, known.get(&e.key).copied().unwrap_or(0));
    }
    if violations.is_empty() {
        if let Some(e) = engine_error {
            eprintln!("engine error: {e}");
            return 2;
        }
        if !exhaustive {
            eprintln!("engine error: only {executed} of {total} cases were executed");
            return 2;
        }
        return 0;
    }
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    for (n, v) in violations.iter().enumerate().take(3) {
        let file = rdir.join(format!("{}-{}.json", ck.id, n));
        let doc = json!({
            "property": ck.id, "tier": tname, "case": v.index, "message": v.message, "data": v.data,
            "replay": format!("/verif/mc/target/release/avdl-mc case {} {tname} {}", ck.id, v.index),
        });
        std::fs::write(&file, serde_json::to_string_pretty(&doc).unwrap()).unwrap();
        println!("case {}: {}", v.index, v.message);
        print_data(&v.data);
        println!("VIOLATION property={} replay=replays/{}-{}.json", ck.id, ck.id, n);
    }
    let _ = std::io::stdout().flush();
    1
}
