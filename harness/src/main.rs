//! `check PROP`   – supervise worker processes over generated cases, write evidence, report.
//! `worker ...`   – internal: run a shard of cases.
//! `one ...`      – internal: run exactly one case in this process.
//! `replay FILE`  – re-run a replay file (exit 1 when it still fails).

/// `arguments!` refers to it by this name.
#[cfg(feature = "api")]
pub use seam::parse;

mod engine;
mod gen;
mod mark;
mod model;
mod prog;
mod props;
mod util;

use engine::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

/// What programs may read from the environment.
const VARIABLES: &[(&str, &str)] = &[("SEAM_V1", "a line\n"), ("SEAM_V2", "  b  c "), ("SEAM_V3", ""), ("SEAM_V4", "é\"(%x)\\n:k ;"), ("SEAM_V5", "12"), ("SEAM_V6", "{}\r\n\t\u{1F600}%x%%")];

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some((loc, msg));
    }));
}

pub enum Outcome { Pass, Discard(&'static str), Bad(String), HarnessBug(String) }

fn guarded(f: impl FnOnce() -> R) -> Outcome {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Fail::Discard(w))) => Outcome::Discard(w),
        Ok(Err(Fail::Bad(m))) => Outcome::Bad(m),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
            if loc.starts_with("src/") {
                Outcome::HarnessBug(format!("harness panicked at {}: {}", loc, msg))
            } else {
                Outcome::Bad(format!("panicked at {}: {}", loc, msg))
            }
        },
    }
}

fn run_case(prop: &dyn Prop, src: &mut Src, cx: &mut Cx) -> Outcome {
    guarded(|| prop.run(src, cx))
}

#[derive(Clone)]
struct Opts {
    prop: String, seed: u64, thorough: bool, shard: u64, shards: u64, from: u64, cases: u64,
    dir: PathBuf, deadline_s: u64, choices: Option<PathBuf>, index: Option<u64>, to: Option<u64>,
    example: Option<u64>, cpu: Option<u64>, scale: f64, guided: bool,
}

fn parse_opts(args: &[String]) -> Opts {
    let mut o = Opts { prop: String::new(), seed: 1, thorough: false, shard: 0, shards: 1, from: 0, cases: 0,
        dir: PathBuf::from("."), deadline_s: 300, choices: None, index: None, to: None, example: None, cpu: None, scale: 1.0,
        guided: false };
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        let mut v = || { i += 1; args[i].clone() };
        match a {
            "--seed" => o.seed = v().parse().unwrap(),
            "--thorough" => o.thorough = true,
            "--guided" => o.guided = true,
            "--shard" => o.shard = v().parse().unwrap(),
            "--shards" => o.shards = v().parse().unwrap(),
            "--from" => o.from = v().parse().unwrap(),
            "--to" => o.to = Some(v().parse().unwrap()),
            "--cases" => o.cases = v().parse().unwrap(),
            "--dir" => o.dir = PathBuf::from(v()),
            "--deadline" => o.deadline_s = v().parse().unwrap(),
            "--choices" => o.choices = Some(PathBuf::from(v())),
            "--index" => o.index = Some(v().parse().unwrap()),
            "--example" => o.example = Some(v().parse().unwrap()),
            "--cpu" => o.cpu = Some(v().parse().unwrap()),
            "--scale" => o.scale = v().parse().unwrap(),
            p => o.prop = p.to_owned(),
        }
        i += 1;
    }
    o
}

fn case_seed(o: &Opts, index: u64) -> u64 { mix(&[o.seed, hash_str(&o.prop), index]) }

fn set_limit(res: libc::__rlimit_resource_t, soft: u64) {
    unsafe {
        let mut cur: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(res, &mut cur);
        let lim = libc::rlimit { rlim_cur: soft.min(cur.rlim_max), rlim_max: cur.rlim_max };
        libc::setrlimit(res, &lim);
    }
}

const STACK: usize = 192 << 20;

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap_or_else(|_| {
        let p = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
        eprintln!("harness thread panicked: {:?}", p);
        std::process::exit(3)
    })
}

fn new_cx(o: &Opts) -> Cx {
    Cx { shard_dir: std::env::current_dir().unwrap(), thorough: o.thorough, ..Default::default() }
}

fn enter_dir(o: &Opts, name: &str) {
    let d = o.dir.join(name);
    let _ = std::fs::create_dir_all(&d);
    std::env::set_current_dir(&d).unwrap();
}

// ---------------------------------------------------------------- worker

fn worker(o: Opts) -> i32 {
    let prop = props::find(&o.prop).expect("no such property");
    let progress = std::fs::OpenOptions::new().create(true).write(true).truncate(false)
        .open(o.dir.join(format!("shard-{}.idx", o.shard))).unwrap();
    let tick = {
        let mut n = 0u64;
        move |index: u64, f: &std::fs::File| {
            n += 1;
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&index.to_le_bytes());
            b[8..].copy_from_slice(&n.to_le_bytes());
            let _ = f.write_all_at(&b, 0);
        }
    };
    let mut tick = tick;
    enter_dir(&o, &format!("w{}", o.shard));
    let start = Instant::now();
    let deadline = start + Duration::from_secs(o.deadline_s);
    let (mut evals, mut discards, mut nontrivial_n) = (0u64, 0u64, 0u64);
    let mut discard_why: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<Value> = None;
    let mut harness_bug: Option<String> = None;
    let mut cut_short = false;
    let mut guide = if o.guided { util::cov::Guide::new(o.seed ^ o.shard) } else { None };

    // Fixed regression cases, spread over the shards.
    if o.from == 0 {
        for i in 0..prop.examples() {
            if i as u64 % o.shards != o.shard { continue; }
            tick(u64::MAX - i as u64, &progress);
            let mut cx = new_cx(&o);
            match guarded(|| prop.example(i, &mut cx)) {
                Outcome::Bad(m) => {
                    failure = Some(json!({"mode": "example", "example": i, "message": m, "case": cx.repr, "index": i}));
                    break;
                },
                Outcome::HarnessBug(m) => { harness_bug = Some(format!("{m} in example {i}: {}", cx.repr)); break; },
                _ => { evals += 1; },
            }
        }
    }
    let mut index = o.shard;
    while index < o.from { index += o.shards; }
    while failure.is_none() && harness_bug.is_none() && index < o.cases {
        if Instant::now() > deadline { cut_short = true; break; }
        tick(index, &progress);
        let seed = case_seed(&o, index);
        let mut src = match guide { Some(ref mut g) => g.next(seed), None => Src::random(seed) };
        let mut cx = new_cx(&o);
        let out = run_case(&*prop, &mut src, &mut cx);
        if let Some(ref mut g) = guide { g.observe(&src.rec); }
        match out {
            Outcome::Pass => {
                evals += 1;
                for (k, v) in &cx.labels { *labels.entry(k.clone()).or_insert(0) += v; }
                if cx.nontrivial {
                    nontrivial_n += 1;
                    let fresh = distinct.insert(hash_str(&cx.repr));
                    if fresh && samples.len() < 4 && (samples.is_empty() || distinct.len() % 97 == 5) {
                        samples.push(cx.repr.chars().take(700).collect());
                    }
                }
            },
            Outcome::Discard(w) => { discards += 1; *discard_why.entry(w.into()).or_insert(0) += 1; },
            Outcome::HarnessBug(m) => { harness_bug = Some(format!("{m} (case index {index}): {}", cx.repr)); },
            Outcome::Bad(m) => {
                let first = json!({"mode": "choices", "choices": src.rec, "message": m, "case": cx.repr, "index": index});
                let _ = std::fs::write(o.dir.join(format!("shard-{}.fail", o.shard)), first.to_string());
                let o2 = o.clone();
                let p2 = &*prop;
                let mut try_it = |c: &[u64]| -> Option<(Vec<u64>, String)> {
                    tick(index, &progress);
                    let mut s = Src::replay(c);
                    let mut cx = new_cx(&o2);
                    match run_case(p2, &mut s, &mut cx) {
                        Outcome::Bad(m) => Some((s.rec, m)),
                        _ => None,
                    }
                };
                let limit = Instant::now() + Duration::from_secs(if o.thorough { 90 } else { 30 });
                let (best, msg, tries) = shrink(src.rec.clone(), m, limit, 40_000, &mut try_it);
                let mut s = Src::replay(&best);
                let mut cx2 = new_cx(&o);
                let _ = run_case(&*prop, &mut s, &mut cx2);
                failure = Some(json!({"mode": "choices", "choices": best, "message": msg, "case": cx2.repr,
                    "index": index, "shrink_tries": tries, "original_case": cx.repr}));
            },
        }
        index += o.shards;
    }
    let out = json!({"evals": evals, "discards": discards, "discard_why": discard_why, "labels": labels,
        "nontrivial": nontrivial_n, "distinct": distinct.iter().collect::<Vec<_>>(), "samples": samples,
        "failure": failure, "harness_bug": harness_bug, "cut_short": cut_short,
        "guided": guide.as_ref().map(|g| g.stats())});
    let tmp = o.dir.join(format!("shard-{}.tmp", o.shard));
    std::fs::write(&tmp, out.to_string()).unwrap();
    std::fs::rename(&tmp, o.dir.join(format!("shard-{}.json", o.shard))).unwrap();
    0
}

/// Runs a single case; exit 0 pass, 1 violation (message on stdout), 3 harness bug.
fn one(o: Opts) -> i32 {
    let prop = props::find(&o.prop).expect("no such property");
    let report = |out: Outcome, cx: &Cx| -> i32 {
        match out {
            Outcome::Pass => { println!("PASS"); 0 },
            Outcome::Discard(w) => { println!("DISCARD {w}"); 0 },
            Outcome::Bad(m) => { println!("{}", json!({"message": m, "case": cx.repr})); 1 },
            Outcome::HarnessBug(m) => { println!("{}", json!({"message": m, "case": cx.repr})); 3 },
        }
    };
    // The case's text is kept where the supervisor finds it even after a crash.
    if let Some(cpu) = o.cpu { set_limit(libc::RLIMIT_CPU, cpu); }
    enter_dir(&o, "one");
    if let Some(e) = o.example {
        let mut cx = new_cx(&o);
        return report(guarded(|| prop.example(e as usize, &mut cx)), &cx);
    }
    if let Some(to) = o.to {
        let mut i = o.from;
        while i <= to {
            let mut cx = new_cx(&o);
            let mut s = Src::random(case_seed(&o, i));
            if let out @ Outcome::Bad(_) = run_case(&*prop, &mut s, &mut cx) { return report(out, &cx); }
            i += o.shards;
        }
        return 0;
    }
    let mut s = match (&o.choices, o.index) {
        (Some(f), _) => {
            let v: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            Src::replay(&v)
        },
        (_, Some(i)) => Src::random(case_seed(&o, i)),
        _ => panic!("nothing to run"),
    };
    let mut cx = new_cx(&o);
    util::set_crash_note(Some(o.dir.join("one.case")));
    let out = run_case(&*prop, &mut s, &mut cx);
    let _ = std::fs::write(o.dir.join("one.choices"), serde_json::to_string(&s.rec).unwrap());
    report(out, &cx)
}

// ---------------------------------------------------------------- supervisor

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn spawn(o: &Opts, mode: &str, extra: &[String]) -> Child {
    let exe = std::env::current_exe().unwrap();
    let err = std::fs::File::create(o.dir.join(format!("{}-{}.err", mode, o.shard))).unwrap();
    let mut c = Command::new(exe);
    c.arg(mode).arg(&o.prop)
        .args(["--seed", &o.seed.to_string()])
        .args(["--dir", o.dir.to_str().unwrap()])
        .args(["--shard", &o.shard.to_string(), "--shards", &o.shards.to_string()])
        .args(extra);
    if o.thorough { c.arg("--thorough"); }
    c.envs(VARIABLES.iter().copied());
    c.env("NO_COLOR", "1").env("TZ", "UTC").env("RUST_BACKTRACE", "0")
        .env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=0:detect_stack_use_after_return=0")
        .env("HOME", o.dir.join("home"))
        .stdin(Stdio::null())
        .stdout(if mode == "one" { Stdio::piped() } else { Stdio::null() })
        .stderr(err);
    let asan = cfg!(feature = "asan");
    unsafe {
        c.pre_exec(move || {
            set_limit(libc::RLIMIT_CORE, 0);
            set_limit(libc::RLIMIT_FSIZE, 256 << 20);
            if !asan { set_limit(libc::RLIMIT_AS, 3 << 30); }
            Ok(())
        });
    }
    c.spawn().expect("cannot spawn worker")
}

enum OneResult { Pass, Bad(String, String), Crash(String), Harness(String) }

fn tail(path: &Path, n: usize) -> String {
    let s = std::fs::read(path).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    if let Some(i) = s.find("ERROR: AddressSanitizer") {
        return s[i..].chars().take(n).collect();
    }
    let k = s.chars().count().saturating_sub(n);
    s.chars().skip(k).collect()
}

fn run_one(o: &Opts, extra: &[String], cpu: u64) -> OneResult {
    let mut ex = extra.to_vec();
    ex.extend(["--cpu".into(), cpu.to_string()]);
    let _ = std::fs::remove_file(o.dir.join("one.case"));
    let child = spawn(o, "one", &ex);
    let pid = child.id() as i32;
    // Generous wall-clock limit on top of the CPU limit (a sleeping case is a harness matter).
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let d2 = done.clone();
    let limit = Duration::from_secs(cpu * 4 + 60);
    let guard = std::thread::spawn(move || {
        let t = Instant::now();
        while !d2.load(std::sync::atomic::Ordering::Relaxed) {
            if t.elapsed() > limit { unsafe { libc::kill(pid, libc::SIGKILL); } return true; }
            std::thread::sleep(Duration::from_millis(20));
        }
        false
    });
    let out = child.wait_with_output().unwrap();
    done.store(true, std::sync::atomic::Ordering::Relaxed);
    let wall_killed = guard.join().unwrap_or(false);
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    if wall_killed { return OneResult::Harness("isolated case exceeded its wall-clock limit".into()); }
    match out.status.code() {
        Some(0) => OneResult::Pass,
        Some(1) => {
            let v: Value = serde_json::from_str(text.lines().last().unwrap_or("")).unwrap_or(json!({}));
            OneResult::Bad(v["message"].as_str().unwrap_or("?").into(), v["case"].as_str().unwrap_or("").into())
        },
        Some(3) => OneResult::Harness(text),
        Some(86) => OneResult::Crash(format!("memory error: {}", tail(&o.dir.join(format!("one-{}.err", o.shard)), 1500))),
        Some(c) => OneResult::Crash(format!("exit status {c}: {}", tail(&o.dir.join(format!("one-{}.err", o.shard)), 400))),
        None => {
            let sig = out.status.signal().unwrap_or(0);
            if sig == libc::SIGXCPU || sig == libc::SIGKILL && cpu > 0 {
                OneResult::Crash(format!("no result after {cpu} s of CPU time (signal {sig})"))
            } else {
                OneResult::Crash(format!("killed by signal {sig}: {}", tail(&o.dir.join(format!("one-{}.err", o.shard)), 400)))
            }
        },
    }
}

fn violation(o: &Opts, f: &Value) -> String {
    let root = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&root);
    let path = root.join(format!("{}-{}.json", o.prop, f["index"]));
    let mut v = f.clone();
    v["property"] = json!(o.prop);
    v["seed"] = json!(o.seed);
    v["thorough"] = json!(o.thorough);
    v["shards"] = json!(o.shards);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path.to_string_lossy().into_owned()
}

fn check(mut o: Opts) -> i32 {
    let t0 = Instant::now();
    let Some(prop) = props::find(&o.prop) else { eprintln!("no such property {}", o.prop); return 2 };
    o.shards = std::env::var("VERIF_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let base = std::env::temp_dir().join(format!("vpseam-{}-{}", o.prop, std::process::id()));
    let _ = std::fs::create_dir_all(base.join("home"));
    o.dir = base.clone();
    let total = if o.cases > 0 { o.cases } else { (prop.cases(o.thorough) as f64 * o.scale * if o.thorough { 1.0 } else { 3.0 }) as u64 };
    o.cases = total;
    if o.deadline_s == 300 { o.deadline_s = if o.thorough { 660 } else { 240 }; }

    struct Slot { child: Option<Child>, shard: u64, from: u64, last: [u8; 16], since: Instant, restarts: u32 }
    let start_worker = |shard: u64, from: u64| -> Child {
        let mut w = o.clone();
        w.shard = shard;
        let left = o.deadline_s.saturating_sub(t0.elapsed().as_secs()).max(1);
        let mut extra = vec!["--from".to_string(), from.to_string(), "--cases".into(), total.to_string(),
            "--deadline".into(), left.to_string()];
        if o.guided { extra.push("--guided".into()); }
        spawn(&w, "worker", &extra)
    };
    let mut slots: Vec<Slot> = (0..o.shards).map(|i| Slot {
        child: Some(start_worker(i, 0)), shard: i, from: 0, last: [0; 16], since: Instant::now(), restarts: 0 }).collect();
    let stall = Duration::from_secs(if cfg!(feature = "asan") { 60 } else { 40 });
    let mut failure: Option<Value> = None;
    let mut errors: Vec<String> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut ended_early = false;

    while slots.iter().any(|s| s.child.is_some()) {
        std::thread::sleep(Duration::from_millis(25));
        for k in 0..slots.len() {
            let s = &mut slots[k];
            let Some(ref mut c) = s.child else { continue };
            let mut buf = [0u8; 16];
            if let Ok(f) = std::fs::File::open(base.join(format!("shard-{}.idx", s.shard))) { let _ = f.read_at(&mut buf, 0); }
            if buf != s.last { s.last = buf; s.since = Instant::now(); }
            let mut suspect: Option<&'static str> = None;
            match c.try_wait() {
                Ok(Some(st)) if st.code() == Some(0) => { s.child = None; },
                Ok(Some(st)) if st.code() == Some(3) => {
                    errors.push(format!("worker {}: {}", s.shard, tail(&base.join(format!("worker-{}.err", s.shard)), 600)));
                    s.child = None;
                },
                Ok(Some(_)) => suspect = Some("crashed"),
                Ok(None) => if s.since.elapsed() > stall { suspect = Some("stalled") },
                Err(e) => { errors.push(e.to_string()); s.child = None; },
            }
            if s.child.is_none() {
                // A finished shard with a failure ends the run early.
                if let Ok(t) = std::fs::read_to_string(base.join(format!("shard-{}.json", s.shard))) {
                    let v: Value = serde_json::from_str(&t).unwrap_or(json!({}));
                    if !v["failure"].is_null() || !v["harness_bug"].is_null() { ended_early = true; }
                }
            }
            let Some(why) = suspect else { continue };
            if let Some(mut c) = s.child.take() { let _ = c.kill(); let _ = c.wait(); }
            let index = u64::from_le_bytes(s.last[..8].try_into().unwrap());
            let mut w = o.clone();
            w.shard = s.shard;
            // A failure already found (the shrinker may have hit a crashing variant).
            let fail_file = base.join(format!("shard-{}.fail", s.shard));
            if let Ok(t) = std::fs::read_to_string(&fail_file) {
                if let Ok(v) = serde_json::from_str::<Value>(&t) { failure = Some(v); ended_early = true; continue; }
            }
            let is_example = index > u64::MAX / 2;
            let sel: Vec<String> = if is_example { vec!["--example".into(), (u64::MAX - index).to_string()] }
                else { vec!["--index".into(), index.to_string()] };
            let crash_msg = format!("{why} (worker: {})", tail(&base.join(format!("worker-{}.err", s.shard)), 1200));
            match run_one(&w, &sel, 60) {
                OneResult::Crash(m) => {
                    ended_early = true;
                    let case0 = std::fs::read_to_string(base.join("one.case")).unwrap_or_default();
                    if is_example {
                        failure = Some(json!({"mode": "example", "example": u64::MAX - index, "message": m, "case": case0, "index": u64::MAX - index}));
                        continue;
                    }
                    // Shrink in isolated processes.
                    let hang = m.starts_with("no result");
                    let cpu = if hang { 6 } else { 20 };
                    let budget = Instant::now() + Duration::from_secs(if hang { 120 } else { 60 });
                    // Recover the choice sequence by generating without running.
                    let rec = util::choices_of_crash(&base.join("one.case.choices"));
                    let cf = base.join("cand.json");
                    let (mut best, mut msg, mut case, mut tries) = (None, m.clone(), case0.clone(), 0);
                    if let Some(rec) = rec {
                        let mut f = |c: &[u64]| -> Option<(Vec<u64>, String)> {
                            std::fs::write(&cf, serde_json::to_string(c).unwrap()).unwrap();
                            match run_one(&w, &["--choices".into(), cf.to_string_lossy().into_owned()], cpu) {
                                OneResult::Crash(m) => Some((util::choices_of_crash(&base.join("one.case.choices")).unwrap_or(c.to_vec()), m)),
                                _ => None,
                            }
                        };
                        let (b, m2, t) = shrink(rec, m, budget, 3000, &mut f);
                        tries = t;
                        if f(&b).is_some() {
                            case = std::fs::read_to_string(base.join("one.case")).unwrap_or_default();
                        }
                        best = Some(b); msg = m2;
                    }
                    failure = Some(json!({"mode": if best.is_some() {"choices"} else {"index"}, "choices": best, "index": index,
                        "message": msg, "case": case, "original_case": case0, "shrink_tries": tries, "isolated": true}));
                },
                OneResult::Bad(m, case) => {
                    ended_early = true;
                    failure = Some(json!({"mode": "index", "index": index, "message": m, "case": case}));
                },
                OneResult::Harness(m) => errors.push(m),
                OneResult::Pass => {
                    // Not reproduced on its own: try the recent history of that worker.
                    let from = index.saturating_sub(400 * o.shards).max(s.from);
                    let from = from - from % o.shards + s.shard;
                    if why == "crashed" && !is_example {
                        match run_one(&w, &["--from".into(), from.to_string(), "--to".into(), index.to_string()], 300) {
                            OneResult::Crash(m) | OneResult::Bad(m, _) => {
                                ended_early = true;
                                failure = Some(json!({"mode": "range", "from": from, "to": index, "shard": s.shard, "index": index, "message": m,
                                    "case": "(only fails after the preceding cases)"}));
                                continue;
                            },
                            _ => {},
                        }
                        errors.push(format!("worker {} {} at case {} but the case passes on its own: {}", s.shard, why, index, crash_msg));
                    } else {
                        notes.push(format!("worker {} {} at case {}, which passes on its own; resumed", s.shard, why, index));
                        s.restarts += 1;
                        if s.restarts > 3 || is_example { errors.push(format!("worker {} keeps stalling", s.shard)); continue; }
                        s.from = index + 1;
                        s.since = Instant::now();
                        s.child = Some(start_worker(s.shard, index + 1));
                    }
                },
            }
        }
        if ended_early {
            // Let the others finish what they are at only briefly.
            for s in &mut slots { if let Some(mut c) = s.child.take() { let _ = c.kill(); let _ = c.wait(); } }
        }
    }

    // Merge.
    let mut evals = 0u64; let mut discards = 0u64; let mut nontriv = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut discard_why: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut cut_short = false;
    let mut guided: Vec<Value> = vec![];
    for s in 0..o.shards {
        let Ok(t) = std::fs::read_to_string(base.join(format!("shard-{s}.json"))) else {
            if !ended_early { errors.push(format!("shard {s} left no result")); }
            continue
        };
        let v: Value = serde_json::from_str(&t).unwrap_or(json!({}));
        evals += v["evals"].as_u64().unwrap_or(0);
        discards += v["discards"].as_u64().unwrap_or(0);
        nontriv += v["nontrivial"].as_u64().unwrap_or(0);
        cut_short |= v["cut_short"].as_bool().unwrap_or(false);
        for d in v["distinct"].as_array().into_iter().flatten() { distinct.insert(d.as_u64().unwrap_or(0)); }
        for (k, n) in v["labels"].as_object().into_iter().flatten() { *labels.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0); }
        for (k, n) in v["discard_why"].as_object().into_iter().flatten() { *discard_why.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0); }
        for x in v["samples"].as_array().into_iter().flatten() { if samples.len() < 12 { samples.push(x.as_str().unwrap_or("").into()); } }
        if !v["guided"].is_null() { guided.push(v["guided"].clone()); }
        if let Some(b) = v["harness_bug"].as_str() { errors.push(b.into()); }
        if !v["failure"].is_null() {
            let better = match failure { None => true, Some(ref f) => v["failure"]["index"].as_u64() < f["index"].as_u64() };
            if better { failure = Some(v["failure"].clone()); }
        }
    }
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&base);

    let mut cov = json!({
        "evaluations": evals, "distinct_nontrivial": distinct.len(), "nontrivial": nontriv, "discarded": discards,
        "rule": prop.rule(), "samples": samples, "classes": labels, "shards": o.shards,
        "requested_cases": total, "stopped_at_time_limit": cut_short, "fixed_examples": prop.examples(),
    });
    if !discard_why.is_empty() { cov["discard_reasons"] = json!(discard_why); }
    if !guided.is_empty() { cov["coverage_guidance_per_shard"] = json!(guided); }
    if !notes.is_empty() { cov["notes"] = json!(notes); }
    let ev = json!({"property": o.prop, "tier": if o.thorough {"thorough"} else {"quick"}, "seed": o.seed,
        "level": "exploration", "coverage": cov, "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if failure.is_some() {1} else {0}});
    let evdir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let _ = std::fs::write(evdir.join(format!("{}.json", o.prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n");

    for line in known_findings(&o.prop) {
        let Some((input, what)) = line else { errors.push("KNOWN_FINDINGS.txt: unreadable finding".into()); continue };
        let again = guarded(|| if prop.finding(&input) { bad("still fails") } else { Ok(()) });
        if matches!(again, Outcome::Bad(_)) { println!("KNOWN-FINDING: property={} {}", o.prop, what); }
    }
    println!("{}: {} cases ({} distinct non-trivial, {} discarded) in {:.1} s", o.prop, evals, distinct.len(), discards, t0.elapsed().as_secs_f64());
    if let Some(f) = failure {
        let path = violation(&o, &f);
        println!("--- failing case\n{}\n--- what failed\n{}", f["case"].as_str().unwrap_or(""), f["message"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", o.prop, path);
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors { eprintln!("ERROR: {e}"); }
        return 2;
    }
    if evals == 0 { eprintln!("ERROR: nothing was evaluated"); return 2; }
    0
}

/// The inputs (and descriptions) listed as `finding: property=ID input="..." description`.
fn known_findings(id: &str) -> Vec<Option<(String, String)>> {
    let text = std::fs::read_to_string(verif_root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    text.lines().filter_map(|l| l.strip_prefix("finding: property=")).filter_map(|l| l.strip_prefix(id)?.strip_prefix(" input=")).map(|l| {
        let mut it = serde_json::Deserializer::from_str(l).into_iter::<String>();
        let input = it.next()?.ok()?;
        Some((input, l[it.byte_offset()..].trim().to_owned()))
    }).collect()
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).unwrap();
    let mut o = parse_opts(&[v["property"].as_str().unwrap().to_string()]);
    o.seed = v["seed"].as_u64().unwrap_or(1);
    o.thorough = v["thorough"].as_bool().unwrap_or(false);
    o.shards = v["shards"].as_u64().unwrap_or(8);
    o.dir = std::env::temp_dir().join(format!("vpseam-replay-{}", std::process::id()));
    std::fs::create_dir_all(o.dir.join("home")).unwrap();
    let cf = o.dir.join("choices.json");
    let extra: Vec<String> = match v["mode"].as_str().unwrap_or("") {
        "example" => vec!["--example".into(), v["example"].to_string()],
        "choices" => { std::fs::write(&cf, v["choices"].to_string()).unwrap(); vec!["--choices".into(), cf.to_string_lossy().into_owned()] },
        "range" => { o.shard = v["shard"].as_u64().unwrap_or(0); vec!["--from".into(), v["from"].to_string(), "--to".into(), v["to"].to_string()] },
        _ => vec!["--index".into(), v["index"].to_string()],
    };
    let r = run_one(&o, &extra, 60);
    let _ = std::fs::remove_dir_all(&o.dir);
    match r {
        OneResult::Pass => { println!("replay passes"); 0 },
        OneResult::Bad(m, c) => { println!("--- failing case\n{c}\n--- what failed\n{m}\nVIOLATION property={} replay={path}", o.prop); 1 },
        OneResult::Crash(m) => { println!("{m}\nVIOLATION property={} replay={path}", o.prop); 1 },
        OneResult::Harness(m) => { eprintln!("ERROR: {m}"); 2 },
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mode = args.first().map(|s| s.as_str()).unwrap_or("");
    let rest = args.get(1..).unwrap_or(&[]).to_vec();
    let code = match mode {
        "check" => check(parse_opts(&rest)),
        "worker" => { let o = parse_opts(&rest); on_big_stack(move || worker(o)) },
        "one" => { let o = parse_opts(&rest); on_big_stack(move || one(o)) },
        "replay" => replay(&rest[0]),
        "list" => { for p in props::all() { println!("{} {} {}", p.id(), p.cases(false), p.cases(true)); } 0 },
        "show" => {
            // Print a few generated cases (development aid).
            let o = parse_opts(&rest);
            std::env::set_var("NO_COLOR", "1");
            for (k, v) in VARIABLES { std::env::set_var(k, v); }
            let d = std::env::temp_dir().join(format!("vpseam-show-{}", std::process::id()));
            std::fs::create_dir_all(&d).unwrap();
            std::env::set_current_dir(&d).unwrap();
            on_big_stack(move || {
                let p = props::find(&o.prop).unwrap();
                for i in o.from..o.from + o.cases.max(5) {
                    let mut s = Src::random(case_seed(&o, i));
                    let mut cx = new_cx(&o);
                    let r = match run_case(&*p, &mut s, &mut cx) {
                        Outcome::Pass => "PASS".to_string(), Outcome::Discard(w) => format!("DISCARD {w}"),
                        Outcome::Bad(m) => format!("BAD {m}"), Outcome::HarnessBug(m) => format!("HARNESS {m}") };
                    println!("=== case {i} nontrivial={} choices={} {:?}\n{}\n=> {}", cx.nontrivial, s.rec.len(), cx.labels, cx.repr, r);
                }
            });
            let _ = std::env::set_current_dir("/");
            let _ = std::fs::remove_dir_all(&d);
            0
        },
        _ => { eprintln!("usage: seam-verif check|replay|list|show ..."); 2 },
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
