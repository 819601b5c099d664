//! Batches of runs in worker processes, replay, evidence.

use crate::plan::*;
use crate::{gen, intercept, kinds, server, shrink, special, world};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simcore::rng::mix;
use simcore::{RunCfg, RunResult};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
/// hashes that a worker keeps at most, to count distinct ones (beyond that, the counts are lower bounds)
const SET_MAX: usize = 600_000;
/// CPU seconds that a single simulated run may take
const HANG_CPU_S: f64 = 20.0;

////////////////////////////////////////////////////////////////////////////////
// one run

pub type Tapes = Vec<Vec<u32>>;

pub fn exec_here(plan: &Plan, tapes: Option<Tapes>, trace: bool) -> RunResult {
    static RUN_ID: AtomicU64 = AtomicU64::new(1);
    let plan = plan.clone();
    let t = std::thread::Builder::new()
        .name("sim".into())
        .spawn(move || {
            intercept::set_hash_seed(plan.hash_seed);
            simtokio::task::reset();
            simtokio::signal::reset();
            let cfg = RunCfg {
                run_id: RUN_ID.fetch_add(1, Ordering::Relaxed),
                seed: mix(plan.seed, 0x5EED),
                hash_seed: plan.hash_seed,
                knobs: plan.knobs.to_knobs(),
                replay: tapes,
                trace,
                hard: {
                    let prop = plan.prop.clone();
                    Box::new(move |k| kinds::harness_error(k) || kinds::relevant(&prop, k))
                },
            };
            let scen = plan.scen;
            let r = simcore::run(cfg, move || match scen {
                Scen::Server(p) => server::director(p),
                Scen::Discover(p) => special::discover(p),
                Scen::Creds(p) => special::creds(p),
                Scen::Path(p) => special::path(p),
                Scen::Example(p) => special::example(p),
            });
            if r.outcome.is_none() && r.soft.is_empty() {
                world::discard();
                special::discard();
                simtokio::task::reset();
                simtokio::signal::reset();
            }
            r
        })
        .expect("thread");
    match t.join() {
        Ok(r) => r,
        Err(_) => {
            eprintln!("harness error: the simulation itself panicked");
            std::process::exit(3);
        }
    }
}

/// What came out of a run in a process of its own.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Outcome {
    pub kind: Option<String>,
    pub msg: String,
    pub tapes: Tapes,
    pub steps: u64,
    pub hash: u64,
    #[serde(default)]
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize)]
struct ExecIn {
    plan: Plan,
    tapes: Option<Tapes>,
    trace: bool,
}

fn me() -> PathBuf {
    std::env::current_exe().expect("current_exe")
}

fn limits(cmd: &mut Command) {
    use std::os::unix::process::CommandExt;
    // SAFETY: only async-signal-safe calls
    unsafe {
        cmd.pre_exec(|| {
            let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
}

fn cpu_s(pid: u32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some(i) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let n = |k: usize| f.get(k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

/// Runs a plan in a fresh process.
pub fn exec_child(scratch: &Path, plan: &Plan, tapes: Option<Tapes>, trace: bool, cpu_limit: f64) -> Outcome {
    static N: AtomicU64 = AtomicU64::new(0);
    let k = N.fetch_add(1, Ordering::Relaxed);
    let fin = scratch.join(format!("exec-{k}.in"));
    let fout = scratch.join(format!("exec-{k}.out"));
    let inp = ExecIn { plan: plan.clone(), tapes, trace };
    std::fs::write(&fin, serde_json::to_vec(&inp).unwrap()).expect("write");
    let mut cmd = Command::new(me());
    cmd.arg("exec").arg(&fin).arg(&fout).current_dir(scratch).stdout(Stdio::null()).stderr(Stdio::null());
    limits(&mut cmd);
    let mut ch = cmd.spawn().expect("spawn");
    let pid = ch.id();
    let mut hang = false;
    let mut nap = 1;
    let st = loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            break st;
        }
        if cpu_s(pid) > cpu_limit {
            hang = true;
            let _ = ch.kill();
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    };
    let r = if hang {
        Outcome { kind: Some("hang".into()), msg: format!("a run without end ({cpu_limit} s of CPU time)"), tapes: vec![], steps: 0, hash: 0, trace: vec![] }
    } else {
        match std::fs::read(&fout).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(r) if st.success() => r,
            _ => {
                let harness = st.code().is_some_and(|c| c == 3);
                Outcome {
                    kind: Some(if harness { "harness-panic" } else { "crash" }.into()),
                    msg: format!("the process died ({st})"),
                    tapes: vec![],
                    steps: 0,
                    hash: 0,
                    trace: vec![],
                }
            }
        }
    };
    let _ = std::fs::remove_file(&fin);
    let _ = std::fs::remove_file(&fout);
    r
}

fn cmd_exec(args: &[String]) -> i32 {
    let inp: ExecIn = serde_json::from_slice(&std::fs::read(&args[0]).expect("read")).expect("json");
    let r = exec_here(&inp.plan, inp.tapes, inp.trace);
    let o = Outcome {
        kind: r.outcome.as_ref().map(|v| v.kind.clone()),
        msg: r.outcome.map(|v| v.msg).unwrap_or_default(),
        tapes: r.tapes,
        steps: r.steps,
        hash: r.hash,
        trace: r.trace,
    };
    std::fs::write(&args[1], serde_json::to_vec(&o).unwrap()).expect("write");
    0
}

////////////////////////////////////////////////////////////////////////////////
// workers

struct Shared(*mut u64);
impl Shared {
    fn open(path: &Path, create: bool) -> Shared {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(path).expect("shared");
        if create {
            f.set_len(4096).unwrap();
        }
        // SAFETY: plain shared mapping of a file we own
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shared(p as *mut u64)
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        // SAFETY: within the mapping, which lives as long as the process
        unsafe { &*(self.0.add(i) as *const AtomicU64) }
    }
    fn limit(&self) -> &AtomicU64 {
        self.at(0)
    }
    fn progress(&self, w: usize) -> &AtomicU64 {
        self.at(1 + w)
    }
}

#[derive(Serialize, Deserialize, Default)]
struct WStats {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    /// of the longest run, and which one that is
    #[serde(default)]
    most: (u64, u64),
    sim_ns: u64,
    counts: BTreeMap<String, u64>,
    schedules: BTreeSet<u64>,
    distinct: BTreeSet<u64>,
    samples: Vec<Value>,
    foreign: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    dets: BTreeMap<u64, u64>,
    next: u64,
}
#[derive(Serialize, Deserialize, Clone)]
struct Found {
    idx: u64,
    kind: String,
    msg: String,
    tapes: Tapes,
}

#[derive(Clone)]
pub struct Known {
    prop: String,
    kind: String,
    part: String,
    text: String,
}
/// `known: property=<id> kind=<kind> match=<text> | <description>`
fn load_known(path: &Path) -> Vec<Known> {
    let mut v = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let (head, text) = r.split_once(" | ").unwrap_or((r, ""));
        let mut it = head.splitn(3, ' ');
        let prop = it.next().unwrap_or("").to_string();
        let kind = it.next().unwrap_or("").trim_start_matches("kind=").to_string();
        let part = it.next().unwrap_or("").trim_start_matches("match=").to_string();
        v.push(Known { prop, kind, part, text: text.to_string() });
    }
    v
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, &x| (h ^ x as u64).wrapping_mul(0x100000001b3))
}

fn nontrivial(scen: &Scen, r: &RunResult) -> bool {
    let c = |k: &str| r.stats.counts.get(k).copied().unwrap_or(0);
    match scen {
        Scen::Server(_) => c("conns") > 0 && c("bytes") > 0,
        Scen::Discover(p) => !p.data.0.is_empty(),
        Scen::Creds(_) => c("reach.credentials") + c("reach.no_credential") > 0,
        Scen::Path(_) => true,
        Scen::Example(_) => c("conns") > 0,
    }
}

fn rss_kb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4
}

/// worker PROP SEED W FROM STRIDE TO DEADLINE_MS SCRATCH OUT KNOWN
fn cmd_worker(a: &[String]) -> i32 {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, w, from, stride, to, deadline) = (n(1), n(2) as usize, n(3), n(4), n(5), n(6));
    let scratch = PathBuf::from(&a[7]);
    let known = load_known(Path::new(&a[9]));
    let shared = Shared::open(&scratch.join("shared"), false);
    let start = Instant::now();
    let mut st = WStats::default();
    let mut code = 0;
    let mut idx = from;
    while idx < to && idx <= shared.limit().load(Ordering::Relaxed) {
        if start.elapsed().as_millis() as u64 > deadline {
            break;
        }
        shared.progress(w).store(idx + 1, Ordering::Relaxed);
        let plan = gen::plan(prop, seed, idx);
        let r = exec_here(&plan, None, false);
        st.runs += 1;
        st.steps += r.steps;
        st.most = st.most.max((r.steps, idx));
        st.sim_ns += r.now;
        for (k, v) in &r.stats.counts {
            *st.counts.entry(k.to_string()).or_default() += v;
        }
        if st.schedules.len() < SET_MAX {
            st.schedules.insert(r.hash);
        }
        let js = serde_json::to_string(&plan.scen).unwrap();
        if nontrivial(&plan.scen, &r) {
            st.nontrivial += 1;
            if st.distinct.len() < SET_MAX {
                st.distinct.insert(r.hash ^ fnv(js.as_bytes()));
            }
        }
        if idx < 64 {
            st.dets.insert(idx, r.hash ^ r.steps << 40 ^ fnv(r.outcome.as_ref().map(|o| o.kind.clone()).unwrap_or_default().as_bytes()));
        }
        if st.samples.len() < 3 && js.len() < 1500 && r.outcome.is_none() && nontrivial(&plan.scen, &r) {
            st.samples.push(json!({"index": idx, "seed": plan.seed, "scheduling_points": r.steps, "simulated_ms": r.now as f64 / 1e6,
                "schedule_hash": format!("{:016x}", r.hash), "knobs": plan.knobs, "plan": plan.scen}));
        }
        for (k, v) in r.soft {
            *st.foreign.entry(k).or_default() += v;
        }
        if let Some(v) = r.outcome {
            if kinds::harness_error(&v.kind) {
                eprintln!("harness error in run {idx}: {}", v.msg);
                let f = Found { idx, kind: v.kind, msg: v.msg, tapes: r.tapes };
                std::fs::write(scratch.join(format!("found-{idx}.json")), serde_json::to_vec(&f).unwrap()).expect("write");
                shared.limit().fetch_min(idx, Ordering::Relaxed);
                break;
            }
            if let Some(k) = known.iter().find(|k| k.prop == *prop && k.kind == v.kind && v.msg.contains(&k.part)) {
                *st.known.entry(k.text.clone()).or_default() += 1;
            } else if kinds::relevant(prop, &v.kind) {
                let f = Found { idx, kind: v.kind, msg: v.msg, tapes: r.tapes };
                std::fs::write(scratch.join(format!("found-{idx}.json")), serde_json::to_vec(&f).unwrap()).expect("write");
                shared.limit().fetch_min(idx, Ordering::Relaxed);
                break;
            } else {
                *st.foreign.entry(v.kind).or_default() += 1;
            }
        }
        idx += stride;
        if st.runs % 64 == 0 && rss_kb() > 1_500_000 {
            code = 77;
            break;
        }
    }
    st.next = idx;
    std::fs::write(&a[8], serde_json::to_vec(&st).unwrap()).expect("write");
    code
}

////////////////////////////////////////////////////////////////////////////////
// check

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub kind: String,
    pub msg: String,
    pub verif_seed: u64,
    pub index: u64,
    /// "plan": plan and tapes; "range": the runs from `first` to `index` in steps of `stride`, in one process
    pub mode: String,
    pub first: u64,
    pub stride: u64,
    pub plan: Plan,
    pub tapes: Tapes,
    pub trace: Vec<String>,
}

fn opt<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

struct Job {
    ch: Child,
    w: usize,
    from: u64,
    out: PathBuf,
    last: u64,
    cpu_at: f64,
}

/// How many runs a check makes.
fn budget(prop: &str, tier: &str) -> u64 {
    let quick = match prop {
        "C18" => 30_000,
        "C03" => 50_000,
        "C01" | "C24" | "C25" => 60_000,
        "C02" | "C04" | "C11" | "C12" => 80_000,
        "C05" | "C06" => 100_000,
        "C07" | "C08" | "C10" | "C13" => 120_000,
        "C17" => 120_000,
        "C09" | "C14" => 160_000,
        _ => 400_000,
    };
    if tier == "thorough" {
        quick * 50
    } else {
        quick
    }
}

fn cmd_check(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let prop = opt(args, "--prop").expect("--prop").to_string();
    let tier = opt(args, "--tier").unwrap_or("quick").to_string();
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs: u64 = opt(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or_else(|| budget(&prop, &tier));
    let wall: u64 = opt(args, "--wall").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 5400 } else { 240 });
    let known_path = opt(args, "--known").unwrap_or("/nonexistent").to_string();
    let evidence = opt(args, "--evidence").map(PathBuf::from);
    let replay_dir = PathBuf::from(opt(args, "--replays").unwrap_or("."));
    let scratch = PathBuf::from(opt(args, "--scratch").expect("--scratch"));
    let scratch = scratch.join(format!("{prop}-{tier}"));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).expect("scratch");
    println!("{prop} {tier}: VERIF_SEED={seed}, {runs} simulated runs");
    let shared = Shared::open(&scratch.join("shared"), true);
    shared.limit().store(u64::MAX, Ordering::Relaxed);
    let deadline = wall * 1000;
    let start = |w: usize, from: u64, gen: usize| -> Job {
        let out = scratch.join(format!("stats-{w}-{gen}.json"));
        let left = deadline.saturating_sub(t0.elapsed().as_millis() as u64);
        let mut cmd = Command::new(me());
        cmd.arg("worker")
            .arg(&prop)
            .args([seed, w as u64, from, WORKERS as u64, runs, left].map(|x| x.to_string()))
            .arg(&scratch)
            .arg(&out)
            .arg(&known_path)
            .current_dir(&scratch);
        limits(&mut cmd);
        shared.progress(w).store(0, Ordering::Relaxed);
        Job { ch: cmd.spawn().expect("spawn worker"), w, from, out, last: 0, cpu_at: 0.0 }
    };
    let mut jobs: Vec<Job> = (0..WORKERS).map(|w| start(w, w as u64, 0)).collect();
    let mut gen_no = 0;
    let mut found: Vec<Found> = Vec::new();
    let mut total = WStats::default();
    let mut errors: Vec<String> = Vec::new();
    let plain = |idx: u64, kind: &str, msg: String| Found { idx, kind: kind.into(), msg, tapes: vec![] };
    while !jobs.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < jobs.len() {
            let j = &mut jobs[i];
            let p = shared.progress(j.w).load(Ordering::Relaxed);
            let cpu = cpu_s(j.ch.id());
            if p != j.last {
                j.last = p;
                j.cpu_at = cpu;
            }
            let mut hang = false;
            if p > 0 && cpu - j.cpu_at > HANG_CPU_S {
                let _ = j.ch.kill();
                hang = true;
            }
            let st = if hang { Some(j.ch.wait().expect("wait")) } else { j.ch.try_wait().expect("wait") };
            let Some(st) = st else {
                i += 1;
                continue;
            };
            let j = jobs.swap_remove(i);
            let idx = p.max(1) - 1;
            if hang {
                shared.limit().fetch_min(idx, Ordering::Relaxed);
                found.push(plain(idx, "hang", format!("run {idx} does not end ({HANG_CPU_S} s of CPU time)")));
                continue;
            }
            match st.code() {
                Some(c @ (0 | 77)) => match std::fs::read(&j.out).ok().and_then(|b| serde_json::from_slice::<WStats>(&b).ok()) {
                    Some(s) => {
                        let next = s.next;
                        merge(&mut total, s);
                        if c == 77 {
                            gen_no += 1;
                            jobs.push(start(j.w, next, gen_no));
                        }
                    }
                    None => errors.push(format!("worker {} left no result", j.w)),
                },
                Some(3) => errors.push(format!("worker {} failed in run {idx}", j.w)),
                Some(c) if p == 0 => errors.push(format!("worker {} exited with {c}", j.w)),
                _ if p == 0 => errors.push(format!("worker {} died: {st}", j.w)),
                _ => {
                    let _ = j.from;
                    shared.limit().fetch_min(idx, Ordering::Relaxed);
                    found.push(plain(idx, "crash", format!("the process died in run {idx} ({st})")));
                }
            }
        }
    }
    for e in std::fs::read_dir(&scratch).expect("scratch").flatten() {
        if e.file_name().to_string_lossy().starts_with("found-") {
            if let Some(f) = std::fs::read(e.path()).ok().and_then(|b| serde_json::from_slice::<Found>(&b).ok()) {
                found.push(f);
            }
        }
    }
    found.sort_by_key(|f| f.idx);
    let explore_s = t0.elapsed().as_secs_f64();
    // a sample of the runs once more, in a process of its own
    let mut same = 0u64;
    let mut differ: Vec<u64> = Vec::new();
    if found.is_empty() && errors.is_empty() {
        let dets = determinism_sample(&scratch, &prop, seed, &known_path);
        for (i, h) in &total.dets {
            match dets.get(i) {
                Some(x) if x == h => same += 1,
                Some(_) => differ.push(*i),
                None => {}
            }
        }
        if !differ.is_empty() {
            println!("note: runs {differ:?} took another course when repeated");
        }
    }
    let mut code = 0;
    let mut violations = 0;
    let mut reported = Value::Null;
    if let Some(f) = found.iter().find(|f| kinds::harness_error(&f.kind)) {
        errors.push(format!("run {}: {}", f.idx, f.msg));
    }
    let real = found.iter().find(|f| !kinds::harness_error(&f.kind));
    if let Some(f) = real {
        violations = 1;
        code = 1;
        let r = report(&scratch, &prop, seed, f, &known_path);
        let _ = std::fs::create_dir_all(&replay_dir);
        let path = replay_dir.join(format!("{prop}-{}-{}.json", seed, f.idx));
        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).expect("write replay");
        println!("{}: {}", r.kind, r.msg);
        for l in r.trace.iter().rev().take(40).collect::<Vec<_>>().iter().rev() {
            println!("    {l}");
        }
        println!("VIOLATION property={prop} replay={}", path.display());
        reported = json!({"kind": r.kind, "message": r.msg, "replay": path, "run": f.idx});
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {e}");
        }
        code = 2;
    }
    for k in load_known(Path::new(&known_path)).iter().filter(|k| k.prop == prop) {
        println!("KNOWN-FINDING: property={prop} {}", k.text);
    }
    let part = |pre: &str| -> BTreeMap<String, u64> {
        total.counts.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), *v)).collect()
    };
    if let Some(ev) = evidence {
        let per_hour = total.runs as f64 / explore_s.max(0.001) * 3600.0;
        let (real_parts, stubs) = components(&prop);
        let e = json!({
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": total.runs,
                "distinct_nontrivial": total.distinct.len(),
                "rule": rule(&prop),
                "samples": total.samples.iter().take(3).collect::<Vec<_>>(),
                "nontrivial_runs": total.nontrivial,
                "distinct_schedules": total.schedules.len(),
                "distinct_schedules_measure": "hash over the sequence of (scheduling point, coroutine switched to) of a run",
                "scheduling_points": total.steps,
                "longest_run": {"scheduling_points": total.most.0, "index": total.most.1},
                "runs_per_hour": per_hour.round(),
                "seeds": "every run has a seed of its own, derived from VERIF_SEED and the index of the run",
                "simulated_seconds": total.sim_ns as f64 / 1e9,
                "faults_injected": part("fault."),
                "conditions_reached": part("reach."),
                "volume": {"connections": total.counts.get("conns"), "bytes": total.counts.get("bytes"), "requests": total.counts.get("requests"),
                    "tasks": total.counts.get("tasks"), "idle_state_checks": total.counts.get("idle_checks")},
                "violations_of_other_properties_passed_over": total.foreign,
                "known_findings_seen": total.known,
                "repeated_runs_identical": same,
                "repeated_runs_different": differ.len(),
                "real_code": real_parts,
                "stubs": stubs,
                "worker_processes": WORKERS,
                "violation": reported,
            },
            "assumptions": [
                "Sequentially consistent interleaving at lock, atomic, wake-up, socket and callback granularity; no weak memory effects.",
                "The simulated sockets, timers and executor behave like the kernel and tokio within their documented contracts.",
                "Sampling: absence of a violation is evidence, not proof."
            ],
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations,
        });
        if let Some(d) = ev.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&ev, serde_json::to_vec_pretty(&e).unwrap()).expect("write evidence");
    }
    println!(
        "{prop}: {} runs, {} distinct non-trivial, {} schedules, {:.1} simulated s, {:.1} s wall{}",
        total.runs,
        total.distinct.len(),
        total.schedules.len(),
        total.sim_ns as f64 / 1e9,
        t0.elapsed().as_secs_f64(),
        if total.foreign.is_empty() { String::new() } else { format!(", contradicting other properties only: {:?}", total.foreign) }
    );
    code
}

fn merge(t: &mut WStats, s: WStats) {
    t.runs += s.runs;
    t.nontrivial += s.nontrivial;
    t.steps += s.steps;
    t.most = t.most.max(s.most);
    t.sim_ns += s.sim_ns;
    for (k, v) in s.counts {
        *t.counts.entry(k).or_default() += v;
    }
    for (k, v) in s.foreign {
        *t.foreign.entry(k).or_default() += v;
    }
    for (k, v) in s.known {
        *t.known.entry(k).or_default() += v;
    }
    t.schedules.extend(s.schedules);
    t.distinct.extend(s.distinct);
    t.samples.extend(s.samples);
    t.dets.extend(s.dets);
}

/// The first runs again, all in one process (with another assignment of runs to processes than in the batch).
fn determinism_sample(scratch: &Path, prop: &str, seed: u64, known: &str) -> BTreeMap<u64, u64> {
    let out = scratch.join("again.json");
    let mut cmd = Command::new(me());
    cmd.arg("worker")
        .arg(prop)
        .args([seed, 20, 0, 1, 64, 20_000].map(|x| x.to_string()))
        .arg(scratch)
        .arg(&out)
        .arg(known)
        .current_dir(scratch)
        .stderr(Stdio::null());
    limits(&mut cmd);
    let _ = cmd.status();
    std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<WStats>(&b).ok()).map(|s| s.dets).unwrap_or_default()
}

fn report(scratch: &Path, prop: &str, seed: u64, f: &Found, known: &str) -> Replay {
    let plan = gen::plan(prop, seed, f.idx);
    let tapes = if f.tapes.is_empty() { None } else { Some(f.tapes.clone()) };
    let r = exec_child(scratch, &plan, tapes, false, HANG_CPU_S);
    let mut rep = Replay {
        property: prop.into(),
        kind: f.kind.clone(),
        msg: f.msg.clone(),
        verif_seed: seed,
        index: f.idx,
        mode: "plan".into(),
        first: f.idx % WORKERS as u64,
        stride: WORKERS as u64,
        plan: plan.clone(),
        tapes: f.tapes.clone(),
        trace: vec![],
    };
    let _ = known;
    if r.kind.as_deref() != Some(&f.kind) {
        println!("the run alone does not repeat the violation ({:?}); the replay repeats the series of runs", r.kind);
        rep.mode = "range".into();
        return rep;
    }
    let (plan, tapes, last) = shrink::shrink(scratch, plan, if r.tapes.is_empty() { f.tapes.clone() } else { r.tapes }, &f.kind);
    let v = exec_child(scratch, &plan, tapes.clone(), true, HANG_CPU_S);
    if v.kind.as_deref() == Some(&f.kind) {
        rep.plan = plan;
        rep.tapes = tapes.unwrap_or_default();
        rep.msg = if v.msg.is_empty() { last } else { v.msg };
        rep.trace = v.trace;
        if rep.tapes.is_empty() && !v.tapes.is_empty() {
            rep.tapes = v.tapes;
        }
    }
    rep
}

fn cmd_replay(args: &[String]) -> i32 {
    let path = &args[0];
    let rep: Replay = serde_json::from_slice(&std::fs::read(path).expect("read")).expect("replay file");
    let scratch = PathBuf::from(opt(args, "--scratch").expect("--scratch"));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let (kind, msg, trace) = if rep.mode == "range" {
        let shared = Shared::open(&scratch.join("shared"), true);
        shared.limit().store(u64::MAX, Ordering::Relaxed);
        let out = scratch.join("range.json");
        let mut cmd = Command::new(me());
        cmd.arg("worker")
            .arg(&rep.property)
            .args([rep.verif_seed, 0, rep.first, rep.stride, rep.index + 1, 3_600_000].map(|x| x.to_string()))
            .arg(&scratch)
            .arg(&out)
            .arg("/nonexistent")
            .current_dir(&scratch);
        limits(&mut cmd);
        let st = cmd.status().expect("worker");
        let f = scratch.join(format!("found-{}.json", rep.index));
        match std::fs::read(f).ok().and_then(|b| serde_json::from_slice::<Found>(&b).ok()) {
            Some(f) => (Some(f.kind), f.msg, vec![]),
            None if !st.success() => (Some("crash".to_string()), format!("{st}"), vec![]),
            None => (None, String::new(), vec![]),
        }
    } else {
        let t = if rep.tapes.is_empty() { None } else { Some(rep.tapes.clone()) };
        let r = exec_child(&scratch, &rep.plan, t, true, HANG_CPU_S);
        (r.kind, r.msg, r.trace)
    };
    for l in &trace {
        println!("{l}");
    }
    match kind {
        Some(k) if k == rep.kind => {
            println!("{k}: {msg}");
            println!("VIOLATION property={} replay={path}", rep.property);
            1
        }
        k => {
            println!("not reproduced (recorded: {}, now: {k:?} {msg})", rep.kind);
            0
        }
    }
}

/// show PROP SEED IDX: one run with its trace
fn cmd_show(args: &[String]) -> i32 {
    let plan = gen::plan(&args[0], args[1].parse().unwrap(), args[2].parse().unwrap());
    println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    let r = exec_here(&plan, None, true);
    for l in &r.trace {
        println!("{l}");
    }
    println!("{:?} steps {} hash {:x} counts {:?}", r.outcome, r.steps, r.hash, r.stats.counts);
    0
}

/// det PROP SEED FROM STRIDE TO: one line per run, for comparing between processes
fn cmd_det(args: &[String]) -> i32 {
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    let mut i = n(2);
    while i < n(4) {
        let plan = gen::plan(&args[0], n(1), i);
        let r = exec_here(&plan, None, true);
        let t = fnv(r.trace.join("\n").as_bytes());
        let again = exec_here(&plan, Some(r.tapes.clone()), true);
        let t2 = fnv(again.trace.join("\n").as_bytes());
        println!(
            "{i} {:016x} {} {} {:016x} {:?}{}",
            r.hash,
            r.steps,
            r.now,
            t,
            r.outcome.as_ref().map(|o| &o.kind),
            if t == t2 && r.hash == again.hash { "" } else { " REPLAY DIFFERS" }
        );
        i += n(3);
    }
    0
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C15" => "One run = one Environment::discover() + parse() on a generated announcement, split and interrupted by a generated script. Non-trivial: the script delivers at least one byte. Distinct: different announcement, script or schedule.",
        "C16" => "One run = a sequence of generated credentials under a generated entropy stream with faults, plus re-generation with single bits of the draws flipped. Non-trivial: at least one generation attempted. Distinct: different plan or schedule.",
        "C17" => "One run = the whole example server from main() to exit under generated clients, interrupt times and schedule. Non-trivial: at least one connection accepted. Distinct: different plan or schedule.",
        "C19" => "One run = one to three concurrent calls of default_socket_path() on a generated file system with injected errors and races. Distinct: different plan or schedule.",
        "C18" => "One run = one server that serves the same generated population of clients again and again, with faults, under a seeded schedule. Non-trivial: at least one connection was accepted and bytes moved. Distinct: different plan or different sequence of context switches.",
        "C24" | "C25" => "One run = one server with one to three clients that are built from the library and name, create, use and end others, plus other generated clients, application threads and faults under a seeded schedule. Non-trivial: at least one connection was accepted and bytes moved. Distinct: different plan or different sequence of context switches.",
        _ => "One run = one server (sometimes run repeatedly) with generated clients, application threads, broadcasts, callbacks, socket and listener faults under a seeded schedule; in one of twelve runs the whole example server instead. Non-trivial: at least one connection was accepted and bytes moved. Distinct: different plan or different sequence of context switches.",
    }
}

fn components(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let mut real = vec!["/repo/src (whole crate, compiled from the working tree)", "futures (Abortable, AbortHandle)", "bytes", "tokio::sync::Notify", "tokio::io extension traits"];
    let mut stub = vec!["executor, task scheduling (simtokio)", "unix sockets", "timers and clock", "std::sync locks, atomics, threads (simstd)", "file system below /vt6sim", "entropy source and hash keys"];
    match prop {
        "C17" => {
            real.push("/repo/example-server/src/main.rs");
            stub.push("signals");
            stub.push("log sink (belog)");
        }
        "C16" => real.extend(["getrandom crate", "base64"]),
        "C15" => {
            real = vec!["/repo/src/client, /repo/src/msg, /repo/src/common", "std::fs::File"];
            stub = vec!["read(2)/close(2) on descriptor 60"];
        }
        "C19" => {
            real = vec!["/repo/src/server/util.rs", "std::fs"];
            stub = vec!["mkdir(2), statx(2), environment variable contents", "process scheduling"];
        }
        "C18" => {}
        "C24" | "C25" => {
            real.push("the library's client side (names, messages, discovery) in the simulated clients");
            stub.push("read(2)/close(2) on descriptor 60");
        }
        _ => {
            real.push("/repo/example-server/src/main.rs (one of twelve runs)");
            stub.push("signals, log sink (belog) in those runs");
        }
    }
    (real, stub)
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        eprintln!("usage: vt6dst check|replay|show|det ...");
        return 2;
    }
    let rest = &args[1..];
    match args[0].as_str() {
        "check" => cmd_check(rest),
        "worker" => cmd_worker(rest),
        "exec" => cmd_exec(rest),
        "replay" => cmd_replay(rest),
        "show" => cmd_show(rest),
        "det" => cmd_det(rest),
        "props" => {
            println!("{}", kinds::ALL.join(" "));
            0
        }
        x => {
            eprintln!("unknown command {x}");
            2
        }
    }
}
