//! Runs batches in child processes, collects what they covered, and turns a
//! failure into a minimised replay file.
use crate::kernel::RunResult;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Serialize, Deserialize)]
pub struct Agg {
    runs: u64,
    hashes: Vec<u64>,
    events: u64,
    switches: u64,
    sim_ns: u64,
    choices: u64,
    faulty: u64,
    stats: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    samples: Vec<String>,
}

impl Agg {
    pub fn add(&mut self, r: &RunResult) {
        self.runs += 1;
        if r.faulty || r.switches > 0 {
            self.hashes.push(r.hash);
        }
        self.faulty += r.faulty as u64;
        self.events += r.events;
        self.switches += r.switches;
        self.sim_ns += r.now;
        self.choices += r.choices;
        for (k, v) in &r.stats {
            *self.stats.entry(k.to_string()).or_insert(0) += v;
            *self.runs_with.entry(k.to_string()).or_insert(0) += 1;
        }
        if self.samples.is_empty() {
            self.samples.extend(r.samples.iter().cloned());
        }
    }
    fn merge(&mut self, o: Agg, seen: &mut HashSet<u64>) {
        self.runs += o.runs;
        seen.extend(o.hashes);
        self.events += o.events;
        self.switches += o.switches;
        self.sim_ns += o.sim_ns;
        self.choices += o.choices;
        self.faulty += o.faulty;
        for (k, v) in o.stats {
            *self.stats.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.runs_with {
            *self.runs_with.entry(k).or_insert(0) += v;
        }
        if self.samples.len() < 6 {
            self.samples.extend(o.samples);
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Report {
    class: String,
    detail: String,
    run: u64,
    choices: Vec<u64>,
    log: Vec<String>,
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    detail: String,
    seed: u64,
    run: u64,
    /// choices, seed or range
    kind: String,
    choices: Vec<u64>,
    original_choices: usize,
    /// first run of the range
    from: u64,
    trace: Vec<String>,
    /// run in the property's second build
    #[serde(default)]
    other_build: bool,
}

enum End {
    Ok(Box<Agg>),
    Violation(Report),
    Harness(String),
}

/// Each run may take this long.
const HANG_S: u64 = 120;

fn exe() -> PathBuf {
    std::env::current_exe().expect("own path")
}

/// The same simulator in another build (bin/build.sh): every other batch runs
/// in it where there is one.
fn other_exe() -> Option<PathBuf> {
    std::env::var_os("SIASIM_OTHER").map(PathBuf::from).filter(|p| p.exists())
}

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
    fn sched_getaffinity(pid: i32, size: usize, mask: *mut u64) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

fn cpus() -> Vec<usize> {
    let mut m = [0u64; 16];
    unsafe { sched_getaffinity(0, 128, m.as_mut_ptr()) };
    let v: Vec<usize> = (0..1024).filter(|&i| m[i / 64] >> (i % 64) & 1 == 1).collect();
    if v.is_empty() {
        vec![0]
    } else {
        v
    }
}

fn spawn(exe: &Path, args: &[String], cpu: usize) -> Child {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(exe);
    c.args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    unsafe {
        c.pre_exec(move || {
            let mut m = [0u64; 16];
            m[cpu / 64] = 1 << (cpu % 64);
            sched_setaffinity(0, 128, m.as_ptr());
            Ok(())
        });
    }
    c.spawn().expect("spawn")
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    stderr: String,
    last: Option<u64>,
    batch: Option<Agg>,
    hung: bool,
}

fn run_child(exe: &Path, args: &[String], cpu: usize, limit_s: u64) -> Ran {
    let mut c = spawn(exe, args, cpu);
    let pid = c.id() as i32;
    let out = c.stdout.take().unwrap();
    let mut err = c.stderr.take().unwrap();
    let beat = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicBool::new(false));
    let hung = Arc::new(AtomicBool::new(false));
    let t0 = Instant::now();
    let (b2, d2, h2) = (beat.clone(), done.clone(), hung.clone());
    let guard = std::thread::spawn(move || {
        while !d2.load(Acquire) {
            let idle = (t0.elapsed().as_secs()).saturating_sub(b2.load(Relaxed));
            if idle > limit_s {
                h2.store(true, Release);
                unsafe { kill(pid, 9) };
                return;
            }
            std::thread::park_timeout(Duration::from_millis(500));
        }
    });
    let errt = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = (&mut err).take(64 << 10).read_to_end(&mut s);
        // whatever comes after is dropped
        let _ = std::io::copy(&mut err, &mut std::io::sink());
        String::from_utf8_lossy(&s).into_owned()
    });
    let mut last = None;
    let mut batch = None;
    for l in BufReader::new(out).lines() {
        let Ok(l) = l else { break };
        if let Some(i) = l.strip_prefix("S ") {
            last = i.parse().ok();
            beat.store(t0.elapsed().as_secs(), Relaxed);
        } else if let Some(j) = l.strip_prefix("B ") {
            batch = serde_json::from_str(j).ok();
        }
    }
    let st = c.wait().expect("wait");
    done.store(true, Release);
    guard.thread().unpark();
    let _ = guard.join();
    use std::os::unix::process::ExitStatusExt;
    Ran {
        code: st.code(),
        signal: st.signal(),
        stderr: errt.join().unwrap_or_default(),
        last,
        batch,
        hung: hung.load(Acquire),
    }
}

/// What a process that did not end by itself died of.
fn crash_class(r: &Ran) -> Option<(String, String)> {
    if r.hung {
        return Some(("hang".into(), "the run did not end".into()));
    }
    let line = r
        .stderr
        .lines()
        .find(|l| l.contains("overflowed its stack") || l.contains("memory allocation of"))
        .or(r.stderr.lines().last())
        .unwrap_or("")
        .to_string();
    if r.stderr.contains("overflowed its stack") {
        return Some(("crash-stack".into(), line));
    }
    if r.stderr.contains("memory allocation of") {
        return Some(("crash-memory".into(), line));
    }
    r.signal.map(|s| (format!("crash-signal-{s}"), line))
}

struct Ctx {
    prop: String,
    seed: u64,
    tmp: PathBuf,
    cpus: Vec<usize>,
    /// what single runs are executed with
    exe: PathBuf,
}

fn judge(ctx: &Ctx, r: Ran, report: &Path) -> End {
    if let Some(101) = r.code {
        return match std::fs::read(report).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(rep) => End::Violation(rep),
            None => End::Harness("a violation without a report".into()),
        };
    }
    if let Some(102) = r.code {
        return End::Harness(r.stderr);
    }
    if let Some((class, detail)) = crash_class(&r) {
        return End::Violation(Report {
            class,
            detail,
            run: r.last.unwrap_or(0),
            choices: Vec::new(),
            log: Vec::new(),
        });
    }
    let _ = ctx;
    match (r.code, r.batch) {
        (Some(0), Some(b)) => End::Ok(Box::new(b)),
        (Some(0), None) => End::Ok(Box::default()),
        (c, _) => End::Harness(format!("exit {c:?}: {}", r.stderr)),
    }
}

/// Executes a list of choices alone.
fn attempt(ctx: &Ctx, choices: &[u64], slot: usize, verbose: bool, limit: u64) -> End {
    let cf = ctx.tmp.join(format!("c{slot}"));
    let rf = ctx.tmp.join(format!("r{slot}"));
    let _ = std::fs::remove_file(&rf);
    std::fs::write(&cf, serde_json::to_vec(choices).unwrap()).expect("write");
    let mut a = vec![
        "try".to_string(),
        ctx.prop.clone(),
        cf.display().to_string(),
        rf.display().to_string(),
    ];
    if verbose {
        a.push("v".into());
    }
    let r = run_child(&ctx.exe, &a, ctx.cpus[slot % ctx.cpus.len()], limit);
    judge(ctx, r, &rf)
}

/// Tries candidates at once; the first of them that still fails the same way.
fn first_of(ctx: &Ctx, class: &str, cands: &[Vec<u64>], limit: u64) -> Option<(usize, Report)> {
    let res: Vec<Mutex<Option<Report>>> = cands.iter().map(|_| Mutex::new(None)).collect();
    let next = AtomicUsize::new(0);
    let best = AtomicUsize::new(usize::MAX);
    std::thread::scope(|s| {
        for slot in 0..ctx.cpus.len().min(cands.len()) {
            let (res, next, best) = (&res, &next, &best);
            s.spawn(move || loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= cands.len() || best.load(Relaxed) < i {
                    return;
                }
                if let End::Violation(r) = attempt(ctx, &cands[i], slot, false, limit) {
                    if r.class == class {
                        *res[i].lock().unwrap() = Some(r);
                        best.fetch_min(i, Relaxed);
                    }
                }
            });
        }
    });
    let b = best.load(Relaxed);
    if b == usize::MAX {
        return None;
    }
    let r = res[b].lock().unwrap().take()?;
    Some((b, r))
}

fn trim(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

fn minimise(ctx: &Ctx, rep: Report, budget: Duration) -> Report {
    let t0 = Instant::now();
    let class = rep.class.clone();
    let limit = if class == "hang" { 10 } else { HANG_S };
    let mut best = rep;
    let orig = best.choices.clone();
    let mut cur = trim(orig);
    let mut take = |cands: Vec<Vec<u64>>, cur: &mut Vec<u64>| -> bool {
        let cands: Vec<Vec<u64>> = cands.into_iter().map(trim).filter(|c| c != cur).collect();
        match first_of(ctx, &class, &cands, limit) {
            Some((i, r)) => {
                *cur = cands[i].clone();
                best = r;
                true
            }
            None => false,
        }
    };
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // cut the tail
        loop {
            let n = cur.len();
            let c: Vec<Vec<u64>> = [n / 8, n / 4, n / 2, n * 3 / 4, n * 7 / 8, n.saturating_sub(3)]
                .iter()
                .filter(|&&k| k < n)
                .map(|&k| cur[..k].to_vec())
                .collect();
            if c.is_empty() || !take(c, &mut cur) || t0.elapsed() > budget {
                break;
            }
            progress = true;
        }
        // remove or zero pieces
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut at = 0;
            while at < cur.len() && t0.elapsed() < budget {
                let group = ctx.cpus.len();
                let mut c = Vec::new();
                for k in 0..group {
                    let s = at + k * size;
                    if s >= cur.len() {
                        break;
                    }
                    let e = (s + size).min(cur.len());
                    let mut x = cur.clone();
                    x.drain(s..e);
                    c.push(x);
                    if cur[s..e].iter().any(|v| *v != 0) {
                        let mut y = cur.clone();
                        y[s..e].fill(0);
                        c.push(y);
                    }
                }
                if take(c, &mut cur) {
                    progress = true;
                } else {
                    at += group * size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // smaller values
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < budget {
            let v = cur[i];
            if v == 0 {
                i += 1;
                continue;
            }
            let mut c = Vec::new();
            for w in [1, v / 16, v / 2, v.saturating_sub(v / 8), v - 1] {
                if w < v && w > 0 {
                    let mut x = cur.clone();
                    x[i] = w;
                    c.push(x);
                }
            }
            c.dedup();
            if c.is_empty() || !take(c, &mut cur) {
                i += 1;
            } else {
                progress = true;
            }
        }
    }
    let n = cur.len();
    // what the run really draws
    match attempt(ctx, &cur, 0, true, HANG_S) {
        End::Violation(mut r) if r.class == class => {
            r.choices = cur;
            r
        }
        _ => {
            best.choices = cur;
            best.choices.truncate(n);
            best
        }
    }
}

/// Finds the choices of a run that killed its process.
fn trace(ctx: &Ctx, run: u64) -> Option<Vec<u64>> {
    let f = ctx.tmp.join("trace");
    let a: Vec<String> = vec![
        "trace".into(),
        ctx.prop.clone(),
        ctx.seed.to_string(),
        run.to_string(),
        f.display().to_string(),
    ];
    run_child(&ctx.exe, &a, ctx.cpus[0], HANG_S);
    let b = std::fs::read(f).ok()?;
    Some(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}

struct Known {
    property: String,
    class: String,
    contains: String,
    what: String,
}

fn root() -> PathBuf {
    // .../sim/target/release/siasim
    std::env::var("SIASIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| {
        exe().ancestors().nth(4).map(|p| p.to_path_buf()).unwrap_or_else(|| PathBuf::from("."))
    })
}

/// Lines `known: property=<id> class=<class> contains=<text> | <what fails>`.
fn known(prop: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in s.lines() {
        let Some(r) = l.strip_prefix("known: property=") else { continue };
        let Some((head, what)) = r.split_once(" | ") else { continue };
        let Some((p, r)) = head.split_once(" class=") else { continue };
        let Some((c, t)) = r.split_once(" contains=") else { continue };
        if p == prop {
            v.push(Known {
                property: p.into(),
                class: c.into(),
                contains: t.into(),
                what: what.into(),
            });
        }
    }
    v
}

fn save(ctx: &Ctx, rep: &Report, kind: &str, from: u64, run: u64, original: usize) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in rep.class.bytes().chain(rep.detail.bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    let p = dir.join(format!("{}-{}-{:08x}.json", ctx.prop, rep.class, h as u32));
    let n = rep.log.len();
    let r = Replay {
        property: ctx.prop.clone(),
        class: rep.class.clone(),
        detail: rep.detail.clone(),
        seed: ctx.seed,
        run,
        kind: kind.into(),
        choices: rep.choices.clone(),
        original_choices: original,
        from,
        trace: rep.log[n.saturating_sub(400)..].to_vec(),
        other_build: ctx.exe != exe(),
    };
    std::fs::write(&p, serde_json::to_vec_pretty(&r).unwrap()).expect("replay file");
    p
}

fn tmpdir() -> PathBuf {
    let p = std::env::temp_dir().join(format!("siasim-{}", std::process::id()));
    std::fs::create_dir_all(&p).expect("scratch directory");
    p
}

pub fn check(args: &[String]) -> i32 {
    let prop = args[0].clone();
    let tier = args
        .get(1)
        .cloned()
        .or(std::env::var("VERIF_TIER").ok())
        .unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let sc = crate::scenario(&prop);
    let ctx = Ctx { prop: prop.clone(), seed, tmp: tmpdir(), cpus: cpus(), exe: exe() };
    let mut ctx = ctx;
    let other = other_exe();
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let secs = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let (batches, deadline) = if thorough {
        (u64::MAX, Duration::from_secs(secs("SIASIM_SECONDS", 600)))
    } else {
        (sc.quick, Duration::from_secs(secs("SIASIM_SECONDS", 240)))
    };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new((Agg::default(), HashSet::new()));
    let bad: Mutex<Vec<(u64, End)>> = Mutex::new(Vec::new());
    let done = AtomicU64::new(0);
    std::thread::scope(|s| {
        for (slot, &cpu) in ctx.cpus.iter().enumerate() {
            let (ctx, next, stop, agg, bad, done) = (&ctx, &next, &stop, &agg, &bad, &done);
            let other = &other;
            s.spawn(move || loop {
                if stop.load(Relaxed) || t0.elapsed() > deadline {
                    return;
                }
                let b = next.fetch_add(1, Relaxed);
                if b >= batches {
                    return;
                }
                let rf = ctx.tmp.join(format!("b{slot}"));
                let _ = std::fs::remove_file(&rf);
                let a: Vec<String> = vec![
                    "batch".into(),
                    ctx.prop.clone(),
                    ctx.seed.to_string(),
                    (b * sc.batch).to_string(),
                    sc.batch.to_string(),
                    rf.display().to_string(),
                ];
                let r = run_child(if b % 2 == 1 { other.as_ref().unwrap_or(&ctx.exe) } else { &ctx.exe }, &a, cpu, HANG_S);
                match judge(ctx, r, &rf) {
                    End::Ok(a) => {
                        let mut g = agg.lock().unwrap();
                        let (x, seen) = &mut *g;
                        x.merge(*a, seen);
                        done.fetch_add(1, Relaxed);
                    }
                    e => {
                        bad.lock().unwrap().push((b, e));
                        stop.store(true, Relaxed);
                    }
                }
            });
        }
    });
    let explore_s = t0.elapsed().as_secs_f64();
    let mut bad = bad.into_inner().unwrap();
    bad.sort_by_key(|(b, _)| *b);
    let mut code = 0;
    let mut violations = 0;
    let known = known(&prop);
    let mut reported: HashSet<String> = HashSet::new();
    for (b, e) in bad {
        match e {
            End::Harness(s) => {
                eprintln!("{prop}: the harness failed: {s}");
                if code == 0 {
                    code = 2;
                }
            }
            End::Violation(rep) => {
                // one report for each kind of failure
                if reported.len() >= 2 || !reported.insert(rep.class.clone()) {
                    continue;
                }
                let from = b * sc.batch;
                let run = rep.run;
                ctx.exe = if b % 2 == 1 { other.clone().unwrap_or(exe()) } else { exe() };
                eprintln!("{prop}: {}: {} (run {run})", rep.class, rep.detail);
                let mut rep = rep;
                if rep.choices.is_empty() && rep.log.is_empty() {
                    if let Some(c) = trace(&ctx, run) {
                        rep.choices = c;
                    }
                }
                let original = rep.choices.len();
                let again = attempt(&ctx, &rep.choices, 0, false, HANG_S);
                let path = match again {
                    End::Violation(r2) if r2.class == rep.class => {
                        let full = rep.choices.clone();
                        let budget = if rep.class == "hang" { 60 } else { 45 };
                        let mut start = r2;
                        start.choices = full;
                        rep = minimise(&ctx, start, Duration::from_secs(budget));
                        save(&ctx, &rep, "choices", run, run, original)
                    }
                    _ => {
                        // it needs what earlier runs left behind in the process
                        rep.detail.push_str(" [only after the runs before it in the same process]");
                        save(&ctx, &rep, "range", from, run, original)
                    }
                };
                if let Some(k) = known
                    .iter()
                    .find(|k| k.class == rep.class && rep.detail.contains(&k.contains))
                {
                    println!("KNOWN-FINDING: property={} {}", k.property, k.what);
                    continue;
                }
                violations += 1;
                code = 1;
                println!("{}: {}", rep.class, rep.detail);
                println!("VIOLATION property={prop} replay={}", path.display());
            }
            End::Ok(_) => {}
        }
    }
    let (a, seen) = agg.into_inner().unwrap();
    if code == 0 && a.runs == 0 {
        eprintln!("{prop}: nothing was explored");
        code = 2;
    }
    for p in sc.must_reach {
        if code == 0 && !a.stats.contains_key(*p) && batches != u64::MAX && done.load(Relaxed) == batches {
            eprintln!("{prop}: warning: {p} was never reached");
        }
    }
    write_evidence(&ctx, sc, &tier, &a, seen.len(), violations, explore_s, t0.elapsed().as_secs_f64());
    let _ = std::fs::remove_dir_all(&ctx.tmp);
    eprintln!(
        "{prop}: {} runs, {} distinct, {} switches, {:.1} s",
        a.runs,
        seen.len(),
        a.switches,
        t0.elapsed().as_secs_f64()
    );
    code
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    ctx: &Ctx,
    sc: &crate::scenarios::Scenario,
    tier: &str,
    a: &Agg,
    distinct: usize,
    violations: u64,
    explore_s: f64,
    wall: f64,
) {
    let mut faults = BTreeMap::new();
    let mut probes = BTreeMap::new();
    for (k, v) in &a.stats {
        let with = a.runs_with.get(k).copied().unwrap_or(0);
        let e = serde_json::json!({"times": v, "runs": with});
        if k.starts_with("probe.") || k.starts_with("check.") {
            probes.insert(k.clone(), e);
        } else {
            faults.insert(k.clone(), e);
        }
    }
    let missed: Vec<&&str> = sc.must_reach.iter().filter(|p| !a.stats.contains_key(**p)).collect();
    let per_h = |n: u64| (n as f64 / explore_s.max(0.001) * 3600.0) as u64;
    let mut samples: Vec<serde_json::Value> = a.samples.iter().map(|s| s.clone().into()).collect();
    if samples.is_empty() {
        samples.push(serde_json::json!(format!("run 0 of seed {}", ctx.seed)));
    }
    let v = serde_json::json!({
        "property": ctx.prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": distinct,
            "rule": format!("One evaluation is one simulated run, decided by one seed derived from (VERIF_SEED, property, run number). {} A run is non-trivial if a fault, fragmentation or a task switch happened in it; runs are distinct if the hashes of their traces (every scheduling step, fault, value digest and time) differ.", sc.rule),
            "samples": samples,
            "seeds_per_hour": per_h(a.runs),
            "runs_per_hour": per_h(a.runs),
            "simulated_seconds": a.sim_ns as f64 / 1e9,
            "events": a.events,
            "task_switches": a.switches,
            "choices": a.choices,
            "runs_with_a_fault": a.faulty,
            "faults_injected": faults,
            "conditions_reached": probes,
            "conditions_not_reached": missed,
            "real_components": sc.real,
            "stubbed_components": sc.stub,
            "workers": ctx.cpus.len(),
        },
        "assumptions": [
            "The simulator's reference model (sim/src/model.rs, scenarios) states the Sia protocol correctly.",
            "Seeded search samples the space of executions; a clean result is evidence, not proof.",
        ],
        "wall_s": wall,
        "violations": violations,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", ctx.prop)),
        serde_json::to_vec_pretty(&v).unwrap(),
    )
    .expect("evidence");
}

pub fn replay(file: &str) -> i32 {
    let r: Replay = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay file");
    let ctx = Ctx { prop: r.property.clone(), seed: r.seed, tmp: tmpdir(), cpus: cpus(), exe: exe() };
    let ctx = if r.other_build { Ctx { exe: other_exe().unwrap_or(exe()), ..ctx } } else { ctx };
    let sc = crate::scenario(&r.property);
    let e = match r.kind.as_str() {
        "choices" => attempt(&ctx, &r.choices, 0, true, HANG_S),
        _ => {
            let rf = ctx.tmp.join("b");
            let a: Vec<String> = vec![
                "batch".into(),
                ctx.prop.clone(),
                r.seed.to_string(),
                r.from.to_string(),
                sc.batch.to_string(),
                rf.display().to_string(),
            ];
            judge(&ctx, run_child(&ctx.exe, &a, ctx.cpus[0], HANG_S), &rf)
        }
    };
    let _ = std::fs::remove_dir_all(&ctx.tmp);
    match e {
        End::Violation(x) => {
            for l in &x.log {
                println!("  {l}");
            }
            println!("{}: {}", x.class, x.detail);
            let same = x.class == r.class && (r.detail == x.detail || r.detail.starts_with(&x.detail));
            println!(
                "{}",
                if same {
                    "reproduced exactly"
                } else {
                    "a violation, but not the recorded one"
                }
            );
            println!("VIOLATION property={} replay={file}", r.property);
            1
        }
        End::Ok(_) => {
            println!("not reproduced: the property held in this execution");
            0
        }
        End::Harness(s) => {
            eprintln!("{s}");
            2
        }
    }
}

/// The same seeds in separate processes, in another order, on other CPUs.
pub fn determinism(args: &[String]) -> i32 {
    let n: u64 = args.get(1).and_then(|s| s.parse().ok()).unwrap_or(40);
    let mut code = 0;
    for s in crate::scenarios::TABLE {
        if args.first().is_some_and(|p| p != "all" && p != s.id) {
            continue;
        }
        let cpus = cpus();
        let get = |rev: bool, slot: usize| -> Vec<String> {
            let mut a: Vec<String> = vec!["hashes".into(), s.id.into(), "1".into(), "0".into(), n.to_string()];
            if rev {
                a.push("r".into());
            }
            let c = spawn(&exe(), &a, cpus[slot % cpus.len()]);
            let o = c.wait_with_output().expect("child");
            let mut v: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|l| l.to_string()).collect();
            if !o.status.success() {
                v.push(format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr)));
            }
            v.sort();
            v
        };
        let (a, b, c) = std::thread::scope(|t| {
            let x = t.spawn(|| get(false, 0));
            let y = t.spawn(|| get(false, 3));
            let z = t.spawn(|| get(true, 5));
            (x.join().unwrap(), y.join().unwrap(), z.join().unwrap())
        });
        if a == b && b == c && a.len() as u64 == n {
            println!("{}: {n} runs, 3 processes, identical traces", s.id);
        } else {
            code = 2;
            let d = (0..a.len().max(b.len()).max(c.len()))
                .find(|&i| a.get(i) != b.get(i) || b.get(i) != c.get(i))
                .unwrap_or(0);
            println!(
                "{}: traces differ: {:?} / {:?} / {:?}",
                s.id,
                a.get(d),
                b.get(d),
                c.get(d)
            );
        }
    }
    code
}
