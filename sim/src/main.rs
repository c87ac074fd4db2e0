//! Deterministic simulation of the Sia core library.
//!
//! siasim check PROP [quick|thorough]   explore, report, write evidence
//! siasim replay FILE                   execute a recorded violation again
//! siasim run PROP SEED IDX [-v]        one run
//! siasim determinism [PROP] [N]        the same runs in different processes
mod alloc;
mod b2;
mod choice;
mod io;
mod kernel;
mod model;
mod registry;
mod rules;
mod scenarios;
mod supervisor;
mod sys;

/// The derive macros name their types through the root of the crate.
pub mod encoding {
    pub use sia::encoding::*;
}

use std::cell::RefCell;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;


pub const EXIT_VIOLATION: i32 = 101;
pub const EXIT_HARNESS: i32 = 102;

static REPORT: Mutex<Option<String>> = Mutex::new(None);
static RUN: AtomicU64 = AtomicU64::new(0);
static REPORTED: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

extern "C" {
    fn _exit(code: i32) -> !;
}

fn leave(code: i32) -> ! {
    unsafe { _exit(code) }
}

/// Reports that the property does not hold, and ends the process.
pub fn violation(class: &str, detail: String) -> ! {
    simhook::set_active(false);
    alloc::unguarded(|| {
        alloc::quiet(|| {
            if REPORTED.swap(true, SeqCst) {
                loop {
                    std::thread::park();
                }
            }
            let mut detail = detail;
            if detail.len() > 6000 {
                let mut n = 6000;
                while !detail.is_char_boundary(n) {
                    n -= 1;
                }
                detail.truncate(n);
                detail.push_str("...");
            }
            let log = kernel::render_log();
            let v = serde_json::json!({
                "class": class,
                "detail": detail,
                "run": RUN.load(Relaxed),
                "choices": kernel::recorded(),
                "log": log,
            });
            let path = REPORT.lock().map(|g| g.clone()).unwrap_or(None);
            match path {
                Some(p) => {
                    let _ = std::fs::write(p, serde_json::to_vec(&v).unwrap_or_default());
                }
                None => {
                    println!("violation: {class}: {detail}");
                    for l in log {
                        println!("  {l}");
                    }
                }
            }
            let _ = std::io::stdout().flush();
            leave(EXIT_VIOLATION)
        })
    })
}

/// The harness itself is wrong.
pub fn harness_error(what: &str) -> ! {
    simhook::set_active(false);
    eprintln!("harness error in run {}: {what}", RUN.load(Relaxed));
    let _ = std::io::stderr().flush();
    leave(EXIT_HARNESS)
}

/// A task ended by a panic nobody expected.
pub fn task_panicked(task: &str, text: &str) -> ! {
    let (at, _) = PANICS
        .lock()
        .ok()
        .and_then(|g| g.last().cloned())
        .unwrap_or_default();
    if at.starts_with("src/") || at.contains("/verif/sim/") {
        harness_error(&format!("task {task} panicked at {at}: {text}"));
    }
    violation("panic", format!("task {task} panicked at {at}: {text}"))
}

static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        alloc::unguarded(|| {
            alloc::quiet(|| {
                let at = i
                    .location()
                    .map(|l| format!("{}:{}", l.file(), l.line()))
                    .unwrap_or_default();
                let msg = kernel::panic_text(i.payload());
                LAST_PANIC.with(|p| *p.borrow_mut() = Some((at.clone(), msg.clone())));
                if let Ok(mut g) = PANICS.lock() {
                    if g.len() > 16 {
                        g.remove(0);
                    }
                    g.push((at, msg));
                }
            })
        })
    }));
}

/// Where the last panic of this thread came from.
pub fn last_panic() -> Option<(String, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Runs code under test; a panic in it is a violation of this class.
pub fn no_panic<R>(class: &str, what: &str, f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) if p.is::<kernel::Cancelled>() => std::panic::resume_unwind(p),
        Err(p) => {
            let (at, _) = last_panic().unwrap_or_default();
            if at.starts_with("src/") {
                harness_error(&format!("{what} panicked at {at}: {}", kernel::panic_text(&*p)));
            }
            violation(class, format!("{what} panicked at {at}: {}", kernel::panic_text(&*p)))
        }
    }
}

fn scenario(prop: &str) -> &'static scenarios::Scenario {
    scenarios::TABLE
        .iter()
        .find(|s| s.id == prop)
        .unwrap_or_else(|| {
            eprintln!("no scenario for {prop}");
            std::process::exit(2)
        })
}

fn execute(s: &'static scenarios::Scenario, ch: choice::Choices, idx: u64) -> kernel::RunResult {
    RUN.store(idx, Relaxed);
    if let Ok(mut g) = PANICS.lock() {
        g.clear();
    }
    kernel::run(ch, s.f)
}

fn batch(args: &[String]) {
    // batch PROP SEED START COUNT REPORT
    let s = scenario(&args[0]);
    let seed: u64 = args[1].parse().unwrap();
    let start: u64 = args[2].parse().unwrap();
    let count: u64 = args[3].parse().unwrap();
    *REPORT.lock().unwrap() = Some(args[4].clone());
    let mut agg = supervisor::Agg::default();
    let out = std::io::stdout();
    for idx in start..start + count {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "S {idx}");
            let _ = o.flush();
        }
        let r = execute(s, choice::Choices::random(choice::run_seed(seed, s.id, idx)), idx);
        agg.add(&r);
    }
    println!("B {}", serde_json::to_string(&agg).unwrap());
}

fn try_one(args: &[String]) {
    // try PROP CHOICES REPORT [v]
    let s = scenario(&args[0]);
    let c: Vec<u64> = serde_json::from_slice(&std::fs::read(&args[1]).unwrap()).unwrap();
    *REPORT.lock().unwrap() = Some(args[2].clone());
    if args.len() > 3 {
        kernel::VERBOSE.store(true, Relaxed);
    }
    execute(s, choice::Choices::replay(c), 0);
}

fn main() {
    simhook::set_allocator(&(&alloc::SimAlloc as _));
    install_panic_hook();
    kernel::install_hooks();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = if args.is_empty() { &[] } else { &args[1..] };
    match args.first().map(|s| s.as_str()) {
        Some("batch") => batch(rest),
        Some("try") => try_one(rest),
        Some("trace") => {
            // trace PROP SEED IDX FILE: every draw goes to the file as it is made
            let s = scenario(&rest[0]);
            let idx: u64 = rest[2].parse().unwrap();
            *REPORT.lock().unwrap() = Some(format!("{}.report", rest[3]));
            let mut ch = choice::Choices::random(choice::run_seed(rest[1].parse().unwrap(), s.id, idx));
            ch.tee = Some(std::fs::File::create(&rest[3]).unwrap());
            execute(s, ch, idx);
        }
        Some("run") => {
            let s = scenario(&rest[0]);
            let seed: u64 = rest[1].parse().unwrap();
            let idx: u64 = rest[2].parse().unwrap();
            if rest.iter().any(|a| a == "-v") {
                kernel::VERBOSE.store(true, Relaxed);
            }
            kernel::KEEP_LOG.store(true, Relaxed);
            let r = execute(s, choice::Choices::random(choice::run_seed(seed, s.id, idx)), idx);
            for l in &r.log {
                println!("{l}");
            }
            println!(
                "run {idx}: hash {:016x}, {} events, {} switches, {} choices, {} ns simulated",
                r.hash, r.events, r.switches, r.choices, r.now
            );
            for (k, v) in &r.stats {
                println!("  {k} {v}");
            }
        }
        Some("hashes") => {
            let s = scenario(&rest[0]);
            let seed: u64 = rest[1].parse().unwrap();
            let mut idx: Vec<u64> = (rest[2].parse().unwrap()..rest[3].parse().unwrap()).collect();
            if rest.len() > 4 {
                idx.reverse();
            }
            let dump: u64 = std::env::var("SIASIM_DUMP").ok().and_then(|d| d.parse().ok()).unwrap_or(u64::MAX);
            for i in idx {
                kernel::VERBOSE.store(i == dump, Relaxed);
                kernel::KEEP_LOG.store(i == dump, Relaxed);
                let r = execute(s, choice::Choices::random(choice::run_seed(seed, s.id, i)), i);
                println!("{i} {:016x} {} {}", r.hash, r.choices, r.now);
                for l in r.log {
                    eprintln!("{l}");
                }
            }
        }
        Some("check") => std::process::exit(supervisor::check(rest)),
        Some("replay") => std::process::exit(supervisor::replay(&rest[0])),
        Some("determinism") => std::process::exit(supervisor::determinism(rest)),
        Some("list") => {
            for s in scenarios::TABLE {
                println!("{}", s.id);
            }
        }
        _ => {
            eprintln!("usage: siasim check|replay|run|determinism|list ...");
            std::process::exit(2);
        }
    }
}
