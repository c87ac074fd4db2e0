//! The simulator: tasks are threads of which exactly one holds the baton. A
//! task gives the baton up only at the points the simulator owns (stream
//! calls, sleeps, waits, hashing steps, rayon's scheduling steps), and the
//! recorded choice sequence decides who gets it next. Time is virtual.
use crate::choice::Choices;
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::cmp::Reverse;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub type Tid = usize;
const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Idle, // polls again once others had a chance
    Blocked,
    External, // stuck in something the simulator does not own
    Done,
}

struct Baton {
    go: Mutex<bool>,
    cv: Condvar,
}

struct Task {
    name: String,
    st: St,
    baton: Arc<Baton>,
    cancel: bool,
    os_tid: i32,
    wakes: u64,
}

pub struct Ev {
    pub t: u64,
    pub task: usize,
    pub what: &'static str,
    pub a: u64,
    pub b: u64,
    pub text: Option<String>,
}

pub struct Inner {
    pub ch: Choices,
    now: u64,
    tasks: Vec<Task>,
    timers: BinaryHeap<Reverse<(u64, u64, Tid, u64)>>,
    seq: u64,
    current: Tid,
    idle_spins: u64,
    pub log: Vec<Ev>,
    pub events: u64,
    pub hash: u64,
    pub switches: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub probes: BTreeSet<&'static str>,
    pub faulty: bool,
    pub samples: Vec<String>,
    gap_mode: u64,
    mem_mode: u64,
    running: bool,
}

static INNER: Mutex<Option<Inner>> = Mutex::new(None);
pub static VERBOSE: AtomicBool = AtomicBool::new(false);
pub static KEEP_LOG: AtomicBool = AtomicBool::new(false);
static CURRENT: AtomicUsize = AtomicUsize::new(NONE);
static PROGRESS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static NOCANCEL: Cell<u32> = const { Cell::new(0) };
}

/// Payload of the unwinding of a cancelled task.
pub struct Cancelled;

fn inner() -> MutexGuard<'static, Option<Inner>> {
    match INNER.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn with<R>(f: impl FnOnce(&mut Inner) -> R) -> R {
    crate::alloc::quiet(|| {
        let mut g = inner();
        f(g.as_mut().expect("no simulation"))
    })
}

extern "C" {
    fn gettid() -> i32;
}

fn hook_yield(what: &'static str) {
    yield_point(what);
}
fn hook_idle(what: &'static str) {
    idle_point(what);
}
fn hook_mem() {
    if !simhook::active() || crate::alloc::is_quiet() || std::thread::panicking() {
        simhook::set_mem(if simhook::active() { SPIN } else { u64::MAX });
    } else if crate::alloc::is_fine() && with(|k| k.mem_mode != 0) {
        yield_point("mem");
        set_mem_gap();
    } else {
        // it may spin until another task has done something
        idle_point("spin");
        simhook::set_mem(SPIN);
    }
}
/// After so many steps without a point another task may run.
const SPIN: u64 = 300_000_000;

/// How many memory accesses of the code under test lie between two points at
/// which a task may be preempted. 0: never.
pub fn set_mem_granularity(mode: u64) {
    with(|k| k.mem_mode = mode);
}
/// Draws when the next access is that is such a point.
pub fn set_mem_gap() {
    let g = crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| {
            with(|k| match k.mem_mode {
                0 => SPIN,
                m => match k.ch.draw(8) {
                    0 => m * 16,
                    1 => m * 4 + 1,
                    2 => m,
                    3 => m / 2,
                    4 => m / 4,
                    5 => k.ch.draw(m + 1),
                    6 => 1,
                    _ => 0,
                },
            })
        })
    });
    simhook::set_mem(g);
}
fn hook_choose(_what: &'static str, n: u64) -> u64 {
    choose(n)
}

pub fn install_hooks() {
    simhook::install(simhook::Hooks {
        yield_point: hook_yield,
        yield_idle: hook_idle,
        mem_point: hook_mem,
        choose: hook_choose,
    });
    // a task may get stuck in a lock the simulator does not own
    std::thread::Builder::new()
        .name("watchdog".into())
        .spawn(watchdog)
        .expect("watchdog");
}

// ---------------------------------------------------------------- choices

/// A choice in 0..n. 0 is the plainest one.
pub fn choose(n: u64) -> u64 {
    if n == 1 {
        return 0;
    }
    crate::alloc::quiet(|| crate::alloc::unguarded(|| with(|k| k.ch.draw(n))))
}
pub fn raw() -> u64 {
    crate::alloc::quiet(|| crate::alloc::unguarded(|| with(|k| k.ch.draw(0))))
}
/// True with probability num/den; false is the plain case.
pub fn chance(num: u64, den: u64) -> bool {
    choose(den) >= den - num
}

pub fn log(what: &'static str, a: u64, b: u64) {
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| with(|k| push_log(k, what, a, b, None)))
    })
}

/// A log entry with a text that is only made in verbose runs.
pub fn note(what: &'static str, f: impl FnOnce() -> String) {
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| {
            let t = if VERBOSE.load(Relaxed) { Some(f()) } else { None };
            with(|k| push_log(k, what, 0, 0, t))
        })
    })
}

fn push_log(k: &mut Inner, what: &'static str, a: u64, b: u64, text: Option<String>) {
    let me = ME.with(|m| m.get());
    let mut h = k.hash;
    for x in what.bytes() {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    for v in [me as u64, a, b, k.now] {
        h = (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    k.hash = h;
    k.events += 1;
    if VERBOSE.load(Relaxed) && k.log.len() < 20_000 {
        let t = k.now;
        k.log.push(Ev { t, task: me, what, a, b, text });
    }
}

/// Counts a fault that actually happened.
pub fn fault(kind: &'static str) {
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| {
            with(|k| {
                *k.stats.entry(kind).or_insert(0) += 1;
                k.faulty = true;
                push_log(k, kind, 0, 0, None);
            })
        })
    })
}
pub fn count(kind: &'static str, n: u64) {
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| with(|k| *k.stats.entry(kind).or_insert(0) += n))
    })
}
/// Marks a condition worth reaching.
pub fn probe(kind: &'static str) {
    count(kind, 1)
}
/// Writes down what a run of this kind does, for the evidence.
pub fn sample(f: impl FnOnce() -> String) {
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| {
            let open = with(|k| k.samples.is_empty());
            if open {
                let mut s = f();
                if s.len() > 400 {
                    let mut n = 400;
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                }
                with(|k| k.samples.push(s));
            }
        })
    })
}
pub fn now() -> u64 {
    with(|k| k.now)
}

// -------------------------------------------------------------- scheduling

fn give(b: &Baton) {
    let mut g = b.go.lock().unwrap();
    *g = true;
    b.cv.notify_one();
}

fn take(b: &Baton) {
    let mut g = b.go.lock().unwrap();
    while !*g {
        g = b.cv.wait(g).unwrap();
    }
    *g = false;
}

fn pick(k: &mut Inner, me: Tid) -> Option<Tid> {
    loop {
        // timers that are due
        while let Some(Reverse((t, _, tid, wake))) = k.timers.peek().copied() {
            if t > k.now {
                break;
            }
            k.timers.pop();
            if k.tasks[tid].st == St::Blocked && k.tasks[tid].wakes == wake {
                k.tasks[tid].st = St::Ready;
            }
        }
        let ready: Vec<Tid> = (0..k.tasks.len())
            .filter(|&i| k.tasks[i].st == St::Ready)
            .collect();
        if !ready.is_empty() {
            let idle: Vec<Tid> = (0..k.tasks.len())
                .filter(|&i| k.tasks[i].st == St::Idle)
                .collect();
            // now and then let an idle one poll although others could run
            let cur = ready.iter().position(|&i| i == me);
            if !idle.is_empty() && k.ch.draw(4) == 3 {
                let i = k.ch.draw(idle.len() as u64) as usize;
                return Some(idle[i]);
            }
            k.idle_spins = 0;
            let n = ready.len() as u64;
            if n == 1 {
                return Some(ready[0]);
            }
            let c = k.ch.draw(n) as usize;
            // 0 is: go on with the current one
            let base = cur.unwrap_or(0);
            return Some(ready[(base + c) % ready.len()]);
        }
        let idle: Vec<Tid> = (0..k.tasks.len())
            .filter(|&i| k.tasks[i].st == St::Idle)
            .collect();
        if !idle.is_empty() {
            k.idle_spins += 1;
            let base = idle.iter().position(|&i| i > me).unwrap_or(0);
            // rotate, so that every idle one polls; the offset is a choice
            let c = if idle.len() > 1 && k.idle_spins % 8 == 1 {
                k.ch.draw(idle.len() as u64) as usize
            } else {
                0
            };
            // nobody is ready: time may pass
            if k.idle_spins % 64 == 0 {
                if let Some(Reverse((t, ..))) = k.timers.peek().copied() {
                    k.now = k.now.max(t);
                }
            }
            return Some(idle[(base + c) % idle.len()]);
        }
        match k.timers.peek().copied() {
            Some(Reverse((t, ..))) => k.now = k.now.max(t),
            None => return None,
        }
    }
}

const IDLE_LIMIT: u64 = 400_000;

/// Gives the baton to the next task, as `me` now is in state `st`.
fn switch(me: Tid, st: St) {
    let (next, mine) = {
        let mut g = inner();
        let k = g.as_mut().expect("no simulation");
        k.tasks[me].st = st;
        PROGRESS.fetch_add(1, Relaxed);
        let next = match pick(k, me) {
            Some(n) => n,
            None => {
                if k.tasks.iter().all(|t| t.st == St::Done) {
                    k.current = NONE;
                    CURRENT.store(NONE, Release);
                    return;
                }
                if k.tasks.iter().any(|t| t.st == St::External) {
                    // somebody outside still computes: leave the baton down
                    k.current = NONE;
                    CURRENT.store(NONE, Release);
                    let mine = k.tasks[me].baton.clone();
                    drop(g);
                    if st != St::Done {
                        take(&mine);
                        after_switch(me);
                    }
                    return;
                }
                drop(g);
                crate::violation("deadlock", "all tasks wait for each other".to_string());
            }
        };
        if k.idle_spins > IDLE_LIMIT {
            drop(g);
            crate::violation("deadlock", "the tasks poll without progress".to_string());
        }
        k.current = next;
        CURRENT.store(next, Release);
        if next == me && st != St::Done {
            k.tasks[me].st = St::Ready;
            return;
        }
        k.switches += 1;
        let what = "run";
        push_log(k, what, next as u64, 0, None);
        if k.tasks[next].st == St::Idle {
            k.tasks[next].st = St::Ready;
        }
        (k.tasks[next].baton.clone(), k.tasks[me].baton.clone())
    };
    give(&next);
    if st != St::Done {
        take(&mine);
        after_switch(me);
    }
}

fn after_switch(me: Tid) {
    let mut g = inner();
    let k = g.as_mut().expect("no simulation");
    k.current = me;
    CURRENT.store(me, Release);
    k.tasks[me].st = St::Ready;
}

/// A task the watchdog had taken for stuck has come back: it waits for its turn.
fn come_back(me: Tid) {
    loop {
        let mine = {
            let mut g = inner();
            let Some(k) = g.as_mut() else { return };
            if k.current == me {
                return;
            }
            k.tasks[me].st = St::Ready;
            if k.current == NONE {
                k.current = me;
                CURRENT.store(me, Release);
                return;
            }
            k.tasks[me].baton.clone()
        };
        take(&mine);
        after_switch(me);
    }
}

fn me() -> Tid {
    ME.with(|m| m.get())
}

fn check_cancel(me: Tid) {
    if NOCANCEL.with(|n| n.get()) > 0 || std::thread::panicking() {
        return;
    }
    let c = with(|k| std::mem::take(&mut k.tasks[me].cancel));
    if c {
        fault("fault.cancel");
        std::panic::resume_unwind(Box::new(Cancelled));
    }
}

pub fn in_task() -> bool {
    me() != NONE
}

/// Other tasks may run here.
pub fn yield_point(what: &'static str) {
    let m = me();
    if m == NONE {
        return;
    }
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| {
            come_back(m);
            with(|k| push_log(k, what, 0, 0, None));
            switch(m, St::Ready);
            set_gap();
        })
    });
}

/// A stream call: other tasks may run, and a cancellation takes effect here.
pub fn io_point(what: &'static str) {
    let m = me();
    if m == NONE {
        return;
    }
    yield_point(what);
    check_cancel(m);
}

fn idle_point(_what: &'static str) {
    let m = me();
    if m == NONE {
        return;
    }
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| {
            come_back(m);
            switch(m, St::Idle);
        })
    });
}

/// How far apart the fine-grained points are at which a task may be preempted.
/// 0: never.
pub fn set_granularity(mode: u64) {
    with(|k| k.gap_mode = mode);
    set_gap();
}

fn set_gap() {
    let g = with(|k| match k.gap_mode {
        0 => u64::MAX,
        m => {
            let c = k.ch.draw(8);
            match c {
                0 => m * 16,
                1 => m * 4 + 1,
                2 => m,
                3 => m / 2,
                4 => m / 4,
                5 => k.ch.draw(m + 1),
                6 => 1,
                _ => 0,
            }
        }
    });
    simhook::set_countdown(g);
}

/// A clock of the code under test is read: it runs with simulated time, may
/// have been off all along, and the one for dates may jump.
pub fn read_clock(dates: bool) -> u64 {
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| {
            with(|k| {
                *k.stats.entry("sched.clock_read").or_insert(0) += 1;
                let step = match k.ch.draw(8) {
                    0..=3 => 1,
                    4 => 1_000_000,
                    5 => 2_000_000_000,
                    6 => 90_000_000_000,
                    _ => 100_000_000_000_000,
                };
                k.now += step;
                if dates && k.ch.draw(16) == 15 {
                    // backwards, only for this reading
                    *k.stats.entry("fault.clock_jump").or_insert(0) += 1;
                    return k.now / 2;
                }
                k.now
            })
        })
    })
}

pub fn sleep(ns: u64) {
    crate::alloc::quiet(|| crate::alloc::unguarded(|| sleep_quietly(ns)));
    check_cancel(me());
}

fn sleep_quietly(ns: u64) {
    let m = me();
    assert!(m != NONE);
    with(|k| {
        k.seq += 1;
        let (t, s) = (k.now + ns, k.seq);
        k.tasks[m].wakes += 1;
        let w = k.tasks[m].wakes;
        k.timers.push(Reverse((t, s, m, w)));
        push_log(k, "sleep", ns, 0, None);
    });
    switch(m, St::Blocked);
    set_gap();
}

/// Blocks until woken (or, with a limit, until that time has passed).
pub fn block(limit: Option<u64>) {
    let m = me();
    assert!(m != NONE);
    crate::alloc::quiet(|| {
        crate::alloc::unguarded(|| {
            with(|k| {
                k.tasks[m].wakes += 1;
                if let Some(ns) = limit {
                    k.seq += 1;
                    let (t, s) = (k.now + ns, k.seq);
                    let w = k.tasks[m].wakes;
                    k.timers.push(Reverse((t, s, m, w)));
                }
                push_log(k, "block", 0, 0, None);
            });
            switch(m, St::Blocked);
            set_gap();
        })
    });
    check_cancel(m);
}

pub fn wake(t: Tid) {
    with(|k| {
        if t < k.tasks.len() && k.tasks[t].st == St::Blocked {
            k.tasks[t].st = St::Ready;
        }
    });
}

pub fn current() -> Tid {
    me()
}

pub fn cancel(t: Tid) {
    with(|k| {
        if k.tasks[t].st != St::Done {
            k.tasks[t].cancel = true;
            if k.tasks[t].st == St::Blocked {
                k.tasks[t].st = St::Ready;
            }
        }
    });
}

/// No cancellation takes effect while f runs (harness bookkeeping).
pub fn no_cancel<R>(f: impl FnOnce() -> R) -> R {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            NOCANCEL.with(|n| n.set(n.get() - 1));
        }
    }
    NOCANCEL.with(|n| n.set(n.get() + 1));
    let _b = Back;
    f()
}

pub struct Handle<T> {
    tid: Tid,
    out: Arc<Mutex<Option<Result<T, Box<dyn Any + Send>>>>>,
    waiter: Arc<AtomicUsize>,
}

pub enum Outcome<T> {
    Ok(T),
    Cancelled,
    Panicked(String),
}

pub fn panic_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if p.is::<Cancelled>() {
        "cancelled".into()
    } else {
        "panic with an unknown payload".into()
    }
}

impl<T> Handle<T> {
    pub fn tid(&self) -> Tid {
        self.tid
    }
    pub fn join(self) -> Outcome<T> {
        loop {
            if let Some(r) = self.out.lock().unwrap().take() {
                return match r {
                    Ok(v) => Outcome::Ok(v),
                    Err(p) if p.is::<Cancelled>() => Outcome::Cancelled,
                    Err(p) => Outcome::Panicked(panic_text(&*p)),
                };
            }
            self.waiter.store(me(), Relaxed);
            block(None);
        }
    }
    pub fn done(&self) -> bool {
        self.out.lock().unwrap().is_some()
    }
}

pub const STACK: usize = 8 << 20;

pub fn spawn_opt<T: Send + 'static>(
    name: String,
    stack: usize,
    f: impl FnOnce() -> T + Send + 'static,
) -> Handle<T> {
    let baton = Arc::new(Baton {
        go: Mutex::new(false),
        cv: Condvar::new(),
    });
    let tid = with(|k| {
        k.tasks.push(Task {
            name: name.clone(),
            st: St::Ready,
            baton: baton.clone(),
            cancel: false,
            os_tid: 0,
            wakes: 0,
        });
        let t = k.tasks.len() - 1;
        push_log(k, "spawn", t as u64, 0, None);
        t
    });
    let out = Arc::new(Mutex::new(None));
    let waiter = Arc::new(AtomicUsize::new(NONE));
    let (o2, w2) = (out.clone(), waiter.clone());
    let r = std::thread::Builder::new().stack_size(stack).spawn(move || {
        ME.with(|m| m.set(tid));
        take(&baton);
        after_switch(tid);
        with(|k| k.tasks[tid].os_tid = unsafe { gettid() });
        set_gap();
        simhook::set_active(true);
        simhook::set_mem(SPIN);
        let r = catch_unwind(AssertUnwindSafe(f));
        simhook::set_active(false);
        simhook::set_mem(u64::MAX);
        come_back(tid);
        *o2.lock().unwrap() = Some(r);
        let w = w2.load(Relaxed);
        if w != NONE {
            wake(w);
        }
        with(|k| push_log(k, "done", 0, 0, None));
        wake(0);
        switch(tid, St::Done);
        ME.with(|m| m.set(NONE));
    });
    if r.is_err() {
        crate::harness_error("cannot start a thread");
    }
    Handle { tid, out, waiter }
}

pub fn spawn<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> Handle<T> {
    spawn_opt(name.to_string(), STACK, f)
}

pub struct RunResult {
    pub hash: u64,
    pub events: u64,
    pub switches: u64,
    pub now: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub faulty: bool,
    pub choices: u64,
    pub samples: Vec<String>,
    pub log: Vec<String>,
}

static RUN_DONE: (Mutex<bool>, Condvar) = (Mutex::new(false), Condvar::new());

/// Executes one scenario. Anything that goes wrong ends the process through
/// `violation` or `harness_error`.
pub fn run(ch: Choices, scenario: fn()) -> RunResult {
    crate::io::start_run();
    *inner() = Some(Inner {
        ch,
        now: 0,
        tasks: Vec::new(),
        timers: BinaryHeap::new(),
        seq: 0,
        current: NONE,
        idle_spins: 0,
        log: Vec::new(),
        events: 0,
        hash: 0xcbf2_9ce4_8422_2325,
        switches: 0,
        stats: BTreeMap::new(),
        probes: BTreeSet::new(),
        faulty: false,
        samples: Vec::new(),
        gap_mode: 0,
        mem_mode: 0,
        running: true,
    });
    *RUN_DONE.0.lock().unwrap() = false;
    let h = spawn_opt("main".into(), STACK, move || {
        scenario();
        // every task that is not a daemon has to end
        loop {
            let open = with(|k| {
                let me = me();
                k.tasks
                    .iter()
                    .enumerate()
                    .any(|(i, t)| i != me && t.st != St::Done)
            });
            if !open {
                break;
            }
            block(None);
        }
        let mut g = RUN_DONE.0.lock().unwrap();
        *g = true;
        RUN_DONE.1.notify_one();
    });
    let baton = with(|k| {
        k.current = 0;
        CURRENT.store(0, Release);
        k.tasks[0].baton.clone()
    });
    give(&baton);
    {
        let mut g = RUN_DONE.0.lock().unwrap();
        loop {
            if *g {
                break;
            }
            // main may have panicked
            if let Ok(o) = h.out.try_lock() {
                if let Some(Err(p)) = o.as_ref() {
                    let t = panic_text(&**p);
                    drop(o);
                    drop(g);
                    crate::task_panicked("main", &t);
                }
            }
            let (ng, _) = RUN_DONE
                .1
                .wait_timeout(g, std::time::Duration::from_millis(200))
                .unwrap();
            g = ng;
        }
    }
    // main still has to mark itself done
    let t0 = std::time::Instant::now();
    loop {
        {
            let g = inner();
            if g.as_ref().unwrap().tasks[0].st == St::Done {
                break;
            }
        }
        std::thread::yield_now();
        if t0.elapsed().as_secs() > 20 {
            crate::harness_error("the run does not end");
        }
    }
    CURRENT.store(NONE, Release);
    let log = if KEEP_LOG.load(Relaxed) { render_log() } else { Vec::new() };
    let k = inner().take().unwrap();
    RunResult {
        log,
        hash: k.hash,
        events: k.events,
        switches: k.switches,
        now: k.now,
        stats: k.stats,
        faulty: k.faulty,
        choices: k.ch.rec.len() as u64,
        samples: k.samples,
    }
}

pub fn render_log() -> Vec<String> {
    let g = inner();
    let Some(k) = g.as_ref() else {
        return Vec::new();
    };
    k.log
        .iter()
        .map(|e| {
            let name = k.tasks.get(e.task).map(|t| t.name.as_str()).unwrap_or("-");
            match &e.text {
                Some(t) => format!("{:>12} {:<10} {} {}", e.t, name, e.what, t),
                None if e.a == 0 && e.b == 0 => format!("{:>12} {:<10} {}", e.t, name, e.what),
                None => format!("{:>12} {:<10} {} {} {}", e.t, name, e.what, e.a, e.b),
            }
        })
        .collect()
}

pub fn recorded() -> Vec<u64> {
    let g = inner();
    g.as_ref().map(|k| k.ch.rec.clone()).unwrap_or_default()
}

pub fn task_name() -> String {
    let m = me();
    let g = inner();
    g.as_ref()
        .and_then(|k| k.tasks.get(m))
        .map(|t| t.name.clone())
        .unwrap_or_default()
}

// ---------------------------------------------------------------- watchdog

fn task_asleep(os: i32) -> Option<(bool, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{os}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let cpu = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some((f[0] == "S", cpu))
}

fn watchdog() {
    let mut last = (NONE, 0u64, 0u64);
    let mut same = 0;
    let mut down = 0u32;
    loop {
        std::thread::sleep(std::time::Duration::from_millis(25));
        let cur = CURRENT.load(Acquire);
        let p = PROGRESS.load(Relaxed);
        if cur == NONE {
            same = 0;
            // baton down because all that is left is stuck outside
            let mut g = inner();
            if let Some(k) = g.as_mut() {
                if k.running && k.current == NONE && k.tasks.iter().any(|t| t.st == St::External) {
                    // somebody may have become ready meanwhile
                    if let Some(n) = (0..k.tasks.len())
                        .find(|&i| matches!(k.tasks[i].st, St::Ready | St::Idle))
                    {
                        k.current = n;
                        CURRENT.store(n, Release);
                        let b = k.tasks[n].baton.clone();
                        drop(g);
                        give(&b);
                        down = 0;
                        continue;
                    }
                    down += 1;
                    if down > 200 {
                        drop(g);
                        crate::violation(
                            "deadlock",
                            "tasks are stuck in locks of the code under test".to_string(),
                        );
                    }
                }
            }
            continue;
        }
        down = 0;
        let os = {
            let g = inner();
            match g.as_ref() {
                Some(k) if cur < k.tasks.len() => k.tasks[cur].os_tid,
                _ => 0,
            }
        };
        if os == 0 {
            continue;
        }
        let Some((asleep, cpu)) = task_asleep(os) else {
            continue;
        };
        if asleep && last == (cur, p, cpu) {
            same += 1;
        } else {
            same = 0;
        }
        last = (cur, p, cpu);
        if same >= 6 {
            same = 0;
            // the holder sleeps in something we do not own: let others run
            let mut g = inner();
            let Some(k) = g.as_mut() else { continue };
            if k.current != cur || PROGRESS.load(Relaxed) != p {
                continue;
            }
            // a task parked in its own baton is not stuck, it was just switched
            k.tasks[cur].st = St::External;
            *k.stats.entry("sched.external_wait").or_insert(0) += 1;
            match pick(k, cur) {
                Some(n) if n != cur => {
                    k.current = n;
                    CURRENT.store(n, Release);
                    let b = k.tasks[n].baton.clone();
                    drop(g);
                    give(&b);
                }
                _ => {
                    k.current = NONE;
                    CURRENT.store(NONE, Release);
                }
            }
        }
    }
}
