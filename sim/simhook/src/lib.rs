//! Seams between vendored dependencies and the simulator. When no simulator
//! has installed its hooks, or on a thread that is not one of its tasks,
//! every function here does nothing.
use std::cell::Cell;
use std::sync::OnceLock;

pub struct Hooks {
    /// A point at which another task may run.
    pub yield_point: fn(&'static str),
    /// The task found nothing to do and polls again after others ran.
    pub yield_idle: fn(&'static str),
    /// The countdown of memory accesses ended.
    pub mem_point: fn(),
    /// A choice in 0..n.
    pub choose: fn(&'static str, u64) -> u64,
}

static HOOKS: OnceLock<Hooks> = OnceLock::new();

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static BYPASS: Cell<bool> = const { Cell::new(false) };
    static MEM: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub fn install(h: Hooks) {
    let _ = HOOKS.set(h);
}

/// Marks the current thread as a simulated task (or not).
pub fn set_active(on: bool) {
    ACTIVE.with(|a| a.set(on));
}

/// True on a thread that is a simulated task.
#[inline]
pub fn active() -> bool {
    ACTIVE.try_with(|a| a.get()).unwrap_or(false)
}

/// Number of fine-grained points still to be passed before one yields.
pub fn set_countdown(n: u64) {
    COUNTDOWN.with(|c| c.set(n));
}

/// A fine-grained point (a hashing step): yields when the countdown ends.
#[inline]
pub fn fine_point(what: &'static str) {
    if !active() {
        return;
    }
    let n = COUNTDOWN.with(|c| c.get());
    if n > 0 {
        COUNTDOWN.with(|c| c.set(n - 1));
        return;
    }
    if let Some(h) = HOOKS.get() {
        (h.yield_point)(what);
    }
}

#[inline]
pub fn yield_point(what: &'static str) {
    if active() {
        if let Some(h) = HOOKS.get() {
            (h.yield_point)(what);
        }
    }
}

#[inline]
pub fn yield_idle(what: &'static str) {
    if active() {
        if let Some(h) = HOOKS.get() {
            (h.yield_idle)(what);
        }
    }
}

#[inline]
pub fn choose(what: &'static str, n: u64) -> Option<u64> {
    if active() {
        if let Some(h) = HOOKS.get() {
            return Some((h.choose)(what, n));
        }
    }
    None
}

/// Number of memory accesses and basic blocks of instrumented code that this
/// thread still passes before it calls mem_point.
pub fn set_mem(n: u64) -> u64 {
    MEM.try_with(|c| c.replace(n)).unwrap_or(u64::MAX)
}

#[inline(always)]
fn tick() {
    let _ = MEM.try_with(|c| {
        let n = c.get();
        if n == 0 {
            ended();
        } else {
            c.set(n - 1);
        }
    });
}

#[cold]
fn ended() {
    set_mem(u64::MAX);
    if let Some(h) = HOOKS.get() {
        (h.mem_point)();
    }
}

/// The allocator of the process. This crate is not instrumented: a task that
/// bypasses the simulator's own allocator passes no counted point in it.
pub struct Gate;
#[global_allocator]
static GATE: Gate = Gate;
type Inner = &'static (dyn std::alloc::GlobalAlloc + Sync);
static INNER: std::sync::atomic::AtomicPtr<Inner> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Allocations go to this one from now on.
pub fn set_allocator(a: &'static Inner) {
    INNER.store(a as *const Inner as *mut Inner, std::sync::atomic::Ordering::Release);
}
fn inner() -> Inner {
    let p = INNER.load(std::sync::atomic::Ordering::Acquire);
    if p.is_null() {
        &std::alloc::System
    } else {
        // SAFETY: from a reference that lives as long as the process
        unsafe { *p }
    }
}

/// This thread allocates from the system directly (or not).
pub fn set_bypass(on: bool) {
    BYPASS.with(|b| b.set(on));
}
fn bypass() -> bool {
    BYPASS.try_with(|b| b.get()).unwrap_or(false)
}

unsafe impl std::alloc::GlobalAlloc for Gate {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if bypass() {
            return std::alloc::System.alloc(l);
        }
        inner().alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if bypass() {
            return std::alloc::System.dealloc(p, l);
        }
        inner().dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if bypass() {
            return std::alloc::System.realloc(p, l, n);
        }
        inner().realloc(p, l, n)
    }
}

// What the compiler makes instrumented code call (bin/rustc-fine).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    tick()
}
macro_rules! accesses {
    ($($f:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $f(_: *const u8) {
            tick()
        }
    )* };
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
