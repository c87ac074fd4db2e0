//! Global allocator: accounts for the memory a guarded operation uses, and
//! looks for secrets in memory that is released.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static GUARD: Cell<bool> = const { Cell::new(false) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static FINE: Cell<bool> = const { Cell::new(false) };
}

/// A request above this inside a guarded operation is refused, which aborts
/// the process, as it would where memory is that scarce.
pub const REFUSE: usize = 1 << 30;

static SCAN: AtomicBool = AtomicBool::new(false);
const MAXN: usize = 32;
const NEEDLE: usize = 8;
// needles are stored masked, so that the table itself never matches
static NEEDLES: [AtomicU64; MAXN] = [const { AtomicU64::new(0) }; MAXN];
static NCOUNT: AtomicUsize = AtomicUsize::new(0);
const MASK: u64 = 0x5a5a_a5a5_c3c3_3c3c;
static HITS: AtomicU64 = AtomicU64::new(0);
static HIT_SIZE: AtomicUsize = AtomicUsize::new(0);
static HIT_NEEDLE: AtomicUsize = AtomicUsize::new(0);
static SCANNED: AtomicU64 = AtomicU64::new(0);
static SCANNED_BYTES: AtomicU64 = AtomicU64::new(0);

// live blocks allocated while scanning
const LIVE_MAX: usize = 1 << 15;
static LIVE_PTR: [AtomicUsize; LIVE_MAX] = [const { AtomicUsize::new(0) }; LIVE_MAX];
static LIVE_LEN: [AtomicUsize; LIVE_MAX] = [const { AtomicUsize::new(0) }; LIVE_MAX];
static LIVE_OVER: AtomicU64 = AtomicU64::new(0);

fn slot(p: usize) -> usize {
    ((p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40) % LIVE_MAX
}

fn live_add(p: usize, n: usize) {
    let mut i = slot(p);
    for _ in 0..256 {
        let cur = LIVE_PTR[i].load(Relaxed);
        if cur <= 1 && LIVE_PTR[i].compare_exchange(cur, p, Relaxed, Relaxed).is_ok() {
            LIVE_LEN[i].store(n, Relaxed);
            return;
        }
        i = (i + 1) % LIVE_MAX;
    }
    LIVE_OVER.fetch_add(1, Relaxed);
}

fn live_del(p: usize) {
    let mut i = slot(p);
    for _ in 0..256 {
        let cur = LIVE_PTR[i].load(Relaxed);
        if cur == p {
            LIVE_PTR[i].store(1, Relaxed);
            return;
        }
        if cur == 0 {
            return;
        }
        i = (i + 1) % LIVE_MAX;
    }
}

fn first_hit(p: *const u8, n: usize) -> Option<usize> {
    if n < NEEDLE {
        return None;
    }
    let cnt = NCOUNT.load(Relaxed);
    for off in 0..=(n - NEEDLE) {
        let w = unsafe { (p.add(off) as *const u64).read_unaligned() } ^ MASK;
        for (i, nd) in NEEDLES.iter().take(cnt).enumerate() {
            if nd.load(Relaxed) == w {
                return Some(i);
            }
        }
    }
    None
}

fn scan_free(p: *const u8, n: usize) {
    SCANNED.fetch_add(1, Relaxed);
    SCANNED_BYTES.fetch_add(n as u64, Relaxed);
    if let Some(i) = first_hit(p, n) {
        HITS.fetch_add(1, Relaxed);
        HIT_SIZE.store(n, Relaxed);
        HIT_NEEDLE.store(i, Relaxed);
    }
}

fn account(delta: i64, size: usize) {
    LIVE.with(|l| {
        let v = l.get() + delta;
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    LARGEST.with(|l| {
        if size > l.get() {
            l.set(size)
        }
    });
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if FINE.try_with(|f| f.get()).unwrap_or(false) && !QUIET.with(|q| q.get()) && !std::thread::panicking() {
            simhook::fine_point("alloc");
        }
        let guarded = GUARD.try_with(|g| g.get()).unwrap_or(false);
        if guarded {
            if l.size() > REFUSE {
                return std::ptr::null_mut();
            }
            account(l.size() as i64, l.size());
        }
        let p = System.alloc(l);
        if SCAN.load(Relaxed) && !QUIET.try_with(|q| q.get()).unwrap_or(true) && !p.is_null() {
            live_add(p as usize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if GUARD.try_with(|g| g.get()).unwrap_or(false) {
            account(-(l.size() as i64), 0);
        }
        if SCAN.load(Relaxed) {
            scan_free(p, l.size());
            live_del(p as usize);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let guarded = GUARD.try_with(|g| g.get()).unwrap_or(false);
        if guarded || SCAN.load(Relaxed) {
            // as alloc, copy and dealloc, which is what it may be
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

pub struct Usage {
    pub peak: u64,
    pub largest: usize,
}

/// Runs f and reports the most memory it held at one time.
pub fn guarded<R>(f: impl FnOnce() -> R) -> (R, Usage) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            GUARD.with(|g| g.set(false));
        }
    }
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    LARGEST.with(|l| l.set(0));
    GUARD.with(|g| g.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (
        r,
        Usage {
            peak: PEAK.with(|p| p.get()).max(0) as u64,
            largest: LARGEST.with(|l| l.get()),
        },
    )
}

/// Leaves a guarded region for the time of f (harness work inside callbacks).
pub fn unguarded<R>(f: impl FnOnce() -> R) -> R {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            let b = self.0;
            GUARD.with(|g| g.set(b));
        }
    }
    let b = GUARD.with(|g| g.replace(false));
    let _back = Back(b);
    f()
}

/// Registers every window of 8 bytes at a stride of 8 of a secret.
pub fn add_secret(s: &[u8]) {
    for c in s.chunks_exact(NEEDLE) {
        let i = NCOUNT.load(Relaxed);
        if i >= MAXN {
            return;
        }
        NEEDLES[i].store(u64::from_le_bytes(c.try_into().unwrap()) ^ MASK, Relaxed);
        NCOUNT.store(i + 1, Relaxed);
    }
}

pub fn clear_secrets() {
    NCOUNT.store(0, Relaxed);
}

pub fn scan(on: bool) {
    if on {
        for p in LIVE_PTR.iter() {
            if p.load(Relaxed) != 0 {
                p.store(0, Relaxed);
            }
        }
        LIVE_OVER.store(0, Relaxed);
        HITS.store(0, Relaxed);
        SCANNED.store(0, Relaxed);
        SCANNED_BYTES.store(0, Relaxed);
    }
    SCAN.store(on, Relaxed);
}

/// Blocks this thread allocates while f runs are not looked at at the end.
/// Nor are its steps counted.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Back(bool, u64);
    impl Drop for Back {
        fn drop(&mut self) {
            QUIET.with(|g| g.set(self.0));
            simhook::set_mem(self.1);
        }
    }
    let left = simhook::set_mem(u64::MAX);
    let b = QUIET.with(|g| g.replace(true));
    let _back = Back(b, left);
    f()
}

pub fn is_quiet() -> bool {
    QUIET.try_with(|q| q.get()).unwrap_or(true)
}

pub fn is_fine() -> bool {
    FINE.try_with(|f| f.get()).unwrap_or(false)
}

/// Every allocation of code under test in f, and now and then a memory access
/// of it, is a point where other tasks may run (or, nested in such a region,
/// is not).
pub fn fine<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Back(bool, u64);
    impl Drop for Back {
        fn drop(&mut self) {
            FINE.with(|g| g.set(self.0));
            simhook::set_mem(self.1);
        }
    }
    let b = FINE.with(|g| g.replace(on));
    let left = simhook::set_mem(1 << 40);
    let _back = Back(b, left);
    if on {
        crate::kernel::set_mem_gap();
    }
    f()
}

/// Memory accesses only, for a task that does nothing else.
pub fn fine_accesses(on: bool, f: impl FnOnce()) {
    simhook::set_bypass(true);
    fine(on, f);
    simhook::set_bypass(false);
}

pub struct ScanReport {
    pub hits: u64,
    pub size: usize,
    pub needle: usize,
    pub blocks: u64,
    pub bytes: u64,
}

pub fn scan_report() -> ScanReport {
    ScanReport {
        hits: HITS.load(Relaxed),
        size: HIT_SIZE.load(Relaxed),
        needle: HIT_NEEDLE.load(Relaxed),
        blocks: SCANNED.load(Relaxed),
        bytes: SCANNED_BYTES.load(Relaxed),
    }
}

/// Size of a live block allocated since scan(true) that contains a secret.
pub fn live_hit() -> Option<usize> {
    for i in 0..LIVE_MAX {
        let p = LIVE_PTR[i].load(Relaxed);
        if p > 1 {
            let n = LIVE_LEN[i].load(Relaxed);
            if first_hit(p as *const u8, n).is_some() {
                return Some(n);
            }
        }
    }
    None
}
