//! The system calls through which the standard library waits, sleeps, reads
//! clocks and draws entropy. On a simulated task they are points the
//! scheduler owns: locks of the code under test never block the process,
//! time is virtual, and entropy comes from the recorded choices. Everywhere
//! else they are the real ones.
use crate::kernel;
use std::ffi::{c_int, c_long};

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Timespec {
    s: i64,
    ns: i64,
}

const FUTEX: c_long = 202;
const NANOSLEEP: c_long = 230;
const CLOCK: c_long = 228;
const GETRANDOM: c_long = 318;
const YIELD: c_long = 24;
const EAGAIN: c_int = 11;
const ETIMEDOUT: c_int = 110;
/// When simulated time begins (seconds since 1970).
const BEGIN: u64 = 1_735_689_600;

extern "C" {
    fn __errno_location() -> *mut c_int;
}

unsafe fn real(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn result(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as c_int;
        return -1;
    }
    r
}

/// On a simulated task, and not in the simulator's own code.
fn ours() -> bool {
    simhook::active() && !crate::alloc::is_quiet()
}

#[no_mangle]
unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    match n {
        FUTEX if ours() => {
            let cmd = b & 0x7f;
            if cmd == 0 || cmd == 9 {
                let now = (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst);
                if now != c as u32 {
                    return result(-EAGAIN as c_long);
                }
                kernel::probe("sched.lock_wait");
                simhook::yield_idle("lock");
                // a wait with a limit ends at some time
                if d != 0 && kernel::choose(8) == 7 {
                    return result(-ETIMEDOUT as c_long);
                }
                return 0;
            }
        }
        GETRANDOM if simhook::active() => return getrandom(a as *mut u8, b, c as u32) as c_long,
        _ => {}
    }
    result(real(n, a, b, c, d, e, f))
}

#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if !simhook::active() {
        return result(real(GETRANDOM, p as usize, n, flags as usize, 0, 0, 0)) as isize;
    }
    let mut x = if crate::alloc::is_quiet() { 1 } else { kernel::raw() };
    for i in 0..n {
        if i % 8 == 0 {
            x = x.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
            x ^= x >> 31;
        }
        *p.add(i) = (x >> (8 * (i % 8))) as u8;
    }
    n as isize
}

#[no_mangle]
unsafe extern "C" fn sched_yield() -> c_int {
    if ours() {
        simhook::yield_idle("yield");
        return 0;
    }
    result(real(YIELD, 0, 0, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, t: *const Timespec, left: *mut Timespec) -> c_int {
    if ours() && flags == 0 {
        kernel::sleep((*t).s as u64 * 1_000_000_000 + (*t).ns as u64);
        return 0;
    }
    // this one returns the error
    -real(NANOSLEEP, clock as usize, flags as usize, t as usize, left as usize, 0, 0) as c_int
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: c_int, t: *mut Timespec) -> c_int {
    if ours() {
        let ns = kernel::read_clock(clock == 0);
        *t = Timespec { s: (ns / 1_000_000_000) as i64, ns: (ns % 1_000_000_000) as i64 };
        if clock == 0 {
            (*t).s += BEGIN as i64;
        }
        return 0;
    }
    result(real(CLOCK, clock as usize, t as usize, 0, 0, 0, 0)) as c_int
}
