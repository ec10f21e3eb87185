//! Interposes the libc entry points through which code blocks a thread for real.
//!
//! A controlled task that would block in the kernel (std::sync::Mutex, Condvar, thread::park, ...) would keep
//! the baton for ever. `syscall(SYS_futex, ..)` is therefore modelled by the scheduler for controlled tasks.
use std::cell::Cell;

thread_local! {
    static INTERNAL: Cell<u32> = const { Cell::new(0) };
}

/// Runs `f` with kernel blocking left to the kernel.
pub fn internal<R>(f: impl FnOnce() -> R) -> R {
    let _ = INTERNAL.try_with(|c| c.set(c.get() + 1));
    let r = f();
    let _ = INTERNAL.try_with(|c| c.set(c.get() - 1));
    r
}

fn is_internal() -> bool {
    INTERNAL.try_with(|c| c.get() > 0).unwrap_or(true)
}

#[inline]
pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

unsafe fn ret(r: isize) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r as i64
    }
}

/// # Safety
/// As libc's `syscall`.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_futex && crate::controlled() && !is_internal() && !crate::sched::engine_addr(a) {
        let cmd = (b as i32) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match cmd {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET if d == 0 => {
                let p = a as *const std::sync::atomic::AtomicU32;
                if (*p).load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                    *libc::__errno_location() = libc::EAGAIN;
                    return -1;
                }
                crate::sched::futex_wait(a);
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let k = crate::sched::futex_wake(a, c);
                let r = raw_syscall(n, a, b, c, d, e, f);
                return k as i64 + ret(r).max(0);
            }
            _ => {}
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

/// # Safety
/// As libc's `sched_yield`.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if crate::controlled() && !is_internal() {
        crate::sched::yield_point();
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
