//! Instruction-level scheduling points for code whose shared state is not behind a tokio primitive (atomics, std locks).
//!
//! Inside `stepped` the processor's single-step trap is on; the handler is a scheduling point before every instruction of
//! the main program (`Step::All`) or before every atomic read-modify-write (`Step::Locked`). Code of shared libraries
//! (the allocator, for instance) is never preempted.
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Once;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Step {
    All,
    Locked,
}

static STEPPING: AtomicBool = AtomicBool::new(false);

/// Suspends single-stepping while the engine itself runs.
pub struct Untraced(bool);
#[inline]
pub fn untraced() -> Untraced {
    if !STEPPING.load(Ordering::Relaxed) {
        return Untraced(false);
    }
    let f: u64;
    unsafe {
        std::arch::asm!("pushfq", "pop {}", out(reg) f);
        if f & 0x100 != 0 {
            std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }
    Untraced(f & 0x100 != 0)
}
impl Drop for Untraced {
    fn drop(&mut self) {
        if self.0 {
            unsafe {
                std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
            }
        }
    }
}

static mut LOCKED_ONLY: bool = false;
static INIT: Once = Once::new();

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

unsafe fn is_rmw(mut p: *const u8) -> bool {
    for _ in 0..6 {
        match *p {
            0xF0 => return true,                          // lock prefix
            0x66 | 0x67 | 0xF2 | 0xF3 | 0x2E | 0x3E | 0x26 | 0x36 | 0x64 | 0x65 => p = p.add(1),
            0x40..=0x4F => p = p.add(1),                  // REX
            0x86 | 0x87 => return *p.add(1) >> 6 != 3,    // xchg with memory
            _ => return false,
        }
    }
    false
}

unsafe extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let uc = ctx as *mut libc::ucontext_t;
    let rip = (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    let lo = std::ptr::addr_of!(__executable_start) as usize;
    let hi = std::ptr::addr_of!(etext) as usize;
    if rip < lo || rip >= hi {
        return;
    }
    if LOCKED_ONLY && !is_rmw(rip as *const u8) {
        return;
    }
    let e = *libc::__errno_location();
    crate::sched::point(0x57E9, 18);
    *libc::__errno_location() = e;
}

/// Runs `f` with a scheduling point before each of its instructions (see `Step`).
#[inline(never)]
pub fn stepped<R>(how: Step, f: impl FnOnce() -> R) -> R {
    INIT.call_once(|| unsafe {
        LOCKED_ONLY = how == Step::Locked;
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    });
    STEPPING.store(true, Ordering::Relaxed);
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let r = run(f);
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    r
}

#[inline(never)]
fn run<R>(f: impl FnOnce() -> R) -> R {
    std::hint::black_box(f())
}
