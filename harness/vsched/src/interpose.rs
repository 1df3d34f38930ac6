//! Interposed libc entry points.
use super::*;
use std::arch::asm;
use std::ffi::{c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicBool, AtomicUsize};

pub(crate) static ADOPT: AtomicBool = AtomicBool::new(false);

#[inline]
unsafe fn raw6(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    r
}

pub fn real_futex_wait(w: &AtomicU32, v: u32) {
    unsafe {
        raw6(
            libc::SYS_futex,
            w as *const _ as c_long,
            (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as c_long,
            v as c_long,
            0,
            0,
            0,
        );
    }
}
fn real_futex_wake(w: &AtomicU32) {
    unsafe {
        raw6(
            libc::SYS_futex,
            w as *const _ as c_long,
            (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as c_long,
            1,
            0,
            0,
            0,
        );
    }
}
pub(crate) fn give(w: &AtomicU32) {
    w.store(1, Ordering::Release);
    real_futex_wake(w);
}
pub(crate) fn take(w: &AtomicU32) {
    while w.swap(0, Ordering::Acquire) == 0 {
        real_futex_wait(w, 0);
    }
}

unsafe fn real(cache: &AtomicUsize, name: &[u8]) -> usize {
    let p = cache.load(Ordering::Relaxed);
    if p != 0 {
        return p;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize;
    assert!(p != 0);
    cache.store(p, Ordering::Relaxed);
    p
}

// ---- threads ---------------------------------------------------------------------
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Tramp {
    start: Start,
    arg: *mut c_void,
    id: usize,
}
static mut JOINS: Vec<(libc::pthread_t, usize)> = Vec::new();

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    thread_main_enter(t.id);
    let r = (t.start)(t.arg);
    thread_main_exit();
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    start: Start,
    arg: *mut c_void,
) -> c_int {
    static C: AtomicUsize = AtomicUsize::new(0);
    type F = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        Start,
        *mut c_void,
    ) -> c_int;
    let f: F = std::mem::transmute(real(&C, b"pthread_create\0"));
    let adopt = ADOPT.load(Ordering::SeqCst);
    if !active() && !adopt {
        return f(th, attr, start, arg);
    }
    if adopt {
        JOINS.clear();
    }
    let id = new_thread("start");
    let t = Box::into_raw(Box::new(Tramp { start, arg, id }));
    let r = f(th, attr, trampoline, t as *mut c_void);
    assert!(r == 0, "pthread_create failed");
    JOINS.retain(|(p, _)| *p != *th);
    JOINS.push((*th, id));
    if !adopt {
        point("thread spawn");
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    static C: AtomicUsize = AtomicUsize::new(0);
    type F = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
    let f: F = std::mem::transmute(real(&C, b"pthread_join\0"));
    if active() {
        if let Some(&(_, id)) = JOINS.iter().find(|(p, _)| *p == th) {
            point("join");
            while !is_done(id) {
                block(join_key(id), "join");
            }
        }
    }
    f(th, ret)
}

// ---- futex and other raw system calls ----------------------------------------------
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if active() {
        if n == libc::SYS_futex {
            let op = (b as c_int) & 0x7f;
            let addr = a as usize;
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    point("futex wait");
                    let w = &*(a as *const AtomicU32);
                    if w.load(Ordering::SeqCst) != c as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    let why = if d == 0 {
                        block(addr, "futex wait")
                    } else {
                        let ts = &*(d as *const libc::timespec);
                        let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                        let ns = if op == libc::FUTEX_WAIT {
                            t
                        } else {
                            t.saturating_sub(now_ns())
                        };
                        block_timed(addr, "timed futex wait", ns)
                    };
                    if why == Why::Timeout {
                        set_errno(libc::ETIMEDOUT);
                        return -1;
                    }
                    return 0;
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    let k = notify(addr, c as usize);
                    point("futex wake");
                    return k as c_long;
                }
                _ => {}
            }
        } else if n == libc::SYS_getrandom {
            fill(a as *mut u8, b as usize);
            return b;
        }
    } else if n == libc::SYS_getrandom && det_active() {
        fill(a as *mut u8, b as usize);
        return b;
    }
    let r = raw6(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        return -1;
    }
    r
}

#[no_mangle]
pub extern "C" fn sched_yield() -> c_int {
    if active() {
        if slow_now() {
            return 0;
        }
        // a yielding thread is a busy waiter until something happens
        if others_runnable() {
            point("yield");
        } else {
            block_spin("yield");
        }
        return 0;
    }
    unsafe { raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int }
}

unsafe fn vsleep(req: *const libc::timespec) {
    let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    block_timed(usize::MAX - 1, "sleep", ns);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if active() {
        vsleep(req);
        return 0;
    }
    let r = raw6(libc::SYS_nanosleep, req as c_long, rem as c_long, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clk: libc::clockid_t,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if active() {
        if flags & libc::TIMER_ABSTIME != 0 {
            let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
            let ns = t.saturating_sub(now_ns());
            block_timed(usize::MAX - 1, "sleep", ns);
        } else {
            vsleep(req);
        }
        return 0;
    }
    -raw6(
        libc::SYS_clock_nanosleep,
        clk as c_long,
        flags as c_long,
        req as c_long,
        rem as c_long,
        0,
        0,
    ) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if active() {
        let t = now_ns();
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw6(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    let skipped = SKIPPED.load(Ordering::Relaxed);
    if skipped > 0 {
        let t = (*ts).tv_nsec as u64 + skipped % 1_000_000_000;
        (*ts).tv_sec += (skipped / 1_000_000_000 + t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    }
    0
}

// ---- randomness --------------------------------------------------------------------
unsafe fn fill(p: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let x = next_random().to_le_bytes();
        for b in x {
            if i < len {
                *p.add(i) = b;
                i += 1;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, len: usize, flags: c_uint) -> isize {
    if active() || det_active() {
        fill(p as *mut u8, len);
        return len as isize;
    }
    let r = raw6(
        libc::SYS_getrandom,
        p as c_long,
        len as c_long,
        flags as c_long,
        0,
        0,
        0,
    );
    if r < 0 {
        set_errno(-r as c_int);
        return -1;
    }
    r as isize
}
