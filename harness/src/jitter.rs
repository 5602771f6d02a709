//! Delays inside the code under test: at allocations and other calls into the C library, a thread that asks for it
//! now and then yields or waits, so that other threads get in between.
use std::cell::Cell;

thread_local! {
    // state of the generator (0: off), one in how many, points passed, delays made
    static STATE: Cell<u64> = const { Cell::new(0) };
    static ODDS: Cell<u64> = const { Cell::new(0) };
    static POINTS: Cell<u64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}

/// From now on this thread delays at one in `odds` points; 0 ends it. Returns the points passed and delays made before.
pub fn set(seed: u64, odds: u64) -> (u64, u64) {
    STATE.with(|s| s.set(if odds == 0 { 0 } else { seed | 1 }));
    ODDS.with(|o| o.set(odds));
    (POINTS.with(|p| p.replace(0)), MADE.with(|p| p.replace(0)))
}

#[inline]
pub fn point() {
    let Ok(s) = STATE.try_with(|s| s.get()) else { return };
    if s != 0 {
        delay(s)
    }
}

#[cold]
fn delay(mut s: u64) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    let _ = STATE.try_with(|x| x.set(s));
    let _ = POINTS.try_with(|p| p.set(p.get() + 1));
    let odds = ODDS.try_with(|o| o.get()).unwrap_or(0);
    if odds == 0 || (s >> 11) % odds != 0 {
        return;
    }
    let _ = MADE.try_with(|p| p.set(p.get() + 1));
    match (s >> 40) % 8 {
        0..=2 => unsafe {
            libc::sched_yield();
        },
        3..=4 => {
            for _ in 0..(s >> 50) % 2000 {
                std::hint::spin_loop()
            }
        }
        _ => unsafe {
            let t = libc::timespec { tv_sec: 0, tv_nsec: 1000 + ((s >> 43) % 200_000) as i64 };
            libc::syscall(libc::SYS_nanosleep, &t, std::ptr::null_mut::<libc::timespec>());
        },
    }
}

thread_local! {
    static SCALE: Cell<u64> = const { Cell::new(1) };
}

/// From now on this thread sleeps only one part in `n` of what it asks for.
pub fn hurry(n: u64) {
    SCALE.with(|s| s.set(n));
    unsafe { libc::prctl(libc::PR_SET_TIMERSLACK, 1) };
}

unsafe fn scaled(t: *const libc::timespec) -> libc::timespec {
    let n = SCALE.try_with(|s| s.get()).unwrap_or(1).max(1);
    let ns = ((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64) / n;
    libc::timespec { tv_sec: (ns / 1_000_000_000) as i64, tv_nsec: (ns % 1_000_000_000) as i64 }
}

#[cfg_attr(not(san), no_mangle)]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    libc::syscall(libc::SYS_nanosleep, &scaled(t), rem) as libc::c_int
}

#[cfg_attr(not(san), no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: libc::c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    let d = if flags == 0 { scaled(t) } else { *t };
    // returns the error itself
    if libc::syscall(libc::SYS_clock_nanosleep, clk as libc::c_long, flags as libc::c_long, &d, rem) == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}
