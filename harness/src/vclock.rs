//! A wall clock under control of the thread: the code under test sees the time the monitor sets.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<Option<u128>> = const { Cell::new(None) };
    static ASKED: Cell<u64> = const { Cell::new(0) };
}

/// Sets what the wall clock of this thread shows, in nanoseconds since 1970; `None` gives it back.
pub fn set(ns: Option<u128>) {
    NOW.with(|n| n.set(ns));
}

/// How often this thread has asked for the controlled time.
pub fn asked() -> u64 {
    ASKED.with(|a| a.get())
}

#[cfg_attr(not(san), no_mangle)]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        if let Ok(Some(ns)) = NOW.try_with(|n| n.get()) {
            let _ = ASKED.try_with(|a| a.set(a.get() + 1));
            (*ts).tv_sec = (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
}
