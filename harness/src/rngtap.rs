//! The randomness of the operating system, observed and made to fail.
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};

static BYTES: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
static FAILED: AtomicU64 = AtomicU64::new(0);
static SHORT: AtomicU64 = AtomicU64::new(0);

/// Bytes and calls so far.
pub fn taken() -> (u64, u64) {
    (BYTES.load(SeqCst), CALLS.load(SeqCst))
}

/// The `n`-th request from now (0 is the next) fails; none with a negative number.
pub fn fail_at(n: i64) {
    FAIL_AT.store(n, SeqCst);
    FAILED.store(0, SeqCst);
}

pub fn failed() -> bool {
    FAILED.load(SeqCst) > 0
}

/// Requests are only answered in part, at most `n` bytes at once; 0 for complete answers.
pub fn short(n: u64) {
    SHORT.store(n, SeqCst);
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e,
        in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

fn answer(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as i32 };
        return -1;
    }
    r
}

unsafe fn random(buf: i64, len: i64, flags: i64) -> i64 {
    if len > 0 {
        CALLS.fetch_add(1, SeqCst);
        let k = FAIL_AT.load(SeqCst);
        if k >= 0 {
            FAIL_AT.store(k - 1, SeqCst);
            if k == 0 {
                FAILED.fetch_add(1, SeqCst);
                return -libc::EIO as i64;
            }
        }
    }
    let s = SHORT.load(SeqCst) as i64;
    let len = if s > 0 { len.min(s) } else { len };
    let r = raw(libc::SYS_getrandom, buf, len, flags, 0, 0, 0);
    if r > 0 {
        BYTES.fetch_add(r as u64, SeqCst);
    }
    r
}

#[cfg_attr(not(san), no_mangle)]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    answer(if n == libc::SYS_getrandom { random(a, b, c) } else { raw(n, a, b, c, d, e, f) })
}

#[cfg_attr(not(san), no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: libc::c_uint) -> isize {
    answer(random(buf as i64, len as i64, flags as i64)) as isize
}
