//! The process's memory, observed: anonymous mappings as they come and go, blocks as they are freed, and what is at an
//! address whatever its protection.
use crate::leak::Needles;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

/// Address, length and number of a mapping.
pub type Region = (usize, usize, u64);

#[derive(Default)]
struct State {
    live: Vec<Region>,
    next: u64,
    needles: Needles,
    found: Vec<String>,
    unmapped: u64,
    mapped: u64,
}

static ON: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<State>> = Mutex::new(None);
thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

fn with<T>(f: impl FnOnce(&mut State) -> T) -> Option<T> {
    let before = INSIDE.try_with(|i| i.replace(true)).ok()?;
    let r = match STATE.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        Some(s) => Some(f(s)),
        None => None,
    };
    INSIDE.with(|i| i.set(before));
    r
}

fn on() -> bool {
    ON.load(Ordering::Relaxed) && !INSIDE.try_with(|i| i.get()).unwrap_or(true)
}

/// The bytes at an address, past any protection; `None` if nothing is mapped there.
pub fn peek(addr: usize, len: usize) -> Option<Vec<u8>> {
    static FD: std::sync::OnceLock<i32> = std::sync::OnceLock::new();
    let fd = *FD.get_or_init(|| unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/proc/self/mem".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0) as i32 });
    assert!(fd >= 0, "/proc/self/mem");
    let mut v = vec![0u8; len];
    let n = unsafe { libc::syscall(libc::SYS_pread64, fd, v.as_mut_ptr(), len, addr) };
    if n != len as i64 {
        return None;
    }
    Some(v)
}

/// What the pages hold that exist in a range, whatever their protection.
fn content(addr: usize, len: usize) -> Vec<Vec<u8>> {
    static FD: std::sync::OnceLock<i32> = std::sync::OnceLock::new();
    let fd = *FD.get_or_init(|| unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, c"/proc/self/pagemap".as_ptr(), libc::O_RDONLY | libc::O_CLOEXEC, 0) as i32 });
    assert!(fd >= 0, "/proc/self/pagemap");
    let (first, last) = (addr >> 12, (addr + len.max(1) - 1) >> 12);
    let mut out: Vec<Vec<u8>> = vec![];
    let mut run: Option<(usize, usize)> = None;
    let mut flush = |run: &mut Option<(usize, usize)>, out: &mut Vec<Vec<u8>>| {
        if let Some((a, n)) = run.take() {
            let (lo, hi) = ((a << 12).max(addr), ((a + n) << 12).min(addr + len));
            out.extend(peek(lo, hi - lo));
        }
    };
    let mut page = first;
    let mut m = vec![0u64; 1 << 16];
    while page <= last {
        let n = (last - page + 1).min(m.len());
        let r = unsafe { libc::syscall(libc::SYS_pread64, fd, m.as_mut_ptr(), n * 8, page * 8) };
        assert!(r == n as i64 * 8, "pagemap");
        for (k, e) in m[..n].iter().enumerate() {
            if e >> 62 != 0 {
                match &mut run {
                    Some((_, n)) => *n += 1,
                    None => run = Some((page + k, 1)),
                }
            } else {
                flush(&mut run, &mut out);
            }
        }
        page += n;
    }
    flush(&mut run, &mut out);
    out
}

pub fn start() {
    STATE.lock().unwrap().replace(State::default());
    ON.store(true, Ordering::SeqCst);
}

/// Ends the observation: what was found, and the numbers of mappings made and given back.
pub fn stop() -> (Vec<String>, u64, u64) {
    ON.store(false, Ordering::SeqCst);
    let s = STATE.lock().unwrap().take().unwrap_or_default();
    (s.found, s.mapped, s.unmapped)
}

/// What was found since the last call.
pub fn found() -> Vec<String> {
    with(|s| std::mem::take(&mut s.found)).unwrap_or_default()
}

/// Something that must not be in memory that is given back.
pub fn secret(b: &[u8]) {
    with(|s| s.needles.add(b));
}

/// The mappings made and not yet unmapped.
pub fn live() -> Vec<Region> {
    with(|s| s.live.clone()).unwrap_or_default()
}

/// What these mappings hold.
pub fn contents(regions: &[Region]) -> Vec<Vec<u8>> {
    let before = INSIDE.with(|i| i.replace(true));
    let r = regions.iter().flat_map(|(a, n, _)| content(*a, *n)).collect();
    INSIDE.with(|i| i.set(before));
    r
}

/// Looks for the secrets at an address.
pub fn find_at(addr: usize, len: usize) -> Option<(usize, &'static str)> {
    let v = peek(addr, len)?;
    with(|s| s.needles.find(&v)).flatten()
}

/// Looks for the secrets in those of the mappings that are still there.
pub fn find_in(regions: &[Region]) -> Option<String> {
    let l = live();
    for (a, n, k) in regions.iter().copied() {
        if !l.contains(&(a, n, k)) {
            continue;
        }
        for c in contents(&[(a, n, k)]) {
            if let Some(Some((at, _))) = with(|s| s.needles.find(&c)) {
                return Some(format!("at {at} of a mapping of {n} bytes"));
            }
        }
    }
    None
}

unsafe fn unmapping(addr: usize, len: usize) {
    with(|s| {
        let end = addr + len;
        let hit: Vec<Region> = s.live.iter().copied().filter(|(a, n, _)| *a < end && addr < a + n).collect();
        if hit.is_empty() {
            return;
        }
        s.unmapped += 1;
        for (a, n, k) in hit {
            s.live.retain(|x| *x != (a, n, k));
            let (lo, hi) = (a.max(addr), (a + n).min(end));
            if lo > a {
                s.live.push((a, lo - a, k));
            }
            if hi < a + n {
                s.live.push((hi, a + n - hi, k));
            }
            for c in content(lo, hi - lo) {
                if let Some((at, _)) = s.needles.find(&c) {
                    s.found.push(format!("a mapping of {n} bytes was given back with a piece of the secret at {at}"));
                }
            }
        }
    });
}

extern "C" {
    fn __libc_malloc(n: libc::size_t) -> *mut libc::c_void;
    fn __libc_free(p: *mut libc::c_void);
    fn malloc_usable_size(p: *mut libc::c_void) -> usize;
}

#[cfg_attr(not(san), no_mangle)]
pub unsafe extern "C" fn mmap(a: *mut libc::c_void, n: libc::size_t, p: libc::c_int, f: libc::c_int, fd: libc::c_int, o: libc::off_t) -> *mut libc::c_void {
    crate::jitter::point();
    let r = libc::syscall(libc::SYS_mmap, a, n, p, f, fd, o) as *mut libc::c_void;
    if r != libc::MAP_FAILED && f & libc::MAP_ANONYMOUS != 0 && on() {
        with(|s| {
            s.mapped += 1;
            s.next += 1;
            s.live.push((r as usize, n, s.next));
        });
    }
    r
}

#[cfg_attr(not(san), no_mangle)]
pub unsafe extern "C" fn munmap(a: *mut libc::c_void, n: libc::size_t) -> libc::c_int {
    crate::jitter::point();
    if on() {
        unmapping(a as usize, n);
    }
    libc::syscall(libc::SYS_munmap, a, n) as libc::c_int
}

/// Blocks of the allocator from this size on are observed like mappings.
const BIG: usize = 1 << 24;

#[cfg(not(san))]
#[no_mangle]
pub unsafe extern "C" fn malloc(n: libc::size_t) -> *mut libc::c_void {
    crate::jitter::point();
    let p = __libc_malloc(n);
    if n >= BIG && !p.is_null() && on() {
        with(|s| {
            s.mapped += 1;
            s.next += 1;
            s.live.push((p as usize, n, s.next));
        });
    }
    p
}

#[cfg(not(san))]
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut libc::c_void) {
    crate::jitter::point();
    if !p.is_null() && on() {
        let n = malloc_usable_size(p);
        if n >= BIG {
            unmapping(p as usize, n);
        }
    }
    __libc_free(p)
}
