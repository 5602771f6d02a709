#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints)]
//! The file operations of this process, observed and, where planned, failed or cut off by a death of the process.
//!
//! The process defines the C library's entry points itself; while nothing is armed they only pass the call on.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Plan {
    Watch,
    /// the operation with this number, and with `sticky` all later ones of its kind, fails
    Fail { at: usize, errno: i32, sticky: bool },
    /// a write takes only part of its data
    Short { at: usize, keep: usize },
    /// the process dies before, in (after `keep` bytes of a write) or after an operation
    Die { at: usize, after: bool, keep: usize },
}

#[derive(Clone, Debug)]
pub struct Op {
    pub kind: &'static str,
    pub what: String,
    pub len: usize,
    pub ret: i64,
}

#[derive(Default)]
struct State {
    plan: Option<Plan>,
    n: usize,
    log: Vec<Op>,
    payload: bool,
    data: Vec<Vec<u8>>,
    /// bytes written and not yet flushed, per file
    dirty: BTreeMap<(u64, u64), usize>,
    sync_fds: BTreeMap<i32, bool>,
    bad: Vec<String>,
    sticky: Option<(&'static str, i32)>,
}

/// Called after every observed operation; its own operations are not observed.
pub static HOOK: Mutex<Option<Box<dyn FnMut(&Op) + Send>>> = Mutex::new(None);
static ARMED: AtomicBool = AtomicBool::new(false);
static STATE: Mutex<Option<State>> = Mutex::new(None);

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

pub struct Seen {
    pub log: Vec<Op>,
    /// what was passed to write calls, names of files included
    pub data: Vec<Vec<u8>>,
    /// places where a file got its final name, or was left, with data not flushed
    pub bad: Vec<String>,
    dirty: BTreeMap<(u64, u64), usize>,
}

impl Seen {
    /// Bytes of the file at `path` that were written and not flushed.
    pub fn unflushed(&self, path: &std::path::Path) -> usize {
        use std::os::unix::fs::MetadataExt;
        std::fs::metadata(path).map_or(0, |m| self.dirty.get(&(m.dev(), m.ino())).copied().unwrap_or(0))
    }
}

/// Runs `f` with all file operations observed. With `payload`, keeps what is written.
pub fn observe<T>(plan: Plan, payload: bool, f: impl FnOnce() -> T) -> (T, Seen) {
    *STATE.lock().unwrap() = Some(State { plan: Some(plan), payload, ..Default::default() });
    ARMED.store(true, Ordering::SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.store(false, Ordering::SeqCst);
    let s = STATE.lock().unwrap().take().unwrap();
    let seen = Seen { log: s.log, data: s.data, bad: s.bad, dirty: s.dirty };
    match r {
        Ok(r) => (r, seen),
        Err(p) => std::panic::resume_unwind(p),
    }
}

enum Act {
    Go,
    Fail(i32),
    Keep(usize),
    KeepDie(usize),
    GoDie,
}

fn die() -> ! {
    unsafe {
        libc::syscall(libc::SYS_exit_group, 77);
    }
    loop {}
}

fn set_errno(e: i32) -> i64 {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn armed() -> bool {
    ARMED.load(Ordering::Relaxed) && !INSIDE.try_with(|i| i.get()).unwrap_or(true)
}

unsafe fn key(fd: i32) -> Option<((u64, u64), bool)> {
    let mut st: libc::stat = std::mem::zeroed();
    if libc::syscall(libc::SYS_fstat, fd, &mut st as *mut _) != 0 {
        return None;
    }
    Some(((st.st_dev, st.st_ino), st.st_mode & libc::S_IFMT == libc::S_IFREG))
}

unsafe fn key_at(dir: i32, path: *const libc::c_char) -> Option<(u64, u64)> {
    let mut st: libc::stat = std::mem::zeroed();
    if libc::syscall(libc::SYS_newfstatat, dir, path, &mut st as *mut _, 0) != 0 {
        return None;
    }
    Some((st.st_dev, st.st_ino))
}

unsafe fn name(p: *const libc::c_char) -> String {
    if p.is_null() {
        return "null".into();
    }
    CStr::from_ptr(p).to_string_lossy().into_owned()
}

/// One operation: decides what happens to it, does it, and notes it.
fn op(kind: &'static str, what: String, len: usize, data: &[&[u8]], go: &mut dyn FnMut(Option<usize>) -> i64, after: &mut dyn FnMut(&mut State2, i64)) -> i64 {
    INSIDE.with(|i| i.set(true));
    let act = {
        let mut g = STATE.lock().unwrap();
        match g.as_mut() {
            None => Act::Go,
            Some(s) => {
                let me = s.n;
                s.n += 1;
                if s.payload {
                    s.data.push(what.as_bytes().to_vec());
                    s.data.extend(data.iter().map(|d| d.to_vec()));
                }
                match s.sticky {
                    Some((k, e)) if k == kind => Act::Fail(e),
                    _ => match s.plan {
                        Some(Plan::Fail { at, errno, sticky }) if at == me => {
                            if sticky {
                                s.sticky = Some((kind, errno));
                            }
                            Act::Fail(errno)
                        }
                        Some(Plan::Short { at, keep }) if at == me && keep < len => Act::Keep(keep),
                        Some(Plan::Die { at, after: false, keep }) if at == me => Act::KeepDie(keep.min(len)),
                        Some(Plan::Die { at, after: true, .. }) if at == me => Act::GoDie,
                        _ => Act::Go,
                    },
                }
            }
        }
    };
    let r = match act {
        Act::Go => go(None),
        Act::Fail(e) => {
            if kind == "close" {
                go(None);
            }
            set_errno(e)
        }
        Act::Keep(k) => go(Some(k)),
        Act::KeepDie(k) => {
            if k > 0 {
                go(Some(k));
            }
            die()
        }
        Act::GoDie => {
            go(None);
            die()
        }
    };
    let e = unsafe { *libc::__errno_location() };
    let o = Op { kind, what, len, ret: r };
    if let Some(s) = STATE.lock().unwrap().as_mut() {
        s.log.push(o.clone());
        after(&mut State2 { s }, r);
    }
    if let Some(h) = HOOK.lock().unwrap().as_mut() {
        h(&o);
    }
    unsafe { *libc::__errno_location() = e };
    INSIDE.with(|i| i.set(false));
    r
}

struct State2<'a> {
    s: &'a mut State,
}

fn none(_: &mut State2, _: i64) {}

unsafe fn do_write(kind: &'static str, fd: i32, data: &[&[u8]], go: &mut dyn FnMut(Option<usize>) -> i64) -> i64 {
    let k = key(fd);
    if fd <= 2 || !matches!(k, Some((_, true))) {
        if let Some(s) = STATE.lock().unwrap().as_mut().filter(|s| s.payload) {
            s.data.extend(data.iter().map(|d| d.to_vec()));
        }
        return go(None);
    }
    let k = k.unwrap().0;
    let len = data.iter().map(|d| d.len()).sum();
    op(kind, format!("fd {fd}"), len, data, go, &mut |s, r| {
        if r > 0 && !s.s.sync_fds.contains_key(&fd) {
            *s.s.dirty.entry(k).or_default() += r as usize;
        }
    })
}

unsafe fn do_sync(kind: &'static str, fd: i32, nr: libc::c_long) -> i64 {
    let k = key(fd);
    op(kind, format!("fd {fd}"), 0, &[], &mut |_| libc::syscall(nr, fd), &mut |s, r| {
        if let (0, Some((k, _))) = (r, k) {
            s.s.dirty.remove(&k);
        }
    })
}

unsafe fn do_open(kind: &'static str, dir: i32, path: *const libc::c_char, flags: i32, mode: libc::c_uint) -> i64 {
    op(kind, name(path), 0, &[], &mut |_| libc::syscall(libc::SYS_openat, dir, path, flags, mode), &mut |s, r| {
        if r >= 0 {
            s.s.sync_fds.remove(&(r as i32));
            if flags & (libc::O_SYNC | libc::O_DSYNC) != 0 {
                s.s.sync_fds.insert(r as i32, true);
            }
        }
        if r >= 0 && flags & libc::O_EXCL != 0 {
            // a new file, whatever had its number before
            if let Some((k, _)) = unsafe { key(r as i32) } {
                s.s.dirty.remove(&k);
            }
        }
        if r >= 0 && flags & libc::O_TRUNC != 0 {
            if let Some((k, _)) = unsafe { key(r as i32) } {
                *s.s.dirty.entry(k).or_default() += 1;
            }
        }
    })
}

unsafe fn do_rename(kind: &'static str, d1: i32, a: *const libc::c_char, d2: i32, b: *const libc::c_char, go: &mut dyn FnMut(Option<usize>) -> i64) -> i64 {
    let k = key_at(d1, a);
    let (na, nb) = (name(a), name(b));
    let _ = d2;
    op(kind, format!("{na} -> {nb}"), 0, &[], go, &mut |s, r| {
        if let (0, Some(k)) = (r, k) {
            if let Some(n) = s.s.dirty.get(&k) {
                s.s.bad.push(format!("{kind} {na} -> {nb}: {n} bytes not flushed"));
            }
        }
    })
}

macro_rules! entry {
    ($(fn $name:ident($($a:ident: $t:ty),*) -> $r:ty { plain: $plain:expr; watched: $w:expr; })*) => {$(
        #[cfg_attr(not(san), no_mangle)]
        pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
            if !armed() {
                return ($plain) as $r;
            }
            ($w) as $r
        }
    )*};
}

type P = *const libc::c_char;
use libc::{c_int, c_uint, off_t, size_t, syscall, AT_FDCWD};

entry! {
    fn open(p: P, f: c_int, m: c_uint) -> c_int {
        plain: syscall(libc::SYS_openat, AT_FDCWD, p, f, m);
        watched: do_open("open", AT_FDCWD, p, f, m);
    }
    fn open64(p: P, f: c_int, m: c_uint) -> c_int {
        plain: syscall(libc::SYS_openat, AT_FDCWD, p, f, m);
        watched: do_open("open", AT_FDCWD, p, f, m);
    }
    fn openat(d: c_int, p: P, f: c_int, m: c_uint) -> c_int {
        plain: syscall(libc::SYS_openat, d, p, f, m);
        watched: do_open("open", d, p, f, m);
    }
    fn openat64(d: c_int, p: P, f: c_int, m: c_uint) -> c_int {
        plain: syscall(libc::SYS_openat, d, p, f, m);
        watched: do_open("open", d, p, f, m);
    }
    fn write(fd: c_int, b: *const u8, n: size_t) -> isize {
        plain: syscall(libc::SYS_write, fd, b, n);
        watched: do_write("write", fd, &[std::slice::from_raw_parts(b, n)], &mut |k| syscall(libc::SYS_write, fd, b, k.unwrap_or(n)));
    }
    fn pwrite64(fd: c_int, b: *const u8, n: size_t, o: off_t) -> isize {
        plain: syscall(libc::SYS_pwrite64, fd, b, n, o);
        watched: do_write("write", fd, &[std::slice::from_raw_parts(b, n)], &mut |k| syscall(libc::SYS_pwrite64, fd, b, k.unwrap_or(n), o));
    }
    fn pwrite(fd: c_int, b: *const u8, n: size_t, o: off_t) -> isize {
        plain: syscall(libc::SYS_pwrite64, fd, b, n, o);
        watched: do_write("write", fd, &[std::slice::from_raw_parts(b, n)], &mut |k| syscall(libc::SYS_pwrite64, fd, b, k.unwrap_or(n), o));
    }
    fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> isize {
        plain: syscall(libc::SYS_writev, fd, v, n);
        watched: {
            let parts: Vec<&[u8]> = std::slice::from_raw_parts(v, n as usize).iter().map(|x| std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len)).collect();
            let all = parts.concat();
            do_write("write", fd, &parts, &mut |k| match k {
                None => syscall(libc::SYS_writev, fd, v, n),
                Some(k) => syscall(libc::SYS_write, fd, all.as_ptr(), k),
            })
        };
    }
    fn sendfile64(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> isize {
        plain: syscall(libc::SYS_sendfile, o, i, off, n);
        watched: do_write("sendfile", o, &[], &mut |k| syscall(libc::SYS_sendfile, o, i, off, k.unwrap_or(n)));
    }
    fn sendfile(o: c_int, i: c_int, off: *mut off_t, n: size_t) -> isize {
        plain: syscall(libc::SYS_sendfile, o, i, off, n);
        watched: do_write("sendfile", o, &[], &mut |k| syscall(libc::SYS_sendfile, o, i, off, k.unwrap_or(n)));
    }
    fn copy_file_range(i: c_int, a: *mut off_t, o: c_int, b: *mut off_t, n: size_t, f: c_uint) -> isize {
        plain: syscall(libc::SYS_copy_file_range, i, a, o, b, n, f);
        watched: {
            let mut d = vec![0u8; 1 << 16];
            let k = syscall(libc::SYS_pread64, i, d.as_mut_ptr(), d.len(), 0 as off_t);
            d.truncate(k.max(0) as usize);
            do_write("copy", o, &[&d], &mut |k| syscall(libc::SYS_copy_file_range, i, a, o, b, k.unwrap_or(n), f))
        };
    }
    fn fsync(fd: c_int) -> c_int {
        plain: syscall(libc::SYS_fsync, fd);
        watched: do_sync("fsync", fd, libc::SYS_fsync);
    }
    fn fdatasync(fd: c_int) -> c_int {
        plain: syscall(libc::SYS_fdatasync, fd);
        watched: do_sync("fsync", fd, libc::SYS_fdatasync);
    }
    fn close(fd: c_int) -> c_int {
        plain: syscall(libc::SYS_close, fd);
        watched: op("close", format!("fd {fd}"), 0, &[], &mut |_| syscall(libc::SYS_close, fd), &mut none);
    }
    fn ftruncate64(fd: c_int, n: off_t) -> c_int {
        plain: syscall(libc::SYS_ftruncate, fd, n);
        watched: { let k = key(fd); op("truncate", format!("fd {fd} to {n}"), 0, &[], &mut |_| syscall(libc::SYS_ftruncate, fd, n),
            &mut |s, r| if let (0, Some((k, _))) = (r, k) { *s.s.dirty.entry(k).or_default() += 1 }) };
    }
    fn rename(a: P, b: P) -> c_int {
        plain: syscall(libc::SYS_rename, a, b);
        watched: do_rename("rename", AT_FDCWD, a, AT_FDCWD, b, &mut |_| syscall(libc::SYS_rename, a, b));
    }
    fn renameat(d: c_int, a: P, e: c_int, b: P) -> c_int {
        plain: syscall(libc::SYS_renameat, d, a, e, b);
        watched: do_rename("rename", d, a, e, b, &mut |_| syscall(libc::SYS_renameat, d, a, e, b));
    }
    fn renameat2(d: c_int, a: P, e: c_int, b: P, f: c_uint) -> c_int {
        plain: syscall(libc::SYS_renameat2, d, a, e, b, f);
        watched: do_rename("rename", d, a, e, b, &mut |_| syscall(libc::SYS_renameat2, d, a, e, b, f));
    }
    fn link(a: P, b: P) -> c_int {
        plain: syscall(libc::SYS_link, a, b);
        watched: do_rename("link", AT_FDCWD, a, AT_FDCWD, b, &mut |_| syscall(libc::SYS_link, a, b));
    }
    fn linkat(d: c_int, a: P, e: c_int, b: P, f: c_int) -> c_int {
        plain: syscall(libc::SYS_linkat, d, a, e, b, f);
        watched: do_rename("link", d, a, e, b, &mut |_| syscall(libc::SYS_linkat, d, a, e, b, f));
    }
    fn unlink(a: P) -> c_int {
        plain: syscall(libc::SYS_unlink, a);
        watched: op("unlink", name(a), 0, &[], &mut |_| syscall(libc::SYS_unlink, a), &mut none);
    }
    fn unlinkat(d: c_int, a: P, f: c_int) -> c_int {
        plain: syscall(libc::SYS_unlinkat, d, a, f);
        watched: op("unlink", name(a), 0, &[], &mut |_| syscall(libc::SYS_unlinkat, d, a, f), &mut none);
    }
    fn mkdir(a: P, m: c_uint) -> c_int {
        plain: syscall(libc::SYS_mkdir, a, m);
        watched: op("mkdir", name(a), 0, &[], &mut |_| syscall(libc::SYS_mkdir, a, m), &mut none);
    }
    fn fchmod(fd: c_int, m: c_uint) -> c_int {
        plain: syscall(libc::SYS_fchmod, fd, m);
        watched: op("chmod", format!("fd {fd}"), 0, &[], &mut |_| syscall(libc::SYS_fchmod, fd, m), &mut none);
    }
    fn chmod(a: P, m: c_uint) -> c_int {
        plain: syscall(libc::SYS_chmod, a, m);
        watched: op("chmod", name(a), 0, &[], &mut |_| syscall(libc::SYS_chmod, a, m), &mut none);
    }
}
