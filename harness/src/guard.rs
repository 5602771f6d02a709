//! C07: guarded memory, probed from outside after every step of histories of borrows.
use crate::memhook::peek;
use crate::util::*;
use runtime::memories::buffer::{Buffer, Ref, RefMut};
use runtime::Bytes;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier};
use zeroize::Zeroize;

pub struct Pipe(i32, i32);

impl Pipe {
    pub fn new() -> Self {
        let mut f = [0; 2];
        assert_eq!(unsafe { libc::pipe2(f.as_mut_ptr(), libc::O_NONBLOCK | libc::O_CLOEXEC) }, 0);
        Pipe(f[0], f[1])
    }
    /// Whether the kernel can read the byte at an address with the rights of this process.
    pub fn readable(&self, a: usize) -> bool {
        unsafe {
            let n = libc::syscall(libc::SYS_write, self.1, a, 1usize);
            if n == 1 {
                let mut b = 0u8;
                libc::syscall(libc::SYS_read, self.0, &mut b, 1usize);
            }
            n == 1
        }
    }
    /// Whether the byte at an address can be written; it is written with what it holds.
    pub fn writable(&self, a: usize) -> bool {
        let Some(v) = peek(a, 1) else { return false };
        unsafe {
            assert_eq!(libc::syscall(libc::SYS_write, self.1, v.as_ptr(), 1usize), 1);
            let n = libc::syscall(libc::SYS_read, self.0, a, 1usize);
            if n != 1 {
                let mut b = 0u8;
                libc::syscall(libc::SYS_read, self.0, &mut b, 1usize);
            }
            n == 1
        }
    }
}

impl Drop for Pipe {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.0);
            libc::close(self.1);
        }
    }
}

/// The flags of the mapping at an address.
fn flags(a: usize) -> Option<String> {
    let s = std::fs::read_to_string("/proc/self/smaps").ok()?;
    let mut inside = false;
    for l in s.lines() {
        if let Some((r, _)) = l.split_once(' ') {
            if let Some((lo, hi)) = r.split_once('-') {
                if let (Ok(lo), Ok(hi)) = (usize::from_str_radix(lo, 16), usize::from_str_radix(hi, 16)) {
                    inside = (lo..hi).contains(&a);
                }
            }
        }
        if inside && l.starts_with("VmFlags:") {
            return Some(l[8..].to_string());
        }
    }
    None
}

/// Whether this process may lock memory at all.
fn may_lock() -> bool {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, 3, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ok = libc::mlock(p, 4096) == 0;
        libc::munmap(p, 4096);
        ok
    }
}

trait Elem: Bytes + Copy + PartialEq + std::fmt::Debug + 'static {
    fn any(rng: &mut Rng) -> Self;
}
macro_rules! elems {
    ($($t:ty => $e:expr;)*) => {$(impl Elem for $t { fn any(rng: &mut Rng) -> Self { let f: fn(&mut Rng) -> $t = $e; f(rng) } })*};
}
elems! {
    u8 => |r| r.u64() as u8;
    u16 => |r| r.u64() as u16;
    u64 => |r| r.u64();
    u128 => |r| (r.u64() as u128) << 64 | r.u64() as u128;
    [u8; 32] => |r| r.array();
    [u8; 7] => |r| r.array();
    [u32; 5] => |r| std::array::from_fn(|_| r.u64() as u32);
}

struct Slot<T: Elem> {
    refs: Vec<Ref<'static, T>>,
    mutref: Option<RefMut<'static, T>>,
    buf: Option<Box<Buffer<T>>>,
    want: Vec<T>,
    addr: usize,
    zeroized: bool,
}

impl<T: Elem> Slot<T> {
    fn new(buf: Buffer<T>, want: Vec<T>) -> Self {
        let buf = Box::new(buf);
        let addr = buf.borrow().as_ptr() as usize;
        Slot { refs: vec![], mutref: None, buf: Some(buf), want, addr, zeroized: false }
    }
    fn buf(&self) -> &'static Buffer<T> {
        // the box outlives the borrows held in the slot
        unsafe { &*(&**self.buf.as_ref().unwrap() as *const Buffer<T>) }
    }
    fn buf_mut(&mut self) -> &'static mut Buffer<T> {
        assert!(self.refs.is_empty() && self.mutref.is_none());
        unsafe { &mut *(&mut **self.buf.as_mut().unwrap() as *mut Buffer<T>) }
    }
    fn open(&self) -> &'static str {
        if self.mutref.is_some() {
            "exclusive"
        } else if !self.refs.is_empty() {
            "shared"
        } else {
            "closed"
        }
    }
    fn bytes(&self) -> usize {
        self.want.len() * std::mem::size_of::<T>()
    }

    /// The protection as seen from outside against the borrows that are held.
    fn probe(&self, p: &Pipe, rng: &mut Rng) -> Result<(), String> {
        let n = self.bytes();
        if n == 0 || self.zeroized {
            return Ok(());
        }
        let open = self.open();
        let mut at = vec![0, n - 1];
        at.push(rng.below(n));
        for o in at {
            let (r, w) = (p.readable(self.addr + o), p.writable(self.addr + o));
            let want = (open != "closed", open == "exclusive");
            if (r, w) != want {
                return Err(format!("byte {o} of {n} of {open} memory: readable {r}, writable {w}"));
            }
        }
        for o in [n, n + rng.below(4096), n + 4095] {
            if p.readable(self.addr + o) || p.writable(self.addr + o) {
                return Err(format!("accessible {} bytes past the end of {n} bytes ({open})", o - n + 1));
            }
        }
        // the page in front of the pages with data
        let front = (self.addr & !4095) - 4096;
        let front = if (self.addr & 4095) < 16 { front - 4096 } else { front };
        if p.writable(front) || p.readable(front) {
            return Err(format!("accessible in front of {n} bytes ({open})"));
        }
        Ok(())
    }
    fn content(&self) -> Result<(), String> {
        if self.zeroized {
            return Ok(());
        }
        for r in &self.refs {
            if **r != self.want[..] {
                return Err("a shared borrow shows other content".into());
            }
        }
        if let Some(m) = &self.mutref {
            if **m != self.want[..] {
                return Err("an exclusive borrow shows other content".into());
            }
        }
        let raw = peek(self.addr, self.bytes()).ok_or("the memory is gone")?;
        let want: Vec<u8> = self.want.iter().flat_map(|x| unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }.to_vec()).collect();
        if raw != want {
            return Err("the memory holds other content".into());
        }
        Ok(())
    }
}

fn size(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => *rng.pick(&[15, 16, 17, 4080, 4095, 4096, 4097, 8192]),
        3 => rng.range(1, 5000),
        _ => rng.range(1, 70),
    }
}

fn history<T: Elem>(ctx: &Ctx, rng: &mut Rng, locks: bool) -> Result<(), String>
where
    Buffer<T>: Clone + PartialEq,
{
    let p = Pipe::new();
    let ty = std::any::type_name::<T>();
    let mut slots: Vec<Slot<T>> = vec![];
    let steps = rng.range(20, 80);
    for _ in 0..steps {
        let what;
        if slots.len() < 4 && (slots.is_empty() || rng.chance(1, 8)) {
            let n = size(rng) / if std::mem::size_of::<T>() > 16 { 16 } else { 1 };
            let want: Vec<T> = (0..n).map(|_| T::any(rng)).collect();
            slots.push(Slot::new(Buffer::alloc(&want, n), want));
            what = "alloc";
        } else {
            let k = rng.below(slots.len());
            let s = &mut slots[k];
            match rng.below(15) {
                0..=3 if s.mutref.is_none() => {
                    let b = s.buf().borrow();
                    s.refs.push(b);
                    what = "borrow";
                }
                4 if !s.refs.is_empty() => {
                    let r = rng.pick(&s.refs).clone();
                    s.refs.push(r);
                    what = "clone of a borrow";
                }
                5..=7 if !s.refs.is_empty() => {
                    let i = rng.below(s.refs.len());
                    s.refs.swap_remove(i);
                    what = "return of a borrow";
                }
                8 if s.refs.is_empty() && s.mutref.is_none() => {
                    let b = s.buf_mut();
                    s.mutref = Some(b.borrow_mut());
                    what = "exclusive borrow";
                }
                9..=10 if s.mutref.is_some() => {
                    if !s.want.is_empty() && !s.zeroized {
                        let (i, x) = (rng.below(s.want.len()), T::any(rng));
                        s.want[i] = x;
                        s.mutref.as_mut().unwrap()[i] = x;
                    }
                    if rng.chance(1, 2) {
                        s.mutref = None;
                    }
                    what = "write";
                }
                11 if s.mutref.is_none() => {
                    let c = s.buf().clone();
                    let (want, z) = (if s.zeroized { vec![] } else { s.want.clone() }, s.zeroized);
                    let mut n = Slot::new(c, want);
                    n.zeroized = z;
                    if n.addr == s.addr && n.bytes() > 0 {
                        return Err("a clone is in the same place".into());
                    }
                    if slots.len() < 5 {
                        slots.push(n);
                    } else {
                        slots[k] = n;
                    }
                    what = "clone";
                }
                12 => {
                    // comparing compares the contents
                    let o = rng.below(slots.len());
                    let (a, b) = (&slots[k], &slots[o]);
                    if a.mutref.is_none() && b.mutref.is_none() {
                        let same = a.want == b.want && a.zeroized == b.zeroized || a.zeroized && b.zeroized || (a.zeroized && b.want.is_empty()) || (b.zeroized && a.want.is_empty());
                        if (a.buf() == b.buf()) != same || (b.buf() == a.buf()) != same {
                            return Err(format!("comparing {} with {} elements: expected {same}", a.want.len(), b.want.len()));
                        }
                        if let (Some(x), Some(y)) = (a.refs.first(), b.refs.first()) {
                            if (x == y) != same {
                                return Err(format!("comparing borrows: expected {same}"));
                            }
                        }
                        // one element different
                        if !a.want.is_empty() && !a.zeroized {
                            let mut v = a.want.clone();
                            let i = rng.below(v.len());
                            let x = T::any(rng);
                            let same = v[i] == x;
                            v[i] = x;
                            let mut d = Buffer::alloc(&v, v.len());
                            if (a.buf() == &d) != same {
                                return Err(format!("comparing with a change in element {i} of {}", v.len()));
                            }
                            if a.refs.is_empty() || !same {
                                let m = d.borrow_mut();
                                if let Some(x) = a.refs.first() {
                                    if (*x == m) != same || (m == *x) != same {
                                        return Err("comparing a shared with an exclusive borrow".into());
                                    }
                                }
                            }
                        }
                    }
                    what = "compare";
                }
                13 if s.refs.is_empty() && s.mutref.is_none() => {
                    if rng.chance(1, 2) {
                        s.buf_mut().zeroize();
                        s.zeroized = true;
                        if let Some(v) = peek(s.addr, s.bytes()) {
                            if v.iter().any(|b| *b != 0) {
                                return Err("zeroized memory still holds data".into());
                            }
                        }
                        if !s.buf().borrow().is_empty() {
                            return Err("zeroized memory hands out data".into());
                        }
                        what = "zeroize";
                    } else {
                        slots.swap_remove(k);
                        what = "drop";
                    }
                }
                _ if s.mutref.is_none() && !s.zeroized && rng.chance(1, 12) => {
                    // up to the limit of the count, and one too many
                    while s.refs.len() < 255 {
                        let b = s.buf().borrow();
                        s.refs.push(b);
                    }
                    let b = s.buf();
                    if guarded(|| drop(b.borrow())).is_ok() {
                        // a wider count would be fine too
                        ctx.rep.count("borrows beyond 255", 1);
                    }
                    s.probe(&p, rng)?;
                    let keep = rng.below(3);
                    s.refs.truncate(keep);
                    what = "255 borrows";
                }
                _ if s.mutref.is_none() => {
                    // a panic while borrowing
                    let b = s.buf();
                    let _ = guarded(|| {
                        let r = b.borrow();
                        let _r2 = r.clone();
                        if r.len() < usize::MAX {
                            panic!("while borrowing");
                        }
                    });
                    what = "panic while borrowed";
                }
                _ => continue,
            }
        }
        for s in &slots {
            s.probe(&p, rng).map_err(|e| format!("after {what} ({ty}): {e}"))?;
            s.content().map_err(|e| format!("after {what} ({ty}): {e}"))?;
            ctx.rep.count("probes of protection", 1);
        }
        if locks && rng.chance(1, 40) {
            for s in &slots {
                if s.bytes() == 0 || s.zeroized {
                    continue;
                }
                let f = flags(s.addr).ok_or("no mapping")?;
                if !f.contains(" lo") || !f.contains(" dd") {
                    return Err(format!("the mapping of {} bytes has the flags {f}", s.bytes()));
                }
                let e = flags(s.addr + s.bytes() - 1).ok_or("no mapping")?;
                if !e.contains(" lo") || !e.contains(" dd") {
                    return Err(format!("the end of the mapping of {} bytes has the flags {e}", s.bytes()));
                }
                ctx.rep.count("locked and undumpable mappings seen", 1);
            }
        }
        let st: Vec<String> = slots.iter().map(|s| format!("{}{}{}{}", s.bytes(), s.refs.len(), s.mutref.is_some(), s.zeroized)).collect();
        ctx.rep.eval(Some(fnv(format!("{what}{ty}{st:?}").as_bytes())));
        ctx.rep.seen("step and protection", fnv(format!("{what}{ty}{:?}", slots.iter().map(|s| s.open()).collect::<Vec<_>>()).as_bytes()));
    }
    // a panic while the memory itself is unwound
    if let Some(mut s) = slots.pop() {
        s.refs.clear();
        s.mutref = None;
        let b = s.buf.take().unwrap();
        let _ = guarded(move || {
            let r = b.borrow();
            if r.len() < usize::MAX {
                panic!("with the memory");
            }
        });
    }
    Ok(())
}

/// One buffer shared by many threads.
fn shared(ctx: &Ctx, rng: &mut Rng) -> Result<(), String> {
    let n = size(rng).max(1);
    let want: Vec<u8> = rng.bytes(n);
    let buf = Arc::new(Buffer::alloc(&want, n));
    let addr = buf.borrow().as_ptr() as usize;
    let p = Pipe::new();
    let threads = rng.range(2, 6);
    let rounds = rng.range(3, 12);
    let barrier = Arc::new(Barrier::new(threads + 1));
    let bad = Arc::new(std::sync::Mutex::new(None::<String>));
    let go = Arc::new(AtomicBool::new(true));
    let opens = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (buf, want, barrier, bad, opens) = (buf.clone(), want.clone(), barrier.clone(), bad.clone(), opens.clone());
            let mut rng = Rng::new(rng.u64(), t as u64);
            std::thread::spawn(move || {
                for _ in 0..rounds {
                    barrier.wait();
                    let r = guarded(|| -> Result<(), String> {
                        for _ in 0..rng.range(5, 60) {
                            match rng.below(6) {
                                0 => {
                                    let c = (*buf).clone();
                                    if *c.borrow() != want[..] {
                                        return Err("a clone has other content".into());
                                    }
                                }
                                1 => {
                                    if !(*buf == *buf) {
                                        return Err("it differs from itself".into());
                                    }
                                }
                                2 => {
                                    let a = buf.borrow();
                                    let b = a.clone();
                                    drop(a);
                                    std::thread::yield_now();
                                    if *b != want[..] {
                                        return Err("a borrow shows other content".into());
                                    }
                                }
                                _ => {
                                    let refs: Vec<_> = (0..rng.range(1, 5)).map(|_| buf.borrow()).collect();
                                    for r in &refs {
                                        if **r != want[..] {
                                            return Err("a borrow shows other content".into());
                                        }
                                    }
                                }
                            }
                            opens.fetch_add(1, Ordering::Relaxed);
                        }
                        Ok(())
                    });
                    if let Err(e) = r.and_then(|r| r) {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                    barrier.wait();
                }
            })
        })
        .collect();
    let mut res = Ok(());
    for _ in 0..rounds {
        let held = rng.chance(1, 2).then(|| buf.borrow());
        barrier.wait();
        if let Some(h) = &held {
            // as long as this one is held, others only come and go
            for _ in 0..20 {
                if **h != want[..] || !p.readable(addr) || p.writable(addr + n - 1) {
                    res = Err("held by one thread, the memory is not open for reading only".to_string());
                }
            }
        }
        barrier.wait();
        drop(held);
        // all borrows have ended
        if p.readable(addr) || p.readable(addr + n - 1) || p.writable(addr) {
            res = Err("open after the last borrow of all threads has ended".into());
        }
        if peek(addr, n) != Some(want.clone()) {
            res = Err("the content changed".into());
        }
        ctx.rep.eval(Some(fnv(format!("{n}{threads}{rounds}").as_bytes())));
    }
    let _ = go;
    for h in hs {
        let _ = h.join();
    }
    ctx.rep.count("concurrent borrows", opens.load(Ordering::Relaxed) as u64);
    if let Some(e) = bad.lock().unwrap().take() {
        return Err(e);
    }
    res?;
    let mut b = Arc::try_unwrap(buf).map_err(|_| "still shared")?;
    // exclusive after all: the count has not drifted
    {
        let mut m = b.borrow_mut();
        m[0] ^= 1;
        if !p.writable(addr) {
            return Err("an exclusive borrow is not writable".into());
        }
    }
    if p.readable(addr) {
        return Err("open after an exclusive borrow".into());
    }
    Ok(())
}

pub fn guard(ctx: &Ctx) {
    let n = ctx.n(2400, 100_000);
    let locks = may_lock();
    if !locks {
        ctx.rep.note("this process may not lock memory: locking was not checked");
    }
    ctx.cases("guard", n, 1, |ctx, i, rng| {
        let r = match rng.below(10) {
            0..=2 => history::<u8>(ctx, rng, locks),
            3 => history::<u16>(ctx, rng, locks),
            4 => history::<u64>(ctx, rng, locks),
            5 => history::<u128>(ctx, rng, locks),
            6 => history::<[u8; 32]>(ctx, rng, locks),
            7 => history::<[u8; 7]>(ctx, rng, locks),
            8 => history::<[u32; 5]>(ctx, rng, locks),
            _ => shared(ctx, rng),
        };
        if let Err(e) = r {
            ctx.rep.violation("guard", json!({"case": i, "what": e}));
        }
    });
}
