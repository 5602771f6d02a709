//! Deterministic randomness, reporting and small helpers shared by the monitors.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// xoshiro256**, seeded through splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut x = seed.wrapping_mul(0xD1342543DE82EF95) ^ stream.wrapping_mul(0xA24BAED4963EE407) ^ 0x5DEECE66D;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut x);
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 24 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..24]), b.len())
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub scratch: std::path::PathBuf,
    pub started: Instant,
    pub budget: Duration,
    pub out: String,
    /// This process does the cases whose number is `.0` modulo `.1`.
    pub shard: (usize, usize),
    pub args: Vec<String>,
    pub rep: Report,
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn n(&self, q: usize, t: usize) -> usize {
        if self.quick() {
            q
        } else {
            t
        }
    }
    pub fn time_left(&self) -> bool {
        self.started.elapsed() < self.budget
    }
    pub fn rng(&self, stream: u64) -> Rng {
        Rng::new(self.seed ^ fnv(self.prop.as_bytes()), stream)
    }
    pub fn arg(&self, i: usize) -> Option<&str> {
        self.args.get(i).map(|s| s.as_str())
    }

    /// Runs `n` independent cases over `threads` threads. Stops at the time budget or after enough violations.
    /// A panic that escapes a case is reported as a violation of the property.
    pub fn cases<F>(&self, what: &str, n: usize, threads: usize, f: F)
    where
        F: Fn(&Ctx, u64, &mut Rng) + Sync,
    {
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let (shard, shards) = self.shard;
        let total = n;
        let n = (n + shards - 1 - shard) / shards;
        // One thread per process where the cases are spread over processes.
        let threads = if shards > 1 { 1 } else { threads };
        std::thread::scope(|s| {
            for _ in 0..threads.min(n.max(1)) {
                s.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let (k, i) = (i, i * shards + shard);
                    if k >= n || i >= total || !self.time_left() || self.rep.violated() >= 5 {
                        return;
                    }
                    let stream = fnv(what.as_bytes()).wrapping_add(i as u64);
                    let mut rng = self.rng(stream);
                    label(&format!("{what} case {i}"));
                    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self, i as u64, &mut rng))) {
                        let msg = panic_msg(&*p);
                        self.rep.violation(
                            &format!("{what}/panic"),
                            json!({"case": i, "panic": msg, "at": last_panic()}),
                        );
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                });
            }
        });
        self.rep.count(&format!("cases:{what}"), done.load(Ordering::SeqCst) as u64);
        if next.load(Ordering::SeqCst) < n && self.rep.violated() == 0 {
            self.rep.count(&format!("cases-cut-by-time:{what}"), (n - next.load(Ordering::SeqCst).min(n)) as u64);
        }
    }
}

thread_local! {
    static LABEL: std::cell::Cell<([u8; 96], usize)> = const { std::cell::Cell::new(([0; 96], 0)) };
}

/// Names what the thread is doing, for the report of a crash.
pub fn label(s: &str) {
    let mut b = [0; 96];
    let n = s.len().min(96);
    b[..n].copy_from_slice(&s.as_bytes()[..n]);
    LABEL.with(|l| l.set((b, n)));
}

extern "C" fn on_crash(sig: libc::c_int) {
    unsafe {
        let (b, n) = LABEL.with(|l| l.get());
        let m = b"\nMON-CRASH in ";
        libc::write(2, m.as_ptr().cast(), m.len());
        libc::write(2, b.as_ptr().cast(), n);
        libc::write(2, b"\n".as_ptr().cast(), 1);
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

/// On a fatal signal, says which case the thread was in.
pub fn install_crash_handler() {
    if std::env::var_os("MON_NO_CRASH_HANDLER").is_some() {
        return;
    }
    for s in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
        unsafe { libc::signal(s, on_crash as *const () as usize) };
    }
}

pub fn panic_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|s| s.clone()).unwrap_or_default()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = info.to_string();
        }
        if std::env::var_os("MON_VERBOSE").is_some() {
            eprintln!("{info}");
        }
    }));
}

/// `f`, or the panic message if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| format!("{} [{}]", panic_msg(&*p), last_panic()))
}

#[derive(Default)]
struct Inner {
    counts: BTreeMap<String, u64>,
    distinct: BTreeMap<String, HashSet<u64>>,
    samples: Vec<Value>,
    violations: Vec<Value>,
    notes: Vec<String>,
}

#[derive(Clone, Default)]
pub struct Report {
    inner: Arc<Mutex<Inner>>,
    nviol: Arc<AtomicU64>,
    dirty: Arc<AtomicBool>,
}

impl Report {
    pub fn count(&self, k: &str, n: u64) {
        *self.inner.lock().unwrap().counts.entry(k.to_string()).or_default() += n;
    }
    /// One evaluated case; `key` tells apart the distinct non-trivial ones.
    pub fn eval(&self, key: Option<u64>) {
        let mut i = self.inner.lock().unwrap();
        *i.counts.entry("evaluations".into()).or_default() += 1;
        if let Some(k) = key {
            i.distinct.entry("nontrivial".into()).or_default().insert(k);
        }
    }
    /// Counts a distinct observation in a class.
    pub fn seen(&self, class: &str, key: u64) {
        let mut i = self.inner.lock().unwrap();
        match i.distinct.get_mut(class) {
            Some(s) => {
                s.insert(key);
            }
            None => {
                i.distinct.insert(class.to_string(), [key].into());
            }
        }
    }
    pub fn sample(&self, v: Value) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 6 {
            i.samples.push(v);
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.inner.lock().unwrap().notes.push(s.into());
    }
    /// `key` identifies the kind of violation (a known finding is matched on it).
    pub fn violation(&self, key: &str, detail: Value) {
        self.nviol.fetch_add(1, Ordering::SeqCst);
        self.dirty.store(true, Ordering::SeqCst);
        let mut i = self.inner.lock().unwrap();
        if i.violations.len() < 40 {
            i.violations.push(json!({"key": key, "detail": detail}));
        }
    }
    pub fn violated(&self) -> u64 {
        self.nviol.load(Ordering::SeqCst)
    }
    pub fn to_json(&self) -> Value {
        let i = self.inner.lock().unwrap();
        json!({"counts": i.counts, "distinct": i.distinct, "samples": i.samples, "violations": i.violations, "notes": i.notes})
    }
}

/// Fails the run with a violation if the block does not finish in time.
pub struct Watchdog {
    stop: Arc<AtomicBool>,
}

impl Watchdog {
    /// After `limit`, writes the report with a violation `key` and ends the process.
    pub fn start(ctx: &Ctx, out: String, key: &str, limit: Duration) -> Self {
        let stop = Arc::new(AtomicBool::new(false));
        let s2 = stop.clone();
        let rep = ctx.rep.clone();
        let key = key.to_string();
        std::thread::spawn(move || {
            let t = Instant::now();
            while t.elapsed() < limit {
                std::thread::sleep(Duration::from_millis(50));
                if s2.load(Ordering::SeqCst) {
                    return;
                }
            }
            rep.violation(&key, json!({"not finished after s": limit.as_secs_f64()}));
            let _ = std::fs::write(&out, rep.to_json().to_string());
            std::process::exit(0);
        });
        Watchdog { stop }
    }
    pub fn done(&self) {
        self.stop.store(true, Ordering::SeqCst);
    }
}

/// Notices a single operation that does not end.
#[derive(Clone, Default)]
pub struct Beat {
    cur: Arc<Mutex<(u64, String)>>,
}

impl Beat {
    /// After `limit` within one operation, writes the report with a violation `key` and ends the process.
    pub fn start(ctx: &Ctx, key: &str, limit: Duration) -> Self {
        let b = Beat::default();
        let c = b.cur.clone();
        let (rep, out, key) = (ctx.rep.clone(), ctx.out.clone(), key.to_string());
        std::thread::spawn(move || {
            let (mut last, mut since) = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let (n, what) = c.lock().map(|c| c.clone()).unwrap_or_default();
                if n != last {
                    (last, since) = (n, Instant::now());
                } else if n != 0 && !what.is_empty() && since.elapsed() > limit {
                    rep.violation(&key, json!({"operation": what, "not finished after s": limit.as_secs_f64()}));
                    let _ = std::fs::write(&out, rep.to_json().to_string());
                    std::process::exit(0);
                }
            }
        });
        b
    }
    pub fn name(&self) -> String {
        self.cur.lock().map(|c| c.1.clone()).unwrap_or_default()
    }
    /// The next operation begins; an empty name means none is running.
    pub fn on(&self, what: &str) {
        if let Ok(mut c) = self.cur.lock() {
            c.0 += 1;
            c.1 = what.to_string();
        }
        label(what);
    }
}
