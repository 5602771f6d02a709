//! C16: threads use shared instances, clients, stores, snapshots and guarded memory in every mixture, under a race
//! detector or with delays injected. Every call must return, without a panic, without a lock found broken; afterwards
//! everything must still be usable.
use crate::common::*;
use crate::gen;
use crate::jitter;
use crate::util::*;
use engine::runtime::locked_memory::LockedMemory;
use engine::runtime::memories::buffer::Buffer;
use engine::runtime::memories::file_memory::FileMemory;
use engine::runtime::memories::frag::{Frag, FragStrategy};
use engine::runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use engine::runtime::memories::ram_memory::RamMemory;
use iota_stronghold::procedures::*;
use iota_stronghold::sync::{MergePolicy, SyncClientsConfig};
use iota_stronghold::*;
use serde_json::json;
use std::collections::HashMap;
use std::fmt::Debug;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

/// What every thread is doing, and since when; a call that takes longer than `limit` is reported and ends the process.
#[derive(Clone)]
struct Watch(Arc<Vec<Mutex<(String, Instant)>>>, Arc<AtomicBool>);

impl Watch {
    fn start(ctx: &Ctx, threads: usize, limit: Duration, key: &str) -> Watch {
        let w = Watch((0..threads).map(|_| Mutex::new((String::new(), Instant::now()))).collect::<Vec<_>>().into(), Arc::default());
        let (c, rep, out, key) = (w.clone(), ctx.rep.clone(), ctx.out.clone(), key.to_string());
        std::thread::spawn(move || {
            while !c.1.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let all: Vec<_> = c.0.iter().map(|m| m.lock().unwrap().clone()).collect();
                if all.iter().any(|(w, t)| !w.is_empty() && t.elapsed() > limit) {
                    let all: Vec<_> = all.iter().map(|(w, t)| format!("{w} for {:.1} s", t.elapsed().as_secs_f64())).collect();
                    rep.violation(&key, json!({"what": "calls do not return", "threads": all}));
                    let _ = std::fs::write(&out, rep.to_json().to_string());
                    std::process::exit(0);
                }
            }
        });
        w
    }
    fn on(&self, t: usize, what: String) {
        *self.0[t].lock().unwrap() = (what, Instant::now());
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        // the watching thread holds the third
        if Arc::strong_count(&self.1) <= 2 {
            self.1.store(true, Ordering::Relaxed);
        }
    }
}

/// An error that says a lock was found broken.
fn broken<T, E: Debug>(r: Result<T, E>) -> Result<Option<T>, String> {
    match r {
        Ok(v) => Ok(Some(v)),
        Err(e) => {
            let s = format!("{e:?}");
            let l = s.to_lowercase();
            if l.contains("poison") || l.contains("lockacquire") || l.contains("lock acquire") || l.contains("could not acquire") {
                Err(format!("a lock is broken: {s}"))
            } else {
                Ok(None)
            }
        }
    }
}

struct Shared {
    sh: Vec<Stronghold>,
    paths: Vec<Vec<u8>>,
    vaults: Vec<Vec<u8>>,
    recs: Vec<Vec<u8>>,
    files: Vec<PathBuf>,
    key: [u8; 32],
    keys: KeyProvider,
    /// handles, some of clients that are no longer loaded
    pool: Mutex<Vec<Client>>,
    stores: Mutex<Vec<Store>>,
}

impl Shared {
    fn new(ctx: &Ctx, rng: &mut Rng, tag: &str) -> Result<Self, String> {
        let sh: Vec<Stronghold> = (0..2).map(|_| Stronghold::default()).collect();
        let paths: Vec<Vec<u8>> = (0..3).map(|i| format!("client{i}").into_bytes()).collect();
        let mut pool = vec![];
        for s in &sh {
            for p in &paths {
                pool.push(s.create_client(p).map_err(|e| e.to_string())?);
            }
        }
        let key = rng.array();
        let stores = vec![sh[0].store(), sh[1].store(), pool[0].store(), pool[4].store()];
        Ok(Shared {
            sh,
            paths,
            vaults: (0..2).map(|i| format!("vault{i}").into_bytes()).collect(),
            recs: (0..3).map(|i| format!("rec{i}").into_bytes()).collect(),
            files: (0..2).map(|i| ctx.scratch.join(format!("stress-{tag}-{i}"))).collect(),
            key,
            keys: kp(&key),
            pool: Mutex::new(pool),
            stores: Mutex::new(stores),
        })
    }
    fn loc(&self, rng: &mut Rng) -> Location {
        Location::generic(rng.pick(&self.vaults).clone(), rng.pick(&self.recs).clone())
    }
    fn client(&self, rng: &mut Rng) -> Client {
        let p = self.pool.lock().unwrap();
        p[rng.below(p.len())].clone()
    }
    fn keep(&self, c: Client, rng: &mut Rng) {
        let mut p = self.pool.lock().unwrap();
        let k = rng.below(p.len());
        let old = std::mem::replace(&mut p[k], c);
        drop(p);
        drop(old);
    }
    fn kp(&self) -> KeyProvider {
        kp(&self.key)
    }
}

const OPS: usize = 32;

/// One call: its number and whether it did something.
fn call(w: &Shared, k: usize, rng: &mut Rng, seen: &dyn Fn(String)) -> Result<bool, String> {
    let sh = rng.pick(&w.sh).clone();
    let path = rng.pick(&w.paths).clone();
    let file = SnapshotPath::from_path(rng.pick(&w.files));
    let on = |what: &str| seen(format!("{k}: {what}"));
    let did = match k {
        0 => {
            on("create_client");
            let c = broken(sh.create_client(&path))?;
            c.map(|c| w.keep(c, rng)).is_some()
        }
        1 => {
            on("get_client");
            let c = broken(sh.get_client(&path))?;
            c.map(|c| w.keep(c, rng)).is_some()
        }
        2 => {
            on("unload_client");
            broken(sh.unload_client(w.client(rng)))?.is_some()
        }
        3 => {
            on("load_client");
            let c = broken(sh.load_client(&path))?;
            c.map(|c| w.keep(c, rng)).is_some()
        }
        4 => {
            on("load_client_from_snapshot");
            let c = broken(sh.load_client_from_snapshot(&path, &w.keys, &file))?;
            c.map(|c| w.keep(c, rng)).is_some()
        }
        5 => {
            on("write_client");
            broken(sh.write_client(&path))?.is_some()
        }
        6 => {
            on("commit_with_keyprovider");
            broken(sh.commit_with_keyprovider(&file, &w.keys))?.is_some()
        }
        7 => {
            on("commit");
            broken(sh.commit(&file))?.is_some()
        }
        8 => {
            on("store_snapshot_key_at_location");
            broken(sh.store_snapshot_key_at_location(w.kp(), w.loc(rng)))?.is_some()
        }
        9 => {
            on("load_snapshot");
            broken(sh.load_snapshot(&w.keys, &file))?.is_some()
        }
        10 => {
            on("purge_client");
            broken(sh.purge_client(w.client(rng)))?.is_some()
        }
        11 => {
            on("clear");
            if rng.chance(1, 4) {
                broken(sh.clear())?;
            }
            true
        }
        12 | 13 | 14 => {
            let (a, b) = (w.client(rng), w.client(rng));
            let mut cfg = SyncClientsConfig::new(if rng.chance(1, 2) { MergePolicy::Replace } else { MergePolicy::KeepOld });
            if rng.chance(1, 3) {
                cfg.map_vaults(HashMap::from([(w.vaults[0].clone(), w.vaults[1].clone())]));
            }
            if rng.chance(1, 3) {
                cfg.sync_selected_vaults(vec![rng.pick(&w.vaults).clone()]);
            }
            on("sync_with");
            broken(a.sync_with(&b, cfg))?.is_some()
        }
        15 => {
            let c = w.client(rng);
            let (a, b) = (rng.pick(&w.vaults).clone(), rng.pick(&w.vaults).clone());
            on("sync_vaults");
            broken(c.sync_vaults(a, b, None, if rng.chance(1, 2) { MergePolicy::Replace } else { MergePolicy::KeepOld }))?.is_some()
        }
        16 => {
            let c = w.client(rng);
            on("vault_exists");
            broken(c.vault_exists(rng.pick(&w.vaults)))?.unwrap_or(false)
        }
        17 => {
            let c = w.client(rng);
            on("record_exists");
            broken(c.record_exists(&w.loc(rng)))?.unwrap_or(false)
        }
        18 => {
            let (c, l) = (w.client(rng), w.loc(rng));
            on("write_secret");
            broken(c.vault(l.vault_path()).write_secret(l.clone(), rng.bytes(32)))?.is_some()
        }
        19 => {
            let (c, v) = (w.client(rng), rng.pick(&w.vaults).clone());
            on("delete_secret");
            broken(c.vault(&v).delete_secret(rng.pick(&w.recs)))?.unwrap_or(false)
        }
        20 => {
            let (c, v) = (w.client(rng), rng.pick(&w.vaults).clone());
            on("revoke_secret");
            broken(c.vault(&v).revoke_secret(rng.pick(&w.recs)))?.is_some()
        }
        21 => {
            let (c, v) = (w.client(rng), rng.pick(&w.vaults).clone());
            on("cleanup");
            broken(c.vault(&v).cleanup())?.unwrap_or(false)
        }
        22..=25 => {
            let c = w.client(rng);
            let n = if rng.chance(1, 4) { rng.range(2, 4) } else { 1 };
            let ps: Vec<StrongholdProcedure> = (0..n)
                .map(|_| loop {
                    let p = gen::any(rng, &|r| w.loc(r), &|r| w.loc(r), false);
                    // those that stretch passwords take too long here
                    if !matches!(gen::name(&p), "BIP39Generate" | "BIP39Recover" | "Pbkdf2Hmac") || rng.chance(1, 20) {
                        break p;
                    }
                })
                .collect();
            on(&format!("procedures {:?}", ps.iter().map(gen::name).collect::<Vec<_>>()));
            broken(c.execute_procedure_chained(ps))?.is_some()
        }
        26..=30 => {
            let s = if rng.chance(1, 2) { w.client(rng).store() } else { w.stores.lock().unwrap()[rng.below(4)].clone() };
            let key = vec![rng.below(4) as u8];
            match rng.below(6) {
                0 | 1 => {
                    on("insert");
                    let n = rng.range(1, 200);
                    let life = rng.chance(1, 3).then(|| Duration::from_millis(rng.below(4) as u64));
                    broken(s.insert(key, rng.bytes(n), life))?.is_some()
                }
                2 => {
                    on("get");
                    broken(s.get(&key))?.flatten().is_some()
                }
                3 => {
                    on("delete");
                    broken(s.delete(&key))?.flatten().is_some()
                }
                4 => {
                    on("contains_key");
                    broken(s.contains_key(&key))?.unwrap_or(false)
                }
                _ => {
                    on("keys");
                    broken(s.keys())?.is_some()
                }
            }
        }
        _ => {
            on("try_unlock");
            let a = broken(w.keys.try_unlock())?.ok_or("the key provider does not give its key")?;
            let b = broken(w.kp().try_unlock())?.ok_or("a copy of the key provider does not give its key")?;
            if *a.borrow() != *b.borrow() {
                return Err("the key provider and its copy give different keys".into());
            }
            true
        }
    };
    Ok(did)
}

/// Everything must be usable as if nothing had happened.
fn afterwards(w: &Shared, rng: &mut Rng) -> Result<(), String> {
    let ok = |what: &str, r: Result<(), String>| r.map_err(|e| format!("afterwards, {what} fails: {e}"));
    fn e<T, E: Debug>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| format!("{e:?}"))
    }
    let pool: Vec<Client> = w.pool.lock().unwrap().clone();
    for c in pool.iter() {
        ok("use of a client", (|| {
            let l = Location::generic(b"after".to_vec(), b"all".to_vec());
            e(c.vault(b"after").write_secret(l.clone(), vec![7; 32]))?;
            if !holds(c, &l, &[7; 32])? || !e(c.record_exists(&l))? || !e(c.vault_exists(b"after"))? {
                return Err("a secret written can not be used".into());
            }
            e(c.execute_procedure(GenerateKey { ty: KeyType::Ed25519, output: Location::generic(b"after".to_vec(), b"key".to_vec()) }))?;
            if !e(c.vault(b"after").delete_secret(b"all"))? {
                return Err("a secret can not be deleted".into());
            }
            e(c.store().insert(b"after".to_vec(), b"all".to_vec(), None))?;
            if e(c.store().get(b"after"))? != Some(b"all".to_vec()) {
                return Err("a stored value is not there".into());
            }
            e(c.sync_with(&pool[0], SyncClientsConfig::new(MergePolicy::Replace)))?;
            Ok(())
        })())?;
    }
    for (i, s) in w.sh.iter().enumerate() {
        ok("use of an instance", (|| {
            let c = e(s.create_client(b"last"))?;
            e(c.store().insert(b"k".to_vec(), vec![i as u8], None))?;
            e(s.write_client(b"last"))?;
            let p = SnapshotPath::from_path(&w.files[i]);
            e(s.commit_with_keyprovider(&p, &w.keys))?;
            let s2 = Stronghold::default();
            let c2 = e(s2.load_client_from_snapshot(b"last", &w.keys, &p))?;
            if e(c2.store().get(b"k"))? != Some(vec![i as u8]) {
                return Err("a commit does not hold what was stored".into());
            }
            e(s.unload_client(c))?;
            e(s.load_client(b"last"))?;
            e(s.purge_client(e(s.get_client(b"last"))?))?;
            e(s.store().insert(b"k".to_vec(), vec![1], None))?;
            e(s.store_snapshot_key_at_location(w.kp(), w.loc(rng)))?;
            e(s.commit(&p))?;
            e(s.load_snapshot(&w.keys, &p))?;
            e(s.clear())
        })())?;
    }
    Ok(())
}

fn clients_case(ctx: &Ctx, rng: &mut Rng, i: u64) -> Result<(), String> {
    let w = Shared::new(ctx, rng, &i.to_string())?;
    let threads = rng.range(2, 8);
    let calls = ctx.n(40, 80);
    // sometimes only a few kinds of calls, so that they meet
    let mut kinds: Vec<usize> = (0..OPS).collect();
    if rng.chance(2, 3) {
        rng.shuffle(&mut kinds);
        kinds.truncate(rng.range(2, 8));
        kinds.push(18);
    }
    let odds = *rng.pick(&[0u64, 5, 30, 200]);
    let watch = Watch::start(ctx, threads, Duration::from_secs(60), "stress/stuck");
    let barrier = Barrier::new(threads);
    let (done, useful, delays) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let order = Mutex::new(Vec::<(usize, usize)>::new());
    let bad = Mutex::new(None::<String>);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (w, kinds, barrier, bad, done, useful, delays, watch, order) = (&w, &kinds, &barrier, &bad, &done, &useful, &delays, watch.clone(), &order);
            let mut rng = Rng::new(rng.u64(), t as u64);
            s.spawn(move || {
                barrier.wait();
                jitter::set(rng.u64(), odds);
                for _ in 0..calls {
                    let k = *rng.pick(kinds);
                    let what = std::cell::RefCell::new(String::new());
                    let r = guarded(|| {
                        call(w, k, &mut rng, &|s| {
                            watch.on(t, s.clone());
                            *what.borrow_mut() = s;
                        })
                    });
                    done.fetch_add(1, Ordering::Relaxed);
                    match r.and_then(|r| r) {
                        Ok(d) => {
                            useful.fetch_add(d as u64, Ordering::Relaxed);
                        }
                        Err(e) => {
                            bad.lock().unwrap().get_or_insert(format!("{}: {e}", what.borrow()));
                        }
                    }
                    let mut o = order.lock().unwrap();
                    o.push((t, k));
                }
                watch.on(t, String::new());
                delays.fetch_add(jitter::set(0, 0).1, Ordering::Relaxed);
            });
        }
    });
    ctx.rep.count("calls", done.load(Ordering::Relaxed));
    ctx.rep.count("calls that did something", useful.load(Ordering::Relaxed));
    ctx.rep.count("delays inside calls", delays.load(Ordering::Relaxed));
    let o = order.into_inner().unwrap();
    for p in o.windows(2) {
        if p[0].0 != p[1].0 {
            ctx.rep.seen("pairs of calls of two threads that followed each other", (p[0].1 * OPS + p[1].1) as u64);
        }
    }
    ctx.rep.eval(Some(fnv(&o.iter().flat_map(|(t, k)| [*t as u8, *k as u8]).collect::<Vec<_>>())));
    let r = match bad.into_inner().unwrap() {
        Some(e) => Err(e),
        None => {
            watch.on(0, "the use afterwards".into());
            guarded(|| afterwards(&w, rng)).and_then(|r| r)
        }
    };
    for f in &w.files {
        let _ = std::fs::remove_file(f);
    }
    r.map_err(|e| format!("{threads} threads, calls of kinds {kinds:?}: {e}"))
}

pub fn stress(ctx: &Ctx) {
    ctx.cases("stress", ctx.n(20_000, 1_000_000), 1, |ctx, i, rng| {
        if let Err(e) = clients_case(ctx, rng, i) {
            ctx.rep.violation("stress", json!({"case": i, "what": e}));
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// guarded memory

struct Things {
    want: Vec<u8>,
    buf: Buffer<u8>,
    words: Buffer<u64>,
    nc: Vec<NonContiguousMemory>,
    ram: RamMemory,
    file: FileMemory,
    frag: (Frag<[u8; 32]>, Frag<[u8; 32]>),
}

fn same(got: &[u8], want: &[u8], what: &str) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what} holds something else"))
    }
}

fn touch(m: &Things, k: usize, rng: &mut Rng) -> Result<(), String> {
    let want = &m.want[..];
    let e = |e: engine::runtime::MemoryError| e.to_string();
    match k {
        0 => {
            let bs: Vec<_> = (0..rng.range(1, 4)).map(|_| m.buf.borrow()).collect();
            std::thread::yield_now();
            bs.iter().try_for_each(|b| same(b, want, "a borrow"))
        }
        1 => same(&m.buf.clone().borrow(), want, "a clone"),
        2 => {
            let b = m.words.borrow();
            let c = b.clone();
            drop(b);
            if (0..4).any(|i| c[i] != i as u64) {
                return Err("a borrow of words holds something else".into());
            }
            Ok(())
        }
        3 => {
            if m.buf != m.buf {
                return Err("memory differs from itself".into());
            }
            Ok(())
        }
        4 | 5 | 6 => {
            let n = rng.pick(&m.nc);
            same(&n.unlock().map_err(e)?.borrow(), want, "a split secret")
        }
        7 => rng.pick(&m.nc).refresh().map_err(e),
        8 => {
            let c = rng.pick(&m.nc).clone();
            c.refresh().map_err(e)?;
            same(&c.unlock().map_err(e)?.borrow(), want, "a copy of a split secret")
        }
        9 => same(&m.ram.unlock().map_err(e)?.borrow(), want, "memory in RAM"),
        10 => same(&m.ram.clone().unlock().map_err(e)?.borrow(), want, "a copy of memory in RAM"),
        11 => same(&m.file.unlock().map_err(e)?.borrow(), want, "memory in a file"),
        12 => same(&m.file.clone().unlock().map_err(e)?.borrow(), want, "a copy of memory in a file"),
        13 => {
            same(m.frag.0.get().map_err(e)?, want, "a fragment")?;
            same(m.frag.1.clone().get().map_err(e)?, &[9; 32], "a copy of a fragment")
        }
        14 => {
            let v = rng.bytes(32);
            let mut b = Buffer::alloc(&v, 32);
            b.borrow_mut()[0] ^= 1;
            b.borrow_mut()[0] ^= 1;
            let r = same(&b.borrow(), &v, "memory of one thread");
            r
        }
        _ => {
            let v: [u8; 32] = rng.array();
            let n = NonContiguousMemory::alloc(&v, 32, if rng.chance(1, 3) { NCConfig::RamAndFile } else { NCConfig::FullRam }).map_err(e)?;
            same(&n.unlock().map_err(e)?.borrow(), &v, "a split secret of one thread")
        }
    }
}

fn memory_case(ctx: &Ctx, rng: &mut Rng) -> Result<(), String> {
    let want = rng.bytes(32);
    let e = |e: engine::runtime::MemoryError| e.to_string();
    let mut nc = vec![];
    for c in [NCConfig::FullRam, NCConfig::RamAndFile, NCConfig::FullFile, NCConfig::FragAllocation(FragStrategy::Map)] {
        nc.push(NonContiguousMemory::alloc(&want, 32, c).map_err(e)?);
    }
    let m = Things {
        buf: Buffer::alloc(&want, 32),
        words: Buffer::alloc(&[0u64, 1, 2, 3], 4),
        nc,
        ram: RamMemory::alloc(&want, 32).map_err(e)?,
        file: FileMemory::alloc(&want, 32).map_err(e)?,
        frag: Frag::alloc_initialized(FragStrategy::Map, want.clone().try_into().unwrap(), [9; 32]).map_err(e)?,
        want,
    };
    let threads = rng.range(2, 8);
    let mut kinds: Vec<usize> = (0..16).collect();
    if rng.chance(2, 3) {
        rng.shuffle(&mut kinds);
        kinds.truncate(rng.range(1, 5));
    }
    let odds = *rng.pick(&[0u64, 3, 20]);
    let watch = Watch::start(ctx, threads, Duration::from_secs(60), "stress-memory/stuck");
    let barrier = Barrier::new(threads);
    let bad = Mutex::new(None::<String>);
    let (delays, order) = (AtomicU64::new(0), Mutex::new(vec![]));
    std::thread::scope(|s| {
        for t in 0..threads {
            let (m, kinds, barrier, bad, watch, delays, order) = (&m, &kinds, &barrier, &bad, watch.clone(), &delays, &order);
            let mut rng = Rng::new(rng.u64(), t as u64);
            s.spawn(move || {
                barrier.wait();
                jitter::set(rng.u64(), odds);
                for _ in 0..30 {
                    let k = *rng.pick(kinds);
                    watch.on(t, format!("memory operation {k}"));
                    if let Err(e) = guarded(|| touch(m, k, &mut rng)).and_then(|r| r) {
                        bad.lock().unwrap().get_or_insert(format!("memory operation {k}: {e}"));
                    }
                    order.lock().unwrap().extend([t as u8, k as u8]);
                }
                watch.on(t, String::new());
                delays.fetch_add(jitter::set(0, 0).1, Ordering::Relaxed);
            });
        }
    });
    ctx.rep.count("memory operations", threads as u64 * 30);
    ctx.rep.count("delays inside memory operations", delays.load(Ordering::Relaxed));
    ctx.rep.eval(Some(fnv(&order.into_inner().unwrap())));
    if let Some(e) = bad.into_inner().unwrap() {
        return Err(e);
    }
    watch.on(0, "the use afterwards".into());
    for k in 0..16 {
        guarded(|| touch(&m, k, rng)).and_then(|r| r).map_err(|e| format!("afterwards, memory operation {k}: {e}"))?;
    }
    Ok(())
}

pub fn memory(ctx: &Ctx) {
    ctx.cases("stress-memory", ctx.n(20_000, 1_000_000), 1, |ctx, i, rng| {
        if let Err(e) = memory_case(ctx, rng) {
            ctx.rep.violation("stress-memory", json!({"case": i, "what": e}));
        }
    });
}
