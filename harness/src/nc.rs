//! C17: secrets spread over two places, with the shares observed from outside.
use crate::erase::files;
use crate::memhook as mh;
use crate::shares::become_user;
use crate::util::*;
use engine::vault::NCKey;
use iota_stronghold::Provider;
use runtime::locked_memory::LockedMemory;
use runtime::memories::buffer::Buffer;
use runtime::memories::frag::FragStrategy;
use runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use serde_json::json;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use zeroize::Zeroize;

enum Nc {
    M(NonContiguousMemory),
    K(NCKey<Provider>),
}

impl Nc {
    fn mem(&self) -> &NonContiguousMemory {
        match self {
            Nc::M(m) => m,
            Nc::K(k) => &k.key,
        }
    }
    fn dup(&self) -> Nc {
        match self {
            Nc::M(m) => Nc::M(m.clone()),
            Nc::K(k) => Nc::K(k.clone()),
        }
    }
}

struct Held {
    n: Nc,
    secret: Vec<u8>,
    config: NCConfig,
    regions: Vec<mh::Region>,
    files: Vec<PathBuf>,
}

struct World<'a> {
    ctx: &'a Ctx,
    root: bool,
    canary: Vec<u8>,
    held: Vec<Held>,
    seen: HashSet<u64>,
}

fn unlock(n: &NonContiguousMemory) -> Result<Vec<u8>, String> {
    n.unlock().map(|b| b.borrow().to_vec()).map_err(|e| e.to_string())
}

fn windows(v: &[u8]) -> impl Iterator<Item = u64> + '_ {
    v.windows(8).map(|w| u64::from_be_bytes(w.try_into().unwrap()))
}

/// Numbers of files and of mappings a configuration uses.
fn shape(c: &NCConfig) -> (usize, usize) {
    match c {
        NCConfig::FullFile => (2, 0),
        NCConfig::RamAndFile => (1, 1),
        _ => (0, 2),
    }
}

fn configs(rng: &mut Rng) -> NCConfig {
    match rng.below(12) {
        0..=2 => NCConfig::FullFile,
        3..=5 => NCConfig::FullRam,
        6..=8 => NCConfig::RamAndFile,
        9 => NCConfig::FragAllocation(FragStrategy::Map),
        10 => NCConfig::FragAllocation(FragStrategy::Hybrid),
        _ => NCConfig::FragAllocation(FragStrategy::Direct),
    }
}

impl World<'_> {
    /// What is at the two places.
    fn shares(&self, regions: &[mh::Region], fs: &[PathBuf], config: &NCConfig, what: &str) -> Result<Vec<Vec<u8>>, String> {
        let (nf, nr) = shape(config);
        if fs.len() != nf || regions.len() != nr {
            return Err(format!("{what} ({config:?}): {} files and {} places in memory", fs.len(), regions.len()));
        }
        let mut out = vec![];
        for r in regions {
            let c = mh::contents(&[*r]);
            let d = c.iter().find_map(|c| match c.windows(16).position(|w| w == self.canary) {
                Some(at) => Some(c[at + 16..].iter().take(32).copied().collect::<Vec<u8>>()),
                None if matches!(config, NCConfig::FragAllocation(FragStrategy::Map)) => Some(c[..32].to_vec()),
                None => {
                    let t: Vec<usize> = (0..c.len()).filter(|i| c[*i] != 0).collect();
                    match (t.first(), t.last()) {
                        (Some(a), Some(b)) if b - a >= 24 && b - a < 32 => Some(c[*a..=*b].to_vec()),
                        _ => None,
                    }
                }
            });
            out.push(d.ok_or(format!("{what} ({config:?}): a share was not found in its mapping"))?);
        }
        if self.root {
            for f in fs {
                out.push(std::fs::read(f).map_err(|e| e.to_string())?);
            }
        }
        self.ctx.rep.count("shares seen", out.len() as u64);
        Ok(out)
    }

    /// New shares: nothing of them has been seen before, and they are not the secret.
    fn fresh(&mut self, shares: &[Vec<u8>], secret: &[u8], what: &str) -> Result<(), String> {
        let sw: HashSet<u64> = windows(secret).flat_map(|w| [w, !w, w.swap_bytes()]).collect();
        let mut all = vec![];
        for s in shares {
            if windows(s).any(|w| sw.contains(&w)) {
                return Err(format!("{what}: a share contains a piece of the secret"));
            }
            if windows(s).any(|w| self.seen.contains(&w)) {
                return Err(format!("{what}: a share has a piece that was in a share before"));
            }
            let mut own = HashSet::new();
            if windows(s).any(|w| !own.insert(w)) {
                return Err(format!("{what}: a share repeats itself"));
            }
            all.push(own);
        }
        if all.len() == 2 && all[0].intersection(&all[1]).next().is_some() {
            return Err(format!("{what}: the two shares have a piece in common"));
        }
        for a in all {
            self.seen.extend(a);
        }
        Ok(())
    }

    fn making<T>(&self, f: impl FnOnce() -> T) -> (T, Vec<mh::Region>, Vec<PathBuf>) {
        let (l0, f0) = (mh::live(), files());
        let r = f();
        let regions = mh::live().into_iter().filter(|x| !l0.contains(x)).collect();
        let fs = files().into_iter().filter(|p| !f0.contains(p)).collect();
        (r, regions, fs)
    }

    fn add(&mut self, what: &str, secret: Vec<u8>, config: NCConfig, copy: bool, f: impl FnOnce() -> Result<Nc, String>) -> Result<(), String> {
        let (n, regions, fs) = self.making(f);
        let n = n.map_err(|e| format!("{what} ({config:?}): {e}"))?;
        let shares = self.shares(&regions, &fs, &config, what)?;
        if !copy {
            self.fresh(&shares, &secret, what)?;
        }
        self.held.push(Held { n, secret, config, regions, files: fs });
        Ok(())
    }

    /// An operation after which the shares may be, or have to be, new ones.
    fn renew<T>(&mut self, k: usize, must: bool, what: &str, f: impl FnOnce(&Nc) -> T) -> Result<T, String> {
        let (r, regions, fs) = {
            let h = &self.held[k];
            self.making(|| f(&h.n))
        };
        let h = &self.held[k];
        let moved = regions.len() + fs.len() > 0;
        let (config, secret) = (h.config.clone(), h.secret.clone());
        if moved {
            let live = mh::live();
            if h.regions.iter().any(|r| live.contains(r)) || h.files.iter().any(|f| f.exists()) {
                return Err(format!("{what} ({config:?}): the old shares are still there"));
            }
            let shares = self.shares(&regions, &fs, &config, what)?;
            self.fresh(&shares, &secret, what)?;
            self.held[k].regions = regions;
            self.held[k].files = fs;
        } else if must {
            let (r, f) = (h.regions.clone(), h.files.clone());
            let shares = self.shares(&r, &f, &config, what)?;
            self.fresh(&shares, &secret, what)?;
        }
        Ok(r)
    }
}

fn hash(k: &NCKey<Provider>) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    k.hash(&mut h);
    h.finish()
}

fn case(ctx: &Ctx, rng: &mut Rng, root: bool) -> Result<(), String> {
    mh::start();
    let mut w = World { ctx, root, canary: vec![], held: vec![], seen: HashSet::new() };
    let probe = rng.bytes(32);
    let (b, regions, _) = w.making(|| Buffer::alloc(&probe, 32));
    for c in mh::contents(&regions) {
        if let Some(at) = c.windows(32).position(|x| x == &probe[..]) {
            if at >= 16 {
                w.canary = c[at - 16..at].to_vec();
            }
        }
    }
    drop(b);
    let r = steps(&mut w, rng);
    let left = w.held.len();
    w.held.clear();
    mh::stop();
    r.map_err(|e| format!("with {left} secrets: {e}"))?;
    if !files().is_empty() {
        return Err("files are left after all secrets were released".into());
    }
    Ok(())
}

fn steps(w: &mut World, rng: &mut Rng) -> Result<(), String> {
    // few secrets, so that equal ones meet
    let mut pool: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xFF; 32], rng.bytes(32), rng.bytes(32)];
    let mut near = pool[2].clone();
    let i = rng.below(32);
    near[i] ^= 1 << rng.below(8);
    pool.push(near);
    for n in [0, 1, 31, 33, 64] {
        if NonContiguousMemory::alloc(&rng.bytes(n), n, configs(rng)).is_ok() {
            return Err(format!("a secret of {n} bytes was accepted"));
        }
    }
    for _ in 0..rng.range(5, 20) {
        let what: String;
        if w.held.len() < 6 && (w.held.is_empty() || rng.chance(1, 4)) {
            let s = rng.pick(&pool).clone();
            let s2 = s.clone();
            if rng.chance(1, 4) {
                w.add("load", s, NCConfig::FullRam, false, || NCKey::load(s2).map(Nc::K).ok_or("refused".to_string()))?;
                what = "load".into();
            } else {
                let c = configs(rng);
                let c2 = c.clone();
                what = format!("alloc {c:?}");
                w.add("alloc", s, c, false, || NonContiguousMemory::alloc(&s2, 32, c2).map(Nc::M).map_err(|e| e.to_string()))?;
            }
        } else {
            let k = rng.below(w.held.len());
            let cfg = w.held[k].config.clone();
            match rng.below(9) {
                0 | 1 => {
                    let v = w.renew(k, false, "unlock", |n| unlock(n.mem()))??;
                    if v != w.held[k].secret {
                        return Err(format!("{cfg:?} gives another secret"));
                    }
                    what = format!("unlock {cfg:?}");
                }
                2 | 3 => {
                    w.renew(k, true, "refresh", |n| n.mem().refresh().map_err(|e| e.to_string()))?.map_err(|e| format!("refresh ({cfg:?}): {e}"))?;
                    what = format!("refresh {cfg:?}");
                }
                4 if w.held.len() < 8 => {
                    let (s, c) = (w.held[k].secret.clone(), cfg.clone());
                    let h = w.held.swap_remove(k);
                    let r = w.add("clone", s, c, true, || Ok(h.n.dup()));
                    w.held.push(h);
                    r?;
                    what = format!("clone {cfg:?}");
                }
                5 => {
                    let new = rng.pick(&pool).clone();
                    let h = w.held.swap_remove(k);
                    let Nc::M(m) = h.n else {
                        w.held.push(h);
                        continue;
                    };
                    let b = Buffer::alloc(&new, 32);
                    let (regions, fs) = (h.regions, h.files);
                    w.add("update", new, cfg.clone(), false, || m.update(b, 32).map(Nc::M).map_err(|e| e.to_string()))?;
                    if regions.iter().any(|r| mh::live().contains(r)) || fs.iter().any(|f| f.exists()) {
                        return Err(format!("update ({cfg:?}): the old shares are still there"));
                    }
                    what = format!("update {cfg:?}");
                }
                6 => {
                    let mut h = w.held.swap_remove(k);
                    if rng.chance(1, 2) {
                        if let Nc::M(m) = &mut h.n {
                            m.zeroize();
                            if unlock(m).is_ok() {
                                return Err(format!("{cfg:?} gives a secret after it was zeroized"));
                            }
                        }
                    }
                    drop(h);
                    what = format!("drop {cfg:?}");
                }
                7 => {
                    // comparing keys
                    let keys: Vec<usize> = (0..w.held.len()).filter(|i| matches!(w.held[*i].n, Nc::K(_))).collect();
                    if keys.is_empty() {
                        continue;
                    }
                    let (a, b) = (*rng.pick(&keys), *rng.pick(&keys));
                    let (l0, f0) = (mh::live().len(), files().len());
                    let (Nc::K(x), Nc::K(y)) = (&w.held[a].n, &w.held[b].n) else { unreachable!() };
                    let (sa, sb) = (&w.held[a].secret, &w.held[b].secret);
                    if (x == y) != (sa == sb) || x.cmp(y) != sa.cmp(sb) || x.partial_cmp(y) != Some(sa.cmp(sb)) || (hash(x) == hash(y)) != (sa == sb) {
                        return Err("keys do not compare like their secrets".into());
                    }
                    if mh::live().len() != l0 || files().len() != f0 {
                        return Err("comparing leaves memory behind".into());
                    }
                    // where the shares are now
                    for i in [a, b] {
                        let v = unlock(w.held[i].n.mem())?;
                        if v != w.held[i].secret {
                            return Err("a key changed by being compared".into());
                        }
                    }
                    refind(w);
                    what = "compare".into();
                }
                _ => {
                    let h = &w.held[k];
                    let b = bincode::serialize(h.n.mem()).map_err(|e| e.to_string())?;
                    refind(w);
                    let s = w.held[k].secret.clone();
                    w.add("deserialize", s, NCConfig::FullRam, false, || bincode::deserialize::<NonContiguousMemory>(&b).map(Nc::M).map_err(|e| e.to_string()))?;
                    what = format!("deserialize {cfg:?}");
                }
            }
        }
        // the others are as they were
        if rng.chance(1, 2) && !w.held.is_empty() {
            let k = rng.below(w.held.len());
            let v = w.renew(k, false, "unlock", |n| unlock(n.mem()))??;
            if v != w.held[k].secret {
                return Err(format!("after {what} another one ({:?}) gives another secret", w.held[k].config));
            }
        }
        w.ctx.rep.eval(Some(fnv(format!("{what}{}{:?}", w.root, w.held.iter().map(|h| (&h.config, h.secret[0])).collect::<Vec<_>>()).as_bytes())));
        w.ctx.rep.seen("step", fnv(what.as_bytes()));
    }
    while let Some(h) = w.held.pop() {
        if unlock(h.n.mem())? != h.secret {
            return Err("at the end a secret is another one".into());
        }
    }
    Ok(())
}

/// The shares of all have moved: begins to follow them anew, one by one, by refreshing.
fn refind(w: &mut World) {
    for k in 0..w.held.len() {
        let (l0, f0) = (mh::live(), files());
        if w.held[k].n.mem().refresh().is_ok() {
            w.held[k].regions = mh::live().into_iter().filter(|x| !l0.contains(x)).collect();
            w.held[k].files = files().into_iter().filter(|p| !f0.contains(p)).collect();
            let (r, f, c) = (w.held[k].regions.clone(), w.held[k].files.clone(), w.held[k].config.clone());
            if let Ok(shares) = w.shares(&r, &f, &c, "") {
                for s in shares {
                    w.seen.extend(windows(&s));
                }
            }
        }
    }
}

/// One secret used by several threads.
fn shared(ctx: &Ctx, rng: &mut Rng) -> Result<(), String> {
    let secret = rng.bytes(32);
    let c = configs(rng);
    let n = Arc::new(NonContiguousMemory::alloc(&secret, 32, c.clone()).map_err(|e| e.to_string())?);
    let threads = rng.range(2, 6);
    let barrier = Arc::new(Barrier::new(threads));
    let rounds = if matches!(c, NCConfig::FragAllocation(FragStrategy::Direct)) { 4 } else { 15 };
    let bad = Arc::new(Mutex::new(None::<String>));
    std::thread::scope(|s| {
        for t in 0..threads {
            let (n, secret, barrier, bad) = (n.clone(), &secret, barrier.clone(), bad.clone());
            let mut rng = Rng::new(rng.u64(), t as u64);
            s.spawn(move || {
                for _ in 0..rounds {
                    barrier.wait();
                    let r = guarded(|| -> Result<(), String> {
                        for _ in 0..4 {
                            match rng.below(5) {
                                0 => n.refresh().map_err(|e| format!("refresh: {e}"))?,
                                1 => {
                                    let m = (*n).clone();
                                    let a = unlock(&m).map_err(|e| format!("clone: {e}"))?;
                                    m.refresh().map_err(|e| format!("refresh of a clone: {e}"))?;
                                    if a != *secret || unlock(&m)? != *secret {
                                        return Err("a clone gives another secret".into());
                                    }
                                }
                                _ => {
                                    if unlock(&n)? != *secret {
                                        return Err("it gives another secret".into());
                                    }
                                }
                            }
                        }
                        Ok(())
                    });
                    if let Err(e) = r.and_then(|r| r) {
                        bad.lock().unwrap().get_or_insert(e);
                    }
                }
            });
        }
    });
    ctx.rep.count("concurrent uses", (threads * rounds * 4) as u64);
    ctx.rep.eval(Some(fnv(format!("{c:?}{threads}{}", rng.u64()).as_bytes())));
    if let Some(e) = bad.lock().unwrap().take() {
        return Err(format!("used by {threads} threads ({c:?}): {e}"));
    }
    Ok(())
}

pub fn nc(ctx: &Ctx) {
    let root = ctx.arg(0) != Some("user");
    let _ = mh::peek(&ctx as *const _ as usize, 1);
    let _ = AtomicBool::new(false).load(Ordering::Relaxed);
    mh::start();
    let _ = mh::contents(&[(&ctx as *const _ as usize, 1, 0)]);
    mh::stop();
    if !root {
        become_user(ctx);
    }
    ctx.cases("nc", ctx.n(6000, 600_000), 1, |ctx, i, rng| {
        let r = if rng.chance(1, 6) { shared(ctx, rng) } else { case(ctx, rng, root) };
        if let Err(e) = r {
            ctx.rep.violation("nc", json!({"case": i, "user": !root, "what": e}));
        }
    });
}
