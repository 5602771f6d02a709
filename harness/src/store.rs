//! C14: the key-value store and its lifetimes, against a model, under a controlled clock.
use crate::common::*;
use crate::util::*;
use crate::vclock;
use engine::store::Cache;
use iota_stronghold::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::time::Duration;

const SEC: u128 = 1_000_000_000;
const YEAR: u128 = 31_557_600 * SEC;

/// Value and end of the lifetime.
type Model = BTreeMap<Vec<u8>, (Vec<u8>, Option<u128>)>;

enum Sut {
    /// The store of a client in an instance.
    Client(Stronghold, Client, Store),
    Store(Store),
    Cache(Cache<Vec<u8>, Vec<u8>>),
}

impl Sut {
    fn insert(&mut self, k: &[u8], v: &[u8], l: Option<Duration>) -> Result<Option<Vec<u8>>, String> {
        match self {
            Sut::Client(_, _, s) | Sut::Store(s) => s.insert(k.to_vec(), v.to_vec(), l).map_err(|e| format!("{e:?}")),
            Sut::Cache(c) => Ok(c.insert(k.to_vec(), v.to_vec(), l)),
        }
    }
    fn get(&self, k: &[u8]) -> Result<Option<Vec<u8>>, String> {
        match self {
            Sut::Client(_, _, s) | Sut::Store(s) => s.get(k).map_err(|e| format!("{e:?}")),
            Sut::Cache(c) => Ok(c.get(&k.to_vec()).cloned()),
        }
    }
    fn delete(&mut self, k: &[u8]) -> Result<Option<Vec<u8>>, String> {
        match self {
            Sut::Client(_, _, s) | Sut::Store(s) => s.delete(k).map_err(|e| format!("{e:?}")),
            Sut::Cache(c) => Ok(c.remove(&k.to_vec())),
        }
    }
    fn contains(&self, k: &[u8]) -> Result<bool, String> {
        match self {
            Sut::Client(_, _, s) | Sut::Store(s) => s.contains_key(k).map_err(|e| format!("{e:?}")),
            Sut::Cache(c) => Ok(c.contains_key(&k.to_vec())),
        }
    }
    fn keys(&self) -> Result<Vec<Vec<u8>>, String> {
        let mut k = match self {
            Sut::Client(_, _, s) | Sut::Store(s) => s.keys().map_err(|e| format!("{e:?}"))?,
            Sut::Cache(c) => c.keys(),
        };
        k.sort();
        Ok(k)
    }
    fn clear(&mut self) -> Result<(), String> {
        match self {
            Sut::Client(_, _, s) | Sut::Store(s) => s.clear().map_err(|e| format!("{e:?}")),
            Sut::Cache(c) => Ok(c.clear()),
        }
    }
}

fn live<'a>(m: &'a Model, k: &[u8], now: u128) -> Option<&'a Vec<u8>> {
    m.get(k).filter(|(_, e)| e.map_or(true, |e| now < e)).map(|(v, _)| v)
}

/// Every way of looking at the store has to show what the model says.
fn agree(ctx: &Ctx, s: &Sut, m: &Model, keys: &[Vec<u8>], now: u128) -> Result<(), String> {
    let listed = s.keys()?;
    for k in keys {
        let g = s.get(k)?;
        let c = s.contains(k)?;
        let l = listed.iter().filter(|x| *x == k).count();
        if g.is_some() != c || l != c as usize {
            return Err(format!("key {}: lookup {}, membership {c}, listed {l} times", short(k), g.is_some()));
        }
        // At the very end of a lifetime both answers are right, as long as they agree.
        if m.get(k).map_or(false, |(_, e)| *e == Some(now)) {
            continue;
        }
        let want = live(m, k, now);
        if g.as_ref() != want {
            let e = m.get(k).map(|(_, e)| e.map(|e| e as i128 - now as i128));
            return Err(format!(
                "key {}: got {:?}, expected {:?} (nanoseconds to the end of its lifetime: {e:?})",
                short(k), g.map(|g| short(&g)), want.map(|g| short(g))
            ));
        }
        ctx.rep.count(if want.is_some() { "visible" } else if m.contains_key(k) { "expired" } else { "absent" }, 1);
    }
    if let Some(x) = listed.iter().find(|x| !keys.contains(x)) {
        return Err(format!("unknown key {} listed", short(x)));
    }
    Ok(())
}

pub fn store(ctx: &Ctx) {
    ctx.cases("store", ctx.n(40_000, 800_000), 8, |ctx, i, rng| {
        let r = one(ctx, i, rng);
        vclock::set(None);
        if let Err((e, hist)) = r {
            let n = hist.len().saturating_sub(40);
            ctx.rep.violation("store", json!({"case": i, "what": e, "history": &hist[n..]}));
        }
    });
}

fn one(ctx: &Ctx, i: u64, rng: &mut Rng) -> Result<(), (String, Vec<String>)> {
    let mut now: u128 = 1_700_000_000 * SEC + rng.below(1_000_000_000) as u128;
    let start = now;
    vclock::set(Some(now));
    let asked = vclock::asked();
    let mut hist = vec![];
    let kind = rng.below(4);
    let many = rng.chance(1, 200);
    let nk = if many { rng.range(260, 600) } else { rng.range(1, 7) };
    let keys = paths(rng, nk, b'k');
    let scan = rng.chance(1, 2).then(|| *rng.pick(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_millis(5), Duration::from_secs(60), Duration::from_secs(1 << 40), Duration::MAX]));
    let file = ctx.scratch.join(format!("store-{i}"));
    let kprov = kp(&rng.array());
    let cpath = b"store-client".to_vec();
    let e = |e: ClientError| (format!("set-up: {e:?}"), vec![]);
    let mut s = match (kind, scan) {
        (0, _) => {
            let sh = Stronghold::default();
            let c = sh.create_client(&cpath).map_err(e)?;
            let st = c.store();
            Sut::Client(sh, c, st)
        }
        (1, _) => Sut::Store(Store::default()),
        (2, Some(f)) => {
            let st = Store::default();
            st.reload(Cache::create_with_scanner(f)).map_err(e)?;
            Sut::Store(st)
        }
        (_, Some(f)) => Sut::Cache(Cache::create_with_scanner(f)),
        _ => Sut::Cache(Cache::new()),
    };
    let mut m = Model::new();
    let steps = rng.range(10, 60);
    let r = (|| -> Result<(), String> {
        if many {
            for k in &keys {
                let v = rng.bytes(12);
                let life = rng.chance(1, 3).then(|| Duration::from_secs(rng.range(1, 60) as u64));
                if s.insert(k, &v, life)?.is_some() {
                    return Err("insert returned a previous value for a new key".into());
                }
                m.insert(k.clone(), (v, life.map(|l| now + l.as_nanos())));
            }
            ctx.rep.count("stores with hundreds of entries", 1);
        }
        for step in 0..steps {
            let k = rng.pick(&keys).clone();
            // Only ask for results that are certain: not at the very end of a lifetime.
            while m.values().any(|(_, e)| *e == Some(now)) {
                now += 1;
                vclock::set(Some(now));
            }
            let before = live(&m, &k, now).cloned();
            let op = rng.below(20);
            match op {
                0..=5 => {
                    let life: Option<Duration> = match rng.below(12) {
                        0..=3 => None,
                        4 => Some(Duration::ZERO),
                        5 => Some(Duration::from_nanos(rng.range(1, 3) as u64)),
                        6 => Some(Duration::from_millis(rng.range(1, 2000) as u64)),
                        7 => Some(Duration::from_secs(rng.range(1, 100_000) as u64)),
                        8 => Some(Duration::from_secs(rng.range(1, 300) as u64 * 31_557_600)),
                        9 => Some(*rng.pick(&[Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_secs(i64::MAX as u64), Duration::from_secs(1 << 45)])),
                        _ => Some(Duration::from_secs(rng.range(1, 60) as u64)),
                    };
                    let v = content(rng);
                    hist.push(format!("insert {} = {} lifetime {life:?}", short(&k), short(&v)));
                    let got = s.insert(&k, &v, life)?;
                    if got != before {
                        return Err(format!("insert returned {:?} as the previous value, expected {:?}", got.map(|g| short(&g)), before.map(|g| short(&g))));
                    }
                    m.insert(k, (v, life.map(|l| now + l.as_nanos())));
                }
                6..=7 => {
                    hist.push(format!("delete {}", short(&k)));
                    let got = s.delete(&k)?;
                    if got != before {
                        return Err(format!("delete returned {:?}, expected {:?}", got.map(|g| short(&g)), before.map(|g| short(&g))));
                    }
                    m.remove(&k);
                }
                8 if rng.chance(1, 3) => {
                    hist.push("clear".into());
                    s.clear()?;
                    m.clear();
                }
                9..=10 => {
                    if let Sut::Cache(c) = &mut s {
                        let v = content(rng);
                        let life = rng.chance(1, 2).then(|| Duration::from_secs(rng.range(1, 60) as u64));
                        hist.push(format!("get_or_insert {} = {} lifetime {life:?}", short(&k), short(&v)));
                        let got = c.get_or_insert(k.clone(), || v.clone(), life).clone();
                        match before {
                            Some(b) => {
                                if got != b {
                                    return Err("get_or_insert did not give the value that was there".into());
                                }
                            }
                            None => {
                                if got != v {
                                    return Err("get_or_insert did not give the value inserted".into());
                                }
                                m.insert(k, (v, life.map(|l| now + l.as_nanos())));
                            }
                        }
                    }
                }
                11 => {
                    // The same content through serialization, or through a snapshot and another instance.
                    match &mut s {
                        Sut::Cache(c) => {
                            let b = bincode::serialize(c).map_err(|e| e.to_string())?;
                            *c = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                            hist.push("serialize".into());
                        }
                        Sut::Store(st) => {
                            let b = bincode::serialize(&*st).map_err(|e| e.to_string())?;
                            *st = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                            hist.push("serialize".into());
                        }
                        Sut::Client(sh, c, st) => {
                            hist.push("commit and load".into());
                            let sp = SnapshotPath::from_path(&file);
                            let e = |e: ClientError| format!("commit and load: {e:?}");
                            sh.commit_with_keyprovider(&sp, &kprov).map_err(e)?;
                            if rng.chance(1, 2) {
                                *sh = Stronghold::default();
                            } else {
                                sh.unload_client(c.clone()).map_err(e)?;
                            }
                            *c = sh.load_client_from_snapshot(&cpath, &kprov, &sp).map_err(e)?;
                            *st = c.store();
                        }
                    }
                    ctx.rep.count("gone through serialization", 1);
                }
                12 => {
                    // Another handle shows the same.
                    match &s {
                        Sut::Client(_, c, _) => {
                            let o = Sut::Store(c.store());
                            agree(ctx, &o, &m, &keys, now)?;
                        }
                        Sut::Store(st) => {
                            let o = Sut::Store(st.clone());
                            agree(ctx, &o, &m, &keys, now)?;
                        }
                        Sut::Cache(c) => {
                            let o = Sut::Cache(c.clone());
                            agree(ctx, &o, &m, &keys, now)?;
                        }
                    }
                }
                _ => {
                    let ends: Vec<u128> = m.values().filter_map(|(_, e)| *e).filter(|e| *e > now && *e < now + 400 * YEAR).collect();
                    let d = match rng.below(10) {
                        0..=4 if !ends.is_empty() => {
                            let e = *rng.pick(&ends) - now;
                            match rng.below(4) {
                                0 => e - 1,
                                1 => e,
                                2 => e + 1,
                                _ => e / 2,
                            }
                        }
                        5 => rng.range(1, 500) as u128 * YEAR / 10,
                        6 => 1,
                        7 => SEC * rng.range(1, 100_000) as u128,
                        _ => SEC * rng.range(1, 60) as u128,
                    };
                    // Stay where times can be represented.
                    if now + d < start + 5000 * YEAR {
                        now += d;
                        vclock::set(Some(now));
                        hist.push(format!("{d} ns later"));
                    }
                }
            }
            agree(ctx, &s, &m, &keys, now).map_err(|e| format!("after step {step}: {e}"))?;
            let state: Vec<u8> = keys.iter().map(|k| match m.get(k) {
                None => 0,
                Some((_, None)) => 1,
                Some((_, Some(e))) if *e > now => 2,
                _ => 3,
            }).collect();
            ctx.rep.eval(Some(fnv(&[state, vec![op as u8, kind as u8, scan.is_some() as u8]].concat())));
        }
        Ok(())
    })();
    let _ = std::fs::remove_file(&file);
    ctx.rep.count("readings of the clock", vclock::asked() - asked);
    if i < 2 {
        ctx.rep.sample(json!({"case": i, "history": hist.iter().take(15).collect::<Vec<_>>()}));
    }
    r.map_err(|e| (e, hist))
}
