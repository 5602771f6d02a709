//! C05: damaged and foreign snapshot files.
use crate::common::*;
use crate::mach::*;
use crate::util::*;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use serde_json::json;
use std::path::Path;
use zeroize::Zeroizing;

/// Limits the address space, so that an allocation out of proportion fails.
pub fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

pub fn peak_kb() -> i64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        u.ru_maxrss
    }
}

struct Site {
    sh: Stronghold,
    cl: Client,
    m: MClient,
    path: Vec<u8>,
    /// clients that the loaded snapshot holds but that are not loaded
    other: Vec<u8>,
    other_m: MClient,
    key: [u8; 32],
}

fn fill(cl: &Client, m: &mut MClient, u: &Universe, n: usize, rng: &mut Rng) -> Result<(), String> {
    for _ in 0..n {
        vault_op(m, cl, u, rng, &mut vec![])?;
    }
    for k in &u.keys {
        if rng.chance(1, 2) {
            let v = content(rng);
            cl.store().insert(k.clone(), v.clone(), None).map_err(|e| format!("{e:?}"))?;
            m.store.insert(k.clone(), v);
        }
    }
    Ok(())
}

/// An instance with a loaded client and one that is only in its snapshot state.
fn site(u: &Universe, rng: &mut Rng) -> Result<Site, String> {
    let e = |e: ClientError| format!("{e:?}");
    let sh = Stronghold::default();
    let (path, other) = (b"loaded".to_vec(), b"other".to_vec());
    let o = sh.create_client(&other).map_err(e)?;
    let mut other_m = MClient::default();
    fill(&o, &mut other_m, u, 6, rng)?;
    sh.write_client(&other).map_err(e)?;
    sh.unload_client(o).map_err(e)?;
    let cl = sh.create_client(&path).map_err(e)?;
    let mut m = MClient::default();
    fill(&cl, &mut m, u, 10, rng)?;
    let key: [u8; 32] = rng.array();
    sh.store_snapshot_key_at_location(kp(&key), Location::generic(b"keys".to_vec(), b"key".to_vec())).map_err(e)?;
    Ok(Site { sh, cl, m, path, other, other_m, key })
}

fn unchanged(ctx: &Ctx, s: &Site, u: &Universe, rng: &mut Rng) -> Result<(), String> {
    let e = |e: ClientError| format!("{e:?}");
    check_all(&s.m, &s.cl, u, rng)?;
    for k in s.m.store.keys() {
        if s.cl.store().get(k).map_err(e)? != s.m.store.get(k).cloned() {
            return Err("the store changed".into());
        }
    }
    let p = ctx.scratch.join("site");
    let mut k = [5u8; 32];
    if rng.chance(1, 2) {
        s.sh.commit_with_keyprovider(&SnapshotPath::from_path(&p), &kp(&k)).map_err(e)?;
    } else {
        k = s.key;
        s.sh.commit(&SnapshotPath::from_path(&p)).map_err(|e| format!("commit with the stored key: {e:?}"))?;
    }
    if s.sh.get_client(b"victim").is_ok() {
        return Err("a client of the refused snapshot is loaded".into());
    }
    let n = crate::life::clients_in(&Snapshot::read_from_snapshot(&SnapshotPath::from_path(&p), k, None).map_err(|e| format!("{e:?}"))?)?;
    if n != 2 {
        return Err(format!("{n} clients committed instead of two"));
    }
    for (c, m) in [(&s.path, &s.m), (&s.other, &s.other_m)] {
        let (r, st) = dump_file(&p, k, c)?.ok_or_else(|| format!("client {} is gone", short(c)))?;
        if r != m.records() || st != m.store {
            return Err(format!("client {} changed", short(c)));
        }
    }
    let _ = std::fs::remove_file(&p);
    Ok(())
}

/// All ways of loading; what they returned.
fn load_all(s: &Site, path: &Path, key: &[u8; 32], rng: &mut Rng) -> Vec<(&'static str, bool)> {
    let sp = SnapshotPath::from_path(path);
    let k = kp(key);
    let mut out = vec![];
    let mut ways = [0, 1, 2, 3];
    rng.shuffle(&mut ways);
    for w in ways {
        out.push(match w {
            0 => ("load_snapshot", s.sh.load_snapshot(&k, &sp).is_ok()),
            1 => ("load_client_from_snapshot", s.sh.load_client_from_snapshot(b"victim", &k, &sp).is_ok()),
            2 => ("read_from_snapshot", Snapshot::read_from_snapshot(&sp, *key, None).is_ok()),
            _ => ("snapshot::read_from", engine::snapshot::read_from(path, key, &[]).is_ok()),
        });
    }
    out
}

fn damage(good: &[u8], other: &[u8], rng: &mut Rng, i: u64) -> (String, Vec<u8>) {
    let mut b = good.to_vec();
    let what = match rng.below(14) {
        0..=2 => {
            // Every byte of the header, key, tag and the beginning of the ciphertext gets its turn.
            let at = (i as usize * 31 + rng.below(31)) % b.len().min(96);
            b[at] ^= 1 << rng.below(8);
            format!("bit flipped in byte {at}")
        }
        3 => {
            let at = rng.below(b.len());
            b[at] ^= 1 << rng.below(8);
            format!("bit flipped in byte {at} of {}", b.len())
        }
        4 => {
            let at = rng.below(b.len());
            let v = rng.below(255) as u8 + 1;
            b[at] = b[at].wrapping_add(v);
            format!("byte {at} changed")
        }
        5 => {
            b.truncate(rng.below(b.len().min(80)));
            format!("truncated to {} bytes", b.len())
        }
        6 => {
            b.truncate(rng.below(b.len()));
            format!("truncated to {} bytes", b.len())
        }
        7 => {
            let n = *rng.pick(&[1, 16, 1000]);
            b.extend(rng.bytes(n));
            format!("{n} bytes appended")
        }
        8 => {
            // Parts of another snapshot that has the same key.
            let cut = *rng.pick(&[7, 39, 55]);
            b = [&good[..cut], &other[cut.min(other.len())..]].concat();
            format!("bytes from {cut} on from another snapshot")
        }
        9 => {
            let n = *rng.pick(&[0, 1, 7, 54, 55, 56, 100, 5000]);
            b = rng.bytes(n);
            format!("{n} arbitrary bytes")
        }
        10 => {
            let n = rng.range(0, 300);
            b = [&engine::snapshot::MAGIC[..], &engine::snapshot::VERSION[..], &rng.bytes(n)].concat();
            format!("header and {n} arbitrary bytes")
        }
        11 => {
            let (a, n) = (rng.below(b.len()), rng.range(1, 64));
            let e = (a + n).min(b.len());
            b[a..e].fill(*rng.pick(&[0, 0xff]));
            format!("bytes {a} to {e} overwritten")
        }
        12 => {
            let a = rng.range(7, b.len() - 1);
            let n = rng.range(1, 40).min(b.len() - a);
            b.drain(a..a + n);
            format!("{n} bytes removed at {a}")
        }
        _ => {
            let a = rng.range(0, b.len() - 1);
            let n = rng.range(1, 8);
            let ins = rng.bytes(n);
            b.splice(a..a, ins);
            format!("{n} bytes inserted at {a}")
        }
    };
    (what, b)
}

/// Content that is sealed correctly but was never written by a commit.
fn garbage(plain: &[u8], rng: &mut Rng) -> (String, Vec<u8>) {
    let mut b = plain.to_vec();
    match rng.below(8) {
        0 => {
            let n = rng.below(200);
            ("arbitrary content".into(), rng.bytes(n))
        }
        1 => {
            b.truncate(rng.below(b.len()));
            ("truncated content".into(), b)
        }
        2 | 3 => {
            // A length or count that promises far too much.
            let at = rng.below(b.len().saturating_sub(8));
            let v: u64 = *rng.pick(&[u64::MAX, 1 << 62, 1 << 40, i64::MAX as u64, 1 << 33, 0, 1, 31, 33]);
            b[at..at + 8].copy_from_slice(&v.to_le_bytes());
            (format!("number {v} at {at}"), b)
        }
        4 => {
            // The same at a place that looks like a length.
            let at: Vec<usize> = (0..b.len().saturating_sub(8)).filter(|i| b[i + 2..i + 8] == [0; 6] && (b[*i] != 0 || b[i + 1] != 0)).collect();
            if at.is_empty() {
                return ("empty content".into(), vec![]);
            }
            let at = *rng.pick(&at);
            let v: u64 = *rng.pick(&[u64::MAX, 1 << 62, 1 << 40, i64::MAX as u64, 1 << 33, 1 << 31, 0, 1, 31, 33]);
            b[at..at + 8].copy_from_slice(&v.to_le_bytes());
            (format!("length {v} at {at}"), b)
        }
        5 => {
            let n = rng.range(1, 30);
            b.extend(rng.bytes(n));
            ("content with bytes appended".into(), b)
        }
        _ => {
            for _ in 0..rng.range(1, 6) {
                let at = rng.below(b.len());
                b[at] = match rng.below(3) {
                    0 => 0,
                    1 => 0xff,
                    _ => rng.below(256) as u8,
                };
            }
            ("content with bytes changed".into(), b)
        }
    }
}

pub fn foreign(ctx: &Ctx) {
    crate::keys::known_clamping(ctx);
    limit_memory(3 << 30);
    ctx.cases("foreign", ctx.n(400, 12_000), 8, |ctx, i, rng| {
        let u = Universe::new(rng, 2, 3);
        let good = ctx.scratch.join(format!("good-{i}"));
        let other = ctx.scratch.join(format!("other-{i}"));
        let bad = ctx.scratch.join(format!("bad-{i}"));
        let key: [u8; 32] = rng.array();
        let mut what = String::from("set-up");
        let r = (|| -> Result<(), String> {
            for f in [&good, &other] {
                let sh = Stronghold::default();
                for c in [&b"victim"[..], b"loaded"] {
                    let cl = sh.create_client(c).map_err(|e| format!("{e:?}"))?;
                    let n = rng.range(0, 8);
                    fill(&cl, &mut MClient::default(), &u, n, rng)?;
                }
                sh.commit_with_keyprovider(&SnapshotPath::from_path(f), &kp(&key)).map_err(|e| format!("{e:?}"))?;
            }
            let (gb, ob) = (std::fs::read(&good).unwrap(), std::fs::read(&other).unwrap());
            let s = site(&u, rng)?;
            for k in 0..10 {
                let (w, b) = damage(&gb, &ob, rng, i * 10 + k);
                if b == gb || b == ob {
                    continue;
                }
                what = w;
                label(&format!("foreign {i}: {what}"));
                std::fs::write(&bad, &b).unwrap();
                for (way, ok) in load_all(&s, &bad, &key, rng) {
                    if ok {
                        return Err(format!("{way} succeeded"));
                    }
                }
                ctx.rep.eval(Some(fnv(what.as_bytes())));
                ctx.rep.count("damaged files refused", 1);
            }
            unchanged(ctx, &s, &u, rng).map_err(|e| format!("after refused files: {e}"))?;
            // Wrong keys, and things that are no snapshot files.
            let mut close = key;
            let bit = *rng.pick(&[3, 7, 8, 15, 247, 248, 253]);
            let bit = if rng.chance(1, 2) { bit } else { rng.range(3, 253) };
            close[bit / 8] ^= 1 << (bit % 8);
            for k in [rng.array(), close, [0; 32], [0xff; 32]] {
                what = "a wrong key".into();
                for (way, ok) in load_all(&s, &good, &k, rng) {
                    if ok {
                        return Err(format!("{way} succeeded"));
                    }
                }
                ctx.rep.eval(None);
                ctx.rep.count("wrong keys refused", 1);
            }
            let dir = ctx.scratch.join(format!("dir-{i}"));
            std::fs::create_dir_all(&dir).unwrap();
            for p in [dir.clone(), dir.join("absent"), good.join("below-a-file"), "/dev/null".into()] {
                what = format!("the path {}", p.display());
                for (way, ok) in load_all(&s, &p, &key, rng) {
                    if ok {
                        return Err(format!("{way} succeeded"));
                    }
                }
                ctx.rep.eval(None);
            }
            let _ = std::fs::remove_dir_all(&dir);
            unchanged(ctx, &s, &u, rng).map_err(|e| format!("after wrong keys and paths: {e}"))?;
            Ok(())
        })();
        for f in [&good, &other, &bad] {
            let _ = std::fs::remove_file(f);
        }
        if i < 2 {
            ctx.rep.sample(json!({"case": i, "last": what}));
        }
        if let Err(e) = r {
            ctx.rep.violation("foreign", json!({"case": i, "what": e, "file": what}));
        }
    });
    ctx.rep.note(format!("peak memory at most {} MB", (peak_kb() / 1024 / 64 + 1) * 64));
}

/// Files that are sealed with the right key but hold something else.
pub fn sealed(ctx: &Ctx) {
    limit_memory(3 << 30);
    ctx.cases("sealed", ctx.n(300, 12_000), 8, |ctx, i, rng| {
        let u = Universe::new(rng, 2, 3);
        let good = ctx.scratch.join(format!("good-{i}"));
        let bad = ctx.scratch.join(format!("bad-{i}"));
        let key: [u8; 32] = rng.array();
        let mut what = String::new();
        let r = (|| -> Result<(), String> {
            let sh = Stronghold::default();
            let cl = sh.create_client(b"victim").map_err(|e| format!("{e:?}"))?;
            fill(&cl, &mut MClient::default(), &u, 6, rng)?;
            cl.store().insert(b"life".to_vec(), b"x".to_vec(), Some(std::time::Duration::from_secs(1 << 20))).map_err(|e| format!("{e:?}"))?;
            sh.commit_with_keyprovider(&SnapshotPath::from_path(&good), &kp(&key)).map_err(|e| format!("{e:?}"))?;
            let plain = engine::snapshot::read_from(&good, &key, &[]).map_err(|e| format!("{e:?}"))?;
            let s = site(&u, rng)?;
            let mut refused = true;
            for _ in 0..25 {
                let (w, b) = garbage(&plain, rng);
                what = w;
                label(&format!("sealed {i}: {what}"));
                if rng.chance(1, 8) {
                    // Not even compressed: the file format by hand.
                    let mut f = [&engine::snapshot::MAGIC[..], &engine::snapshot::VERSION[..]].concat();
                    engine::snapshot::write(&b, &mut f, &key, &[]).map_err(|e| format!("{e:?}"))?;
                    std::fs::write(&bad, f).unwrap();
                } else {
                    engine::snapshot::write_to(&b, &bad, &key, &[]).map_err(|e| format!("{e:?}"))?;
                }
                let k = kp(&key);
                let sp = SnapshotPath::from_path(&bad);
                let before = peak_kb();
                let res = guarded(|| {
                    let r = s.sh.load_snapshot(&k, &sp).is_ok();
                    if r {
                        // Accepted: whatever it holds must not crash either.
                        let other = Stronghold::default();
                        if let Ok(c) = other.load_client_from_snapshot(b"victim", &k, &sp) {
                            for l in u.all() {
                                let _ = c.record_exists(&loc(&l));
                                let _ = holds(&c, &loc(&l), b"x");
                                let _ = c.execute_procedure(CopyRecord { source: loc(&l), target: Location::generic(b"t".to_vec(), b"t".to_vec()) });
                                let _ = c.vault(&l.0).write_secret(loc(&l), Zeroizing::new(vec![1, 2]).to_vec());
                            }
                            let _ = c.store().keys();
                            let _ = other.commit_with_keyprovider(&SnapshotPath::from_path(&good), &k);
                        }
                    }
                    r
                });
                match res {
                    Err(p) => return Err(format!("panic: {p}")),
                    Ok(ok) => {
                        refused &= !ok;
                        ctx.rep.count(if ok { "sealed content accepted" } else { "sealed content refused" }, 1);
                    }
                }
                let grown = peak_kb() - before;
                if grown > 300_000 {
                    return Err(format!("loading took {} MB", grown / 1024));
                }
                ctx.rep.eval(Some(fnv(format!("{what} {}", b.len()).as_bytes())));
            }
            if refused {
                unchanged(ctx, &s, &u, rng).map_err(|e| format!("after refused content: {e}"))?;
            }
            Ok(())
        })();
        for f in [&good, &bad] {
            let _ = std::fs::remove_file(f);
        }
        if let Err(e) = r {
            ctx.rep.violation("sealed", json!({"case": i, "what": e, "content": what}));
        }
    });
}
