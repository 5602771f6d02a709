//! C04: commits that die or fail at every file operation, and commits that race.
use crate::common::*;
use crate::io::{observe, Plan, Seen};
use crate::life::{check_file, State};
use crate::mach::*;
use crate::util::*;
use iota_stronghold::*;
use serde_json::json;
use std::path::{Path, PathBuf};

/// Runs `f` in a child; its exit code, or minus the signal.
pub fn in_child(f: impl FnOnce() -> i32) -> i32 {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(3);
            libc::_exit(r);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) {
            libc::WEXITSTATUS(st)
        } else {
            -libc::WTERMSIG(st)
        }
    }
}

struct World {
    sh: Stronghold,
    paths: Vec<Vec<u8>>,
    handles: Vec<Option<Client>>,
    model: State,
    u: Universe,
    key: [u8; 32],
    stored: bool,
    dir: PathBuf,
    file: PathBuf,
}

impl World {
    fn change(&mut self, rng: &mut Rng, hist: &mut Vec<String>, n: usize) -> Result<(), String> {
        for _ in 0..n {
            let k = rng.below(self.paths.len());
            let Some(h) = self.handles[k].clone() else { continue };
            let m = self.model.get_mut(&self.paths[k]).unwrap();
            if rng.chance(1, 4) {
                let (key, v) = (rng.pick(&self.u.keys).clone(), content(rng));
                h.store().insert(key.clone(), v.clone(), None).map_err(|e| format!("{e:?}"))?;
                m.store.insert(key, v);
            } else {
                vault_op(m, &h, &self.u, rng, hist)?;
            }
        }
        Ok(())
    }
    fn commit(&self) -> Result<(), String> {
        let sp = SnapshotPath::from_path(&self.file);
        if self.stored {
            self.sh.commit(&sp)
        } else {
            self.sh.commit_with_keyprovider(&sp, &kp(&self.key))
        }
        .map_err(|e| format!("{e:?}"))
    }
    fn check_file(&self, st: &State) -> Result<(), String> {
        check_file(&self.file, self.key, st, &self.paths).map(|_| ())
    }
    fn check_memory(&self, rng: &mut Rng) -> Result<(), String> {
        for (k, h) in self.handles.iter().enumerate() {
            if let Some(h) = h {
                check_all(&self.model[&self.paths[k]], h, &self.u, rng)?;
                let g = self.sh.get_client(&self.paths[k]).map_err(|e| format!("get_client: {e:?}"))?;
                check_loc(&self.model[&self.paths[k]], &g, &self.u.any(rng), rng)?;
            }
        }
        Ok(())
    }
    /// Puts the file back to what it was.
    fn restore(&self, prev: &Option<Vec<u8>>, made_dir: bool) {
        let _ = std::fs::remove_file(&self.file);
        match prev {
            Some(b) => std::fs::write(&self.file, b).expect("restore the file"),
            None if made_dir => {
                let _ = std::fs::remove_dir_all(&self.dir);
            }
            None => (),
        }
    }
    /// `true` if the file is the previous one, `false` if it is the complete new one.
    fn old_or_new(&self, prev: &Option<Vec<u8>>) -> Result<bool, String> {
        let now = std::fs::read(&self.file).ok();
        if now == *prev {
            return Ok(true);
        }
        if now.is_none() {
            return Err("the previous snapshot is gone".into());
        }
        self.check_file(&self.model).map_err(|e| format!("neither the previous nor the complete new snapshot ({} bytes): {e}", now.map_or(0, |b| b.len())))?;
        Ok(false)
    }
}

fn durable(seen: &Seen, file: &Path) -> Result<(), String> {
    if let Some(b) = seen.bad.first() {
        return Err(format!("not durable: {b}"));
    }
    match seen.unflushed(file) {
        0 => Ok(()),
        n => Err(format!("success reported with {n} bytes of the snapshot not flushed")),
    }
}

pub fn crash(ctx: &Ctx) {
    let n = ctx.n(400, 12_000);
    ctx.cases("commit", n, 1, |ctx, i, rng| {
        let np = rng.range(1, 3);
        let (nv, nr) = (rng.range(1, 3), rng.range(1, 4));
        let dir = ctx.scratch.join(format!("crash-{i}"));
        let nested = rng.chance(1, 5);
        let d = if nested { dir.join("a/b") } else { dir.clone() };
        let had = rng.chance(3, 5);
        let made_dir = nested && !had;
        let mut w = World {
            sh: Stronghold::default(),
            paths: paths(rng, np, b'c'),
            handles: vec![],
            model: State::new(),
            u: Universe::new(rng, nv, nr),
            key: rng.array(),
            stored: rng.chance(1, 3),
            file: d.join(rng.pick(&["snapshot", "s.stronghold", "x"])),
            dir: if made_dir { dir.clone() } else { d.clone() },
        };
        if !made_dir {
            std::fs::create_dir_all(&d).expect("scratch");
        }
        let mut hist = vec![];
        let r = (|| -> Result<(), String> {
            for p in w.paths.clone() {
                w.handles.push(Some(w.sh.create_client(&p).map_err(|e| format!("{e:?}"))?));
                w.model.insert(p, MClient::default());
            }
            let n = rng.range(2, 12);
            w.change(rng, &mut hist, n)?;
            if w.stored {
                w.sh.store_snapshot_key_at_location(kp(&w.key), Location::generic("key", "key")).map_err(|e| format!("{e:?}"))?;
            }
            // one client only in the snapshot in memory
            if np > 1 && rng.chance(1, 3) {
                w.sh.write_client(&w.paths[0]).map_err(|e| format!("{e:?}"))?;
                w.sh.unload_client(w.handles[0].take().unwrap()).map_err(|e| format!("{e:?}"))?;
            }
            if had {
                let ((), seen) = observe(Plan::Watch, false, || w.commit()).pipe(|(r, s)| (r.expect("first commit"), s));
                durable(&seen, &w.file)?;
            }
            let prev = std::fs::read(&w.file).ok();
            let before = w.model.clone();
            let n = rng.range(1, 6);
            w.change(rng, &mut hist, n)?;

            // a death at every point
            let mut at = 0;
            'points: loop {
                for (after, keep) in [(false, 0), (false, 1), (false, rng.range(2, 300)), (false, rng.range(300, 30_000)), (true, 0)] {
                    let rc = in_child(|| {
                        let (r, seen) = observe(Plan::Die { at, after, keep }, false, || w.commit());
                        match (r, seen.log.len()) {
                            (Ok(()), n) if n <= at => 10,
                            (Err(_), n) if n <= at => 11,
                            _ => 12,
                        }
                    });
                    match rc {
                        77 => (),
                        10 => {
                            w.check_file(&w.model).map_err(|e| format!("after a commit that succeeded in a child: {e}"))?;
                            w.restore(&prev, made_dir);
                            break 'points;
                        }
                        rc => return Err(format!("a commit without a fault in a child: {rc}")),
                    }
                    let old = w.old_or_new(&prev).map_err(|e| format!("death at operation {at} (after it: {after}, {keep} bytes of a write): {e}"))?;
                    ctx.rep.eval(Some(fnv(format!("die {at} {after} {} {} {old} {had} {}", keep.min(2), w.stored, w.model.len()).as_bytes())));
                    ctx.rep.count(if old { "deaths that left the old snapshot" } else { "deaths that left the new snapshot" }, 1);
                    if rng.chance(1, 4) {
                        // a new start from what is there
                        let rc = in_child(|| {
                            let sh = Stronghold::default();
                            let sp = SnapshotPath::from_path(&w.file);
                            let st = if old { &before } else { &w.model };
                            if prev.is_some() || !old {
                                if sh.load_snapshot(&kp(&w.key), &sp).is_err() {
                                    return 20;
                                }
                                for (p, _) in st {
                                    if sh.load_client(p).is_err() {
                                        return 21;
                                    }
                                }
                            }
                            if sh.commit_with_keyprovider(&sp, &kp(&w.key)).is_err() {
                                return 22;
                            }
                            if (prev.is_some() || !old) && w.check_file(st).is_err() {
                                return 23;
                            }
                            0
                        });
                        if rc != 0 {
                            return Err(format!("starting again after a death at operation {at}: {}", match rc { 20 => "load_snapshot fails", 21 => "load_client fails", 22 => "the next commit fails", 23 => "the next commit is wrong", _ => "panic" }));
                        }
                        ctx.rep.count("new starts after a death", 1);
                    }
                    w.restore(&prev, made_dir);
                }
                at += 1;
                if at > 400 {
                    return Err("the commit does not end".into());
                }
            }
            ctx.rep.seen("operations of a commit", at as u64);

            // a failure at every point
            let mut at = 0;
            loop {
                let plans = [
                    Plan::Fail { at, errno: libc::EIO, sticky: false },
                    Plan::Fail { at, errno: libc::ENOSPC, sticky: true },
                    Plan::Fail { at, errno: *rng.pick(&[libc::EACCES, libc::EDQUOT, libc::EROFS, libc::EMFILE]), sticky: false },
                    Plan::Fail { at, errno: libc::EINTR, sticky: false },
                    Plan::Short { at, keep: rng.range(1, 40) },
                    Plan::Short { at, keep: rng.range(1, 5000) },
                    // zero bytes written is a failure to write
                    Plan::Short { at, keep: 0 },
                ];
                let mut reached = false;
                for plan in plans {
                    let (r, seen) = observe(plan, false, || guarded(|| w.commit()));
                    let r = r.map_err(|p| format!("{plan:?}: panic: {p}"))?;
                    let what = seen.log.get(at).map(|o| o.kind).unwrap_or("nothing");
                    let tell = |e: String| format!("{plan:?} at {what}, commit gave {r:?}: {e}");
                    if seen.log.len() <= at {
                        r.clone().map_err(|_| tell("a commit without a fault failed".into()))?;
                    } else {
                        reached = true;
                    }
                    let old = w.old_or_new(&prev).map_err(tell)?;
                    if r.is_ok() {
                        w.check_file(&w.model).map_err(|e| tell(format!("success reported: {e}")))?;
                        durable(&seen, &w.file).map_err(tell)?;
                    }
                    ctx.rep.eval(Some(fnv(format!("{plan:?} {what} {old} {} {had}", r.is_ok()).as_bytes())));
                    ctx.rep.count(&format!("failures at {what}, commit {}", if r.is_ok() { "succeeded" } else { "failed" }), 1);
                    ctx.rep.seen("operations of a failed commit", fnv(format!("{:?}", seen.log.iter().map(|o| (o.kind, o.ret < 0)).collect::<Vec<_>>()).as_bytes()));
                    if r.is_err() || rng.chance(1, 4) {
                        w.check_memory(rng).map_err(|e| tell(format!("afterwards, in memory: {e}")))?;
                        if rng.chance(1, 4) && r.is_err() {
                            w.change(rng, &mut hist, 2).map_err(|e| tell(format!("afterwards: {e}")))?;
                        }
                        let (r2, seen) = observe(Plan::Watch, false, || w.commit());
                        r2.map_err(|e| tell(format!("the next commit fails: {e}")))?;
                        w.check_file(&w.model).map_err(|e| tell(format!("the next commit: {e}")))?;
                        durable(&seen, &w.file).map_err(tell)?;
                    }
                    w.restore(&prev, made_dir);
                }
                if !reached {
                    break;
                }
                at += 1;
            }
            Ok(())
        })();
        let _ = std::fs::remove_dir_all(&dir);
        if let Err(e) = r {
            ctx.rep.violation("commit", json!({"case": i, "what": e, "stored key": w.stored, "previous snapshot": had, "history": hist}));
        }
    });
}

trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> Pipe for T {}

/// Several processes commit to one path, some are killed, one loads all the time.
pub fn racing(ctx: &Ctx) {
    let n = ctx.n(200, 6000);
    ctx.cases("racing commits", n, 1, |ctx, i, rng| {
        let file = ctx.scratch.join(format!("racing-{i}"));
        let key: [u8; 32] = rng.array();
        let size = content(rng).len().max(20) * rng.range(1, 40);
        let write = |k: u8, round: u32| {
            let sh = Stronghold::default();
            let c = sh.create_client("client").map_err(|_| ())?;
            let mut v = vec![k; size];
            v[..4].copy_from_slice(&round.to_le_bytes());
            for r in 0..3u8 {
                c.vault("v").write_secret(Location::generic("v", vec![r]), v.clone()).map_err(|_| ())?;
            }
            sh.commit_with_keyprovider(&SnapshotPath::from_path(&file), &kp(&key)).map_err(|_| ())
        };
        write(0, 0).expect("first commit");
        let writers = rng.range(2, 4);
        let mut pids = vec![];
        for k in 0..writers {
            unsafe {
                let pid = libc::fork();
                assert!(pid >= 0);
                if pid == 0 {
                    let r = std::panic::catch_unwind(|| {
                        for round in 0..if k == 0 { 12 } else { 100_000 } {
                            if write(k as u8 + 1, round).is_err() {
                                return 1;
                            }
                        }
                        0
                    });
                    libc::_exit(r.unwrap_or(3));
                }
                pids.push(pid);
            }
        }
        let read = || -> Result<(u8, u32), String> {
            let (recs, _) = dump_file(&file, key, b"client")?.ok_or("the client is missing")?;
            let all: Vec<&Vec<u8>> = recs.values().collect();
            if all.len() != 3 || all.iter().any(|v| *v != all[0] || v.len() != size || v[4..].iter().any(|b| *b != v[4])) {
                return Err("a mixture of snapshots".into());
            }
            Ok((all[0][4], u32::from_le_bytes(all[0][..4].try_into().unwrap())))
        };
        let mut bad = None;
        let mut loads = 0;
        let mut st = 0;
        // writer 0 makes its commits; the others are killed somewhere
        let mut kill_at: Vec<u32> = (1..writers).map(|_| rng.range(1, 12) as u32).collect();
        let limit = std::time::Instant::now();
        loop {
            match read() {
                Ok(x) => {
                    loads += 1;
                    ctx.rep.seen("snapshots seen", fnv(format!("{x:?}{i}").as_bytes()));
                    ctx.rep.eval(Some(fnv(format!("{x:?}{writers}").as_bytes())));
                }
                Err(e) => {
                    bad = Some(format!("during commits: {e}"));
                    break;
                }
            }
            for (k, at) in kill_at.iter_mut().enumerate() {
                if *at > 0 {
                    *at -= 1;
                    if *at == 0 {
                        unsafe { libc::kill(pids[k + 1], libc::SIGKILL) };
                    }
                }
            }
            let r = unsafe { libc::waitpid(pids[0], &mut st, libc::WNOHANG) };
            if r == pids[0] {
                break;
            }
            if limit.elapsed().as_secs() > 100 {
                ctx.rep.count("racing commits given up for time", 1);
                unsafe { libc::kill(pids[0], libc::SIGKILL) };
                break;
            }
        }
        let first_ended = libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0;
        for (k, p) in pids.iter().enumerate() {
            unsafe {
                libc::kill(*p, libc::SIGKILL);
                let mut st = 0;
                if k > 0 && libc::waitpid(*p, &mut st, 0) == *p && libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0 {
                    bad.get_or_insert(format!("a commit failed next to others (exit {})", libc::WEXITSTATUS(st)));
                }
            }
        }
        if first_ended {
            bad.get_or_insert("a commit failed next to others".into());
        }
        if bad.is_none() {
            if let Err(e) = read() {
                bad = Some(format!("after all: {e}"));
            }
        }
        ctx.rep.count("loads next to commits", loads);
        for e in std::fs::read_dir(&ctx.scratch).expect("scratch").flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("racing-{i}")) {
                let _ = std::fs::remove_file(e.path());
            }
        }
        if let Some(e) = bad {
            ctx.rep.violation("racing-commits", json!({"case": i, "what": e}));
        }
    });
}
