//! C03, C28: the life of clients and snapshots against a reference model.
use crate::common::*;
use crate::mach::*;
use crate::util::*;
use iota_stronghold::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub type State = BTreeMap<Vec<u8>, MClient>;

struct Model {
    loaded: State,
    snap: State,
    files: Vec<Option<(usize, State)>>,
    stored: Option<usize>,
    /// the instance still holds the stored key
    stored_there: bool,
    session: Pairs,
}

fn same(m: &MClient, d: &(Records, Pairs)) -> Result<(), String> {
    let want = m.records();
    if d.0 != want {
        let missing = want.keys().filter(|k| !d.0.contains_key(k)).count();
        let extra = d.0.keys().filter(|k| !want.contains_key(k)).count();
        let differ = want.iter().filter(|(k, v)| d.0.get(k).map_or(false, |x| x != *v)).count();
        return Err(format!("records: {missing} missing, {extra} too many, {differ} with other content, of {}", want.len()));
    }
    if d.1 != m.store {
        return Err(format!("store: {} entries, expected {}", d.1.len(), m.store.len()));
    }
    Ok(())
}

/// How many clients a snapshot holds.
pub fn clients_in(s: &Snapshot) -> Result<usize, String> {
    let st = s.get_snapshot_state().map_err(|e| format!("{e:?}"))?;
    let b = bincode::serialize(&st).map_err(|e| e.to_string())?;
    Ok(u64::from_le_bytes(b[..8].try_into().unwrap()) as usize)
}

pub fn check_file(path: &Path, key: [u8; 32], want: &State, all: &[Vec<u8>]) -> Result<usize, String> {
    let s = Snapshot::read_from_snapshot(&SnapshotPath::from_path(path), key, None).map_err(|e| format!("the snapshot does not load: {e:?}"))?;
    let mut n = 0;
    for p in all {
        let cid = client_id(p);
        if s.has_data(cid) != want.contains_key(p) {
            return Err(format!("client {} in the snapshot: {}", short(p), s.has_data(cid)));
        }
        if let Some(m) = want.get(p) {
            let d = dump_state(&s.get_state(cid).map_err(|e| format!("{e:?}"))?)?;
            same(m, &d).map_err(|e| format!("client {}: {e}", short(p)))?;
            n += d.0.len() + d.1.len();
        }
    }
    let k = clients_in(&s)?;
    if k != want.len() {
        return Err(format!("{k} clients in the snapshot, {} committed", want.len()));
    }
    Ok(n)
}

/// Prints the content of a snapshot file as seen by this (new) process.
pub fn dump_job(ctx: &Ctx) {
    let path = PathBuf::from(ctx.arg(0).unwrap());
    let key: [u8; 32] = unhex(ctx.arg(1).unwrap()).try_into().unwrap();
    let kp = kp(&key);
    for c in &ctx.args[2..] {
        let sh = Stronghold::default();
        let sp = SnapshotPath::from_path(&path);
        let c = if c == "-" { vec![] } else { unhex(c) };
        let line = match sh.load_snapshot(&kp, &sp).and_then(|_| sh.load_client(&c)) {
            Ok(_) => match dump_client(ctx, &sh, &c, "child") {
                Ok(d) => format!("{:016x}", digest(&d)),
                Err(e) => format!("error {e}"),
            },
            Err(e) => format!("error {e:?}"),
        };
        println!("{line}");
    }
}

fn digest(d: &(Records, Pairs)) -> u64 {
    let mut h = 7u64;
    for ((v, r), x) in &d.0 {
        h = h.rotate_left(9) ^ fnv(v.as_ref()) ^ fnv(format!("{r}").as_bytes()).rotate_left(3) ^ fnv(x).rotate_left(5);
    }
    for (k, v) in &d.1 {
        h = h.rotate_left(9) ^ fnv(k) ^ fnv(v).rotate_left(5);
    }
    h
}

pub fn life(ctx: &Ctx) {
    let clients_first = ctx.arg(0) == Some("clients");
    let n = if clients_first { ctx.n(3000, 60_000) } else { ctx.n(2000, 40_000) };
    ctx.cases(if clients_first { "clients" } else { "snapshots" }, n, 8, |ctx, i, rng| {
        // sometimes very many clients
        let many = rng.chance(1, 60);
        let np = if many { rng.range(30, 80) } else { rng.range(2, 4) };
        let cpaths = paths(rng, np, b'c');
        let keys: Vec<[u8; 32]> = (0..3).map(|_| rng.array()).collect();
        let files: Vec<PathBuf> = (0..2).map(|k| ctx.scratch.join(format!("life-{i}-{k}"))).collect();
        let (nv, nr) = (rng.range(1, 3), rng.range(1, 4));
        let u = Universe::new(rng, nv, nr);
        let mut sh = Stronghold::default();
        let mut m = Model { loaded: State::new(), snap: State::new(), files: vec![None, None], stored: None, stored_there: false, session: Pairs::new() };
        let mut handles: BTreeMap<Vec<u8>, Vec<Client>> = BTreeMap::new();
        let mut stale: Vec<Client> = vec![];
        let mut hist: Vec<String> = vec![];
        let steps = if many { rng.range(5, 15) } else { rng.range(20, 70) };
        let r = (|| -> Result<(), String> {
            if many {
                for p in &cpaths {
                    let c = sh.create_client(p).map_err(|e| format!("{e:?}"))?;
                    let mut mc = MClient::default();
                    let (l, v) = (u.any(rng), rng.bytes(16));
                    c.vault(&l.0).write_secret(loc(&l), v.clone()).map_err(|e| format!("{e:?}"))?;
                    mc.write(&l, &v);
                    c.store().insert(b"of".to_vec(), p.clone(), None).map_err(|e| format!("{e:?}"))?;
                    mc.store.insert(b"of".to_vec(), p.clone());
                    handles.insert(p.clone(), vec![c]);
                    m.loaded.insert(p.clone(), mc);
                }
                ctx.rep.count("instances with very many clients", 1);
            }
            for step in 0..steps {
                let p = rng.pick(&cpaths).clone();
                let ps = short(&p);
                let f = rng.below(2);
                let k = rng.below(3);
                let sp = SnapshotPath::from_path(&files[f]);
                macro_rules! expect {
                    ($what:expr, $want:expr, $res:expr) => {{
                        let r = $res;
                        hist.push(format!("{} -> {}", $what, if r.is_ok() { "ok".into() } else { format!("{:?}", r.as_ref().err()) }));
                        if r.is_ok() != $want {
                            return Err(format!("{}: expected {}", $what, if $want { "success" } else { "an error" }));
                        }
                        r
                    }};
                }
                let op = if clients_first { rng.below(27) } else { *rng.pick(&[0, 1, 3, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30]) };
                match op {
                    0..=2 if !m.loaded.contains_key(&p) => {
                        let c = expect!(format!("create {ps}"), true, sh.create_client(&p)).unwrap();
                        m.loaded.insert(p.clone(), MClient::default());
                        handles.insert(p.clone(), vec![c]);
                    }
                    3..=4 => {
                        let there = m.loaded.contains_key(&p);
                        if let Ok(c) = expect!(format!("get {ps}"), there, sh.get_client(&p)) {
                            handles.get_mut(&p).unwrap().push(c);
                        }
                    }
                    5..=7 => {
                        let want = !m.loaded.contains_key(&p) && m.snap.contains_key(&p);
                        if let Ok(c) = expect!(format!("load {ps}"), want, sh.load_client(&p)) {
                            m.loaded.insert(p.clone(), m.snap[&p].clone());
                            handles.insert(p.clone(), vec![c]);
                        }
                    }
                    8 => {
                        // by a live or by a stale handle
                        if let Some(h) = handles.get(&p).and_then(|h| h.last().cloned()) {
                            expect!(format!("unload {ps}"), true, sh.unload_client(h.clone()));
                            m.loaded.remove(&p);
                            stale.extend(handles.remove(&p).unwrap());
                            if rng.chance(1, 3) {
                                expect!(format!("unload {ps} again"), false, sh.unload_client(h));
                            }
                        }
                    }
                    9 => {
                        // a handle names its client, also one kept since the client was unloaded
                        let old = stale.iter().find(|c| c.id() == &client_id(&p)).cloned();
                        let live = handles.get(&p).and_then(|h| h.first().cloned());
                        let h = if rng.chance(1, 2) { old.or(live) } else { live.or(old) };
                        if let Some(h) = h {
                            if !m.loaded.contains_key(&p) {
                                if rng.chance(1, 3) {
                                    expect!(format!("unload {ps} though it is not loaded"), false, sh.unload_client(h.clone()));
                                }
                                if m.snap.contains_key(&p) {
                                    ctx.rep.count("clients purged while not loaded", 1);
                                }
                            }
                            expect!(format!("purge {ps}"), true, sh.purge_client(h));
                            m.loaded.remove(&p);
                            m.snap.remove(&p);
                            stale.extend(handles.remove(&p).unwrap_or_default());
                            if rng.chance(1, 3) {
                                expect!(format!("load {ps} after its purge"), false, sh.load_client(&p).map(|_| ()));
                            }
                        }
                    }
                    10..=11 => {
                        let there = m.loaded.contains_key(&p);
                        expect!(format!("write_client {ps}"), there, sh.write_client(&p));
                        if there {
                            m.snap.insert(p.clone(), m.loaded[&p].clone());
                            // the same again after changes that leave the sets of records and keys as they are
                            let h = rng.pick(&handles[&p]).clone();
                            let mc = m.loaded.get_mut(&p).unwrap();
                            let live: Vec<L> = mc.recs.keys().filter(|l| mc.live(l).is_some()).cloned().collect();
                            let held: Vec<Vec<u8>> = mc.store.keys().cloned().collect();
                            if rng.chance(2, 3) {
                                if !live.is_empty() && rng.chance(2, 3) {
                                    let (l, mut v) = (rng.pick(&live).clone(), content(rng));
                                    if rng.chance(1, 3) {
                                        // of the same length
                                        v = rng.bytes(mc.live(&l).unwrap().len());
                                    }
                                    mc.write(&l, &v);
                                    expect!(format!("replace {} in {ps}", fmt(&l)), true, h.vault(&l.0).write_secret(loc(&l), v)).unwrap();
                                } else if !held.is_empty() {
                                    let (k, v) = (rng.pick(&held).clone(), content(rng));
                                    expect!(format!("replace {} in the store of {ps}", short(&k)), true, h.store().insert(k.clone(), v.clone(), None)).unwrap();
                                    mc.store.insert(k, v);
                                }
                                if rng.chance(3, 4) {
                                    expect!(format!("write_client {ps}"), true, sh.write_client(&p)).unwrap();
                                    m.snap.insert(p.clone(), m.loaded[&p].clone());
                                }
                            }
                            if rng.chance(1, 3) {
                                // what was written is what can be loaded or committed without the client
                                expect!(format!("unload {ps}"), true, sh.unload_client(h)).unwrap();
                                m.loaded.remove(&p);
                                stale.extend(handles.remove(&p).unwrap());
                                if rng.chance(1, 2) {
                                    expect!(format!("commit file {f} key {k}"), true, sh.commit_with_keyprovider(&sp, &kp(&keys[k]))).unwrap();
                                    for (p, c) in &m.loaded {
                                        m.snap.insert(p.clone(), c.clone());
                                    }
                                    m.files[f] = Some((k, m.snap.clone()));
                                    check_file(&files[f], keys[k], &m.snap, &cpaths).map_err(|e| format!("after a commit of an unloaded client: {e}"))?;
                                }
                                let c = expect!(format!("load {ps}"), true, sh.load_client(&p)).unwrap();
                                m.loaded.insert(p.clone(), m.snap[&p].clone());
                                check_all(&m.loaded[&p], &c, &u, rng).map_err(|e| format!("a client loaded again: {e}"))?;
                                if c.store().keys().map_err(|e| format!("{e:?}"))?.len() != m.loaded[&p].store.len() {
                                    return Err("a client loaded again: store".into());
                                }
                                handles.insert(p.clone(), vec![c]);
                                ctx.rep.count("clients written, unloaded and loaded again", 1);
                            }
                        }
                    }
                    12..=13 | 28 => {
                        expect!(format!("commit file {f} key {k}"), true, sh.commit_with_keyprovider(&sp, &kp(&keys[k])));
                        for (p, c) in &m.loaded {
                            m.snap.insert(p.clone(), c.clone());
                        }
                        m.files[f] = Some((k, m.snap.clone()));
                        let n = check_file(&files[f], keys[k], &m.snap, &cpaths).map_err(|e| format!("after a commit: {e}"))?;
                        ctx.rep.count("items read back from files", n as u64);
                        ctx.rep.count("commits", 1);
                    }
                    14 | 29 => {
                        // with the key kept in the instance
                        let want = m.stored.is_some() && m.stored_there;
                        let r = sh.commit(&sp);
                        hist.push(format!("commit file {f} with the stored key -> {r:?}"));
                        if want && r.is_err() {
                            return Err("commit with the stored key failed".into());
                        }
                        if m.stored.is_none() && r.is_ok() {
                            return Err("commit without any stored key succeeded".into());
                        }
                        // the states of the clients are taken over first
                        for (p, c) in &m.loaded {
                            m.snap.insert(p.clone(), c.clone());
                        }
                        if r.is_ok() {
                            let k = m.stored.unwrap();
                            m.files[f] = Some((k, m.snap.clone()));
                            check_file(&files[f], keys[k], &m.snap, &cpaths).map_err(|e| format!("after a commit with the stored key: {e}"))?;
                            ctx.rep.count("commits with a stored key", 1);
                        }
                    }
                    15 | 30 => {
                        let l = (rng.pick(&u.vaults).clone(), rng.pick(&u.recs).clone());
                        // the location may be named like a client: both are kept apart
                        let l = if rng.chance(1, 3) { (p.clone(), l.1) } else { l };
                        let r = sh.store_snapshot_key_at_location(kp(&keys[k]), loc(&l));
                        hist.push(format!("store key {k} at {} -> {r:?}", fmt(&l)));
                        r.map_err(|e| format!("store_snapshot_key_at_location: {e:?}"))?;
                        m.stored = Some(k);
                        m.stored_there = true;
                    }
                    16..=17 => {
                        let want = matches!(&m.files[f], Some((fk, _)) if *fk == k);
                        expect!(format!("load_snapshot file {f} key {k}"), want, sh.load_snapshot(&kp(&keys[k]), &sp));
                        if want {
                            m.snap = m.files[f].as_ref().unwrap().1.clone();
                            m.stored_there = false;
                            ctx.rep.count("snapshots loaded", 1);
                        } else {
                            ctx.rep.count("loads refused", 1);
                        }
                    }
                    18..=19 => {
                        let ok = matches!(&m.files[f], Some((fk, _)) if *fk == k);
                        let r = sh.load_client_from_snapshot(&p, &kp(&keys[k]), &sp);
                        hist.push(format!("load_client_from_snapshot {ps} file {f} key {k} -> {:?}", r.as_ref().map(|_| ()).err()));
                        let loaded = m.loaded.contains_key(&p);
                        if (!ok || loaded) && r.is_ok() {
                            return Err(format!("load_client_from_snapshot of {ps} succeeded (right file and key: {ok}, already loaded: {loaded})"));
                        }
                        if ok {
                            let content = m.files[f].as_ref().unwrap().1.clone();
                            if loaded {
                                // whether the instance has taken over the file's states is left open: make it do so
                                sh.load_snapshot(&kp(&keys[k]), &sp).map_err(|e| format!("load_snapshot: {e:?}"))?;
                            }
                            m.snap = content;
                            m.stored_there = false;
                            if !loaded {
                                match (r, m.snap.get(&p)) {
                                    (Ok(c), s) => {
                                        m.loaded.insert(p.clone(), s.cloned().unwrap_or_default());
                                        handles.insert(p.clone(), vec![c]);
                                    }
                                    (Err(e), Some(_)) => return Err(format!("load_client_from_snapshot: {e:?}")),
                                    (Err(_), None) => (),
                                }
                            }
                        }
                    }
                    20 if rng.chance(1, 4) => {
                        expect!("clear", true, sh.clear());
                        m.loaded.clear();
                        m.snap.clear();
                        m.stored = None;
                        m.stored_there = false;
                        m.session.clear();
                        stale.extend(std::mem::take(&mut handles).into_values().flatten());
                        for c in &stale {
                            for l in u.all() {
                                if c.record_exists(&loc(&l)).unwrap_or(true) && handles.is_empty() && m.loaded.is_empty() {
                                    // a handle from before an unload keeps its own state; cleared ones are empty
                                    ctx.rep.count("records behind stale handles", 1);
                                }
                            }
                        }
                    }
                    20 if rng.chance(1, 4) => {
                        sh = sh.reset();
                        hist.push("reset".into());
                        m = Model { loaded: State::new(), snap: State::new(), files: m.files, stored: None, stored_there: false, session: Pairs::new() };
                        stale.extend(std::mem::take(&mut handles).into_values().flatten());
                    }
                    21 => {
                        // operations behind a stale handle have no effect on the instance
                        if let Some(c) = stale.last() {
                            let _ = vault_op(&mut MClient::default(), c, &u, rng, &mut vec![]);
                            let _ = c.store().insert(b"stale".to_vec(), b"stale".to_vec(), None);
                            hist.push("operation behind a stale handle".into());
                        }
                    }
                    22 => {
                        let key = rng.pick(&u.keys).clone();
                        if rng.chance(1, 2) {
                            let v = content(rng);
                            let old = sh.store().insert(key.clone(), v.clone(), None).map_err(|e| format!("{e:?}"))?;
                            if old != m.session.insert(key, v) {
                                return Err("session store insert: wrong previous value".into());
                            }
                        } else if sh.store().get(&key).map_err(|e| format!("{e:?}"))? != m.session.get(&key).cloned() {
                            return Err("session store: wrong value".into());
                        }
                    }
                    _ => {
                        let some: Vec<Vec<u8>> = m.loaded.keys().cloned().collect();
                        if some.is_empty() {
                            continue;
                        }
                        let p = rng.pick(&some).clone();
                        for _ in 0..rng.range(1, 4) {
                            let h = rng.pick(&handles[&p]).clone();
                            let mc = m.loaded.get_mut(&p).unwrap();
                            hist.push(format!("client {}:", short(&p)));
                            if rng.chance(1, 4) {
                                let key = rng.pick(&u.keys).clone();
                                if rng.chance(2, 3) {
                                    let v = content(rng);
                                    hist.push(format!("insert {}", short(&key)));
                                    let old = h.store().insert(key.clone(), v.clone(), None).map_err(|e| format!("{e:?}"))?;
                                    if old != mc.store.insert(key, v) {
                                        return Err("insert: wrong previous value".into());
                                    }
                                } else {
                                    hist.push(format!("delete {}", short(&key)));
                                    let old = h.store().delete(&key).map_err(|e| format!("{e:?}"))?;
                                    if old != mc.store.remove(&key) {
                                        return Err("delete: wrong previous value".into());
                                    }
                                }
                            } else {
                                vault_op(mc, &h, &u, rng, &mut hist)?;
                            }
                        }
                    }
                }
                // what can be obtained, and what it holds
                for p in &cpaths {
                    let r = sh.get_client(p);
                    if r.is_ok() != m.loaded.contains_key(p) {
                        return Err(format!("get_client({}) is {}, expected the opposite", short(p), if r.is_ok() { "ok" } else { "an error" }));
                    }
                    if let (Ok(c), Some(mc)) = (r, m.loaded.get(p)) {
                        if c.id() != &client_id(p) {
                            return Err("the client has another identifier".into());
                        }
                        let full = step + 1 == steps || rng.chance(1, 12);
                        let h = rng.pick(&handles[p]);
                        if full {
                            check_all(mc, &c, &u, rng)?;
                            check_all(mc, h, &u, rng)?;
                        } else {
                            check_loc(mc, h, &u.any(rng), rng)?;
                        }
                        let key = rng.pick(&u.keys);
                        for s in [c.store(), h.store()] {
                            if s.get(key).map_err(|e| format!("{e:?}"))? != mc.store.get(key).cloned()
                                || s.contains_key(key).map_err(|e| format!("{e:?}"))? != mc.store.contains_key(key)
                            {
                                return Err(format!("store of {} at {}", short(p), short(key)));
                            }
                            let mut ks = s.keys().map_err(|e| format!("{e:?}"))?;
                            ks.sort();
                            if ks != mc.store.keys().cloned().collect::<Vec<_>>() {
                                return Err(format!("store keys of {}", short(p)));
                            }
                        }
                    }
                }
                let st: Vec<String> = m.loaded.iter().map(|(p, c)| format!("{}{}{}", short(p), c.recs.len(), c.store.len())).collect();
                let sn: Vec<String> = m.snap.iter().map(|(p, c)| format!("{}{}{}", short(p), c.recs.len(), c.store.len())).collect();
                ctx.rep.eval(Some(fnv(format!("{op}{st:?}{sn:?}{:?}", m.stored).as_bytes())));
                ctx.rep.seen("sets of loaded and snapshot clients", fnv(format!("{:?}{:?}",
                    cpaths.iter().map(|p| (m.loaded.contains_key(p), m.snap.contains_key(p))).collect::<Vec<_>>(), m.stored_there).as_bytes()));
            }
            // every file still holds the state of its last commit, in this process and in a new one
            for f in 0..2 {
                if let Some((k, st)) = &m.files[f] {
                    check_file(&files[f], keys[*k], st, &cpaths).map_err(|e| format!("at the end, file {f}: {e}"))?;
                    for w in 0..3 {
                        if w != *k && Snapshot::read_from_snapshot(&SnapshotPath::from_path(&files[f]), keys[w], None).is_ok() {
                            return Err("the snapshot loads with another key".into());
                        }
                    }
                    if rng.chance(1, 3) {
                        let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
                        cmd.args(["dump", files[f].to_str().unwrap(), &hex(&keys[*k])]);
                        let some: Vec<_> = if many { (0..4).map(|_| rng.pick(&cpaths).clone()).collect() } else { cpaths.clone() };
                        for p in &some {
                            cmd.arg(if p.is_empty() { "-".into() } else { hex(p) });
                        }
                        cmd.args(["--scratch", ctx.scratch.to_str().unwrap(), "--out", "/dev/null"]);
                        let o = cmd.output().map_err(|e| e.to_string())?;
                        let lines: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
                        for (p, line) in some.iter().zip(&lines) {
                            match st.get(p) {
                                Some(mc) if *line == format!("{:016x}", digest(&(mc.records(), mc.store.clone()))) => (),
                                None if line.starts_with("error") => (),
                                _ => return Err(format!("in a new process, client {}: {line}", short(p))),
                            }
                        }
                        if lines.len() != some.len() {
                            return Err(format!("the new process ended early: {}", String::from_utf8_lossy(&o.stderr)));
                        }
                        ctx.rep.count("files read in a new process", 1);
                    }
                }
            }
            Ok(())
        })();
        for f in &files {
            let _ = std::fs::remove_file(f);
        }
        if i == 0 {
            ctx.rep.sample(json!({"history": hist.iter().take(30).collect::<Vec<_>>()}));
        }
        if let Err(e) = r {
            let n = hist.len();
            ctx.rep.violation(if clients_first { "clients" } else { "snapshots" },
                json!({"case": i, "what": e, "history": hist[n.saturating_sub(80)..].to_vec()}));
        }
    });
}
