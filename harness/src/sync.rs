//! C12, C13: synchronising clients, vaults and snapshot states, against a model of the configured merge.
use crate::common::*;
use crate::util::*;
use crypto::keys::x25519;
use engine::vault::{ClientId, RecordId, VaultId};
use iota_stronghold::sync::{MergePolicy, SyncClientsConfig, SyncSnapshotsConfig};
use iota_stronghold::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;

type Bytes = Vec<u8>;
/// `None` is a revoked record that was not collected.
type Vaults = BTreeMap<VaultId, BTreeMap<RecordId, Option<Bytes>>>;

#[derive(Clone, Default, Debug)]
struct Cfg {
    select: Option<Vec<Bytes>>,
    records: Vec<(Bytes, Vec<Bytes>)>,
    map: Vec<(Bytes, Bytes)>,
    keep: bool,
}

fn vid(v: &[u8]) -> VaultId {
    Location::generic(v.to_vec(), b"x".to_vec()).resolve().0
}

fn rid(v: &[u8], r: &[u8]) -> RecordId {
    Location::generic(v.to_vec(), r.to_vec()).resolve().1
}

fn policy(keep: bool) -> MergePolicy {
    if keep {
        MergePolicy::KeepOld
    } else {
        MergePolicy::Replace
    }
}

impl Cfg {
    fn config(&self) -> SyncClientsConfig {
        let mut c = SyncClientsConfig::new(policy(self.keep));
        if let Some(s) = &self.select {
            c.sync_selected_vaults(s.clone());
        }
        for (v, r) in &self.records {
            c.sync_selected_record(v.clone(), r.clone());
        }
        if !self.map.is_empty() {
            c.map_vaults(self.map.iter().cloned().collect::<HashMap<_, _>>());
        }
        c
    }
    /// Where a live record of the source goes; `None` if it is not selected.
    fn goes(&self, v: &VaultId, r: &RecordId) -> Option<VaultId> {
        if self.select.as_ref().map_or(false, |s| !s.iter().any(|p| vid(p) == *v)) {
            return None;
        }
        if let Some((p, rs)) = self.records.iter().find(|(p, _)| vid(p) == *v) {
            if !rs.iter().any(|x| rid(p, x) == *r) {
                return None;
            }
        }
        Some(self.map.iter().find(|(a, _)| vid(a) == *v).map_or(*v, |(_, b)| vid(b)))
    }
    fn random(rng: &mut Rng, vaults: &[Bytes], recs: &[Bytes]) -> Cfg {
        let sub = |rng: &mut Rng, xs: &[Bytes]| -> Vec<Bytes> {
            let mut v: Vec<Bytes> = xs.iter().filter(|_| rng.chance(1, 2)).cloned().collect();
            if rng.chance(1, 4) {
                v.extend(v.first().cloned());
            }
            v
        };
        let mut c = Cfg { keep: rng.chance(1, 2), ..Default::default() };
        if rng.chance(1, 2) {
            c.select = Some(sub(rng, vaults));
        }
        for v in vaults {
            if rng.chance(1, 4) {
                c.records.push((v.clone(), sub(rng, recs)));
            }
            if rng.chance(1, 3) {
                c.map.push((v.clone(), rng.pick(vaults).clone()));
            }
        }
        c
    }
    fn show(&self) -> String {
        let l = |x: &[Bytes]| x.iter().map(|b| short(b)).collect::<Vec<_>>().join(",");
        format!(
            "{} select {:?} records {:?} map {:?}",
            if self.keep { "keep" } else { "replace" },
            self.select.as_ref().map(|s| l(s)),
            self.records.iter().map(|(v, r)| format!("{}:{}", short(v), l(r))).collect::<Vec<_>>(),
            self.map.iter().map(|(a, b)| format!("{}->{}", short(a), short(b))).collect::<Vec<_>>(),
        )
    }
}

/// Merges; `None` if two records would go to one place, where the outcome is not specified. Counts what happened.
fn merge(src: &Vaults, tgt: &Vaults, c: &Cfg, seen: &mut [u64; 4]) -> Option<Vaults> {
    let mut out = tgt.clone();
    let mut used = BTreeSet::new();
    for (v, rs) in src {
        for (r, x) in rs {
            let (Some(x), Some(to)) = (x, c.goes(v, r)) else {
                seen[3] += 1;
                continue;
            };
            if !used.insert((to, *r)) {
                return None;
            }
            let e = out.entry(to).or_default().entry(*r).or_insert(None);
            match e {
                Some(_) if c.keep => seen[2] += 1,
                Some(_) => {
                    seen[1] += 1;
                    *e = Some(x.clone())
                }
                None => {
                    seen[0] += 1;
                    *e = Some(x.clone())
                }
            }
        }
    }
    Some(out)
}

fn live(v: &Vaults) -> Records {
    v.iter().flat_map(|(v, rs)| rs.iter().filter_map(move |(r, x)| x.clone().map(|x| ((*v, *r), x)))).collect()
}

fn differs(got: &Records, want: &Records) -> Option<String> {
    if got == want {
        return None;
    }
    Some(format!(
        "{} records missing, {} too many, {} with other content, of {}",
        want.keys().filter(|k| !got.contains_key(k)).count(),
        got.keys().filter(|k| !want.contains_key(k)).count(),
        want.iter().filter(|(k, x)| got.get(k).map_or(false, |g| g != *x)).count(),
        want.len()
    ))
}

struct Side {
    path: Bytes,
    inst: usize,
    cl: Client,
    m: Vaults,
    store: Pairs,
}

fn mutate(cl: &Client, m: &mut Vaults, vaults: &[Bytes], recs: &[Bytes], rng: &mut Rng, hist: &mut Vec<String>) -> Result<(), String> {
    let (v, r) = (rng.pick(vaults).clone(), rng.pick(recs).clone());
    let l = Location::generic(v.clone(), r.clone());
    let (vi, ri) = l.resolve();
    match rng.below(6) {
        0..=3 => {
            let x = content(rng);
            let revoked = m.get(&vi).map_or(false, |m| m.get(&ri) == Some(&None));
            let ok = cl.vault(&v).write_secret(l, x.clone());
            hist.push(format!("write {}/{}", short(&v), short(&r)));
            if ok.is_ok() == revoked {
                return Err(format!("write_secret: {ok:?}"));
            }
            if !revoked {
                m.entry(vi).or_default().insert(ri, Some(x));
            }
        }
        4 => {
            hist.push(format!("revoke {}/{}", short(&v), short(&r)));
            cl.vault(&v).revoke_secret(&r).map_err(|e| format!("revoke: {e:?}"))?;
            if let Some(x) = m.get_mut(&vi).and_then(|m| m.get_mut(&ri)) {
                *x = None;
            }
        }
        _ => {
            hist.push(format!("delete {}/{}", short(&v), short(&r)));
            cl.vault(&v).delete_secret(&r).map_err(|e| format!("delete: {e:?}"))?;
            if let Some(m) = m.get_mut(&vi) {
                m.remove(&ri);
                m.retain(|_, x| x.is_some());
            }
        }
    }
    Ok(())
}

fn verify(ctx: &Ctx, insts: &[Stronghold], sides: &[Side], tag: &str) -> Result<(), String> {
    for (i, sh) in insts.iter().enumerate() {
        let p = ctx.scratch.join(format!("sync-{tag}-{i}"));
        let k = [9u8; 32];
        sh.commit_with_keyprovider(&SnapshotPath::from_path(&p), &kp(&k)).map_err(|e| format!("{e:?}"))?;
        let s = Snapshot::read_from_snapshot(&SnapshotPath::from_path(&p), k, None).map_err(|e| format!("{e:?}"))?;
        let _ = std::fs::remove_file(&p);
        for c in sides.iter().filter(|c| c.inst == i) {
            let (got, store) = dump_state(&s.get_state(client_id(&c.path)).map_err(|e| format!("{e:?}"))?)?;
            if let Some(d) = differs(&got, &live(&c.m)) {
                return Err(format!("client {}: {d}", short(&c.path)));
            }
            if store != c.store {
                return Err(format!("client {}: its store changed", short(&c.path)));
            }
        }
    }
    Ok(())
}

fn usable(c: &Side, vaults: &[Bytes], recs: &[Bytes], rng: &mut Rng) -> Result<(), String> {
    let (v, r) = (rng.pick(vaults), rng.pick(recs));
    let l = Location::generic(v.clone(), r.clone());
    let (vi, ri) = l.resolve();
    let want = c.m.get(&vi).and_then(|m| m.get(&ri)).cloned().flatten();
    let ex = c.cl.record_exists(&l).map_err(|e| format!("{e:?}"))?;
    if ex != want.is_some() {
        return Err(format!("record_exists({}/{}) = {ex}", short(v), short(r)));
    }
    match (&want, holds(&c.cl, &l, want.as_deref().unwrap_or(b""))) {
        (Some(_), Ok(true)) | (None, Err(_)) => Ok(()),
        (_, r) => Err(format!("reading {}/{}: {r:?}", short(v), short(r.as_ref().map_or(b"error", |_| b"result")))),
    }
}

/// C12
pub fn clients(ctx: &Ctx) {
    ctx.cases("sync", ctx.n(1200, 40_000), 8, |ctx, i, rng| {
        let (nv, nr) = (rng.range(2, 4), rng.range(2, 5));
        let vaults = paths(rng, nv, b'v');
        let recs = paths(rng, nr, b'r');
        let cpaths = paths(rng, 3, b'c');
        let insts = [Stronghold::default(), Stronghold::default()];
        let mut hist: Vec<String> = vec![];
        let r = (|| -> Result<(), String> {
            let e = |e: ClientError| format!("{e:?}");
            let mut sides = vec![];
            for (k, p) in cpaths.iter().enumerate() {
                let inst = if k == 0 { 0 } else { rng.below(2) };
                let cl = insts[inst].create_client(p).map_err(e)?;
                let mut store = Pairs::new();
                if rng.chance(1, 2) {
                    let v = content(rng);
                    cl.store().insert(b"s".to_vec(), v.clone(), None).map_err(e)?;
                    store.insert(b"s".to_vec(), v);
                }
                sides.push(Side { path: p.clone(), inst, cl, m: Vaults::new(), store });
            }
            for s in sides.iter_mut() {
                for _ in 0..rng.range(2, 12) {
                    mutate(&s.cl, &mut s.m, &vaults, &recs, rng, &mut hist)?;
                }
            }
            for step in 0..rng.range(6, 16) {
                let a = rng.below(3);
                let b = if rng.chance(1, 8) { a } else { (a + rng.range(1, 2)) % 3 };
                match rng.below(10) {
                    0..=2 => {
                        for _ in 0..rng.range(1, 5) {
                            let s = &mut sides[a];
                            hist.push(format!("client {a}"));
                            mutate(&s.cl, &mut s.m, &vaults, &recs, rng, &mut hist)?;
                        }
                        continue;
                    }
                    3 => {
                        // The target may come from a snapshot.
                        let p = ctx.scratch.join(format!("sync-reload-{i}"));
                        let sp = SnapshotPath::from_path(&p);
                        let k = kp(&rng.array());
                        hist.push(format!("commit and load client {a}"));
                        insts[sides[a].inst].commit_with_keyprovider(&sp, &k).map_err(e)?;
                        insts[sides[a].inst].unload_client(sides[a].cl.clone()).map_err(e)?;
                        sides[a].cl = insts[sides[a].inst].load_client_from_snapshot(&cpaths[a], &k, &sp).map_err(e)?;
                        let _ = std::fs::remove_file(&p);
                    }
                    4..=5 => {
                        let (sv, tv) = (rng.pick(&vaults).clone(), rng.pick(&vaults).clone());
                        let sel: Option<Vec<Bytes>> = rng.chance(1, 2).then(|| recs.iter().filter(|_| rng.chance(1, 2)).cloned().collect());
                        let c = Cfg {
                            select: Some(vec![sv.clone()]),
                            records: sel.iter().map(|s| (sv.clone(), s.clone())).collect(),
                            map: vec![(sv.clone(), tv.clone())],
                            keep: rng.chance(1, 2),
                        };
                        let ids = sel.as_ref().map(|s| s.iter().map(|r| rid(&sv, r)).collect::<Vec<_>>());
                        let mut seen = [0; 4];
                        let Some(m) = merge(&sides[a].m, &sides[a].m, &c, &mut seen) else { continue };
                        hist.push(format!("client {a} sync_vaults {}", c.show()));
                        for round in 0..rng.range(1, 2) {
                            sides[a].cl.sync_vaults(sv.clone(), tv.clone(), ids.clone(), policy(c.keep)).map_err(|e| format!("sync_vaults, time {round}: {e:?}"))?;
                        }
                        sides[a].m = m;
                        note(ctx, &seen, &c, 1);
                    }
                    _ => {
                        let c = Cfg::random(rng, &vaults, &recs);
                        let mut seen = [0; 4];
                        let Some(m) = merge(&sides[a].m, &sides[b].m, &c, &mut seen) else { continue };
                        hist.push(format!("client {a} into client {b}: {}", c.show()));
                        sides[b].cl.sync_with(&sides[a].cl, c.config()).map_err(|e| format!("sync_with: {e:?}"))?;
                        // A second time changes nothing, unless the first one changed the source.
                        if a != b && rng.chance(1, 2) {
                            sides[b].cl.sync_with(&sides[a].cl, c.config()).map_err(|e| format!("sync_with again: {e:?}"))?;
                        }
                        sides[b].m = m;
                        note(ctx, &seen, &c, 2);
                    }
                }
                verify(ctx, &insts, &sides, &format!("{i}")).map_err(|e| format!("after step {step}: {e}"))?;
                for s in &sides {
                    usable(s, &vaults, &recs, rng).map_err(|e| format!("after step {step}: client {}: {e}", short(&s.path)))?;
                }
            }
            Ok(())
        })();
        if i < 2 {
            ctx.rep.sample(json!({"case": i, "history": hist.iter().rev().take(12).collect::<Vec<_>>()}));
        }
        if let Err(e) = r {
            let n = hist.len().saturating_sub(40);
            ctx.rep.violation("sync", json!({"case": i, "what": e, "history": &hist[n..]}));
        }
    });
}

fn note(ctx: &Ctx, seen: &[u64; 4], c: &Cfg, kind: u64) {
    for (k, n) in ["added", "replaced", "kept", "not selected"].iter().zip(seen) {
        ctx.rep.count(k, *n);
    }
    let shape = (c.select.is_some() as u64, c.records.len() as u64, c.map.len() as u64, c.keep as u64, kind);
    ctx.rep.eval((seen[0] + seen[1] + seen[2] > 0).then(|| fnv(format!("{shape:?}{seen:?}").as_bytes())));
}

// ---------------------------------------------------------------------------------------------------------- C13

#[derive(Clone, Default)]
struct State(BTreeMap<Bytes, (Vaults, Pairs)>);

#[derive(Clone, Default)]
struct SCfg {
    select: Option<Vec<Bytes>>,
    clients: Vec<(Bytes, Cfg)>,
    map: Vec<(Bytes, Bytes)>,
    keep: bool,
}

impl SCfg {
    fn config(&self) -> SyncSnapshotsConfig {
        let mut c = SyncSnapshotsConfig::new(policy(self.keep));
        if let Some(s) = &self.select {
            c.sync_selected_clients(s.clone());
        }
        for (p, x) in &self.clients {
            c.config_client_sync(p.clone(), x.config());
        }
        if !self.map.is_empty() {
            c.map_clients(self.map.iter().cloned().collect::<HashMap<_, _>>());
        }
        c
    }
    fn random(rng: &mut Rng, clients: &[Bytes], vaults: &[Bytes], recs: &[Bytes]) -> SCfg {
        let mut c = SCfg { keep: rng.chance(1, 2), ..Default::default() };
        if rng.chance(1, 3) {
            c.select = Some(clients.iter().filter(|_| rng.chance(2, 3)).cloned().collect());
        }
        for p in clients {
            if rng.chance(1, 3) {
                c.clients.push((p.clone(), Cfg::random(rng, vaults, recs)));
            }
            if rng.chance(1, 3) {
                c.map.push((p.clone(), rng.pick(clients).clone()));
            }
        }
        c
    }
    fn show(&self) -> String {
        let l = |x: &[Bytes]| x.iter().map(|b| short(b)).collect::<Vec<_>>().join(",");
        format!(
            "{} clients {:?} map {:?} configured {:?}",
            if self.keep { "keep" } else { "replace" },
            self.select.as_ref().map(|s| l(s)),
            self.map.iter().map(|(a, b)| format!("{}->{}", short(a), short(b))).collect::<Vec<_>>(),
            self.clients.iter().map(|(p, c)| format!("{}: {}", short(p), c.show())).collect::<Vec<_>>()
        )
    }
}

/// The merged state and which clients may have appeared without records.
fn merge_states(src: &State, tgt: &State, c: &SCfg, seen: &mut [u64; 4]) -> Option<(State, BTreeSet<Bytes>)> {
    let mut out = tgt.clone();
    let mut maybe = BTreeSet::new();
    let mut used = BTreeSet::new();
    for (p, (vs, _)) in &src.0 {
        if c.select.as_ref().map_or(false, |s| !s.contains(p)) {
            continue;
        }
        let to = c.map.iter().find(|(a, _)| a == p).map_or(p, |(_, b)| b);
        let cc = c.clients.iter().find(|(a, _)| a == p).map_or(Cfg { keep: c.keep, ..Default::default() }, |(_, c)| c.clone());
        for (v, rs) in vs {
            for (r, x) in rs {
                if let (Some(_), Some(tv)) = (x, cc.goes(v, r)) {
                    if !used.insert((to.clone(), tv, *r)) {
                        return None;
                    }
                }
            }
        }
        let base = out.0.get(to).cloned();
        if base.is_none() {
            maybe.insert(to.clone());
        }
        let (tv, ts) = base.unwrap_or_default();
        let m = merge(vs, &tv, &cc, seen)?;
        if !live(&m).is_empty() || tgt.0.contains_key(to) {
            out.0.insert(to.clone(), (m, ts));
        }
    }
    Some((out, maybe))
}

fn compare(s: &Snapshot, want: &State, maybe: &BTreeSet<Bytes>, all: &[Bytes]) -> Result<usize, String> {
    let mut n = 0;
    for p in all {
        let cid = client_id(p);
        let (got, store) = dump_state(&s.get_state(cid).map_err(|e| format!("{e:?}"))?)?;
        let empty = Default::default();
        let (w, ws) = want.0.get(p).unwrap_or(&empty);
        if let Some(d) = differs(&got, &live(w)) {
            return Err(format!("client {}: {d}", short(p)));
        }
        if store != *ws {
            return Err(format!("client {}: its store has {} entries, expected {}", short(p), store.len(), ws.len()));
        }
        let (has, must) = (s.has_data(cid), want.0.contains_key(p));
        if has != must && !maybe.contains(p) {
            return Err(format!("client {} present: {}", short(p), s.has_data(cid)));
        }
        n += got.len();
    }
    let st = s.get_snapshot_state().map_err(|e| format!("{e:?}"))?;
    let b = bincode::serialize(&st).map_err(|e| e.to_string())?;
    let k = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    let there = all.iter().filter(|p| s.has_data(client_id(p))).count();
    if k != there {
        return Err(format!("{k} clients in the state, {there} of them known"));
    }
    Ok(n)
}

struct Snap {
    s: Snapshot,
    m: State,
    maybe: BTreeSet<Bytes>,
    sk: [u8; 32],
    at: Location,
    key: [u8; 32],
}

fn build(ctx: &Ctx, i: u64, k: usize, all: &[Bytes], vaults: &[Bytes], recs: &[Bytes], rng: &mut Rng) -> Result<Snap, String> {
    let e = |e: ClientError| format!("{e:?}");
    let sh = Stronghold::default();
    let mut m = State::default();
    for p in all {
        if rng.chance(1, 3) {
            continue;
        }
        let cl = sh.create_client(p).map_err(e)?;
        let mut v = Vaults::new();
        for _ in 0..rng.range(0, 10) {
            mutate(&cl, &mut v, vaults, recs, rng, &mut vec![])?;
        }
        let mut store = Pairs::new();
        if rng.chance(1, 2) {
            let x = content(rng);
            cl.store().insert(b"s".to_vec(), x.clone(), None).map_err(e)?;
            store.insert(b"s".to_vec(), x);
        }
        m.0.insert(p.clone(), (v, store));
    }
    let f = ctx.scratch.join(format!("merge-{i}-{k}"));
    let key: [u8; 32] = rng.array();
    sh.commit_with_keyprovider(&SnapshotPath::from_path(&f), &kp(&key)).map_err(e)?;
    let at = Location::generic(rng.bytes(3), rng.bytes(3));
    let wk = rng.chance(1, 2).then(|| at.resolve());
    let mut s = Snapshot::read_from_snapshot(&SnapshotPath::from_path(&f), key, wk).map_err(|e| format!("{e:?}"))?;
    let _ = std::fs::remove_file(&f);
    let sk: [u8; 32] = rng.array();
    // The secret key next to the snapshot key, or elsewhere.
    let sk_at = if rng.chance(1, 3) { Location::generic(b"peer".to_vec(), b"sk".to_vec()) } else { Location::generic(at.vault_path().to_vec(), b"sk".to_vec()) };
    s.store_secret_key(sk, sk_at.clone()).map_err(|e| format!("store_secret_key: {e:?}"))?;
    let mut sn = Snap { s, m, maybe: BTreeSet::new(), sk, at: sk_at, key };
    if let Some((..)) = wk {
        // The key it was read with is at its location and still opens what is written with it.
        let sp = SnapshotPath::from_path(&f);
        sn.s.write_to_snapshot(&sp, UseKey::Stored(at)).map_err(|e| format!("write with the stored key: {e:?}"))?;
        sn.s = {
            let mut s = Snapshot::read_from_snapshot(&sp, key, None).map_err(|e| format!("read what was written with the stored key: {e:?}"))?;
            s.store_secret_key(sk, sn.at.clone()).map_err(|e| format!("{e:?}"))?;
            s
        };
        let _ = std::fs::remove_file(&f);
        ctx.rep.count("written with the stored key", 1);
    }
    Ok(sn)
}

/// C13
pub fn snapshots(ctx: &Ctx) {
    ctx.cases("merge", ctx.n(1200, 40_000), 8, |ctx, i, rng| {
        let (nv, nr, nc) = (rng.range(2, 3), rng.range(2, 4), rng.range(2, 4));
        let vaults = paths(rng, nv, b'v');
        let recs = paths(rng, nr, b'r');
        let all = paths(rng, nc, b'c');
        let mut hist: Vec<String> = vec![];
        let r = (|| -> Result<(), String> {
            let mut sn: Vec<Snap> = (0..2).map(|k| build(ctx, i, k, &all, &vaults, &recs, rng)).collect::<Result<_, _>>()?;
            for x in &sn {
                compare(&x.s, &x.m, &x.maybe, &all).map_err(|e| format!("after reading: {e}"))?;
            }
            for step in 0..rng.range(3, 8) {
                let a = rng.below(2);
                let b = 1 - a;
                let c = SCfg::random(rng, &all, &vaults, &recs);
                let mut seen = [0; 4];
                match rng.below(10) {
                    0..=3 => {
                        let Some((m, maybe)) = merge_states(&sn[a].m, &sn[b].m, &c, &mut seen) else { continue };
                        hist.push(format!("merge {a} into {b}: {}", c.show()));
                        let st = sn[a].s.get_snapshot_state().map_err(|e| format!("{e:?}"))?;
                        sn[b].s.merge_state(st, c.config()).map_err(|e| format!("merge_state: {e:?}"))?;
                        if rng.chance(1, 3) {
                            let st = sn[a].s.get_snapshot_state().map_err(|e| format!("{e:?}"))?;
                            sn[b].s.merge_state(st, c.config()).map_err(|e| format!("merge_state again: {e:?}"))?;
                        }
                        sn[b].m = m;
                        let empty: Vec<Bytes> = sn[a].maybe.iter().map(|p| c.map.iter().find(|(x, _)| x == p).map_or(p, |(_, y)| y).clone()).collect();
                        sn[b].maybe.extend(maybe);
                        sn[b].maybe.extend(empty);
                        note_s(ctx, &seen, &c, 1);
                    }
                    4..=7 => {
                        let mut sel: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> = HashMap::new();
                        let mut sub = State::default();
                        let mut absent = false;
                        for (p, (vs, _)) in &sn[a].m.0 {
                            if rng.chance(1, 4) {
                                continue;
                            }
                            let mut sv: HashMap<VaultId, Vec<RecordId>> = HashMap::new();
                            let mut mv = Vaults::new();
                            for (v, rs) in vs {
                                if rng.chance(1, 4) {
                                    continue;
                                }
                                let mut ids: Vec<RecordId> = rs.keys().filter(|_| rng.chance(3, 4)).cloned().collect();
                                // Asking for a revoked record may be refused.
                                if ids.iter().any(|r| rs[r].is_none()) {
                                    if rng.chance(4, 5) {
                                        ids.retain(|r| rs[r].is_some());
                                    } else {
                                        absent = true;
                                    }
                                }
                                mv.insert(*v, rs.iter().filter(|(r, _)| ids.contains(r)).map(|(r, x)| (*r, x.clone())).collect());
                                if rng.chance(1, 5) {
                                    ids.push(rid(b"nowhere", b"never"));
                                }
                                sv.insert(*v, ids);
                            }
                            if rng.chance(1, 12) {
                                sv.insert(vid(b"no such vault"), vec![rid(b"nowhere", b"never")]);
                                absent = true;
                            }
                            sel.insert(client_id(p), sv);
                            sub.0.insert(p.clone(), (mv, Pairs::new()));
                        }
                        if rng.chance(1, 8) {
                            sel.insert(client_id(b"no such client"), HashMap::new());
                        }
                        let pk = x25519::SecretKey::from_bytes(sn[b].sk).public_key();
                        let (epk, bytes) = match sn[a].s.export_to_serialized_state(sel, pk) {
                            Ok(x) => x,
                            Err(_) if absent => {
                                ctx.rep.count("exports refused for an absent vault or record", 1);
                                continue;
                            }
                            Err(e) => return Err(format!("export: {e:?}")),
                        };
                        // What the export holds, seen by an empty snapshot.
                        let mut blank = Snapshot::default();
                        blank.store_secret_key(sn[b].sk, sn[b].at.clone()).map_err(|e| format!("{e:?}"))?;
                        blank
                            .import_from_serialized_state(bytes.clone(), sn[b].at.clone(), epk, SyncSnapshotsConfig::default())
                            .map_err(|e| format!("import into an empty snapshot: {e:?}"))?;
                        let names: BTreeSet<Bytes> = sub.0.keys().cloned().collect();
                        compare(&blank, &sub, &names, &all).map_err(|e| format!("what was exported: {e}"))?;
                        // Altered or with other keys it must not import.
                        for _ in 0..2 {
                            let (bytes, at, pk, what) = hostile(&bytes, &sn[b].at, epk, rng);
                            if sn[b].s.import_from_serialized_state(bytes, at, pk, c.config()).is_ok() {
                                return Err(format!("import succeeded with {what}"));
                            }
                            ctx.rep.seen("refused", fnv(what.as_bytes()));
                            ctx.rep.count("imports refused", 1);
                        }
                        compare(&sn[b].s, &sn[b].m, &sn[b].maybe, &all).map_err(|e| format!("after refused imports: {e}"))?;
                        let Some((m, maybe)) = merge_states(&sub, &sn[b].m, &c, &mut seen) else { continue };
                        hist.push(format!("import {a} into {b}: {}", c.show()));
                        let at = sn[b].at.clone();
                        for _ in 0..rng.range(1, 2) {
                            sn[b].s.import_from_serialized_state(bytes.clone(), at.clone(), epk, c.config()).map_err(|e| format!("import: {e:?}"))?;
                        }
                        sn[b].m = m;
                        sn[b].maybe.extend(maybe);
                        note_s(ctx, &seen, &c, 2);
                    }
                    8 => {
                        // Through a file and an instance, where the records have to be usable.
                        hist.push(format!("write {a} and use it"));
                        let f: PathBuf = ctx.scratch.join(format!("merge-use-{i}"));
                        let sp = SnapshotPath::from_path(&f);
                        sn[a].s.write_to_snapshot(&sp, UseKey::Key(sn[a].key)).map_err(|e| format!("{e:?}"))?;
                        let sh = Stronghold::default();
                        sh.load_snapshot(&kp(&sn[a].key), &sp).map_err(|e| format!("{e:?}"))?;
                        let names: Vec<Bytes> = sn[a].m.0.keys().cloned().collect();
                        for p in names {
                            let cl = sh.load_client(&p).map_err(|e| format!("load_client: {e:?}"))?;
                            let (v, store) = sn[a].m.0[&p].clone();
                            let side = Side { path: p.clone(), inst: 0, cl, m: v, store };
                            for _ in 0..4 {
                                usable(&side, &vaults, &recs, rng)?;
                            }
                            let mut m = side.m.clone();
                            for _ in 0..3 {
                                mutate(&side.cl, &mut m, &vaults, &recs, rng, &mut hist)?;
                            }
                            sn[a].m.0.insert(p, (m, side.store));
                        }
                        sh.commit_with_keyprovider(&sp, &kp(&sn[a].key)).map_err(|e| format!("{e:?}"))?;
                        let mut s = Snapshot::read_from_snapshot(&sp, sn[a].key, None).map_err(|e| format!("{e:?}"))?;
                        s.store_secret_key(sn[a].sk, sn[a].at.clone()).map_err(|e| format!("{e:?}"))?;
                        sn[a].s = s;
                        let _ = std::fs::remove_file(&f);
                    }
                    _ => {
                        let p = rng.pick(&all).clone();
                        hist.push(format!("purge {} from {a}", short(&p)));
                        sn[a].s.purge_client(client_id(&p)).map_err(|e| format!("{e:?}"))?;
                        sn[a].m.0.remove(&p);
                        sn[a].maybe.remove(&p);
                    }
                }
                for x in &sn {
                    compare(&x.s, &x.m, &x.maybe, &all).map_err(|e| format!("after step {step}: {e}"))?;
                }
            }
            Ok(())
        })();
        if i < 2 {
            ctx.rep.sample(json!({"case": i, "history": hist}));
        }
        if let Err(e) = r {
            ctx.rep.violation("merge", json!({"case": i, "what": e, "history": hist}));
        }
    });
}

fn hostile(bytes: &[u8], at: &Location, pk: x25519::PublicKey, rng: &mut Rng) -> (Bytes, Location, x25519::PublicKey, &'static str) {
    let mut b = bytes.to_vec();
    match rng.below(8) {
        0 => (b, at.clone(), x25519::SecretKey::from_bytes(rng.array()).public_key(), "another public key"),
        1 => (b, Location::generic(b"nowhere".to_vec(), b"never".to_vec()), pk, "an absent secret key"),
        2 => (b, Location::generic(at.vault_path().to_vec(), b"never".to_vec()), pk, "an absent secret key record"),
        3 => {
            b.truncate(rng.below(bytes.len()));
            (b, at.clone(), pk, "a truncated state")
        }
        4 => {
            let n = rng.range(1, 40);
            b.extend(rng.bytes(n));
            (b, at.clone(), pk, "an extended state")
        }
        5 => {
            let n = rng.range(0, 200);
            (rng.bytes(n), at.clone(), pk, "arbitrary bytes")
        }
        _ => {
            let i = rng.below(b.len());
            b[i] ^= 1 << rng.below(8);
            (b, at.clone(), pk, "a flipped bit")
        }
    }
}

fn note_s(ctx: &Ctx, seen: &[u64; 4], c: &SCfg, kind: u64) {
    for (k, n) in ["added", "replaced", "kept", "not selected"].iter().zip(seen) {
        ctx.rep.count(k, *n);
    }
    let shape = (c.select.is_some(), c.clients.len(), c.map.len(), c.keep, kind);
    ctx.rep.eval((seen[0] + seen[1] + seen[2] > 0).then(|| fnv(format!("{shape:?}{seen:?}").as_bytes())));
}
