//! A reference model of clients and their vaults, and histories of operations checked against it.
use crate::common::*;
use crate::util::*;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum RP {
    G(Vec<u8>),
    C(usize),
}

pub type L = (Vec<u8>, RP);

pub fn loc(l: &L) -> Location {
    match &l.1 {
        RP::G(r) => Location::generic(l.0.clone(), r.clone()),
        RP::C(c) => Location::counter(l.0.clone(), *c),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Rec {
    Live(Vec<u8>),
    Revoked,
}

#[derive(Clone, Default, PartialEq)]
pub struct MClient {
    pub recs: BTreeMap<L, Rec>,
    /// vaults that certainly exist
    pub vaults: BTreeSet<Vec<u8>>,
    /// vaults that a failed operation may have created
    pub maybe: BTreeSet<Vec<u8>>,
    pub store: Pairs,
}

impl MClient {
    pub fn live(&self, l: &L) -> Option<&Vec<u8>> {
        match self.recs.get(l) {
            Some(Rec::Live(v)) => Some(v),
            _ => None,
        }
    }
    pub fn write(&mut self, l: &L, v: &[u8]) -> bool {
        self.vaults.insert(l.0.clone());
        match self.recs.get(l) {
            Some(Rec::Revoked) => false,
            _ => {
                self.recs.insert(l.clone(), Rec::Live(v.to_vec()));
                true
            }
        }
    }
    pub fn revoke(&mut self, l: &L) {
        if let Some(r) = self.recs.get_mut(l) {
            *r = Rec::Revoked;
        }
    }
    pub fn collect(&mut self, vault: &[u8]) {
        self.recs.retain(|l, r| l.0 != vault || *r != Rec::Revoked);
    }
    /// What a dump of the client has to show.
    pub fn records(&self) -> Records {
        self.recs
            .iter()
            .filter_map(|(l, r)| match r {
                Rec::Live(v) => Some((loc(l).resolve(), v.clone())),
                Rec::Revoked => None,
            })
            .collect()
    }
}

pub struct Universe {
    pub vaults: Vec<Vec<u8>>,
    pub recs: Vec<RP>,
    pub keys: Vec<Vec<u8>>,
}

impl Universe {
    pub fn new(rng: &mut Rng, nv: usize, nr: usize) -> Self {
        let vaults = paths(rng, nv, b'v');
        let mut recs: Vec<RP> = paths(rng, nr, b'r').into_iter().map(RP::G).collect();
        for c in [0usize, 1, 10, 11, usize::MAX, rng.below(1000) + 100] {
            if rng.chance(1, 3) {
                recs.push(RP::C(c));
            }
        }
        let keys = paths(rng, 4, b'k');
        Universe { vaults, recs, keys }
    }
    pub fn any(&self, rng: &mut Rng) -> L {
        (rng.pick(&self.vaults).clone(), rng.pick(&self.recs).clone())
    }
    pub fn all(&self) -> Vec<L> {
        self.vaults.iter().flat_map(|v| self.recs.iter().map(move |r| (v.clone(), r.clone()))).collect()
    }
}

pub fn fmt(l: &L) -> String {
    match &l.1 {
        RP::G(r) => format!("{}/{}", short(&l.0), short(r)),
        RP::C(c) => format!("{}/#{c}", short(&l.0)),
    }
}

/// One random vault operation on the client and on the model. An error describes a disagreement.
pub fn vault_op(m: &mut MClient, cl: &Client, u: &Universe, rng: &mut Rng, hist: &mut Vec<String>) -> Result<(), String> {
    let l = u.any(rng);
    let op = rng.below(20);
    macro_rules! expect {
        ($what:expr, $want:expr, $res:expr) => {{
            let r = $res;
            hist.push(format!("{} -> {}", $what, if r.is_ok() { "ok" } else { "error" }));
            if r.is_ok() != $want {
                return Err(format!("{}: expected {}, got {:?}", $what, if $want { "success" } else { "an error" }, r));
            }
        }};
    }
    match op {
        0..=3 => {
            let v = content(rng);
            let want = m.write(&l, &v);
            expect!(
                format!("write_secret {} = {}", fmt(&l), short(&v)),
                want,
                cl.vault(&l.0).write_secret(loc(&l), v.clone())
            );
        }
        4..=5 => {
            let v = content(rng);
            let want = m.write(&l, &v);
            expect!(
                format!("WriteVault {} = {}", fmt(&l), short(&v)),
                want,
                cl.execute_procedure(WriteVault { data: v.clone(), location: loc(&l) })
            );
        }
        6..=8 => {
            let t = u.any(rng);
            let v = m.live(&l).cloned();
            let want = match &v {
                Some(v) => m.write(&t, v),
                None => {
                    m.maybe.insert(t.0.clone());
                    false
                }
            };
            expect!(
                format!("CopyRecord {} to {}", fmt(&l), fmt(&t)),
                want,
                cl.execute_procedure(CopyRecord { source: loc(&l), target: loc(&t) })
            );
        }
        9..=10 => {
            m.revoke(&l);
            match &l.1 {
                RP::G(r) if rng.chance(1, 2) => {
                    expect!(format!("revoke_secret {}", fmt(&l)), true, cl.vault(&l.0).revoke_secret(r))
                }
                _ => expect!(
                    format!("RevokeData {}", fmt(&l)),
                    true,
                    cl.execute_procedure(RevokeData { location: loc(&l), should_gc: false })
                ),
            }
        }
        11..=12 => {
            m.revoke(&l);
            m.collect(&l.0);
            match &l.1 {
                RP::G(r) if rng.chance(1, 2) => {
                    let r = cl.vault(&l.0).delete_secret(r);
                    hist.push(format!("delete_secret {} -> {:?}", fmt(&l), r.as_ref().ok()));
                    let known = m.vaults.contains(&l.0);
                    let maybe = m.maybe.contains(&l.0);
                    match r {
                        Ok(b) if b == known || maybe => (),
                        r => return Err(format!("delete_secret {}: vault known {known}, got {r:?}", fmt(&l))),
                    }
                }
                _ => expect!(
                    format!("RevokeData+gc {}", fmt(&l)),
                    true,
                    cl.execute_procedure(RevokeData { location: loc(&l), should_gc: true })
                ),
            }
        }
        13 => {
            m.collect(&l.0);
            if rng.chance(1, 2) {
                expect!(format!("cleanup {}", short(&l.0)), true, cl.vault(&l.0).cleanup());
            } else {
                expect!(
                    format!("GarbageCollect {}", short(&l.0)),
                    true,
                    cl.execute_procedure(GarbageCollect { vault_path: l.0.clone() })
                );
            }
        }
        14 => {
            let b = u.any(rng);
            let t = u.any(rng);
            let want = match (m.live(&l).cloned(), m.live(&b).cloned()) {
                (Some(x), Some(y)) if x.len() + y.len() < 50_000 => m.write(&t, &[x, y].concat()),
                (Some(_), Some(_)) => return Ok(()),
                _ => {
                    m.maybe.insert(t.0.clone());
                    false
                }
            };
            expect!(
                format!("ConcatSecret {} + {} to {}", fmt(&l), fmt(&b), fmt(&t)),
                want,
                cl.execute_procedure(ConcatSecret {
                    location_a: loc(&l),
                    location_b: loc(&b),
                    output_location: loc(&t)
                })
            );
        }
        _ => {
            hist.push(format!("query {}", fmt(&l)));
            check_loc(m, cl, &l, rng)?;
        }
    }
    Ok(())
}

pub fn check_loc(m: &MClient, cl: &Client, l: &L, rng: &mut Rng) -> Result<(), String> {
    let ex = cl.record_exists(&loc(l)).map_err(|e| format!("record_exists: {e:?}"))?;
    let live = m.live(l);
    if ex != live.is_some() {
        return Err(format!("record_exists({}) = {ex}, but the record is {}", fmt(l), if live.is_some() { "there" } else { "not there" }));
    }
    match live {
        Some(v) => match holds(cl, &loc(l), v) {
            Ok(true) => {
                let mut other = v.clone();
                match rng.below(3) {
                    0 => other.push(0),
                    1 => {
                        other.pop();
                    }
                    _ => {
                        let i = rng.below(other.len());
                        if let Some(b) = other.get_mut(i) {
                            *b ^= 1 << rng.below(8)
                        } else {
                            other.push(1)
                        }
                    }
                }
                if &other != v && holds(cl, &loc(l), &other)? {
                    return Err(format!("{} also compares equal to other bytes", fmt(l)));
                }
            }
            r => return Err(format!("{} does not hold what was written last ({} bytes): {r:?}", fmt(l), v.len())),
        },
        None => {
            if let Ok(b) = holds(cl, &loc(l), b"") {
                return Err(format!("{} is absent or revoked but can be read ({b})", fmt(l)));
            }
        }
    }
    Ok(())
}

pub fn check_all(m: &MClient, cl: &Client, u: &Universe, rng: &mut Rng) -> Result<usize, String> {
    for l in u.all() {
        check_loc(m, cl, &l, rng)?;
    }
    for v in &u.vaults {
        let e = cl.vault_exists(v).map_err(|e| format!("{e:?}"))?;
        if m.vaults.contains(v) && !e || e && !m.vaults.contains(v) && !m.maybe.contains(v) {
            return Err(format!("vault_exists({}) = {e}", short(v)));
        }
    }
    Ok(u.all().len())
}

fn state_hash(ms: &[MClient]) -> u64 {
    let mut s = String::new();
    for m in ms {
        for (l, r) in &m.recs {
            s += &fmt(l);
            match r {
                Rec::Live(v) => s += &format!("={:x}", fnv(v)),
                Rec::Revoked => s += "!",
            }
        }
        s += ";";
    }
    fnv(s.as_bytes())
}

/// C01: histories of vault operations over several clients of one instance.
pub fn vault(ctx: &Ctx) {
    let n = ctx.n(800, 20_000);
    ctx.cases("history", n, 8, |ctx, i, rng| {
        let sh = Stronghold::default();
        let nc = rng.range(1, 3);
        let cpaths = paths(rng, nc, b'c');
        let cls: Vec<Client> = cpaths.iter().map(|p| sh.create_client(p).unwrap()).collect();
        let mut ms = vec![MClient::default(); nc];
        // sometimes a vault of very many records, or very many vaults
        let (nv, nr, wide) = match rng.below(60) {
            0 => (1, rng.range(250, 600), true),
            1 => (rng.range(250, 400), 1, true),
            _ => (rng.range(1, 4), rng.range(1, 5), false),
        };
        let u = Universe::new(rng, nv, nr);
        let mut hist = Vec::new();
        let steps = if wide { rng.range(10, 30) } else { rng.range(20, 120) };
        if wide {
            for l in u.all() {
                let v = (fmt(&l) + "!").into_bytes();
                let v = if rng.chance(1, 2) { v } else { rng.bytes(20) };
                for c in 0..nc {
                    ms[c].write(&l, &v);
                    if let Err(e) = cls[c].vault(&l.0).write_secret(loc(&l), v.clone()) {
                        ctx.rep.violation("record", json!({"case": i, "what": format!("write_secret: {e:?}"), "records": u.all().len()}));
                        return;
                    }
                }
            }
            ctx.rep.count("clients with hundreds of records", nc as u64);
        }
        for step in 0..steps {
            let c = rng.below(nc);
            // another handle of the same client has to behave the same
            let handle = if rng.chance(1, 3) { sh.get_client(&cpaths[c]).unwrap() } else { cls[c].clone() };
            hist.push(format!("client {c}:"));
            let r = vault_op(&mut ms[c], &handle, &u, rng, &mut hist).and_then(|_| {
                if step % 10 == 9 || step + 1 == steps {
                    for k in 0..nc {
                        ctx.rep.count("locations compared", check_all(&ms[k], &cls[k], &u, rng)? as u64);
                    }
                } else {
                    // the location touched, and others that must not be
                    for _ in 0..3 {
                        let k = rng.below(nc);
                        check_loc(&ms[k], &cls[k], &u.any(rng), rng)?;
                        ctx.rep.count("locations compared", 1);
                    }
                }
                Ok(())
            });
            ctx.rep.count("operations", 1);
            ctx.rep.eval(Some(state_hash(&ms)));
            if let Err(e) = r {
                let key = if e.contains("another") { "interference" } else { "record" };
                ctx.rep.violation(key, json!({"case": i, "step": step, "what": e, "history": hist}));
                return;
            }
        }
        // the whole content through the state that a snapshot would take
        for c in 0..nc {
            match dump_client(ctx, &sh, &cpaths[c], "vault") {
                Ok((recs, _)) => {
                    if recs != ms[c].records() {
                        ctx.rep.violation("content", json!({"case": i, "client": c, "history": hist,
                            "found": recs.len(), "expected": ms[c].records().len()}));
                    }
                    ctx.rep.count("records read back in full", recs.len() as u64);
                }
                Err(e) => ctx.rep.violation("content", json!({"case": i, "what": e, "history": hist})),
            }
        }
        if i < 2 {
            ctx.rep.sample(json!({"history": hist.iter().take(24).collect::<Vec<_>>()}));
        }
    });
    view_histories(ctx);
}

/// The engine's own view: hints, identifiers and blob identifiers.
fn view_histories(ctx: &Ctx) {
    use engine::vault::*;
    type Pv = iota_stronghold::Provider;
    let n = ctx.n(1200, 40_000);
    ctx.cases("engine view", n, 8, |ctx, i, rng| {
        let mut db = DbView::<Pv>::new();
        let nv = rng.range(1, 3);
        let nr = rng.range(1, 6);
        let vids: Vec<VaultId> = (0..nv).map(|_| VaultId::random::<Pv>().unwrap()).collect();
        let keys: Vec<Key<Pv>> = (0..nv).map(|_| Key::random()).collect();
        let rids: Vec<RecordId> = (0..nr).map(|_| RecordId::from(ChainId::load(&rng.bytes(24)).unwrap())).collect();
        // content, hint, blob id; None = revoked
        let mut m: BTreeMap<(usize, usize), Option<(Vec<u8>, RecordHint, BlobId)>> = BTreeMap::new();
        let mut inited = vec![false; nv];
        let mut hist: Vec<String> = vec![];
        let steps = rng.range(10, 80);
        let r = (|| -> Result<(), String> {
            for _ in 0..steps {
                let v = rng.below(nv);
                let r = rng.below(nr);
                let id = (v, r);
                match rng.below(10) {
                    0..=4 => {
                        let data = content(rng);
                        let hl = rng.range(0, 24);
                        let hint = RecordHint::new(rng.bytes(hl)).ok_or("hint of at most 24 bytes refused")?;
                        let res = db.write(&keys[v], vids[v], rids[r], &data, hint);
                        hist.push(format!("write {v}/{r} {} -> {}", short(&data), res.is_ok()));
                        inited[v] = true;
                        match m.get(&id) {
                            Some(None) => {
                                if res.is_ok() {
                                    return Err("write to a revoked record succeeded".into());
                                }
                            }
                            old => {
                                res.map_err(|e| format!("write: {e:?}"))?;
                                let hint = old.and_then(|o| o.as_ref()).map(|o| o.1).unwrap_or(hint);
                                let bid = db.get_blob_id(&keys[v], vids[v], rids[r]).map_err(|e| format!("blob id: {e:?}"))?;
                                if m.values().flatten().any(|o| o.2 == bid) {
                                    return Err("a blob id was used before".into());
                                }
                                m.insert(id, Some((data, hint, bid)));
                            }
                        }
                    }
                    5..=6 => {
                        db.revoke_record(&keys[v], vids[v], rids[r]).map_err(|e| format!("revoke: {e:?}"))?;
                        hist.push(format!("revoke {v}/{r}"));
                        if let Some(e) = m.get_mut(&id) {
                            *e = None;
                        }
                    }
                    7 => {
                        // with a wrong key nothing may happen
                        let k: Key<Pv> = if rng.chance(1, 2) { Key::random() } else { keys[v].clone() };
                        let right = k == keys[v];
                        db.garbage_collect_vault(&k, vids[v]);
                        hist.push(format!("collect {v} right key {right}"));
                        if right {
                            m.retain(|k, e| k.0 != v || e.is_some());
                        }
                    }
                    8 => {
                        let k: Key<Pv> = Key::random();
                        let res = db.write(&k, vids[v], rids[r], b"x", RecordHint::new(b"").unwrap());
                        hist.push(format!("write with wrong key {v}/{r}"));
                        if inited[v] && res.is_ok() {
                            return Err("write with a wrong key succeeded".into());
                        }
                        if !inited[v] {
                            // this key has founded the vault: start over with a fresh one
                            db.vaults.remove(&vids[v]);
                        }
                        if inited[v] && db.revoke_record(&k, vids[v], rids[r]).is_ok() {
                            return Err("revocation with a wrong key succeeded".into());
                        }
                    }
                    _ => {
                        // the database survives its own serialization
                        let b = bincode::serialize(&db).map_err(|e| e.to_string())?;
                        db = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                        hist.push("serialize".into());
                    }
                }
                // compare everything
                for v in 0..nv {
                    let want: BTreeMap<RecordId, RecordHint> =
                        m.iter().filter(|(k, _)| k.0 == v).filter_map(|(k, e)| e.as_ref().map(|e| (rids[k.1], e.1))).collect();
                    let got: Vec<_> = db.list_hints_and_ids(&keys[v], vids[v]);
                    if got.len() != want.len() || got.iter().any(|(i, h)| want.get(i) != Some(h)) {
                        return Err(format!("list of hints of vault {v}: {} entries, expected {}", got.len(), want.len()));
                    }
                    if !db.list_hints_and_ids(&Key::random(), vids[v]).is_empty() {
                        return Err("hints listed with a wrong key".into());
                    }
                    if db.contains_vault(&vids[v]) != inited[v] {
                        return Err("contains_vault".into());
                    }
                    if inited[v] {
                        let ids = db.list_records_with_blob_id(&keys[v], vids[v]).map_err(|e| format!("{e:?}"))?;
                        if ids.len() != want.len() {
                            return Err("list with blob ids".into());
                        }
                    }
                    for r in 0..nr {
                        let live = m.get(&(v, r)).and_then(|e| e.as_ref());
                        if db.contains_record(vids[v], rids[r]) != live.is_some() {
                            return Err(format!("contains_record {v}/{r}"));
                        }
                        let mut out = None;
                        let res = db.get_guard::<std::convert::Infallible, _>(&keys[v], vids[v], rids[r], |b| {
                            out = Some(b.borrow().to_vec());
                            Ok(())
                        });
                        if res.is_ok() != live.is_some() || out.as_ref() != live.map(|l| &l.0) {
                            return Err(format!("content of {v}/{r}: {res:?}"));
                        }
                        if let (Some(l), Ok(b)) = (live, db.get_blob_id(&keys[v], vids[v], rids[r])) {
                            if b != l.2 {
                                return Err(format!("blob id of {v}/{r} changed by another operation"));
                            }
                        }
                        ctx.rep.count("engine reads", 1);
                    }
                }
                ctx.rep.eval(None);
            }
            Ok(())
        })();
        ctx.rep.seen("nontrivial", fnv(hist.join(";").as_bytes()));
        if let Err(e) = r {
            ctx.rep.violation("engine-view", json!({"case": i, "what": e, "history": hist}));
        }
    });
}
