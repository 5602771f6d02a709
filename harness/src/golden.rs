//! C29: snapshot files and exports written by the pinned version, read by this one, and files written by this one.
use crate::common::*;
use crate::util::*;
use crypto::keys::x25519;
use iota_stronghold::procedures::*;
use iota_stronghold::sync::SyncSnapshotsConfig;
use iota_stronghold::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::time::Duration;

fn provider(method: &str, p: &[u8], salt: &[u8]) -> KeyProvider {
    match method {
        "raw" => KeyProvider::try_from(p.to_vec()).unwrap(),
        "truncated" => KeyProvider::with_passphrase_truncated(p.to_vec()).unwrap(),
        "blake2b" => KeyProvider::with_passphrase_hashed_blake2b(p.to_vec()).unwrap(),
        "argon2" => KeyProvider::with_passphrase_hashed_argon2(p.to_vec(), salt.to_vec()).unwrap(),
        m => panic!("{m}"),
    }
}

fn key_of(k: &KeyProvider) -> [u8; 32] {
    k.try_unlock().unwrap().borrow().to_vec().try_into().unwrap()
}

fn path(rng: &mut Rng) -> Vec<u8> {
    let mut p = match rng.below(8) {
        0 => vec![],
        1 => "p\u{e4}th/\u{1f512}".as_bytes().to_vec(),
        2 => {
            let n = *rng.pick(&[64usize, 127, 128, 129, 200]);
            rng.bytes(n)
        }
        3 => vec![0xff; rng.range(1, 3)],
        4 => vec![0, 0, 1],
        _ => format!("path-{}", rng.below(1000)).into_bytes(),
    };
    if p.last() == Some(&0) {
        p.push(1);
    }
    p
}

fn location(v: &[u8], r: &Value) -> Location {
    match r.as_u64() {
        Some(c) => Location::counter(v.to_vec(), c as usize),
        None => Location::generic(v.to_vec(), unhex(r.as_str().unwrap())),
    }
}

fn secret(rng: &mut Rng, large: bool) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => 1,
        1 => 32,
        2 => 64,
        3 if large => rng.range(5000, 70_000),
        _ => rng.range(1, 200),
    };
    match rng.below(4) {
        0 => vec![0; n],
        1 => (0..n).map(|i| (i / 7) as u8).collect(),
        _ => rng.bytes(n),
    }
}

/// Fills a client and says with what.
fn fill(cl: &Client, rng: &mut Rng, large: bool) -> Value {
    let mut recs: BTreeMap<(Vec<u8>, String), (Value, Option<Vec<u8>>)> = BTreeMap::new();
    for _ in 0..rng.below(4) {
        let v = path(rng);
        for _ in 0..rng.range(1, 5) {
            let r: Value = if rng.chance(1, 4) {
                json!(*rng.pick(&[0u64, 1, 2, 1000, u64::MAX]))
            } else {
                json!(hex(&path(rng)))
            };
            let l = location(&v, &r);
            let k = (v.clone(), r.to_string());
            if matches!(recs.get(&k), Some((_, None))) {
                continue;
            }
            let s = secret(rng, large);
            cl.vault(&v).write_secret(l.clone(), s.clone()).unwrap();
            let mut content = Some(s);
            if rng.chance(1, 5) {
                // written over
                let s = secret(rng, false);
                cl.vault(&v).write_secret(l.clone(), s.clone()).unwrap();
                content = Some(s);
            }
            if rng.chance(1, 6) {
                cl.execute_procedure(RevokeData { location: l.clone(), should_gc: false }).unwrap();
                content = None;
            }
            recs.insert(k, (r, content));
        }
    }
    // a key in use
    let seed = rng.bytes(32);
    let kl = (b"keys".to_vec(), json!(hex(b"ed25519")));
    cl.vault(b"keys").write_secret(location(&kl.0, &kl.1), seed.clone()).unwrap();
    let pk = cl
        .execute_procedure(PublicKey { ty: KeyType::Ed25519, private_key: location(&kl.0, &kl.1) })
        .unwrap();
    recs.insert((kl.0.clone(), kl.1.to_string()), (kl.1, Some(seed)));
    let mut store = vec![];
    for i in 0..rng.below(6) {
        let k = [path(rng), vec![i as u8 + 1]].concat();
        let v = secret(rng, large);
        let v = if rng.chance(1, 8) { vec![] } else { v };
        // seconds from now on; zero has ended at once
        let life = *rng.pick(&[None, None, Some(0u64), Some(100 * 365 * 86400), Some(3600 * 24 * 365 * 300)]);
        cl.store().insert(k.clone(), v.clone(), life.map(Duration::from_secs)).unwrap();
        store.push(json!([hex(&k), hex(&v), life]));
    }
    json!({
        "records": recs.iter().map(|((v, _), (r, c))| {
            let (vid, rid) = location(v, r).resolve();
            json!([hex(v), r, hex(vid.as_ref()), hex(engine::vault::ChainId::from(rid).as_ref()), c.as_ref().map(|c| hex(c))])
        }).collect::<Vec<_>>(),
        "store": store,
        "public": hex(&pk),
    })
}

/// Writes snapshots and exports, and an index of what is in them.
pub fn make(ctx: &Ctx) {
    let dir = PathBuf::from(ctx.arg(0).expect("directory"));
    let n: usize = ctx.arg(1).unwrap().parse().unwrap();
    let (shard, shards) = ctx.shard;
    let mut index = vec![];
    for i in (shard..n).step_by(shards) {
        let mut rng = ctx.rng(1000 + i as u64);
        let rng = &mut rng;
        let sh = Stronghold::default();
        let mut clients = serde_json::Map::new();
        let large = i % 6 == 5;
        for _ in 0..if i % 8 == 7 { 0 } else { rng.range(1, 3) } {
            let p = path(rng);
            if clients.contains_key(&hex(&p)) {
                continue;
            }
            let cl = sh.create_client(&p).unwrap();
            let mut c = fill(&cl, rng, large);
            c["id"] = json!(hex(cl.id().as_ref()));
            clients.insert(hex(&p), c);
        }
        let method = *rng.pick(&["raw", "truncated", "blake2b", "argon2"]);
        let (p, salt) = (if method == "raw" { rng.bytes(32) } else { format!("passphrase {i} \u{e9}").into_bytes() }, rng.bytes(16));
        let kp = provider(method, &p, &salt);
        let key = key_of(&kp);
        let file = dir.join(format!("snapshot-{i}"));
        let sp = SnapshotPath::from_path(&file);
        let stored = i % 3 == 1;
        if stored {
            sh.store_snapshot_key_at_location(kp, Location::generic(*b"snapshot", *b"key")).unwrap();
            sh.commit(&sp).unwrap();
        } else {
            sh.commit_with_keyprovider(&sp, &kp).unwrap();
        }
        index.push(json!({"kind": "snapshot", "file": format!("snapshot-{i}"), "method": method, "passphrase": hex(&p), "salt": hex(&salt),
                          "key": hex(&key), "stored": stored, "clients": clients}));
        if i % 2 == 0 {
            let mut s = Snapshot::read_from_snapshot(&sp, key, None).unwrap();
            let sk: [u8; 32] = rng.array();
            let pk = x25519::SecretKey::from_bytes(sk).public_key();
            let mut sel = HashMap::new();
            let mut content = serde_json::Map::new();
            for (c, d) in &clients {
                let mut vs: HashMap<_, Vec<_>> = HashMap::new();
                let mut recs = vec![];
                for r in d["records"].as_array().unwrap() {
                    if !r[4].is_null() && rng.chance(3, 4) {
                        let (v, rid) = location(&unhex(r[0].as_str().unwrap()), &r[1]).resolve();
                        vs.entry(v).or_default().push(rid);
                        recs.push(r.clone());
                    }
                }
                if !vs.is_empty() {
                    sel.insert(client_id(&unhex(c)), vs);
                    content.insert(c.clone(), json!({"id": d["id"], "records": recs, "store": [], "public": null}));
                }
            }
            let (epk, bytes) = s.export_to_serialized_state(sel, pk).unwrap();
            std::fs::write(dir.join(format!("export-{i}")), bytes).unwrap();
            index.push(json!({"kind": "export", "file": format!("export-{i}"), "secret": hex(&sk), "public": hex(&epk.to_bytes()),
                              "clients": content}));
        }
    }
    ctx.rep.count("files written", index.len() as u64);
    std::fs::write(dir.join(format!("index-{shard}.json")), serde_json::to_string(&index).unwrap()).unwrap();
}

fn want(c: &Value) -> (Records, Pairs, Vec<Location>) {
    let mut rs = Records::new();
    let mut revoked = vec![];
    for r in c["records"].as_array().unwrap() {
        let l = location(&unhex(r[0].as_str().unwrap()), &r[1]);
        match r[4].as_str() {
            Some(x) => {
                rs.insert(l.resolve(), unhex(x));
            }
            None => revoked.push(l),
        }
    }
    let store = c["store"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|e| e[2] != json!(0))
        .map(|e| (unhex(e[0].as_str().unwrap()), unhex(e[1].as_str().unwrap())))
        .collect();
    (rs, store, revoked)
}

fn differs(have: &(Records, Pairs), rs: &Records, store: &Pairs) -> Result<(), String> {
    if have.0 != *rs {
        return Err(format!("{} records, {} expected, or other contents", have.0.len(), rs.len()));
    }
    if have.1 != *store {
        return Err(format!("{} store entries, {} expected, or other values", have.1.len(), store.len()));
    }
    Ok(())
}

fn check_client(ctx: &Ctx, sh: &Stronghold, cl: &Client, p: &[u8], c: &Value) -> Result<(), String> {
    let (rs, store, revoked) = want(c);
    if hex(cl.id().as_ref()) != c["id"].as_str().unwrap() {
        return Err("another identifier of the client".into());
    }
    for r in c["records"].as_array().unwrap() {
        let l = location(&unhex(r[0].as_str().unwrap()), &r[1]);
        let (v, id) = l.resolve();
        if json!([hex(v.as_ref()), hex(engine::vault::ChainId::from(id).as_ref())]) != json!([r[2], r[3]]) {
            return Err(format!("{l:?} resolves to other identifiers"));
        }
        let there = cl.record_exists(&l).map_err(|e| format!("{e:?}"))?;
        if there != !r[4].is_null() {
            return Err(format!("{l:?} exists: {there}"));
        }
        if let Some(x) = r[4].as_str() {
            if !holds(cl, &l, &unhex(x))? {
                return Err(format!("{l:?} has another content"));
            }
        }
    }
    for e in c["store"].as_array().unwrap() {
        let have = cl.store().get(&unhex(e[0].as_str().unwrap())).map_err(|e| format!("{e:?}"))?.map(|v| hex(&v));
        let expect = if e[2] == json!(0) { None } else { e[1].as_str().map(|s| s.to_string()) };
        if have != expect {
            return Err(format!("store entry {} is {have:?}", e[0]));
        }
    }
    if let Some(pk) = c["public"].as_str() {
        let l = Location::generic(*b"keys", *b"ed25519");
        let have = cl.execute_procedure(PublicKey { ty: KeyType::Ed25519, private_key: l }).map_err(|e| format!("{e:?}"))?;
        if hex(&have) != pk {
            return Err("another public key".into());
        }
    }
    differs(&dump_client(ctx, sh, p, "golden")?, &rs, &store)?;
    // revoked ones stay so until deleted
    for l in &revoked {
        if cl.vault(l.vault_path()).write_secret(l.clone(), vec![1]).is_ok() {
            return Err(format!("{l:?} is not revoked"));
        }
    }
    ctx.rep.count("records read", rs.len() as u64);
    ctx.rep.count("store entries read", store.len() as u64);
    ctx.rep.count("revoked records", revoked.len() as u64);
    Ok(())
}

fn check_one(ctx: &Ctx, dir: &Path, e: &Value) -> Result<(), String> {
    let file = dir.join(e["file"].as_str().unwrap());
    let clients = e["clients"].as_object().unwrap();
    if e["kind"] == "export" {
        let bytes = std::fs::read(&file).map_err(|e| e.to_string())?;
        let sk: [u8; 32] = unhex(e["secret"].as_str().unwrap()).try_into().unwrap();
        let epk = x25519::PublicKey::from_bytes(unhex(e["public"].as_str().unwrap()).try_into().unwrap());
        let at = Location::generic(*b"import", *b"key");
        let mut s = Snapshot::default();
        s.store_secret_key(sk, at.clone()).map_err(|e| format!("{e:?}"))?;
        s.import_from_serialized_state(bytes, at, epk, SyncSnapshotsConfig::default()).map_err(|e| format!("{e:?}"))?;
        if crate::life::clients_in(&s)? != clients.len() {
            return Err("other clients".into());
        }
        for (p, c) in clients {
            let (rs, store, _) = want(c);
            differs(&dump_state(&s.get_state(client_id(&unhex(p))).map_err(|e| format!("{e:?}"))?)?, &rs, &store)?;
            ctx.rep.count("records read", rs.len() as u64);
        }
        return Ok(());
    }
    let sp = SnapshotPath::from_path(&file);
    let hx = |k: &str| unhex(e[k].as_str().unwrap());
    let kp1 = provider(e["method"].as_str().unwrap(), &hx("passphrase"), &hx("salt"));
    let key: [u8; 32] = hx("key").try_into().unwrap();
    if key_of(&kp1) != key {
        return Err("the passphrase gives another key".into());
    }
    // everything at once
    let sh = Stronghold::default();
    sh.load_snapshot(&kp1, &sp).map_err(|e| format!("load_snapshot: {e:?}"))?;
    for (p, c) in clients {
        let p = unhex(p);
        let cl = sh.load_client(&p).map_err(|e| format!("load_client: {e:?}"))?;
        check_client(ctx, &sh, &cl, &p, c).map_err(|e| format!("client {}: {e}", short(&p)))?;
    }
    // one client from the file
    for (p, c) in clients {
        let p = unhex(p);
        let sh = Stronghold::default();
        let cl = sh.load_client_from_snapshot(&p, &kp(&key), &sp).map_err(|e| format!("load_client_from_snapshot: {e:?}"))?;
        check_client(ctx, &sh, &cl, &p, c).map_err(|e| format!("client {}: {e}", short(&p)))?;
    }
    let s = Snapshot::read_from_snapshot(&sp, key, None).map_err(|e| format!("{e:?}"))?;
    if crate::life::clients_in(&s)? != clients.len() {
        return Err("other clients".into());
    }
    // written anew and read again
    let copy = SnapshotPath::from_path(ctx.scratch.join("again"));
    sh.commit_with_keyprovider(&copy, &kp1).map_err(|e| format!("commit: {e:?}"))?;
    for (p, c) in clients {
        let (rs, store, _) = want(c);
        match dump_file(copy.as_path(), key, &unhex(p))? {
            Some(d) => differs(&d, &rs, &store).map_err(|e| format!("written again: {e}"))?,
            None => return Err("written again: client missing".into()),
        }
    }
    Ok(())
}

pub fn check(ctx: &Ctx) {
    let dir = PathBuf::from(ctx.arg(0).expect("directory"));
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).collect();
    files.retain(|f| f.extension().map_or(false, |e| e == "json"));
    files.sort();
    let (shard, shards) = ctx.shard;
    let mut all: Vec<Value> = vec![];
    for f in files {
        all.extend(serde_json::from_slice::<Vec<Value>>(&std::fs::read(f).unwrap()).unwrap());
    }
    for (i, e) in all.iter().enumerate() {
        if i % shards != shard {
            continue;
        }
        label(&format!("golden {}", e["file"]));
        match guarded(|| check_one(ctx, &dir, e)) {
            Ok(Ok(())) => {
                ctx.rep.count(&format!("{}s read", e["kind"].as_str().unwrap()), 1);
                ctx.rep.eval(Some(fnv(e["file"].as_str().unwrap().as_bytes())));
            }
            Ok(Err(x)) | Err(x) => ctx.rep.violation("golden/read", json!({"file": e["file"], "error": x})),
        }
    }
}
