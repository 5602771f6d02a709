//! C11: no request crashes the engine or wedges a client.
use crate::common::*;
use crate::foreign::limit_memory;
use crate::gen;
use crate::util::*;
use crypto::hashes::{blake2b, sha, Digest};
use crypto::keys::x25519;
use engine::vault::{ClientId, RecordHint, RecordId, VaultId};
use iota_stronghold::procedures::*;
use iota_stronghold::sync::{MergePolicy, SyncClientsConfig, SyncSnapshotsConfig};
use iota_stronghold::*;
use serde_json::json;
use std::collections::HashMap;
use std::time::Duration;

fn wild_path(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![],
        1 => vec![0],
        2 => vec![0xff; rng.range(1, 200)],
        3 => rng.bytes(100_000),
        4 => b"../../etc".to_vec(),
        _ => {
            let n = rng.range(1, 40);
            rng.bytes(n)
        }
    }
}

fn wild_location(rng: &mut Rng) -> Location {
    let v = wild_path(rng);
    if rng.chance(1, 3) {
        let c = *rng.pick(&[0, 1, usize::MAX, usize::MAX / 2, 1 << 32]);
        Location::counter(v, c)
    } else {
        Location::generic(v, wild_path(rng))
    }
}

struct World {
    sh: Stronghold,
    other: Stronghold,
    cl: Client,
    sib: Client,
    locs: Vec<Location>,
    n: u64,
}

const SIZES: &[usize] = &[0, 1, 2, 15, 16, 17, 24, 31, 32, 33, 40, 47, 48, 63, 64, 65, 66, 96, 128, 200, 5000, 70_000];

fn world(rng: &mut Rng) -> Result<World, String> {
    let e = |e: ClientError| format!("{e:?}");
    let sh = Stronghold::default();
    let other = Stronghold::default();
    let cl = sh.create_client(b"client").map_err(e)?;
    let sib = sh.create_client(b"sibling").map_err(e)?;
    let mut locs = vec![];
    for n in SIZES {
        let l = Location::generic(rng.pick(&[b"v".to_vec(), b"w".to_vec(), vec![]]).clone(), n.to_le_bytes().to_vec());
        let _ = cl.vault(l.vault_path()).write_secret(l.clone(), rng.bytes(*n));
        locs.push(l);
    }
    for k in 0..4u8 {
        let l = Location::counter(b"gone".to_vec(), k as usize);
        cl.vault(b"gone").write_secret(l.clone(), rng.bytes(32)).map_err(e)?;
        cl.execute_procedure(RevokeData { location: l.clone(), should_gc: k == 0 }).map_err(|e| format!("{e:?}"))?;
        locs.push(l);
    }
    Ok(World { sh, other, cl, sib, locs, n: 0 })
}

/// The client, its sibling and the instance still do what they should.
fn alive(w: &mut World) -> Result<(), String> {
    w.n += 1;
    for cl in [&w.cl, &w.sib] {
        let l = Location::counter(b"probe".to_vec(), w.n as usize % 7);
        let data = w.n.to_le_bytes().to_vec();
        cl.vault(b"probe").write_secret(l.clone(), data.clone()).map_err(|e| format!("write: {e:?}"))?;
        if !holds(cl, &l, &data).map_err(|e| format!("read: {e}"))? {
            return Err("a record holds something else than was written".into());
        }
        if !cl.record_exists(&l).map_err(|e| format!("record_exists: {e:?}"))? {
            return Err("a record that was written does not exist".into());
        }
        cl.store().insert(b"probe".to_vec(), data.clone(), None).map_err(|e| format!("insert: {e:?}"))?;
        if cl.store().get(b"probe").map_err(|e| format!("get: {e:?}"))? != Some(data) {
            return Err("the store does not give back what was inserted".into());
        }
    }
    w.sh.write_client(b"client").map_err(|e| format!("write_client: {e:?}"))?;
    if w.n % 16 == 0 {
        w.sh.get_client(b"client").map_err(|e| format!("get_client: {e:?}"))?;
    }
    Ok(())
}

fn wild_ids(rng: &mut Rng, w: &World) -> (VaultId, RecordId) {
    if rng.chance(1, 2) {
        rng.pick(&w.locs).resolve()
    } else {
        wild_location(rng).resolve()
    }
}

fn wild_duration(rng: &mut Rng) -> Option<Duration> {
    *rng.pick(&[None, Some(Duration::ZERO), Some(Duration::MAX), Some(Duration::from_secs(u64::MAX)), Some(Duration::from_secs(i64::MAX as u64)), Some(Duration::from_nanos(1))])
}

fn wild_config(rng: &mut Rng) -> SyncClientsConfig {
    let mut c = SyncClientsConfig::new(if rng.chance(1, 2) { MergePolicy::Replace } else { MergePolicy::KeepOld });
    let p = |rng: &mut Rng| if rng.chance(1, 2) { rng.pick(&[b"v".to_vec(), b"w".to_vec(), vec![], b"gone".to_vec()]).clone() } else { wild_path(rng) };
    if rng.chance(1, 2) {
        c.sync_selected_vaults((0..rng.below(4)).map(|_| p(rng)).collect());
    }
    if rng.chance(1, 2) {
        c.sync_selected_record(p(rng), (0..rng.below(5)).map(|_| SIZES[rng.below(SIZES.len())].to_le_bytes().to_vec()).collect());
    }
    if rng.chance(1, 2) {
        c.map_vaults((0..rng.below(4)).map(|_| (p(rng), p(rng))).collect::<HashMap<_, _>>());
    }
    c
}

/// One request; returns what it was and whether it succeeded.
fn request(ctx: &Ctx, w: &World, rng: &mut Rng, beat: &Beat) -> (String, bool) {
    let locs = w.locs.clone();
    let pick = move |rng: &mut Rng| if rng.chance(1, 10) { wild_location(rng) } else { rng.pick(&locs).clone() };
    macro_rules! go {
        ($what:expr, $e:expr) => {{
            let s: String = $what.into();
            beat.on(&s);
            let r = $e;
            (s, r.is_ok())
        }};
    }
    match rng.below(30) {
        0..=13 => {
            let p = gen::any(rng, &pick, &pick, true);
            go!(gen::name(&p), w.cl.execute_procedure_chained(vec![p]))
        }
        14 => {
            let ps: Vec<_> = (0..rng.below(5)).map(|_| gen::any(rng, &pick, &pick, true)).collect();
            go!(format!("chain of {}", ps.len()), w.cl.execute_procedure_chained(ps))
        }
        15 => {
            // Through the typed interface.
            let (a, t) = (pick(rng), pick(rng));
            match rng.below(4) {
                0 => go!("PublicKey", w.cl.execute_procedure(PublicKey { ty: gen::kty(rng), private_key: a })),
                1 => go!("Hmac", w.cl.execute_procedure(Hmac { hash_type: gen::sha(rng), msg: gen::blob(rng), key: a })),
                2 => go!("AeadEncrypt", w.cl.execute_procedure(AeadEncrypt {
                    cipher: gen::aead(rng), associated_data: gen::blob(rng), plaintext: gen::blob(rng), nonce: gen::blob(rng), key: a
                })),
                _ => go!("CopyRecord", w.cl.execute_procedure(CopyRecord { source: a, target: t })),
            }
        }
        16 => {
            let l = wild_location(rng);
            let v = wild_path(rng);
            let n = *rng.pick(SIZES);
            let data = rng.bytes(n);
            go!("write_secret", w.cl.vault(v).write_secret(l, data))
        }
        17 => {
            let (v, r) = (wild_path(rng), wild_path(rng));
            match rng.below(3) {
                0 => go!("delete_secret", w.cl.vault(v).delete_secret(r)),
                1 => go!("revoke_secret", w.cl.vault(v).revoke_secret(r)),
                _ => go!("cleanup", w.cl.vault(v).cleanup()),
            }
        }
        18 => {
            let l = wild_location(rng);
            match rng.below(2) {
                0 => go!("record_exists", w.cl.record_exists(&l)),
                _ => go!("vault_exists", w.cl.vault_exists(l.vault_path())),
            }
        }
        19 => {
            let (k, v) = (wild_path(rng), wild_path(rng));
            let d = wild_duration(rng);
            match rng.below(4) {
                0 => go!(format!("store insert {d:?}"), w.cl.store().insert(k, v, d)),
                1 => go!("store get", w.cl.store().get(&k)),
                2 => go!("store delete", w.cl.store().delete(&k)),
                _ => go!("store keys", w.cl.store().keys()),
            }
        }
        20 => {
            let who = if rng.chance(1, 2) { &w.cl } else { &w.sib };
            let c = wild_config(rng);
            go!("sync_with", w.cl.sync_with(who, c))
        }
        21 => {
            let p = |rng: &mut Rng| if rng.chance(2, 3) { rng.pick(&[b"v".to_vec(), b"w".to_vec(), b"gone".to_vec()]).clone() } else { wild_path(rng) };
            let sel = rng.chance(1, 2).then(|| (0..rng.below(4)).map(|_| wild_ids(rng, w).1).collect::<Vec<_>>());
            let (a, b) = (p(rng), p(rng));
            go!("sync_vaults", w.cl.sync_vaults(a, b, sel, MergePolicy::Replace))
        }
        22 => {
            // Places where no file can be written or read.
            let d = ctx.scratch.join("a-directory");
            let _ = std::fs::create_dir_all(&d);
            let f = ctx.scratch.join("a-file");
            let _ = std::fs::write(&f, b"x");
            let long = ctx.scratch.join("x".repeat(300));
            let p = rng.pick(&[d.clone(), f.join("below"), long, "".into(), "/".into(), ctx.scratch.join("nul\0byte"), "/dev/null/x".into(), ctx.scratch.join("ok")]).clone();
            let sp = SnapshotPath::from_path(&p);
            let k = kp(&[3; 32]);
            match rng.below(4) {
                0 => go!(format!("commit to {}", p.display()), w.sh.commit_with_keyprovider(&sp, &k)),
                1 => go!(format!("commit to {}", p.display()), w.sh.commit(&sp)),
                2 => go!(format!("load from {}", p.display()), w.other.load_snapshot(&k, &sp)),
                _ => go!(format!("load client from {}", p.display()), w.other.load_client_from_snapshot(wild_path(rng), &k, &sp)),
            }
        }
        23 => {
            let p = wild_path(rng);
            match rng.below(6) {
                0 => go!("load_client", w.other.load_client(&p)),
                1 => go!("get_client", w.other.get_client(&p)),
                2 => go!("create_client", w.other.create_client(&p)),
                3 => go!("write_client", w.sh.write_client(&p)),
                4 => go!("unload_client of another instance", w.other.unload_client(w.cl.clone())),
                _ => go!("purge_client of another instance", w.other.purge_client(w.cl.clone())),
            }
        }
        24 => {
            let l = wild_location(rng);
            go!("store_snapshot_key_at_location", w.sh.store_snapshot_key_at_location(kp(&rng.array()), l))
        }
        25 => {
            let n = *rng.pick(&[0, 1, 16, 31, 32, 33, 64, 10_000]);
            let b = rng.bytes(n);
            match rng.below(6) {
                0 => go!(format!("key provider of {n} bytes"), KeyProvider::try_from(b)),
                1 => go!("passphrase truncated", KeyProvider::with_passphrase_truncated(b)),
                2 => go!("passphrase hashed", KeyProvider::with_passphrase_hashed(b, blake2b::Blake2b256::new())),
                3 => go!("passphrase hashed with sha 512", KeyProvider::with_passphrase_hashed(b, sha::Sha512::new())),
                4 => go!("passphrase hashed with blake2b", KeyProvider::with_passphrase_hashed_blake2b(b)),
                _ => {
                    let m = *rng.pick(&[0, 7, 8, 32]);
                    let s = rng.bytes(m);
                    go!(format!("passphrase of {n} with salt of {m}"), KeyProvider::with_passphrase_hashed_argon2(b, s))
                }
            }
        }
        26 => {
            let mut s = Snapshot::default();
            let at = wild_location(rng);
            match rng.below(6) {
                0 => {
                    let n = *rng.pick(&[0, 1, 31, 32, 33, 100]);
                    let k = rng.bytes(n);
                    let _ = s.store_secret_key(k, at.clone());
                    let n = rng.below(400);
                    let b = rng.bytes(n);
                    let pk = x25519::PublicKey::from_bytes(*rng.pick(&[[0; 32], [0xff; 32], [9; 32]]));
                    go!(format!("import of {n} bytes"), s.import_from_serialized_state(b, at, pk, SyncSnapshotsConfig::default()))
                }
                1 => {
                    let (v, r) = wild_ids(rng, w);
                    let sel: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> =
                        [(client_id(&wild_path(rng)), [(v, vec![r])].into())].into();
                    let pk = x25519::PublicKey::from_bytes(*rng.pick(&[[0; 32], [0xff; 32], [9; 32]]));
                    go!("export of nothing", s.export_to_serialized_state(sel, pk))
                }
                2 => go!("purge_client of an empty snapshot", s.purge_client(client_id(&wild_path(rng)))),
                3 => go!("get_state of an absent client", s.get_state(client_id(&wild_path(rng)))),
                4 => {
                    let sp = SnapshotPath::from_path(ctx.scratch.join("absent-key"));
                    go!("write with an absent key", s.write_to_snapshot(&sp, UseKey::Stored(at)))
                }
                _ => {
                    let (v, r) = at.resolve();
                    go!("store_snapshot_key", s.store_snapshot_key(rng.array(), v, r))
                }
            }
        }
        27 => {
            let n = rng.below(60);
            let b = rng.bytes(n);
            match rng.below(4) {
                0 => go!(format!("record hint of {n} bytes"), RecordHint::new(&b).ok_or(())),
                1 => go!(format!("client id of {n} bytes"), ClientId::load(&b)),
                2 => go!(format!("vault id of {n} bytes"), VaultId::load(&b)),
                _ => go!(format!("record id of {n} bytes"), RecordId::load(&b)),
            }
        }
        28 => {
            let l = wild_location(rng);
            go!("use of a location", Ok::<_, ()>((l.resolve(), format!("{l:?}").len(), bincode::serialize(&l).map(|b| b.len()).unwrap_or(0))))
        }
        _ => {
            let mut cs = SyncSnapshotsConfig::new(MergePolicy::Replace);
            cs.config_client_sync(wild_path(rng), wild_config(rng));
            cs.map_clients([(wild_path(rng), wild_path(rng)), (b"client".to_vec(), wild_path(rng))].into());
            if rng.chance(1, 2) {
                cs.sync_selected_clients(vec![wild_path(rng), b"client".to_vec(), b"client".to_vec()]);
            }
            let f = ctx.scratch.join("state");
            let k = [1u8; 32];
            beat.on("merge_state");
            let r = w.sh.commit_with_keyprovider(&SnapshotPath::from_path(&f), &kp(&k)).map_err(|_| ()).and_then(|_| {
                let src = Snapshot::read_from_snapshot(&SnapshotPath::from_path(&f), k, None).map_err(|_| ())?;
                let mut dst = if rng.chance(1, 2) { Snapshot::default() } else { Snapshot::read_from_snapshot(&SnapshotPath::from_path(&f), k, None).map_err(|_| ())? };
                dst.merge_state(src.get_snapshot_state().map_err(|_| ())?, cs).map_err(|_| ())
            });
            ("merge_state".into(), r.is_ok())
        }
    }
}

pub fn hostile(ctx: &Ctx) {
    limit_memory(6 << 30);
    let beat = Beat::start(ctx, "hostile/hang", Duration::from_secs(90));
    ctx.cases("hostile", ctx.n(500, 20_000), 8, |ctx, i, rng| {
        let mut w = match world(rng) {
            Ok(w) => w,
            Err(e) => return ctx.rep.violation("hostile/set-up", json!({"case": i, "what": e})),
        };
        for step in 0..60 {
            let mut what = String::new();
            match guarded(|| {
                let (s, ok) = request(ctx, &w, rng, &beat);
                what = s;
                ok
            }) {
                Err(p) => {
                    let name = beat.name();
                    ctx.rep.violation("hostile/panic", json!({"case": i, "step": step, "request": name, "panic": p}));
                }
                Ok(ok) => {
                    ctx.rep.count(if ok { "requests that succeeded" } else { "requests refused" }, 1);
                    ctx.rep.eval(Some(fnv(format!("{what}{ok}{}", step % 8).as_bytes())));
                    ctx.rep.seen("request and outcome", fnv(format!("{what}{ok}").as_bytes()));
                }
            }
            beat.on("probe");
            match guarded(|| alive(&mut w)) {
                Ok(Ok(())) => ctx.rep.count("probes of the client afterwards", 1),
                Ok(Err(e)) | Err(e) => {
                    ctx.rep.violation("hostile/wedged", json!({"case": i, "step": step, "after": what, "what": e}));
                    return;
                }
            }
        }
        beat.on("");
    });
}
