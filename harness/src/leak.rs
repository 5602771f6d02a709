//! C06: what reaches the file system, or is handed to a peer, against the secrets that were used; freshness of sealing.
use crate::common::*;
use crate::gen;
use crate::io::{observe, Plan};
use crate::mach::*;
use crate::tamper::{Db, Id24};
use crate::util::*;
use engine::vault::{RecordId, VaultId};
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use runtime::locked_memory::LockedMemory;
use runtime::memories::file_memory::FileMemory;
use runtime::memories::frag::FragStrategy;
use runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use serde_json::json;
use std::collections::{HashMap, HashSet};

/// Pieces of secrets, as they are and in the common encodings.
#[derive(Default)]
pub struct Needles {
    raw: HashSet<u64>,
    text: HashSet<u128>,
    pub secrets: usize,
}

pub fn base64(b: &[u8], url: bool) -> String {
    let abc: &[u8] = if url { b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" } else { b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" };
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(abc[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

/// Ways a byte string may be written in text.
pub fn renderings(s: &[u8]) -> Vec<String> {
    let mut out = vec![
        hex(s),
        hex(s).to_uppercase(),
        s.iter().map(|b| format!("{b}, ")).collect(),
        s.iter().map(|b| format!("{b},")).collect(),
        s.iter().map(|b| format!("{b:02x}, ")).collect(),
        s.iter().map(|b| format!("{b:02x} ")).collect(),
        s.iter().map(|b| format!("\\x{b:02x}")).collect(),
        s.iter().map(|b| format!("{b:#04x}, ")).collect(),
        s.iter().map(|b| format!("{b:#x}, ")).collect(),
        s.iter().map(|b| format!("    {b},\n")).collect(),
    ];
    for k in 0..3 {
        if s.len() > k + 14 {
            out.push(base64(&s[k..], true).trim_end_matches('=').to_string());
            out.push(base64(&s[k..], false).trim_end_matches('=').to_string());
        }
    }
    out
}

impl Needles {
    pub fn add(&mut self, s: &[u8]) {
        let mut any = false;
        for w in s.windows(8) {
            if w.iter().collect::<HashSet<_>>().len() < 4 || w.windows(2).all(|p| p[1] == p[0].wrapping_add(1)) {
                continue;
            }
            any = true;
            let w: [u8; 8] = w.try_into().unwrap();
            let n = u64::from_be_bytes(w);
            self.raw.extend([n, n.swap_bytes(), !n]);
        }
        if !any {
            return;
        }
        self.secrets += 1;
        if s.len() <= 256 {
            for t in renderings(s) {
                for w in t.as_bytes().windows(16) {
                    if w.iter().collect::<HashSet<_>>().len() >= 6 {
                        self.text.insert(u128::from_be_bytes(w.try_into().unwrap()));
                    }
                }
            }
        }
    }
    /// Where a piece of a secret is in `b`.
    pub fn find(&self, b: &[u8]) -> Option<(usize, &'static str)> {
        let (mut n, mut t) = (0u64, 0u128);
        for (i, x) in b.iter().enumerate() {
            n = n << 8 | *x as u64;
            t = t << 8 | *x as u128;
            if i >= 7 && self.raw.contains(&n) {
                return Some((i - 7, "bytes"));
            }
            if i >= 15 && self.text.contains(&t) {
                return Some((i - 15, "text"));
            }
        }
        None
    }
}

fn windows(b: &[u8]) -> HashSet<u64> {
    b.windows(8).map(|w| u64::from_be_bytes(w.try_into().unwrap())).collect()
}

/// An error if the two have a piece in common.
fn unrelated(a: &[u8], b: &[u8], what: &str) -> Result<(), String> {
    let ws = windows(a);
    if let Some(i) = b.windows(8).position(|w| ws.contains(&u64::from_be_bytes(w.try_into().unwrap()))) {
        return Err(format!("{what} share a piece: {} at {i} of {}", hex(&b[i..i + 8]), b.len()));
    }
    let n = a.len().min(b.len());
    let same = (0..n).filter(|i| a[*i] == b[*i]).count();
    if n >= 40 && same > n / 4 {
        return Err(format!("{what}: {same} of {n} bytes are the same"));
    }
    Ok(())
}

/// The sealed pieces of a client's state; nonces of different ones must differ.
#[derive(Default)]
struct Sealed {
    nonces: HashMap<Vec<u8>, Vec<u8>>,
    /// vault keys and where they are
    keys: HashMap<Vec<u8>, (Vec<u8>, Id24)>,
    n: usize,
}

impl Sealed {
    fn note(&mut self, client: &[u8], st: &ClientState) -> Result<Option<Db>, String> {
        let (Ok(keys), Ok(db)) = (
            bincode::deserialize::<HashMap<Id24, Vec<u8>>>(&bincode::serialize(&st.0).map_err(|e| e.to_string())?),
            bincode::deserialize::<Db>(&bincode::serialize(&st.1).map_err(|e| e.to_string())?),
        ) else {
            return Ok(None);
        };
        for (v, k) in keys {
            match self.keys.insert(k, (client.to_vec(), v)) {
                Some((c, w)) if c != client || w != v => return Err(format!("vaults {} of {} and {} of {} share a key", hex(&w), short(&c), hex(&v), short(client))),
                _ => (),
            }
        }
        for (_, va) in &db.vaults {
            for (_, e) in &va.entries {
                for b in [Some(&e.data), e.revoke.as_ref(), Some(&e.blob)].into_iter().flatten() {
                    if b.len() < 40 {
                        continue;
                    }
                    self.n += 1;
                    match self.nonces.insert(b[16..40].to_vec(), b.clone()) {
                        Some(o) if o != *b => return Err(format!("one nonce for two sealings: {} and {}", short(&o), short(b))),
                        _ => (),
                    }
                }
            }
        }
        Ok(Some(db))
    }
}

pub fn leak(ctx: &Ctx) {
    let n = ctx.n(600, 20_000);
    let home = std::path::PathBuf::from(std::env::var("HOME").expect("HOME"));
    ctx.cases("leak", n, 1, |ctx, i, rng| {
        let mut nd = Needles::default();
        let mut secret = |rng: &mut Rng, n: usize| {
            let s = rng.bytes(n);
            nd.add(&s);
            s
        };
        let np = rng.range(1, 3);
        let cpaths: Vec<Vec<u8>> = (0..np).map(|_| { let n = rng.range(12, 60); secret(rng, n) }).collect();
        let mut u = Universe::new(rng, 1, 1);
        let (nv, nr) = (rng.range(1, 3), rng.range(1, 4));
        u.vaults = (0..nv).map(|_| secret(rng, 20)).collect();
        u.recs = (0..nr).map(|k| if k == 2 { RP::C(rng.below(9)) } else { RP::G(secret(rng, 20)) }).collect();
        u.keys = (0..3).map(|_| secret(rng, 24)).collect();
        let key: [u8; 32] = secret(rng, 32).try_into().unwrap();
        let pass = secret(rng, 40);
        let peer: [u8; 32] = secret(rng, 32).try_into().unwrap();
        let values: Vec<Vec<u8>> = (0..12).map(|k| { let n = [16, 24, 31, 32, 33, 64, 100, 1000, 5000, 32, 32, 64][k]; secret(rng, n) }).collect();
        let share: Vec<Vec<u8>> = (0..8).map(|_| secret(rng, 32)).collect();
        let text = values[0][..12].iter().map(|b| format!("{b:02x}")).collect::<String>();
        nd.add(text.as_bytes());
        let files: Vec<_> = (0..2).map(|k| ctx.scratch.join(format!("leak-{i}-{k}"))).collect();
        let (r, seen) = observe(Plan::Watch, true, || -> Result<(Vec<Vec<u8>>, Stronghold), String> {
            let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
            let sh = Stronghold::default();
            let cls: Vec<Client> = cpaths.iter().map(|p| sh.create_client(p).unwrap()).collect();
            let mut given = vec![];
            for (k, v) in values.iter().enumerate() {
                let l = u.any(rng);
                let c = rng.pick(&cls);
                let _ = c.vault(&l.0).write_secret(loc(&l), v.clone());
                match k % 4 {
                    0 => drop(c.store().insert(rng.pick(&u.keys).clone(), v.clone(), None)),
                    1 => drop(sh.store().insert(rng.pick(&u.keys).clone(), v.clone(), None)),
                    _ => (),
                }
                let t = u.any(rng);
                let _ = c.execute_procedure(CopyRecord { source: loc(&l), target: loc(&t) });
                let (us, ut) = (u.any(rng), u.any(rng));
                let p = gen::any(rng, &|_| loc(&us), &|_| loc(&ut), false);
                // the passphrases and keys of the generated procedures are not recorded as secrets
                let _ = guarded(|| drop(c.execute_procedure(p)));
                if k % 3 == 0 {
                    sh.commit_with_keyprovider(&SnapshotPath::from_path(&files[rng.below(2)]), &kp(&key)).map_err(|x| e(&x))?;
                }
                if rng.chance(1, 6) {
                    let _ = c.vault(&l.0).delete_secret(match &l.1 { RP::G(r) => r.clone(), _ => vec![] });
                }
            }
            let kp2 = KeyProvider::with_passphrase_hashed_blake2b(pass.clone()).map_err(|x| e(&x))?;
            let kp3 = KeyProvider::with_passphrase_truncated(pass[..32].to_vec()).map_err(|x| e(&x))?;
            sh.commit_with_keyprovider(&SnapshotPath::from_path(&files[1]), &kp2).map_err(|x| e(&x))?;
            sh.commit_with_keyprovider(&SnapshotPath::from_path(&files[1]), &kp3).map_err(|x| e(&x))?;
            sh.store_snapshot_key_at_location(kp(&key), Location::generic(u.vaults[0].clone(), cpaths[0].clone())).map_err(|x| e(&x))?;
            sh.commit(&SnapshotPath::from_path(&files[1])).map_err(|x| e(&x))?;
            // loading and using it again
            let _ = sh.unload_client(cls[0].clone());
            sh.load_snapshot(&kp(&key), &SnapshotPath::from_path(&files[1])).map_err(|x| e(&x))?;
            let c = sh.load_client(&cpaths[0]).map_err(|x| e(&x))?;
            let _ = c.store().insert(u.keys[0].clone(), values[9].clone(), None);
            // handed to a peer
            let sp = SnapshotPath::from_path(&files[1]);
            let snap = Snapshot::read_from_snapshot(&sp, key, None).map_err(|x| e(&x))?;
            let pk = crypto::keys::x25519::SecretKey::from_bytes(peer).public_key();
            for _ in 0..2 {
                let mut sel = HashMap::new();
                for p in &cpaths {
                    let st = snap.get_state(client_id(p)).map_err(|x| e(&x))?;
                    let vs: HashMap<VaultId, Vec<RecordId>> = st.0.keys().map(|v| {
                        let rs = st.1.list_records_with_blob_id(&st.0[v], *v).map(|r| r.into_iter().map(|x| x.0).collect()).unwrap_or_default();
                        (*v, rs)
                    }).filter(|(_, r): &(VaultId, Vec<RecordId>)| !r.is_empty()).collect();
                    sel.insert(client_id(p), vs);
                }
                let (pk, bytes) = snap.export_to_serialized_state(sel, pk).map_err(|x| e(&x))?;
                given.push(pk.to_bytes().to_vec());
                given.push(bytes);
            }
            // shares of secrets in files
            for (k, s) in share.iter().enumerate() {
                let cfg = match k % 4 {
                    0 => NCConfig::FullFile,
                    1 => NCConfig::RamAndFile,
                    2 => NCConfig::FullRam,
                    _ => NCConfig::FragAllocation(*rng.pick(&[FragStrategy::Map, FragStrategy::Direct, FragStrategy::Hybrid])),
                };
                let m = NonContiguousMemory::alloc(s, 32, cfg).map_err(|x| e(&x))?;
                for _ in 0..2 {
                    if *m.unlock().map_err(|x| e(&x))?.borrow() != s[..] {
                        return Err("a share came back changed".into());
                    }
                    m.refresh().map_err(|x| e(&x))?;
                }
                drop(m.clone());
                let f = FileMemory::alloc(&values[k], values[k].len()).map_err(|x| e(&x))?;
                let g = f.clone();
                drop(f);
                if *g.unlock().map_err(|x| e(&x))?.borrow() != values[k][..] {
                    return Err("a file share came back changed".into());
                }
            }
            Ok((given, sh))
        });
        let r = r.and_then(|(given, sh)| {
            // the results of procedures and the keys of vaults are secrets as well
            let snap = Snapshot::read_from_snapshot(&SnapshotPath::from_path(&files[1]), key, None).map_err(|e| format!("{e:?}"))?;
            let mut sealed = Sealed::default();
            for p in &cpaths {
                let st = snap.get_state(client_id(p)).map_err(|e| format!("{e:?}"))?;
                for v in dump_state(&st)?.0.into_values() {
                    if v.len() >= 16 {
                        nd.add(&v);
                    }
                }
                if sealed.note(p, &st)?.is_none() {
                    ctx.rep.count("states of another layout", 1);
                }
            }
            for k in sealed.keys.keys() {
                nd.add(k);
            }
            let mut bytes = 0;
            for d in seen.data.iter().chain(&given) {
                bytes += d.len();
                if let Some((at, how)) = nd.find(d) {
                    return Err(format!("a piece of a secret, as {how}, at {at} of {} written bytes: {}", d.len(), short(&d[at..])));
                }
            }
            // and what is on disk by other ways
            let mut dirs = vec![ctx.scratch.clone(), home.clone()];
            while let Some(d) = dirs.pop() {
                for f in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                    match f.file_type() {
                        Ok(t) if t.is_dir() => dirs.push(f.path()),
                        Ok(t) if t.is_file() => {
                            let b = std::fs::read(f.path()).unwrap_or_default();
                            if let Some((at, how)) = nd.find(&b).or(nd.find(f.file_name().as_encoded_bytes())) {
                                return Err(format!("a piece of a secret, as {how}, at {at} of {:?}", f.path()));
                            }
                            ctx.rep.count("files searched", 1);
                        }
                        _ => (),
                    }
                }
            }
            ctx.rep.count("written buffers searched", seen.data.len() as u64);
            ctx.rep.count("written bytes searched", bytes as u64);
            ctx.rep.count("secrets looked for", nd.secrets as u64);
            for o in &seen.log {
                ctx.rep.seen("kinds of operations", fnv(o.kind.as_bytes()));
            }
            // two exports of one state
            unrelated(&given[0], &given[2], "the public keys of two exports")?;
            unrelated(&given[1], &given[3], "two exports of one state")?;
            // three commits of one state
            let mut all: Vec<Vec<u8>> = vec![];
            for k in 0..3 {
                let f = &files[k % 2];
                sh.commit_with_keyprovider(&SnapshotPath::from_path(f), &kp(&key)).map_err(|e| format!("{e:?}"))?;
                let b = std::fs::read(f).map_err(|e| e.to_string())?;
                for o in &all {
                    unrelated(&o[7..], &b[7..], "two commits of one state")?;
                }
                all.push(b);
            }
            // the same by the snapshot alone, where nothing else is sealed in between, and by the engine's functions
            let (mut all, mut plain) = (vec![], vec![]);
            for k in 0..3 {
                let f = &files[k % 2];
                snap.write_to_snapshot(&SnapshotPath::from_path(f), UseKey::Key(key)).map_err(|e| format!("{e:?}"))?;
                all.push(std::fs::read(f).map_err(|e| e.to_string())?[7..].to_vec());
                engine::snapshot::write_to(&values[7], f, &key, &[]).map_err(|e| format!("{e:?}"))?;
                plain.push(std::fs::read(f).map_err(|e| e.to_string())?[7..].to_vec());
                let mut b = vec![];
                engine::snapshot::write(&values[7], &mut b, &key, if k == 2 { b"x" } else { b"" }).map_err(|e| format!("{e:?}"))?;
                plain.push(b);
                let mut b = vec![];
                engine::snapshot::write(&values[8], &mut b, &key, b"").map_err(|e| format!("{e:?}"))?;
                plain.push(b);
            }
            for a in 0..all.len() {
                for b in 0..a {
                    unrelated(&all[a], &all[b], "one snapshot written twice")?;
                }
            }
            for a in 0..plain.len() {
                for b in 0..a {
                    unrelated(&plain[a], &plain[b], "two sealings with one key")?;
                }
                if nd.find(&plain[a]).is_some() {
                    return Err("a piece of a secret in a sealing".into());
                }
            }
            ctx.rep.count("sealings with one key compared", (all.len() + plain.len()) as u64);
            // writing the same again, here and elsewhere
            let c = sh.get_client(&cpaths[0]).map_err(|e| format!("{e:?}"))?;
            let vals = values.iter().take(5);
            let mut old: HashMap<Vec<u8>, Vec<Vec<u8>>> = HashMap::new();
            for round in 0..3 {
                let mut at = vec![];
                for (k, v) in vals.clone().enumerate() {
                    let l = Location::generic(b"again".to_vec(), vec![k as u8 + 1]);
                    let l2 = Location::generic(vec![b'x', round + 1], vec![k as u8 + 1]);
                    for l in [l, l2] {
                        c.vault(l.vault_path()).write_secret(l.clone(), v.clone()).map_err(|e| format!("{e:?}"))?;
                        at.push((l.resolve(), v.clone()));
                    }
                }
                sh.commit_with_keyprovider(&SnapshotPath::from_path(&files[0]), &kp(&key)).map_err(|e| format!("{e:?}"))?;
                let s = Snapshot::read_from_snapshot(&SnapshotPath::from_path(&files[0]), key, None).map_err(|e| format!("{e:?}"))?;
                let Some(db) = sealed.note(&cpaths[0], &s.get_state(client_id(&cpaths[0])).map_err(|e| format!("{e:?}"))?)? else { break };
                for ((vid, rid), v) in at {
                    let v24: Id24 = vid.as_ref().try_into().unwrap();
                    let r24: Id24 = engine::vault::ChainId::from(rid).as_ref().try_into().unwrap();
                    let e = db.vaults.get(&v24).and_then(|x| x.entries.get(&r24)).ok_or("a written record is not stored")?;
                    for b in [&e.blob, &e.data] {
                        if nd.find(b).is_some() {
                            return Err("a piece of a secret in a sealed record".into());
                        }
                        for o in old.entry(v.clone()).or_default().iter() {
                            unrelated(&o[..], b, "two sealings of one content")?;
                        }
                        old.get_mut(&v).unwrap().push(b.clone());
                    }
                }
            }
            ctx.rep.count("sealings compared", sealed.n as u64);
            ctx.rep.seen("keys of vaults", fnv(&sealed.keys.keys().next().cloned().unwrap_or_default()));
            ctx.rep.eval(Some(fnv(&key)));
            if i == 0 {
                ctx.rep.sample(json!({"operations": seen.log.iter().take(20).map(|o| format!("{} {} {} -> {}", o.kind, o.what, o.len, o.ret)).collect::<Vec<_>>()}));
            }
            Ok(())
        });
        for e in std::fs::read_dir(&ctx.scratch).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(e.path());
        }
        if let Err(e) = r {
            ctx.rep.violation("leak", json!({"case": i, "what": e}));
        }
    });
}
