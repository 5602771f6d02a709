//! C22: keys from passphrases. C23: identifiers from paths.
use crate::common::*;
use crate::util::*;
use crypto::hashes::Digest;
use engine::vault::{ClientId, Id, RecordId, VaultId};
use iota_stronghold::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::sync::atomic::{AtomicBool, Ordering};

// ---- paths -----------------------------------------------------------------------------------------------------------

/// A path and others easily mistaken for it.
fn near(rng: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let base: Vec<u8> = match rng.below(12) {
        0 => vec![],
        1 => b"vault".to_vec(),
        2 => "v\u{e4}ult/\u{1f512} p\u{e5}th".as_bytes().to_vec(),
        3 => vec![0xff; rng.range(1, 5)],
        4 => {
            let n = *rng.pick(&[24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1024, 5000]);
            rng.bytes(n)
        }
        5 => b"wallet/account/0".to_vec(),
        6 => (rng.u64() % 100_000).to_string().into_bytes(),
        7 => vec![0; rng.range(1, 4)],
        8 => {
            let n = rng.range(1, 200);
            rng.bytes(n)
        }
        9 => b"first_record".to_vec(),
        10 => {
            let n = rng.range(1, 8);
            vec![*rng.pick(b"ab/01"); n]
        }
        _ => {
            let n = rng.range(1, 30);
            rng.bytes(n)
        }
    };
    let mut out = vec![base.clone()];
    for _ in 0..n * 4 {
        if out.len() >= n {
            break;
        }
        let mut p = if rng.chance(1, 3) { rng.pick(&out).clone() } else { base.clone() };
        match rng.below(16) {
            0 if !p.is_empty() => {
                let i = rng.below(p.len());
                p[i] ^= 1 << rng.below(8);
            }
            1 if !p.is_empty() => {
                let i = p.len() - 1;
                p[i] ^= 1 << rng.below(8);
            }
            2 if !p.is_empty() => p[0] ^= 1 << rng.below(8),
            3 => p.push(*rng.pick(&[0u8, b' ', b'/', b'\n', b'0', 0xff, b'a'])),
            4 => p.insert(0, *rng.pick(&[0u8, b' ', b'/', b'0', 0xff, b'.'])),
            5 => {
                p.pop();
            }
            6 if !p.is_empty() => {
                p.remove(0);
            }
            7 => p.reverse(),
            8 if p.len() > 1 => {
                let (i, j) = (rng.below(p.len()), rng.below(p.len()));
                p.swap(i, j);
            }
            9 => {
                let q = p.clone();
                p.extend(q);
            }
            10 => p.make_ascii_uppercase(),
            11 => p = String::from_utf8_lossy(&p).into_owned().into_bytes(),
            12 => p = hex(&p).into_bytes(),
            13 => p = format!("{p:?}").into_bytes(),
            14 => {
                let k = rng.below(p.len() + 1);
                p.rotate_left(k);
            }
            _ => {
                let k = rng.below(p.len() + 1);
                p.truncate(k);
            }
        }
        if !out.contains(&p) {
            out.push(p);
        }
    }
    out
}

/// Whether HMAC cannot tell the record paths apart as keys, and why.
fn same_mac_key(a: &[u8], b: &[u8]) -> Option<&'static str> {
    let norm = |p: &[u8]| -> Vec<u8> {
        let mut k = if p.len() > 128 { crypto::hashes::sha::Sha512::digest(p).to_vec() } else { p.to_vec() };
        while k.last() == Some(&0) {
            k.pop();
        }
        k
    };
    if norm(a) != norm(b) {
        None
    } else if a.len() <= 128 && b.len() <= 128 {
        Some("record-id-trailing-zeros")
    } else {
        Some("record-id-long-path-digest")
    }
}

static KNOWN: [AtomicBool; 2] = [AtomicBool::new(false), AtomicBool::new(false)];

/// Reports two locations with one identifier.
fn alias(ctx: &Ctx, kind: &str, a: &Location, b: &Location, id: &str) {
    let mut key = format!("paths/alias-{kind}");
    if let (Location::Generic { vault_path: v, record_path: r }, Location::Generic { vault_path: w, record_path: s }) = (a, b) {
        if v == w && kind == "location" {
            if let Some(k) = same_mac_key(r, s) {
                ctx.rep.count(&format!("known aliases: {k}"), 1);
                if KNOWN[(k == "record-id-trailing-zeros") as usize].swap(true, Ordering::SeqCst) {
                    return;
                }
                key = k.to_string();
            }
        }
    }
    ctx.rep.violation(&key, json!({"one": format!("{a:?}"), "other": format!("{b:?}"), "identifier": id}));
}

fn line(l: &Location) -> String {
    let (v, r) = l.resolve();
    let name = match l {
        Location::Generic { vault_path, record_path } => format!("g {}. {}.", hex(vault_path), hex(record_path)),
        Location::Counter { vault_path, counter } => format!("c {}. {counter}", hex(vault_path)),
    };
    format!("{name} {} {}", hex(v.as_ref()), hex(engine::vault::ChainId::from(r).as_ref()))
}

pub fn paths(ctx: &Ctx) {
    let mut log = ctx.arg(0).map(|p| std::io::BufWriter::new(std::fs::File::create(format!("{p}.{}", ctx.shard.0)).unwrap()));
    let log = std::sync::Mutex::new(log.as_mut());
    let logged = ctx.arg(1).and_then(|s| s.parse().ok()).unwrap_or(0u64);
    // The two aliases that are known.
    if logged == 0 {
        known(ctx);
    } else {
        KNOWN.iter().for_each(|k| k.store(true, Ordering::SeqCst));
    }
    let n = if logged > 0 { logged as usize } else { ctx.n(12_000, 200_000) };
    ctx.cases("paths", n, 1, |ctx, case, rng| {
        let nv = rng.range(2, 8);
        let vaults = near(rng, nv);
        let nr = rng.range(2, 12);
        let mut records = near(rng, nr);
        // a record named as its vault, as another vault, as a vault's identifier
        if rng.chance(1, 2) {
            records.extend(vaults.iter().cloned());
            records.push(derive_vault_id(&vaults[0]).as_ref().to_vec());
        }
        records.sort();
        records.dedup();
        let mut locs = vec![];
        for v in &vaults {
            for r in &records {
                locs.push(Location::generic(v.clone(), r.clone()));
            }
            let mut cs = vec![0usize, 1, 2, 10, 11, 255, 256, 65536, u32::MAX as usize, 1 << 32, 1 << 63, usize::MAX, usize::MAX - 1];
            cs.extend((0..4).map(|_| (rng.u64() >> rng.below(64)) as usize));
            cs.sort();
            cs.dedup();
            locs.extend(cs.into_iter().map(|c| Location::counter(v.clone(), c)));
        }
        // the border between vault and record path in another place
        for _ in 0..4 {
            let (mut v, mut r) = (rng.pick(&vaults).clone(), rng.pick(&records).clone());
            if rng.chance(1, 2) {
                r.splice(0..0, v.pop());
            } else if !r.is_empty() {
                v.push(r.remove(0));
            }
            if !vaults.contains(&v) {
                locs.push(Location::generic(v, r));
            }
        }
        // what a counter's location might be written as
        for v in vaults.iter().take(2) {
            for s in ["first_record", "0", "1"] {
                let mut p = format!("{v:?}{s}").into_bytes();
                if !records.contains(&p) {
                    locs.push(Location::generic(v.clone(), p.clone()));
                }
            }
        }
        let mut by_rid: HashMap<String, usize> = HashMap::new();
        let mut by_vid: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
        let mut ids = vec![];
        for (i, l) in locs.iter().enumerate() {
            let (v, r) = l.resolve();
            let rs = hex(engine::vault::ChainId::from(r).as_ref());
            let same = |a: &Location, b: &Location| match (a, b) {
                (Location::Generic { vault_path: v, record_path: r }, Location::Generic { vault_path: w, record_path: s }) => v == w && r == s,
                (Location::Counter { vault_path: v, counter: r }, Location::Counter { vault_path: w, counter: s }) => v == w && r == s,
                _ => false,
            };
            if let Some(o) = by_rid.insert(rs.clone(), i) {
                if !same(&locs[o], l) {
                    let kind = if locs[o].resolve().0 == v { "location" } else { "record" };
                    alias(ctx, kind, &locs[o], l, &rs);
                }
            }
            match by_vid.insert(v.as_ref().to_vec(), l.vault_path().to_vec()) {
                Some(p) if p != l.vault_path() => ctx.rep.violation(
                    "paths/alias-vault",
                    json!({"one": hex(&p), "other": hex(l.vault_path()), "identifier": hex(v.as_ref())}),
                ),
                _ => {}
            }
            // every way to ask gives the same
            let vp = l.vault_path();
            let again = match l {
                Location::Generic { record_path, .. } => derive_record_id(vp, record_path),
                Location::Counter { counter, .. } => derive_record_id_from_counter(vp, *counter),
            };
            if l.clone().resolve() != (v, r) || again != r || derive_vault_id(vp) != v || VaultId::load_from_path(vp, vp) != v {
                ctx.rep.violation("paths/unstable", json!({"location": format!("{l:?}")}));
            }
            ids.push((v, r));
        }
        // other paths for clients
        let mut by_cid: HashMap<ClientId, &Vec<u8>> = HashMap::new();
        for p in vaults.iter().chain(&records) {
            let id = client_id(p);
            if id != client_id(p) {
                ctx.rep.violation("paths/unstable", json!({"client": hex(p)}));
            }
            if let Some(o) = by_cid.insert(id, p) {
                if o != p {
                    ctx.rep.violation("paths/alias-client", json!({"one": hex(o), "other": hex(p)}));
                }
            }
        }
        if let Some(log) = log.lock().unwrap().as_mut() {
            for l in &locs {
                writeln!(log, "{}", line(l)).unwrap();
            }
            for p in vaults.iter().chain(&records) {
                writeln!(log, "p {}. {}", hex(p), hex(client_id(p).as_ref())).unwrap();
            }
            log.flush().unwrap();
        }
        if case % 8 == 0 {
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..4).map(|_| s.spawn(|| locs.iter().map(|l| l.resolve()).collect::<Vec<_>>())).collect();
                for h in hs {
                    if h.join().unwrap() != ids {
                        ctx.rep.violation("paths/unstable", json!({"threads": format!("{:?}", locs[0])}));
                    }
                }
            });
        }
        ctx.rep.count("locations", locs.len() as u64);
        ctx.rep.eval(Some(fnv(format!("{vaults:?}{records:?}").as_bytes())));
        if logged == 0 && case % 4 == 1 {
            used(ctx, rng, &vaults, &locs);
        }
        if case < 3 {
            ctx.rep.sample(json!({"location": format!("{:?}", locs[0]), "ids": line(&locs[0])}));
        }
    });
}

/// The locations hold what was written to them, apart from each other, and under their identifiers.
fn used(ctx: &Ctx, rng: &mut Rng, clients: &[Vec<u8>], locs: &[Location]) {
    let sh = Stronghold::default();
    let mut hs: Vec<(Vec<u8>, Client, Records, BTreeMap<usize, Vec<u8>>)> = vec![];
    for c in clients.iter().take(3) {
        let cl = sh.create_client(c).unwrap();
        if *cl.id() != client_id(c) {
            ctx.rep.violation("paths/client-id", json!({"client": hex(c)}));
        }
        hs.push((c.clone(), cl, Records::new(), BTreeMap::new()));
    }
    let mut picked: Vec<usize> = vec![];
    for _ in 0..14 {
        let i = rng.below(locs.len());
        // no known aliases
        if !picked.iter().any(|o| locs[*o].resolve() == locs[i].resolve()) {
            picked.push(i);
        }
    }
    for i in &picked {
        for (_, cl, rs, vals) in hs.iter_mut() {
            if rng.chance(3, 4) {
                let v = rng.bytes(16);
                let l = &locs[*i];
                cl.vault(l.vault_path()).write_secret(l.clone(), v.clone()).unwrap();
                if cl.vault(l.vault_path()).id() != l.resolve().0 {
                    ctx.rep.violation("paths/vault-id", json!({"vault": hex(l.vault_path())}));
                }
                rs.insert(l.resolve(), v.clone());
                vals.insert(*i, v);
            }
        }
    }
    for (c, cl, rs, vals) in &hs {
        for i in &picked {
            let l = &locs[*i];
            let there = cl.record_exists(l).unwrap();
            if there != vals.contains_key(i) {
                ctx.rep.violation("paths/aliased-in-use", json!({"client": hex(c), "location": format!("{l:?}"), "exists": there}));
            }
            if let Some(v) = vals.get(i) {
                if holds(cl, l, v) != Ok(true) {
                    ctx.rep.violation("paths/aliased-in-use", json!({"client": hex(c), "location": format!("{l:?}"), "content": "other"}));
                }
            }
        }
        if rng.chance(1, 4) {
            match dump_client(ctx, &sh, c, "p") {
                Ok(d) if d.0 == *rs => {}
                other => ctx.rep.violation("paths/stored-under", json!({"client": hex(c), "error": other.err()})),
            }
        }
        // deleting by path hits that record only
        if let Some((i, _)) = vals.iter().find(|(i, _)| matches!(locs[**i], Location::Generic { .. })) {
            let l = &locs[*i];
            cl.vault(l.vault_path()).delete_secret(l.record_path()).unwrap();
            for j in vals.keys() {
                if cl.record_exists(&locs[*j]).unwrap() != (j != i) {
                    ctx.rep.violation("paths/aliased-in-use", json!({"deleted": format!("{l:?}"), "affected": format!("{:?}", locs[*j])}));
                }
            }
        }
    }
    ctx.rep.count("locations used", picked.len() as u64 * hs.len() as u64);
}

fn known(ctx: &Ctx) {
    let sh = Stronghold::default();
    let cl = sh.create_client(b"c").unwrap();
    let long = vec![5u8; 129];
    for (a, b) in [(b"record".to_vec(), b"record\0".to_vec()), (long.clone(), crypto::hashes::sha::Sha512::digest(&long).to_vec())] {
        let (a, b) = (Location::generic(*b"vault", a), Location::generic(*b"vault", b));
        cl.vault(b"vault").write_secret(a.clone(), b"secret".to_vec()).unwrap();
        if holds(&cl, &b, b"secret") == Ok(true) {
            alias(ctx, "location", &a, &b, "");
        }
    }
}

// ---- keys ------------------------------------------------------------------------------------------------------------

fn key_of(k: &KeyProvider) -> Result<Vec<u8>, String> {
    k.try_unlock().map(|b| b.borrow().to_vec()).map_err(|e| format!("{e:?}"))
}

fn passphrase(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => vec![],
        1 => b"correct horse battery staple".to_vec(),
        2 => "pa\u{df}wort \u{1f511}".as_bytes().to_vec(),
        3 => {
            let n = *rng.pick(&[1usize, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000]);
            rng.bytes(n)
        }
        4 => vec![0; rng.range(1, 40)],
        5 => vec![0xff; rng.range(1, 40)],
        _ => {
            let n = rng.range(1, 60);
            rng.bytes(n)
        }
    }
}

const METHODS: [&str; 6] = ["truncated", "blake2b", "sha256", "blake2b256", "argon2", "raw"];

/// A key provider, from one of the types a passphrase can have.
fn provider(method: &str, p: &[u8], salt: &[u8], pre: &[u8], how: usize) -> Result<KeyProvider, String> {
    macro_rules! with {
        ($p:expr, $s:expr) => {{
            match method {
                "truncated" => KeyProvider::with_passphrase_truncated($p),
                "blake2b" => KeyProvider::with_passphrase_hashed_blake2b($p),
                "sha256" => {
                    let mut d = crypto::hashes::sha::Sha256::new();
                    d.update(pre);
                    KeyProvider::with_passphrase_hashed($p, d)
                }
                "blake2b256" => {
                    let mut d = crypto::hashes::blake2b::Blake2b256::new();
                    d.update(pre);
                    KeyProvider::with_passphrase_hashed($p, d)
                }
                "sha512" => KeyProvider::with_passphrase_hashed($p, crypto::hashes::sha::Sha512::new()),
                "argon2" => KeyProvider::with_passphrase_hashed_argon2($p, $s),
                _ => unreachable!(),
            }
            .map_err(|e| format!("{e:?}"))
        }};
    }
    if method == "raw" {
        return KeyProvider::try_from(p.to_vec()).map_err(|e| format!("{e:?}"));
    }
    match (how, std::str::from_utf8(p), std::str::from_utf8(salt)) {
        (0, Ok(s), Ok(t)) => with!(s.to_string(), t.to_string()),
        (1, _, _) => with!(zeroize::Zeroizing::new(p.to_vec()), zeroize::Zeroizing::new(salt.to_vec())),
        _ => with!(p.to_vec(), salt.to_vec()),
    }
}

/// A key as X25519 uses it.
pub fn clamped(k: &[u8]) -> Vec<u8> {
    let mut k = k.to_vec();
    k[0] &= 0xf8;
    k[31] = k[31] & 0x7f | 0x40;
    k
}

/// A snapshot is sealed with its key as an X25519 scalar, in which five bits of the key do not count.
pub fn known_clamping(ctx: &Ctx) {
    let sp = SnapshotPath::from_path(ctx.scratch.join("clamped"));
    let sh = Stronghold::default();
    sh.create_client(b"c").unwrap();
    sh.commit_with_keyprovider(&sp, &KeyProvider::with_passphrase_truncated(b"apple".to_vec()).unwrap()).unwrap();
    let other = KeyProvider::with_passphrase_truncated(b"bpple".to_vec()).unwrap();
    if Stronghold::default().load_snapshot(&other, &sp).is_ok() {
        ctx.rep.violation("snapshot-key-clamped", json!({"committed with the passphrase": "apple", "opens with": "bpple", "derivation": "truncated"}));
    }
    let _ = std::fs::remove_file(sp.as_path());
}

pub fn passphrases(ctx: &Ctx) {
    known_clamping(ctx);
    let path = ctx.arg(0).expect("log").to_string() + &format!(".{}", ctx.shard.0);
    let log = std::sync::Mutex::new(std::io::BufWriter::new(std::fs::File::create(path).unwrap()));
    let n = ctx.n(1500, 30_000);
    ctx.cases("passphrases", n, 1, |ctx, case, rng| {
        let method = if case % 5 == 4 { "argon2" } else { *rng.pick(&METHODS) };
        let mut p = passphrase(rng);
        let salt = if method == "argon2" {
            let n = if rng.chance(1, 2) { 16 } else { rng.range(8, 64) };
            rng.bytes(n)
        } else {
            vec![]
        };
        let pre = if rng.chance(1, 3) && method.ends_with("256") { passphrase(rng) } else { vec![] };
        if method == "raw" {
            if rng.chance(1, 5) {
                let n = *rng.pick(&[0usize, 1, 16, 31, 33, 64, 100]);
                let p = rng.bytes(n);
                if provider("raw", &p, &[], &[], 2).is_ok() {
                    ctx.rep.violation("keys/length", json!({"bytes": n}));
                }
                ctx.rep.count("refused keys", 1);
            }
            p = rng.bytes(32);
        }
        let bad = |k: &str, d: serde_json::Value| {
            ctx.rep.violation(&format!("keys/{k}"), json!({"method": method, "passphrase": hex(&p), "salt": hex(&salt), "pre": hex(&pre), "what": d}))
        };
        let how = rng.below(3);
        let k = match provider(method, &p, &salt, &pre, how) {
            Ok(k) => k,
            Err(e) => {
                // an empty passphrase is a passphrase
                bad("refused", json!(e));
                return;
            }
        };
        let key = match key_of(&k) {
            Ok(k) => k,
            Err(e) => return bad("unlock", json!(e)),
        };
        writeln!(log.lock().unwrap(), "{method} {}. {}. {}. {}", hex(&p), hex(&salt), hex(&pre), hex(&key)).unwrap();
        // any number of times, by any thread
        for _ in 0..rng.range(1, 6) {
            if key_of(&k).as_ref() != Ok(&key) {
                bad("changes", json!(null));
            }
        }
        if rng.chance(1, 4) {
            let held = k.try_unlock().map(|b| b.borrow().to_vec());
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..3).map(|_| s.spawn(|| (0..4).map(|_| key_of(&k)).collect::<Vec<_>>())).collect();
                for h in hs {
                    if h.join().unwrap().iter().any(|x| x.as_ref() != Ok(&key)) {
                        bad("changes", json!("other threads"));
                    }
                }
            });
            if held.ok().as_ref() != Some(&key) {
                bad("changes", json!("held"));
            }
        }
        // made again, from another type
        let how2 = rng.below(3);
        let k2 = provider(method, &p, &salt, &pre, how2).unwrap();
        if key_of(&k2).as_ref() != Ok(&key) {
            bad("unstable", json!({"types": [how, how2]}));
        }
        if provider("sha512", &p, &[], &[], how).is_ok() {
            bad("length", json!("a digest of 64 bytes"));
        }
        // near ones give other keys
        let mut others: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = vec![];
        for _ in 0..if method == "argon2" { 2 } else { 8 } {
            let mut q = p.clone();
            let mut s = salt.clone();
            let kind = rng.below(8);
            match kind {
                0 if !q.is_empty() => {
                    let i = rng.below(q.len());
                    q[i] ^= 1 << rng.below(8);
                }
                1 => q.push(rng.u64() as u8),
                2 => {
                    q.pop();
                }
                3 => q.insert(0, rng.u64() as u8),
                4 => q.reverse(),
                5 => q.make_ascii_uppercase(),
                6 => {
                    let r = q.clone();
                    q.extend(r);
                }
                _ if !s.is_empty() => {
                    let i = rng.below(s.len());
                    s[i] ^= 1 << rng.below(8);
                }
                _ => q.push(0),
            }
            if method == "raw" && q.len() != 32 {
                continue;
            }
            let norm = |p: &[u8]| {
                let mut p = p.to_vec();
                if method == "truncated" {
                    p.resize(32, 0);
                }
                p
            };
            if (norm(&q), &s) == (norm(&p), &salt) {
                continue;
            }
            match provider(method, &q, &s, &pre, 2).and_then(|k| key_of(&k)) {
                Ok(o) if o != key => others.push((q, s, o)),
                Ok(_) => bad("alias", json!({"other": hex(&q), "salt": hex(&s)})),
                Err(e) => bad("unlock", json!(e)),
            }
        }
        ctx.rep.count("other passphrases", others.len() as u64);
        // a snapshot opens with an equal provider only
        if rng.chance(1, 4) {
            let sp = SnapshotPath::from_path(ctx.scratch.join(format!("k{case}")));
            let sh = Stronghold::default();
            let cl = sh.create_client(b"c").unwrap();
            let loc = Location::generic(*b"v", *b"r");
            let v = rng.bytes(40);
            cl.vault(b"v").write_secret(loc.clone(), v.clone()).unwrap();
            for _ in 0..rng.range(1, 3) {
                if let Err(e) = sh.commit_with_keyprovider(&sp, &k) {
                    bad("commit", json!(format!("{e:?}")));
                }
            }
            let open = |k: &KeyProvider| -> Result<bool, String> {
                let sh = Stronghold::default();
                sh.load_snapshot(k, &sp).map_err(|e| format!("{e:?}"))?;
                let cl = sh.load_client(b"c").map_err(|e| format!("{e:?}"))?;
                holds(&cl, &loc, &v)
            };
            for k in [&k, &k2, &k] {
                if open(k) != Ok(true) {
                    bad("does-not-open", json!(open(k).err()));
                }
            }
            for (q, s, o) in others.iter().take(3) {
                let k = provider(method, q, s, &pre, 2).unwrap();
                if key_of(&k).as_ref() != Ok(o) {
                    bad("unstable", json!({"passphrase": hex(q)}));
                } else if clamped(o) == clamped(&key) {
                    ctx.rep.count("known: keys equal as X25519 scalars", 1);
                } else if open(&k).is_ok() {
                    bad("opens-with-another", json!({"other": hex(q)}));
                }
            }
            let mut raw = key.clone();
            let raw = kp(&raw.try_into().unwrap());
            if open(&raw) != Ok(true) {
                bad("does-not-open", json!("the raw key"));
            }
            ctx.rep.count("snapshots", 1);
            let _ = std::fs::remove_file(sp.as_path());
        }
        ctx.rep.eval(Some(fnv(&[method.as_bytes(), &p, &salt, &pre].concat())));
        if case < 3 {
            ctx.rep.sample(json!({"method": method, "passphrase": hex(&p), "salt": hex(&salt), "key": hex(&key)}));
        }
    });
}
