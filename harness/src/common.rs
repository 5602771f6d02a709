//! Helpers over the public API of the client crate.
use crate::util::*;
use engine::vault::{ClientId, RecordId, VaultId};
use iota_stronghold::procedures::CompareSecret;
use iota_stronghold::*;
use std::collections::BTreeMap;
use std::path::Path;

pub fn kp(key: &[u8; 32]) -> KeyProvider {
    KeyProvider::try_from(key.to_vec()).expect("key provider of 32 bytes")
}

/// Whether the record holds exactly `expected`; an error if it can not be read.
pub fn holds(cl: &Client, loc: &Location, expected: &[u8]) -> Result<bool, String> {
    cl.execute_procedure(CompareSecret { location: loc.clone(), expected: expected.to_vec() })
        .map(|o| o == vec![1])
        .map_err(|e| format!("{e:?}"))
}

pub type Records = BTreeMap<(VaultId, RecordId), Vec<u8>>;
pub type Pairs = BTreeMap<Vec<u8>, Vec<u8>>;

/// The live records and the store of a client's state.
pub fn dump_state(st: &ClientState) -> Result<(Records, Pairs), String> {
    let (keys, db, cache) = st;
    let mut out = Records::new();
    for vid in db.list_vaults() {
        let key = keys.get(&vid).ok_or("vault without key")?;
        for (rid, _) in db.list_records_with_blob_id(key, vid).map_err(|e| format!("{e:?}"))? {
            let mut v = Vec::new();
            db.get_guard::<std::convert::Infallible, _>(key, vid, rid, |b| {
                v = b.borrow().to_vec();
                Ok(())
            })
            .map_err(|e| format!("{e:?}"))?;
            out.insert((vid, rid), v);
        }
    }
    let store = cache.keys().into_iter().filter_map(|k| cache.get(&k).cloned().map(|v| (k, v))).collect();
    Ok((out, store))
}

pub fn client_id(path: &[u8]) -> ClientId {
    ClientId::load_from_path(path, path)
}

/// What is in a snapshot file for a client.
pub fn dump_file(path: &Path, key: [u8; 32], client: &[u8]) -> Result<Option<(Records, Pairs)>, String> {
    let s = Snapshot::read_from_snapshot(&SnapshotPath::from_path(path), key, None).map_err(|e| format!("{e:?}"))?;
    if !s.has_data(client_id(client)) {
        return Ok(None);
    }
    dump_state(&s.get_state(client_id(client)).map_err(|e| format!("{e:?}"))?).map(Some)
}

/// Commits the instance to a scratch file and reads back the client from it.
pub fn dump_client(ctx: &Ctx, sh: &Stronghold, client: &[u8], tag: &str) -> Result<(Records, Pairs), String> {
    let p = ctx.scratch.join(format!("dump-{tag}-{}-{:?}", std::process::id(), std::thread::current().id()));
    let k = [7u8; 32];
    sh.commit_with_keyprovider(&SnapshotPath::from_path(&p), &kp(&k)).map_err(|e| format!("{e:?}"))?;
    let r = dump_file(&p, k, client);
    let _ = std::fs::remove_file(&p);
    r?.ok_or("client not in the snapshot".into())
}

pub fn content(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(12) {
        // rarely more than counts of two bytes, or the window of the compression, can reach
        0 if rng.chance(1, 12) => *rng.pick(&[65_535, 65_536, 65_537, 100_000, 131_073, 300_000]),
        0 => 1,
        1 => *rng.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
        2 => *rng.pick(&[4095, 4096, 4097, 8192]),
        3 => rng.range(1, 20_000),
        4 => 32,
        _ => rng.range(1, 80),
    };
    match rng.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        _ => rng.bytes(n),
    }
}

/// Paths of many shapes, none of which is another one plus trailing zero bytes.
pub fn paths(rng: &mut Rng, n: usize, tag: u8) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    while out.len() < n {
        let mut p = match rng.below(9) {
            0 => vec![],
            1 => vec![tag],
            2 => b"vault".to_vec(),
            3 => {
                let mut p = rng.pick(&[b"vault".to_vec(), b"a".to_vec()]).clone();
                p.push(b'0' + rng.below(10) as u8);
                p
            }
            4 => {
                let n = rng.range(100, 300);
                rng.bytes(n)
            }
            5 => vec![0xff; rng.range(1, 4)],
            6 => out.last().cloned().map(|mut p| { p.push(1); p }).unwrap_or_default(),
            _ => {
                let n = rng.range(1, 24);
                rng.bytes(n)
            }
        };
        if p.last() == Some(&0) {
            p.push(1);
        }
        if !out.contains(&p) {
            out.push(p);
        }
    }
    out
}
