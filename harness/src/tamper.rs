//! C02: sealed records that were altered, exchanged, moved or opened with another key.
use crate::common::content;
use crate::util::*;
use engine::vault::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::HashMap;
use std::convert::Infallible;

type Pv = iota_stronghold::Provider;
pub type Id24 = [u8; 24];

/// The stored form of a database, with its pieces in reach.
#[derive(Serialize, Deserialize, Clone)]
pub struct Db {
    pub vaults: HashMap<Id24, Va>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Va {
    pub key: Vec<u8>,
    pub entries: HashMap<Id24, Re>,
}
#[derive(Serialize, Deserialize, Clone)]
pub struct Re {
    pub id: Id24,
    pub data: Vec<u8>,
    pub revoke: Option<Vec<u8>>,
    pub blob: Vec<u8>,
}

fn rid(i: &Id24) -> RecordId {
    RecordId::from(ChainId::load(i).unwrap())
}

fn vid(i: &Id24) -> VaultId {
    VaultId::load(i).unwrap()
}

/// What every way of reading a record gives: only where all agree is it a content.
fn read(db: &mut DbView<Pv>, k: &Key<Pv>, v: &Id24, r: &Id24) -> Result<Vec<u8>, String> {
    let mut a = None;
    let ra = db.get_guard::<Infallible, _>(k, vid(v), rid(r), |b| {
        a = Some(b.borrow().to_vec());
        Ok(())
    });
    let mut b = None;
    let rb = db.get_guards::<Infallible, _, 1>([(k.clone(), vid(v), rid(r))], |[g]| {
        b = Some(g.borrow().to_vec());
        Ok(())
    });
    match (ra, rb, a, b) {
        (Ok(()), Ok(()), Some(a), Some(b)) if a == b => Ok(a),
        (Err(e), Err(_), None, None) => Err(format!("{e:?}")),
        (a, b, x, y) => Ok(format!("INCONSISTENT {a:?} {b:?} {} {}", x.is_some(), y.is_some()).into_bytes()),
    }
}

fn mutate(v: &mut Vec<u8>, rng: &mut Rng) -> &'static str {
    let n = v.len();
    match rng.below(9) {
        0 if n > 0 => {
            v.pop();
            "last byte removed"
        }
        1 => {
            v.push(rng.u64() as u8);
            "a byte appended"
        }
        2 if n > 0 => {
            let k = rng.below(n);
            v.truncate(k);
            "truncated"
        }
        3 if n > 0 => {
            v.remove(0);
            "first byte removed"
        }
        4 => {
            let (k, b) = (rng.below(n + 1), rng.u64() as u8);
            v.insert(k, b);
            "a byte inserted"
        }
        5 if n > 16 => {
            // the tag
            let i = rng.below(16);
            v[i] ^= 1 << rng.below(8);
            "tag bit"
        }
        6 if n > 40 => {
            let i = rng.range(16, 39);
            v[i] ^= 1 << rng.below(8);
            "nonce bit"
        }
        7 if n > 40 => {
            let i = rng.range(40, n - 1);
            v[i] ^= 1 << rng.below(8);
            "cipher text bit"
        }
        _ if n > 0 => {
            let i = rng.below(n);
            v[i] ^= rng.range(1, 255) as u8;
            "a byte"
        }
        _ => {
            v.push(0);
            "a byte appended"
        }
    }
}

pub fn tamper(ctx: &Ctx) {
    let n = ctx.n(1200, 40_000);
    ctx.cases("tamper", n, 8, |ctx, i, rng| {
        let mut db = DbView::<Pv>::new();
        let nv = rng.range(1, 2);
        let nr = rng.range(2, 4);
        let vids: Vec<Id24> = (0..nv).map(|_| rng.array()).collect();
        // sometimes two vaults share a key, as after an import
        let mut keys: Vec<Key<Pv>> = (0..nv).map(|_| Key::random()).collect();
        if nv == 2 && rng.chance(1, 3) {
            keys[1] = keys[0].clone();
        }
        let rids: Vec<Id24> = (0..nr).map(|_| rng.array()).collect();
        let mut want: HashMap<(usize, usize), Vec<u8>> = HashMap::new();
        // contents of equal length are the ones that could be exchanged unnoticed
        let shared = rng.bytes(24);
        let data = |rng: &mut Rng| if rng.chance(1, 2) { let mut s = shared.clone(); s[0] = rng.u64() as u8; s[1] = rng.u64() as u8; s } else { content(rng) };
        for v in 0..nv {
            for r in 0..nr {
                let d = data(rng);
                db.write(&keys[v], vid(&vids[v]), rid(&rids[r]), &d, RecordHint::new(b"h").unwrap()).unwrap();
                want.insert((v, r), d);
            }
        }
        let old: Db = bincode::deserialize(&bincode::serialize(&db).unwrap()).expect("stored form");
        // a newer version of each record
        for v in 0..nv {
            for r in 0..nr {
                let d = data(rng);
                db.write(&keys[v], vid(&vids[v]), rid(&rids[r]), &d, RecordHint::new(b"h").unwrap()).unwrap();
                want.insert((v, r), d);
            }
        }
        let cur: Db = bincode::deserialize(&bincode::serialize(&db).unwrap()).expect("stored form");
        // revoked by their owner
        let mut gone = db.clone();
        for v in 0..nv {
            for r in 0..nr {
                gone.revoke_record(&keys[v], vid(&vids[v]), rid(&rids[r])).unwrap();
            }
        }
        let gone: Db = bincode::deserialize(&bincode::serialize(&gone).unwrap()).expect("stored form");
        for _ in 0..24 {
            let (v, r) = (rng.below(nv), rng.below(nr));
            let (v2, r2) = (rng.below(nv), rng.below(nr));
            let mut t = cur.clone();
            let e2 = cur.vaults[&vids[v2]].entries[&rids[r2]].clone();
            let o = old.vaults[&vids[v]].entries[&rids[r]].clone();
            let g = gone.vaults[&vids[v]].entries[&rids[r]].clone();
            let e = t.vaults.get_mut(&vids[v]).unwrap().entries.get_mut(&rids[r]).unwrap();
            let mut key = keys[v].clone();
            let mut at = (vids[v], rids[r]);
            // what may be read: nothing, unless said otherwise
            let mut may: Option<Vec<u8>> = None;
            let what = match rng.below(15) {
                0..=2 => {
                    let m = mutate(&mut e.blob, rng);
                    format!("content: {m}")
                }
                3..=4 => {
                    let m = mutate(&mut e.data, rng);
                    format!("meta data: {m}")
                }
                5 if (v, r) != (v2, r2) => {
                    e.blob = e2.blob;
                    "content of another record".into()
                }
                6 if r != r2 => {
                    e.data = e2.data;
                    "meta data of another record".into()
                }
                7 if r != r2 => {
                    *e = Re { id: e.id, ..e2 };
                    "content and meta data of another record".into()
                }
                8 => {
                    e.blob = o.blob;
                    "content of an earlier version".into()
                }
                9 => {
                    e.data = o.data;
                    "meta data of an earlier version".into()
                }
                10 => {
                    // moved to an identifier of its own
                    let to: Id24 = rng.array();
                    let mut m = e.clone();
                    if rng.chance(1, 2) {
                        m.id = to;
                    }
                    t.vaults.get_mut(&vids[v]).unwrap().entries.insert(to, m);
                    at.1 = to;
                    "moved to a new identifier".into()
                }
                11 if r != r2 => {
                    let mut m = e.clone();
                    if rng.chance(1, 2) {
                        m.id = rids[r2];
                    }
                    t.vaults.get_mut(&vids[v]).unwrap().entries.insert(rids[r2], m);
                    at.1 = rids[r2];
                    "moved over another record".into()
                }
                12 => {
                    let mut raw = cur.vaults[&vids[v]].key.clone();
                    let j = rng.below(raw.len());
                    raw[j] ^= 1 << rng.below(8);
                    key = Key::load(raw.clone()).unwrap();
                    if rng.chance(1, 2) {
                        // even if the vault itself says that the key is right
                        t.vaults.get_mut(&vids[v]).unwrap().key = raw;
                    }
                    "another key".into()
                }
                13 => {
                    match rng.below(3) {
                        0 => e.data = g.revoke.clone().unwrap(),
                        1 => e.revoke = g.revoke.clone(),
                        _ => {
                            e.revoke = Some(rng.bytes(40));
                        }
                    }
                    "pieces of a revocation".into()
                }
                _ => {
                    // any byte of the stored form
                    let mut b = bincode::serialize(&t).unwrap();
                    let j = rng.below(b.len());
                    b[j] ^= 1 << rng.below(8);
                    let Ok(x) = bincode::deserialize::<Db>(&b) else {
                        ctx.rep.count("stored forms that do not parse", 1);
                        continue;
                    };
                    t = x;
                    may = want.get(&(v, r)).cloned();
                    "any stored bit".into()
                }
            };
            let mut bad: DbView<Pv> = match bincode::deserialize(&bincode::serialize(&t).unwrap()) {
                Ok(d) => d,
                Err(_) => {
                    ctx.rep.count("stored forms that do not parse", 1);
                    continue;
                }
            };
            label(&format!("tamper case {i} {what}"));
            let detail = |msg: String| json!({"case": i, "alteration": what, "record": [v, r], "other": [v2, r2], "what": msg});
            let res = guarded(|| read(&mut bad, &key, &at.0, &at.1));
            match &res {
                Err(p) => ctx.rep.violation("tamper/panic", detail(p.clone())),
                Ok(Ok(x)) if Some(x) == may.as_ref() => (),
                Ok(Ok(x)) => {
                    let own = Some(x) == want.get(&(v, r));
                    ctx.rep.violation(
                        if own { "tamper/undetected" } else { "tamper/other-bytes" },
                        detail(format!("read gave {}", short(x))),
                    )
                }
                Ok(Err(_)) => (),
            }
            ctx.rep.seen("kinds of alteration", fnv(what.as_bytes()));
            ctx.rep.count(if matches!(res, Ok(Ok(_))) { "unaffected reads" } else { "reads refused" }, 1);
            let piece = t.vaults.get(&at.0).and_then(|v| v.entries.get(&at.1)).map(|e| fnv(&e.blob) ^ fnv(&e.data).rotate_left(7));
            ctx.rep.eval(Some(piece.unwrap_or(0) ^ fnv(what.as_bytes())));
            // all other requests about it, for their lack of effect on the process
            let p = guarded(|| {
                let _ = bad.get_blob_id(&key, vid(&at.0), rid(&at.1));
                let _ = bad.list_hints_and_ids(&key, vid(&at.0));
                let _ = bad.list_records_with_blob_id(&key, vid(&at.0));
                let _ = bad.contains_record(vid(&at.0), rid(&at.1));
                let mut c = bad.clone();
                let exported = c.export_records(vid(&at.0), [rid(&at.1)]);
                if let Ok(ex) = exported {
                    // importing re-seals: what was damaged may not become valid by that
                    let nk = Key::<Pv>::random();
                    let nv: Id24 = [9; 24];
                    let mut into = DbView::<Pv>::new();
                    if !ex.is_empty() && into.import_records(&key, &nk, vid(&nv), ex).is_ok() {
                        if let Ok(x) = read(&mut into, &nk, &nv, &at.1) {
                            if Some(&x) != may.as_ref() {
                                return Err(format!("an import of it can be read: {}", short(&x)));
                            }
                        }
                    }
                }
                let _ = c.revoke_record(&key, vid(&at.0), rid(&at.1));
                let mut c = bad.clone();
                let _ = c.write(&key, vid(&at.0), rid(&at.1), b"new", RecordHint::new(b"").unwrap());
                c.garbage_collect_vault(&key, vid(&at.0));
                // as a source of a procedure
                let mut c = bad.clone();
                let t: Id24 = [5; 24];
                let mut got = None;
                let r = c.exec_procedure::<Infallible, _, 1>(
                    [(key.clone(), vid(&at.0), rid(&at.1))],
                    &key,
                    vid(&at.0),
                    rid(&t),
                    RecordHint::new(b"").unwrap(),
                    |[b]| {
                        got = Some(b.borrow().to_vec());
                        Ok(vec![1])
                    },
                );
                if got.is_some() && got != may {
                    return Err(format!("a procedure got {:?} from it", r.is_ok()));
                }
                Ok(())
            });
            match p {
                Err(p) => ctx.rep.violation("tamper/panic", detail(p)),
                Ok(Err(m)) => ctx.rep.violation("tamper/other-bytes", detail(m)),
                Ok(Ok(())) => (),
            }
            // the records that were not touched are as before
            if !what.starts_with("any") && !what.starts_with("another key") {
                for (&(a, b), d) in &want {
                    if (vids[a], rids[b]) == (vids[v], rids[r]) || (vids[a], rids[b]) == at {
                        continue;
                    }
                    if read(&mut bad, &keys[a], &vids[a], &rids[b]).as_ref() != Ok(d) {
                        ctx.rep.violation("tamper/collateral", detail(format!("record {a}/{b} can not be read any more")));
                    }
                }
            }
            if i == 0 {
                ctx.rep.sample(json!({"alteration": what, "read": format!("{res:?}").chars().take(160).collect::<String>()}));
            }
        }
        boxes(ctx, i, rng);
    });
}

/// The sealing itself: key, associated data, box.
fn boxes(ctx: &Ctx, i: u64, rng: &mut Rng) {
    for _ in 0..12 {
        let key = Key::<Pv>::load(rng.bytes(32)).unwrap();
        let adn = rng.below(40);
        let ad = rng.bytes(adn);
        let data = if rng.chance(1, 8) { vec![] } else { content(rng) };
        let bx = Pv::box_seal(&key, &ad, &data).unwrap();
        let (mut k2, mut ad2, mut bx2) = (key.clone(), ad.clone(), bx.clone());
        let what = match rng.below(6) {
            0 => "nothing".to_string(),
            1 => {
                ad2.push(0);
                "associated data extended".into()
            }
            2 if adn > 0 => {
                let j = rng.below(adn);
                ad2[j] ^= 1 << rng.below(8);
                "associated data".into()
            }
            3 => {
                k2 = Key::random();
                "key".into()
            }
            4 => {
                let n = rng.below(80);
                bx2 = rng.bytes(n);
                format!("{n} arbitrary bytes")
            }
            _ => mutate(&mut bx2, rng).to_string(),
        };
        let r = guarded(|| Pv::box_open(&k2, &ad2, &bx2).ok());
        let want = (what == "nothing").then(|| data.clone());
        if r != Ok(want.clone()) {
            ctx.rep.violation("tamper/box", json!({"case": i, "alteration": what, "data": short(&data), "result": format!("{r:?}").chars().take(200).collect::<String>()}));
        }
        // guarded keys that seal other keys
        if rng.chance(1, 20) {
            let nk = NCKey::<Pv>::load(rng.bytes(32)).unwrap();
            let sealed = nk.encrypt_key(&key, &ad).unwrap();
            let mut s2 = sealed.clone();
            let m = mutate(&mut s2, rng);
            let other = NCKey::<Pv>::random();
            let ok = matches!(nk.decrypt_key(sealed.clone(), &ad), Ok(k) if k == key);
            let bad = guarded(|| {
                s2 != sealed && nk.decrypt_key(s2.clone(), &ad).is_ok()
                    || nk.decrypt_key(sealed.clone(), [&ad[..], &[1]].concat()).is_ok()
                    || other.decrypt_key(sealed.clone(), &ad).is_ok()
            });
            if !ok || bad != Ok(false) {
                ctx.rep.violation("tamper/sealed-key", json!({"case": i, "opens unaltered": ok, "alteration": m, "accepted": format!("{bad:?}")}));
            }
            ctx.rep.count("sealed keys", 1);
        }
        let n = rng.range(0, 70);
        if (n == 32) != Key::<Pv>::load(rng.bytes(n)).is_some() {
            ctx.rep.violation("tamper/key-length", json!({"length": n}));
        }
        ctx.rep.count("boxes", 1);
        ctx.rep.eval(Some(fnv(&bx2) ^ fnv(&ad2) ^ fnv(what.as_bytes())));
    }
}
