//! Procedures: a log for the offline cryptographic oracle, failing chains, and hostile arguments.
use crate::common::*;
use crate::gen;
use crate::util::*;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::Mutex;

fn key_of(l: &Location) -> String {
    match l {
        Location::Generic { vault_path, record_path } => format!("{}/{}", hex(vault_path), hex(record_path)),
        Location::Counter { vault_path, counter } => format!("{}#{counter}", hex(vault_path)),
    }
}

/// C09: executes procedures over known secrets and writes everything seen to `log`, one case per line.
pub fn oracle_log(ctx: &Ctx) {
    let path = ctx.arg(0).expect("log file").to_string() + &format!(".{}", ctx.shard.0);
    let log = Mutex::new(std::io::BufWriter::new(std::fs::File::create(path).unwrap()));
    let n = ctx.n(1600, 16_000);
    ctx.cases("procedures", n, 4, |ctx, i, rng| {
        let sh = Stronghold::default();
        let cl = sh.create_client(b"c").unwrap();
        let mut init: BTreeMap<String, String> = BTreeMap::new();
        let mut locs: Vec<Location> = vec![];
        // secrets of all the sizes that matter
        for (k, n) in [32usize, 32, 32, 64, 64, 16, 24, 40, 33, 31, 1, 128, 129, 200, 8, 65].into_iter().enumerate() {
            let l = Location::generic(vec![b'v', k as u8 % 3 + 1], vec![b's', k as u8 + 1]);
            let mut s = rng.bytes(n);
            if rng.chance(1, 10) {
                s = vec![[0, 0xff][rng.below(2)]; n];
            }
            cl.vault(l.vault_path()).write_secret(l.clone(), s.clone()).unwrap();
            init.insert(key_of(&l), hex(&s));
            locs.push(l);
        }
        let mut events: Vec<Value> = vec![];
        let steps = 60;
        let mut pending: Vec<StrongholdProcedure> = vec![];
        for k in 0..steps {
            let t = Location::generic(vec![b't', rng.below(3) as u8 + 1], format!("out{k}").into_bytes());
            let ls = locs.clone();
            let p = match pending.pop() {
                Some(p) => p,
                None => loop {
                    let p = gen::any(
                        rng,
                        &|r| if r.chance(1, 2) { ls[r.below(5)].clone() } else { r.pick(&ls).clone() },
                        &|_| t.clone(),
                        false,
                    );
                    if !matches!(p, StrongholdProcedure::RevokeData(_) | StrongholdProcedure::GarbageCollect(_)) {
                        break p;
                    }
                },
            };
            let desc = serde_json::to_value(&p).unwrap();
            let name = gen::name(&p);
            let tgt = gen::target(&p);
            let src: Vec<String> = gen::sources(&p).iter().map(key_of).collect();
            let single = rng.chance(1, 3);
            let r = if single {
                cl.execute_procedure(p.clone()).map(|o| o)
            } else {
                cl.execute_procedure_chained(vec![p.clone()]).map(|mut v| v.pop().unwrap())
            };
            let out: Option<Vec<u8>> = r.as_ref().ok().map(|o| o.clone().into());
            if let Err(e) = &r {
                ctx.rep.seen("errors", fnv(format!("{e:?}").as_bytes()));
            }
            // the reverse operations, and the same with a change
            if let (StrongholdProcedure::AeadEncrypt(e), Some(o)) = (&p, &out) {
                let mut d = AeadDecrypt {
                    cipher: e.cipher,
                    associated_data: e.associated_data.clone(),
                    ciphertext: o[16.min(o.len())..].to_vec(),
                    tag: o[..16.min(o.len())].to_vec(),
                    nonce: e.nonce.clone(),
                    key: e.key.clone(),
                };
                pending.push(d.clone().into());
                let flip = |v: &mut Vec<u8>, rng: &mut Rng| {
                    if v.is_empty() {
                        v.push(0)
                    } else {
                        let i = rng.below(v.len());
                        v[i] ^= 1 << rng.below(8)
                    }
                };
                match rng.below(6) {
                    0 => flip(&mut d.associated_data, rng),
                    1 => flip(&mut d.ciphertext, rng),
                    2 => flip(&mut d.tag, rng),
                    3 => flip(&mut d.nonce, rng),
                    4 => {
                        d.tag.pop();
                    }
                    _ => d.key = ls[rng.below(ls.len())].clone(),
                }
                pending.push(d.into());
            }
            if let (StrongholdProcedure::AesKeyWrapEncrypt(e), Some(o)) = (&p, &out) {
                let t = |s: &str| Location::generic(b"unwrapped".to_vec(), format!("{s}{k}").into_bytes());
                let mut d = AesKeyWrapDecrypt {
                    cipher: e.cipher,
                    decryption_key: e.encryption_key.clone(),
                    wrapped_key: o.clone(),
                    output: t("a"),
                };
                pending.push(d.clone().into());
                match rng.below(3) {
                    0 if !o.is_empty() => {
                        let i = rng.below(o.len());
                        d.wrapped_key[i] ^= 1 << rng.below(8)
                    }
                    1 => {
                        d.wrapped_key.pop();
                    }
                    _ => d.decryption_key = ls[rng.below(ls.len())].clone(),
                }
                d.output = t("b");
                pending.push(d.into());
            }
            if let (StrongholdProcedure::BIP39Generate(e), Some(o)) = (&p, &out) {
                pending.push(
                    BIP39Recover {
                        passphrase: e.passphrase.clone(),
                        mnemonic: String::from_utf8_lossy(o).into_owned(),
                        output: Location::generic(b"recovered".to_vec(), format!("{k}").into_bytes()),
                    }
                    .into(),
                );
            }
            events.push(json!({"proc": desc, "name": name, "src": src, "tgt": tgt.as_ref().map(key_of),
                "ok": r.is_ok(), "out": out.as_ref().map(|o| hex(o)), "err": r.as_ref().err().map(|e| format!("{e:?}"))}));
            if let (Some(t), true) = (&tgt, r.is_ok()) {
                locs.push(t.clone());
            }
            ctx.rep.count(&format!("executed:{name}:{}", if r.is_ok() { "ok" } else { "error" }), 1);
        }
        match dump_client(ctx, &sh, b"c", "proc") {
            Ok((recs, _)) => {
                let mut contents = BTreeMap::new();
                let mut accounted = BTreeSet::new();
                for l in &locs {
                    if let Some(v) = recs.get(&l.resolve()) {
                        contents.insert(key_of(l), hex(v));
                        accounted.insert(l.resolve());
                    }
                }
                let extra = recs.keys().filter(|k| !accounted.contains(k)).count();
                if extra > 0 {
                    ctx.rep.violation("procedures/stray", json!({"case": i, "what": "records at places no procedure was told to write to", "n": extra}));
                }
                let line = json!({"case": i, "init": init, "events": events, "contents": contents}).to_string();
                writeln!(log.lock().unwrap(), "{line}").unwrap();
            }
            Err(e) => ctx.rep.violation("procedures/dump", json!({"case": i, "what": e})),
        }
    });
    log.lock().unwrap().flush().unwrap();
}

type Full = (Records, Pairs);

fn setup(cl: &Client, locs: &[Location], rng: &mut Rng) -> Vec<(Location, Option<Vec<u8>>)> {
    // the same initial state can be given to several clients
    let mut init = vec![];
    for l in locs {
        match rng.below(8) {
            0 => (),
            1 => init.push((l.clone(), None)),
            k => {
                let n = match k {
                    2 | 3 => 32,
                    4 => 64,
                    _ => gen::len(rng).max(1),
                };
                init.push((l.clone(), Some(rng.bytes(n))));
            }
        }
    }
    apply_setup(cl, &init);
    init
}

fn apply_setup(cl: &Client, init: &[(Location, Option<Vec<u8>>)]) {
    for (l, v) in init {
        let data = v.clone().unwrap_or_else(|| vec![9]);
        cl.execute_procedure(WriteVault { data, location: l.clone() }).unwrap();
        if v.is_none() {
            cl.execute_procedure(RevokeData { location: l.clone(), should_gc: false }).unwrap();
        }
    }
    cl.store().insert(b"k".to_vec(), b"v".to_vec(), None).unwrap();
}

/// C10: chains against the same steps one by one.
pub fn chains(ctx: &Ctx) {
    let n = ctx.n(2400, 60_000);
    ctx.cases("chain", n, 8, |ctx, i, rng| {
        let sa = Stronghold::default();
        let sb = Stronghold::default();
        let a = sa.create_client(b"c").unwrap();
        let b = sb.create_client(b"c").unwrap();
        let mut locs: Vec<Location> = vec![];
        for v in 0..rng.range(1, 3) as u8 {
            for r in 0..rng.range(2, 5) as u8 {
                locs.push(if rng.chance(1, 5) { Location::counter(vec![b'v', v + 1], r as usize) } else { Location::generic(vec![b'v', v + 1], vec![b'r', r + 1]) });
            }
        }
        let init = setup(&a, &locs, rng);
        apply_setup(&b, &init);
        // sometimes very many steps
        let steps = match rng.below(400) {
            0 => rng.range(257, 300),
            1..=12 => rng.range(9, 60),
            _ => rng.range(1, 8),
        };
        let mut fail_at = if rng.chance(1, 2) { if rng.chance(1, 4) { steps - 1 } else { rng.below(steps) } } else { steps };
        // sources and targets: mostly the known places, so that steps build on each other
        let live: Vec<Location> = init.iter().filter(|x| x.1.is_some()).map(|x| x.0.clone()).collect();
        let mut made: Vec<Location> = vec![];
        let mut chain: Vec<StrongholdProcedure> = vec![];
        // one by one on b, where every step but one is chosen so that it succeeds
        let mut outs = vec![];
        let mut tainted: BTreeSet<String> = BTreeSet::new();
        let mut targets: Vec<Location> = vec![];
        let mut failed_at = None;
        let mut skip_out = vec![];
        let mut tries = 0;
        while chain.len() < steps && tries < 60 + 3 * steps {
            tries += 1;
            let k = chain.len();
            let to_fail = k == fail_at;
            let fresh = Location::generic(b"new".to_vec(), format!("{k}").into_bytes());
            let p = gen::any(
                rng,
                &|r| {
                    if !to_fail && !live.is_empty() && r.chance(1, 2) {
                        r.pick(&live).clone()
                    } else if !made.is_empty() && r.chance(1, 2) {
                        r.pick(&made).clone()
                    } else {
                        r.pick(&locs).clone()
                    }
                },
                &|r| if r.chance(1, 2) { fresh.clone() } else { r.pick(&locs).clone() },
                to_fail,
            );
            match b.execute_procedure(p.clone()) {
                Ok(o) => {
                    if to_fail {
                        fail_at += 1;
                    }
                    let t = gen::random(&p) || gen::sources(&p).iter().any(|s| tainted.contains(&key_of(s)));
                    if let Some(l) = gen::target(&p) {
                        if t {
                            tainted.insert(key_of(&l));
                        } else {
                            tainted.remove(&key_of(&l));
                        }
                        made.push(l.clone());
                        targets.push(l);
                    }
                    skip_out.push(t);
                    outs.push(o);
                    chain.push(p);
                }
                Err(_) if to_fail => {
                    failed_at = Some(k);
                    chain.push(p);
                    break;
                }
                Err(_) => ctx.rep.count("failing steps left out", 1),
            }
        }
        let hist: Vec<String> = chain.iter().map(|p| {
            format!("{} {} -> {}", gen::name(p), gen::sources(p).iter().map(key_of).collect::<Vec<_>>().join(","),
                gen::target(p).as_ref().map(key_of).unwrap_or_default())
        }).collect();
        let fail = |key: &str, what: String| {
            ctx.rep.violation(key, json!({"case": i, "what": what, "chain": hist,
                "initial": init.iter().map(|(l, v)| format!("{}={}", key_of(l), v.as_ref().map(|v| v.len() as i64).unwrap_or(-1))).collect::<Vec<_>>()}));
        };
        let db: Full = match dump_client(ctx, &sb, b"c", "b") {
            Ok(d) => d,
            Err(e) => return fail("state", e),
        };
        // a single failing procedure: the same state before and after
        if let Some(k) = failed_at {
            for _ in 0..2 {
                if b.execute_procedure_chained(vec![chain[k].clone()]).is_ok() {
                    return fail("repeat", format!("step {k} failed and then succeeded in the same state"));
                }
            }
            match dump_client(ctx, &sb, b"c", "b2") {
                Ok(d) if d == db => (),
                Ok(_) => return fail("single", format!("step {k} ({}) failed but changed the state", gen::name(&chain[k]))),
                Err(e) => return fail("state", e),
            }
        }
        // all at once on a
        let ra = a.execute_procedure_chained(chain.clone());
        let da: Full = match dump_client(ctx, &sa, b"c", "a") {
            Ok(d) => d,
            Err(e) => return fail("state", e),
        };
        if da.1 != db.1 {
            return fail("store", "the chain changed the store".into());
        }
        match (&ra, failed_at) {
            (Ok(o), None) => {
                if o.len() != outs.len() || o.iter().zip(&outs).zip(&skip_out).any(|((x, y), s)| !s && x != y) {
                    return fail("outputs", "the outputs of the chain are not those of its steps".into());
                }
                let all: BTreeSet<_> = da.0.keys().chain(db.0.keys()).collect();
                for l in all {
                    let t = locs.iter().chain(&targets).any(|x| x.resolve() == *l && tainted.contains(&key_of(x)));
                    match (da.0.get(l), db.0.get(l)) {
                        (Some(x), Some(y)) if x == y || t && x.len() == y.len() => (),
                        _ => return fail("effect", "the effect of the chain is not that of its steps".into()),
                    }
                }
                ctx.rep.count("chains that succeeded", 1);
            }
            (Err(_), Some(k)) => {
                ctx.rep.count("chains that failed", 1);
                ctx.rep.count(&format!("failed in {}", gen::name(&chain[k])), 1);
                ctx.rep.seen("failing position and procedure", fnv(format!("{k}{}", gen::name(&chain[k])).as_bytes()));
                let produced: BTreeSet<_> = targets.iter().map(|t| t.resolve()).collect();
                for t in &targets {
                    if a.record_exists(t).unwrap_or(true) || da.0.contains_key(&t.resolve()) {
                        return fail("left-behind", format!("{} was produced before step {k} failed and is still there", key_of(t)));
                    }
                }
                for l in da.0.keys().chain(db.0.keys()).filter(|l| !produced.contains(l)) {
                    let t = locs.iter().any(|x| x.resolve() == *l && tainted.contains(&key_of(x)));
                    if da.0.get(l) != db.0.get(l) && !t {
                        return fail("collateral", format!("a record that no completed step had as its target changed (step {k} failed)"));
                    }
                }
                for (l, _) in &init {
                    // a revoked place that the chain had nothing to do with stays revoked
                    let e = db.0.contains_key(&l.resolve());
                    if !produced.contains(&l.resolve()) && a.record_exists(l).ok() != Some(e) {
                        return fail("collateral", format!("{} exists: {}", key_of(l), !e));
                    }
                }
            }
            (Ok(_), Some(k)) => return fail("outcome", format!("step {k} fails on its own but the chain succeeded")),
            (Err(e), None) => return fail("outcome", format!("every step succeeds on its own but the chain failed: {e:?}")),
        }
        ctx.rep.count("steps", chain.len() as u64);
        if chain.len() > 8 {
            ctx.rep.count("chains of more than eight steps", 1);
        }
        ctx.rep.eval(Some(fnv(format!("{hist:?}{failed_at:?}").as_bytes())));
        if i < 3 {
            ctx.rep.sample(json!({"chain": hist, "failed at": failed_at}));
        }
    });
}
