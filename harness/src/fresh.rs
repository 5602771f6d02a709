//! C30: what is generated is logged for the tests over all threads and processes; here, what the randomness of the
//! operating system has to do with it.
use crate::common::*;
use crate::crash::in_child;
use crate::rngtap as tap;
use crate::util::*;
use engine::vault::{BlobId, BoxProvider, ChainId, ClientId, Id, Key, NCKey, RecordId, VaultId};
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use runtime::memories::buffer::Buffer;
use serde_json::json;
use std::collections::HashMap;
use std::io::Write;
use std::path::PathBuf;
use std::sync::Mutex;

struct Log(Mutex<std::io::BufWriter<std::fs::File>>);

impl Log {
    fn open(base: &str, tag: String) -> Log {
        let f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{base}.{tag}")).expect("log");
        Log(Mutex::new(std::io::BufWriter::new(f)))
    }
    fn put(&self, stream: &str, b: &[u8]) {
        writeln!(self.0.lock().unwrap(), "{stream} {}", hex(b)).expect("log");
    }
    fn text(&self, stream: &str, s: &str) {
        writeln!(self.0.lock().unwrap(), "{stream} {s}").expect("log");
    }
    fn flush(&self) {
        self.0.lock().unwrap().flush().expect("log");
    }
}

fn bytes<T: serde::Serialize>(t: &T) -> Vec<u8> {
    let b = bincode::serialize(t).expect("serialize");
    // Keys are written with their length.
    if b.len() > 8 && b[..8] == (b.len() as u64 - 8).to_le_bytes() {
        b[8..].to_vec()
    } else {
        b
    }
}

type Gen = fn() -> Result<Vec<u8>, String>;

fn sealed() -> Result<Vec<u8>, String> {
    let k = [3u8; 32];
    let mut out = vec![];
    engine::snapshot::write(&[1, 2, 3], &mut out, &k, &[]).map_err(|e| e.to_string())?;
    Ok(out[..32].to_vec())
}

fn boxed() -> Result<Vec<u8>, String> {
    let k = Key::<Provider>::load(vec![9; 32]).ok_or("key")?;
    let b = Provider::box_seal(&k, &[], &[1, 2, 3]).map_err(|e| e.to_string())?;
    Ok(b[16..40].to_vec())
}

fn of<const N: usize>() -> Result<Vec<u8>, String> {
    let mut b = vec![0; N];
    Provider::random_buf(&mut b).map_err(|e| e.to_string())?;
    Ok(b)
}

/// Generators that take no vault. The second number: how many bytes of the operating system's randomness a first call
/// must take, at least.
const DIRECT: &[(&str, u64, Gen)] = &[
    ("random_buf of 16", 16, of::<16>),
    ("random_buf of 24", 24, of::<24>),
    ("random_buf of 32", 32, of::<32>),
    ("random_buf of 33", 32, of::<33>),
    ("random_buf of 100", 32, of::<100>),
    ("random_vec", 32, || Provider::random_vec(48).map_err(|e| e.to_string())),
    ("ChainId", 24, || ChainId::random::<Provider>().map(|i| bytes(&i)).map_err(|e| e.to_string())),
    ("BlobId", 24, || BlobId::random::<Provider>().map(|i| bytes(&i)).map_err(|e| e.to_string())),
    ("RecordId", 24, || RecordId::random::<Provider>().map(|i| bytes(&i)).map_err(|e| e.to_string())),
    ("Id", 24, || Id::random::<Provider>().map(|i| bytes(&i)).map_err(|e| e.to_string())),
    ("VaultId", 24, || VaultId::random::<Provider>().map(|i| bytes(&i)).map_err(|e| e.to_string())),
    ("ClientId", 24, || ClientId::random::<Provider>().map(|i| bytes(&i)).map_err(|e| e.to_string())),
    ("Key", 32, || Ok(bytes(&Key::<Provider>::random()))),
    ("box nonce", 24, boxed),
    ("snapshot ephemeral key", 32, sealed),
    ("guarded buffer", 32, || Ok(Buffer::<u8>::random(40).borrow().to_vec())),
];

/// Generators of the utilities, which are seeded once per thread.
const UTILS: &[(&str, u64, Gen)] = &[
    ("utils random", 16, || Ok(stronghold_utils::random::random::<[u8; 32]>().to_vec())),
    ("utils fixed_bytestring", 16, || Ok(stronghold_utils::random::fixed_bytestring(32))),
    ("utils variable_bytestring", 16, || loop {
        let b = stronghold_utils::random::variable_bytestring(200);
        if b.len() >= 16 {
            return Ok(b[..16].to_vec());
        }
    }),
    ("utils runtime random_vec", 16, || Ok(runtime::utils::random_vec(32))),
];

const TEXTS: &[(&str, fn() -> String)] = &[
    ("text:utils string", || loop {
        let s = stronghold_utils::random::string(200);
        if s.len() >= 16 {
            return s[..16].to_string();
        }
    }),
    ("text:utils passphrase", || loop {
        let s = stronghold_utils::random::passphrase().unwrap();
        if s.len() >= 16 {
            return s[..16].to_string();
        }
    }),
    ("text:runtime random_fname", || runtime::utils::random_fname(16)),
];

fn at(v: &str, r: usize) -> Location {
    Location::generic(v.as_bytes().to_vec(), format!("record {r}").into_bytes())
}

const SECRETS: &[&str] = &["Ed25519 key", "X25519 key", "seed of 64", "seed of 16", "seed of 32", "seed of 33", "seed of 200", "BIP39 seed en", "BIP39 seed jp"];

/// Executes the generating procedure; a mnemonic if there is one, with its passphrase and language.
fn generate(cl: &Client, kind: &str, output: Location) -> Result<Option<(String, String, String)>, String> {
    let e = |e: ProcedureError| format!("{e:?}");
    let slip = |n: Option<usize>, output| cl.execute_procedure(Slip10Generate { size_bytes: n, output }).map_err(e).map(|_| None);
    match kind {
        "Ed25519 key" => cl.execute_procedure(GenerateKey { ty: KeyType::Ed25519, output }).map_err(e).map(|_| None),
        "X25519 key" => cl.execute_procedure(GenerateKey { ty: KeyType::X25519, output }).map_err(e).map(|_| None),
        "seed of 64" => slip(None, output),
        "seed of 16" => slip(Some(16), output),
        "seed of 32" => slip(Some(32), output),
        "seed of 33" => slip(Some(33), output),
        "seed of 200" => slip(Some(200), output),
        _ => {
            let (language, name) = if kind.ends_with("en") { (MnemonicLanguage::English, "English") } else { (MnemonicLanguage::Japanese, "Japanese") };
            let n = stronghold_utils::random::usize(3);
            let passphrase = [None, Some(String::new()), Some("päss 密码".to_string())][n].clone();
            let m = cl.execute_procedure(BIP39Generate { passphrase: passphrase.clone(), language: language.clone(), output }).map_err(e)?;
            Ok(Some((m, passphrase.unwrap_or_default(), name.to_string())))
        }
    }
}

/// A round of generating into a client: the secrets read back, and that each overwrite of one is new.
fn vaults(ctx: &Ctx, log: &Log, sh: &Stronghold, client: &str, n: usize, keep: Option<PathBuf>) {
    let cl = sh.create_client(client.as_bytes()).expect("client");
    for round in 0..2 {
        let mut mnemonics: HashMap<(VaultId, RecordId), (String, String, String)> = HashMap::new();
        let mut kinds = HashMap::new();
        for kind in SECRETS {
            let m = if kind.starts_with("BIP39") { n / 8 + 1 } else { n };
            for r in 0..m {
                let l = at(kind, r);
                match generate(&cl, kind, l.clone()) {
                    Ok(w) => {
                        kinds.insert(l.resolve(), *kind);
                        if let Some(w) = w {
                            mnemonics.insert(l.resolve(), w);
                        }
                    }
                    Err(e) => return ctx.rep.violation("fresh/refused", json!({"kind": kind, "error": e})),
                }
                ctx.rep.count(&format!("generated: {kind}"), 1);
            }
        }
        // A recovered seed next to the generated one.
        let mut pairs = vec![];
        for (k, (m, p, lang)) in mnemonics.iter().take(6) {
            let out = at("recovered", pairs.len());
            // The language is detected from the words.
            match cl.execute_procedure(BIP39Recover { passphrase: Some(p.clone()), mnemonic: m.clone(), output: out.clone() }) {
                Ok(_) => pairs.push((*k, out.resolve())),
                Err(e) => ctx.rep.violation("fresh/not-recovered", json!({"mnemonic": m, "language": lang, "error": format!("{e:?}")})),
            }
        }
        let (recs, _) = match dump_client(ctx, sh, client.as_bytes(), client) {
            Ok(d) => d,
            Err(e) => return ctx.rep.violation("fresh/unreadable", json!({"error": e})),
        };
        for (k, kind) in &kinds {
            let Some(v) = recs.get(k) else { return ctx.rep.violation("fresh/missing", json!({"kind": kind})) };
            log.put(kind, v);
        }
        for (k, (m, p, lang)) in &mnemonics {
            log.text("mnemonic", &format!("{lang} {} {} {}", hex(p.as_bytes()), hex(m.as_bytes()), hex(&recs[k])));
        }
        for (a, b) in pairs {
            ctx.rep.count("mnemonics recovered", 1);
            if recs.get(&a) != recs.get(&b) {
                ctx.rep.violation("fresh/recovered-other", json!({"round": round}));
            }
        }
        if let (Some(p), 0) = (&keep, round) {
            sh.commit_with_keyprovider(&SnapshotPath::from_path(p), &kp(&[5; 32])).expect("commit");
        }
    }
}

fn direct(ctx: &Ctx, log: &Log, n: usize, utils: bool) {
    for _ in 0..n {
        for (name, _, g) in DIRECT.iter().chain(if utils { UTILS } else { &[] }) {
            match g() {
                Ok(b) => log.put(name, &b),
                Err(e) => ctx.rep.violation("fresh/refused", json!({"kind": name, "error": e})),
            }
        }
        for (name, g) in if utils { TEXTS } else { &[] } {
            log.text(name, &g());
        }
    }
    ctx.rep.count("generated outside of vaults", (n * (DIRECT.len() + UTILS.len() + TEXTS.len())) as u64);
}

fn urandom_open() -> bool {
    std::fs::read_dir("/proc/self/fd").map_or(false, |d| {
        d.flatten().any(|f| std::fs::read_link(f.path()).map_or(false, |p| p.ends_with("urandom") || p.ends_with("random")))
    })
}

/// What a first call in a new process takes from the operating system.
fn counts(ctx: &Ctx) {
    let mut hits = 0;
    let out = ctx.scratch.join("taken");
    // bytes taken by `f` in a child, after `warm`
    let measure = |f: &dyn Fn() -> Result<(), String>| -> Option<u64> {
        let _ = std::fs::remove_file(&out);
        let c = in_child(|| {
            std::hint::black_box(std::collections::hash_map::RandomState::new());
            let before = tap::taken().0;
            if f().is_err() || urandom_open() {
                return 4;
            }
            std::fs::write(&out, (tap::taken().0 - before).to_string()).map_or(5, |_| 0)
        });
        if c != 0 {
            return None;
        }
        std::fs::read_to_string(&out).ok()?.parse().ok()
    };
    for (name, least, g) in DIRECT.iter().chain(UTILS) {
        match measure(&|| g().map(|_| ())) {
            None => ctx.rep.note(format!("what {name} takes could not be observed")),
            Some(n) => {
                ctx.rep.eval(Some(fnv(name.as_bytes()) ^ n));
                ctx.rep.count("first calls whose use of the operating system's randomness was counted", 1);
                hits += (n > 0) as u32;
                if n < *least {
                    ctx.rep.violation("fresh/too-little-randomness", json!({"kind": name, "bytes taken": n, "at least": least}));
                }
            }
        }
    }
    if hits == 0 {
        ctx.rep.note("the operating system's randomness could not be observed at all");
    }
    // Generated secrets against the writing of given ones of the same size: the nonces and identifiers are the same.
    let write = |n: usize| {
        move |cl: &Client| cl.execute_procedure(WriteVault { data: vec![7; n], location: at("v", 1) }).map(|_| ()).map_err(|e| format!("{e:?}"))
    };
    let in_vault = |f: &dyn Fn(&Client) -> Result<(), String>, exists: bool| {
        measure(&|| {
            let sh = Stronghold::default();
            let cl = sh.create_client(b"c").map_err(|e| format!("{e:?}"))?;
            if exists {
                write(32)(&cl)?;
            }
            f(&cl)
        })
    };
    let size = |k: &str| match k {
        "Ed25519 key" | "X25519 key" | "seed of 32" => 32,
        "seed of 16" => 16,
        "seed of 33" => 33,
        "seed of 200" => 200,
        _ => 64,
    };
    for kind in SECRETS {
        let base = in_vault(&write(size(kind)), true);
        let with = in_vault(&|cl| generate(cl, kind, at("v", 1)).map(|_| ()), true);
        let Some((base, with)) = base.zip(with) else {
            ctx.rep.note(format!("what {kind} takes could not be observed"));
            continue;
        };
        if base < 40 {
            ctx.rep.note("what single procedures take could not be told apart");
            break;
        }
        ctx.rep.eval(Some(fnv(kind.as_bytes()) ^ with));
        ctx.rep.count("generating procedures whose use of the operating system's randomness was counted", 1);
        let least = (size(kind) as u64).min(32);
        if with < base + least {
            ctx.rep.violation("fresh/too-little-randomness", json!({"kind": kind, "bytes taken": with, "writing as much": base}));
        }
    }
    if let Some((a, b)) = in_vault(&write(32), true).zip(in_vault(&write(32), false)) {
        // the other vault is new, and so is its key
        let new = in_vault(&|cl| cl.execute_procedure(WriteVault { data: vec![7; 32], location: at("w", 1) }).map(|_| ()).map_err(|e| format!("{e:?}")), true);
        ctx.rep.note(format!("bytes taken by two writes into a vault {a}, one {b}, two into two vaults {new:?}"));
        if let (Some(new), true) = (new, a >= b + 40) {
            ctx.rep.eval(Some(new));
            if new < a + 32 {
                ctx.rep.violation("fresh/too-little-randomness", json!({"kind": "vault key", "bytes taken": new, "without": a}));
            }
        }
    }
}

/// Each request for randomness fails once: nothing may be made of what was not filled.
fn faults(ctx: &Ctx, base: &str) {
    let runs = ctx.n(3, 12);
    for (i, (name, _, g)) in DIRECT.iter().enumerate() {
        for run in 0..runs {
            for short in [0, 1, 7] {
                let c = in_child(|| {
                    tap::short(short);
                    tap::fail_at(0);
                    let r = std::panic::catch_unwind(|| g());
                    tap::short(0);
                    if let Ok(Ok(b)) = r {
                        let log = Log::open(base, format!("fault{}", ctx.shard.0));
                        log.put(name, &b);
                        log.flush();
                        return if tap::failed() { 11 } else { 10 };
                    }
                    12
                });
                ctx.rep.eval(None);
                match c {
                    10 => ctx.rep.count("failing randomness not asked for", 1),
                    11 => ctx.rep.count("failing randomness survived", 1),
                    _ => ctx.rep.count("failing randomness refused", 1),
                }
            }
        }
    }
    for kind in SECRETS {
        for k in 0..14 {
            for _ in 0..runs {
                let c = in_child(|| {
                    let sh = Stronghold::default();
                    let cl = sh.create_client(b"c").expect("client");
                    let w = cl.execute_procedure(WriteVault { data: vec![7; 32], location: at("v", 0) });
                    if w.is_err() {
                        return 13;
                    }
                    tap::fail_at(k);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| generate(&cl, kind, at("v", 1))));
                    let failed = tap::failed();
                    tap::fail_at(-1);
                    let Ok(Ok(w)) = r else { return 12 };
                    let recs = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dump_client(ctx, &sh, b"c", "fault"))) {
                        Ok(Ok((recs, _))) => recs,
                        // A lock the failure has poisoned.
                        _ => return 13,
                    };
                    let log = Log::open(base, format!("fault{}", ctx.shard.0));
                    let v = recs.get(&at("v", 1).resolve()).cloned().unwrap_or_default();
                    log.put(kind, &v);
                    if let Some((m, p, lang)) = w {
                        log.text("mnemonic", &format!("{lang} {} {} {}", hex(p.as_bytes()), hex(m.as_bytes()), hex(&v)));
                    }
                    log.flush();
                    if failed { 11 } else { 10 }
                });
                ctx.rep.eval(None);
                match c {
                    10 => ctx.rep.count("failing randomness not asked for", 1),
                    11 => ctx.rep.count("failing randomness survived", 1),
                    _ => ctx.rep.count("failing randomness refused", 1),
                }
                if c == 10 {
                    break;
                }
            }
        }
    }
}

pub fn fresh(ctx: &Ctx) {
    let base = ctx.arg(0).expect("log").to_string();
    // Before anything else has been generated in this process.
    if ctx.shard.0 % 4 == 0 {
        counts(ctx);
    }
    let me = ctx.shard.0;
    let log = Log::open(&base, format!("p{me}"));
    direct(ctx, &log, 5, true);
    vaults(ctx, &log, &Stronghold::default(), "before the fork", 2, None);
    log.flush();
    // Children that start from the same state.
    for c in 0..4 {
        let base = base.clone();
        let r = in_child(|| {
            let log = Log::open(&base, format!("p{me}c{c}"));
            // The utilities' generator is one per thread and may go on where the parent's was.
            direct(ctx, &log, 20, false);
            vaults(ctx, &log, &Stronghold::default(), "after the fork", 4, None);
            log.flush();
            (ctx.rep.violated() > 0) as i32
        });
        ctx.rep.count("forked processes", 1);
        if r != 0 {
            ctx.rep.violation("fresh/fork", json!({"exit": r}));
        }
    }
    if ctx.shard.0 % 4 == 1 {
        faults(ctx, &base);
    }
    let shared = Stronghold::default();
    let round = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..4 {
            let (base, shared, round) = (&base, &shared, &round);
            s.spawn(move || {
                let log = Log::open(base, format!("p{me}t{t}"));
                loop {
                    let k = round.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    direct(ctx, &log, 40, true);
                    // The same paths in every thread, process and instance.
                    if t < 3 {
                        let keep = (k < 4).then(|| PathBuf::from(format!("{base}.snapshot.p{me}k{k}")));
                        vaults(ctx, &log, &Stronghold::default(), "client", if keep.is_some() { 5 } else { 20 }, keep);
                    } else {
                        vaults(ctx, &log, shared, &format!("client {t}"), 10, None);
                    }
                    if !ctx.time_left() || ctx.rep.violated() > 3 {
                        break;
                    }
                }
                log.flush();
            });
        }
    });
    ctx.rep.count("threads", 4);
    ctx.rep.count("processes", 1);
}
