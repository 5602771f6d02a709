//! C26: the text of everything that can be printed, against the secrets it holds. The same values are made twice, with
//! different secrets; the texts must be the same, and hold no piece of the secrets. Errors of operations on secrets, and
//! what the code itself logs or prints, are looked at in the same way.
use crate::common::*;
use crate::gen;
use crate::leak::Needles;
use crate::util::*;
use engine::runtime::locked_memory::LockedMemory;
use engine::runtime::memories::buffer::Buffer;
use engine::runtime::memories::file_memory::FileMemory;
use engine::runtime::memories::frag::{Frag, FragStrategy};
use engine::runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use engine::runtime::memories::ram_memory::RamMemory;
use engine::vault::{BoxProvider, DbView, Key, NCKey, RecordHint, RecordId, VaultId};
use iota_stronghold::procedures::*;
use iota_stronghold::sync::{MergePolicy, SyncClientsConfig};
use iota_stronghold::*;
use serde_json::json;
use std::fmt::{Debug, Display, LowerHex, UpperHex};
use std::sync::Mutex;

/// The texts of a value under the formats its type has; none if it can not be printed.
struct P<T>(T);
trait NoDebug {
    fn debug(&self) -> Vec<String> {
        vec![]
    }
}
trait NoDisplay {
    fn display(&self) -> Vec<String> {
        vec![]
    }
}
trait NoHex {
    fn hexed(&self) -> Vec<String> {
        vec![]
    }
}
impl<T> NoDebug for P<T> {}
impl<T> NoDisplay for P<T> {}
impl<T> NoHex for P<T> {}
impl<T: Debug> P<&T> {
    fn debug(&self) -> Vec<String> {
        let v = self.0;
        vec![format!("{v:?}"), format!("{v:#?}"), format!("{v:x?}"), format!("{v:#X?}"), format!("{v:02x?}"), format!("{v:200?}")]
    }
}
impl<T: Display> P<&T> {
    fn display(&self) -> Vec<String> {
        let v = self.0;
        vec![format!("{v}"), format!("{v:#}"), format!("{v:.3}")]
    }
}
impl<T: LowerHex> P<&T> {
    fn hexed(&self) -> Vec<String> {
        vec![format!("{:x}", self.0)]
    }
}

macro_rules! show {
    ($out:ident, $name:expr, $v:expr) => {{
        #[allow(unused_imports)]
        use {NoDebug, NoDisplay, NoHex};
        let v = &$v;
        let p = P(v);
        let mut t = p.debug();
        t.extend(p.display());
        t.extend(p.hexed());
        $out.push(($name.to_string(), t));
    }};
}

type Texts = Vec<(String, Vec<String>)>;

static LOGGED: Mutex<Vec<String>> = Mutex::new(Vec::new());

struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        LOGGED.lock().unwrap().push(format!("{} {} {}", r.level(), r.target(), r.args()));
    }
    fn flush(&self) {}
}

/// The secrets of a case; every one is remembered.
struct Secrets<'a>(Rng, &'a mut Needles);
impl Secrets<'_> {
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.0.bytes(n);
        v.iter_mut().for_each(|b| *b |= 1);
        self.1.add(&v);
        v
    }
    fn text(&mut self, n: usize) -> String {
        let v: Vec<u8> = (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[self.0.below(62)]).collect();
        self.1.add(&v);
        String::from_utf8(v).unwrap()
    }
}

fn values(rng: &mut Rng, s: &mut Secrets, ctx: &Ctx) -> Result<Texts, String> {
    let mut o: Texts = vec![];
    let e = |e: engine::runtime::MemoryError| e.to_string();
    let n = *rng.pick(&[8, 16, 24, 32, 33, 64, 200]);
    // guarded memory
    let mut b = Buffer::alloc(&s.bytes(n), n);
    show!(o, "Buffer", b);
    {
        let r = b.borrow();
        show!(o, "Ref", r);
        show!(o, "Ref of Ref", &r);
        show!(o, "Option<Ref>", Some(r.clone()));
    }
    {
        let r = b.borrow_mut();
        show!(o, "RefMut", r);
    }
    show!(o, "[Buffer; 2]", [b.clone(), b.clone()]);
    let words: Vec<u64> = s.bytes(32).chunks(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).collect();
    show!(o, "Buffer<u64>", Buffer::alloc(&words, 4));
    show!(o, "RamMemory", RamMemory::alloc(&s.bytes(n), n).map_err(e)?);
    show!(o, "FileMemory", FileMemory::alloc(&s.bytes(n), n).map_err(e)?);
    for c in [NCConfig::FullRam, NCConfig::RamAndFile, NCConfig::FullFile, NCConfig::FragAllocation(FragStrategy::Map)] {
        let m = NonContiguousMemory::alloc(&s.bytes(32), 32, c).map_err(e)?;
        show!(o, "NonContiguousMemory", m);
        let _ = m.refresh();
        show!(o, "NonContiguousMemory, refreshed", m);
        show!(o, "its content", m.unlock().map_err(e)?);
    }
    let (f, g) = Frag::<[u8; 32]>::alloc_initialized(FragStrategy::Map, s.bytes(32).try_into().unwrap(), s.bytes(32).try_into().unwrap()).map_err(e)?;
    // its address may be shown
    show!(o, "Frag", f);
    drop((f, g));
    // keys
    show!(o, "Key", Key::<Provider>::load(s.bytes(32)).ok_or("key")?);
    show!(o, "NCKey", NCKey::<Provider>::load(s.bytes(32)).ok_or("key")?);
    show!(o, "Option<Key>", Key::<Provider>::load(s.bytes(32)));
    show!(o, "Key of another length", Key::<Provider>::load(s.bytes(31)));
    show!(o, "NCKey of another length", NCKey::<Provider>::load(s.bytes(33)));
    show!(o, "Result<KeyProvider>", KeyProvider::try_from(s.bytes(32)));
    show!(o, "KeyProvider of another length", KeyProvider::try_from(s.bytes(n)));
    show!(o, "KeyProvider from a passphrase", KeyProvider::with_passphrase_truncated(s.bytes(n)));
    show!(o, "KeyProvider from a hashed passphrase", KeyProvider::with_passphrase_hashed_blake2b(s.bytes(n)));
    let k = kp(&s.bytes(32).try_into().unwrap());
    show!(o, "unlocked key", k.try_unlock());
    let key32: [u8; 32] = s.bytes(32).try_into().unwrap();
    let l = Location::generic(b"vault".to_vec(), b"record".to_vec());
    show!(o, "UseKey", UseKey::Key(key32));
    show!(o, "UseKey at a location", UseKey::Stored(l.clone()));
    // requests
    let pass = |s: &mut Secrets| Some(s.text(20));
    macro_rules! proc {
        ($p:expr) => {{
            let p = $p;
            show!(o, "procedure", p);
            let sp: StrongholdProcedure = p.into();
            show!(o, "wrapped procedure", sp);
            show!(o, "procedures", vec![sp.clone(), sp]);
        }};
    }
    proc!(WriteVault { data: s.bytes(n), location: l.clone() });
    proc!(BIP39Generate { passphrase: pass(s), language: MnemonicLanguage::English, output: l.clone() });
    proc!(BIP39Recover { passphrase: pass(s), mnemonic: s.text(80), output: l.clone() });
    proc!(Pbkdf2Hmac { hash_type: Sha2Hash::Sha256, password: s.bytes(n), salt: vec![1; 8], count: 1.try_into().unwrap(), output: l.clone() });
    proc!(AeadEncrypt { cipher: AeadCipher::Aes256Gcm, associated_data: vec![], plaintext: s.bytes(n), nonce: vec![0; 12], key: l.clone() });
    proc!(CompareSecret { location: l.clone(), expected: s.bytes(n) });
    // what lives in an instance
    let sh = Stronghold::default();
    let cl = sh.create_client(b"client").map_err(|e| e.to_string())?;
    let secret = s.bytes(n);
    cl.vault(b"vault").write_secret(l.clone(), secret).map_err(|e| e.to_string())?;
    sh.store_snapshot_key_at_location(kp(&key32), Location::generic(b"k".to_vec(), b"k".to_vec())).map_err(|e| e.to_string())?;
    show!(o, "Client", cl);
    show!(o, "ClientVault", cl.vault(b"vault"));
    show!(o, "Stronghold", sh);
    show!(o, "Store", cl.store());
    sh.write_client(b"client").map_err(|e| e.to_string())?;
    show!(o, "Stronghold with data", sh);
    let path = ctx.scratch.join("redact");
    sh.commit_with_keyprovider(&SnapshotPath::from_path(&path), &k).map_err(|e| e.to_string())?;
    let raw: [u8; 32] = k.try_unlock().map_err(|e| e.to_string())?.borrow().to_vec().try_into().unwrap();
    let snap = Snapshot::read_from_snapshot(&SnapshotPath::from_path(&path), raw, None).map_err(|e| e.to_string())?;
    show!(o, "Snapshot", snap);
    show!(o, "SnapshotState", snap.get_snapshot_state().map_err(|e| e.to_string())?);
    let st = snap.get_state(client_id(b"client")).map_err(|e| e.to_string())?;
    show!(o, "keys of vaults", st.0.values().collect::<Vec<_>>());
    show!(o, "DbView", st.1);
    let _ = std::fs::remove_file(&path);
    // the engine
    let key = Key::<Provider>::load(s.bytes(32)).ok_or("key")?;
    let mut db = DbView::<Provider>::new();
    let (v, r) = (derive_vault_id(b"v"), derive_record_id(b"v", b"r"));
    db.write(&key, v, r, &s.bytes(n), RecordHint::from([0; 24])).map_err(|e| format!("{e:?}"))?;
    show!(o, "DbView", db);
    let mut ks = KeyStore::<Provider>::default();
    ks.get_or_insert_key(v, key).map_err(|e| format!("{e:?}"))?;
    show!(o, "KeyStore", ks);
    Ok(o)
}

/// The errors of operations on secrets that fail.
fn errors(rng: &mut Rng, s: &mut Secrets, ctx: &Ctx) -> Result<Texts, String> {
    let mut o: Texts = vec![];
    let e = |e: ClientError| e.to_string();
    let sh = Stronghold::default();
    let cl = sh.create_client(b"client").map_err(e)?;
    let other = sh.create_client(b"other").map_err(e)?;
    let locs: Vec<Location> = (0..6).map(|i| Location::generic(vec![b'v', i % 2], vec![b'r', i])).collect();
    for (i, l) in locs.iter().enumerate().take(5) {
        let n = *rng.pick(&[8, 16, 31, 32, 33, 48, 64, 65, 100]);
        cl.vault(l.vault_path()).write_secret(l.clone(), s.bytes(n)).map_err(e)?;
    }
    cl.vault(locs[4].vault_path()).revoke_secret([b'r', 4]).map_err(e)?;
    for _ in 0..14 {
        let src = |r: &mut Rng| r.pick(&locs).clone();
        let tgt = |r: &mut Rng| if r.chance(1, 5) { locs[4].clone() } else { Location::generic(b"t".to_vec(), vec![r.below(3) as u8]) };
        let p = gen::any(rng, &src, &tgt, true);
        let name = gen::name(&p);
        if matches!(name, "Pbkdf2Hmac" | "BIP39Generate" | "BIP39Recover") && rng.chance(9, 10) {
            continue;
        }
        match guarded(|| cl.execute_procedure_chained(vec![p])) {
            Err(p) => show!(o, format!("panic of {name}"), p),
            Ok(r) => {
                if let Err(ref x) = r {
                    show!(o, format!("error of {name}"), *x);
                    show!(o, format!("error of {name}, passed on"), Box::<dyn std::error::Error>::from(format!("{x} {x:?}")));
                } else {
                    o.push((format!("no error of {name}"), vec![]));
                }
            }
        }
    }
    // a key that does not fit
    for l in &locs {
        for p in [
            AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: l.clone(), wrap_key: locs[0].clone() }.into(),
            AesKeyWrapDecrypt { cipher: AesKeyWrapCipher::Aes256, decryption_key: l.clone(), wrapped_key: vec![3; 40], output: locs[5].clone() }.into(),
            AeadDecrypt { cipher: AeadCipher::Aes256Gcm, associated_data: vec![], ciphertext: vec![4; 40], tag: vec![0; 16], nonce: vec![0; 12], key: l.clone() }.into(),
            Ed25519Sign { private_key: l.clone(), msg: vec![1] }.into(),
            PublicKey { ty: KeyType::X25519, private_key: l.clone() }.into(),
            Slip10Derive { chain: Chain::from_u32_hardened(vec![1]), input: Slip10DeriveInput::Key(l.clone()), output: locs[5].clone() }.into(),
        ] {
            let p: StrongholdProcedure = p;
            let name = gen::name(&p);
            match guarded(|| cl.execute_procedure_chained(vec![p])) {
                Err(p) => show!(o, format!("panic of {name}"), p),
                Ok(Err(x)) => show!(o, format!("error of {name}"), x),
                Ok(Ok(_)) => o.push((format!("no error of {name}"), vec![])),
            }
        }
    }
    show!(o, "delete_secret", cl.vault(b"none").delete_secret(b"x"));
    show!(o, "write_secret", cl.vault(locs[4].vault_path()).write_secret(locs[4].clone(), s.bytes(20)).map(|_| ()));
    show!(o, "sync", other.sync_with(&cl, SyncClientsConfig::new(MergePolicy::Replace)).map(|_| ()));
    // files
    let path = ctx.scratch.join("redact-e");
    let (k1, k2) = (kp(&s.bytes(32).try_into().unwrap()), kp(&s.bytes(32).try_into().unwrap()));
    let sp = SnapshotPath::from_path(&path);
    show!(o, "load of no file", Stronghold::default().load_snapshot(&k1, &sp));
    show!(o, "commit without a key", sh.commit(&sp));
    sh.commit_with_keyprovider(&sp, &k1).map_err(e)?;
    show!(o, "load with the wrong key", Stronghold::default().load_snapshot(&k2, &sp));
    show!(o, "load of a client with the wrong key", Stronghold::default().load_client_from_snapshot(b"client", &k2, &sp).map(|_| ()));
    let data = std::fs::read(&path).map_err(|e| e.to_string())?;
    let cut = rng.below(120);
    std::fs::write(&path, &data[..cut]).map_err(|e| e.to_string())?;
    show!(o, format!("load of {cut} bytes"), Stronghold::default().load_snapshot(&k1, &sp));
    let mut bad = data.clone();
    bad[rng.below(100)] ^= 1;
    std::fs::write(&path, &bad).map_err(|e| e.to_string())?;
    show!(o, "load of a changed file", Stronghold::default().load_snapshot(&k1, &sp));
    // a file with the right key and a content that makes no sense
    let key: [u8; 32] = k1.try_unlock().map_err(|e| e.to_string())?.borrow().to_vec().try_into().unwrap();
    let (fill, size) = (rng.below(256) as u8, rng.range(1, 300));
    let junk = if rng.chance(1, 2) { vec![fill; size] } else { s.bytes(size) };
    let _ = std::fs::remove_file(&path);
    engine::snapshot::write_to(&junk, &path, &key, &[]).map_err(|e| format!("{e:?}"))?;
    let t = Stronghold::default().load_snapshot(&k1, &sp);
    // what is wrong with it depends on the content; no piece of it may be told
    o.push(("content that makes no sense: load".into(), match t {
        Err(x) => vec![format!("{x}"), format!("{x:?}")],
        Ok(()) => vec![],
    }));
    let _ = std::fs::remove_file(&path);
    sh.load_client(b"nobody").err().map(|x| show!(o, "load_client", x));
    sh.get_client(b"nobody").err().map(|x| show!(o, "get_client", x));
    Ok(o)
}

fn both(ctx: &Ctx, rng: &mut Rng, i: u64, f: fn(&mut Rng, &mut Secrets, &Ctx) -> Result<Texts, String>) -> Result<(), String> {
    let shape = rng.u64();
    let mut needles = Needles::default();
    let mut texts = vec![];
    LOGGED.lock().unwrap().clear();
    for _ in 0..2 {
        let mut s = Secrets(Rng::new(rng.u64(), 1), &mut needles);
        texts.push(f(&mut Rng::new(shape, 0), &mut s, ctx)?);
    }
    let (a, b) = (&texts[0], &texts[1]);
    if a.len() != b.len() {
        return Err("the two runs did not do the same".into());
    }
    for ((na, ta), (nb, tb)) in a.iter().zip(b) {
        ctx.rep.count(if ta.is_empty() { "values that can not be printed" } else { "values printed" }, 1);
        ctx.rep.seen("kinds of values", fnv(na.as_bytes()));
        for t in ta.iter().chain(tb) {
            ctx.rep.count("texts", 1);
            if let Some((at, how)) = needles.find(t.as_bytes()) {
                return Err(format!("the text of {na} shows a piece of a secret ({how} at {at}): {t}"));
            }
        }
        // whether it fails at all may depend on the secret
        let depends = na != nb || ta.is_empty() != tb.is_empty() || na.contains("makes no sense") || na.starts_with("Frag");
        if !depends {
            ctx.rep.count("texts compared with those of another secret", ta.len() as u64);
            if let Some((x, y)) = ta.iter().zip(tb).find(|(x, y)| x != y) {
                return Err(format!("the text of {na} depends on the secret: {x} or {y}"));
            }
        }
        ctx.rep.eval(Some(fnv(format!("{na}{ta:?}").as_bytes())));
    }
    for l in LOGGED.lock().unwrap().drain(..) {
        ctx.rep.count("lines logged", 1);
        if let Some((at, how)) = needles.find(l.as_bytes()) {
            return Err(format!("a line that is logged shows a piece of a secret ({how} at {at}): {l}"));
        }
    }
    let out = std::fs::read(ctx.scratch.join("printed")).unwrap_or_default();
    ctx.rep.count("bytes printed by the code", 0);
    if let Some((at, how)) = needles.find(&out) {
        return Err(format!("the code prints a piece of a secret ({how}): {}", String::from_utf8_lossy(&out[at.saturating_sub(40)..(at + 40).min(out.len())])));
    }
    if !out.is_empty() {
        ctx.rep.count("bytes printed by the code", out.len() as u64);
        unsafe { libc::ftruncate(1, 0) };
    }
    Ok(())
}

pub fn redact(ctx: &Ctx) {
    let _ = log::set_logger(&Log);
    log::set_max_level(log::LevelFilter::Trace);
    // what the code prints goes to a file
    let p = std::ffi::CString::new(ctx.scratch.join("printed").to_str().unwrap()).unwrap();
    unsafe {
        let fd = libc::open(p.as_ptr(), libc::O_CREAT | libc::O_RDWR | libc::O_APPEND | libc::O_TRUNC, 0o600);
        libc::dup2(fd, 1);
        libc::dup2(fd, 2);
    }
    ctx.cases("redact", ctx.n(3000, 300_000), 1, |ctx, i, rng| {
        let r = both(ctx, rng, i, if i % 2 == 0 { values } else { errors });
        if let Err(e) = r {
            ctx.rep.violation("redact", json!({"case": i, "what": e}));
        }
    });
}
