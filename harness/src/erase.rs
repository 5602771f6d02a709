//! C08: what holders of secrets leave behind when they are released, seen at the moment memory is given back.
use crate::memhook as mh;
use crate::util::*;
use engine::vault::{Key, NCKey};
use iota_stronghold::{KeyProvider, Provider};
use runtime::locked_memory::LockedMemory;
use runtime::memories::buffer::Buffer;
use runtime::memories::file_memory::FileMemory;
use runtime::memories::frag::{Frag, FragStrategy};
use runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use runtime::memories::ram_memory::RamMemory;
use serde_json::json;
use std::os::fd::AsRawFd;
use std::path::PathBuf;
use zeroize::Zeroize;

use crate::memhook::Region;

trait Holder: Send {
    /// The secret, or nothing where it is refused.
    fn get(&self) -> Option<Vec<u8>>;
    fn dup(&self) -> Option<Box<dyn Holder>>;
    fn wipe(&mut self) -> bool {
        false
    }
    fn refresh(&self) -> bool {
        false
    }
    fn replace(self: Box<Self>, _new: &[u8]) -> Result<Box<dyn Holder>, Box<dyn Holder>>;
    /// Panics while a borrow is held.
    fn panic_borrowed(self: Box<Self>) {
        let _ = guarded(move || {
            let s = self;
            if s.get().is_some_and(|v| v.len() < usize::MAX) {
                panic!("while in use");
            }
        });
    }
    /// Whether the memory of the holder contains the secret itself.
    fn plain(&self) -> bool {
        true
    }
}

fn refuse<H: Holder + 'static>(h: Box<H>) -> Result<Box<dyn Holder>, Box<dyn Holder>> {
    Err(h)
}

struct Buf<T: runtime::Bytes>(Buffer<T>);

fn bytes_of<T: runtime::Bytes>(v: &[T]) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) }.to_vec()
}

fn of_bytes<T: runtime::Bytes + Copy>(v: &[u8]) -> Vec<T> {
    let n = std::mem::size_of::<T>();
    assert!(v.len() % n == 0);
    (0..v.len() / n).map(|i| unsafe { std::ptr::read_unaligned(v[i * n..].as_ptr() as *const T) }).collect()
}

impl<T: runtime::Bytes + Copy + 'static> Holder for Buf<T>
where
    Buffer<T>: Clone + Send,
{
    fn get(&self) -> Option<Vec<u8>> {
        let b = self.0.borrow();
        (!b.is_empty()).then(|| bytes_of(&b))
    }
    fn dup(&self) -> Option<Box<dyn Holder>> {
        Some(Box::new(Buf(self.0.clone())))
    }
    fn wipe(&mut self) -> bool {
        self.0.zeroize();
        true
    }
    fn replace(mut self: Box<Self>, new: &[u8]) -> Result<Box<dyn Holder>, Box<dyn Holder>> {
        let v = of_bytes::<T>(new);
        *self = Buf(Buffer::alloc(&v, v.len()));
        Ok(self)
    }
    fn panic_borrowed(self: Box<Self>) {
        let _ = guarded(move || {
            let s = self;
            let (a, b) = (s.0.borrow(), s.0.borrow());
            if a.len() + b.len() < usize::MAX {
                panic!("while borrowed");
            }
        });
    }
}

macro_rules! locked {
    ($t:ident, $m:ty) => {
        struct $t($m);
        impl Holder for $t {
            fn get(&self) -> Option<Vec<u8>> {
                self.0.unlock().ok().map(|b| b.borrow().to_vec())
            }
            fn dup(&self) -> Option<Box<dyn Holder>> {
                Some(Box::new($t(self.0.clone())))
            }
            fn wipe(&mut self) -> bool {
                self.0.zeroize();
                true
            }
            fn refresh(&self) -> bool {
                Refresh::refresh(&self.0)
            }
            fn replace(self: Box<Self>, new: &[u8]) -> Result<Box<dyn Holder>, Box<dyn Holder>> {
                let b = Buffer::alloc(new, new.len());
                Ok(Box::new($t(self.0.update(b, new.len()).expect("update"))))
            }
            fn plain(&self) -> bool {
                stringify!($t) == "Ram"
            }
        }
    };
}

trait Refresh {
    fn refresh(&self) -> bool {
        false
    }
}
impl Refresh for RamMemory {}
impl Refresh for FileMemory {}
impl Refresh for NonContiguousMemory {
    fn refresh(&self) -> bool {
        NonContiguousMemory::refresh(self).is_ok()
    }
}

locked!(Ram, RamMemory);
locked!(File, FileMemory);
locked!(Nc, NonContiguousMemory);

/// Both fragments, the content divided between them.
struct Frags<T: Default + Clone>(Frag<T>, Frag<T>);

impl<const N: usize> Holder for Frags<[u8; N]>
where
    [u8; N]: Default,
{
    fn get(&self) -> Option<Vec<u8>> {
        if self.0.is_live() != self.0.get().is_ok() {
            panic!("a fragment is alive but refuses its data, or the other way round");
        }
        Some([self.0.get().ok()?.to_vec(), self.1.get().ok()?.to_vec()].concat())
    }
    fn dup(&self) -> Option<Box<dyn Holder>> {
        Some(Box::new(Frags(self.0.clone(), self.1.clone())))
    }
    fn wipe(&mut self) -> bool {
        self.0.zeroize();
        if self.0.set([7; N]).is_ok() {
            panic!("a zeroized fragment takes data");
        }
        self.1.zeroize();
        true
    }
    fn replace(mut self: Box<Self>, new: &[u8]) -> Result<Box<dyn Holder>, Box<dyn Holder>> {
        self.0.set(new[..N].try_into().unwrap()).expect("set");
        self.1.set(new[N..2 * N].try_into().unwrap()).expect("set");
        Ok(self)
    }
}

struct K(Key<Provider>);
impl Holder for K {
    fn get(&self) -> Option<Vec<u8>> {
        let b = self.0.key.borrow();
        (!b.is_empty()).then(|| b.to_vec())
    }
    fn dup(&self) -> Option<Box<dyn Holder>> {
        Some(Box::new(K(self.0.clone())))
    }
    fn wipe(&mut self) -> bool {
        self.0.key.zeroize();
        true
    }
    fn replace(mut self: Box<Self>, new: &[u8]) -> Result<Box<dyn Holder>, Box<dyn Holder>> {
        self.0 = Key::load(new.to_vec()).expect("a key of 32 bytes");
        Ok(self)
    }
}

struct Nk(NCKey<Provider>);
impl Holder for Nk {
    fn get(&self) -> Option<Vec<u8>> {
        self.0.key.unlock().ok().map(|b| b.borrow().to_vec())
    }
    fn dup(&self) -> Option<Box<dyn Holder>> {
        Some(Box::new(Nk(self.0.clone())))
    }
    fn wipe(&mut self) -> bool {
        self.0.key.zeroize();
        true
    }
    fn refresh(&self) -> bool {
        self.0.key.refresh().is_ok()
    }
    fn replace(mut self: Box<Self>, new: &[u8]) -> Result<Box<dyn Holder>, Box<dyn Holder>> {
        self.0 = NCKey::load(new.to_vec()).expect("a key of 32 bytes");
        Ok(self)
    }
    fn plain(&self) -> bool {
        false
    }
}

struct Kp(KeyProvider);
impl Holder for Kp {
    fn get(&self) -> Option<Vec<u8>> {
        self.0.try_unlock().ok().map(|b| b.borrow().to_vec())
    }
    fn dup(&self) -> Option<Box<dyn Holder>> {
        None
    }
    fn replace(self: Box<Self>, _: &[u8]) -> Result<Box<dyn Holder>, Box<dyn Holder>> {
        refuse(self)
    }
    fn plain(&self) -> bool {
        false
    }
}

/// The directory of the files behind file-backed shares.
pub fn locked_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("XDG_DATA_HOME").expect("XDG_DATA_HOME")).join(".locked_memories")
}

pub fn files() -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(locked_dir()).map(|d| d.map(|e| e.unwrap().path()).collect()).unwrap_or_default();
    v.sort();
    v
}

struct Backing {
    path: PathBuf,
    fd: std::fs::File,
    content: Vec<u8>,
}

struct Item {
    name: String,
    h: Option<Box<dyn Holder>>,
    secret: Vec<u8>,
    regions: Vec<Region>,
    files: Vec<Backing>,
    zeroized: bool,
}

struct Watch {
    /// what precedes data in guarded memory
    canary: Vec<u8>,
    seen_regions: u64,
    seen_files: u64,
    learned: u64,
}

impl Watch {
    /// Runs `f`; what it leaves mapped and on disk belongs to the holder made by it.
    fn making<T>(&mut self, f: impl FnOnce() -> T) -> (T, Vec<Region>, Vec<Backing>) {
        let (l0, f0) = (mh::live(), files());
        let r = f();
        let regions: Vec<Region> = mh::live().into_iter().filter(|x| !l0.contains(x)).collect();
        let fs: Vec<Backing> = files()
            .into_iter()
            .filter(|p| !f0.contains(p))
            .map(|path| {
                let fd = open_closed(&path);
                let content = read_fd(&fd);
                Backing { path, fd, content }
            })
            .collect();
        self.seen_regions += regions.len() as u64;
        self.seen_files += fs.len() as u64;
        (r, regions, fs)
    }

    /// The shares a holder keeps are as secret as what they make up.
    fn learn(&mut self, regions: &[Region]) {
        for c in mh::contents(regions) {
            match c.windows(16).position(|w| w == self.canary) {
                Some(at) => {
                    let d = &c[at + 16..];
                    if d.len() >= 32 {
                        mh::secret(&d[..32]);
                        self.learned += 1;
                    }
                }
                None => {
                    let t: Vec<usize> = (0..c.len()).filter(|i| c[*i] != 0).collect();
                    if let (Some(a), Some(b)) = (t.first(), t.last()) {
                        if b - a < 64 {
                            mh::secret(&c[*a..=*b]);
                            self.learned += 1;
                        }
                    }
                }
            }
        }
    }
}

/// Opens a file whatever its mode says (as root), read only.
fn open_closed(p: &PathBuf) -> std::fs::File {
    std::fs::File::open(p).expect("opening a backing file as root")
}

fn read_fd(f: &std::fs::File) -> Vec<u8> {
    let mut v = vec![0; 1 << 16];
    let n = unsafe { libc::pread(f.as_raw_fd(), v.as_mut_ptr().cast(), v.len(), 0) };
    v.truncate(n.max(0) as usize);
    v
}

fn common(a: &[u8], b: &[u8]) -> bool {
    let ws: std::collections::HashSet<&[u8]> = a.windows(6).filter(|w| w.iter().any(|x| *x != 0)).collect();
    b.windows(6).any(|w| ws.contains(w))
}

/// A holder was released: nothing of it may be left in its memory and files.
fn released(it_name: &str, regions: &[Region], fs: &[Backing], how: &str) -> Result<(), String> {
    if let Some(e) = mh::found().first() {
        return Err(format!("{how} of {it_name}: {e}"));
    }
    if let Some(e) = mh::find_in(regions) {
        return Err(format!("{how} of {it_name}: a piece of the secret is still in memory {e}"));
    }
    for b in fs {
        if b.path.exists() {
            return Err(format!("{how} of {it_name}: the file behind it is still there"));
        }
        if common(&b.content, &read_fd(&b.fd)) {
            return Err(format!("{how} of {it_name}: the removed file still has its content"));
        }
    }
    Ok(())
}

fn make(rng: &mut Rng, w: &mut Watch) -> Item {
    let kind = rng.below(14);
    let n = match kind {
        0 | 3 | 4 => rng.pick(&[8usize, 9, 16, 31, 32, 33, 64, 100, 1000, 4080, 4096, 5000]).clone(),
        1 => 8 * rng.range(1, 40),
        2 => 32 * rng.range(1, 5),
        8 => 64,
        9 => 26,
        10 => 40,
        _ => 32,
    };
    let mut secret = rng.bytes(n);
    if rng.chance(1, 6) {
        // with a run of zero bytes at one end
        let k = n / 4;
        let z = if rng.chance(1, 2) { 0..k } else { n - k..n };
        secret[z].fill(0);
    }
    let s = &secret;
    let configs = [NCConfig::FullFile, NCConfig::FullRam, NCConfig::RamAndFile, NCConfig::FragAllocation(FragStrategy::Map), NCConfig::FragAllocation(FragStrategy::Hybrid), NCConfig::FragAllocation(FragStrategy::Direct)];
    let config = if rng.chance(1, 3) { rng.pick(&configs[3..]).clone() } else { rng.pick(&configs[..3]).clone() };
    let strategy = *rng.pick(&[FragStrategy::Map, FragStrategy::Map, FragStrategy::Hybrid, FragStrategy::Direct]);
    let mut name = String::new();
    let ((h, nm), regions, files) = w.making(|| -> (Box<dyn Holder>, String) {
        match kind {
            0 => (Box::new(Buf(Buffer::alloc(s, n))), "Buffer<u8>".into()),
            1 => {
                let v = of_bytes::<u64>(s);
                (Box::new(Buf(Buffer::alloc(&v, v.len()))), "Buffer<u64>".into())
            }
            2 => {
                let v = of_bytes::<[u8; 32]>(s);
                (Box::new(Buf(Buffer::alloc(&v, v.len()))), "Buffer<[u8; 32]>".into())
            }
            3 => (Box::new(Ram(RamMemory::alloc(s, n).unwrap())), "RamMemory".into()),
            4 => (Box::new(File(FileMemory::alloc(s, n).unwrap())), "FileMemory".into()),
            5..=7 => (Box::new(Nc(NonContiguousMemory::alloc(s, 32, config.clone()).unwrap())), format!("NonContiguousMemory {config:?}")),
            8 => {
                let (a, b) = Frag::alloc_initialized(strategy, <[u8; 32]>::try_from(&s[..32]).unwrap(), <[u8; 32]>::try_from(&s[32..]).unwrap()).unwrap();
                (Box::new(Frags(a, b)), format!("Frag<[u8; 32]> {strategy:?}"))
            }
            9 => {
                let (a, b) = Frag::alloc_initialized(strategy, <[u8; 13]>::try_from(&s[..13]).unwrap(), <[u8; 13]>::try_from(&s[13..]).unwrap()).unwrap();
                (Box::new(Frags(a, b)), format!("Frag<[u8; 13]> {strategy:?}"))
            }
            10 => {
                let (mut a, mut b) = Frag::<[u8; 20]>::alloc_default(strategy, 4096).unwrap();
                a.set(s[..20].try_into().unwrap()).unwrap();
                b.set(s[20..].try_into().unwrap()).unwrap();
                (Box::new(Frags(a, b)), format!("Frag<[u8; 20]> {strategy:?}"))
            }
            11 => (Box::new(K(Key::load(s.clone()).unwrap())), "Key".into()),
            12 => (Box::new(Nk(NCKey::load(s.clone()).unwrap())), "NCKey".into()),
            _ => (Box::new(Kp(KeyProvider::try_from(s.clone()).unwrap())), "KeyProvider".into()),
        }
    });
    name.push_str(&nm);
    mh::secret(&secret);
    if !h.plain() {
        w.learn(&regions);
    }
    Item { name, h: Some(h), secret, regions, files, zeroized: false }
}

fn case(ctx: &Ctx, rng: &mut Rng) -> Result<(), String> {
    mh::start();
    let mut w = Watch { canary: vec![], seen_regions: 0, seen_files: 0, learned: 0 };
    // what guarded memory looks like
    let probe = rng.bytes(32);
    let (b, regions, _) = w.making(|| Buffer::alloc(&probe, 32));
    for c in mh::contents(&regions) {
        if let Some(at) = c.windows(32).position(|x| x == &probe[..]) {
            if at >= 16 {
                w.canary = c[at - 16..at].to_vec();
            }
        }
    }
    drop(b);
    let mut items: Vec<Item> = vec![];
    let r = steps(ctx, rng, &mut w, &mut items);
    // everything goes
    let mut all: Vec<Region> = items.iter().flat_map(|i| i.regions.clone()).collect();
    all.extend(mh::live());
    let res = r.and_then(|()| {
        while let Some(mut i) = items.pop() {
            let h = i.h.take();
            drop(h);
            released(&i.name, &i.regions, &i.files, "dropping")?;
        }
        if let Some(e) = mh::find_in(&mh::live()) {
            return Err(format!("after everything was dropped there is a piece of a secret {e}"));
        }
        if !files().is_empty() {
            return Err("after everything was dropped there are files left".into());
        }
        Ok(())
    });
    let (_, mapped, unmapped) = mh::stop();
    ctx.rep.count("mappings made", mapped);
    ctx.rep.count("mappings given back and searched", unmapped);
    ctx.rep.count("regions of holders searched", w.seen_regions);
    ctx.rep.count("backing files followed", w.seen_files);
    ctx.rep.count("shares learned", w.learned);
    res
}

fn steps(ctx: &Ctx, rng: &mut Rng, w: &mut Watch, items: &mut Vec<Item>) -> Result<(), String> {
    for _ in 0..rng.range(4, 16) {
        if items.is_empty() || items.len() < 3 && rng.chance(1, 3) {
            let i = make(rng, w);
            items.push(i);
            continue;
        }
        let k = rng.below(items.len());
        let how;
        let name = items[k].name.clone();
        match rng.below(9) {
            0 | 1 => {
                // use
                let it = &items[k];
                let (got, regions, fs) = w.making(|| it.h.as_ref().unwrap().get());
                match (&got, it.zeroized) {
                    (Some(v), false) if *v == it.secret => {}
                    (None, true) => {}
                    (Some(_), true) => return Err(format!("a zeroized {name} hands out data")),
                    _ => return Err(format!("{name} does not give its secret back")),
                }
                how = "use";
                if !regions.is_empty() || !fs.is_empty() {
                    // shares have been exchanged
                    let it = &mut items[k];
                    let old = (std::mem::take(&mut it.regions), std::mem::take(&mut it.files));
                    let gone = old.0.iter().all(|r| !mh::live().contains(r));
                    if it.h.as_ref().unwrap().plain() || !gone {
                        return Err(format!("using {name} leaves memory behind"));
                    }
                    it.regions = regions;
                    it.files = fs;
                    released(&name, &old.0, &old.1, "exchanging the shares")?;
                    let r = it.regions.clone();
                    w.learn(&r);
                }
            }
            2 => {
                if items[k].zeroized || items.len() >= 5 {
                    continue;
                }
                let it = &items[k];
                let (d, regions, files) = w.making(|| it.h.as_ref().unwrap().dup());
                let Some(d) = d else { continue };
                let n = Item { name: format!("a clone of {name}"), h: Some(d), secret: it.secret.clone(), regions, files, zeroized: false };
                if !n.h.as_ref().unwrap().plain() {
                    w.learn(&n.regions);
                }
                items.push(n);
                how = "clone";
            }
            3 => {
                if items[k].zeroized {
                    continue;
                }
                let it = &mut items[k];
                let (done, regions, fs) = w.making(|| it.h.as_ref().unwrap().refresh());
                if !done {
                    continue;
                }
                let old = (std::mem::replace(&mut it.regions, regions), std::mem::replace(&mut it.files, fs));
                released(&name, &old.0, &old.1, "refreshing the shares")?;
                let r = it.regions.clone();
                w.learn(&r);
                how = "refresh";
            }
            4 => {
                if items[k].zeroized {
                    continue;
                }
                let it = &mut items[k];
                let new = rng.bytes(it.secret.len());
                let h = it.h.take().unwrap();
                let (r, regions, fs) = w.making(|| h.replace(&new));
                match r {
                    Err(h) => {
                        it.h = Some(h);
                        continue;
                    }
                    Ok(h) => it.h = Some(h),
                }
                let in_place = regions.is_empty() && fs.is_empty();
                if in_place {
                    let r = it.regions.clone();
                    released(&name, &r, &[], "replacing the content")?;
                } else {
                    let old = (std::mem::replace(&mut it.regions, regions), std::mem::replace(&mut it.files, fs));
                    released(&name, &old.0, &old.1, "replacing the content")?;
                }
                it.secret = new;
                mh::secret(&it.secret);
                if !it.h.as_ref().unwrap().plain() {
                    let r = it.regions.clone();
                    w.learn(&r);
                }
                how = "replace";
            }
            5 | 6 => {
                let it = &mut items[k];
                if !it.h.as_mut().unwrap().wipe() {
                    continue;
                }
                it.zeroized = true;
                how = "zeroize";
                released(&name, &it.regions, &it.files, how)?;
                if it.h.as_ref().unwrap().get().is_some() {
                    return Err(format!("a zeroized {name} hands out data"));
                }
                if it.h.as_ref().unwrap().refresh() {
                    return Err(format!("a zeroized {name} can be refreshed"));
                }
            }
            7 => {
                let mut it = items.swap_remove(k);
                let h = it.h.take().unwrap();
                if rng.chance(1, 2) {
                    drop(h);
                    how = "dropping";
                } else {
                    std::thread::spawn(move || drop(h)).join().map_err(|_| "dropping in another thread panicked")?;
                    how = "dropping in another thread";
                }
                released(&name, &it.regions, &it.files, how)?;
            }
            _ => {
                let mut it = items.swap_remove(k);
                let h = it.h.take().unwrap();
                // a use may exchange the shares before the panic
                let (_, _, fs) = w.making(|| h.panic_borrowed());
                how = "unwinding";
                released(&name, &it.regions, &it.files, how)?;
                if !fs.is_empty() {
                    return Err(format!("unwinding of {name}: files are left"));
                }
            }
        }
        for it in items.iter() {
            // what happens to one does not touch the others
            if !it.zeroized && it.h.as_ref().unwrap().plain() && rng.chance(1, 2) && it.h.as_ref().unwrap().get().as_ref() != Some(&it.secret) {
                return Err(format!("{how} of {name} changed {}", it.name));
            }
        }
        ctx.rep.count(&format!("{how} of {}", name.trim_start_matches("a clone of ").split(' ').next().unwrap()), 1);
        ctx.rep.eval(Some(fnv(format!("{how}{name}{}{:?}", items.len(), items.iter().map(|i| (&i.name, i.zeroized, i.secret.len())).collect::<Vec<_>>()).as_bytes())));
        ctx.rep.seen("holder and release", fnv(format!("{how}{name}").as_bytes()));
    }
    Ok(())
}

/// A passphrase that knows what became of it.
struct Pass(std::sync::Arc<std::sync::Mutex<Vec<u8>>>, Vec<u8>);

impl AsRef<[u8]> for Pass {
    fn as_ref(&self) -> &[u8] {
        &self.1
    }
}

impl Zeroize for Pass {
    fn zeroize(&mut self) {
        self.1.zeroize();
        self.0.lock().unwrap().zeroize();
    }
}

/// A passphrase given away to make a key is erased by then, also if no key can be made of it.
fn passphrase(ctx: &Ctx, rng: &mut Rng) -> Result<(), String> {
    let n = *rng.pick(&[1, 8, 31, 32, 33, 100]);
    let given = |v: Vec<u8>| {
        let log = std::sync::Arc::new(std::sync::Mutex::new(v.clone()));
        (log.clone(), Pass(log, v))
    };
    let (log, p) = given((0..n).map(|_| 1 + rng.below(255) as u8).collect());
    let (mut salted, mut made) = (None, true);
    let how = if rng.chance(1, 20) { 4 + rng.below(2) } else { rng.below(4) };
    let r = match how {
        0 => KeyProvider::with_passphrase_truncated(p).is_ok(),
        1 => KeyProvider::with_passphrase_hashed_blake2b(p).is_ok(),
        2 => KeyProvider::with_passphrase_hashed(p, crypto::hashes::sha::Sha256::default()).is_ok(),
        3 => {
            // a digest of a length that is not that of a key
            made = false;
            if rng.chance(1, 2) {
                KeyProvider::with_passphrase_hashed(p, crypto::hashes::sha::Sha512::default()).is_ok()
            } else {
                KeyProvider::with_passphrase_hashed(p, crypto::hashes::sha::Sha384::default()).is_ok()
            }
        }
        _ => {
            // a salt of less than eight bytes is refused
            made = how == 4;
            let n = if made { rng.range(8, 40) } else { rng.range(1, 7) };
            let (slog, salt) = given((0..n).map(|_| 1 + rng.below(255) as u8).collect());
            salted = Some(slog);
            KeyProvider::with_passphrase_hashed_argon2(p, salt).is_ok()
        }
    };
    if r != made {
        return Err(format!("a key provider from {n} bytes ({how}): {r}, expected {made}"));
    }
    if log.lock().unwrap().iter().any(|x| *x != 0) {
        return Err(format!("a passphrase is not erased {} ({how})", if r { "after a key was made of it" } else { "though no key could be made of it" }));
    }
    if salted.map_or(false, |s| s.lock().unwrap().iter().any(|x| *x != 0)) {
        return Err(format!("a salt is not erased, a key was made: {r}"));
    }
    ctx.rep.count(if r { "passphrases followed" } else { "passphrases followed that no key could be made of" }, 1);
    ctx.rep.seen("ways to make a key", how as u64);
    Ok(())
}

pub fn erase(ctx: &Ctx) {
    let n = ctx.n(4000, 200_000);
    ctx.cases("erase", n, 1, |ctx, i, rng| {
        if let Err(e) = passphrase(ctx, rng).and_then(|()| case(ctx, rng)) {
            ctx.rep.violation("erase", json!({"case": i, "what": e}));
        }
    });
}
