//! C19 and C17: file- and RAM-backed shares and what is composed of them.
use crate::erase::{files, locked_dir};
use crate::guard::Pipe;
use crate::io;
use crate::leak::Needles;
use crate::memhook as mh;
use crate::util::*;
use runtime::locked_memory::LockedMemory;
use runtime::memories::buffer::Buffer;
use runtime::memories::file_memory::FileMemory;
use runtime::memories::frag::FragStrategy;
use runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use runtime::memories::ram_memory::RamMemory;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::MetadataExt;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use zeroize::Zeroize;

/// Gives up the rights of root for good; what the process writes to has to belong to the other user before.
pub fn become_user(ctx: &Ctx) {
    let dirs = ["HOME", "XDG_DATA_HOME", "TMPDIR", "STRONGHOLD"].map(|k| std::env::var(k).unwrap_or_default());
    let out = PathBuf::from(&ctx.out);
    let mut all: Vec<PathBuf> = dirs.iter().map(PathBuf::from).collect();
    all.push(ctx.scratch.clone());
    all.push(out.parent().unwrap().to_path_buf());
    for d in all.iter().filter(|d| d.is_dir()) {
        std::os::unix::fs::chown(d, Some(65534), Some(65534)).expect("chown");
    }
    unsafe {
        assert_eq!(libc::setgroups(0, std::ptr::null()), 0);
        assert_eq!(libc::setresgid(65534, 65534, 65534), 0);
        assert_eq!(libc::setresuid(65534, 65534, 65534), 0);
        // own memory stays inspectable
        libc::prctl(libc::PR_SET_DUMPABLE, 1, 0, 0, 0);
    }
}

/// What was seen wrong with the files between the steps of an operation.
static BAD: Mutex<Option<String>> = Mutex::new(None);

/// After every file operation of the process: no file of the directory may be open to others, or hold what is hidden.
fn watch_files(root: bool, hidden: Arc<Mutex<Needles>>) {
    *io::HOOK.lock().unwrap() = Some(Box::new(move |op| {
        for f in files() {
            let Ok(m) = std::fs::symlink_metadata(&f) else { continue };
            let mut b = BAD.lock().unwrap();
            if m.mode() & 0o077 != 0 {
                b.get_or_insert(format!("after {} {} the backing file has the mode {:o}", op.kind, op.what, m.mode() & 0o7777));
            }
            if root {
                if let Ok(c) = std::fs::read(&f) {
                    if let Some((at, how)) = hidden.lock().unwrap().find(&c) {
                        b.get_or_insert(format!("after {} {} the backing file contains the data in the clear at {at} ({how})", op.kind, op.what));
                    }
                }
            }
        }
    }));
}

enum Share {
    F(FileMemory),
    R(RamMemory),
}

impl Share {
    fn alloc(file: bool, d: &[u8]) -> Result<Share, String> {
        Ok(if file { Share::F(FileMemory::alloc(d, d.len()).map_err(|e| e.to_string())?) } else { Share::R(RamMemory::alloc(d, d.len()).map_err(|e| e.to_string())?) })
    }
    fn file(&self) -> bool {
        matches!(self, Share::F(_))
    }
    fn unlock(&self) -> Result<Vec<u8>, String> {
        let b = match self {
            Share::F(f) => f.unlock(),
            Share::R(r) => r.unlock(),
        };
        b.map(|b| b.borrow().to_vec()).map_err(|e| e.to_string())
    }
    fn dup(&self) -> Share {
        match self {
            Share::F(f) => Share::F(f.clone()),
            Share::R(r) => Share::R(r.clone()),
        }
    }
    fn update(self, d: &[u8]) -> Result<Share, String> {
        let b = Buffer::alloc(d, d.len());
        Ok(match self {
            Share::F(f) => Share::F(f.update(b, d.len()).map_err(|e| e.to_string())?),
            Share::R(r) => Share::R(r.update(b, d.len()).map_err(|e| e.to_string())?),
        })
    }
    fn zeroize(&mut self) {
        match self {
            Share::F(f) => f.zeroize(),
            Share::R(r) => r.zeroize(),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Share::F(f) => bincode::serialize(f),
            Share::R(r) => bincode::serialize(r),
        }
        .expect("serialize")
    }
    fn parse(&self, b: &[u8]) -> Share {
        match self {
            Share::F(_) => Share::F(bincode::deserialize(b).expect("deserialize")),
            Share::R(_) => Share::R(bincode::deserialize(b).expect("deserialize")),
        }
    }
}

struct Held {
    s: Share,
    want: Vec<u8>,
    live: bool,
    file: Option<PathBuf>,
    regions: Vec<mh::Region>,
}

fn data(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => 1,
        1 => *rng.pick(&[7, 8, 15, 16, 17, 31, 33, 4079, 4080, 4095, 4096, 4097, 8192, 65536, 100_000]),
        2 => rng.range(1, 3000),
        _ => rng.range(1, 64),
    };
    match rng.below(6) {
        0 => vec![0; n],
        1 => vec![*rng.pick(&[0xFF, 0x41, 0x80]); n],
        2 => {
            let mut v = rng.bytes(n);
            let z = n / 2;
            v[z..].fill(0);
            v
        }
        _ => rng.bytes(n),
    }
}

struct World<'a> {
    root: bool,
    ctx: &'a Ctx,
    held: Vec<Held>,
    hidden: Arc<Mutex<Needles>>,
    /// pieces of file contents seen so far
    noise: HashSet<u64>,
    p: Pipe,
}

impl World<'_> {
    /// Runs an operation with its file operations observed.
    fn op<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        let (r, _) = io::observe(io::Plan::Watch, false, || guarded(f));
        if let Some(b) = BAD.lock().unwrap().take() {
            return Err(b);
        }
        r.map_err(|e| format!("panic: {e}"))
    }

    /// Takes in a new share with what belongs to it.
    fn add(&mut self, what: &str, want: Vec<u8>, f: impl FnOnce() -> Result<Share, String>, copy: bool) -> Result<(), String> {
        let (f0, l0) = (files(), mh::live());
        {
            let mut h = self.hidden.lock().unwrap();
            h.add(&want);
        }
        let s = self.op(f)?.map_err(|e| format!("{what} of {} bytes: {e}", want.len()))?;
        let new: Vec<PathBuf> = files().into_iter().filter(|p| !f0.contains(p)).collect();
        if new.len() != s.file() as usize {
            return Err(format!("{what}: {} new files for a share {}", new.len(), if s.file() { "in a file" } else { "in memory" }));
        }
        if let (Some(p), true) = (new.first(), self.root) {
            let c = std::fs::read(p).map_err(|e| e.to_string())?;
            if c.len() >= 8 && c == want {
                return Err(format!("{what}: the file holds the data itself"));
            }
            // what is in the file looks random and does not repeat
            if !copy {
                for w in c.windows(8).step_by(8).take(64) {
                    if !self.noise.insert(u64::from_be_bytes(w.try_into().unwrap())) {
                        return Err(format!("{what}: the file repeats what was in a file before"));
                    }
                }
                self.ctx.rep.count("pieces of file contents compared", (c.len() / 8).min(64) as u64);
            }
        }
        let regions = mh::live().into_iter().filter(|x| !l0.contains(x)).collect();
        self.held.push(Held { s, want, live: true, file: new.first().cloned(), regions });
        Ok(())
    }

    fn check(&self, what: &str, rng: &mut Rng) -> Result<(), String> {
        let mut want: Vec<PathBuf> = self.held.iter().filter(|h| h.live).filter_map(|h| h.file.clone()).collect();
        want.sort();
        let have = files();
        if want != have {
            return Err(format!("after {what}: {} files for {} shares in files", have.len(), want.len()));
        }
        for f in &have {
            let m = std::fs::symlink_metadata(f).map_err(|e| e.to_string())?;
            if m.mode() & 0o777 != 0 {
                return Err(format!("after {what}: the file can be accessed, mode {:o}", m.mode() & 0o7777));
            }
            if !self.root && (std::fs::read(f).is_ok() || std::fs::OpenOptions::new().write(true).open(f).is_ok()) {
                return Err(format!("after {what}: the file can be opened"));
            }
            if m.nlink() != 1 {
                return Err(format!("after {what}: the file has {} names", m.nlink()));
            }
        }
        for h in &self.held {
            if rng.chance(1, 2) {
                for _ in 0..rng.range(1, 2) {
                    let r = self.op(|| h.s.unlock())?;
                    match r {
                        Ok(v) if h.live && v == h.want => {}
                        Err(_) if !h.live => {}
                        Ok(_) if h.live => return Err(format!("after {what}: a share of {} bytes gives other data", h.want.len())),
                        Ok(_) => return Err(format!("after {what}: a released share gives data")),
                        Err(e) => return Err(format!("after {what}: a share of {} bytes gives {e}", h.want.len())),
                    }
                    self.ctx.rep.count("data compared", 1);
                }
            }
            // shares in memory are closed
            if h.live && !h.s.file() {
                for c in &h.regions {
                    let (a, n, _) = *c;
                    if mh::live().contains(c) {
                        for at in [a + n / 2, a + n - 1, a + 4096.min(n - 1)] {
                            if self.p.readable(at) && find(at, &h.want) {
                                return Err(format!("after {what}: the data can be read in memory"));
                            }
                        }
                        self.ctx.rep.count("regions probed", 1);
                    }
                }
                if h.want.len() >= 8 {
                    let raw = mh::contents(&h.regions).concat();
                    if !raw.windows(h.want.len()).any(|w| w == h.want) {
                        // it may well be masked
                        self.ctx.rep.count("masked in memory", 1);
                    }
                    for (a, n, _) in &h.regions {
                        for page in (*a..a + n).step_by(4096) {
                            if self.p.readable(page) && mh::peek(page, 4096).is_some_and(|v| h.want.len() >= 8 && v.windows(8).any(|w| w == &h.want[..8] && w.iter().any(|x| *x != w[0]))) {
                                return Err(format!("after {what}: the data can be read in memory"));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn find(at: usize, want: &[u8]) -> bool {
    let page = at & !4095;
    want.len() >= 8 && mh::peek(page, 4096).is_some_and(|v| v.windows(8).any(|w| w == &want[..8] && w.iter().any(|x| *x != w[0])))
}

fn case(ctx: &Ctx, rng: &mut Rng, root: bool) -> Result<(), String> {
    mh::start();
    let hidden = Arc::new(Mutex::new(Needles::default()));
    watch_files(root, hidden.clone());
    let mut w = World { root, ctx, held: vec![], hidden, noise: HashSet::new(), p: Pipe::new() };
    let r = steps(&mut w, rng);
    *io::HOOK.lock().unwrap() = None;
    drop(w);
    mh::stop();
    r?;
    if !files().is_empty() {
        return Err("files are left after all shares were released".into());
    }
    Ok(())
}

fn steps(w: &mut World, rng: &mut Rng) -> Result<(), String> {
    if FileMemory::alloc(&[], 0).is_ok() || RamMemory::alloc(&[], 0).is_ok() {
        return Err("a share of nothing".into());
    }
    for _ in 0..rng.range(4, 18) {
        let what;
        if w.held.len() < 6 && (w.held.is_empty() || rng.chance(1, 4)) {
            let (d, file) = (data(rng), rng.chance(2, 3));
            let d2 = d.clone();
            w.add("alloc", d, || Share::alloc(file, &d2), false)?;
            what = "alloc";
        } else {
            let k = rng.below(w.held.len());
            match rng.below(8) {
                0 | 1 if w.held[k].live && w.held.len() < 8 => {
                    let want = w.held[k].want.clone();
                    let h = w.held.swap_remove(k);
                    let r = w.add("clone", want, || Ok(h.s.dup()), true);
                    w.held.push(h);
                    r?;
                    what = "clone";
                }
                2 if w.held[k].live => {
                    let h = w.held.swap_remove(k);
                    let d = data(rng);
                    let d2 = d.clone();
                    let Held { s, regions, .. } = h;
                    let l0 = regions.clone();
                    let old = h.file;
                    let s = w.op(|| s.update(&d2))?.map_err(|e| format!("update: {e}"))?;
                    // found again by what is new
                    let known: Vec<PathBuf> = w.held.iter().filter_map(|h| h.file.clone()).collect();
                    let file = files().into_iter().find(|f| !known.contains(f));
                    if s.file() && file.is_none() || old.is_some_and(|o| file.as_ref() != Some(&o) && o.exists()) {
                        return Err("update: the old file is still there or there is no new one".into());
                    }
                    let taken: HashSet<mh::Region> = w.held.iter().flat_map(|h| h.regions.iter().copied()).collect();
                    let regions = mh::live().into_iter().filter(|x| !taken.contains(x) && !l0.contains(x)).collect();
                    w.hidden.lock().unwrap().add(&d);
                    w.held.push(Held { s, want: d, live: true, file, regions });
                    what = "update";
                }
                3 => {
                    let mut h = w.held.swap_remove(k);
                    w.op(|| h.s.zeroize())?;
                    if h.file.take().is_some_and(|f| f.exists()) {
                        return Err("zeroize: the file is still there".into());
                    }
                    h.live = false;
                    w.held.push(h);
                    what = "zeroize";
                }
                4 => {
                    let h = w.held.swap_remove(k);
                    let Held { s, file, .. } = h;
                    w.op(|| drop(s))?;
                    if file.is_some_and(|f| f.exists()) {
                        return Err("drop: the file is still there".into());
                    }
                    what = "drop";
                }
                5 if w.held[k].live && w.held[k].want.len() < 5000 => {
                    let h = w.held.swap_remove(k);
                    let want = h.want.clone();
                    let b = w.op(|| h.s.bytes())?;
                    let r = w.add("deserialize", want, || Ok(h.s.parse(&b)), false);
                    w.held.push(h);
                    r?;
                    what = "deserialize";
                }
                6 if w.held[k].live => {
                    // several threads at once
                    let h = &w.held[k];
                    let bad = Mutex::new(None::<String>);
                    w.op(|| {
                        std::thread::scope(|s| {
                            for _ in 0..3 {
                                s.spawn(|| {
                                    for i in 0..12 {
                                        let r = guarded(|| {
                                            if i % 4 == 3 {
                                                h.s.dup().unlock()
                                            } else {
                                                h.s.unlock()
                                            }
                                        });
                                        match r {
                                            Ok(Ok(v)) if v == h.want => {}
                                            Ok(Ok(_)) => drop(bad.lock().unwrap().insert("other data".to_string())),
                                            Ok(Err(e)) | Err(e) => drop(bad.lock().unwrap().insert(e)),
                                        }
                                    }
                                });
                            }
                        })
                    })?;
                    if let Some(e) = bad.into_inner().unwrap() {
                        return Err(format!("used by three threads at once a share gives {e}"));
                    }
                    w.ctx.rep.count("concurrent uses", 36);
                    what = "threads";
                }
                7 if w.held[k].live && w.held[k].s.file() => {
                    // a file operation fails: an error, or the data
                    let h = &w.held[k];
                    let plan = io::Plan::Fail { at: rng.below(8), errno: *rng.pick(&[libc::EIO, libc::EMFILE, libc::EACCES, libc::ENOSPC]), sticky: false };
                    let (r, _) = io::observe(plan, false, || guarded(|| h.s.unlock()));
                    match r {
                        Ok(Ok(v)) if v != h.want => return Err("after a failed file operation a share gives other data".into()),
                        Err(e) => return Err(format!("a failed file operation makes a share panic: {e}")),
                        _ => {}
                    }
                    // and it is closed again by the next use
                    let h = &w.held[k];
                    if h.s.unlock().ok().as_ref() != Some(&h.want) {
                        return Err("after a failed file operation a share does not give its data any more".into());
                    }
                    let d = data(rng);
                    let plan = match rng.below(2) {
                        0 => io::Plan::Fail { at: rng.below(8), errno: *rng.pick(&[libc::EIO, libc::ENOSPC]), sticky: false },
                        _ => io::Plan::Short { at: rng.below(8), keep: rng.below(d.len()) },
                    };
                    let (r, _) = io::observe(plan, false, || guarded(|| FileMemory::alloc(&d, d.len())));
                    match r {
                        Ok(Ok(f)) => {
                            if f.unlock().ok().map(|b| b.borrow().to_vec()) != Some(d) {
                                return Err("a share made while file operations failed does not give its data".into());
                            }
                        }
                        Ok(Err(_)) => {}
                        Err(e) => return Err(format!("a failed file operation makes the making of a share panic: {e}")),
                    }
                    if let Some(b) = BAD.lock().unwrap().take() {
                        return Err(b);
                    }
                    w.ctx.rep.count("file operations failed", 2);
                    what = "fault";
                }
                _ => continue,
            }
        }
        w.check(what, rng)?;
        w.ctx.rep.eval(Some(fnv(format!("{what}{}{:?}", w.root, w.held.iter().map(|h| (h.live, h.s.file(), h.want.len())).collect::<Vec<_>>()).as_bytes())));
        w.ctx.rep.seen("step", fnv(format!("{what}{:?}", w.held.iter().map(|h| (h.live, h.s.file())).collect::<Vec<_>>()).as_bytes()));
    }
    Ok(())
}

pub fn shares(ctx: &Ctx) {
    let root = ctx.arg(0) != Some("user");
    let _ = mh::peek(&ctx as *const _ as usize, 1);
    if !root {
        become_user(ctx);
    }
    let _ = locked_dir();
    ctx.cases("shares", ctx.n(3000, 300_000), 1, |ctx, i, rng| {
        if let Err(e) = case(ctx, rng, root) {
            ctx.rep.violation("shares", json!({"case": i, "user": !root, "what": e}));
        }
    });
}
