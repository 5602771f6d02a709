//! C18: fragments, compared with a model of what each of them holds and with the mappings of the process.
use crate::memhook as mh;
use crate::util::*;
use runtime::memories::frag::{Frag, FragStrategy};
use serde_json::json;
use std::cell::Cell;
use zeroize::Zeroize;

thread_local! {
    static ALIVE: Cell<i64> = const { Cell::new(0) };
}

/// Counts its instances and owns a block.
#[derive(Debug, PartialEq)]
struct Counted(Box<u64>);

impl Counted {
    fn new(x: u64) -> Self {
        ALIVE.with(|a| a.set(a.get() + 1));
        Counted(Box::new(x))
    }
}
impl Default for Counted {
    fn default() -> Self {
        Counted::new(0)
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Counted::new(*self.0)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        ALIVE.with(|a| a.set(a.get() - 1));
    }
}

macro_rules! aligned {
    ($($n:ident $a:literal $s:literal;)*) => {$(
        #[derive(Clone, Debug, PartialEq)]
        #[repr(align($a))]
        struct $n([u8; $s]);
        impl Default for $n { fn default() -> Self { $n([0; $s]) } }
        impl Value for $n { fn any(r: &mut Rng) -> Self { $n(r.array()) } }
    )*};
}
aligned! { A2 2 2; A16 16 48; A64 64 64; A256 256 512; A4096 4096 4096; Big 1 8191; Huge 8 100000; }

/// With a default that is not zero.
#[derive(Clone, Debug, PartialEq)]
struct Odd(u32, u8, [u16; 3]);
impl Default for Odd {
    fn default() -> Self {
        Odd(0xDEAD_BEEF, 7, [1, 2, 3])
    }
}

trait Value: Default + Clone + PartialEq + std::fmt::Debug + 'static {
    fn any(r: &mut Rng) -> Self;
}
macro_rules! values {
    ($($t:ty => $e:expr;)*) => {$(impl Value for $t { fn any(rng: &mut Rng) -> Self { let f: fn(&mut Rng) -> $t = $e; f(rng) } })*};
}
values! {
    u8 => |r| r.u64() as u8;
    u16 => |r| r.u64() as u16;
    u64 => |r| r.u64();
    u128 => |r| (r.u64() as u128) << 64 | 1;
    [u8; 32] => |r| r.array();
    [u64; 5] => |r| std::array::from_fn(|_| r.u64());
    (u8, u64, u8) => |r| (r.u64() as u8, r.u64(), r.u64() as u8);
    String => |r| hex(&{ let n = r.below(60); r.bytes(n) });
    Vec<u8> => |r| { let n = r.below(5000); r.bytes(n) };
    Odd => |r| Odd(r.u64() as u32, r.u64() as u8, [r.u64() as u16; 3]);
    Counted => |r| Counted::new(r.u64());
}

struct Slot<T: Value> {
    f: Frag<T>,
    want: Option<T>,
    addr: usize,
}

fn addr<T: Value>(f: &Frag<T>) -> usize {
    f.get().map_or(0, |r| r as *const T as usize)
}

fn place<T: Value>(f: &Frag<T>, slots: &[Slot<T>], what: &str) -> Result<usize, String> {
    let a = addr(f);
    let n = std::mem::size_of::<T>();
    let al = std::mem::align_of::<T>();
    if a == 0 || a % al != 0 {
        return Err(format!("{what}: a fragment at {a:x} for an alignment of {al}"));
    }
    if !mh::live().iter().any(|(lo, len, _)| *lo <= a && a + n <= lo + len) {
        return Err(format!("{what}: a fragment of {n} bytes is not within memory that was allocated"));
    }
    if slots.iter().any(|s| s.addr != 0 && s.addr < a + n && a < s.addr + n) {
        return Err(format!("{what}: two fragments overlap"));
    }
    Ok(a)
}

fn history<T: Value>(ctx: &Ctx, rng: &mut Rng) -> Result<(), String> {
    let ty = std::any::type_name::<T>();
    let before = ALIVE.with(|a| a.get());
    mh::start();
    let res = steps::<T>(ctx, rng, ty);
    let left = mh::live();
    let (_, made, gone) = mh::stop();
    ctx.rep.count("allocations made", made);
    ctx.rep.count("allocations given back", gone);
    res?;
    if !left.is_empty() {
        return Err(format!("{} allocations are left after all fragments of {ty} were released", left.len()));
    }
    let alive = ALIVE.with(|a| a.get()) - before;
    if alive != 0 {
        return Err(format!("{alive} values are left after all fragments were released"));
    }
    Ok(())
}

fn steps<T: Value>(ctx: &Ctx, rng: &mut Rng, ty: &str) -> Result<(), String> {
    let mut slots: Vec<Slot<T>> = vec![];
    let size = std::mem::size_of::<T>();
    for _ in 0..rng.range(5, 30) {
        let what: String;
        if slots.len() < 10 && (slots.is_empty() || rng.chance(1, 4)) {
            let s = *rng.pick(&[FragStrategy::Map, FragStrategy::Map, FragStrategy::Direct, FragStrategy::Hybrid]);
            let (a, b, wa, wb, d);
            if rng.chance(1, 2) {
                let (x, y) = (T::any(rng), T::any(rng));
                d = 0x1000;
                let r = Frag::alloc_initialized(s, x.clone(), y.clone());
                let Ok(p) = r else { return Err(format!("no fragments of {ty} by {s:?}")) };
                ((a, b), wa, wb) = (p, x, y);
                what = format!("alloc_initialized {s:?}");
            } else {
                d = *rng.pick(&[0, 1, 0x1000, 0xFFFF, 0x10_0000, 0x100_0000, 1 << 33, 1 << 46]);
                let n0 = mh::live().len();
                match Frag::alloc_default(s, d) {
                    Ok(p) => {
                        ((a, b), wa, wb) = (p, T::default(), T::default());
                        what = format!("alloc_default {s:?} {d:x}");
                    }
                    Err(_) if d > 0x1000 => {
                        if mh::live().len() != n0 {
                            return Err(format!("a refused allocation by {s:?} leaves memory behind"));
                        }
                        ctx.rep.count("distances refused", 1);
                        continue;
                    }
                    Err(e) => return Err(format!("no fragments of {ty} by {s:?} at a distance of {d:x}: {e}")),
                }
            }
            let aa = place(&a, &slots, &what)?;
            if aa.abs_diff(addr(&b)) < d {
                return Err(format!("{what}: fragments at a distance of {:x}", aa.abs_diff(addr(&b))));
            }
            slots.push(Slot { f: a, want: Some(wa), addr: aa });
            let ba = place(&b, &slots, &what)?;
            slots.push(Slot { f: b, want: Some(wb), addr: ba });
            ctx.rep.count("pairs allocated", 1);
        } else {
            let k = rng.below(slots.len());
            match rng.below(8) {
                0..=2 => {
                    let v = T::any(rng);
                    let s = &mut slots[k];
                    let r = s.f.set(v.clone());
                    if r.is_ok() != s.want.is_some() {
                        return Err(format!("writing to a fragment ({} alive): {r:?}", if s.want.is_some() { "it is" } else { "it is not" }));
                    }
                    if r.is_ok() {
                        s.want = Some(v);
                    }
                    what = "set".into();
                }
                3 | 4 => {
                    if slots.len() >= 14 {
                        continue;
                    }
                    let s = &slots[k];
                    let c = s.f.clone();
                    let want = s.want.clone();
                    let at = if want.is_some() { place(&c, &slots, "clone")? } else { 0 };
                    slots.push(Slot { f: c, want, addr: at });
                    what = "clone".into();
                }
                5 => {
                    let s = &mut slots[k];
                    s.f.zeroize();
                    s.want = None;
                    what = "zeroize".into();
                }
                6 => {
                    let mut s = slots.swap_remove(k);
                    let r = Frag::dealloc(&mut s.f);
                    if r.is_err() || s.f.get().is_ok() || s.f.set(T::any(rng)).is_ok() {
                        return Err("a fragment can be used after it was released".into());
                    }
                    what = "dealloc".into();
                }
                _ => {
                    let s = slots.swap_remove(k);
                    drop(s);
                    what = "drop".into();
                }
            }
        }
        for s in &slots {
            let got = s.f.get();
            if s.f.is_live() != s.want.is_some() {
                return Err(format!("after {what}: is_live gives {}", s.f.is_live()));
            }
            match (&got, &s.want) {
                (Ok(g), Some(w)) if *g == w => {
                    if addr(&s.f) != s.addr {
                        return Err(format!("after {what}: a fragment moved"));
                    }
                }
                (Err(_), None) => {}
                (Ok(_), _) => return Err(format!("after {what} of {ty}: a fragment holds another value")),
                (Err(e), _) => return Err(format!("after {what} of {ty}: {e}")),
            }
        }
        ctx.rep.count("fragments compared", slots.len() as u64);
        ctx.rep.eval(Some(fnv(format!("{what}{ty}{}{:?}", slots.len(), slots.iter().map(|s| s.want.is_some()).collect::<Vec<_>>()).as_bytes())));
        ctx.rep.seen("step and type", fnv(format!("{what}{ty}{size}").as_bytes()));
    }
    rng.shuffle(&mut slots);
    Ok(())
}

/// Threads allocate, clone and release at once.
fn threads(ctx: &Ctx, rng: &mut Rng) -> Result<(), String> {
    let (a, b) = Frag::<[u64; 5]>::alloc_initialized(FragStrategy::Map, [1; 5], [2; 5]).map_err(|e| e.to_string())?;
    let shared = std::sync::Arc::new((a, b));
    let hs: Vec<_> = (0..4)
        .map(|t| {
            let (shared, mut rng) = (shared.clone(), Rng::new(rng.u64(), t));
            std::thread::spawn(move || -> Result<(), String> {
                for _ in 0..30 {
                    let v: [u64; 5] = std::array::from_fn(|_| rng.u64());
                    let s = *rng.pick(&[FragStrategy::Map, FragStrategy::Map, FragStrategy::Hybrid]);
                    let (mut x, y) = Frag::alloc_initialized(s, v, [t; 5]).map_err(|e| e.to_string())?;
                    let c = shared.0.clone();
                    std::thread::yield_now();
                    x.set([9; 5]).map_err(|e| e.to_string())?;
                    if *c.get().unwrap() != [1; 5] || *y.get().unwrap() != [t; 5] || *x.get().unwrap() != [9; 5] || *shared.1.get().unwrap() != [2; 5] {
                        return Err("a fragment holds another value while other threads allocate".into());
                    }
                }
                Ok(())
            })
        })
        .collect();
    for h in hs {
        h.join().map_err(|_| "a thread panicked")??;
    }
    ctx.rep.eval(Some(rng.u64()));
    Ok(())
}

pub fn frags(ctx: &Ctx) {
    let n = ctx.n(4000, 400_000);
    ctx.cases("frags", n, 1, |ctx, i, rng| {
        let r = match rng.below(20) {
            0 => history::<u8>(ctx, rng),
            1 => history::<u16>(ctx, rng),
            2 => history::<u64>(ctx, rng),
            3 => history::<u128>(ctx, rng),
            4 => history::<[u8; 32]>(ctx, rng),
            5 => history::<[u64; 5]>(ctx, rng),
            6 => history::<(u8, u64, u8)>(ctx, rng),
            7 => history::<String>(ctx, rng),
            8 => history::<Vec<u8>>(ctx, rng),
            9 => history::<Odd>(ctx, rng),
            10 | 11 => history::<Counted>(ctx, rng),
            12 => history::<A2>(ctx, rng),
            13 => history::<A16>(ctx, rng),
            14 => history::<A64>(ctx, rng),
            15 => history::<A256>(ctx, rng),
            16 => history::<A4096>(ctx, rng),
            17 => history::<Big>(ctx, rng),
            18 => history::<Huge>(ctx, rng),
            _ => threads(ctx, rng),
        };
        if let Err(e) = r {
            ctx.rep.violation("frags", json!({"case": i, "what": e}));
        }
    });
}
