//! C24: transactions over shared variables. Every attempt is logged with what it read; an order of all of them,
//! failed attempts included, must exist.
use crate::jitter;
use crate::lin::{search, Event, Spec, Verdict};
use crate::util::*;
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use stm::stm::error::TxError;
use stm::stm::shared_value::SharedValue;
use stm::stm::stm::Stm;
use stm::stm::transaction::Transaction;
use stm::stm::tvar::TVar;

static CLOCK: AtomicU64 = AtomicU64::new(1);

fn now() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

/// Values of all types, made from a number and giving it back.
fn value(kind: usize, n: usize) -> SharedValue {
    let s = format!("value-{n}");
    match kind {
        0 => SharedValue::SharedUsize(n),
        1 => SharedValue::SharedString(s),
        2 => SharedValue::SharedVectorOfUsize(vec![n; 3]),
        3 => SharedValue::SharedVectorOfString(vec![s.clone(), s]),
        _ => SharedValue::SharedHashSetOfString([s, format!("also-{n}")].into()),
    }
}

fn text(s: &str) -> Option<usize> {
    s.strip_prefix("value-")?.parse().ok()
}

/// The number a value stands for; `None` for one that was never made.
fn number(tx: &mut dyn FnMut(usize) -> Result<SharedValue, TxError>, kind: usize) -> Result<Option<usize>, TxError> {
    let v = tx(kind)?;
    Ok(match &v {
        SharedValue::SharedUsize(n) => Some(*n),
        SharedValue::SharedString(s) => text(s),
        SharedValue::SharedVectorOfUsize(v) => (v.len() == 3 && v[0] == v[1] && v[1] == v[2]).then(|| v[0]),
        SharedValue::SharedVectorOfString(v) => (v.len() == 2 && v[0] == v[1]).then(|| text(&v[0])).flatten(),
        SharedValue::SharedHashSetOfString(s) => {
            let n = s.iter().find_map(|s| text(s));
            n.filter(|n| s.len() == 2 && s.contains(&format!("also-{n}")))
        }
    })
}

fn load(tx: &mut Transaction, v: &TVar, kind: usize) -> Result<Option<usize>, TxError> {
    number(
        &mut |k| {
            Ok(match k {
                0 => SharedValue::SharedUsize(tx.load(v)?),
                1 => SharedValue::SharedString(tx.load(v)?),
                2 => SharedValue::SharedVectorOfUsize(tx.load(v)?),
                3 => SharedValue::SharedVectorOfString(tx.load(v)?),
                _ => SharedValue::SharedHashSetOfString(tx.load::<HashSet<String>>(v)?),
            })
        },
        kind,
    )
}

fn peek(v: &TVar, kind: usize) -> Result<Option<usize>, TxError> {
    number(
        &mut |k| {
            Ok(match k {
                0 => SharedValue::SharedUsize(v.try_get_data()?),
                1 => SharedValue::SharedString(v.try_get_data()?),
                2 => SharedValue::SharedVectorOfUsize(v.try_get_data()?),
                3 => SharedValue::SharedVectorOfString(v.try_get_data()?),
                _ => SharedValue::SharedHashSetOfString(v.try_get_data::<HashSet<String>>()?),
            })
        },
        kind,
    )
}

#[derive(Clone, Debug)]
enum Step {
    Load(usize),
    Store(usize),
}

#[derive(Clone, Debug)]
enum Plan {
    /// the steps, whether read-only, how many attempts fail by their own choice, whether it panics at last
    Tx { steps: Vec<Step>, read_only: bool, fails: usize, panics: bool, ignore: bool },
    Peek(usize),
}

/// What an attempt read (not counting what it had written itself) and, if it was committed, wrote.
#[derive(Clone, Debug, Default)]
struct Attempt {
    reads: Vec<(usize, usize)>,
    writes: Vec<(usize, usize)>,
    how: &'static str,
    /// how the last attempt up to the next one logged ended
    last: &'static str,
}

struct Vars;

impl Spec for Vars {
    type State = Vec<usize>;
    type Op = Attempt;
    fn step(&self, s: &Vec<usize>, a: &Attempt, _: usize, _: u64) -> Vec<(Vec<usize>, Option<u64>)> {
        if a.reads.iter().any(|(v, n)| s[*v] != *n) {
            return vec![];
        }
        let mut s = s.clone();
        for (v, n) in &a.writes {
            s[*v] = *n;
        }
        vec![(s, None)]
    }
}

fn good(h: &[Vec<Event<Attempt>>], n: usize) -> bool {
    matches!(search(&Vars, (0..n).collect(), h, 10_000), Verdict::Order(_))
}

fn selftest() {
    let ev = |inv, ret, reads: &[(usize, usize)], writes: &[(usize, usize)]| Event {
        inv,
        ret,
        op: Attempt { reads: reads.to_vec(), writes: writes.to_vec(), ..Default::default() },
    };
    // a lost update, a mixture of two states, and a stale read after the end of the writer
    assert!(!good(&[vec![ev(1, 4, &[(0, 0)], &[(0, 10)])], vec![ev(2, 3, &[(0, 0)], &[(0, 11)])]], 2));
    assert!(!good(&[vec![ev(1, 4, &[], &[(0, 10), (1, 11)])], vec![ev(2, 3, &[(0, 10), (1, 1)], &[])]], 2));
    assert!(!good(&[vec![ev(1, 2, &[], &[(0, 10)])], vec![ev(3, 4, &[(0, 0)], &[])]], 2));
    assert!(good(&[vec![ev(1, 4, &[(0, 0)], &[(0, 10)])], vec![ev(2, 5, &[(0, 10)], &[(0, 11)])]], 2));
    // write skew
    assert!(!good(&[vec![ev(1, 4, &[(0, 0)], &[(1, 10)])], vec![ev(2, 3, &[(1, 1)], &[(0, 11)])]], 2));
}

thread_local! {
    /// what the attempts of the current transaction did, and how many there were
    static TRIES: RefCell<Vec<(u64, u64, Attempt)>> = const { RefCell::new(Vec::new()) };
    static TRIED: Cell<usize> = const { Cell::new(0) };
}

struct Shared {
    stm: Stm,
    vars: Vec<(TVar, usize)>,
    serial: AtomicU64,
    bad: Mutex<Vec<String>>,
    ids: Mutex<Vec<usize>>,
    repeated: AtomicU64,
}

impl Shared {
    fn bad(&self, s: String) {
        self.bad.lock().unwrap().push(s)
    }

    fn attempt(&self, tx: &mut Transaction, plan: &Plan) -> Result<(), TxError> {
        let Plan::Tx { steps, fails, panics, ignore, .. } = plan else { unreachable!() };
        let mut a = Attempt::default();
        let mut own: Vec<Option<usize>> = vec![None; self.vars.len()];
        let tries = TRIED.with(|t| t.replace(t.get() + 1));
        let inv = now();
        let mut res = Ok(());
        for s in steps {
            match s {
                Step::Load(v) => match load(tx, &self.vars[*v].0, self.vars[*v].1) {
                    Ok(n) => match (own[*v], n) {
                        (_, None) => self.bad(format!("variable {v} holds a value nobody made")),
                        (Some(w), Some(n)) if w != n => self.bad(format!("read {n} in variable {v} after writing {w} in the same transaction")),
                        (Some(_), _) => (),
                        (None, Some(n)) => a.reads.push((*v, n)),
                    },
                    Err(e) => {
                        if matches!(e, TxError::SharedValueWrongTypeConversion) {
                            self.bad(format!("variable {v} changed its type"));
                        }
                        if !ignore {
                            res = Err(e);
                            break;
                        }
                    }
                },
                Step::Store(v) => {
                    let n = self.serial.fetch_add(1, Ordering::Relaxed) as usize;
                    if let Err(e) = tx.store(&self.vars[*v].0, value(self.vars[*v].1, n)) {
                        res = Err(e);
                        break;
                    }
                    own[*v] = Some(n);
                }
            }
        }
        if res.is_ok() && tries < *fails {
            res = Err(TxError::Failed);
        }
        a.writes = own.iter().enumerate().filter_map(|(v, n)| n.map(|n| (v, n))).collect();
        let panic = *panics && tries >= *fails;
        a.how = if panic { "panicked" } else if res.is_ok() { "offered" } else { "failed" };
        TRIES.with(|t| {
            let mut t = t.borrow_mut();
            // an attempt that read the same as an earlier one of the transaction fits where that one does
            if a.how == "failed" && t.iter().any(|(_, _, b)| b.reads == a.reads) {
                self.repeated.fetch_add(1, Ordering::Relaxed);
                t.last_mut().unwrap().2.last = "failed";
            } else {
                a.last = a.how;
                t.push((inv, now(), a))
            }
        });
        if panic {
            std::panic::resume_unwind(Box::new("abort"));
        }
        res
    }

    /// Runs a transaction; returns its attempts, and the committed one at the end.
    fn call(&self, plan: &Plan) -> Vec<Event<Attempt>> {
        let inv = now();
        let Plan::Tx { read_only, panics, .. } = plan else {
            let Plan::Peek(v) = plan else { unreachable!() };
            let mut a = Attempt { how: "direct read", ..Default::default() };
            match peek(&self.vars[*v].0, self.vars[*v].1) {
                Ok(Some(n)) => a.reads.push((*v, n)),
                Ok(None) => self.bad(format!("variable {v} holds a value nobody made")),
                Err(TxError::SharedValueWrongTypeConversion) => self.bad(format!("variable {v} changed its type")),
                Err(_) => (),
            }
            return vec![Event { inv, ret: now(), op: a }];
        };
        TRIES.with(|t| t.borrow_mut().clear());
        TRIED.with(|t| t.set(0));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if *read_only {
                self.stm.read_only(|tx| self.attempt(tx, plan))
            } else {
                self.stm.read_write(|tx| self.attempt(tx, plan))
            }
        }));
        let ret = now();
        let tries = TRIES.with(|t| std::mem::take(&mut *t.borrow_mut()));
        let last = tries.len().saturating_sub(1);
        let committed = match &r {
            Ok(Ok(r)) => {
                self.ids.lock().unwrap().push(r.tx_id);
                if tries.last().map(|t| t.2.last) != Some("offered") {
                    self.bad("a transaction was committed though its last attempt failed".into());
                }
                true
            }
            Ok(Err(e)) => {
                self.bad(format!("a transaction ended with {e:?}"));
                false
            }
            Err(_) if *panics => false,
            Err(p) => {
                self.bad(format!("panic: {}", panic_msg(&**p)));
                false
            }
        };
        tries
            .into_iter()
            .enumerate()
            .map(|(k, (_, end, mut a))| {
                if k == last && committed {
                    a.how = "committed";
                    Event { inv, ret, op: a }
                } else {
                    a.writes.clear();
                    Event { inv, ret: end, op: a }
                }
            })
            .collect()
    }
}

pub fn stm(ctx: &Ctx) {
    selftest();
    let n = ctx.n(20_000, 1_000_000);
    let beat = Beat::start(ctx, "stm/stuck", std::time::Duration::from_secs(100));
    ctx.cases("transactions", n, 1, |ctx, i, rng| {
        let nv = rng.range(1, 4);
        let nt = rng.range(2, 5);
        let len = rng.range(1, 5);
        let sh = Arc::new(Shared {
            stm: Stm::default(),
            vars: vec![],
            serial: AtomicU64::new(100),
            bad: Default::default(),
            ids: Default::default(),
            repeated: AtomicU64::new(0),
        });
        let mut sh = Arc::try_unwrap(sh).ok().unwrap();
        for v in 0..nv {
            let k = rng.below(5);
            sh.vars.push((sh.stm.create(value(k, v)), k));
            if rng.chance(1, 3) {
                sh.stm.increment_clock();
            }
        }
        let sh = Arc::new(sh);
        let style = rng.below(4);
        let plans: Vec<Vec<Plan>> = (0..nt)
            .map(|_| {
                (0..len)
                    .map(|_| {
                        if rng.chance(1, 12) {
                            return Plan::Peek(rng.below(nv));
                        }
                        let read_only = rng.chance(1, 3);
                        let mut steps = vec![];
                        match style {
                            // everything read, then something written: the usual way
                            0 | 1 => {
                                let mut vs: Vec<usize> = (0..nv).collect();
                                rng.shuffle(&mut vs);
                                vs.truncate(rng.range(1, nv));
                                steps.extend(vs.iter().map(|v| Step::Load(*v)));
                                if !read_only {
                                    vs.truncate(rng.range(1, vs.len()));
                                    steps.extend(vs.iter().map(|v| Step::Store(*v)));
                                }
                            }
                            // one read, another written: skew
                            2 => {
                                let v = rng.below(nv);
                                steps.push(Step::Load(v));
                                if rng.chance(1, 2) {
                                    steps.push(Step::Load(rng.below(nv)));
                                }
                                if !read_only {
                                    steps.push(Step::Store((v + 1) % nv));
                                }
                            }
                            _ => {
                                for _ in 0..rng.range(1, 6) {
                                    let v = rng.below(nv);
                                    steps.push(if read_only || rng.chance(3, 5) { Step::Load(v) } else { Step::Store(v) });
                                }
                            }
                        }
                        Plan::Tx {
                            steps,
                            read_only,
                            fails: if rng.chance(1, 8) { rng.range(1, 2) } else { 0 },
                            panics: rng.chance(1, 16),
                            ignore: rng.chance(1, 16),
                        }
                    })
                    .collect()
            })
            .collect();
        let odds = *rng.pick(&[0, 2, 4, 10, 40]);
        let seed = rng.u64();
        beat.on(&format!("transactions case {i}"));
        let barrier = Arc::new(Barrier::new(nt));
        let hs: Vec<_> = plans
            .iter()
            .cloned()
            .enumerate()
            .map(|(t, plan)| {
                let (sh, barrier) = (sh.clone(), barrier.clone());
                std::thread::spawn(move || {
                    barrier.wait();
                    jitter::set(seed.wrapping_mul(2 * t as u64 + 3), odds);
                    // waiting for a lock ends after a second; so it does sooner
                    jitter::hurry(1000);
                    let log: Vec<Event<Attempt>> = plan.iter().flat_map(|p| sh.call(p)).collect();
                    (log, jitter::set(0, 0).1)
                })
            })
            .collect();
        let mut h = vec![];
        for t in hs {
            match t.join() {
                Ok((l, d)) => {
                    ctx.rep.count("delays inside transactions", d);
                    h.push(l)
                }
                Err(p) => sh.bad(format!("thread ended by a panic: {}", panic_msg(&*p))),
            }
        }
        // and the end: all variables, in a transaction and directly
        let all = Plan::Tx { steps: (0..nv).map(Step::Load).collect(), read_only: rng.chance(1, 2), fails: 0, panics: false, ignore: false };
        let mut tail = sh.call(&all);
        for v in 0..nv {
            tail.extend(sh.call(&Plan::Peek(v)));
        }
        h.push(tail);
        beat.on("");
        let attempts: usize = h.iter().map(|l| l.len()).sum();
        let count = |how: &str| h.iter().flatten().filter(|e| e.op.how == how).count() as u64;
        ctx.rep.count("attempts", attempts as u64);
        ctx.rep.count("failed attempts that repeated an earlier one", sh.repeated.load(Ordering::Relaxed));
        ctx.rep.count("transactions committed", count("committed"));
        ctx.rep.count("attempts given up on a conflict or by choice", count("failed"));
        ctx.rep.count("attempts rejected at the end", count("offered"));
        ctx.rep.count("transactions aborted by a panic", count("panicked"));
        let mut ev: Vec<(u64, usize)> = h.iter().enumerate().flat_map(|(t, l)| l.iter().flat_map(move |e| [(e.inv, t * 2), (e.ret, t * 2 + 1)])).collect();
        ev.sort_unstable();
        let shape: Vec<u8> = ev.iter().map(|e| e.1 as u8).chain(h.iter().flatten().map(|e| e.op.how.len() as u8)).collect();
        ctx.rep.eval(Some(fnv(&shape)));
        let show = |longest: &[usize]| {
            let calls: Vec<String> = h
                .iter()
                .enumerate()
                .flat_map(|(t, l)| l.iter().map(move |e| format!("thread {t} [{}..{}] {} reads {:?} writes {:?}", e.inv, e.ret, e.op.how, e.op.reads, e.op.writes)))
                .collect();
            json!({"initially": (0..nv).collect::<Vec<_>>(), "attempts": calls, "longest order found": longest})
        };
        for b in sh.bad.lock().unwrap().iter().take(2) {
            ctx.rep.violation("stm/attempt", json!({"case": i, "what": b, "history": show(&[])}));
        }
        let ids = sh.ids.lock().unwrap();
        if ids.iter().collect::<HashSet<_>>().len() != ids.len() {
            ctx.rep.violation("stm/ids", json!({"case": i, "identifiers of the transactions": *ids}));
        }
        // attempts that read nothing fit anywhere
        let thin: Vec<Vec<Event<Attempt>>> =
            h.iter().map(|l| l.iter().filter(|e| !e.op.reads.is_empty() || !e.op.writes.is_empty()).cloned().collect()).collect();
        match search(&Vars, (0..nv).collect(), &thin, 3_000_000) {
            Verdict::Order(_) => {
                if i < 2 {
                    ctx.rep.sample(json!({"history": show(&[])}));
                }
            }
            Verdict::TooLong => ctx.rep.count("searches given up", 1),
            Verdict::None { longest } => ctx.rep.violation("stm/order", json!({"case": i, "history": show(&longest)})),
        }
    });
}

/// Many short transactions of many threads: nothing is lost, and every transaction has its own number.
pub fn load_job(ctx: &Ctx) {
    let n = ctx.n(400, 20_000);
    let beat = Beat::start(ctx, "stm/stuck", std::time::Duration::from_secs(100));
    ctx.cases("many transactions", n, 1, |ctx, i, rng| {
        let nt = rng.range(2, 8);
        let per = rng.range(100, 600);
        let nv = rng.range(1, 6);
        let stm = Stm::default();
        let vars: Vec<TVar> = (0..nv).map(|_| stm.create(SharedValue::SharedUsize(1000))).collect();
        let barrier = Barrier::new(nt);
        beat.on(&format!("many transactions case {i}"));
        let seeds: Vec<u64> = (0..nt).map(|_| rng.u64()).collect();
        let one = rng.chance(1, 2);
        let bad = Mutex::new(vec![]);
        let added = AtomicU64::new(0);
        let ids: Vec<usize> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|seed| {
                    let (stm, vars, barrier, bad, added) = (stm.clone(), &vars, &barrier, &bad, &added);
                    s.spawn(move || {
                        let mut rng = Rng::new(*seed, 1);
                        jitter::hurry(1000);
                        barrier.wait();
                        let mut ids = vec![];
                        for _ in 0..per {
                            let (a, b) = (rng.below(nv), rng.below(nv));
                            let r = match rng.below(4) {
                                // a transfer
                                0 if !one && a != b => stm
                                    .read_write(|tx| {
                                        let (x, y): (usize, usize) = (tx.load(&vars[a])?, tx.load(&vars[b])?);
                                        tx.store(&vars[a], SharedValue::SharedUsize(x.wrapping_sub(1)))?;
                                        tx.store(&vars[b], SharedValue::SharedUsize(y.wrapping_add(1)))
                                    })
                                    .map(|r| r.tx_id),
                                // everything at once
                                1 if !one => stm
                                    .read_only(|tx| {
                                        vars.iter().try_fold(0usize, |s, v| Ok(s.wrapping_add(tx.load::<usize>(v)?)))
                                    })
                                    .map(|r| {
                                        if r.res != 1000 * nv {
                                            bad.lock().unwrap().push(format!("the sum of all was {}", r.res));
                                        }
                                        r.tx_id
                                    }),
                                _ if one => {
                                    let r = stm
                                        .read_write(|tx| {
                                            let x: usize = tx.load(&vars[a])?;
                                            tx.store(&vars[a], SharedValue::SharedUsize(x + 1))
                                        })
                                        .map(|r| r.tx_id);
                                    added.fetch_add(1, Ordering::SeqCst);
                                    r
                                }
                                _ => stm.read_only(|tx| tx.load::<usize>(&vars[a])).map(|r| r.tx_id),
                            };
                            match r {
                                Ok(id) => ids.push(id),
                                Err(e) => bad.lock().unwrap().push(format!("a transaction ended with {e:?}")),
                            }
                        }
                        ids
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        beat.on("");
        let sum = vars.into_iter().fold(0usize, |s, v| s.wrapping_add(v.take::<usize>().unwrap()));
        let want = 1000 * nv + added.load(Ordering::SeqCst) as usize;
        let mut bad = bad.into_inner().unwrap();
        if sum != want {
            bad.push(format!("the sum of all variables is {sum}, not {want}"));
        }
        let own = ids.iter().collect::<HashSet<_>>().len();
        if own != ids.len() {
            bad.push(format!("{} transactions have only {own} different identifiers", ids.len()));
        }
        ctx.rep.count("short transactions", ids.len() as u64);
        ctx.rep.eval(Some(fnv(format!("{nt} {per} {nv} {one}").as_bytes())));
        if let Some(b) = bad.first() {
            let key = if b.contains("identifiers") { "stm/ids" } else { "stm/load" };
            ctx.rep.violation(key, json!({"case": i, "threads": nt, "what": b}));
        }
    });
}
