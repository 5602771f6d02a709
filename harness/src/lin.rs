//! C15: what several threads see of a client, or of the clients of an instance, must fit some one-at-a-time order of
//! their calls that respects real time. The calls are logged with the moments they began and ended; the order is
//! searched for afterwards, call by call, with a model (a call may have several steps, each at one moment).
use crate::common::*;
use crate::jitter;
use crate::mach::{fmt, loc, Rec, L, RP};
use crate::util::*;
use crypto::hashes::sha::SHA256_LEN;
use crypto::macs::hmac::HMAC_SHA256;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::Hash;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

/// A call in the log.
#[derive(Clone, Debug)]
pub struct Event<O> {
    pub inv: u64,
    pub ret: u64,
    pub op: O,
}

pub trait Spec {
    type State: Clone + Eq + Hash;
    type Op: Clone;
    /// The ways a step of the call can go on from a state, with what was logged; `None` when the call is complete.
    /// `id` names the call.
    fn step(&self, s: &Self::State, op: &Self::Op, id: usize, pc: u64) -> Vec<(Self::State, Option<u64>)>;
}

pub enum Verdict {
    Order(Vec<usize>),
    None { longest: Vec<usize> },
    TooLong,
}

/// Looks for an order. Every thread's calls are in the order it made them.
pub fn search<S: Spec>(spec: &S, init: S::State, threads: &[Vec<Event<S::Op>>], limit: usize) -> Verdict {
    let base: Vec<usize> = threads.iter().scan(0, |a, t| Some(std::mem::replace(a, *a + t.len()))).collect();
    type Node<T> = (Vec<(usize, u64, bool)>, T);
    let mut seen: HashSet<Node<S::State>> = HashSet::new();
    let mut longest: Vec<usize> = vec![];
    // depth first, with the order so far
    let start: Node<S::State> = (vec![(0, 0, false); threads.len()], init);
    let mut stack = vec![(start, vec![])];
    while let Some(((pos, st), order)) = stack.pop() {
        if order.len() > longest.len() {
            longest = order.clone();
        }
        if pos.iter().zip(threads).all(|(p, t)| p.0 == t.len()) {
            return Verdict::Order(order);
        }
        if seen.len() > limit {
            return Verdict::TooLong;
        }
        for (t, evs) in threads.iter().enumerate() {
            let (i, pc, begun) = pos[t];
            let Some(e) = evs.get(i) else { continue };
            // a call may begin only after those that ended before it
            if !begun && pos.iter().zip(threads).any(|(p, evs)| evs.get(p.0).is_some_and(|o| o.ret < e.inv)) {
                continue;
            }
            for (s2, next) in spec.step(&st, &e.op, base[t] + i, pc) {
                let mut p2 = pos.clone();
                let mut o2 = order.clone();
                match next {
                    Some(pc2) => p2[t] = (i, pc2, true),
                    None => {
                        p2[t] = (i + 1, 0, false);
                        o2.push(base[t] + i);
                    }
                }
                let node = (p2, s2);
                if seen.insert(node.clone()) {
                    stack.push((node, o2));
                }
            }
        }
    }
    Verdict::None { longest }
}

static CLOCK: AtomicU64 = AtomicU64::new(1);

fn now() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

/// Runs every thread's plan at once and returns what happened.
fn run<P: Send, O: Send, F>(plans: Vec<Vec<P>>, odds: u64, seed: u64, f: F) -> (Vec<Vec<Event<O>>>, u64)
where
    F: Fn(usize, P) -> O + Sync,
{
    let barrier = Barrier::new(plans.len());
    let delays = AtomicU64::new(0);
    let out = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .into_iter()
            .enumerate()
            .map(|(t, plan)| {
                let (f, barrier, delays) = (&f, &barrier, &delays);
                s.spawn(move || {
                    let mut log = Vec::with_capacity(plan.len());
                    barrier.wait();
                    jitter::set(seed.wrapping_mul(t as u64 * 2 + 3), odds);
                    for p in plan {
                        let inv = now();
                        let op = f(t, p);
                        log.push(Event { inv, ret: now(), op });
                    }
                    delays.fetch_add(jitter::set(0, 0).1, Ordering::Relaxed);
                    log
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    let out = out.into_iter().map(|r| r.unwrap_or_else(|p| std::panic::resume_unwind(p))).collect();
    (out, delays.load(Ordering::Relaxed))
}

/// How the calls lay in time: their begins and ends in order, by thread.
fn shape<O>(h: &[Vec<Event<O>>]) -> (u64, u64) {
    let mut ev: Vec<(u64, usize, bool)> = vec![];
    let mut over = 0;
    for (t, l) in h.iter().enumerate() {
        for e in l {
            ev.push((e.inv, t, true));
            ev.push((e.ret, t, false));
            over += h[t + 1..].iter().flatten().filter(|o| o.inv < e.ret && e.inv < o.ret).count() as u64;
        }
    }
    ev.sort_unstable();
    let s: Vec<u8> = ev.iter().map(|(_, t, b)| (*t as u8) << 1 | *b as u8).collect();
    (fnv(&s), over)
}

// ---------------------------------------------------------------------------------------------------------------
// one client

#[derive(Clone, Debug)]
enum Plan {
    Write(L, Vec<u8>, bool),
    Copy(L, L),
    Concat(L, L, L),
    Revoke(L, bool),
    Delete(L, bool),
    Collect(Vec<u8>, bool),
    Exists(L),
    VaultExists(Vec<u8>),
    Read(L),
    Chain(Vec<Plan>),
    Insert(Vec<u8>, Vec<u8>),
    Get(Vec<u8>),
    Contains(Vec<u8>),
    Remove(Vec<u8>),
    Keys,
    ClearStore,
    Commit,
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Unit(bool),
    Bool(bool),
    /// the MAC under the secret, or an error
    Mac(Option<Vec<u8>>),
    /// the outputs of a chain's reads, or an error
    Chain(Option<Vec<Vec<u8>>>),
    Old(Option<Vec<u8>>),
    Keys(BTreeSet<Vec<u8>>),
    Dump(Records, Pairs),
    Broken(String),
}

type Call = (Plan, Res);

#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct St {
    /// None: revoked
    recs: BTreeMap<L, Option<Vec<u8>>>,
    /// true: certainly there, false: perhaps
    vaults: BTreeMap<Vec<u8>, bool>,
    store: BTreeMap<Vec<u8>, Vec<u8>>,
    /// what failing chains have to revoke
    logs: BTreeMap<usize, Vec<L>>,
}

const MSG: &[u8] = b"message";

fn mac(secret: &[u8]) -> Vec<u8> {
    let mut out = [0; SHA256_LEN];
    HMAC_SHA256(MSG, secret, &mut out);
    out.to_vec()
}

impl St {
    fn live(&self, l: &L) -> Option<&Vec<u8>> {
        self.recs.get(l)?.as_ref()
    }
    fn write(&mut self, l: &L, v: Vec<u8>) -> bool {
        self.vaults.insert(l.0.clone(), true);
        match self.recs.get_mut(l) {
            Some(None) => false,
            _ => {
                self.recs.insert(l.clone(), Some(v));
                true
            }
        }
    }
    fn revoke(&mut self, l: &L) {
        if let Some(r) = self.recs.get_mut(l) {
            *r = None;
        }
    }
    fn collect(&mut self, v: &[u8]) {
        self.recs.retain(|l, r| l.0 != v || r.is_some());
    }
    /// `b`: what was said of the vault's existence. Whether it can be.
    fn vault_is(&mut self, v: &[u8], b: bool) -> bool {
        match (self.vaults.get(v), b) {
            (Some(true), b) => b,
            (Some(false), true) => {
                self.vaults.insert(v.to_vec(), true);
                true
            }
            (Some(false), false) => {
                self.vaults.remove(v);
                true
            }
            (None, b) => !b,
        }
    }
    fn derive(&mut self, v: Option<Vec<u8>>, t: &L) -> bool {
        match v {
            Some(v) => self.write(t, v),
            None => {
                self.vaults.entry(t.0.clone()).or_insert(false);
                false
            }
        }
    }
    fn concat(&self, a: &L, b: &L) -> Option<Vec<u8>> {
        Some([self.live(a)?.clone(), self.live(b)?.clone()].concat())
    }
    /// A step of a chain: whether it succeeds, and what it puts out.
    fn part(&mut self, p: &Plan) -> (bool, Option<Vec<u8>>, Option<L>) {
        match p {
            Plan::Write(l, v, _) => (self.write(l, v.clone()), None, Some(l.clone())),
            Plan::Copy(a, t) => (self.derive(self.live(a).cloned(), t), None, Some(t.clone())),
            Plan::Concat(a, b, t) => (self.derive(self.concat(a, b), t), None, Some(t.clone())),
            Plan::Revoke(l, _) => {
                self.revoke(l);
                (true, None, None)
            }
            Plan::Read(l) => match self.live(l) {
                Some(v) => (true, Some(mac(v)), None),
                None => (false, None, None),
            },
            p => unreachable!("{p:?}"),
        }
    }
    fn records(&self) -> Records {
        self.recs.iter().filter_map(|(l, v)| v.as_ref().map(|v| (loc(l).resolve(), v.clone()))).collect()
    }
}

struct ClientSpec;

impl Spec for ClientSpec {
    type State = St;
    type Op = Call;
    fn step(&self, s: &St, (plan, res): &Call, id: usize, pc: u64) -> Vec<(St, Option<u64>)> {
        let mut n = s.clone();
        let ok = match (plan, res) {
            (Plan::Chain(steps), Res::Chain(r)) => {
                // even: the next step; odd: the next revocation
                if pc & 1 == 1 {
                    let log = n.logs.get(&id).cloned().unwrap_or_default();
                    let k = (pc >> 1) as usize;
                    if k >= log.len() {
                        n.logs.remove(&id);
                        return vec![(n, None)];
                    }
                    n.revoke(&log[k]);
                    return vec![(n, Some(pc + 2))];
                }
                let k = (pc >> 1) as usize;
                if k == steps.len() {
                    n.logs.remove(&id);
                    return if r.is_some() { vec![(n, None)] } else { vec![] };
                }
                let (good, out, target) = n.part(&steps[k]);
                if !good {
                    return if r.is_none() { vec![(n, Some(1))] } else { vec![] };
                }
                if let (Some(outs), Some(o)) = (r, out) {
                    let i = steps[..k].iter().filter(|p| matches!(p, Plan::Read(_))).count();
                    if outs.get(i) != Some(&o) {
                        return vec![];
                    }
                }
                n.logs.entry(id).or_default().extend(target);
                return vec![(n, Some(pc + 2))];
            }
            (Plan::Read(l), Res::Mac(m)) => n.live(l).map(|v| mac(v)) == *m,
            (p @ (Plan::Write(..) | Plan::Copy(..) | Plan::Concat(..) | Plan::Revoke(..)), Res::Unit(b)) => n.part(p).0 == *b,
            (Plan::Delete(l, _), r) => {
                n.revoke(l);
                n.collect(&l.0);
                match r {
                    Res::Bool(b) => n.vault_is(&l.0, *b),
                    r => *r == Res::Unit(true),
                }
            }
            (Plan::Collect(v, _), r) => {
                n.collect(v);
                match r {
                    Res::Bool(b) => n.vault_is(v, *b),
                    r => *r == Res::Unit(true),
                }
            }
            (Plan::Exists(l), Res::Bool(b)) => n.live(l).is_some() == *b,
            (Plan::VaultExists(v), Res::Bool(b)) => n.vault_is(v, *b),
            (Plan::Insert(k, v), Res::Old(o)) => n.store.insert(k.clone(), v.clone()) == *o,
            (Plan::Get(k), Res::Old(o)) => n.store.get(k) == o.as_ref(),
            (Plan::Contains(k), Res::Bool(b)) => n.store.contains_key(k) == *b,
            (Plan::Remove(k), Res::Old(o)) => n.store.remove(k) == *o,
            (Plan::Keys, Res::Keys(ks)) => n.store.keys().eq(ks.iter()),
            (Plan::ClearStore, Res::Unit(true)) => {
                n.store.clear();
                true
            }
            (Plan::Commit, Res::Dump(r, p)) => n.records() == *r && n.store == *p,
            _ => false,
        };
        if ok {
            vec![(n, None)]
        } else {
            vec![]
        }
    }
}

fn convert(p: &Plan) -> StrongholdProcedure {
    match p {
        Plan::Write(l, v, _) => WriteVault { data: v.clone(), location: loc(l) }.into(),
        Plan::Copy(a, t) => CopyRecord { source: loc(a), target: loc(t) }.into(),
        Plan::Concat(a, b, t) => {
            ConcatSecret { location_a: loc(a), location_b: loc(b), output_location: loc(t) }.into()
        }
        Plan::Revoke(l, _) => RevokeData { location: loc(l), should_gc: false }.into(),
        Plan::Read(l) => Hmac { hash_type: Sha2Hash::Sha256, msg: MSG.to_vec(), key: loc(l) }.into(),
        p => unreachable!("{p:?}"),
    }
}

fn call(ctx: &Ctx, sh: &Stronghold, path: &[u8], cl: &Client, tag: &str, p: &Plan) -> Res {
    let unit = |b| Res::Unit(b);
    let old = |r: Result<Option<Vec<u8>>, ClientError>| match r {
        Ok(o) => Res::Old(o),
        Err(e) => Res::Broken(format!("{e:?}")),
    };
    let bool = |r: Result<bool, ClientError>| match r {
        Ok(o) => Res::Bool(o),
        Err(e) => Res::Broken(format!("{e:?}")),
    };
    match p {
        Plan::Write(l, v, true) => unit(cl.vault(&l.0).write_secret(loc(l), v.clone()).is_ok()),
        Plan::Revoke((v, RP::G(r)), true) => unit(cl.vault(v).revoke_secret(r).is_ok()),
        Plan::Write(..) | Plan::Copy(..) | Plan::Concat(..) | Plan::Revoke(..) => {
            unit(cl.execute_procedure_chained(vec![convert(p)]).is_ok())
        }
        Plan::Delete((v, RP::G(r)), true) => bool(cl.vault(v).delete_secret(r)),
        Plan::Delete(l, _) => unit(cl.execute_procedure(RevokeData { location: loc(l), should_gc: true }).is_ok()),
        Plan::Collect(v, true) => bool(cl.vault(v).cleanup()),
        Plan::Collect(v, _) => unit(cl.execute_procedure(GarbageCollect { vault_path: v.clone() }).is_ok()),
        Plan::Exists(l) => bool(cl.record_exists(&loc(l))),
        Plan::VaultExists(v) => bool(cl.vault_exists(v)),
        Plan::Read(l) => Res::Mac(
            cl.execute_procedure(Hmac { hash_type: Sha2Hash::Sha256, msg: MSG.to_vec(), key: loc(l) }).ok().map(|m| m.to_vec()),
        ),
        Plan::Chain(steps) => {
            let reads: Vec<bool> = steps.iter().map(|p| matches!(p, Plan::Read(_))).collect();
            match cl.execute_procedure_chained(steps.iter().map(convert).collect()) {
                Ok(o) => Res::Chain(Some(o.into_iter().zip(reads).filter(|(_, r)| *r).map(|(o, _)| Vec::<u8>::from(o)).collect())),
                Err(_) => Res::Chain(None),
            }
        }
        Plan::Insert(k, v) => old(cl.store().insert(k.clone(), v.clone(), None)),
        Plan::Get(k) => old(cl.store().get(k)),
        Plan::Contains(k) => bool(cl.store().contains_key(k)),
        Plan::Remove(k) => old(cl.store().delete(k)),
        Plan::Keys => cl.store().keys().map_or_else(|e| Res::Broken(format!("{e:?}")), |k| Res::Keys(k.into_iter().collect())),
        Plan::ClearStore => unit(cl.store().clear().is_ok()),
        Plan::Commit => {
            let file = ctx.scratch.join(format!("lin-{tag}"));
            let key = [9u8; 32];
            let r = sh.commit_with_keyprovider(&SnapshotPath::from_path(&file), &kp(&key)).map_err(|e| format!("{e:?}"));
            let d = r.and_then(|_| dump_file(&file, key, path));
            let _ = std::fs::remove_file(&file);
            match d {
                Ok(Some((r, p))) => Res::Dump(r, p),
                Ok(None) => Res::Broken("client not in the file".into()),
                Err(e) => Res::Broken(e),
            }
        }
    }
}

fn show(p: &Plan) -> String {
    match p {
        Plan::Write(l, v, _) => format!("write {} = {}", fmt(l), short(v)),
        Plan::Copy(a, t) => format!("copy {} to {}", fmt(a), fmt(t)),
        Plan::Concat(a, b, t) => format!("concat {} + {} to {}", fmt(a), fmt(b), fmt(t)),
        Plan::Revoke(l, _) => format!("revoke {}", fmt(l)),
        Plan::Delete(l, s) => format!("delete{} {}", if *s { "_secret" } else { "" }, fmt(l)),
        Plan::Collect(v, _) => format!("collect {}", short(v)),
        Plan::Exists(l) => format!("exists {}", fmt(l)),
        Plan::VaultExists(v) => format!("vault exists {}", short(v)),
        Plan::Read(l) => format!("read {}", fmt(l)),
        Plan::Chain(s) => format!("chain [{}]", s.iter().map(show).collect::<Vec<_>>().join("; ")),
        Plan::Insert(k, v) => format!("insert {} = {}", short(k), short(v)),
        p => format!("{p:?}"),
    }
}

fn explain(h: &[Vec<Event<Call>>], longest: &[usize]) -> serde_json::Value {
    let calls: Vec<String> = h
        .iter()
        .enumerate()
        .flat_map(|(t, l)| l.iter().map(move |e| format!("thread {t} [{}..{}] {} -> {:?}", e.inv, e.ret, show(&e.op.0), e.op.1)))
        .map(|s| s.chars().take(400).collect())
        .collect();
    json!({"calls": calls, "longest order found": longest})
}

/// The search itself, on histories that have an order and on such that have none.
fn selftest() {
    let l = (b"v".to_vec(), RP::G(b"r".to_vec()));
    let ev = |inv, ret, p, r| Event { inv, ret, op: (p, r) };
    let write = |inv, ret, v: u8, ok| ev(inv, ret, Plan::Write(l.clone(), vec![v], true), Res::Unit(ok));
    let read = |inv, ret, v: u8| ev(inv, ret, Plan::Read(l.clone()), Res::Mac(Some(mac(&[v]))));
    let good = |h: &[Vec<Event<Call>>]| matches!(search(&ClientSpec, St::default(), h, 1000), Verdict::Order(_));
    // overlapping reads may see the old or the new value, but not first the new one; later ones see the last
    assert!(good(&[vec![write(1, 2, 1, true), write(3, 8, 2, true)], vec![read(4, 5, 1), read(6, 7, 2)]]));
    assert!(!good(&[vec![write(1, 2, 1, true), write(3, 8, 2, true)], vec![read(4, 5, 2), read(6, 7, 1)]]));
    assert!(!good(&[vec![write(1, 2, 1, true), write(3, 4, 2, true)], vec![read(5, 6, 1)]]));
    // a deletion does not make writes fail; a revocation may
    let del = |inv, ret| ev(inv, ret, Plan::Delete(l.clone(), true), Res::Bool(true));
    let rev = |inv, ret| ev(inv, ret, Plan::Revoke(l.clone(), true), Res::Unit(true));
    assert!(!good(&[vec![write(1, 2, 1, true), write(4, 5, 2, false)], vec![del(3, 6)]]));
    assert!(good(&[vec![write(1, 2, 1, true), write(4, 5, 2, false)], vec![rev(3, 6)]]));
    // another thread may see between the steps of a chain, but not them undone
    let chain = |inv, ret, r| ev(inv, ret, Plan::Chain(vec![Plan::Write(l.clone(), vec![7], true), Plan::Read(l.clone())]), Res::Chain(r));
    assert!(good(&[vec![chain(1, 6, Some(vec![mac(&[8])]))], vec![write(2, 3, 8, true)]]));
    assert!(!good(&[vec![chain(1, 2, Some(vec![mac(&[8])]))], vec![write(3, 4, 8, true)]]));
    assert!(good(&[vec![chain(1, 6, None)], vec![rev(2, 3), read(4, 5, 9)]]) == false);
}

/// Histories of calls on one client by several threads.
pub fn lin(ctx: &Ctx) {
    selftest();
    let n = ctx.n(12_000, 200_000);
    ctx.cases("concurrent", n, 1, |ctx, i, rng| {
        let sh = Stronghold::default();
        let path = b"client".to_vec();
        let cl = sh.create_client(&path).unwrap();
        if rng.chance(1, 4) {
            sh.create_client(b"bystander").unwrap().store().insert(b"k".to_vec(), b"v".to_vec(), None).unwrap();
        }
        let (nv, nr) = (rng.range(1, 2), rng.range(1, 3));
        let vaults: Vec<Vec<u8>> = (0..nv).map(|k| vec![b'v', k as u8]).collect();
        let recs: Vec<RP> = (0..nr).map(|k| if rng.chance(1, 5) { RP::C(k) } else { RP::G(vec![b'r', k as u8]) }).collect();
        let keys: Vec<Vec<u8>> = (0..rng.range(1, 3)).map(|k| vec![b'k', k as u8]).collect();
        let mut serial = 0u32;
        let mut fresh = || {
            serial += 1;
            serial.to_be_bytes()[2..].to_vec()
        };
        let l = |rng: &mut Rng| (rng.pick(&vaults).clone(), rng.pick(&recs).clone());
        // what histories are about: everything, a vault, the store
        let kind = rng.below(4);
        let with_commit = rng.chance(1, 4);
        let mut plan = |rng: &mut Rng| -> Plan {
            let part = |rng: &mut Rng, v: Vec<u8>| match rng.below(8) {
                0..=2 => Plan::Write(l(rng), v, rng.chance(1, 2)),
                3 => Plan::Copy(l(rng), l(rng)),
                4 => Plan::Concat(l(rng), l(rng), l(rng)),
                5 => Plan::Revoke(l(rng), rng.chance(1, 2)),
                _ => Plan::Read(l(rng)),
            };
            if kind == 1 || kind > 1 && rng.chance(1, 4) {
                return match rng.below(9) {
                    0..=2 => Plan::Insert(rng.pick(&keys).clone(), fresh()),
                    3..=4 => Plan::Get(rng.pick(&keys).clone()),
                    5 => Plan::Contains(rng.pick(&keys).clone()),
                    6 => Plan::Remove(rng.pick(&keys).clone()),
                    7 => Plan::Keys,
                    _ if with_commit && rng.chance(1, 2) => Plan::Commit,
                    _ => Plan::ClearStore,
                };
            }
            match rng.below(16) {
                0..=6 => part(rng, fresh()),
                7..=8 => Plan::Delete(l(rng), rng.chance(1, 2)),
                9 => Plan::Collect(rng.pick(&vaults).clone(), rng.chance(1, 2)),
                10 => Plan::Exists(l(rng)),
                11 => Plan::VaultExists(rng.pick(&vaults).clone()),
                12 => Plan::Read(l(rng)),
                13 if with_commit => Plan::Commit,
                13 => Plan::Read(l(rng)),
                _ => Plan::Chain((0..rng.range(2, 4)).map(|_| part(rng, fresh())).collect()),
            }
        };
        let nt = rng.range(2, 4);
        let mut init = St::default();
        for _ in 0..rng.below(4) {
            let p = plan(rng);
            if let Plan::Write(l, v, _) = &p {
                assert!(cl.vault(&l.0).write_secret(loc(l), v.clone()).is_ok() == init.write(l, v.clone()));
            }
        }
        let len = rng.range(2, 12 / nt + 2);
        let plans: Vec<Vec<Plan>> = (0..nt).map(|_| (0..len).map(|_| plan(rng)).collect()).collect();
        let handles: Vec<Client> = (0..nt).map(|_| if rng.chance(1, 2) { cl.clone() } else { sh.get_client(&path).unwrap() }).collect();
        let odds = *rng.pick(&[0, 3, 10, 40, 200]);
        let (mut h, delays) = run(plans, odds, rng.u64(), |t, p| {
            let r = call(ctx, &sh, &path, &handles[t], &format!("{i}-{t}"), &p);
            (p, r)
        });
        let (sh_hash, over) = shape(&h);
        let results: String = h.iter().flatten().map(|e| match &e.op.1 {
            Res::Unit(b) | Res::Bool(b) => if *b { 't' } else { 'f' },
            Res::Mac(m) => if m.is_some() { 'm' } else { '-' },
            Res::Chain(c) => if c.is_some() { 'c' } else { 'x' },
            _ => '.',
        }).collect();
        // at the end, everything by itself
        let mut end: Vec<Plan> = vaults.iter().flat_map(|v| recs.iter().flat_map(move |r| [Plan::Exists((v.clone(), r.clone())), Plan::Read((v.clone(), r.clone()))])).collect();
        end.push(Plan::Commit);
        let tail: Vec<Event<Call>> = end
            .into_iter()
            .map(|p| {
                let inv = now();
                let r = call(ctx, &sh, &path, &cl, &format!("{i}-end"), &p);
                Event { inv, ret: now(), op: (p, r) }
            })
            .collect();
        h.push(tail);
        ctx.rep.count("calls in histories", h.iter().map(|l| l.len() as u64).sum());
        ctx.rep.count("pairs of calls that overlapped", over);
        ctx.rep.count("delays inside calls", delays);
        ctx.rep.seen("interleavings of begins and ends", sh_hash);
        ctx.rep.eval((over > 0).then(|| sh_hash ^ fnv(results.as_bytes())));
        match search(&ClientSpec, init, &h, 2_000_000) {
            Verdict::Order(o) => {
                if (0..o.len()).any(|k| o[k] != k) {
                    ctx.rep.count("histories explained by an order that mixes the threads", 1);
                }
                if i < 2 {
                    ctx.rep.sample(json!({"history": explain(&h, &o)}));
                }
            }
            Verdict::TooLong => ctx.rep.count("searches given up", 1),
            Verdict::None { longest } => ctx.rep.violation("lin/order", json!({"case": i, "history": explain(&h, &longest)})),
        }
    });
}

// ---------------------------------------------------------------------------------------------------------------
// the clients of an instance

#[derive(Clone, Debug)]
enum RPlan {
    Create(u8),
    Get(u8),
    Load(u8),
    Unload(u8),
    WriteClient(u8),
    Purge(u8),
    /// on the handle the thread holds for a path
    Put(u8, Vec<u8>),
    Look(u8),
    Commit,
}

#[derive(Clone, Debug)]
enum RRes {
    /// the thread's handle number, if it succeeded
    Handle(Option<usize>),
    /// the handle used, and whether it succeeded
    Done(usize, bool),
    Ok(bool),
    Value(usize, Option<Vec<u8>>),
    Files(BTreeMap<u8, Option<Vec<u8>>>),
    Nothing,
    Broken(String),
}

type RCall = (RPlan, RRes);

#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct RSt {
    /// what the instances hold
    inst: Vec<Option<Vec<u8>>>,
    loaded: BTreeMap<u8, usize>,
    snap: BTreeMap<u8, Option<Vec<u8>>>,
    handles: BTreeMap<usize, usize>,
}

struct RSpec;

const WHO: &[u8] = b"who";

impl Spec for RSpec {
    type State = RSt;
    type Op = RCall;
    fn step(&self, s: &RSt, (plan, res): &RCall, _id: usize, pc: u64) -> Vec<(RSt, Option<u64>)> {
        let mut n = s.clone();
        let ok = match (plan, res) {
            (_, RRes::Nothing) => true,
            (RPlan::Create(p), RRes::Handle(Some(h))) => {
                n.inst.push(None);
                n.loaded.insert(*p, n.inst.len() - 1);
                n.handles.insert(*h, n.inst.len() - 1);
                true
            }
            (RPlan::Get(p), RRes::Handle(h)) => match (n.loaded.get(p), h) {
                (Some(i), Some(h)) => {
                    n.handles.insert(*h, *i);
                    true
                }
                (None, None) => true,
                _ => false,
            },
            (RPlan::Load(p), RRes::Handle(h)) => match (n.loaded.get(p), n.snap.get(p), h) {
                (None, Some(v), Some(h)) => {
                    n.inst.push(v.clone());
                    n.loaded.insert(*p, n.inst.len() - 1);
                    n.handles.insert(*h, n.inst.len() - 1);
                    true
                }
                (None, Some(_), None) => false,
                (_, _, h) => h.is_none(),
            },
            (RPlan::Unload(p), RRes::Done(_, b)) => n.loaded.remove(p).is_some() == *b,
            (RPlan::WriteClient(p), RRes::Ok(b)) => match n.loaded.get(p) {
                Some(i) => {
                    n.snap.insert(*p, n.inst[*i].clone());
                    *b
                }
                None => !b,
            },
            (RPlan::Purge(p), RRes::Done(_, b)) => {
                n.loaded.remove(p);
                n.snap.remove(p);
                *b
            }
            (RPlan::Put(_, v), RRes::Done(h, b)) => {
                let i = n.handles[h];
                n.inst[i] = Some(v.clone());
                *b
            }
            (RPlan::Look(_), RRes::Value(h, v)) => n.inst[n.handles[h]] == *v,
            (RPlan::Commit, RRes::Files(f)) => {
                // the clients loaded are written one by one, in any order, then the file; nothing else gets at the
                // clients' list or the snapshot meanwhile, but their contents may change
                let todo: Vec<(u8, usize)> = n.loaded.iter().filter(|(p, _)| pc >> **p & 1 == 0).map(|(p, i)| (*p, *i)).collect();
                if todo.is_empty() {
                    return if n.snap == *f { vec![(n, None)] } else { vec![] };
                }
                return todo
                    .into_iter()
                    .map(|(p, i)| {
                        let mut m = n.clone();
                        m.snap.insert(p, m.inst[i].clone());
                        (m, Some(pc | 1 << p))
                    })
                    .collect();
            }
            _ => false,
        };
        if ok {
            vec![(n, None)]
        } else {
            vec![]
        }
    }
}

/// Histories of calls on an instance's list of clients and its snapshot by several threads.
pub fn registry(ctx: &Ctx) {
    let n = ctx.n(8_000, 100_000);
    ctx.cases("concurrent-clients", n, 1, |ctx, i, rng| {
        let sh = Stronghold::default();
        let np = rng.range(1, 3) as u8;
        let path = |p: u8| vec![b'c', p];
        let nt = rng.range(2, 4);
        let len = rng.range(3, 14 / nt + 2);
        let mut serial = 0u32;
        // a path is created at most once: creating over a loaded client is not claimed
        let mut created: BTreeSet<u8> = BTreeSet::new();
        let commits = rng.chance(1, 2);
        let mut plans: Vec<Vec<RPlan>> = vec![vec![]; nt];
        for k in 0..len {
            for plan in plans.iter_mut() {
                let p = rng.below(np as usize) as u8;
                plan.push(if created.insert(p) {
                    RPlan::Create(p)
                } else {
                    match rng.below(18) {
                        0..=2 => RPlan::Get(p),
                        3..=4 => RPlan::Load(p),
                        5..=6 => RPlan::Unload(p),
                        7..=9 => RPlan::WriteClient(p),
                        10 => RPlan::Purge(p),
                        11..=13 => {
                            serial += 1;
                            RPlan::Put(p, serial.to_be_bytes()[2..].to_vec())
                        }
                        14 if commits => RPlan::Commit,
                        _ => RPlan::Look(p),
                    }
                });
            }
        }
        let odds = *rng.pick(&[0, 3, 10, 40, 200]);
        let held: Vec<std::sync::Mutex<BTreeMap<u8, (usize, Client)>>> = (0..nt).map(|_| Default::default()).collect();
        let next = AtomicU64::new(0);
        let fails = |e: ClientError| RRes::Broken(format!("{e:?}"));
        let (mut h, delays) = run(plans, odds, rng.u64(), |t, p| {
            let mut mine = held[t].lock().unwrap();
            let mut take = |p: u8, r: Result<Client, ClientError>| match r {
                Ok(c) => {
                    let k = next.fetch_add(1, Ordering::Relaxed) as usize;
                    mine.insert(p, (k, c));
                    RRes::Handle(Some(k))
                }
                Err(_) => RRes::Handle(None),
            };
            let r = match &p {
                RPlan::Create(q) => take(*q, sh.create_client(path(*q))),
                RPlan::Get(q) => take(*q, sh.get_client(path(*q))),
                RPlan::Load(q) => take(*q, sh.load_client(path(*q))),
                RPlan::WriteClient(q) => RRes::Ok(sh.write_client(path(*q)).is_ok()),
                RPlan::Commit => {
                    let file = ctx.scratch.join(format!("reg-{i}-{t}"));
                    let key = [9u8; 32];
                    match sh.commit_with_keyprovider(&SnapshotPath::from_path(&file), &kp(&key)) {
                        Err(e) => fails(e),
                        Ok(()) => {
                            let mut f = BTreeMap::new();
                            let mut bad = None;
                            for q in 0..np {
                                match dump_file(&file, key, &path(q)) {
                                    Ok(Some((_, s))) => {
                                        f.insert(q, s.get(WHO).cloned());
                                    }
                                    Ok(None) => (),
                                    Err(e) => bad = Some(e),
                                }
                            }
                            let _ = std::fs::remove_file(&file);
                            bad.map_or(RRes::Files(f), RRes::Broken)
                        }
                    }
                }
                RPlan::Unload(q) | RPlan::Purge(q) | RPlan::Put(q, _) | RPlan::Look(q) => match mine.get(q).cloned() {
                    None => RRes::Nothing,
                    Some((k, c)) => match &p {
                        RPlan::Unload(_) => RRes::Done(k, sh.unload_client(c).is_ok()),
                        RPlan::Purge(_) => RRes::Done(k, sh.purge_client(c).is_ok()),
                        RPlan::Put(_, v) => RRes::Done(k, c.store().insert(WHO.to_vec(), v.clone(), None).is_ok()),
                        _ => c.store().get(WHO).map_or_else(fails, |v| RRes::Value(k, v)),
                    },
                },
            };
            (p, r)
        });
        let (hash, over) = shape(&h);
        // at the end: which clients are loaded, and what all handles see
        let mut tail = vec![];
        let mut add = |p: RPlan, r: RRes| tail.push(Event { inv: now(), ret: now(), op: (p, r) });
        for q in 0..np {
            let got = sh.get_client(path(q));
            let k = next.fetch_add(1, Ordering::Relaxed) as usize;
            add(RPlan::Get(q), RRes::Handle(got.is_ok().then_some(k)));
            if let Ok(c) = got {
                add(RPlan::Look(q), RRes::Value(k, c.store().get(WHO).unwrap()));
            }
        }
        for m in &held {
            for (q, (k, c)) in m.lock().unwrap().iter() {
                add(RPlan::Look(*q), RRes::Value(*k, c.store().get(WHO).unwrap()));
            }
        }
        h.push(tail);
        ctx.rep.count("calls in histories", h.iter().map(|l| l.len() as u64).sum());
        ctx.rep.count("pairs of calls that overlapped", over);
        ctx.rep.count("delays inside calls", delays);
        ctx.rep.seen("interleavings of begins and ends", hash);
        let results: String = h.iter().flatten().map(|e| format!("{:?}", std::mem::discriminant(&e.op.1))).collect();
        ctx.rep.eval((over > 0).then(|| hash ^ fnv(results.as_bytes())));
        let text = |longest: &[usize]| {
            let calls: Vec<String> = h
                .iter()
                .enumerate()
                .flat_map(|(t, l)| l.iter().map(move |e| format!("thread {t} [{}..{}] {:?} -> {:?}", e.inv, e.ret, e.op.0, e.op.1)))
                .collect();
            json!({"calls": calls, "longest order found": longest})
        };
        match search(&RSpec, RSt::default(), &h, 2_000_000) {
            Verdict::Order(o) => {
                if i < 1 {
                    ctx.rep.sample(json!({"history": text(&o)}));
                }
            }
            Verdict::TooLong => ctx.rep.count("searches given up", 1),
            Verdict::None { longest } => ctx.rep.violation("registry/order", json!({"case": i, "history": text(&longest)})),
        }
    });
}
