//! C20: the compression against a decoder of our own. C21: base64 and identifiers against an encoding of our own.
use crate::util::*;
use engine::snapshot::{compress, decompress};
use engine::vault::{Base64Decodable, Base64Encodable, BlobId, ChainId, ClientId, Id, RecordHint, RecordId, VaultId};
use serde_json::json;
use std::collections::HashMap;
use std::time::{Duration, Instant};

// ---- LZ4 -------------------------------------------------------------------------------------------------------------

/// What a conforming decoder makes of a stream; `None` if it is not well-formed. `lenient` also takes a stream that ends
/// after a match.
fn reference(input: &[u8], lenient: bool) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = vec![];
    let mut p = 0;
    loop {
        let token = *input.get(p)?;
        p += 1;
        let mut n = (token >> 4) as usize;
        if n == 15 {
            loop {
                let b = *input.get(p)?;
                p += 1;
                n += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        if p + n > input.len() {
            return None;
        }
        out.extend_from_slice(&input[p..p + n]);
        p += n;
        if p == input.len() {
            return Some(out);
        }
        if p + 2 > input.len() {
            return None;
        }
        let off = input[p] as usize + 256 * input[p + 1] as usize;
        p += 2;
        let mut m = (token & 15) as usize;
        if m == 15 {
            loop {
                let b = *input.get(p)?;
                p += 1;
                m += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        if off == 0 || off > out.len() {
            return None;
        }
        let from = out.len() - off;
        for i in 0..m + 4 {
            out.push(out[from + i]);
        }
        if p == input.len() {
            return if lenient { Some(out) } else { None };
        }
    }
}

/// Lengths at which the format changes its representation.
const EDGES: [usize; 26] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 269, 270, 271, 273, 274, 275, 524,
];

fn edge(rng: &mut Rng) -> usize {
    match rng.below(4) {
        0 => rng.below(40),
        1 => {
            let base = *rng.pick(&[15usize, 19, 4, 255]);
            (base + 255 * rng.below(5)).saturating_add(rng.below(3)).saturating_sub(1)
        }
        _ => *rng.pick(&EDGES),
    }
}

/// Something a compressor may stumble over.
fn input(rng: &mut Rng, kind: usize) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => rng.below(32),
        1 => edge(rng),
        2 => rng.below(5000),
        3 => rng.below(70_000),
        4 => 65_536 + rng.range(0, 40),
        _ => rng.below(300_000),
    };
    match kind {
        0 => rng.bytes(n),
        1 => {
            let k = rng.range(1, 5);
            (0..n).map(|_| rng.below(k) as u8).collect()
        }
        2 => {
            // runs and random pieces of lengths around the edges
            let mut v = vec![];
            for _ in 0..rng.range(1, 12) {
                let len = edge(rng);
                if rng.chance(1, 2) {
                    let b = rng.u64() as u8;
                    v.resize(v.len() + len, b);
                } else {
                    v.extend(rng.bytes(len));
                }
            }
            v
        }
        3 => {
            let p = *rng.pick(&[1usize, 2, 3, 4, 5, 7, 8, 16, 255, 256, 4095, 4096, 4097, 65534, 65535, 65536, 65537]);
            let unit = rng.bytes(p);
            let n = n.max(p + rng.below(p + 40));
            unit.iter().cycle().take(n).copied().collect()
        }
        4 => {
            // one block again at a distance of exactly about 64 KiB, with little in between to displace it
            let mut v = vec![];
            let len = 4 + edge(rng);
            let block = rng.bytes(len);
            v.extend(rng.bytes(rng.clone().below(4)));
            for _ in 0..rng.range(1, 3) {
                v.extend(&block);
                let d = (*rng.pick(&[65533usize, 65534, 65535, 65536, 65537, 131_071])).saturating_sub(len);
                let b = rng.u64() as u8;
                v.resize(v.len() + d, b);
            }
            v.extend(&block);
            let tail = edge(rng);
            v.extend(rng.bytes(tail));
            v
        }
        5 => {
            // many four-byte words, each often: every slot of a hash table is replaced over and over
            let words: Vec<Vec<u8>> = (0..rng.range(2, 6000)).map(|_| rng.bytes(4)).collect();
            let mut v = vec![];
            while v.len() < n {
                let w = rng.pick(&words).clone();
                v.extend(w);
                if rng.chance(1, 6) {
                    v.push(rng.u64() as u8);
                }
            }
            v
        }
        6 => {
            // copies of what is already there
            let mut v = rng.bytes(rng.clone().below(20) + 1);
            while v.len() < n {
                let from = rng.below(v.len());
                let len = edge(rng).min(4000);
                for i in 0..len {
                    let b = v[from + i];
                    v.push(b);
                }
                let fresh = rng.below(8);
                v.extend(rng.bytes(fresh));
            }
            v
        }
        _ => {
            // already compressed
            let k = rng.below(7);
            let mut v = compress(&input(rng, k));
            if rng.chance(1, 2) {
                let w = v.clone();
                v.extend(w);
            }
            v
        }
    }
}

/// A well-formed stream and what it stands for.
fn stream(rng: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let (mut s, mut out): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let int = |s: &mut Vec<u8>, mut n: usize| {
        while n >= 255 {
            s.push(255);
            n -= 255;
        }
        s.push(n as u8);
    };
    let long = rng.chance(1, 6);
    for _ in 0..rng.below(12) {
        let mut lit = if out.is_empty() { 1 + edge(rng) } else { edge(rng) };
        if long && rng.chance(1, 3) {
            lit += 65_530 + rng.below(12);
        }
        let m = if long && rng.chance(1, 4) { rng.below(100_000) } else { edge(rng) };
        s.push(((lit.min(15) as u8) << 4) | m.min(15) as u8);
        if lit >= 15 {
            int(&mut s, lit - 15);
        }
        let l = rng.bytes(lit);
        s.extend(&l);
        out.extend(&l);
        let max = out.len().min(65_535);
        let off = match rng.below(5) {
            0 => max,
            1 => 1,
            2 => rng.range(1, max.min(8)),
            3 => max.saturating_sub(rng.below(3)).max(1),
            _ => rng.range(1, max),
        };
        s.push(off as u8);
        s.push((off >> 8) as u8);
        if m >= 15 {
            int(&mut s, m - 15);
        }
        let from = out.len() - off;
        for i in 0..m + 4 {
            let b = out[from + i];
            out.push(b);
        }
    }
    let lit = edge(rng);
    s.push((lit.min(15) as u8) << 4);
    if lit >= 15 {
        int(&mut s, lit - 15);
    }
    let l = rng.bytes(lit);
    s.extend(&l);
    out.extend(&l);
    (s, out)
}

fn round(ctx: &Ctx, data: &[u8], kind: &str) -> bool {
    let t = Instant::now();
    let bad = |k: &str, c: &[u8], more: serde_json::Value| {
        ctx.rep.violation(
            &format!("lz4/{k}"),
            json!({"kind": kind, "input": hex(&data[..data.len().min(4000)]), "input length": data.len(),
                   "compressed": short(c), "compressed length": c.len(), "more": more}),
        );
        false
    };
    let c = match guarded(|| compress(data)) {
        Ok(c) => c,
        Err(p) => return bad("compress-panic", &[], json!(p)),
    };
    if c.len() > data.len() + data.len() / 255 + 16 {
        return bad("compressed-size", &c, json!(null));
    }
    match guarded(|| decompress(&c)) {
        Err(p) => return bad("decompress-panic", &c, json!(p)),
        Ok(Err(e)) => return bad("lossy", &c, json!(e.to_string())),
        Ok(Ok(d)) if d != data => {
            let at = d.iter().zip(data).position(|(a, b)| a != b);
            return bad("lossy", &c, json!({"first difference": at, "length": d.len()}));
        }
        _ => {}
    }
    match reference(&c, true) {
        Some(d) if d == data => {}
        other => return bad("not-the-format", &c, json!(other.map(|d| d.len()))),
    }
    if t.elapsed() > Duration::from_secs(10) {
        return bad("slow", &c, json!(t.elapsed().as_secs_f64()));
    }
    ctx.rep.count("bytes compressed", data.len() as u64);
    ctx.rep.seen("compressed outputs", fnv(&c));
    true
}

fn decode(ctx: &Ctx, s: &[u8], kind: &str, expect: Option<&[u8]>) -> bool {
    let t = Instant::now();
    let bad = |k: &str, more: serde_json::Value| {
        ctx.rep.violation(
            &format!("lz4/{k}"),
            json!({"kind": kind, "stream": hex(&s[..s.len().min(4000)]), "stream length": s.len(), "more": more}),
        );
        false
    };
    let r = match guarded(|| decompress(s)) {
        Err(p) => return bad("decoder-panic", json!(p)),
        Ok(r) => r,
    };
    if t.elapsed() > Duration::from_secs(10) {
        return bad("slow", json!(t.elapsed().as_secs_f64()));
    }
    if let Ok(d) = &r {
        if d.len() > 255 * s.len() + 64 {
            return bad("out-of-proportion", json!(d.len()));
        }
    }
    let own;
    let expect = match expect {
        Some(e) => Some(e),
        None => {
            own = reference(s, false);
            own.as_deref()
        }
    };
    ctx.rep.count(if expect.is_some() { "streams well-formed" } else { "streams malformed" }, 1);
    match (&r, expect) {
        (Ok(_), _) => ctx.rep.count("streams accepted", 1),
        _ => ctx.rep.count("streams refused", 1),
    }
    match (r, expect) {
        (Ok(d), Some(e)) if d != e => bad("disagrees", json!({"length": d.len(), "expected": e.len()})),
        (Err(x), Some(e)) => bad("refused-well-formed", json!({"error": x.to_string(), "expected": e.len()})),
        _ => true,
    }
}

pub fn lz4(ctx: &Ctx) {
    let beat = Beat::start(ctx, "lz4/hang", Duration::from_secs(40));
    let (shard, shards) = ctx.shard;
    // Every string over few letters, every length of plain ones.
    beat.on("exhaustive strings");
    let mut n = 0u64;
    for (letters, max) in [(2usize, ctx.n(13, 17)), (3, ctx.n(8, 11)), (4, ctx.n(7, 9))] {
        for len in 0..=max {
            for k in 0..letters.pow(len as u32) {
                if k % shards != shard {
                    continue;
                }
                let mut x = k;
                let v: Vec<u8> = (0..len)
                    .map(|_| {
                        let b = (x % letters) as u8;
                        x /= letters;
                        b
                    })
                    .collect();
                n += 1;
                if !round(ctx, &v, "exhaustive") {
                    return;
                }
                // the same bytes as the end of a longer text
                if k % 7 == 0 {
                    let mut w = b"\0\x01\0\x01\0\0\x01\x01\x01\0".to_vec();
                    w.extend(&v);
                    round(ctx, &w, "exhaustive end");
                }
            }
        }
    }
    ctx.rep.count("strings exhaustively", n);
    let mut rng = ctx.rng(1 + shard as u64);
    for len in 0..ctx.n(1500, 5000) {
        if len % shards == shard {
            for v in [vec![7u8; len], rng.bytes(len), (0..len).map(|i| (i % 5) as u8).collect()] {
                if !round(ctx, &v, "every length") {
                    return;
                }
                ctx.rep.eval(Some(fnv(format!("len {len}").as_bytes())));
            }
        }
    }
    // Every stream of up to two bytes, and of three after a common beginning.
    beat.on("exhaustive streams");
    let mut n = 0u64;
    for a in 0..=255u8 {
        if a as usize % shards != shard {
            continue;
        }
        decode(ctx, &[a], "exhaustive", None);
        for b in 0..=255u8 {
            n += 1;
            if !decode(ctx, &[a, b], "exhaustive", None) {
                return;
            }
            for c in (0..=255u8).step_by(ctx.n(17, 1)) {
                n += 1;
                if !decode(ctx, &[a, b, c], "exhaustive", None) || !decode(ctx, &[0x10, b'x', a, b, c], "exhaustive", None) {
                    return;
                }
            }
        }
    }
    ctx.rep.count("streams exhaustively", n);
    ctx.cases("lz4", ctx.n(200_000, 4_000_000), 1, |ctx, case, rng| {
        beat.on(&format!("case {case}"));
        match rng.below(4) {
            0 | 1 => {
                let kind = rng.below(8);
                let v = input(rng, kind);
                if round(ctx, &v, &format!("random {kind}")) {
                    ctx.rep.eval(Some(fnv(&v)));
                    if case < 6 {
                        ctx.rep.sample(json!({"round trip": {"kind": kind, "length": v.len(), "compressed": compress(&v).len()}}));
                    }
                }
            }
            2 => {
                let (s, out) = stream(rng);
                assert_eq!(reference(&s, false).as_deref(), Some(&out[..]), "the decoder of the monitor");
                if decode(ctx, &s, "generated", Some(&out)) {
                    ctx.rep.eval(Some(fnv(&s)));
                }
                // cut and altered ones
                for _ in 0..4 {
                    let mut m = s.clone();
                    mutate(rng, &mut m);
                    decode(ctx, &m, "altered", None);
                }
            }
            _ => {
                let mut s = if rng.chance(1, 2) {
                    let kind = rng.below(7);
                    compress(&input(rng, kind))
                } else {
                    let n = if rng.chance(1, 2) { rng.below(40) } else { rng.below(3000) };
                    match rng.below(3) {
                        0 => rng.bytes(n),
                        1 => vec![0xff; n],
                        _ => (0..n).map(|_| *rng.pick(&[0u8, 1, 0x10, 0x1f, 0xf0, 0xff, 0x0f])).collect(),
                    }
                };
                mutate(rng, &mut s);
                if decode(ctx, &s, "arbitrary", None) {
                    ctx.rep.eval(Some(fnv(&s)));
                }
            }
        }
    });
    beat.on("");
}

fn mutate(rng: &mut Rng, m: &mut Vec<u8>) {
    for _ in 0..rng.range(1, 3) {
        match rng.below(6) {
            0 => m.truncate(rng.clone().below(m.len() + 1)),
            1 if !m.is_empty() => {
                let i = rng.below(m.len());
                m[i] ^= 1 << rng.below(8);
            }
            2 if !m.is_empty() => {
                let i = rng.below(m.len());
                m[i] = *rng.pick(&[0u8, 1, 15, 16, 0xf0, 0xff]);
            }
            3 => {
                let i = rng.below(m.len() + 1);
                let n = rng.below(4);
                let b = rng.bytes(n);
                m.splice(i..i, b);
            }
            4 if !m.is_empty() => {
                let i = rng.below(m.len());
                m.remove(i);
            }
            5 => {
                let n = rng.below(600);
                m.resize(m.len() + n, 0xff);
            }
            _ => {}
        }
    }
}

// ---- base64 and identifiers ------------------------------------------------------------------------------------------

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

/// RFC 4648, section 5, with padding.
fn encode(data: &[u8]) -> String {
    let mut s = String::new();
    let mut bits = 0u32;
    let mut n = 0;
    for b in data {
        bits = bits << 8 | *b as u32;
        n += 8;
        while n >= 6 {
            n -= 6;
            s.push(ALPHABET[(bits >> n) as usize & 63] as char);
        }
        bits &= (1 << n) - 1;
    }
    if n > 0 {
        s.push(ALPHABET[(bits << (6 - n)) as usize & 63] as char);
    }
    while s.len() % 4 != 0 {
        s.push('=');
    }
    s
}

/// The bytes of a canonical text.
fn strict(text: &[u8], table: &[u8; 256]) -> Option<Vec<u8>> {
    if text.len() % 4 != 0 {
        return None;
    }
    let pad = text.iter().rev().take_while(|b| **b == b'=').count();
    if pad > 2 {
        return None;
    }
    let mut out = vec![];
    let (mut bits, mut n) = (0u32, 0);
    for b in &text[..text.len() - pad] {
        let v = table[*b as usize];
        if v == 255 {
            return None;
        }
        bits = bits << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((bits >> n) as u8);
        }
        bits &= (1 << n) - 1;
    }
    if bits != 0 {
        return None;
    }
    Some(out)
}

fn table() -> [u8; 256] {
    let mut t = [255; 256];
    for (i, b) in ALPHABET.iter().enumerate() {
        t[*b as usize] = i as u8;
    }
    t
}

fn check_text(ctx: &Ctx, text: &[u8], t: &[u8; 256], kind: &str) -> bool {
    let expect = strict(text, t);
    let got = guarded(|| Vec::<u8>::from_base64(text).ok());
    ctx.rep.count(if expect.is_some() { "texts canonical" } else { "texts not canonical" }, 1);
    match got {
        Err(p) => ctx.rep.violation("text/decode-panic", json!({"text": short_text(text), "kind": kind, "panic": p})),
        Ok(got) if got != expect => ctx.rep.violation(
            if expect.is_none() { "text/accepted" } else { "text/decode" },
            json!({"text": short_text(text), "kind": kind, "got": got.map(|g| short(&g)), "expected": expect.map(|g| short(&g))}),
        ),
        _ => return true,
    }
    false
}

fn short_text(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(400)]).into_owned()
}

fn check_bytes(ctx: &Ctx, data: &[u8], kind: &str) -> bool {
    match guarded(|| data.base64()) {
        Err(p) => ctx.rep.violation("text/encode-panic", json!({"bytes": short(data), "kind": kind, "panic": p})),
        Ok(s) if s != encode(data) => {
            ctx.rep.violation("text/encode", json!({"bytes": short(data), "kind": kind, "text": short_text(s.as_bytes())}))
        }
        Ok(s) => match guarded(|| Vec::<u8>::from_base64(&s).ok()) {
            Ok(Some(d)) if d == data => return true,
            other => ctx.rep.violation("text/round-trip", json!({"bytes": short(data), "kind": kind, "got": format!("{other:?}")})),
        },
    }
    false
}

/// Everything that can be asked of an identifier.
struct Looks {
    debug: String,
    display: Option<String>,
    string: Option<String>,
    bytes: Vec<u8>,
    bincode: Vec<u8>,
    json: String,
    hash: u64,
}

fn hash_of(t: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

macro_rules! looks {
    ($ctx:expr, $t:ty, $bytes:expr, $made:expr, $display:expr, $string:expr) => {{
        let id: $t = $made;
        let bc = bincode::serialize(&id).unwrap();
        let js = serde_json::to_string(&id).unwrap();
        let back: $t = bincode::deserialize(&bc).expect("bincode");
        let back2: $t = serde_json::from_str(&js).expect("json");
        if back != id || back2 != id || back.as_ref_bytes() != id.as_ref_bytes() {
            $ctx.rep.violation("ids/serialize", json!({"type": stringify!($t), "bytes": hex($bytes)}));
        }
        Looks {
            debug: format!("{id:?}"),
            display: $display(&id),
            string: $string(&id),
            bytes: id.as_ref_bytes(),
            bincode: bc,
            json: js,
            hash: hash_of(&id),
        }
    }};
}

trait Bytes {
    fn as_ref_bytes(&self) -> Vec<u8>;
}
macro_rules! bytes_of {
    ($($t:ty),*) => { $(impl Bytes for $t { fn as_ref_bytes(&self) -> Vec<u8> { AsRef::<[u8]>::as_ref(self).to_vec() } })* };
}
bytes_of!(RecordHint, ChainId, BlobId, Id, VaultId, ClientId);
impl Bytes for RecordId {
    fn as_ref_bytes(&self) -> Vec<u8> {
        ChainId::from(*self).as_ref().to_vec()
    }
}

const TYPES: [&str; 7] = ["RecordHint", "ChainId", "RecordId", "ClientId", "VaultId", "Id", "BlobId"];

fn looks(ctx: &Ctx, ty: usize, b: &[u8; 24], how: usize) -> Looks {
    let v = b.to_vec();
    match ty {
        0 => looks!(ctx, RecordHint, b, if how == 0 { RecordHint::new(b).unwrap() } else { (*b).into() }, |_: &_| None, |_: &_| None),
        1 => looks!(ctx, ChainId, b, match how { 0 => ChainId::load(b).unwrap(), 1 => b[..].try_into().unwrap(), _ => v.try_into().unwrap() },
            |_: &_| None, |_: &_| None),
        2 => looks!(ctx, RecordId, b, match how { 0 => RecordId::load(b).unwrap(), 1 => b[..].try_into().unwrap(), 2 => v.try_into().unwrap(),
            _ => RecordId::from(ChainId::load(b).unwrap()) }, |i: &RecordId| Some(i.to_string()), |_: &_| None),
        3 => looks!(ctx, ClientId, b, match how { 0 => ClientId::load(b).unwrap(), 1 => b[..].try_into().unwrap(), 2 => v.try_into().unwrap(),
            _ => ClientId(Id::load(b).unwrap()) }, |i: &ClientId| { let v: Vec<u8> = (*i).into(); Some(hex(&v)) },
            |i: &ClientId| { let s: String = (*i).into(); Some(s) }),
        4 => looks!(ctx, VaultId, b, match how { 0 => VaultId::load(b).unwrap(), 1 => b[..].try_into().unwrap(), 2 => v.try_into().unwrap(),
            _ => VaultId(Id::load(b).unwrap()) }, |i: &VaultId| { let v: Vec<u8> = (*i).into(); Some(hex(&v)) },
            |i: &VaultId| { let s: String = (*i).into(); Some(s) }),
        5 => looks!(ctx, Id, b, match how { 0 => Id::load(b).unwrap(), 1 => b[..].try_into().unwrap(), _ => v.try_into().unwrap() },
            |_: &_| None, |_: &_| None),
        _ => looks!(ctx, BlobId, b, b[..].try_into().unwrap(), |i: &BlobId| { let v: Vec<u8> = i.into(); Some(hex(&v)) }, |_: &_| None),
    }
}

/// How many of the ways to make an identifier take these bytes.
fn takes(ty: usize, b: &[u8]) -> Vec<bool> {
    let v = || b.to_vec();
    match ty {
        0 => vec![],
        1 => vec![ChainId::load(b).is_ok(), ChainId::try_from(b).is_ok(), ChainId::try_from(v()).is_ok()],
        2 => vec![RecordId::load(b).is_ok(), RecordId::try_from(b).is_ok(), RecordId::try_from(v()).is_ok()],
        3 => vec![ClientId::load(b).is_ok(), ClientId::try_from(b).is_ok(), ClientId::try_from(v()).is_ok()],
        4 => vec![VaultId::load(b).is_ok(), VaultId::try_from(b).is_ok(), VaultId::try_from(v()).is_ok()],
        5 => vec![Id::load(b).is_ok(), Id::try_from(b).is_ok(), Id::try_from(v()).is_ok()],
        _ => vec![BlobId::try_from(b).is_ok()],
    }
}

fn ids(ctx: &Ctx, rng: &mut Rng, t: &[u8; 256]) {
    let ty = rng.below(7);
    let name = TYPES[ty];
    // An identifier and everything near to it.
    let base: [u8; 24] = match rng.below(5) {
        0 => [0; 24],
        1 => [0xff; 24],
        2 => {
            let mut a = [0; 24];
            a[rng.below(24)] = rng.u64() as u8;
            a
        }
        _ => rng.array(),
    };
    let mut all = vec![base];
    for i in 0..192 {
        let mut a = base;
        a[i / 8] ^= 1 << (i % 8);
        all.push(a);
    }
    for _ in 0..20 {
        let mut a = base;
        let (i, j) = (rng.below(24), rng.below(24));
        a.swap(i, j);
        all.push(a);
        a.rotate_left(rng.below(24));
        all.push(a);
    }
    all.sort();
    all.dedup();
    let mut seen: HashMap<(u8, Vec<u8>), [u8; 24]> = HashMap::new();
    for b in &all {
        let how = rng.below(4);
        let l = looks(ctx, ty, b, how);
        if l.bytes != b {
            ctx.rep.violation("ids/bytes", json!({"type": name, "bytes": hex(b), "how": how, "got": hex(&l.bytes)}));
        }
        if let Some(s) = &l.string {
            if strict(s.as_bytes(), t).as_deref() != Some(&b[..]) {
                ctx.rep.violation("ids/text", json!({"type": name, "bytes": hex(b), "text": s}));
            }
        }
        let mut parts = vec![(0u8, l.debug.into_bytes()), (1, l.bincode), (2, l.json.into_bytes()), (5, l.hash.to_le_bytes().to_vec())];
        parts.extend(l.display.map(|d| (3, d.into_bytes())));
        parts.extend(l.string.map(|d| (4, d.into_bytes())));
        for p in parts {
            let form = ["Debug", "bincode", "json", "Display or bytes", "String", "Hash"][p.0 as usize];
            if let Some(o) = seen.insert(p.clone(), *b) {
                ctx.rep.violation("ids/alias", json!({"type": name, "one": hex(&o), "other": hex(b), "form": form, "both": short_text(&p.1)}));
            }
        }
        // made in another way it is the same
        let m = looks(ctx, ty, b, (how + 1) % 4);
        if m.bytes != *b || seen.get(&(0, m.debug.into_bytes())) != Some(b) {
            ctx.rep.violation("ids/ways", json!({"type": name, "bytes": hex(b), "how": how}));
        }
    }
    ctx.rep.count("identifiers", all.len() as u64);
    // wrong lengths
    for n in [0, 1, 8, 23, 25, 32, 48, rng.below(100)] {
        let b = rng.bytes(n);
        if n != 24 && takes(ty, &b).contains(&true) {
            ctx.rep.violation("ids/length", json!({"type": name, "length": n, "ways": takes(ty, &b)}));
        }
    }
    if takes(ty, &base).contains(&false) {
        ctx.rep.violation("ids/length", json!({"type": name, "length": 24}));
    }
    // hints are padded, longer ones refused
    let n = rng.below(40);
    let h = rng.bytes(n);
    match RecordHint::new(&h) {
        Some(r) if n <= 24 => {
            let mut e = h.clone();
            e.resize(24, 0);
            if r.as_ref() != e {
                ctx.rep.violation("ids/hint", json!({"hint": hex(&h), "got": hex(r.as_ref())}));
            }
        }
        None if n > 24 => {}
        _ => ctx.rep.violation("ids/hint", json!({"length": n})),
    }
    ctx.rep.eval(Some(fnv(&base) ^ ty as u64));
}

pub fn text(ctx: &Ctx) {
    let (shard, shards) = ctx.shard;
    let t = table();
    let mut n = 0u64;
    for a in 0..=255u8 {
        if a as usize % shards != shard {
            continue;
        }
        check_bytes(ctx, &[a], "exhaustive");
        for b in 0..=255u8 {
            n += 1;
            if !check_bytes(ctx, &[a, b], "exhaustive") {
                return;
            }
            for c in (b % 5..=255u8).step_by(ctx.n(23, 1)) {
                n += 1;
                if !check_bytes(ctx, &[a, b, c], "exhaustive") {
                    return;
                }
            }
        }
    }
    ctx.rep.count("byte strings exhaustively", n);
    ctx.rep.eval(Some(1));
    // Every text of four of these characters, alone and at the end of a longer one.
    let mut chars: Vec<u8> = ALPHABET.to_vec();
    chars.extend(b"=+/ \n\0@[`{\x80\xff");
    let mut n = 0u64;
    let step = ctx.n(3, 1);
    for (i, a) in chars.iter().enumerate() {
        if i % shards != shard {
            continue;
        }
        for b in &chars {
            for c in &chars {
                for (l, d) in chars.iter().enumerate() {
                    // all that end in a padding or a character next to the edges, a part of the others
                    if l < 64 && (l + n as usize) % step != 0 {
                        n += 1;
                        continue;
                    }
                    n += 1;
                    if !check_text(ctx, &[*a, *b, *c, *d], &t, "exhaustive") {
                        return;
                    }
                }
                if n % 11 == 0 && !check_text(ctx, &[b'A', b'-', b'_', b'9', *a, *b, *c, b'='], &t, "exhaustive end") {
                    return;
                }
            }
            for c in &chars {
                check_text(ctx, &[*a, *b, *c], &t, "exhaustive short");
                check_text(ctx, &[*a, *b, *c, b'=', b'A', b'A', b'A', b'A'], &t, "padding inside");
            }
            check_text(ctx, &[*a, *b], &t, "exhaustive short");
        }
        check_text(ctx, &[*a], &t, "exhaustive short");
    }
    ctx.rep.count("texts of four exhaustively", n);
    ctx.rep.eval(Some(2));
    check_text(ctx, b"", &t, "empty");
    for k in 1..12 {
        check_text(ctx, &vec![b'='; k], &t, "only padding");
    }
    ctx.cases("text", ctx.n(60_000, 2_000_000), 1, |ctx, case, rng| {
        if rng.chance(1, 3) {
            return ids(ctx, rng, &t);
        }
        let n = if rng.chance(1, 20) { rng.below(100_000) } else { rng.below(300) };
        let data = match rng.below(4) {
            0 => vec![0xff; n],
            1 => vec![0; n],
            _ => rng.bytes(n),
        };
        if !check_bytes(ctx, &data, "random") {
            return;
        }
        let text = encode(&data).into_bytes();
        for _ in 0..6 {
            let mut m = text.clone();
            for _ in 0..rng.range(1, 2) {
                let at = if rng.chance(1, 2) { m.len().saturating_sub(1 + rng.below(5)) } else { rng.below(m.len() + 1) };
                match rng.below(6) {
                    0 if at < m.len() => m[at] = *rng.pick(&chars),
                    1 if at < m.len() => m[at] = rng.u64() as u8,
                    2 if at < m.len() => {
                        m.remove(at);
                    }
                    3 => m.insert(at.min(m.len()), *rng.pick(&chars)),
                    4 => m.truncate(at),
                    _ => m.extend(b"===".iter().take(rng.range(1, 3))),
                }
            }
            check_text(ctx, &m, &t, "altered");
            ctx.rep.eval(Some(fnv(&m)));
        }
        if case < 20 && n < 40 {
            ctx.rep.sample(json!({"bytes": hex(&data), "text": data.base64()}));
        }
    });
}
