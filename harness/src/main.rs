//! Monitors for the properties in /verif/properties.jsonl. Every subcommand drives the real code of /repo with a
//! workload, observes it, and writes what it saw as JSON.
#![allow(warnings)]
mod codec;
mod common;
mod crash;
mod foreign;
mod erase;
mod frags;
mod fresh;
mod guard;
mod gen;
mod golden;
mod jitter;
mod lin;
mod stm;
mod stress;
mod hostile;
mod io;
mod keys;
mod leak;
mod life;
mod memhook;
mod mach;
mod nc;
mod procs;
mod redact;
mod rngtap;
mod shares;
mod store;
mod sync;
mod tamper;
mod util;
mod vclock;

use std::time::{Duration, Instant};
use util::*;

fn main() {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut take = |name: &str| -> Option<String> {
        let i = args.iter().position(|a| a == name)?;
        args.remove(i);
        Some(args.remove(i))
    };
    let seed: u64 = take("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match take("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scratch = take("--scratch").expect("--scratch DIR");
    let out = take("--out").unwrap_or_default();
    let budget: f64 = take("--budget").and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let shard = take("--shard").map_or((0, 1), |s| {
        let (a, b) = s.split_once('/').expect("--shard K/N");
        (a.parse().unwrap(), b.parse().unwrap())
    });
    let job = args.remove(0);
    install_panic_hook();
    install_crash_handler();
    let ctx = Ctx {
        prop: job.clone(),
        seed,
        tier,
        scratch: scratch.into(),
        started: Instant::now(),
        budget: Duration::from_secs_f64(budget),
        out: out.clone(),
        shard,
        args,
        rep: Report::default(),
    };
    let r = guarded(|| dispatch(&job, &ctx));
    if let Err(p) = r {
        ctx.rep.violation("panic", serde_json::json!({"job": job, "panic": p}));
    }
    let j = ctx.rep.to_json().to_string();
    if out.is_empty() {
        println!("{j}");
    } else {
        std::fs::write(&out, j).expect("write report");
    }
}

fn dispatch(job: &str, ctx: &Ctx) {
    match job {
        "lz4" => codec::lz4(ctx),
        "text" => codec::text(ctx),
        "paths" => keys::paths(ctx),
        "passphrases" => keys::passphrases(ctx),
        "lin" => lin::lin(ctx),
        "stm-load" => self::stm::load_job(ctx),
        "stm" => self::stm::stm(ctx),
        "stress" => stress::stress(ctx),
        "stress-memory" => stress::memory(ctx),
        "redact" => redact::redact(ctx),
        "registry" => lin::registry(ctx),
        "golden-make" => golden::make(ctx),
        "golden-check" => golden::check(ctx),
        "vault" => mach::vault(ctx),
        "oracle-log" => procs::oracle_log(ctx),
        "store" => store::store(ctx),
        "sync" => sync::clients(ctx),
        "merge" => sync::snapshots(ctx),
        "foreign" => foreign::foreign(ctx),
        "sealed" => foreign::sealed(ctx),
        "hostile" => hostile::hostile(ctx),
        "crash" => crash::crash(ctx),
        "racing" => crash::racing(ctx),
        "leak" => leak::leak(ctx),
        "guard" => guard::guard(ctx),
        "nc" => nc::nc(ctx),
        "shares" => shares::shares(ctx),
        "fresh" => fresh::fresh(ctx),
        "frags" => frags::frags(ctx),
        "erase" => erase::erase(ctx),
        "tamper" => tamper::tamper(ctx),
        "life" => life::life(ctx),
        "dump" => life::dump_job(ctx),
        "chains" => procs::chains(ctx),
        other => panic!("unknown job {other}"),
    }
}
