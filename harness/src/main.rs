//! rtv: runs monitored workloads against rusty-rtree.
//!   rtv run PROP --seed N --shard I --shards N --cases N --secs S --tier T --out FILE --prog FILE
//!   rtv case PROP CASESEED --tier T
#![allow(dead_code, unused_imports)]
mod alloc;
#[macro_use]
mod common;
mod bulk;
#[cfg(any(feature = "c04", feature = "c06", feature = "c09", feature = "c10", feature = "c12", feature = "c20", feature = "c21", feature = "c22", feature = "c23", feature = "c24"))]
mod large;
mod geo;
mod hist;
mod idb;
mod keys;
mod ledger;
mod trk;

#[cfg(feature = "c01")]
mod c01;
#[cfg(feature = "c02")]
mod c02;
#[cfg(feature = "c03")]
mod c03;
#[cfg(feature = "c04")]
mod c04;
#[cfg(feature = "c05")]
mod c05;
#[cfg(feature = "c06")]
mod c06;
#[cfg(feature = "c07")]
mod c07;
#[cfg(feature = "c08")]
mod c08;
#[cfg(feature = "c09")]
mod c09;
#[cfg(feature = "c10")]
mod c10;
#[cfg(feature = "c11")]
mod c11;
#[cfg(feature = "c12")]
mod c12;
#[cfg(feature = "c13")]
mod c13;
#[cfg(any(feature = "c13", feature = "c15"))]
mod handed;
#[cfg(feature = "c14")]
mod c14;
#[cfg(feature = "c15")]
mod c15;
#[cfg(feature = "c16")]
mod c16;
#[cfg(feature = "c17")]
mod c17;
#[cfg(feature = "c18")]
mod c18;
#[cfg(feature = "c19")]
mod c19;
#[cfg(feature = "c20")]
mod c20;
#[cfg(feature = "c21")]
mod c21;
#[cfg(feature = "c22")]
mod c22;
#[cfg(feature = "c23")]
mod c23;
#[cfg(feature = "c24")]
mod c24;
#[cfg(feature = "c25")]
mod c25;
#[cfg(any(feature = "c01", feature = "c03", feature = "c05", feature = "c07", feature = "c08", feature = "c19"))]
mod ways;

use common::*;
use std::collections::HashMap;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

type Case = fn(&mut Rng, &mut Stats) -> R;

fn prop(name: &str) -> Option<Case> {
    let f: Case = match name {
        #[cfg(feature = "c01")]
        "C01" => c01::case,
        #[cfg(feature = "c02")]
        "C02" => c02::case,
        #[cfg(feature = "c03")]
        "C03" => c03::case,
        #[cfg(feature = "c04")]
        "C04" => c04::case,
        #[cfg(feature = "c05")]
        "C05" => c05::case,
        #[cfg(feature = "c06")]
        "C06" => c06::case,
        #[cfg(feature = "c07")]
        "C07" => c07::case,
        #[cfg(feature = "c08")]
        "C08" => c08::case,
        #[cfg(feature = "c09")]
        "C09" => c09::case,
        #[cfg(feature = "c10")]
        "C10" => c10::case,
        #[cfg(feature = "c11")]
        "C11" => c11::case,
        #[cfg(feature = "c12")]
        "C12" => c12::case,
        #[cfg(feature = "c13")]
        "C13" => c13::case,
        #[cfg(feature = "c14")]
        "C14" => c14::case,
        #[cfg(feature = "c15")]
        "C15" => c15::case,
        #[cfg(feature = "c16")]
        "C16" => c16::case,
        #[cfg(feature = "c17")]
        "C17" => c17::case,
        #[cfg(feature = "c18")]
        "C18" => c18::case,
        #[cfg(feature = "c19")]
        "C19" => c19::case,
        #[cfg(feature = "c20")]
        "C20" => c20::case,
        #[cfg(feature = "c21")]
        "C21" => c21::case,
        #[cfg(feature = "c22")]
        "C22" => c22::case,
        #[cfg(feature = "c23")]
        "C23" => c23::case,
        #[cfg(feature = "c24")]
        "C24" => c24::case,
        #[cfg(feature = "c25")]
        "C25" => c25::case,
        _ => return None,
    };
    Some(f)
}

fn one(f: Case, seed: u64, stats: &mut Stats) -> R {
    let mut rng = Rng::new(seed);
    match catch_unwind(AssertUnwindSafe(|| f(&mut rng, stats))) {
        Ok(r) => r,
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                return Err(Fail("an injected panic escaped the workload".into()));
            }
            Err(Fail(format!("panic: {}", last_panic())))
        }
    }
}

static BEAT: AtomicU64 = AtomicU64::new(0);

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let name = args.get(2).cloned().unwrap_or_default();
    let Some(f) = prop(&name) else {
        eprintln!("unknown property {name}");
        std::process::exit(2);
    };
    let tier = match opt("--tier").as_deref() {
        Some("tiny") => Tier::Tiny,
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut stats = Stats::new(tier);
    match args[1].as_str() {
        "case" => {
            let seed: u64 = args[3].parse().expect("case seed");
            stats.verbose = true;
            match one(f, seed, &mut stats) {
                Ok(()) => println!("OK {}", stats.json()),
                Err(e) => {
                    println!("FAIL {}", e.0);
                    std::process::exit(1);
                }
            }
        }
        "run" => {
            let num = |k: &str, d: u64| opt(k).map_or(d, |v| v.parse().expect(k));
            let (seed, shard, shards) = (num("--seed", 1), num("--shard", 0), num("--shards", 1));
            let (cases, secs) = (num("--cases", 100), num("--secs", 60));
            let hang = num("--hang", 90);
            let mut prog = opt("--prog").map(|p| std::fs::File::create(p).expect("progress file"));
            if !cfg!(miri) {
                static UP: AtomicU64 = AtomicU64::new(0);
                std::thread::spawn(move || {
                    UP.store(1, Relaxed);
                    let mut last = (0, Instant::now());
                    loop {
                        std::thread::sleep(Duration::from_millis(500));
                        let b = BEAT.load(Relaxed);
                        if b != last.0 {
                            last = (b, Instant::now());
                        } else if last.1.elapsed().as_secs() > hang {
                            eprintln!("HANG: one case has run for more than {hang} s");
                            std::process::exit(4);
                        }
                    }
                });
                // let the start of that thread settle: it frees memory, and the allocator counts
                while UP.load(Relaxed) == 0 {
                    std::thread::yield_now();
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            let base = mix2(seed, name.bytes().fold(0, |a, b| mix2(a, b as u64)));
            let t0 = Instant::now();
            let mut failed = None;
            let mut n = 0u64;
            let mut i = shard;
            while i < cases {
                if t0.elapsed().as_secs() >= secs {
                    break;
                }
                let cs = mix2(base, i);
                if let Some(p) = prog.as_mut() {
                    p.seek(SeekFrom::Start(0)).unwrap();
                    write!(p, "{cs:20}").unwrap();
                }
                if cfg!(miri) {
                    eprintln!("CASE {cs}");
                }
                BEAT.fetch_add(1, Relaxed);
                n += 1;
                let t1 = Instant::now();
                let r = one(f, cs, &mut stats);
                let ms = t1.elapsed().as_millis() as u64;
                if ms > 1000 && stats.mx.get("slowest_case_ms").is_none_or(|m| *m < ms) {
                    eprintln!("SLOW {cs} {ms} ms");
                }
                stats.max("slowest_case_ms", ms);
                if let Err(e) = r {
                    failed = Some((cs, e.0));
                    break;
                }
                i += shards;
            }
            let wall = t0.elapsed().as_secs_f64();
            let fj = match &failed {
                None => "null".to_string(),
                Some((cs, m)) => {
                    let mut s = Stats::new(tier);
                    s.sample(|| m.clone());
                    let j = s.json();
                    let a = j.find("\"samples\":[").unwrap() + 11;
                    format!("{{\"case\":{cs},\"msg\":{}}}", &j[a..j.len() - 2])
                }
            };
            let out = format!("{{\"cases\":{n},\"wall\":{wall:.2},\"failed\":{fj},\"stats\":{}}}", stats.json());
            match opt("--out") {
                Some(p) => std::fs::write(p, out).expect("write result"),
                None => println!("RESULT {out}"),
            }
            std::process::exit(if failed.is_some() { 1 } else { 0 });
        }
        _ => std::process::exit(2),
    }
}
