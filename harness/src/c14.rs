//! C14: a panic in user code never corrupts the tree's memory. For an operation at some point of a history,
//! every callback that the operation makes is made to panic in turn, each time on a fresh copy of the tree.
use crate::alloc;
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use crate::ledger;
use crate::trk::*;
use rusty_rtree::{RTree, RTreeConfig};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
enum Op {
    Step(TStep),
    Clone,
    CloneFrom,
    Browse(u64),
    BrowseMut(u64),
    /// insertions of all these, one after the other
    Many(Vec<TStep>),
}
fn run<P: Pad>(op: &Op, t: &mut TTree<P>, o: &mut TTree<P>, s: &IdSet) {
    match op {
        Op::Step(st) => {
            apply_t(t, st);
        }
        Op::Clone => {
            let u = t.clone();
            reach(&u);
        }
        Op::CloneFrom => {
            o.clone_from(t);
            reach(o);
        }
        Op::Browse(seed) => {
            let mut rng = Rng::new(*seed);
            browse(&mut rng, t, o, s, 25);
        }
        Op::BrowseMut(seed) => {
            let mut rng = Rng::new(*seed);
            browse_mut(&mut rng, t, s, 15);
        }
        Op::Many(v) => {
            for st in v {
                apply_t(t, st);
            }
        }
    }
}
fn name(op: &Op) -> String {
    match op {
        Op::Many(v) => format!("{} operations in a row", v.len()),
        o => format!("{o:?}"),
    }
}
#[derive(PartialEq)]
enum How {
    Done,
    Injected,
    Other(String),
}
fn guarded(f: impl FnOnce()) -> How {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => How::Done,
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() {
                How::Injected
            } else {
                How::Other(last_panic())
            }
        }
    }
}
/// Reads the tree in several ways; only memory and len() are judged.
fn readable<P: Pad>(t: &TTree<P>, what: &dyn Fn() -> String) -> R {
    let mut r: R = Ok(());
    let h = guarded(|| {
        r = (|| {
            let (k, v) = reach(t);
            let n = t.len();
            ensure!(k.len() == n, "{}: iter yields {} entries, len() is {n}", what(), k.len());
            for (x, name) in [(&k, "key"), (&v, "value")] {
                ensure!(x.windows(2).all(|w| w[0] != w[1]), "{}: iter yields the same {name} object twice", what());
            }
            let n2 = t
                .filter_iter::<TKey<P>, _>(TAll)
                .map(|(k, v)| {
                    k.touch();
                    v.touch();
                })
                .count();
            ensure!(n2 == n, "{}: an accept-all filter yields {n2} entries, len() is {n}", what());
            let n3 = t.iter_asc_by(TRank(5)).count();
            ensure!(n3 == n, "{}: a ranked iteration yields {n3} entries, len() is {n}", what());
            Ok(())
        })();
    });
    r?;
    match h {
        How::Done => {}
        How::Injected => fail!("{}: harness: fuse left armed", what()),
        How::Other(m) => fail!("{}: reading the tree panicked: {m}", what()),
    }
    if let Some(e) = ledger::errors() {
        fail!("{}: {e}", what());
    }
    Ok(())
}

fn gone<T>(t: T, what: &dyn Fn() -> String) -> R {
    match guarded(|| drop(t)) {
        How::Done => {}
        How::Injected => fail!("{}: harness: fuse left armed", what()),
        How::Other(m) => fail!("{}: dropping panicked: {m}", what()),
    }
    if let Some(e) = ledger::errors() {
        fail!("{}, when it was dropped: {e}", what());
    }
    Ok(())
}

fn scenario<P: Pad>(rng: &mut Rng, stats: &mut Stats) -> R {
    ledger::reset();
    let tiny = stats.tier == Tier::Tiny;
    let mut cfg = pick_cfg(rng, stats.tier, false);
    if rng.chance(8) {
        cfg = RTreeConfig { max_children: rng.below(2), min_children: rng.below(3) };
    }
    let mut h = TH::new(rng, if tiny { Tier::Tiny } else { Tier::Quick }, size_cap(cfg, stats.tier).min(120));
    let mut made = None;
    guarded(|| made = Some(RTree::new(cfg)));
    let mut t: TTree<P> = match made {
        Some(t) => t,
        // a configuration that is refused altogether
        None if cfg.max_children < 2 => return Ok(()),
        None => fail!("RTree::new panicked with max {} min {}", cfg.max_children, cfg.min_children),
    };
    let mut other: TTree<P> = RTree::new(pick_cfg(rng, stats.tier, false));
    let mut fp = rng.next();
    let mut depth = 0;
    let mut log = vec![];
    // With max_children < 2 insertions may be refused; then there is nothing to compare a model with.
    let odd = cfg.max_children < 2;
    let points = if tiny { 1 } else { 1 + rng.below(4) };
    for _ in 0..points {
        let run_up = rng.below(if tiny { 12 } else { 90 });
        for _ in 0..run_up {
            let Some(st) = h.next(rng) else { break };
            if odd {
                guarded(|| {
                    apply_t(&mut t, &st);
                });
            } else {
                let out = apply_t(&mut t, &st);
                h.settle(&st, &out)?;
            }
        }
        if odd {
            readable(&t, &|| format!("a tree with max_children {}", cfg.max_children))?;
        }
        if rng.chance(40) {
            other = t.clone();
        }
        if let Some(e) = ledger::errors() {
            fail!("before any fault: {e}");
        }
        let mut ids = IdSet::default();
        for (k, _) in t.iter() {
            ids.put(k.id);
        }
        let s = IdSet::of(ids.iter().filter(|_| rng.chance(50)));
        let next = |h: &mut TH, rng: &mut Rng| match rng.below(4) {
            0 => {
                // remove something that is there
                let k = h.m.random(rng).map(|u| h.m.m[&u].0);
                k.map(|k| TStep::Remove(h.key(&k))).or_else(|| h.next(rng))
            }
            1 => {
                // replace something that is there
                let u = h.m.uid();
                let k = h.m.random(rng).map(|u| h.m.m[&u].0);
                k.map(|k| TStep::Unique(h.key(&k), u)).or_else(|| h.next(rng))
            }
            _ => h.next(rng),
        };
        let op = match rng.below(10) {
            0 => Op::Clone,
            1 => Op::CloneFrom,
            2 => Op::Browse(rng.next()),
            3 => Op::BrowseMut(rng.next()),
            4 => Op::Many((0..3 + rng.below(6)).filter_map(|_| next(&mut h, rng)).collect()),
            _ => match next(&mut h, rng) {
                Some(st) => Op::Step(st),
                None => Op::Clone,
            },
        };
        // how many callbacks does it make?
        let mut dry = t.clone();
        let mut dry_o = other.clone();
        let a = ledger::ticks();
        let done = guarded(|| run(&op, &mut dry, &mut dry_o, &s));
        let total = ledger::ticks() - a;
        if let How::Other(m) = &done {
            ensure!(odd, "{}: panicked without a fault: {m}", name(&op));
        }
        drop(dry);
        drop(dry_o);
        let limit = if tiny { 6 } else { 60 };
        let all = total <= limit;
        let ks: Vec<u64> = if all { (0..total).collect() } else { (0..limit).map(|_| rng.below(total as usize) as u64).collect() };
        log.push(format!("{} at {} entries: {} of {total} callbacks made to panic", name(&op), t.len(), ks.len()));
        stats.add("operations_faulted", 1);
        stats.add("operations_with_every_fault_point", all as u64);
        stats.max("most_callbacks_of_one_operation", total);
        let keep = |t: &TTree<P>| t.iter().map(|(k, v)| (k.id, v.uid)).collect::<Vec<_>>();
        let mut worst: Option<(TTree<P>, u64)> = None;
        for k in ks {
            let mut x = t.clone();
            let mut y = other.clone();
            let before = (keep(&x), keep(&y));
            let mark = alloc::mark();
            ledger::arm(k);
            let how = guarded(|| run(&op, &mut x, &mut y, &s));
            let unburnt = ledger::disarm();
            let what = || format!("max {} min {}, {} entries, callback {k} of {total} of {} panicked", cfg.max_children, cfg.min_children, before.0.len(), name(&op));
            match how {
                How::Injected => stats.add("faults_injected", 1),
                How::Other(m) => ensure!(odd, "{}: it panicked otherwise: {m}", what()),
                How::Done => ensure!(!unburnt || odd, "{}: harness: no callback {k}", what()),
            }
            if let Some(e) = ledger::errors() {
                fail!("{}: {e}", what());
            }
            readable(&x, &what)?;
            readable(&y, &what)?;
            if matches!(op, Op::Clone | Op::Browse(_) | Op::BrowseMut(_)) {
                ensure!((keep(&x), keep(&y)) == before, "{}: the entries changed", what());
            }
            if let Some(e) = alloc::misuse(&mark) {
                fail!("{}: {e}", what());
            }
            fp = mix2(fp, k ^ x.len() as u64);
            depth = depth.max(x.len());
            // go on with it for a while; whatever it does, memory must stay sound
            if rng.chance(25) {
                for i in 0..1 + rng.below(15) {
                    let Some(st) = next(&mut h, rng) else { break };
                    if rng.chance(20) {
                        ledger::arm(rng.below(20) as u64);
                    }
                    let r = guarded(|| {
                        apply_t(&mut x, &st);
                    });
                    if let How::Other(_) = r {
                        stats.add("later_panics", 1);
                    }
                    ledger::disarm();
                    stats.add("later_operations", 1);
                    if let Some(e) = ledger::errors() {
                        fail!("{}: and then, at later operation {i}, {st:?}: {e}", what());
                    }
                }
                readable(&x, &|| format!("{} and some more operations", what()))?;
            }
            if rng.chance(10) {
                worst = Some((x, k));
                gone(y, &what)?;
            } else if rng.chance(50) {
                gone(x, &what)?;
                gone(y, &what)?;
            } else {
                gone(y, &what)?;
                gone(x, &what)?;
            }
            if let Some(e) = alloc::misuse(&mark) {
                fail!("{}, when dropped: {e}", what());
            }
        }
        // the history proper goes on with the operation done in full, or with what a fault left
        if let (Some((x, _)), true) = (worst, rng.chance(30)) {
            if !odd {
                // contents are whatever they are now
                let m: Vec<(IdKey, u64, u64)> = x.iter().map(|(k, v)| (k.plain(), v.uid, v.pay)).collect();
                t = x;
                h.m.m = m.iter().map(|(k, u, p)| (*u, (sbox::<i32, 2>(&[k.lo[0] as i64, k.lo[1] as i64], &[k.hi[0] as i64, k.hi[1] as i64]), *p))).collect();
                break;
            }
        }
    }
    let what = || format!("max {} min {}, at the end", cfg.max_children, cfg.min_children);
    readable(&t, &what)?;
    gone(t, &what)?;
    gone(other, &what)?;
    if depth > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.max("largest_tree", depth as u64);
    stats.sample(|| format!("max {} min {}, up to {depth} entries: {}", cfg.max_children, cfg.min_children, log.join("; ")));
    ledger::reset();
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    let f: &[fn(&mut Rng, &mut Stats) -> R] =
        &[scenario::<()>, scenario::<()>, scenario::<Box<u64>>, scenario::<String>, scenario::<Al128>];
    let f = rng.pick(f);
    f(rng, stats)
}
