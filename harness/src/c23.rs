//! C23: searches stream. The questions a traversal asks its filter are logged together with what it yields:
//! whatever is accepted is yielded before anything else is asked, and no key is tested before it must be. The
//! memory that traversals of large trees take is measured at the allocator. Iterators that ended stay ended, and
//! what they say about how much is left is true.
use crate::alloc;
use crate::c05::{IdRank, IdRankOpt};
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use rusty_rtree::bounds::{AABB, SAABB};
use rusty_rtree::filter::{IntersectsFilter, JoinFilter, NoFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::RefCell;

/// Runs an iterator to its end, `each` on every item; it must end for good and estimate truly.
fn drain<I: Iterator>(what: &str, mut it: I, mut each: impl FnMut(I::Item) -> R) -> Result<usize, Fail> {
    let mut hints = vec![it.size_hint()];
    while let Some(x) = it.next() {
        each(x)?;
        hints.push(it.size_hint());
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{what}: the iterator went on after its end");
    }
    let n = hints.len() - 1;
    for (i, (lo, hi)) in hints.iter().enumerate() {
        ensure!(*lo <= n - i && hi.is_none_or(|h| h >= n - i), "{what}: the iterator claimed that between {lo} and {hi:?} entries were left when there were {}", n - i);
    }
    Ok(n)
}

/// The events since `at`, of which each accepted key must be the last before it is yielded.
fn spatial_log(what: &str, log: &[Ev], stats: &mut Stats) -> Result<u64, Fail> {
    let mut fp = 5;
    for (i, e) in log.iter().enumerate() {
        match e {
            Ev::K(k, true) => {
                ensure!(i + 1 == log.len() || matches!(&log[i + 1], Ev::Y(y) if y == k), "{what}: after key {k} was accepted, it was not yielded before {:?}", log.get(i + 1));
                fp = mix2(fp, *k as u64);
            }
            Ev::Y(k) => ensure!(i > 0 && matches!(&log[i - 1], Ev::K(y, true) if y == k), "{what}: key {k} was yielded after {:?}", i.checked_sub(1).map(|i| &log[i])),
            _ => fp = mix2(fp, 1),
        }
    }
    stats.add("trace_events", log.len() as u64);
    Ok(fp)
}

fn spatial(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let (mut t, m) = id_build(rng, cfg, stats.tier, size_cap(cfg, stats.tier).min(300))?;
    let mut fp = 0;
    for i in 0..4 {
        let seed = rng.next();
        let pct = rng.pick(&[0, 0, 5, 30]);
        let kpct = rng.pick(&[0, 20, 80, 100]);
        let stop = if rng.chance(40) { rng.below(m.live.len() + 1) } else { usize::MAX };
        let log = RefCell::new(vec![]);
        let what = format!("{} on {} entries (max {} min {})", if i % 2 == 0 { "filter_iter" } else { "filter_iter_mut" }, m.live.len(), cfg.max_children, cfg.min_children);
        let f = Rec::new(&log, |_, b: &IdB| mix2(seed, b.ids.hash()) % 100 >= pct, |k| mix2(seed, k as u64) % 100 >= kpct);
        let early = |log: &RefCell<Vec<Ev>>| match log.borrow().iter().find(|e| matches!(e, Ev::K(..))) {
            Some(e) => Err(Fail(format!("{what}: {e:?} was asked before the first entry was wanted"))),
            None => Ok(()),
        };
        macro_rules! go {
            ($it:expr) => {{
                let it = $it;
                early(&log)?;
                if stop == usize::MAX {
                    drain(&what, it, |(k, _)| {
                        log.borrow_mut().push(Ev::Y(k.id));
                        Ok(())
                    })?;
                } else {
                    for (k, _) in it.take(stop) {
                        log.borrow_mut().push(Ev::Y(k.id));
                    }
                    stats.add("abandoned", 1);
                }
            }};
        }
        if i % 2 == 0 {
            go!(t.filter_iter::<IdKey, _>(f));
        } else {
            go!(t.filter_iter_mut::<IdKey, _>(f));
        }
        fp = mix2(fp, spatial_log(&what, &log.into_inner(), stats)?);
    }
    // the others, only for how they end
    let n = m.live.len();
    ensure!(drain("iter", t.iter(), |_| Ok(()))? == n, "iter yielded another number than len()");
    ensure!(drain("iter_mut", t.iter_mut(), |_| Ok(()))? == n, "iter_mut yielded another number than len()");
    let rk = IdRank::new(rng);
    ensure!(drain("iter_asc_by", t.iter_asc_by(rk), |_| Ok(()))? == n, "iter_asc_by yielded another number than len()");
    ensure!(drain("iter_asc_by_mut", t.iter_asc_by_mut(rk), |_| Ok(()))? == n, "iter_asc_by_mut yielded another number than len()");
    drain("filter_iter_asc_by", t.filter_iter_asc_by(IdRankOpt(rk)), |_| Ok(()))?;
    drain("filter_iter_asc_by_mut", t.filter_iter_asc_by_mut(IdRankOpt(rk)), |_| Ok(()))?;
    stats.add("spatial_traversals", 10);
    if n > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.max("largest_tree", n as u64);
    stats.sample(|| format!("10 traversals of {n} entries (max {} min {})", cfg.max_children, cfg.min_children));
    Ok(())
}

fn join(rng: &mut Rng, stats: &mut Stats) -> R {
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let (n0, n1) = (rng.pick(&[5usize, 20, 60]), rng.pick(&[5usize, 20, 60]));
    let (t0, m0) = id_build(rng, c0, stats.tier, n0)?;
    let (t1, m1) = id_build(rng, c1, stats.tier, n1)?;
    let mut fp = 9;
    for i in 0..4 {
        let log = RefCell::new(vec![]);
        let f = JRec { log: &log, seed: rng.next(), pct_b: rng.pick(&[0, 0, 5, 30]), pct_k: rng.pick(&[0, 50, 95]) };
        let what = format!("{} of {} entries (max {}) with {} entries (max {})", if i % 2 == 0 { "join" } else { "left_join" }, m0.live.len(), c0.max_children, m1.live.len(), c1.max_children);
        let keys = |log: &RefCell<Vec<JEv>>| log.borrow().iter().filter(|e| matches!(e, JEv::K(..))).count();
        let stop = if rng.chance(40) { rng.below(20) } else { usize::MAX };
        if i % 2 == 0 {
            let it = t0.join::<_, _, _, IdKey, IdKey, _>(&t1, f);
            ensure!(keys(&log) == 0, "{what}: keys were tested before the first pair was wanted");
            if stop == usize::MAX {
                drain(&what, it, |(a, b)| {
                    log.borrow_mut().push(JEv::Y(a.0.id, b.0.id));
                    Ok(())
                })?;
            } else {
                for (a, b) in it.take(stop) {
                    log.borrow_mut().push(JEv::Y(a.0.id, b.0.id));
                }
            }
        } else {
            let mut outer = t0.left_join::<_, _, _, IdKey, IdKey, _>(&t1, f);
            ensure!(keys(&log) == 0, "{what}: keys were tested before the first entry was wanted");
            let mut n = 0;
            loop {
                let k0 = keys(&log);
                let x = outer.next();
                ensure!(keys(&log) == k0, "{what}: advancing to the next entry on the left tested keys");
                let Some(((k, _), it)) = x else { break };
                n += 1;
                let part = if rng.chance(20) { rng.below(4) } else { usize::MAX };
                if part == usize::MAX {
                    drain(&what, it, |(r, _)| {
                        log.borrow_mut().push(JEv::Y(k.id, r.id));
                        Ok(())
                    })?;
                } else {
                    for (r, _) in it.take(part) {
                        log.borrow_mut().push(JEv::Y(k.id, r.id));
                    }
                }
                if n == stop {
                    break;
                }
            }
            if n != stop {
                for _ in 0..3 {
                    ensure!(outer.next().is_none(), "{what}: the iterator went on after its end");
                }
                ensure!(n == m0.live.len(), "{what}: {n} entries on the left");
            }
        }
        let log = log.into_inner();
        for (i, e) in log.iter().enumerate() {
            match e {
                JEv::K(a, b, true) => {
                    ensure!(i + 1 == log.len() || matches!(&log[i + 1], JEv::Y(x, y) if x == a && y == b), "{what}: after the pair of {a} and {b} was accepted, it was not yielded before {:?}", log.get(i + 1));
                    fp = mix2(fp, mix2(*a as u64, *b as u64));
                }
                JEv::Y(a, b) => ensure!(i > 0 && matches!(&log[i - 1], JEv::K(x, y, true) if x == a && y == b), "{what}: the pair of {a} and {b} was yielded unaccepted"),
                _ => {}
            }
        }
        stats.add("join_trace_events", log.len() as u64);
    }
    stats.add("joins", 4);
    if m0.live.len() + m1.live.len() > c0.max_children + c1.max_children {
        stats.nontrivial(fp);
    }
    Ok(())
}

#[derive(Clone, Copy)]
struct Meet;
impl<B: Intersects<B>, K: Intersects<K>> JoinFilter<B, B, K, K> for Meet {
    fn test_bounds(&self, a: &B, b: &B) -> bool {
        a.intersects(b)
    }
    fn test_key(&self, a: &K, b: &K) -> bool {
        a.intersects(b)
    }
}
type Box2 = SAABB<i32, 2>;

/// An upper bound on the levels of nodes of a tree whose nodes, except the root, have at least `min` children.
fn levels(n: usize, min: usize) -> i64 {
    let (mut d, mut need) = (1, 2 * min);
    while need <= n {
        need *= min;
        d += 1;
    }
    d
}

fn memory(rng: &mut Rng, stats: &mut Stats) -> R {
    if !alloc::ACTIVE {
        return Ok(());
    }
    let build = |rng: &mut Rng, n: usize| {
        let min = rng.pick(&[2, 2, 3, 4, 6]);
        let cfg = RTreeConfig { max_children: 2 * min + rng.below(4), min_children: min };
        let mut t: RTree<Box2, Box2, u64> = RTree::new(cfg);
        let span = rng.pick(&[60, 1000, 100_000]);
        for i in 0..n {
            let lo: [i32; 2] = std::array::from_fn(|_| rng.range(0, span) as i32);
            let hi = std::array::from_fn(|d| lo[d] + rng.below(span as usize / 30) as i32);
            t.insert(AABB { min: SVec(lo), max: SVec(hi) }, i as u64);
        }
        (t, cfg)
    };
    let n = 1500 + rng.below(1500);
    let (mut t, cfg) = build(rng, n);
    let n1 = rng.pick(&[10, 300, 1500]);
    let (t1, cfg1) = build(rng, n1);
    let lim = |d: i64| 2048 + 256 * (d + 2);
    let d = levels(n, cfg.min_children);
    let dj = d.max(levels(n1, cfg1.min_children));
    let mut worst = 0;
    let mut held = |what: &str, lim: i64, at: i64, got: u64| -> R {
        let p = alloc::peak_since(at);
        ensure!(p <= lim, "{what} of a tree of {n} entries (max {} min {}, at most {d} levels of nodes) took {p} bytes of memory at a time ({got} entries seen)", cfg.max_children, cfg.min_children);
        worst = worst.max(p);
        Ok(())
    };
    macro_rules! run {
        ($what:expr, $lim:expr, $it:expr) => {{
            let at = alloc::peak_reset();
            let mut c = 0u64;
            for _ in $it {
                c += 1;
                if c > 60_000 {
                    break;
                }
            }
            held($what, $lim, at, c)?;
            stats.add("entries_streamed", c);
            c
        }};
    }
    let all = AABB { min: SVec([i32::MIN; 2]), max: SVec([i32::MAX; 2]) };
    let mut fp = 0;
    fp += run!("iter", lim(d), t.iter());
    fp += run!("iter_mut", lim(d), t.iter_mut());
    fp += run!("filter_iter", lim(d), t.filter_iter::<Box2, _>(IntersectsFilter::new(all.clone())));
    fp += run!("filter_iter_mut", lim(d), t.filter_iter_mut::<Box2, _>(IntersectsFilter::new(all.clone())));
    fp += run!("filter_iter", lim(d), t.filter_iter::<Box2, _>(NoFilter));
    fp += run!("join", lim(dj), t.join::<_, _, _, Box2, Box2, _>(&t1, Meet));
    let part = rng.below(4);
    fp += run!(
        "left_join",
        2 * lim(dj),
        t.left_join::<_, _, _, Box2, Box2, _>(&t1, Meet).map(|(_, it)| match part {
            0 => it.count(),
            1 => it.take(1).count(),
            2 => 0,
            _ => {
                let mut it = it;
                it.next().is_some() as usize
            }
        })
    );
    let probe: Vec<Box2> = t.iter().step_by(97).map(|(k, _)| k.clone()).collect();
    let at = alloc::peak_reset();
    for k in &probe {
        ensure!(t.get(k).is_some() && t.get_mut(k).is_some(), "a key was not found");
    }
    ensure!(t.len() == n && !t.is_empty(), "len() is wrong");
    held("lookup and len", lim(d), at, probe.len() as u64)?;
    stats.add("memory_measurements", 8);
    stats.max("most_bytes_held", worst as u64);
    stats.max("largest_tree", n as u64);
    stats.nontrivial(mix2(fp, n as u64));
    stats.sample(|| format!("traversals of {n} and {n1} entries held at most {worst} bytes"));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 160) {
        return crate::large::case("C23", rng, stats);
    }
    match rng.below(40) {
        0 => memory(rng, stats),
        1..=25 => spatial(rng, stats),
        _ => join(rng, stats),
    }
}
