//! C01: the contents equal what the history leaves behind.
use crate::common::*;
use crate::hist::*;
use crate::keys::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::RTree;

pub fn full<S: Scn>(t: &mut Tree<S>, m: &Model<S::K>, all: bool, stats: &mut Stats) -> R {
    same("iter", t.iter().map(|(k, v)| (k, v.clone())), m)?;
    stats.add("entries_compared", m.len() as u64);
    ensure!(t.len() == m.len(), "len() = {}, but the history leaves {} entries", t.len(), m.len());
    ensure!(t.is_empty() == (m.len() == 0), "is_empty() = {}, but the history leaves {} entries", t.is_empty(), m.len());
    if all {
        let mut n = 0;
        for (k, v) in &*t {
            ensure!(m.m.get(&v.uid).is_some_and(|e| e.0 == *k), "for .. in &tree yielded {k:?} -> {v:?}");
            n += 1;
        }
        ensure!(n == m.len(), "for .. in &tree yielded {n} of {} entries", m.len());
        same("iter_mut", t.iter_mut().map(|(k, v)| (k, v.clone())), m)?;
        let mut n = 0;
        for (k, v) in &mut *t {
            ensure!(m.m.get(&v.uid).is_some_and(|e| e.0 == *k), "for .. in &mut tree yielded {k:?} -> {v:?}");
            n += 1;
        }
        ensure!(n == m.len(), "for .. in &mut tree yielded {n} of {} entries", m.len());
        same("iter, after reading,", t.iter().map(|(k, v)| (k, v.clone())), m)?;
    }
    stats.add("full_comparisons", 1);
    Ok(())
}

fn run<S: Scn>(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = Hist::<S>::new(rng, stats.tier, size_cap(cfg, stats.tier));
    let mut t: Tree<S> = RTree::new(cfg);
    let mut m = Model::new();
    full::<S>(&mut t, &m, true, stats)?;
    let mut n = 0u64;
    let mut fp = mix2(cfg.max_children as u64, cfg.min_children as u64);
    let mut peak = 0;
    let wrap = |n: u64, e: Fail| Fail(format!("{} keys {}, max_children {}, min_children {}, operation {n}: {}", S::NAME, std::any::type_name::<S::K>(), cfg.max_children, cfg.min_children, e.0));
    while let Some(st) = h.next(rng, &m) {
        n += 1;
        if n <= 64 {
            if let Step::Insert(k) | Step::Unique(k) | Step::Remove(k) = &st {
                fp = mix2(fp, S::fp(k));
            }
        }
        exec::<S>(&mut t, &mut m, st, stats).map_err(|e| wrap(n, e))?;
        ensure!(t.len() == m.len(), "{}", wrap(n, Fail(format!("len() = {}, expected {}", t.len(), m.len()))).0);
        peak = peak.max(m.len());
        let every = if m.len() <= 24 { 1 } else { 1 + m.len() as u64 / 8 };
        if n % every == 0 {
            full::<S>(&mut t, &m, n % 5 == 0, stats).map_err(|e| wrap(n, e))?;
        }
    }
    full::<S>(&mut t, &m, true, stats).map_err(|e| wrap(n, e))?;
    stats.add("operations", n);
    stats.max("largest_tree", peak as u64);
    stats.add(S::NAME, 1);
    if n > 2 && peak > cfg.max_children {
        stats.nontrivial(mix2(fp, n));
    }
    stats.sample(|| format!("{} keys, max {} min {}, {n} operations, peak size {peak}, {} entries at the end", S::NAME, cfg.max_children, cfg.min_children, m.len()));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if rng.chance(4) {
        return crate::ways::case("C01", rng, stats);
    }
    if crate::bulk::due(rng, stats, 5000) {
        return crate::bulk::case("C01", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[
        run::<BoxS<i32, 2>>,
        run::<BoxS<i32, 2>>,
        run::<BoxS<i32, 3>>,
        run::<BoxS<u8, 1>>,
        run::<BoxS<i8, 4>>,
        run::<BoxS<u32, 2>>,
        run::<BoxS<N64, 3>>,
        run::<PtS<i32, 2>>,
        run::<PtS<N32, 2>>,
        run::<PtS<u8, 2>>,
        run::<LineS<i16, 2>>,
        run::<TagS>,
        run::<TagS>,
        run::<SloppyS>,
        run::<StrS>,
    ];
    let f = rng.pick(F);
    f(rng, stats)
}
