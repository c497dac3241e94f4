//! C10: presented node bounds are exactly the union of what lies below. What lies below a node is found by
//! rejecting that node's bounds and seeing which entries disappear.
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds};
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::ranking::Ranking;
use rusty_rtree::RTree;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

struct Probe<'a, B> {
    n: Cell<usize>,
    reject: usize,
    seen: Option<&'a RefCell<Vec<B>>>,
}
impl<B: Clone, K> SpatialFilter<B, K> for Probe<'_, B> {
    fn test_bounds(&self, b: &B) -> bool {
        let n = self.n.get();
        self.n.set(n + 1);
        if let Some(s) = self.seen {
            s.borrow_mut().push(b.clone());
        }
        n != self.reject
    }
    fn test_key(&self, _: &K) -> bool {
        true
    }
}

fn check<S: Scn>(t: &Tree<S>, m: &Model<S::K>, limit: usize, rng: &mut Rng, stats: &mut Stats) -> Result<u64, Fail> {
    let seen = RefCell::new(vec![]);
    t.filter_iter::<S::K, _>(Probe { n: Cell::new(0), reject: usize::MAX, seen: Some(&seen) }).for_each(drop);
    let seen = seen.into_inner();
    let mut ev = 0;
    let mut idx: Vec<usize> = (0..seen.len()).collect();
    if idx.len() > limit {
        rng.shuffle(&mut idx[1..]);
        idx.truncate(limit);
    }
    for j in idx {
        let mut left: HashSet<u64> = m.m.keys().copied().collect();
        for (_, v) in t.filter_iter::<S::K, _>(Probe { n: Cell::new(0), reject: j, seen: None }) {
            left.remove(&v.uid);
        }
        let want = S::B::union_all(left.iter().map(|u| m.m[u].0.bounds()));
        ensure!(
            seen[j] == want,
            "the bounds presented for a node are {:?}, but its {} entries have the bounds {want:?} (entries {:?})",
            seen[j], left.len(), left.iter().take(5).map(|u| &m.m[u].0).collect::<Vec<_>>()
        );
        ev = mix2(ev, left.len() as u64);
        stats.add("nodes_checked", 1);
    }
    stats.add("traversals_checked", 1);
    Ok(ev)
}
fn run<S: Scn>(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let cap = if rng.chance(5) { 600 } else { 120 };
    let mut h = Hist::<S>::new(rng, stats.tier, size_cap(cfg, stats.tier).min(cap));
    let mut t: Tree<S> = RTree::new(cfg);
    let mut m = Model::new();
    let (mut n, mut fp, mut peak) = (0u64, 0, 0);
    while let Some(st) = h.next(rng, &m) {
        exec::<S>(&mut t, &mut m, st, stats)?;
        n += 1;
        peak = peak.max(m.len());
        if m.len() <= 12 || n % (m.len() as u64 / 6) == 0 || h.at_phase_end() {
            let ev = check::<S>(&t, &m, 40, rng, stats)
                .map_err(|e| Fail(format!("{} keys, max_children {}, min_children {}, after operation {n} ({} entries): {}", S::NAME, cfg.max_children, cfg.min_children, m.len(), e.0)))?;
            fp = mix2(fp, ev);
        }
    }
    check::<S>(&t, &m, 200, rng, stats)?;
    stats.max("largest_tree", peak as u64);
    if peak > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("{} keys, max {} min {}: {n} operations, up to {peak} entries", S::NAME, cfg.max_children, cfg.min_children));
    Ok(())
}

struct LogR<'a>(&'a RefCell<Vec<IdB>>);
impl Ranking<IdB, IdKey> for LogR<'_> {
    type Metric = u8;
    fn bounds_min(&self, b: &IdB) -> u8 {
        self.0.borrow_mut().push(b.clone());
        0
    }
    fn rank_key(&self, _: &IdKey) -> u8 {
        0
    }
}
struct LogR2<'a>(LogR<'a>);
impl Ranking<IdB, IdKey> for LogR2<'_> {
    type Metric = Option<u8>;
    fn bounds_min(&self, b: &IdB) -> Option<u8> {
        Some(self.0.bounds_min(b))
    }
    fn rank_key(&self, _: &IdKey) -> Option<u8> {
        Some(0)
    }
}
#[derive(Clone)]
struct LogJ<'a>(&'a RefCell<Vec<(IdB, IdB)>>);
impl JoinFilter<IdB, IdB, IdKey, IdKey> for LogJ<'_> {
    fn test_bounds(&self, a: &IdB, b: &IdB) -> bool {
        self.0.borrow_mut().push((a.clone(), b.clone()));
        true
    }
    fn test_key(&self, _: &IdKey, _: &IdKey) -> bool {
        false
    }
}
/// What rankings and join filters are shown: bounds that are exactly those of their ids.
fn others(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = IdHist::new(rng, stats.tier, size_cap(cfg, stats.tier).min(150));
    let c1 = pick_cfg(rng, stats.tier, false);
    let (o, om) = id_build(rng, c1, stats.tier, 30)?;
    let mut t: IdTree = RTree::new(cfg);
    let (mut n, mut fp, mut peak) = (0u64, 0, 0);
    loop {
        let Some(st) = h.next(rng) else { break };
        apply(st, &mut t)?;
        n += 1;
        let len = h.ids.live.len();
        peak = peak.max(len);
        if n % (2 + len as u64 / 2) != 0 && !h.at_phase_end() {
            continue;
        }
        let live = h.ids.ids();
        // the nodes, by what disappears with them
        let log = RefCell::new(vec![]);
        let kinds: [&str; 7] = ["filter_iter_mut", "iter_asc_by", "iter_asc_by_mut", "filter_iter_asc_by", "filter_iter_asc_by_mut", "join", "left_join"];
        let count = trace(&t).iter().filter(|e| matches!(e, Ev::B(..))).count();
        if count > 600 {
            // nodes that may have a single child allow for very deep trees, which would take too long here
            stats.add("deep_trees_skipped", 1);
            continue;
        }
        let mut sets: HashSet<Vec<u64>> = (0..count).map(|j| below(&t, &live, j).0).collect();
        sets.insert(live.0.clone());
        for (i, kind) in kinds.iter().enumerate() {
            let jl = RefCell::new(vec![]);
            match i {
                0 => t.filter_iter_mut::<IdKey, _>(Probe { n: Cell::new(0), reject: usize::MAX, seen: Some(&log) }).for_each(drop),
                1 => t.iter_asc_by(LogR(&log)).for_each(drop),
                2 => t.iter_asc_by_mut(LogR(&log)).for_each(drop),
                3 => t.filter_iter_asc_by(LogR2(LogR(&log))).for_each(drop),
                4 => t.filter_iter_asc_by_mut(LogR2(LogR(&log))).for_each(drop),
                5 => t.join::<_, _, _, IdKey, IdKey, _>(&o, LogJ(&jl)).for_each(drop),
                _ => t.left_join::<_, _, _, IdKey, IdKey, _>(&o, LogJ(&jl)).for_each(|(_, it)| it.for_each(drop)),
            }
            for (a, b) in jl.into_inner() {
                ensure!(om.bounds_of(&b.ids).as_ref() == Some(&b), "{kind} presented the bounds {b:?} on the right, but those of its entries are {:?}", om.bounds_of(&b.ids));
                log.borrow_mut().push(a);
            }
            for b in log.borrow_mut().drain(..) {
                let want = h.ids.bounds_of(&b.ids);
                ensure!(want.as_ref() == Some(&b), "{kind} presented the bounds {b:?}, but those of its entries are {want:?}");
                // left_join also presents the bounds of keys
                ensure!(sets.contains(&b.ids.0) || (i == 6 && b.ids.len() == 1) || b.ids.is_empty(), "{kind} presented bounds of {:?}, which are not the entries below any node", b.ids);
                fp = mix2(fp, b.ids.hash());
                stats.add("bounds_presented", 1);
            }
        }
    }
    if peak > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("bounds shown to rankings and join filters, max {} min {}: {n} operations, up to {peak} entries", cfg.max_children, cfg.min_children));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 200) {
        return crate::large::case("C10", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[
        run::<BoxS<i32, 2>>,
        run::<BoxS<i32, 2>>,
        run::<BoxS<u8, 1>>,
        run::<BoxS<N64, 3>>,
        run::<PtS<i32, 2>>,
        run::<PtS<N32, 2>>,
        run::<LineS<i16, 2>>,
        run::<TagS>,
        run::<TagS>,
        run::<StrS>,
        others,
        others,
        others,
    ];
    let f = rng.pick(F);
    f(rng, stats)
}
