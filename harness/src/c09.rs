//! C09: the tree stays balanced, and its nodes stay within the configured sizes. The nodes are reconstructed
//! from the sets of ids that an accept-all filter is shown.
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use rusty_rtree::{RTree, RTreeConfig};

pub fn nodes(t: &IdTree, live: &IdSet) -> Result<(Vec<Nd>, u64), Fail> {
    let mut sets: Vec<IdSet> = trace(t).into_iter().filter_map(|e| if let Ev::B(b, _) = e { Some(b.ids.meet(live)) } else { None }).collect();
    let events = sets.len() as u64;
    if !LOOSE.get() {
        if let Ok(n) = shape(live, &sets) {
            return Ok((n, events));
        }
    }
    // The ids are no guide, or claim something impossible: find out what really lies below each node.
    for j in 0..sets.len() {
        sets[j] = below(t, live, j);
    }
    shape(live, &sets).map(|n| (n, events)).map_err(Fail)
}

pub fn check(t: &IdTree, live: &IdSet, cfg: RTreeConfig, stats: &mut Stats) -> Result<(usize, u64), Fail> {
    let (ns, ev) = nodes(t, live)?;
    stats.add("structures_checked", 1);
    stats.add("nodes_seen", ns.len() as u64);
    let n = live.len();
    if n == 0 {
        ensure!(ns.len() <= 1, "an empty tree has {} nodes", ns.len());
        return Ok((1, ev));
    }
    let mut leaf_depth = None;
    for (i, x) in ns.iter().enumerate() {
        ensure!(!x.ids.is_empty(), "a node without entries in a tree of {n}");
        ensure!(x.kids.is_empty() || x.own == 0, "entries at different depths: the node of {:?} has {} nodes and {} entries as children", x.ids, x.kids.len(), x.own);
        let c = x.kids.len() + x.own;
        ensure!(c <= cfg.max_children, "the node of {:?} has {c} children", x.ids);
        if i > 0 {
            ensure!(c >= cfg.min_children, "the node of {:?}, not the root, has {c} children", x.ids);
        } else if !x.kids.is_empty() {
            ensure!(c >= 2, "the root has {c} child nodes");
        }
        if x.kids.is_empty() {
            match leaf_depth {
                None => leaf_depth = Some(x.depth),
                Some(d) => ensure!(d == x.depth, "entries at different depths, {d} and {}", x.depth),
            }
        }
    }
    let d = leaf_depth.unwrap();
    if cfg.min_children >= 2 {
        // 2 * min^d <= n
        let mut need = if d == 0 { 1 } else { 2usize };
        for _ in 1..=d {
            need = need.saturating_mul(cfg.min_children);
        }
        ensure!(need <= n, "{n} entries lie below {} levels of nodes", d + 1);
    }
    stats.max("deepest", d as u64 + 1);
    Ok((d + 1, ev))
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 200) {
        return crate::large::case("C09", rng, stats);
    }
    let cfg = pick_cfg(rng, stats.tier, true);
    LOOSE.set(cfg.min_children >= 2 && rng.chance(40));
    let big = !LOOSE.get() && rng.chance(4);
    let mut h = IdHist::new(rng, stats.tier, if big { 1200 } else { 150 });
    let mut t: IdTree = RTree::new(cfg);
    let (mut n, mut fp, mut peak, mut deep) = (0u64, 0, 0, 0);
    check(&t, &h.ids.ids(), cfg, stats)?;
    loop {
        let Some(st) = h.next(rng) else { break };
        n += 1;
        if matches!(st, IdStep::Touch) {
            continue;
        }
        apply(st, &mut t)?;
        let len = h.ids.live.len();
        peak = peak.max(len);
        let often = if LOOSE.get() { 20 } else { 60 };
        if len <= often || n % (len as u64 / (often as u64 / 2)) == 0 || h.at_phase_end() {
            let (d, ev) = check(&t, &h.ids.ids(), cfg, stats)
                .map_err(|e| Fail(format!("max_children {}, min_children {}, after operation {n} ({len} entries): {}", cfg.max_children, cfg.min_children, e.0)))?;
            deep = deep.max(d);
            fp = mix2(fp, ev ^ (d as u64) << 32);
        }
    }
    check(&t, &h.ids.ids(), cfg, stats)?;
    stats.max("largest_tree", peak as u64);
    stats.add("operations", n);
    if deep > 1 {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("max {} min {}: {n} operations, up to {peak} entries in {deep} levels of nodes, {} at the end", cfg.max_children, cfg.min_children, h.ids.live.len()));
    Ok(())
}
