//! C22: an insertion goes where it enlarges least. The nodes before the insertion are reconstructed, every
//! descent that takes a child of least enlargement is followed, and the leaf that holds the new entry afterwards
//! must be one such a descent ends in (or a part of one, if it was full and split).
use crate::c09::nodes;
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use rusty_rtree::bounds::Bounds;
use rusty_rtree::RTree;

/// The volume of the box; coordinates are small, so all of this is exact.
fn vol(b: &IdB) -> i64 {
    if b.ids.is_empty() {
        return 0;
    }
    (0..2).map(|d| b.hi[d] as i64 - b.lo[d] as i64).product()
}

fn leaves(ns: &[Nd], bounds: &[IdB], k: &IdB, ties: bool) -> (Vec<usize>, u64) {
    let mut todo = vec![0];
    let mut out = vec![];
    let mut choices = 0;
    while let Some(i) = todo.pop() {
        if ns[i].kids.is_empty() {
            out.push(i);
            continue;
        }
        let cost = |c: usize| {
            let inc = vol(&IdB::union(&bounds[c], k)) - vol(&bounds[c]);
            (inc, if ties { vol(&bounds[c]) } else { 0 })
        };
        let best = ns[i].kids.iter().map(|c| cost(*c)).min().unwrap();
        let n = todo.len();
        todo.extend(ns[i].kids.iter().copied().filter(|c| cost(*c) == best));
        choices += (ns[i].kids.len() - (todo.len() - n)) as u64;
    }
    (out, choices)
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 200) {
        return crate::large::case("C22", rng, stats);
    }
    let cfg = pick_cfg(rng, stats.tier, true);
    LOOSE.set(cfg.min_children >= 2 && rng.chance(60));
    let cap = if !LOOSE.get() && rng.chance(5) { 900 } else { 150 };
    let mut h = IdHist::new(rng, stats.tier, cap);
    let mut t: IdTree = RTree::new(cfg);
    let (mut n, mut fp, mut judged, mut real) = (0u64, 0, 0u64, 0u64);
    const FAR: i32 = 1 << 20;
    let mut far = false;
    while let Some(st) = h.next(rng) {
        n += 1;
        let key = match &st {
            IdStep::Insert(k) | IdStep::Unique(k) => Some(k.clone()),
            _ => None,
        };
        let unique = matches!(st, IdStep::Unique(_));
        let len = t.len();
        if let Some(k) = &key {
            far |= (0..2).any(|d| k.lo[d] > k.hi[d] || k.lo[d] < -FAR || k.hi[d] > FAR);
        }
        let look = key.is_some() && !far && len > cfg.max_children && if LOOSE.get() { len <= 15 || rng.below(len) < 8 } else { len <= 50 || rng.below(len) < 25 };
        let (Some(k), true) = (key, look) else {
            apply(st, &mut t)?;
            continue;
        };
        let mut before = h.ids.live.clone();
        before.remove(&k.id);
        let old = IdModel { live: before, next: 0 };
        let (ns, _) = nodes(&t, &old.ids())?;
        let bs: Vec<IdB> = ns.iter().map(|x| old.bounds_of(&x.ids).unwrap()).collect();
        let kb = IdB { lo: k.lo, hi: k.hi, ids: IdSet::one(k.id) };
        let (ok, choices) = leaves(&ns, &bs, &kb, !unique);
        apply(st, &mut t)?;
        let (after, _) = nodes(&t, &h.ids.ids())?;
        let Some(leaf) = after.iter().filter(|x| x.kids.is_empty()).find(|x| x.ids.has(k.id)) else { fail!("no leaf holds the new entry {k:?}") };
        let mut mates = leaf.ids.clone();
        mates.0[k.id as usize / 64] &= !(1 << (k.id % 64));
        let mates = mates.meet(&old.ids());
        let fits = ok.iter().any(|l| {
            let l = &ns[*l].ids;
            if l.len() < cfg.max_children {
                *l == mates
            } else {
                l.sup(&mates)
            }
        });
        ensure!(
            fits,
            "max_children {}, min_children {}, {len} entries: {} of {k:?} put it beside {mates:?}, where least enlargement leads only to {:?}",
            cfg.max_children,
            cfg.min_children,
            if unique { "insert_unique" } else { "insert" },
            ok.iter().map(|l| &ns[*l].ids).collect::<Vec<_>>()
        );
        judged += 1;
        stats.add("children_passed_over", choices);
        stats.add("leaves_allowed", ok.len() as u64);
        if choices > 0 {
            real += 1;
        }
        fp = mix2(fp, leaf.ids.hash());
    }
    stats.add("operations", n);
    stats.add("insertions_judged", judged);
    stats.add("insertions_with_a_choice", real);
    if real > 0 {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("max {} min {}: {judged} of {n} operations judged, {} entries at the end", cfg.max_children, cfg.min_children, h.ids.live.len()));
    Ok(())
}
