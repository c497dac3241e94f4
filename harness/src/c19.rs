//! C19: mutable traversal hands out the value of each entry once, and changes nothing else.
use crate::common::*;
use crate::idb::*;
use crate::keys::*;
use crate::ledger;
use crate::trk::*;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};

/// (token of the key, id of the key, token of the value, uid, payload)
type Ent = (u32, u32, u32, u64, u64);
fn ent<P: Pad>(k: &TKey<P>, v: &TVal<P>) -> Ent {
    k.touch();
    v.touch();
    (k.tk.id, k.id, v.tk.id, v.uid, v.pay)
}

/// Records everything that a traversal is shown.
struct Spy<'a>(&'a RefCell<Vec<(u32, [i32; 4], u64)>>);
impl<P: Pad> SpatialFilter<TB<P>, TKey<P>> for Spy<'_> {
    fn test_bounds(&self, b: &TB<P>) -> bool {
        b.touch();
        self.0.borrow_mut().push((0, [b.lo[0], b.lo[1], b.hi[0], b.hi[1]], b.ids.hash()));
        true
    }
    fn test_key(&self, k: &TKey<P>) -> bool {
        k.touch();
        self.0.borrow_mut().push((k.tk.id, [k.lo[0], k.lo[1], k.hi[0], k.hi[1]], k.id as u64));
        true
    }
}
fn structure<P: Pad>(t: &TTree<P>) -> Vec<(u32, [i32; 4], u64)> {
    let log = RefCell::new(vec![]);
    t.filter_iter::<TKey<P>, _>(Spy(&log)).for_each(drop);
    log.into_inner()
}

const KINDS: [&str; 6] = ["iter_mut", "filter_iter_mut", "iter_asc_by_mut", "filter_iter_asc_by_mut", "min_by_mut", "filter_min_by_mut"];

/// One mutable traversal, of which `take` references are taken and held.
fn traverse<P: Pad>(
    rng: &mut Rng,
    t: &mut TTree<P>,
    kind: usize,
    sub: &IdSet,
    live: &IdSet,
    stats: &mut Tally,
) -> R {
    let seed = rng.next();
    let (rk, ro) = (TRank(seed), TRankOpt(seed, seed % 100));
    let what = KINDS[kind];
    let before: Vec<Ent> = t.iter().map(|e| ent(e.0, e.1)).collect();
    let bones = structure(t);
    // what the shared counterpart yields
    let want: Vec<Ent> = match kind {
        0 => before.clone(),
        1 => t.filter_iter::<TKey<P>, _>(TPick { s: sub }).map(|e| ent(e.0, e.1)).collect(),
        2 => t.iter_asc_by(rk.clone()).map(|e| ent(e.0, e.1)).collect(),
        3 => t.filter_iter_asc_by(ro.clone()).map(|e| ent(e.0, e.1)).collect(),
        4 => t.min_by(rk.clone()).map(|e| ent(e.0, e.1)).into_iter().collect(),
        _ => t.filter_min_by(ro.clone()).map(|e| ent(e.0, e.1)).into_iter().collect(),
    };
    // and what it should, by number
    let num = match kind {
        0 | 2 => before.len(),
        1 => before.iter().filter(|e| sub.has(e.1)).count(),
        3 => before.iter().filter(|e| ro.of(e.1).is_some()).count(),
        4 => before.len().min(1),
        _ => before.iter().filter(|e| ro.of(e.1).is_some()).count().min(1),
    };
    ensure!(want.len() == num, "the shared counterpart of {what} yields {} entries, expected {num}", want.len());
    let take = if rng.chance(70) { usize::MAX } else { rng.below(want.len() + 1) };
    let rank = |id: u32| -> Option<u64> {
        match kind {
            2 | 4 => Some(rk.of(id)),
            3 | 5 => ro.of(id),
            _ => Some(0),
        }
    };

    let mut held: Vec<(&TKey<P>, &mut TVal<P>)> = vec![];
    let mut got: Vec<Ent> = vec![];
    // token of the key -> what its value should be now
    let mut now: HashMap<u32, (u32, u64, u64)> = before.iter().map(|e| (e.0, (e.2, e.3, e.4))).collect();
    let eager = rng.chance(50);
    let after_end = rng.chance(30);
    {
        let mut it: Box<dyn Iterator<Item = (&TKey<P>, &mut TVal<P>)>> = match kind {
            0 => Box::new(t.iter_mut()),
            1 => Box::new(t.filter_iter_mut::<TKey<P>, _>(TPick { s: sub })),
            2 => Box::new(t.iter_asc_by_mut(rk.clone())),
            3 => Box::new(t.filter_iter_asc_by_mut(ro.clone())),
            4 => Box::new(t.min_by_mut(rk.clone()).into_iter()),
            _ => Box::new(t.filter_min_by_mut(ro.clone()).into_iter()),
        };
        while held.len() < take {
            let Some((k, v)) = it.next() else {
                for _ in 0..if after_end { 2 } else { 0 } {
                    if let Some((k, v)) = it.next() {
                        fail!("{what} yielded {:?} -> value {} after it had ended", k.plain(), v.uid);
                    }
                }
                break;
            };
            let e = ent(k, v);
            ensure!(
                now.get(&k.tk.id) == Some(&(e.2, e.3, e.4)),
                "{what} handed out value {} with payload {} for {:?}, whose value should be {:?}",
                e.3,
                e.4,
                k.plain(),
                now.get(&k.tk.id)
            );
            got.push(e);
            // write to it, and to others held already, while the traversal goes on
            if eager {
                v.pay = mix(v.pay ^ 3);
                now.insert(k.tk.id, (v.tk.id, v.uid, v.pay));
            }
            held.push((k, v));
            if rng.chance(30) {
                let i = rng.below(held.len());
                let (k, v) = &mut held[i];
                v.touch();
                v.pay = mix(v.pay ^ 5);
                now.insert(k.tk.id, (v.tk.id, v.uid, v.pay));
            }
        }
    }
    stats.refs += held.len() as u64;
    stats.most = stats.most.max(held.len());
    // the same entries, in the same order
    let full = take == usize::MAX;
    ensure!(
        if full { got.len() == want.len() } else { got.len() == take.min(want.len()) },
        "{what} yielded {} entries, its shared counterpart yields {}",
        got.len(),
        want.len()
    );
    if kind < 2 {
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure!(
                (g.0, g.2) == (w.0, w.2),
                "{what} yielded value {} in place {i} of {}, where its shared counterpart yields value {}",
                g.3,
                want.len(),
                w.3
            );
        }
    } else {
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            let (a, b) = (rank(g.1), rank(w.1));
            ensure!(a == b, "{what} yielded an entry of rank {a:?} in place {i} of {}, where its shared counterpart yields one of rank {b:?}", want.len());
        }
        if full && kind < 4 {
            let s = |v: &[Ent]| {
                let mut v: Vec<_> = v.iter().map(|e| e.0).collect();
                v.sort_unstable();
                v
            };
            ensure!(s(&got) == s(&want), "{what} yields other entries than its shared counterpart");
        }
    }
    // distinct values, by place
    let mut at = HashSet::new();
    for (k, v) in &held {
        ensure!(at.insert(*v as *const TVal<P> as usize), "{what} handed out the value of {:?} twice", k.plain());
    }
    // write through all of them, then swap some around, then read all back
    let mut ord: Vec<usize> = (0..held.len()).collect();
    rng.shuffle(&mut ord);
    for &i in &ord {
        let (k, v) = &mut held[i];
        v.pay = mix(v.pay ^ 7);
        now.insert(k.tk.id, (v.tk.id, v.uid, v.pay));
    }
    for _ in 0..if rng.chance(50) { held.len() / 2 } else { 0 } {
        let (i, j) = (rng.below(held.len()), rng.below(held.len()));
        if i != j {
            let (i, j) = (i.min(j), i.max(j));
            let (a, b) = held.split_at_mut(j);
            let ((ka, va), (kb, vb)) = (&mut a[i], &mut b[0]);
            std::mem::swap(*va, *vb);
            now.insert(ka.tk.id, (va.tk.id, va.uid, va.pay));
            now.insert(kb.tk.id, (vb.tk.id, vb.uid, vb.pay));
            stats.swaps += 1;
        }
    }
    for &i in &ord {
        let (k, v) = &held[i];
        let e = ent(k, v);
        ensure!(
            now[&k.tk.id] == (e.2, e.3, e.4),
            "{what}: {:?} was last set to {:?}, but reads {:?} while other references are held",
            k.plain(),
            now[&k.tk.id],
            (e.2, e.3, e.4)
        );
    }
    drop(held);
    unchanged(t, what, &before, &bones, &now)?;
    stats.traversals += 1;
    if got.len() < want.len() {
        stats.abandoned += 1;
    }
    let _ = live;
    Ok(())
}

/// The tree is as it was, but for the values.
fn unchanged<P: Pad>(
    t: &TTree<P>,
    what: &str,
    before: &[Ent],
    bones: &[(u32, [i32; 4], u64)],
    now: &HashMap<u32, (u32, u64, u64)>,
) -> R {
    let after: Vec<Ent> = t.iter().map(|e| ent(e.0, e.1)).collect();
    ensure!(after.len() == before.len() && t.len() == before.len(), "after {what} the tree has {} entries, {} before", after.len(), before.len());
    for (a, b) in after.iter().zip(before) {
        ensure!(a.0 == b.0, "after {what} the entries come in another order");
        ensure!(
            now[&a.0] == (a.2, a.3, a.4),
            "after {what} the entry of id {} has value {:?}, expected {:?}",
            a.1,
            (a.2, a.3, a.4),
            now[&a.0]
        );
    }
    ensure!(structure(t) == bones, "{what} changed keys, bounds or structure of the tree");
    if let Some(e) = ledger::errors() {
        fail!("{what}: {e}");
    }
    Ok(())
}

#[derive(Default)]
struct Tally {
    refs: u64,
    swaps: u64,
    traversals: u64,
    abandoned: u64,
    gets: u64,
    most: usize,
}

fn by_key<P: Pad>(t: &mut TTree<P>, k: &IdKey, stats: &mut Tally) -> R {
    let before: Vec<Ent> = t.iter().map(|e| ent(e.0, e.1)).collect();
    let bones = structure(t);
    let mut now: HashMap<u32, (u32, u64, u64)> = before.iter().map(|e| (e.0, (e.2, e.3, e.4))).collect();
    let key = TKey::<P>::new(k);
    let equal: Vec<&Ent> = before.iter().filter(|e| e.1 == k.id).collect();
    let shared = t.get(&key).map(|v| v.tk.id);
    match t.get_mut(&key) {
        None => ensure!(equal.is_empty(), "get_mut({k:?}) found nothing, but {} entries have an equal key", equal.len()),
        Some(v) => {
            v.touch();
            let Some(e) = equal.iter().find(|e| e.2 == v.tk.id) else {
                fail!("get_mut({k:?}) gave value {}, which is of no entry with an equal key", v.uid)
            };
            ensure!(shared == Some(v.tk.id), "get_mut({k:?}) gave value {}, but get found another entry", v.uid);
            v.pay = mix(v.pay ^ 9);
            now.insert(e.0, (v.tk.id, v.uid, v.pay));
        }
    }
    drop(key);
    stats.gets += 1;
    unchanged(t, "get_mut", &before, &bones, &now)
}

fn tracked<P: Pad>(rng: &mut Rng, stats: &mut Stats) -> R {
    ledger::reset();
    let tier = stats.tier;
    let cfg = pick_cfg(rng, tier, false);
    let mut h = TH::new(rng, tier, size_cap(cfg, tier).min(500));
    let mut t: TTree<P> = RTree::new(cfg);
    let mut s = Tally::default();
    let (mut ops, mut fp) = (0u64, rng.next());
    while let Some(st) = h.next(rng) {
        let out = apply_t(&mut t, &st);
        h.settle(&st, &out)?;
        ops += 1;
        if ops % (12 + 2 * t.len() as u64) == 0 || h.h.at_phase_end() {
            let ids = h.ids();
            let pct = rng.pick(&[0, 10, 50, 100]);
            let sub = IdSet::of(ids.iter().filter(|_| rng.chance(pct)));
            // on a copy: values may be swapped between entries
            let mut x = t.clone();
            for _ in 0..if tier == Tier::Tiny { 2 } else { 5 } {
                let kind = rng.pick(&[0, 0, 1, 1, 2, 2, 3, 3, 4, 5]);
                traverse(rng, &mut x, kind, &sub, &ids, &mut s)
                    .map_err(|e| Fail(format!("{} entries, max {} min {}: {}", x.len(), cfg.max_children, cfg.min_children, e.0)))?;
                let k = h.h.probe(rng, &h.m);
                let k = h.key(&k);
                by_key(&mut x, &k, &mut s)?;
            }
            fp = mix2(fp, x.len() as u64);
            // the copy can be taken apart
            if rng.chance(20) {
                let ks: Vec<IdKey> = x.iter().map(|e| e.0.plain()).collect();
                for k in ks {
                    let k = TKey::<P>::new(&k);
                    ensure!(x.remove(&k).is_some(), "after mutable traversals {:?} cannot be removed", k.plain());
                }
                ensure!(x.is_empty(), "after mutable traversals and removal of all keys, {} entries are left", x.len());
            }
        }
    }
    drop(t);
    let e = ledger::errors();
    ledger::reset();
    if let Some(e) = e {
        fail!("{e}");
    }
    stats.add("operations", ops);
    stats.add("mutable_traversals", s.traversals);
    stats.add("of_them_abandoned", s.abandoned);
    stats.add("references_handed_out", s.refs);
    stats.add("values_swapped", s.swaps);
    stats.add("get_mut_calls", s.gets);
    stats.max("references_held_at_once", s.most as u64);
    if s.most > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("{} mutable traversals during {ops} operations (max {} min {}), up to {} references held at once, {} values swapped through them", s.traversals, cfg.max_children, cfg.min_children, s.most, s.swaps));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if rng.chance(4) {
        return crate::ways::case("C19", rng, stats);
    }
    if crate::bulk::due(rng, stats, 2666) {
        return crate::bulk::case("C19", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[tracked::<()>, tracked::<u8>, tracked::<[u64; 9]>, tracked::<Box<u64>>, tracked::<Al128>];
    let f = rng.pick(F);
    f(rng, stats)
}
