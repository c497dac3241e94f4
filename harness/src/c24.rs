//! C24: formatting a tree shows its nodes and entries. Keys, values and bounds print as tokens, which are then
//! found again in what {:?} makes of the tree, and compared with what traversals yield.
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::RTree;
use std::cell::RefCell;
use std::fmt;

#[derive(Clone, PartialEq)]
struct TB(IdB);
impl fmt::Debug for TB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "`B{}`", token(&self.0.ids))
    }
}
fn token(s: &IdSet) -> String {
    s.iter().map(|i| format!(".{i}")).collect()
}
impl Contains<TB> for TB {
    fn contains(&self, r: &TB) -> bool {
        self.0.contains(&r.0)
    }
}
impl Intersects<TB> for TB {
    fn intersects(&self, r: &TB) -> bool {
        self.0.intersects(&r.0)
    }
}
impl Bounds for TB {
    fn empty() -> Self {
        TB(IdB::empty())
    }
    fn union(a: &Self, b: &Self) -> Self {
        TB(IdB::union(&a.0, &b.0))
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl Volume for TB {
    fn volume(&self) -> N64 {
        self.0.volume()
    }
}
#[derive(Clone, PartialEq, Eq)]
struct TK(IdKey);
impl fmt::Debug for TK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "`K{}`", self.0.id)
    }
}
impl Bounded<TB> for TK {
    fn bounds(&self) -> TB {
        TB(self.0.bounds())
    }
}
#[derive(Clone)]
struct TV(u64);
impl fmt::Debug for TV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "`V{}`", self.0)
    }
}
struct See<'a>(&'a RefCell<Vec<String>>);
impl SpatialFilter<TB, TK> for See<'_> {
    fn test_bounds(&self, b: &TB) -> bool {
        self.0.borrow_mut().push(token(&b.0.ids));
        true
    }
    fn test_key(&self, _: &TK) -> bool {
        true
    }
}

fn check(t: &RTree<TB, TK, TV>, live: &IdSet, stats: &mut Stats) -> Result<u64, Fail> {
    let want: Vec<(u32, u64)> = t.iter().map(|(k, v)| (k.0.id, v.0)).collect();
    let log = RefCell::new(vec![]);
    t.filter_iter::<TK, _>(See(&log)).for_each(|_| ());
    let root = token(live);
    let mut boxes = log.into_inner();
    // the bounds of the root may or may not be among what filters see
    let strip = |v: &mut Vec<String>| {
        v.sort();
        if let Some(i) = v.iter().position(|s| *s == root) {
            v.remove(i);
        }
    };
    strip(&mut boxes);
    for (how, s) in [("{:?}", format!("{t:?}")), ("{:#?}", format!("{t:#?}"))] {
        let (mut keys, mut vals, mut seen) = (vec![], vec![], vec![]);
        for (i, tok) in s.split('`').enumerate() {
            if i % 2 == 0 {
                continue;
            }
            let (kind, rest) = tok.split_at(1);
            match kind {
                "K" => keys.push(rest.parse::<u32>().unwrap()),
                "V" => vals.push(rest.parse::<u64>().unwrap()),
                _ => {
                    // an entry below these bounds must follow before those of another node on the same level
                    seen.push(rest.to_string());
                }
            }
        }
        ensure!(keys == want.iter().map(|w| w.0).collect::<Vec<_>>(), "{how} shows the keys {keys:?} of a tree that iterates over {want:?}");
        ensure!(vals == want.iter().map(|w| w.1).collect::<Vec<_>>(), "{how} shows the values {vals:?} of a tree that iterates over {want:?}");
        if !want.is_empty() {
            ensure!(seen.first() == Some(&root), "{how} shows the bounds {:?} for the root of a tree of {live:?}", seen.first());
        }
        strip(&mut seen);
        let mut b = boxes.clone();
        if want.is_empty() {
            seen.clear();
            b.clear();
        }
        ensure!(seen == b, "{how} shows nodes with the bounds {seen:?}, but there are {b:?}");
        stats.add("tokens", (keys.len() + vals.len() + seen.len()) as u64);
    }
    let again: Vec<(u32, u64)> = t.iter().map(|(k, v)| (k.0.id, v.0)).collect();
    ensure!(again == want, "formatting a tree changed it");
    Ok(want.len() as u64)
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 100) {
        return crate::large::case("C24", rng, stats);
    }
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = IdHist::new(rng, stats.tier, size_cap(cfg, stats.tier).min(if cfg.min_children > 1 { 150 } else { 40 }));
    let mut t: RTree<TB, TK, TV> = RTree::new(cfg);
    check(&t, &IdSet::default(), stats)?;
    let (mut n, mut fp, mut big) = (0u64, 0, 0);
    while let Some(st) = h.next(rng) {
        n += 1;
        match st {
            IdStep::Insert(k) => {
                let v = TV(mix(k.id as u64) >> 20);
                t.insert(TK(k), v)
            }
            IdStep::Unique(k) => {
                let v = TV(mix(k.id as u64) >> 20);
                t.insert_unique(TK(k), v);
            }
            IdStep::Remove(k) | IdStep::Miss(k) => {
                t.remove(&TK(k));
            }
            IdStep::Touch => t.iter_mut().for_each(|(_, v)| v.0 ^= 1),
        }
        let len = h.ids.live.len() as u64;
        if n % (1 + len / 3) == 0 || h.at_phase_end() {
            let ids = h.ids.ids();
            let c = check(&t, &ids, stats).map_err(|e| Fail(format!("max {} min {}, {len} entries: {}", cfg.max_children, cfg.min_children, e.0)))?;
            fp = mix2(fp, c ^ ids.hash());
            big = big.max(len);
            stats.add("formatted", 2);
        }
    }
    if big as usize > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.max("largest_tree", big);
    stats.sample(|| format!("max {} min {}: {n} operations, up to {big} entries formatted", cfg.max_children, cfg.min_children));
    Ok(())
}
