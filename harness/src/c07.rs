//! C07: join yields exactly the matching pairs.
use crate::common::*;
use crate::geo::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, SAABB};
use rusty_rtree::filter::JoinFilter;
use rusty_rtree::geom::line::Line;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Debug;

/// An arbitrary relation between ids; rejects pairs of bounds exactly, sloppily, or never.
pub struct Rel {
    pub row: HashMap<u32, IdSet>,
    pub seed: u64,
    pub slop: u64,
}
impl Rel {
    pub fn new(rng: &mut Rng, l: &IdSet, r: &IdSet) -> Rel {
        let seed = rng.next();
        let pct = rng.pick(&[0, 1, 3, 10, 30, 60, 100]);
        let kind = rng.below(5);
        let (rv, n): (Vec<u32>, u32) = (r.iter().collect(), r.len() as u32);
        let row = l
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let s = match kind {
                    // one-to-one, one left to all, one right to all
                    0 => IdSet::of(rv.iter().enumerate().filter(|(j, _)| *j == i).map(|x| *x.1)),
                    1 if pct < 50 => {
                        if mix2(seed, a as u64) % 8 == 0 {
                            r.clone()
                        } else {
                            IdSet::default()
                        }
                    }
                    2 if pct < 50 => IdSet::of(rv.iter().copied().filter(|b| mix2(seed, *b as u64) % n.max(1) as u64 <= 1)),
                    _ => IdSet::of(rv.iter().copied().filter(|b| mix2(mix2(seed, a as u64), *b as u64) % 100 < pct)),
                };
                (a, s)
            })
            .collect();
        Rel { row, seed, slop: rng.pick(&[0, 0, 0, 20, 100]) }
    }
    pub fn has(&self, a: u32, b: u32) -> bool {
        self.row.get(&a).is_some_and(|s| s.has(b))
    }
    pub fn pairs(&self) -> usize {
        self.row.values().map(|s| s.len()).sum()
    }
}
impl JoinFilter<IdB, IdB, IdKey, IdKey> for &Rel {
    fn test_bounds(&self, a: &IdB, b: &IdB) -> bool {
        a.ids.iter().any(|i| self.row.get(&i).is_some_and(|s| !s.meet(&b.ids).is_empty()))
            || mix2(mix2(self.seed, a.ids.hash()), b.ids.hash()) % 100 < self.slop
    }
    fn test_key(&self, a: &IdKey, b: &IdKey) -> bool {
        self.has(a.id, b.id)
    }
}

pub fn id_model(m: &IdModel) -> Model<IdKey> {
    Model { m: m.live.keys().map(|id| (*id as u64, (m.key(*id), 0))).collect(), next: 0 }
}

pub struct Ctx<'a, K0, K1> {
    pub m0: &'a Model<K0>,
    pub m1: &'a Model<K1>,
    pub what: &'a str,
}
/// Compares one join with the cross product.
pub fn joined<B0, B1, K0, K1, F>(
    t0: &RTree<B0, K0, Val>,
    t1: &RTree<B1, K1, Val>,
    c: Ctx<K0, K1>,
    f: F,
    want: &dyn Fn(&K0, &K1) -> bool,
    stats: &mut Stats,
) -> Result<usize, Fail>
where
    K0: Eq + Clone + Debug,
    K1: Bounded<B1> + Eq + Clone + Debug,
    F: JoinFilter<B0, B1, K0, K1>,
{
    let Ctx { m0, m1, what } = c;
    let mut seen = HashSet::new();
    for (a, b) in t0.join::<B1, K1, Val, K0, K1, F>(t1, f) {
        ensure!(m0.m.get(&a.1.uid).is_some_and(|e| e.0 == a.0 && e.1 == a.1.pay), "{what}: yielded {a:?} on the left, which is not in that tree");
        ensure!(m1.m.get(&b.1.uid).is_some_and(|e| e.0 == b.0 && e.1 == b.1.pay), "{what}: yielded {b:?} on the right, which is not in that tree");
        ensure!(want(&a.0, &b.0), "{what}: yielded {:?} and {:?}, which do not match", a.0, b.0);
        ensure!(seen.insert((a.1.uid, b.1.uid)), "{what}: yielded {a:?} and {b:?} twice");
    }
    let mut n = 0;
    for (u, (k, _)) in &m0.m {
        for (v, (l, _)) in &m1.m {
            if want(k, l) {
                n += 1;
                ensure!(seen.contains(&(*u, *v)), "{what}: did not yield {k:?} and {l:?}, which match");
            }
        }
    }
    stats.add("joins", 1);
    stats.add("pairs_compared", (m0.len() * m1.len()) as u64);
    stats.add("matches", n as u64);
    Ok(n)
}

pub fn cap(rng: &mut Rng, tier: Tier) -> usize {
    match tier {
        Tier::Tiny => rng.pick(&[0, 1, 5, 10]),
        _ => rng.pick(&[0, 1, 3, 10, 30, 60, 80, 120, 200, 200, 200, 300]),
    }
}

fn by_ids(rng: &mut Rng, stats: &mut Stats) -> R {
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let (n0, n1) = (cap(rng, stats.tier), cap(rng, stats.tier));
    let (t0, m0) = id_build(rng, c0, stats.tier, n0)?;
    let (t1, m1) = id_build(rng, c1, stats.tier, n1)?;
    let (k0, k1) = (id_model(&m0), id_model(&m1));
    let mut fp = 0;
    let mut some = 0;
    for i in 0..4 {
        let (own, l, other, r, kr) = if i == 3 { (&t0, &m0, &t0, &m0, &k0) } else { (&t0, &m0, &t1, &m1, &k1) };
        let rel = Rel::new(rng, &l.ids(), &r.ids());
        let what = format!("join of {} entries (max {} min {}) with {} (max {} min {})", k0.len(), c0.max_children, c0.min_children, kr.len(), c1.max_children, c1.min_children);
        let n = joined(own, other, Ctx { m0: &k0, m1: kr, what: &what }, &rel, &|a, b| rel.has(a.id, b.id), stats)?;
        if n > 0 && n < k0.len() * kr.len() {
            some += 1;
            fp = mix2(fp, rel.seed ^ n as u64);
        }
    }
    if some > 0 && k0.len() > c0.max_children {
        stats.nontrivial(fp);
    }
    stats.add(if k0.len() == 0 || k1.len() == 0 { "cases_with_an_empty_tree" } else { "relations_of_ids" }, 1);
    stats.sample(|| format!("4 joins by arbitrary relations of ids, {} entries (max {} min {}) with {} (max {} min {}); {some} of them matching some but not all pairs", k0.len(), c0.max_children, c0.min_children, k1.len(), c1.max_children, c1.min_children));
    Ok(())
}

/// Keys of any two kinds, related by their hash; nothing can be pruned.
#[derive(Clone)]
pub struct HashRel<S0, S1>(pub u64, pub u64, pub std::marker::PhantomData<(S0, S1)>);
impl<S0: Scn, S1: Scn> JoinFilter<S0::B, S1::B, S0::K, S1::K> for HashRel<S0, S1> {
    fn test_bounds(&self, _: &S0::B, _: &S1::B) -> bool {
        true
    }
    fn test_key(&self, a: &S0::K, b: &S1::K) -> bool {
        mix2(mix2(self.0, S0::fp(a)), S1::fp(b)) % 100 < self.1
    }
}
fn mixed<S0: Scn, S1: Scn>(rng: &mut Rng, stats: &mut Stats) -> R {
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let (n0, n1) = (cap(rng, stats.tier), cap(rng, stats.tier));
    let mut h0 = Hist::<S0>::new(rng, stats.tier, n0);
    let mut h1 = Hist::<S1>::new(rng, stats.tier, n1);
    let (t0, m0) = build::<S0>(rng, c0, &mut h0, stats)?;
    let (t1, m1) = build::<S1>(rng, c1, &mut h1, stats)?;
    let f = HashRel::<S0, S1>(rng.next(), rng.pick(&[1, 20, 100]), std::marker::PhantomData);
    let what = format!("join of {} {} entries (max {}) with {} {} entries (max {})", m0.len(), S0::NAME, c0.max_children, m1.len(), S1::NAME, c1.max_children);
    let g = HashRel::<S0, S1>(f.0, f.1, f.2);
    let n = joined::<S0::B, S1::B, S0::K, S1::K, _>(&t0, &t1, Ctx { m0: &m0, m1: &m1, what: &what }, f, &|a, b| g.test_key(a, b), stats)?;
    if n > 0 && m0.len() > c0.max_children {
        stats.nontrivial(mix2(rng.next(), n as u64));
    }
    stats.add("mixed_types", 1);
    Ok(())
}

fn ci<N: Coord, const D: usize>(v: &SVec<N, D>) -> [i64; D] {
    std::array::from_fn(|d| v.0[d].to())
}
/// Pairs whose boxes meet, or come within a distance.
#[derive(Clone, Copy)]
pub struct Within<N>(pub i64, pub std::marker::PhantomData<N>);
pub fn within<N: Coord, const D: usize>(a: &SAABB<N, D>, b: &SAABB<N, D>, dist: i64) -> bool {
    box_box((&ci(&a.min), &ci(&a.max)), (&ci(&b.min), &ci(&b.max))) <= sq(dist as i128)
}
impl<N, K0, K1, const D: usize> JoinFilter<SAABB<N, D>, SAABB<N, D>, K0, K1> for Within<N>
where
    N: Coord,
    K0: Bounded<SAABB<N, D>>,
    K1: Bounded<SAABB<N, D>>,
{
    fn test_bounds(&self, a: &SAABB<N, D>, b: &SAABB<N, D>) -> bool {
        if self.0 == 0 {
            return a.intersects(b);
        }
        let r = N::of(self.0).into();
        a.sq_dist_to(b).raw() <= r * r
    }
    fn test_key(&self, a: &K0, b: &K1) -> bool {
        within(&a.bounds(), &b.bounds(), self.0)
    }
}
fn spatial<N, S0, S1, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R
where
    N: Coord,
    S0: Scn<G = Plan, B = SAABB<N, D>>,
    S1: Scn<G = Plan, B = SAABB<N, D>>,
{
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let (n0, n1) = (cap(rng, stats.tier), cap(rng, stats.tier));
    let mut h0 = Hist::<S0>::new(rng, stats.tier, n0);
    let mut h1 = Hist::<S1>::new(rng, stats.tier, n1);
    let far = rng.chance(40);
    if far {
        h0.g = Plan::within(rng, 0, 100);
        h1.g = Plan::within(rng, 0, 100);
    }
    let (t0, m0) = build::<S0>(rng, c0, &mut h0, stats)?;
    let (t1, m1) = build::<S1>(rng, c1, &mut h1, stats)?;
    let f = Within::<N>(if far { rng.range(0, 40) } else { 0 }, std::marker::PhantomData);
    let what = format!("join of {} {} entries (max {}) with {} {} entries (max {}) at most {} apart", m0.len(), S0::NAME, c0.max_children, m1.len(), S1::NAME, c1.max_children, f.0);
    let n = joined::<S0::B, S1::B, S0::K, S1::K, _>(&t0, &t1, Ctx { m0: &m0, m1: &m1, what: &what }, f, &|a, b| within(&a.bounds(), &b.bounds(), f.0), stats)?;
    if n > 0 && n < m0.len() * m1.len() && m0.len() > c0.max_children {
        stats.nontrivial(mix2(rng.next(), n as u64));
    }
    stats.add("spatial_joins", 1);
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if rng.chance(4) {
        return crate::ways::case("C07", rng, stats);
    }
    if crate::bulk::due(rng, stats, 4000) {
        return crate::bulk::case("C07", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[
        by_ids,
        by_ids,
        by_ids,
        by_ids,
        mixed::<BoxS<i32, 2>, TagS>,
        mixed::<StrS, PtS<u8, 3>>,
        mixed::<TagS, SloppyS>,
        mixed::<LineS<i16, 2>, StrS>,
        spatial::<i32, BoxS<i32, 2>, PtS<i32, 2>, 2>,
        spatial::<u8, BoxS<u8, 2>, BoxS<u8, 2>, 2>,
        spatial::<N64, BoxS<N64, 3>, PtS<N64, 3>, 3>,
        spatial::<i16, LineS<i16, 2>, BoxS<i16, 2>, 2>,
    ];
    let f = rng.pick(F);
    f(rng, stats)
}
