//! C20: queries on an empty tree, new or emptied, find nothing and evaluate nothing; emptied trees serve as new ones.
use crate::c17::Unit;
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use noisy_float::types::{n64, N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::filter::*;
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::fmt::Debug;

/// A query object that cannot be evaluated: like one over integers whose arithmetic would overflow.
#[derive(Clone, Copy)]
struct Fatal;
fn fatal(what: &str) -> ! {
    panic!("a query on an empty tree evaluated its query object on {what}")
}
impl<B, K> SpatialFilter<B, K> for Fatal {
    fn test_bounds(&self, _: &B) -> bool {
        fatal("bounds")
    }
    fn test_key(&self, _: &K) -> bool {
        fatal("a key")
    }
}
impl<B, C, K, L> JoinFilter<B, C, K, L> for Fatal {
    fn test_bounds(&self, _: &B, _: &C) -> bool {
        fatal("a pair of bounds")
    }
    fn test_key(&self, _: &K, _: &L) -> bool {
        fatal("a pair of keys")
    }
}
impl<B, K> Ranking<B, K> for Fatal {
    type Metric = i32;
    fn bounds_min(&self, _: &B) -> i32 {
        fatal("bounds")
    }
    fn rank_key(&self, _: &K) -> i32 {
        fatal("a key")
    }
}
struct FatalOpt;
impl<B, K> Ranking<B, K> for FatalOpt {
    type Metric = Option<i32>;
    fn bounds_min(&self, _: &B) -> Option<i32> {
        fatal("bounds")
    }
    fn rank_key(&self, _: &K) -> Option<i32> {
        fatal("a key")
    }
}

macro_rules! nothing {
    ($how:expr, $what:expr, $it:expr) => {{
        let mut it = $it;
        ensure!(it.next().is_none(), "{} on {} found something", $what, $how);
        // and again
        ensure!(it.next().is_none(), "{} on {} found something after its end", $what, $how);
    }};
}

/// Every query that does not depend on the key type, on a tree without entries.
fn barren<B, K>(t: &mut RTree<B, K, Val>, how: &str, n: &mut u64) -> R
where
    B: Clone,
    K: Clone + Debug,
{
    ensure!(t.len() == 0, "{how} has len() {}", t.len());
    ensure!(t.is_empty(), "{how} is not is_empty()");
    nothing!(how, "iter", t.iter());
    nothing!(how, "iter_mut", t.iter_mut());
    nothing!(how, "filter_iter", t.filter_iter::<K, _>(Fatal));
    nothing!(how, "filter_iter_mut", t.filter_iter_mut::<K, _>(Fatal));
    nothing!(how, "iter_asc_by", t.iter_asc_by(Fatal));
    nothing!(how, "iter_asc_by_mut", t.iter_asc_by_mut(Fatal));
    nothing!(how, "filter_iter_asc_by", t.filter_iter_asc_by(FatalOpt));
    nothing!(how, "filter_iter_asc_by_mut", t.filter_iter_asc_by_mut(FatalOpt));
    ensure!(t.min_by(Fatal).is_none(), "min_by on {how} found something");
    ensure!(t.min_by_mut(Fatal).is_none(), "min_by_mut on {how} found something");
    ensure!(t.filter_min_by(FatalOpt).is_none(), "filter_min_by on {how} found something");
    ensure!(t.filter_min_by_mut(FatalOpt).is_none(), "filter_min_by_mut on {how} found something");
    *n += 14;
    Ok(())
}
/// Joins on either side. `o` holds `m` entries.
fn joins<B, K, C, L>(t: &RTree<B, K, Val>, o: &RTree<C, L, Val>, om: usize, how: &str, n: &mut u64) -> R
where
    K: Bounded<B> + Eq + Debug,
    L: Bounded<C> + Eq + Debug,
{
    nothing!(how, "join", t.join::<C, L, Val, K, L, _>(o, Fatal));
    nothing!(how, "join (on the right)", o.join::<B, K, Val, L, K, _>(t, Fatal));
    nothing!(how, "left_join", t.left_join::<C, L, Val, K, L, _>(o, Fatal));
    let (mut c, mut held) = (0, vec![]);
    for ((k, v), mut inner) in o.left_join::<B, K, Val, L, K, _>(t, Fatal) {
        c += 1;
        if c % 2 == 0 {
            nothing!(how, format!("left_join (on the right, with {k:?} -> {v:?})"), inner);
        } else if held.len() < 5 {
            held.push(inner);
        } else {
            let _ = inner.next();
        }
    }
    for mut i in held {
        nothing!(how, "left_join (on the right)", i);
    }
    ensure!(c == om, "left_join with {how} on the right gave {c} entries of the left, expected {om}");
    *n += 4;
    Ok(())
}
fn keyed<S: Scn>(t: &mut Tree<S>, h: &mut Hist<S>, rng: &mut Rng, how: &str, n: &mut u64) -> R {
    for _ in 0..3 {
        let k = S::key(&mut h.g, rng);
        ensure!(t.get(&k).is_none() && S::bget(t, &k).is_none(), "get({k:?}) on {how} found something");
        ensure!(t.get_mut(&k).is_none() && S::bget_mut(t, &k).is_none(), "get_mut({k:?}) on {how} found something");
        ensure!(t.remove(&k).is_none() && S::bremove(t, &k).is_none(), "remove({k:?}) on {how} found something");
        *n += 6;
    }
    Ok(())
}

/// Removes everything, in some order.
fn drain<S: Scn>(rng: &mut Rng, t: &mut Tree<S>, m: &mut Model<S::K>, stats: &mut Stats) -> R {
    let mut us: Vec<u64> = m.m.keys().copied().collect();
    match rng.below(4) {
        0 => {}
        1 => us.reverse(),
        2 => us.sort_by_key(|u| S::ord(&m.m[u].0)),
        _ => rng.shuffle(&mut us),
    }
    for u in us {
        if let Some(e) = m.m.get(&u) {
            let k = e.0.clone();
            exec::<S>(t, m, Step::Remove(k), stats)?;
        }
    }
    while let Some(u) = m.m.keys().next().copied() {
        let k = m.m[&u].0.clone();
        exec::<S>(t, m, Step::Remove(k), stats)?;
    }
    Ok(())
}

fn emptied<S: Scn, O: Scn>(rng: &mut Rng, stats: &mut Stats) -> R {
    let tier = stats.tier;
    let cfg = pick_cfg(rng, tier, false);
    let cap = size_cap(cfg, tier).min(rng.pick(&[1, 4, 20, 60, 200, 400]));
    let oc = pick_cfg(rng, tier, false);
    let on = rng.pick(&[0, 1, 3, 20, 60]).min(size_cap(oc, tier));
    let mut oh = Hist::<O>::new(rng, tier, on);
    let (mut o, om) = build::<O>(rng, oc, &mut oh, stats)?;
    if rng.chance(10) {
        o = RTree::new(oc);
    }
    let om = if o.is_empty() { 0 } else { om.len() };

    let mut t: Tree<S> = RTree::new(cfg);
    let mut h = Hist::<S>::new(rng, tier, cap);
    let mut m: Model<S::K> = Model::new();
    let (mut q, mut fp, mut peak) = (0, rng.next(), 0);
    let rounds = 1 + rng.below(3);
    for r in 0..=rounds {
        let how = format!(
            "a {} tree (max {} min {}, {} before)",
            if r == 0 { "new" } else { "emptied" },
            cfg.max_children,
            cfg.min_children,
            peak
        );
        barren(&mut t, &how, &mut q)?;
        joins(&t, &o, om, &how, &mut q)?;
        joins(&t, &t, 0, &how, &mut q)?;
        keyed::<S>(&mut t, &mut h, rng, &how, &mut q)?;
        barren(&mut t, &how, &mut q)?;
        let mut c = t.clone();
        let how = format!("a clone of {how}");
        barren(&mut c, &how, &mut q)?;
        joins(&c, &t, 0, &how, &mut q)?;
        ensure!(!format!("{t:?}").is_empty(), "{how} cannot be shown");
        stats.add("empty_trees_queried", 2);
        fp = mix2(fp, peak as u64);
        if r == rounds {
            break;
        }
        // one of them is filled again
        if rng.chance(50) {
            std::mem::swap(&mut t, &mut c);
        }
        let mut h2 = Hist::<S>::new(rng, tier, cap);
        std::mem::swap(&mut h, &mut h2);
        peak = 0;
        while let Some(st) = h.next(rng, &m) {
            exec::<S>(&mut t, &mut m, st, stats)?;
            peak = peak.max(m.len());
            ensure!(t.len() == m.len(), "{how}, filled again, has len() {}, expected {}", t.len(), m.len());
            if m.len() == 0 && rng.chance(20) {
                barren(&mut t, &how, &mut q)?;
            }
        }
        same(&format!("iter on {how}, filled again,"), t.iter().map(|(k, v)| (k, v.clone())), &m)?;
        ensure!(c.is_empty(), "{how} has {} entries after the other was filled", c.len());
        stats.add("trees_filled_again", 1);
        drain::<S>(rng, &mut t, &mut m, stats)?;
        stats.add("trees_emptied", 1);
        stats.max("largest_tree_emptied", peak as u64);
    }
    stats.add("queries_on_empty_trees", q);
    if peak > 0 {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("{} keys (max {} min {}): {rounds} times filled (last to {peak}) and emptied, {q} queries while empty", S::NAME, cfg.max_children, cfg.min_children));
    Ok(())
}

/// The provided filters and rankings over a tree of integer (or float) boxes and points that holds nothing.
fn geometric<N, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R
where
    N: Unit + Into<f64>,
{
    type V<N, const D: usize> = SVec<N, D>;
    type Bx<N, const D: usize> = SAABB<N, D>;
    let (max, min) = match rng.below(6) {
        0 => (rng.below(2), rng.below(3)), // nothing may be inserted, but everything asked
        _ => {
            let c = pick_cfg(rng, stats.tier, false);
            (c.max_children, c.min_children)
        }
    };
    let cfg = RTreeConfig { max_children: max, min_children: min };
    let mut tb: RTree<Bx<N, D>, Bx<N, D>, Val> = RTree::new(cfg);
    let mut tp: RTree<Bx<N, D>, V<N, D>, Val> = RTree::new(cfg);
    let mut tl: RTree<Bx<N, D>, Line<V<N, D>>, Val> = RTree::new(cfg);
    let m = N::SQ.min(N::MAX / 2);
    let pt = |rng: &mut Rng| -> V<N, D> { SVec(std::array::from_fn(|_| N::of(rng.range(-m, m)))) };
    let mut how = format!("a new tree of {} in {D} dimensions (max {max} min {min})", N::NAME);
    if max >= 2 && rng.chance(70) {
        how = format!("an emptied tree of {} in {D} dimensions (max {max} min {min})", N::NAME);
        let k = rng.below(40);
        let ps: Vec<V<N, D>> = (0..k).map(|_| pt(rng)).collect();
        for p in &ps {
            tp.insert(*p, Val { uid: 0, pay: 0 });
            tb.insert(p.bounds(), Val { uid: 0, pay: 0 });
        }
        for p in &ps {
            let b: Bx<N, D> = p.bounds();
            ensure!(tp.remove(p).is_some() && tb.remove(&b).is_some(), "an entry at {p:?} cannot be removed");
        }
    }
    let (a, b, c) = (pt(rng), pt(rng), pt(rng));
    let bx: Bx<N, D> = Line(a, b).bounds();
    let mut q = 0;
    macro_rules! filters {
        ($t:expr, $k:ty, $($f:expr),*) => {$(
            nothing!(how, stringify!($f), $t.filter_iter::<$k, _>($f));
            nothing!(how, stringify!($f), $t.filter_iter_mut::<$k, _>($f));
            q += 2;
        )*};
    }
    filters!(
        tb, Bx<N, D>,
        IntersectsFilter::new(bx), IntersectsFilter::new(a), IntersectsFilter::new(Line(a, b)), IntersectsFilter::new(Ray { origin: a, n: b - c }),
        BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(bx), BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(Line(a, b)),
        ContainsFilter::new(bx), BoundedContainsFilter::<Bx<N, D>, _>::new_bounded(bx), NoFilter
    );
    filters!(
        tp, V<N, D>,
        IntersectsFilter::new(bx), BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(Sphere { center: a, radius: N::of(m) }),
        ContainsFilter::new(bx), BoundedContainsFilter::<Bx<N, D>, _>::new_bounded(bx), NoFilter
    );
    filters!(tl, Line<V<N, D>>, IntersectsFilter::new(bx), BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(bx), NoFilter);
    macro_rules! rank {
        ($t:expr) => {
            let r = EuclideanDistanceRanking::<V<N, D>, N>::new(c);
            nothing!(how, "iter_asc_by distance", $t.iter_asc_by(r));
            nothing!(how, "iter_asc_by_mut distance", $t.iter_asc_by_mut(r));
            ensure!($t.min_by(r).is_none() && $t.min_by_mut(r).is_none(), "the nearest of {how} is something");
            q += 4;
        };
    }
    rank!(tb);
    rank!(tp);
    // joins by boxes, whose arithmetic would overflow on the empty bounds of integers
    let mut some: RTree<Bx<N, D>, Bx<N, D>, Val> = RTree::new(RTreeConfig { max_children: 4, min_children: 2 });
    let k = rng.below(20);
    for i in 0..k {
        some.insert(Line(pt(rng), pt(rng)).bounds(), Val { uid: i as u64, pay: 0 });
    }
    #[derive(Clone)]
    struct Far;
    fn span<N: Unit, const D: usize>(a: &SAABB<N, D>, b: &SAABB<N, D>) -> bool {
        // sums of widths: cannot overflow for the boxes that occur here
        (0..D).all(|d| (a.max.0[d] - b.min.0[d]) >= N::of(0) && (b.max.0[d] - a.min.0[d]) >= N::of(0))
    }
    impl<N: Unit, const D: usize, K: Bounded<SAABB<N, D>>, L: Bounded<SAABB<N, D>>> JoinFilter<SAABB<N, D>, SAABB<N, D>, K, L> for Far {
        fn test_bounds(&self, a: &SAABB<N, D>, b: &SAABB<N, D>) -> bool {
            span(a, b)
        }
        fn test_key(&self, a: &K, b: &L) -> bool {
            span(&a.bounds(), &b.bounds())
        }
    }
    macro_rules! join {
        ($t:expr, $k:ty) => {
            nothing!(how, "join", $t.join::<_, _, _, $k, Bx<N, D>, _>(&some, Far));
            nothing!(how, "join (on the right)", some.join::<_, _, _, Bx<N, D>, $k, _>(&$t, Far));
            nothing!(how, "left_join", $t.left_join::<_, _, _, $k, Bx<N, D>, _>(&some, Far));
            let mut n = 0;
            for (_, inner) in some.left_join::<_, _, _, Bx<N, D>, $k, _>(&$t, Far) {
                nothing!(how, "left_join (on the right)", inner);
                n += 1;
            }
            ensure!(n == k, "left_join with {how} on the right gave {n} entries of the left, expected {k}");
            q += 4;
        };
    }
    join!(tb, Bx<N, D>);
    join!(tp, V<N, D>);
    join!(tl, Line<V<N, D>>);
    let key = bx;
    ensure!(tb.get(&key).is_none() && tb.get_mut(&key).is_none() && tb.remove(&key).is_none(), "{how} holds {key:?}");
    ensure!(tp.get(&a).is_none() && tp.get_mut(&a).is_none() && tp.remove(&a).is_none(), "{how} holds {a:?}");
    barren(&mut tb, &how, &mut q)?;
    barren(&mut tp, &how, &mut q)?;
    stats.add("queries_on_empty_trees", q + 6);
    stats.add("geometric_cases", 1);
    stats.nontrivial(mix2(q, mix2(max as u64, min as u64)));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 1600) {
        return crate::large::case("C20", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[
        emptied::<BoxS<i32, 2>, PtS<i32, 2>>,
        emptied::<PtS<i8, 3>, BoxS<u32, 1>>,
        emptied::<LineS<i16, 2>, StrS>,
        emptied::<TagS, TagS>,
        emptied::<SloppyS, BoxS<i32, 2>>,
        emptied::<StrS, SloppyS>,
        emptied::<BoxS<u8, 2>, LineS<i16, 2>>,
        emptied::<PtS<N64, 2>, PtS<N64, 2>>,
        emptied::<BoxS<N32, 3>, TagS>,
        emptied::<BoxS<i32, 4>, BoxS<i8, 1>>,
    ];
    const G: &[fn(&mut Rng, &mut Stats) -> R] = &[
        geometric::<i8, 1>,
        geometric::<i8, 2>,
        geometric::<i16, 2>,
        geometric::<i16, 3>,
        geometric::<i32, 1>,
        geometric::<i32, 2>,
        geometric::<i32, 3>,
        geometric::<N32, 2>,
        geometric::<N64, 1>,
        geometric::<N64, 2>,
        geometric::<N64, 4>,
    ];
    let f = if rng.chance(70) { rng.pick(F) } else { rng.pick(G) };
    f(rng, stats)
}
