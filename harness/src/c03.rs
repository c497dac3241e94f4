//! C03: filtered iteration yields exactly what a linear scan with the key test would.
use crate::common::*;
use crate::geo::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::SVec;
use rusty_rtree::RTree;
use std::borrow::Borrow;
use std::collections::HashSet;
use std::fmt::Debug;

/// Compares one query with a scan. `want` is an exact oracle for the key test where there is one.
fn query<B, K, Q, F>(
    t: &mut RTree<B, K, Val>,
    m: &Model<K>,
    what: &dyn Fn() -> String,
    mk: impl Fn() -> F,
    want: impl Fn(&K) -> Tri,
    stats: &mut Stats,
) -> Result<usize, Fail>
where
    K: Borrow<Q> + Eq + Clone + Debug,
    Q: ?Sized,
    F: SpatialFilter<B, Q>,
{
    let f = mk();
    let mut exp = HashSet::new();
    for (u, (k, _)) in &m.m {
        let r = f.test_key(k.borrow());
        ensure!(want(k).agrees(r), "{}: the key test says {r} for {k:?}, exactly it is {:?}", what(), want(k));
        if r {
            exp.insert(*u);
        }
    }
    for mutable in [false, true] {
        let name = if mutable { "filter_iter_mut" } else { "filter_iter" };
        let got: Vec<(K, Val)> = if mutable {
            t.filter_iter_mut::<Q, F>(mk()).map(|(k, v)| (k.clone(), v.clone())).collect()
        } else {
            t.filter_iter::<Q, F>(mk()).map(|(k, v)| (k.clone(), v.clone())).collect()
        };
        let mut seen = HashSet::new();
        for (k, v) in &got {
            ensure!(m.m.get(&v.uid).is_some_and(|e| e.0 == *k && e.1 == v.pay), "{name} with {}: yielded {k:?} -> {v:?}, which is not in the tree", what());
            ensure!(exp.contains(&v.uid), "{name} with {}: yielded {k:?}, which does not match", what());
            ensure!(seen.insert(v.uid), "{name} with {}: yielded {k:?} -> {v:?} twice", what());
        }
        if seen.len() != exp.len() {
            let miss = exp.iter().find(|u| !seen.contains(u)).unwrap();
            fail!("{name} with {}: yielded {} of {} matching entries (tree of {}); missing {:?}", what(), seen.len(), exp.len(), m.len(), m.m[miss].0);
        }
    }
    stats.add("queries", 1);
    stats.add("entries_scanned", m.len() as u64);
    stats.add("matches", exp.len() as u64);
    if exp.is_empty() {
        stats.add("queries_without_match", 1);
    } else if exp.len() == m.len() {
        stats.add("queries_matching_all", 1);
    } else {
        stats.add("queries_matching_some", 1);
    }
    Ok(exp.len())
}

type I<const D: usize> = [i64; D];
fn ci<N: Coord, const D: usize>(v: &SVec<N, D>) -> I<D> {
    std::array::from_fn(|d| v.0[d].to())
}

/// Boxes to query with: by a plan of their own, touching keys, enclosing them, points, everything.
fn space<N: Coord, const D: usize>(rng: &mut Rng, p: &mut Plan, some: Option<(I<D>, I<D>)>) -> (I<D>, I<D>) {
    let (lo, hi) = (p.lo, p.hi);
    match (rng.below(7), some) {
        (0, Some((a, b))) => (a, b),
        (1, Some((a, b))) => {
            // touches in a corner or along a side
            let d0 = rng.below(D);
            let up = rng.chance(50);
            let gap = rng.chance(30) as i64;
            let l = std::array::from_fn(|d| if d == d0 { if up { (b[d] + gap).min(hi) } else { lo } } else { a[d] });
            let h = std::array::from_fn(|d| if d == d0 { if up { hi } else { (a[d] - gap).max(lo) } } else { b[d] });
            (l, h)
        }
        (2, Some((a, b))) => {
            // a little larger or smaller
            let g = rng.range(-1, 1);
            let l: I<D> = std::array::from_fn(|d| (a[d] - g).clamp(lo, hi));
            let h: I<D> = std::array::from_fn(|d| (b[d] + g).clamp(lo, hi).max(l[d]));
            (l, h)
        }
        (3, _) => {
            // large
            let l: I<D> = std::array::from_fn(|_| rng.range(lo, hi));
            let h: I<D> = std::array::from_fn(|d| rng.range(l[d], hi));
            (l, h)
        }
        (4, _) if rng.chance(20) => ([lo; D], [hi; D]),
        _ => p.next::<D>(rng),
    }
}

fn some_key<K: Eq + Clone>(rng: &mut Rng, m: &Model<K>) -> Option<K> {
    m.random(rng).map(|u| m.m[&u].0.clone())
}

struct Run<S: Scn> {
    t: Tree<S>,
    m: Model<S::K>,
    p: Plan,
    cfg: rusty_rtree::RTreeConfig,
    fp: u64,
    hits: usize,
    nq: usize,
}
fn grow<S: Scn<G = Plan>>(rng: &mut Rng, stats: &mut Stats, range: Option<(i64, i64)>) -> Result<Run<S>, Fail> {
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = Hist::<S>::new(rng, stats.tier, size_cap(cfg, stats.tier).min(700));
    if let Some((a, b)) = range {
        h.g = Plan::within(rng, a, b);
    }
    let (t, m) = build::<S>(rng, cfg, &mut h, stats)?;
    let p = Plan::within(rng, h.g.lo, h.g.hi);
    Ok(Run { t, m, p, cfg, fp: rng.next(), hits: 0, nq: 0 })
}
impl<S: Scn> Run<S> {
    fn q<F: SpatialFilter<S::B, S::K>>(
        &mut self,
        stats: &mut Stats,
        what: &dyn Fn() -> String,
        mk: impl Fn() -> F,
        want: impl Fn(&S::K) -> Tri,
    ) -> R {
        let n = query::<S::B, S::K, S::K, F>(&mut self.t, &self.m, what, mk, want, stats)
            .map_err(|e| Fail(format!("max {} min {} {} entries: {}", self.cfg.max_children, self.cfg.min_children, self.m.len(), e.0)))?;
        self.nq += 1;
        if n > 0 && n < self.m.len() {
            self.hits += 1;
            self.fp = mix2(self.fp, n as u64);
        }
        Ok(())
    }
    fn done(self, stats: &mut Stats, what: &str) -> R {
        stats.max("largest_tree", self.m.len() as u64);
        if self.hits > 0 && self.m.len() > self.cfg.max_children {
            stats.nontrivial(self.fp);
        }
        stats.sample(|| format!("{what}: {} queries on a tree of {} entries (max {} min {}), {} of them matching some but not all", self.nq, self.m.len(), self.cfg.max_children, self.cfg.min_children, self.hits));
        Ok(())
    }
}

fn boxes<N: Coord, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let mut r = grow::<BoxS<N, D>>(rng, stats, None)?;
    for _ in 0..6 {
        let s = some_key(rng, &r.m).map(|k| (ci(&k.min), ci(&k.max)));
        let (lo, hi) = space::<N, D>(rng, &mut r.p, s);
        let b = sbox::<N, D>(&lo, &hi);
        let wi = |k: &SAABB<N, D>| Tri::of(boxes_meet((&lo, &hi), (&ci(&k.min), &ci(&k.max))));
        let wc = |k: &SAABB<N, D>| Tri::of(box_in((&lo, &hi), (&ci(&k.min), &ci(&k.max))));
        r.q(stats, &|| format!("IntersectsFilter of {b:?}"), || IntersectsFilter::new(b), wi)?;
        r.q(stats, &|| format!("BoundedIntersectsFilter of {b:?}"), || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(b), wi)?;
        r.q(stats, &|| format!("ContainsFilter of {b:?}"), || ContainsFilter::new(b), wc)?;
        r.q(stats, &|| format!("BoundedContainsFilter of {b:?}"), || BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(b), wc)?;
        let pt = svec::<N, D>(&lo);
        let wp = |k: &SAABB<N, D>| Tri::of(in_box(&lo, &ci(&k.min), &ci(&k.max)));
        r.q(stats, &|| format!("IntersectsFilter of point {pt:?}"), || IntersectsFilter::new(pt), wp)?;
        r.q(stats, &|| format!("BoundedIntersectsFilter of point {pt:?}"), || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(pt), wp)?;
    }
    let e = SAABB::<N, D>::empty();
    if r.p.lo > N::LO && r.p.hi < N::HI {
        // Nothing meets the empty box, and it holds nothing.
        r.q(stats, &|| "IntersectsFilter of the empty box".into(), || IntersectsFilter::new(e), |_| Tri::No)?;
        r.q(stats, &|| "ContainsFilter of the empty box".into(), || ContainsFilter::new(e), |_| Tri::No)?;
    }
    r.q(stats, &|| "NoFilter".into(), || NoFilter, |_| Tri::Yes)?;
    r.done(stats, "boxes")
}

fn points<N: Coord, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let mut r = grow::<PtS<N, D>>(rng, stats, None)?;
    for _ in 0..6 {
        let s = some_key(rng, &r.m).map(|k| (ci(&k), ci(&k)));
        let (lo, hi) = space::<N, D>(rng, &mut r.p, s);
        let b = sbox::<N, D>(&lo, &hi);
        let w = |k: &SVec<N, D>| Tri::of(in_box(&ci(k), &lo, &hi));
        r.q(stats, &|| format!("IntersectsFilter of {b:?}"), || IntersectsFilter::new(b), w)?;
        r.q(stats, &|| format!("BoundedIntersectsFilter of {b:?}"), || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(b), w)?;
        r.q(stats, &|| format!("ContainsFilter of {b:?}"), || ContainsFilter::new(b), w)?;
        r.q(stats, &|| format!("BoundedContainsFilter of {b:?}"), || BoundedContainsFilter::<SAABB<N, D>, _>::new_bounded(b), w)?;
    }
    r.q(stats, &|| "NoFilter".into(), || NoFilter, |_| Tri::Yes)?;
    r.done(stats, "points")
}

fn geom_range(rng: &mut Rng) -> (i64, i64) {
    let w = rng.pick(&[4i64, 10, 30, 100, 1000]);
    let o = rng.pick(&[-w / 2, 0, -w, 5]);
    (o.max(-1000), (o + w).min(1000))
}

/// Spaces that need differences of coordinates.
fn shapes<N, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R
where
    N: Coord + std::ops::Mul<Output = N>,
{
    let (a, b) = geom_range(rng);
    if rng.chance(50) {
        let mut r = grow::<BoxS<N, D>>(rng, stats, Some((a, b)))?;
        for _ in 0..6 {
            let s = some_key(rng, &r.m).map(|k| (ci(&k.min), ci(&k.max)));
            let (lo, hi) = space::<N, D>(rng, &mut r.p, s);
            let flip: [bool; D] = std::array::from_fn(|_| rng.chance(50));
            let o: I<D> = std::array::from_fn(|d| if flip[d] { hi[d] } else { lo[d] });
            let e: I<D> = std::array::from_fn(|d| if flip[d] { lo[d] } else { hi[d] });
            let del: I<D> = std::array::from_fn(|d| e[d] - o[d]);
            let line = Line(svec::<N, D>(&o), svec::<N, D>(&e));
            let w = |k: &SAABB<N, D>| seg_box(&o, &del, &ci(&k.min), &ci(&k.max), false);
            r.q(stats, &|| format!("IntersectsFilter of {line:?}"), || IntersectsFilter::new(line.clone()), w)?;
            r.q(stats, &|| format!("BoundedIntersectsFilter of {line:?}"), || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(line.clone()), w)?;
            let n: I<D> = if rng.chance(40) { std::array::from_fn(|_| rng.range(-4, 4)) } else { del };
            // -0.0, where there is such
            let neg = rng.chance(30);
            let w = |k: &SAABB<N, D>| seg_box(&o, &n, &ci(&k.min), &ci(&k.max), true);
            r.q(stats, &|| format!("IntersectsFilter of the ray from {o:?} along {n:?}"), || IntersectsFilter::new(Ray { origin: svec::<N, D>(&o), n: SVec(n.map(|i| if i == 0 && neg { N::of(0) * N::of(-1) } else { N::of(i) })) }), w)?;
        }
        stats.add("lines_and_rays", 1);
        r.done(stats, "lines and rays at boxes")
    } else if rng.chance(50) {
        let mut r = grow::<PtS<N, D>>(rng, stats, Some((a, b)))?;
        for _ in 0..8 {
            let c: I<D> = r.p.next::<D>(rng).0;
            let rad = match (rng.below(4), some_key(rng, &r.m)) {
                (0, Some(k)) => (pt_pt(&ci(&k), &c) as f64).sqrt() as i64,
                (1, _) => 0,
                _ => rng.range(0, (b - a) / 2),
            };
            let mk = || Sphere { center: svec::<N, D>(&c), radius: N::of(rad) };
            let w = |k: &SVec<N, D>| Tri::of(pt_pt(&ci(k), &c) <= sq(rad as i128));
            r.q(stats, &|| format!("BoundedIntersectsFilter of the sphere {c:?} radius {rad}"), || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(mk()), w)?;
        }
        stats.add("spheres", 1);
        r.done(stats, "spheres at points")
    } else {
        let mut r = grow::<LineS<N, D>>(rng, stats, Some((a, b)))?;
        for _ in 0..6 {
            let s = some_key(rng, &r.m).map(|k| (ci(&k.0), ci(&k.0)));
            let (lo, hi) = space::<N, D>(rng, &mut r.p, s);
            let bx = sbox::<N, D>(&lo, &hi);
            let w = |k: &Line<SVec<N, D>>| {
                let (o, e) = (ci(&k.0), ci(&k.1));
                seg_box(&o, &std::array::from_fn(|d| e[d] - o[d]), &lo, &hi, false)
            };
            r.q(stats, &|| format!("IntersectsFilter of {bx:?}"), || IntersectsFilter::new(bx), w)?;
            r.q(stats, &|| format!("BoundedIntersectsFilter of {bx:?}"), || BoundedIntersectsFilter::<SAABB<N, D>, _>::new_bounded(bx), w)?;
        }
        stats.add("line_keys", 1);
        r.done(stats, "line keys")
    }
}

/// Picks an arbitrary subset of the entries; rejects bounds exactly, or sloppily, or never.
struct Pick<'a> {
    s: &'a IdSet,
    seed: u64,
    slop: u32,
}
impl SpatialFilter<IdB, IdKey> for Pick<'_> {
    fn test_bounds(&self, b: &IdB) -> bool {
        !b.ids.meet(self.s).is_empty() || mix2(self.seed, b.ids.hash()) % 100 < self.slop as u64
    }
    fn test_key(&self, k: &IdKey) -> bool {
        self.s.has(k.id)
    }
}
fn subset(rng: &mut Rng, live: &IdSet) -> IdSet {
    let pct = rng.pick(&[0, 3, 10, 50, 90, 97, 100]);
    IdSet::of(live.iter().filter(|_| rng.chance(pct)))
}
fn ids(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = IdHist::new(rng, stats.tier, size_cap(cfg, stats.tier).min(700));
    let mut t: IdTree = RTree::new(cfg);
    let (mut n, mut fp, mut hits) = (0u64, 0, 0);
    loop {
        let Some(st) = h.next(rng) else { break };
        let touch = matches!(st, IdStep::Touch);
        if !touch {
            apply(st, &mut t)?;
        }
        n += 1;
        let live = &h.ids.live;
        if n % (3 + live.len() as u64) != 0 && !h.at_phase_end() {
            continue;
        }
        let all = h.ids.ids();
        let m = Model { m: live.keys().map(|id| (*id as u64, (h.ids.key(*id), 0))).collect(), next: 0 };
        for _ in 0..4 {
            let s = subset(rng, &all);
            let (seed, slop) = (rng.next(), rng.pick(&[0, 0, 20, 100]));
            let k = query::<IdB, IdKey, IdKey, Pick>(&mut t, &m, &|| format!("a filter for ids {s:?} of {all:?} (max {} min {})", cfg.max_children, cfg.min_children), || Pick { s: &s, seed, slop }, |k| Tri::of(s.has(k.id)), stats)?;
            if k > 0 && k < m.len() {
                hits += 1;
                fp = mix2(mix2(fp, s.hash()), h.ids.live.len() as u64);
            }
        }
        stats.max("largest_tree", m.len() as u64);
    }
    if hits > 0 {
        stats.nontrivial(fp);
    }
    stats.add("subset_filters", 1);
    stats.sample(|| format!("arbitrary subsets of ids during a history of {n} operations (max {} min {}), {hits} queries matching some but not all", cfg.max_children, cfg.min_children));
    Ok(())
}

/// Names starting with a prefix, asked for by str.
struct Prefix(String);
impl SpatialFilter<StrB, str> for Prefix {
    fn test_bounds(&self, b: &StrB) -> bool {
        match &b.0 {
            None => false,
            Some((lo, hi)) => hi.as_str() >= self.0.as_str() && (lo.as_str() <= self.0.as_str() || lo.starts_with(&self.0)),
        }
    }
    fn test_key(&self, k: &str) -> bool {
        k.starts_with(&self.0)
    }
}
fn names(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = Hist::<StrS>::new(rng, stats.tier, size_cap(cfg, stats.tier).min(700));
    let (mut t, m) = build::<StrS>(rng, cfg, &mut h, stats)?;
    let mut fp = 0;
    for _ in 0..12 {
        let k = h.probe(rng, &m);
        let p = &k.0[..rng.below(k.0.len() + 1)];
        let n = query::<StrB, Name, str, Prefix>(&mut t, &m, &|| format!("names starting with {p:?}"), || Prefix(p.to_string()), |k| Tri::of(k.0.starts_with(p)), stats)?;
        if n > 0 && n < m.len() {
            fp = mix2(fp, n as u64);
        }
    }
    if fp != 0 {
        stats.nontrivial(mix2(fp, m.len() as u64));
    }
    stats.add("borrowed_keys", 1);
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if rng.chance(4) {
        return crate::ways::case("C03", rng, stats);
    }
    if crate::bulk::due(rng, stats, 4166) {
        return crate::bulk::case("C03", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[
        boxes::<i32, 2>,
        boxes::<i32, 3>,
        boxes::<u8, 1>,
        boxes::<N64, 2>,
        boxes::<i8, 2>,
        boxes::<u32, 4>,
        points::<i32, 2>,
        points::<u8, 3>,
        points::<N32, 2>,
        points::<i16, 1>,
        shapes::<i32, 2>,
        shapes::<i32, 3>,
        shapes::<i16, 2>,
        shapes::<N64, 3>,
        shapes::<N32, 2>,
        shapes::<i32, 1>,
        ids,
        ids,
        ids,
        names,
    ];
    let f = rng.pick(F);
    f(rng, stats)
}
