//! C05: ranked iteration is complete and ascending; min_by is its minimum.
use crate::common::*;
use crate::geo::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, SAABB};
use rusty_rtree::ranking::*;
use rusty_rtree::vector::SVec;
use rusty_rtree::RTree;
use std::collections::HashSet;
use std::fmt::Debug;

fn ascending<'a, K: Eq + Clone + Debug + 'a, M: Ord + Debug>(
    what: &str,
    got: impl Iterator<Item = (K, Val)>,
    m: &Model<K>,
    rank: &dyn Fn(&K) -> Option<M>,
    exp: &HashSet<u64>,
) -> R {
    let mut seen = HashSet::new();
    let mut last: Option<M> = None;
    for (k, v) in got {
        ensure!(m.m.get(&v.uid).is_some_and(|e| e.0 == k && e.1 == v.pay), "{what}: yielded {k:?} -> {v:?}, which is not in the tree");
        ensure!(seen.insert(v.uid), "{what}: yielded {k:?} -> {v:?} twice");
        let Some(r) = rank(&k) else { fail!("{what}: yielded {k:?}, which has no rank") };
        if let Some(l) = &last {
            ensure!(*l <= r, "{what}: yielded {k:?} of rank {r:?} after an entry of rank {l:?}");
        }
        last = Some(r);
    }
    if seen.len() != exp.len() {
        let miss = exp.iter().find(|u| !seen.contains(u)).unwrap();
        fail!("{what}: yielded {} of {} entries; missing {:?}", seen.len(), exp.len(), m.m[miss].0);
    }
    Ok(())
}
fn least<K: Eq + Clone + Debug, M: Ord + Debug>(
    what: &str,
    got: Option<(K, Val)>,
    m: &Model<K>,
    rank: &dyn Fn(&K) -> Option<M>,
    min: &Option<M>,
) -> R {
    match got {
        None => ensure!(min.is_none(), "{what}: found nothing, but there is an entry of rank {min:?}"),
        Some((k, v)) => {
            ensure!(m.m.get(&v.uid).is_some_and(|e| e.0 == k && e.1 == v.pay), "{what}: gave {k:?} -> {v:?}, which is not in the tree");
            let r = rank(&k);
            ensure!(r.is_some() && r == *min, "{what}: gave {k:?} of rank {r:?}, but the least rank is {min:?}");
        }
    }
    Ok(())
}
fn own<K: Clone>(x: (&K, &Val)) -> (K, Val) {
    (x.0.clone(), x.1.clone())
}
fn own_mut<K: Clone>(x: (&K, &mut Val)) -> (K, Val) {
    (x.0.clone(), x.1.clone())
}

/// All eight ways to ask. `mk` ranks everything; `mko` ranks with None for some.
pub fn plain<B, K, M, Rk>(t: &mut RTree<B, K, Val>, m: &Model<K>, what: &str, mk: &dyn Fn() -> Rk, stats: &mut Stats) -> R
where
    K: Eq + Clone + Debug,
    M: Ord + Debug,
    Rk: Ranking<B, K, Metric = M>,
{
    let rk = mk();
    let rank = |k: &K| Some(rk.rank_key(k));
    let exp: HashSet<u64> = m.m.keys().copied().collect();
    let min = m.m.values().map(|e| rk.rank_key(&e.0)).min();
    ascending(&format!("iter_asc_by {what}"), t.iter_asc_by(mk()).map(own), m, &rank, &exp)?;
    ascending(&format!("iter_asc_by_mut {what}"), t.iter_asc_by_mut(mk()).map(own_mut), m, &rank, &exp)?;
    least(&format!("min_by {what}"), t.min_by(mk()).map(own), m, &rank, &min)?;
    least(&format!("min_by_mut {what}"), t.min_by_mut(mk()).map(own_mut), m, &rank, &min)?;
    stats.add("ranked_traversals", 4);
    stats.add("entries_ranked", m.len() as u64);
    Ok(())
}
pub fn filtered<B, K, M, Rk>(t: &mut RTree<B, K, Val>, m: &Model<K>, what: &str, mk: &dyn Fn() -> Rk, stats: &mut Stats) -> Result<usize, Fail>
where
    K: Eq + Clone + Debug,
    M: Ord + Debug,
    Rk: Ranking<B, K, Metric = Option<M>>,
{
    let rk = mk();
    let rank = |k: &K| rk.rank_key(k);
    let exp: HashSet<u64> = m.m.iter().filter(|(_, e)| rk.rank_key(&e.0).is_some()).map(|(u, _)| *u).collect();
    let min = m.m.values().filter_map(|e| rk.rank_key(&e.0)).min();
    ascending(&format!("filter_iter_asc_by {what}"), t.filter_iter_asc_by(mk()).map(own), m, &rank, &exp)?;
    ascending(&format!("filter_iter_asc_by_mut {what}"), t.filter_iter_asc_by_mut(mk()).map(own_mut), m, &rank, &exp)?;
    least(&format!("filter_min_by {what}"), t.filter_min_by(mk()).map(own), m, &rank, &min)?;
    least(&format!("filter_min_by_mut {what}"), t.filter_min_by_mut(mk()).map(own_mut), m, &rank, &min)?;
    stats.add("filtered_ranked_traversals", 4);
    stats.add("entries_ranked", m.len() as u64);
    Ok(exp.len())
}

/// Ranks by an arbitrary function of the id; the lower bound is the least rank inside, less some slack.
#[derive(Clone, Copy)]
pub struct IdRank {
    pub seed: u64,
    pub modulus: u64,
    /// 0: exact; 1: rounded down to a multiple of 8; 2: no information
    pub slack: u8,
    /// percentage of ids without a rank
    pub none: u64,
    /// bounds without ranked ids may still have a bound
    pub lax: bool,
}
impl IdRank {
    pub fn new(rng: &mut Rng) -> IdRank {
        IdRank {
            seed: rng.next(),
            modulus: rng.pick(&[1, 2, 5, 40, 1000, 1 << 40]),
            slack: rng.pick(&[0, 0, 1, 2]),
            none: rng.pick(&[0, 10, 50, 95, 100]),
            lax: rng.chance(30),
        }
    }
    pub fn of(&self, id: u32) -> i64 {
        (mix2(self.seed, id as u64) % self.modulus) as i64
    }
    pub fn has(&self, id: u32) -> bool {
        mix2(!self.seed, id as u64) % 100 >= self.none
    }
    pub fn low(&self, v: i64) -> i64 {
        match self.slack {
            0 => v,
            1 => v.div_euclid(8) * 8 - 1,
            _ => -5,
        }
    }
}
impl Ranking<IdB, IdKey> for IdRank {
    type Metric = i64;
    fn bounds_min(&self, b: &IdB) -> i64 {
        b.ids.iter().map(|i| self.low(self.of(i))).min().unwrap_or(i64::MAX)
    }
    fn rank_key(&self, k: &IdKey) -> i64 {
        self.of(k.id)
    }
}
/// The same with ids that have no rank, and a metric that owns memory.
#[derive(Clone, Copy)]
pub struct IdRankOpt(pub IdRank);
impl Ranking<IdB, IdKey> for IdRankOpt {
    type Metric = Option<(i64, Box<u8>)>;
    fn bounds_min(&self, b: &IdB) -> Self::Metric {
        let m = b.ids.iter().filter(|i| self.0.has(*i)).map(|i| self.0.low(self.0.of(i))).min();
        if m.is_none() && self.0.lax {
            return Some((self.0.low(7), Box::new(0)));
        }
        m.map(|v| (v, Box::new(0)))
    }
    fn rank_key(&self, k: &IdKey) -> Self::Metric {
        if self.0.has(k.id) {
            Some((self.0.of(k.id), Box::new(0)))
        } else {
            None
        }
    }
}

fn by_ids(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = IdHist::new(rng, stats.tier, size_cap(cfg, stats.tier).min(500));
    let mut t: IdTree = RTree::new(cfg);
    let (mut n, mut fp, mut asked, mut peak) = (0u64, 1, 0, 0);
    while let Some(st) = h.next(rng) {
        if !matches!(st, IdStep::Touch) {
            apply(st, &mut t)?;
        }
        n += 1;
        let live = &h.ids.live;
        peak = peak.max(live.len());
        if n % (2 + live.len() as u64) != 0 && !h.at_phase_end() {
            continue;
        }
        let m = Model { m: live.keys().map(|id| (*id as u64, (h.ids.key(*id), 0))).collect(), next: 0 };
        for _ in 0..2 {
            let rk = IdRank::new(rng);
            let what = format!("ranking ids modulo {} with slack {} ({} entries, max {} min {})", rk.modulus, rk.slack, m.len(), cfg.max_children, cfg.min_children);
            plain(&mut t, &m, &what, &|| rk, stats)?;
            let k = filtered(&mut t, &m, &what, &|| IdRankOpt(rk), stats)?;
            fp = mix2(fp, k as u64 ^ rk.seed);
            asked += 1;
        }
    }
    if asked > 0 && peak > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.max("largest_tree", peak as u64);
    stats.sample(|| format!("{asked} arbitrary rankings of ids during a history of {n} operations, up to {peak} entries (max {} min {})", cfg.max_children, cfg.min_children));
    Ok(())
}

/// Within a distance, nearest first.
#[derive(Clone, Copy)]
struct Near<N, const D: usize>(SVec<N, D>, N64);
fn opt_dist<N: Coord, const D: usize>(a: &[i64; D], lo: &[i64; D], hi: &[i64; D], max: N64) -> Option<N64> {
    let d = noisy_float::types::n64(pt_box(a, lo, hi) as f64);
    (d <= max).then_some(d)
}
fn ci<N: Coord, const D: usize>(v: &SVec<N, D>) -> [i64; D] {
    std::array::from_fn(|d| v.0[d].to())
}
impl<N: Coord, const D: usize, K: Bounded<SAABB<N, D>>> Ranking<SAABB<N, D>, K> for Near<N, D> {
    type Metric = Option<N64>;
    fn bounds_min(&self, b: &SAABB<N, D>) -> Option<N64> {
        opt_dist::<N, D>(&ci(&self.0), &ci(&b.min), &ci(&b.max), self.1)
    }
    fn rank_key(&self, k: &K) -> Option<N64> {
        let b = k.bounds();
        opt_dist::<N, D>(&ci(&self.0), &ci(&b.min), &ci(&b.max), self.1)
    }
}

fn by_distance<N, S, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R
where
    N: Coord + std::ops::Mul<Output = N>,
    S: Scn<G = Plan, B = SAABB<N, D>>,
    S::K: PointDistance<SVec<N, D>, N>,
{
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = Hist::<S>::new(rng, stats.tier, size_cap(cfg, stats.tier).min(1500));
    // squared distances must be representable
    let w = match N::NAME {
        "i8" => 3,
        "i16" => 60,
        "N32" => 700,
        _ => rng.pick(&[6, 30, 300, 8000]),
    };
    h.g = Plan::within(rng, -w, w);
    let (mut t, m) = build::<S>(rng, cfg, &mut h, stats)?;
    let mut fp = rng.next();
    for _ in 0..4 {
        let p: [i64; D] = match (rng.below(3), m.random(rng)) {
            (0, Some(u)) => ci(&m.m[&u].0.bounds().max),
            (1, _) => h.g.next::<D>(rng).0,
            _ => std::array::from_fn(|_| rng.range(-w, w)),
        };
        let c = svec::<N, D>(&p);
        let what = format!("by distance to {c:?} ({} {} entries, max {} min {})", m.len(), S::NAME, cfg.max_children, cfg.min_children);
        plain(&mut t, &m, &what, &|| EuclideanDistanceRanking::<SVec<N, D>, N>::new(c), stats)?;
        // against exact distances, too
        let mut all: Vec<i128> = m.m.values().map(|e| { let b = e.0.bounds(); pt_box(&p, &ci(&b.min), &ci(&b.max)) }).collect();
        all.sort_unstable();
        let got: Vec<i128> = t.iter_asc_by(EuclideanDistanceRanking::<SVec<N, D>, N>::new(c)).map(|(k, _)| { let b = k.bounds(); pt_box(&p, &ci(&b.min), &ci(&b.max)) }).collect();
        ensure!(got == all, "iter_asc_by {what}: the exact distances of the entries come as {got:?}");
        let max = noisy_float::types::n64(sq(rng.range(0, 2 * w) as i128) as f64);
        let k = filtered(&mut t, &m, &format!("{what}, at most {max}"), &|| Near(c, max), stats)?;
        fp = mix2(fp, k as u64);
    }
    stats.max("largest_tree", m.len() as u64);
    stats.add("distance_rankings", 4);
    if m.len() > cfg.max_children {
        stats.nontrivial(fp);
    }
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if rng.chance(4) {
        return crate::ways::case("C05", rng, stats);
    }
    if crate::bulk::due(rng, stats, 3333) {
        return crate::bulk::case("C05", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[
        by_ids,
        by_ids,
        by_ids,
        by_distance::<i32, PtS<i32, 2>, 2>,
        by_distance::<i32, BoxS<i32, 2>, 2>,
        by_distance::<i32, BoxS<i32, 3>, 3>,
        by_distance::<i16, PtS<i16, 1>, 1>,
        by_distance::<i16, BoxS<i16, 2>, 2>,
        by_distance::<i8, PtS<i8, 2>, 2>,
        by_distance::<N64, PtS<N64, 3>, 3>,
        by_distance::<N64, BoxS<N64, 2>, 2>,
        by_distance::<N32, PtS<N32, 2>, 2>,
        by_distance::<N32, BoxS<N32, 4>, 4>,
    ];
    let f = rng.pick(F);
    f(rng, stats)
}
