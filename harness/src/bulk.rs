//! Trees of more than 65536 entries, for what only their number brings out.
use crate::common::*;
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, AABB, SAABB};
use rusty_rtree::filter::{IntersectsFilter, JoinFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};

type P = SVec<i32, 2>;
type B = SAABB<i32, 2>;
type T = RTree<B, P, u64>;

pub fn due(rng: &mut Rng, stats: &Stats, cases: usize) -> bool {
    stats.tier != Tier::Tiny && rng.below(cases) == 0
}

#[derive(Clone)]
struct Meet;
impl<K: Bounded<B>, L: Bounded<B>> JoinFilter<B, B, K, L> for Meet {
    fn test_bounds(&self, a: &B, b: &B) -> bool {
        a.intersects(b)
    }
    fn test_key(&self, a: &K, b: &L) -> bool {
        a.bounds().intersects(&b.bounds())
    }
}

struct Near(P);
impl Ranking<B, P> for Near {
    type Metric = N64;
    fn bounds_min(&self, b: &B) -> N64 {
        self.0.bounds().sq_dist_to(b)
    }
    fn rank_key(&self, k: &P) -> N64 {
        self.0.bounds().sq_dist_to(&k.bounds())
    }
}

/// A tree and its entries, in order of their values.
fn build(rng: &mut Rng, n: usize) -> (RTreeConfig, T, Vec<P>) {
    let (max_children, min_children) = rng.pick(&[(4, 2), (8, 3), (16, 8), (50, 20), (120, 60), (66_000, 1000), (100_000, 30_000)]);
    let cfg = RTreeConfig { max_children, min_children };
    let mut t = T::new(cfg);
    let w = rng.pick(&[200, 5000, 1_000_000]);
    let mut e = Vec::with_capacity(n);
    let n = if max_children == 66_000 { 65_990 } else { n };
    for i in 0..n {
        let k = SVec([rng.range(-w, w) as i32, rng.range(-w, w) as i32]);
        t.insert(k, i as u64);
        e.push(k);
    }
    (cfg, t, e)
}
fn some(rng: &mut Rng) -> usize {
    65_537 + rng.below(6000)
}
fn area(rng: &mut Rng, e: &[P]) -> B {
    let c = e[rng.below(e.len())];
    let wide = (e[0][0] - e[1][0]).abs() / 8;
    let r = rng.pick(&[0, 3, 40, wide]);
    AABB { min: c - SVec([r, r]), max: c + SVec([r, r]) }
}
fn contents<'a>(what: &str, n: usize, it: impl Iterator<Item = (&'a P, u64)>, e: &[Option<P>]) -> R {
    let mut seen = vec![false; e.len()];
    let mut c = 0;
    for (k, v) in it {
        let ok = e.get(v as usize).is_some_and(|x| x.as_ref() == Some(k));
        ensure!(ok, "{what} yielded {k:?} -> {v}, which is not in the tree");
        ensure!(!std::mem::replace(&mut seen[v as usize], true), "{what} yielded {k:?} -> {v} twice");
        c += 1;
    }
    ensure!(c == n, "{what} yielded {c} of {n} entries");
    Ok(())
}

pub fn case(prop: &str, rng: &mut Rng, stats: &mut Stats) -> R {
    let n = some(rng);
    let (cfg, mut t, e) = build(rng, n);
    let n = e.len();
    let mut live: Vec<Option<P>> = e.iter().copied().map(Some).collect();
    match prop {
        "C01" => {
            ensure!(t.len() == n && !t.is_empty(), "len() = {} with {n} entries", t.len());
            contents("iter", n, t.iter().map(|(k, v)| (k, *v)), &live)?;
            let mut left = n;
            for _ in 0..if cfg.max_children > 1000 { 200 } else { 3000 } {
                let k = e[rng.below(n)];
                if let Some(v) = t.remove(&k) {
                    ensure!(live.get(v as usize).is_some_and(|x| *x == Some(k)), "remove({k:?}) returned {v}");
                    live[v as usize] = None;
                    left -= 1;
                }
            }
            ensure!(t.len() == left, "len() = {} with {left} entries", t.len());
            contents("iter, after removals,", left, t.iter().map(|(k, v)| (k, *v)), &live)?;
            contents("iter_mut", left, t.iter_mut().map(|(k, v)| (k, *v)), &live)?;
        }
        "C02" => {
            let few = if cfg.max_children > 1000 { 500 } else { n };
            for _ in 0..few {
                let i = rng.below(n);
                let v = t.get(&e[i]).copied();
                ensure!(v.is_some_and(|v| live.get(v as usize).is_some_and(|x| *x == Some(e[i]))), "get({:?}) gave {v:?}", e[i]);
                let q = e[i] + SVec([rng.range(0, 1) as i32, 0]);
                let (a, b) = (t.get(&q).copied(), t.get_mut(&q).copied());
                ensure!(a == b, "get({q:?}) gave {a:?}, get_mut {b:?}");
            }
            for _ in 0..few.min(2000) {
                let i = rng.below(n);
                let a = t.get(&e[i]).copied();
                let b = t.insert_unique(e[i], a.unwrap_or(0));
                ensure!(a == b && a.is_some(), "get({:?}) gave {a:?}, insert_unique replaced {b:?}", e[i]);
            }
            ensure!(t.len() == n, "len() = {} with {n} entries", t.len());
        }
        "C03" => {
            for _ in 0..12 {
                let a = area(rng, &e);
                let mut want: Vec<u64> = (0..n as u64).filter(|i| a.intersects(&e[*i as usize])).collect();
                let mut got: Vec<u64> = t.filter_iter::<P, _>(IntersectsFilter::new(a)).map(|(_, v)| *v).collect();
                got.sort();
                ensure!(got == want, "filter_iter within {a:?} yielded {} entries, {} match", got.len(), want.len());
                got = t.filter_iter_mut::<P, _>(IntersectsFilter::new(a)).map(|(_, v)| *v).collect();
                got.sort();
                ensure!(got == want, "filter_iter_mut within {a:?} yielded {} entries, {} match", got.len(), want.len());
                want.clear();
            }
        }
        "C05" => {
            let q = area(rng, &e).min;
            let d = |i: u64| Near(q).rank_key(&e[i as usize]);
            let mut last = n64(0.0);
            let mut c = 0;
            for (_, v) in t.iter_asc_by(Near(q)) {
                ensure!(d(*v) >= last, "iter_asc_by({q:?}) yielded rank {} after {last}", d(*v));
                last = d(*v);
                c += 1;
            }
            ensure!(c == n, "iter_asc_by yielded {c} of {n} entries");
            contents("iter_asc_by_mut", n, t.iter_asc_by_mut(Near(q)).map(|(k, v)| (k, *v)), &live)?;
            let best = (0..n as u64).map(d).min();
            ensure!(t.min_by(Near(q)).map(|(_, v)| d(*v)) == best, "min_by({q:?}) is not the nearest");
        }
        "C07" | "C08" => {
            let mut o: RTree<B, B, u64> = RTree::new(RTreeConfig { max_children: 4 + rng.below(5), min_children: 2 });
            let a: Vec<B> = (0..1 + rng.below(30)).map(|_| area(rng, &e)).collect();
            a.iter().enumerate().for_each(|(i, b)| o.insert(*b, i as u64));
            let mut want: Vec<(u64, u64)> = vec![];
            for (j, b) in a.iter().enumerate() {
                want.extend((0..n as u64).filter(|i| b.intersects(&e[*i as usize])).map(|i| (i, j as u64)));
            }
            want.sort();
            let mut got: Vec<(u64, u64)> = if prop == "C07" {
                if rng.chance(50) {
                    t.join::<B, B, u64, P, B, _>(&o, Meet).map(|(l, r)| (l.1, r.1)).collect()
                } else {
                    o.join::<B, P, u64, B, P, _>(&t, Meet).map(|(l, r)| (r.1, l.1)).collect()
                }
            } else if rng.chance(50) {
                let mut seen = 0;
                let g = t.left_join::<B, B, u64, P, B, _>(&o, Meet).inspect(|_| seen += 1).flat_map(|((_, l), it)| it.map(|(_, r)| (*l, *r)).collect::<Vec<_>>()).collect();
                ensure!(seen == n, "left_join yielded {seen} of {n} entries");
                g
            } else {
                o.left_join::<B, P, u64, B, P, _>(&t, Meet).flat_map(|((_, l), it)| it.map(|(_, r)| (*r, *l)).collect::<Vec<_>>()).collect()
            };
            got.sort();
            ensure!(got == want, "{prop}: {} pairs, {} match", got.len(), want.len());
        }
        "C11" => {
            let mut u = t.clone();
            ensure!(u.len() == n, "the clone has {} of {n} entries", u.len());
            ensure!(t.iter().eq(u.iter()), "the clone iterates differently");
            for _ in 0..100 {
                let k = e[rng.below(n)];
                if let Some(v) = u.remove(&k) {
                    live[v as usize] = None;
                }
            }
            contents("iter", n, t.iter().map(|(k, v)| (k, *v)), &e.iter().copied().map(Some).collect::<Vec<_>>())?;
            drop(t);
            contents("iter of the clone", live.iter().flatten().count(), u.iter().map(|(k, v)| (k, *v)), &live)?;
        }
        "C19" => {
            t.iter_mut().for_each(|(_, v)| *v += 1 << 40);
            t.filter_iter_mut::<P, _>(rusty_rtree::filter::NoFilter).for_each(|(_, v)| *v += 1 << 50);
            contents("iter, after writing to all,", n, t.iter().map(|(k, v)| (k, v.wrapping_sub((1 << 40) + (1 << 50)))), &live)?;
        }
        _ => unreachable!(),
    }
    stats.add("trees_of_more_than_65536_entries", 1);
    stats.max("largest_tree", n as u64);
    Ok(())
}
