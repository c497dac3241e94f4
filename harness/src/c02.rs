//! C02: keyed lookup, unique insertion and removal act as on a map; among equal keys, on the first in
//! iteration order.
use crate::common::*;
use crate::hist::*;
use crate::keys::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::RTree;

struct Snap<K> {
    v: Vec<(K, Val)>,
}
fn snap<S: Scn>(t: &Tree<S>) -> Snap<S::K> {
    Snap { v: t.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
}
impl<K: Eq> Snap<K> {
    fn first(&self, k: &K) -> Option<&Val> {
        self.v.iter().find(|(x, _)| x == k).map(|(_, v)| v)
    }
    fn count(&self, k: &K) -> usize {
        self.v.iter().filter(|(x, _)| x == k).count()
    }
    fn sorted(&self) -> Vec<(u64, u64)> {
        let mut u: Vec<_> = self.v.iter().map(|(_, v)| (v.uid, v.pay)).collect();
        u.sort_unstable();
        u
    }
}

fn lookups<S: Scn>(t: &mut Tree<S>, s: &Snap<S::K>, k: &S::K, m: &mut Model<S::K>, stats: &mut Stats) -> R {
    let want = s.first(k).cloned();
    let got = t.get(k).cloned();
    ensure!(got == want, "get({k:?}) = {got:?}, but the first entry with an equal key is {want:?}");
    let got = S::bget(t, k).cloned();
    ensure!(got == want, "get({k:?}), borrowed, = {got:?}, but the first entry with an equal key is {want:?}");
    let got = S::bget_mut(t, k).map(|v| v.clone());
    ensure!(got == want, "get_mut({k:?}), borrowed, = {got:?}, but the first entry with an equal key is {want:?}");
    let got = t.get_mut(k).map(|v| {
        let old = v.clone();
        v.pay = mix(v.pay);
        old
    });
    ensure!(got == want, "get_mut({k:?}) = {got:?}, but the first entry with an equal key is {want:?}");
    if let Some(v) = got {
        m.m.get_mut(&v.uid).unwrap().1 = mix(v.pay);
        let now = t.get(k).unwrap();
        ensure!(now.pay == mix(v.pay), "a write through get_mut({k:?}) is not seen by get");
        stats.add("lookups_found", 1);
        if s.count(k) > 1 {
            stats.add("lookups_with_duplicates", 1);
        }
    } else {
        stats.add("lookups_absent", 1);
    }
    Ok(())
}

fn run<S: Scn>(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let cap = size_cap(cfg, stats.tier).min(if rng.chance(95) { 120 } else { 1000 });
    let mut h = Hist::<S>::new(rng, stats.tier, cap);
    let mut t: Tree<S> = RTree::new(cfg);
    let mut m = Model::new();
    let mut n = 0u64;
    let mut fp = mix2(cfg.max_children as u64, cfg.min_children as u64);
    let (mut peak, mut dups) = (0, 0);
    let ctx = |n: u64, e: Fail| Fail(format!("{} keys {}, max_children {}, min_children {}, operation {n}: {}", S::NAME, std::any::type_name::<S::K>(), cfg.max_children, cfg.min_children, e.0));
    while let Some(st) = h.next(rng, &m) {
        n += 1;
        let full = m.len() <= 40 || n % (m.len() as u64 / 20) == 0;
        if !full {
            exec::<S>(&mut t, &mut m, st, stats).map_err(|e| ctx(n, e))?;
            continue;
        }
        let s = snap::<S>(&t);
        let r = (|| -> R {
            match st {
                Step::Unique(k) => {
                    fp = mix2(fp, S::fp(&k));
                    let want = s.first(&k).cloned();
                    let uid = m.uid();
                    let v = Val { uid, pay: mix(uid) };
                    let got = t.insert_unique(k.clone(), v.clone());
                    ensure!(got == want, "insert_unique({k:?}) = {got:?}, but the first entry with an equal key was {want:?}");
                    let mut exp = s.sorted();
                    if let Some(o) = &want {
                        exp.retain(|(u, _)| *u != o.uid);
                        let old = m.m.remove(&o.uid).unwrap();
                        m.m.insert(uid, (old.0, v.pay));
                        stats.add("unique_replaced", 1);
                        if s.count(&k) > 1 {
                            dups += 1;
                        }
                    } else {
                        m.m.insert(uid, (k.clone(), v.pay));
                        stats.add("unique_added", 1);
                    }
                    exp.push((uid, v.pay));
                    exp.sort_unstable();
                    let now = snap::<S>(&t);
                    ensure!(now.sorted() == exp, "insert_unique({k:?}) changed other entries: {:?} instead of {:?}", now.sorted(), exp);
                    ensure!(now.v.iter().any(|(x, y)| *x == k && y.uid == uid), "after insert_unique({k:?}) the value is not under that key");
                    same("iter", t.iter().map(|(k, v)| (k, v.clone())), &m)?;
                }
                Step::Remove(k) => {
                    fp = mix2(fp, S::fp(&k));
                    let want = s.first(&k).cloned();
                    let got = if n % 2 == 0 { t.remove(&k) } else { S::bremove(&mut t, &k) };
                    ensure!(got == want, "remove({k:?}) = {got:?}, but the first entry with an equal key was {want:?}");
                    let mut exp = s.sorted();
                    if let Some(o) = &want {
                        exp.retain(|(u, _)| *u != o.uid);
                        m.m.remove(&o.uid);
                        stats.add("removed", 1);
                        if s.count(&k) > 1 {
                            dups += 1;
                        }
                    } else {
                        stats.add("remove_absent", 1);
                    }
                    let now = snap::<S>(&t);
                    ensure!(now.sorted() == exp, "remove({k:?}) changed other entries: {:?} instead of {:?}", now.sorted(), exp);
                    same("iter", t.iter().map(|(k, v)| (k, v.clone())), &m)?;
                }
                Step::Get(k) | Step::GetMut(k) => lookups::<S>(&mut t, &s, &k, &mut m, stats)?,
                st => exec::<S>(&mut t, &mut m, st, stats)?,
            }
            peak = peak.max(m.len());
            for _ in 0..2 {
                let k = h.probe(rng, &m);
                let s = snap::<S>(&t);
                lookups::<S>(&mut t, &s, &k, &mut m, stats)?;
            }
            if n % 16 == 0 {
                // every entry is found by its key
                let s = snap::<S>(&t);
                for (k, _) in s.v.iter().take(200) {
                    let (w, g) = (s.first(k), t.get(k));
                    ensure!(g == w, "get({k:?}) = {g:?}, but the first entry with an equal key is {w:?}");
                    let g = S::bget(&t, k);
                    ensure!(g == w, "get({k:?}), borrowed, = {g:?}, but the first entry with an equal key is {w:?}");
                }
                stats.add("sweeps", 1);
            }
            Ok(())
        })();
        r.map_err(|e| ctx(n, e))?;
    }
    stats.add("operations", n);
    stats.add("operations_with_duplicates", dups);
    stats.max("largest_tree", peak as u64);
    stats.add(S::NAME, 1);
    if n > 2 && peak > cfg.max_children {
        stats.nontrivial(mix2(fp, n));
    }
    stats.sample(|| format!("{} keys, max {} min {}, {n} operations, {dups} on duplicated keys, peak size {peak}", S::NAME, cfg.max_children, cfg.min_children));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::bulk::due(rng, stats, 5000) {
        return crate::bulk::case("C02", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[
        run::<BoxS<i32, 2>>,
        run::<BoxS<i32, 2>>,
        run::<BoxS<u8, 1>>,
        run::<BoxS<N64, 3>>,
        run::<PtS<i32, 2>>,
        run::<PtS<N32, 2>>,
        run::<PtS<u8, 2>>,
        run::<LineS<i16, 2>>,
        run::<TagS>,
        run::<TagS>,
        run::<SloppyS>,
        run::<StrS>,
        run::<StrS>,
    ];
    let f = rng.pick(F);
    f(rng, stats)
}
