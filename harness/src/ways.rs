//! Iterators consumed in every usual way: by next, fold (for_each, sum), collect, count, last, nth (skip, step_by),
//! searches that stop and go on, in any mixture. All have to see what a loop over next sees, and size_hint must hold.
use crate::common::*;
use crate::idb::*;
use crate::keys::{pick_cfg, Val};
use rusty_rtree::filter::*;
use rusty_rtree::ranking::Ranking;
use std::collections::BTreeMap;

struct Pick<'a>(&'a IdSet);
impl SpatialFilter<IdB, IdKey> for Pick<'_> {
    fn test_bounds(&self, b: &IdB) -> bool {
        b.ids.iter().any(|i| self.0.has(i))
    }
    fn test_key(&self, k: &IdKey) -> bool {
        self.0.has(k.id)
    }
}
#[derive(Clone, Copy)]
struct Rk(u64, u64);
impl Rk {
    fn of(&self, id: u32) -> u64 {
        mix2(self.0, id as u64) % self.1
    }
}
impl Ranking<IdB, IdKey> for Rk {
    type Metric = u64;
    fn bounds_min(&self, b: &IdB) -> u64 {
        b.ids.iter().map(|i| self.of(i)).min().unwrap_or(u64::MAX)
    }
    fn rank_key(&self, k: &IdKey) -> u64 {
        self.of(k.id)
    }
}
#[derive(Clone, Copy)]
struct RkO(Rk, u64);
impl RkO {
    fn of(&self, id: u32) -> Option<u64> {
        (mix2(!self.0 .0, id as u64) % 100 >= self.1).then(|| self.0.of(id))
    }
}
impl Ranking<IdB, IdKey> for RkO {
    type Metric = Option<u64>;
    fn bounds_min(&self, b: &IdB) -> Option<u64> {
        b.ids.iter().filter_map(|i| self.of(i)).min()
    }
    fn rank_key(&self, k: &IdKey) -> Option<u64> {
        self.of(k.id)
    }
}
#[derive(Clone, Copy)]
struct Mod(u32);
impl JoinFilter<IdB, IdB, IdKey, IdKey> for Mod {
    fn test_bounds(&self, a: &IdB, b: &IdB) -> bool {
        a.ids.iter().any(|i| b.ids.iter().any(|j| i % self.0 == j % self.0))
    }
    fn test_key(&self, a: &IdKey, b: &IdKey) -> bool {
        a.id % self.0 == b.id % self.0
    }
}

pub const WAYS: [&str; 12] = [
    "fold", "for_each", "collect", "count", "last", "nth", "skip and step_by", "try_for_each", "find", "position", "by_ref and take", "max and min",
];
/// `$it`: an expression that makes the iterator anew; `$id`: what an item is told by (evaluated once per item).
macro_rules! ways {
    ($what:expr, $rng:expr, $stats:expr, $it:expr, $id:expr) => {{
        let (what, rng, stats): (&str, &mut Rng, &mut Stats) = ($what, $rng, $stats);
        #[allow(unused_mut)]
        let mut id = $id;
        let mut list: Vec<u64> = vec![];
        let mut hints = vec![];
        {
            let mut it = $it;
            loop {
                hints.push(it.size_hint());
                match it.next() {
                    Some(x) => list.push(id(x)),
                    None => break,
                }
            }
        }
        for (i, (lo, hi)) in hints.iter().enumerate() {
            let left = list.len() - i;
            ensure!(*lo <= left && hi.map_or(true, |h| h >= left), "{what}: size_hint says {:?} where {left} items are left", (lo, hi));
        }
        let n = list.len();
        for _ in 0..3 {
            // some taken by next first
            let done = if rng.chance(50) { 0 } else { rng.below(n + 1) };
            let way = rng.below(WAYS.len());
            let k = rng.below(n + 2);
            let step = 1 + rng.below(4);
            let mut it = $it;
            for i in 0..done {
                let x = it.next().map(&mut id);
                ensure!(x == Some(list[i]), "{what}: next gave {x:?} in place {i}, and {} before", list[i]);
            }
            let rest = &list[done..];
            let name = format!("{what}: {}, after {done} of {n} by next,", WAYS[way]);
            let mut got = vec![];
            match way {
                0 => it.fold((), |_, x| got.push(id(x))),
                1 => it.for_each(|x| got.push(id(x))),
                2 => {
                    let all: Vec<_> = it.collect();
                    for x in all {
                        got.push(id(x));
                    }
                }
                3 => {
                    let c = it.count();
                    ensure!(c == rest.len(), "{name} says {c}, there are {}", rest.len());
                    continue;
                }
                4 => {
                    let l = it.last().map(&mut id);
                    ensure!(l == rest.last().copied(), "{name} gives {l:?}, expected {:?}", rest.last());
                    continue;
                }
                5 => {
                    let x = it.nth(k).map(&mut id);
                    ensure!(x == rest.get(k).copied(), "{name} gives {x:?} for {k}, expected {:?}", rest.get(k));
                    let y = it.next().map(&mut id);
                    if k < rest.len() {
                        ensure!(y == rest.get(k + 1).copied(), "{name} {k}, then next gives {y:?}, expected {:?}", rest.get(k + 1));
                    } else {
                        ensure!(y.is_none(), "{name} {k}, then next gives {y:?} after the end");
                    }
                    continue;
                }
                6 => {
                    for x in it.skip(k).step_by(step) {
                        got.push(id(x));
                    }
                    let want: Vec<u64> = rest.iter().skip(k).step_by(step).copied().collect();
                    ensure!(got == want, "{name} by {k} and {step} gives {got:?}, expected {want:?}");
                    continue;
                }
                7 => loop {
                    let mut m = 0;
                    let r = it.try_for_each(|x| {
                        got.push(id(x));
                        m += 1;
                        if m > k / 3 {
                            Err(())
                        } else {
                            Ok(())
                        }
                    });
                    if r.is_ok() {
                        break;
                    }
                },
                8 => {
                    while let Some(x) = it.find(|_| {
                        got.push(0);
                        got.len() % step == 0
                    }) {
                        *got.last_mut().unwrap() = id(x);
                    }
                    for (i, g) in got.iter_mut().enumerate() {
                        if (i + 1) % step != 0 && i < rest.len() {
                            *g = rest[i];
                        }
                    }
                }
                9 => {
                    let p = it.position(|x| {
                        got.push(id(x));
                        got.len() > k
                    });
                    ensure!(p == (k < rest.len()).then_some(k), "{name} gives {p:?}");
                    got.extend(it.map(&mut id));
                }
                10 => loop {
                    let before = got.len();
                    for x in it.by_ref().take(step) {
                        got.push(id(x));
                    }
                    if got.len() < before + step {
                        break;
                    }
                },
                _ => {
                    let mut v = vec![];
                    let (a, b) = (it.map(&mut id).inspect(|x| v.push(*x)).max(), rest.iter().copied().max());
                    ensure!(a == b, "{name} gives {a:?}, expected {b:?}");
                    got = v;
                }
            }
            ensure!(got == rest, "{name} gives {got:?}, expected {rest:?}");
        }
        stats.add("consumed_in_other_ways", 3);
        list
    }};
}

pub fn case(prop: &str, rng: &mut Rng, stats: &mut Stats) -> R {
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let cap = |rng: &mut Rng, tier| match tier {
        Tier::Tiny => rng.pick(&[0, 1, 5, 12]),
        _ => rng.pick(&[0, 1, 3, 10, 40, 100, 200]),
    };
    let (n0, n1) = (cap(rng, stats.tier), cap(rng, stats.tier));
    let (mut t, m) = id_build(rng, c0, stats.tier, n0)?;
    let (mut o, _) = id_build(rng, c1, stats.tier, if matches!(prop, "C07" | "C08") { n1 } else { 0 })?;
    let ids = m.ids();
    let pct = rng.pick(&[0, 10, 50, 90, 100]);
    let sub = IdSet::of(ids.iter().filter(|_| rng.chance(pct)));
    let rk = Rk(rng.next(), rng.pick(&[1, 5, 1 << 40]));
    let ro = RkO(rk, rng.pick(&[0, 30, 100]));
    let by = Mod(1 + rng.below(7) as u32);
    let ctx = |e: Fail| Fail(format!("{} entries, max {} min {}: {}", ids.len(), c0.max_children, c0.min_children, e.0));
    let mut fp = ids.hash();
    let mut f = |l: Vec<u64>| fp = mix2(fp, l.len() as u64);
    let mut go = || -> R {
        match prop {
            "C01" => {
                f(ways!("iter", rng, stats, t.iter(), |x: (&IdKey, &Val)| x.0.id as u64));
                f(ways!("iter_mut", rng, stats, t.iter_mut(), |x: (&IdKey, &mut Val)| x.0.id as u64));
                f(ways!("into_iter of &tree", rng, stats, (&t).into_iter(), |x: (&IdKey, &Val)| x.0.id as u64));
                f(ways!("into_iter of &mut tree", rng, stats, (&mut t).into_iter(), |x: (&IdKey, &mut Val)| x.0.id as u64));
            }
            "C03" => {
                f(ways!("filter_iter", rng, stats, t.filter_iter::<IdKey, _>(Pick(&sub)), |x: (&IdKey, &Val)| x.0.id as u64));
                f(ways!("filter_iter_mut", rng, stats, t.filter_iter_mut::<IdKey, _>(Pick(&sub)), |x: (&IdKey, &mut Val)| x.0.id as u64));
                f(ways!("filter_iter, no filter", rng, stats, t.filter_iter::<IdKey, _>(NoFilter), |x: (&IdKey, &Val)| x.0.id as u64));
            }
            "C05" => {
                f(ways!("iter_asc_by", rng, stats, t.iter_asc_by(rk), |x: (&IdKey, &Val)| rk.of(x.0.id)));
                f(ways!("iter_asc_by_mut", rng, stats, t.iter_asc_by_mut(rk), |x: (&IdKey, &mut Val)| rk.of(x.0.id)));
                f(ways!("filter_iter_asc_by", rng, stats, t.filter_iter_asc_by(ro), |x: (&IdKey, &Val)| rk.of(x.0.id)));
                f(ways!("filter_iter_asc_by_mut", rng, stats, t.filter_iter_asc_by_mut(ro), |x: (&IdKey, &mut Val)| rk.of(x.0.id)));
            }
            "C07" => {
                let id = |x: (&(IdKey, Val), &(IdKey, Val))| (x.0 .0.id as u64) << 32 | x.1 .0.id as u64;
                f(ways!("join", rng, stats, t.join::<_, _, _, IdKey, IdKey, _>(&o, by), id));
                f(ways!("join with itself", rng, stats, t.join::<_, _, _, IdKey, IdKey, _>(&t, by), id));
            }
            "C08" => {
                macro_rules! left {
                    ($a:expr, $b:expr) => {
                        f(ways!("left_join, with the matches of each,", rng, stats, $a.left_join::<_, _, _, IdKey, IdKey, _>($b, by), left_id))
                    };
                }
                left!(t, &o);
                left!(o, &t);
                // the inner ones too, each of a left join made anew
                let lefts: Vec<usize> = (0..t.len()).filter(|_| rng.chance(8)).take(6).collect();
                for i in lefts {
                    let inner = || {
                        let mut outer = t.left_join::<_, _, _, IdKey, IdKey, _>(&o, by);
                        for _ in 0..i {
                            outer.next();
                        }
                        outer.next().unwrap().1
                    };
                    f(ways!("inner iterator of left_join", rng, stats, inner(), |x: (&IdKey, &Val)| x.0.id as u64));
                }
            }
            _ => {
                // every reference handed out, in whatever way, is one to the value of its own key
                let mut want: BTreeMap<u64, u64> = t.iter().map(|(k, v)| (k.id as u64, v.pay)).collect();
                let put = std::cell::RefCell::new(&mut want);
                let mut w = |x: (&IdKey, &mut Val)| {
                    x.1.pay = mix(x.1.pay ^ 9);
                    let id = x.0.id as u64;
                    put.borrow_mut().insert(id, x.1.pay);
                    id
                };
                f(ways!("iter_mut", rng, stats, t.iter_mut(), &mut w));
                f(ways!("filter_iter_mut", rng, stats, t.filter_iter_mut::<IdKey, _>(Pick(&sub)), &mut w));
                // by rank, as equals may come in any order
                f(ways!("iter_asc_by_mut", rng, stats, t.iter_asc_by_mut(rk), |x: (&IdKey, &mut Val)| rk.of(w(x) as u32)));
                f(ways!("filter_iter_asc_by_mut", rng, stats, t.filter_iter_asc_by_mut(ro), |x: (&IdKey, &mut Val)| rk.of(w(x) as u32)));
                for (k, v) in t.iter() {
                    ensure!(want.get(&(k.id as u64)) == Some(&v.pay), "after mutable traversals the value of {k:?} has the payload {}, expected {:?}", v.pay, want.get(&(k.id as u64)));
                }
                let _ = &mut o;
            }
        }
        Ok(())
    };
    go().map_err(ctx)?;
    if ids.len() > c0.max_children {
        stats.nontrivial(fp);
    }
    Ok(())
}
fn left_id<'a, 'b, I: Iterator<Item = (&'b IdKey, &'b Val)>>(x: ((&'a IdKey, &'a Val), I)) -> u64 {
    let ((k, _), mut it) = x;
    let mut h = 0u64;
    while let Some(y) = it.next() {
        h = mix2(h, y.0.id as u64);
    }
    (k.id as u64) << 32 | h >> 32
}
