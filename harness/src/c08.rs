//! C08: left_join gives every left entry once, with an independent iterator over exactly its matches. Outer and
//! inner iterators are advanced, held, dropped and finished in random order.
use crate::c07::*;
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, SAABB};
use rusty_rtree::filter::JoinFilter;
use rusty_rtree::RTree;
use std::collections::HashSet;
use std::fmt::Debug;
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sched {
    /// finish each inner iterator before the next left entry
    Direct,
    /// keep all, finish them in random order, the outer one dropped first or last
    Collect,
    /// anything goes
    Mix,
}

struct Held<I> {
    uid: u64,
    it: I,
    seen: HashSet<u64>,
}

fn left_joined<B0, B1, K0, K1, F>(
    rng: &mut Rng,
    t0: &RTree<B0, K0, Val>,
    t1: &RTree<B1, K1, Val>,
    c: Ctx<K0, K1>,
    f: F,
    want: &dyn Fn(&K0, &K1) -> bool,
    stats: &mut Stats,
) -> Result<usize, Fail>
where
    K0: Bounded<B0> + Eq + Clone + Debug,
    K1: Bounded<B1> + Eq + Clone + Debug,
    F: JoinFilter<B0, B1, K0, K1> + Clone,
{
    let Ctx { m0, m1, what } = c;
    let sched = rng.pick(&[Sched::Direct, Sched::Collect, Sched::Mix, Sched::Mix, Sched::Mix]);
    let what = &format!("{what}, {sched:?} schedule");
    let mut outer = Some(t0.left_join::<B1, K1, Val, K0, K1, F>(t1, f));
    let mut given: HashSet<u64> = HashSet::new();
    let mut ended = false;
    let mut held = vec![];
    let (mut matches, mut inter) = (0, 0u64);
    // how eager to take another left entry, advance one, drop one early, drop the outer iterator early
    let (take, quit) = (rng.range(5, 90) as u32, rng.pick(&[0, 0, 0, 1, 3]));
    let keep = rng.pick(&[1usize, 3, 20, usize::MAX]);
    loop {
        // advance the outer one
        let advance = match sched {
            Sched::Direct => held.is_empty(),
            Sched::Collect => outer.is_some(),
            Sched::Mix => held.is_empty() || (rng.chance(take) && held.len() < keep),
        };
        if advance && outer.is_some() {
            if quit > 0 && rng.chance(quit) {
                outer = None; // what was given before must go on
                stats.add("outer_dropped_early", 1);
            } else {
                match outer.as_mut().unwrap().next() {
                    Some(((k, v), it)) => {
                        ensure!(m0.m.get(&v.uid).is_some_and(|e| e.0 == *k && e.1 == v.pay), "{what}: yielded {k:?} -> {v:?} on the left, which is not in that tree");
                        ensure!(given.insert(v.uid), "{what}: yielded {k:?} -> {v:?} on the left twice");
                        held.push(Held { uid: v.uid, it, seen: HashSet::new() });
                    }
                    None => {
                        ended = true;
                        if rng.chance(50) || sched == Sched::Direct {
                            outer = None;
                        } else {
                            // keep it alive, but ask no more
                            if held.is_empty() {
                                outer = None;
                            }
                        }
                        if ended && outer.is_some() && sched != Sched::Direct {
                            // stays alive until the end of this function
                            let o = outer.take();
                            finish(rng, &mut held, m0, m1, what, want, &mut matches, stats)?;
                            drop(o);
                        }
                    }
                }
            }
        } else if held.is_empty() {
            break;
        } else {
            let i = if rng.chance(70) { held.len() - 1 } else { rng.below(held.len()) };
            if sched == Sched::Mix && rng.chance(2) {
                held.swap_remove(i); // abandoned half-way
                stats.add("inner_abandoned", 1);
                continue;
            }
            if i + 1 != held.len() {
                inter += 1;
            }
            step(&mut held, i, m0, m1, what, want, &mut matches)?;
        }
    }
    drop(outer);
    if ended {
        if given.len() != m0.len() {
            let miss = m0.m.iter().find(|(u, _)| !given.contains(u)).unwrap();
            fail!("{what}: yielded {} of {} left entries; missing {:?}", given.len(), m0.len(), miss);
        }
    }
    stats.add("left_joins", 1);
    stats.add("left_entries", given.len() as u64);
    stats.add("matches", matches as u64);
    stats.add("interleaved_steps", inter);
    Ok(matches)
}
fn step<'a, K0: Debug, K1: Eq + Debug + 'a, I: Iterator<Item = (&'a K1, &'a Val)>>(
    held: &mut Vec<Held<I>>,
    i: usize,
    m0: &Model<K0>,
    m1: &Model<K1>,
    what: &str,
    want: &dyn Fn(&K0, &K1) -> bool,
    matches: &mut usize,
) -> R {
    let h = &mut held[i];
    let k0 = &m0.m[&h.uid].0;
    match h.it.next() {
        Some((k, v)) => {
            ensure!(m1.m.get(&v.uid).is_some_and(|e| e.0 == *k && e.1 == v.pay), "{what}: for {k0:?} yielded {k:?} -> {v:?} on the right, which is not in that tree");
            ensure!(want(k0, k), "{what}: for {k0:?} yielded {k:?}, which does not match");
            ensure!(h.seen.insert(v.uid), "{what}: for {k0:?} yielded {k:?} -> {v:?} twice");
            *matches += 1;
        }
        None => {
            let h = held.swap_remove(i);
            for (u, (k, _)) in &m1.m {
                ensure!(h.seen.contains(u) || !want(k0, k), "{what}: for {k0:?} did not yield {k:?}, which matches");
            }
        }
    }
    Ok(())
}
fn finish<'a, K0: Debug, K1: Eq + Debug + 'a, I: Iterator<Item = (&'a K1, &'a Val)>>(
    rng: &mut Rng,
    held: &mut Vec<Held<I>>,
    m0: &Model<K0>,
    m1: &Model<K1>,
    what: &str,
    want: &dyn Fn(&K0, &K1) -> bool,
    matches: &mut usize,
    stats: &mut Stats,
) -> R {
    while !held.is_empty() {
        let i = rng.below(held.len());
        stats.add("interleaved_steps", 1);
        step(held, i, m0, m1, what, want, matches)?;
    }
    Ok(())
}

fn by_ids(rng: &mut Rng, stats: &mut Stats) -> R {
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let (n0, n1) = (cap(rng, stats.tier), cap(rng, stats.tier));
    let (t0, m0) = id_build(rng, c0, stats.tier, n0)?;
    let (t1, m1) = id_build(rng, c1, stats.tier, n1)?;
    let (k0, k1) = (id_model(&m0), id_model(&m1));
    let (mut fp, mut some) = (0, 0);
    for i in 0..4 {
        let (other, r, kr) = if i == 3 { (&t0, &m0, &k0) } else { (&t1, &m1, &k1) };
        let rel = Rel::new(rng, &m0.ids(), &r.ids());
        let what = format!("left_join of {} entries (max {} min {}) with {} (max {} min {})", k0.len(), c0.max_children, c0.min_children, kr.len(), c1.max_children, c1.min_children);
        let n = left_joined(rng, &t0, other, Ctx { m0: &k0, m1: kr, what: &what }, &rel, &|a, b| rel.has(a.id, b.id), stats)?;
        if n > 0 && n < k0.len() * kr.len() {
            some += 1;
            fp = mix2(fp, rel.seed ^ n as u64);
        }
    }
    if some > 0 && k0.len() > c0.max_children {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("4 left joins by arbitrary relations of ids, {} entries (max {} min {}) with {} (max {} min {}); {some} of them matching some but not all pairs", k0.len(), c0.max_children, c0.min_children, k1.len(), c1.max_children, c1.min_children));
    Ok(())
}
fn mixed<S0: Scn, S1: Scn>(rng: &mut Rng, stats: &mut Stats) -> R {
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let (n0, n1) = (cap(rng, stats.tier), cap(rng, stats.tier));
    let mut h0 = Hist::<S0>::new(rng, stats.tier, n0);
    let mut h1 = Hist::<S1>::new(rng, stats.tier, n1);
    let (t0, m0) = build::<S0>(rng, c0, &mut h0, stats)?;
    let (t1, m1) = build::<S1>(rng, c1, &mut h1, stats)?;
    struct F<S0, S1>(HashRel<S0, S1>);
    impl<S0, S1> Clone for F<S0, S1> {
        fn clone(&self) -> Self {
            F(HashRel(self.0 .0, self.0 .1, PhantomData))
        }
    }
    impl<S0: Scn, S1: Scn> JoinFilter<S0::B, S1::B, S0::K, S1::K> for F<S0, S1> {
        fn test_bounds(&self, a: &S0::B, b: &S1::B) -> bool {
            self.0.test_bounds(a, b)
        }
        fn test_key(&self, a: &S0::K, b: &S1::K) -> bool {
            self.0.test_key(a, b)
        }
    }
    let f = F::<S0, S1>(HashRel(rng.next(), rng.pick(&[1, 20, 100]), PhantomData));
    let g = f.clone();
    let what = format!("left_join of {} {} entries (max {}) with {} {} entries (max {})", m0.len(), S0::NAME, c0.max_children, m1.len(), S1::NAME, c1.max_children);
    let n = left_joined::<S0::B, S1::B, S0::K, S1::K, _>(rng, &t0, &t1, Ctx { m0: &m0, m1: &m1, what: &what }, f, &|a, b| g.test_key(a, b), stats)?;
    if n > 0 && m0.len() > c0.max_children {
        stats.nontrivial(mix2(rng.next(), n as u64));
    }
    stats.add("mixed_types", 1);
    Ok(())
}
fn spatial<N, S0, S1, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R
where
    N: Coord,
    S0: Scn<G = Plan, B = SAABB<N, D>>,
    S1: Scn<G = Plan, B = SAABB<N, D>>,
{
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let (n0, n1) = (cap(rng, stats.tier), cap(rng, stats.tier));
    let mut h0 = Hist::<S0>::new(rng, stats.tier, n0);
    let mut h1 = Hist::<S1>::new(rng, stats.tier, n1);
    let far = rng.chance(50);
    if far {
        h0.g = Plan::within(rng, 0, 100);
        h1.g = Plan::within(rng, 0, 100);
    }
    let (t0, m0) = build::<S0>(rng, c0, &mut h0, stats)?;
    let (t1, m1) = build::<S1>(rng, c1, &mut h1, stats)?;
    let f = Within::<N>(if far { rng.range(0, 40) } else { 0 }, PhantomData);
    let what = format!("left_join of {} {} entries (max {}) with {} {} entries (max {}) at most {} apart", m0.len(), S0::NAME, c0.max_children, m1.len(), S1::NAME, c1.max_children, f.0);
    let n = left_joined::<S0::B, S1::B, S0::K, S1::K, _>(rng, &t0, &t1, Ctx { m0: &m0, m1: &m1, what: &what }, f, &|a, b| within(&a.bounds(), &b.bounds(), f.0), stats)?;
    if n > 0 && n < m0.len() * m1.len() && m0.len() > c0.max_children {
        stats.nontrivial(mix2(rng.next(), n as u64));
    }
    stats.add("spatial_joins", 1);
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if rng.chance(4) {
        return crate::ways::case("C08", rng, stats);
    }
    if crate::bulk::due(rng, stats, 6666) {
        return crate::bulk::case("C08", rng, stats);
    }
    const F: &[fn(&mut Rng, &mut Stats) -> R] = &[
        by_ids,
        by_ids,
        by_ids,
        by_ids,
        mixed::<BoxS<i32, 2>, TagS>,
        mixed::<StrS, PtS<u8, 3>>,
        mixed::<LineS<i16, 2>, StrS>,
        spatial::<i32, BoxS<i32, 2>, PtS<i32, 2>, 2>,
        spatial::<u8, BoxS<u8, 2>, BoxS<u8, 2>, 2>,
        spatial::<N64, BoxS<N64, 3>, PtS<N64, 3>, 3>,
    ];
    let f = rng.pick(F);
    f(rng, stats)
}
