//! Iterators handed to other threads: whatever the compiler lets a program send away (found by a probe, so that this
//! compiles either way) is sent away, with plain memory behind it, while this thread goes on with the rest. The race
//! detectors decide (Miri, ThreadSanitizer); natively the entries seen are counted.
use crate::common::*;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, SAABB};
use rusty_rtree::filter::*;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;

pub struct Is<T>(PhantomData<T>);
pub fn is<T>(_: &T) -> Is<T> {
    Is(PhantomData)
}
pub trait Yes1 {
    fn send(&self) -> bool;
}
pub trait No1 {
    fn send(&self) -> bool;
}
impl<T: Send> Yes1 for Is<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T> No1 for &Is<T> {
    fn send(&self) -> bool {
        false
    }
}
struct Force<X>(X);
// SAFETY: used only after a probe said that X is Send.
unsafe impl<X> Send for Force<X> {}
impl<X> Force<X> {
    fn take(self) -> X {
        self.0
    }
}

type K = SVec<i32, 2>;
type B = SAABB<i32, 2>;
#[derive(Clone)]
struct All;
impl SpatialFilter<B, K> for All {
    fn test_bounds(&self, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &K) -> bool {
        true
    }
}
impl JoinFilter<B, B, K, K> for All {
    fn test_bounds(&self, _: &B, _: &B) -> bool {
        true
    }
    fn test_key(&self, _: &K, _: &K) -> bool {
        true
    }
}
impl Ranking<B, K> for All {
    type Metric = N64;
    fn bounds_min(&self, _: &B) -> N64 {
        noisy_float::types::n64(-1e9)
    }
    fn rank_key(&self, k: &K) -> N64 {
        noisy_float::types::n64(k[0] as f64)
    }
}
#[derive(Clone)]
struct Opt;
impl Ranking<B, K> for Opt {
    type Metric = Option<N64>;
    fn bounds_min(&self, b: &B) -> Option<N64> {
        Some(All.bounds_min(b))
    }
    fn rank_key(&self, k: &K) -> Option<N64> {
        (k[1] % 5 != 0).then(|| All.rank_key(k))
    }
}

/// What a thread may do with a value it was handed.
trait Val: Clone {
    fn make(x: u64) -> Self;
    /// through a shared reference
    fn look(&self);
    /// through a mutable one
    fn change(&mut self);
}
impl Val for u64 {
    fn make(x: u64) -> Self {
        x
    }
    fn look(&self) {
        std::hint::black_box(*self);
    }
    fn change(&mut self) {
        *self = mix(*self);
    }
}
impl Val for Cell<u64> {
    fn make(x: u64) -> Self {
        Cell::new(x)
    }
    fn look(&self) {
        self.set(mix(self.get()));
    }
    fn change(&mut self) {
        self.set(mix(self.get()));
    }
}
impl Val for Rc<u64> {
    fn make(x: u64) -> Self {
        Rc::new(x)
    }
    fn look(&self) {
        std::hint::black_box(self.clone());
    }
    fn change(&mut self) {
        *self = Rc::new(mix(**self));
    }
}
impl Val for Box<u64> {
    fn make(x: u64) -> Self {
        Box::new(x)
    }
    fn look(&self) {
        std::hint::black_box(**self);
    }
    fn change(&mut self) {
        **self = mix(**self);
    }
}

fn tree<V: Val>(rng: &mut Rng, cfg: RTreeConfig, n: usize) -> RTree<B, K, V> {
    let mut t = RTree::new(cfg);
    for i in 0..n {
        let k: K = SVec(std::array::from_fn(|_| rng.range(-50, 50) as i32));
        t.insert(k, V::make(i as u64));
    }
    t
}

macro_rules! work {
    ($f:ident, $v:ty) => {
        fn $f(rng: &mut Rng, stats: &mut Stats) -> R {
            let tiny = stats.tier == Tier::Tiny;
            let min = 1 + rng.below(3);
            let cfg = RTreeConfig { max_children: 2 * min + rng.below(4), min_children: min };
            let top = if tiny { 9 } else { 60 };
            let (n, m) = (1 + rng.below(top), 1 + rng.below(top));
            let mut t: RTree<B, K, $v> = tree(rng, cfg, n);
            let o: RTree<B, K, $v> = tree(rng, cfg, m);
            // a clone of the values, so that an Rc wrongly sent has a counterpart here
            let kept = t.clone();
            let (mut sent, mut stayed) = (0u64, 0u64);
            let seen = std::sync::atomic::AtomicU64::new(0);
            let saw = || {
                seen.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            };
            let what = rng.below(10);
            // the share of it this thread takes first
            let first = rng.below(4);
            // An iterator over shared entries: sent if it may be; `kept` and the entries are used here meanwhile.
            macro_rules! shared {
                ($it:expr, $meanwhile:expr, $see:expr) => {{
                    let mut it = $it;
                    for _ in 0..first {
                        it.next().into_iter().for_each($see);
                    }
                    if (&is(&it)).send() {
                        sent += 1;
                        std::thread::scope(|s| {
                            let f = Force(it);
                            let h = s.spawn(move || {
                                let it = f.take();
                                it.for_each(|e| {
                                    saw();
                                    $see(e)
                                });
                            });
                            $meanwhile;
                            if h.join().is_err() {
                                return false;
                            }
                            true
                        })
                    } else {
                        stayed += 1;
                        it.for_each(|e| {
                            saw();
                            $see(e)
                        });
                        true
                    }
                }};
            }
            let fine = match what {
                0 => shared!(t.iter(), t.iter().for_each(|e| e.1.look()), |e: (&K, &$v)| e.1.look()),
                1 => shared!(t.filter_iter::<K, _>(All), t.iter().for_each(|e| e.1.look()), |e: (&K, &$v)| e.1.look()),
                2 => shared!(t.iter_asc_by(All), t.iter().for_each(|e| e.1.look()), |e: (&K, &$v)| e.1.look()),
                3 => shared!(t.iter_mut(), kept.iter().for_each(|e| e.1.look()), |e: (&K, &mut $v)| e.1.change()),
                4 => shared!(t.filter_iter_asc_by_mut(Opt), kept.iter().for_each(|e| e.1.look()), |e: (&K, &mut $v)| {
                    e.1.change()
                }),
                5 => {
                    // the tree itself, while its clone is used here
                    let u = std::mem::replace(&mut t, RTree::new(cfg));
                    if (&is(&u)).send() {
                        sent += 1;
                        std::thread::scope(|s| {
                            let f = Force(u);
                            let saw = &saw;
                            let h = s.spawn(move || {
                                let mut u = f.take();
                                u.iter_mut().for_each(|e| {
                                    saw();
                                    e.1.change()
                                });
                            });
                            kept.iter().for_each(|e| e.1.look());
                            h.join().is_ok()
                        })
                    } else {
                        stayed += 1;
                        true
                    }
                }
                6 => shared!(
                    t.join::<_, _, _, K, K, _>(&o, All).take(40),
                    t.iter().chain(o.iter()).for_each(|e| e.1.look()),
                    |(a, b): (&(K, $v), &(K, $v))| {
                        a.1.look();
                        b.1.look();
                    }
                ),
                _ => {
                    // a left join whose inner iterators go to threads while it goes on here
                    let mut it = t.left_join::<_, _, _, K, K, _>(&o, All);
                    let steps = rng.below(5);
                    let delay = rng.below(40);
                    let whole = rng.chance(20);
                    std::thread::scope(|s| {
                        let mut hs = vec![];
                        let mut mine = vec![];
                        let mut last = 0;
                        while let Some((a, inner)) = it.next() {
                            a.1.look();
                            last += 1;
                            if (&is(&inner)).send() && rng.chance(70) {
                                sent += 1;
                                let f = Force(inner);
                                let saw = &saw;
                                hs.push(s.spawn(move || {
                                    let mut inner = f.take();
                                    for e in inner.by_ref().take(if whole { 100 } else { steps }) {
                                        saw();
                                        e.1.look();
                                    }
                                }));
                                for _ in 0..delay {
                                    std::hint::spin_loop();
                                }
                                if delay % 4 == 0 {
                                    std::thread::yield_now();
                                }
                            } else {
                                stayed += 1;
                                if rng.chance(50) {
                                    mine.push(inner);
                                } else {
                                    inner.take(steps).for_each(|e| e.1.look());
                                }
                            }
                            if last > 5 {
                                break;
                            }
                        }
                        if rng.chance(50) && (&is(&it)).send() {
                            sent += 1;
                            let f = Force(it);
                            hs.push(s.spawn(move || f.take().take(3).for_each(|(a, _)| a.1.look())));
                        } else {
                            drop(it);
                        }
                        drop(mine);
                        hs.into_iter().all(|h| h.join().is_ok())
                    })
                }
            };
            ensure!(fine, "an iterator handed to another thread panicked there ({}, kind {what}): {}", stringify!($v), last_panic());
            drop(kept);
            stats.add("iterators_sent_away", sent);
            stats.add("iterators_not_send", stayed);
            stats.add("entries_seen_from_another_thread", seen.load(std::sync::atomic::Ordering::Relaxed));
            let fp = [what, n, m, first, cfg.max_children, min, sent as usize, stringify!($v).len()];
            stats.nontrivial(fp.into_iter().fold(0, |a, x| mix2(a, x as u64)));
            Ok(())
        }
    };
}
work!(plain, u64);
work!(boxed, Box<u64>);
work!(cell, Cell<u64>);
work!(counted, Rc<u64>);

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    rng.pick(&[plain as fn(&mut Rng, &mut Stats) -> R, boxed, cell, counted])(rng, stats)
}
