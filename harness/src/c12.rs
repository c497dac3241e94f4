//! C12: every key, value and bounds is dropped exactly once, and all memory is freed.
//! Monitors: the ledger of tracked objects, and the checking allocator.
use crate::alloc;
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use crate::ledger;
use crate::trk::*;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::Cell;

/// What a scenario counted, handed out after its memory was accounted for.
#[derive(Default)]
pub struct Seen {
    pub ops: u64,
    pub checks: u64,
    pub steps: u64,
    pub clones: u64,
    pub peak: usize,
    pub fp: u64,
    pub births: u64,
    pub cfg: (usize, usize),
}

/// All keys and values alive are those in the trees.
pub fn accounted<P: Pad>(ts: &[&TTree<P>]) -> R {
    let (mut k, mut v) = (vec![], vec![]);
    for t in ts {
        let (a, b) = reach(t);
        ensure!(a.len() == t.len(), "iter yields {} entries, len() is {}", a.len(), t.len());
        k.extend(a);
        v.extend(b);
    }
    if let Some(e) = ledger::errors() {
        fail!("{e}");
    }
    k.sort_unstable();
    v.sort_unstable();
    for (kind, name, have) in [(ledger::KEY, "keys", k), (ledger::VAL, "values", v)] {
        let live = ledger::live(kind);
        ensure!(live == have, "{} {name} are alive, but {} reachable from the tree", live.len(), have.len());
    }
    Ok(())
}

fn scenario<P: Pad>(rng: &mut Rng, tier: Tier) -> Result<Seen, Fail> {
    let cfg = pick_cfg(rng, tier, false);
    let mut s = Seen { cfg: (cfg.max_children, cfg.min_children), fp: rng.next(), ..Default::default() };
    let mut h = TH::new(rng, tier, size_cap(cfg, tier).min(600));
    let mut t: TTree<P> = RTree::new(cfg);
    let mut other: TTree<P> = RTree::new(pick_cfg(rng, tier, false));
    let stop = if rng.chance(30) { 1 + rng.below(100) as u64 } else { u64::MAX };
    while let Some(st) = h.next(rng) {
        let out = apply_t(&mut t, &st);
        h.settle(&st, &out)?;
        s.ops += 1;
        s.peak = s.peak.max(t.len());
        s.fp = mix2(s.fp, t.len() as u64);
        if let Some(e) = ledger::errors() {
            fail!("after {st:?}: {e}");
        }
        if s.ops % (10 + t.len() as u64) == 0 || h.h.at_phase_end() {
            accounted(&[&t, &other])?;
            s.checks += 1;
            let ids = h.ids();
            let sub = IdSet::of(ids.iter().filter(|_| rng.chance(40)));
            s.steps += if rng.chance(60) {
                browse(rng, &t, &other, &sub, 40)
            } else {
                let mut x = t.clone();
                s.clones += 1;
                let n = browse_mut(rng, &mut x, &sub, 20);
                if rng.chance(50) {
                    // what was the other tree goes away, some time
                    other = x;
                }
                n
            };
            if rng.chance(10) {
                t = t.clone();
                s.clones += 1;
            }
            if let Some(e) = ledger::errors() {
                fail!("{e}");
            }
            accounted(&[&t, &other])?;
        }
        if s.ops >= stop {
            break;
        }
    }
    accounted(&[&t, &other])?;
    if rng.chance(50) {
        drop(other);
        accounted(&[&t])?;
        drop(t);
    } else {
        drop(t);
        accounted(&[&other])?;
        drop(other);
    }
    if let Some(e) = ledger::errors() {
        fail!("when the tree was dropped: {e}");
    }
    Ok(s)
}

fn tracked<P: Pad>(rng: &mut Rng, stats: &mut Stats) -> R {
    ledger::reset();
    let tier = stats.tier;
    let mark = alloc::mark();
    let r = scenario::<P>(rng, tier);
    let left: Vec<usize> = (0..3).map(|k| ledger::live(k as u8).len()).collect();
    let kinds = (left[0], left[1], left[2]);
    drop(left);
    let births = ledger::totals().0;
    ledger::reset();
    let s = r?;
    if let Some(e) = alloc::balance(&mark) {
        fail!("max {} min {} {:?}: {e}", s.cfg.0, s.cfg.1, std::any::type_name::<P>());
    }
    ensure!(kinds == (0, 0, 0), "max {} min {}: {} keys, {} values and {} bounds were never dropped", s.cfg.0, s.cfg.1, kinds.0, kinds.1, kinds.2);
    stats.add("operations", s.ops);
    stats.add("tracked_objects", births);
    stats.add("ownership_checks", s.checks);
    stats.add("iterator_steps", s.steps);
    stats.add("trees_cloned", s.clones);
    stats.max("largest_tree", s.peak as u64);
    if s.peak > s.cfg.0 {
        stats.nontrivial(s.fp);
    }
    stats.sample(|| format!("{} operations on a tree of up to {} entries (max {} min {}, padding {}): {births} tracked objects born and dropped, {} ownership checks, allocator balanced", s.ops, s.peak, s.cfg.0, s.cfg.1, std::any::type_name::<P>(), s.checks));
    Ok(())
}

// Zero-sized entries: counted, since they cannot carry a token.
thread_local! {
    static ZLIVE: Cell<[i64; 3]> = const { Cell::new([0; 3]) };
    static ZBAD: Cell<u64> = const { Cell::new(0) };
}
fn z(k: usize, d: i64) {
    ZLIVE.with(|l| {
        let mut v = l.get();
        v[k] += d;
        l.set(v);
        if v[k] < 0 {
            ZBAD.with(|b| b.set(b.get() + 1));
        }
    })
}
fn zc(p: usize, align: usize) {
    if p % align != 0 || p == 0 {
        ZBAD.with(|b| b.set(b.get() + 1));
    }
}
macro_rules! zst {
    ($n:ident, $k:expr) => {
        struct $n<A>([A; 0]);
        impl<A> $n<A> {
            fn new() -> Self {
                z($k, 1);
                $n([])
            }
            fn see(&self) {
                zc(self as *const Self as usize, std::mem::align_of::<A>());
            }
        }
        impl<A> Clone for $n<A> {
            fn clone(&self) -> Self {
                self.see();
                Self::new()
            }
        }
        impl<A> Drop for $n<A> {
            fn drop(&mut self) {
                self.see();
                z($k, -1);
            }
        }
    };
}
zst!(ZK, 0);
zst!(ZV, 1);
zst!(ZB, 2);
impl<A> PartialEq for ZK<A> {
    fn eq(&self, o: &Self) -> bool {
        self.see();
        o.see();
        true
    }
}
impl<A> Eq for ZK<A> {}
impl<A> Bounded<ZB<A>> for ZK<A> {
    fn bounds(&self) -> ZB<A> {
        self.see();
        ZB::new()
    }
}
impl<A> Contains<ZB<A>> for ZB<A> {
    fn contains(&self, o: &Self) -> bool {
        self.see();
        o.see();
        true
    }
}
impl<A> Intersects<ZB<A>> for ZB<A> {
    fn intersects(&self, _: &Self) -> bool {
        true
    }
}
impl<A> Bounds for ZB<A> {
    fn empty() -> Self {
        ZB::new()
    }
    fn union(a: &Self, b: &Self) -> Self {
        a.see();
        b.see();
        ZB::new()
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().for_each(drop);
        ZB::new()
    }
}
impl<A> Volume for ZB<A> {
    fn volume(&self) -> N64 {
        self.see();
        noisy_float::types::n64(1.0)
    }
}
#[derive(Clone)]
struct ZJ;
impl<A> JoinFilter<ZB<A>, ZB<A>, ZK<A>, ZK<A>> for ZJ {
    fn test_bounds(&self, _: &ZB<A>, _: &ZB<A>) -> bool {
        true
    }
    fn test_key(&self, _: &ZK<A>, _: &ZK<A>) -> bool {
        true
    }
}
struct ZR;
impl<A> Ranking<ZB<A>, ZK<A>> for ZR {
    type Metric = u8;
    fn bounds_min(&self, _: &ZB<A>) -> u8 {
        3
    }
    fn rank_key(&self, _: &ZK<A>) -> u8 {
        3
    }
}
trait MkV: Clone {
    const ZERO: bool;
    fn mk(n: u64) -> Self;
}
impl<A> MkV for ZV<A> {
    const ZERO: bool = true;
    fn mk(_: u64) -> Self {
        ZV::new()
    }
}
impl MkV for Box<u64> {
    const ZERO: bool = false;
    fn mk(n: u64) -> Self {
        Box::new(n)
    }
}
impl MkV for () {
    const ZERO: bool = false;
    fn mk(_: u64) {}
}
fn zero<A: 'static, V: MkV + 'static>(rng: &mut Rng, stats: &mut Stats) -> R {
    ZLIVE.with(|l| l.set([0; 3]));
    ZBAD.with(|b| b.set(0));
    let mark = alloc::mark();
    let cfg = pick_cfg(rng, stats.tier, false);
    let top = pick_size(rng, stats.tier, size_cap(cfg, stats.tier).min(300));
    let mut n = 0usize;
    let mut ops = 0u64;
    let mut peak = 0;
    let mut t: RTree<ZB<A>, ZK<A>, V> = RTree::new(cfg);
    let phases = 1 + rng.below(4);
    let fp = rng.next();
    for ph in 0..phases {
        let (goal, mut left) = if ph == 0 { (top, 3 * top + 5) } else { (rng.below(top + 1) * rng.below(2), 3 * top + 5) };
        while left > 0 && n != goal {
            left -= 1;
            ops += 1;
            let up = if rng.chance(80) { n < goal } else { n >= goal };
            if up && rng.chance(85) {
                t.insert(ZK::new(), V::mk(ops));
                n += 1;
            } else if up {
                let r = t.insert_unique(ZK::new(), V::mk(ops));
                ensure!(r.is_some() == (n > 0), "insert_unique of a zero-sized key equal to {n} others returned {}", if r.is_some() { "a value" } else { "None" });
                if n == 0 {
                    n = 1;
                }
            } else {
                let k = ZK::<A>::new();
                let r = t.remove(&k);
                ensure!(r.is_some() == (n > 0), "remove of a zero-sized key from {n} equal ones returned {}", if r.is_some() { "a value" } else { "None" });
                n = n.saturating_sub(1);
            }
            peak = peak.max(n);
            ensure!(t.len() == n, "len() is {}, expected {n} (zero-sized entries, max {} min {})", t.len(), cfg.max_children, cfg.min_children);
            let l = ZLIVE.with(|l| l.get());
            ensure!(l[0] == n as i64 && (!V::ZERO || l[1] == n as i64), "{n} zero-sized entries in the tree, but {} keys and {} values are alive (max {} min {})", l[0], l[1], cfg.max_children, cfg.min_children);
        }
        let c = t.iter().map(|(k, _)| k.see()).count();
        ensure!(c == n, "iter yields {c} of {n} zero-sized entries (max {} min {})", cfg.max_children, cfg.min_children);
        let c = t.iter_mut().map(|(k, _)| k.see()).count();
        ensure!(c == n, "iter_mut yields {c} of {n} zero-sized entries");
        let c = t.filter_iter::<ZK<A>, _>(NoFilter).count();
        ensure!(c == n, "filter_iter yields {c} of {n} zero-sized entries");
        let c = t.filter_iter_mut::<ZK<A>, _>(NoFilter).count();
        ensure!(c == n, "filter_iter_mut yields {c} of {n} zero-sized entries");
        let c = t.iter_asc_by(ZR).count();
        ensure!(c == n, "iter_asc_by yields {c} of {n} zero-sized entries");
        if n <= 40 {
            let c = t.join::<_, _, _, ZK<A>, ZK<A>, _>(&t, ZJ).count();
            ensure!(c == n * n, "join yields {c} of {n} * {n} pairs of zero-sized entries");
            let c: usize = t.left_join::<_, _, _, ZK<A>, ZK<A>, _>(&t, ZJ).map(|(_, r)| r.count()).sum();
            ensure!(c == n * n, "left_join yields {c} of {n} * {n} pairs of zero-sized entries");
        }
        let u = t.clone();
        ensure!(u.len() == n && u.iter().count() == n, "the clone of {n} zero-sized entries has {}", u.len());
        let l = ZLIVE.with(|l| l.get());
        ensure!(l[0] == 2 * n as i64, "a tree and its clone hold {n} zero-sized keys each, but {} are alive", l[0]);
        if rng.chance(50) {
            drop(std::mem::replace(&mut t, u));
        }
    }
    drop(t);
    let l = ZLIVE.with(|l| l.get());
    ensure!(l == [0; 3], "{} zero-sized keys, {} values and {} bounds alive after the tree was dropped (max {} min {})", l[0], l[1], l[2], cfg.max_children, cfg.min_children);
    ensure!(ZBAD.with(|b| b.get()) == 0, "zero-sized objects were dropped twice, or were at misaligned or null addresses");
    if let Some(e) = alloc::balance(&mark) {
        fail!("zero-sized entries, max {} min {}: {e}", cfg.max_children, cfg.min_children);
    }
    stats.add("zero_sized_operations", ops);
    stats.max("largest_zero_sized_tree", peak as u64);
    if peak > cfg.max_children {
        stats.nontrivial(mix2(fp, peak as u64));
    }
    Ok(())
}
#[repr(align(64))]
struct A64;

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 240) {
        return crate::large::case("C12", rng, stats);
    }
    let f: &[fn(&mut Rng, &mut Stats) -> R] = &[
        tracked::<()>,
        tracked::<u8>,
        tracked::<[u64; 9]>,
        tracked::<Al128>,
        tracked::<Box<u64>>,
        tracked::<String>,
        tracked::<()>,
        zero::<u8, ZV<u8>>,
        zero::<A64, ZV<u8>>,
        zero::<u64, ()>,
        zero::<u8, Box<u64>>,
    ];
    let f = rng.pick(f);
    f(rng, stats)
}
