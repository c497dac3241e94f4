//! C13: no undefined behaviour. Workloads of the other properties, and hostile but safe ones of its own, for
//! execution under AddressSanitizer and Miri (both aliasing models). Natively the ledger still watches.
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use crate::ledger;
use crate::trk::*;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Safe implementations of the crate's traits that break every contract: what they answer is drawn at random.
thread_local! {
    static DICE: Cell<u64> = const { Cell::new(1) };
    static BIAS: Cell<u64> = const { Cell::new(50) };
}
fn dice() -> u64 {
    DICE.with(|d| {
        d.set(mix(d.get()));
        d.get()
    })
}
fn coin() -> bool {
    dice() % 100 < BIAS.with(|b| b.get())
}
struct LKey<P: Pad>(TVal<P>);
struct LB<P: Pad>(TVal<P>);
fn thing<P: Pad>() -> TVal<P> {
    TVal::new(dice() % 1000, 0)
}
impl<P: Pad> Clone for LKey<P> {
    fn clone(&self) -> Self {
        self.0.touch();
        LKey(thing())
    }
}
impl<P: Pad> Clone for LB<P> {
    fn clone(&self) -> Self {
        self.0.touch();
        LB(thing())
    }
}
impl<P: Pad> PartialEq for LKey<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0.touch();
        o.0.touch();
        coin()
    }
}
impl<P: Pad> Eq for LKey<P> {}
impl<P: Pad> PartialEq for LB<P> {
    fn eq(&self, o: &Self) -> bool {
        self.0.touch();
        o.0.touch();
        coin()
    }
}
impl<P: Pad> Eq for LB<P> {}
impl<P: Pad> Bounded<LB<P>> for LKey<P> {
    fn bounds(&self) -> LB<P> {
        self.0.touch();
        LB(thing())
    }
}
impl<P: Pad> Contains<LB<P>> for LB<P> {
    fn contains(&self, o: &Self) -> bool {
        self.0.touch();
        o.0.touch();
        coin()
    }
}
impl<P: Pad> Intersects<LB<P>> for LB<P> {
    fn intersects(&self, o: &Self) -> bool {
        self.0.touch();
        o.0.touch();
        coin()
    }
}
impl<P: Pad> Bounds for LB<P> {
    fn empty() -> Self {
        LB(thing())
    }
    fn union(a: &Self, b: &Self) -> Self {
        a.0.touch();
        b.0.touch();
        LB(thing())
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        // takes only some of them
        let mut it = b.into_iter();
        while coin() {
            match it.next() {
                Some(b) => b.0.touch(),
                None => break,
            }
        }
        LB(thing())
    }
}
impl<P: Pad> Volume for LB<P> {
    fn volume(&self) -> N64 {
        self.0.touch();
        noisy_float::types::n64(match dice() % 6 {
            0 => f64::INFINITY,
            1 => f64::NEG_INFINITY,
            2 => -0.0,
            3 => f64::MAX,
            _ => dice() as i64 as f64,
        })
    }
}
#[derive(Clone)]
struct Liar;
impl<P: Pad> SpatialFilter<LB<P>, LKey<P>> for Liar {
    fn test_bounds(&self, b: &LB<P>) -> bool {
        b.0.touch();
        coin()
    }
    fn test_key(&self, k: &LKey<P>) -> bool {
        k.0.touch();
        coin()
    }
}
impl<P: Pad> JoinFilter<LB<P>, LB<P>, LKey<P>, LKey<P>> for Liar {
    fn test_bounds(&self, a: &LB<P>, b: &LB<P>) -> bool {
        a.0.touch();
        b.0.touch();
        coin()
    }
    fn test_key(&self, a: &LKey<P>, b: &LKey<P>) -> bool {
        a.0.touch();
        b.0.touch();
        coin()
    }
}
/// An order that is none.
struct Odd(#[allow(dead_code)] Box<u64>);
impl PartialEq for Odd {
    fn eq(&self, _: &Self) -> bool {
        coin()
    }
}
impl Eq for Odd {}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Odd {
    fn cmp(&self, _: &Self) -> std::cmp::Ordering {
        match dice() % 3 {
            0 => std::cmp::Ordering::Less,
            1 => std::cmp::Ordering::Equal,
            _ => std::cmp::Ordering::Greater,
        }
    }
}
impl<P: Pad> Ranking<LB<P>, LKey<P>> for Liar {
    type Metric = Option<Odd>;
    fn bounds_min(&self, b: &LB<P>) -> Option<Odd> {
        b.0.touch();
        coin().then(|| Odd(Box::new(1)))
    }
    fn rank_key(&self, k: &LKey<P>) -> Option<Odd> {
        k.0.touch();
        coin().then(|| Odd(Box::new(2)))
    }
}
type LTree<P> = RTree<LB<P>, LKey<P>, TVal<P>>;

fn lies<P: Pad>(rng: &mut Rng, stats: &mut Stats) -> R {
    ledger::reset();
    DICE.with(|d| d.set(rng.next()));
    let tiny = stats.tier == Tier::Tiny;
    let cfg = match rng.below(5) {
        0 => RTreeConfig { max_children: rng.below(4), min_children: rng.below(5) },
        _ => pick_cfg(rng, Tier::Tiny, false),
    };
    let mut t: LTree<P> = RTree::new(cfg);
    let mut u: LTree<P> = RTree::new(cfg);
    let n = if tiny { 6 + rng.below(20) } else { 10 + rng.below(300) };
    let (mut panics, mut left) = (0u64, 0i64);
    let mut fp = rng.next();
    for i in 0..n {
        let bias = rng.pick(&[0, 5, 50, 90, 100]);
        BIAS.with(|b| b.set(bias));
        let what = rng.below(if i < n / 2 { 12 } else { 20 });
        let seed = rng.next();
        // walks that cannot end otherwise are cut off
        let most = if tiny { 30 } else { 400 };
        let r = catch_unwind(AssertUnwindSafe(|| {
            fn see<P: Pad>(k: &LKey<P>, v: &TVal<P>) {
                k.0.touch();
                v.touch();
            }
            match what {
                0..=8 => t.insert(LKey(thing()), TVal::new(i as u64, 0)),
                9 => drop(t.insert_unique(LKey(thing()), TVal::new(i as u64, 0))),
                10 => drop(t.remove(&LKey(thing()))),
                11 => std::mem::swap(&mut t, &mut u),
                12 => t.iter().take(most).for_each(|(k, v)| see(k, v)),
                13 => t.filter_iter::<LKey<P>, _>(Liar).take(most).for_each(|(k, v)| see(k, v)),
                14 => {
                    let held: Vec<_> = t.filter_iter_mut::<LKey<P>, _>(Liar).take(most).collect();
                    for (k, v) in held {
                        see(k, v);
                        v.pay += 1;
                    }
                }
                15 => {
                    let held: Vec<_> = t.filter_iter_asc_by_mut(Liar).take(most).collect();
                    for (k, v) in held {
                        see(k, v);
                        v.pay += 1;
                    }
                }
                16 => t.iter_asc_by(Liar).take(most).for_each(|(k, v)| see(k, v)),
                17 => {
                    for (a, b) in t.join::<_, _, _, LKey<P>, LKey<P>, _>(&u, Liar).take(most) {
                        see(&a.0, &a.1);
                        see(&b.0, &b.1);
                    }
                }
                18 => {
                    let mut kept = vec![];
                    for (a, mut b) in t.left_join::<_, _, _, LKey<P>, LKey<P>, _>(&u, Liar).take(most) {
                        see(&a.0, &a.1);
                        if let Some(e) = b.next() {
                            see(&e.0, &e.1);
                        }
                        if seed % 3 == 0 && kept.len() < 8 {
                            kept.push(b);
                        }
                    }
                    for mut b in kept {
                        b.by_ref().take(most).for_each(|e| see(&e.0, &e.1));
                    }
                }
                _ => {
                    if let Some(v) = t.get_mut(&LKey(thing())) {
                        v.touch();
                    }
                    u = t.clone();
                }
            }
        }));
        if r.is_err() {
            panics += 1;
        }
        if let Some(e) = ledger::errors() {
            fail!("contracts of user types broken, max {} min {}, operation {what}: {e}", cfg.max_children, cfg.min_children);
        }
        fp = mix2(fp, t.len() as u64);
        left += 1;
    }
    drop(t);
    drop(u);
    let e = ledger::errors();
    ledger::reset();
    if let Some(e) = e {
        fail!("contracts of user types broken, max {} min {}, when dropped: {e}", cfg.max_children, cfg.min_children);
    }
    stats.add("operations_with_broken_contracts", left as u64);
    stats.add("of_them_panicked", panics);
    stats.nontrivial(fp);
    Ok(())
}

/// Iterators in any state, forgotten, asked after their end, or dropped in any order; trees of any configuration.
fn states<P: Pad>(rng: &mut Rng, stats: &mut Stats) -> R {
    ledger::reset();
    let tier = stats.tier;
    let cfg = pick_cfg(rng, tier, false);
    let mut h = TH::new(rng, tier, size_cap(cfg, tier).min(200));
    let mut t: TTree<P> = RTree::new(cfg);
    let mut o: TTree<P> = RTree::new(pick_cfg(rng, tier, false));
    let (mut ops, mut steps, mut forgot) = (0u64, 0u64, 0u64);
    let mut fp = rng.next();
    while let Some(st) = h.next(rng) {
        let out = apply_t(&mut t, &st);
        h.settle(&st, &out)?;
        ops += 1;
        if ops % (5 + t.len() as u64) != 0 && !h.h.at_phase_end() {
            continue;
        }
        let ids = h.ids();
        let sub = IdSet::of(ids.iter().filter(|_| rng.chance(50)));
        match rng.below(6) {
            0 => steps += browse(rng, &t, &o, &sub, 30),
            1 => steps += browse_mut(rng, &mut t.clone(), &sub, 20),
            2 => {
                // every kind of iterator, some advanced, some not, some forgotten
                for kind in 0..CURSORS {
                    let mut c = cursor(kind, rng.next(), &t, &o, &sub);
                    for _ in 0..rng.below(6) {
                        steps += c(rng).is_some() as u64;
                    }
                    if rng.chance(20) {
                        std::mem::forget(c);
                        forgot += 1;
                    }
                }
            }
            3 => {
                // a mutable iterator forgotten while its references go on
                let mut x = t.clone();
                let held: Vec<_> = {
                    let mut it = x.iter_mut();
                    let held = it.by_ref().take(rng.below(5)).collect();
                    if rng.chance(50) {
                        std::mem::forget(it);
                        forgot += 1;
                    }
                    held
                };
                for (k, v) in held {
                    k.touch();
                    v.touch();
                    v.pay = mix(v.pay);
                    steps += 1;
                }
                o = x;
            }
            4 => {
                // all of a left join kept, then dropped in random order; the iterator first, last or between
                let it = t.left_join::<_, _, _, TKey<P>, TKey<P>, _>(&o, TMod(3));
                let mut kept: Vec<_> = it.take(1 + rng.below(8)).map(|(_, i)| i).collect();
                for _ in 0..rng.below(12) {
                    if kept.is_empty() {
                        break;
                    }
                    let i = rng.below(kept.len());
                    steps += kept[i].next().is_some() as u64;
                }
                rng.shuffle(&mut kept);
                while let Some(k) = kept.pop() {
                    if rng.chance(10) {
                        std::mem::forget(k);
                        forgot += 1;
                    }
                }
            }
            _ => {
                let mut v = vec![t.clone(), std::mem::replace(&mut o, RTree::new(cfg))];
                v.push(v[0].clone());
                rng.shuffle(&mut v);
                for x in &v {
                    steps += x.iter().count() as u64;
                    if x.len() < 20 {
                        steps += (format!("{x:?}").len() > 0) as u64;
                    }
                }
                o = v.pop().unwrap();
            }
        }
        fp = mix2(fp, steps);
        if let Some(e) = ledger::errors() {
            fail!("{e}");
        }
    }
    let peak = t.len();
    drop(t);
    drop(o);
    let e = ledger::errors();
    ledger::reset();
    if let Some(e) = e {
        fail!("{e}");
    }
    let _ = peak;
    stats.add("operations", ops);
    stats.add("iterator_steps", steps);
    stats.add("iterators_forgotten", forgot);
    stats.nontrivial(fp);
    Ok(())
}

/// Limits so great that no allocation can hold so many children: a tree may refuse them, by a panic, but one that
/// does not has to have the room it says it has.
fn greatest<P: Pad>(rng: &mut Rng, stats: &mut Stats) -> R {
    ledger::reset();
    DICE.with(|d| d.set(rng.next()));
    BIAS.with(|b| b.set(50));
    let size = std::mem::size_of::<(LKey<P>, TVal<P>)>();
    let (mut refused, mut made) = (0u64, 0u64);
    for _ in 0..4 {
        // so many that the bytes they take, counted in a usize, come round to few
        let max_children = match rng.below(4) {
            0 => usize::MAX,
            1 => 1 << 63,
            _ => usize::MAX / size + 1 + rng.below(5),
        };
        let cfg = RTreeConfig { max_children, min_children: rng.below(3) };
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut t: LTree<P> = RTree::new(cfg);
            made += 1;
            for i in 0..20 {
                t.insert(LKey(thing()), TVal::new(i, 0));
            }
            let mut u = t.clone();
            for (k, v) in t.iter().chain(u.iter()) {
                k.0.touch();
                v.touch();
            }
            u.remove(&LKey(thing()));
        }));
        refused += r.is_err() as u64;
        if let Some(e) = ledger::errors() {
            fail!("at most {max_children} children: {e}");
        }
        // and where entries take no room at all, any number of them fits
        let mut z: RTree<Nil, Nil, ()> = RTree::new(cfg);
        for _ in 0..rng.below(40) {
            z.insert(Nil, ());
        }
        let w = z.clone();
        let n = w.iter().count() + z.iter_mut().count();
        if n != z.len() + w.len() || z.remove(&Nil).is_some() != (n > 0) {
            fail!("at most {max_children} children: {n} entries seen of {} and {}", z.len(), w.len());
        }
    }
    ledger::reset();
    stats.add("limits_too_great", 4);
    stats.add("of_them_refused", refused);
    stats.nontrivial(rng.next());
    let _ = made;
    Ok(())
}
#[derive(Clone, PartialEq, Eq)]
struct Nil;
impl Bounded<Nil> for Nil {
    fn bounds(&self) -> Nil {
        Nil
    }
}
impl Contains<Nil> for Nil {
    fn contains(&self, _: &Nil) -> bool {
        true
    }
}
impl Intersects<Nil> for Nil {
    fn intersects(&self, _: &Nil) -> bool {
        true
    }
}
impl Bounds for Nil {
    fn empty() -> Nil {
        Nil
    }
    fn union(_: &Nil, _: &Nil) -> Nil {
        Nil
    }
    fn union_all(_: impl IntoIterator<Item = Nil>) -> Nil {
        Nil
    }
}
impl Volume for Nil {
    fn volume(&self) -> N64 {
        noisy_float::types::n64(0.0)
    }
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    let kind = rng.below(29);
    let t0 = std::time::Instant::now();
    let f: fn(&mut Rng, &mut Stats) -> R = match kind {
        0..=5 => rng.pick(&[states::<()> as fn(&mut Rng, &mut Stats) -> R, states::<u8>, states::<Box<u64>>, states::<Al128>, states::<String>]),
        6..=9 => rng.pick(&[lies::<()> as fn(&mut Rng, &mut Stats) -> R, lies::<Box<u64>>, lies::<Al128>]),
        10 => crate::c01::case,
        11 => crate::c02::case,
        12 | 13 => crate::c03::case,
        14 => crate::c05::case,
        15 => crate::c07::case,
        16 => crate::c08::case,
        17 => crate::c11::case,
        18..=20 => crate::c12::case,
        21 | 22 => crate::c14::case,
        23..=25 => crate::c19::case,
        26 | 27 => crate::handed::case,
        _ => rng.pick(&[greatest::<()> as fn(&mut Rng, &mut Stats) -> R, greatest::<Box<u64>>, greatest::<Al128>]),
    };
    let r = f(rng, stats);
    if cfg!(miri) {
        eprintln!("TOOK kind {kind} {:.2} s", t0.elapsed().as_secs_f64());
    }
    r
}
