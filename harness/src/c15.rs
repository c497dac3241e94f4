//! C15: trees can be sent and shared between threads exactly when their parts can, and concurrent readers
//! get the answers a single thread would get. The same workload runs natively (answers), under
//! ThreadSanitizer and under Miri (data races).
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use rusty_rtree::bounds::{Bounded, SAABB};
use rusty_rtree::filter::*;
use rusty_rtree::ranking::*;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::Cell;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};

// ---- which types are Send and Sync ----

struct P<T: ?Sized>(PhantomData<T>);
#[allow(dead_code)]
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> No for P<T> {}
struct PS<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for PS<T> {}
impl<T: ?Sized + Send> P<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> PS<T> {
    const SYNC: bool = true;
}
macro_rules! probe {
    ($t:ty) => {
        (P::<$t>::SEND, PS::<$t>::SYNC)
    };
}
/// (`handed` does the same for the type of an expression.)
use crate::handed::{is, No1, Yes1};

type Plain = u64;
type SendOnly = Cell<u64>;
type SyncOnly = PhantomData<std::sync::MutexGuard<'static, u64>>;
type Neither = Rc<u64>;
const T: [&str; 4] = ["u64", "Cell", "MutexGuard", "Rc"];
const SEND: [bool; 4] = [true, true, false, false];
const SYNC: [bool; 4] = [true, false, true, false];
fn matrix() -> Vec<([usize; 3], (bool, bool))> {
    let mut v = vec![];
    macro_rules! one {
        ($i:expr, $a:ty, $j:expr, $b:ty, $k:expr, $c:ty) => {
            v.push(([$i, $j, $k], probe!(RTree<$a, $b, $c>)));
        };
    }
    macro_rules! three {
        ($i:expr, $a:ty, $j:expr, $b:ty) => {
            one!($i, $a, $j, $b, 0, Plain);
            one!($i, $a, $j, $b, 1, SendOnly);
            one!($i, $a, $j, $b, 2, SyncOnly);
            one!($i, $a, $j, $b, 3, Neither);
        };
    }
    macro_rules! two {
        ($i:expr, $a:ty) => {
            three!($i, $a, 0, Plain);
            three!($i, $a, 1, SendOnly);
            three!($i, $a, 2, SyncOnly);
            three!($i, $a, 3, Neither);
        };
    }
    two!(0, Plain);
    two!(1, SendOnly);
    two!(2, SyncOnly);
    two!(3, Neither);
    v
}
fn auto_traits(stats: &mut Stats) -> R {
    for (x, (send, sync)) in matrix() {
        let (ws, wy) = (x.iter().all(|i| SEND[*i]), x.iter().all(|i| SYNC[*i]));
        let what = || format!("RTree with bounds, keys and values of {}, {}, {}", T[x[0]], T[x[1]], T[x[2]]);
        ensure!(send == ws, "{} {} Send", what(), if send { "is" } else { "is not" });
        ensure!(sync == wy, "{} {} Sync", what(), if sync { "is" } else { "is not" });
    }
    stats.add("type_combinations_probed", 64);
    // Iterators must not carry references to what may not be shared or sent.
    type Bx = SAABB<i32, 2>;
    let cfg = RTreeConfig { max_children: 4, min_children: 2 };
    let mut a: RTree<Bx, Bx, Rc<u8>> = RTree::new(cfg);
    let mut b: RTree<Bx, Bx, Cell<u8>> = RTree::new(cfg);
    let rk = || EuclideanDistanceRanking::<SVec<i32, 2>, i32>::new(SVec([0, 0]));
    macro_rules! not {
        ($e:expr) => {
            ensure!(!(&is(&$e)).send(), "{} over values that are not Sync is Send", stringify!($e));
            stats.add("iterator_types_probed", 1);
        };
    }
    #[derive(Clone)]
    struct All;
    impl JoinFilter<Bx, Bx, Bx, Bx> for All {
        fn test_bounds(&self, _: &Bx, _: &Bx) -> bool {
            true
        }
        fn test_key(&self, _: &Bx, _: &Bx) -> bool {
            true
        }
    }
    not!(a.iter());
    not!(b.iter());
    not!(a.filter_iter::<Bx, _>(NoFilter));
    not!(b.filter_iter::<Bx, _>(NoFilter));
    not!(a.iter_asc_by(rk()));
    not!(b.iter_asc_by(rk()));
    not!(a.join::<_, _, _, Bx, Bx, _>(&b, All));
    not!(b.join::<_, _, _, Bx, Bx, _>(&b, All));
    not!(a.left_join::<_, _, _, Bx, Bx, _>(&b, All));
    not!(b.left_join::<_, _, _, Bx, Bx, _>(&b, All));
    not!(a.iter_mut());
    not!(a.filter_iter_mut::<Bx, _>(NoFilter));
    not!(a.iter_asc_by_mut(rk()));
    // control: the probe can say yes
    ensure!((&is(&5u8)).send() && !(&is(&Rc::new(5u8))).send(), "harness: the probe does not work");
    b.insert(SAABB { min: SVec([0, 0]), max: SVec([1, 1]) }, Cell::new(1));
    a.insert(SAABB { min: SVec([0, 0]), max: SVec([1, 1]) }, Rc::new(1));
    Ok(())
}

// ---- concurrent readers ----

static CLOCK: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static MY: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
/// Called from the callbacks: now and then gives way to other threads, and notes how the threads interleave.
/// Relaxed on purpose: it must not order the threads' memory accesses.
fn jitter() {
    MY.with(|m| {
        let (s, h) = m.get();
        let s = mix(s);
        let h = if s % 4 == 0 { mix2(h, CLOCK.fetch_add(1, Relaxed)) } else { h };
        m.set((s, h));
        match s % 64 {
            0 => std::thread::yield_now(),
            1 => (0..s % 256).for_each(|_| std::hint::spin_loop()),
            _ => {}
        }
    })
}

#[derive(Clone)]
struct F<'a>(&'a IdSet);
impl SpatialFilter<IdB, IdKey> for F<'_> {
    fn test_bounds(&self, b: &IdB) -> bool {
        jitter();
        !b.ids.meet(self.0).is_empty()
    }
    fn test_key(&self, k: &IdKey) -> bool {
        jitter();
        self.0.has(k.id)
    }
}
#[derive(Clone)]
struct Rk(u64, bool);
impl Rk {
    fn of(&self, id: u32) -> u64 {
        mix2(self.0, id as u64) % 50
    }
}
impl Ranking<IdB, IdKey> for Rk {
    type Metric = Option<u64>;
    fn bounds_min(&self, b: &IdB) -> Option<u64> {
        jitter();
        b.ids.iter().map(|i| self.of(i)).filter(|r| !self.1 || r % 3 > 0).min()
    }
    fn rank_key(&self, k: &IdKey) -> Option<u64> {
        jitter();
        Some(self.of(k.id)).filter(|r| !self.1 || r % 3 > 0)
    }
}
#[derive(Clone)]
struct J(u32);
impl JoinFilter<IdB, IdB, IdKey, IdKey> for J {
    fn test_bounds(&self, a: &IdB, b: &IdB) -> bool {
        jitter();
        let r = b.ids.iter().fold(0u64, |m, i| m | 1 << (i % self.0));
        a.ids.iter().any(|i| r >> (i % self.0) & 1 == 1)
    }
    fn test_key(&self, a: &IdKey, b: &IdKey) -> bool {
        jitter();
        a.id % self.0 == b.id % self.0
    }
}

#[derive(Clone, Debug)]
enum Q {
    Iter,
    Loop,
    Len,
    Filter(IdSet),
    Boxes([i32; 2], [i32; 2]),
    Asc(u64),
    AscOpt(u64),
    Min(u64),
    Get(IdKey),
    Join(u32),
    Left(u32),
    LeftKept(u32),
    Clone(u64),
}
#[derive(Debug, PartialEq, Clone)]
enum A {
    Set(u64, u64),
    Seq(Vec<u64>),
    One(Option<u64>),
}
fn ent(k: &IdKey, v: &Val) -> u64 {
    mix2(k.id as u64, mix2(v.uid, v.pay))
}
/// Unordered answers are compared as multisets.
fn set(it: impl Iterator<Item = u64>) -> A {
    let (mut n, mut s) = (0, 0u64);
    for x in it {
        n += 1;
        s = s.wrapping_add(mix(x));
    }
    A::Set(n, s)
}
fn ask(q: &Q, t: &IdTree, o: &IdTree) -> A {
    match q {
        Q::Iter => set(t.iter().map(|e| ent(e.0, e.1))),
        Q::Loop => {
            let mut v = vec![];
            for (k, x) in t {
                jitter();
                v.push(ent(k, x));
            }
            set(v.into_iter())
        }
        Q::Len => A::One(Some(t.len() as u64 * 2 + t.is_empty() as u64)),
        Q::Filter(s) => set(t.filter_iter::<IdKey, _>(F(s)).map(|e| ent(e.0, e.1))),
        Q::Boxes(lo, hi) => {
            struct Bx<'a>(&'a [i32; 2], &'a [i32; 2]);
            impl SpatialFilter<IdB, IdKey> for Bx<'_> {
                fn test_bounds(&self, b: &IdB) -> bool {
                    jitter();
                    (0..2).all(|d| b.lo[d] <= self.1[d] && self.0[d] <= b.hi[d])
                }
                fn test_key(&self, b: &IdKey) -> bool {
                    jitter();
                    (0..2).all(|d| b.lo[d] <= self.1[d] && self.0[d] <= b.hi[d])
                }
            }
            set(t.filter_iter::<IdKey, _>(Bx(lo, hi)).map(|e| ent(e.0, e.1)))
        }
        Q::Asc(s) => {
            let r = Rk(*s, false);
            let v: Vec<_> = t.iter_asc_by(r.clone()).map(|e| (r.of(e.0.id), ent(e.0, e.1))).collect();
            let A::Set(_, h) = set(v.iter().map(|x| x.1)) else { unreachable!() };
            A::Seq(v.iter().map(|x| x.0).chain([h]).collect())
        }
        Q::AscOpt(s) => {
            let r = Rk(*s, true);
            let v: Vec<_> = t.filter_iter_asc_by(r.clone()).map(|e| (r.of(e.0.id), ent(e.0, e.1))).collect();
            let A::Set(_, h) = set(v.iter().map(|x| x.1)) else { unreachable!() };
            A::Seq(v.iter().map(|x| x.0).chain([h]).collect())
        }
        Q::Min(s) => {
            let r = Rk(*s, false);
            A::One(t.min_by(r.clone()).map(|e| r.of(e.0.id)))
        }
        Q::Get(k) => A::One(t.get(k).map(|v| mix2(v.uid, v.pay))),
        Q::Join(m) => set(t.join::<_, _, _, IdKey, IdKey, _>(o, J(*m)).map(|(a, b)| mix2(ent(&a.0, &a.1), ent(&b.0, &b.1)))),
        Q::Left(m) => set(t.left_join::<_, _, _, IdKey, IdKey, _>(o, J(*m)).map(|(a, b)| {
            let A::Set(n, h) = set(b.map(|b| ent(&b.0, &b.1))) else { unreachable!() };
            mix2(ent(&a.0, &a.1), mix2(n, h))
        })),
        Q::LeftKept(m) => {
            let all: Vec<_> = t.left_join::<_, _, _, IdKey, IdKey, _>(o, J(*m)).collect();
            set(all.into_iter().rev().map(|(a, b)| {
                let A::Set(n, h) = set(b.map(|b| ent(&b.0, &b.1))) else { unreachable!() };
                mix2(ent(&a.0, &a.1), mix2(n, h))
            }))
        }
        Q::Clone(seed) => {
            // a private copy, changed and dropped by this thread
            let mut u = t.clone();
            let mut rng = Rng::new(*seed);
            let keys: Vec<IdKey> = u.iter().filter(|_| rng.chance(30)).map(|e| e.0.clone()).collect();
            for k in &keys {
                jitter();
                if let Some(mut v) = u.remove(k) {
                    if rng.chance(50) {
                        v.pay ^= 1;
                        u.insert(k.clone(), v);
                    }
                }
            }
            for (_, v) in u.iter_mut() {
                v.pay = v.pay.wrapping_add(3);
            }
            set(u.iter().map(|e| ent(e.0, e.1)))
        }
    }
}

struct Force<X>(X);
// SAFETY: used only after a probe said that X is Send (so that this compiles even if it is not).
unsafe impl<X> Send for Force<X> {}
impl<X> Force<X> {
    fn take(self) -> X {
        self.0
    }
}

fn readers(rng: &mut Rng, stats: &mut Stats) -> R {
    let tiny = stats.tier == Tier::Tiny;
    let threads = if tiny { 2 + rng.below(2) } else { 2 + rng.below(6) };
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let cap = if tiny { 10 } else { rng.pick(&[0, 5, 40, 150, 300]) };
    let (n0, n1) = (rng.next(), rng.next());
    let tier = stats.tier;
    // trees built by other threads, and sent here
    let built = std::thread::scope(|s| {
        let f = |seed: u64, c: RTreeConfig, cap: usize| {
            move || {
                let mut r = Rng::new(seed);
                Force(id_build(&mut r, c, tier, cap))
            }
        };
        let a = s.spawn(f(n0, c0, cap));
        let b = s.spawn(f(n1, c1, cap.min(60)));
        (a.join(), b.join())
    });
    let ((mut t, m), (o, _)) = match built {
        (Ok(a), Ok(b)) => (a.take()?, b.take()?),
        _ => fail!("building a tree in a thread panicked: {}", last_panic()),
    };
    // and changed here before they are shared
    for (_, v) in t.iter_mut() {
        v.pay = v.pay.wrapping_mul(3).wrapping_add(1);
    }
    let ids: Vec<u32> = m.live.keys().copied().collect();
    let all = m.ids();
    let qs: Vec<Q> = (0..if tiny { 6 } else { 24 })
        .map(|_| match rng.below(13) {
            0 => Q::Iter,
            1 => Q::Loop,
            2 => Q::Len,
            3 => Q::Filter(IdSet::of(all.iter().filter(|_| rng.chance(30)))),
            4 => {
                let a: [i32; 2] = std::array::from_fn(|_| rng.range(-1000, 1000) as i32);
                let w = rng.range(0, 800) as i32;
                Q::Boxes(a, a.map(|x| x + w))
            }
            5 => Q::Asc(rng.next()),
            6 => Q::AscOpt(rng.next()),
            7 => Q::Min(rng.next()),
            8 | 12 if !ids.is_empty() => Q::Get(m.key(rng.pick(&ids))),
            9 => Q::Join(1 + rng.below(60) as u32),
            10 => Q::Left(1 + rng.below(60) as u32),
            11 => Q::LeftKept(1 + rng.below(60) as u32),
            _ => Q::Clone(rng.next()),
        })
        .collect();
    let want: Vec<A> = qs.iter().map(|q| ask(q, &t, &o)).collect();
    let bar = Barrier::new(threads);
    let rounds = if tiny { 5 } else { 30 };
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let seed = rng.next();
    CLOCK.store(0, Relaxed);
    let hs: Vec<(u64, u64)> = std::thread::scope(|s| {
        let spawned: Vec<_> = (0..threads)
            .map(|w| {
                let (trees, qs, want, bar, bad) = (Force((&t, &o)), &qs, &want, &bar, &bad);
                s.spawn(move || {
                    let (t, o) = trees.take();
                    let mut r = Rng::new(mix2(seed, w as u64));
                    MY.with(|m| m.set((r.next(), 0)));
                    bar.wait();
                    let mut n = 0;
                    for _ in 0..rounds {
                        let i = r.below(qs.len());
                        let a = ask(&qs[i], t, o);
                        n += 1;
                        if a != want[i] {
                            *bad.lock().unwrap() = Some(format!("thread {w} of {threads} got {a:?} for {:?}; a single thread got {:?}", qs[i], want[i]));
                            break;
                        }
                    }
                    (MY.with(|m| m.get().1), n)
                })
            })
            .collect();
        let mut v = vec![];
        for h in spawned {
            match h.join() {
                Ok(x) => v.push(x),
                Err(_) => *bad.lock().unwrap() = Some(format!("a reading thread panicked")),
            }
        }
        v
    });
    if let Some(b) = bad.into_inner().unwrap() {
        fail!("{b} (tree of {} entries, max {} min {})", m.live.len(), c0.max_children, c0.min_children);
    }
    // the tree is as it was, and still usable afterwards
    let again: Vec<A> = qs.iter().map(|q| ask(q, &t, &o)).collect();
    ensure!(again == want, "after concurrent reading the answers are different");
    // inner iterators of a left join, if they may be sent
    let (inner, outer) = {
        let mut i = t.left_join::<_, _, _, IdKey, IdKey, _>(&o, J(3));
        let outer = (&is(&i)).send();
        (i.next().map(|(_, b)| (&is(&b)).send()), outer)
    };
    if inner == Some(true) {
        let it = t.left_join::<_, _, _, IdKey, IdKey, _>(&o, J(3));
        let n: u64 = std::thread::scope(|s| {
            let hs: Vec<_> = it
                .map(|(_, b)| {
                    let b = Force(b);
                    s.spawn(move || b.take().count() as u64)
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(0)).sum()
        });
        let w: u64 = t.left_join::<_, _, _, IdKey, IdKey, _>(&o, J(3)).map(|(_, b)| b.count() as u64).sum();
        ensure!(n == w, "inner iterators of a left join, sent to other threads, yielded {n} entries instead of {w}");
        stats.add("inner_iterators_sent", 1);
    }
    if outer {
        // an outer iterator sent away while inner ones stay
        let mut it = t.left_join::<_, _, _, IdKey, IdKey, _>(&o, J(3));
        let first = it.next();
        let rest = Force(it);
        std::thread::scope(|s| {
            let h = s.spawn(move || rest.take().map(|(_, b)| b.count()).sum::<usize>());
            if let Some((_, b)) = first {
                b.for_each(|_| jitter());
            }
            h.join().ok()
        });
        stats.add("outer_iterators_sent", 1);
    }
    // dropped by another thread
    let t = Force(t);
    std::thread::spawn(move || drop(t.take())).join().map_err(|_| Fail("dropping a tree in another thread panicked".into()))?;
    stats.add("threads", threads as u64);
    stats.add("concurrent_queries", hs.iter().map(|h| h.1).sum());
    stats.add("interleaving_events", CLOCK.load(Relaxed));
    let fp = hs.iter().fold(seed, |a, h| mix2(a, h.0));
    if m.live.len() > c0.max_children && CLOCK.load(Relaxed) > 0 {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("{threads} threads, {rounds} queries each of {:?}..., on {} entries (max {} min {})", &qs.first(), m.live.len(), c0.max_children, c0.min_children));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if rng.chance(3) || stats.c.get("type_combinations_probed").is_none() {
        auto_traits(stats)?;
    }
    if rng.chance(15) {
        return crate::handed::case(rng, stats);
    }
    readers(rng, stats)
}
