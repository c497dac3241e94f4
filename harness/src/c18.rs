//! C18: the provided filters and the distance ranking may be pruned with.
use crate::c17::Unit;
use crate::common::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::SVec;
use std::cell::RefCell;
use std::fmt::Debug;

type Bx<N, const D: usize> = SAABB<N, D>;
type P<const D: usize> = [i64; D];

fn inside<N: Ord, const D: usize>(o: &Bx<N, D>, i: &Bx<N, D>) -> bool {
    (0..D).all(|d| o.min.0[d] <= i.min.0[d] && i.max.0[d] <= o.max.0[d])
}
fn sv<N: Unit, const D: usize>(p: &P<D>) -> SVec<N, D> {
    SVec(p.map(N::of))
}
fn bx<N: Unit, const D: usize>(lo: &P<D>, hi: &P<D>) -> Bx<N, D> {
    AABB { min: sv(lo), max: sv(hi) }
}

struct World<N, const D: usize> {
    /// nested and unrelated boxes
    boxes: Vec<Bx<N, D>>,
    kb: Vec<Bx<N, D>>,
    kp: Vec<SVec<N, D>>,
    kl: Vec<Line<SVec<N, D>>>,
    /// spheres, and the boxes that must hold them
    ks: Vec<Sphere<N, D>>,
}

struct Seen {
    matched: u64,
    rejected: u64,
    pruned: u64,
    fp: u64,
}

/// The three promises of a filter's bounds test. `want` is the key test that the filter must make.
fn filter<N: Unit, const D: usize, K, F: SpatialFilter<Bx<N, D>, K>>(
    what: &str,
    f: &F,
    boxes: &[Bx<N, D>],
    keys: &[(&K, Bx<N, D>)],
    want: impl Fn(&K) -> bool,
    show: impl Fn(&K) -> String,
    s: &mut Seen,
) -> R {
    let tb: Vec<bool> = boxes.iter().map(|b| f.test_bounds(b)).collect();
    for (k, kb) in keys {
        let t = f.test_key(k);
        let w = want(k);
        ensure!(t == w, "{}: {what}: the key test of {} is {t}, expected {w}", N::NAME, show(k));
        if t {
            s.matched += 1;
        } else {
            s.rejected += 1;
            continue;
        }
        ensure!(f.test_bounds(kb), "{}: {what} matches {} but prunes its own bounds", N::NAME, show(k));
        for (b, tb) in boxes.iter().zip(&tb) {
            ensure!(*tb || !inside(b, kb), "{}: {what} matches {} but prunes {b:?}, within which it lies", N::NAME, show(k));
        }
    }
    for (i, a) in boxes.iter().enumerate() {
        if !tb[i] {
            s.pruned += 1;
            continue;
        }
        for (j, b) in boxes.iter().enumerate() {
            ensure!(tb[j] || !inside(b, a), "{}: {what} passes {a:?} but prunes the larger {b:?}", N::NAME);
        }
    }
    s.fp = tb.iter().fold(s.fp, |f, t| mix2(f, *t as u64));
    Ok(())
}

/// A user's space, whose key test has little to do with its bounds.
struct Speck<N, const D: usize> {
    b: Bx<N, D>,
    salt: u64,
}
fn speck<N: Unit, const D: usize>(s: &Speck<N, D>, k: &SVec<N, D>) -> bool {
    inside(&s.b, &AABB { min: *k, max: *k }) && k.0.iter().fold(s.salt, |h, v| mix2(h, v.f().to_bits())) % 3 != 0
}
impl<N: Unit, const D: usize> Intersects<Bx<N, D>> for Speck<N, D> {
    fn intersects(&self, b: &Bx<N, D>) -> bool {
        (0..D).all(|d| self.b.min.0[d] <= b.max.0[d] && b.min.0[d] <= self.b.max.0[d])
    }
}
impl<N: Unit, const D: usize> Intersects<SVec<N, D>> for Speck<N, D> {
    fn intersects(&self, k: &SVec<N, D>) -> bool {
        speck(self, k)
    }
}
impl<N: Unit, const D: usize> Contains<SVec<N, D>> for Speck<N, D> {
    fn contains(&self, k: &SVec<N, D>) -> bool {
        !speck(self, k) && inside(&self.b, &AABB { min: *k, max: *k })
    }
}
impl<N: Unit, const D: usize> Bounded<Bx<N, D>> for Speck<N, D> {
    fn bounds(&self) -> Bx<N, D> {
        self.b
    }
}

/// A join filter that records what it is asked, and answers by rote.
struct Rote<'a, N, const D: usize> {
    salt: u64,
    asked: &'a RefCell<Vec<(bool, Bx<N, D>, Bx<N, D>)>>,
}
fn rote<N: Unit, const D: usize>(salt: u64, a: &Bx<N, D>, b: &Bx<N, D>) -> bool {
    let h = |s, b: &Bx<N, D>| (0..D).fold(s, |s, d| mix2(mix2(s, b.min.0[d].f().to_bits()), b.max.0[d].f().to_bits()));
    h(h(salt, a), b) % 2 == 0
}
impl<N: Unit, const D: usize, L: Bounded<Bx<N, D>>, K: Bounded<Bx<N, D>>> JoinFilter<Bx<N, D>, Bx<N, D>, L, K> for Rote<'_, N, D> {
    fn test_bounds(&self, a: &Bx<N, D>, b: &Bx<N, D>) -> bool {
        self.asked.borrow_mut().push((false, *a, *b));
        rote(self.salt, a, b)
    }
    fn test_key(&self, a: &L, b: &K) -> bool {
        let (a, b) = (a.bounds(), b.bounds());
        self.asked.borrow_mut().push((true, a, b));
        rote(self.salt + 1, &a, &b)
    }
}

fn joining<N: Unit, const D: usize, L: Bounded<Bx<N, D>>, K: Bounded<Bx<N, D>>>(
    salt: u64,
    left: &L,
    boxes: &[Bx<N, D>],
    keys: &[K],
    s: &mut Seen,
) -> R {
    let asked = RefCell::new(vec![]);
    let f = JoiningFilter::<Bx<N, D>, L, _>::new(left, Rote { salt, asked: &asked });
    let lb = left.bounds();
    for b in boxes {
        asked.borrow_mut().clear();
        let g = SpatialFilter::<Bx<N, D>, K>::test_bounds(&f, b);
        let w = rote(salt, &lb, b);
        ensure!(g == w, "{}: a joining filter of {lb:?} tests bounds {b:?} as {g}, the join filter says {w}", N::NAME);
        ensure!(asked.borrow().contains(&(false, lb, *b)), "{}: a joining filter of {lb:?} asked {:?} about {b:?}", N::NAME, asked.borrow());
        s.fp = mix2(s.fp, g as u64);
    }
    for k in keys {
        asked.borrow_mut().clear();
        let g = SpatialFilter::<Bx<N, D>, K>::test_key(&f, k);
        let kb = k.bounds();
        let w = rote(salt + 1, &lb, &kb);
        ensure!(g == w, "{}: a joining filter of {lb:?} tests key {kb:?} as {g}, the join filter says {w}", N::NAME);
        ensure!(asked.borrow().contains(&(true, lb, kb)), "{}: a joining filter of {lb:?} asked {:?} about {kb:?}", N::NAME, asked.borrow());
        if g {
            s.matched += 1
        } else {
            s.rejected += 1
        }
    }
    Ok(())
}

fn ranking<N: Unit, const D: usize, K: PointDistance<SVec<N, D>, N>>(
    p: &SVec<N, D>,
    boxes: &[Bx<N, D>],
    keys: &[(&K, Bx<N, D>)],
    show: impl Fn(&K) -> String,
    s: &mut Seen,
) -> R {
    let r = EuclideanDistanceRanking::<SVec<N, D>, N>::new(*p);
    let r2 = r;
    let m: Vec<N> = boxes.iter().map(|b| Ranking::<Bx<N, D>, K>::bounds_min(&r, b)).collect();
    for (k, kb) in keys {
        let rk = Ranking::<Bx<N, D>, K>::rank_key(&r2, k);
        let own = Ranking::<Bx<N, D>, K>::bounds_min(&r, kb);
        ensure!(own <= rk, "{}: from {p:?}, {} has rank {rk:?}, below the bound {own:?} of its own bounds", N::NAME, show(k));
        for (b, m) in boxes.iter().zip(&m) {
            ensure!(
                *m <= rk || !inside(b, kb),
                "{}: from {p:?}, {} has rank {rk:?}, below the bound {m:?} of {b:?}, within which it lies",
                N::NAME,
                show(k)
            );
        }
        s.matched += 1;
        s.fp = mix2(s.fp, rk.f().to_bits());
    }
    for (i, a) in boxes.iter().enumerate() {
        for (j, b) in boxes.iter().enumerate() {
            ensure!(
                m[j] <= m[i] || !inside(b, a),
                "{}: from {p:?}, {b:?} has the bound {:?}, greater than {:?}, that of {a:?} within it",
                N::NAME,
                m[j],
                m[i]
            );
        }
    }
    Ok(())
}

fn coords<const D: usize>(rng: &mut Rng, m: i64) -> (P<D>, P<D>) {
    let flat = rng.pick(&[0u32, 10, 60, 100]);
    let mut lo: P<D> = std::array::from_fn(|_| rng.range(-m, m));
    let mut hi: P<D> = std::array::from_fn(|_| rng.range(-m, m));
    for d in 0..D {
        if lo[d] > hi[d] {
            (lo[d], hi[d]) = (hi[d], lo[d]);
        }
        if rng.chance(flat) {
            hi[d] = lo[d];
        }
    }
    (lo, hi)
}

fn world<N: Unit, const D: usize>(rng: &mut Rng, m: i64) -> World<N, D> {
    let mut bs: Vec<(P<D>, P<D>)> = vec![];
    for _ in 0..6 {
        let (lo, hi) = coords::<D>(rng, m);
        bs.push((lo, hi));
        // grow it, one side at a time
        let (mut lo, mut hi) = (lo, hi);
        for _ in 0..2 {
            let d = rng.below(D);
            if rng.chance(50) {
                lo[d] = rng.range(-m, lo[d]);
            } else {
                hi[d] = rng.range(hi[d], m);
            }
            bs.push((lo, hi));
        }
    }
    let at = |rng: &mut Rng, bs: &[(P<D>, P<D>)]| -> P<D> {
        let (lo, hi) = bs[rng.below(bs.len())];
        std::array::from_fn(|d| match rng.below(4) {
            0 => lo[d],
            1 => hi[d],
            2 => rng.range(lo[d], hi[d]),
            _ => rng.range(-m, m),
        })
    };
    let mut w = World { boxes: vec![], kb: vec![], kp: vec![], kl: vec![], ks: vec![] };
    for _ in 0..8 {
        let (a, b) = (at(rng, &bs), at(rng, &bs));
        w.kb.push(bx(&std::array::from_fn(|d| a[d].min(b[d])), &std::array::from_fn(|d| a[d].max(b[d]))));
        w.kp.push(sv(&at(rng, &bs)));
        w.kl.push(Line(sv(&at(rng, &bs)), sv(&at(rng, &bs))));
        w.ks.push(Sphere { center: sv(&at(rng, &bs)), radius: N::of(rng.range(0, m)) });
        let (lo, hi) = bs[rng.below(bs.len())];
        w.kb.push(bx(&lo, &hi));
    }
    w.boxes = bs.iter().map(|(lo, hi)| bx(lo, hi)).collect();
    w
}

fn own<'a, K: Bounded<Bx<N, D>>, N, const D: usize>(ks: &'a [K]) -> Vec<(&'a K, Bx<N, D>)> {
    ks.iter().map(|k| (k, k.bounds())).collect()
}

fn spaces<N: Unit + Into<f64>, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let m = rng.pick(&[2, 5, 20, 300, N::MAX / 2]).min(N::MAX / 2);
    let w = world::<N, D>(rng, m);
    let q = world::<N, D>(rng, m);
    let mut s = Seen { matched: 0, rejected: 0, pruned: 0, fp: 3 };
    let (kb, kp, kl, ks) = (own(&w.kb), own(&w.kp), own(&w.kl), own(&w.ks));
    let show_b = |k: &Bx<N, D>| format!("{k:?}");
    let show_p = |k: &SVec<N, D>| format!("{k:?}");
    let show_l = |k: &Line<SVec<N, D>>| format!("{k:?}");
    let show_s = |k: &Sphere<N, D>| format!("a sphere at {:?} of radius {:?}", k.center, k.radius);
    let bs = &w.boxes;
    for i in 0..3 {
        let sb = if i == 0 { bs[rng.below(bs.len())] } else { q.kb[i] };
        let meets = |b: &Bx<N, D>| (0..D).all(|d| sb.min.0[d] <= b.max.0[d] && b.min.0[d] <= sb.max.0[d]);
        let (pb, n) = (|p: &SVec<N, D>| AABB { min: *p, max: *p }, N::NAME);
        let _ = n;
        let t = |w: &str| format!("{w} of {sb:?}");
        filter(&t("IntersectsFilter"), &IntersectsFilter::new(sb), bs, &kb, |k| meets(k), show_b, &mut s)?;
        filter(&t("IntersectsFilter"), &IntersectsFilter::new(sb), bs, &kp, |k| meets(&pb(k)), show_p, &mut s)?;
        filter(&t("IntersectsFilter"), &IntersectsFilter::new(sb), bs, &kl, |k| sb.intersects(k), show_l, &mut s)?;
        filter(&t("BoundedIntersectsFilter"), &BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(sb), bs, &kb, |k| meets(k), show_b, &mut s)?;
        filter(&t("BoundedIntersectsFilter"), &BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(sb), bs, &kp, |k| meets(&pb(k)), show_p, &mut s)?;
        filter(&t("BoundedIntersectsFilter"), &BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(sb), bs, &kl, |k| sb.intersects(k), show_l, &mut s)?;
        filter(&t("ContainsFilter"), &ContainsFilter::new(sb), bs, &kb, |k| inside(&sb, k), show_b, &mut s)?;
        filter(&t("ContainsFilter"), &ContainsFilter::new(sb), bs, &kp, |k| inside(&sb, &pb(k)), show_p, &mut s)?;
        filter(&t("BoundedContainsFilter"), &BoundedContainsFilter::<Bx<N, D>, _>::new_bounded(sb), bs, &kb, |k| inside(&sb, k), show_b, &mut s)?;
        filter(&t("BoundedContainsFilter"), &BoundedContainsFilter::<Bx<N, D>, _>::new_bounded(sb), bs, &kp, |k| inside(&sb, &pb(k)), show_p, &mut s)?;

        let sp = q.kp[i];
        let t = |w: &str| format!("{w} of {sp:?}");
        let hit = |k: &Bx<N, D>| inside(k, &pb(&sp));
        filter(&t("IntersectsFilter"), &IntersectsFilter::new(sp), bs, &kb, hit, show_b, &mut s)?;
        filter(&t("BoundedIntersectsFilter"), &BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(sp), bs, &kb, hit, show_b, &mut s)?;
        let hit = |k: &Sphere<N, D>| k.intersects(&sp);
        filter(&t("IntersectsFilter"), &IntersectsFilter::new(sp), bs, &ks, hit, show_s, &mut s)?;
        filter(&t("BoundedIntersectsFilter"), &BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(sp), bs, &ks, hit, show_s, &mut s)?;

        let sl = q.kl[i].clone();
        let t = |w: &str| format!("{w} of {sl:?}");
        let hit = |k: &Bx<N, D>| sl.intersects(k);
        filter(&t("IntersectsFilter"), &IntersectsFilter::new(sl.clone()), bs, &kb, hit, show_b, &mut s)?;
        filter(&t("BoundedIntersectsFilter"), &BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(sl.clone()), bs, &kb, hit, show_b, &mut s)?;

        let ray = || Ray { origin: sl.0, n: sl.1 - sl.0 };
        let t = format!("IntersectsFilter of the ray from {:?} along {:?}", ray().origin, ray().n);
        filter(&t, &IntersectsFilter::new(ray()), bs, &kb, |k| ray().intersects(k), show_b, &mut s)?;

        let ss = || Sphere { center: q.ks[i].center, radius: q.ks[i].radius };
        let t = format!("BoundedIntersectsFilter of {}", show_s(&ss()));
        filter(&t, &BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(ss()), bs, &kp, |k| ss().intersects(k), show_p, &mut s)?;

        let sk = || Speck { b: sb, salt: i as u64 };
        let t = |w: &str| format!("{w} of a user's space in {sb:?}");
        filter(&t("IntersectsFilter"), &IntersectsFilter::new(sk()), bs, &kp, |k| speck(&sk(), k), show_p, &mut s)?;
        filter(&t("BoundedIntersectsFilter"), &BoundedIntersectsFilter::<Bx<N, D>, _>::new_bounded(sk()), bs, &kp, |k| speck(&sk(), k), show_p, &mut s)?;
        filter(&t("ContainsFilter"), &ContainsFilter::new(sk()), bs, &kp, |k| sk().contains(k), show_p, &mut s)?;
        filter(&t("BoundedContainsFilter"), &BoundedContainsFilter::<Bx<N, D>, _>::new_bounded(sk()), bs, &kp, |k| sk().contains(k), show_p, &mut s)?;

        let salt = rng.next();
        joining(salt, &sb, bs, &w.kb, &mut s)?;
        joining(salt, &sp, bs, &w.kb, &mut s)?;
        joining(salt, &sl, bs, &w.kp, &mut s)?;
        joining(salt, &w.ks[i], bs, &w.kl, &mut s)?;
    }
    filter("NoFilter", &NoFilter, bs, &kb, |_| true, show_b, &mut s)?;
    filter("NoFilter", &NoFilter, bs, &kp, |_| true, show_p, &mut s)?;
    let e = <Bx<N, D> as rusty_rtree::bounds::Bounds>::empty();
    ensure!(SpatialFilter::<Bx<N, D>, ()>::test_bounds(&NoFilter, &e), "NoFilter prunes empty bounds");
    stats.add("matching_keys", s.matched);
    stats.add("rejected_keys", s.rejected);
    stats.add("pruned_bounds", s.pruned);
    if s.matched > 0 && s.pruned > 0 {
        stats.nontrivial(s.fp);
    }
    stats.sample(|| format!("{} in {D} dimensions: every provided filter over spaces such as {:?}, boxes such as {:?}", N::NAME, q.kl[0], bs[0]));
    Ok(())
}

fn ranks<N: Unit, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let m = rng.pick(&[2, 5, 20, 300, N::SQ]).min(N::sq(D));
    let w = world::<N, D>(rng, m);
    let mut s = Seen { matched: 0, rejected: 0, pruned: 0, fp: 7 };
    for i in 0..8 {
        let p: SVec<N, D> = if i < 4 { w.kp[i] } else { sv(&std::array::from_fn(|_| rng.range(-m, m))) };
        ranking(&p, &w.boxes, &own(&w.kp), |k| format!("{k:?}"), &mut s)?;
        ranking(&p, &w.boxes, &own(&w.kb), |k| format!("{k:?}"), &mut s)?;
    }
    stats.add("ranked_keys", s.matched);
    stats.nontrivial(s.fp);
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    macro_rules! dims {
        ($f:ident, $($t:ty),*) => { vec![$($f::<$t, 1> as fn(&mut Rng, &mut Stats) -> R, $f::<$t, 2>, $f::<$t, 3>, $f::<$t, 4>),*] };
    }
    if rng.chance(70) {
        let mut f = dims!(spaces, i8, i16, i32, N32, N64);
        f.extend([spaces::<i32, 5> as fn(&mut Rng, &mut Stats) -> R, spaces::<N64, 6>]);
        f[rng.below(f.len())](rng, stats)
    } else {
        let mut f = dims!(ranks, i8, i16, i32, i64, N32, N64);
        f.extend([ranks::<i32, 5> as fn(&mut Rng, &mut Stats) -> R, ranks::<i16, 6>, ranks::<N64, 7>]);
        f[rng.below(f.len())](rng, stats)
    }
}
