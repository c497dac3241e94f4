//! C16: axis-aligned boxes form an exact set algebra. Every predicate is compared with integer arithmetic.
use crate::common::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::*;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::{SVec, Vector};
use std::fmt::Debug;

/// A scalar and its exact image, in order.
pub trait Exact: Copy + Ord + Debug + num_traits::Bounded + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> {
    const NAME: &'static str;
    fn any(rng: &mut Rng) -> Self;
    /// A value near another.
    fn near(self, rng: &mut Rng) -> Self;
}
macro_rules! exact_int {
    ($($t:ident),*) => {$(
        impl Exact for $t {
            const NAME: &'static str = stringify!($t);
            fn any(rng: &mut Rng) -> $t {
                match rng.below(6) {
                    0 => rng.pick(&[$t::MIN, $t::MIN + 1, $t::MAX, $t::MAX - 1, 0, 1]),
                    1 => rng.below(6) as $t,
                    2 => (0 as $t).wrapping_sub(rng.below(6) as $t),
                    3 => ($t::MAX / 2).wrapping_add(rng.below(4) as $t),
                    _ => rng.next() as $t,
                }
            }
            fn near(self, rng: &mut Rng) -> $t {
                match rng.below(4) {
                    0 => self.saturating_add(1),
                    1 => self.saturating_sub(1),
                    _ => self,
                }
            }
        }
    )*};
}
exact_int!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, i128, u128);
macro_rules! exact_float {
    ($($t:ident $f:ident $mk:path),*) => {$(
        impl Exact for $t {
            const NAME: &'static str = stringify!($t);
            fn any(rng: &mut Rng) -> $t {
                $mk(match rng.below(6) {
                    0 => rng.pick(&[0.0, -0.0, 1.0, -1.0, $f::MIN_POSITIVE, -$f::MIN_POSITIVE, 1e30, -1e30, $f::EPSILON]),
                    1 => rng.range(-8, 8) as $f / 4.0,
                    2 => rng.range(-1000, 1000) as $f * 1e-3,
                    3 => rng.pick(&[$f::MAX, $f::MIN, $f::MAX / 2.0, $f::MIN / 2.0]),
                    _ => (rng.next() as i64 as f64 * 1e-12) as $f,
                })
            }
            fn near(self, rng: &mut Rng) -> $t {
                let v = self.raw();
                match rng.below(4) {
                    0 => $mk(v.next_up().min($f::MAX)),
                    1 => $mk(v.next_down().max($f::MIN)),
                    _ => self,
                }
            }
        }
    )*};
}
exact_float!(N32 f32 noisy_float::types::n32, N64 f64 noisy_float::types::n64);

type Bx<N, const D: usize> = SAABB<N, D>;

fn gen<N: Exact, const D: usize>(rng: &mut Rng, pool: &[N], inverted: bool) -> Bx<N, D> {
    let mut b = AABB { min: SVec([N::min_value(); D]), max: SVec([N::min_value(); D]) };
    for d in 0..D {
        let (x, y) = (rng.pick(pool).near(rng), rng.pick(pool).near(rng));
        let (x, y) = if x <= y || inverted { (x, y) } else { (y, x) };
        b.min.0[d] = x;
        b.max.0[d] = y;
    }
    b
}

fn algebra<N: Exact, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let pool: Vec<N> = if rng.chance(50) {
        let a = N::any(rng);
        (0..4).map(|i| if i == 0 { a } else { N::any(rng) }).collect()
    } else {
        (0..12).map(|_| N::any(rng)).collect()
    };
    let inv = rng.chance(15);
    let mut bs: Vec<Bx<N, D>> = (0..7).map(|_| gen(rng, &pool, inv)).collect();
    // in many dimensions, boxes that have nothing to do with each other are almost always apart
    for i in 1..7 {
        if rng.chance(if D > 3 { 60 } else { 20 }) {
            bs[i] = bs[rng.below(i)];
            let (d, x) = (rng.below(D), rng.pick(&pool).near(rng));
            let b = &mut bs[i];
            if rng.chance(50) { b.min.0[d] = x } else { b.max.0[d] = x }
            if b.min.0[d] > b.max.0[d] && !inv {
                (b.min.0[d], b.max.0[d]) = (b.max.0[d], b.min.0[d]);
            }
        }
    }
    let ps: Vec<SVec<N, D>> = (0..7)
        .map(|_| {
            let b = bs[rng.below(7)];
            let odd = if D > 3 && rng.chance(60) { rng.below(D) } else { D };
            SVec(std::array::from_fn(|d| match rng.below(if odd < D && odd != d { 2 } else { 4 }) {
                0 => b.min.0[d],
                1 => b.max.0[d],
                2 => b.min.0[d].near(rng),
                _ => rng.pick(&pool),
            }))
        })
        .collect();
    let e = Bx::<N, D>::empty();
    let nm = N::NAME;
    let (mut yes, mut no) = (0u64, 0u64);
    let mut fp = 5;
    macro_rules! agree {
        ($want:expr, $got:expr, $($a:tt)*) => {{
            let (w, g) = ($want, $got);
            if w { yes += 1 } else { no += 1 }
            fp = mix2(fp, w as u64);
            ensure!(w == g, "{nm}: {} is {g}, exactly it is {w}", format!($($a)*));
        }};
    }
    for a in &bs {
        for p in &ps {
            let w = (0..D).all(|d| a.min.0[d] <= p.0[d] && p.0[d] <= a.max.0[d]);
            agree!(w, Contains::<SVec<N, D>>::contains(a, p), "{a:?} contains {p:?}");
            agree!(w, Intersects::<SVec<N, D>>::intersects(a, p), "{a:?} intersects {p:?}");
            agree!(w, Intersects::<Bx<N, D>>::intersects(p, a), "{p:?} intersects {a:?}");
            let pb: Bx<N, D> = p.bounds();
            ensure!(pb.min.0 == p.0 && pb.max.0 == p.0, "{nm}: the bounds of {p:?} are {pb:?}");
        }
        for b in &bs {
            let w = (0..D).all(|d| a.min.0[d] <= b.min.0[d] && b.max.0[d] <= a.max.0[d]);
            agree!(w, Contains::<Bx<N, D>>::contains(a, b), "{a:?} contains {b:?}");
            let w = (0..D).all(|d| a.min.0[d] <= b.max.0[d] && b.min.0[d] <= a.max.0[d]);
            agree!(w, Intersects::<Bx<N, D>>::intersects(a, b), "{a:?} intersects {b:?}");
            let u = Bx::<N, D>::union(a, b);
            for d in 0..D {
                ensure!(
                    u.min.0[d] == a.min.0[d].min(b.min.0[d]) && u.max.0[d] == a.max.0[d].max(b.max.0[d]),
                    "{nm}: the union of {a:?} and {b:?} is {u:?}"
                );
            }
            ensure!((a == b) == (a.min.0 == b.min.0 && a.max.0 == b.max.0), "{nm}: {a:?} == {b:?} is {}", a == b);
        }
        agree!(true, Contains::<Bx<N, D>>::contains(a, &e), "{a:?} contains the empty box");
        let u = (Bx::<N, D>::union(a, &e), Bx::<N, D>::union(&e, a));
        ensure!(u.0 == *a && u.1 == *a, "{nm}: the union of {a:?} with the empty box is {:?} and {:?}", u.0, u.1);
        let b: Bx<N, D> = Bounded::<Bx<N, D>>::bounds(a);
        ensure!(b == *a, "{nm}: the bounds of {a:?} are {b:?}");
    }
    // the fold, of any number of boxes
    let n = rng.below(bs.len() + 1);
    let u = Bx::<N, D>::union_all(bs[..n].iter().copied());
    let mut w = e;
    for b in &bs[..n] {
        for d in 0..D {
            w.min.0[d] = w.min.0[d].min(b.min.0[d]);
            w.max.0[d] = w.max.0[d].max(b.max.0[d]);
        }
    }
    ensure!(u == w, "{nm}: the union of {:?} is {u:?}, not {w:?}", &bs[..n]);
    for b in &bs[..n] {
        ensure!(Contains::<Bx<N, D>>::contains(&u, b), "{nm}: the union of {:?} does not contain {b:?}", &bs[..n]);
    }
    stats.add("predicates_true", yes);
    stats.add("predicates_false", no);
    stats.add("unions", 50);
    if yes > 0 && no > 0 {
        stats.nontrivial(mix2(fp, mix2(yes, no) ^ rng.next()));
    }
    stats.sample(|| format!("{nm}, {D} dimensions: 7 boxes {:?}.. against 7 points {:?}.. and each other", bs[0], ps[0]));
    Ok(())
}

/// Volumes, for scalars that convert to f64.
fn volume<N: Exact + Into<f64>, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let pool: Vec<N> = (0..10).map(|_| N::any(rng)).collect();
    for _ in 0..12 {
        let b = gen::<N, D>(rng, &pool, false);
        let sides: Vec<f64> = (0..D)
            .map(|d| {
                let (l, h): (f64, f64) = (b.min.0[d].into(), b.max.0[d].into());
                h - l
            })
            .collect();
        let w: f64 = sides.iter().product();
        // in any order of multiplication it must be finite
        let big: f64 = sides.iter().map(|s| s.max(1.0)).product();
        // and not lose digits by being tiny
        let small: f64 = sides.iter().map(|s| if *s > 0.0 { s.min(1.0) } else { 1.0 }).product();
        if !big.is_finite() || sides.iter().any(|s| !s.is_finite()) || small < 1e-290 {
            continue;
        }
        let v = b.volume().raw();
        // differences of N32 may be rounded to N32
        let rel = if N::NAME == "N32" { 1e-5 } else { 1e-9 };
        let tol = rel * w.abs() + 1e-290;
        ensure!((v - w).abs() <= tol, "{}: the volume of {b:?} is {v}, not {w}", N::NAME);
        ensure!(sides.iter().all(|s| *s > 0.0) || v == 0.0, "{}: the volume of the flat {b:?} is {v}", N::NAME);
        ensure!(v >= 0.0, "{}: the volume of {b:?} is {v}", N::NAME);
        stats.add("volumes", 1);
        if w > 0.0 {
            stats.nontrivial(mix(w.to_bits()));
        }
    }
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    macro_rules! dims {
        ($f:ident, $($t:ty),*) => { [$($f::<$t, 1> as fn(&mut Rng, &mut Stats) -> R, $f::<$t, 2>, $f::<$t, 3>, $f::<$t, 4>, $f::<$t, 5>, $f::<$t, 6>, $f::<$t, 8>, $f::<$t, 11>),*] };
    }
    if rng.chance(75) {
        let f = dims!(algebra, i8, u8, i16, u16, i32, u32, i64, u64, isize, usize, i128, u128, N32, N64);
        let f = f[rng.below(f.len())];
        f(rng, stats)
    } else {
        let f = dims!(volume, i8, u8, i16, u16, i32, u32, N32, N64);
        let f = f[rng.below(f.len())];
        f(rng, stats)
    }
}
