//! C25: vectors act coordinate by coordinate.
use crate::common::*;
use noisy_float::types::{n32, n64, N32, N64};
use rusty_rtree::vector::{SVec, Vector};
use std::fmt::Debug;

trait Num: Copy + Ord + Debug + num_traits::Bounded + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self> + std::ops::AddAssign {
    const NAME: &'static str;
    fn small(v: i64) -> Self;
    fn any(rng: &mut Rng) -> Self;
    /// the exact value of a small one
    fn back(self) -> i64;
    const SIGNED: bool;
}
macro_rules! int {
    ($($t:ty),*) => {$(impl Num for $t {
        const NAME: &'static str = stringify!($t);
        fn small(v: i64) -> Self { v as $t }
        fn any(rng: &mut Rng) -> Self {
            match rng.below(4) {
                0 => rng.pick(&[<$t>::MIN, <$t>::MAX, <$t>::MIN + 1, <$t>::MAX - 1, 0, 1]),
                1 => (rng.next() % 4) as $t,
                _ => rng.next() as $t,
            }
        }
        fn back(self) -> i64 { self as i64 }
        const SIGNED: bool = <$t>::MIN != 0;
    })*};
}
int!(i8, i16, i32, i64, u8, u16, u32, u64);
macro_rules! flt {
    ($($t:ty, $f:ty, $n:expr);*) => {$(impl Num for $t {
        const NAME: &'static str = stringify!($t);
        fn small(v: i64) -> Self { $n(v as $f) }
        fn any(rng: &mut Rng) -> Self {
            match rng.below(4) {
                0 => $n(rng.pick(&[<$f>::MIN, <$f>::MAX, <$f>::MIN_POSITIVE, 0.0, -1.0, <$f>::EPSILON])),
                1 => $n((rng.next() % 4) as $f),
                _ => $n((rng.range(-1 << 40, 1 << 40) as $f) / 1024.0),
            }
        }
        fn back(self) -> i64 { self.raw() as i64 }
        const SIGNED: bool = true;
    })*};
}
flt!(N32, f32, n32; N64, f64, n64);

fn go<N: Num, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let n = N::NAME;
    // order, minima, extremes: any coordinates
    let mut a: [N; D] = std::array::from_fn(|_| N::any(rng));
    let b: [N; D] = std::array::from_fn(|d| if rng.chance(40) { a[d] } else { N::any(rng) });
    if rng.chance(30) {
        a = std::array::from_fn(|d| a[d].min(b[d]));
    }
    let (va, vb) = (SVec(a), SVec(b));
    ensure!(va.all_le(&vb) == (0..D).all(|d| a[d] <= b[d]), "{n}: {va:?}.all_le({vb:?}) is {}", va.all_le(&vb));
    ensure!(va.all_ge(&vb) == (0..D).all(|d| a[d] >= b[d]), "{n}: {va:?}.all_ge({vb:?}) is {}", va.all_ge(&vb));
    let (lo, hi) = (va.componentwise_min(&vb), va.componentwise_max(&vb));
    ensure!((0..D).all(|d| lo.0[d] == a[d].min(b[d])), "{n}: the minimum of {va:?} and {vb:?} is {lo:?}");
    ensure!((0..D).all(|d| hi.0[d] == a[d].max(b[d])), "{n}: the maximum of {va:?} and {vb:?} is {hi:?}");
    let (mn, mx) = (SVec::<N, D>::min_value(), SVec::<N, D>::max_value());
    ensure!((0..D).all(|d| mn.0[d] == N::min_value() && mx.0[d] == N::max_value()), "{n}: extremes {mn:?} and {mx:?}");
    ensure!(mn.all_le(&va) && mx.all_ge(&va), "{n}: {va:?} is not between the extremes");
    ensure!((va == vb) == (a == b), "{n}: {va:?} == {vb:?} is {}", va == vb);
    ensure!(va.partial_cmp(&vb) == a.partial_cmp(&b), "{n}: the order of {va:?} and {vb:?}");
    ensure!(va.zip(&vb).len() == D && va.zip(&vb).enumerate().all(|(d, (x, y))| *x == a[d] && *y == b[d]), "{n}: zip of {va:?} and {vb:?}");
    ensure!((0..D).all(|d| va[d] == a[d]), "{n}: indexing {va:?}");
    let i = rng.below(D);
    let mut vc = va;
    vc[i] = b[i];
    ensure!((0..D).all(|d| vc[d] == if d == i { b[d] } else { a[d] }), "{n}: setting coordinate {i} of {va:?} gave {vc:?}");
    let mut seen = vec![];
    let m = va.into_map(|x| {
        seen.push(x);
        (x, seen.len())
    });
    ensure!((0..D).all(|d| m.0[d] == (a[d], d + 1)) && seen.len() == D, "{n}: into_map of {va:?}");
    ensure!(format!("{va:?}") == format!("{a:?}") && format!("{va:#?}") == format!("{a:#?}"), "{n}: {va:?} printed for {a:?}");
    // arithmetic: where it is exact
    let w = if n.ends_with('8') { if D > 2 { 4 } else { 7 } } else { 60 };
    let x: [i64; D] = std::array::from_fn(|_| rng.range(if N::SIGNED { -w } else { 0 }, w));
    let y: [i64; D] = std::array::from_fn(|d| if N::SIGNED { rng.range(-w, w) } else { rng.range(0, x[d]) });
    let (vx, vy) = (SVec(x.map(N::small)), SVec(y.map(N::small)));
    let sum = vx + vy;
    ensure!((0..D).all(|d| sum[d].back() == x[d] + y[d]), "{n}: {vx:?} + {vy:?} is {sum:?}");
    let dif = vx - vy;
    ensure!((0..D).all(|d| dif[d].back() == x[d] - y[d]), "{n}: {vx:?} - {vy:?} is {dif:?}");
    let mut s = vx;
    s += vy;
    ensure!(s == sum, "{n}: {vx:?} += {vy:?} made {s:?}");
    if D > 0 {
        let g = vx.sq_mag().back();
        ensure!(g == x.iter().map(|v| v * v).sum::<i64>(), "{n}: the squared magnitude of {vx:?} is {g}");
    }
    stats.add("vectors", 4);
    let fp = x.iter().chain(&y).fold(D as u64, |f, v| mix2(f, *v as u64));
    if D > 1 {
        stats.nontrivial(mix2(fp, n.len() as u64));
    }
    stats.sample(|| format!("{n}, {D} dimensions: {va:?}, {vb:?}; {vx:?}, {vy:?}"));
    Ok(())
}

fn dims<N: Num>(rng: &mut Rng, stats: &mut Stats) -> R {
    match rng.below(5) {
        0 => go::<N, 1>(rng, stats),
        1 => go::<N, 2>(rng, stats),
        2 => go::<N, 3>(rng, stats),
        3 => go::<N, 4>(rng, stats),
        _ => go::<N, 7>(rng, stats),
    }
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    match rng.below(10) {
        0 => dims::<i8>(rng, stats),
        1 => dims::<i16>(rng, stats),
        2 => dims::<i32>(rng, stats),
        3 => dims::<i64>(rng, stats),
        4 => dims::<u8>(rng, stats),
        5 => dims::<u16>(rng, stats),
        6 => dims::<u32>(rng, stats),
        7 => dims::<u64>(rng, stats),
        8 => dims::<N32>(rng, stats),
        _ => dims::<N64>(rng, stats),
    }
}
