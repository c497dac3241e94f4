//! C17: lines, rays, spheres and distances, compared with exact rational arithmetic on integer coordinates.
use crate::common::*;
use crate::geo::*;
use noisy_float::types::{n32, n64, N32, N64};
use rusty_rtree::bounds::{Bounded, AABB, SAABB};
use rusty_rtree::geom::{line::Line, ray::Ray, sphere::Sphere};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::{EuclideanDistanceRanking, PointDistance, Ranking};
use rusty_rtree::vector::{SVec, Vector};
use std::fmt::Debug;
use std::ops::{Add, AddAssign, Mul, Sub};

/// A scalar that represents `i` units exactly, for |i| <= MAX.
pub trait Unit: Copy + Ord + Debug + num_traits::Bounded + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + AddAssign {
    const NAME: &'static str;
    /// Largest coordinate of a line, ray or sphere.
    const MAX: i64;
    /// Largest coordinate such that squared distances in four dimensions are representable.
    const SQ: i64;
    /// Units per 1.0, and the relative error allowed in sums of squares.
    const PER: f64;
    const TOL: f64;
    /// The same in so many dimensions.
    fn sq(dims: usize) -> i64 {
        if dims <= 4 { Self::SQ } else { Self::SQ / 2 }
    }
    fn of(i: i64) -> Self;
    fn f(self) -> f64;
}
macro_rules! unit {
    ($($t:ident $max:expr, $sq:expr, $per:expr, $tol:expr, $of:expr, $f:expr;)*) => {$(
        impl Unit for $t {
            const NAME: &'static str = stringify!($t);
            const MAX: i64 = $max;
            const SQ: i64 = $sq;
            const PER: f64 = $per;
            const TOL: f64 = $tol;
            fn of(i: i64) -> Self { ($of)(i) }
            fn f(self) -> f64 { ($f)(self) }
        }
    )*};
}
unit! {
    i8 60, 2, 1.0, 0.0, |i| i as i8, |v| v as f64;
    i16 8000, 40, 1.0, 0.0, |i| i as i16, |v| v as f64;
    i32 1 << 20, 10000, 1.0, 0.0, |i| i as i32, |v| v as f64;
    i64 1 << 20, 1 << 29, 1.0, 0.0, |i| i, |v| v as f64;
    N32 1 << 20, 1 << 20, 4.0, 1e-5, |i| n32(i as f32 / 4.0), |v: N32| v.raw() as f64;
    N64 1 << 20, 1 << 30, 4.0, 1e-12, |i| n64(i as f64 / 4.0), |v: N64| v.raw();
}

fn sv<N: Unit, const D: usize>(p: &[i64; D]) -> SVec<N, D> {
    SVec(p.map(N::of))
}
/// The same, with some zeros negative where the type has such.
fn svz<N: Unit, const D: usize>(rng: &mut Rng, p: &[i64; D]) -> SVec<N, D> {
    let c = rng.pick(&[0u32, 0, 50, 100]);
    SVec(p.map(|i| if i == 0 && c > 0 && rng.chance(c) { N::of(0) * N::of(-1) } else { N::of(i) }))
}
fn bx<N: Unit, const D: usize>(lo: &[i64; D], hi: &[i64; D]) -> SAABB<N, D> {
    AABB { min: sv(lo), max: sv(hi) }
}
fn span(rng: &mut Rng, max: i64) -> i64 {
    let m = rng.pick(&[2, 4, 8, 12, 40, 1000, max]);
    m.min(max)
}
fn pt<const D: usize>(rng: &mut Rng, m: i64) -> [i64; D] {
    std::array::from_fn(|_| rng.range(-m, m))
}
fn corners<const D: usize>(rng: &mut Rng, m: i64) -> ([i64; D], [i64; D]) {
    let (mut lo, mut hi) = (pt(rng, m), pt(rng, m));
    let flat = rng.pick(&[0u32, 10, 60]);
    for d in 0..D {
        if lo[d] > hi[d] {
            (lo[d], hi[d]) = (hi[d], lo[d]);
        }
        if rng.chance(flat) {
            hi[d] = lo[d];
        }
    }
    (lo, hi)
}
/// A point on, in or near the box, or anywhere.
fn by_box<const D: usize>(rng: &mut Rng, lo: &[i64; D], hi: &[i64; D], m: i64) -> [i64; D] {
    let on = rng.pick(&[0u32, 40, 90, 100]);
    std::array::from_fn(|d| {
        if rng.chance(on) {
            match rng.below(6) {
                0 | 1 => lo[d],
                2 | 3 => hi[d],
                4 => rng.range(lo[d], hi[d]),
                _ => (rng.pick(&[lo[d], hi[d]]) + rng.range(-1, 1)).clamp(-m, m),
            }
        } else {
            rng.range(-m, m)
        }
    })
}

/// A segment or ray, given by two points, against a box.
fn straight<N: Unit + Into<f64>, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let mut fp = 1;
    let m = span(rng, N::MAX);
    for _ in 0..256 {
        let (lo, hi) = corners::<D>(rng, m);
        let mut o = by_box(rng, &lo, &hi, m);
        let mut e = by_box(rng, &lo, &hi, m);
        let axis = rng.pick(&[0u32, 0, 40, 80]);
        for d in 0..D {
            if rng.chance(axis) {
                e[d] = o[d];
            }
        }
        if rng.chance(25) {
            // through a chosen point of the box's boundary
            let c = by_box(rng, &lo, &hi, m);
            for d in 0..D {
                let k = e[d] - o[d];
                let (a, b) = (c[d] - k.signum() * k.abs().min(3), c[d] + k.signum() * k.abs().min(3));
                o[d] = a.clamp(-m, m);
                e[d] = b.clamp(-m, m);
            }
        }
        let dl: [i64; D] = std::array::from_fn(|d| e[d] - o[d]);
        let b: SAABB<N, D> = AABB { min: svz(rng, &lo), max: svz(rng, &hi) };
        let (so, se): (SVec<N, D>, SVec<N, D>) = (svz(rng, &o), svz(rng, &e));
        let line = Line(so, se);
        let want = seg_box(&o, &dl, &lo, &hi, false);
        for (side, got) in [("line meets box", line.intersects(&b)), ("box meets line", b.intersects(&line))] {
            ensure!(want.agrees(got), "{}: {side} says {got}, exactly it is {want:?}: {line:?}, {b:?}", N::NAME);
        }
        let back = Line(se, so).intersects(&b);
        let bw = seg_box(&e, &dl.map(|v| -v), &lo, &hi, false);
        ensure!(bw.agrees(back), "{}: the reversed line meets box: {back}, exactly it is {bw:?}: {line:?}, {b:?}", N::NAME);
        let rw = seg_box(&o, &dl, &lo, &hi, true);
        let ray = Ray { origin: so, n: svz(rng, &dl) };
        for (side, got) in [("ray meets box", ray.intersects(&b)), ("box meets ray", b.intersects(&ray))] {
            ensure!(rw.agrees(got), "{}: {side} says {got}, exactly it is {rw:?}: origin {so:?}, direction {:?}, {b:?}", N::NAME, ray.n);
        }
        let away = seg_box(&o, &dl.map(|v| -v), &lo, &hi, true);
        let got = Ray { origin: so, n: svz::<N, D>(rng, &dl.map(|v| -v)) }.intersects(&b);
        ensure!(away.agrees(got), "{}: a ray meets box: {got}, exactly it is {away:?}: origin {so:?}, away from {:?}, {b:?}", N::NAME, ray.n);
        for w in [want, bw, rw, away] {
            stats.add(
                match w {
                    Tri::Yes => "straight_hits",
                    Tri::No => "straight_misses",
                    Tri::Touch => "straight_undecided_touches",
                },
                1,
            );
        }
        if want == Tri::No && rw == Tri::Yes {
            stats.add("boxes_past_the_end_of_the_line", 1);
        }
        if rw == Tri::No && away == Tri::Yes {
            stats.add("boxes_behind_the_ray", 1);
        }
        if dl.contains(&0) {
            stats.add("axis_parallel", 1);
        }
        let lb: AABB<SVec<N, D>> = line.bounds();
        for d in 0..D {
            ensure!(
                lb.min.0[d] == N::of(o[d].min(e[d])) && lb.max.0[d] == N::of(o[d].max(e[d])),
                "{}: the bounds of {line:?} are {lb:?}",
                N::NAME
            );
        }
        ensure!(line.delta().0 == dl.map(N::of), "{}: the delta of {line:?} is {:?}", N::NAME, line.delta());
        let w = pt_pt(&o, &e) as f64 / (N::PER * N::PER);
        let g = line.sq_len();
        ensure!((g - w).abs() <= w * 1e-12, "{}: the squared length of {line:?} is {g}, not {w}", N::NAME);
        let g = line.len();
        ensure!((g - w.sqrt()).abs() <= w.sqrt() * 1e-12, "{}: the length of {line:?} is {g}, not {}", N::NAME, w.sqrt());
        fp = mix2(fp, mix2(mix2(pt_pt(&o, &e) as u64, pt_box(&o, &lo, &hi) as u64), mix2(want as u64, rw as u64 + 4 * away as u64)));
    }
    stats.nontrivial(fp);
    stats.sample(|| format!("{} in {D} dimensions: 256 lines and rays within {m} units of the origin", N::NAME));
    Ok(())
}

/// The largest coordinate (in units) of rays and boxes far apart, the largest step of a ray that goes so far (so that
/// rounding cannot blur different parameters), and the largest radius whose square, and a little more, is exact.
fn far_limits<N: Unit>() -> (i64, i64, i64) {
    match N::NAME {
        "i8" => (60, 60, 60),
        "i16" => (16000, 1000, 16000),
        "i32" => ((1 << 30) - 1, 100, 94_000_000),
        "N32" => (1 << 22, 100, 1 << 21),
        _ => (1 << 40, 7, 94_000_000),
    }
}

/// Rays that go far in small steps, and lines and rays of great length beside a small box.
fn far<N: Unit + Into<f64>, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let mut fp = 3;
    let (max, step, _) = far_limits::<N>();
    for _ in 0..128 {
        let small = rng.pick(&[1, 3, 10, step]).min(step);
        let (o, dl, lo, hi, line);
        if rng.chance(60) {
            // aimed at some point n steps away, and a box about there
            dl = pt::<D>(rng, small);
            let most = max / dl.iter().map(|d| d.abs()).max().unwrap().max(1);
            let n = match rng.below(3) {
                0 => most,
                1 => rng.range(0, most),
                _ => {
                    let top = 1 << rng.below(41);
                    rng.range(0, top).min(most)
                }
            };
            let back = rng.chance(50);
            o = dl.map(|d| if back { -(d * n) / 2 } else { rng.range(-small, small) });
            let at: [i64; D] = std::array::from_fn(|d| (o[d] + dl[d] * if back { n } else { n / 2 }).clamp(-max, max));
            let w = rng.pick(&[0, 1, 5, max]).min(max);
            lo = at.map(|a| (a - rng.range(0, w) + rng.range(-1, 1)).clamp(-max, max));
            hi = std::array::from_fn(|d| (at[d] + rng.range(0, w) + rng.range(-1, 1)).clamp(lo[d], max));
            line = false;
        } else {
            (lo, hi) = corners::<D>(rng, small);
            o = by_box::<D>(rng, &lo, &hi, small);
            dl = std::array::from_fn(|_| match rng.below(4) {
                0 => 0,
                1 => rng.pick(&[-1, 1]) * (max - small),
                2 => rng.range(-small, small),
                _ => rng.range(small - max, max - small),
            });
            line = true;
        }
        let b: SAABB<N, D> = AABB { min: svz(rng, &lo), max: svz(rng, &hi) };
        let ray = Ray { origin: svz::<N, D>(rng, &o), n: svz::<N, D>(rng, &dl) };
        let want = seg_box(&o, &dl, &lo, &hi, true);
        for got in [ray.intersects(&b), b.intersects(&ray)] {
            ensure!(want.agrees(got), "{}: ray meets box: {got}, exactly it is {want:?}: origin {:?}, direction {:?}, {b:?}", N::NAME, ray.origin, ray.n);
        }
        stats.add(if want == Tri::Yes { "far_ray_hits" } else { "far_ray_misses" }, 1);
        if line {
            let l = Line(sv::<N, D>(&o), sv::<N, D>(&std::array::from_fn(|d| o[d] + dl[d])));
            let want = seg_box(&o, &dl, &lo, &hi, false);
            for got in [l.intersects(&b), b.intersects(&l)] {
                ensure!(want.agrees(got), "{}: line meets box: {got}, exactly it is {want:?}: {l:?}, {b:?}", N::NAME);
            }
            stats.add(if want == Tri::Yes { "long_line_hits" } else { "long_line_misses" }, 1);
        }
        fp = mix2(fp, mix2(want as u64, pt_box(&o, &lo, &hi) as u64));
    }
    stats.nontrivial(fp);
    Ok(())
}

fn sphere<N: Unit + Into<f64>, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let mut fp = 1;
    let m = span(rng, N::MAX);
    for _ in 0..256 {
        let c: [i64; D] = pt(rng, m);
        let (mut c, mut r) = (c, match rng.below(4) {
            0 => 0,
            1 => rng.range(0, 5.min(m)),
            _ => rng.range(0, m),
        });
        let mut p = pt::<D>(rng, m);
        let big = rng.chance(15);
        if big {
            // so big that one unit more or less hardly changes the distance
            r = rng.pick(&[1, 1, 2, 16]) * rng.range(0, far_limits::<N>().2) / 16;
            r = if rng.chance(50) { far_limits::<N>().2 - r % 1000 } else { r };
            c = pt(rng, 3);
            p = c;
            let d = rng.below(D);
            p[d] += rng.pick(&[-1, 1]) * (r + rng.pick(&[-1, 0, 0, 0, 1]));
            for (e, x) in p.iter_mut().enumerate() {
                if e != d {
                    *x += rng.range(-1, 1);
                }
            }
            if rng.chance(10) {
                (r, p) = (rng.range(0, r), pt(rng, r.max(5).min(1 << 20)));
            }
        }
        match rng.below(4) {
            _ if big => {}
            // just inside, on and outside, along an axis
            0 => {
                p = c;
                let d = rng.below(D);
                let s = rng.pick(&[-1, 1]);
                p[d] = (c[d] + s * (r + rng.range(-1, 1))).clamp(-N::MAX, N::MAX);
            }
            // on the surface, by Pythagoras
            1 if D >= 2 => {
                p = c;
                let k = (r / 5).min(N::MAX / 8);
                p[0] = (c[0] + 3 * k).clamp(-N::MAX, N::MAX);
                p[1] = (c[1] - 4 * k + rng.range(-1, 1)).clamp(-N::MAX, N::MAX);
            }
            2 => {
                for d in 0..D {
                    p[d] = (c[d] + rng.range(-r - 1, r + 1)).clamp(-m, m);
                }
            }
            _ => {}
        }
        let want = pt_pt(&c, &p) <= sq(r as i128);
        let s = Sphere::<N, D> { center: sv(&c), radius: N::of(r) };
        let q: SVec<N, D> = sv(&p);
        for (side, got) in [("sphere meets point", s.intersects(&q)), ("point meets sphere", Intersects::<Sphere<N, D>>::intersects(&q, &s))] {
            ensure!(got == want, "{}: {side} says {got}: center {:?}, radius {:?}, point {q:?}", N::NAME, s.center, s.radius);
        }
        stats.add(if want { "sphere_hits" } else { "sphere_misses" }, 1);
        if pt_pt(&c, &p) == sq(r as i128) {
            stats.add("points_on_the_surface", 1);
        }
        let b: SAABB<N, D> = s.bounds();
        for d in 0..D {
            ensure!(
                b.min.0[d] == N::of(c[d] - r) && b.max.0[d] == N::of(c[d] + r),
                "{}: the bounds of the sphere at {:?} of radius {:?} are {b:?}",
                N::NAME,
                s.center,
                s.radius
            );
        }
        fp = mix2(fp, mix2(pt_pt(&c, &p) as u64, r as u64 * 2 + want as u64));
    }
    stats.nontrivial(fp);
    Ok(())
}

/// `got` against `want` square units, zero exactly when it should be.
fn near<N: Unit>(got: N, want: i128) -> bool {
    let w = want as f64 / (N::PER * N::PER);
    let g = got.f();
    if want == 0 {
        g == 0.0
    } else if N::TOL == 0.0 {
        got == N::of(want as i64)
    } else {
        (g - w).abs() <= w * N::TOL && g > 0.0
    }
}

fn dist<N: Unit, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R {
    let mut fp = 1;
    let m = span(rng, N::sq(D));
    for _ in 0..256 {
        let (lo, hi) = corners::<D>(rng, m);
        let p = by_box(rng, &lo, &hi, m);
        let q = if rng.chance(15) { p } else { by_box(rng, &lo, &hi, m) };
        let b: SAABB<N, D> = bx(&lo, &hi);
        let (sp, sq_): (SVec<N, D>, SVec<N, D>) = (sv(&p), sv(&q));
        let w = pt_pt(&p, &q);
        let g: N = sp.dist_sq(&sq_);
        ensure!(near(g, w), "{}: the squared distance from {sp:?} to {sq_:?} is {g:?}, exactly {w} square units", N::NAME);
        let w2 = pt_box(&p, &lo, &hi);
        let g: N = b.dist_sq(&sp);
        ensure!(near(g, w2), "{}: the squared distance from {b:?} to {sp:?} is {g:?}, exactly {w2} square units", N::NAME);
        let rk = EuclideanDistanceRanking::<SVec<N, D>, N>::new(sp);
        let g: N = Ranking::<SAABB<N, D>, SVec<N, D>>::bounds_min(&rk, &b);
        ensure!(near(g, w2), "{}: the ranking puts {b:?} at {g:?} from {sp:?}, exactly {w2} square units", N::NAME);
        let g: N = Ranking::<SAABB<N, D>, SVec<N, D>>::rank_key(&rk, &sq_);
        ensure!(near(g, w), "{}: the ranking puts {sq_:?} at {g:?} from {sp:?}, exactly {w} square units", N::NAME);
        let g = sp.sq_mag();
        let w3 = pt_pt(&p, &[0; D]);
        ensure!(near(g, w3), "{}: the squared magnitude of {sp:?} is {g:?}, exactly {w3} square units", N::NAME);
        let (add, sub) = (sp + sq_, sp - sq_);
        let mut acc = sp;
        acc += sq_;
        for d in 0..D {
            ensure!(add.0[d] == N::of(p[d] + q[d]), "{}: {sp:?} + {sq_:?} is {add:?}", N::NAME);
            ensure!(acc.0[d] == N::of(p[d] + q[d]), "{}: {sp:?} += {sq_:?} gives {acc:?}", N::NAME);
            ensure!(sub.0[d] == N::of(p[d] - q[d]), "{}: {sp:?} - {sq_:?} is {sub:?}", N::NAME);
        }
        stats.add(if w2 == 0 { "point_box_contacts" } else { "point_box_gaps" }, 1);
        fp = mix2(fp, mix2(w as u64, mix2(w2 as u64, w3 as u64)));
    }
    stats.nontrivial(fp);
    Ok(())
}

/// Distances between boxes, over the whole range of the scalar.
trait Wide: Copy + Debug + Sub<Output = Self> + Into<f64> {
    const NAME: &'static str;
    const LO: i64;
    const HI: i64;
    const PER: f64;
    fn of(i: i64) -> Self;
}
macro_rules! wide {
    ($($t:ident $lo:expr, $hi:expr, $per:expr, $of:expr;)*) => {$(
        impl Wide for $t {
            const NAME: &'static str = stringify!($t);
            const LO: i64 = $lo as i64;
            const HI: i64 = $hi as i64;
            const PER: f64 = $per;
            fn of(i: i64) -> Self { ($of)(i) }
        }
    )*};
}
wide! {
    i8 i8::MIN, i8::MAX, 1.0, |i| i as i8;
    u8 u8::MIN, u8::MAX, 1.0, |i| i as u8;
    i16 i16::MIN, i16::MAX, 1.0, |i| i as i16;
    u16 u16::MIN, u16::MAX, 1.0, |i| i as u16;
    i32 i32::MIN, i32::MAX, 1.0, |i| i as i32;
    u32 u32::MIN, u32::MAX, 1.0, |i| i as u32;
    N32 -(1 << 24), 1 << 24, 4.0, |i| n32(i as f32 / 4.0);
    N64 -(1i64 << 40), 1i64 << 40, 4.0, |i| n64(i as f64 / 4.0);
}
fn gap<N: Wide, const D: usize>(rng: &mut Rng, stats: &mut Stats) -> R
where
    SVec<N, D>: Debug,
{
    let mut fp = 2;
    for _ in 0..256 {
        let (base, m) = match rng.below(4) {
            0 => (N::LO, 6),
            1 => (N::HI - 6, 6),
            2 => (N::LO, N::HI - N::LO),
            _ => (N::LO / 2 + N::HI / 2, 12),
        };
        let mut one = || {
            let mut lo: [i64; D] = std::array::from_fn(|_| base + rng.range(0, m));
            let mut hi: [i64; D] = std::array::from_fn(|_| base + rng.range(0, m));
            for d in 0..D {
                if rng.chance(15) {
                    (lo[d], hi[d]) = match rng.below(4) {
                        0 => (N::LO, N::LO),
                        1 => (N::HI, N::HI),
                        2 => (N::LO, N::HI),
                        _ => (hi[d], hi[d]),
                    }
                }
                if lo[d] > hi[d] {
                    (lo[d], hi[d]) = (hi[d], lo[d]);
                }
            }
            (lo, hi)
        };
        let (a, mut b) = (one(), one());
        if rng.chance(25) {
            // touching, or one unit apart
            let d = rng.below(D);
            let v = (a.1[d] + rng.range(0, 1)).min(N::HI);
            let w = b.1[d] - b.0[d];
            b.0[d] = v;
            b.1[d] = (v + w).min(N::HI);
        }
        let mk = |b: &([i64; D], [i64; D])| SAABB::<N, D> { min: SVec(b.0.map(N::of)), max: SVec(b.1.map(N::of)) };
        let (ba, bb) = (mk(&a), mk(&b));
        let exact = box_box((&a.0, &a.1), (&b.0, &b.1));
        let w = exact as f64 / (N::PER * N::PER);
        for (x, y) in [(&ba, &bb), (&bb, &ba)] {
            let g = x.sq_dist_to(y).raw();
            ensure!((g - w).abs() <= w * 1e-9, "{}: the squared distance from {x:?} to {y:?} is {g}, not {w}", N::NAME);
            ensure!(exact == 0 || g > 0.0, "{}: the squared distance from {x:?} to {y:?} is {g}", N::NAME);
        }
        stats.add(if exact == 0 { "box_box_contacts" } else { "box_box_gaps" }, 1);
        fp = mix2(fp, mix(exact as u64));
    }
    stats.nontrivial(fp);
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    macro_rules! dims {
        ($f:ident, $($t:ty),*) => { [$($f::<$t, 1> as fn(&mut Rng, &mut Stats) -> R, $f::<$t, 2>, $f::<$t, 3>, $f::<$t, 4>, $f::<$t, 5>, $f::<$t, 7>),*] };
    }
    match rng.below(8) {
        0..=2 => {
            let f = dims!(straight, i8, i16, i32, N32, N64);
            f[rng.below(f.len())](rng, stats)
        }
        3 => {
            let f = dims!(far, i8, i16, i32, N32, N64);
            f[rng.below(f.len())](rng, stats)
        }
        4 => {
            let f = dims!(sphere, i8, i16, i32, N32, N64);
            f[rng.below(f.len())](rng, stats)
        }
        5 | 6 => {
            let f = dims!(dist, i8, i16, i32, i64, N32, N64);
            f[rng.below(f.len())](rng, stats)
        }
        _ => {
            let f = dims!(gap, i8, u8, i16, u16, i32, u32, N32, N64);
            f[rng.below(f.len())](rng, stats)
        }
    }
}
