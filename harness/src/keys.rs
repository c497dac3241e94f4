//! Key plans (where keys lie) and scenarios (which key, bounds and scalar types a tree has).
use crate::common::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume, AABB, SAABB};
use rusty_rtree::contains::Contains;
use rusty_rtree::geom::line::Line;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::vector::SVec;
use rusty_rtree::{RTree, RTreeConfig};
use std::borrow::Borrow;
use std::fmt::Debug;
use std::ops::{Add, Sub};

pub trait Coord:
    Copy + Ord + Debug + Add<Output = Self> + Sub<Output = Self> + num_traits::Bounded + Into<f64> + Send + Sync + 'static
{
    const LO: i64;
    const HI: i64;
    const NAME: &'static str;
    fn of(v: i64) -> Self;
    fn to(self) -> i64;
}
macro_rules! int_coord {
    ($($t:ident),*) => {$(
        impl Coord for $t {
            const LO: i64 = $t::MIN as i64;
            const HI: i64 = $t::MAX as i64;
            const NAME: &'static str = stringify!($t);
            fn of(v: i64) -> Self { $t::try_from(v).unwrap() }
            fn to(self) -> i64 { self as i64 }
        }
    )*};
}
int_coord!(i8, u8, i16, u16, i32, u32);
impl Coord for N32 {
    const LO: i64 = -(1 << 24);
    const HI: i64 = 1 << 24;
    const NAME: &'static str = "N32";
    fn of(v: i64) -> Self {
        noisy_float::types::n32(v as f32 / 4.0)
    }
    fn to(self) -> i64 {
        (self.raw() * 4.0) as i64
    }
}
impl Coord for N64 {
    const LO: i64 = -(1 << 50);
    const HI: i64 = 1 << 50;
    const NAME: &'static str = "N64";
    fn of(v: i64) -> Self {
        noisy_float::types::n64(v as f64 / 4.0)
    }
    fn to(self) -> i64 {
        (self.raw() * 4.0) as i64
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Uniform,
    Cluster,
    Diagonal,
    Grid,
    Asc,
    Desc,
    Extreme,
    Same,
    Collinear,
    Nested,
}
const MODES: [Mode; 14] = [
    Mode::Uniform,
    Mode::Uniform,
    Mode::Uniform,
    Mode::Cluster,
    Mode::Cluster,
    Mode::Diagonal,
    Mode::Grid,
    Mode::Asc,
    Mode::Desc,
    Mode::Extreme,
    Mode::Same,
    Mode::Collinear,
    Mode::Nested,
    Mode::Uniform,
];
#[derive(Clone, Copy, Debug)]
pub enum Ext {
    Zero,
    Small,
    Thin,
    Large,
    Heavy,
}

/// Produces boxes with integer corners in lo..=hi in every dimension.
#[derive(Clone, Debug)]
pub struct Plan {
    pub mode: Mode,
    pub ext: Ext,
    pub lo: i64,
    pub hi: i64,
    centers: Vec<u64>,
    n: i64,
}
impl Plan {
    /// `lo..=hi` is what the scalar type represents.
    pub fn new(rng: &mut Rng, lo: i64, hi: i64) -> Plan {
        let span = hi as i128 - lo as i128;
        let want: i64 = match rng.below(10) {
            0 => 3,
            1 | 2 => 10,
            3..=5 => 100,
            6 | 7 => 1000,
            8 => 1 << 20,
            _ => i64::MAX,
        };
        let (l, h) = if want as i128 >= span {
            (lo, hi)
        } else {
            let base = match rng.below(5) {
                0 => lo,
                1 => hi - want,
                2 => 0i64.clamp(lo, hi - want),
                3 => (-(want / 2)).clamp(lo, hi - want),
                _ => rng.range(lo, hi - want),
            };
            (base, base + want)
        };
        Plan::within(rng, l, h)
    }
    pub fn within(rng: &mut Rng, lo: i64, hi: i64) -> Plan {
        let mode = rng.pick(&MODES);
        let ext = rng.pick(&[Ext::Zero, Ext::Small, Ext::Small, Ext::Thin, Ext::Large, Ext::Heavy]);
        let c = 1 + rng.below(5);
        let centers = (0..c).map(|_| rng.next()).collect();
        Plan { mode, ext, lo, hi, centers, n: 0 }
    }
    fn point<const D: usize>(&mut self, rng: &mut Rng) -> [i64; D] {
        let (lo, hi) = (self.lo, self.hi);
        let span = hi - lo;
        self.n += 1;
        let n = self.n;
        match self.mode {
            Mode::Uniform | Mode::Nested => std::array::from_fn(|_| rng.range(lo, hi)),
            Mode::Cluster => {
                let c = rng.pick(&self.centers);
                let w = span / 32 + 1;
                std::array::from_fn(|d| {
                    let center = lo + (mix2(c, d as u64) % (span as u64 + 1)) as i64;
                    (center + rng.range(-w, w)).clamp(lo, hi)
                })
            }
            Mode::Diagonal => {
                let t = rng.range(lo, hi);
                let w = span / 64;
                std::array::from_fn(|_| (t + rng.range(-w, w)).clamp(lo, hi))
            }
            Mode::Grid => {
                let step = span / 8 + 1;
                std::array::from_fn(|_| (lo + step * rng.range(0, 8)).clamp(lo, hi))
            }
            Mode::Asc | Mode::Desc => {
                let step = (span / 300).max(1);
                let v = (step * n) % (span + 1);
                let v = if self.mode == Mode::Asc { lo + v } else { hi - v };
                std::array::from_fn(|d| if d == 0 { v } else { rng.range(lo, hi) })
            }
            Mode::Extreme => std::array::from_fn(|_| match rng.below(5) {
                0 => lo,
                1 => hi,
                2 => lo + rng.range(0, span.min(3)),
                3 => hi - rng.range(0, span.min(3)),
                _ => rng.range(lo, hi),
            }),
            Mode::Same => {
                let c = self.centers[0];
                std::array::from_fn(|d| lo + (mix2(c, d as u64) % (span as u64 + 1)) as i64)
            }
            Mode::Collinear => {
                let c = self.centers[0];
                let axis = (c % D as u64) as usize;
                std::array::from_fn(|d| {
                    if d == axis {
                        rng.range(lo, hi)
                    } else {
                        lo + (mix2(c, d as u64) % (span as u64 + 1)) as i64
                    }
                })
            }
        }
    }
    pub fn next<const D: usize>(&mut self, rng: &mut Rng) -> ([i64; D], [i64; D]) {
        let (lo, hi) = (self.lo, self.hi);
        let span = hi - lo;
        let p: [i64; D] = self.point(rng);
        if self.mode == Mode::Nested {
            let t = rng.range(0, span / 2);
            return (std::array::from_fn(|_| lo + t), std::array::from_fn(|_| hi - t));
        }
        let q = std::array::from_fn(|d| {
            let e = match self.ext {
                Ext::Zero => 0,
                Ext::Small => rng.range(0, span / 20 + 1),
                Ext::Thin => {
                    if d == (self.n as usize) % D {
                        rng.range(0, span)
                    } else {
                        0
                    }
                }
                Ext::Large => rng.range(0, span),
                Ext::Heavy => {
                    if rng.chance(5) {
                        rng.range(0, span)
                    } else {
                        rng.range(0, span / 50 + 1)
                    }
                }
            };
            p[d] + e.min(hi - p[d])
        });
        (p, q)
    }
}

pub fn svec<N: Coord, const D: usize>(p: &[i64; D]) -> SVec<N, D> {
    SVec(std::array::from_fn(|d| N::of(p[d])))
}
pub fn sbox<N: Coord, const D: usize>(p: &[i64; D], q: &[i64; D]) -> SAABB<N, D> {
    AABB { min: svec(p), max: svec(q) }
}

/// A value: an identity given by the history, and a payload that the history rewrites.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Val {
    pub uid: u64,
    pub pay: u64,
}

pub type Tree<S> = RTree<<S as Scn>::B, <S as Scn>::K, Val>;

pub trait Scn: 'static {
    const NAME: &'static str;
    type B: Bounds + Volume + Clone + Debug + PartialEq + 'static;
    type K: Bounded<Self::B> + Eq + Clone + Debug + 'static;
    type G;
    fn gen(rng: &mut Rng) -> Self::G;
    fn key(g: &mut Self::G, rng: &mut Rng) -> Self::K;
    /// A key near `k`, most often not equal to it.
    fn near(g: &mut Self::G, rng: &mut Rng, _k: &Self::K) -> Self::K {
        Self::key(g, rng)
    }
    /// Position on some axis, to remove in spatial order.
    fn ord(k: &Self::K) -> i64;
    fn fp(k: &Self::K) -> u64;
    // Lookups by a borrowed form of the key, where there is one.
    fn bget<'a>(t: &'a Tree<Self>, k: &Self::K) -> Option<&'a Val>
    where
        Self: Sized,
    {
        t.get(k)
    }
    fn bget_mut<'a>(t: &'a mut Tree<Self>, k: &Self::K) -> Option<&'a mut Val>
    where
        Self: Sized,
    {
        t.get_mut(k)
    }
    fn bremove(t: &mut Tree<Self>, k: &Self::K) -> Option<Val>
    where
        Self: Sized,
    {
        t.remove(k)
    }
}

fn fpn(it: impl Iterator<Item = i64>) -> u64 {
    it.fold(17, |a, v| mix2(a, v as u64))
}

pub struct BoxS<N, const D: usize>(std::marker::PhantomData<N>);
impl<N: Coord, const D: usize> Scn for BoxS<N, D> {
    const NAME: &'static str = "box";
    type B = SAABB<N, D>;
    type K = SAABB<N, D>;
    type G = Plan;
    fn gen(rng: &mut Rng) -> Plan {
        Plan::new(rng, N::LO, N::HI)
    }
    fn key(g: &mut Plan, rng: &mut Rng) -> Self::K {
        let (p, q) = g.next(rng);
        sbox(&p, &q)
    }
    fn near(_: &mut Plan, rng: &mut Rng, k: &Self::K) -> Self::K {
        // shrink it in one dimension
        let mut k = *k;
        let d = rng.below(D);
        if rng.chance(50) {
            k.min.0[d] = k.max.0[d];
        } else {
            k.max.0[d] = k.min.0[d];
        }
        k
    }
    fn ord(k: &Self::K) -> i64 {
        k.min.0[0].to()
    }
    fn fp(k: &Self::K) -> u64 {
        fpn(k.min.0.iter().chain(k.max.0.iter()).map(|v| v.to()))
    }
}
pub struct PtS<N, const D: usize>(std::marker::PhantomData<N>);
impl<N: Coord, const D: usize> Scn for PtS<N, D> {
    const NAME: &'static str = "point";
    type B = SAABB<N, D>;
    type K = SVec<N, D>;
    type G = Plan;
    fn gen(rng: &mut Rng) -> Plan {
        Plan::new(rng, N::LO, N::HI)
    }
    fn key(g: &mut Plan, rng: &mut Rng) -> Self::K {
        svec(&g.next(rng).0)
    }
    fn near(_: &mut Plan, rng: &mut Rng, k: &Self::K) -> Self::K {
        let mut k = *k;
        let d = rng.below(D);
        let v = k.0[d].to();
        k.0[d] = N::of(if v < N::HI { v + 1 } else { v - 1 });
        k
    }
    fn ord(k: &Self::K) -> i64 {
        k.0[0].to()
    }
    fn fp(k: &Self::K) -> u64 {
        fpn(k.0.iter().map(|v| v.to()))
    }
}
pub struct LineS<N, const D: usize>(std::marker::PhantomData<N>);
impl<N: Coord, const D: usize> Scn for LineS<N, D> {
    const NAME: &'static str = "line";
    type B = SAABB<N, D>;
    type K = Line<SVec<N, D>>;
    type G = Plan;
    fn gen(rng: &mut Rng) -> Plan {
        Plan::new(rng, N::LO, N::HI)
    }
    fn key(g: &mut Plan, rng: &mut Rng) -> Self::K {
        let (p, q) = g.next::<D>(rng);
        let flip: [bool; D] = std::array::from_fn(|_| rng.chance(50));
        let a = std::array::from_fn(|d| if flip[d] { q[d] } else { p[d] });
        let b = std::array::from_fn(|d| if flip[d] { p[d] } else { q[d] });
        Line(svec(&a), svec(&b))
    }
    fn near(_: &mut Plan, _: &mut Rng, k: &Self::K) -> Self::K {
        Line(k.1, k.0) // same bounds, other key
    }
    fn ord(k: &Self::K) -> i64 {
        k.0 .0[0].to()
    }
    fn fp(k: &Self::K) -> u64 {
        fpn(k.0 .0.iter().chain(k.1 .0.iter()).map(|v| v.to()))
    }
}

/// Bounds with a non-spatial part, that several different keys share, and empty bounds of keys.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TagB {
    pub lo: i32,
    pub hi: i32,
    pub mask: u32,
    pub heap: Option<Box<u32>>,
}
fn tag_b(lo: i32, hi: i32, mask: u32) -> TagB {
    if lo > hi || mask == 0 {
        TagB { lo: i32::MAX, hi: i32::MIN, mask: 0, heap: None }
    } else {
        TagB { lo, hi, mask, heap: Some(Box::new(mask)) }
    }
}
impl Contains<TagB> for TagB {
    fn contains(&self, r: &TagB) -> bool {
        r.mask == 0 || (self.lo <= r.lo && self.hi >= r.hi && self.mask & r.mask == r.mask)
    }
}
impl Intersects<TagB> for TagB {
    fn intersects(&self, r: &TagB) -> bool {
        self.mask & r.mask != 0 && self.lo <= r.hi && self.hi >= r.lo
    }
}
impl Bounds for TagB {
    fn empty() -> Self {
        tag_b(0, 0, 0)
    }
    fn union(a: &Self, b: &Self) -> Self {
        tag_b(a.lo.min(b.lo), a.hi.max(b.hi), a.mask | b.mask)
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl Volume for TagB {
    fn volume(&self) -> N64 {
        let w = if self.mask == 0 { 0.0 } else { (self.hi as f64 - self.lo as f64 + 1.0) * self.mask.count_ones() as f64 };
        noisy_float::types::n64(w)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TagKey {
    pub lo: i32,
    pub hi: i32,
    pub mask: u32,
    pub name: u32,
}
impl Bounded<TagB> for TagKey {
    fn bounds(&self) -> TagB {
        tag_b(self.lo, self.hi, self.mask)
    }
}
pub struct TagS;
impl Scn for TagS {
    const NAME: &'static str = "tagged";
    type B = TagB;
    type K = TagKey;
    type G = (Plan, usize);
    fn gen(rng: &mut Rng) -> Self::G {
        let p = Plan::new(rng, i32::MIN as i64, i32::MAX as i64);
        (p, 1 + rng.below(32))
    }
    fn key(g: &mut Self::G, rng: &mut Rng) -> TagKey {
        let (p, q) = g.0.next::<1>(rng);
        let mut mask = 1u32 << rng.below(g.1);
        if rng.chance(20) {
            mask |= 1 << rng.below(g.1);
        }
        if rng.chance(10) {
            mask = 0;
        }
        TagKey { lo: p[0] as i32, hi: q[0] as i32, mask, name: rng.below(4) as u32 }
    }
    fn near(_: &mut Self::G, rng: &mut Rng, k: &TagKey) -> TagKey {
        let mut k = k.clone();
        k.name = rng.below(5) as u32;
        k
    }
    fn ord(k: &TagKey) -> i64 {
        k.lo as i64
    }
    fn fp(k: &TagKey) -> u64 {
        fpn([k.lo as i64, k.hi as i64, k.mask as i64, k.name as i64].into_iter())
    }
}

/// Bounds that overapproximate unions, as the documentation permits.
#[derive(Clone, Debug, PartialEq)]
pub struct SloppyB {
    pub lo: [i32; 2],
    pub hi: [i32; 2],
}
impl SloppyB {
    fn is_empty(&self) -> bool {
        self.lo[0] > self.hi[0]
    }
}
impl Contains<SloppyB> for SloppyB {
    fn contains(&self, r: &SloppyB) -> bool {
        r.is_empty() || (0..2).all(|d| self.lo[d] <= r.lo[d] && self.hi[d] >= r.hi[d])
    }
}
impl Intersects<SloppyB> for SloppyB {
    fn intersects(&self, r: &SloppyB) -> bool {
        (0..2).all(|d| self.lo[d] <= r.hi[d] && self.hi[d] >= r.lo[d])
    }
}
impl Bounds for SloppyB {
    fn empty() -> Self {
        SloppyB { lo: [i32::MAX; 2], hi: [i32::MIN; 2] }
    }
    fn union(a: &Self, b: &Self) -> Self {
        if a.is_empty() {
            return b.clone();
        }
        if b.is_empty() {
            return a.clone();
        }
        SloppyB {
            lo: std::array::from_fn(|d| a.lo[d].min(b.lo[d]).div_euclid(16) * 16),
            hi: std::array::from_fn(|d| a.hi[d].max(b.hi[d]).div_euclid(16) * 16 + 15),
        }
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl Volume for SloppyB {
    fn volume(&self) -> N64 {
        let v = if self.is_empty() {
            0.0
        } else {
            (0..2).map(|d| self.hi[d] as f64 - self.lo[d] as f64).product()
        };
        noisy_float::types::n64(v)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SloppyKey(pub SAABB<i32, 2>);
impl Bounded<SloppyB> for SloppyKey {
    fn bounds(&self) -> SloppyB {
        Bounded::<SloppyB>::bounds(&self.0)
    }
}
impl Bounded<SloppyB> for SAABB<i32, 2> {
    fn bounds(&self) -> SloppyB {
        SloppyB { lo: self.min.0, hi: self.max.0 }
    }
}
impl Borrow<SAABB<i32, 2>> for SloppyKey {
    fn borrow(&self) -> &SAABB<i32, 2> {
        &self.0
    }
}
pub struct SloppyS;
impl Scn for SloppyS {
    const NAME: &'static str = "sloppy-union";
    type B = SloppyB;
    type K = SloppyKey;
    type G = Plan;
    fn gen(rng: &mut Rng) -> Plan {
        Plan::new(rng, -(1 << 30), 1 << 30)
    }
    fn key(g: &mut Plan, rng: &mut Rng) -> SloppyKey {
        let (p, q) = g.next(rng);
        SloppyKey(sbox(&p, &q))
    }
    fn ord(k: &SloppyKey) -> i64 {
        k.0.min.0[0] as i64
    }
    fn fp(k: &SloppyKey) -> u64 {
        <BoxS<i32, 2> as Scn>::fp(&k.0)
    }
    fn bget<'a>(t: &'a Tree<Self>, k: &SloppyKey) -> Option<&'a Val> {
        t.get::<SAABB<i32, 2>>(&k.0)
    }
    fn bget_mut<'a>(t: &'a mut Tree<Self>, k: &SloppyKey) -> Option<&'a mut Val> {
        t.get_mut::<SAABB<i32, 2>>(&k.0)
    }
    fn bremove(t: &mut Tree<Self>, k: &SloppyKey) -> Option<Val> {
        t.remove::<SAABB<i32, 2>>(&k.0)
    }
}

/// Lexicographic ranges as bounds of string keys.
#[derive(Clone, Debug, PartialEq)]
pub struct StrB(pub Option<(String, String)>);
fn str_num(s: &str) -> f64 {
    s.bytes().chain(std::iter::repeat(0)).take(4).fold(0.0, |a, b| a * 256.0 + b as f64)
}
impl Contains<StrB> for StrB {
    fn contains(&self, r: &StrB) -> bool {
        match (&self.0, &r.0) {
            (_, None) => true,
            (None, _) => false,
            (Some(a), Some(b)) => a.0 <= b.0 && a.1 >= b.1,
        }
    }
}
impl Intersects<StrB> for StrB {
    fn intersects(&self, r: &StrB) -> bool {
        match (&self.0, &r.0) {
            (Some(a), Some(b)) => a.0 <= b.1 && a.1 >= b.0,
            _ => false,
        }
    }
}
impl Bounds for StrB {
    fn empty() -> Self {
        StrB(None)
    }
    fn union(a: &Self, b: &Self) -> Self {
        match (&a.0, &b.0) {
            (None, _) => b.clone(),
            (_, None) => a.clone(),
            (Some(x), Some(y)) => StrB(Some((x.0.clone().min(y.0.clone()), x.1.clone().max(y.1.clone())))),
        }
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl Volume for StrB {
    fn volume(&self) -> N64 {
        noisy_float::types::n64(self.0.as_ref().map_or(0.0, |(a, b)| str_num(b) - str_num(a)))
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Name(pub String);
impl Borrow<str> for Name {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl Bounded<StrB> for Name {
    fn bounds(&self) -> StrB {
        StrB(Some((self.0.clone(), self.0.clone())))
    }
}
impl Bounded<StrB> for str {
    fn bounds(&self) -> StrB {
        StrB(Some((self.to_string(), self.to_string())))
    }
}
pub struct StrS;
impl Scn for StrS {
    const NAME: &'static str = "string";
    type B = StrB;
    type K = Name;
    type G = usize;
    fn gen(rng: &mut Rng) -> usize {
        1 + rng.below(6)
    }
    fn key(g: &mut usize, rng: &mut Rng) -> Name {
        let n = rng.below(*g + 1);
        Name((0..n).map(|_| rng.pick(&['a', 'b', 'c', 'm', 'z'])).collect())
    }
    fn ord(k: &Name) -> i64 {
        str_num(&k.0) as i64
    }
    fn fp(k: &Name) -> u64 {
        fpn(k.0.bytes().map(|b| b as i64))
    }
    fn bget<'a>(t: &'a Tree<Self>, k: &Name) -> Option<&'a Val> {
        t.get::<str>(&k.0)
    }
    fn bget_mut<'a>(t: &'a mut Tree<Self>, k: &Name) -> Option<&'a mut Val> {
        t.get_mut::<str>(&k.0)
    }
    fn bremove(t: &mut Tree<Self>, k: &Name) -> Option<Val> {
        t.remove::<str>(&k.0)
    }
}

/// Any configuration with max_children >= 2. `occ`: only those for which occupancy is guaranteed.
pub fn pick_cfg(rng: &mut Rng, tier: Tier, occ: bool) -> RTreeConfig {
    let max = match rng.below(20) {
        4..=8 if tier == Tier::Tiny => 3,
        10..=19 if tier == Tier::Tiny && !rng.chance(10) => rng.pick(&[2, 3, 4, 4, 5, 6]),
        0..=3 => 2,
        4..=6 => 3,
        7..=10 => 4,
        11 => 5,
        12 | 13 => 6,
        14 => rng.pick(&[7, 8, 9]),
        15 | 16 => 5 + rng.below(12),
        17 => 10 + rng.below(40),
        _ if tier == Tier::Tiny => 4,
        18 => rng.pick(&[32, 33, 50, 64, 100]),
        _ => rng.pick(&[127, 128, 129, 255, 256, 257, 300]),
    };
    let half = max / 2;
    let min = if occ {
        match rng.below(4) {
            0 => 1,
            1 => half,
            2 => 1 + rng.below(half),
            _ => half.min((max as f64 * 0.4) as usize).max(1),
        }
    } else {
        match rng.below(12) {
            0 => 0,
            1 | 2 => 1,
            3 => half + 1,
            4 => max,
            5 => max + rng.below(3),
            6 => rng.below(max + 1),
            _ => half,
        }
    };
    RTreeConfig { max_children: max, min_children: min }
}

/// How large a tree with this configuration may become before histories get too slow.
pub fn size_cap(cfg: RTreeConfig, tier: Tier) -> usize {
    let f = if tier == Tier::Thorough { 3 } else { 1 };
    if cfg.min_children > cfg.max_children / 2 {
        if cfg.max_children > 12 {
            return cfg.max_children + 40;
        }
        return 150 * f;
    }
    if cfg.min_children <= 1 {
        // nodes that may have a single child allow for trees as deep as there are entries
        return 300 * f;
    }
    if cfg.max_children > 64 {
        return 700 * f;
    }
    usize::MAX
}
