//! Exact geometry on integer coordinates, the oracle for the crate's predicates.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    No,
    Yes,
    /// Only just touching, in a way that floating point cannot decide reliably.
    Touch,
}
impl Tri {
    pub fn of(b: bool) -> Tri {
        if b {
            Tri::Yes
        } else {
            Tri::No
        }
    }
    pub fn agrees(self, b: bool) -> bool {
        match self {
            Tri::No => !b,
            Tri::Yes => b,
            Tri::Touch => true,
        }
    }
}

pub fn in_box<const D: usize>(p: &[i64; D], lo: &[i64; D], hi: &[i64; D]) -> bool {
    (0..D).all(|d| lo[d] <= p[d] && p[d] <= hi[d])
}
pub fn boxes_meet<const D: usize>(a: (&[i64; D], &[i64; D]), b: (&[i64; D], &[i64; D])) -> bool {
    (0..D).all(|d| a.0[d] <= b.1[d] && b.0[d] <= a.1[d])
}
pub fn box_in<const D: usize>(outer: (&[i64; D], &[i64; D]), inner: (&[i64; D], &[i64; D])) -> bool {
    (0..D).all(|d| outer.0[d] <= inner.0[d] && inner.1[d] <= outer.1[d])
}

/// A fraction with a positive denominator.
type Q = (i128, i128);
fn q(n: i128, d: i128) -> Q {
    if d < 0 {
        (-n, -d)
    } else {
        (n, d)
    }
}
fn lt(a: Q, b: Q) -> bool {
    a.0 * b.1 < b.0 * a.1
}
fn eq(a: Q, b: Q) -> bool {
    a.0 * b.1 == b.0 * a.1
}
fn pow2(v: i64) -> bool {
    v.unsigned_abs().is_power_of_two()
}

/// Does some point o + t*d, with t >= 0 (and t <= 1 unless `ray`), lie in the closed box?
pub fn seg_box<const D: usize>(o: &[i64; D], d: &[i64; D], lo: &[i64; D], hi: &[i64; D], ray: bool) -> Tri {
    let mut tl: Q = (0, 1);
    let mut th: Option<Q> = if ray { None } else { Some((1, 1)) };
    let mut lim: Vec<(usize, Q, Q)> = vec![];
    for i in 0..D {
        if d[i] == 0 {
            if o[i] < lo[i] || o[i] > hi[i] {
                return Tri::No;
            }
            continue;
        }
        let a = q((lo[i] as i128) - o[i] as i128, d[i] as i128);
        let b = q((hi[i] as i128) - o[i] as i128, d[i] as i128);
        let (a, b) = if d[i] > 0 { (a, b) } else { (b, a) };
        lim.push((i, a, b));
        if lt(tl, a) {
            tl = a;
        }
        if th.is_none_or(|t| lt(b, t)) {
            th = Some(b);
        }
    }
    let Some(th) = th else { return Tri::Yes };
    if lt(th, tl) {
        return Tri::No;
    }
    if lt(tl, th) || tl.0 == 0 {
        return Tri::Yes;
    }
    // a single parameter: decided by comparing two equal fractions
    for &(i, a, _) in &lim {
        for &(j, _, b) in &lim {
            if i != j && eq(a, tl) && eq(b, tl) && !(pow2(d[i]) && pow2(d[j])) {
                return Tri::Touch;
            }
        }
    }
    Tri::Yes
}

pub fn sq(v: i128) -> i128 {
    v * v
}
pub fn pt_pt<const D: usize>(a: &[i64; D], b: &[i64; D]) -> i128 {
    (0..D).map(|d| sq(a[d] as i128 - b[d] as i128)).sum()
}
pub fn pt_box<const D: usize>(p: &[i64; D], lo: &[i64; D], hi: &[i64; D]) -> i128 {
    (0..D)
        .map(|d| sq((lo[d] as i128 - p[d] as i128).max(p[d] as i128 - hi[d] as i128).max(0)))
        .sum()
}
pub fn box_box<const D: usize>(a: (&[i64; D], &[i64; D]), b: (&[i64; D], &[i64; D])) -> i128 {
    (0..D)
        .map(|d| sq((b.0[d] as i128 - a.1[d] as i128).max(a.0[d] as i128 - b.1[d] as i128).max(0)))
        .sum()
}
