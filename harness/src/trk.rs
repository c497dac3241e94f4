//! Tracked keys, values and bounds: every construction, clone, use and drop of them is recorded in the
//! ledger, every callback counts as one tick (and may be made to panic), and each carries a padding of
//! some size and alignment whose contents are verified on use.
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use crate::ledger::{self, tick, Tk};
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{JoinFilter, SpatialFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::{RTree, RTreeConfig};
use std::borrow::Borrow;
use std::collections::HashMap;
use std::fmt::Debug;

pub trait Pad: Clone + Debug + 'static {
    fn make(n: u64) -> Self;
    fn ok(&self, n: u64) -> bool;
}
impl Pad for () {
    fn make(_: u64) {}
    fn ok(&self, _: u64) -> bool {
        true
    }
}
impl Pad for u8 {
    fn make(n: u64) -> u8 {
        n as u8
    }
    fn ok(&self, n: u64) -> bool {
        *self == n as u8
    }
}
impl Pad for [u64; 9] {
    fn make(n: u64) -> Self {
        [n; 9]
    }
    fn ok(&self, n: u64) -> bool {
        *self == [n; 9]
    }
}
impl Pad for Box<u64> {
    fn make(n: u64) -> Self {
        Box::new(n)
    }
    fn ok(&self, n: u64) -> bool {
        **self == n
    }
}
impl Pad for String {
    fn make(n: u64) -> Self {
        "x".repeat(1 + (n % 40) as usize)
    }
    fn ok(&self, n: u64) -> bool {
        self.len() == 1 + (n % 40) as usize && self.bytes().all(|b| b == b'x')
    }
}
#[derive(Clone, Debug)]
#[repr(align(128))]
pub struct Al128(u64);
impl Pad for Al128 {
    fn make(n: u64) -> Self {
        Al128(n)
    }
    fn ok(&self, n: u64) -> bool {
        self as *const Self as usize % 128 == 0 && self.0 == n
    }
}

fn broken(what: &str) {
    ledger::LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if l.errors.len() < 5 {
            l.errors.push(format!("the contents of a {what} changed in place, or lie misaligned"));
        }
    })
}

#[derive(Debug)]
pub struct TB<P: Pad> {
    pub lo: [i32; 2],
    pub hi: [i32; 2],
    pub ids: IdSet,
    pub tk: Tk,
    pad: P,
}
impl<P: Pad> TB<P> {
    fn mk(lo: [i32; 2], hi: [i32; 2], ids: IdSet) -> Self {
        let pad = P::make(ids.0.len() as u64);
        TB { lo, hi, ids, tk: Tk::new(ledger::BND), pad }
    }
    pub fn touch(&self) {
        self.tk.touch();
        if !self.pad.ok(self.ids.0.len() as u64) {
            broken("bounds");
        }
    }
}
impl<P: Pad> Clone for TB<P> {
    fn clone(&self) -> Self {
        tick();
        self.touch();
        TB { lo: self.lo, hi: self.hi, ids: self.ids.clone(), tk: self.tk.clone(), pad: self.pad.clone() }
    }
}
impl<P: Pad> Contains<TB<P>> for TB<P> {
    fn contains(&self, r: &TB<P>) -> bool {
        tick();
        self.touch();
        r.touch();
        (0..2).all(|d| self.lo[d] <= r.lo[d] && self.hi[d] >= r.hi[d]) && self.ids.sup(&r.ids)
    }
}
impl<P: Pad> Intersects<TB<P>> for TB<P> {
    fn intersects(&self, r: &TB<P>) -> bool {
        tick();
        self.touch();
        r.touch();
        (0..2).all(|d| self.lo[d] <= r.hi[d] && self.hi[d] >= r.lo[d])
    }
}
impl<P: Pad> Bounds for TB<P> {
    fn empty() -> Self {
        tick();
        TB::mk([i32::MAX; 2], [i32::MIN; 2], IdSet::default())
    }
    fn union(a: &Self, b: &Self) -> Self {
        tick();
        a.touch();
        b.touch();
        TB::mk(
            std::array::from_fn(|d| a.lo[d].min(b.lo[d])),
            std::array::from_fn(|d| a.hi[d].max(b.hi[d])),
            a.ids.union(&b.ids),
        )
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl<P: Pad> Volume for TB<P> {
    fn volume(&self) -> N64 {
        tick();
        self.touch();
        noisy_float::types::n64((0..2).map(|d| self.hi[d] as f64 - self.lo[d] as f64).product())
    }
}

/// Equal keys have equal `id`; several keys of a tree may be equal.
#[derive(Debug)]
pub struct TKey<P: Pad> {
    pub lo: [i32; 2],
    pub hi: [i32; 2],
    pub id: u32,
    pub tk: Tk,
    pad: P,
}
impl<P: Pad> TKey<P> {
    pub fn new(k: &IdKey) -> Self {
        TKey { lo: k.lo, hi: k.hi, id: k.id, tk: Tk::new(ledger::KEY), pad: P::make(k.id as u64) }
    }
    pub fn touch(&self) {
        self.tk.touch();
        if !self.pad.ok(self.id as u64) {
            broken("key");
        }
    }
    pub fn plain(&self) -> IdKey {
        IdKey { lo: self.lo, hi: self.hi, id: self.id }
    }
}
impl<P: Pad> Clone for TKey<P> {
    fn clone(&self) -> Self {
        tick();
        self.touch();
        TKey { lo: self.lo, hi: self.hi, id: self.id, tk: self.tk.clone(), pad: self.pad.clone() }
    }
}
impl<P: Pad> PartialEq for TKey<P> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.touch();
        o.touch();
        self.id == o.id
    }
}
impl<P: Pad> Eq for TKey<P> {}
impl<P: Pad> Bounded<TB<P>> for TKey<P> {
    fn bounds(&self) -> TB<P> {
        tick();
        self.touch();
        TB::mk(self.lo, self.hi, IdSet::one(self.id))
    }
}

#[derive(Debug)]
pub struct TVal<P: Pad> {
    pub uid: u64,
    pub pay: u64,
    pub tk: Tk,
    pad: P,
}
impl<P: Pad> TVal<P> {
    pub fn new(uid: u64, pay: u64) -> Self {
        TVal { uid, pay, tk: Tk::new(ledger::VAL), pad: P::make(uid) }
    }
    pub fn touch(&self) {
        self.tk.touch();
        if !self.pad.ok(self.uid) {
            broken("value");
        }
    }
}
impl<P: Pad> Clone for TVal<P> {
    fn clone(&self) -> Self {
        tick();
        self.touch();
        TVal { uid: self.uid, pay: self.pay, tk: self.tk.clone(), pad: self.pad.clone() }
    }
}

pub type TTree<P> = RTree<TB<P>, TKey<P>, TVal<P>>;

/// A filter by a set of ids, sound for pruning.
pub struct TPick<'a> {
    pub s: &'a IdSet,
}
impl<P: Pad> SpatialFilter<TB<P>, TKey<P>> for TPick<'_> {
    fn test_bounds(&self, b: &TB<P>) -> bool {
        tick();
        b.touch();
        !b.ids.meet(self.s).is_empty()
    }
    fn test_key(&self, k: &TKey<P>) -> bool {
        tick();
        k.touch();
        self.s.has(k.id)
    }
}
/// Accepts everything, and touches it.
pub struct TAll;
impl<P: Pad> SpatialFilter<TB<P>, TKey<P>> for TAll {
    fn test_bounds(&self, b: &TB<P>) -> bool {
        tick();
        b.touch();
        true
    }
    fn test_key(&self, k: &TKey<P>) -> bool {
        tick();
        k.touch();
        true
    }
}
/// Joins keys whose ids agree modulo m; rejects pairs of bounds only if nothing below agrees.
#[derive(Clone)]
pub struct TMod(pub u32);
impl<P: Pad> JoinFilter<TB<P>, TB<P>, TKey<P>, TKey<P>> for TMod {
    fn test_bounds(&self, a: &TB<P>, b: &TB<P>) -> bool {
        tick();
        a.touch();
        b.touch();
        let r = b.ids.iter().fold(0u64, |m, i| m | 1 << (i % self.0.min(64)));
        a.ids.iter().any(|i| r >> (i % self.0.min(64)) & 1 == 1)
    }
    fn test_key(&self, a: &TKey<P>, b: &TKey<P>) -> bool {
        tick();
        a.touch();
        b.touch();
        a.id % self.0.min(64) == b.id % self.0.min(64)
    }
}
/// Ranks by a hash of the id; the lower bound is the least rank below.
#[derive(Clone)]
pub struct TRank(pub u64);
impl TRank {
    pub fn of(&self, id: u32) -> u64 {
        mix2(self.0, id as u64) % 1000
    }
}
impl<P: Pad> Ranking<TB<P>, TKey<P>> for TRank {
    type Metric = u64;
    fn bounds_min(&self, b: &TB<P>) -> u64 {
        tick();
        b.touch();
        b.ids.iter().map(|i| self.of(i)).min().unwrap_or(u64::MAX)
    }
    fn rank_key(&self, k: &TKey<P>) -> u64 {
        tick();
        k.touch();
        self.of(k.id)
    }
}
/// The same, None for some.
#[derive(Clone)]
pub struct TRankOpt(pub u64, pub u64);
impl TRankOpt {
    pub fn of(&self, id: u32) -> Option<u64> {
        let h = mix2(self.0, id as u64);
        (h % 100 >= self.1).then_some(h % 1000)
    }
}
impl<P: Pad> Ranking<TB<P>, TKey<P>> for TRankOpt {
    type Metric = Option<u64>;
    fn bounds_min(&self, b: &TB<P>) -> Option<u64> {
        tick();
        b.touch();
        // None is the least of all, so it may be given only where nothing below has a rank
        b.ids.iter().filter_map(|i| self.of(i)).min()
    }
    fn rank_key(&self, k: &TKey<P>) -> Option<u64> {
        tick();
        k.touch();
        self.of(k.id)
    }
}

/// What a history makes of the tracked tree. Equal boxes are equal keys and have the same id.
pub struct TH {
    pub h: Hist<BoxS<i32, 2>>,
    pub m: Model<rusty_rtree::bounds::SAABB<i32, 2>>,
    pub ids: HashMap<([i32; 2], [i32; 2]), u32>,
}
#[derive(Clone, Debug)]
pub enum TStep {
    Insert(IdKey, u64),
    Unique(IdKey, u64),
    Remove(IdKey),
    Get(IdKey),
    GetMut(IdKey),
    IterMut,
}
/// What came back: the uid and payload of a value, if any.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Done,
    V(Option<(u64, u64)>),
    All(Vec<(u32, u64, u64)>),
}
fn sb(k: &IdKey) -> rusty_rtree::bounds::SAABB<i32, 2> {
    sbox(&[k.lo[0] as i64, k.lo[1] as i64], &[k.hi[0] as i64, k.hi[1] as i64])
}
impl TH {
    pub fn new(rng: &mut Rng, tier: Tier, cap: usize) -> TH {
        let mut h = Hist::<BoxS<i32, 2>>::new(rng, tier, cap);
        if rng.chance(80) {
            h.g = Plan::within(rng, -1000, 1000);
        }
        TH { h, m: Model::new(), ids: HashMap::new() }
    }
    pub fn key(&mut self, k: &rusty_rtree::bounds::SAABB<i32, 2>) -> IdKey {
        let n = self.ids.len() as u32 + 1;
        let id = *self.ids.entry((k.min.0, k.max.0)).or_insert(n);
        IdKey { lo: k.min.0, hi: k.max.0, id }
    }
    pub fn next(&mut self, rng: &mut Rng) -> Option<TStep> {
        let st = self.h.next(rng, &self.m)?;
        Some(match st {
            Step::Insert(k) => {
                let u = self.m.uid();
                TStep::Insert(self.key(&k), u)
            }
            Step::Unique(k) => {
                let u = self.m.uid();
                TStep::Unique(self.key(&k), u)
            }
            Step::Remove(k) => TStep::Remove(self.key(&k)),
            Step::Get(k) => TStep::Get(self.key(&k)),
            Step::GetMut(k) => TStep::GetMut(self.key(&k)),
            Step::IterMut => TStep::IterMut,
        })
    }
    pub fn ids(&mut self) -> IdSet {
        let v: Vec<_> = self.m.m.values().map(|e| e.0).collect();
        IdSet::of(v.iter().map(|k| self.key(k).id))
    }
    /// Brings the model up to date with the outcome of the step, checking it.
    pub fn settle(&mut self, st: &TStep, out: &Out) -> R {
        settle(&mut self.m, st, out)
    }
}
pub fn settle(m: &mut Model<rusty_rtree::bounds::SAABB<i32, 2>>, st: &TStep, out: &Out) -> R {
    let pick = |m: &Model<_>, k: &IdKey, v: &Option<(u64, u64)>, what: &str| -> Result<Option<u64>, Fail> {
        let eq = m.equal(&sb(k));
        match v {
            None => {
                ensure!(eq.is_empty(), "{what}({k:?}) found nothing, but {} entries have an equal key", eq.len());
                Ok(None)
            }
            Some((u, p)) => {
                ensure!(eq.contains(u), "{what}({k:?}) gave value {u}, which is no entry with an equal key");
                ensure!(m.m[u].1 == *p, "{what}({k:?}) gave value {u} with payload {p}, expected {}", m.m[u].1);
                Ok(Some(*u))
            }
        }
    };
    match (st, out) {
        (TStep::Insert(k, u), Out::Done) => {
            m.m.insert(*u, (sb(k), mix(*u)));
        }
        (TStep::Unique(k, u), Out::V(v)) => {
            if let Some(old) = pick(m, k, v, "insert_unique")? {
                m.m.remove(&old);
            }
            m.m.insert(*u, (sb(k), mix(*u)));
        }
        (TStep::Remove(k), Out::V(v)) => {
            if let Some(old) = pick(m, k, v, "remove")? {
                m.m.remove(&old);
            }
        }
        (TStep::Get(k), Out::V(v)) => {
            pick(m, k, v, "get")?;
        }
        (TStep::GetMut(k), Out::V(v)) => {
            if let Some(u) = pick(m, k, v, "get_mut")? {
                let e = m.m.get_mut(&u).unwrap();
                e.1 = mix(e.1);
            }
        }
        (TStep::IterMut, Out::All(v)) => {
            ensure!(v.len() == m.len(), "iter_mut yielded {} entries, expected {}", v.len(), m.len());
            for (_, u, p) in v {
                let Some(e) = m.m.get_mut(u) else { fail!("iter_mut yielded value {u}, which is not in the tree") };
                ensure!(e.1 == *p, "iter_mut yielded value {u} with payload {p}, expected {}", e.1);
                e.1 = mix(e.1 ^ 1);
            }
        }
        _ => fail!("harness: {st:?} gave {out:?}"),
    }
    Ok(())
}

/// Carries out the step. Values that come back are used and dropped.
pub fn apply_t<P: Pad>(t: &mut TTree<P>, st: &TStep) -> Out {
    let back = |v: Option<TVal<P>>| {
        Out::V(v.map(|v| {
            v.touch();
            (v.uid, v.pay)
        }))
    };
    match st {
        TStep::Insert(k, u) => {
            t.insert(TKey::new(k), TVal::new(*u, mix(*u)));
            Out::Done
        }
        TStep::Unique(k, u) => back(t.insert_unique(TKey::new(k), TVal::new(*u, mix(*u)))),
        TStep::Remove(k) => {
            let k = TKey::<P>::new(k);
            back(t.remove(&k))
        }
        TStep::Get(k) => {
            let k = TKey::<P>::new(k);
            Out::V(t.get(&k).map(|v| {
                v.touch();
                (v.uid, v.pay)
            }))
        }
        TStep::GetMut(k) => {
            let k = TKey::<P>::new(k);
            Out::V(t.get_mut(&k).map(|v| {
                v.touch();
                let r = (v.uid, v.pay);
                v.pay = mix(v.pay);
                r
            }))
        }
        TStep::IterMut => {
            let mut all = vec![];
            for (k, v) in t.iter_mut() {
                k.touch();
                v.touch();
                all.push((k.id, v.uid, v.pay));
                v.pay = mix(v.pay ^ 1);
            }
            Out::All(all)
        }
    }
}

/// The tokens of all keys and values reachable from the tree, all found alive.
pub fn reach<P: Pad>(t: &TTree<P>) -> (Vec<u32>, Vec<u32>) {
    let (mut a, mut b) = (vec![], vec![]);
    for (k, v) in t.iter() {
        k.touch();
        v.touch();
        a.push(k.tk.id);
        b.push(v.tk.id);
    }
    a.sort_unstable();
    b.sort_unstable();
    (a, b)
}

/// One step of a kept iterator: a fingerprint of what it yielded, None at the end.
pub type Cursor<'a> = Box<dyn FnMut(&mut Rng) -> Option<u64> + 'a>;
fn see<P: Pad>(k: &TKey<P>, v: &TVal<P>) -> u64 {
    k.touch();
    v.touch();
    mix2(v.uid, v.pay)
}
pub const CURSORS: usize = 7;
/// An iterator of some kind over the tree (and another).
pub fn cursor<'a, P: Pad>(kind: usize, seed: u64, t: &'a TTree<P>, o: &'a TTree<P>, s: &'a IdSet) -> Cursor<'a> {
    let m = TMod(1 + (seed % 7) as u32);
    match kind {
        0 => {
            let mut i = t.iter();
            Box::new(move |_| i.next().map(|e| see(e.0, e.1)))
        }
        1 => {
            let mut i = t.filter_iter::<TKey<P>, _>(TPick { s });
            Box::new(move |_| i.next().map(|e| see(e.0, e.1)))
        }
        2 => {
            let mut i = t.iter_asc_by(TRank(seed));
            Box::new(move |_| i.next().map(|e| see(e.0, e.1)))
        }
        3 => {
            let mut i = t.filter_iter_asc_by(TRankOpt(seed, seed % 100));
            Box::new(move |_| i.next().map(|e| see(e.0, e.1)))
        }
        4 => {
            let mut i = t.join::<_, _, _, TKey<P>, TKey<P>, _>(o, m);
            Box::new(move |_| i.next().map(|(a, b)| mix2(see(&a.0, &a.1), see(&b.0, &b.1))))
        }
        5 => {
            let mut i = t.left_join::<_, _, _, TKey<P>, TKey<P>, _>(o, m);
            Box::new(move |_| {
                i.next().map(|(a, b)| b.fold(see(&a.0, &a.1), |f, e| mix2(f, see(&e.0, &e.1))))
            })
        }
        _ => {
            // keeps the inner iterators, and the outer one only for a while
            let mut i = Some(t.left_join::<_, _, _, TKey<P>, TKey<P>, _>(o, m));
            let mut kept = vec![];
            Box::new(move |rng| {
                if rng.chance(50) && i.is_some() {
                    match i.as_mut().unwrap().next() {
                        Some((a, b)) => {
                            kept.push(b);
                            if rng.chance(10) {
                                i = None;
                            }
                            return Some(see(&a.0, &a.1));
                        }
                        None => i = None,
                    }
                }
                while !kept.is_empty() {
                    let n = rng.below(kept.len());
                    match kept[n].next() {
                        Some(e) => return Some(see(&e.0, &e.1)),
                        None => drop(kept.swap_remove(n)),
                    }
                }
                None
            })
        }
    }
}
/// Opens several iterators at once, advances them in turns, and abandons them.
pub fn browse<P: Pad>(rng: &mut Rng, t: &TTree<P>, o: &TTree<P>, s: &IdSet, steps: usize) -> u64 {
    let mut cs: Vec<Cursor> = (0..1 + rng.below(5)).map(|_| cursor(rng.below(CURSORS), rng.next(), t, o, s)).collect();
    let mut n = 0;
    for _ in 0..steps {
        if cs.is_empty() {
            break;
        }
        let i = rng.below(cs.len());
        match cs[i](rng) {
            Some(_) => n += 1,
            None => {
                // asking again after the end must be harmless, too
                if rng.chance(50) {
                    cs[i](rng);
                }
                drop(cs.swap_remove(i));
            }
        }
    }
    rng.shuffle(&mut cs);
    n
}
/// Opens one mutable iterator, keeps the references it gives, writes through them, and abandons it.
pub fn browse_mut<P: Pad>(rng: &mut Rng, t: &mut TTree<P>, s: &IdSet, steps: usize) -> u64 {
    fn go<'a, P: Pad>(it: impl Iterator<Item = (&'a TKey<P>, &'a mut TVal<P>)>, steps: usize) -> u64 {
        let mut held: Vec<(&TKey<P>, &mut TVal<P>)> = vec![];
        for e in it.take(steps) {
            see(e.0, e.1);
            held.push(e);
        }
        for e in held.iter_mut().rev() {
            see(e.0, e.1);
            e.1.pay = mix(e.1.pay);
        }
        held.len() as u64
    }
    let seed = rng.next();
    match rng.below(6) {
        0 => go(t.iter_mut(), steps),
        1 => go(t.filter_iter_mut::<TKey<P>, _>(TPick { s }), steps),
        2 => go(t.iter_asc_by_mut(TRank(seed)), steps),
        3 => go(t.filter_iter_asc_by_mut(TRankOpt(seed, seed % 100)), steps),
        4 => go(t.min_by_mut(TRank(seed)).into_iter(), steps),
        _ => go(t.filter_min_by_mut(TRankOpt(seed, seed % 100)).into_iter(), steps),
    }
}
