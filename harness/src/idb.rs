//! Instrumented bounds: a box together with the set of ids of the keys it was formed from. What a traversal
//! presents as the bounds of a node then says which keys the tree claims to be below it.
use crate::common::*;
use crate::hist::*;
use crate::keys::*;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

/// A set of ids, without trailing zero words.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct IdSet(pub Vec<u64>);
impl IdSet {
    pub fn one(id: u32) -> Self {
        let mut v = vec![0; id as usize / 64 + 1];
        v[id as usize / 64] = 1 << (id % 64);
        IdSet(v)
    }
    pub fn of(it: impl IntoIterator<Item = u32>) -> Self {
        let mut s = IdSet::default();
        for i in it {
            s.put(i);
        }
        s
    }
    pub fn put(&mut self, id: u32) {
        let w = id as usize / 64;
        if self.0.len() <= w {
            self.0.resize(w + 1, 0);
        }
        self.0[w] |= 1 << (id % 64);
    }
    pub fn cut(&mut self, id: u32) {
        if let Some(w) = self.0.get_mut(id as usize / 64) {
            *w &= !(1 << (id % 64));
        }
    }
    pub fn has(&self, id: u32) -> bool {
        self.0.get(id as usize / 64).is_some_and(|w| w >> (id % 64) & 1 == 1)
    }
    pub fn union(&self, o: &IdSet) -> IdSet {
        let (a, b) = if self.0.len() >= o.0.len() { (self, o) } else { (o, self) };
        let mut v = a.0.clone();
        for (x, y) in v.iter_mut().zip(&b.0) {
            *x |= y;
        }
        IdSet(v)
    }
    pub fn meet(&self, o: &IdSet) -> IdSet {
        let mut v: Vec<u64> = self.0.iter().zip(&o.0).map(|(a, b)| a & b).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        IdSet(v)
    }
    pub fn sup(&self, o: &IdSet) -> bool {
        o.0.len() <= self.0.len() && o.0.iter().zip(&self.0).all(|(b, a)| b & !a == 0)
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|w| w.count_ones() as usize).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
        self.0.iter().enumerate().flat_map(|(i, w)| (0..64).filter(move |b| w >> b & 1 == 1).map(move |b| i as u32 * 64 + b))
    }
    pub fn hash(&self) -> u64 {
        self.0.iter().fold(3, |a, w| mix2(a, *w))
    }
}
impl std::fmt::Debug for IdSet {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct IdB {
    pub lo: [i32; 2],
    pub hi: [i32; 2],
    pub ids: IdSet,
}
thread_local! {
    /// Bounds contain others by their boxes alone. Bounds that contain others may then have ids the union would
    /// add, so the ids of bounds are not to be relied on.
    pub static LOOSE: Cell<bool> = const { Cell::new(false) };
    /// Volumes are so many powers of two greater (or less) than the coordinates make them.
    pub static SCALE: Cell<i32> = const { Cell::new(0) };
}
impl Contains<IdB> for IdB {
    fn contains(&self, r: &IdB) -> bool {
        (0..2).all(|d| self.lo[d] <= r.lo[d] && self.hi[d] >= r.hi[d]) && (self.ids.sup(&r.ids) || LOOSE.get())
    }
}
impl Intersects<IdB> for IdB {
    fn intersects(&self, r: &IdB) -> bool {
        (0..2).all(|d| self.lo[d] <= r.hi[d] && self.hi[d] >= r.lo[d])
    }
}
impl Bounds for IdB {
    fn empty() -> Self {
        IdB { lo: [i32::MAX; 2], hi: [i32::MIN; 2], ids: IdSet::default() }
    }
    fn union(a: &Self, b: &Self) -> Self {
        IdB {
            lo: std::array::from_fn(|d| a.lo[d].min(b.lo[d])),
            hi: std::array::from_fn(|d| a.hi[d].max(b.hi[d])),
            ids: a.ids.union(&b.ids),
        }
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl Volume for IdB {
    fn volume(&self) -> N64 {
        let v: f64 = (0..2).map(|d| self.hi[d] as f64 - self.lo[d] as f64).product();
        noisy_float::types::n64(v * 2f64.powi(SCALE.get()))
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct IdKey {
    pub lo: [i32; 2],
    pub hi: [i32; 2],
    pub id: u32,
}
impl Bounded<IdB> for IdKey {
    fn bounds(&self) -> IdB {
        IdB { lo: self.lo, hi: self.hi, ids: IdSet::one(self.id) }
    }
}

pub type IdTree = RTree<IdB, IdKey, Val>;

/// The boxes of the ids in a tree, and their values' payloads.
#[derive(Clone, Default)]
pub struct IdModel {
    pub live: std::collections::BTreeMap<u32, ([i32; 2], [i32; 2])>,
    pub next: u32,
}
impl IdModel {
    pub fn ids(&self) -> IdSet {
        IdSet::of(self.live.keys().copied())
    }
    pub fn key(&self, id: u32) -> IdKey {
        let (lo, hi) = self.live[&id];
        IdKey { lo, hi, id }
    }
    pub fn bounds_of(&self, s: &IdSet) -> Option<IdB> {
        let mut b = IdB::empty();
        for id in s.iter() {
            let (lo, hi) = *self.live.get(&id)?;
            b = IdB::union(&b, &IdB { lo, hi, ids: IdSet::one(id) });
        }
        Some(b)
    }
}

/// Follows a history over plain boxes with a tree of id-carrying keys.
pub struct IdHist {
    h: Hist<BoxS<i32, 2>>,
    m: Model<rusty_rtree::bounds::SAABB<i32, 2>>,
    pub ids: IdModel,
    of: HashMap<u64, u32>,
}
pub enum IdStep {
    Insert(IdKey),
    Unique(IdKey),
    Remove(IdKey),
    Miss(IdKey),
    Touch,
}
impl IdHist {
    pub fn new(rng: &mut Rng, tier: Tier, cap: usize) -> Self {
        let mut h = Hist::<BoxS<i32, 2>>::new(rng, tier, cap);
        if rng.chance(80) {
            // keep clear of the extremes most of the time
            h.g = Plan::within(rng, -1000, 1000);
        }
        SCALE.set(if rng.chance(60) { 0 } else { rng.pick(&[-900, -200, -60, -40, -20, 20, 60, 900]) });
        IdHist { h, m: Model::new(), ids: IdModel { next: 1, ..Default::default() }, of: HashMap::new() }
    }
    pub fn at_phase_end(&self) -> bool {
        self.h.at_phase_end()
    }
    pub fn next(&mut self, rng: &mut Rng) -> Option<IdStep> {
        let st = self.h.next(rng, &self.m)?;
        Some(match st {
            Step::Insert(k) | Step::Unique(k) => {
                let id = self.ids.next;
                self.ids.next += 1;
                let uid = self.m.uid();
                self.of.insert(uid, id);
                self.ids.live.insert(id, (k.min.0, k.max.0));
                self.m.m.insert(uid, (k, 0));
                let k = self.ids.key(id);
                if id % 3 == 0 {
                    IdStep::Unique(k)
                } else {
                    IdStep::Insert(k)
                }
            }
            Step::Remove(k) => {
                let eq = self.m.equal(&k);
                if eq.is_empty() {
                    IdStep::Miss(IdKey { lo: k.min.0, hi: k.max.0, id: self.ids.next })
                } else {
                    let u = eq[rng.below(eq.len())];
                    let id = self.of[&u];
                    let key = self.ids.key(id);
                    self.ids.live.remove(&id);
                    self.m.m.remove(&u);
                    IdStep::Remove(key)
                }
            }
            _ => IdStep::Touch,
        })
    }
    /// The next step, carried out on the tree.
    pub fn step(&mut self, rng: &mut Rng, t: &mut IdTree) -> Option<R> {
        let st = self.next(rng)?;
        Some(apply(st, t))
    }
}
pub fn apply(st: IdStep, t: &mut IdTree) -> R {
    match st {
        IdStep::Insert(k) => {
            let v = Val { uid: k.id as u64, pay: 0 };
            t.insert(k, v)
        }
        IdStep::Unique(k) => {
            let v = Val { uid: k.id as u64, pay: 0 };
            ensure!(t.insert_unique(k.clone(), v).is_none(), "insert_unique({k:?}) replaced something");
        }
        IdStep::Remove(k) => match t.remove(&k) {
            Some(v) => ensure!(v.uid == k.id as u64, "remove({k:?}) returned {v:?}"),
            None => fail!("remove({k:?}) found nothing"),
        },
        IdStep::Miss(k) => ensure!(t.remove(&k).is_none(), "remove({k:?}) of an absent key returned something"),
        IdStep::Touch => {
            for (k, v) in t.iter_mut() {
                ensure!(v.uid == k.id as u64, "iter_mut yielded {k:?} -> {v:?}");
            }
        }
    }
    Ok(())
}
pub fn id_build(rng: &mut Rng, cfg: RTreeConfig, tier: Tier, cap: usize) -> Result<(IdTree, IdModel), Fail> {
    let mut h = IdHist::new(rng, tier, cap);
    let mut t = RTree::new(cfg);
    while let Some(r) = h.step(rng, &mut t) {
        r?;
    }
    Ok((t, h.ids))
}

#[derive(Clone, Debug)]
pub enum Ev {
    B(IdB, bool),
    K(u32, bool),
    Y(u32),
}

/// Logs everything it is asked about; decides by the given rules.
pub struct Rec<'a, FB: Fn(usize, &IdB) -> bool, FK: Fn(u32) -> bool> {
    pub log: &'a RefCell<Vec<Ev>>,
    pub nb: Cell<usize>,
    pub fb: FB,
    pub fk: FK,
}
impl<'a, FB: Fn(usize, &IdB) -> bool, FK: Fn(u32) -> bool> Rec<'a, FB, FK> {
    pub fn new(log: &'a RefCell<Vec<Ev>>, fb: FB, fk: FK) -> Self {
        Rec { log, nb: Cell::new(0), fb, fk }
    }
}
impl<'a, FB: Fn(usize, &IdB) -> bool, FK: Fn(u32) -> bool> SpatialFilter<IdB, IdKey> for Rec<'a, FB, FK> {
    fn test_bounds(&self, b: &IdB) -> bool {
        let n = self.nb.get();
        self.nb.set(n + 1);
        let r = (self.fb)(n, b);
        self.log.borrow_mut().push(Ev::B(b.clone(), r));
        r
    }
    fn test_key(&self, k: &IdKey) -> bool {
        let r = (self.fk)(k.id);
        self.log.borrow_mut().push(Ev::K(k.id, r));
        r
    }
}

/// Everything filter_iter presents when nothing is rejected.
pub fn trace(t: &IdTree) -> Vec<Ev> {
    let log = RefCell::new(vec![]);
    for (k, _) in t.filter_iter::<IdKey, _>(Rec::new(&log, |_, _| true, |_| true)) {
        log.borrow_mut().push(Ev::Y(k.id));
    }
    log.into_inner()
}
/// The keys that disappear from a traversal when the j-th bounds presented are rejected.
pub fn below(t: &IdTree, live: &IdSet, j: usize) -> IdSet {
    let log = RefCell::new(vec![]);
    let mut left = live.clone();
    for (k, _) in t.filter_iter::<IdKey, _>(Rec::new(&log, |n, _| n != j, |_| true)) {
        let w = k.id as usize / 64;
        if w < left.0.len() {
            left.0[w] &= !(1 << (k.id % 64));
        }
    }
    left.meet(live)
}

#[derive(Debug)]
pub struct Nd {
    pub ids: IdSet,
    pub kids: Vec<usize>,
    pub own: usize,
    pub depth: usize,
}
/// Reconstructs the tree of nodes from the sets of keys below them (in any order).
pub fn shape(live: &IdSet, sets: &[IdSet]) -> Result<Vec<Nd>, String> {
    let mut ord: Vec<&IdSet> = sets.iter().collect();
    ord.sort_by_key(|s| std::cmp::Reverse(s.len()));
    let mut nodes: Vec<Nd> = vec![];
    let mut owner: HashMap<u32, usize> = HashMap::new();
    if ord.first().is_none_or(|s| **s != *live) {
        nodes.push(Nd { ids: live.clone(), kids: vec![], own: 0, depth: 0 });
        live.iter().for_each(|i| {
            owner.insert(i, 0);
        });
    }
    for s in ord {
        let me = nodes.len();
        if me == 0 {
            nodes.push(Nd { ids: s.clone(), kids: vec![], own: 0, depth: 0 });
        } else {
            let mut p = None;
            for i in s.iter() {
                let Some(&o) = owner.get(&i) else { return Err(format!("node contains {i}, which its parents do not")) };
                if *p.get_or_insert(o) != o {
                    return Err(format!("nodes overlap without one containing the other ({s:?})"));
                }
            }
            let p = p.unwrap_or(0);
            let depth = nodes[p].depth + 1;
            nodes[p].kids.push(me);
            nodes.push(Nd { ids: s.clone(), kids: vec![], own: 0, depth });
        }
        for i in s.iter() {
            owner.insert(i, me);
        }
    }
    for o in owner.values() {
        nodes[*o].own += 1;
    }
    Ok(nodes)
}

#[derive(Clone, Debug)]
pub enum JEv {
    B(IdSet, IdSet, bool),
    K(u32, u32, bool),
    Y(u32, u32),
}
/// Logs every pair it is asked about; decides by a hash of the ids.
#[derive(Clone)]
pub struct JRec<'a> {
    pub log: &'a RefCell<Vec<JEv>>,
    pub seed: u64,
    pub pct_b: u64,
    pub pct_k: u64,
}
impl JRec<'_> {
    pub fn key(&self, a: u32, b: u32) -> bool {
        mix2(mix2(self.seed, a as u64), b as u64) % 100 >= self.pct_k
    }
}
impl rusty_rtree::filter::JoinFilter<IdB, IdB, IdKey, IdKey> for JRec<'_> {
    fn test_bounds(&self, a: &IdB, b: &IdB) -> bool {
        let r = mix2(mix2(self.seed, a.ids.hash()), b.ids.hash()) % 100 >= self.pct_b;
        self.log.borrow_mut().push(JEv::B(a.ids.clone(), b.ids.clone(), r));
        r
    }
    fn test_key(&self, a: &IdKey, b: &IdKey) -> bool {
        let r = self.key(a.id, b.id);
        self.log.borrow_mut().push(JEv::K(a.id, b.id, r));
        r
    }
}
