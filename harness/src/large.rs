//! Larger trees, for what only the number of entries, levels or children brings out. Here the nodes of a tree are
//! told apart by where their bounds lie in memory, and found level by level: whatever is not known yet is rejected,
//! and so shows itself without what lies below it. (Where bounds cannot be told apart like this, nothing is said.)
use crate::alloc;
use crate::common::*;
use noisy_float::types::{n64, N64};
use rusty_rtree::bounds::{Bounded, Bounds, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::{JoinFilter, NoFilter, SpatialFilter};
use rusty_rtree::intersects::Intersects;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::{RTree, RTreeConfig};
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::fmt;

pub fn due(rng: &mut Rng, stats: &Stats, cases: usize) -> bool {
    stats.tier != Tier::Tiny && rng.below(cases) == 0
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static EQS: RefCell<Vec<(u32, u32)>> = const { RefCell::new(vec![]) };
    static INS: RefCell<Vec<(LB, LB)>> = const { RefCell::new(vec![]) };
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct LB {
    lo: [i32; 2],
    hi: [i32; 2],
}
impl fmt::Debug for LB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "`B{} {} {} {}`", self.lo[0], self.lo[1], self.hi[0], self.hi[1])
    }
}
impl LB {
    fn has(&self, r: &LB) -> bool {
        (0..2).all(|d| self.lo[d] <= r.lo[d] && self.hi[d] >= r.hi[d])
    }
    fn meets(&self, r: &LB) -> bool {
        (0..2).all(|d| self.lo[d] <= r.hi[d] && self.hi[d] >= r.lo[d])
    }
    fn join(&self, r: &LB) -> LB {
        LB { lo: std::array::from_fn(|d| self.lo[d].min(r.lo[d])), hi: std::array::from_fn(|d| self.hi[d].max(r.hi[d])) }
    }
    fn vol(&self) -> i64 {
        (0..2).map(|d| self.hi[d] as i64 - self.lo[d] as i64).product()
    }
    fn dist(&self, p: [i32; 2]) -> i64 {
        (0..2).map(|d| (self.lo[d] as i64 - p[d] as i64).max(p[d] as i64 - self.hi[d] as i64).max(0).pow(2)).sum()
    }
    fn none() -> LB {
        LB { lo: [i32::MAX; 2], hi: [i32::MIN; 2] }
    }
}
impl Contains<LB> for LB {
    fn contains(&self, r: &LB) -> bool {
        if ON.get() {
            INS.with_borrow_mut(|l| l.push((*self, *r)));
        }
        self.has(r)
    }
}
impl Intersects<LB> for LB {
    fn intersects(&self, r: &LB) -> bool {
        self.meets(r)
    }
}
impl Bounds for LB {
    fn empty() -> Self {
        LB::none()
    }
    fn union(a: &Self, b: &Self) -> Self {
        a.join(b)
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().fold(LB::none(), |a, b| a.join(&b))
    }
}
impl Volume for LB {
    fn volume(&self) -> N64 {
        if self.lo[0] > self.hi[0] {
            return n64(0.0);
        }
        n64(self.vol() as f64)
    }
}
/// Equal by id alone.
#[derive(Clone)]
struct LK {
    b: LB,
    id: u32,
}
impl fmt::Debug for LK {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "`K{}`", self.id)
    }
}
impl PartialEq for LK {
    fn eq(&self, o: &LK) -> bool {
        if ON.get() {
            EQS.with_borrow_mut(|l| l.push((self.id, o.id)));
        }
        self.id == o.id
    }
}
impl Eq for LK {}
impl Bounded<LB> for LK {
    fn bounds(&self) -> LB {
        self.b
    }
}
#[derive(Clone)]
struct LV(u64);
impl fmt::Debug for LV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "`V{}`", self.0)
    }
}
type T = RTree<LB, LK, LV>;

enum E {
    B(usize, LB, bool),
    K(u32),
    Y(u32),
}
struct Look<'a, FB, FK> {
    log: &'a RefCell<Vec<E>>,
    b: FB,
    k: FK,
}
impl<FB: Fn(usize, &LB) -> bool, FK: Fn(u32) -> bool> SpatialFilter<LB, LK> for Look<'_, FB, FK> {
    fn test_bounds(&self, b: &LB) -> bool {
        let at = b as *const LB as usize;
        let r = (self.b)(at, b);
        self.log.borrow_mut().push(E::B(at, *b, r));
        r
    }
    fn test_key(&self, k: &LK) -> bool {
        self.log.borrow_mut().push(E::K(k.id));
        (self.k)(k.id)
    }
}

struct Nd {
    b: LB,
    up: usize,
    depth: usize,
    kids: Vec<usize>,
    own: Vec<u32>,
}
struct Nodes {
    n: Vec<Nd>,
    at: HashMap<usize, usize>,
    leaf: Vec<usize>,
    root_shown: bool,
}
impl Nodes {
    fn of(t: &T, w: &World) -> Option<Nodes> {
        let whole = w.live.iter().flatten().fold(LB::none(), |a, b| a.join(b));
        let mut s = Nodes { n: vec![], at: HashMap::new(), leaf: vec![usize::MAX; w.live.len()], root_shown: false };
        s.n.push(Nd { b: whole, up: 0, depth: 0, kids: vec![], own: vec![] });
        for pass in 0..100 {
            let log = RefCell::new(vec![]);
            t.filter_iter::<LK, _>(Look { log: &log, b: |a, _: &LB| s.at.contains_key(&a), k: |_| true }).for_each(drop);
            let log = log.into_inner();
            if let (0, [E::B(a, b, _)]) = (pass, &log[..]) {
                if *b == whole {
                    s.at.insert(*a, 0);
                    s.root_shown = true;
                    continue;
                }
            }
            let known = s.at.len();
            let (mut cur, mut seen, mut new, mut fresh) = (0, 0, vec![], HashSet::new());
            for e in &log {
                match e {
                    E::B(a, b, true) => {
                        cur = s.at[a];
                        if s.n[cur].b != *b || (cur == 0 && seen > 0) {
                            return None;
                        }
                        seen += 1;
                    }
                    E::B(a, b, false) => {
                        if !fresh.insert(*a) {
                            return None;
                        }
                        let up = cur;
                        let i = s.n.len();
                        s.n[up].kids.push(i);
                        let depth = s.n[up].depth + 1;
                        s.n.push(Nd { b: *b, up, depth, kids: vec![], own: vec![] });
                        new.push((*a, i));
                    }
                    E::K(k) => {
                        s.n[cur].own.push(*k);
                        s.leaf[*k as usize] = cur;
                    }
                    E::Y(_) => {}
                }
            }
            if seen != known {
                return None;
            }
            if new.is_empty() {
                return Some(s);
            }
            s.at.extend(new);
            s.n.iter_mut().for_each(|x| x.own.clear());
        }
        None
    }
    /// The nodes from the leaf of the key up to the root.
    fn up(&self, i: usize) -> impl Iterator<Item = usize> + '_ {
        let mut next = (i != usize::MAX).then_some(i);
        std::iter::from_fn(move || {
            let i = next?;
            next = (i != 0).then(|| self.n[i].up);
            Some(i)
        })
    }
    fn depth(&self) -> u64 {
        self.n.last().map_or(0, |x| x.depth as u64 + 1)
    }
}

struct World {
    cfg: RTreeConfig,
    live: Vec<Option<LB>>,
    count: usize,
    span: i64,
    ext: usize,
    /// Boxes around one another, the greatest this far from the middle.
    rings: Option<i32>,
}
impl World {
    fn key(&mut self, rng: &mut Rng) -> LK {
        let lo: [i32; 2] = std::array::from_fn(|_| rng.range(0, self.span) as i32);
        let b = match self.rings {
            Some(far) if rng.chance(50) => self.ring(rng.below(far as usize) as i32),
            _ => LB { lo, hi: lo.map(|v| v + rng.below(self.ext) as i32) },
        };
        self.put(b)
    }
    fn ring(&self, r: i32) -> LB {
        let mid = (self.span / 2) as i32;
        LB { lo: [mid - r; 2], hi: [mid + r; 2] }
    }
    /// Boxes of which each contains all those before it: a node that is split keeps as few as it may, so that there are
    /// soon as many leaves as there can be below one node, almost all of them with few entries.
    fn surround(&mut self, rng: &mut Rng) -> Option<(i32, i32)> {
        let (m, few) = (self.cfg.max_children, self.cfg.min_children);
        if few > 2 || !(60..=600).contains(&m) || rng.chance(20) {
            return None;
        }
        let leaves = rng.pick(&[m / 2, m - 2, m - 2, m - 2, m + m / 2]);
        let (far, step) = ((m + leaves * (few + 1)) as i32, 1 + rng.below(5) as i32);
        self.span = 2 * (far * step + 10) as i64;
        self.rings = Some(far * step);
        Some((far, step))
    }
    fn put(&mut self, b: LB) -> LK {
        self.live.push(Some(b));
        self.count += 1;
        LK { b, id: self.live.len() as u32 - 1 }
    }
    fn some(&self, rng: &mut Rng) -> LK {
        loop {
            let id = rng.below(self.live.len());
            if let Some(b) = self.live[id] {
                return LK { b, id: id as u32 };
            }
        }
    }
    fn take(&mut self, t: &mut T, k: &LK) -> R {
        let v = t.remove(k);
        ensure!(v.as_ref().is_some_and(|v| v.0 == k.id as u64), "remove({k:?}) returned {v:?}");
        self.live[k.id as usize] = None;
        self.count -= 1;
        Ok(())
    }
    fn ctx(&self) -> String {
        format!("{} entries, max_children {}, min_children {}", self.count, self.cfg.max_children, self.cfg.min_children)
    }
}

fn config(rng: &mut Rng) -> RTreeConfig {
    if rng.chance(20) {
        return RTreeConfig { max_children: rng.pick(&[80, 160, 300, 300, 300]), min_children: 1 };
    }
    let (max_children, min_children) = rng.pick(&[
        (2, 1), (3, 1), (4, 1), (4, 2), (5, 2), (8, 3), (16, 8), (33, 10), (64, 20), (100, 1), (100, 2), (150, 60), (260, 130), (300, 2), (300, 100), (600, 250), (1100, 400), (5000, 2000),
    ]);
    RTreeConfig { max_children, min_children }
}
fn size(rng: &mut Rng, cfg: RTreeConfig, cap: usize) -> usize {
    // Trees of small nodes are looked at in as many passes as they have levels
    let cap = cap.min(cfg.max_children.saturating_mul(2000).max(5000));
    match rng.below(20) {
        0..=9 => 300 + rng.below(1700),
        10..=15 => 2000 + rng.below(4000),
        16..=18 => 6000 + rng.below(10_000),
        _ => 66_000 + rng.below(4000),
    }
    .min(cap)
}
fn build(rng: &mut Rng, cfg: RTreeConfig, n: usize) -> Result<(T, World), Fail> {
    let span = rng.pick(&[60i64, 1000, 100_000, 1 << 20]);
    let ext = rng.pick(&[1usize, 4, 100, span as usize / 30, span as usize]).max(1);
    let ext = if n > 6000 { ext.min(span as usize / 30) } else { ext };
    let mut w = World { cfg, live: vec![], count: 0, span, ext, rings: None };
    let mut t = T::new(cfg);
    if let Some((far, step)) = w.surround(rng) {
        for i in 0..far {
            let k = w.put(w.ring(i * step));
            let v = LV(k.id as u64);
            t.insert(k, v);
        }
        for _ in 0..rng.pick(&[0, 0, 0, 5, 100]) {
            let k = w.some(rng);
            w.take(&mut t, &k)?;
        }
        return Ok((t, w));
    }
    let unique = if n < 3000 { rng.pick(&[0, 20, 100]) } else { 1 };
    let again = rng.pick(&[0, 0, 10, 40]);
    while w.count < n {
        let k = w.key(rng);
        let v = LV(k.id as u64);
        if rng.chance(unique) {
            ensure!(t.insert_unique(k, v).is_none(), "insert_unique of a new key replaced something");
        } else {
            t.insert(k, v);
        }
        if rng.chance(again) {
            let k = w.some(rng);
            w.take(&mut t, &k)?;
        }
    }
    if rng.chance(40) {
        let to = rng.pick(&[1, n / 10, n / 2, n - n / 10]).max(1);
        let side = rng.chance(30);
        let mut ids: Vec<u32> = (0..w.live.len() as u32).filter(|i| w.live[*i as usize].is_some()).collect();
        if side {
            ids.sort_by_key(|i| w.live[*i as usize].unwrap().lo[0]);
        } else {
            rng.shuffle(&mut ids);
        }
        for id in ids {
            if w.count <= to {
                break;
            }
            let k = LK { b: w.live[id as usize].unwrap(), id };
            w.take(&mut t, &k)?;
        }
    }
    Ok((t, w))
}

/// C09 and C10: what the nodes hold, and what their bounds are.
fn nodes(prop: &str, rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = config(rng);
    let n = size(rng, cfg, usize::MAX);
    let (mut t, mut w) = build(rng, cfg, n)?;
    for round in 0..3 {
        let Some(s) = Nodes::of(&t, &w) else {
            stats.add("large_trees_not_told_apart", 1);
            return Ok(());
        };
        let deep = s.n.iter().filter(|x| !x.own.is_empty()).map(|x| x.depth).max().unwrap_or(0);
        let mut found = 0;
        for (i, x) in s.n.iter().enumerate() {
            let c = x.kids.len() + x.own.len();
            found += x.own.len();
            if prop == "C09" {
                ensure!(x.kids.is_empty() || x.own.is_empty(), "{}: the node {:?} has {} nodes and {} entries as children", w.ctx(), x.b, x.kids.len(), x.own.len());
                ensure!(!x.kids.is_empty() || x.depth == deep, "{}: a leaf at depth {}, where others are at {deep}", w.ctx(), x.depth);
                ensure!(c <= cfg.max_children && (c >= cfg.min_children || i == 0), "{}: the node {:?} at depth {} of {deep} has {c} children", w.ctx(), x.b, x.depth);
                ensure!(i > 0 || x.kids.is_empty() || c >= 2, "{}: the root has {c} child nodes", w.ctx());
            } else if i > 0 || s.root_shown {
                let u = x.own.iter().map(|k| w.live[*k as usize].unwrap_or(LB::none())).chain(x.kids.iter().map(|k| s.n[*k].b)).fold(LB::none(), |a, b| a.join(&b));
                ensure!(x.b == u, "{}: the bounds presented for a node at depth {} of {deep} are {:?}, but those of what lies in it are {u:?}", w.ctx(), x.depth, x.b);
            }
        }
        ensure!(found == w.count, "{}: {found} entries lie in the nodes", w.ctx());
        stats.add("large_tree_nodes", s.n.len() as u64);
        stats.max("most_levels_in_a_large_tree", s.depth());
        stats.nontrivial(mix2(w.count as u64, s.n.len() as u64));
        if round < 2 {
            for _ in 0..1 + rng.below(40) {
                if rng.chance(50) && w.count > 1 {
                    let k = w.some(rng);
                    w.take(&mut t, &k)?;
                } else {
                    let k = w.key(rng);
                    let v = LV(k.id as u64);
                    t.insert(k, v);
                }
            }
        }
    }
    done(stats, &w)
}
fn wide(stats: &mut Stats, w: &World, s: &Nodes) {
    if w.rings.is_some() {
        stats.add("trees_of_rings", 1);
        stats.max("most_children_in_a_tree_of_rings", s.n.iter().map(|n| n.kids.len()).max().unwrap_or(0) as u64);
    }
}
fn done(stats: &mut Stats, w: &World) -> R {
    stats.add("large_trees", 1);
    stats.max("most_entries_in_a_large_tree", w.count as u64);
    Ok(())
}

#[derive(Clone)]
struct JLook<'a, FB> {
    log: &'a RefCell<Vec<J>>,
    b: FB,
    pk: u64,
}
#[derive(Clone, Copy)]
enum J {
    B(usize, LB, usize, bool),
    K(u32, u32),
    Y(u32, u32),
}
impl<FB: Fn(&LB, &LB) -> bool> JoinFilter<LB, LB, LK, LK> for JLook<'_, FB> {
    fn test_bounds(&self, a: &LB, b: &LB) -> bool {
        let r = (self.b)(a, b);
        self.log.borrow_mut().push(J::B(a as *const LB as usize, *a, b as *const LB as usize, r));
        r
    }
    fn test_key(&self, a: &LK, b: &LK) -> bool {
        self.log.borrow_mut().push(J::K(a.id, b.id));
        mix2(a.id as u64, b.id as u64) % 100 >= self.pk
    }
}
fn boxhash(b: &LB) -> u64 {
    mix2(mix2(b.lo[0] as u64, b.lo[1] as u64), mix2(b.hi[0] as u64, b.hi[1] as u64))
}

fn prune(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = config(rng);
    let n = size(rng, cfg, 20_000);
    let (mut t, w) = build(rng, cfg, n)?;
    let Some(s) = Nodes::of(&t, &w) else { return Ok(()) };
    for i in 0..4 {
        let (seed, pct) = (rng.next(), rng.pick(&[1, 10, 40]));
        let log = RefCell::new(vec![]);
        let f = Look { log: &log, b: |_, b: &LB| mix2(seed, boxhash(b)) % 100 >= pct, k: |k| k % 2 == 0 };
        if i % 2 == 0 {
            t.filter_iter::<LK, _>(f).for_each(|(k, _)| log.borrow_mut().push(E::Y(k.id)));
        } else {
            t.filter_iter_mut::<LK, _>(f).for_each(|(k, _)| log.borrow_mut().push(E::Y(k.id)));
        }
        // None where it was not asked about
        let mut said: Vec<Option<bool>> = vec![None; s.n.len()];
        for e in log.borrow().iter() {
            match e {
                E::B(a, b, r) => {
                    let Some(x) = s.at.get(a).copied().filter(|x| s.n[*x].b == *b) else { continue };
                    for u in s.up(s.n[x].up).filter(|u| *u != x) {
                        ensure!(said[u] == Some(true) || (u == 0 && said[0].is_none()), "{}: the bounds of a node at depth {} were tested, where those of a node around it at depth {} were {:?}", w.ctx(), s.n[x].depth, s.n[u].depth, said[u]);
                    }
                    said[x] = Some(*r);
                }
                E::K(k) | E::Y(k) => {
                    for u in s.up(s.leaf[*k as usize]) {
                        ensure!(said[u] == Some(true) || (u == 0 && said[0].is_none()), "{}: key {k} was reached, where the bounds of a node around it at depth {} were {:?}", w.ctx(), s.n[u].depth, said[u]);
                    }
                }
            }
        }
        stats.add("trace_events", log.borrow().len() as u64);
    }
    // joins with another, much smaller or like it
    let n1 = rng.pick(&[3, 30, 300]);
    let c1 = config(rng);
    let (t1, w1) = build(rng, c1, n1)?;
    let Some(s1) = Nodes::of(&t1, &w1) else { return Ok(()) };
    let mut by: HashMap<LB, Vec<u32>> = HashMap::new();
    let swap = rng.chance(50);
    let (l, r, ls, rs, lw, rw) = if swap { (&t1, &t, &s1, &s, &w1, &w) } else { (&t, &t1, &s, &s1, &w, &w1) };
    lw.live.iter().enumerate().for_each(|(i, b)| by.entry(b.unwrap_or(LB::none())).or_default().push(i as u32));
    for i in 0..2 {
        let log = RefCell::new(vec![]);
        let (seed, pct) = (rng.next(), rng.pick(&[10, 40, 70]));
        let f = JLook { log: &log, b: |a: &LB, b: &LB| mix2(seed, mix2(boxhash(a), boxhash(b))) % 100 >= pct, pk: 50 };
        let cap = 60_000;
        if i == 0 {
            for (a, b) in l.join::<_, _, _, LK, LK, _>(r, f) {
                log.borrow_mut().push(J::Y(a.0.id, b.0.id));
                if log.borrow().len() > cap {
                    break;
                }
            }
        } else {
            for (a, it) in l.left_join::<_, _, _, LK, LK, _>(r, f) {
                for (b, _) in it {
                    log.borrow_mut().push(J::Y(a.0.id, b.id));
                }
                if log.borrow().len() > cap {
                    break;
                }
            }
        }
        let what = format!("{} of {} with {}", if i == 0 { "join" } else { "left_join" }, lw.ctx(), rw.ctx());
        const KEY: usize = 1 << 32;
        let mut said: HashMap<(usize, usize), bool> = HashMap::new();
        let lup = |x: usize| -> Vec<usize> { if x >= KEY { std::iter::once(x).chain(ls.up(ls.leaf[x - KEY])).collect() } else { ls.up(x).collect() } };
        for e in log.borrow().iter() {
            match e {
                J::B(a, ab, b, ok) => {
                    let Some(y) = rs.at.get(b).copied() else { continue };
                    let (xs, of_key) = match ls.at.get(a).copied().filter(|x| ls.n[*x].b == *ab) {
                        Some(x) => (vec![x], false),
                        None => (by.get(ab).map_or(vec![], |v| v.iter().map(|k| KEY + *k as usize).collect()), true),
                    };
                    if xs.len() == 1 {
                        let x = xs[0];
                        for p in lup(x) {
                            for q in rs.up(y) {
                                ensure!((p, q) == (x, y) || said.get(&(p, q)) != Some(&false), "{what}: a pair of bounds was tested below a pair that was rejected, at depths {} and {}", if p >= KEY { 99 } else { ls.n[p].depth }, rs.n[q].depth);
                            }
                        }
                    }
                    for x in &xs {
                        if *ok || (!of_key || xs.len() == 1) {
                            said.insert((*x, y), *ok);
                        }
                    }
                }
                J::K(a, b) | J::Y(a, b) => {
                    let p = lup(KEY + *a as usize);
                    let q: Vec<usize> = rs.up(rs.leaf[*b as usize]).collect();
                    for x in &p {
                        for y in &q {
                            ensure!(said.get(&(*x, *y)) != Some(&false), "{what}: keys {a} and {b} were reached, below a pair of bounds that was rejected");
                        }
                    }
                    for y in q.iter().filter(|y| **y != 0) {
                        ensure!(p.iter().any(|x| said.get(&(*x, *y)) == Some(&true)), "{what}: keys {a} and {b} were reached without asking about the bounds at depth {} around {b}", rs.n[*y].depth);
                    }
                    for x in p.iter().filter(|x| i == 0 && **x != 0 && **x < KEY) {
                        ensure!(q.iter().any(|y| said.get(&(*x, *y)) == Some(&true)), "{what}: keys {a} and {b} were reached without asking about the bounds at depth {} around {a}", ls.n[*x].depth);
                    }
                }
            }
        }
        stats.add("join_trace_events", log.borrow().len() as u64);
    }
    done(stats, &w)
}

struct Near<'a> {
    log: &'a RefCell<Vec<E>>,
    p: [i32; 2],
}
impl Ranking<LB, LK> for Near<'_> {
    type Metric = i64;
    fn bounds_min(&self, b: &LB) -> i64 {
        self.log.borrow_mut().push(E::B(b as *const LB as usize, *b, true));
        b.dist(self.p)
    }
    fn rank_key(&self, k: &LK) -> i64 {
        self.log.borrow_mut().push(E::K(k.id));
        k.b.dist(self.p)
    }
}
struct NearOpt<'a>(Near<'a>, i64);
impl Ranking<LB, LK> for NearOpt<'_> {
    type Metric = Option<i64>;
    fn bounds_min(&self, b: &LB) -> Option<i64> {
        let d = self.0.bounds_min(b);
        (d <= self.1).then_some(d)
    }
    fn rank_key(&self, k: &LK) -> Option<i64> {
        let d = self.0.rank_key(k);
        (d <= self.1).then_some(d)
    }
}
fn lazy(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = config(rng);
    let n = size(rng, cfg, usize::MAX);
    let (mut t, w) = build(rng, cfg, n)?;
    let Some(s) = Nodes::of(&t, &w) else { return Ok(()) };
    for i in 0..8 {
        let p = std::array::from_fn(|_| rng.range(-w.span / 8, w.span + w.span / 8) as i32);
        let log = RefCell::new(vec![]);
        let near = Near { log: &log, p };
        let most = (rng.range(0, w.span / 2)).pow(2);
        let stop = rng.pick(&[1, 5, 50, 2000]).min(w.count / 2 + 1);
        let (mut at, mut need, mut last, mut got) = (0, 0, -1, 0);
        macro_rules! go {
            ($it:expr) => {
                for (k, _) in ($it).into_iter().take(stop) {
                    let rank = k.b.dist(p);
                    ensure!(rank >= last, "{}: rank {rank} after {last}", w.ctx());
                    last = rank;
                    got += 1;
                    judge(&s, &log.borrow(), &mut at, &mut need, p, if i >= 4 { Some(most) } else { None })?;
                    ensure!(need <= rank, "{}: a ranked iteration from {p:?} has yielded up to rank {rank}, but asked for something in a node whose lower bound is {need}", w.ctx());
                }
            };
        }
        match i {
            0 => go!(t.iter_asc_by(near)),
            1 => go!(t.iter_asc_by_mut(near)),
            2 => go!(t.min_by(near)),
            3 => go!(t.min_by_mut(near)),
            4 => go!(t.filter_iter_asc_by(NearOpt(near, most))),
            5 => go!(t.filter_iter_asc_by_mut(NearOpt(near, most))),
            6 => go!(t.filter_min_by(NearOpt(near, most))),
            _ => go!(t.filter_min_by_mut(NearOpt(near, most))),
        }
        stats.add("questions", log.borrow().len() as u64);
        stats.add("yields", got);
    }
    done(stats, &w)
}
fn judge(s: &Nodes, log: &[E], at: &mut usize, need: &mut i64, p: [i32; 2], most: Option<i64>) -> R {
    for e in &log[*at..] {
        let from = match e {
            E::B(a, b, _) => match s.at.get(a).copied().filter(|x| s.n[*x].b == *b && *x != 0) {
                Some(x) => s.n[x].up,
                None => continue,
            },
            E::K(k) => s.leaf[*k as usize],
            E::Y(_) => continue,
        };
        for x in s.up(from) {
            let d = s.n[x].b.dist(p);
            ensure!(most.is_none_or(|m| d <= m), "a filtered ranked iteration asked for something in a node without a lower bound");
            *need = (*need).max(d);
        }
    }
    *at = log.len();
    Ok(())
}

fn watched<X>(f: impl FnOnce() -> X) -> (X, Vec<(u32, u32)>, Vec<(LB, LB)>) {
    EQS.with_borrow_mut(|l| l.clear());
    INS.with_borrow_mut(|l| l.clear());
    ON.set(true);
    let r = f();
    ON.set(false);
    (r, EQS.take(), INS.take())
}
fn keyed(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = config(rng);
    let n = size(rng, cfg, 20_000);
    let (mut t, mut w) = build(rng, cfg, n)?;
    for round in 0..6 {
        let Some(s) = Nodes::of(&t, &w) else { return Ok(()) };
        let mut by: HashMap<LB, Vec<usize>> = HashMap::new();
        s.n.iter().enumerate().for_each(|(i, x)| by.entry(x.b).or_default().push(i));
        let fits = |i: usize, k: &LK| s.up(i).all(|u| u == 0 || s.n[u].b.has(&k.b));
        let judge = |what: &str, k: &LK, hit: Option<u32>, eqs: &[(u32, u32)], ins: &[(LB, LB)], bounds: bool| -> R {
            let mut over = false;
            for (a, b) in eqs {
                let o = if *a == k.id { *b } else { *a };
                ensure!(!over, "{}: {what}({k:?}) compared key {o} after it had found an equal one", w.ctx());
                ensure!(fits(s.leaf[o as usize], k), "{}: {what}({k:?}) compared key {o}, in a node whose bounds do not contain those of the key", w.ctx());
                over = hit == Some(o);
            }
            for (a, b) in ins.iter().filter(|_| bounds) {
                let Some(v) = by.get(a).filter(|_| *b == k.b) else { continue };
                ensure!(v.iter().any(|i| *i == 0 || fits(s.n[*i].up, k)), "{}: {what}({k:?}) looked at bounds in a node whose bounds do not contain those of the key", w.ctx());
            }
            Ok(())
        };
        let mut asked = 0;
        for _ in 0..40 {
            let mut k = w.some(rng);
            let mut hit = Some(k.id);
            if rng.chance(30) {
                // no such key
                (k.id, hit) = (u32::MAX, None);
            }
            let (r, eqs, ins) = if rng.chance(50) { watched(|| t.get(&k).map(|v| v.0)) } else { watched(|| t.get_mut(&k).map(|v| v.0)) };
            ensure!(r == hit.map(|h| h as u64), "{}: get({k:?}) found {r:?}", w.ctx());
            judge("get", &k, hit, &eqs, &ins, true)?;
            asked += eqs.len() + ins.len();
        }
        match round % 3 {
            0 => {
                let k = w.some(rng);
                let (r, eqs, ins) = watched(|| t.remove(&k).map(|v| v.0));
                ensure!(r == Some(k.id as u64), "{}: remove({k:?}) returned {r:?}", w.ctx());
                judge("remove", &k, Some(k.id), &eqs, &ins, true)?;
                w.live[k.id as usize] = None;
                w.count -= 1;
                asked += eqs.len() + ins.len();
                if w.count < 3 {
                    break;
                }
            }
            1 => {
                let k = w.some(rng);
                let (r, eqs, ins) = watched(|| t.insert_unique(k.clone(), LV(k.id as u64)).map(|v| v.0));
                ensure!(r == Some(k.id as u64), "{}: insert_unique({k:?}) replaced {r:?}", w.ctx());
                judge("insert_unique", &k, Some(k.id), &eqs, &ins, true)?;
                let k = LK { b: w.some(rng).b, id: w.live.len() as u32 };
                let (r, eqs, ins) = watched(|| t.insert_unique(k.clone(), LV(k.id as u64)).map(|v| v.0));
                ensure!(r.is_none(), "{}: insert_unique({k:?}) replaced {r:?}", w.ctx());
                judge("insert_unique", &k, None, &eqs, &ins, false)?;
                w.live.push(Some(k.b));
                w.count += 1;
                asked += eqs.len() + ins.len();
            }
            _ => {
                let k = w.key(rng);
                let (_, eqs, _) = watched(|| t.insert(k.clone(), LV(k.id as u64)));
                ensure!(eqs.is_empty(), "{}: insert({k:?}) compared {} keys", w.ctx(), eqs.len());
            }
        }
        stats.add("questions", asked as u64);
    }
    done(stats, &w)
}

fn placed(rng: &mut Rng, stats: &mut Stats) -> R {
    let (mut cfg, mut n) = (config(rng), 0);
    n += size(rng, cfg, 20_000);
    if rng.chance(12) {
        // enough for inner nodes with hundreds of children
        (cfg.max_children, cfg.min_children) = rng.pick(&[(260, 1), (260, 130), (300, 2), (350, 100)]);
        n = 50_000 + rng.below(50_000);
    }
    let (mut t, mut w) = build(rng, cfg, n)?;
    let Some(mut s) = Nodes::of(&t, &w) else { return Ok(()) };
    let mut choices = 0;
    let rounds = if w.rings.is_some() { 40 } else if n > 20_000 { 5 } else { 12 };
    for _ in 0..rounds {
        let unique = rng.chance(30);
        let k = w.key(rng);
        let kb = k.b;
        let (mut todo, mut ok) = (vec![0], HashSet::new());
        while let Some(i) = todo.pop() {
            if s.n[i].kids.is_empty() {
                ok.insert(i);
                continue;
            }
            let cost = |c: &usize| {
                let b = &s.n[*c].b;
                (b.join(&kb).vol() - b.vol(), if unique { 0 } else { b.vol() })
            };
            let best = s.n[i].kids.iter().map(cost).min().unwrap();
            choices += s.n[i].kids.len() as u64;
            todo.extend(s.n[i].kids.iter().copied().filter(|c| cost(c) == best));
        }
        let id = k.id;
        let v = LV(id as u64);
        if unique {
            ensure!(t.insert_unique(k, v).is_none(), "insert_unique of a new key replaced something");
        } else {
            t.insert(k, v);
        }
        let Some(after) = Nodes::of(&t, &w) else { return Ok(()) };
        let leaf = after.leaf[id as usize];
        ensure!(leaf != usize::MAX, "{}: key {id} is in no leaf", w.ctx());
        let mates: Vec<u32> = after.n[leaf].own.iter().copied().filter(|k| *k != id).collect();
        let from: HashSet<usize> = mates.iter().map(|m| s.leaf[*m as usize]).collect();
        let fits = match from.len() {
            0 => ok.iter().any(|l| s.n[*l].own.len() >= cfg.max_children),
            1 => {
                let l = *from.iter().next().unwrap();
                ok.contains(&l) && (s.n[l].own.len() == mates.len() || s.n[l].own.len() >= cfg.max_children)
            }
            _ => false,
        };
        ensure!(fits, "{}: {} of {kb:?} put it in a leaf with {} others, where least enlargement leads to {} other leaves only", w.ctx(), if unique { "insert_unique" } else { "insert" }, mates.len(), ok.len());
        s = after;
    }
    stats.max("most_children", s.n.iter().map(|n| n.kids.len()).max().unwrap_or(0) as u64);
    stats.add("insertions_judged", rounds);
    stats.add("children_passed_over", choices);
    done(stats, &w)
}

fn stream(rng: &mut Rng, stats: &mut Stats) -> R {
    if !alloc::ACTIVE {
        return Ok(());
    }
    let cfg = config(rng);
    let n = size(rng, cfg, usize::MAX);
    let (mut t, w) = build(rng, cfg, n)?;
    let (c1, n1) = (config(rng), rng.pick(&[3, 40]));
    let (t1, _) = build(rng, c1, n1)?;
    let min = cfg.min_children;
    if min < 2 || c1.min_children < 2 {
        return Ok(());
    }
    let levels = |n: usize, min: usize| {
        let (mut d, mut need) = (1, 2 * min);
        while need <= n {
            need *= min;
            d += 1;
        }
        d
    };
    let d = levels(w.count, min);
    let lim = |d: i64| 2048 + 256 * (d + 2);
    let dj = d.max(levels(n1, c1.min_children));
    let mut worst = 0;
    macro_rules! held {
        ($what:expr, $lim:expr, $e:expr) => {{
            let at = alloc::peak_reset();
            $e;
            let p = alloc::peak_since(at);
            ensure!(p <= $lim, "{} of a tree of {}, at most {d} levels of nodes, took {p} bytes of memory at a time", $what, w.ctx());
            worst = worst.max(p);
        }};
    }
    struct Meet;
    impl Clone for Meet {
        fn clone(&self) -> Self {
            Meet
        }
    }
    impl JoinFilter<LB, LB, LK, LK> for Meet {
        fn test_bounds(&self, a: &LB, b: &LB) -> bool {
            a.meets(b)
        }
        fn test_key(&self, a: &LK, b: &LK) -> bool {
            a.b.meets(&b.b)
        }
    }
    held!("iter", lim(d), t.iter().for_each(drop));
    held!("iter_mut", lim(d), t.iter_mut().for_each(drop));
    held!("filter_iter", lim(d), t.filter_iter::<LK, _>(NoFilter).for_each(drop));
    held!("filter_iter_mut", lim(d), t.filter_iter_mut::<LK, _>(NoFilter).for_each(drop));
    held!("join", lim(dj), t.join::<_, _, _, LK, LK, _>(&t1, Meet).take(100_000).for_each(drop));
    held!("join", lim(dj), t1.join::<_, _, _, LK, LK, _>(&t, Meet).take(100_000).for_each(drop));
    held!("left_join", 2 * lim(dj), t.left_join::<_, _, _, LK, LK, _>(&t1, Meet).take(20_000).for_each(|(_, it)| it.for_each(drop)));
    held!("left_join", 2 * lim(dj), t1.left_join::<_, _, _, LK, LK, _>(&t, Meet).take(20).for_each(|(_, it)| it.for_each(drop)));
    let probe: Vec<LK> = (0..60).map(|i| if i % 3 == 0 { LK { id: u32::MAX, ..w.some(rng) } } else { w.some(rng) }).collect();
    held!("get", lim(d), probe.iter().for_each(|k| drop(t.get(k).is_some())));
    held!("get_mut", lim(d), probe.iter().for_each(|k| drop(t.get_mut(k).is_some())));
    stats.add("memory_measurements", 10);
    stats.max("most_bytes_held", worst as u64);
    let log = RefCell::new(vec![]);
    t.filter_iter::<LK, _>(Look { log: &log, b: |_, _: &LB| true, k: |k| k % 3 != 0 }).for_each(|(k, _)| log.borrow_mut().push(E::Y(k.id)));
    let log = log.into_inner();
    for (i, e) in log.iter().enumerate() {
        if let E::K(k) = e {
            ensure!(k % 3 == 0 || matches!(log.get(i + 1), Some(E::Y(y)) if y == k), "{}: key {k} was accepted, and something else asked before it was yielded", w.ctx());
        }
    }
    stats.add("trace_events", log.len() as u64);
    done(stats, &w)
}

fn format(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = config(rng);
    let n = size(rng, cfg, 20_000);
    let (t, w) = build(rng, cfg, n)?;
    let Some(s) = Nodes::of(&t, &w) else { return Ok(()) };
    let want: Vec<(u32, u64)> = t.iter().map(|(k, v)| (k.id, v.0)).collect();
    let mut boxes: Vec<String> = s.n.iter().map(|x| format!("{:?}", x.b)).map(|b| b.trim_matches('`').to_string()).collect();
    boxes.sort();
    for (how, text) in [("{:?}", format!("{t:?}")), ("{:#?}", format!("{t:#?}"))] {
        let (mut keys, mut vals, mut seen) = (vec![], vec![], vec![]);
        for tok in text.split('`').skip(1).step_by(2) {
            match tok.split_at(1) {
                ("K", r) => keys.push(r.parse::<u32>().unwrap_or(u32::MAX)),
                ("V", r) => vals.push(r.parse::<u64>().unwrap_or(u64::MAX)),
                _ => seen.push(tok.to_string()),
            }
        }
        ensure!(keys.iter().eq(want.iter().map(|x| &x.0)) && vals.iter().eq(want.iter().map(|x| &x.1)), "{how} of {} shows {} keys and {} values, or others than iteration yields", w.ctx(), keys.len(), vals.len());
        seen.sort();
        ensure!(seen == boxes, "{how} of {} shows {} bounds, or others than its {} nodes have", w.ctx(), seen.len(), boxes.len());
        stats.add("tokens", (keys.len() + vals.len() + seen.len()) as u64);
    }
    stats.max("most_levels_in_a_large_tree", s.depth());
    wide(stats, &w, &s);
    done(stats, &w)
}

thread_local! {
    static ALIVE: RefCell<HashMap<u64, u32>> = RefCell::new(HashMap::new());
    static TWICE: Cell<u64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}
/// One of the things that are to be dropped once.
struct Once(u64);
impl Once {
    fn new() -> Once {
        MADE.set(MADE.get() + 1);
        ALIVE.with_borrow_mut(|m| m.insert(MADE.get(), 1));
        Once(MADE.get())
    }
}
impl Clone for Once {
    fn clone(&self) -> Once {
        Once::new()
    }
}
impl Drop for Once {
    fn drop(&mut self) {
        if ALIVE.with_borrow_mut(|m| m.remove(&self.0)).is_none() {
            TWICE.set(TWICE.get() + 1);
        }
    }
}
#[derive(Clone)]
struct DK(LK, #[allow(dead_code)] Once);
impl PartialEq for DK {
    fn eq(&self, o: &DK) -> bool {
        self.0.id == o.0.id
    }
}
impl Eq for DK {}
impl Bounded<LB> for DK {
    fn bounds(&self) -> LB {
        self.0.b
    }
}
fn dropped(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = config(rng);
    let mut n = size(rng, cfg, 20_000);
    ALIVE.with_borrow_mut(|m| {
        m.clear();
        m.reserve(6 * n + 100);
    });
    TWICE.set(0);
    let span = rng.pick(&[60, 100_000]);
    let mut w = World { cfg, live: Vec::with_capacity(3 * n + 100), count: 0, span, ext: 4, rings: None };
    let alive = |what: &str, want: usize| -> R {
        let got = ALIVE.with_borrow(|m| m.len());
        ensure!(TWICE.get() == 0, "after {what}: {} keys or values were dropped twice", TWICE.get());
        ensure!(got == want, "after {what}: {got} keys and values are alive, {want} should be");
        Ok(())
    };
    let mark = alloc::mark();
    {
        let mut t: RTree<LB, DK, Once> = RTree::new(cfg);
        let mut n2 = 0;
        if let Some((far, step)) = w.surround(rng) {
            for i in 0..far {
                let k = w.put(w.ring(i * step));
                t.insert(DK(k, Once::new()), Once::new());
            }
            n = n.min(w.count + 100);
            stats.add("trees_of_rings", 1);
        }
        while w.count < n {
            t.insert(DK(w.key(rng), Once::new()), Once::new());
            if rng.chance(20) {
                let k = w.some(rng);
                let probe = DK(k.clone(), Once::new());
                if rng.chance(50) {
                    ensure!(t.remove(&probe).is_some(), "remove({k:?}) found nothing");
                    w.live[k.id as usize] = None;
                    w.count -= 1;
                } else {
                    ensure!(t.insert_unique(probe, Once::new()).is_some(), "insert_unique({k:?}) replaced nothing");
                }
            }
            n2 += 1;
            if n2 % 500 == 0 {
                alive("a history", 2 * w.count)?;
            }
        }
        alive("a history", 2 * w.count)?;
        let mut u = t.clone();
        alive("cloning", 4 * w.count)?;
        let c = w.count;
        for _ in 0..rng.below(c) {
            let k = w.some(rng);
            let probe = DK(k.clone(), Once::new());
            if u.remove(&probe).is_some() {
                w.live[k.id as usize] = None;
                w.count -= 1;
            }
            if w.count == 0 {
                break;
            }
        }
        alive("removals from the clone", 2 * c + 2 * w.count)?;
        if rng.chance(50) {
            drop(t);
            alive("dropping the original", 2 * w.count)?;
            drop(u.iter().take(rng.below(w.count + 1)).count());
        } else {
            drop(u);
            alive("dropping the clone", 2 * c)?;
            drop(t.iter().take(rng.below(c)).count());
        }
    }
    alive("dropping everything", 0)?;
    let at = alloc::balance(&mark);
    ensure!(at.is_none(), "{}: {}", w.ctx(), at.unwrap());
    stats.add("dropped_in_large_trees", 2 * n as u64);
    done(stats, &w)
}

fn emptied(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = config(rng);
    let n = size(rng, cfg, 12_000);
    let (mut t, mut w) = build(rng, cfg, n)?;
    let mut ids: Vec<u32> = (0..w.live.len() as u32).filter(|i| w.live[*i as usize].is_some()).collect();
    rng.shuffle(&mut ids);
    for id in ids {
        let k = LK { b: w.live[id as usize].unwrap(), id };
        w.take(&mut t, &k)?;
    }
    ensure!(t.len() == 0 && t.is_empty(), "len() = {} after all was removed", t.len());
    let log = RefCell::new(vec![]);
    ensure!(t.iter().next().is_none() && t.iter_mut().next().is_none(), "an emptied tree yields entries");
    ensure!(t.filter_iter::<LK, _>(NoFilter).next().is_none(), "filter_iter on an emptied tree yields entries");
    ensure!(t.min_by(Near { log: &log, p: [0, 0] }).is_none() && t.iter_asc_by_mut(Near { log: &log, p: [0, 0] }).next().is_none(), "ranked iteration of an emptied tree yields entries");
    let k = LK { b: LB { lo: [0, 0], hi: [1, 1] }, id: 7 };
    ensure!(t.get(&k).is_none() && t.remove(&k).is_none(), "a lookup on an emptied tree found something");
    let c = t.clone();
    ensure!(c.is_empty() && c.iter().next().is_none(), "a clone of an emptied tree is not empty");
    // accepts new entries as a new tree does
    let mut fresh = T::new(cfg);
    let mut other = c;
    let m = rng.pick(&[1, 10, 400]);
    for _ in 0..m {
        let k = w.key(rng);
        let v = LV(k.id as u64);
        other.insert(k.clone(), v.clone());
        fresh.insert(k.clone(), v.clone());
        t.insert(k, v);
    }
    let all = |t: &T| {
        let mut v: Vec<u32> = t.iter().map(|(k, _)| k.id).collect();
        v.sort();
        v
    };
    ensure!(all(&t) == all(&fresh) && all(&other) == all(&fresh), "{}: an emptied tree holds other entries than a new one after the same insertions", w.ctx());
    let (Some(a), Some(b), Some(o)) = (Nodes::of(&t, &w), Nodes::of(&fresh, &w), Nodes::of(&other, &w)) else { return Ok(()) };
    let worst = |s: &Nodes| s.n.iter().skip(1).filter(|x| x.kids.len() + x.own.len() > cfg.max_children || x.kids.len() + x.own.len() < cfg.min_children).count();
    ensure!(worst(&a) <= worst(&b) && worst(&o) <= worst(&b), "{}: an emptied tree has nodes of wrong sizes after new insertions", w.ctx());
    stats.nontrivial(mix2(n as u64, m as u64));
    done(stats, &w)
}

pub fn case(prop: &str, rng: &mut Rng, stats: &mut Stats) -> R {
    match prop {
        #[cfg(feature = "c04")]
        "C04" => prune(rng, stats),
        #[cfg(feature = "c06")]
        "C06" => lazy(rng, stats),
        #[cfg(feature = "c09")]
        "C09" => nodes("C09", rng, stats),
        #[cfg(feature = "c10")]
        "C10" => nodes("C10", rng, stats),
        #[cfg(feature = "c12")]
        "C12" => dropped(rng, stats),
        #[cfg(feature = "c20")]
        "C20" => emptied(rng, stats),
        #[cfg(feature = "c21")]
        "C21" => keyed(rng, stats),
        #[cfg(feature = "c22")]
        "C22" => placed(rng, stats),
        #[cfg(feature = "c23")]
        "C23" => stream(rng, stats),
        #[cfg(feature = "c24")]
        "C24" => format(rng, stats),
        _ => unreachable!(),
    }
}
