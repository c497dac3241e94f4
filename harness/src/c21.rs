//! C21: keyed operations look only where the key can be. Bounds carry the ids of what they were formed from, and
//! every comparison of keys and every question whether bounds contain others is logged; nothing may be asked of
//! what lies below a node whose bounds do not contain those of the key.
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use noisy_float::types::N64;
use rusty_rtree::bounds::{Bounded, Bounds, SAABB, Volume};
use rusty_rtree::contains::Contains;
use rusty_rtree::filter::SpatialFilter;
use rusty_rtree::intersects::Intersects;
use rusty_rtree::RTree;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

enum Ask {
    /// was a key compared with this entry's key, equally
    Eq(u32, u32, bool),
    /// was one of these sets asked whether it contains the other
    In(IdSet, IdSet),
}
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LOG: RefCell<Vec<Ask>> = const { RefCell::new(vec![]) };
}
fn say(a: impl FnOnce() -> Ask) {
    if ON.with(|o| o.get()) {
        LOG.with(|l| l.borrow_mut().push(a()));
    }
}

/// Bounds compared by their boxes only, which know the ids of what they were formed from.
#[derive(Clone, Debug)]
struct GB(IdB);
impl Contains<GB> for GB {
    fn contains(&self, r: &GB) -> bool {
        say(|| Ask::In(self.0.ids.clone(), r.0.ids.clone()));
        (0..2).all(|d| self.0.lo[d] <= r.0.lo[d] && self.0.hi[d] >= r.0.hi[d])
    }
}
impl Intersects<GB> for GB {
    fn intersects(&self, r: &GB) -> bool {
        self.0.intersects(&r.0)
    }
}
impl Bounds for GB {
    fn empty() -> Self {
        GB(IdB::empty())
    }
    fn union(a: &Self, b: &Self) -> Self {
        GB(IdB::union(&a.0, &b.0))
    }
    fn union_all(b: impl IntoIterator<Item = Self>) -> Self {
        b.into_iter().fold(Self::empty(), |a, b| Self::union(&a, &b))
    }
}
impl Volume for GB {
    fn volume(&self) -> N64 {
        self.0.volume()
    }
}

/// A key without its identity: equality is by the box and a tag.
#[derive(Clone, Debug)]
struct Core {
    lo: [i32; 2],
    hi: [i32; 2],
    tag: u32,
    /// who it is, for the log only
    who: u32,
}
impl PartialEq for Core {
    fn eq(&self, o: &Self) -> bool {
        let r = self.lo == o.lo && self.hi == o.hi && self.tag == o.tag;
        say(|| Ask::Eq(self.who, o.who, r));
        r
    }
}
impl Eq for Core {}
impl Bounded<GB> for Core {
    fn bounds(&self) -> GB {
        GB(IdB { lo: self.lo, hi: self.hi, ids: IdSet::one(self.who) })
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Key(Core);
impl Bounded<GB> for Key {
    fn bounds(&self) -> GB {
        self.0.bounds()
    }
}
impl Borrow<Core> for Key {
    fn borrow(&self) -> &Core {
        &self.0
    }
}

/// Logs the bounds it is shown, and rejects the `not`-th of them.
struct See<'a>(&'a RefCell<Vec<IdSet>>, usize);
impl SpatialFilter<GB, Key> for See<'_> {
    fn test_bounds(&self, b: &GB) -> bool {
        let mut l = self.0.borrow_mut();
        l.push(b.0.ids.clone());
        l.len() != self.1 + 1
    }
    fn test_key(&self, _: &Key) -> bool {
        true
    }
}

type T = RTree<GB, Key, Val>;

struct World {
    t: T,
    live: HashMap<u32, Core>,
    next: u32,
    plan: Vec<Core>,
}

struct Nd {
    /// what its bounds say they were formed from (not all of what is below, if bounds that need not grow are left)
    says: IdSet,
    /// what really is below
    ids: IdSet,
    lo: [i32; 2],
    hi: [i32; 2],
}

/// Nodes below the root.
fn nodes(w: &World) -> Vec<Nd> {
    let log = RefCell::new(vec![]);
    w.t.filter_iter::<Key, _>(See(&log, usize::MAX - 1)).for_each(|_| ());
    let n = w.live.len();
    let mut res = vec![];
    for (j, says) in log.into_inner().into_iter().enumerate() {
        let mut gone = IdSet::of(w.live.keys().copied());
        for (k, _) in w.t.filter_iter::<Key, _>(See(&RefCell::new(vec![]), j)) {
            gone.cut(k.0.who);
        }
        if gone.len() == n {
            continue;
        }
        let (mut lo, mut hi) = ([i32::MAX; 2], [i32::MIN; 2]);
        for i in gone.iter() {
            if let Some(c) = w.live.get(&i) {
                for d in 0..2 {
                    lo[d] = lo[d].min(c.lo[d]);
                    hi[d] = hi[d].max(c.hi[d]);
                }
            }
        }
        res.push(Nd { says, ids: gone, lo, hi });
    }
    res
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Get,
    GetMut,
    Remove,
    Unique,
    Insert,
}

fn judge(op: Op, key: &Core, n: usize, nodes: &[Nd], stats: &mut Stats) -> Result<u64, Fail> {
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let shut: Vec<&Nd> = nodes.iter().filter(|x| !(0..2).all(|d| x.lo[d] <= key.lo[d] && key.hi[d] <= x.hi[d])).collect();
    let mut matched = false;
    // Where a new entry goes is another question: it may be asked of nodes that do not contain it.
    let inserts = op == Op::Insert || op == Op::Unique && !log.iter().any(|a| matches!(a, Ask::Eq(_, _, true)));
    let mut compared = 0;
    let mut fp = 7;
    for a in &log {
        match a {
            Ask::Eq(a, b, r) => {
                let e = if *a == key.who { *b } else { *a };
                compared += 1;
                fp = mix2(fp, e as u64);
                ensure!(op != Op::Insert, "{op:?}({key:?}) compared keys");
                ensure!(!matched, "{op:?}({key:?}) compared the key of entry {e} after it had found an equal one");
                matched |= *r;
                if let Some(Nd { ids, lo, hi, .. }) = shut.iter().find(|x| x.ids.has(e)) {
                    fail!("{op:?}({key:?}) compared the key of entry {e}, which lies in a node of {} of the {n} entries with bounds {lo:?}..{hi:?}, which do not contain those of the key", ids.len());
                }
            }
            Ask::In(..) if inserts => {}
            Ask::In(x, y) => {
                // the bounds of the key on the one side, those of a node (or of an entry) on the other
                let who = IdSet::one(key.who);
                let s = if *y == who { x } else if *x == who { y } else { continue };
                // (several nodes may say the same)
                let mut inside = None;
                for x in nodes.iter().filter(|x| x.says == *s) {
                    inside = shut.iter().find(|t| t.ids.len() > x.ids.len() && t.ids.sup(&x.ids)).map(|t| (x, *t));
                    if inside.is_none() {
                        break;
                    }
                }
                if let Some((x, Nd { ids, lo, hi, .. })) = inside {
                    fail!("{op:?}({key:?}) looked at the bounds of a node of {} entries inside one of {} with bounds {lo:?}..{hi:?}, which do not contain those of the key", x.ids.len(), ids.len());
                }
                fp = mix2(fp, s.hash());
            }
        }
    }
    stats.add("keys_compared", compared);
    stats.add("keys_not_compared", (n as u64).saturating_sub(compared));
    stats.add("nodes_shut", shut.len() as u64);
    Ok(fp)
}

fn op(w: &mut World, op: Op, key: Core, stats: &mut Stats) -> Result<u64, Fail> {
    let ns = nodes(w);
    let n = w.live.len();
    let who = key.who;
    ON.with(|o| o.set(true));
    let r: Result<(), Fail> = (|| {
        match op {
            Op::Get => {
                w.t.get::<Core>(&key);
            }
            Op::GetMut => {
                w.t.get_mut::<Core>(&key);
            }
            Op::Remove => {
                if let Some(v) = w.t.remove::<Core>(&key) {
                    w.live.remove(&(v.uid as u32));
                }
            }
            Op::Unique => {
                if w.t.insert_unique(Key(key.clone()), Val { uid: who as u64, pay: 0 }).is_none() {
                    w.live.insert(who, key.clone());
                }
            }
            Op::Insert => {
                w.t.insert(Key(key.clone()), Val { uid: who as u64, pay: 0 });
                w.live.insert(who, key.clone());
            }
        }
        Ok(())
    })();
    ON.with(|o| o.set(false));
    r?;
    if op == Op::Unique && !w.live.contains_key(&who) {
        // the value was replaced: its uid is no longer that of its key
        for (k, v) in w.t.iter_mut() {
            v.uid = k.0.who as u64;
        }
    }
    stats.add("operations_watched", 1);
    judge(op, &key, n, &ns, stats)
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 40) {
        return crate::large::case("C21", rng, stats);
    }
    ON.with(|o| o.set(false));
    LOG.with(|l| l.borrow_mut().clear());
    let cfg = pick_cfg(rng, stats.tier, false);
    let cap = size_cap(cfg, stats.tier).min(400);
    let n = pick_size(rng, stats.tier, cap);
    let mut w = World { t: RTree::new(cfg), live: HashMap::new(), next: 0, plan: vec![] };
    let span = rng.pick(&[3, 12, 60, 1000, 1_000_000]);
    let big = rng.pick(&[0, 1, 4, span / 3 + 1, span]);
    let dup = rng.pick(&[0, 5, 30]);
    let mut fp = 0;
    let mut watched = 0u64;
    let phases = 1 + rng.below(3);
    for ph in 0..phases {
        let steps = if ph == 0 { n } else { rng.below(n + 1) };
        for _ in 0..steps {
            w.next += 1;
            let who = w.next;
            let c = if rng.chance(dup) && !w.plan.is_empty() {
                let mut c = w.plan[rng.below(w.plan.len())].clone();
                c.who = who;
                if rng.chance(30) {
                    c.tag += 1;
                }
                c
            } else {
                let lo: [i32; 2] = std::array::from_fn(|_| rng.range(-span, span) as i32);
                let hi = std::array::from_fn(|d| lo[d] + if big == 0 { 0 } else { rng.range(0, big) as i32 });
                Core { lo, hi, tag: 0, who }
            };
            w.plan.push(c.clone());
            if w.plan.len() > 60 {
                let i = rng.below(60);
                w.plan.swap_remove(i);
            }
            let o = match (ph, rng.below(10)) {
                (0, 0..=4) => Op::Insert,
                (0, 5) => Op::Get,
                (0, _) => Op::Unique,
                (_, 0 | 1) => Op::Insert,
                (_, 2 | 3) => Op::Unique,
                (_, 4) => Op::Get,
                (_, 5) => Op::GetMut,
                _ => Op::Remove,
            };
            let c = if matches!(o, Op::Get | Op::GetMut | Op::Remove) && rng.chance(80) && !w.live.is_empty() {
                // an entry there is (the order in a map is not the seed's, so choose by number)
                let t = rng.below(w.next as usize) as u32;
                let id = *w.live.keys().min_by_key(|i| (i.abs_diff(t), **i)).unwrap();
                Core { who, ..w.live[&id].clone() }
            } else {
                c
            };
            // watching means listing the nodes: not every time in larger trees
            let f = op_or_quiet(&mut w, o, c, rng, stats)?;
            if let Some(f) = f {
                watched += 1;
                fp = mix2(fp, f);
            }
        }
    }
    if w.live.len() > cfg.max_children && watched > 0 {
        stats.nontrivial(fp);
    }
    stats.max("largest_tree", w.live.len() as u64);
    stats.sample(|| format!("max {} min {}: {watched} operations watched, {} entries at the end, coordinates within {span}, boxes up to {big} wide", cfg.max_children, cfg.min_children, w.live.len()));
    Ok(())
}

fn op_or_quiet(w: &mut World, o: Op, c: Core, rng: &mut Rng, stats: &mut Stats) -> Result<Option<u64>, Fail> {
    let len = w.live.len();
    if len < 40 || rng.below(len) < 20 {
        let cfgd = format!("{len} entries");
        return op(w, o, c, stats).map(Some).map_err(|e| Fail(format!("with {cfgd}: {}", e.0)));
    }
    // the same without looking
    let who = c.who;
    match o {
        Op::Get | Op::GetMut => {}
        Op::Insert => {
            w.live.insert(who, c.clone());
            w.t.insert(Key(c), Val { uid: who as u64, pay: 0 });
        }
        Op::Unique => {
            let k = c.clone();
            if w.t.insert_unique(Key(c), Val { uid: who as u64, pay: 0 }).is_none() {
                w.live.insert(who, k);
            } else {
                for (k, v) in w.t.iter_mut() {
                    v.uid = k.0.who as u64;
                }
            }
        }
        Op::Remove => {
            if let Some(v) = w.t.remove::<Core>(&c) {
                w.live.remove(&(v.uid as u32));
            }
        }
    }
    Ok(None)
}
