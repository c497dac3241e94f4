//! C11: a clone is equal to and independent of the original.
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use crate::ledger;
use crate::trk::*;
use noisy_float::types::{N32, N64};
use rusty_rtree::RTree;
use std::cell::RefCell;

type M = Model<rusty_rtree::bounds::SAABB<i32, 2>>;

/// Entries and presented bounds, in the order of traversal: the structure of the tree.
fn look<P: Pad>(t: &TTree<P>) -> Vec<(Vec<i64>, IdSet)> {
    struct See<'a>(&'a RefCell<Vec<(Vec<i64>, IdSet)>>);
    impl<P: Pad> rusty_rtree::filter::SpatialFilter<TB<P>, TKey<P>> for See<'_> {
        fn test_bounds(&self, b: &TB<P>) -> bool {
            b.touch();
            self.0.borrow_mut().push((b.lo.iter().chain(&b.hi).map(|v| *v as i64).collect(), b.ids.clone()));
            true
        }
        fn test_key(&self, k: &TKey<P>) -> bool {
            k.touch();
            true
        }
    }
    let log = RefCell::new(vec![]);
    for (k, v) in t.filter_iter::<TKey<P>, _>(See(&log)) {
        k.touch();
        v.touch();
        log.borrow_mut().push((vec![k.id as i64, v.uid as i64, v.pay as i64], IdSet::default()));
    }
    log.into_inner()
}
fn order<P: Pad>(t: &TTree<P>) -> Vec<(u32, u64, u64)> {
    t.iter().map(|(k, v)| (k.id, v.uid, v.pay)).collect()
}
fn matches<P: Pad>(t: &TTree<P>, m: &M, what: &str) -> R {
    ensure!(t.len() == m.len(), "{what}: len() is {}, expected {}", t.len(), m.len());
    let mut seen = std::collections::HashSet::new();
    for (k, v) in t.iter() {
        k.touch();
        v.touch();
        let Some(e) = m.m.get(&v.uid) else { fail!("{what}: yields value {} that does not belong to it", v.uid) };
        ensure!(e.0.min.0 == k.lo && e.0.max.0 == k.hi && e.1 == v.pay, "{what}: yields {:?} with value {} payload {}, expected {:?}", k.plain(), v.uid, v.pay, e);
        ensure!(seen.insert(v.uid), "{what}: yields value {} twice", v.uid);
    }
    ensure!(seen.len() == m.len(), "{what}: yields {} of {} entries", seen.len(), m.len());
    Ok(())
}
fn twin(m: &M) -> M {
    Model { m: m.m.clone(), next: m.next }
}

fn tracked<P: Pad>(rng: &mut Rng, stats: &mut Stats) -> R {
    ledger::reset();
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = TH::new(rng, stats.tier, size_cap(cfg, stats.tier).min(300));
    let mut t: TTree<P> = RTree::new(cfg);
    let (mut fp, mut big, mut n) = (rng.next(), 0usize, 0u64);
    loop {
        let st = h.next(rng);
        if let Some(st) = &st {
            let out = apply_t(&mut t, st);
            h.settle(st, &out)?;
            n += 1;
        }
        let end = st.is_none();
        if !end && n % (5 + 2 * h.m.len() as u64) != 0 && !h.h.at_phase_end() {
            continue;
        }
        // clone, and count what that took
        let before = (order(&t), look(&t));
        let c0 = ledger::clones();
        let mut u = if rng.chance(20) {
            // clone_from, onto a tree of another configuration
            let mut u: TTree<P> = RTree::new(pick_cfg(rng, stats.tier, false));
            for _ in 0..rng.below(12) {
                let k = h.m.random(rng).map(|x| h.m.m[&x].0);
                if let Some(k) = k {
                    let k = h.key(&k);
                    u.insert(TKey::new(&k), TVal::new(7, 7));
                }
            }
            let c0 = ledger::clones();
            u.clone_from(&t);
            let c1 = ledger::clones();
            ensure!((c1[0] - c0[0], c1[1] - c0[1]) == (t.len() as u64, t.len() as u64), "clone_from of {} entries cloned {} keys and {} values", t.len(), c1[0] - c0[0], c1[1] - c0[1]);
            u
        } else {
            let u = t.clone();
            let c1 = ledger::clones();
            ensure!((c1[0] - c0[0], c1[1] - c0[1]) == (t.len() as u64, t.len() as u64), "clone of {} entries cloned {} keys and {} values", t.len(), c1[0] - c0[0], c1[1] - c0[1]);
            u
        };
        let after = (order(&t), look(&t));
        ensure!(before == after, "cloning changed the original");
        ensure!(u.len() == t.len() && u.is_empty() == t.is_empty(), "the clone of {} entries says it has {}", t.len(), u.len());
        ensure!(order(&u) == before.0, "the clone of {} entries iterates in another order: {:?}, not {:?}", t.len(), order(&u), before.0);
        ensure!(look(&u) == before.1, "the clone of {} entries has other nodes or bounds", t.len());
        stats.add("clones_compared", 1);
        stats.add("entries_compared", t.len() as u64);
        big = big.max(t.len());
        fp = mix2(fp, t.len() as u64);

        // independence: operations on one, in random order also drop
        let mut um = twin(&h.m);
        let steps = 1 + rng.below(12 + h.m.len());
        let mode = rng.below(4);
        if mode == 0 {
            // only the clone changes
            let mut g = h.h_for(&um, rng);
            for _ in 0..steps {
                let Some(st) = g.next(rng) else { break };
                let out = apply_t(&mut u, &st);
                settle(&mut um, &st, &out)?;
                g.sync(&um);
            }
            h.adopt(&g);
            um.next = g.m.next;
            matches(&u, &um, "the changed clone")?;
            ensure!((order(&t), look(&t)) == before, "operations on the clone changed the original");
        } else if mode == 1 {
            // the same operations on both have the same results
            let mut g = h.h_for(&um, rng);
            for i in 0..steps {
                let Some(st) = g.next(rng) else { break };
                let (a, b) = (apply_t(&mut u, &st), apply_t(&mut t, &st));
                ensure!(a == b, "operation {i} after cloning, {st:?}, gave {a:?} on the clone and {b:?} on the original");
                settle(&mut um, &st, &a)?;
                h.settle(&st, &b)?;
                g.sync(&um);
            }
            ensure!(order(&u) == order(&t), "after the same {steps} operations clone and original iterate differently");
            ensure!(look(&u) == look(&t), "after the same {steps} operations clone and original have different nodes");
            h.adopt(&g);
            um.next = g.m.next;
            h.m.next = g.m.next;
            stats.add("twin_runs", 1);
        } else if mode == 2 {
            // the original goes on in its place, the clone is kept and must stay as it was
            for _ in 0..steps {
                let Some(st) = h.next(rng) else { break };
                let out = apply_t(&mut t, &st);
                h.settle(&st, &out)?;
            }
            ensure!((order(&u), look(&u)) == before, "operations on the original changed the clone");
        }
        matches(&t, &h.m, "the original")?;
        if mode == 3 || rng.chance(30) {
            // the original is dropped, the history goes on with the clone
            if mode == 3 {
                um = twin(&h.m);
            }
            if mode == 2 {
                drop(u);
            } else {
                let keep = h.m.next;
                drop(std::mem::replace(&mut t, u));
                h.m = um;
                h.m.next = h.m.next.max(keep);
                matches(&t, &h.m, "the clone, after the original was dropped,")?;
            }
        } else {
            drop(u);
            matches(&t, &h.m, "the original, after the clone was dropped,")?;
        }
        if let Some(e) = ledger::errors() {
            fail!("{e}");
        }
        if end {
            break;
        }
    }
    drop(t);
    if let Some(e) = ledger::errors() {
        fail!("{e}");
    }
    stats.max("largest_tree", big as u64);
    if big > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("{n} operations (max {} min {}), trees of up to {big} entries cloned, compared and then driven apart", cfg.max_children, cfg.min_children));
    ledger::reset();
    Ok(())
}

impl TH {
    /// A generator of further steps on a copy of the model.
    pub fn h_for(&self, m: &M, rng: &mut Rng) -> Fork {
        let mut h = Hist::<BoxS<i32, 2>>::new(rng, Tier::Tiny, usize::MAX);
        h.g = self.h.g.clone();
        Fork { h, m: twin(m), ids: self.ids.clone() }
    }
    /// Equal boxes keep equal ids.
    fn adopt(&mut self, f: &Fork) {
        self.ids = f.ids.clone();
    }
}
pub struct Fork {
    h: Hist<BoxS<i32, 2>>,
    pub m: M,
    pub ids: std::collections::HashMap<([i32; 2], [i32; 2]), u32>,
}
impl Fork {
    fn sync(&mut self, m: &M) {
        let n = self.m.next;
        self.m = twin(m);
        self.m.next = n;
    }
    /// Steps without regard to phases: insertions and removals of present and absent keys.
    pub fn next(&mut self, rng: &mut Rng) -> Option<TStep> {
        let fresh = |s: &mut Self, rng: &mut Rng| {
            let k = s.h.probe(rng, &s.m);
            let n = s.ids.len() as u32 + 1;
            let id = *s.ids.entry((k.min.0, k.max.0)).or_insert(n);
            IdKey { lo: k.min.0, hi: k.max.0, id }
        };
        let k = fresh(self, rng);
        // uids beyond those of the history, so that they stay distinct in both models
        let u = self.m.uid();
        Some(match rng.below(8) {
            0..=2 => TStep::Insert(k, u),
            3 => TStep::Unique(k, u),
            4 | 5 => TStep::Remove(k),
            6 => TStep::GetMut(k),
            _ if rng.chance(20) => TStep::IterMut,
            _ => TStep::Get(k),
        })
    }
}

/// Clones of trees over the other kinds of keys and bounds.
fn plain<S: Scn>(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let mut h = Hist::<S>::new(rng, stats.tier, size_cap(cfg, stats.tier).min(300));
    let (mut t, mut m) = build::<S>(rng, cfg, &mut h, stats)?;
    let mut u = t.clone();
    let ord = |t: &Tree<S>| t.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
    ensure!(ord(&u) == ord(&t) && u.len() == t.len(), "{}: clone and original of {} entries differ", S::NAME, m.len());
    let before = ord(&u);
    for _ in 0..m.len() + 20 {
        let k = h.probe(rng, &m);
        let st = match rng.below(4) {
            0 => Step::Remove(k),
            1 => Step::Insert(k),
            2 => Step::Unique(k),
            _ => Step::GetMut(k),
        };
        exec::<S>(&mut t, &mut m, st, stats)?;
    }
    ensure!(ord(&u) == before, "{}: operations on the original changed the clone", S::NAME);
    same(&format!("{}: original", S::NAME), t.iter().map(|(k, v)| (k, v.clone())), &m)?;
    if rng.chance(50) {
        drop(t);
        ensure!(ord(&u) == before, "{}: dropping the original changed the clone", S::NAME);
    } else {
        for (_, v) in u.iter_mut() {
            v.pay ^= 5;
        }
        drop(u);
        same(&format!("{}: original", S::NAME), t.iter().map(|(k, v)| (k, v.clone())), &m)?;
    }
    stats.add("plain_clones", 1);
    if before.len() > cfg.max_children {
        stats.nontrivial(before.iter().fold(7, |a, e| mix2(a, S::fp(&e.0))));
    }
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::bulk::due(rng, stats, 2666) {
        return crate::bulk::case("C11", rng, stats);
    }
    let f: &[fn(&mut Rng, &mut Stats) -> R] = &[
        tracked::<()>,
        tracked::<[u64; 9]>,
        tracked::<Al128>,
        tracked::<Box<u64>>,
        tracked::<String>,
        plain::<BoxS<i32, 2>>,
        plain::<PtS<N64, 3>>,
        plain::<LineS<i32, 2>>,
        plain::<TagS>,
        plain::<SloppyS>,
        plain::<StrS>,
    ];
    let f = rng.pick(f);
    f(rng, stats)
}
