//! C04: what a filter rejects is pruned. The filters decide by a hash of the ids they are shown, so that
//! rejections fall at every level; the trace of a whole traversal is then checked against the rejected sets, and
//! against the nodes of the tree (as a traversal that rejects nothing shows them): nothing is tested or yielded
//! before the bounds of every node around it were tested and accepted.
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use rusty_rtree::RTree;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

/// The nodes of a tree other than the root, by the sets of keys below them.
struct Nodes {
    idx: HashMap<IdSet, usize>,
    of: HashMap<u32, Vec<usize>>,
    sets: Vec<IdSet>,
}
impl Nodes {
    fn new(t: &IdTree, live: &IdSet, max: usize, stats: &mut Stats) -> Result<Self, Fail> {
        let mut n = Nodes { idx: HashMap::new(), of: HashMap::new(), sets: vec![] };
        let mut own: HashMap<usize, usize> = HashMap::new();
        let mut sizes = vec![];
        for e in trace(t) {
            match e {
                Ev::B(b, _) => {
                    if b.ids != *live && !n.idx.contains_key(&b.ids) {
                        n.idx.insert(b.ids.clone(), sizes.len());
                        b.ids.iter().for_each(|i| n.of.entry(i).or_default().push(sizes.len()));
                        sizes.push(b.ids.len());
                        n.sets.push(b.ids);
                    }
                }
                Ev::K(k, _) => {
                    let leaf = n.of(k).iter().copied().min_by_key(|i| sizes[*i]).unwrap_or(usize::MAX);
                    *own.entry(leaf).or_default() += 1;
                }
                Ev::Y(_) => {}
            }
        }
        if let Some((_, c)) = own.iter().find(|(_, c)| **c > max) {
            fail!("a traversal that accepts everything tested {c} keys with nothing but the same bounds before them, where a node has at most {max} children");
        }
        stats.add("nodes", sizes.len() as u64);
        Ok(n)
    }
    fn of(&self, k: u32) -> &[usize] {
        self.of.get(&k).map_or(&[], |v| v)
    }
    /// The nodes that properly enclose one with these keys (bounds of no node are those of a key).
    fn around<'a>(&'a self, s: &'a IdSet) -> impl Iterator<Item = usize> + 'a {
        let me = self.idx.get(s).copied();
        let of = s.iter().next().map_or(&[][..], |k| self.of(k));
        of.iter().copied().filter(move |i| Some(*i) != me && self.sets[*i].sup(s))
    }
}

fn check(what: &str, log: &[Ev], nodes: &Nodes, stats: &mut Stats) -> Result<(u64, u64), Fail> {
    let mut ok: HashSet<usize> = HashSet::new();
    for e in log {
        match e {
            Ev::B(b, r) => {
                for i in nodes.around(&b.ids) {
                    ensure!(ok.contains(&i), "{what}: bounds of {:?} were tested before the bounds of a node around it were tested and accepted", b.ids);
                }
                if let (true, Some(i)) = (*r, nodes.idx.get(&b.ids)) {
                    ok.insert(*i);
                }
            }
            Ev::K(k, _) | Ev::Y(k) => {
                for i in nodes.of(*k) {
                    ensure!(ok.contains(i), "{what}: key {k} was {} before the bounds of a node around it were tested and accepted", if matches!(e, Ev::Y(_)) { "yielded" } else { "tested" });
                }
            }
        }
    }
    let rej: Vec<&IdSet> = log.iter().filter_map(|e| if let Ev::B(b, false) = e { Some(&b.ids) } else { None }).collect();
    let mut of: HashMap<u32, Vec<&IdSet>> = HashMap::new();
    for r in &rej {
        for i in r.iter() {
            let l = of.entry(i).or_default();
            if !l.contains(r) {
                l.push(r);
            }
        }
    }
    for e in log {
        match e {
            Ev::B(b, _) => {
                let Some(x) = b.ids.iter().next() else { continue };
                for t in of.get(&x).into_iter().flatten() {
                    ensure!(!(t.sup(&b.ids) && t.len() > b.ids.len()), "{what}: bounds of {:?} were tested, although bounds of {t:?} were rejected", b.ids);
                }
            }
            Ev::K(k, _) | Ev::Y(k) => {
                if let Some(t) = of.get(k).and_then(|l| l.first()) {
                    fail!("{what}: key {k} was {}, although bounds of {t:?} were rejected", if matches!(e, Ev::Y(_)) { "yielded" } else { "tested" });
                }
            }
        }
    }
    stats.add("trace_events", log.len() as u64);
    stats.add("rejections", rej.len() as u64);
    let fp = log.iter().fold(1, |a, e| match e {
        Ev::B(b, r) => mix2(a, b.ids.hash() ^ *r as u64),
        Ev::K(k, _) => mix2(a, *k as u64),
        Ev::Y(_) => a,
    });
    Ok((rej.len() as u64, fp))
}

fn spatial(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let (mut t, m) = id_build(rng, cfg, stats.tier, size_cap(cfg, stats.tier).min(500))?;
    let live = m.ids();
    let nodes = Nodes::new(&t, &live, cfg.max_children, stats)?;
    let mut total = 0;
    let mut fp = 0;
    for i in 0..6 {
        let seed = rng.next();
        let pct = rng.pick(&[2, 10, 20, 40, 70]);
        let kpct = rng.pick(&[0, 50, 100]);
        let stop = if rng.chance(20) { rng.below(live.len() + 1) } else { usize::MAX };
        let log = RefCell::new(vec![]);
        // An empty tree's own bounds are none that could be below anything.
        let f = Rec::new(&log, |_, b: &IdB| mix2(seed, b.ids.hash()) % 100 >= pct, |k| mix2(seed, k as u64) % 100 >= kpct);
        if i % 2 == 0 {
            for (k, _) in t.filter_iter::<IdKey, _>(f).take(stop) {
                log.borrow_mut().push(Ev::Y(k.id));
            }
        } else {
            for (k, v) in t.filter_iter_mut::<IdKey, _>(f).take(stop) {
                v.pay += 1;
                log.borrow_mut().push(Ev::Y(k.id));
            }
        }
        let what = format!("{} on {} entries (max {} min {})", if i % 2 == 0 { "filter_iter" } else { "filter_iter_mut" }, live.len(), cfg.max_children, cfg.min_children);
        let (r, f) = check(&what, &log.into_inner(), &nodes, stats)?;
        total += r;
        fp = mix2(fp, f);
    }
    stats.add("spatial_traversals", 6);
    if total > 0 && live.len() > cfg.max_children {
        stats.nontrivial(fp);
    }
    stats.max("largest_tree", live.len() as u64);
    stats.sample(|| format!("6 filtered traversals of {} entries (max {} min {}) with {total} bounds rejected", live.len(), cfg.max_children, cfg.min_children));
    Ok(())
}

fn check_join(what: &str, log: &[JEv], left: Option<&Nodes>, right: &Nodes, stats: &mut Stats) -> Result<(u64, u64), Fail> {
    // Accepted pairs, by the node on the one side and each key on the other.
    let mut okl: HashSet<(usize, u32)> = HashSet::new();
    let mut okr: HashSet<(usize, u32)> = HashSet::new();
    for e in log {
        match e {
            JEv::B(a, b, r) => {
                if *r {
                    if let Some(i) = right.idx.get(b) {
                        okr.extend(a.iter().map(|k| (*i, k)));
                    }
                    if let Some(i) = left.and_then(|n| n.idx.get(a)) {
                        okl.extend(b.iter().map(|k| (*i, k)));
                    }
                }
            }
            JEv::K(x, y, _) | JEv::Y(x, y) => {
                let did = if matches!(e, JEv::Y(..)) { "yielded" } else { "tested" };
                for i in right.of(*y) {
                    ensure!(okr.contains(&(*i, *x)), "{what}: the pair of keys {x} and {y} was {did}, although for a node around {y} no pair of bounds around both was accepted before");
                }
                for i in left.map_or(&[][..], |n| n.of(*x)) {
                    ensure!(okl.contains(&(*i, *y)), "{what}: the pair of keys {x} and {y} was {did}, although for a node around {x} no pair of bounds around both was accepted before");
                }
            }
        }
    }
    let mut of: HashMap<u32, Vec<(&IdSet, &IdSet)>> = HashMap::new();
    let mut rej = 0;
    for e in log {
        if let JEv::B(a, b, false) = e {
            rej += 1;
            for i in a.iter() {
                of.entry(i).or_default().push((a, b));
            }
        }
    }
    for e in log {
        match e {
            JEv::B(a, b, _) => {
                let Some(x) = a.iter().next() else { continue };
                for (ta, tb) in of.get(&x).into_iter().flatten() {
                    ensure!(
                        !(ta.sup(a) && tb.sup(b) && (ta.len() > a.len() || tb.len() > b.len())),
                        "{what}: the pair of bounds of {a:?} and {b:?} was tested, although that of {ta:?} and {tb:?} was rejected"
                    );
                }
            }
            JEv::K(x, y, _) | JEv::Y(x, y) => {
                for (ta, tb) in of.get(x).into_iter().flatten() {
                    ensure!(!tb.has(*y), "{what}: the pair of keys {x} and {y} was {}, although the pair of bounds of {ta:?} and {tb:?} was rejected", if matches!(e, JEv::Y(..)) { "yielded" } else { "tested" });
                }
            }
        }
    }
    stats.add("join_trace_events", log.len() as u64);
    stats.add("join_rejections", rej);
    let fp = log.iter().fold(1, |a, e| match e {
        JEv::B(x, y, r) => mix2(a, mix2(x.hash(), y.hash()) ^ *r as u64),
        JEv::K(x, y, _) => mix2(a, ((*x as u64) << 32) | *y as u64),
        _ => a,
    });
    Ok((rej, fp))
}

fn join(rng: &mut Rng, stats: &mut Stats) -> R {
    let (c0, c1) = (pick_cfg(rng, stats.tier, false), pick_cfg(rng, stats.tier, false));
    let cap = |rng: &mut Rng| rng.pick(&[5usize, 20, 60, 120]);
    let (n0, n1) = (cap(rng), cap(rng));
    let (t0, m0) = id_build(rng, c0, stats.tier, n0)?;
    let (t1, m1) = id_build(rng, c1, stats.tier, n1)?;
    let nodes0 = Nodes::new(&t0, &m0.ids(), c0.max_children, stats)?;
    let nodes1 = Nodes::new(&t1, &m1.ids(), c1.max_children, stats)?;
    let mut total = 0;
    let mut fp = 0;
    for i in 0..4 {
        let log = RefCell::new(vec![]);
        let f = JRec { log: &log, seed: rng.next(), pct_b: rng.pick(&[2, 5, 10, 30, 60]), pct_k: rng.pick(&[0, 50, 100]) };
        let (own, other) = (&t0, &t1);
        let what = format!("{} of {} entries (max {}) with {} entries (max {})", if i % 2 == 0 { "join" } else { "left_join" }, m0.live.len(), c0.max_children, m1.live.len(), c1.max_children);
        if i % 2 == 0 {
            for (a, b) in own.join::<_, _, _, IdKey, IdKey, _>(other, f) {
                log.borrow_mut().push(JEv::Y(a.0.id, b.0.id));
            }
        } else {
            let hold = rng.chance(50);
            let mut held = vec![];
            for ((k, _), it) in own.left_join::<_, _, _, IdKey, IdKey, _>(other, f) {
                if hold && rng.chance(60) {
                    held.push((k, it));
                } else {
                    for (r, _) in it {
                        log.borrow_mut().push(JEv::Y(k.id, r.id));
                    }
                }
            }
            rng.shuffle(&mut held);
            for (k, it) in held {
                for (r, _) in it {
                    log.borrow_mut().push(JEv::Y(k.id, r.id));
                }
            }
        }
        let (r, f) = check_join(&what, &log.into_inner(), if i % 2 == 0 { Some(&nodes0) } else { None }, &nodes1, stats)?;
        total += r;
        fp = mix2(fp, f);
    }
    stats.add("joins", 4);
    if total > 0 && m0.live.len() + m1.live.len() > c0.max_children + c1.max_children {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("joins and left joins of {} entries (max {} min {}) with {} entries (max {} min {}), {total} pairs of bounds rejected", m0.live.len(), c0.max_children, c0.min_children, m1.live.len(), c1.max_children, c1.min_children));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 300) {
        return crate::large::case("C04", rng, stats);
    }
    if rng.chance(50) {
        spatial(rng, stats)
    } else {
        join(rng, stats)
    }
}
