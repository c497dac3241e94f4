//! C06: ranked iteration is lazy. Every question a ranked traversal asks is logged; whenever it has yielded an
//! entry of rank m, all the nodes enclosing what it has asked about must have lower bounds of at most m.
use crate::c05::{IdRank, IdRankOpt};
use crate::common::*;
use crate::hist::*;
use crate::idb::*;
use crate::keys::*;
use rusty_rtree::ranking::Ranking;
use rusty_rtree::RTree;
use std::cell::RefCell;
use std::collections::HashMap;

enum Q {
    B(IdSet),
    K(u32),
}
struct Log<'a, R> {
    r: R,
    log: &'a RefCell<Vec<Q>>,
}
impl<R: Ranking<IdB, IdKey>> Ranking<IdB, IdKey> for Log<'_, R> {
    type Metric = R::Metric;
    fn bounds_min(&self, b: &IdB) -> R::Metric {
        self.log.borrow_mut().push(Q::B(b.ids.clone()));
        self.r.bounds_min(b)
    }
    fn rank_key(&self, k: &IdKey) -> R::Metric {
        self.log.borrow_mut().push(Q::K(k.id));
        self.r.rank_key(k)
    }
}

/// Bound of a node: None when it has none.
type Low = Option<i64>;
struct Watch<'a> {
    /// node sets by member, with their lower bounds
    of: HashMap<u32, Vec<(&'a IdSet, Low)>>,
    log: &'a RefCell<Vec<Q>>,
    /// events judged so far, and the largest bound enclosing any of them
    at: usize,
    need: Option<(i64, String)>,
    opened: u64,
}
impl<'a> Watch<'a> {
    fn new(nodes: &'a [IdSet], low: &dyn Fn(&IdSet) -> Low, log: &'a RefCell<Vec<Q>>) -> Self {
        let mut of: HashMap<u32, Vec<_>> = HashMap::new();
        for s in nodes {
            let l = low(s);
            for i in s.iter() {
                of.entry(i).or_default().push((s, l));
            }
        }
        Watch { of, log, at: 0, need: None, opened: 0 }
    }
    fn catch_up(&mut self, what: &str) -> R {
        let log = self.log.borrow();
        for q in &log[self.at..] {
            let (x, s) = match q {
                Q::B(s) => match s.iter().next() {
                    Some(x) => (x, Some(s)),
                    None => continue,
                },
                Q::K(k) => (*k, None),
            };
            for (t, l) in self.of.get(&x).into_iter().flatten() {
                if let Some(s) = s {
                    if !(t.sup(s) && t.len() > s.len()) {
                        continue;
                    }
                }
                let name = || match s {
                    None => format!("the rank of key {x}"),
                    Some(s) => format!("the lower bound of the node of {s:?}"),
                };
                match l {
                    None => fail!("{what}: asked for {}, although the node of {t:?} around it has no lower bound", name()),
                    Some(l) => {
                        if self.need.as_ref().is_none_or(|n| *l > n.0) {
                            self.need = Some((*l, format!("{} inside the node of {t:?}", name())));
                        }
                    }
                }
            }
            self.opened += 1;
        }
        self.at = log.len();
        Ok(())
    }
    fn yielded(&mut self, what: &str, rank: i64) -> R {
        self.catch_up(what)?;
        if let Some((n, w)) = &self.need {
            ensure!(*n <= rank, "{what}: has yielded up to rank {rank}, but asked for {w}, whose lower bound is {n}");
        }
        Ok(())
    }
}

fn run(rng: &mut Rng, stats: &mut Stats) -> R {
    let cfg = pick_cfg(rng, stats.tier, false);
    let (mut t, m) = id_build(rng, cfg, stats.tier, size_cap(cfg, stats.tier).min(400))?;
    let live = m.ids();
    let nodes: Vec<IdSet> = trace(&t).into_iter().filter_map(|e| if let Ev::B(b, _) = e { Some(b.ids.meet(&live)) } else { None }).collect();
    let mut fp = 0;
    let mut total = 0;
    for i in 0..8 {
        let rk = IdRank::new(rng);
        let ctx = format!("on {} entries (max {} min {}), ranks modulo {}", live.len(), cfg.max_children, cfg.min_children, rk.modulus);
        let log = RefCell::new(vec![]);
        let stop = if rng.chance(40) { 1 + rng.below(5) } else { usize::MAX };
        let low = |s: &IdSet| Some(s.iter().map(|i| rk.low(rk.of(i))).min().unwrap_or(i64::MAX));
        let olow = |s: &IdSet| IdRankOpt(rk).bounds_min(&IdB { lo: [0; 2], hi: [0; 2], ids: s.clone() }).map(|x| x.0);
        let mut w = Watch::new(&nodes, if i < 4 { &low } else { &olow }, &log);
        let mut yields = 0;
        macro_rules! go {
            ($what:literal, $it:expr) => {{
                let what = format!("{} {ctx}", $what);
                for (k, _) in ($it).take(stop) {
                    yields += 1;
                    w.yielded(&what, rk.of(k.id))?;
                }
                w.catch_up(&what)?;
            }};
        }
        match i {
            0 => go!("iter_asc_by", t.iter_asc_by(Log { r: rk, log: &log })),
            1 => go!("iter_asc_by_mut", t.iter_asc_by_mut(Log { r: rk, log: &log })),
            2 => go!("min_by", t.min_by(Log { r: rk, log: &log }).into_iter()),
            3 => go!("min_by_mut", t.min_by_mut(Log { r: rk, log: &log }).into_iter()),
            4 => go!("filter_iter_asc_by", t.filter_iter_asc_by(Log { r: IdRankOpt(rk), log: &log })),
            5 => go!("filter_iter_asc_by_mut", t.filter_iter_asc_by_mut(Log { r: IdRankOpt(rk), log: &log })),
            6 => go!("filter_min_by", t.filter_min_by(Log { r: IdRankOpt(rk), log: &log }).into_iter()),
            _ => go!("filter_min_by_mut", t.filter_min_by_mut(Log { r: IdRankOpt(rk), log: &log }).into_iter()),
        }
        stats.add("questions", w.opened);
        stats.add("yields", yields);
        total += w.opened;
        fp = mix2(fp, w.opened ^ rk.seed);
    }
    stats.add("traversals", 8);
    stats.add("nodes", nodes.len() as u64);
    stats.max("largest_tree", live.len() as u64);
    if nodes.len() > 2 {
        stats.nontrivial(fp);
    }
    stats.sample(|| format!("8 ranked traversals of {} entries in {} nodes (max {} min {}), {total} ranks and lower bounds asked for", live.len(), nodes.len(), cfg.max_children, cfg.min_children));
    Ok(())
}

pub fn case(rng: &mut Rng, stats: &mut Stats) -> R {
    if crate::large::due(rng, stats, 200) {
        return crate::large::case("C06", rng, stats);
    }
    run(rng, stats)
}
