//! Histories: phased sequences of operations, and the model they are compared with.
use crate::common::*;
use crate::keys::*;
use std::collections::BTreeMap;

pub struct Model<K> {
    /// uid -> (key, payload), in order of insertion
    pub m: BTreeMap<u64, (K, u64)>,
    pub next: u64,
}
impl<K: Eq + Clone> Model<K> {
    pub fn new() -> Self {
        Model { m: BTreeMap::new(), next: 1 }
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn uid(&mut self) -> u64 {
        self.next += 1;
        self.next - 1
    }
    pub fn equal(&self, k: &K) -> Vec<u64> {
        self.m.iter().filter(|(_, e)| e.0 == *k).map(|(u, _)| *u).collect()
    }
    pub fn random(&self, rng: &mut Rng) -> Option<u64> {
        if self.m.is_empty() {
            return None;
        }
        let (a, b) = (*self.m.keys().next().unwrap(), *self.m.keys().next_back().unwrap());
        let t = rng.range(a as i64, b as i64) as u64;
        self.m.range(t..).next().map(|(u, _)| *u)
    }
}

#[derive(Clone, Debug)]
pub enum Step<K> {
    Insert(K),
    Unique(K),
    Remove(K),
    Get(K),
    GetMut(K),
    IterMut,
}

#[derive(Clone, Copy, Debug)]
enum Kind {
    Grow(usize),
    Shrink(usize),
    Churn(usize),
}
#[derive(Clone, Copy, Debug)]
enum Order {
    Random,
    Fifo,
    Lifo,
    Spatial,
}
#[derive(Clone, Debug)]
struct Phase {
    kind: Kind,
    order: Order,
    dup: u32,
    uniq: u32,
    noise: u32,
}

/// Generates the steps of a history, reacting to the state of the model.
pub struct Hist<S: Scn> {
    pub g: S::G,
    phases: Vec<Phase>,
    i: usize,
    left: usize,
    started: bool,
    past: Vec<S::K>,
}

pub fn pick_size(rng: &mut Rng, tier: Tier, cap: usize) -> usize {
    let n = match tier {
        Tier::Tiny => rng.below(14),
        Tier::Quick => match rng.below(24) {
            0 => rng.below(5),
            1..=14 => rng.below(60),
            15..=21 => 20 + rng.below(160),
            22 => 100 + rng.below(400),
            _ => 300 + rng.below(1000),
        },
        Tier::Thorough => match rng.below(48) {
            0 | 1 => rng.below(5),
            2..=28 => rng.below(80),
            29..=42 => 20 + rng.below(200),
            43..=45 => 200 + rng.below(500),
            46 => 300 + rng.below(2000),
            _ => 1000 + rng.below(6000),
        },
    };
    n.min(cap)
}

impl<S: Scn> Hist<S> {
    pub fn new(rng: &mut Rng, tier: Tier, cap: usize) -> Self {
        let mut phases = vec![];
        let top = pick_size(rng, tier, cap);
        let n = 1 + rng.below(if top > 1000 { 2 } else if tier == Tier::Tiny { 3 } else { 5 });
        for i in 0..n {
            let kind = if i == 0 {
                Kind::Grow(top)
            } else {
                match rng.below(7) {
                    0 | 1 => Kind::Grow(if top == 0 { 0 } else { rng.below(top + top / 2 + 1) }),
                    2 => Kind::Shrink(0),
                    3 | 4 => Kind::Shrink(if top == 0 { 0 } else { rng.below(top) }),
                    _ => Kind::Churn(rng.below(top + 2)),
                }
            };
            phases.push(Phase {
                kind,
                order: rng.pick(&[Order::Random, Order::Random, Order::Fifo, Order::Lifo, Order::Spatial]),
                dup: rng.pick(&[0, 0, 5, 30, 80]),
                uniq: rng.pick(&[0, 10, 50, 100]),
                noise: rng.pick(&[0, 5, 20]),
            });
        }
        Hist { g: S::gen(rng), phases, i: 0, left: 0, started: false, past: vec![] }
    }
    fn new_key(&mut self, rng: &mut Rng, m: &Model<S::K>, dup: u32) -> S::K {
        let k = if rng.chance(dup) {
            if rng.chance(30) && !self.past.is_empty() {
                self.past[rng.below(self.past.len())].clone()
            } else {
                match m.random(rng) {
                    Some(u) => m.m[&u].0.clone(),
                    None => S::key(&mut self.g, rng),
                }
            }
        } else {
            S::key(&mut self.g, rng)
        };
        if self.past.len() < 16 {
            self.past.push(k.clone());
        } else {
            let i = rng.below(16);
            self.past[i] = k.clone();
        }
        k
    }
    /// A key to look up: usually present, else near or random.
    pub fn probe(&mut self, rng: &mut Rng, m: &Model<S::K>) -> S::K {
        match (rng.below(4), m.random(rng)) {
            (0, _) | (_, None) => S::key(&mut self.g, rng),
            (1, Some(u)) => S::near(&mut self.g, rng, &m.m[&u].0),
            (_, Some(u)) => m.m[&u].0.clone(),
        }
    }
    fn victim(&mut self, rng: &mut Rng, m: &Model<S::K>, o: Order) -> Option<S::K> {
        let u = match o {
            Order::Random => m.random(rng)?,
            Order::Fifo => *m.m.keys().next()?,
            Order::Lifo => *m.m.keys().next_back()?,
            Order::Spatial => {
                m.random(rng)?;
                (0..12).filter_map(|_| m.random(rng)).min_by_key(|u| S::ord(&m.m[u].0))?
            }
        };
        Some(m.m[&u].0.clone())
    }
    /// Was the last step the end of a phase?
    pub fn at_phase_end(&self) -> bool {
        !self.started
    }
    pub fn next(&mut self, rng: &mut Rng, m: &Model<S::K>) -> Option<Step<S::K>> {
        loop {
            let p = self.phases.get(self.i)?.clone();
            if !self.started {
                self.started = true;
                self.left = match p.kind {
                    Kind::Churn(n) => n,
                    Kind::Grow(n) => 2 * n + 20,
                    Kind::Shrink(_) => 2 * m.len() + 20,
                };
            }
            let done = self.left == 0
                || match p.kind {
                    Kind::Grow(n) => m.len() >= n,
                    Kind::Shrink(n) => m.len() <= n,
                    Kind::Churn(_) => false,
                };
            if done {
                self.i += 1;
                self.started = false;
                continue;
            }
            self.left -= 1;
            if rng.chance(p.noise) {
                return Some(match rng.below(6) {
                    0 => Step::Remove(S::key(&mut self.g, rng)),
                    1 => {
                        let k = self.probe(rng, m);
                        Step::Remove(k)
                    }
                    2 => Step::IterMut,
                    3 => Step::Get(self.probe(rng, m)),
                    _ => Step::GetMut(self.probe(rng, m)),
                });
            }
            let grow = match p.kind {
                Kind::Grow(_) => true,
                Kind::Shrink(_) => false,
                Kind::Churn(_) => rng.chance(50),
            };
            if grow {
                let k = self.new_key(rng, m, p.dup);
                return Some(if rng.chance(p.uniq) { Step::Unique(k) } else { Step::Insert(k) });
            }
            let k = self.victim(rng, m, p.order);
            return Some(match k {
                Some(k) => Step::Remove(k),
                None => Step::Remove(S::key(&mut self.g, rng)),
            });
        }
    }
}

/// Executes a step on tree and model; checks what it returns against the model.
pub fn exec<S: Scn>(t: &mut Tree<S>, m: &mut Model<S::K>, st: Step<S::K>, stats: &mut Stats) -> R {
    match st {
        Step::Insert(k) => {
            let uid = m.uid();
            let pay = mix(uid);
            t.insert(k.clone(), Val { uid, pay });
            m.m.insert(uid, (k, pay));
            stats.add("inserts", 1);
        }
        Step::Unique(k) => {
            let uid = m.uid();
            let pay = mix(uid);
            let eq = m.equal(&k);
            let r = t.insert_unique(k.clone(), Val { uid, pay });
            match r {
                None => {
                    ensure!(eq.is_empty(), "insert_unique({k:?}) returned None, but {} entries have an equal key", eq.len());
                    m.m.insert(uid, (k, pay));
                    stats.add("unique_added", 1);
                }
                Some(v) => {
                    ensure!(eq.contains(&v.uid), "insert_unique({k:?}) returned {v:?}, which is no entry with an equal key");
                    let old = m.m.remove(&v.uid).unwrap();
                    ensure!(old.1 == v.pay, "insert_unique({k:?}) returned {v:?}, but its payload was last set to {}", old.1);
                    m.m.insert(uid, (old.0, pay));
                    stats.add("unique_replaced", 1);
                }
            }
        }
        Step::Remove(k) => {
            let eq = m.equal(&k);
            match t.remove(&k) {
                None => {
                    ensure!(eq.is_empty(), "remove({k:?}) returned None, but {} entries have an equal key", eq.len());
                    stats.add("remove_missed", 1);
                }
                Some(v) => {
                    ensure!(eq.contains(&v.uid), "remove({k:?}) returned {v:?}, which is no entry with an equal key");
                    let old = m.m.remove(&v.uid).unwrap();
                    ensure!(old.1 == v.pay, "remove({k:?}) returned {v:?}, but its payload was last set to {}", old.1);
                    stats.add("removed", 1);
                }
            }
        }
        Step::Get(k) => {
            let eq = m.equal(&k);
            match t.get(&k) {
                None => ensure!(eq.is_empty(), "get({k:?}) found nothing, but {} entries have an equal key", eq.len()),
                Some(v) => {
                    ensure!(eq.contains(&v.uid), "get({k:?}) gave {v:?}, which is no entry with an equal key");
                    ensure!(m.m[&v.uid].1 == v.pay, "get({k:?}) gave {v:?} with an outdated payload");
                }
            }
            stats.add("lookups", 1);
        }
        Step::GetMut(k) => {
            let eq = m.equal(&k);
            match t.get_mut(&k) {
                None => ensure!(eq.is_empty(), "get_mut({k:?}) found nothing, but {} entries have an equal key", eq.len()),
                Some(v) => {
                    ensure!(eq.contains(&v.uid), "get_mut({k:?}) gave {v:?}, which is no entry with an equal key");
                    let e = m.m.get_mut(&v.uid).unwrap();
                    ensure!(e.1 == v.pay, "get_mut({k:?}) gave {v:?} with an outdated payload");
                    v.pay = mix(v.pay);
                    e.1 = v.pay;
                }
            }
            stats.add("lookups_mut", 1);
        }
        Step::IterMut => {
            let mut n = 0;
            for (k, v) in t.iter_mut() {
                n += 1;
                let Some(e) = m.m.get_mut(&v.uid) else { fail!("iter_mut yielded {k:?} -> {v:?}, which is not in the tree") };
                ensure!(e.0 == *k && e.1 == v.pay, "iter_mut yielded {k:?} -> {v:?}, expected {:?} -> {}", e.0, e.1);
                v.pay = mix(v.pay ^ 1);
                e.1 = v.pay;
            }
            ensure!(n == m.len(), "iter_mut yielded {n} entries, expected {}", m.len());
            stats.add("iter_mut_updates", 1);
        }
    }
    Ok(())
}

/// Grows a tree by a whole history without looking at it in between.
pub fn build<S: Scn>(
    rng: &mut Rng,
    cfg: rusty_rtree::RTreeConfig,
    h: &mut Hist<S>,
    stats: &mut Stats,
) -> Result<(Tree<S>, Model<S::K>), Fail> {
    let mut t: Tree<S> = rusty_rtree::RTree::new(cfg);
    let mut m = Model::new();
    while let Some(st) = h.next(rng, &m) {
        exec::<S>(&mut t, &mut m, st, stats)?;
    }
    Ok((t, m))
}

/// Compares a traversal with the model: exactly the model's entries, each once.
pub fn same<'a, K: Eq + Clone + std::fmt::Debug + 'a>(
    what: &str,
    it: impl Iterator<Item = (&'a K, Val)>,
    m: &Model<K>,
) -> R {
    let mut seen = std::collections::HashSet::new();
    for (k, v) in it {
        let Some(e) = m.m.get(&v.uid) else { fail!("{what} yielded {k:?} -> {v:?}, which is not in the tree") };
        ensure!(e.0 == *k && e.1 == v.pay, "{what} yielded {k:?} -> {v:?}, expected {:?} -> payload {}", e.0, e.1);
        ensure!(seen.insert(v.uid), "{what} yielded {k:?} -> {v:?} twice");
    }
    if seen.len() != m.len() {
        let miss = m.m.iter().find(|(u, _)| !seen.contains(u)).unwrap();
        fail!("{what} yielded {} of {} entries; missing {:?}", seen.len(), m.len(), miss);
    }
    Ok(())
}
