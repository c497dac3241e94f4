//! Random numbers, verdicts, statistics.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

#[derive(Debug, Clone)]
pub struct Fail(pub String);
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::common::Fail(format!($($a)*)));
        }
    };
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::common::Fail(format!($($a)*))) };
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8FEB86659FD93))
}

/// xoshiro256**
#[derive(Clone)]
pub struct Rng([u64; 4]);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            mix(s)
        };
        Rng([n(), n(), n(), n()])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let w = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.next() as u128 * w) >> 64) as i128) as i64
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        self.below(100) < pct as usize
    }
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        s[self.below(s.len())]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            s.swap(i, self.below(i + 1));
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// minimal sizes, for Miri
    Tiny,
    Quick,
    Thorough,
}

pub struct Stats {
    pub tier: Tier,
    pub c: BTreeMap<&'static str, u64>,
    pub mx: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub verbose: bool,
}
impl Stats {
    pub fn new(tier: Tier) -> Self {
        Stats { tier, c: BTreeMap::new(), mx: BTreeMap::new(), distinct: HashSet::new(), samples: vec![], verbose: false }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.mx.entry(k).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    /// Counts the case as distinct and non-trivial, under a fingerprint of what was observed.
    /// (Beyond the first 400000 of a worker they are no longer told apart, and not counted.)
    pub fn nontrivial(&mut self, fp: u64) {
        if self.distinct.len() < 400_000 {
            self.distinct.insert(fp);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            self.samples.push(s);
        }
    }
    pub fn json(&self) -> String {
        let esc = |s: &str| {
            let mut o = String::from("\"");
            for ch in s.chars() {
                match ch {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => o.push(' '),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let mut o = String::from("{\"counts\":{");
        o += &self.c.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"maxima\":{";
        o += &self.mx.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        o += "},\"distinct\":[";
        o += &self.distinct.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
        o += "],\"samples\":[";
        o += &self.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        o += "]}";
        o
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Payload of panics that the harness injects into callbacks.
pub struct Injected;

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
