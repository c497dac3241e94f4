//! Tracked objects: every birth, clone, use and drop of a tracked token is recorded, per thread.
use crate::common::*;
use std::cell::{Cell, RefCell};

#[derive(Default)]
pub struct Ledger {
    /// per token: 1 alive, 0 dropped
    pub state: Vec<u8>,
    pub kind: Vec<u8>,
    pub errors: Vec<String>,
    pub births: u64,
    pub clones: [u64; 3],
    pub drops: u64,
}
thread_local! {
    pub static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
}
const MAGIC: u32 = 0x70AB1E55;
const GONE: u32 = 0x0DEAD0DE;

pub const KEY: u8 = 0;
pub const VAL: u8 = 1;
pub const BND: u8 = 2;
const KINDS: [&str; 3] = ["key", "value", "bounds"];

/// A tracked token; embedded in keys, values and bounds.
#[derive(Debug)]
pub struct Tk {
    magic: u32,
    pub id: u32,
    pub kind: u8,
}
impl Tk {
    pub fn new(kind: u8) -> Tk {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.state.push(1);
            l.kind.push(kind);
            l.births += 1;
            Tk { magic: MAGIC, id: l.state.len() as u32 - 1, kind }
        })
    }
    fn complaint(&self, what: &str) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            if l.errors.len() < 5 {
                let s = if self.magic == GONE {
                    format!("{what} of a {} that was already dropped (token {})", KINDS[(self.kind % 3) as usize], self.id)
                } else if self.magic != MAGIC {
                    format!("{what} of memory that holds no live object (found {:#x})", self.magic)
                } else {
                    format!("{what} of a {} whose other copy was already dropped (token {})", KINDS[(self.kind % 3) as usize], self.id)
                };
                l.errors.push(s);
            }
        })
    }
    pub fn alive(&self) -> bool {
        self.magic == MAGIC
            && LEDGER.with(|l| l.borrow().state.get(self.id as usize).copied() == Some(1))
    }
    /// To be called whenever the object is used.
    pub fn touch(&self) {
        // (the table is not looked up under Miri, which sees the use of dead objects' memory, and is slow)
        if self.magic != MAGIC || !cfg!(miri) && !self.alive() {
            self.complaint("use");
        }
    }
}
impl Clone for Tk {
    fn clone(&self) -> Tk {
        if !self.alive() {
            self.complaint("clone");
        }
        LEDGER.with(|l| l.borrow_mut().clones[(self.kind % 3) as usize] += 1);
        Tk::new(self.kind % 3)
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        if !self.alive() {
            self.complaint("drop");
            return;
        }
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.state[self.id as usize] = 0;
            l.drops += 1;
        });
        // SAFETY: writes to a field of self
        unsafe { std::ptr::write_volatile(&mut self.magic, GONE) }
    }
}

pub fn reset() {
    LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
    FUSE.with(|f| f.set(-1));
    TICKS.with(|t| t.set(0));
}
pub fn errors() -> Option<String> {
    LEDGER.with(|l| l.borrow().errors.first().cloned())
}
pub fn live(kind: u8) -> Vec<u32> {
    LEDGER.with(|l| {
        let l = l.borrow();
        (0..l.state.len()).filter(|i| l.state[*i] == 1 && l.kind[*i] == kind).map(|i| i as u32).collect()
    })
}
pub fn clones() -> [u64; 3] {
    LEDGER.with(|l| l.borrow().clones)
}
pub fn totals() -> (u64, u64) {
    LEDGER.with(|l| (l.borrow().births, l.borrow().drops))
}

/// Called by every user callback: counts it, and panics when the fuse has burnt down.
pub fn tick() {
    TICKS.with(|t| t.set(t.get() + 1));
    let f = FUSE.with(|f| f.get());
    if f < 0 {
        return;
    }
    if f == 0 {
        FUSE.with(|x| x.set(-1));
        if !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Injected));
        }
        return;
    }
    FUSE.with(|x| x.set(f - 1));
}
/// Makes the k-th callback from now (0 = the next) panic.
pub fn arm(k: u64) {
    FUSE.with(|f| f.set(k as i64));
}
pub fn disarm() -> bool {
    FUSE.with(|f| f.replace(-1)) >= 0
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
