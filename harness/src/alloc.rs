//! A checking global allocator: verifies that memory is freed once, with the size and alignment it was
//! allocated with, that nothing was written just outside it, and counts live blocks and bytes. Freed memory
//! is overwritten. Misuse is recorded (not panicked on, since it happens inside drop code) and read by the
//! monitors.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Checking;

pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static BAD_LAYOUT: AtomicU64 = AtomicU64::new(0);
pub static BAD_CANARY: AtomicU64 = AtomicU64::new(0);
pub static BAD_FREE: AtomicU64 = AtomicU64::new(0);
pub static ZERO_SIZE: AtomicU64 = AtomicU64::new(0);

const MAGIC: u64 = 0xA11C_0DED_5EED_0001;
const DEAD: u64 = 0xDEAD_0DED_5EED_0002;
const TAIL: usize = 16;
const CAN: u8 = 0xC5;
const HDR: usize = 32; // magic, size, align, offset

fn head(l: &Layout) -> usize {
    // header padded to alignment
    let a = l.align().max(16);
    HDR.div_ceil(a) * a
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() == 0 {
            ZERO_SIZE.fetch_add(1, Relaxed);
        }
        let h = head(&l);
        let a = l.align().max(16);
        let Some(total) = h.checked_add(l.size()).and_then(|t| t.checked_add(TAIL)) else {
            return std::ptr::null_mut();
        };
        let Ok(real) = Layout::from_size_align(total, a) else { return std::ptr::null_mut() };
        let base = System.alloc(real);
        if base.is_null() {
            return base;
        }
        let p = base.add(h);
        let w = p.sub(HDR) as *mut u64;
        w.write(MAGIC);
        w.add(1).write(l.size() as u64);
        w.add(2).write(l.align() as u64);
        w.add(3).write(h as u64);
        std::ptr::write_bytes(p, 0xA7, l.size().min(4096));
        std::ptr::write_bytes(p.add(l.size()), CAN, TAIL);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        let live = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
        if live > PEAK_BYTES.load(Relaxed) {
            PEAK_BYTES.fetch_max(live, Relaxed);
        }
        ALLOCS.fetch_add(1, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let w = p.sub(HDR) as *mut u64;
        if w.read() != MAGIC {
            // double free, or not the start of a block: leave it alone
            BAD_FREE.fetch_add(1, Relaxed);
            return;
        }
        let size = w.add(1).read() as usize;
        let align = w.add(2).read() as usize;
        if size != l.size() || align != l.align() {
            BAD_LAYOUT.fetch_add(1, Relaxed);
        }
        for i in 0..TAIL {
            if p.add(size + i).read() != CAN {
                BAD_CANARY.fetch_add(1, Relaxed);
                break;
            }
        }
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(size as i64, Relaxed);
        w.write(DEAD);
        std::ptr::write_bytes(p, 0xDD, size.min(4096));
        let orig = Layout::from_size_align_unchecked(size, align);
        let h = head(&orig);
        let total = h + size + TAIL;
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(total, align.max(16)));
    }
}

#[cfg(not(any(miri, feature = "plainalloc")))]
#[global_allocator]
static A: Checking = Checking;

pub const ACTIVE: bool = cfg!(not(any(miri, feature = "plainalloc")));

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    blocks: i64,
    bytes: i64,
    bad: [u64; 4],
}
fn bad() -> [u64; 4] {
    [BAD_LAYOUT.load(Relaxed), BAD_CANARY.load(Relaxed), BAD_FREE.load(Relaxed), ZERO_SIZE.load(Relaxed)]
}
pub fn mark() -> Mark {
    Mark { blocks: LIVE_BLOCKS.load(Relaxed), bytes: LIVE_BYTES.load(Relaxed), bad: bad() }
}
/// Forgets the greatest number of live bytes; returns how many there are now.
pub fn peak_reset() -> i64 {
    let l = LIVE_BYTES.load(Relaxed);
    PEAK_BYTES.store(l, Relaxed);
    l
}
/// The most bytes that were live since the reset, beyond those that were live then.
pub fn peak_since(at: i64) -> i64 {
    PEAK_BYTES.load(Relaxed) - at
}
pub fn allocs() -> u64 {
    ALLOCS.load(Relaxed)
}
/// Misuse of the allocator since the mark.
pub fn misuse(m: &Mark) -> Option<String> {
    let b = bad();
    if b != m.bad {
        return Some(format!(
            "allocator misuse: {} frees with a wrong layout, {} overruns past the end of a block, {} invalid or double frees, {} zero-sized allocations",
            b[0] - m.bad[0], b[1] - m.bad[1], b[2] - m.bad[2], b[3] - m.bad[3]
        ));
    }
    None
}
/// Misuse, or blocks still allocated since the mark.
pub fn balance(m: &Mark) -> Option<String> {
    if !ACTIVE {
        return None;
    }
    if let Some(s) = misuse(m) {
        return Some(s);
    }
    let (b, y) = (LIVE_BLOCKS.load(Relaxed) - m.blocks, LIVE_BYTES.load(Relaxed) - m.bytes);
    if b != 0 || y != 0 {
        return Some(format!("{b} blocks ({y} bytes) allocated but not freed"));
    }
    None
}
