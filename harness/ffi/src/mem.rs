//! An allocator that watches: within a region, freed blocks are poisoned and kept, a block freed twice or written after
//! being freed is noticed, and what is left over is counted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;
const RING: usize = 1024;
const MAX: usize = 1 << 14;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static BAD: Cell<u32> = const { Cell::new(0) };
    static KEPT: [Cell<(usize, usize, usize)>; RING] = const { [const { Cell::new((0, 0, 0)) }; RING] };
}
fn release(i: usize) {
    KEPT.with(|k| {
        let (p, n, a) = k[i].replace((0, 0, 0));
        if p != 0 {
            unsafe {
                if std::slice::from_raw_parts(p as *const u8, n).iter().any(|b| *b != 0xa5) { BAD.with(|b| b.set(b.get() | 2)) }
                System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(n, a));
            }
        }
    })
}
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        let _ = ON.try_with(|on| if on.get() {
            BLOCKS.with(|b| b.set(b.get() + 1));
            BYTES.with(|b| b.set(b.get() + l.size() as i64));
        });
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let keep = ON.try_with(|on| {
            if !on.get() { return false }
            // a block's place in the table is determined by its address
            let i = (p as usize >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 54;
            if KEPT.with(|k| k[i].get().0 == p as usize) { BAD.with(|b| b.set(b.get() | 1)); return true }
            BLOCKS.with(|b| b.set(b.get() - 1));
            BYTES.with(|b| b.set(b.get() - l.size() as i64));
            if l.size() > MAX { return false }
            std::ptr::write_bytes(p, 0xa5, l.size());
            release(i);
            KEPT.with(|k| k[i].set((p as usize, l.size(), l.align())));
            true
        }).unwrap_or(false);
        if !keep { System.dealloc(p, l) }
    }
}
pub struct Report {
    pub blocks: i64,
    pub bytes: i64,
    pub freed_twice: bool,
    pub written_after_free: bool,
}
/// Runs `f`, which must leave nothing behind, and reports.
pub fn region(f: impl FnOnce()) -> Report {
    BLOCKS.with(|b| b.set(0));
    BYTES.with(|b| b.set(0));
    BAD.with(|b| b.set(0));
    ON.with(|o| o.set(true));
    f();
    for i in 0..RING { release(i) }
    ON.with(|o| o.set(false));
    let bad = BAD.with(|b| b.get());
    Report { blocks: BLOCKS.with(|b| b.get()), bytes: BYTES.with(|b| b.get()), freed_twice: bad & 1 != 0, written_after_free: bad & 2 != 0 }
}
