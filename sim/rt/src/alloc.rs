//! Global allocator seam. Allocations made by library code come from a bump heap
//! inside the checked region (red zones, no reuse: stale and out-of-bounds accesses
//! hit dead shadow); fresh memory is poisoned; allocation can be made to fail.
use crate::{ctx, shared, LeaveLib, Stat};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

pub static POISON: AtomicU8 = AtomicU8::new(0xFF);
pub static LIB_LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIB_LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static BUMP: AtomicUsize = AtomicUsize::new(0);
/// When set, freed library blocks are handed out again (last freed first), so that
/// addresses recur; when clear, every library allocation has a fresh address.
pub static REUSE: AtomicBool = AtomicBool::new(false);
const NFREE: usize = 128;
static mut FREE: [(usize, usize, usize); NFREE] = [(0, 0, 0); NFREE];
static mut NFREED: usize = 0;
unsafe fn free_take(size: usize, align: usize) -> Option<usize> {
    let mut i = NFREED;
    while i > 0 {
        i -= 1;
        if FREE[i].1 == size && FREE[i].2 == align {
            let p = FREE[i].0;
            NFREED -= 1;
            while i < NFREED {
                FREE[i] = FREE[i + 1];
                i += 1;
            }
            return Some(p);
        }
    }
    None
}
const REDZONE: usize = 64;
const MAGIC_LIB: u64 = 0x11B0_11B0_11B0_11B0;
const MAGIC_SYS: u64 = 0x5751_5751_5751_5751;

#[inline]
fn hdr(align: usize) -> usize {
    if align > 16 { align } else { 16 }
}

unsafe fn raw_alloc(l: Layout, zero: bool) -> *mut u8 {
    let (in_lib, fail) = ctx(|c| (c.in_lib.get(), c.alloc_fail.get()));
    if in_lib && fail {
        ctx(|c| c.alloc_denied.set(c.alloc_denied.get() + 1));
        shared::count(Stat::AllocDenied, 1);
        return std::ptr::null_mut();
    }
    let _harness = LeaveLib::new();
    let h = hdr(l.align());
    if in_lib {
        LIB_LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        LIB_LIVE_BLOCKS.fetch_add(1, Relaxed);
        shared::count(Stat::AllocPoison, 1);
        if REUSE.load(Relaxed) {
            if let Some(p) = free_take(l.size(), l.align()) {
                *((p - 16) as *mut u64) = MAGIC_LIB;
                *((p - 8) as *mut u64) = l.size() as u64;
                std::ptr::write_bytes(p as *mut u8, if zero { 0 } else { POISON.load(Relaxed) }, l.size());
                if l.size() > 0 {
                    shared::set_shadow(p, l.size(), shared::SH_LIB);
                }
                return p as *mut u8;
            }
        }
        let need = REDZONE + h + l.size() + l.align() + REDZONE;
        let at = BUMP.load(Relaxed);
        if at + need < shared::HEAP_SIZE && !shared::SHADOW.is_null() {
            let base = shared::REGION_BASE + shared::ARENA_SIZE + at;
            let p = (base + REDZONE + h + l.align() - 1) & !(l.align() - 1);
            BUMP.store((p + l.size() + REDZONE + 15 & !15) - shared::REGION_BASE - shared::ARENA_SIZE, Relaxed);
            *((p - 16) as *mut u64) = MAGIC_LIB;
            *((p - 8) as *mut u64) = l.size() as u64;
            if zero {
                // fresh anonymous mapping, but be explicit
                std::ptr::write_bytes(p as *mut u8, 0, l.size());
            } else {
                std::ptr::write_bytes(p as *mut u8, POISON.load(Relaxed), l.size());
            }
            if l.size() > 0 {
                shared::set_shadow(p, l.size(), shared::SH_LIB);
            }
            return p as *mut u8;
        }
    }
    let full = Layout::from_size_align_unchecked(l.size() + h, hdr(l.align()));
    let p = System.alloc(full);
    if p.is_null() {
        return p;
    }
    let u = p.add(h);
    *(u.sub(16) as *mut u64) = if in_lib { MAGIC_SYS } else { 0 };
    *(u.sub(8) as *mut u64) = l.size() as u64;
    if zero {
        std::ptr::write_bytes(u, 0, l.size());
    } else if in_lib {
        std::ptr::write_bytes(u, POISON.load(Relaxed), l.size());
    }
    u
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        raw_alloc(l, false)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        raw_alloc(l, true)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _harness = LeaveLib::new();
        let m = *(p.sub(16) as *const u64);
        let size = *(p.sub(8) as *const u64) as usize;
        if m == MAGIC_LIB || m == MAGIC_SYS {
            LIB_LIVE_BYTES.fetch_sub(size as i64, Relaxed);
            LIB_LIVE_BLOCKS.fetch_sub(1, Relaxed);
            std::ptr::write_bytes(p, 0xDE, size);
        }
        if m == MAGIC_LIB {
            if size > 0 {
                shared::set_shadow(p as usize, size, 0);
            }
            if REUSE.load(Relaxed) && NFREED < NFREE {
                FREE[NFREED] = (p as usize, size, l.align());
                NFREED += 1;
            }
            return;
        }
        let h = hdr(l.align());
        let full = Layout::from_size_align_unchecked(l.size() + h, hdr(l.align()));
        System.dealloc(p.sub(h), full);
    }
}

pub fn live() -> (i64, i64) {
    (LIB_LIVE_BYTES.load(Relaxed), LIB_LIVE_BLOCKS.load(Relaxed))
}
