//! Memory shared between the driver, its workers and their execution children
//! (counters, coverage, distinct-hash table), and the address region whose
//! accesses are checked against a shadow map.
use crate::Ctx;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};

extern "C" {
    fn mmap(addr: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize;
}
const PROT_RW: i32 = 3;
const MAP_SHARED: i32 = 1;
const MAP_PRIVATE: i32 = 2;
const MAP_FIXED_NOREPLACE: i32 = 0x100000;
const MAP_ANON: i32 = 0x20;
const MAP_NORESERVE: i32 = 0x4000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Stat {
    Execs, Runs, Solos, Steps, Switches, Ops, OpsOk, OpsPanicked,
    ScalarPanic, InnerPanic, BuildPanic, Freeze, AllocDenied, AllocArmed, DirtyScratch, DirtyOutput, ExtraScratch,
    InnerGarbage, Malformed, FutexBlocks, HandleDrops, Builds, Reentries, InnerCalls, GuardPage,
    Thaws, SpuriousWakes, NonFinite, HungryInner, LongRepeats, Rounds, Points2Plus, RefChecks, SharedPlanOverlap, LargeCalls, AllocPoison, RejectedInFlight, ClockReads, EnvReads, RestlessWorld, Touching,
    Last,
}
pub const NSTAT: usize = Stat::Last as usize;
pub const STAT_NAMES: [&str; NSTAT] = [
    "executions", "scenarios", "solo_baselines", "steps", "context_switches", "calls", "calls_returned", "calls_panicked",
    "scalar_panic", "inner_panic", "build_panic", "caller_frozen", "allocation_denied", "calls_under_allocation_failure", "dirty_scratch", "dirty_output", "oversized_scratch",
    "inner_left_garbage", "ill_sized_call", "futex_blocks", "handle_drops", "plan_builds", "reentrant_calls", "inner_calls_observed", "guard_page_placement",
    "thaws", "spurious_wakes", "non_finite_inputs", "scratch_hungry_inner", "long_repeats", "repeat_rounds", "runs_with_two_or_more_callers_in_flight", "reference_checks", "switches_with_other_call_in_flight", "large_length_calls", "fresh_memory_poisoned", "ill_sized_while_others_in_flight", "clock_reads_jumpy", "environment_reads_varied", "runs_with_varied_clock_random_environment", "slices_touching_each_other",
];

pub const MAX_EDGES: usize = 1 << 16;
pub const TABLE: usize = 1 << 23;

#[repr(C)]
pub struct Shared {
    pub stats: [AtomicU64; NSTAT],
    pad0: [AtomicU64; 16],
    pub cov: [AtomicU8; MAX_EDGES],
    pub pre: [AtomicU8; MAX_EDGES],
    pad1: [AtomicU64; 16],
    pub distinct: AtomicU64,
    pub distinct_nontrivial: AtomicU64,
    pub stop: AtomicU64,
    pub next_run: AtomicU64,
    pub table: [AtomicU64; TABLE],
}
static mut SH: *mut Shared = std::ptr::null_mut();

pub fn sh() -> &'static Shared {
    unsafe { &*SH }
}

pub fn init() {
    unsafe {
        let p = mmap(0, std::mem::size_of::<Shared>(), PROT_RW, MAP_SHARED | MAP_ANON | MAP_NORESERVE, -1, 0);
        assert!(p != usize::MAX, "mmap shared");
        SH = p as *mut Shared;
        let r = mmap(REGION_BASE, REGION_SIZE, PROT_RW, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        assert!(r == REGION_BASE, "mmap region");
        let s = mmap(0, REGION_SIZE / 4, PROT_RW, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
        assert!(s != usize::MAX, "mmap shadow");
        SHADOW = s as *mut u8;
    }
}

#[inline]
pub fn count(s: Stat, n: u64) {
    unsafe {
        if !SH.is_null() {
            (*SH).stats[s as usize].fetch_add(n, Relaxed);
        }
    }
}
pub fn stat(s: Stat) -> u64 {
    sh().stats[s as usize].load(Relaxed)
}

#[inline(always)]
pub fn cov_hit(g: u32) {
    unsafe {
        if !SH.is_null() {
            // read first: workers share these cache lines
            let a = &(*SH).cov[g as usize & (MAX_EDGES - 1)];
            if a.load(Relaxed) == 0 {
                a.store(1, Relaxed);
            }
        }
    }
}
pub fn pre_hit(g: u32) {
    let a = &sh().pre[g as usize & (MAX_EDGES - 1)];
    if a.load(Relaxed) == 0 {
        a.store(1, Relaxed);
    }
}
pub fn cov_counts() -> (u64, u64) {
    let s = sh();
    let a = s.cov.iter().filter(|x| x.load(Relaxed) != 0).count() as u64;
    let b = s.pre.iter().filter(|x| x.load(Relaxed) != 0).count() as u64;
    (a, b)
}

/// Insert into the shared distinct table; true if new.
pub fn note_distinct(h: u64, nontrivial: bool) -> bool {
    let h = if h == 0 { 1 } else { h };
    let s = sh();
    let mut i = (h as usize).wrapping_mul(0x9E3779B97F4A7C15) & (TABLE - 1);
    for _ in 0..4096 {
        let v = s.table[i].load(Relaxed);
        if v == h {
            return false;
        }
        if v == 0 {
            match s.table[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => {
                    s.distinct.fetch_add(1, Relaxed);
                    if nontrivial {
                        s.distinct_nontrivial.fetch_add(1, Relaxed);
                    }
                    return true;
                }
                Err(v) if v == h => return false,
                Err(_) => {}
            }
        }
        i = (i + 1) & (TABLE - 1);
    }
    false
}

// ------------------------------------------------------------------ checked region

/// [REGION_BASE, +ARENA_SIZE): caller-owned buffers. The rest: heap of the library.
pub const REGION_BASE: usize = 0x2000_0000_0000;
pub const ARENA_SIZE: usize = 1 << 30;
pub const HEAP_SIZE: usize = 1 << 30;
pub const REGION_SIZE: usize = ARENA_SIZE + HEAP_SIZE;
/// Shadow: one byte per 4 bytes. 0 = nobody's, 1 = live library heap, >=2 = call tag.
pub static mut SHADOW: *mut u8 = std::ptr::null_mut();
pub const SH_LIB: u8 = 1;

/// First illegal access of this execution: (offset, size, write, shadow, tag, edge)
pub static mut BAD_ACCESS: Option<(usize, usize, bool, u8, u8, u32)> = None;

#[inline(always)]
pub fn check_access(c: &Ctx, off: usize, size: usize, write: bool) {
    unsafe {
        let s = *SHADOW.add(off >> 2);
        let e = *SHADOW.add((off + size - 1) >> 2);
        let t = c.tag.get();
        if (s != SH_LIB && s != t) || (e != SH_LIB && e != t) || s == 0 || e == 0 {
            bad(c, off, size, write, if s == 0 || (s != SH_LIB && s != t) { s } else { e });
        }
    }
}
/// The same for a block of any size: every shadow cell it covers is looked at.
#[inline(never)]
pub fn check_block(c: &Ctx, off: usize, size: usize, write: bool) {
    let t = c.tag.get();
    let end = (off + size).min(REGION_SIZE);
    for i in (off >> 2)..=((end - 1) >> 2) {
        unsafe {
            let s = *SHADOW.add(i);
            if s == 0 || (s != SH_LIB && s != t) {
                bad(c, off, size, write, s);
                return;
            }
        }
    }
}
#[cold]
#[inline(never)]
unsafe fn bad(c: &Ctx, off: usize, size: usize, write: bool, s: u8) {
    #[allow(static_mut_refs)]
    if BAD_ACCESS.is_none() {
        BAD_ACCESS = Some((off, size, write, s, c.tag.get(), c.last_edge.get()));
    }
}
pub fn take_bad_access() -> Option<(usize, usize, bool, u8, u8, u32)> {
    #[allow(static_mut_refs)]
    unsafe {
        BAD_ACCESS.take()
    }
}
pub fn set_shadow(addr: usize, bytes: usize, v: u8) {
    unsafe {
        let off = addr - REGION_BASE;
        let a = off >> 2;
        let b = (off + bytes + 3) >> 2;
        std::ptr::write_bytes(SHADOW.add(a), v, b - a);
    }
}

// ------------------------------------------------------------------ schedule journal
// Slices of the running execution, mirrored into memory shared with the worker so
// that a crashed execution's schedule is known.
pub const JOURNAL: usize = 1 << 16;
static mut JR: *mut u64 = std::ptr::null_mut();
pub fn journal_init() {
    unsafe {
        let p = mmap(0, (JOURNAL + 1) * 16, PROT_RW, MAP_SHARED | MAP_ANON | MAP_NORESERVE, -1, 0);
        assert!(p != usize::MAX);
        JR = p as *mut u64;
    }
}
pub fn journal_reset() {
    unsafe {
        if !JR.is_null() {
            *JR = 0;
        }
    }
}
pub fn journal(t: u32, n: u64) {
    unsafe {
        if !JR.is_null() {
            let k = *JR as usize;
            if k < JOURNAL - 1 {
                *JR.add(2 + 2 * k) = t as u64;
                *JR.add(3 + 2 * k) = n;
                *JR = k as u64 + 1;
            }
        }
    }
}
pub fn journal_read() -> Vec<(u32, u64)> {
    unsafe {
        if JR.is_null() {
            return vec![];
        }
        (0..*JR as usize).map(|k| (*JR.add(2 + 2 * k) as u32, *JR.add(3 + 2 * k))).collect()
    }
}
