//! Simulator runtime: cooperative scheduler over real OS threads, instrumentation
//! callbacks, allocator, futex/clock/random seams and the simulated number type.
//!
//! This crate is never instrumented; the library under test (monomorphised in
//! `simshim`) is, and calls in here at every edge, load and store.
pub mod alloc;
pub mod num;
pub mod sched;
pub mod seams;
pub mod shared;

pub use num::SimNum;
pub use sched::*;
pub use shared::*;

use std::cell::Cell;

pub const NOT_SIM: u32 = u32::MAX;
pub const NEVER: u64 = u64::MAX;

/// Per-OS-thread simulator context. Plain cells, no destructor, const-initialised:
/// safe to touch from the allocator and from instrumentation callbacks.
pub struct Ctx {
    pub fuel: Cell<u64>,
    pub granted: Cell<u64>,
    pub base: Cell<u64>,
    pub tid: Cell<u32>,
    pub last_edge: Cell<u32>,
    pub in_lib: Cell<bool>,
    pub alloc_fail: Cell<bool>,
    pub tag: Cell<u8>,
    pub freeze_at: Cell<u64>,
    pub cap_at: Cell<u64>,
    pub scalar_ops: Cell<u64>,
    pub scalar_panic_at: Cell<u64>,
    pub probe_events: Cell<u64>,
    pub probe_panic_at: Cell<u64>,
    pub fault_id: Cell<u64>,
    pub alloc_denied: Cell<u64>,
    pub depth: Cell<u32>,
    /// lowest stack address seen at an edge of the library
    pub low_sp: Cell<usize>,
    /// below this the simulated thread's stack counts as exhausted
    pub floor_sp: Cell<usize>,
}

thread_local! {
    static CTX: Ctx = const { Ctx {
        fuel: Cell::new(1 << 40), granted: Cell::new(1 << 40), base: Cell::new(0),
        tid: Cell::new(NOT_SIM), last_edge: Cell::new(0), in_lib: Cell::new(false),
        alloc_fail: Cell::new(false), tag: Cell::new(0), freeze_at: Cell::new(NEVER), cap_at: Cell::new(NEVER),
        scalar_ops: Cell::new(0), scalar_panic_at: Cell::new(NEVER),
        probe_events: Cell::new(0), probe_panic_at: Cell::new(NEVER),
        fault_id: Cell::new(0), alloc_denied: Cell::new(0), depth: Cell::new(0), low_sp: Cell::new(usize::MAX), floor_sp: Cell::new(0),
    } };
}

#[inline(always)]
pub fn ctx<R>(f: impl FnOnce(&Ctx) -> R) -> R {
    CTX.with(|c| f(c))
}

/// Payload of an injected panic.
#[derive(Debug)]
pub struct Injected(pub u64);

/// Called by every arithmetic operation of `SimNum`.
#[inline(never)]
pub fn scalar_op() {
    ctx(|c| {
        if !c.in_lib.get() {
            return;
        }
        let k = c.scalar_ops.get();
        c.scalar_ops.set(k + 1);
        if k == c.scalar_panic_at.get() {
            c.scalar_panic_at.set(NEVER);
            count(Stat::ScalarPanic, 1);
            c.in_lib.set(false);
            let id = c.fault_id.get();
            let p: Box<dyn std::any::Any + Send> = Box::new(Injected(id));
            c.in_lib.set(true);
            std::panic::resume_unwind(p);
        }
    })
}

/// Called by probes and stubs at entry and exit of every inner-transform call.
pub fn probe_event() {
    ctx(|c| {
        let k = c.probe_events.get();
        c.probe_events.set(k + 1);
        if k == c.probe_panic_at.get() {
            c.probe_panic_at.set(NEVER);
            count(Stat::InnerPanic, 1);
            std::panic::resume_unwind(Box::new(Injected(c.fault_id.get())));
        }
    })
}

/// Run `f` with the library flag cleared (harness code called back from the library).
pub struct LeaveLib(bool);
impl LeaveLib {
    pub fn new() -> Self {
        LeaveLib(ctx(|c| c.in_lib.replace(false)))
    }
}
impl Drop for LeaveLib {
    fn drop(&mut self) {
        ctx(|c| c.in_lib.set(self.0))
    }
}
/// Run with the library flag set.
pub struct EnterLib(bool);
impl EnterLib {
    pub fn new() -> Self {
        EnterLib(ctx(|c| c.in_lib.replace(true)))
    }
}
impl Drop for EnterLib {
    fn drop(&mut self) {
        ctx(|c| c.in_lib.set(self.0))
    }
}

// ---------------------------------------------------------------- instrumentation

#[inline(always)]
fn point(c: &Ctx) {
    let f = c.fuel.get();
    if f == 0 {
        sched::slow(c);
    } else {
        c.fuel.set(f - 1);
    }
}

static mut NEXT_GUARD: u32 = 1;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT_GUARD;
            if NEXT_GUARD < MAX_EDGES as u32 - 1 {
                NEXT_GUARD += 1;
            }
        }
        p = p.add(1);
    }
}
pub fn total_edges() -> u32 {
    unsafe { NEXT_GUARD - 1 }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    ctx(|c| {
        let g = *guard;
        c.last_edge.set(g);
        let sp: usize;
        std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags));
        if sp < c.low_sp.get() {
            c.low_sp.set(sp);
            if sp < c.floor_sp.get() {
                c.floor_sp.set(0);
                sched::fatal("stack-exhausted", "a call used more than 600 KiB of stack");
            }
        }
        shared::cov_hit(g);
        point(c)
    })
}

#[inline(always)]
fn access(addr: usize, size: usize, write: bool) {
    ctx(|c| {
        let off = addr.wrapping_sub(shared::REGION_BASE);
        if off < shared::REGION_SIZE {
            shared::check_access(c, off, size, write);
        }
        point(c)
    })
}
macro_rules! acc {
    ($($name:ident $size:expr, $w:expr;)*) => {$(
        #[no_mangle] pub extern "C" fn $name(addr: usize) { access(addr, $size, $w) }
    )*};
}
acc! {
    __sanitizer_cov_load1 1, false;
    __sanitizer_cov_load2 2, false;
    __sanitizer_cov_load4 4, false;
    __sanitizer_cov_load8 8, false;
    __sanitizer_cov_load16 16, false;
    __sanitizer_cov_store1 1, true;
    __sanitizer_cov_store2 2, true;
    __sanitizer_cov_store4 4, true;
    __sanitizer_cov_store8 8, true;
    __sanitizer_cov_store16 16, true;
}
