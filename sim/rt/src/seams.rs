//! Interposed libc entry points: the blocking, time and randomness sources std uses.
//! For simulated threads they are decided by the simulator; for others they pass through.
use crate::sched::{self, raw_syscall};
use crate::{count, ctx, Stat, NOT_SIM};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

extern "C" {
    fn __errno_location() -> *mut i32;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
#[inline]
fn is_sim() -> bool {
    ctx(|c| c.tid.get() != NOT_SIM)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 202 && is_sim() {
        match b & 0x7f {
            0 | 9 => return ret(sched::futex_wait(a, c as u32, d != 0)),
            1 | 10 => {
                let k = sched::futex_wake(a, c as u32);
                let r = if (k as usize) < c { raw_syscall(n, a, b, c - k as usize, d, e, f).max(0) } else { 0 };
                return k + r;
            }
            _ => {}
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if is_sim() {
        sched::yield_now();
        return 0;
    }
    raw_syscall(24, 0, 0, 0, 0, 0, 0);
    0
}

#[repr(C)]
pub struct Ts {
    s: i64,
    n: i64,
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Ts, rem: *mut Ts) -> i32 {
    if is_sim() {
        sched::sim().clock_ns += ((*req).s as u64) * 1_000_000_000 + (*req).n as u64;
        sched::yield_now();
        return 0;
    }
    ret(raw_syscall(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const Ts, rem: *mut Ts) -> i32 {
    if is_sim() {
        if flags == 0 {
            sched::sim().clock_ns += ((*req).s as u64) * 1_000_000_000 + (*req).n as u64;
        }
        sched::yield_now();
        return 0;
    }
    -(raw_syscall(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32)
}
/// Seed of what the process under test is shown of the outside world; 0: quiet defaults.
pub static WORLD: AtomicU64 = AtomicU64::new(0);
static DRAWS: AtomicU64 = AtomicU64::new(0);
fn draw() -> sched::Rng {
    let k = DRAWS.fetch_add(1, Relaxed);
    sched::Rng::new(WORLD.load(Relaxed).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ k.wrapping_mul(0xC2B2_AE3D_27D4_EB4F))
}

/// Time moves only when it is asked for. In a restless world it starts anywhere, runs at any
/// speed, jumps, and the wall clock (not the monotonic one) is also set back.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Ts) -> i32 {
    if is_sim() {
        let s = sched::sim();
        let mut ns = s.clock_ns;
        if WORLD.load(Relaxed) == 0 {
            s.clock_ns += 100;
        } else {
            count(Stat::ClockReads, 1);
            let mut r = draw();
            if ns == sched::CLOCK_START {
                s.clock_ns = *r.pick(&[1, 1_000_000_000, sched::CLOCK_START, 4_102_444_800_000_000_000, 1 + r.0 % 8_000_000_000_000_000_000]);
            }
            s.clock_ns += r.below(1000);
            if r.chance(1, 8) {
                s.clock_ns += r.logu(10 * 86_400_000_000_000);
            }
            ns = s.clock_ns;
            if matches!(clk, 0 | 5) && r.chance(1, 4) {
                ns -= r.logu(30 * 86_400_000_000_000).min(ns);
            }
        }
        (*ts).s = (ns / 1_000_000_000) as i64;
        (*ts).n = (ns % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw_syscall(228, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if is_sim() {
        let mut r = draw();
        for i in 0..len {
            *buf.add(i) = r.next() as u8;
        }
        return len as isize;
    }
    ret(raw_syscall(318, buf as usize, len, flags as usize, 0, 0, 0)) as isize
}
extern "C" {
    static environ: *const *const u8;
}
/// Environment variables the library asks for are set to something, or not, by the world.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let key = std::slice::from_raw_parts(name, n);
    let w = WORLD.load(Relaxed);
    if w != 0 && is_sim() && ctx(|c| c.in_lib.get()) && !key.starts_with(b"RUST_") {
        count(Stat::EnvReads, 1);
        let h = key.iter().fold(w, |h, &b| (h ^ b as u64).wrapping_mul(0x100_0000_01B3));
        match sched::Rng::new(h).below(5) {
            0 => return std::ptr::null(),
            1 => return b"1\0".as_ptr(),
            2 => return b"0\0".as_ptr(),
            3 => return b"8\0".as_ptr(),
            _ => {}
        }
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        let mut i = 0;
        while i < n && *e.add(i) == key[i] {
            i += 1;
        }
        if i == n && *e.add(n) == b'=' {
            return e.add(n + 1);
        }
        p = p.add(1);
    }
    std::ptr::null()
}

// ------------------------------------------------------------------ block memory operations
// Calls the compiler emits for slice copies and fills are not seen by the load/store
// instrumentation, so the libc entry points are replaced by ones that are checked.
#[inline(always)]
fn block(addr: usize, len: usize, write: bool) {
    let off = addr.wrapping_sub(crate::shared::REGION_BASE);
    if off < crate::shared::REGION_SIZE && len > 0 {
        ctx(|c| {
            if c.in_lib.get() {
                crate::shared::check_block(c, off, len, write);
            }
        })
    }
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    block(s as usize, n, false);
    block(d as usize, n, true);
    std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    block(s as usize, n, false);
    block(d as usize, n, true);
    if (d as usize).wrapping_sub(s as usize) >= n {
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else if n > 0 {
        std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n - 1) => _, inout("rsi") s.add(n - 1) => _, options(nostack));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    block(d as usize, n, true);
    std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") v as u8, options(nostack, preserves_flags));
    d
}

/// Force the linker to keep this module.
pub fn keep() -> usize {
    [memcpy as *const () as usize, memmove as *const () as usize, memset as *const () as usize, syscall as *const () as usize, sched_yield as *const () as usize, nanosleep as *const () as usize, clock_nanosleep as *const () as usize, clock_gettime as *const () as usize, getrandom as *const () as usize, getenv as *const () as usize]
        .iter()
        .fold(0, |a, b| a ^ b)
}
