//! One simulated execution of a scenario, and the forked child it runs in.
use crate::model;
use crate::spec::*;
use rustdht::Dht;
use rustfft::{FftNum, Length};
use simrt::{count, ctx, EnterLib, Injected, LeaveLib, Policy, SimNum, Stat, ARENA_SIZE, NEVER, REGION_BASE};
use simshim::{Alg, Plan};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

// ------------------------------------------------------------------ number types

pub trait Scalar: FftNum {
    const EPS: f64;
    const FLOOR: f64;
    const HUGE: f64;
    fn of(v: f64) -> Self;
    fn get(self) -> f64;
    fn dirty(self) -> bool;
    fn garbage(v: f64) -> Self;
    fn build(a: Alg, inner: Vec<Plan<Self>>) -> Plan<Self>;
}
macro_rules! sc {
    ($t:ty, $eps:expr, $floor:expr, $huge:expr, $b:path, $of:expr, $get:expr, $ta:expr, $ga:expr) => {
        impl Scalar for $t {
            const EPS: f64 = $eps;
            const FLOOR: f64 = $floor;
            const HUGE: f64 = $huge;
            fn of(v: f64) -> Self {
                $of(v)
            }
            fn get(self) -> f64 {
                $get(self)
            }
            fn dirty(self) -> bool {
                $ta(self)
            }
            fn garbage(v: f64) -> Self {
                $ga(v)
            }
            fn build(a: Alg, inner: Vec<Plan<Self>>) -> Plan<Self> {
                $b(a, inner)
            }
        }
    };
}
sc!(f32, f32::EPSILON as f64, f32::MIN_POSITIVE as f64, 1e18, simshim::build_f32, |v: f64| v as f32, |s: f32| s as f64, |_: f32| false, |v: f64| v as f32);
sc!(f64, f64::EPSILON, f64::MIN_POSITIVE, 1e140, simshim::build_f64, |v: f64| v, |s: f64| s, |_: f64| false, |v: f64| v);
sc!(SimNum, f64::EPSILON, f64::MIN_POSITIVE, 1e140, simshim::build_sim, SimNum::new, |s: SimNum| s.v, |s: SimNum| s.tainted(), SimNum::garbage);

pub fn bits(v: f64) -> u64 {
    if v.is_nan() { 0x7FF8_0000_0000_0000 } else { v.to_bits() }
}
fn mix(a: u64, b: u64) -> u64 {
    simrt::Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93)).next()
}
pub fn huge_of(s: Sc) -> f64 {
    match s {
        Sc::F32 => f32::HUGE,
        _ => f64::HUGE,
    }
}
/// Round an input value to what the number type can hold.
pub fn round_to(s: Sc, v: f64) -> f64 {
    if s == Sc::F32 { v as f32 as f64 } else { v }
}
/// Element `i` of absolute chunk `chunk` of the call's input.
pub fn input_value(c: &Call, n: usize, chunk: u64, i: usize, huge: f64) -> f64 {
    // twist 8 and up: in odd chunks only, when there are several
    if c.twist == 0 || (c.twist & 8 != 0 && chunk % 2 == 0 && c.chunks > 1) {
        return plain_value(c, n, chunk, i, huge);
    }
    let m = n.max(1);
    let a = (mix(c.twist, 1) % m as u64) as usize;
    let b = (mix(c.twist, 2) % m as u64) as usize;
    let at = match c.twist & 7 {
        0 | 1 => if i == a { b } else if i == b { a } else { i },
        3 => m - 1 - i,
        5 => (i + 1) % m,
        _ => i,
    };
    let v = plain_value(c, n, chunk, at, huge);
    match c.twist & 7 {
        2 => -v,
        4 if i == a => if v.is_finite() { v + 1.0 } else { 0.5 },
        6 if i == a => -v,
        7 if i == a => v * (1.0 + 1.0 / (1u64 << 20) as f64),
        _ => v,
    }
}
fn plain_value(c: &Call, n: usize, chunk: u64, i: usize, huge: f64) -> f64 {
    let h = mix(c.iseed ^ chunk.wrapping_mul(0x9E37_79B9), i as u64);
    let u = (h >> 11) as f64 / (1u64 << 53) as f64;
    let s = u * 2.0 - 1.0;
    if chunk == c.bad {
        let at = (mix(c.iseed, 77) % n.max(1) as u64) as usize;
        if i == at {
            return if c.iseed & 1 == 0 { f64::NAN } else { f64::INFINITY };
        }
    }
    let pos = |salt: u64| (mix(c.iseed ^ chunk, salt) % n.max(1) as u64) as usize;
    match c.class {
        Class::Uniform => s,
        Class::Positive => u + 0.5,
        Class::Impulse => if i == pos(3) { 1.0 + u } else { 0.0 },
        Class::Const => 1.0 + (mix(c.iseed, chunk) & 7) as f64,
        Class::Zeros => 0.0,
        Class::Ints => ((h % 201) as f64) - 100.0,
        Class::Huge => s * huge,
        Class::Tiny => s / huge / 16.0,
        Class::Mixed => s * 2f64.powi((h & 15) as i32 - 8),
        Class::Alternating => if i & 1 == 0 { 1.0 + u } else { -1.0 - u },
        Class::Nan => if i == pos(5) { f64::NAN } else { s },
        Class::Inf => if i == pos(6) { f64::INFINITY } else { s },
        Class::Sparse => if h & 0x700 == 0 { s } else { 0.0 },
        Class::Ramp => i as f64 + u,
        Class::NegZero => if h & 0x300 == 0 { s } else { -0.0 },
    }
}
fn fill_value(f: Fill, seed: u64, i: usize, huge: f64) -> f64 {
    match f {
        Fill::Zero => 0.0,
        Fill::Nan => f64::NAN,
        Fill::Inf => f64::INFINITY,
        Fill::Huge => huge,
        Fill::Stale => (mix(seed, i as u64) >> 11) as f64 / (1u64 << 52) as f64 - 1.0,
        Fill::Tiny => 1.0 / huge,
    }
}

// ------------------------------------------------------------------ caller memory

extern "C" {
    fn mprotect(addr: usize, len: usize, prot: i32) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn mmap(addr: usize, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> usize;
}

static mut ARENA_LO: usize = 0;
static mut ARENA_HI: usize = ARENA_SIZE;
const GAP: usize = 64;
const CANARY: u8 = 0xFF;

struct Mem<T> {
    ptr: *mut T,
    len: usize,
    lo: usize,
    hi: usize,
}
impl<T: Scalar> Mem<T> {
    fn take(len: usize, off: usize, guard: bool, seed: u64) -> Option<Mem<T>> {
        let sz = std::mem::size_of::<T>();
        let bytes = len * sz;
        unsafe {
            let start;
            if guard {
                let pages = (bytes + GAP + 4095) / 4096 + 2;
                if ARENA_HI < ARENA_LO + pages * 4096 + (1 << 20) {
                    return None;
                }
                ARENA_HI -= pages * 4096;
                let base = REGION_BASE + ARENA_HI;
                mprotect(base, 4096, 0);
                mprotect(base + (pages - 1) * 4096, 4096, 0);
                count(Stat::GuardPage, 1);
                if seed & 1 == 0 {
                    let end = base + (pages - 1) * 4096;
                    start = end - bytes;
                    std::ptr::write_bytes((start - GAP) as *mut u8, CANARY, GAP);
                    return Some(Mem { ptr: start as *mut T, len, lo: start - GAP, hi: 0 });
                } else {
                    start = base + 4096;
                    std::ptr::write_bytes((start + bytes) as *mut u8, CANARY, GAP);
                    return Some(Mem { ptr: start as *mut T, len, lo: 0, hi: start + bytes });
                }
            }
            let base = (ARENA_LO + 63) & !63;
            let st = base + GAP + off * sz;
            if st + bytes + GAP + 64 > ARENA_HI {
                return None;
            }
            ARENA_LO = st + bytes + GAP;
            start = REGION_BASE + st;
            std::ptr::write_bytes((start - GAP) as *mut u8, CANARY, GAP);
            std::ptr::write_bytes((start + bytes) as *mut u8, CANARY, GAP);
            Some(Mem { ptr: start as *mut T, len, lo: start - GAP, hi: start + bytes })
        }
    }
    fn shadow(&self, tag: u8) {
        if self.len > 0 {
            simrt::set_shadow(self.ptr as usize, self.len * std::mem::size_of::<T>(), tag);
        }
    }
    fn slice(&self) -> &'static mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
    fn canary_broken(&self) -> bool {
        let ok = |a: usize| a == 0 || unsafe { std::slice::from_raw_parts(a as *const u8, GAP) }.iter().all(|&b| b == CANARY);
        !(ok(self.lo) && ok(self.hi))
    }
}

// ------------------------------------------------------------------ results

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Vec<u64>),
    Injected(u64),
    Panic(String),
    NotRun,
}
impl Out {
    pub fn short(&self) -> String {
        match self {
            Out::Ok(v) => {
                let mut h = 0u64;
                for x in v {
                    h = mix(h, *x);
                }
                format!("returned {} values (hash {:016x})", v.len(), h)
            }
            Out::Injected(k) => format!("injected panic #{}", k),
            Out::Panic(m) => format!("panic \"{}\"", m),
            Out::NotRun => "not run".into(),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct OpRes {
    pub out: Out,
    /// repetition index and outcome of the first repetition that differed from the first
    pub diff: Option<(u64, Out)>,
    pub malformed: bool,
    pub tainted: bool,
    pub fired: bool,
    pub scalar_ops: u64,
    pub probe_events: u64,
    pub points: u64,
    pub nested: Option<Out>,
    pub nested_points: u64,
    pub canary: String,
    /// length, in-place and out-of-place scratch length reported before and after
    pub sizes: [u64; 6],
    /// bytes of stack used inside the library
    pub stack: u64,
}
impl OpRes {
    fn new() -> OpRes {
        OpRes { out: Out::NotRun, diff: None, malformed: false, tainted: false, fired: false, scalar_ops: 0, probe_events: 0, points: 0, nested: None, nested_points: 0, canary: String::new(), sizes: [0; 6], stack: 0 }
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Exec {
    pub ops: Vec<Vec<OpRes>>,
    pub rec: Vec<(u32, u64)>,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub incidents: Vec<(String, String)>,
    pub in_flight: u64,
    pub preempted: u64,
    pub call_blocks: u64,
    pub bad_access: String,
    pub build_fail: Option<(u64, String)>,
    pub live: Vec<(u64, u64)>,
    pub held: Vec<String>,
    pub alloc_denied: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Done(Exec),
    /// killed by a signal; schedule up to the crash
    Crash(i32, Vec<(u32, u64)>),
    /// deadlock / no-progress / step-limit
    Fatal(String, String, Vec<(u32, u64)>),
    /// killed by the wall-clock backstop
    Hang(Vec<(u32, u64)>),
    /// the harness failed
    Harness(String),
}

// ------------------------------------------------------------------ inner-transform doubles

thread_local! {
    static RE_AT: Cell<u64> = const { Cell::new(NEVER) };
    static RE_FN: Cell<Option<*const dyn Fn()>> = const { Cell::new(None) };
    static TRASHN: Cell<u64> = const { Cell::new(0) };
}
fn incident(class: &str, msg: String) {
    ctx(|c| {
        if c.tid.get() != simrt::NOT_SIM {
            let s = simrt::sim();
            if s.incidents.len() < 16 {
                s.incidents.push((class.to_string(), msg));
            }
        }
    })
}
fn event() {
    let k = ctx(|c| c.probe_events.get());
    if RE_AT.with(|r| r.get()) == k {
        RE_AT.with(|r| r.set(NEVER));
        if let Some(f) = RE_FN.with(|f| f.get()) {
            unsafe { (*f)() };
        }
    }
    simrt::probe_event();
}
/// The library asks an inner transform for its length or scratch: it may fail there, too.
fn query() {
    if ctx(|c| c.in_lib.get()) {
        let _l = LeaveLib::new();
        event();
    }
}
fn trash<T: Scalar>(s: &mut [T]) {
    let k = TRASHN.with(|t| {
        t.set(t.get() + 1);
        t.get()
    });
    count(Stat::InnerGarbage, 1);
    let f = [Fill::Nan, Fill::Stale, Fill::Huge, Fill::Inf][(k % 4) as usize];
    for (i, x) in s.iter_mut().enumerate() {
        *x = T::garbage(fill_value(f, k, i, T::HUGE));
    }
}

/// Wraps a real plan used as an inner transform: checks what the outer plan asks of
/// it, makes failures happen, and leaves garbage where the contract allows it.
struct ProbeDht<T: Scalar> {
    inner: Plan<T>,
    p: Probe,
    n: usize,
    name: String,
}
impl<T: Scalar> Length for ProbeDht<T> {
    fn len(&self) -> usize {
        query();
        self.n
    }
}
fn contract<T>(name: &str, n: usize, a: usize, b: usize, s: usize, req: usize) {
    count(Stat::InnerCalls, 1);
    if a < n || a % n != 0 {
        incident("contract-data", format!("inner transform {} of length {} called with {} elements", name, n, a));
    }
    if a != b {
        incident("contract-output", format!("inner transform {} called with input {} and output {}", name, a, b));
    }
    if s < req {
        incident("contract-scratch", format!("inner transform {} needs scratch {} and was given {}", name, req, s));
    }
}
impl<T: Scalar> Dht<T> for ProbeDht<T> {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let l = LeaveLib::new();
        contract::<T>(&self.name, self.n, buffer.len(), buffer.len(), scratch.len(), self.get_inplace_scratch_len());
        if scratch.len() < self.get_inplace_scratch_len() {
            panic!("inner transform rejected its arguments");
        }
        event();
        let need = self.inner.get_inplace_scratch_len();
        {
            let _e = EnterLib::new();
            let k = scratch.len().min(need);
            self.inner.process_with_scratch(buffer, &mut scratch[..k]);
        }
        if self.p.trash {
            trash(scratch);
        }
        event();
        drop(l);
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        let l = LeaveLib::new();
        contract::<T>(&self.name, self.n, input.len(), output.len(), scratch.len(), self.get_outofplace_scratch_len());
        if scratch.len() < self.get_outofplace_scratch_len() {
            panic!("inner transform rejected its arguments");
        }
        event();
        let need = self.inner.get_outofplace_scratch_len();
        {
            let _e = EnterLib::new();
            let k = scratch.len().min(need);
            self.inner.process_outofplace_with_scratch(input, output, &mut scratch[..k]);
        }
        if self.p.trash {
            trash(scratch);
            trash(input);
        }
        event();
        drop(l);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        query();
        self.inner.get_inplace_scratch_len() + self.p.ei
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        query();
        self.inner.get_outofplace_scratch_len() + self.p.eo
    }
}

/// An inner transform written by somebody else: correct, with arbitrary scratch needs.
/// Beyond `STUB_LIMIT` elements it only moves the data (no check looks at the values then).
pub const STUB_LIMIT: usize = 10_000;
struct StubDht {
    n: usize,
    si: usize,
    so: usize,
    name: String,
}
impl Length for StubDht {
    fn len(&self) -> usize {
        query();
        self.n
    }
}
impl StubDht {
    fn one<T: Scalar>(&self, x: &[T], out: &mut [T]) {
        if self.n > STUB_LIMIT {
            return out.copy_from_slice(x);
        }
        let v: Vec<f64> = x.iter().map(|a| a.get()).collect();
        let t = x.iter().any(|a| a.dirty());
        for (o, r) in out.iter_mut().zip(model::dht(&v)) {
            *o = if t { T::garbage(r) } else { T::of(r) };
        }
    }
}
impl<T: Scalar> Dht<T> for StubDht {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        let l = LeaveLib::new();
        contract::<T>(&self.name, self.n, buffer.len(), buffer.len(), scratch.len(), self.si);
        event();
        if buffer.len() < self.n || buffer.len() % self.n != 0 || scratch.len() < self.si {
            panic!("inner transform rejected its arguments");
        }
        let mut tmp = vec![T::of(0.0); self.n];
        for c in buffer.chunks_exact_mut(self.n) {
            self.one(c, &mut tmp);
            c.copy_from_slice(&tmp);
        }
        trash(scratch);
        event();
        drop(l);
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        let l = LeaveLib::new();
        contract::<T>(&self.name, self.n, input.len(), output.len(), scratch.len(), self.so);
        event();
        if input.len() < self.n || input.len() % self.n != 0 || input.len() != output.len() || scratch.len() < self.so {
            panic!("inner transform rejected its arguments");
        }
        for (a, b) in input.chunks_exact(self.n).zip(output.chunks_exact_mut(self.n)) {
            self.one(a, b);
        }
        trash(scratch);
        trash(input);
        event();
        drop(l);
    }
    fn get_inplace_scratch_len(&self) -> usize {
        query();
        self.si
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        query();
        self.so
    }
}

// ------------------------------------------------------------------ one call

/// Step bound of a call: far more than any plan of that definition takes, however it is written.
fn call_cap(n: usize, elems: usize, cost: u64) -> u64 {
    100_000u64.saturating_add((60 * elems as u64).saturating_mul((n as u64).min(cost / n.max(1) as u64) + 200))
}

/// From this offset on the slices of a call touch each other.
pub const TOUCHING: usize = 32;

struct Saved([u64; 10], u8, bool);
fn save() -> Saved {
    ctx(|c| {
        Saved(
            [c.scalar_ops.get(), c.scalar_panic_at.get(), c.probe_events.get(), c.probe_panic_at.get(), c.fault_id.get(), c.cap_at.get(), c.freeze_at.get(), c.depth.get() as u64, 0, 0],
            c.tag.get(),
            c.alloc_fail.get(),
        )
    })
}
fn restore(s: Saved) {
    ctx(|c| {
        c.scalar_ops.set(s.0[0]);
        c.scalar_panic_at.set(s.0[1]);
        c.probe_events.set(s.0[2]);
        c.probe_panic_at.set(s.0[3]);
        c.fault_id.set(s.0[4]);
        c.cap_at.set(s.0[5]);
        c.freeze_at.set(s.0[6]);
        c.depth.set(s.0[7] as u32);
        c.tag.set(s.1);
        c.alloc_fail.set(s.2);
    });
    simrt::refresh_limits();
}

fn outcome(r: Result<(), Box<dyn std::any::Any + Send>>) -> Option<Out> {
    match r {
        Ok(()) => None,
        Err(p) => Some(if let Some(i) = p.downcast_ref::<Injected>() {
            Out::Injected(i.0)
        } else if let Some(s) = p.downcast_ref::<&str>() {
            Out::Panic(s.to_string())
        } else if let Some(s) = p.downcast_ref::<String>() {
            Out::Panic(s.clone())
        } else {
            Out::Panic("(foreign payload)".into())
        }),
    }
}

/// Arm the fault of an operation; returns false if it has none to arm.
fn arm(f: &Fault, id: u64, cap: u64) {
    let now = simrt::my_points();
    ctx(|c| {
        c.scalar_ops.set(0);
        c.probe_events.set(0);
        c.scalar_panic_at.set(NEVER);
        c.probe_panic_at.set(NEVER);
        c.freeze_at.set(NEVER);
        c.fault_id.set(id);
        c.cap_at.set(now.saturating_add(cap));
        match f {
            Fault::Scalar(k) => c.scalar_panic_at.set(*k),
            Fault::Inner(k) => c.probe_panic_at.set(*k),
            Fault::Freeze(k) => c.freeze_at.set(now + *k),
            Fault::AllocFail => {
                count(Stat::AllocArmed, 1);
                c.alloc_fail.set(true)
            }
            _ => {}
        }
    });
    simrt::refresh_limits();
}
fn disarm(f: &Fault) -> bool {
    let fired = ctx(|c| {
        let fired = match f {
            Fault::Scalar(_) => c.scalar_panic_at.get() == NEVER,
            Fault::Inner(_) => c.probe_panic_at.get() == NEVER,
            Fault::Freeze(_) => c.freeze_at.get() == NEVER,
            Fault::AllocFail => true,
            _ => false,
        };
        c.scalar_panic_at.set(NEVER);
        c.probe_panic_at.set(NEVER);
        c.freeze_at.set(NEVER);
        c.cap_at.set(NEVER);
        c.alloc_fail.set(false);
        fired
    });
    simrt::refresh_limits();
    fired
}

/// What the plan reports about itself.
fn sizes_of<T: Scalar>(plan: &Plan<T>) -> Result<[u64; 3], Out> {
    let mut v = [0; 3];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let _e = EnterLib::new();
        v = [plan.len() as u64, plan.get_inplace_scratch_len() as u64, plan.get_outofplace_scratch_len() as u64];
    }));
    match outcome(r) {
        None => Ok(v),
        Some(o) => Err(o),
    }
}
#[inline(never)]
fn stack_here() -> usize {
    let sp: usize;
    unsafe { std::arch::asm!("mov {}, rsp", out(reg) sp, options(nomem, nostack, preserves_flags)) };
    sp
}

fn do_call<T: Scalar>(plan: &Plan<T>, n: usize, cost: u64, call: &Call, op_id: u64, cap_mul: u64) -> OpRes {
    let mut res = OpRes::new();
    let (tid, depth) = ctx(|c| (c.tid.get(), c.depth.get()));
    let arena_mark = unsafe { ARENA_LO };
    let before = match sizes_of(plan) {
        Ok(v) => v,
        Err(o) => {
            res.out = o;
            return res;
        }
    };
    res.sizes[..3].copy_from_slice(&before);
    res.sizes[3..].copy_from_slice(&before);
    let req = match call.entry {
        Entry::Process => 0,
        Entry::Inplace => before[1] as usize,
        Entry::Oop => before[2] as usize,
    };
    if req > (1 << 22) {
        res.out = Out::Panic(format!("advertised scratch length {} is absurd", req));
        return res;
    }
    let full = call.chunks * n;
    let mut inlen = full;
    let mut outlen = full;
    let mut slen = if call.entry == Entry::Process { 0 } else { req + call.extra };
    match call.mal {
        Mal::None => {}
        Mal::Short(a) => {
            inlen = a;
            outlen = a;
        }
        Mal::Rem(a) => {
            inlen = full + a;
            outlen = full + a;
        }
        Mal::OutLong(a) => outlen = full + a,
        Mal::OutShort(a) => outlen = full.saturating_sub(a),
        Mal::InShort(a) => inlen = full.saturating_sub(a),
        Mal::ScratchShort(a) => slen = req.saturating_sub(a),
    }
    res.malformed = inlen < n || inlen % n != 0 || (call.entry == Entry::Oop && inlen != outlen) || (call.entry != Entry::Process && slen < req);
    let oop = call.entry == Entry::Oop;
    let (a, s, b) = if call.off >= TOUCHING && !call.guard {
        // one block of memory, cut into the slices of the call without a gap
        let k = call.off - TOUCHING;
        let blen = if oop { outlen } else { 0 };
        let Some(all) = Mem::<T>::take(inlen + slen + blen, k % 8, false, call.iseed) else { return res };
        count(Stat::Touching, 1);
        let lens = [inlen, slen, blen];
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][k / 8 % 6];
        let mut at = [0; 3];
        let mut sum = 0;
        for i in order {
            at[i] = sum;
            sum += lens[i];
        }
        let part = |i: usize| Mem { ptr: unsafe { all.ptr.add(at[i]) }, len: lens[i], lo: all.lo, hi: all.hi };
        (part(0), part(1), if oop { Some(part(2)) } else { None })
    } else {
        let (a, s) = match (Mem::<T>::take(inlen, call.off, call.guard, call.iseed), Mem::<T>::take(slen, call.off ^ 1, call.guard, call.iseed >> 1)) {
            (Some(a), Some(s)) => (a, s),
            _ => return res,
        };
        let b = if oop {
            match Mem::<T>::take(outlen, call.off / 2, call.guard, call.iseed >> 2) {
                Some(b) => Some(b),
                None => return res,
            }
        } else {
            None
        };
        (a, s, b)
    };
    let tag = 2 + (tid as u8 % 15) * 16 + depth as u8;
    if call.sfill != Fill::Zero && slen > 0 {
        count(Stat::DirtyScratch, 1);
    }
    if call.ofill != Fill::Zero && oop {
        count(Stat::DirtyOutput, 1);
    }
    if call.extra > 0 && slen > 0 {
        count(Stat::ExtraScratch, 1);
    }
    if res.malformed {
        count(Stat::Malformed, 1);
        if simrt::others_in_call() {
            count(Stat::RejectedInFlight, 1);
        }
    }
    if call.times > 50 {
        count(Stat::LongRepeats, 1);
    }
    if n >= 1024 {
        count(Stat::LargeCalls, 1);
    }
    if call.bad != u64::MAX || matches!(call.class, Class::Nan | Class::Inf) {
        count(Stat::NonFinite, 1);
    }
    let nested_out: Cell<Option<OpRes>> = Cell::new(None);
    let nested_call = call.nested();
    let reenter = || {
        count(Stat::Reentries, 1);
        let sv = save();
        ctx(|c| c.depth.set(c.depth.get() + 1));
        simrt::set_in_call(true);
        let r = do_call::<T>(plan, n, cost, &nested_call, op_id ^ 0x8000, cap_mul);
        simrt::set_in_call(true);
        nested_out.set(Some(r));
        restore(sv);
    };
    let rf: &dyn Fn() = &reenter;
    let rp: *const (dyn Fn() + 'static) = unsafe { std::mem::transmute(rf as *const dyn Fn()) };
    let input: Vec<T> = (0..inlen).map(|i| T::of(input_value(call, n, call.base + (i / n) as u64, i % n, T::HUGE))).collect();
    for rep in 0..call.times {
        let (asl, ssl) = (a.slice(), s.slice());
        asl.copy_from_slice(&input);
        for (i, x) in ssl.iter_mut().enumerate() {
            let v = fill_value(call.sfill, call.iseed ^ 11 ^ rep, i, T::HUGE);
            *x = if call.sfill == Fill::Zero { T::of(v) } else { T::garbage(v) };
        }
        if let Some(b) = &b {
            for (i, x) in b.slice().iter_mut().enumerate() {
                let v = fill_value(call.ofill, call.iseed ^ 13 ^ rep, i, T::HUGE);
                *x = if call.ofill == Fill::Zero { T::of(v) } else { T::garbage(v) };
            }
        }
        a.shadow(tag);
        s.shadow(tag);
        if let Some(b) = &b {
            b.shadow(tag);
        }
        let old_tag = ctx(|c| c.tag.replace(tag));
        let old_re = (RE_AT.with(|r| r.get()), RE_FN.with(|r| r.get()));
        if call.reenter != NEVER && rep == 0 {
            RE_AT.with(|r| r.set(call.reenter));
            RE_FN.with(|r| r.set(Some(rp)));
        } else {
            RE_AT.with(|r| r.set(NEVER));
        }
        simrt::set_in_call(true);
        let p0 = simrt::my_points();
        let fault = if rep == 0 { call.fault } else { Fault::None };
        arm(&fault, op_id, call_cap(n, inlen.max(outlen), cost).saturating_mul(cap_mul));
        let top = stack_here();
        ctx(|c| c.low_sp.set(usize::MAX));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _e = EnterLib::new();
            match (call.entry, &b) {
                (Entry::Process, _) => plan.process(asl),
                (Entry::Inplace, _) => plan.process_with_scratch(asl, ssl),
                (Entry::Oop, Some(b)) => plan.process_outofplace_with_scratch(asl, b.slice(), ssl),
                _ => {}
            }
        }));
        let fired = disarm(&fault);
        res.stack = res.stack.max(top.saturating_sub(ctx(|c| c.low_sp.get())) as u64);
        simrt::set_in_call(depth > 0);
        let points = simrt::my_points() - p0;
        RE_AT.with(|r| r.set(old_re.0));
        RE_FN.with(|r| r.set(old_re.1));
        ctx(|c| {
            c.tag.set(old_tag);
            if rep == 0 {
                res.scalar_ops = c.scalar_ops.get();
                res.probe_events = c.probe_events.get();
            }
        });
        count(Stat::Ops, 1);
        let out = match outcome(r) {
            None => {
                count(Stat::OpsOk, 1);
                let v: &[T] = if let Some(b) = &b { b.slice() } else { asl };
                if v.iter().any(|x| x.dirty()) {
                    res.tainted = true;
                }
                Out::Ok(v.iter().map(|x| bits(x.get())).collect())
            }
            Some(o) => {
                count(Stat::OpsPanicked, 1);
                o
            }
        };
        a.shadow(0);
        s.shadow(0);
        if let Some(b) = &b {
            b.shadow(0);
        }
        for (m, what) in [(Some(&a), "data buffer"), (Some(&s), "scratch"), (b.as_ref(), "output buffer")] {
            if let Some(m) = m {
                if m.canary_broken() && res.canary.is_empty() {
                    res.canary = format!("memory next to the {} was overwritten", what);
                }
            }
        }
        res.points = res.points.max(points);
        if rep == 0 {
            res.fired = fired;
            res.out = out;
        } else if res.diff.is_none() && out != res.out {
            res.diff = Some((rep, out));
        }
    }
    match sizes_of(plan) {
        Ok(v) => res.sizes[3..].copy_from_slice(&v),
        Err(o) => res.diff = Some((call.times, o)),
    }
    if let Some(r) = nested_out.take() {
        res.nested_points = r.points;
        if r.tainted {
            res.tainted = true;
        }
        res.nested = Some(r.out);
    }
    if unsafe { ARENA_REUSE } && !call.guard && !simrt::others_in_call() && depth == 0 {
        unsafe { ARENA_LO = arena_mark };
    }
    res
}
static mut ARENA_REUSE: bool = false;

// ------------------------------------------------------------------ plans

fn wrap<T: Scalar>(nodes: &[Node], i: usize, p: Plan<T>) -> Plan<T> {
    match &nodes[i].probe {
        None => p,
        Some(pr) => {
            if pr.ei > 0 || pr.eo > 0 {
                count(Stat::HungryInner, 1);
            }
            Arc::new(ProbeDht { inner: p, p: pr.clone(), n: node_len(nodes, i), name: plan_text(nodes, i) })
        }
    }
}
fn build_node<T: Scalar>(nodes: &[Node], i: usize, get: &dyn Fn(usize) -> Option<Plan<T>>, fault: &Fault, id: u64) -> (OpRes, Option<Plan<T>>) {
    let mut res = OpRes::new();
    let n = node_len(nodes, i) as u64;
    match &nodes[i].kind {
        Kind::Stub { n, si, so } => {
            count(Stat::HungryInner, 1);
            res.out = Out::Ok(vec![]);
            let p: Plan<T> = Arc::new(StubDht { n: *n, si: *si, so: *so, name: plan_text(nodes, i) });
            (res, Some(wrap(nodes, i, p)))
        }
        Kind::Lib(a, ch) => {
            let mut inner = vec![];
            for c in ch {
                match get(*c) {
                    Some(p) => inner.push(p),
                    None => return (res, None),
                }
            }
            count(Stat::Builds, 1);
            let old_tag = ctx(|c| c.tag.replace(1));
            simrt::set_in_call(true);
            let p0 = simrt::my_points();
            arm(fault, id, 1_000_000 + (100 * n as u128 * (n as u128 + 200)).min(1 << 60) as u64);
            let mut plan = None;
            let top = stack_here();
            ctx(|c| c.low_sp.set(usize::MAX));
            let r = catch_unwind(AssertUnwindSafe(|| {
                let _e = EnterLib::new();
                plan = Some(T::build(*a, inner));
            }));
            res.fired = disarm(fault);
            res.stack = top.saturating_sub(ctx(|c| c.low_sp.get())) as u64;
            simrt::set_in_call(false);
            res.points = simrt::my_points() - p0;
            ctx(|c| {
                c.tag.set(old_tag);
                res.scalar_ops = c.scalar_ops.get();
                res.probe_events = c.probe_events.get();
            });
            res.out = outcome(r).unwrap_or(Out::Ok(vec![]));
            if res.fired && *fault != Fault::None {
                count(Stat::BuildPanic, 1);
            }
            if let Some(p) = &plan {
                if let Ok(v) = sizes_of(p) {
                    res.sizes[..3].copy_from_slice(&v);
                    res.sizes[3..].copy_from_slice(&v);
                }
            }
            (res, plan.map(|p| wrap(nodes, i, p)))
        }
    }
}

// ------------------------------------------------------------------ execution

/// The nodes a thread's program names: a thread holds handles to those and to nothing else.
fn named(nodes: &[Node], ops: &[Op]) -> Vec<bool> {
    let mut v = vec![false; nodes.len()];
    for op in ops {
        match op {
            Op::Call(c) => v[c.node] = true,
            Op::DropShared(k) => v[*k] = true,
            Op::Build { node, .. } => {
                if let Kind::Lib(_, ch) = &nodes[*node].kind {
                    for &k in ch {
                        v[k] = true;
                    }
                }
            }
            Op::DropPriv(_) => {}
        }
    }
    v
}

fn exec<T: Scalar>(sc: &Scenario) -> Exec {
    let mut ex = Exec::default();
    let nodes = &sc.nodes;
    let elems: u64 = sc.threads.iter().flatten().map(|o| if let Op::Call(c) = o { (c.chunks * node_len(nodes, c.node)) as u64 * c.times * (node_len(nodes, c.node) as u64 + 200) } else { 0 }).sum();
    let max_steps = 200_000_000u64.saturating_add(60 * elems);
    for round in 0..sc.rounds.max(1) {
        if sc.rounds > 1 {
            count(Stat::Rounds, 1);
            unsafe { ARENA_LO = 0 };
        }
        // phase 0: the main program builds the shared plans
        let mut base: Vec<Option<Plan<T>>> = nodes.iter().map(|_| None).collect();
        let mut fail = None;
        // the last plan built over an inner transform nobody else names takes the only handle to it
        let mut last_use: Vec<usize> = vec![usize::MAX; nodes.len()];
        if !sc.keep {
            for (i, n) in nodes.iter().enumerate() {
                if let (Kind::Lib(_, ch), false) = (&n.kind, n.lazy) {
                    for &c in ch {
                        last_use[c] = if ch.iter().filter(|&&d| d == c).count() == 1 { i } else { usize::MAX };
                    }
                }
            }
            for ops in &sc.threads {
                for (k, _) in named(nodes, ops).iter().enumerate().filter(|x| *x.1) {
                    last_use[k] = usize::MAX;
                }
            }
        }
        {
            let base = &mut base;
            let last_use = &last_use;
            let fail = &mut fail;
            let r = simrt::run(Policy::Seq, 0, max_steps, vec![Box::new(move || {
                let base = std::cell::RefCell::new(base);
                for i in 0..nodes.len() {
                    if nodes[i].lazy {
                        continue;
                    }
                    let (r, p) = build_node::<T>(nodes, i, &|c| if last_use[c] == i { base.borrow_mut()[c].take() } else { base.borrow()[c].clone() }, &Fault::None, 0);
                    match r.out {
                        Out::Ok(_) => base.borrow_mut()[i] = p,
                        Out::NotRun => {}
                        o => {
                            *fail = Some((i as u64, o.short()));
                            break;
                        }
                    }
                }
            })]);
            ex.steps += r.steps;
        }
        if fail.is_some() {
            ex.build_fail = fail;
            break;
        }
        // phase 1: the callers
        let mut outs: Vec<Vec<OpRes>> = sc.threads.iter().map(|t| Vec::with_capacity(t.len())).collect();
        simrt::journal_reset();
        let mut bodies: Vec<Box<dyn FnOnce() + Send + '_>> = vec![];
        for (ti, (ops, out)) in sc.threads.iter().zip(outs.iter_mut()).enumerate() {
            let shared: Vec<Option<Plan<T>>> = base.iter().zip(named(nodes, ops)).map(|(p, n)| if n { p.clone() } else { None }).collect();
            bodies.push(Box::new(move || {
                let mut shared = shared;
                let mut private: Vec<Option<Plan<T>>> = nodes.iter().map(|_| None).collect();
                for (oi, op) in ops.iter().enumerate() {
                    let id = (ti as u64) << 16 | oi as u64 + 1;
                    let r = match op {
                        Op::Call(c) => {
                            let p = if c.private { private[c.node].as_ref() } else { shared[c.node].as_ref() };
                            match p {
                                Some(p) => do_call::<T>(p, node_len(nodes, c.node), crate::gen::node_cost(nodes, c.node), c, id, 1),
                                None => OpRes::new(),
                            }
                        }
                        Op::Build { node, fault } => {
                            let (r, p) = build_node::<T>(nodes, *node, &|c| private[c].clone().or_else(|| shared[c].clone()), fault, id);
                            if p.is_some() {
                                private[*node] = p;
                            }
                            r
                        }
                        Op::DropPriv(k) | Op::DropShared(k) => {
                            count(Stat::HandleDrops, 1);
                            let h = if matches!(op, Op::DropPriv(_)) { private[*k].take() } else { shared[*k].take() };
                            drop(h);
                            let mut r = OpRes::new();
                            r.out = Out::Ok(vec![]);
                            r
                        }
                    };
                    out.push(r);
                }
                drop(private);
                drop(shared);
            }));
        }
        if !sc.keep {
            base.clear();
        }
        let r = simrt::run(sc.policy.clone(), sc.max_switches, max_steps, bodies);
        if round == 0 {
            ex.ops = outs;
            ex.rec = r.rec;
            ex.hash = r.hash;
            ex.switches = r.switches;
        }
        ex.steps += r.steps;
        ex.in_flight = ex.in_flight.max(r.in_flight_max as u64);
        ex.preempted += r.preempted_in_call;
        ex.call_blocks += r.call_blocks;
        if ex.incidents.len() < 16 {
            ex.incidents.extend(r.incidents);
        }
        for i in (0..base.len()).rev() {
            if let Some(p) = base[i].take() {
                let k = Arc::strong_count(&p);
                if k != 1 && ex.held.len() < 4 {
                    ex.held.push(format!("round {}: {} extra handle(s) to {} remain after every plan over it was dropped", round, k - 1, plan_text(nodes, i)));
                }
                drop(p);
            }
        }
        let (a, b) = simrt::alloc::live();
        ex.live.push((a.max(0) as u64, b.max(0) as u64));
    }
    if let Some((off, size, write, shadow, tag, edge)) = simrt::take_bad_access() {
        let whose = match shadow {
            0 if off >= ARENA_SIZE => "library heap memory that is not allocated",
            0 => "caller memory not handed to any running call",
            1 => "library heap",
            _ => "another call's buffer",
        };
        let _ = edge;
        ex.bad_access = format!("{} of {} bytes in {} (by caller {}, depth {})", if write { "write" } else { "read" }, size, whose, tag.wrapping_sub(2) / 16, tag.wrapping_sub(2) % 16);
    }
    ex
}

// ------------------------------------------------------------------ child process

static mut OUTBUF: *mut u64 = std::ptr::null_mut();
const OUTWORDS: usize = 1 << 23;

pub fn worker_init() {
    unsafe {
        let p = mmap(0, OUTWORDS * 8, 3, 1 | 0x20 | 0x4000, -1, 0);
        assert!(p != usize::MAX, "mmap result buffer");
        OUTBUF = p as *mut u64;
    }
    simrt::journal_init();
    std::panic::set_hook(Box::new(|_| {}));
}

pub struct W(pub Vec<u64>);
impl W {
    fn u(&mut self, v: u64) {
        self.0.push(v)
    }
    fn s(&mut self, s: &str) {
        let b = s.as_bytes();
        self.u(b.len() as u64);
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u(u64::from_le_bytes(w));
        }
    }
    fn out(&mut self, o: &Out) {
        match o {
            Out::Ok(v) => {
                self.u(1);
                self.u(v.len() as u64);
                self.0.extend_from_slice(v);
            }
            Out::Injected(k) => {
                self.u(2);
                self.u(*k);
            }
            Out::Panic(m) => {
                self.u(3);
                self.s(m);
            }
            Out::NotRun => self.u(4),
        }
    }
    fn op(&mut self, r: &OpRes) {
        self.out(&r.out);
        match &r.diff {
            None => self.u(0),
            Some((k, o)) => {
                self.u(1);
                self.u(*k);
                self.out(o);
            }
        }
        for v in [r.malformed as u64, r.tainted as u64, r.fired as u64, r.scalar_ops, r.probe_events, r.points, r.nested_points] {
            self.u(v);
        }
        match &r.nested {
            None => self.u(0),
            Some(o) => {
                self.u(1);
                self.out(o);
            }
        }
        self.s(&r.canary);
        for v in r.sizes {
            self.u(v);
        }
        self.u(r.stack);
    }
    fn exec(&mut self, e: &Exec) {
        self.u(e.ops.len() as u64);
        for t in &e.ops {
            self.u(t.len() as u64);
            for o in t {
                self.op(o);
            }
        }
        self.u(e.rec.len() as u64);
        for (t, n) in &e.rec {
            self.u(*t as u64);
            self.u(*n);
        }
        for v in [e.hash, e.steps, e.switches, e.in_flight, e.preempted, e.call_blocks, e.alloc_denied] {
            self.u(v);
        }
        self.u(e.incidents.len() as u64);
        for (a, b) in &e.incidents {
            self.s(a);
            self.s(b);
        }
        self.s(&e.bad_access);
        match &e.build_fail {
            None => self.u(0),
            Some((k, m)) => {
                self.u(1);
                self.u(*k);
                self.s(m);
            }
        }
        self.u(e.live.len() as u64);
        for (a, b) in &e.live {
            self.u(*a);
            self.u(*b);
        }
        self.u(e.held.len() as u64);
        for h in &e.held {
            self.s(h);
        }
    }
}
struct R<'a>(&'a [u64], usize);
impl<'a> R<'a> {
    fn u(&mut self) -> u64 {
        let v = self.0[self.1];
        self.1 += 1;
        v
    }
    fn s(&mut self) -> String {
        let n = self.u() as usize;
        let mut b = Vec::with_capacity(n + 8);
        while b.len() < n {
            b.extend_from_slice(&self.u().to_le_bytes());
        }
        b.truncate(n);
        String::from_utf8_lossy(&b).into_owned()
    }
    fn out(&mut self) -> Out {
        match self.u() {
            1 => {
                let n = self.u() as usize;
                let v = self.0[self.1..self.1 + n].to_vec();
                self.1 += n;
                Out::Ok(v)
            }
            2 => Out::Injected(self.u()),
            3 => Out::Panic(self.s()),
            _ => Out::NotRun,
        }
    }
    fn op(&mut self) -> OpRes {
        let mut r = OpRes::new();
        r.out = self.out();
        if self.u() == 1 {
            let k = self.u();
            r.diff = Some((k, self.out()));
        }
        r.malformed = self.u() == 1;
        r.tainted = self.u() == 1;
        r.fired = self.u() == 1;
        r.scalar_ops = self.u();
        r.probe_events = self.u();
        r.points = self.u();
        r.nested_points = self.u();
        if self.u() == 1 {
            r.nested = Some(self.out());
        }
        r.canary = self.s();
        for v in r.sizes.iter_mut() {
            *v = self.u();
        }
        r.stack = self.u();
        r
    }
    fn exec(&mut self) -> Exec {
        let mut e = Exec::default();
        for _ in 0..self.u() {
            let mut t = vec![];
            for _ in 0..self.u() {
                t.push(self.op());
            }
            e.ops.push(t);
        }
        for _ in 0..self.u() {
            let a = self.u() as u32;
            let b = self.u();
            e.rec.push((a, b));
        }
        e.hash = self.u();
        e.steps = self.u();
        e.switches = self.u();
        e.in_flight = self.u();
        e.preempted = self.u();
        e.call_blocks = self.u();
        e.alloc_denied = self.u();
        for _ in 0..self.u() {
            let a = self.s();
            let b = self.s();
            e.incidents.push((a, b));
        }
        e.bad_access = self.s();
        if self.u() == 1 {
            let k = self.u();
            e.build_fail = Some((k, self.s()));
        }
        for _ in 0..self.u() {
            let a = self.u();
            let b = self.u();
            e.live.push((a, b));
        }
        for _ in 0..self.u() {
            let h = self.s();
            e.held.push(h);
        }
        e
    }
}

fn deliver(status: u64, w: &W) {
    unsafe {
        let n = w.0.len();
        if n + 2 > OUTWORDS {
            *OUTBUF.add(1) = 9;
            *OUTBUF = 1;
            return;
        }
        std::ptr::copy_nonoverlapping(w.0.as_ptr(), OUTBUF.add(2), n);
        *OUTBUF.add(1) = status;
        *OUTBUF = n as u64 + 1;
    }
}
fn on_fatal(class: &str, msg: &str) -> ! {
    ctx(|c| {
        c.in_lib.set(false);
        c.alloc_fail.set(false);
    });
    let mut w = W(vec![]);
    w.s(class);
    w.s(msg);
    deliver(2, &w);
    unsafe { _exit(0) }
}

fn exec_in(t: Sc, sc: &Scenario) -> Exec {
    match t {
        Sc::F32 => exec::<f32>(sc),
        Sc::F64 => exec::<f64>(sc),
        Sc::Sim => exec::<SimNum>(sc),
    }
}
/// The same program without faults, threads one after the other.
fn prelude_of(sc: &Scenario) -> Scenario {
    let mut p = sc.clone();
    p.policy = Policy::Seq;
    p.rounds = 1;
    p.keep = false;
    for op in p.threads.iter_mut().flatten() {
        match op {
            Op::Call(c) => {
                c.fault = Fault::None;
                c.reenter = NEVER;
                c.guard = false;
                c.times = c.times.min(3);
            }
            Op::Build { fault, .. } => *fault = Fault::None,
            _ => {}
        }
    }
    p
}
/// What the runtime prints when a simulated process dies is not part of the report.
unsafe fn hush() {
    extern "C" {
        fn open(p: *const i8, f: i32, ...) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    let fd = open(b"/dev/null\0".as_ptr() as *const i8, 1);
    if fd >= 0 {
        dup2(fd, 2);
    }
}

/// Execute the scenario in a fresh forked process that has never run library code.
pub fn execute(sc: &Scenario) -> Res {
    count(Stat::Execs, 1);
    if sc.world != 0 {
        count(Stat::RestlessWorld, 1);
    }
    unsafe {
        *OUTBUF = 0;
        simrt::journal_reset();
        let pid = fork();
        if pid < 0 {
            return Res::Harness("fork failed".into());
        }
        if pid == 0 {
            alarm(120);
            simrt::FATAL = Some(on_fatal);
            simrt::alloc::POISON.store(sc.poison, std::sync::atomic::Ordering::Relaxed);
            simrt::seams::WORLD.store(sc.world, std::sync::atomic::Ordering::Relaxed);
            simrt::alloc::REUSE.store(sc.reuse, std::sync::atomic::Ordering::Relaxed);
            ARENA_REUSE = sc.reuse;
            hush();
            let r = catch_unwind(|| {
                if let Some(p) = sc.prelude {
                    exec_in(p, &prelude_of(sc));
                    ARENA_LO = 0;
                    ARENA_HI = ARENA_SIZE;
                }
                exec_in(sc.scalar, sc)
            });
            match r {
                Ok(ex) => {
                    let mut w = W(vec![]);
                    w.exec(&ex);
                    deliver(1, &w);
                }
                Err(p) => {
                    let mut w = W(vec![]);
                    let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    w.s(&m);
                    deliver(3, &w);
                }
            }
            _exit(0);
        }
        let mut st = 0i32;
        loop {
            let r = waitpid(pid, &mut st, 0);
            if r == pid {
                break;
            }
            if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(4) {
                return Res::Harness("waitpid".into());
            }
        }
        let sig = st & 0x7f;
        if sig != 0 {
            let j = simrt::journal_read();
            return if sig == 14 { Res::Hang(j) } else if sig == 9 { Res::Harness("child killed".into()) } else { Res::Crash(sig, j) };
        }
        let n = *OUTBUF as usize;
        if n == 0 {
            // the library ended the process
            return Res::Crash(-((st >> 8) & 0xff), simrt::journal_read());
        }
        let words = std::slice::from_raw_parts(OUTBUF.add(2), n - 1);
        let mut r = R(words, 0);
        match *OUTBUF.add(1) {
            1 => Res::Done(r.exec()),
            2 => {
                let a = r.s();
                let b = r.s();
                Res::Fatal(a, b, simrt::journal_read())
            }
            3 => Res::Harness(r.s()),
            _ => Res::Harness("result too large".into()),
        }
    }
}
