//! Token-passing scheduler: simulated threads are real OS threads of which exactly
//! one runs at a time; who runs, and for how many instrumentation points, is
//! decided here from the seed (or from an explicit recorded schedule).
use crate::{count, ctx, Ctx, Stat, NEVER, NOT_SIM};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// log-uniform in [1, m]
    pub fn logu(&mut self, m: u64) -> u64 {
        let m = m.max(1);
        let x = (self.unit() * (m as f64 + 1.0).ln()).exp();
        (x as u64).clamp(1, m)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn fork(&mut self) -> Rng {
        Rng(self.next() ^ 0xA5A5_5A5A_0F0F_F0F0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Policy {
    /// Run each thread to completion (or until it blocks), lowest id first.
    Seq,
    /// Uniformly random ready thread, slice length log-uniform in 1..=max.
    Random { seed: u64, max: u64 },
    /// Priority based with random change points (PCT style).
    Pct { seed: u64, gap: u64 },
    /// Recorded schedule: (thread, points) slices, then Seq.
    Explicit(Vec<(u32, u64)>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Ready,
    Blocked { addr: usize, val: u32, timed: bool },
    Frozen,
    Done,
}

pub struct Th {
    pub st: St,
    pub timed_out: bool,
    pub go: AtomicU32,
    pub resume_at: u64,
    pub in_call: bool,
    pub prio: u64,
    /// yields in a row after which the policy chose the same thread again
    pub yields: u64,
}

pub const CLOCK_START: u64 = 1_700_000_000_000_000_000;

pub struct Sim {
    pub th: Vec<Th>,
    pub cur: usize,
    pub policy: Policy,
    pub rng: Rng,
    pub pos: usize,
    pub slice_left: u64,
    pub rec: Vec<(u32, u64)>,
    pub switches: u64,
    pub max_switches: u64,
    pub hash: u64,
    pub clock_ns: u64,
    pub max_steps: u64,
    pub steps: u64,
    pub incidents: Vec<(String, String)>,
    pub in_flight_max: u32,
    pub preempted_in_call: u64,
    /// times a caller inside a call blocked on a lock
    pub call_blocks: u64,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

/// Hook called when an execution cannot continue (deadlock, endless loop); must not return.
pub static mut FATAL: Option<fn(&str, &str) -> !> = None;
pub fn fatal(class: &str, msg: &str) -> ! {
    unsafe {
        match FATAL {
            Some(f) => f(class, msg),
            None => std::process::abort(),
        }
    }
}

// raw futex, never through the interposed `syscall`
pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}
fn park(go: &AtomicU32) {
    while go.swap(0, SeqCst) == 0 {
        unsafe { raw_syscall(202, go as *const _ as usize, 128, 0, 0, 0, 0) };
    }
}
fn unpark(go: &AtomicU32) {
    go.store(1, SeqCst);
    unsafe { raw_syscall(202, go as *const _ as usize, 129, 1, 0, 0, 0) };
}

impl Sim {
    fn ready(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|&i| self.th[i].st == St::Ready).collect()
    }

    /// Decide which thread runs next and set slice_left. Never returns a non-ready thread.
    fn pick(&mut self) -> usize {
        loop {
            let r = self.ready();
            if r.is_empty() {
                self.unstick();
                continue;
            }
            let seq = self.switches >= self.max_switches;
            let mut policy = std::mem::replace(&mut self.policy, Policy::Seq);
            let (t, f) = match &mut policy {
                Policy::Explicit(list) => {
                    let mut got = None;
                    while self.pos < list.len() {
                        let (t, n) = list[self.pos];
                        self.pos += 1;
                        if n > 0 && (t as usize) < self.th.len() && self.th[t as usize].st == St::Ready {
                            got = Some((t as usize, n));
                            break;
                        }
                    }
                    got.unwrap_or((r[0], u64::MAX / 4))
                }
                _ if seq => (if r.contains(&self.cur) { self.cur } else { r[0] }, u64::MAX / 4),
                Policy::Seq => (r[0], u64::MAX / 4),
                Policy::Random { max, .. } => {
                    let t = *self.rng.pick(&r);
                    let m = *max;
                    let f = self.rng.logu(m);
                    (t, f)
                }
                Policy::Pct { gap, .. } => {
                    // a change point was reached: demote the current thread, run the highest
                    let c = self.cur;
                    if c < self.th.len() {
                        self.th[c].prio = self.rng.below(1000);
                    }
                    let mut best = r[0];
                    for &i in &r {
                        if self.th[i].prio > self.th[best].prio {
                            best = i;
                        }
                    }
                    let g = *gap;
                    (best, self.rng.logu(g))
                }
            };
            self.policy = policy;
            self.slice_left = f;
            return t;
        }
    }

    /// Nothing is ready: fire a simulated timeout, thaw, or give up.
    fn unstick(&mut self) {
        if let Some(i) = (0..self.th.len()).find(|&i| matches!(self.th[i].st, St::Blocked { timed: true, .. })) {
            self.th[i].st = St::Ready;
            self.th[i].timed_out = true;
            self.clock_ns += 1_000_000_000;
            return;
        }
        let blocked: Vec<usize> = (0..self.th.len()).filter(|&i| matches!(self.th[i].st, St::Blocked { .. })).collect();
        if let Some(i) = (0..self.th.len()).find(|&i| self.th[i].st == St::Frozen) {
            if !blocked.is_empty() {
                self.incidents.push((
                    "blocked-by-frozen".into(),
                    format!("caller(s) {:?} wait for frozen caller {}", blocked, i),
                ));
            }
            count(Stat::Thaws, 1);
            self.th[i].st = St::Ready;
            return;
        }
        // Every thread is blocked. A wake-up can now only come from outside the
        // simulation (a thread the library spawned itself): poll for it.
        for _ in 0..3000 {
            for &i in &blocked {
                if let St::Blocked { addr, val, .. } = self.th[i].st {
                    let now = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
                    if now != val {
                        count(Stat::SpuriousWakes, 1);
                        self.th[i].st = St::Ready;
                        return;
                    }
                }
            }
            let ts: [i64; 2] = [0, 1_000_000];
            unsafe { raw_syscall(35, ts.as_ptr() as usize, 0, 0, 0, 0, 0) };
        }
        fatal("deadlock", &format!("all callers blocked: {:?}", blocked));
    }

    fn record(&mut self, tid: usize, now: u64) {
        let n = now - self.th[tid].resume_at;
        self.rec.push((tid as u32, n));
        crate::shared::journal(tid as u32, n);
        self.th[tid].resume_at = now;
    }
}

fn points_now(c: &Ctx) -> u64 {
    c.base.get() + (c.granted.get() - c.fuel.get())
}
/// Fold the current grant into `base`, leaving zero fuel.
fn settle(c: &Ctx) -> u64 {
    let used = c.granted.get() - c.fuel.get();
    c.base.set(c.base.get() + used);
    c.granted.set(0);
    c.fuel.set(0);
    sim().steps += used;
    c.base.get()
}

fn hand_over(c: &Ctx, tid: usize, next: usize) {
    let s = sim();
    let now = c.base.get();
    s.record(tid, now);
    if next == tid {
        return;
    }
    s.switches += 1;
    if s.th[tid].in_call {
        let others = s.th.iter().enumerate().any(|(i, t)| i != tid && t.in_call);
        s.preempted_in_call += 1;
        if others {
            count(Stat::SharedPlanOverlap, 1);
        }
        crate::shared::pre_hit(c.last_edge.get());
    }
    s.hash = (s.hash ^ ((tid as u64) << 32 | c.last_edge.get() as u64)).wrapping_mul(0x100000001B3).rotate_left(23)
        ^ (next as u64).wrapping_mul(0x9E3779B97F4A7C15);
    s.cur = next;
    unpark(&s.th[next].go);
    if s.th[tid].st != St::Done {
        park(&s.th[tid].go);
    }
}

/// Slow path of an instrumentation point: the current grant is used up.
#[cold]
#[inline(never)]
pub fn slow(c: &Ctx) {
    if c.tid.get() == NOT_SIM {
        c.granted.set(1 << 40);
        c.fuel.set((1 << 40) - 1);
        return;
    }
    let lib = c.in_lib.replace(false);
    settle(c);
    regrant(c, 1);
    c.in_lib.set(lib);
}

/// Obtain a new grant; `consume` points of it are taken at once.
fn regrant(c: &Ctx, consume: u64) {
    let tid = c.tid.get() as usize;
    loop {
        let s = sim();
        let now = c.base.get();
        if c.freeze_at.get() <= now {
            c.freeze_at.set(NEVER);
            count(Stat::Freeze, 1);
            s.th[tid].st = St::Frozen;
            s.slice_left = 0;
            let n = s.pick();
            hand_over(c, tid, n);
            continue;
        }
        if c.cap_at.get() <= now {
            fatal("no-progress", &format!("caller {} exceeded its step bound inside one call (at step {})", tid, now));
        }
        if s.steps > s.max_steps {
            fatal("step-limit", "execution exceeded its total step limit");
        }
        if s.slice_left == 0 {
            let n = s.pick();
            if n != tid {
                hand_over(c, tid, n);
                continue;
            }
        }
        let s = sim();
        let g = s.slice_left.min(c.freeze_at.get() - now).min(c.cap_at.get() - now);
        s.slice_left -= g;
        c.granted.set(g);
        c.fuel.set(g - consume);
        return;
    }
}

/// Recompute the grant after freeze/cap limits changed (called at call boundaries).
pub fn refresh_limits() {
    ctx(|c| {
        if c.tid.get() == NOT_SIM {
            return;
        }
        let left = c.fuel.get();
        settle(c);
        sim().slice_left = sim().slice_left.saturating_add(left);
        // give back: `settle` already counted only the used part
        regrant(c, 0)
    })
}

pub fn my_points() -> u64 {
    ctx(points_now)
}

pub fn set_in_call(v: bool) {
    ctx(|c| {
        let t = c.tid.get();
        if t != NOT_SIM {
            let s = sim();
            s.th[t as usize].in_call = v;
            let n = s.th.iter().filter(|t| t.in_call).count() as u32;
            s.in_flight_max = s.in_flight_max.max(n);
        }
    })
}
pub fn others_in_call() -> bool {
    ctx(|c| {
        let t = c.tid.get();
        t != NOT_SIM && sim().th.iter().enumerate().any(|(i, th)| i != t as usize && th.in_call)
    })
}

/// Cooperative yield: end the current slice.
pub fn yield_now() {
    ctx(|c| {
        if c.tid.get() == NOT_SIM {
            return;
        }
        let tid = c.tid.get() as usize;
        let lib = c.in_lib.replace(false);
        settle(c);
        // a yield is no free step: a caller that polls runs into its step bound soon
        c.base.set(c.base.get() + YIELD_COST);
        let s = sim();
        s.steps += YIELD_COST;
        s.slice_left = 0;
        let mut n = s.pick();
        if n != tid {
            s.th[tid].yields = 0;
        } else {
            // a policy that never switches by itself must not starve whoever is polled for
            s.th[tid].yields += 1;
            if s.th[tid].yields % 8 == 0 {
                let k = s.th.len();
                n = (1..k).map(|d| (tid + d) % k).find(|&i| s.th[i].st == St::Ready).unwrap_or(tid);
            }
        }
        hand_over(c, tid, n);
        regrant(c, 0);
        c.in_lib.set(lib);
    })
}
const YIELD_COST: u64 = 500;

/// Futex wait seam. Returns 0 (woken) or a negative errno.
pub fn futex_wait(addr: usize, val: u32, timed: bool) -> i64 {
    ctx(|c| {
        let tid = c.tid.get() as usize;
        let now = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
        if now != val {
            return -11;
        }
        count(Stat::FutexBlocks, 1);
        let lib = c.in_lib.replace(false);
        settle(c);
        let s = sim();
        if s.th[tid].in_call {
            s.call_blocks += 1;
        }
        s.th[tid].st = St::Blocked { addr, val, timed };
        s.th[tid].timed_out = false;
        s.slice_left = 0;
        let n = s.pick();
        hand_over(c, tid, n);
        let s = sim();
        let to = s.th[tid].timed_out;
        s.th[tid].timed_out = false;
        regrant(c, 0);
        c.in_lib.set(lib);
        if to { -110 } else { 0 }
    })
}
pub fn futex_wake(addr: usize, n: u32) -> i64 {
    let mut k = 0;
    for t in sim().th.iter_mut() {
        if k >= n {
            break;
        }
        if let St::Blocked { addr: a, .. } = t.st {
            if a == addr {
                t.st = St::Ready;
                k += 1;
            }
        }
    }
    k as i64
}

struct Finish(std::cell::Cell<bool>);
thread_local! { static FINISH: Finish = const { Finish(std::cell::Cell::new(false)) }; }
impl Drop for Finish {
    fn drop(&mut self) {
        ctx(|c| {
            let i = c.tid.get() as usize;
            settle(c);
            c.tid.set(NOT_SIM);
            let s = sim();
            s.th[i].st = St::Done;
            s.slice_left = 0;
            if s.th.iter().any(|t| t.st != St::Done) {
                let n = s.pick();
                hand_over(c, i, n);
            } else {
                let now = c.base.get();
                s.record(i, now);
            }
        })
    }
}

pub struct SimResult {
    pub rec: Vec<(u32, u64)>,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub incidents: Vec<(String, String)>,
    pub in_flight_max: u32,
    pub preempted_in_call: u64,
    pub call_blocks: u64,
}

/// Run `bodies` as simulated threads to completion.
pub fn run<'a>(policy: Policy, max_switches: u64, max_steps: u64, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) -> SimResult {
    let n = bodies.len();
    let seed = match &policy {
        Policy::Random { seed, .. } | Policy::Pct { seed, .. } => *seed,
        _ => 1,
    };
    let mut rng = Rng::new(seed);
    let th = (0..n)
        .map(|_| Th { st: St::Ready, timed_out: false, go: AtomicU32::new(0), resume_at: 0, in_call: false, prio: 1000 + rng.below(1000), yields: 0 })
        .collect();
    let s = Box::new(Sim {
        th, cur: usize::MAX, policy, rng, pos: 0, slice_left: 0, rec: vec![], switches: 0, max_switches,
        hash: 0xcbf29ce484222325, clock_ns: CLOCK_START, max_steps, steps: 0, incidents: vec![], in_flight_max: 0, preempted_in_call: 0, call_blocks: 0,
    });
    let ptr = Box::into_raw(s);
    unsafe { SIM = ptr };
    std::thread::scope(|sc| {
        let mut joins = vec![];
        for (i, b) in bodies.into_iter().enumerate() {
            let h = std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn_scoped(sc, move || {
                    let s = sim();
                    park(&s.th[i].go);
                    ctx(|c| {
                        c.base.set(0);
                        c.granted.set(0);
                        c.fuel.set(0);
                        c.tid.set(i as u32);
                        let here = 0u8;
                        c.floor_sp.set(&here as *const u8 as usize - (600 << 10));
                        regrant(c, 0);
                    });
                    // Registered before anything the library registers, so its destructor
                    // runs after the library's thread-local destructors: those are still
                    // part of the simulated thread.
                    FINISH.with(|f| f.0.set(true));
                    b();
                })
                .expect("spawn");
            joins.push(h);
        }
        if n > 0 {
            let s = sim();
            let first = s.pick();
            s.cur = first;
            unpark(&s.th[first].go);
        }
        for h in joins {
            let _ = h.join();
        }
    });
    let s = unsafe { Box::from_raw(ptr) };
    unsafe { SIM = std::ptr::null_mut() };
    count(Stat::Steps, s.steps);
    count(Stat::Switches, s.switches);
    SimResult { rec: s.rec, hash: s.hash, steps: s.steps, switches: s.switches, incidents: s.incidents, in_flight_max: s.in_flight_max, preempted_in_call: s.preempted_in_call, call_blocks: s.call_blocks }
}
