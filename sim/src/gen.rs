//! Seeded scenario generation, one generator per property (swarm style: every run
//! draws its own sizes, plan shapes, number types, fault kinds and schedule policy).
use crate::spec::*;
use simrt::{Policy, Rng, NEVER};
use simshim::Alg;

const BF: [usize; 9] = [1, 2, 3, 4, 5, 6, 8, 9, 16];

pub fn is_prime(n: usize) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}

pub fn pick_len(r: &mut Rng, big: usize) -> usize {
    let big = big.max(2) as u64;
    let n = match r.below(100) {
        0..=27 => r.range(1, 16),
        28..=49 => r.range(17, 64),
        50..=62 => 1 << r.below(64 - big.leading_zeros() as u64),
        63..=76 => {
            let mut n = 1u64;
            loop {
                let f = *r.pick(&[2u64, 3, 4, 5, 6, 8, 9, 16]);
                if n * f > big || (n > 1 && r.chance(1, 6)) {
                    break;
                }
                n *= f;
            }
            n
        }
        77..=88 => {
            let mut p = r.range(3, big.max(5));
            while !is_prime(p as usize) {
                p -= 1;
            }
            p
        }
        _ => r.range(1, big),
    };
    n.clamp(1, big) as usize
}

pub struct Shape {
    pub depth: usize,
    /// percent of inner nodes that are wrapped in a probe
    pub probes: u64,
    pub trash: bool,
    /// percent of inner nodes that demand extra scratch
    pub hungry: u64,
    /// percent of inner nodes replaced by the reference model
    pub stubs: u64,
    pub reuse: u64,
    /// for large lengths: no quadratic parts
    pub cheap: bool,
}

fn push(nodes: &mut Vec<Node>, kind: Kind) -> usize {
    nodes.push(Node { kind, probe: None, lazy: false });
    nodes.len() - 1
}

/// A plan of length exactly `n`.
pub fn gen_plan(r: &mut Rng, nodes: &mut Vec<Node>, n: usize, depth: usize, sh: &Shape, root: bool) -> usize {
    if r.chance(sh.reuse, 100) {
        let same: Vec<usize> = (0..nodes.len()).filter(|&i| node_len(nodes, i) == n && !nodes[i].lazy).collect();
        if !same.is_empty() {
            return *r.pick(&same);
        }
    }
    if !root && r.chance(sh.stubs, 100) && n <= 512 {
        let (si, so) = (demand(r, n), demand(r, n));
        return push(nodes, Kind::Stub { n, si, so });
    }
    // (weight, choice)
    let mut opt: Vec<(u64, u32, usize)> = vec![];
    if BF.contains(&n) {
        opt.push((if root { 3 } else { 4 }, 0, 0));
    }
    let depth = if sh.cheap && n > 24 { depth.max(1) } else { depth };
    let naive = if sh.cheap { n <= 24 } else { n <= 64 || (n <= 400 && is_prime(n)) || (n <= 700 && r.chance(1, 8)) };
    if naive {
        opt.push((if n <= 40 { 3 } else { 1 }, 1, 0));
    }
    if n.is_power_of_two() {
        opt.push((4, 2, 0));
    }
    if depth > 0 {
        for k in 2..=6 {
            if k != 1 && n % k == 0 {
                opt.push((3, 3, k));
            }
        }
        let divs: Vec<usize> = (2..n).filter(|d| n % d == 0).collect();
        if !divs.is_empty() {
            let d = *r.pick(&divs);
            opt.push((5, 4, d));
        }
        if r.chance(1, 12) {
            opt.push((2, 4, if r.chance(1, 2) { 1 } else { n }));
        }
        if n % 4 == 0 {
            opt.push((4, 5, 0));
        }
        if is_prime(n) {
            opt.push((5, 6, 0));
        }
    }
    if root && opt.iter().any(|o| o.1 >= 3) && r.chance(3, 4) {
        opt.retain(|o| o.1 >= 2);
    }
    if opt.is_empty() {
        if n <= 400 {
            opt.push((1, 1, 0));
        } else if is_prime(n) {
            opt.push((1, 6, 0));
        } else {
            let d = (2..n).find(|d| n % d == 0).unwrap();
            opt.push((1, 4, d));
        }
    }
    let total: u64 = opt.iter().map(|o| o.0).sum();
    let mut x = r.below(total);
    let mut ch = opt[0];
    for o in &opt {
        if x < o.0 {
            ch = *o;
            break;
        }
        x -= o.0;
    }
    let d = depth.saturating_sub(1);
    let i = match ch.1 {
        0 => push(nodes, Kind::Lib(Alg::Butterfly(n), vec![])),
        1 => push(nodes, Kind::Lib(Alg::Naive(n), vec![])),
        2 => push(nodes, Kind::Lib(Alg::Radix4(n), vec![])),
        3 => {
            let c = gen_plan(r, nodes, n / ch.2, d, sh, false);
            push(nodes, Kind::Lib(Alg::Nx(ch.2), vec![c]))
        }
        4 => {
            let a = gen_plan(r, nodes, ch.2, d, sh, false);
            let b = gen_plan(r, nodes, n / ch.2, d, sh, false);
            push(nodes, Kind::Lib(Alg::Mixed, vec![a, b]))
        }
        5 => {
            let a = gen_plan(r, nodes, n / 4, d, sh, false);
            let b = gen_plan(r, nodes, n / 2, d, sh, false);
            push(nodes, Kind::Lib(Alg::Split, vec![a, b]))
        }
        _ => {
            let a = gen_plan(r, nodes, n - 1, d, sh, false);
            push(nodes, Kind::Lib(Alg::Raders, vec![a]))
        }
    };
    if !root && r.chance(sh.probes, 100) {
        let hungry = r.chance(sh.hungry, 100);
        let (ei, eo) = if hungry { (demand(r, n), demand(r, n)) } else { (0, 0) };
        nodes[i].probe = Some(Probe { trash: sh.trash && r.chance(4, 5), ei, eo });
    }
    i
}
fn demand(r: &mut Rng, n: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 => n,
        2 => r.range(1, n as u64) as usize,
        3 => r.range(1, 4 * n as u64) as usize,
        4 => n * r.range(2, 9) as usize,
        _ => r.range(1, 12 * n as u64 + 8) as usize,
    }
}

pub fn policy(r: &mut Rng, est: u64) -> (Policy, u64) {
    let ms = *r.pick(&[20, 60, 150, 300, 600]);
    let p = match r.below(100) {
        0..=9 => Policy::Seq,
        10..=69 => Policy::Random { seed: r.next(), max: 1 + r.logu((est / 4).max(8)) },
        _ => Policy::Pct { seed: r.next(), gap: 2 + r.logu((est / 2).max(16)) },
    };
    (p, ms)
}
fn scalar(r: &mut Rng, sim: u64) -> Sc {
    if r.chance(sim, 100) {
        Sc::Sim
    } else if r.chance(1, 2) {
        Sc::F32
    } else {
        Sc::F64
    }
}
fn entry(r: &mut Rng) -> Entry {
    *r.pick(&[Entry::Process, Entry::Inplace, Entry::Oop])
}
fn class(r: &mut Rng) -> Class {
    if r.chance(1, 2) { Class::Uniform } else { *r.pick(&FINITE) }
}
fn class_any(r: &mut Rng) -> Class {
    if r.chance(1, 25) { Class::Nan } else if r.chance(1, 25) { Class::Inf } else { class(r) }
}
fn chunks(r: &mut Rng, n: usize, limit: usize) -> usize {
    if n <= 32 && r.chance(1, 40) {
        // many chunks, around sizes where counters and thresholds turn over
        let k = *r.pick(&[33u64, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 513, 1000, 1024, 1025]) as usize;
        return k.min(6000 / n);
    }
    let m = (limit / n.max(1)).max(1) as u64;
    (match r.below(10) {
        0..=4 => 1,
        5..=7 => r.range(1, 3),
        8 => r.range(1, 8),
        _ => r.range(1, m),
    })
    .min(m) as usize
}
fn fill(r: &mut Rng) -> Fill {
    *r.pick(&FILLS)
}
fn malform(r: &mut Rng, n: usize, c: &mut Call) {
    let big = (n * c.chunks) as u64;
    for _ in 0..8 {
        c.mal = match r.below(9) {
            0 => Mal::Short(if r.chance(1, 3) { n - 1 } else { r.below(n as u64) as usize }),
            1 => Mal::Short(0),
            2 if n > 1 => Mal::Rem(r.range(1, n as u64 - 1) as usize),
            3 if n > 1 => Mal::Rem(if r.chance(1, 2) { 1 } else { n - 1 }),
            4 if c.entry == Entry::Oop => Mal::OutLong(if r.chance(1, 2) { n * r.range(1, 3) as usize } else { r.range(1, 2 * n as u64) as usize }),
            5 if c.entry == Entry::Oop => Mal::OutShort(if r.chance(1, 2) { (n * r.range(1, c.chunks as u64) as usize).min(big as usize) } else { r.range(1, big) as usize }),
            6 if c.entry == Entry::Oop => Mal::InShort(if r.chance(1, 2) { (n * r.range(1, c.chunks as u64) as usize).min(big as usize) } else { r.range(1, big) as usize }),
            7 | 8 if c.entry != Entry::Process => Mal::ScratchShort(match r.below(3) {
                0 => 1,
                1 => r.range(1, n as u64) as usize,
                _ => 1 << 24,
            }),
            _ => continue,
        };
        return;
    }
    c.mal = Mal::Short(n - 1);
}

/// A long plan with every algorithm equally likely at the top.
fn large_root(r: &mut Rng, nodes: &mut Vec<Node>, sh: &Shape, least: usize) -> usize {
    let sh = Shape { depth: sh.depth.clamp(1, 3), cheap: true, ..*sh };
    let n = least << r.below(5) | r.below(256) as usize;
    let smooth = |r: &mut Rng, m: usize| -> usize {
        // mostly a length without large prime factors near m
        if r.chance(1, 4) {
            return m.max(2);
        }
        let mut v = 1;
        while v < m {
            v *= *r.pick(&[2usize, 2, 2, 3, 4, 5]);
        }
        v
    };
    let k = match r.below(11) {
        0 => Kind::Lib(Alg::Naive(n.min(600 + n % 256)), vec![]),
        1 => Kind::Lib(Alg::Radix4(n.next_power_of_two()), vec![]),
        2 => {
            let q = smooth(r, n / 4);
            let a = gen_plan(r, nodes, q, sh.depth, &sh, false);
            let b = gen_plan(r, nodes, 2 * q, sh.depth, &sh, false);
            Kind::Lib(Alg::Split, vec![a, b])
        }
        3 => {
            let mut p = n;
            while !is_prime(p) {
                p += 1;
            }
            let a = gen_plan(r, nodes, p - 1, sh.depth, &sh, false);
            Kind::Lib(Alg::Raders, vec![a])
        }
        x => {
            let f = x as usize - 2;
            if f <= 6 {
                let m = smooth(r, n / f);
                let a = gen_plan(r, nodes, m, sh.depth, &sh, false);
                Kind::Lib(Alg::Nx(f), vec![a])
            } else {
                let w = 2 + r.logu(n as u64 / 4) as usize;
                let m = smooth(r, n / w);
                let a = gen_plan(r, nodes, w, sh.depth, &sh, false);
                let b = gen_plan(r, nodes, m, sh.depth, &sh, false);
                Kind::Lib(Alg::Mixed, vec![a, b])
            }
        }
    };
    push(nodes, k)
}

/// Roots: nodes that calls address.
fn roots(r: &mut Rng, nodes: &mut Vec<Node>, k: usize, big: usize, sh: &Shape) -> Vec<usize> {
    let mut v = vec![];
    if r.chance(1, 60) {
        return vec![large_root(r, nodes, sh, 256)];
    }
    for _ in 0..k {
        let n = pick_len(r, big);
        let i = gen_plan(r, nodes, n, sh.depth, sh, true);
        v.push(i);
        // also call inner plans directly
        if r.chance(1, 3) {
            if let Kind::Lib(_, ch) = &nodes[i].kind {
                if !ch.is_empty() {
                    let c = *r.pick(ch);
                    v.push(c);
                }
            }
        }
    }
    v
}
/// Several plans whose lengths are related (equal, double, off by one, equal modulo a
/// power of two): what a careless cache key would confuse.
fn related(r: &mut Rng, nodes: &mut Vec<Node>, sh: &Shape) -> Vec<usize> {
    let n = pick_len(r, 160);
    let mut v = vec![];
    for i in 0..r.range(2, 6) {
        let m = match if i == 0 { 0 } else { r.below(12) } {
            0 | 1 => n,
            2 => 2 * n,
            3 => n / 2,
            4 => 4 * n,
            5 => n + 1,
            6 => n.saturating_sub(1),
            7 => n + (1 << r.range(3, 8)),
            8 => n + 256,
            9 => n + (1 << r.range(4, 10)),
            10 => (n + 64 * r.range(1, 5) as usize).min(600),
            _ => n * r.range(2, 5) as usize,
        }
        .clamp(1, 1200);
        let naive = m <= 700 && (m > 128 || r.chance(1, 2)) && r.chance(1, 2);
        let k = if naive { push(nodes, Kind::Lib(Alg::Naive(m), vec![])) } else { gen_plan(r, nodes, m, sh.depth, &Shape { reuse: 10, ..*sh }, true) };
        v.push(k);
    }
    v
}
fn other_scalar(r: &mut Rng, s: Sc) -> Sc {
    loop {
        let o = *r.pick(&[Sc::F32, Sc::F64, Sc::Sim]);
        if o != s {
            return o;
        }
    }
}
fn est(nodes: &[Node], threads: &[Vec<Op>]) -> u64 {
    threads.iter().flatten().map(|o| if let Op::Call(c) = o { (c.chunks * node_len(nodes, c.node)) as u64 * 20 * c.times } else { 200 }).sum()
}
fn base(prop: &str, run: u64) -> Scenario {
    Scenario { prop: prop.into(), run, scalar: Sc::F64, poison: 0xFF, nodes: vec![], threads: vec![], policy: Policy::Seq, max_switches: 0, rounds: 1, keep: false, reuse: false, prelude: None, world: 0 }
}
fn call(r: &mut Rng, nodes: &[Node], roots: &[usize], limit: usize) -> Call {
    let node = *r.pick(roots);
    let n = node_len(nodes, node);
    let e = entry(r);
    let ch = chunks(r, n, limit);
    let cl = class_any(r);
    let mut c = Call::simple(node, e, ch, cl, r.next() >> 1);
    c.off = r.below(8) as usize;
    c
}
fn big_for(r: &mut Rng, usual: usize, rare: usize) -> usize {
    if r.chance(1, 300) {
        return 8300;
    }
    if r.chance(1, 20) { rare } else { usual }
}

pub fn generate(prop: &str, seed: u64, run: u64) -> Scenario {
    let mut h = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ run.wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    for b in prop.bytes() {
        h = h.wrapping_mul(0x100_0000_01B3) ^ b as u64;
    }
    let mut rr = Rng::new(h);
    let r = &mut rr;
    let mut s = base(prop, run);
    match prop {
        "C01" => c01(r, &mut s),
        "C02" => c02(r, &mut s),
        "C03" => c03(r, &mut s),
        "C04" => c04(r, &mut s),
        "C05" => c05(r, &mut s),
        "C06" => c06(r, &mut s),
        "C07" => c07(r, &mut s),
        "C08" => c08(r, &mut s),
        "C09" if run % 3 == 0 => c09_sweep(r, &mut s, run / 3 + seed.wrapping_mul(37)),
        "C09" => c09(r, &mut s),
        "C10" => c10(r, &mut s),
        "C11" => c11(r, &mut s),
        "C12" => c12(r, &mut s),
        "C15" => c15(r, &mut s),
        "C17" => c17(r, &mut s),
        "C18" => c18(r, &mut s),
        _ => panic!("unknown property {}", prop),
    }
    s.world = if r.chance(1, 4) { 0 } else { r.next() | 1 };
    for op in s.threads.iter_mut().flatten() {
        if let Op::Call(c) = op {
            if !c.guard && r.chance(1, 10) {
                c.off = crate::exec::TOUCHING + r.below(48) as usize;
            }
        }
    }
    s
}
/// Arithmetic in one chunk, roughly.
pub fn node_cost(nodes: &[Node], i: usize) -> u64 {
    let n = node_len(nodes, i) as u64;
    match &nodes[i].kind {
        Kind::Stub { .. } => n.saturating_mul(n),
        Kind::Lib(a, ch) => {
            let sub = |k: usize| node_cost(nodes, ch[k]);
            match a {
                Alg::Naive(_) => 2 * n * n,
                Alg::Butterfly(_) => 4 * n,
                Alg::Radix4(_) => 6 * n * (1 + n.ilog2().min(63) as u64),
                Alg::Mixed => node_len(nodes, ch[1]) as u64 * sub(0) + node_len(nodes, ch[0]) as u64 * sub(1) + 8 * n,
                Alg::Nx(k) => *k as u64 * sub(0) + 8 * n,
                Alg::Split => 2 * sub(0) + sub(1) + 8 * n,
                Alg::Raders => 2 * sub(0) + 8 * n,
            }
        }
    }
}
/// Now and then one call of a scenario gets a buffer or a scratch longer than 12, 13, 14, 15 or
/// 16 bits can count, or that many chunks.
fn lengthen(r: &mut Rng, s: &mut Scenario) {
    if s.prop == "C08" || !r.chance(1, if s.prop == "C06" { 40 } else { 80 }) {
        return;
    }
    let mut at = vec![];
    for (t, ops) in s.threads.iter().enumerate() {
        for (o, op) in ops.iter().enumerate() {
            if let Op::Call(c) = op {
                if c.base != 0 {
                    return;
                }
                if c.times == 1 && node_len(&s.nodes, c.node) > 0 && node_cost(&s.nodes, c.node) < 4000 {
                    at.push((t, o));
                }
            }
        }
    }
    if at.is_empty() || r.chance(1, 2) {
        // a long call of its own, on one more small plan
        let n = r.range(1, 12) as usize;
        let sh = Shape { depth: 2, probes: 0, trash: false, hungry: 0, stubs: 0, reuse: 30, cheap: false };
        let node = gen_plan(r, &mut s.nodes, n, 2, &sh, true);
        let mut c = Call::simple(node, entry(r), 1, Class::Uniform, r.next() >> 1);
        if matches!(s.prop.as_str(), "C02" | "C06" | "C07" | "C12" | "C17") && r.chance(if s.prop == "C06" { 2 } else { 1 }, 3) {
            malform(r, n, &mut c);
        }
        let t = r.below(s.threads.len() as u64) as usize;
        let o = r.below(s.threads[t].len() as u64 + 1) as usize;
        s.threads[t].insert(o, Op::Call(c));
        at = vec![(t, o)];
    }
    let (t, o) = *r.pick(&at);
    let mut k = *r.pick(&[4097u64, 8193, 16385, 32769, 65536, 65537, 65599, 70000]);
    let as_chunks = r.chance(1, 2);
    let as_scratch = r.chance(1, 4);
    let Op::Call(c) = &mut s.threads[t][o] else { return };
    let n = node_len(&s.nodes, c.node) as u64;
    let cost = node_cost(&s.nodes, c.node);
    if as_scratch && c.entry != Entry::Process && !matches!(c.mal, Mal::ScratchShort(_)) {
        c.extra = k as usize;
    } else if as_chunks && n * 8193 <= 300_000 && cost * 8193 < 2_500_000 {
        while n * k > 300_000 || cost * k >= 2_500_000 {
            k = k / 2 + 1;
        }
        c.chunks = k as usize;
    } else if (k / n + 1) * cost < 1_500_000 {
        c.chunks = (k / n) as usize + 1;
    }
}
fn schedule(r: &mut Rng, s: &mut Scenario) {
    lengthen(r, s);
    let e = est(&s.nodes, &s.threads);
    let (p, ms) = policy(r, e);
    s.policy = p;
    s.max_switches = ms;
}
/// Nodes that threads may construct for themselves over the shared inner plans.
fn lazies(r: &mut Rng, s: &mut Scenario, rts: &[usize]) -> Vec<usize> {
    let mut v = vec![];
    for &i in rts {
        if r.chance(1, 2) {
            if let Kind::Lib(..) = s.nodes[i].kind {
                let mut n = s.nodes[i].clone();
                n.lazy = true;
                s.nodes.push(n);
                v.push(s.nodes.len() - 1);
            }
        }
    }
    v
}

/// Many callers at once, most of them standing still inside a call.
fn crowd(r: &mut Rng, s: &mut Scenario) {
    let sh = Shape { depth: r.range(0, 3) as usize, probes: 0, trash: true, hungry: 0, stubs: 0, reuse: 35, cheap: false };
    let k = r.range(1, 2) as usize;
    let rts = roots(r, &mut s.nodes, k, 48, &sh);
    let pool: Vec<Call> = (0..r.range(1, 4)).map(|_| call(r, &s.nodes, &rts, 64)).collect();
    let nt = *r.pick(&[7u64, 8, 9, 10, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 64, 65, 66, 70]);
    let still = r.range(30, 100);
    for t in 0..nt {
        let mut c = r.pick(&pool).clone();
        c.chunks = c.chunks.min(3);
        c.off = r.below(8) as usize;
        if t + 1 < nt && r.chance(still, 100) {
            c.fault = Fault::FreezePpm(edge_ppm(r));
        }
        s.threads.push(vec![Op::Call(c)]);
    }
    s.policy = match r.below(3) {
        0 => Policy::Seq,
        1 => Policy::Random { seed: r.next(), max: 1 + r.logu(400) },
        _ => Policy::Pct { seed: r.next(), gap: 2 + r.logu(600) },
    };
    s.max_switches = 1500;
}

/// Callers that build whole plans, inner transforms included, use them and drop them all, so that
/// later plans are built where earlier ones of other lengths used to be.
fn workshop(r: &mut Rng, s: &mut Scenario) {
    let alg = r.below(10);
    let mix = r.chance(1, 4);
    let leaf_kind = r.below(6);
    let base = pick_len(r, 24).max(1);
    let mut rts = vec![];
    for _ in 0..r.range(2, 5) {
        let leaf = |r: &mut Rng, nodes: &mut Vec<Node>, n: usize| -> usize {
            let sh = Shape { depth: 1, probes: 0, trash: false, hungry: 0, stubs: 0, reuse: 0, cheap: false };
            match leaf_kind {
                0..=2 => push(nodes, Kind::Lib(Alg::Naive(n), vec![])),
                3 if n.is_power_of_two() => push(nodes, Kind::Lib(Alg::Radix4(n), vec![])),
                4 if BF.contains(&n) => push(nodes, Kind::Lib(Alg::Butterfly(n), vec![])),
                _ => gen_plan(r, nodes, n, 1, &sh, false),
            }
        };
        let n = if r.chance(1, 2) { base + r.below(4) as usize } else { pick_len(r, 24).max(1) };
        let nodes = &mut s.nodes;
        let k = match if mix { r.below(10) } else { alg } {
            0..=2 => {
                let a = leaf(r, nodes, n);
                let b = leaf(r, nodes, 2 * n);
                Kind::Lib(Alg::Split, vec![a, b])
            }
            3 | 4 => {
                let m = r.range(1, 12) as usize;
                let a = leaf(r, nodes, n);
                let b = leaf(r, nodes, m);
                Kind::Lib(Alg::Mixed, vec![a, b])
            }
            5 | 6 => {
                let f = r.range(2, 6) as usize;
                let a = leaf(r, nodes, n);
                Kind::Lib(Alg::Nx(f), vec![a])
            }
            7 | 8 => {
                let q = *r.pick(&[2usize, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]);
                let a = leaf(r, nodes, q - 1);
                Kind::Lib(Alg::Raders, vec![a])
            }
            _ => Kind::Lib(Alg::Radix4(1 << r.below(8)), vec![]),
        };
        rts.push(push(&mut s.nodes, k));
    }
    for n in s.nodes.iter_mut() {
        n.lazy = true;
    }
    fn order(nodes: &[Node], i: usize, v: &mut Vec<usize>) {
        if v.contains(&i) {
            return;
        }
        if let Kind::Lib(_, ch) = &nodes[i].kind {
            for &c in ch {
                order(nodes, c, v);
            }
        }
        v.push(i);
    }
    for _ in 0..r.range(1, 3) {
        let mut ops = vec![];
        for _ in 0..r.range(3, 8) {
            let root = *r.pick(&rts);
            let mut v = vec![];
            order(&s.nodes, root, &mut v);
            if r.chance(1, 3) {
                // the parts in another order
                let k = v.len();
                if k > 2 {
                    v[..k - 1].sort_by_key(|&i| (node_len(&s.nodes, i), i));
                }
            }
            for &i in &v {
                ops.push(Op::Build { node: i, fault: Fault::None });
            }
            let early = r.chance(1, 2);
            if early {
                for &i in &v[..v.len() - 1] {
                    ops.push(Op::DropPriv(i));
                }
            }
            for _ in 0..r.range(1, 2) {
                let mut c = call(r, &s.nodes, &[root], 64);
                c.private = true;
                c.iseed %= 4;
                ops.push(Op::Call(c));
            }
            if r.chance(5, 6) {
                ops.push(Op::DropPriv(root));
                if !early {
                    if r.chance(1, 2) {
                        v.reverse();
                    }
                    for &i in v.iter().filter(|&&i| i != root) {
                        ops.push(Op::DropPriv(i));
                    }
                }
            }
        }
        s.threads.push(ops);
    }
    s.reuse = r.chance(3, 4);
    s.policy = match r.below(4) {
        0 | 1 => Policy::Seq,
        2 => Policy::Random { seed: r.next(), max: 1 + r.logu(3000) },
        _ => Policy::Pct { seed: r.next(), gap: 2 + r.logu(3000) },
    };
    s.max_switches = 600;
}

/// Callers that keep building, using and dropping plans of the same few definitions.
fn builders(r: &mut Rng, s: &mut Scenario) {
    let sh = Shape { depth: r.range(0, 2) as usize, probes: if r.chance(1, 6) { 30 } else { 0 }, trash: true, hungry: 0, stubs: 0, reuse: 35, cheap: false };
    let mut rts = vec![];
    let primes = r.chance(1, 3);
    for _ in 0..r.range(2, 5) {
        let i = if primes {
            let p = *r.pick(&[2usize, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31]);
            let inner = gen_plan(r, &mut s.nodes, p - 1, 1, &sh, false);
            push(&mut s.nodes, Kind::Lib(Alg::Raders, vec![inner]))
        } else {
            let n = pick_len(r, 40);
            gen_plan(r, &mut s.nodes, n, sh.depth, &sh, true)
        };
        if let Kind::Lib(..) = s.nodes[i].kind {
            rts.push((i, i));
        }
    }
    if rts.is_empty() {
        return;
    }
    // either one plan of each definition is shared and stays, or they all come and go
    let shared_too = r.chance(1, 2);
    for x in rts.iter_mut() {
        let inner = s.nodes.iter().any(|n| matches!(&n.kind, Kind::Lib(_, ch) if ch.contains(&x.0)));
        if shared_too || inner {
            let mut n = s.nodes[x.0].clone();
            n.lazy = true;
            s.nodes.push(n);
            x.1 = s.nodes.len() - 1;
        } else {
            s.nodes[x.0].lazy = true;
        }
    }
    for _ in 0..r.range(2, 4) {
        let mut ops = vec![];
        for _ in 0..r.range(2, 7) {
            let (sh_node, l) = *r.pick(&rts);
            ops.push(Op::Build { node: l, fault: Fault::None });
            for _ in 0..r.below(3) {
                let mut c = call(r, &s.nodes, &[l], 64);
                c.private = true;
                c.iseed %= 4;
                ops.push(Op::Call(c));
            }
            if r.chance(2, 3) {
                ops.push(Op::DropPriv(l));
            }
            if shared_too && r.chance(1, 3) {
                let mut c = call(r, &s.nodes, &[sh_node], 64);
                c.iseed %= 4;
                ops.push(Op::Call(c));
            }
        }
        // and one more look at what is still held
        for o in ops.clone() {
            if let Op::Build { node, .. } = o {
                let mut c = call(r, &s.nodes, &[node], 64);
                c.private = true;
                c.iseed %= 4;
                ops.push(Op::Call(c));
                break;
            }
        }
        s.threads.push(ops);
    }
    s.policy = match r.below(3) {
        0 => Policy::Random { seed: r.next(), max: 1 + r.logu(300) },
        1 => Policy::Random { seed: r.next(), max: 1 + r.logu(4000) },
        _ => Policy::Pct { seed: r.next(), gap: 2 + r.logu(3000) },
    };
    s.max_switches = 1500;
}

fn c01(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 25);
    if r.chance(1, 25) {
        workshop(r, s);
        return;
    }
    if r.chance(1, 10) {
        builders(r, s);
        if !s.threads.is_empty() {
            return;
        }
    }
    if r.chance(1, 100) {
        return crowd(r, s);
    }
    let sh = Shape { depth: r.range(1, 4) as usize, probes: if r.chance(1, 6) { 40 } else { 0 }, trash: true, hungry: 0, stubs: 0, reuse: 35, cheap: false };
    let big = big_for(r, 96, 700);
    let k = r.range(1, 3) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let lz = lazies(r, s, &rts);
    let npool = r.range(1, 5);
    let limit = big_for(r, 256, 2000);
    let mut pool: Vec<Call> = (0..npool).map(|_| call(r, &s.nodes, &rts, limit)).collect();
    if r.chance(1, 5) {
        let c = pool.last_mut().unwrap();
        let n = node_len(&s.nodes, c.node);
        malform(r, n, c);
    }
    for l in &lz {
        let mut c = call(r, &s.nodes, &[*l], limit);
        c.private = true;
        pool.push(c);
    }
    let nt = r.range(2, 5);
    let drops = r.chance(1, 3);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 5) {
            let mut c = r.pick(&pool).clone();
            if r.chance(1, 8) {
                c.twist = r.next() >> 8;
            }
            c.off = r.below(8) as usize;
            if c.private {
                ops.push(Op::Build { node: c.node, fault: Fault::None });
            }
            if r.chance(1, 12) && node_len(&s.nodes, c.node) * c.chunks < 200 {
                c.times = r.range(2, 40);
            }
            let nd = c.node;
            let pv = c.private;
            ops.push(Op::Call(c));
            if pv && r.chance(1, 2) {
                ops.push(Op::DropPriv(nd));
            }
            if drops && !pv && r.chance(1, 4) {
                ops.push(Op::DropShared(nd));
            }
        }
        s.threads.push(ops);
    }
    s.reuse = r.chance(1, 4);
    schedule(r, s);
}

fn c02(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 35);
    if r.chance(1, 12) {
        workshop(r, s);
        return;
    }
    if r.chance(1, 15) {
        builders(r, s);
        if !s.threads.is_empty() {
            s.policy = if r.chance(1, 2) { Policy::Seq } else { Policy::Random { seed: r.next(), max: u64::MAX / 8 } };
            s.reuse = r.chance(1, 2);
            return;
        }
    }
    let sh = Shape { depth: r.range(1, 4) as usize, probes: if r.chance(1, 5) { 40 } else { 0 }, trash: true, hungry: 0, stubs: 0, reuse: 35, cheap: false };
    let big = big_for(r, 96, 700);
    let long = r.chance(1, 8);
    let big = if long { 32 } else { big };
    let family = !long && r.chance(1, 3);
    let rts = if family {
        related(r, &mut s.nodes, &sh)
    } else {
        let k = r.range(1, 3) as usize;
        roots(r, &mut s.nodes, k, big, &sh)
    };
    if r.chance(1, 5) {
        s.prelude = Some(other_scalar(r, s.scalar));
    }
    let lz = lazies(r, s, &rts);
    let limit = big_for(r, 256, 1500);
    let npool = if family { r.range(3, 9) } else { r.range(2, 5) };
    let mut pool: Vec<Call> = vec![];
    for _ in 0..npool {
        let mut c = call(r, &s.nodes, &rts, limit);
        if r.chance(1, 3) && !pool.is_empty() {
            // same plan and shape as an earlier call, other data
            let p = r.pick(&pool).clone();
            c.node = p.node;
            c.private = p.private;
            c.chunks = p.chunks;
            if r.chance(1, 2) {
                c.entry = p.entry;
            }
            if r.chance(1, 2) {
                c.class = p.class;
                c.iseed = p.iseed;
                if r.chance(1, 2) {
                    c.twist = r.next() >> 8;
                }
            }
        }
        if r.chance(1, 6) {
            let n = node_len(&s.nodes, c.node);
            malform(r, n, &mut c);
        }
        pool.push(c);
    }
    for l in &lz {
        let mut c = call(r, &s.nodes, &[*l], limit);
        c.private = true;
        pool.push(c);
    }
    let nt = *r.pick(&[1u64, 1, 1, 2, 3]);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(3, if long { 6 } else { 14 }) {
            let mut c = r.pick(&pool).clone();
            c.off = if r.chance(1, 2) { 0 } else { r.below(16) as usize };
            c.guard = r.chance(1, 20);
            let work = node_len(&s.nodes, c.node) * c.chunks;
            if long && work <= 64 && r.chance(1, 2) && c.mal == Mal::None {
                c.times = if r.chance(1, 12) && work <= 16 { 70_000 } else { r.range(100, 3000) };
            } else if r.chance(1, 10) && work < 400 {
                c.times = r.range(2, 30);
            }
            if s.scalar == Sc::Sim && r.chance(1, 8) && c.mal == Mal::None && c.times == 1 {
                c.fault = Fault::ScalarPpm(r.below(1_000_000));
            } else if has_probe(&s.nodes, c.node) && r.chance(1, 8) && c.mal == Mal::None && c.times == 1 {
                c.fault = Fault::InnerPpm(r.below(1_000_000));
            }
            if c.private && r.chance(2, 3) {
                if r.chance(1, 2) {
                    ops.push(Op::DropPriv(c.node));
                }
                ops.push(Op::Build { node: c.node, fault: Fault::None });
            }
            ops.push(Op::Call(c));
        }
        s.threads.push(ops);
    }
    s.reuse = r.chance(1, 2);
    lengthen(r, s);
    if nt > 1 && r.chance(1, 2) {
        // calls do not overlap, but the threads take turns
        s.policy = Policy::Random { seed: r.next(), max: u64::MAX / 8 };
        s.max_switches = 1000;
    }
}

fn c03(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 65);
    if s.scalar == Sc::Sim && r.chance(1, 12) {
        if r.chance(1, 2) {
            workshop(r, s);
        } else {
            builders(r, s);
        }
        for op in s.threads.iter_mut().flatten() {
            match op {
                Op::Build { fault, .. } if r.chance(1, 3) => *fault = Fault::ScalarPpm(edge_ppm(r)),
                Op::Call(c) if r.chance(1, 5) => c.fault = Fault::ScalarPpm(edge_ppm(r)),
                _ => {}
            }
        }
        if !s.threads.is_empty() {
            return;
        }
    }
    let probes = if s.scalar == Sc::Sim { if r.chance(1, 3) { 50 } else { 0 } } else { 70 };
    let sh = Shape { depth: r.range(1, 4) as usize, probes, trash: true, hungry: 0, stubs: 0, reuse: 35, cheap: false };
    let big = big_for(r, 80, 400);
    let k = r.range(1, 2) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let lz = lazies(r, s, &rts);
    let limit = 256;
    let npool = r.range(1, 4);
    let pool: Vec<Call> = (0..npool).map(|_| call(r, &s.nodes, &rts, limit)).collect();
    let many = r.chance(1, 8);
    let nt = if many { 1 } else { *r.pick(&[1u64, 1, 2, 2, 3]) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..if many { r.range(6, 20) } else { r.range(1, 4) } {
            let mut c = r.pick(&pool).clone();
            if r.chance(1, 8) {
                c.twist = r.next() >> 8;
            }
            c.off = r.below(8) as usize;
            if r.chance(if many { 3 } else { 1 }, if many { 4 } else { 2 }) {
                let can_inner = has_probe(&s.nodes, c.node);
                c.fault = if s.scalar == Sc::Sim && !(can_inner && r.chance(1, 2)) {
                    Fault::ScalarPpm(edge_ppm(r))
                } else if can_inner {
                    Fault::InnerPpm(edge_ppm(r))
                } else {
                    Fault::None
                };
                if r.chance(1, 2) {
                    c.sfill = fill(r);
                }
            }
            ops.push(Op::Call(c));
            if !lz.is_empty() && r.chance(1, 4) {
                let l = *r.pick(&lz);
                let inner = has_probe(&s.nodes, l) && r.chance(1, 2);
                let f = if inner {
                    Fault::InnerPpm(edge_ppm(r))
                } else if s.scalar == Sc::Sim && r.chance(2, 3) {
                    Fault::ScalarPpm(edge_ppm(r))
                } else {
                    Fault::None
                };
                ops.push(Op::Build { node: l, fault: f });
                if r.chance(1, 2) {
                    // a construction that fails may be retried
                    ops.push(Op::Build { node: l, fault: Fault::None });
                }
                let mut c = call(r, &s.nodes, &[l], limit);
                c.private = true;
                ops.push(Op::Call(c));
            }
        }
        let c = r.pick(&pool).clone();
        ops.push(Op::Call(c));
        s.threads.push(ops);
    }
    s.reuse = r.chance(1, 4);
    schedule(r, s);
}
fn edge_ppm(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => 999_999,
        _ => r.below(1_000_000),
    }
}

fn c04(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 45);
    let sh = Shape { depth: r.range(1, 4) as usize, probes: if r.chance(2, 3) { 60 } else { 0 }, trash: true, hungry: if r.chance(1, 3) { 40 } else { 0 }, stubs: 0, reuse: 35, cheap: false };
    s.poison = *r.pick(&[0xFF, 0xFF, 0x7F, 0x41, 0x00]);
    let big = big_for(r, 128, 1200);
    let k = r.range(1, 2) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let limit = big_for(r, 400, 3000);
    let nt = *r.pick(&[1u64, 1, 1, 2]);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            let mut c = call(r, &s.nodes, &rts, limit);
            c.sfill = fill(r);
            c.ofill = fill(r);
            let n = node_len(&s.nodes, c.node);
            c.extra = match r.below(8) {
                0 | 1 => 0,
                2 => 1,
                3 => n * r.range(1, 4) as usize,
                4 => r.range(1, 20 * n as u64) as usize,
                5 => r.range(1, 2 * node_len(&s.nodes, c.node) as u64) as usize,
                _ => r.range(1, 300) as usize,
            };
            ops.push(Op::Call(c));
        }
        s.threads.push(ops);
    }
    s.reuse = r.chance(1, 3);
    schedule(r, s);
}

fn c05(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 25);
    let sh = Shape { depth: r.range(1, 4) as usize, probes: 70, trash: true, hungry: 60, stubs: *r.pick(&[0, 30, 60, 100]), reuse: 25, cheap: false };
    let big = big_for(r, 128, 1000);
    let k = r.range(1, 2) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let limit = big_for(r, 300, 2000);
    let nt = *r.pick(&[1u64, 1, 1, 2]);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            let mut c = call(r, &s.nodes, &rts, limit);
            c.class = class(r);
            c.sfill = fill(r);
            c.ofill = fill(r);
            ops.push(Op::Call(c));
        }
        s.threads.push(ops);
    }
    schedule(r, s);
}

fn c06(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 20);
    let hungry = if r.chance(1, 4) { 50 } else { 0 };
    let sh = Shape { depth: r.range(0, 3) as usize, probes: if hungry > 0 { 60 } else { 0 }, trash: true, hungry, stubs: 0, reuse: 35, cheap: false };
    let big = big_for(r, 96, 1000);
    let k = r.range(1, 3) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let limit = big_for(r, 256, 2000);
    let npool = r.range(1, 3);
    let pool: Vec<Call> = (0..npool).map(|_| call(r, &s.nodes, &rts, limit)).collect();
    let nt = *r.pick(&[1u64, 2, 2, 3]);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(2, 7) {
            if r.chance(3, 5) {
                let mut c = call(r, &s.nodes, &rts, limit);
                c.class = class(r);
                let n = node_len(&s.nodes, c.node);
                malform(r, n, &mut c);
                if r.chance(1, 6) {
                    c.extra = r.range(1, 100) as usize;
                }
                ops.push(Op::Call(c));
            } else {
                let mut c = r.pick(&pool).clone();
                if r.chance(1, 2) {
                    c.extra = r.range(1, 3 * node_len(&s.nodes, c.node) as u64) as usize;
                }
                ops.push(Op::Call(c));
            }
        }
        s.threads.push(ops);
    }
    schedule(r, s);
}

fn c07(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 30);
    let sh = Shape { depth: r.range(0, 4) as usize, probes: if r.chance(1, 4) { 50 } else { 0 }, trash: false, hungry: 40, stubs: 0, reuse: 35, cheap: false };
    let big = big_for(r, 160, 2500);
    let k = r.range(1, 3) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let lz = lazies(r, s, &rts);
    let limit = big_for(r, 500, 4000);
    let nt = *r.pick(&[1u64, 1, 2, 3]);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(2, 6) {
            let mut c = if !lz.is_empty() && r.chance(1, 6) {
                let l = *r.pick(&lz);
                ops.push(Op::Build { node: l, fault: Fault::None });
                let mut c = call(r, &s.nodes, &[l], limit);
                c.private = true;
                c
            } else {
                call(r, &s.nodes, &rts, limit)
            };
            let n = node_len(&s.nodes, c.node);
            c.guard = r.chance(1, 3);
            c.sfill = fill(r);
            c.ofill = fill(r);
            if r.chance(1, 3) {
                c.extra = r.range(1, 2 * n as u64) as usize;
            }
            if r.chance(1, 3) {
                malform(r, n, &mut c);
            } else if s.scalar == Sc::Sim && r.chance(1, 5) {
                c.fault = Fault::ScalarPpm(r.below(1_000_000));
            } else if has_probe(&s.nodes, c.node) && r.chance(1, 5) {
                c.fault = Fault::InnerPpm(r.below(1_000_000));
            }
            ops.push(Op::Call(c));
        }
        s.threads.push(ops);
    }
    schedule(r, s);
}

fn c08(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 20);
    let sh = Shape { depth: r.range(0, 4) as usize, probes: if r.chance(1, 5) { 40 } else { 0 }, trash: true, hungry: 20, stubs: 0, reuse: 35, cheap: false };
    let big = big_for(r, 96, 600);
    let n = pick_len(r, big);
    let root = gen_plan(r, &mut s.nodes, n, sh.depth, &sh, true);
    let max = (4000 / n).clamp(2, 1 << 20) as u64;
    let k = match r.below(8) {
        0 | 1 => r.range(2, 4.min(max)),
        2 | 3 => r.range(2, 17.min(max)),
        4 => r.range(2, 200.min(max)),
        5 => 1 + r.logu(max),
        6 => r.range(250, 300),
        _ => *r.pick(&[2u64, 4, 8, 16, 32, 64, 128, 7, 15, 17, 31, 33, 63, 65, 127, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049]),
    }
    .min(max) as usize;
    let k = if n <= 4 && r.chance(1, 60) { *r.pick(&[4095usize, 4097, 16385, 32769, 65535, 65536, 65537, 66000]) } else { k };
    let e = entry(r);
    let cl = class_any(r);
    let mut c = Call::simple(root, e, k, cl, r.next() >> 1);
    if r.chance(1, 2) {
        c.bad = r.below(k as u64);
    }
    c.off = r.below(8) as usize;
    // the whole batch in one call
    s.threads.push(vec![Op::Call(c.clone())]);
    // consecutive sub-batches by different threads
    if r.chance(2, 3) {
        let nt = r.range(1, 4);
        let mut th: Vec<Vec<Op>> = (0..nt).map(|_| vec![]).collect();
        let mut at = 0;
        while at < k {
            let m = r.range(1, (k - at).min(1 + k / 2) as u64) as usize;
            let mut d = c.clone();
            d.base = at as u64;
            d.chunks = m;
            d.off = r.below(8) as usize;
            let t = r.below(nt) as usize;
            th[t].push(Op::Call(d));
            at += m;
            if th.iter().map(|t| t.len()).sum::<usize>() > 24 {
                break;
            }
        }
        s.threads.extend(th.into_iter().filter(|t| !t.is_empty()));
    }
    schedule(r, s);
}

/// Systematic part of C09: every prime below 8192 once, then powers of two and some large lengths of every algorithm.
fn c09_sweep(r: &mut Rng, s: &mut Scenario, idx: u64) {
    static T: std::sync::OnceLock<Vec<(u8, usize)>> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut v: Vec<(u8, usize)> = (2..8192).filter(|&n| is_prime(n)).map(|n| (0, n)).collect();
        for k in 0..=16 {
            v.push((1, 1 << k));
            if k >= 2 {
                v.push((2, 1 << k));
            }
            v.push((3, 3 << k.min(13)));
            v.push((3, 5 << k.min(12)));
            v.push((3, 1 << k.min(14)));
        }
        for p in [12289, 16381, 18433, 25601, 40961, 46349, 65521, 65537, 65539, 80273, 92683, 104729, 114689, 131101, 147457, 163841] {
            v.push((0, p));
        }
        for k in [17, 18] {
            v.push((1, 1 << k));
            v.push((2, 1 << k));
        }
        for n in [700, 1021, 2048, 3001, 4099, 8192, 10_007] {
            v.push((4, n));
        }
        for k in 2..=6u8 {
            for m in [16_384, 24_576, 27_000, 32_768, 46_656, 65_536] {
                v.push((10 + k, k as usize * m));
            }
        }
        for n in [65_536, 66_049, 90_000, 131_070, 196_611, 262_144] {
            v.push((5, n));
        }
        let l = v.len();
        // spread the kinds over the sequence
        let mut w = Vec::with_capacity(l);
        let mut i = 0;
        for _ in 0..l {
            w.push(v[i]);
            i = (i + 613) % l;
        }
        w
    });
    let (k, n) = t[(idx % t.len() as u64) as usize];
    s.scalar = scalar(r, 5);
    let sh = Shape { depth: r.range(2, 5) as usize, probes: 0, trash: false, hungry: 0, stubs: 0, reuse: 40, cheap: n > 10_000 };
    let root = match k {
        0 => {
            let c = gen_plan(r, &mut s.nodes, n - 1, sh.depth, &sh, false);
            push(&mut s.nodes, Kind::Lib(Alg::Raders, vec![c]))
        }
        1 => push(&mut s.nodes, Kind::Lib(Alg::Radix4(n), vec![])),
        2 => {
            let a = gen_plan(r, &mut s.nodes, n / 4, 4, &sh, false);
            let b = gen_plan(r, &mut s.nodes, n / 2, 4, &sh, false);
            push(&mut s.nodes, Kind::Lib(Alg::Split, vec![a, b]))
        }
        4 => push(&mut s.nodes, Kind::Lib(Alg::Naive(n), vec![])),
        5 => {
            let divs: Vec<usize> = (2..n).filter(|d| n % d == 0).collect();
            let w = *r.pick(&divs);
            let a = gen_plan(r, &mut s.nodes, w, 5, &sh, false);
            let b = gen_plan(r, &mut s.nodes, n / w, 5, &sh, false);
            push(&mut s.nodes, Kind::Lib(Alg::Mixed, vec![a, b]))
        }
        12..=16 => {
            let f = k as usize - 10;
            let c = gen_plan(r, &mut s.nodes, n / f, 5, &sh, false);
            push(&mut s.nodes, Kind::Lib(Alg::Nx(f), vec![c]))
        }
        _ => gen_plan(r, &mut s.nodes, n, 6, &sh, true),
    };
    let mut ops = vec![];
    for _ in 0..if n > 3000 { 1 } else { 2 } {
        let e = entry(r);
        let cl = class(r);
        let mut c = Call::simple(root, e, if n < 500 { r.range(1, 3) as usize } else { 1 }, cl, r.next() >> 1);
        c.sfill = fill(r);
        c.ofill = fill(r);
        c.off = r.below(8) as usize;
        ops.push(Op::Call(c));
    }
    s.threads.push(ops);
    s.policy = Policy::Seq;
}

fn c09(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 15);
    if r.chance(1, 25) {
        workshop(r, s);
        return;
    }
    let sh = Shape { depth: r.range(1, 5) as usize, probes: if r.chance(1, 8) { 40 } else { 0 }, trash: true, hungry: 0, stubs: 0, reuse: 30, cheap: false };
    let big = match r.below(60) {
        0 => 20_000,
        1..=3 => 5000,
        4..=14 => 1200,
        15..=34 => 300,
        _ => 100,
    };
    let k = r.range(1, 3) as usize;
    let rts = if big <= 300 && r.chance(1, 6) { related(r, &mut s.nodes, &sh) } else { roots(r, &mut s.nodes, k, big, &sh) };
    if big <= 1200 && r.chance(1, 8) {
        s.prelude = Some(other_scalar(r, s.scalar));
    }
    let lz = lazies(r, s, &rts);
    let limit = if big > 1000 { big } else { big_for(r, 300, 4000) };
    let nt = *r.pick(&[1u64, 1, 2, 3]);
    for _ in 0..nt {
        let mut ops = vec![];
        let m = if big > 1000 { 2 } else { 5 };
        for _ in 0..r.range(1, m) {
            let mut c = if !lz.is_empty() && r.chance(1, 4) {
                let l = *r.pick(&lz);
                ops.push(Op::Build { node: l, fault: Fault::None });
                let mut c = call(r, &s.nodes, &[l], limit);
                c.private = true;
                c
            } else {
                call(r, &s.nodes, &rts, limit)
            };
            let n = node_len(&s.nodes, c.node);
            c.class = class(r);
            if c.chunks > 1 && r.chance(1, 4) {
                c.bad = r.below(c.chunks as u64);
            }
            c.sfill = fill(r);
            c.ofill = fill(r);
            c.guard = r.chance(1, 30);
            if r.chance(1, 3) {
                c.extra = r.range(1, 2 * n as u64) as usize;
            }
            if r.chance(1, 10) {
                malform(r, n, &mut c);
            } else if s.scalar == Sc::Sim && r.chance(1, 5) {
                c.fault = Fault::ScalarPpm(r.below(1_000_000));
            } else if r.chance(1, 10) && c.entry != Entry::Process && !has_probe(&s.nodes, c.node) {
                c.fault = Fault::AllocFail;
            } else if r.chance(1, 10) {
                c.fault = Fault::FreezePpm(r.below(1_000_000));
            } else if r.chance(1, 15) && n * c.chunks < 100 {
                c.times = r.range(2, 60);
            }
            let nd = c.node;
            let pv = c.private;
            ops.push(Op::Call(c));
            if r.chance(1, 8) {
                ops.push(if pv { Op::DropPriv(nd) } else { Op::DropShared(nd) });
            }
        }
        s.threads.push(ops);
    }
    s.reuse = r.chance(1, 3);
    schedule(r, s);
}

fn c10(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 20);
    if r.chance(1, 100) {
        return crowd(r, s);
    }
    if r.chance(1, 15) {
        builders(r, s);
        let last = s.threads.len().saturating_sub(1);
        for ops in s.threads.iter_mut().take(last) {
            let at = r.below(ops.len() as u64) as usize;
            match &mut ops[at] {
                Op::Build { fault, .. } => *fault = Fault::FreezePpm(edge_ppm(r)),
                Op::Call(c) => c.fault = Fault::FreezePpm(edge_ppm(r)),
                _ => {}
            }
        }
        if !s.threads.is_empty() {
            return;
        }
    }
    let re = r.chance(1, 2);
    let sh = Shape { depth: r.range(1, 4) as usize, probes: if re { 70 } else { 0 }, trash: r.chance(1, 2), hungry: 0, stubs: 0, reuse: 40, cheap: false };
    let big = big_for(r, 96, 700);
    let k = r.range(1, 2) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let lz = lazies(r, s, &rts);
    let npool = r.range(1, 3);
    let pool: Vec<Call> = (0..npool).map(|_| call(r, &s.nodes, &rts, 256)).collect();
    let nt = if re { r.range(1, 3) } else { r.range(2, 5) };
    let mut frozen = 0;
    for t in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            let mut c = r.pick(&pool).clone();
            if has_probe(&s.nodes, c.node) && r.chance(2, 3) {
                c.reenter = REENTER_PPM + r.below(1_000_000);
            } else if t + 1 < nt && frozen + 1 < nt && r.chance(1, 2) {
                c.fault = Fault::FreezePpm(edge_ppm(r));
                frozen += 1;
            }
            ops.push(Op::Call(c));
            if !lz.is_empty() && r.chance(1, 4) {
                let l = *r.pick(&lz);
                let f = if frozen + 1 < nt && t + 1 < nt && r.chance(1, 2) {
                    frozen += 1;
                    Fault::FreezePpm(edge_ppm(r))
                } else {
                    Fault::None
                };
                ops.push(Op::Build { node: l, fault: f });
                let mut c = r.pick(&pool).clone();
                c.node = l;
                c.private = true;
                c.chunks = 1;
                ops.push(Op::Call(c));
            }
        }
        s.threads.push(ops);
    }
    schedule(r, s);
    let _ = NEVER;
}

fn c11(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 15);
    let sh = Shape { depth: r.range(0, 5) as usize, probes: 0, trash: false, hungry: 0, stubs: 0, reuse: 35, cheap: false };
    let big = if r.chance(1, 100) { 20_000 } else { big_for(r, 200, 3000) };
    let k = if big > 5000 { 1 } else { r.range(1, 3) as usize };
    let huge = r.chance(1, 150);
    let rts = if huge { vec![large_root(r, &mut s.nodes, &sh, 2048)] } else { roots(r, &mut s.nodes, k, big, &sh) };
    let limit = big_for(r, 500, 5000);
    let nt = if huge { 1 } else { *r.pick(&[1u64, 1, 2, 3]) };
    let npool = r.range(1, 4);
    let mut pool: Vec<Call> = (0..npool).map(|_| call(r, &s.nodes, &rts, limit)).collect();
    for c in pool.iter_mut() {
        if c.entry == Entry::Process && r.chance(3, 4) {
            c.entry = if r.chance(1, 2) { Entry::Inplace } else { Entry::Oop };
        }
    }
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 5) {
            let mut c = r.pick(&pool).clone();
            if c.entry != Entry::Process && r.chance(4, 5) {
                c.fault = Fault::AllocFail;
            }
            c.sfill = fill(r);
            ops.push(Op::Call(c));
        }
        s.threads.push(ops);
    }
    schedule(r, s);
}

fn c12(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 60);
    if r.chance(1, 20) {
        workshop(r, s);
        s.reuse = false;
        s.rounds = r.range(5, 7);
        s.max_switches = 60;
        return;
    }
    let probes = if s.scalar == Sc::Sim { 20 } else { 40 };
    let sh = Shape { depth: r.range(1, 4) as usize, probes, trash: false, hungry: 0, stubs: *r.pick(&[0, 0, 30]), reuse: 35, cheap: false };
    let long = r.chance(1, 4);
    let big = if long { 40 } else { big_for(r, 64, 300) };
    let k = if long { 1 } else { r.range(1, 3) as usize };
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let mut lz = lazies(r, s, &rts);
    // constructions that the library rejects
    if r.chance(1, 2) {
        let c = *r.pick(&rts);
        let n = node_len(&s.nodes, c);
        if !is_prime(n + 1) {
            s.nodes.push(Node { kind: Kind::Lib(Alg::Raders, vec![c]), probe: None, lazy: true });
            lz.push(s.nodes.len() - 1);
        }
        s.nodes.push(Node { kind: Kind::Lib(Alg::Split, vec![c, c]), probe: None, lazy: true });
        lz.push(s.nodes.len() - 1);
    }
    let nt = if long { *r.pick(&[1u64, 1, 2]) } else { r.range(1, 3) };
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..if long { r.range(1, 3) } else { r.range(2, 6) } {
            if !lz.is_empty() && r.chance(1, 2) {
                let l = *r.pick(&lz);
                let inner = has_probe(&s.nodes, l) && r.chance(1, 3);
                let f = if inner {
                    Fault::Inner(r.logu(8) - 1)
                } else if s.scalar == Sc::Sim && r.chance(1, 2) {
                    Fault::Scalar(r.logu(200) - 1)
                } else {
                    Fault::None
                };
                ops.push(Op::Build { node: l, fault: f });
                if r.chance(1, 2) {
                    ops.push(Op::DropPriv(l));
                }
                continue;
            }
            let mut c = call(r, &s.nodes, &rts, 200);
            let n = node_len(&s.nodes, c.node);
            if r.chance(1, 4) {
                malform(r, n, &mut c);
            } else if s.scalar == Sc::Sim && r.chance(1, 2) {
                c.fault = Fault::Scalar(r.logu((20 * n * c.chunks) as u64) - 1);
            } else if has_probe(&s.nodes, c.node) && r.chance(1, 2) {
                c.fault = Fault::Inner(r.logu(12) - 1);
            }
            if n <= 1500 && r.chance(1, 5) {
                c.times = r.range(2, 10);
            }
            let nd = c.node;
            ops.push(Op::Call(c));
            if r.chance(1, 6) {
                ops.push(Op::DropShared(nd));
            }
        }
        s.threads.push(ops);
    }
    s.keep = r.chance(3, 4);
    s.rounds = if rts.iter().any(|&i| node_len(&s.nodes, i) > 1500) {
        5
    } else if long {
        40
    } else {
        r.range(5, 7)
    };
    s.reuse = false;
    schedule(r, s);
    if s.max_switches > 60 {
        s.max_switches = 60;
    }
}

/// Does the library document this construction as supported?
pub fn supported(nodes: &[Node], i: usize) -> bool {
    match &nodes[i].kind {
        Kind::Lib(Alg::Radix4(n), _) => n.is_power_of_two(),
        Kind::Lib(Alg::Raders, ch) => is_prime(node_len(nodes, ch[0]) + 1),
        Kind::Lib(Alg::Split, ch) => node_len(nodes, ch[1]) == 2 * node_len(nodes, ch[0]),
        _ => true,
    }
}
/// An inner transform of length `n` to offer to a constructor.
fn offer(r: &mut Rng, nodes: &mut Vec<Node>, n: usize, sh: &Shape) -> usize {
    if n > 300 || r.chance(1, 3) {
        let (si, so) = (demand(r, n), demand(r, n));
        push(nodes, Kind::Stub { n, si, so })
    } else if r.chance(1, 3) {
        push(nodes, Kind::Lib(Alg::Naive(n), vec![]))
    } else {
        gen_plan(r, nodes, n, 2, sh, false)
    }
}
/// A composite number too long for small types or for the first few trial divisors.
fn giant_composite(r: &mut Rng) -> usize {
    let prime = |r: &mut Rng, bits: u64| {
        let mut p = ((1usize << bits) + r.below(1 << bits) as usize) | 1;
        while !is_prime(p) {
            p -= 2;
        }
        p
    };
    let n = match r.below(6) {
        0 => {
            let k = r.range(6, 19);
            let p = prime(r, k);
            p * p
        }
        1 => {
            let (a, b) = (r.range(6, 20), r.range(6, 20));
            prime(r, a) * prime(r, b)
        }
        2 => {
            // a prime when cut off at 16 or 32 bits
            let k = r.range(4, 14);
            prime(r, k) + (r.range(1, 99) as usize) * if r.chance(1, 2) { 1 << 16 } else { 1 << 32 }
        }
        3 => *r.pick(&[3215031751usize, 118670087467, 25326001, 2152302898747, 3474749660383, 1373653, 4759123141, 1122004669633, 8388607, 4294967297, 1194649, 12327121]),
        4 => (1usize << r.range(14, 40)) + 1,
        _ => {
            let k = r.range(17, 41);
            r.range(1 << 14, 1 << k) as usize | 1
        }
    };
    if is_prime(n) { n + 1 } else { n }
}
/// A prime p, often with (p - 1) / 2 prime as well.
fn giant_prime(r: &mut Rng, max: u64) -> usize {
    let mut p = r.range(max / 40, max) as usize | 1;
    let safe = r.chance(1, 2);
    while !is_prime(p) || (safe && !is_prime(p / 2)) {
        p -= 2;
    }
    p
}
/// A construction over very long inner transforms, most of them to be refused.
fn giant(r: &mut Rng, nodes: &mut Vec<Node>) -> Kind {
    let stub = |r: &mut Rng, nodes: &mut Vec<Node>, n: usize| {
        let so = if r.chance(1, 2) { 0 } else { n.min(1000) };
        push(nodes, Kind::Stub { n, si: 0, so })
    };
    match r.below(8) {
        0 => {
            let n = match r.below(6) {
                0 => 1usize << r.range(13, 16),
                1 => (1 << r.range(13, 62)) + (1 << r.range(0, 62)),
                2 => usize::MAX - r.below(8) as usize,
                3 => (1 << 32) + (1 << r.range(0, 16)),
                4 => 3 << r.range(13, 61),
                _ => (1 << r.range(14, 63)) + r.range(1, 9) as usize,
            };
            // one that is to be accepted is built for real: keep it short
            let n = if n.is_power_of_two() { n.min(1 << 16) } else { n };
            Kind::Lib(Alg::Radix4(n), vec![])
        }
        1 => {
            let k = r.range(13, 40);
            let q = r.range(1 << 12, 1 << k) as usize;
            let h = match r.below(5) {
                0 => q,
                1 => 2 * q + (1 << 32),
                2 => (2 * q) & 0xFFFF_FFFF,
                3 => (2 * q) & 0xFFFF,
                _ => 2 * q + 1,
            };
            let q = if h == 2 * q && q > 1 << 18 { q & 0x3_FFFF } else { q };
            let (a, b) = (stub(r, nodes, q), stub(r, nodes, h));
            Kind::Lib(Alg::Split, vec![a, b])
        }
        2 => {
            let p = giant_prime(r, 300_000);
            let c = stub(r, nodes, p - 1);
            Kind::Lib(Alg::Raders, vec![c])
        }
        _ => {
            let n = giant_composite(r);
            let c = stub(r, nodes, n - 1);
            Kind::Lib(Alg::Raders, vec![c])
        }
    }
}
fn c15(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 30);
    let sh = Shape { depth: r.range(0, 3) as usize, probes: if r.chance(1, 2) { 50 } else { 0 }, trash: true, hungry: 0, stubs: 0, reuse: 40, cheap: false };
    let k = r.range(1, 2) as usize;
    let mut rts = roots(r, &mut s.nodes, k, 64, &sh);
    let mut lz = vec![];
    for _ in 0..r.range(1, 5) {
        let kind = match if r.chance(1, 25) { 7 } else { r.below(7) } {
            7 => giant(r, &mut s.nodes),
            0 | 1 => {
                let n = match r.below(8) {
                    0 => 1usize << r.below(13),
                    1 => 3 << r.below(11),
                    2 => (1 << r.range(2, 13)) - 1,
                    3 => (1 << r.range(1, 13)) + 1,
                    4 => 5 << r.below(10),
                    5 => (1 << r.range(1, 12)) + (1 << r.below(12)),
                    6 => r.below(64) as usize,
                    _ => r.below(5000) as usize,
                };
                Kind::Lib(Alg::Radix4(n), vec![])
            }
            2 | 3 | 4 => {
                let n = match r.below(9) {
                    0 => *r.pick(&[561usize, 1105, 1729, 2465, 2821, 341, 645, 1387, 1905, 2047, 2701, 3277, 4033, 4369, 4681, 5461, 8321]),
                    1 => {
                        let p = *r.pick(&[2usize, 3, 5, 7, 11, 13, 17, 31, 61]);
                        p * p
                    }
                    2 => r.range(2, 40) as usize,
                    3 => 1 << r.range(1, 11),
                    4 => {
                        let a = *r.pick(&[3usize, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]);
                        let b = *r.pick(&[3usize, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]);
                        a * b
                    }
                    5 => r.range(2, 3000) as usize | 1,
                    6 => {
                        let mut p = r.range(3, 500) as usize;
                        while !is_prime(p) {
                            p -= 1;
                        }
                        p
                    }
                    _ => r.range(2, 1500) as usize,
                };
                let c = offer(r, &mut s.nodes, n - 1, &sh);
                rts.push(c);
                Kind::Lib(Alg::Raders, vec![c])
            }
            _ => {
                let q = if r.chance(1, 2) { r.range(1, 16) as usize } else { r.range(1, 200) as usize };
                let h = match r.below(9) {
                    0 => q,
                    1 => 2 * q + 1,
                    2 => 2 * q - 1,
                    3 => 4 * q,
                    4 => (q / 2).max(1),
                    5 => 3 * q,
                    6 => r.range(1, 4 * q as u64) as usize,
                    _ => 2 * q,
                };
                let a = offer(r, &mut s.nodes, q, &sh);
                let b = offer(r, &mut s.nodes, h, &sh);
                rts.push(a);
                rts.push(b);
                Kind::Lib(Alg::Split, vec![a, b])
            }
        };
        s.nodes.push(Node { kind, probe: None, lazy: true });
        lz.push(s.nodes.len() - 1);
    }
    let small: Vec<usize> = rts.iter().copied().filter(|&i| node_len(&s.nodes, i) <= 200).collect();
    let nt = *r.pick(&[1u64, 1, 2, 3]);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 6) {
            if r.chance(2, 3) {
                let l = *r.pick(&lz);
                ops.push(Op::Build { node: l, fault: Fault::None });
                let n = node_len(&s.nodes, l);
                if r.chance(1, 3) && supported(&s.nodes, l) && n <= 600 {
                    let mut c = call(r, &s.nodes, &[l], 256);
                    c.private = true;
                    ops.push(Op::Call(c));
                }
                if r.chance(1, 3) {
                    ops.push(Op::DropPriv(l));
                }
            } else if !small.is_empty() {
                let c = call(r, &s.nodes, &small, 256);
                ops.push(Op::Call(c));
            }
        }
        s.threads.push(ops);
    }
    s.keep = r.chance(2, 3);
    schedule(r, s);
}

fn c17(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 40);
    if r.chance(1, 20) {
        workshop(r, s);
        return;
    }
    let sh = Shape { depth: r.range(0, 4) as usize, probes: if r.chance(1, 2) { 50 } else { 0 }, trash: true, hungry: 40, stubs: *r.pick(&[0, 0, 30]), reuse: 35, cheap: false };
    let big = big_for(r, 96, 700);
    let k = r.range(1, 3) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let lz = lazies(r, s, &rts);
    let limit = big_for(r, 256, 2000);
    let nt = *r.pick(&[1u64, 1, 2, 2, 3, 4]);
    let npool = r.range(1, 4);
    let pool: Vec<Call> = (0..npool).map(|_| call(r, &s.nodes, &rts, limit)).collect();
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 7) {
            let mut c = r.pick(&pool).clone();
            if r.chance(1, 3) {
                c.entry = entry(r);
            }
            let n = node_len(&s.nodes, c.node);
            match r.below(10) {
                0 => malform(r, n, &mut c),
                1 if s.scalar == Sc::Sim => c.fault = Fault::ScalarPpm(edge_ppm(r)),
                2 if has_probe(&s.nodes, c.node) => c.fault = Fault::InnerPpm(edge_ppm(r)),
                3 => c.fault = Fault::FreezePpm(edge_ppm(r)),
                4 if n * c.chunks < 200 => c.times = r.range(2, 40),
                5 => c.extra = r.range(1, 3 * n as u64) as usize,
                6 if n * c.chunks <= 16 && r.chance(1, 20) => c.times = 70_000,
                7 => c.chunks = chunks(r, n, 1000),
                _ => {}
            }
            ops.push(Op::Call(c));
            if !lz.is_empty() && r.chance(1, 4) {
                let l = *r.pick(&lz);
                let f = if s.scalar == Sc::Sim && r.chance(1, 3) { Fault::ScalarPpm(edge_ppm(r)) } else { Fault::None };
                ops.push(Op::Build { node: l, fault: f });
                let mut c = call(r, &s.nodes, &[l], limit);
                c.private = true;
                ops.push(Op::Call(c));
            }
        }
        s.threads.push(ops);
    }
    if r.chance(1, 8) {
        s.prelude = Some(other_scalar(r, s.scalar));
    }
    s.reuse = r.chance(1, 3);
    schedule(r, s);
}

fn c18(r: &mut Rng, s: &mut Scenario) {
    s.scalar = scalar(r, 20);
    if r.chance(1, 60) {
        // one long plan over long inner transforms that do nothing
        let (so, small) = (if r.chance(1, 2) { 0 } else { 1000 }, r.range(1, 12) as usize);
        let n = r.range(10_001, 60_000) as usize;
        let kind = match r.below(6) {
            0 | 1 => {
                let p = giant_prime(r, 2_000_000);
                Kind::Lib(Alg::Raders, vec![push(&mut s.nodes, Kind::Stub { n: p - 1, si: 0, so })])
            }
            2 | 3 => Kind::Lib(Alg::Nx(r.range(2, 6) as usize), vec![push(&mut s.nodes, Kind::Stub { n, si: 0, so })]),
            4 => {
                let a = push(&mut s.nodes, Kind::Stub { n, si: 0, so });
                Kind::Lib(Alg::Split, vec![a, push(&mut s.nodes, Kind::Stub { n: 2 * n, si: 0, so })])
            }
            _ => {
                let a = push(&mut s.nodes, Kind::Stub { n, si: 0, so });
                let b = push(&mut s.nodes, Kind::Lib(Alg::Naive(small), vec![]));
                Kind::Lib(Alg::Mixed, if r.chance(1, 2) { vec![a, b] } else { vec![b, a] })
            }
        };
        s.nodes.push(Node { kind, probe: None, lazy: true });
        let l = s.nodes.len() - 1;
        let mut ops = vec![Op::Build { node: l, fault: Fault::None }];
        if node_len(&s.nodes, l) < 400_000 {
            let mut c = Call::simple(l, entry(r), 1, Class::Uniform, r.next() >> 1);
            c.private = true;
            ops.push(Op::Call(c));
        }
        s.threads.push(ops);
        return;
    }
    let sh = Shape { depth: r.range(0, 5) as usize, probes: 0, trash: false, hungry: 0, stubs: 0, reuse: 35, cheap: false };
    let big = match r.below(30) {
        0 => 20_000,
        1 | 2 => 4000,
        3..=9 => 1000,
        _ => 200,
    };
    let k = r.range(1, 2) as usize;
    let rts = roots(r, &mut s.nodes, k, big, &sh);
    let lz = lazies(r, s, &rts);
    let limit = if r.chance(1, 6) { 20_000 } else { 600 };
    let nt = *r.pick(&[1u64, 1, 2]);
    for _ in 0..nt {
        let mut ops = vec![];
        for _ in 0..r.range(1, 4) {
            let mut c = call(r, &s.nodes, &rts, limit);
            let n = node_len(&s.nodes, c.node);
            if r.chance(1, 3) {
                c.chunks = r.logu((limit / n).max(1) as u64) as usize;
            }
            match r.below(8) {
                0 => malform(r, n, &mut c),
                1 if s.scalar == Sc::Sim => c.fault = Fault::ScalarPpm(edge_ppm(r)),
                2 | 3 => c.extra = r.range(1, 10 * n as u64) as usize,
                4 if n * c.chunks <= 16 && r.chance(1, 10) => c.times = r.range(100, 20_000),
                _ => {}
            }
            ops.push(Op::Call(c));
            if !lz.is_empty() && r.chance(1, 4) {
                ops.push(Op::Build { node: *r.pick(&lz), fault: Fault::None });
            }
        }
        s.threads.push(ops);
    }
    schedule(r, s);
}
