//! Oracles: run a scenario (and the solo baselines it needs) and decide its property.
use crate::exec::*;
use crate::model;
use crate::spec::*;
use simrt::{count, Policy, Stat, NEVER};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub msg: String,
    /// the scenario with every fault position resolved
    pub sc: Scenario,
    /// the schedule that was followed
    pub rec: Vec<(u32, u64)>,
}
#[derive(Clone, Debug)]
pub enum Verdict {
    Held { hash: u64, nontrivial: bool },
    Skip(String),
    Bad(Viol),
    Harness(String),
}

/// Allowed deviation from the reference, in units of eps*(log2 n + 4)*||x||_1.
/// See DESIGN.md for how it was chosen.
pub const TOL: f64 = 64.0;

/// Stack a call may use: this much, and this much more per level of nested plans.
/// See DESIGN.md for how it was chosen.
pub const STACK_BASE: u64 = 8 << 10;
pub const STACK_LEVEL: u64 = 4 << 10;
fn levels(nodes: &[Node], i: usize) -> u64 {
    match &nodes[i].kind {
        Kind::Lib(_, ch) => 1 + ch.iter().map(|&c| levels(nodes, c)).max().unwrap_or(0),
        _ => 1,
    }
}

fn need(nodes: &[Node], i: usize, mark: &mut Vec<bool>) {
    if mark[i] {
        return;
    }
    mark[i] = true;
    if let Kind::Lib(_, ch) = &nodes[i].kind {
        for c in ch {
            need(nodes, *c, mark);
        }
    }
}
/// The same plans, but only what `i` needs, all built up front.
fn only(nodes: &[Node], i: usize) -> Vec<Node> {
    let mut mark = vec![false; nodes.len()];
    need(nodes, i, &mut mark);
    nodes.iter().zip(mark).map(|(n, m)| Node { lazy: !m, ..n.clone() }).collect()
}
fn plain(c: &Call) -> Call {
    let mut d = c.clone();
    d.private = false;
    d.fault = Fault::None;
    d.reenter = NEVER;
    d.times = 1;
    d.extra = 0;
    d.off = 0;
    d.guard = false;
    d.sfill = Fill::Zero;
    d.ofill = Fill::Zero;
    d
}

pub struct J<'a> {
    sc: &'a Scenario,
    solos: HashMap<String, Res>,
    pub max_units: f64,
}
fn solo_scenario(sc: &Scenario, c: &Call, clean: bool) -> Scenario {
    let mut s = sc.clone();
    s.nodes = only(&sc.nodes, c.node);
    if clean {
        s.poison = 0;
        for n in s.nodes.iter_mut() {
            if let Some(p) = n.probe.as_mut() {
                p.trash = false;
            }
        }
    }
    s.threads = vec![vec![Op::Call(plain(c))]];
    s.policy = Policy::Seq;
    s.rounds = 1;
    s.keep = false;
    s.reuse = false;
    s.prelude = None;
    s.world = 0;
    s
}
enum Solo {
    Op(OpRes),
    /// the baseline itself crashed or could not run
    Bad(String),
}
impl<'a> J<'a> {
    fn solo(&mut self, c: &Call, clean: bool) -> Solo {
        let s = solo_scenario(self.sc, c, clean);
        let key = format!("{:?}{}", s.threads, clean);
        let r = self.solos.entry(key).or_insert_with(|| {
            count(Stat::Solos, 1);
            execute(&s)
        });
        match r {
            Res::Done(e) => match (&e.build_fail, e.ops.first().and_then(|o| o.first())) {
                (Some((_, m)), _) => Solo::Bad(format!("construction failed: {}", m)),
                (None, Some(o)) => Solo::Op(o.clone()),
                _ => Solo::Bad("no outcome".into()),
            },
            Res::Crash(s, _) => Solo::Bad(format!("signal {}", s)),
            Res::Fatal(a, b, _) => Solo::Bad(format!("{}: {}", a, b)),
            Res::Hang(_) => Solo::Bad("hang".into()),
            Res::Harness(m) => Solo::Bad(format!("harness: {}", m)),
        }
    }
    fn solo_build(&mut self, node: usize) -> Option<OpRes> {
        let mut s = self.sc.clone();
        s.nodes = only(&self.sc.nodes, node);
        s.nodes[node].lazy = true;
        s.threads = vec![vec![Op::Build { node, fault: Fault::None }]];
        s.policy = Policy::Seq;
        s.rounds = 1;
        s.keep = false;
        s.reuse = false;
        s.prelude = None;
        s.world = 0;
        let key = format!("{:?}", s.threads);
        let r = self.solos.entry(key).or_insert_with(|| {
            count(Stat::Solos, 1);
            execute(&s)
        });
        match r {
            Res::Done(e) if e.build_fail.is_none() => e.ops.first().and_then(|o| o.first()).cloned(),
            _ => None,
        }
    }
}

/// Turn relative fault positions into absolute ones using the solo runs.
fn resolve(sc: &Scenario) -> Result<Scenario, String> {
    let mut out = sc.clone();
    let mut j = J { sc, solos: HashMap::new(), max_units: 0.0 };
    for t in out.threads.iter_mut() {
        for op in t.iter_mut() {
            match op {
                Op::Call(c) => {
                    let rel = matches!(c.fault, Fault::ScalarPpm(_) | Fault::InnerPpm(_) | Fault::FreezePpm(_));
                    let re = c.reenter != NEVER && c.reenter >= REENTER_PPM;
                    if !rel && !re {
                        continue;
                    }
                    match j.solo(c, false) {
                        Solo::Op(o) => {
                            c.fault = rel_fault(&c.fault, &o);
                            if re {
                                let p = c.reenter - REENTER_PPM;
                                c.reenter = if o.probe_events == 0 { NEVER } else { scale(p, o.probe_events) };
                            }
                        }
                        Solo::Bad(m) => return Err(m),
                    }
                }
                Op::Build { node, fault } => {
                    if matches!(fault, Fault::ScalarPpm(_) | Fault::InnerPpm(_) | Fault::FreezePpm(_)) {
                        match j.solo_build(*node) {
                            Some(o) => *fault = rel_fault(fault, &o),
                            None => return Err("construction failed".into()),
                        }
                    }
                }
                _ => {}
            }
        }
    }
    Ok(out)
}
fn scale(ppm: u64, n: u64) -> u64 {
    ((ppm as u128 * n as u128) / 1_000_000) as u64
}
fn rel_fault(f: &Fault, o: &OpRes) -> Fault {
    match f {
        Fault::ScalarPpm(p) => if o.scalar_ops == 0 { Fault::None } else { Fault::Scalar(scale(*p, o.scalar_ops)) },
        Fault::InnerPpm(p) => if o.probe_events == 0 { Fault::None } else { Fault::Inner(scale(*p, o.probe_events)) },
        Fault::FreezePpm(p) => if o.points == 0 { Fault::None } else { Fault::Freeze(scale(*p, o.points)) },
        f => *f,
    }
}

fn first_diff(a: &Out, b: &Out, n: usize) -> String {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => {
            if x.len() != y.len() {
                return format!("{} values instead of {}", x.len(), y.len());
            }
            match (0..x.len()).find(|&i| x[i] != y[i]) {
                Some(i) => format!("chunk {} element {}: got {:e}, expected {:e}", i / n.max(1), i % n.max(1), f64::from_bits(x[i]), f64::from_bits(y[i])),
                None => "equal".into(),
            }
        }
        _ => format!("got {}, expected {}", a.short(), b.short()),
    }
}
fn kind(o: &Out) -> u8 {
    match o {
        Out::Ok(_) => 0,
        Out::Injected(_) => 1,
        Out::Panic(_) => 2,
        Out::NotRun => 3,
    }
}
/// How two unequal outcomes differ; part of the violation class.
fn how(a: &Out, b: &Out) -> &'static str {
    match (kind(a), kind(b)) {
        (0, 0) => "wrong-values",
        (2, 0) => "panicked",
        (0, 2) => "did-not-panic",
        _ => "other-outcome",
    }
}

fn text_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01B3);
    }
    h
}
fn scen_hash(sc: &Scenario, ex_hash: u64) -> u64 {
    let mut s = sc.clone();
    s.run = 0;
    s.policy = Policy::Seq;
    s.max_switches = 0;
    text_hash(&s.to_text()) ^ ex_hash.rotate_left(17)
}

fn label(sc: &Scenario, t: usize, o: usize) -> String {
    match &sc.threads[t][o] {
        Op::Call(c) => format!("caller {} op {}: {:?} of {} chunk(s) on {}", t, o, c.entry, c.chunks, plan_text(&sc.nodes, c.node)),
        Op::Build { node, .. } => format!("caller {} op {}: construct {}", t, o, plan_text(&sc.nodes, *node)),
        Op::DropPriv(n) | Op::DropShared(n) => format!("caller {} op {}: drop {}", t, o, plan_text(&sc.nodes, *n)),
    }
}

/// Check Ok outcome of a call against the reference model; returns worst error units.
pub fn reference(sc: &Scenario, c: &Call, out: &[u64]) -> (f64, String) {
    let n = node_len(&sc.nodes, c.node);
    let huge = huge_of(sc.scalar);
    let (eps, floor) = match sc.scalar {
        Sc::F32 => (f32::EPS, f32::FLOOR),
        _ => (f64::EPS, f64::FLOOR),
    };
    let mut worst = (0.0, String::new());
    if matches!(c.class, Class::Nan | Class::Inf) {
        return worst;
    }
    for k in 0..out.len() / n {
        let abs = c.base + k as u64;
        if abs == c.bad {
            continue;
        }
        let x: Vec<f64> = (0..n).map(|i| round_to(sc.scalar, input_value(c, n, abs, i, huge))).collect();
        let got: Vec<f64> = out[k * n..(k + 1) * n].iter().map(|b| f64::from_bits(*b)).collect();
        count(Stat::RefChecks, 1);
        let (u, i, want) = model::error_units(&x, &got, eps, floor);
        if u > worst.0 || u.is_nan() {
            worst = (u, format!("chunk {} element {}: got {:e}, reference {:e} ({:.3e} tolerance units)", k, i, got[i], want, u));
        }
    }
    worst
}

pub fn judge(sc0: &Scenario) -> Verdict {
    judge_full(sc0).0
}
/// Verdict and the worst reference error seen (C09, C05).
pub fn judge_full(sc0: &Scenario) -> (Verdict, f64) {
    let prop = sc0.prop.as_str();
    let strict = matches!(prop, "C05" | "C06" | "C07" | "C09");
    let sc = match resolve(sc0) {
        Ok(s) => s,
        Err(m) => {
            if !strict {
                return (Verdict::Skip(m), 0.0);
            }
            // positions cannot be resolved because the call fails on its own; drop the faults
            let mut s = sc0.clone();
            for op in s.threads.iter_mut().flatten() {
                match op {
                    Op::Call(c) => {
                        if matches!(c.fault, Fault::ScalarPpm(_) | Fault::InnerPpm(_) | Fault::FreezePpm(_)) {
                            c.fault = Fault::None;
                        }
                    }
                    Op::Build { fault, .. } => {
                        if matches!(fault, Fault::ScalarPpm(_) | Fault::InnerPpm(_) | Fault::FreezePpm(_)) {
                            *fault = Fault::None;
                        }
                    }
                    _ => {}
                }
            }
            s
        }
    };
    let res = execute(&sc);
    let mut j = J { sc: &sc, solos: HashMap::new(), max_units: 0.0 };
    let v = decide(&mut j, &sc, &res);
    (v, j.max_units)
}

fn bad(sc: &Scenario, rec: &[(u32, u64)], class: impl Into<String>, msg: impl Into<String>) -> Verdict {
    Verdict::Bad(Viol { class: class.into(), msg: msg.into(), sc: sc.clone(), rec: rec.to_vec() })
}

/// All solo baselines of the scenario; Err when one of them cannot be had.
fn baselines(j: &mut J, sc: &Scenario, clean: bool) -> Result<(), String> {
    for op in sc.threads.iter().flatten() {
        if let Op::Call(c) = op {
            if let Solo::Bad(m) = j.solo(c, clean) {
                return Err(m);
            }
        }
    }
    Ok(())
}

fn decide(j: &mut J, sc: &Scenario, res: &Res) -> Verdict {
    let prop = sc.prop.as_str();
    // --- executions that did not come to an end
    let ex = match res {
        Res::Done(e) => e,
        Res::Harness(m) => return Verdict::Harness(m.clone()),
        Res::Hang(rec) => {
            return match prop {
                "C09" => bad(sc, rec, "hang", "the execution did not end (wall-clock backstop)"),
                "C10" | "C01" | "C03" | "C15" => match baselines(j, sc, false) {
                    Ok(()) => bad(sc, rec, "hang", "the execution did not end although every call ends when run alone (wall-clock backstop)"),
                    Err(m) => Verdict::Skip(m),
                },
                _ => Verdict::Skip("hang".into()),
            };
        }
        Res::Crash(sig, rec) => {
            let what = if *sig > 0 { format!("the process died with signal {}", sig) } else { format!("the process exited with status {}", -sig) };
            return match prop {
                "C05" | "C06" | "C07" | "C09" => bad(sc, rec, format!("crash-{}", sig), what),
                "C12" | "C17" | "C18" => Verdict::Skip(what),
                "C10" => Verdict::Skip(what),
                _ => match baselines(j, sc, prop == "C04") {
                    Ok(()) => bad(sc, rec, format!("crash-{}", sig), format!("{}, although every call ends normally when run alone", what)),
                    Err(m) => Verdict::Skip(m),
                },
            };
        }
        Res::Fatal(class, msg, rec) => {
            return match prop {
                "C09" => bad(sc, rec, class.clone(), msg.clone()),
                "C18" if class == "stack-exhausted" => bad(sc, rec, class.clone(), msg.clone()),
                "C01" | "C02" | "C03" | "C10" | "C11" | "C15" => match baselines(j, sc, false) {
                    Ok(()) => bad(sc, rec, class.clone(), format!("{}, although every call ends when run alone", msg)),
                    Err(m) => {
                        if prop == "C10" {
                            bad(sc, rec, class.clone(), format!("{} (a call run alone: {})", msg, m))
                        } else {
                            Verdict::Skip(m)
                        }
                    }
                },
                _ => Verdict::Skip(msg.clone()),
            };
        }
    };
    let rec = &ex.rec;
    if ex.in_flight >= 2 {
        count(Stat::Points2Plus, 1);
    }
    if let Some((n, m)) = &ex.build_fail {
        return match prop {
            "C09" => bad(sc, rec, "construction-failed", format!("constructing {} failed: {}", plan_text(&sc.nodes, *n as usize), m)),
            "C05" => bad(sc, rec, "construction-failed", format!("constructing {} failed: {}", plan_text(&sc.nodes, *n as usize), m)),
            _ => Verdict::Skip("construction failed".into()),
        };
    }
    let calls: Vec<(usize, usize, &Call, &OpRes)> = sc
        .threads
        .iter()
        .enumerate()
        .flat_map(|(t, ops)| ops.iter().enumerate().map(move |(o, op)| (t, o, op)))
        .filter_map(|(t, o, op)| if let Op::Call(c) = op { ex.ops.get(t).and_then(|v| v.get(o)).map(|r| (t, o, c, r)) } else { None })
        .filter(|(_, _, _, r)| r.out != Out::NotRun)
        .collect();
    let builds: Vec<(usize, usize, usize, &Fault, &OpRes)> = sc
        .threads
        .iter()
        .enumerate()
        .flat_map(|(t, ops)| ops.iter().enumerate().map(move |(o, op)| (t, o, op)))
        .filter_map(|(t, o, op)| if let Op::Build { node, fault } = op { ex.ops.get(t).and_then(|v| v.get(o)).map(|r| (t, o, *node, fault, r)) } else { None })
        .filter(|(_, _, _, _, r)| r.out != Out::NotRun)
        .collect();
    let any_fired = calls.iter().any(|c| c.3.fired && c.2.fault != Fault::None) || builds.iter().any(|b| b.4.fired && *b.3 != Fault::None);
    let any_mal = calls.iter().any(|c| c.3.malformed);
    let overlap = ex.in_flight >= 2 && ex.preempted > 0;
    let held = |nontrivial: bool| Verdict::Held { hash: scen_hash(sc, ex.hash), nontrivial };

    match prop {
        "C01" | "C02" | "C03" | "C04" | "C11" => {
            let clean = prop == "C04";
            for (t, o, c, r) in &calls {
                let n = node_len(&sc.nodes, c.node);
                let want = match j.solo(c, clean) {
                    Solo::Op(w) => w,
                    Solo::Bad(m) => return Verdict::Skip(m),
                };
                if matches!(c.fault, Fault::Scalar(_) | Fault::Inner(_)) && r.fired {
                    // an injected failure has to surface, unchanged
                    let id = (*t as u64) << 16 | *o as u64 + 1;
                    if prop == "C03" && r.out != Out::Injected(id) {
                        return bad(sc, rec, "panic-not-delivered", format!("{}: a panic was injected inside the call, but its caller saw: {}", label(sc, *t, *o), r.out.short()));
                    }
                    continue;
                }
                if prop == "C11" && c.fault != Fault::AllocFail {
                    continue;
                }
                if prop == "C11" && kind(&want.out) != 0 {
                    continue;
                }
                if r.out != want.out {
                    return bad(sc, rec, how(&r.out, &want.out), format!("{}: {}", label(sc, *t, *o), first_diff(&r.out, &want.out, n)));
                }
                if let Some((k, d)) = &r.diff {
                    return bad(sc, rec, how(d, &want.out), format!("{}: repetition {}: {}", label(sc, *t, *o), k, first_diff(d, &want.out, n)));
                }
                if clean && r.tainted {
                    return bad(sc, rec, "garbage-in-result", format!("{}: a value read from garbage memory entered the result", label(sc, *t, *o)));
                }
            }
            if prop != "C11" && prop != "C04" {
                for (t, o, node, fault, r) in &builds {
                    if matches!(fault, Fault::Scalar(_) | Fault::Inner(_)) && r.fired {
                        let id = (*t as u64) << 16 | *o as u64 + 1;
                        if prop == "C03" && r.out != Out::Injected(id) {
                            return bad(sc, rec, "panic-not-delivered", format!("{}: a panic was injected inside the construction, but its caller saw: {}", label(sc, *t, *o), r.out.short()));
                        }
                        continue;
                    }
                    if kind(&r.out) == 2 {
                        if let Some(w) = j.solo_build(*node) {
                            if kind(&w.out) == 0 {
                                return bad(sc, rec, "construction-panicked", format!("{}: {}", label(sc, *t, *o), r.out.short()));
                            }
                        }
                    }
                }
            }
            held(match prop {
                "C01" => overlap,
                "C02" => calls.len() >= 3 || calls.iter().any(|c| c.2.times > 2),
                "C03" => any_fired,
                "C04" => calls.iter().any(|c| c.2.sfill != Fill::Zero || c.2.ofill != Fill::Zero || c.2.extra > 0) || sc.nodes.iter().any(|n| matches!(&n.probe, Some(p) if p.trash)),
                _ => calls.iter().any(|c| c.2.fault == Fault::AllocFail),
            })
        }
        "C05" => {
            if let Some((c, m)) = ex.incidents.iter().find(|(c, _)| c.starts_with("contract")) {
                return bad(sc, rec, c.clone(), m.clone());
            }
            for (t, o, c, r) in &calls {
                if r.malformed {
                    continue;
                }
                match &r.out {
                    Out::Ok(v) => {
                        let (u, m) = reference(sc, c, v);
                        if u.is_finite() {
                            j.max_units = j.max_units.max(u);
                        }
                        if !(u <= TOL) {
                            return bad(sc, rec, "wrong-values", format!("{}: {}", label(sc, *t, *o), m));
                        }
                    }
                    x => return bad(sc, rec, "panicked", format!("{}: {}", label(sc, *t, *o), x.short())),
                }
            }
            held(sc.nodes.iter().any(|n| matches!(n.kind, Kind::Stub { .. }) || matches!(&n.probe, Some(p) if p.ei + p.eo > 0)))
        }
        "C06" => {
            for (t, o, c, r) in &calls {
                let n = node_len(&sc.nodes, c.node);
                if r.malformed {
                    if kind(&r.out) == 0 {
                        return bad(sc, rec, "accepted-ill-sized", format!("{} ({:?}): returned normally", label(sc, *t, *o), c.mal));
                    }
                    if !r.canary.is_empty() {
                        return bad(sc, rec, "wrote-outside", format!("{} ({:?}): {}", label(sc, *t, *o), c.mal, r.canary));
                    }
                    continue;
                }
                if kind(&r.out) != 0 {
                    return bad(sc, rec, "rejected-well-sized", format!("{}: {}", label(sc, *t, *o), r.out.short()));
                }
                // bystanders: same outcome as alone
                let mut c2 = (*c).clone();
                c2.mal = Mal::None;
                match j.solo(&c2, false) {
                    Solo::Op(w) => {
                        if c2.mal == c.mal && kind(&w.out) == 0 && r.out != w.out {
                            return bad(sc, rec, "bystander-affected", format!("{}: {}", label(sc, *t, *o), first_diff(&r.out, &w.out, n)));
                        }
                    }
                    Solo::Bad(m) => return Verdict::Skip(m),
                }
            }
            if any_mal && !ex.bad_access.is_empty() {
                return bad(sc, rec, "illegal-access", ex.bad_access.clone());
            }
            held(any_mal)
        }
        "C07" => {
            if !ex.bad_access.is_empty() {
                return bad(sc, rec, "illegal-access", ex.bad_access.clone());
            }
            for (t, o, _, r) in &calls {
                if !r.canary.is_empty() {
                    return bad(sc, rec, "wrote-outside", format!("{}: {}", label(sc, *t, *o), r.canary));
                }
            }
            held(overlap || any_mal || any_fired || calls.iter().any(|c| c.2.guard || c.2.chunks > 1))
        }
        "C08" => {
            let first = match sc.threads.iter().flatten().find_map(|o| if let Op::Call(c) = o { Some(c.clone()) } else { None }) {
                Some(c) => c,
                None => return held(false),
            };
            let n = node_len(&sc.nodes, first.node);
            let lo = calls.iter().map(|c| c.2.base).min().unwrap_or(0);
            let hi = calls.iter().map(|c| c.2.base + c.2.chunks as u64).max().unwrap_or(0);
            // the same chunks as separate one-chunk calls, in another order, on a fresh plan
            let mut order: Vec<u64> = (lo..hi).collect();
            if order.len() > 600 {
                // of a very long batch, the chunks around powers of two, the ends, the odd
                // one out and a random sample
                let bad = first.bad;
                let mut pick = simrt::Rng::new(first.iseed ^ 0xC0808);
                let len = order.len() as u64;
                order.retain(|&k| {
                    let near = |p: u64| k + 2 >= p && k <= p + 2;
                    near(lo) || near(hi - 1) || near(bad) || (4..20).any(|e| near(1 << e)) || pick.below(len) < 250
                });
            }
            let mut r = simrt::Rng::new(first.iseed ^ 0xC08);
            for i in (1..order.len()).rev() {
                order.swap(i, r.below(i as u64 + 1) as usize);
            }
            let mut s = solo_scenario(sc, &first, false);
            s.threads = vec![order
                .iter()
                .map(|k| {
                    let mut c = plain(&first);
                    c.base = *k;
                    c.chunks = 1;
                    Op::Call(c)
                })
                .collect()];
            count(Stat::Solos, 1);
            let single: HashMap<u64, Out> = match execute(&s) {
                Res::Done(e) if e.build_fail.is_none() => order.iter().copied().zip(e.ops[0].iter().map(|o| o.out.clone())).collect(),
                Res::Harness(m) => return Verdict::Harness(m),
                _ => return Verdict::Skip("baseline failed".into()),
            };
            for (t, o, c, r) in &calls {
                let all_ok = (0..c.chunks as u64).all(|k| matches!(single.get(&(c.base + k)), None | Some(Out::Ok(_))));
                match &r.out {
                    Out::Ok(v) => {
                        for k in 0..c.chunks {
                            let got = Out::Ok(v[k * n..(k + 1) * n].to_vec());
                            let want = match single.get(&(c.base + k as u64)) {
                                Some(w) => w,
                                None => continue,
                            };
                            if got != *want {
                                return bad(sc, rec, how(&got, want), format!("{}: chunk {} of the batch: {}", label(sc, *t, *o), k, first_diff(&got, want, n)));
                            }
                        }
                    }
                    x => {
                        if all_ok {
                            return bad(sc, rec, "panicked", format!("{}: {} although each chunk alone succeeds", label(sc, *t, *o), x.short()));
                        }
                    }
                }
            }
            held(calls.iter().any(|c| c.2.chunks > 1))
        }
        "C09" => {
            let mut checked = 0;
            for (t, o, c, r) in &calls {
                if r.malformed || (matches!(c.fault, Fault::Scalar(_) | Fault::Inner(_)) && r.fired) {
                    continue;
                }
                for out in std::iter::once(&r.out).chain(r.diff.as_ref().map(|d| &d.1)) {
                    match out {
                        Out::Ok(v) => {
                            checked += 1;
                            let (u, m) = reference(sc, c, v);
                            if u.is_finite() {
                                j.max_units = j.max_units.max(u);
                            }
                            if !(u <= TOL) {
                                return bad(sc, rec, "wrong-values", format!("{}: {}", label(sc, *t, *o), m));
                            }
                        }
                        x => return bad(sc, rec, "panicked", format!("{}: {}", label(sc, *t, *o), x.short())),
                    }
                }
            }
            for (t, o, _, fault, r) in &builds {
                if kind(&r.out) == 2 && **fault == Fault::None {
                    return bad(sc, rec, "construction-failed", format!("{}: {}", label(sc, *t, *o), r.out.short()));
                }
            }
            held(checked > 0 && (overlap || checked >= 2 || any_fired || any_mal))
        }
        "C10" => {
            if let Some((c, m)) = ex.incidents.iter().find(|(c, _)| c == "blocked-by-frozen") {
                return bad(sc, rec, c.clone(), m.clone());
            }
            if ex.call_blocks > 0 {
                return bad(sc, rec, "waited", format!("callers inside a call blocked {} time(s) on a lock held by another caller", ex.call_blocks));
            }
            let mut re = false;
            for (t, o, c, r) in &calls {
                let want = match j.solo(c, false) {
                    Solo::Op(w) => w,
                    Solo::Bad(m) => return Verdict::Skip(m),
                };
                if kind(&want.out) != 0 {
                    continue;
                }
                let mut allow = 2 * want.points + 1000;
                if r.nested.is_some() {
                    re = true;
                    let mut nc = c.nested();
                    nc.private = c.private;
                    match j.solo(&nc, false) {
                        Solo::Op(w) => {
                            if kind(&w.out) == 0 && kind(r.nested.as_ref().unwrap()) != 0 {
                                return bad(sc, rec, "reentrant-call-failed", format!("{}: the re-entrant call did not complete: {}", label(sc, *t, *o), r.nested.as_ref().unwrap().short()));
                            }
                            allow += 2 * w.points;
                        }
                        Solo::Bad(m) => return Verdict::Skip(m),
                    }
                    if kind(&r.out) != 0 {
                        return bad(sc, rec, "reentrant-call-failed", format!("{}: the call did not complete after a re-entrant call: {}", label(sc, *t, *o), r.out.short()));
                    }
                }
                if r.points > allow {
                    return bad(sc, rec, "delayed", format!("{}: took {} steps, {} when run alone", label(sc, *t, *o), r.points, want.points));
                }
            }
            held(re || any_fired || overlap)
        }
        "C12" => {
            if let Some(h) = ex.held.first() {
                return bad(sc, rec, "handle-kept", h.clone());
            }
            let k = ex.live.len();
            if k >= 4 {
                let l = &ex.live[k - 3..];
                if (l[2].0 > l[1].0 && l[1].0 > l[0].0) || (l[2].1 > l[1].1 && l[1].1 > l[0].1) {
                    return bad(sc, rec, "memory-grows", format!("bytes and blocks still held by the library after each round: {:?}", ex.live));
                }
            }
            if k >= 40 {
                let at = |i: usize| ex.live[i - 1];
                let up = |f: fn(&(u64, u64)) -> u64| f(&at(5)) < f(&at(10)) && f(&at(10)) < f(&at(20)) && f(&at(20)) < f(&at(40));
                if up(|l| l.0) || up(|l| l.1) {
                    return bad(sc, rec, "memory-grows", format!("bytes and blocks still held by the library after rounds 5, 10, 20, 40: {:?}", [at(5), at(10), at(20), at(40)]));
                }
            }
            held(k >= 4 && (!builds.is_empty() || calls.len() > 1))
        }
        "C15" => {
            for (t, o, node, _, r) in &builds {
                let ok = crate::gen::supported(&sc.nodes, *node);
                match (ok, kind(&r.out)) {
                    (true, 0) => {
                        let n = node_len(&sc.nodes, *node) as u64;
                        if r.sizes[0] != n {
                            return bad(sc, rec, "wrong-length", format!("{}: the plan reports length {} instead of {}", label(sc, *t, *o), r.sizes[0], n));
                        }
                    }
                    (false, 2) => {}
                    (true, _) => return bad(sc, rec, "refused-supported", format!("{}: {}", label(sc, *t, *o), r.out.short())),
                    (false, _) => return bad(sc, rec, "accepted-unsupported", format!("{}: {}", label(sc, *t, *o), r.out.short())),
                }
            }
            for (t, o, c, r) in &calls {
                let n = node_len(&sc.nodes, c.node);
                match j.solo(c, false) {
                    Solo::Op(w) => {
                        if r.out != w.out {
                            return bad(sc, rec, "bystander-affected", format!("{}: {}", label(sc, *t, *o), first_diff(&r.out, &w.out, n)));
                        }
                    }
                    Solo::Bad(m) => return Verdict::Skip(m),
                }
            }
            if let Some(h) = ex.held.first() {
                return bad(sc, rec, "handle-kept", h.clone());
            }
            held(builds.iter().any(|b| !crate::gen::supported(&sc.nodes, b.2)))
        }
        "C17" => {
            for (t, o, c, r) in &calls {
                let n = node_len(&sc.nodes, c.node) as u64;
                let want = match j.solo(c, false) {
                    Solo::Op(w) => w,
                    Solo::Bad(m) => return Verdict::Skip(m),
                };
                let w: [u64; 3] = [n, want.sizes[1], want.sizes[2]];
                for (k, when) in [(0, "before"), (3, "after")] {
                    let got: [u64; 3] = [r.sizes[k], r.sizes[k + 1], r.sizes[k + 2]];
                    if got != w {
                        return bad(sc, rec, "sizes-changed", format!("{}: {} the call the plan reports (length, in-place scratch, out-of-place scratch) {:?}, a fresh plan {:?}", label(sc, *t, *o), when, got, w));
                    }
                }
                let failed = matches!(c.fault, Fault::Scalar(_) | Fault::Inner(_)) && r.fired;
                if !r.malformed && !failed && kind(&want.out) == 0 {
                    for out in std::iter::once(&r.out).chain(r.diff.as_ref().map(|d| &d.1)) {
                        if kind(out) != 0 {
                            return bad(sc, rec, "scratch-not-enough", format!("{}: given exactly what the plan reports: {}", label(sc, *t, *o), out.short()));
                        }
                    }
                }
                if !r.malformed && !failed && kind(&want.out) != 0 {
                    // refused even on a fresh plan: is it the number of chunks or the scratch that is to blame?
                    let mut one = (*c).clone();
                    one.chunks = 1;
                    one.times = 1;
                    let mut ample = (*c).clone();
                    ample.times = 1;
                    ample.extra = 4 * (want.sizes[1].max(want.sizes[2]) as usize + n as usize) + n as usize * c.chunks + 4096;
                    if ample.entry == Entry::Process {
                        ample.entry = Entry::Inplace;
                    }
                    for (v, why) in [(one, "one chunk alone is accepted"), (ample, "with more scratch it is accepted")] {
                        if let Solo::Op(w) = j.solo(&v, false) {
                            if kind(&w.out) == 0 {
                                return bad(sc, rec, "scratch-not-enough", format!("{}: given exactly what the plan reports: {}; {}", label(sc, *t, *o), want.out.short(), why));
                            }
                        }
                    }
                }
            }
            for (t, o, node, _, r) in &builds {
                if kind(&r.out) != 0 {
                    continue;
                }
                if let Some(w) = j.solo_build(*node) {
                    if kind(&w.out) == 0 && r.sizes != w.sizes {
                        return bad(sc, rec, "sizes-changed", format!("{}: the new plan reports {:?}, one built in a fresh process {:?}", label(sc, *t, *o), &r.sizes[..3], &w.sizes[..3]));
                    }
                }
            }
            held(overlap || any_fired || any_mal || calls.len() >= 3)
        }
        "C18" => {
            for (t, o, c, r) in &calls {
                let d = levels(&sc.nodes, c.node);
                let lim = STACK_BASE + STACK_LEVEL * d;
                j.max_units = j.max_units.max(r.stack as f64 / lim as f64);
                if r.stack > lim {
                    return bad(sc, rec, "stack", format!("{}: used {} bytes of stack, limit {} for a plan of {} level(s)", label(sc, *t, *o), r.stack, lim, d));
                }
            }
            // more chunks or more scratch than needed: no more stack
            for (t, o, c, r) in &calls {
                if r.malformed || kind(&r.out) != 0 || (c.chunks == 1 && c.extra == 0) {
                    continue;
                }
                let mut one = (*c).clone();
                one.chunks = 1;
                if let Solo::Op(w) = j.solo(&one, false) {
                    if kind(&w.out) == 0 && r.stack > w.stack + 1024 {
                        return bad(sc, rec, "stack-grows", format!("{}: used {} bytes of stack, {} for one chunk", label(sc, *t, *o), r.stack, w.stack));
                    }
                }
            }
            for (t, o, node, _, r) in &builds {
                let d = levels(&sc.nodes, *node);
                let lim = STACK_BASE + STACK_LEVEL * d;
                j.max_units = j.max_units.max(r.stack as f64 / lim as f64);
                if r.stack > lim {
                    return bad(sc, rec, "stack", format!("{}: used {} bytes of stack, limit {} for a plan of {} level(s)", label(sc, *t, *o), r.stack, lim, d));
                }
            }
            held(calls.iter().any(|c| c.2.chunks > 1 || c.2.extra > 0 || node_len(&sc.nodes, c.2.node) > 64))
        }
        _ => Verdict::Harness(format!("no oracle for {}", prop)),
    }
}
