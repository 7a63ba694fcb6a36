//! Shrinks a violating scenario while the same violation class persists.
use crate::judge::*;
use crate::spec::*;
use simrt::{Policy, NEVER};
use simshim::Alg;
use std::time::{Duration, Instant};

pub struct Min {
    pub best: Viol,
    pub tries: u64,
    pub deadline: Instant,
}
fn judge_same(sc: &Scenario, class: &str) -> Option<Viol> {
    match judge(sc) {
        Verdict::Bad(v) if v.class == class => Some(v),
        _ => None,
    }
}
impl Min {
    fn out_of_time(&self) -> bool {
        Instant::now() > self.deadline
    }
    /// Try a candidate; with `vary` also under a few other schedules.
    fn attempt(&mut self, cand: Scenario, vary: bool) -> bool {
        if self.out_of_time() {
            return false;
        }
        if std::panic::catch_unwind(|| cand.nodes.iter().enumerate().for_each(|(i, _)| { node_len(&cand.nodes, i); })).is_err() {
            return false;
        }
        self.tries += 1;
        if let Some(v) = judge_same(&cand, &self.best.class) {
            self.best = Viol { sc: cand, ..v };
            return true;
        }
        if vary && cand.threads.len() > 1 {
            let mut pols = vec![Policy::Seq];
            for k in 0..6u64 {
                pols.push(Policy::Random { seed: 1000 + k, max: [6, 40, 300][(k % 3) as usize] });
            }
            for p in pols {
                if self.out_of_time() {
                    return false;
                }
                let mut c = cand.clone();
                c.policy = p;
                c.max_switches = 300;
                self.tries += 1;
                if let Some(v) = judge_same(&c, &self.best.class) {
                    let mut e = c.clone();
                    e.policy = Policy::Explicit(trim(&v.rec));
                    e.max_switches = 1 << 40;
                    if let Some(v2) = judge_same(&e, &self.best.class) {
                        self.best = Viol { sc: e, ..v2 };
                    } else {
                        self.best = Viol { sc: c, ..v };
                    }
                    return true;
                }
            }
        }
        false
    }
}
fn trim(rec: &[(u32, u64)]) -> Vec<(u32, u64)> {
    let mut v: Vec<(u32, u64)> = vec![];
    for &(t, n) in rec {
        if n == 0 {
            continue;
        }
        match v.last_mut() {
            Some(l) if l.0 == t => l.1 += n,
            _ => v.push((t, n)),
        }
    }
    v
}

/// Drop nodes nothing refers to and renumber.
fn gc(sc: &Scenario) -> Scenario {
    let mut used = vec![false; sc.nodes.len()];
    fn mark(nodes: &[Node], i: usize, u: &mut Vec<bool>) {
        if !u[i] {
            u[i] = true;
            if let Kind::Lib(_, ch) = &nodes[i].kind {
                for c in ch {
                    mark(nodes, *c, u);
                }
            }
        }
    }
    for op in sc.threads.iter().flatten() {
        let i = match op {
            Op::Call(c) => c.node,
            Op::Build { node, .. } => *node,
            Op::DropPriv(n) | Op::DropShared(n) => *n,
        };
        mark(&sc.nodes, i, &mut used);
    }
    let mut map = vec![0; sc.nodes.len()];
    let mut nodes = vec![];
    for i in 0..sc.nodes.len() {
        if used[i] {
            map[i] = nodes.len();
            let mut n = sc.nodes[i].clone();
            if let Kind::Lib(_, ch) = &mut n.kind {
                for c in ch.iter_mut() {
                    *c = map[*c];
                }
            }
            nodes.push(n);
        }
    }
    let mut s = sc.clone();
    s.nodes = nodes;
    for op in s.threads.iter_mut().flatten() {
        match op {
            Op::Call(c) => c.node = map[c.node],
            Op::Build { node, .. } => *node = map[*node],
            Op::DropPriv(n) | Op::DropShared(n) => *n = map[*n],
        }
    }
    s
}

pub fn minimise(v: Viol, budget: Duration) -> (Viol, u64) {
    let mut m = Min { best: v, tries: 0, deadline: Instant::now() + budget };
    // the recorded schedule instead of the policy
    let mut c = m.best.sc.clone();
    if c.threads.len() <= 1 {
        c.policy = Policy::Seq;
    } else {
        c.policy = Policy::Explicit(trim(&m.best.rec));
    }
    c.max_switches = 1 << 40;
    m.attempt(c, false);
    let mut progress = true;
    while progress && !m.out_of_time() {
        progress = false;
        // threads
        let mut i = 0;
        while i < m.best.sc.threads.len() && m.best.sc.threads.len() > 1 {
            let mut c = m.best.sc.clone();
            c.threads.remove(i);
            if let Policy::Explicit(l) = &c.policy {
                c.policy = Policy::Explicit(l.iter().filter(|(t, _)| *t != i as u32).map(|&(t, n)| (if t > i as u32 { t - 1 } else { t }, n)).collect());
            }
            if m.attempt(c, true) {
                progress = true;
            } else {
                i += 1;
            }
        }
        // operations, last first
        for t in 0..m.best.sc.threads.len() {
            let mut o = m.best.sc.threads[t].len();
            while o > 0 {
                o -= 1;
                let mut c = m.best.sc.clone();
                c.threads[t].remove(o);
                if m.attempt(c, true) {
                    progress = true;
                }
            }
        }
        // rounds and switches
        let mut c = m.best.sc.clone();
        if c.rounds > 4 {
            c.rounds = 4;
            progress |= m.attempt(c, false);
        }
        for f in 0..4 {
            let mut c = m.best.sc.clone();
            if f == 3 && c.world != 0 {
                c.world = 0;
            } else if f == 2 && c.prelude.is_some() {
                c.prelude = None;
            } else if f == 0 && c.reuse {
                c.reuse = false;
            } else if f == 1 && c.poison != 0xFF {
                c.poison = 0xFF;
            } else {
                continue;
            }
            progress |= m.attempt(c, false);
        }
        // arguments of each call
        for t in 0..m.best.sc.threads.len() {
            for o in 0..m.best.sc.threads[t].len() {
                for k in 0..17 {
                    loop {
                        let mut s = m.best.sc.clone();
                        let lens: Vec<usize> = (0..s.nodes.len()).map(|i| node_len(&s.nodes, i)).collect();
                        let mut again = false;
                        match &mut s.threads[t][o] {
                            Op::Call(c) => match k {
                                0 if c.times > 1 => {
                                    c.times = if c.times > 3 { c.times / 2 } else { 1 };
                                    again = true;
                                }
                                1 if c.chunks > 1 => {
                                    c.chunks = if c.chunks > 3 { c.chunks / 2 } else { c.chunks - 1 };
                                    again = true;
                                }
                                2 if c.extra > 0 => c.extra = 0,
                                3 if c.off > 0 => c.off = 0,
                                4 if c.guard => c.guard = false,
                                5 if c.sfill != Fill::Zero => c.sfill = Fill::Zero,
                                6 if c.ofill != Fill::Zero => c.ofill = Fill::Zero,
                                7 if c.fault != Fault::None => c.fault = Fault::None,
                                8 if c.reenter != NEVER => c.reenter = NEVER,
                                9 if c.bad != u64::MAX => c.bad = u64::MAX,
                                10 if c.class != Class::Ints => c.class = Class::Ints,
                                11 if c.iseed > 9 => c.iseed = 1,
                                12 => match &mut c.fault {
                                    Fault::Scalar(x) | Fault::Inner(x) | Fault::Freeze(x) if *x > 0 => {
                                        *x /= 2;
                                        again = true;
                                    }
                                    _ => break,
                                },
                                13 if c.mal != Mal::None => c.mal = Mal::None,
                                14 if c.base > 0 => c.base = 0,
                                15 if c.twist != 0 => c.twist = 0,
                                16 if c.entry != Entry::Inplace && lens[c.node] > 0 => c.entry = Entry::Inplace,
                                _ => break,
                            },
                            Op::Build { fault, .. } => match k {
                                0 if *fault != Fault::None => *fault = Fault::None,
                                1 => match fault {
                                    Fault::Scalar(x) | Fault::Inner(x) | Fault::Freeze(x) if *x > 0 => {
                                        *x /= 2;
                                        again = true;
                                    }
                                    _ => break,
                                },
                                _ => break,
                            },
                            _ => break,
                        }
                        let ok = m.attempt(s, matches!(k, 0 | 1));
                        progress |= ok;
                        if !ok || !again {
                            break;
                        }
                    }
                }
            }
        }
        // plans
        for i in 0..m.best.sc.nodes.len() {
            if i >= m.best.sc.nodes.len() {
                break;
            }
            let n = node_len(&m.best.sc.nodes, i);
            if m.best.sc.nodes[i].probe.is_some() {
                let mut c = m.best.sc.clone();
                c.nodes[i].probe = None;
                progress |= m.attempt(c, false);
                if let Some(p) = m.best.sc.nodes[i].probe.clone() {
                    for f in 0..3 {
                        let mut q = p.clone();
                        match f {
                            0 if q.ei > 0 => q.ei = 0,
                            1 if q.eo > 0 => q.eo = 0,
                            2 if q.trash => q.trash = false,
                            _ => continue,
                        }
                        let mut c = m.best.sc.clone();
                        c.nodes[i].probe = Some(q);
                        progress |= m.attempt(c, false);
                    }
                }
            }
            if matches!(&m.best.sc.nodes[i].kind, Kind::Lib(a, _) if !matches!(a, Alg::Naive(_))) && n <= 2000 {
                let mut c = m.best.sc.clone();
                c.nodes[i].kind = Kind::Lib(Alg::Naive(n), vec![]);
                progress |= m.attempt(c, false);
            }
            // the whole plan by one of its inner plans
            if let Kind::Lib(_, ch) = m.best.sc.nodes[i].kind.clone() {
                for k in ch {
                    let mut c = m.best.sc.clone();
                    for op in c.threads.iter_mut().flatten() {
                        if let Op::Call(x) = op {
                            if x.node == i && !x.private {
                                x.node = k;
                            }
                        }
                    }
                    if c != m.best.sc {
                        progress |= m.attempt(c, true);
                    }
                }
            }
            // shorter leaves
            if let Kind::Lib(Alg::Naive(k), _) = m.best.sc.nodes[i].kind.clone() {
                for smaller in [1, 2, 3, k / 2, k.saturating_sub(1)] {
                    if smaller >= 1 && smaller < k {
                        let mut c = m.best.sc.clone();
                        c.nodes[i].kind = Kind::Lib(Alg::Naive(smaller), vec![]);
                        if m.attempt(c, true) {
                            progress = true;
                            break;
                        }
                    }
                }
            }
        }
        let g = gc(&m.best.sc);
        if g != m.best.sc {
            m.attempt(g, false);
        }
        // schedule: drop slices, halves first
        if let Policy::Explicit(l) = m.best.sc.policy.clone() {
            let mut w = l.len() / 2;
            while w >= 1 && !m.out_of_time() {
                let mut at = 0;
                loop {
                    let cur = match &m.best.sc.policy {
                        Policy::Explicit(l) => l.clone(),
                        _ => break,
                    };
                    if at >= cur.len() {
                        break;
                    }
                    let mut nl = cur.clone();
                    nl.drain(at..(at + w).min(cur.len()));
                    let mut c = m.best.sc.clone();
                    c.policy = if nl.is_empty() { Policy::Seq } else { Policy::Explicit(nl) };
                    if m.attempt(c, false) {
                        progress = true;
                    } else {
                        at += w;
                    }
                }
                w /= 2;
            }
        }
    }
    (m.best, m.tries)
}
