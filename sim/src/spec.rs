//! Scenario: everything that determines one simulated execution, and its text form
//! (the replay file).
use simrt::Policy;
use simshim::Alg;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Lib(Alg, Vec<usize>),
    /// Reference-model inner transform with arbitrary scratch demands.
    Stub { n: usize, si: usize, so: usize },
}
#[derive(Clone, Debug, PartialEq)]
pub struct Probe {
    pub trash: bool,
    pub ei: usize,
    pub eo: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: Kind,
    pub probe: Option<Probe>,
    /// not built up front, only by `Op::Build`
    pub lazy: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Entry {
    Process,
    Inplace,
    Oop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fill {
    Zero,
    Nan,
    Inf,
    Huge,
    Stale,
    Tiny,
}
pub const FILLS: [Fill; 6] = [Fill::Zero, Fill::Nan, Fill::Inf, Fill::Huge, Fill::Stale, Fill::Tiny];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Class {
    Uniform,
    Positive,
    Impulse,
    Const,
    Zeros,
    Ints,
    Huge,
    Tiny,
    Mixed,
    Alternating,
    Nan,
    Inf,
    Sparse,
    Ramp,
    NegZero,
}
pub const FINITE: [Class; 13] = [
    Class::Uniform, Class::Positive, Class::Impulse, Class::Const, Class::Zeros, Class::Ints, Class::Huge, Class::Tiny,
    Class::Mixed, Class::Alternating, Class::Sparse, Class::Ramp, Class::NegZero,
];
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mal {
    None,
    /// buffer length = arg (< n)
    Short(usize),
    /// buffer length = chunks*n + arg
    Rem(usize),
    /// output longer than input by arg
    OutLong(usize),
    /// output shorter than input by arg
    OutShort(usize),
    /// input shorter than the output by arg
    InShort(usize),
    /// scratch shorter than required by arg
    ScratchShort(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    Scalar(u64),
    Inner(u64),
    Freeze(u64),
    /// Unresolved: parts per million of the count seen in the solo run.
    ScalarPpm(u64),
    InnerPpm(u64),
    FreezePpm(u64),
    AllocFail,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub node: usize,
    pub private: bool,
    pub entry: Entry,
    pub chunks: usize,
    pub base: u64,
    pub class: Class,
    pub iseed: u64,
    /// small change to the data of the class and seed (0: none)
    pub twist: u64,
    /// absolute chunk number that gets non-finite data (u64::MAX: none)
    pub bad: u64,
    pub extra: usize,
    pub sfill: Fill,
    pub ofill: Fill,
    pub off: usize,
    pub guard: bool,
    pub mal: Mal,
    pub fault: Fault,
    pub times: u64,
    /// re-enter the plan at this probe event of the call (u64::MAX: never)
    pub reenter: u64,
}
/// `Call::reenter` values from here on are parts per million of the inner events of
/// the solo run, not yet resolved.
pub const REENTER_PPM: u64 = 1 << 40;
impl Call {
    pub fn simple(node: usize, entry: Entry, chunks: usize, class: Class, iseed: u64) -> Call {
        Call {
            node, private: false, entry, chunks, base: 0, class, iseed, twist: 0, bad: u64::MAX, extra: 0, sfill: Fill::Zero, ofill: Fill::Zero,
            off: 0, guard: false, mal: Mal::None, fault: Fault::None, times: 1, reenter: u64::MAX,
        }
    }
    /// The nested call made when this call re-enters its plan.
    pub fn nested(&self) -> Call {
        let mut c = Call::simple(self.node, self.entry, 1, Class::Uniform, self.iseed ^ 0x5A5A);
        c.private = self.private;
        c
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Call(Call),
    Build { node: usize, fault: Fault },
    DropPriv(usize),
    DropShared(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sc {
    F32,
    F64,
    Sim,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub run: u64,
    pub scalar: Sc,
    pub poison: u8,
    pub nodes: Vec<Node>,
    pub threads: Vec<Vec<Op>>,
    pub policy: Policy,
    pub max_switches: u64,
    pub rounds: u64,
    /// what clocks, random numbers and environment variables show the process (0: quiet defaults)
    pub world: u64,
    /// the main program keeps its plan handles until all threads have ended
    pub keep: bool,
    /// caller buffers and library heap blocks recur at the same addresses
    pub reuse: bool,
    /// the same program is first run in this number type, in the same process
    pub prelude: Option<Sc>,
}

pub fn node_len(nodes: &[Node], i: usize) -> usize {
    match &nodes[i].kind {
        Kind::Stub { n, .. } => *n,
        Kind::Lib(a, ch) => match a {
            Alg::Naive(n) | Alg::Butterfly(n) | Alg::Radix4(n) => *n,
            Alg::Mixed => node_len(nodes, ch[0]) * node_len(nodes, ch[1]),
            Alg::Nx(k) => k * node_len(nodes, ch[0]),
            Alg::Split => 4 * node_len(nodes, ch[0]),
            Alg::Raders => node_len(nodes, ch[0]) + 1,
        },
    }
}
/// Does the subgraph of `i` contain a probe or stub anywhere below the node itself (or on it)?
pub fn has_probe(nodes: &[Node], i: usize) -> bool {
    if nodes[i].probe.is_some() {
        return true;
    }
    match &nodes[i].kind {
        Kind::Stub { .. } => true,
        Kind::Lib(_, ch) => ch.iter().any(|&c| has_probe(nodes, c)),
    }
}
/// Human readable plan expression.
pub fn plan_text(nodes: &[Node], i: usize) -> String {
    let p = match &nodes[i].probe {
        None => "",
        Some(p) if p.trash => "~",
        Some(_) => "'",
    };
    let b = match &nodes[i].kind {
        Kind::Stub { n, si, so } => format!("Model({},{},{})", n, si, so),
        Kind::Lib(a, ch) => {
            let inner: Vec<String> = ch.iter().map(|&c| plan_text(nodes, c)).collect();
            match a {
                Alg::Naive(n) => format!("Naive({})", n),
                Alg::Butterfly(n) => format!("B{}", n),
                Alg::Radix4(n) => format!("Radix4({})", n),
                Alg::Mixed => format!("Mixed({})", inner.join(",")),
                Alg::Nx(k) => format!("{}xn({})", k, inner[0]),
                Alg::Split => format!("Split({})", inner.join(",")),
                Alg::Raders => format!("Raders({})", inner[0]),
            }
        }
    };
    format!("{}{}", b, p)
}

// ------------------------------------------------------------------------- text form

impl Scenario {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s += "dhtsim-replay 1\n";
        s += &format!("property {}\nrun {}\nscalar {:?}\npoison {}\nmax_switches {}\nrounds {}\nkeep {}\nreuse {}\nworld {}\n", self.prop, self.run, self.scalar, self.poison, self.max_switches, self.rounds, self.keep as u8, self.reuse as u8, self.world);
        if let Some(p) = self.prelude {
            s += &format!("prelude {:?}\n", p);
        }
        for n in &self.nodes {
            s += "node ";
            match &n.kind {
                Kind::Stub { n, si, so } => s += &format!("stub {} {} {}", n, si, so),
                Kind::Lib(a, ch) => {
                    match a {
                        Alg::Naive(n) => s += &format!("naive {}", n),
                        Alg::Butterfly(n) => s += &format!("butterfly {}", n),
                        Alg::Radix4(n) => s += &format!("radix4 {}", n),
                        Alg::Mixed => s += "mixed",
                        Alg::Nx(k) => s += &format!("nx {}", k),
                        Alg::Split => s += "split",
                        Alg::Raders => s += "raders",
                    }
                    for c in ch {
                        s += &format!(" {}", c);
                    }
                }
            }
            if let Some(p) = &n.probe {
                s += &format!(" probe {} {} {}", p.trash as u8, p.ei, p.eo);
            }
            if n.lazy {
                s += " lazy";
            }
            s += "\n";
        }
        for t in &self.threads {
            s += "thread\n";
            for o in t {
                match o {
                    Op::Call(c) => {
                        s += &format!(
                            "call node={} private={} entry={:?} chunks={} base={} class={:?} iseed={} twist={} bad={} extra={} sfill={:?} ofill={:?} off={} guard={} mal={} fault={} times={} reenter={}\n",
                            c.node, c.private as u8, c.entry, c.chunks, c.base, c.class, c.iseed, c.twist, c.bad, c.extra, c.sfill, c.ofill, c.off, c.guard as u8,
                            mal_text(&c.mal), fault_text(&c.fault), c.times, c.reenter
                        )
                    }
                    Op::Build { node, fault } => s += &format!("build node={} fault={}\n", node, fault_text(fault)),
                    Op::DropPriv(n) => s += &format!("droppriv node={}\n", n),
                    Op::DropShared(n) => s += &format!("dropshared node={}\n", n),
                }
            }
        }
        match &self.policy {
            Policy::Seq => s += "schedule seq\n",
            Policy::Random { seed, max } => s += &format!("schedule random {} {}\n", seed, max),
            Policy::Pct { seed, gap } => s += &format!("schedule pct {} {}\n", seed, gap),
            Policy::Explicit(v) => {
                s += "schedule explicit";
                for (t, n) in v {
                    s += &format!(" {}:{}", t, n);
                }
                s += "\n";
            }
        }
        s
    }
    pub fn from_text(txt: &str) -> Option<Scenario> {
        let mut sc = Scenario { prop: String::new(), run: 0, scalar: Sc::F64, poison: 0xff, nodes: vec![], threads: vec![], policy: Policy::Seq, max_switches: 0, rounds: 1, keep: false, reuse: false, prelude: None, world: 0 };
        for line in txt.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let kv = |k: &str| -> Option<&str> { w.iter().find_map(|x| x.strip_prefix(k).and_then(|r| r.strip_prefix('='))) };
            match w[0] {
                "dhtsim-replay" => {}
                "property" => sc.prop = w.get(1)?.to_string(),
                "run" => sc.run = w.get(1)?.parse().ok()?,
                "scalar" => sc.scalar = scalar_of(w.get(1)?)?,
                "prelude" => sc.prelude = Some(scalar_of(w.get(1)?)?),
                "world" => sc.world = w.get(1)?.parse().ok()?,
                "poison" => sc.poison = w.get(1)?.parse().ok()?,
                "max_switches" => sc.max_switches = w.get(1)?.parse().ok()?,
                "rounds" => sc.rounds = w.get(1)?.parse().ok()?,
                "keep" => sc.keep = *w.get(1)? == "1",
                "reuse" => sc.reuse = *w.get(1)? == "1",
                "node" => {
                    let pi = w.iter().position(|x| *x == "probe");
                    let nums = |a: usize| -> Vec<usize> { w[a..pi.unwrap_or(w.len())].iter().filter_map(|x| x.parse().ok()).collect() };
                    let kind = match *w.get(1)? {
                        "stub" => { let v = nums(2); Kind::Stub { n: v[0], si: v[1], so: v[2] } }
                        "naive" => Kind::Lib(Alg::Naive(nums(2)[0]), vec![]),
                        "butterfly" => Kind::Lib(Alg::Butterfly(nums(2)[0]), vec![]),
                        "radix4" => Kind::Lib(Alg::Radix4(nums(2)[0]), vec![]),
                        "mixed" => Kind::Lib(Alg::Mixed, nums(2)),
                        "nx" => { let v = nums(2); Kind::Lib(Alg::Nx(v[0]), v[1..].to_vec()) }
                        "split" => Kind::Lib(Alg::Split, nums(2)),
                        "raders" => Kind::Lib(Alg::Raders, nums(2)),
                        _ => return None,
                    };
                    let probe = match pi {
                        None => None,
                        Some(i) => Some(Probe { trash: w[i + 1] == "1", ei: w[i + 2].parse().ok()?, eo: w[i + 3].parse().ok()? }),
                    };
                    sc.nodes.push(Node { kind, probe, lazy: w.last() == Some(&"lazy") });
                }
                "thread" => sc.threads.push(vec![]),
                "call" => {
                    let u = |k: &str| -> Option<u64> { kv(k)?.parse().ok() };
                    let c = Call {
                        node: u("node")? as usize,
                        private: u("private")? != 0,
                        entry: match kv("entry")? { "Process" => Entry::Process, "Inplace" => Entry::Inplace, _ => Entry::Oop },
                        chunks: u("chunks")? as usize,
                        base: u("base")?,
                        class: class_of(kv("class")?)?,
                        iseed: u("iseed")?,
                        twist: u("twist").unwrap_or(0),
                        bad: u("bad")?,
                        extra: u("extra")? as usize,
                        sfill: fill_of(kv("sfill")?)?,
                        ofill: fill_of(kv("ofill")?)?,
                        off: u("off")? as usize,
                        guard: u("guard")? != 0,
                        mal: mal_of(kv("mal")?)?,
                        fault: fault_of(kv("fault")?)?,
                        times: u("times")?,
                        reenter: u("reenter")?,
                    };
                    sc.threads.last_mut()?.push(Op::Call(c));
                }
                "build" => { let o = Op::Build { node: kv("node")?.parse().ok()?, fault: fault_of(kv("fault")?)? }; sc.threads.last_mut()?.push(o) }
                "droppriv" => { let o = Op::DropPriv(kv("node")?.parse().ok()?); sc.threads.last_mut()?.push(o) }
                "dropshared" => { let o = Op::DropShared(kv("node")?.parse().ok()?); sc.threads.last_mut()?.push(o) }
                "schedule" => {
                    sc.policy = match *w.get(1)? {
                        "seq" => Policy::Seq,
                        "random" => Policy::Random { seed: w[2].parse().ok()?, max: w[3].parse().ok()? },
                        "pct" => Policy::Pct { seed: w[2].parse().ok()?, gap: w[3].parse().ok()? },
                        "explicit" => Policy::Explicit(w[2..].iter().filter_map(|x| { let (a, b) = x.split_once(':')?; Some((a.parse().ok()?, b.parse().ok()?)) }).collect()),
                        _ => return None,
                    }
                }
                "violation" | "message" | "build-profile" => {}
                _ => return None,
            }
        }
        Some(sc)
    }
}
fn scalar_of(s: &str) -> Option<Sc> {
    Some(match s {
        "F32" => Sc::F32,
        "F64" => Sc::F64,
        "Sim" => Sc::Sim,
        _ => return None,
    })
}
fn class_of(s: &str) -> Option<Class> {
    FINITE.iter().chain([Class::Nan, Class::Inf].iter()).find(|c| format!("{:?}", c) == s).copied()
}
fn fill_of(s: &str) -> Option<Fill> {
    FILLS.iter().find(|c| format!("{:?}", c) == s).copied()
}
fn mal_text(m: &Mal) -> String {
    match m {
        Mal::None => "none:0".into(),
        Mal::Short(a) => format!("short:{}", a),
        Mal::Rem(a) => format!("rem:{}", a),
        Mal::OutLong(a) => format!("outlong:{}", a),
        Mal::OutShort(a) => format!("outshort:{}", a),
        Mal::InShort(a) => format!("inshort:{}", a),
        Mal::ScratchShort(a) => format!("scratchshort:{}", a),
    }
}
fn mal_of(s: &str) -> Option<Mal> {
    let (k, a) = s.split_once(':')?;
    let a: usize = a.parse().ok()?;
    Some(match k {
        "none" => Mal::None,
        "short" => Mal::Short(a),
        "rem" => Mal::Rem(a),
        "outlong" => Mal::OutLong(a),
        "outshort" => Mal::OutShort(a),
        "inshort" => Mal::InShort(a),
        "scratchshort" => Mal::ScratchShort(a),
        _ => return None,
    })
}
fn fault_text(f: &Fault) -> String {
    match f {
        Fault::None => "none:0".into(),
        Fault::Scalar(k) => format!("scalar:{}", k),
        Fault::Inner(k) => format!("inner:{}", k),
        Fault::Freeze(k) => format!("freeze:{}", k),
        Fault::ScalarPpm(k) => format!("scalarppm:{}", k),
        Fault::InnerPpm(k) => format!("innerppm:{}", k),
        Fault::FreezePpm(k) => format!("freezeppm:{}", k),
        Fault::AllocFail => "allocfail:0".into(),
    }
}
fn fault_of(s: &str) -> Option<Fault> {
    let (k, a) = s.split_once(':')?;
    let a: u64 = a.parse().ok()?;
    Some(match k {
        "none" => Fault::None,
        "scalar" => Fault::Scalar(a),
        "inner" => Fault::Inner(a),
        "freeze" => Fault::Freeze(a),
        "scalarppm" => Fault::ScalarPpm(a),
        "innerppm" => Fault::InnerPpm(a),
        "freezeppm" => Fault::FreezePpm(a),
        "allocfail" => Fault::AllocFail,
        _ => return None,
    })
}
