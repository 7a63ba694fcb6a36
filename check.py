#!/usr/bin/env python3
"""Run the deterministic-simulation check of one property (see DESIGN.md).

  check.py PROP        search; exit 0 held, 1 VIOLATION, 2 the check itself failed
  check.py --setup     build the simulator only

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough).
"""
import hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
OUT = os.path.join(HERE, "out")
REPO = "/repo"
TARGET = os.path.join(SIM, "target")
STAMP = os.path.join(TARGET, "sources.sha256")

# scenarios per build profile in the quick tier: (dev, release)
RUNS = {
    "C01": (34000, 42000), "C02": (16000, 20000), "C03": (38000, 46000), "C04": (50000, 56000),
    "C05": (150000, 170000), "C06": (50000, 56000), "C07": (55000, 60000), "C08": (22000, 38000),
    "C09": (9000, 11000), "C10": (34000, 40000), "C11": (18000, 18000), "C12": (32000, 38000),
    "C15": (60000, 75000), "C17": (18000, 21000), "C18": (11000, 16000),
}
# wall-clock caps per profile (seconds); a safety net on slow machines
WALL = {"quick": 200.0, "thorough": 1500.0}
FACTOR = {"quick": 1, "thorough": 40}

RULES = {
    "C01": "2-5 callers run 1-5 calls each (shared plans, shared sub-plans, privately built plans, handle drops) under a seeded preemptive schedule; every call outcome is compared bit for bit with the same call alone on a fresh plan in a fresh process. Non-trivial: two callers inside library calls at once and at least one preemption inside a call.",
    "C02": "histories of 3-14 calls (some repeated up to 70000 times) with other inputs, entry points, plans, rejected and midway-panicking calls, memory reuse; every outcome compared bit for bit with the same call on a fresh plan in a fresh process. Non-trivial: at least three calls, or one repeated.",
    "C03": "a panic injected at a chosen scalar operation or inner-transform event of calls and constructions, with concurrent and later calls on the same plans; the payload must reach its caller, bystanders and later calls must equal their solo runs. Non-trivial: an injected panic fired.",
    "C04": "scratch/output pre-filled with NaN, infinities, huge values, oversized scratch, poisoned fresh allocations, inner transforms that leave garbage in everything they may treat as scratch; outcome must equal the run over clean memory bit for bit, and (taint-tracking number type) no value may derive from garbage. Non-trivial: some such garbage was present.",
    "C05": "plans over inner transforms (real ones behind probes, and independent reference implementations) with arbitrary scratch demands; every inner call checked for legality, result against the reference model. Non-trivial: some inner transform demands scratch of its own.",
    "C06": "ill-sized calls (short, remainder, input/output mismatch, short scratch) injected among well-sized calls of other callers; must panic, must not write outside, bystanders must equal their solo runs; well-sized calls must return. Non-trivial: at least one ill-sized call was made.",
    "C07": "every load and store the library executes is checked against the slices the executing call was given (other calls' buffers, margins and canaries are off limits; some buffers end at a guard page). Non-trivial: overlap, an ill-sized or failing call, a guard page or a batch.",
    "C08": "batches of 2 to 66000 chunks in one call, and split into consecutive sub-batches run by concurrent callers, compared bit for bit per chunk with one-chunk calls in another order; one chunk may be NaN/inf/huge. Non-trivial: a call with two or more chunks.",
    "C09": "histories over random plan graphs (depth up to 5, lengths up to 20000) with concurrency, frozen callers, allocation failure, injected panics, ill-sized calls and handle drops; every completed call compared with a reference transform computed independently in f64. Non-trivial: a result was checked in a run with overlap, two or more checked calls, or a fault.",
    "C10": "callers frozen at a chosen step inside calls and constructions, and re-entrant calls from inside inner transforms; everyone else has to finish in a bounded number of own steps without ever blocking. Non-trivial: a caller was frozen, a call was re-entered, or calls overlapped.",
    "C11": "every heap allocation fails while a call with caller-supplied scratch runs; the outcome must equal that of the same call with memory available. Non-trivial: at least one call ran without any allocator.",
    "C15": "supported and unsupported constructions (non powers of two, pseudoprimes and other composites, mismatched halves) by 1-3 callers among calls on the same inner transforms; unsupported ones must panic, supported ones must yield a plan of the documented length, calls must equal their solo runs, no handle may be kept. Non-trivial: an unsupported construction was attempted.",
    "C17": "length and scratch lengths read before and after every call and after every construction in concurrent histories with repetitions, panics, ill-sized calls and frozen callers; compared with a fresh plan in a fresh process; calls given exactly that much scratch must return. Non-trivial: overlap, a fault, an ill-sized call or three or more calls.",
    "C18": "stack high-water mark of every call and construction, over lengths up to 20000, up to thousands of chunks, oversized scratch and repetitions, against a bound per nesting level and against the same call with one chunk. Non-trivial: a batch, oversized scratch or length above 64.",
    "C12": "a history of constructions, calls, failures and drops is repeated for 5-7 or 40 rounds; the bytes and blocks held by the library may not keep growing, and dropped or failed plans may hold no handle to inner transforms. Non-trivial: at least four rounds with constructions or several calls.",
}
FAULTS = ["scalar_panic", "inner_panic", "build_panic", "caller_frozen", "thaws", "calls_under_allocation_failure", "allocation_denied",
          "dirty_scratch", "dirty_output", "oversized_scratch", "inner_left_garbage", "fresh_memory_poisoned", "ill_sized_call",
          "ill_sized_while_others_in_flight", "reentrant_calls", "scratch_hungry_inner", "non_finite_inputs", "handle_drops",
          "guard_page_placement", "context_switches", "switches_with_other_call_in_flight"]


def die(msg):
    print("CHECK-ERROR " + msg, file=sys.stderr)
    sys.exit(2)


def sources():
    """Digest of everything the build reads: the library's working tree and the simulator."""
    h = hashlib.sha256()
    roots = [(REPO, True), (SIM, False)]
    for root, repo in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    want = sources()
    try:
        have = open(STAMP).read().strip()
    except OSError:
        have = ""
    bins = {p: os.path.join(TARGET, d, "dhtsim") for p, d in (("dev", "debug"), ("release", "release"))}
    if have == want and all(os.path.exists(b) for b in bins.values()):
        return bins
    # Never trust time stamps: drop cargo's records of the crates built from /repo and from here.
    for d in ("debug", "release"):
        fp = os.path.join(TARGET, d, ".fingerprint")
        if os.path.isdir(fp):
            for e in os.listdir(fp):
                if e.rsplit("-", 1)[0] in ("rustdht", "simshim", "simrt", "dhtsim"):
                    shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
    env = dict(os.environ, RUSTC_WRAPPER=os.path.join(SIM, "rustc-wrap.sh"), CARGO_TARGET_DIR=TARGET)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(k, None)
    for extra in ([], ["--release"]):
        r = subprocess.run(["cargo", "build", "--offline"] + extra, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-6000:])
            die("build failed")
    with open(STAMP, "w") as f:
        f.write(want)
    return bins


def stats(prop, prof):
    d = {}
    try:
        for l in open(os.path.join(OUT, "stats-%s-%s.txt" % (prop, prof))):
            k, _, v = l.rstrip("\n").partition(" ")
            try:
                d[k] = float(v)
                if d[k] == int(d[k]) and k not in ("units", "search_s"):
                    d[k] = int(d[k])
            except ValueError:
                d[k] = v
    except OSError:
        pass
    return d


def main():
    if len(sys.argv) != 2:
        die("usage: check.py PROP | --setup")
    prop = sys.argv[1]
    if prop == "--setup":
        build()
        return 0
    if prop not in RUNS:
        die("unknown property " + prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WALL:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED is not an integer")
    t0 = time.time()
    bins = build()
    build_s = time.time() - t0
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    code, lines, per, replay_info = 0, [], {}, None
    for prof, idx in (("dev", 0), ("release", 1)):
        for f in os.listdir(OUT):
            if f in ("stats-%s-%s.txt" % (prop, prof),) or f.startswith(("candidate-%s-%s-" % (prop, prof), "worker-%s-%s-" % (prop, prof))):
                os.remove(os.path.join(OUT, f))
        runs = RUNS[prop][idx] * FACTOR[tier]
        r = subprocess.run([bins[prof], "batch", prop, "--seed", str(seed), "--runs", str(runs), "--wall", str(WALL[tier]), "--out", OUT],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=WALL[tier] + 400, env=dict(os.environ, RUST_BACKTRACE="0"))
        per[prof] = stats(prop, prof)
        per[prof]["scenarios_requested"] = runs
        if r.returncode == 1:
            code = 1
            lines += [l for l in r.stdout.splitlines() if l.strip()]
            rp = [l.split("replay=", 1)[1] for l in lines if l.startswith("VIOLATION ")][-1]
            again = subprocess.run([bins[prof], "replay", rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            replay_info = {"file": rp, "profile": prof, "reproduced_in_fresh_process": again.returncode == 1,
                           "text": open(rp).read().splitlines()[:60]}
            break
        if r.returncode != 0:
            sys.stderr.write(r.stdout[-4000:])
            code = 2
            break
    samples = []
    for run in (0, 1):
        s = subprocess.run([bins["dev"], "show", prop, str(run), "--seed", str(seed)], stdout=subprocess.PIPE, text=True)
        samples.append({"seed": seed, "run": run, "scenario": s.stdout.splitlines()[:40]})

    def total(k):
        return sum(int(p.get(k, 0) or 0) for p in per.values())

    wall = time.time() - t0
    search = sum(float(p.get("search_s", 0) or 0) for p in per.values())
    cov = {
        "evaluations": total("scenarios"),
        "distinct_nontrivial": total("distinct_nontrivial"),
        "rule": RULES[prop] + " Distinct: counted per build profile by a hash of the resolved scenario (plans, operations, fault positions) and of the interleaving that was executed.",
        "samples": samples,
        "seeds": {"VERIF_SEED": seed, "scenario_seeds_per_hour": round(total("scenarios") / search * 3600) if search else 0,
                  "executions_per_hour": round(total("executions") / search * 3600) if search else 0},
        "simulated_executions": total("executions"),
        "solo_baseline_executions": total("solo_baselines"),
        "simulated_steps": total("steps"),
        "simulated_time_note": "the library reads no clock; simulated time is the number of scheduler steps (basic-block edges and synchronisation points executed)",
        "library_calls": total("calls"),
        "calls_returned": total("calls_returned"),
        "calls_panicked": total("calls_panicked"),
        "plan_constructions": total("plan_builds"),
        "faults_injected": {k: total(k) for k in FAULTS if total(k)},
        "runs_with_overlapping_calls": total("runs_with_two_or_more_callers_in_flight"),
        "reference_comparisons": total("reference_checks"),
        "inner_calls_observed": total("inner_calls_observed"),
        "blocking_waits_seen": total("futex_blocks"),
        "per_profile": {k: {x: v.get(x) for x in ("scenarios_requested", "scenarios", "distinct", "distinct_nontrivial", "edges_total", "edges_covered", "edges_preempted", "search_s", "workers", "skipped", "hangs", "skip_why")} for k, v in per.items()},
        "determinism_recheck": {"scenarios_executed_twice": total("repeated"), "differed": total("nondeterministic")},
        "worst_reference_error_units": max([float(p.get("units", 0) or 0) for p in per.values()] + [0.0]),
        "real_components": ["all of /repo/src (rustdht) built from the working tree, dev and release settings", "the transpose crate", "std (allocator calls, unwinding, Arc) ", "rustfft's FftNum/Length traits"],
        "stub_components": ["caller threads (real OS threads, run one at a time by the simulator's scheduler)", "global allocator (poison, reuse, failure)", "futex-based locks (simulated waits)", "number type SimNum in part of the runs", "probe wrappers and reference-model inner transforms in part of the runs"],
        "build_s": round(build_s, 1),
    }
    if replay_info:
        cov["violation"] = replay_info
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["a clean search is evidence, not proof: schedules, faults and inputs are sampled",
                          "interleavings are sequentially consistent and preempt at basic-block edges and synchronisation calls",
                          "edges inside pre-compiled std are not preemption points"],
          "wall_s": round(wall, 2), "violations": 1 if code == 1 else 0}
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for l in lines:
        print(l)
    if code == 0:
        print("%s held: %d scenarios, %d distinct non-trivial, %d calls, %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], cov["library_calls"], wall))
    return code


if __name__ == "__main__":
    sys.exit(main())
