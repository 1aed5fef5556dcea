#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | --replay FILE | --setup

Builds the simulator from /repo's working tree and searches seeded simulated
executions of m4rie for a violation of one property (see DESIGN.md).
Exit 0: none found.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
sys.dont_write_bytecode = True
import build as simbuild

# simulated runs of the quick tier (about 30 to 90 s on 8 idle cores); thorough runs until its wall limit
QUICK = dict(C01=3000, C02=3600, C03=3600, C04=4500, C05=12000, C06=16000, C07=14000, C08=16000, C09=6500,
             C10=6500, C11=6500, C12=9000, C13=7500, C14=2700, C15=5500, C16=14000, C17=16000, C18=14000, C20=9000)
QUICK_WALL, THOROUGH_WALL, THOROUGH_RUNS = 300, 1500, 10**8
FINDINGS = os.path.join(HERE, "known-findings.txt")

def open_findings(prop):
    out = []
    for l in open(FINDINGS):
        if l.startswith("open: property=%s " % prop):
            out.append(l[len("open: property=%s " % prop):].strip())
    return out

def exe():
    try:
        return simbuild.build()
    except (RuntimeError, OSError) as e:
        print("cannot build the simulator: %s" % e, file=sys.stderr)
        sys.exit(2)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        print(exe()); return 0
    if len(a) == 2 and a[0] == "--replay":
        return subprocess.call([exe(), "--replay", a[1]])
    if not a or a[0] not in QUICK:
        print(__doc__, file=sys.stderr); return 2
    prop = a[0]
    tier = a[2] if len(a) == 3 and a[1] == "--tier" else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= 0xffffffff
    t0 = time.time()
    e = exe()
    tb = time.time() - t0
    rd = os.path.join(HERE, "replays"); ed = os.path.join(HERE, "evidence")
    os.makedirs(rd, exist_ok=True); os.makedirs(ed, exist_ok=True)
    stats = os.path.join(HERE, ".build", "stats-%s-%d.json" % (prop, os.getpid()))
    runs, wall = (QUICK[prop], QUICK_WALL) if tier == "quick" else (THOROUGH_RUNS, THOROUGH_WALL)
    jobs = max(1, min(16, len(os.sched_getaffinity(0))))
    cmd = [e, "--prop", prop, "--runs", str(runs), "--wall", str(wall), "--jobs", str(jobs), "--seed", str(seed),
           "--out", stats, "--replaydir", rd, "--findings", FINDINGS]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True)
    sys.stdout.write(p.stdout)
    try:
        s = json.load(open(stats)); os.remove(stats)
    except (OSError, ValueError):
        print("the simulator gave no statistics (exit %d)" % p.returncode, file=sys.stderr); return 2
    samples = []
    for i in (0, 1, max(2, s["runs"] // 2)):
        q = subprocess.run([e, "--prop", prop, "--seed", str(seed), "--one", str(i), "-v"], stdout=subprocess.PIPE, text=True)
        txt = q.stdout.split("property ")
        samples.append({"index": i, "run": ("property " + txt[-1]).strip().split("\n")})
    w = max(s["wall_s"], 0.01)
    cov = {
        "evaluations": s["executions"],
        "distinct_nontrivial": s["distinct_histories"],
        "rule": "A run is one seed: it draws fields, shapes, windows, thread count, memory environment, cache-size knobs, an operation "
                "history of the property's profile and a fault plan (pre-emptions, abandonments, allocation failures, stream faults), and is "
                "executed from a fresh process image, some runs several times (fault-free or single-threaded twins). evaluations counts "
                "executions; distinct_nontrivial counts different hashes of the complete observed history (every call, result, fault and "
                "object state), so an execution which repeats an earlier history or performs no operation adds nothing; the count is a lower "
                "bound because hashes are recorded in a fixed-size bitmap.",
        "samples": samples,
        "simulated_runs": s["runs"], "operations": s["operations"], "oracle_checks": s["checks"],
        "runs_per_hour": int(s["runs"] / w * 3600), "seeds_per_hour": int(s["runs"] / w * 3600), "executions_per_hour": int(s["executions"] / w * 3600),
        "simulated_time": {"unit": "instrumented steps (basic blocks, loads and stores of m4rie); m4rie reads no clock, so the simulated clocks only move if a change makes it read them", "steps": s["steps"], "clock_ns": s["simulated_ns"]},
        "faults": s["faults"], "allocations": s["allocations"], "thread_switches": s["thread_switches"], "operations_on_windows": s["window_ops"],
        "distinct_interleavings": {"count": s["distinct_interleavings"], "measure": "hashes of the sequence of (thread, operation, step) at which control changed hands in an execution"},
        "code_reached": {"blocks": s["blocks_reached"], "of": s["blocks_total"], "measure": "instrumented basic blocks of /repo/src and the call layer"},
        "operation_kinds": s["op_kinds"],
        "stopped_outside_this_property": s["stopped_outside_scope"], "stopped_outside_by_kind": s["scoped_out_by_kind"],
        "determinism": {"runs_executed_twice": s["determinism_checked"], "different": s["determinism_failed"]},
        "unreproducible_candidates_dropped": s["unreproducible"],
        "components": {"real": ["all of /repo/src, compiled from the working tree", "libm4ri (installed static library, uninstrumented)", "libc string and stdio formatting"],
                       "stub": ["heap (arena with guard zones, recycling, dirty contents, failing allocations)", "threads (fibers under a seeded scheduler)",
                                "process stop (abort, exit, assert)", "random(3)/rand(3) and relatives", "clocks, sleeps, environment and system queries (m4rie makes none)", "mutexes (m4rie has none)", "output streams", "cache-size constants"]},
        "build_s": round(tb, 1), "jobs": s["jobs"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(time.time() - t0, 1)}
    tmp = os.path.join(ed, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(ed, prop + ".json"))
    for l in open_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, l))
    if p.returncode == 1 and "VIOLATION property=%s " % prop in p.stdout:
        return 1
    if p.returncode != 0:
        print("the simulator ended with status %d" % p.returncode, file=sys.stderr); return 2
    if s["determinism_failed"]:
        print("warning: %d runs were not repeatable" % s["determinism_failed"], file=sys.stderr)
    return 0

if __name__ == "__main__":
    r = main()
    sys.stdout.flush()
    sys.exit(r)
