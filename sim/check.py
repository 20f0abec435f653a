"""Decides one property by seeded simulation:  check.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: held in every run. Exit 1: a line "VIOLATION property=ID replay=FILE".
Exit 3: the simulator itself failed.
"""
import argparse
import importlib
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sim import build                                     # noqa: E402
from sim.core import subseed                              # noqa: E402

PYTHON = os.environ.get("KMCSIM_PYTHON", "/opt/venv/bin/python")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def worker_env(built, hashseed="0", perturb="0"):
    env = dict((k, v) for k, v in os.environ.items() if not k.startswith(("KMCSIM_", "LD_PRELOAD", "PYTHON")))
    env.update({"LD_PRELOAD": build.preload(built), "PYTHONHASHSEED": hashseed,
                "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MALLOC_PERTURB_": perturb,
                "MALLOC_ARENA_MAX": "1", "LC_ALL": "C.UTF-8", "TZ": "UTC",
                "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=1:allocator_may_return_null=1:quarantine_size_mb=32:max_allocation_size_mb=2000:"
                                "detect_stack_use_after_return=0:malloc_context_size=6",
                "UBSAN_OPTIONS": "abort_on_error=1:print_stacktrace=1"})
    return env


class Pool(object):

    def __init__(self, prop, built, n, scratch):
        self.n = n
        self.procs = []
        self.q = queue.Queue()
        self.lock = threading.Lock()
        self.args = (prop, built, scratch)
        self.threads = []
        self.stop = False
        for i in range(n):
            t = threading.Thread(target=self.serve, args=(i,), daemon=True)
            t.start()
            self.threads.append(t)

    def spawn(self, i):
        prop, built, scratch = self.args
        # The memory of a fresh allocation holds another pattern in every worker.
        p = subprocess.Popen([PYTHON, os.path.join(HERE, "worker.py"), prop, built, scratch],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=worker_env(built, "0", str(1 + 37 * i)), text=True)
        self.procs.append(p)
        return p

    def serve(self, i):
        p = None
        while True:
            item = self.q.get()
            if item is None:
                break
            req, done = item
            if self.stop:
                done(None)
                continue
            res = None
            for _ in range(2):
                try:
                    if p is None or p.poll() is not None:
                        p = self.spawn(i)
                    p.stdin.write(json.dumps(req) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                    if line:
                        res = json.loads(line)
                        break
                except (OSError, ValueError):
                    pass
                p = None
            done(res if res is not None else {"harness": "worker died"})
        if p is not None:
            try:
                p.stdin.close()
                p.wait(timeout=5)
            except Exception:
                p.kill()

    def map(self, reqs, on_result=None, deadline=None):
        """Results in the order of the requests; None where stopped or past the deadline."""
        out = [None] * len(reqs)
        left = [len(reqs)]
        ev = threading.Event()

        def cb(k):
            def done(res):
                with self.lock:
                    out[k] = res
                    left[0] -= 1
                    if on_result is not None and res is not None:
                        on_result(k, res)
                    if left[0] == 0:
                        ev.set()
            return done
        if not reqs:
            return out
        for k, r in enumerate(reqs):
            self.q.put((r, cb(k)))
        while not ev.wait(0.05):
            if deadline is not None and time.time() > deadline:
                self.stop = True
        self.stop = False
        return out

    def close(self):
        for _ in range(self.n):
            self.q.put(None)
        for t in self.threads:
            t.join(timeout=8)
        for p in self.procs:
            if p.poll() is None:
                p.kill()


def kinds(res):
    return [v[0] for v in (res or {}).get("violations") or []]


def minimise(mod, pool, sc, kind, seconds):
    """Greedy delta debugging on the concrete scenario, keeping the kind of violation."""
    end = time.time() + seconds
    tried = 0
    cache = set()
    best = sc
    improved = True
    while improved and time.time() < end and hasattr(mod, "shrink"):
        improved = False
        cands = []
        for c in mod.shrink(best):
            key = json.dumps(c, sort_keys=True)
            if key not in cache:
                cache.add(key)
                cands.append(c)
        for start in range(0, len(cands), pool.n):
            if time.time() > end:
                break
            batch = cands[start:start + pool.n]
            res = pool.map([{"sc": c, "timeout": 20.0} for c in batch], deadline=end + 10)
            tried += len(batch)
            hit = [c for c, r in zip(batch, res) if r and kind in kinds(r)]
            if hit:
                best = hit[0]
                improved = True
                break
    return best, tried


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 2))
    ap.add_argument("--digests", help="write the digest of every run to this file")
    args = ap.parse_args()
    prop = args.prop.upper()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = importlib.import_module("sim.props." + prop.lower())
    print("check %s tier=%s seed=%d" % (prop, tier, seed))
    sys.stdout.flush()
    try:
        built = build.build(getattr(mod, "VARIANT", "serial"))
    except build.BuildError as e:
        print("BUILD ERROR: " + str(e)[-3000:])
        return 3
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="kmcsim_%s_" % prop)
    pool = Pool(prop, built, args.jobs, scratch)
    try:
        if args.replay:
            return replay(args.replay, pool, prop, mod)
        return explore(args, mod, pool, prop, tier, seed, built, t0, t_build)
    finally:
        pool.close()
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path, pool, prop, mod):
    with open(path) as f:
        rep = json.load(f)
    agg = rep["scenario"].get("aggregate")
    if agg:
        # A statistic over a whole batch: all of its runs are repeated.
        res = pool.map([{"gen": [agg["tier"], agg["seed"], i], "timeout": 120.0} for i in range(agg["runs"])])
        msg = mod.aggregate(res, agg["tier"])
        print(msg)
        if msg:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if msg else 0
    a, b = pool.map([{"sc": rep["scenario"], "timeout": 120.0}] * 2)
    for r in (a, b):
        if r.get("timeout"):
            r["violations"] = [["hang", "no end after %.0f s" % r["timeout"]]]
        print(json.dumps({"violations": r.get("violations"), "digest": r.get("digest"), "harness": r.get("harness")}))
    if a.get("digest") != b.get("digest"):
        print("NOTE: the two replays recorded different histories")
    if a.get("violations"):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 3 if a.get("harness") else 0


def explore(args, mod, pool, prop, tier, seed, built, t0, t_build):
    total = args.runs or mod.RUNS[tier]
    timeout = getattr(mod, "TIMEOUT", {}).get(tier, 40.0)
    budget = {"quick": 330.0, "thorough": 3600.0 * 3}[tier]
    reqs = [{"gen": [tier, seed, i], "timeout": timeout} for i in range(total)]
    found = []

    def on_result(k, res):
        if res.get("violations") or res.get("timeout") or res.get("harness"):
            found.append(k)
            # One failing run is enough; let the others in flight finish.
            if len([x for x in found]) >= 1:
                pool.stop = True

    t1 = time.time()
    done = []
    results = [None] * total
    first = None
    chunk = max(pool.n * 4, total // 20)
    pos = 0
    while pos < total and time.time() - t1 < budget:
        part = reqs[pos:pos + chunk]
        out = pool.map(part, on_result, deadline=t1 + budget)
        for k, r in enumerate(out):
            if r is not None:
                results[pos + k] = r
                done.append(pos + k)
        pos += chunk
        if found:
            break
    # A run that does not end, or died for an outside reason, gets a second chance on its own.
    for k in sorted(done):
        r = results[k]
        if r.get("timeout"):
            again = pool.map([dict(reqs[k], timeout=timeout * 4)])[0]
            if again.get("timeout"):
                again["violations"] = [["hang", "the run does not end (more than %.0f s)" % again["timeout"]]]
            results[k] = again
        elif r.get("harness"):
            results[k] = pool.map([reqs[k]])[0]
    t_runs = time.time() - t1
    bad = [k for k in sorted(done) if results[k].get("violations")]
    broken = [k for k in sorted(done) if results[k].get("harness") and not results[k].get("violations")]
    if args.digests:
        with open(args.digests, "w") as f:
            for k in sorted(done):
                f.write("%d %s %s\n" % (k, results[k].get("digest"), kinds(results[k])))
    status, viol = 0, 0
    aggregate_violation = None
    if not bad and not broken and hasattr(mod, "aggregate"):
        aggregate_violation = mod.aggregate([results[k] for k in sorted(done)], tier)
    if bad:
        k = bad[0]
        r = results[k]
        kind, msg = r["violations"][0]
        print("run %d: %s: %s" % (k, kind, msg))
        sys.stdout.flush()
        sc, tried = minimise(mod, pool, r["sc"], kind, {"quick": 25.0, "thorough": 120.0}[tier])
        final = pool.map([{"sc": sc, "timeout": timeout * 4}])[0]
        if kind == "hang" and final.get("timeout"):
            final["violations"] = [["hang", "no end"]]
        if kind not in kinds(final):
            sc, final = r["sc"], r
        path = write_replay(prop, seed, k, sc, final["violations"], tried)
        print("minimised (%d candidates): %s" % (tried, final["violations"][0][1]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status, viol = 1, 1
    elif aggregate_violation:
        path = write_replay(prop, seed, -1, {"aggregate": {"tier": tier, "seed": seed, "runs": total}},
                            [["aggregate", aggregate_violation]], 0)
        print(aggregate_violation)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status, viol = 1, 1
    elif broken:
        print("HARNESS ERROR in run %d: %s" % (broken[0], results[broken[0]]["harness"]))
        status = 3
    elif len(done) < max(1, total // 4):
        print("ERROR: only %d of %d runs finished in time" % (len(done), total))
        status = 3
    ok = [results[k] for k in sorted(done) if results[k] and not results[k].get("harness")]
    known = {}
    for r in ok:
        for key, msg in (r.get("known") or {}).items():
            known.setdefault(key, msg)
    listed = known_findings(prop)
    for key, msg in sorted(known.items()):
        if key in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, listed[key]))
        else:
            print("unlisted finding %s: %s" % (key, msg))
            path = write_replay(prop, seed, -1, [r["sc"] for r in ok if key in (r.get("known") or {})][0], [[key, msg]], 0)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            status, viol = 1, 1
    evidence(mod, prop, tier, seed, ok, total, viol, t_runs, t_build, time.time() - t0, known)
    print("%s: %d runs, %d steps, %.1f s (build %.1f s)" % (prop, len(ok), sum(r.get("steps", 0) for r in ok), time.time() - t0, t_build))
    return status


def known_findings(prop):
    """Lines 'finding: property=ID key=KEY text' of the committed list ('fixed:' lines suppress nothing)."""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                w = line.strip().split(None, 3)
                if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
                    out[w[2][4:]] = w[3]
    except OSError:
        pass
    return out


def write_replay(prop, seed, k, sc, violations, tried):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_seed%d_run%d.json" % (prop, seed, k))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "run": k, "violations": violations,
                   "minimiser_candidates": tried, "scenario": sc,
                   "replay_cmd": "python3 sim/check.py %s --replay %s" % (prop, path)}, f, indent=1, sort_keys=True)
    return path


def evidence(mod, prop, tier, seed, ok, total, viol, t_runs, t_build, wall, known):
    counters, states = {}, set()
    digests = set()
    for r in ok:
        for k, v in (r.get("counters") or {}).items():
            counters[k] = counters.get(k, 0) + v
        states.update(r.get("states") or ())
        if r.get("nontrivial"):
            digests.add(r["digest"])
    faults = dict((k[6:], v) for k, v in counters.items() if k.startswith("fault:"))
    probes = dict((k, v) for k, v in counters.items() if not k.startswith("fault:"))
    samples = []
    for r in [x for x in ok if x.get("nontrivial")][:2]:
        s = json.dumps(r["sc"], sort_keys=True)
        samples.append({"scenario": s[:1500], "digest": r["digest"], "steps": r.get("steps"), "sim_time": r.get("sim_time")})
    cov = {"evaluations": len(ok), "distinct_nontrivial": len(digests), "rule": mod.RULE, "samples": samples or ["none"],
           "requested_runs": total, "runs_per_hour": round(len(ok) * 3600.0 / max(t_runs, 1e-3)),
           "seeds_per_hour": round(len(ok) * 3600.0 / max(t_runs, 1e-3)),
           "simulated_steps": sum(r.get("steps", 0) for r in ok),
           "simulated_time": sum(r.get("sim_time", 0.0) for r in ok),
           "faults_injected": faults, "probes": probes, "distinct_states": len(states),
           "distinct_states_measure": mod.STATES, "components_real": mod.REAL, "components_stubbed": mod.STUBS,
           "known_findings_met": sorted(known), "seconds_running": round(t_runs, 2), "seconds_building": round(t_build, 2)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": viol}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
