"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "C01": "Seeded search over systems, random sources (boundary draws injected) and split runs; each event replayed on an independent reference model.",
    "C02": "Seeded search; after every step the whole event list and all rates are compared with a from-scratch match of an independent reference. Known finding: edge-wildcards.",
    "C03": "Per-step equation for time, sweeps of the selecting draws over a grid and injected boundary draws, martingale z-tests over all runs (6 sigma).",
    "C04": "Seeded search; after every event all atom ids, types, positions and sites are compared with a reference.",
    "C05": "Draws compared with independently implemented streams; histories compared between processes with other hash seeds, clocks, memory patterns and observers.",
    "C06": "Ranks are real processes over a simulated MPI library whose scheduler decides every interleaving; deadlock and mismatched collectives are detected exactly.",
    "C07": "Every call of the calculator checked against the reference; cached and uncached runs of the same draws compared.",
    "C08": "Exceptions and signals injected at sampled points of plugins, breakers, calculator, output, draws and writes; then continuation checked.",
    "C09": "Disk faults, clock jumps and crashes at sampled bytes injected under real files; contents parsed and compared with the frames due.",
    "C10": "Seeded search over intervals, breakers and scripted time steps; the calls and frames are compared with the documented schedule.",
    "C11": "Seeded search; reports compared with a direct evaluation on the recorded history.",
    "C12": "Split and continuous runs of the same scripted draws compared in every observable.",
    "C13": "Scripts written at sampled points of a history, cut at sampled bytes, read back and continued under the same draws.",
    "C14": "Several models interleaved by a seeded scheduler in one process, each compared with its run alone.",
    "C15": "One thing repeated (blocks of steps, runs, failed runs, models, queries) with all C++ allocations, Python objects and open files counted after each repetition.",
    "C16": "Malformed arguments of every public call injected at sampled points of a history; the history, the arguments and the objects compared with the same history without them.",
    "C17": "Histories of the other properties and systems that make no sense, executed in a build with address and undefined-behaviour sanitizers and checked containers as oracle.",
}
checks = []
for p in sorted(NOTE):
    if not os.path.exists(os.path.join(VERIF, "sim", "props", p.lower() + ".py")):
        continue
    checks.append({"property": p,
                   "quick_cmd": "python3 sim/check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 sim/check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "deterministic simulation with fault injection, seeded search against a reference model",
                   "level": "exploration",
                   "level_note": NOTE[p] + " Sampling, not proof; trusts the reference model, the compiler and CPython."})
done = set(c["property"] for c in checks)
na = []
with open(os.path.join(VERIF, "properties.jsonl")) as f:
    for line in f:
        q = json.loads(line)
        if q["id"] not in done:
            na.append({"property": q["id"], "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "python3 sim/build.py serial" + (" mpi" if "C06" in done else ""),
     "hooks": {"guard": "KMCSIM", "enable": "no hooks are in /repo: sim/build.py compiles /repo's working tree and links the seams "
               "(-Wl,--wrap of the uniform random source, LD_PRELOAD of the clock and file calls, a simulated mpi.h)", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Replay: python3 sim/check.py ID --replay FILE."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
