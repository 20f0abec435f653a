"""C11: the built-in analyses equal their definition, evaluated directly on the recorded history."""
import copy
import io
import math

from sim import world
from sim.history import Run
from sim.props import common
from sim.props.c04 import Atoms
from sim.props.common import REAL, STUBS, ASSUMPTIONS          # noqa: F401
from sim.session import Session, close, gen_clock, rng_setup

ID = "C11"
RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("A run is one random system followed by the reference model, and repeated with the same random numbers and all built-in "
        "analyses with random parameters attached, some of them to several calls of run(); their results and printed tables are compared with direct evaluations on the "
        "history of the reference. Non-trivial: at least 10 registered steps.")
STATES = "results of the analyses, by hash"


def gen(rng, tier, index):
    bucket = rng.random() < 0.15
    prof = world.Profile(bucket=bucket, noise=2e-12, max_sites=rng.choice([8, 20, 60]), reversible=0.95, swaps=0.6, rings=0.15,
                         calc=rng.random() < 0.15, nonper=0.15, wild=0.15)
    spec = world.gen_spec(rng, prof)
    calls = []
    for n in range(rng.choice([1, 1, 1, 2, 3])):
        calls.append({
            # An earlier call whose analyses are used again.
            "reuse": rng.randrange(n) if n > 0 and rng.random() < 0.5 else None,
            "steps": rng.choice([0, 1, 5, 30, 100, 200]) if rng.random() < 0.4 else rng.randint(5, 120),
            "every": rng.choice([1, 1, 1, 2, 5]),
            # In units of the mean time step.
            "tsd": [rng.choice([None, 0.1, 0.5, 1.0, 4.0]) for _ in range(rng.choice([0, 1, 1, 2]))],
            "comp": [rng.choice([None, 0.5, 2.0, 10.0, 40.0]) for _ in range(rng.choice([0, 1, 1, 2]))],
            "stat": [{"procs": sorted(rng.sample(range(len(spec["procs"])), rng.randint(1, len(spec["procs"])))),
                      "dt": rng.choice([None, 0.5, 2.0, 9.0]), "spatial": rng.choice([True, False, None])}
                     for _ in range(rng.choice([0, 1, 1, 2]))],
            "msd": [] if bucket else [{"history": rng.choice([None, 2, 3, 5, 20]), "bins": rng.choice([None, 5, 20, 100]),
                                       "tmax": rng.choice([None, 3.0, 20.0, 100.0]), "type": rng.choice(spec["possible"])}
                                      for _ in range(rng.choice([0, 1, 2]))]})
    return {"spec": spec, "calls": calls, "rng": {"tail": rng.choice(["sim", "sim", "sim", "biased"]), "state": rng.getrandbits(63)},
            "clock": gen_clock(rng)}


def execute(sc, ctx):
    spec = sc["spec"]
    rng_setup(ctx, sc)
    ses = Session(ctx, spec)
    ref = ses.ref
    atoms = None if spec["bucket"] else Atoms(ref, spec)
    # History: time, state, event, moved atoms, atom types and positions after it.
    hist = [(0.0, ses.state, None, (), None if atoms is None else (list(atoms.type), [tuple(c) for c in atoms.coord]))]

    def keep(step, time, cfg):
        p, s = ses.follow()
        moved, snap = (), None
        if atoms is not None:
            moved = sorted(atoms.perform(p, s))
            snap = (list(atoms.type), [tuple(c) for c in atoms.coord])
        hist.append((time, ses.state, (p, s), moved, snap))

    if ses.run(sum(c["steps"] for c in sc["calls"]), keep) == "end" and len(hist) == 1:
        return
    mean = hist[-1][0] / max(1, len(hist) - 1) or 1.0
    rng_setup(ctx, sc)
    run = Run(ctx, spec)
    at = 0
    used = []
    for n, c in enumerate(sc["calls"]):
        if at == len(hist) - 1 and at > 0:
            break
        from KMCLib.Analysis.TimeStepDistribution import TimeStepDistribution
        from KMCLib.Analysis.Composition import Composition
        from KMCLib.Analysis.ProcessStatistics import ProcessStatistics
        from KMCLib.Analysis.OnTheFlyMSD import OnTheFlyMSD
        part = hist[at:at + c["steps"] + 1]
        seen = [(i, h) for i, h in enumerate(part) if i > 0 and i % c["every"] == 0]
        tsd, comp, stat, msd = [], [], [], []
        again = [] if c.get("reuse") is None or c["reuse"] >= len(used) else used[c["reuse"]]
        longest = max([b[0] - a[0] for a, b in zip(part, part[1:])] + [0.0]) * c["every"]
        for x in c["tsd"]:
            size = None if x is None else x * mean
            if longest / (size or 1.0) > 2e4:
                size = longest / 1e3
            tsd.append((size or 1.0, [], TimeStepDistribution(binsize=size) if size else TimeStepDistribution()))
        for x in c["comp"]:
            dt = None if x is None else x * mean
            comp.append((dt or 1.0, [], Composition(time_interval=dt) if dt else Composition()))
        for x in c["stat"]:
            dt = None if x["dt"] is None else x["dt"] * mean
            kw = {} if x["spatial"] is None else {"spatially_resolved": x["spatial"]}
            stat.append((dt or 1.0, x, [], ProcessStatistics(processes=list(x["procs"]), time_interval=dt, **kw)))
        for x in c["msd"]:
            tmax = None if x["tmax"] is None else x["tmax"] * mean
            msd.append((tmax or 100.0, x, OnTheFlyMSD(history_steps=x["history"], n_bins=x["bins"], t_max=tmax, track_type=x["type"])))
        if again:
            for mine, old in zip((tsd, comp, stat, msd), again):
                # The histogram of time steps grows by bins.
                mine += [e for e in old if old is not again[0] or longest / e[0] <= 2e4]
            ctx.count("reused")
        used.append((tsd, comp, stat, msd))
        run.run(c["steps"], analysis=[e[-1] for e in tsd + comp + stat + msd], analysis_interval=c["every"], what="call %d" % n)
        what = "call %d: " % n
        for size, parts, a in tsd:
            parts.append((part, seen))
            check_tsd(ctx, what, size, a, parts)
        for dt, parts, a in comp:
            parts.append((part, seen))
            check_comp(ctx, what, dt, a, parts, spec, run.config)
        for dt, x, parts, a in stat:
            parts.append((part, seen))
            check_stat(ctx, what, dt, x, a, parts)
        for tmax, x, a in msd:
            check_msd(ctx, what, tmax, x, a, part, seen, spec)
        at += len(part) - 1
        ctx.steps += len(part) - 1
        ctx.nontrivial = ctx.nontrivial or len(seen) >= 10
    ctx.sim_time = hist[-1][0]


def table(ctx, what, a):
    out = io.StringIO()
    ctx.sut("printing", a.printResults, out)
    return [line.split() for line in out.getvalue().splitlines()]


def same(ctx, kind, what, have, want, rel=1e-9, tiny=1e-12):
    have = [float(x) for x in have]
    ctx.require(len(have) == len(want), kind, "%s%d values instead of %d", what, len(have), len(want))
    for i, (x, y) in enumerate(zip(have, want)):
        ctx.require(close(x, y, rel, tiny), kind, "%svalue %d is %r instead of %r", what, i, x, y)


def check_tsd(ctx, what, size, a, parts):
    # Given to several runs, the time steps of all of them.
    bins = {}
    for part, seen in parts:
        last = part[0][0]
        for _, h in seen:
            b = int((h[0] - last) / size)
            last = h[0]
            bins[b] = bins.get(b, 0) + 1
    seen = range(sum(bins.values()))
    have = [int(x) for x in a.histogram()]
    ctx.require(len(have) >= 10 and len(have) > max(bins or [0]), "time-steps", "%sthe histogram has %d bins", what, len(have))
    for b, x in enumerate(have):
        ctx.require(x == bins.get(b, 0), "time-steps", "%sbin %d of size %g holds %d time steps instead of %d", what, b, size, x, bins.get(b, 0))
    same(ctx, "time-steps", what + "times: ", a.timeSteps(), [(b + 0.5) * size for b in range(len(have))])
    if seen:
        same(ctx, "time-steps", what + "normalised: ", a.normalizedHistogram(), [x / float(len(seen)) for x in have])
        rows = table(ctx, what, a)
        ctx.require(len(rows) == len(have), "time-steps", "%s%d lines printed for %d bins", what, len(rows), len(have))
        for b, row in enumerate(rows):
            ctx.require(abs(float(row[0]) - (b + 0.5) * size) <= 1e-5 + 1e-9 * (b + 0.5) * size and int(row[1]) == have[b]
                        and abs(float(row[2]) - have[b] / float(len(seen))) <= 1e-12, "time-steps", "%sprinted %s for bin %d", what, row, b)
    ctx.state("tsd", have)
    ctx.event(have)
    ctx.count("time_step_distributions")


def check_comp(ctx, what, dt, a, parts, spec, config):
    names = list(config._backendTypeNames())
    ctx.require(sorted(names) == sorted(["*"] + spec["possible"]), "composition", "%stypes %s", what, names)

    def count(state):
        return [0] + [sum(s[spec["possible"].index(t)] for s in state) for t in names[1:]]
    # Given to several runs, the blocks finished in each of them.
    blocks = []
    for part, seen in parts:
        total, n, last = count(part[0][1]), 1, part[0][0]
        for _, h in seen:
            if h[0] - last > dt:
                blocks.append([x / float(n) for x in total])
                total, n, last = [0] * len(names), 0, h[0]
            total = [x + y for x, y in zip(total, count(h[1]))]
            n += 1
    have = a.data()
    ctx.require(len(have) == len(blocks), "composition", "%s%d blocks instead of %d", what, len(have), len(blocks))
    for i, (x, y) in enumerate(zip(have, blocks)):
        # The first entry is the wildcard.
        same(ctx, "composition", "%sblock %d of types %s: " % (what, i, names[1:]), list(x)[1:], y[1:])
    same(ctx, "composition", what + "times: ", a.times(), [(i + 0.5) * dt for i in range(len(blocks))])
    out = io.StringIO()
    ctx.sut("printing", a.printResults, out)
    rows = out.getvalue().splitlines()
    ctx.require(len(rows) == len(blocks) + 1, "composition", "%s%d lines printed", what, len(rows))
    for i, row in enumerate(rows[1:]):
        same(ctx, "composition", "%sprinted block %d: " % (what, i), row.split(), [(i + 0.5) * dt] + blocks[i][1:], 6e-4)
    ctx.state("comp", blocks)
    ctx.event(blocks)
    ctx.count("compositions")


def check_stat(ctx, what, dt, x, a, parts):
    # Given to several runs, a block left open goes on in the next one; the events per site are those of the last run.
    blocks, n = [], 0
    for part, seen in parts:
        last = part[0][0]
        sites = [0.0] * len(part[0][1])
        for _, h in seen:
            if h[0] - last > dt:
                blocks.append(n)
                n, last = 0, h[0]
            if h[2][0] in x["procs"]:
                n += 1
                sites[h[2][1]] += 1.0
    rows = table(ctx, what, a)
    # The columns of the first line are fixed; the first block is printed with the second.
    ctx.require(len(rows) - 1 == max(0, len(blocks) - 1), "statistics", "%s%d lines printed for %d blocks", what, len(rows) - 1, len(blocks))
    for i, row in enumerate(rows[1:]):
        i += 1
        total = sum(blocks[:i + 1])
        want = [i * dt, total, blocks[i] / dt, total / (i * dt)]
        for v, w in zip(row, want):
            ctx.require(abs(float(v) - w) <= 1e-5 + 1e-9 * abs(w), "statistics", "%sblock %d: printed %s instead of %s", what, i, row, want)
    if x["spatial"] and last > 0.0:
        same(ctx, "statistics", what + "events per site: ", a.spatialData(), [s / last for s in sites])
    if not x["spatial"]:
        ctx.require(a.spatialData() is None, "statistics", "%sthere is spatial data", what)
    ctx.state("stat", blocks, sites)
    ctx.event(blocks, sites)
    ctx.count("process_statistics")


def check_msd(ctx, what, tmax, x, a, part, seen, spec):
    bins = x["bins"] or 100
    steps = x["history"] or 5
    size = tmax / bins
    cell = spec["cell"]
    types, coords = part[0][4]
    history = dict((i, [(coords[i], part[0][0])] if types[i] == x["type"] else []) for i in range(len(types)))
    hist = [[0.0] * 3 for _ in range(bins)]
    counts = [0] * bins
    per_step = [[0] * bins for _ in range(max(0, steps - 1))]
    hsteps = [0] * steps
    tie = False
    for _, h in seen:
        types, coords = h[4]
        for i in h[3]:
            if types[i] != x["type"]:
                continue
            history[i].insert(0, (coords[i], h[0]))
            del history[i][steps:]
            for j in range(1, len(history[i])):
                hsteps[j - 1] += 1
                dt = h[0] - history[i][j][1]
                q = dt / size
                if q > 0.5 and abs(q - round(q)) < 1e-9 * q:
                    tie = True
                b = int(q)
                if b < bins:
                    d = [history[i][j][0][k] - coords[i][k] for k in range(3)]
                    for k in range(3):
                        v = sum(d[m] * cell[m][k] for m in range(3))
                        hist[b][k] += v * v
                    counts[b] += 1
                    per_step[j - 1][b] += 1
    if tie:
        ctx.count("ties_skipped")
        return
    have = [int(v) for v in a.binCounters()]
    ctx.require(have == counts, "msd", "%s%s: the bins hold %s values instead of %s", what, x, have, counts)
    columns = [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]
    results = [[sum(hist[b][k] for k in col) / max(1, counts[b]) for b in range(bins)] for col in columns]
    got = a.results()
    ctx.require(len(got) == 7, "msd", "%s%d results", what, len(got))
    for c in range(7):
        same(ctx, "msd", "%s%s: result %d: " % (what, x, c), got[c], results[c], 1e-8, 1e-11)
    same(ctx, "msd", what + "times: ", a.timeSteps(), [(b + 0.5) * size for b in range(bins)])
    neff = [sum((j + 1.0) * per_step[j][b] / counts[b] for j in range(len(per_step))) if counts[b] else 0.0 for b in range(bins)]
    std = [[0.0] * bins for _ in range(7)]
    # Where the next whole number is up to rounding.
    whole = [n > 1e-12 and abs(n - round(n)) < 1e-9 and len([1 for r in per_step if r[b]]) > 1 for b, n in enumerate(neff)]
    for b in range(bins):
        n1 = neff[b]
        if n1 > 1e-12 and int(n1 + 1.0) < steps:
            k1 = hsteps[int(n1 + 1.0)]
            if k1 > 0:
                if n1 <= k1:
                    f = math.sqrt(2.0) * math.sqrt((4 * n1 ** 2 * k1 + 2 * k1 + n1 - n1 ** 3) / (n1 * 6 * k1 ** 2))
                else:
                    f = math.sqrt(2.0) * math.sqrt(1 + (k1 ** 3 - 4 * n1 * k1 ** 2 + 4 * n1 - k1) / (6 * n1 ** 2 * k1))
                for c in range(7):
                    std[c][b] = results[c][b] * f * (1.0, 1.0, 1.0, math.sqrt(0.5), math.sqrt(0.5), math.sqrt(0.5), math.sqrt(1.0 / 3.0))[c]
    got = a.stdDev()
    for c in range(7):
        same(ctx, "msd", "%s%s: standard deviation %d: " % (what, x, c), [0.0 if w else v for v, w in zip(got[c], whole)],
             [0.0 if w else v for v, w in zip(std[c], whole)], 1e-7, 1e-10)
    last = per_step[-1]
    over = [b for b in range(bins) if last[b] > 0.01 * max(last)]
    cut = over[0] if over else bins
    ctx.require(a.safeCutoff() == cut, "msd", "%s%s: the safe cutoff is %r instead of %d", what, x, a.safeCutoff(), cut)
    rows = table(ctx, what, a)
    ctx.require(len(rows) == cut + 1, "msd", "%s%d lines printed instead of %d", what, len(rows), cut + 1)
    for b, row in enumerate(rows[1:]):
        if not whole[b]:
            same(ctx, "msd", "%sprinted bin %d: " % (what, b), row, [(b + 0.5) * size] + [results[c][b] for c in range(7)]
                 + [std[c][b] for c in range(7)] + [neff[b]], 2e-5, 1e-9)
    ctx.state("msd", counts)
    ctx.event(counts, ["%.7g" % v for v in results[6]])
    ctx.count("msds")
    ctx.count("msd_values", sum(counts))


def shrink(sc):
    for i in range(len(sc["calls"])):
        if len(sc["calls"]) > 1:
            c = copy.deepcopy(sc)
            del c["calls"][i]
            for later in c["calls"][i:]:
                m = later.get("reuse")
                later["reuse"] = None if m is None or m == i else m - (m > i)
            yield c
        if sc["calls"][i].get("reuse") is not None:
            c = copy.deepcopy(sc)
            c["calls"][i]["reuse"] = None
            yield c
        for m in sorted(set([1, sc["calls"][i]["steps"] // 2, sc["calls"][i]["steps"] - 1])):
            if 0 <= m < sc["calls"][i]["steps"]:
                c = copy.deepcopy(sc)
                c["calls"][i]["steps"] = m
                yield c
        for k in ("tsd", "comp", "stat", "msd"):
            for j in range(len(sc["calls"][i][k])):
                c = copy.deepcopy(sc)
                del c["calls"][i][k][j]
                yield c
    for c in common.shrink(sc):
        # The processes are referred to by number.
        if len(c["spec"]["procs"]) == len(sc["spec"]["procs"]):
            yield c
