"""C03: events are drawn with probabilities proportional to their rates, times are exponential."""
import math

from sim import world
from sim.props.common import REAL, STUBS, ASSUMPTIONS, shrink          # noqa: F401
from sim.session import Session, gen_clock, rng_setup

ID = "C03"
RUNS = {"quick": 1600, "thorough": 30000}
RULE = ("A run is one random system advanced with simulated random numbers. Every time step is compared with -ln(u)/R for the "
        "draws of that step; at sampled states the draws that select the process and the site are swept over a grid and the "
        "measure of each outcome is compared with its share of the rate; over all runs the chosen events, sites and times give "
        "martingale z-scores (|z| < 6). Non-trivial: at least 5 steps with two or more available events of different rate.")
STATES = "sets of available events with their rates, by hash"


def gen(rng, tier, index):
    prof = world.Profile(max_sites=rng.choice([12, 30, 60, 100]), max_procs=6, calc=rng.random() < 0.6,
                         rate_spread=rng.choice([1.0, 3.0]), min_procs=2,
                         calc_modes=("env", "process", "global", "global", "wide"))
    spec = world.gen_spec(rng, prof)
    tail = rng.choice(["real", "real", "sim", "sim", "biased"])
    return {"spec": spec, "steps": rng.randint(10, 60), "rng": {"tail": tail, "state": rng.getrandbits(63)},
            "clock": gen_clock(rng), "seed": rng.randint(1, 10 ** 6), "probe": sorted(rng.sample(range(0, 60), 2)),
            "rng_type": rng.choice(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"])}


def execute(sc, ctx):
    spec = sc["spec"]
    rng_setup(ctx, sc)
    ses = Session(ctx, spec)
    ctx.sut("setting up the backend", ses.model._backend)
    fair = sc["rng"]["tail"] in ("real", "sim")
    varied = [0]
    prev = {}

    def look():
        listed = ses.listed()
        prev["rates"] = dict((k, ses.avail[k]) for k in listed if k in ses.avail)
        prev["total"] = math.fsum(prev["rates"].values())
        prev["draws"] = ctx.rng.count()

    def step(step_, time, configuration):
        draws = ctx.rng.log(prev["draws"])
        rates, total = prev["rates"], prev["total"]
        p, s = ses.follow()
        dt = time - ses.time
        ctx.require((p, s) in rates, "unlisted", "process %d at site %d was chosen but not listed", p, s)
        ctx.require(dt >= 0.0 and dt == dt and dt < 1e300, "time", "time step %r in step %d", dt, step_)
        slack = 64 * 2.3e-16 * abs(time)
        ok = False
        for u in draws:
            for v in (u, 1.0 - u):
                if 0.0 < v <= 1.0:
                    x = -math.log(v) / total
                    if abs(dt - x) <= 1e-9 * x + slack:
                        ok = True
        ctx.require(ok, "time-step", "the time step %r of step %d is not -ln(u)/R for any draw of the step %s and R=%r",
                    dt, step_, draws[:4], total)
        if len(rates) > 1 and len(set(rates.values())) > 1:
            varied[0] += 1
        if fair:
            statistics(rates, total, p, s, dt)
        ses.time = time
        ctx.sim_time = time
        ctx.state(sorted((k, round(r, 9)) for k, r in rates.items()))
        if step_ in sc["probe"]:
            probe("after step %d: " % step_)
        look()

    def score(name, x, mean, var, lo=0.0, hi=1.0):
        # Not where a single rare choice would outweigh thousands of steps.
        if var > 1e-12 * max(1.0, mean * mean) and lo is not None and max(abs(lo - mean), abs(hi - mean)) > 12.0 * math.sqrt(var):
            return
        if var > 1e-12 * max(1.0, mean * mean):
            ctx.count("z_" + name, (x - mean) / math.sqrt(var))
            ctx.count("n_" + name)

    def statistics(rates, total, p, s, dt):
        x = dt * total
        if x < 40.0:
            score("time", x, 1.0, 1.0, None)
            score("time2", min(x * x, 400.0), 2.0, 20.0, None)
            score("short", 1.0 if x < 0.1 else 0.0, 1.0 - math.exp(-0.1), math.exp(-0.1) * (1.0 - math.exp(-0.1)))
            if "x" in prev:
                score("time_pairs", (x - 1.0) * (prev["x"] - 1.0), 0.0, 1.0, None)
            prev["x"] = x
        # The chosen process.
        per = {}
        for (q, _), r in rates.items():
            per[q] = per.get(q, 0.0) + r
        big = max(per, key=lambda q: (per[q], -q))
        a = per[big] / total
        score("process_big", 1.0 if p == big else 0.0, a, a * (1.0 - a))
        low = min(per)
        a = per[low] / total
        score("process_first", 1.0 if p == low else 0.0, a, a * (1.0 - a))
        if len(per) > 1:
            a = per[max(per)] / total
            score("process_last", 1.0 if p == max(per) else 0.0, a, a * (1.0 - a))
        # The chosen site of that process: by rate, by position.
        mine = sorted((t, r) for (q, t), r in rates.items() if q == p)
        tot = math.fsum(r for _, r in mine)
        if len(mine) > 1:
            m = math.fsum(r * r for _, r in mine) / tot
            mine_lo, mine_hi = min(r for _, r in mine), max(r for _, r in mine)
            v = math.fsum(r ** 3 for _, r in mine) / tot - m * m
            score("site_rate", rates[(p, s)], m, v, mine_lo, mine_hi)
            half = mine[len(mine) // 2][0]
            a = math.fsum(r for t, r in mine if t >= half) / tot
            score("site_half", 1.0 if s >= half else 0.0, a, a * (1.0 - a))
            order = [t for (q, t) in prev["rates"] if q == p]
            for nm, t in (("site_first", order[0]), ("site_last", order[-1])):
                a = rates[(p, t)] / tot
                score(nm, 1.0 if s == t else 0.0, a, a * (1.0 - a))

    def sweep(pick, weights, what):
        """The measure of every outcome of a single draw is its share of the weights."""
        total = math.fsum(weights.values())
        m = len(weights)
        for n, tol in ((32 * m + 7, 2.5), (400 * m + 13, m + 2.5)):
            counts = {}
            ctx.rng.script([(i + 0.5) / n for i in range(n)])
            for i in range(n):
                left = ctx.rng.script_left()
                k = pick()
                if ctx.rng.script_left() != left - 1:
                    ctx.count("sweep_skipped")
                    ctx.rng.script([])
                    return
                ctx.require(k in weights, "bad-choice", "%sdraw %r selects %s, which is not available", what, (i + 0.5) / n, k)
                counts[k] = counts.get(k, 0) + 1
            bad = [(abs(counts.get(k, 0) - n * w / total), k) for k, w in weights.items()]
            worst, k = max(bad)
            if worst <= tol:
                ctx.count("sweeps")
                break
        else:
            ctx.violate("measure", "%s%s has the share %.6g of the rate, but is selected by %.6g of the draws" % (
                what, k, weights[k] / total, counts.get(k, 0) / float(n)))
        for u in (0.0, 2.0 ** -32, 1.0 - 2.0 ** -32, 1.0 - 2.0 ** -53):
            ctx.rng.script([u])
            k = pick()
            ctx.require(k in weights, "bad-choice", "%sdraw %r selects %s, which is not available", what, u, k)
            ctx.count("fault:boundary_draws")
        ctx.rng.script([])

    def probe(what):
        listed = ses.listed()
        if len(listed) < 2:
            return
        mode, state, script = ctx.rng.tail_mode(), ctx.rng.tail_state(), ctx.rng.script_left()
        inter = ses.inter()
        procs = list(inter.processes())
        per = {}
        for k in listed:
            if k not in ses.avail:
                return
            per.setdefault(k[0], {})[k[1]] = ses.avail[k]
        ctx.rng.tail(3)
        try:
            sweep(lambda: int(inter.pickProcessIndex()), dict((p, math.fsum(w.values())) for p, w in per.items()),
                  what + "processes: ")
            for p, w in sorted(per.items())[:3]:
                if len(w) > 1:
                    procs[p].updateRateTable()
                    sweep(lambda: int(procs[p].pickSite()), w, what + "sites of process %d: " % p)
        finally:
            ctx.rng.script([])
            ctx.rng.tail({0: 0, 1: 1, 2: 2, 3: 3}[mode], state)

    look()
    if 0 in sc["probe"]:
        probe("initially: ")
        look()
    how = ses.run(sc["steps"], step, seed=sc["seed"], rng_type=sc["rng_type"])
    ctx.count(how)
    ctx.nontrivial = varied[0] >= 5


def aggregate(results, tier):
    z, n = {}, {}
    for r in results:
        for k, v in r["counters"].items():
            if k.startswith("z_"):
                z[k[2:]] = z.get(k[2:], 0.0) + v
            elif k.startswith("n_"):
                n[k[2:]] = n.get(k[2:], 0) + v
    for k in sorted(n):
        if n[k] > 500:
            s = z.get(k, 0.0) / math.sqrt(n[k])
            if abs(s) > 6.0:
                return "statistic %s over %d steps is off by %.1f standard deviations" % (k, n[k], s)
    return None
