"""C06: parallel runs equal serial runs under every schedule."""
import copy
import io
import os
import re
import sys

from sim import mpi, trajfile, world
from sim import ref as refmod
from sim.core import HarnessError, Stop, Violation
from sim.history import Run
from sim.props import common
from sim.props.common import ASSUMPTIONS          # noqa: F401
from sim.session import close, gen_clock, is_end, rng_setup

ID = "C06"
VARIANT = "mpi"
RUNS = {"quick": 900, "thorough": 30000}
RULE = ("A run is one random system simulated by 1-7 processes in lockstep with a simulated MPI library: a seeded schedule (random, "
        "round robin, one process stalled or ahead, random priorities) decides which process goes on after a collective call, sums "
        "are formed in a random order, and the clocks of the processes are skewed, jump and tick differently. Every process is "
        "compared with the run on one process, and that one with the reference model. Non-trivial: at least 2 processes and 5 steps.")
STATES = "interleavings: orders in which the processes ran between collective calls, by hash"
REAL = ["all C++ of the backend, compiled with RUNMPI, and all Python of KMCLib from the working tree of /repo, in one process per rank"]
STUBS = common.STUBS + ["the MPI library (collective calls matched and scheduled by the simulator)"]
KINDS = ["random", "random", "round", "stall", "ahead", "priority", "priority"]


class Failure(Exception):
    """The injected failure of a plugin."""


def gen(rng, tier, index):
    prof = world.Profile(max_sites=rng.choice([8, 20, 60, 150]), calc=rng.random() < 0.5, reversible=0.97)
    spec = world.gen_spec(rng, prof)
    size = rng.choice([1, 2, 2, 2, 3, 3, 4, 5, 7]) if rng.random() < 0.96 else rng.choice([8, 11, 16, 24])
    calls = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        n = rng.choice([0, 1, 5, 10, 20, 40])
        calls.append({
            "steps": n, "seed": rng.choice([None, rng.randint(1, 2 ** 31 - 1), rng.randint(1, 9)]),
            "dump": rng.choice([1, 1, 2, 7]), "dump_time": rng.choice([None, None, None, 0.3, 2.0]),
            "traj": rng.choice([None, "lattice", "xyz"] if not spec["bucket"] else [None, "lattice"]),
            "every": rng.choice([1, 1, 3]),
            "analyses": rng.random() < 0.4,
            "breaker": rng.choice([None, None, None, rng.randint(1, 20)]),
            "fail": rng.choice([None] * 6 + [rng.randint(1, 20)])})
    base = gen_clock(rng)
    clocks = []
    for r in range(size):
        if rng.random() < 0.4:
            c = dict(base)
        else:
            c = gen_clock(rng)
        if rng.random() < 0.5:
            c["now"] = max(0.0, c["now"] + rng.choice([-2000.0, -3.0, 0.4, 1.0, 1500.0, 86400.0]))
        clocks.append(c)
    tail = rng.choice(["real", "real", "real", "sim", "biased"])
    return {"spec": spec, "size": size, "calls": calls, "clocks": clocks, "type": rng.choice(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"]),
            "rng": {"tail": tail, "state": rng.getrandbits(63)},
            "schedule": {"kind": rng.choice(KINDS), "rank": rng.randrange(size), "seed": rng.getrandbits(40)}}


def analyses(spec, mean):
    from KMCLib.Analysis.TimeStepDistribution import TimeStepDistribution
    from KMCLib.Analysis.Composition import Composition
    from KMCLib.Analysis.ProcessStatistics import ProcessStatistics
    from KMCLib.Analysis.OnTheFlyMSD import OnTheFlyMSD
    out = [TimeStepDistribution(binsize=mean), Composition(time_interval=2 * mean), ProcessStatistics(processes=[0], time_interval=2 * mean)]
    if not spec["bucket"]:
        out.append(OnTheFlyMSD(history_steps=3, n_bins=5, t_max=10 * mean, track_type=spec["possible"][0]))
    return out


def plugins(call):
    from KMCLib import KMCAnalysisPlugin, KMCBreakerPlugin

    class Failing(KMCAnalysisPlugin):
        def setup(self, step, time, configuration):
            pass

        def registerStep(self, step, time, configuration):
            if step >= call["fail"]:
                raise Failure("planned")

        def finalize(self):
            pass

    class Breaker(KMCBreakerPlugin):
        def setup(self, step, time, configuration):
            pass

        def interval(self):
            return 1

        def evaluate(self, step, time, configuration):
            return step >= call["breaker"]

    return ([Failing()] if call["fail"] else []), ([Breaker()] if call["breaker"] else [])


def masked(path):
    """The contents of a trajectory file, without the date in it."""
    try:
        with open(path, "rb") as f:
            return re.sub(rb'creation_time="[^"]*"', b'creation_time=""', f.read()).decode("latin-1")
    except OSError as e:
        return "(%s)" % e.strerror


def simulate(sc, ctx, where, rank, script=None):
    """Makes all calls, in this process. Reports what happened."""
    spec = sc["spec"]
    s = dict(sc, clock=sc["clocks"][rank])
    rng_setup(ctx, s)
    if script is not None:
        ctx.rng.script(script)
        ctx.rng.tail(ctx.rng.HALF)
    out = io.StringIO()
    sys.stdout = out
    ctx.os.disk(where)
    run = Run(ctx, spec)
    rates = []

    def each(step, time, cfg):
        rates.append(run.model._backend().interactions().totalRate())
    run.hook = each
    report = {"hows": [], "files": [], "events": [], "marks": []}
    procs = spec["procs"]
    mean = 1.0 / sum(p["rate"] for p in procs)
    for n, call in enumerate(sc["calls"]):
        failing, breakers = plugins(call)
        ana = analyses(spec, mean) if call["analyses"] else []
        kw = {}
        path = os.path.join(where, "t%d.out" % n)
        if call["traj"]:
            kw = {"trajectory_filename": path, "trajectory_type": call["traj"]}
        if call["dump_time"] is None:
            kw["dump_interval"] = call["dump"]
        else:
            kw["dump_time_interval"] = call["dump_time"] * mean
        how = go(ctx, run, call, sc, failing + ana, breakers, kw)
        report["hows"].append(how)
        if call["traj"]:
            report["files"].append(masked(path))
        if how == "done":
            for a in ana:
                ctx.sut("printing", a.printResults)
        report["events"].append(run.events())
        report["marks"].append(len(run.history))
    report["history"] = run.history
    report["rates"] = rates
    report["state"] = run.state()
    report["atoms"] = None if spec["bucket"] else run.atoms()
    report["draws"] = ctx.rng.log()
    report["ops"] = ctx.os.ops()
    report["printed"] = out.getvalue()
    report["jumps"] = ctx.os.clock_jumped()
    return report


def go(ctx, run, call, sc, ana, breakers, kw):
    from KMCLib import KMCControlParameters
    traj = dict((k, kw.pop(k)) for k in list(kw) if k.startswith("trajectory"))
    try:
        params = KMCControlParameters(number_of_steps=call["steps"], seed=call["seed"], rng_type=sc["type"], analysis_interval=call["every"], **kw)
        run.model.run(control_parameters=params, analysis=[run.recorder()] + ana, breakers=breakers or None, **traj)
    except (Violation, Stop, HarnessError):
        raise
    except Failure:
        return "failure"
    except Exception as e:
        if not is_end(e):
            def again():
                raise e
            ctx.sut("run", again)
        return "end"
    return "done"


def execute(sc, ctx):
    sc = copy.deepcopy(sc)
    for c in sc["calls"]:
        # (the recorder has to see every step)
        c["every"] = 1 if c.get("every") is None else c["every"]
    os.makedirs("par")
    os.makedirs("ser")
    size = sc["size"]
    machine = mpi.Machine(ctx, size, sc["schedule"])
    machine.start(lambda rank: simulate(sc, ctx, "par", rank))
    reports = machine.run()
    master = reports[0]
    scripted = any(c["seed"] is None for c in sc["calls"]) and sc["rng"]["tail"] == "real"
    alone = mpi.Machine(ctx, 1, sc["schedule"])
    alone.start(lambda rank: simulate(sc, ctx, "ser", 0, master["draws"] if scripted else None))
    serial = alone.run()[0]
    judge_serial(sc, ctx, serial)
    for r, rep in enumerate(reports):
        compare(ctx, rep, serial, "process %d of %d and a serial run" % (r, size))
        if r > 0:
            ctx.require(rep["ops"] == 0, "writes", "process %d writes files (%d operations)", r, rep["ops"])
            ctx.require(rep["printed"] == "", "prints", "process %d prints %r", r, rep["printed"][:80])
        else:
            ctx.require(rep["printed"] == serial["printed"], "printed", "the output of a run on %d processes differs from a serial one", size)
    final = [masked(os.path.join("par", "t%d.out" % n)) for n, c in enumerate(sc["calls"]) if c["traj"]]
    ctx.require(final == serial["files"], "trajectory", "the trajectory of %d processes differs from the serial one", size)
    steps = len(serial["history"])
    ctx.event(serial["history"], machine.trace)
    ctx.state(size, machine.trace)
    ctx.steps += steps * sc["size"]
    ctx.sim_time = serial["history"][-1][1] if steps else 0.0
    ctx.count("fault:clock_skew", 1 if len(set((c["now"], c.get("tick")) for c in sc["clocks"])) > 1 else 0)
    ctx.count("fault:clock_jump", sum(r["jumps"] for r in reports))
    ctx.count("fault:plugin_exception", serial["hows"].count("failure"))
    if size > 1:
        ctx.count("fault:schedule_" + sc["schedule"]["kind"])
    ctx.count("processes_%d" % size)
    ctx.nontrivial = size > 1 and steps >= 5


def compare(ctx, rep, serial, what):
    ctx.require(rep["hows"] == serial["hows"], "outcome", "%s: the calls end by %s and %s", what, rep["hows"], serial["hows"])
    for i, (x, y) in enumerate(zip(rep["history"], serial["history"])):
        ctx.require([x[0]] + x[2:] == [y[0]] + y[2:] and close(x[1], y[1], 1e-9), "history",
                    "%s: registered step %d is %s and %s (step, time, process, site)", what, i + 1, x, y)
    ctx.require(rep["marks"] == serial["marks"], "history", "%s: %s and %s steps after the calls", what, rep["marks"], serial["marks"])
    for i, (x, y) in enumerate(zip(rep["rates"], serial["rates"])):
        ctx.require(close(x, y, 1e-9), "rate", "%s: the total rate at registered step %d is %r and %r", what, i + 1, x, y)
    for n, (a, b) in enumerate(zip(rep["events"], serial["events"])):
        for p, (x, y) in enumerate(zip(a, b)):
            ctx.require(x[0] == y[0] and close(x[1], y[1], 1e-9, 1e-300 if x[0] else 1e300), "events",
                        "%s: after call %d process %d is listed at %s (%r) and %s (%r)", what, n, p, x[0][:12], x[1], y[0][:12], y[1])
    ctx.require(rep["state"] == serial["state"], "state", "%s: the configurations differ", what)
    ctx.require(rep["atoms"] == serial["atoms"], "atoms", "%s: the atoms differ", what)
    ctx.require(rep["draws"] == serial["draws"], "draws", "%s: %d and %d random numbers, first difference at %s", what, len(rep["draws"]),
                len(serial["draws"]), next((i for i, (x, y) in enumerate(zip(rep["draws"], serial["draws"])) if x != y), "the end"))
    for n, (x, y) in enumerate(zip(rep["files"], serial["files"])):
        ctx.require(x == y, "trajectory", "%s: trajectory %d, read right after run(), differs (%d and %d bytes)", what, n, len(x), len(y))


def judge_serial(sc, ctx, serial):
    """The serial run follows the reference model, where every step was registered."""
    if any(c["every"] != 1 for c in sc["calls"]):
        return
    ref = refmod.RefModel(sc["spec"])
    inc = refmod.Incremental(ref)
    state = list(ref.state0)
    avail, edge, hang = inc.available(state)
    last = 0.0
    for i, (step, time, p, s) in enumerate(serial["history"]):
        ctx.require((p, s) in avail, "illegal-event", "serial run: process %d was performed at site %d, where it was not available", p, s)
        ctx.require(time >= last, "time", "serial run: the time goes back from %r to %r", last, time)
        last = time
        state = ref.apply(p, s, state)
        avail, edge, hang = inc.available(state)
        if not edge and not hang:
            ctx.require(close(serial["rates"][i], sum(avail.values()), 1e-9, 1e-300 if avail else 1e300), "rate",
                        "serial run: the total rate after step %d is %r, should be %r", i + 1, serial["rates"][i], sum(avail.values()))
    ctx.require([list(x) for x in state] == serial["state"], "state", "serial run: the final configuration is not that of the reference")
    if not edge and not hang:
        for p, (sites, rate) in enumerate(serial["events"][-1]):
            want = sorted(s for q, s in avail if q == p)
            ctx.require(sites == want, "events", "serial run: process %d is listed at %s instead of %s", p, sites[:12], want[:12])
    ctx.count("judged_serial_runs")


def shrink(sc):
    if len(sc["calls"]) > 1:
        for n in range(len(sc["calls"])):
            c = copy.deepcopy(sc)
            del c["calls"][n]
            yield c
    if sc["size"] > 1:
        c = copy.deepcopy(sc)
        c["size"] -= 1
        c["clocks"].pop()
        yield c
        c = copy.deepcopy(sc)
        c["size"] = 2
        c["clocks"] = c["clocks"][:2]
        yield c
    for n, call in enumerate(sc["calls"]):
        for k, v in (("steps", call["steps"] // 2), ("steps", call["steps"] - 1), ("traj", None), ("analyses", False), ("breaker", None),
                     ("fail", None), ("every", 1), ("dump_time", None), ("seed", 1)):
            if call[k] != v and not (k == "steps" and v < 0):
                c = copy.deepcopy(sc)
                c["calls"][n][k] = v
                yield c
    if sc["schedule"]["kind"] != "round":
        c = copy.deepcopy(sc)
        c["schedule"]["kind"] = "round"
        yield c
    for r in range(len(sc["clocks"])):
        if sc["clocks"][r] != {"now": 1.7e9, "tick": 0.0}:
            c = copy.deepcopy(sc)
            c["clocks"][r] = {"now": 1.7e9, "tick": 0.0}
            yield c
    for s in common.shrink_spec(sc["spec"]):
        c = copy.deepcopy(sc)
        c["spec"] = s
        yield c
