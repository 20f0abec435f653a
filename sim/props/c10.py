"""C10: trajectory dumps, analysis and breakers happen exactly when due."""
import copy

from sim import ref as refmod
from sim import trajfile, world
from sim.history import Run, same_history
from sim.props import common
from sim.props.common import REAL, STUBS, ASSUMPTIONS          # noqa: F401
from sim.session import gen_clock, rng_setup

ID = "C10"
RUNS = {"quick": 3200, "thorough": 80000}
RULE = ("A run is one random system executed once with everything recorded, and again with the same random numbers and random "
        "dump intervals (steps or time), analysis intervals, analyses and breakers over one to three calls of run(); the frames in "
        "the file and the calls received are compared with the schedule computed from the record. Non-trivial: at least two frames, "
        "calls or evaluations beyond the start.")
BREAKER = ("breaker-setup", "evaluate")
STATES = "schedules (call sequences and dumped steps), by hash"


def gen(rng, tier, index):
    spec = world.gen_spec(rng, world.Profile(max_sites=rng.choice([12, 30, 60]), reversible=0.9))
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = {"steps": rng.choice([0, 1, 2, 5, 10, 20, 40]) if rng.random() < 0.5 else rng.randint(1, 60),
             "analyse": rng.choice([None, 1, 2, 3, 7, 50]), "analyses": rng.choice([0, 1, 1, 2, 3]),
             # What the calls return does not matter.
             "returns": [rng.choice([None, None, True, 1, "done", False]) for _ in range(3)],
             "seed": rng.randint(1, 10 ** 6), "traj": None, "breakers": []}
        x = rng.random()
        if x < 0.4:
            c["dump"] = rng.choice([None, 1, 2, 3, 5, 13])
        else:
            # A multiple of the mean time step of the recorded run.
            c["dump_time"] = rng.choice([0.05, 0.3, 0.9, 1.0, 1.7, 3.3, 8.0, 30.0]) * rng.uniform(0.8, 1.2)
        if rng.random() < 0.85:
            c["traj"] = "lattice" if spec["bucket"] else rng.choice(["lattice", "xyz"])
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            c["breakers"].append({"interval": rng.choice([1, 1, 2, 3, 5]), "at": rng.choice([1, 3, 8, 20, 1000, 1000, 1000]),
                                  "value": rng.choice([True, True, 1, "yes"]), "false": rng.choice([False, False, None, 0])})
        calls.append(c)
    return {"spec": spec, "calls": calls, "reuse": rng.random() < 0.4, "rng": {"tail": "sim" if rng.random() < 0.8 else "biased", "state": rng.getrandbits(63)},
            "clock": gen_clock(rng)}


def execute(sc, ctx):
    spec = sc["spec"]
    ref = refmod.RefModel(spec)
    # The record, long enough for all calls together.
    rng_setup(ctx, sc)
    a = Run(ctx, spec)
    states = [a.state()]
    atoms = [None if spec["bucket"] else a.atoms()[:2]]

    def keep(step, time, cfg):
        states.append(a.state())
        atoms.append(None if spec["bucket"] else a.atoms()[:2])
    a.hook = keep
    # The frame of the time right before a step needs the time of the step before only.
    a.run(sum(c["steps"] for c in sc["calls"]), what="the recorded run")
    record = [(0, 0.0)] + [h[:2] for h in a.history]
    mean = (record[-1][1] / max(1, len(record) - 1)) or 1.0
    rng_setup(ctx, sc)
    b = Run(ctx, spec)
    at = 0
    log = []
    kept = {}
    for n, c in enumerate(sc["calls"]):
        del log[:]
        kw, run_kw = {}, {}
        dump_time = None
        if "dump_time" in c:
            dump_time = float("%.6g" % (c["dump_time"] * mean))
            kw["dump_time_interval"] = dump_time
        elif c["dump"] is not None:
            kw["dump_interval"] = c["dump"]
        if c["analyse"] is not None:
            kw["analysis_interval"] = c["analyse"]
        name = None
        if c["traj"]:
            name = "call%d.out" % n
            run_kw = {"trajectory_filename": name, "trajectory_type": c["traj"]}
            if c["traj"] == "lattice" and n % 2:
                del run_kw["trajectory_type"]
        analyses = []
        for i in range(c["analyses"]):
            # Plugins may be used for several runs.
            if i not in kept or not sc.get("reuse"):
                kept[i] = watch(ctx, log, i, b, c.get("returns") or [None])
            analyses.append(kept[i])
        breakers = [breaker(ctx, log, i, x, b) for i, x in enumerate(c["breakers"])]
        how = go(ctx, b, c, kw, run_kw, analyses, breakers)

        # What must have happened.
        start = record[at][1]
        want = []
        due = [frame(c, a, ctx, spec, record, states, atoms, at, 0)] if c["traj"] else []
        # (the record may end with its last step just as well)
        stuck = at == len(record) - 1 and a.model._backend().interactions().totalAvailableSites() == 0
        if at == 0 and stuck:
            # Nothing to do from the beginning: an error before anything is set up.
            ctx.require(how == "end", "end", "run() of a system without available processes ends with %r", how)
            ctx.require(not log, "calls", "calls before the first step of a system without available processes: %s", log[:5])
            return
        if at > 0 and stuck:
            ctx.require(how == "end", "end", "run() of a system without available processes ends with %r", how)
            return
        for i in range(c["analyses"]):
            want.append(("setup", i, 0, start))
        for i in range(len(c["breakers"])):
            want.append(("breaker-setup", i, 0, start))
        k, broke, ambiguous = 0, False, False
        every = c["analyse"] or 1
        done = 0
        for step in range(1, c["steps"] + 1):
            if at + step >= len(record):
                break
            before, after = record[at + step - 1][1], record[at + step][1]
            if dump_time is not None:
                gap = after - (start + (k + 1) * dump_time)
                if abs(gap) <= 1e-9 * (abs(after) + dump_time):
                    ambiguous = True
                if gap >= 0.0:
                    k += 1
                    if c["traj"]:
                        due.append(frame(c, a, ctx, spec, record, states, atoms, at, step - 1))
            elif step % (c["dump"] or 1) == 0 and c["traj"]:
                due.append(frame(c, a, ctx, spec, record, states, atoms, at, step))
            done = step
            if step % every == 0:
                for i in range(c["analyses"]):
                    want.append(("step", i, step, after))
            for i, x in enumerate(c["breakers"]):
                if step % x["interval"] == 0:
                    want.append(("evaluate", i, step, after))
                    if step >= x["at"]:
                        broke = True
                        break
            if broke:
                break
        for i in range(c["analyses"]):
            want.append(("finalize", i))
        # The order of the calls matters for each analysis, and for all breakers together.
        for i in range(c["analyses"]):
            compare(ctx, "call %d of run(), analysis %d" % (n, i), [x for x in log if not x[0] in BREAKER and x[1] == i],
                    [x for x in want if not x[0] in BREAKER and x[1] == i])
        compare(ctx, "call %d of run(), breakers" % n, [x for x in log if x[0] in BREAKER], [x for x in want if x[0] in BREAKER])
        kinds = [x[0] for x in log]
        first = [i for i, x in enumerate(kinds) if x in ("step", "evaluate")]
        ctx.require(not first or not any("setup" in x for x in kinds[first[0]:]), "calls", "call %d of run(): setup after the first step", n)
        stuck = done < c["steps"] and not broke
        ctx.require(how == ("end" if stuck else "done"), "end", "call %d of run() ends with %r", n, how)
        if name and not ambiguous:
            head, frames = trajfile.load(ctx, c["traj"], name)
            trajfile.check_header(ctx, c["traj"], head, spec, ref)
            trajfile.check_frames(ctx, c["traj"], spec, frames, due, "call %d of run()" % n)
            ctx.count("frames", len(frames))
        if ambiguous:
            ctx.count("ties_skipped")
        at += done
        ctx.require(b.state() == states[at], "steps", "call %d of run() did not end after step %d", n, done)
        ctx.event(n, how, log, [d[0] for d in due])
        ctx.state([x[0] for x in log], [d[0] for d in due])
        ctx.count("calls_checked", len(log))
        ctx.count("loops_broken", 1 if broke else 0)
        ctx.nontrivial = ctx.nontrivial or len(due) > 2 or len([x for x in log if x[0] in ("step", "evaluate")]) > 2
        ctx.steps += done
        if how == "end":
            break
    ctx.count("fault:clock_jumps", ctx.os.clock_jumped())
    ctx.sim_time = record[at][1]


def compare(ctx, what, log, want):
    for i in range(max(len(log), len(want))):
        x = log[i] if i < len(log) else None
        y = want[i] if i < len(want) else None
        ctx.require(x == y, "calls", "%s: call number %d is %s, should be %s (kind, which, step, time)", what, i, x, y)


def frame(c, a, ctx, spec, record, states, atoms, at, step):
    return (step, record[at + step][1], trajfile.snapshot(c["traj"], a.config, spec, states[at + step], atoms[at + step]))


def go(ctx, b, c, kw, run_kw, analyses, breakers):
    from KMCLib import KMCControlParameters
    from sim.session import is_end

    def call():
        params = KMCControlParameters(number_of_steps=c["steps"], seed=c["seed"], **kw)
        b.model.run(control_parameters=params, analysis=analyses or None, breakers=breakers or None, **run_kw)
    try:
        call()
        return "done"
    except Exception as e:
        if ctx.violations or ctx.harness:
            raise
        if is_end(e):
            return "end"

        def again():
            raise e
        ctx.sut("run", again)


def watch(ctx, log, i, run, returns):
    from KMCLib import KMCAnalysisPlugin

    class Watch(KMCAnalysisPlugin):
        def setup(self, step, time, configuration):
            log.append(("setup", i, step, time))
            ctx.require(configuration is run.config, "argument", "setup is given another configuration")
            return returns[0]

        def registerStep(self, step, time, configuration):
            log.append(("step", i, step, time))
            ctx.require(configuration is run.config, "argument", "registerStep is given another configuration")
            return returns[step % len(returns)]

        def finalize(self):
            log.append(("finalize", i))
            return returns[-1]
    return Watch()


def breaker(ctx, log, i, x, run):
    from KMCLib import KMCBreakerPlugin

    class Break(KMCBreakerPlugin):
        def setup(self, step, time, configuration):
            log.append(("breaker-setup", i, step, time))
            ctx.require(configuration is run.config, "argument", "setup is given another configuration")
            return x["value"]

        def evaluate(self, step, time, configuration):
            log.append(("evaluate", i, step, time))
            ctx.require(configuration is run.config, "argument", "evaluate is given another configuration")
            return x["value"] if step >= x["at"] else x["false"]

    class BreakEvery(Break):
        def interval(self):
            return x["interval"]
    return BreakEvery() if x["interval"] > 1 else Break()


def shrink(sc):
    for i in range(len(sc["calls"])):
        if len(sc["calls"]) > 1:
            c = copy.deepcopy(sc)
            del c["calls"][i]
            yield c
        call = sc["calls"][i]
        for m in sorted(set([1, call["steps"] // 2, call["steps"] - 1])):
            if 0 <= m < call["steps"]:
                c = copy.deepcopy(sc)
                c["calls"][i]["steps"] = m
                yield c
        if call["analyses"]:
            c = copy.deepcopy(sc)
            c["calls"][i]["analyses"] -= 1
            yield c
        for k in range(len(call["breakers"])):
            c = copy.deepcopy(sc)
            del c["calls"][i]["breakers"][k]
            yield c
        if call["traj"]:
            c = copy.deepcopy(sc)
            c["calls"][i]["traj"] = None
            yield c
    for c in common.shrink(sc):
        yield c
