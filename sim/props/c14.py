"""C14: models in one process do not influence each other."""
import copy
import gc
import io
import os
import random
import threading

from sim import trajfile, world
from sim.history import Run, same_events, same_history
from sim.props import common
from sim.props.common import REAL, STUBS, ASSUMPTIONS          # noqa: F401
from sim.session import gen_clock, rng_setup

ID = "C14"
RUNS = {"quick": 2400, "thorough": 40000}
RULE = ("A run executes two to four random models alone, and again interleaved by a seeded scheduler that switches between them at "
        "every call out of the library (between runs, in analysis plugins and in rate calculators), nested in each other or as "
        "threads, builds and destroys models in between, and gives each its own random numbers. Non-trivial: at least 5 switches.")
STATES = "interleavings (which model performs the next step), by hash of windows of 8"
ANALYSES = ["tsd", "comp", "stat", "msd"]
TIMEOUT = {"quick": 40.0, "thorough": 60.0}


def gen(rng, tier, index):
    models = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        prof = world.Profile(max_sites=rng.choice([8, 20, 50]), max_procs=5, calc=rng.random() < 0.5, reversible=0.9)
        models.append({"spec": world.gen_spec(rng, prof), "plan": [rng.choice([1, 1, 2, 3, 5, 8]) for _ in range(rng.randint(1, 5))],
                       "traj": [rng.choice([None, None, "lattice", "xyz"]), rng.choice([1, 1, 2, 5])],
                       "analyses": [a for a in ANALYSES if rng.random() < 0.25],
                       "state": rng.getrandbits(63), "rng_type": rng.choice(["MT", "MINSTD", "RANLUX24"]), "seed": rng.randint(1, 10 ** 6)})
    if rng.random() < 0.25:
        # The same system twice.
        models[1]["spec"] = copy.deepcopy(models[0]["spec"])
        if rng.random() < 0.6:
            # ... at another temperature.
            k = rng.randrange(3)
            for p in models[1]["spec"]["procs"]:
                p["rate"] *= rng.choice([0.5, 3.0, 7.0])
            if k == 0 and models[1]["spec"].get("calc"):
                models[1]["spec"]["calc"]["salt"] = rng.getrandbits(30)
    for m in models[1:]:
        # Another system made with objects of the first one, as in a series of simulations in one script.
        if rng.random() < 0.4:
            m["share"] = rng.choice(["processes", "interactions", "interactions", "lattice"])
            m["spec"] = related(rng, models[0]["spec"], m["share"])
    return {"models": models, "mode": rng.choice(["nested", "nested", "threads", "threads", "sequential"]),
            "schedule": rng.getrandbits(48), "switch": rng.choice([0.02, 0.1, 0.3, 0.8]), "clock": gen_clock(rng)}


def related(rng, spec, share):
    """A system with other initial types, another order of the types and perhaps another size."""
    s = copy.deepcopy(spec)
    s["calc_possible"] = spec["calc_possible"] = list(spec["calc_possible"] if "calc_possible" in spec else spec["possible"] + ["Extra"])
    rng.shuffle(s["possible"])
    if rng.random() < 0.3:
        s["possible"].append("Extra")
    n = len(spec["types"])
    if share != "lattice" and rng.random() < 0.5:
        d = rng.choice([d for d in range(3) if spec["rep"][d] > 1] or [0])
        if spec["rep"][d] > 1:
            n = n // spec["rep"][d] * (spec["rep"][d] + 1)
            s["rep"][d] += 1
    # (keeps the composition, roughly)
    s["types"] = [copy.deepcopy(rng.choice(spec["types"])) for _ in range(n)]
    if share == "lattice":
        s["implicit"] = not s["implicit"] if rng.random() < 0.5 else s["implicit"]
    return s


class Model(object):

    def __init__(self, ctx, sc, k, hook, models=None):
        self.ctx, self.k = ctx, k
        self.models = models
        self.shared = None
        self.m = sc["models"][k]
        self.real = sc["mode"] == "sequential"
        self.plan = list(self.m["plan"])
        self.state = self.m["state"]
        self.run = None
        self.hook = hook
        self.history = []
        self.n = 0
        self.how = None
        self.outputs = []

    def swap_in(self):
        if not self.real:
            self.ctx.rng.tail(1, self.state)

    def swap_out(self):
        if not self.real:
            self.state = self.ctx.rng.tail_state()

    def build(self):
        def rate(calculator, *a):
            # Shared interactions create a calculator for each configuration.
            m = [m for m in self.models if m.run is not None and m.run.config is calculator.configuration]
            self.hook(m[0] if m else self, "rate")
        rate = rate if self.hook else None
        kw = {}
        share = self.m.get("share") if self.models else None
        if share:
            # Objects of the first model, which may or may not have been used by now.
            first = self.models[0]
            if first.shared is None:
                first.make(rate)
            self.ctx.count("shared_" + share)
            if share == "lattice":
                kw["lattice"] = first.shared["lattice"]
            elif share == "interactions":
                kw["interactions"] = first.shared["interactions"]
            else:
                kw["interactions"] = world.build_interactions(self.m["spec"], rate, first.shared["processes"])
        elif self.models and self.k == 0 and any(m.m.get("share") for m in self.models):
            if self.shared is None:
                self.make(rate)
            kw = {"lattice": self.shared["lattice"], "interactions": self.shared["interactions"]}
        self.run = Run(self.ctx, self.m["spec"], rate_hook=rate, **kw)
        if self.hook:
            self.run.hook = lambda *a: self.hook(self, "step")

    def make(self, rate):
        spec = self.m["spec"]
        processes = world.build_processes(spec)
        self.shared = {"lattice": world.build_lattice(spec), "processes": processes,
                       "interactions": world.build_interactions(spec, rate, processes)}

    def go(self):
        """The next piece of the plan."""
        self.n += 1
        kw = {}
        kind, every = self.m.get("traj", (None, 1))
        if kind is not None:
            if kind == "xyz" and self.m["spec"]["bucket"]:
                kind = "lattice"
            name = "%s%d_%d.traj" % ("alone" if self.hook is None else "among", self.k, self.n)
            kw = {"trajectory_filename": name, "trajectory_type": kind, "dump_interval": every}
        analyses = [self.analysis(a) for a in self.m.get("analyses", ())]
        self.how = self.run.run(self.plan.pop(0), seed=self.m["seed"] + self.n, rng_type=self.m["rng_type"],
                                what="model %d, run %d" % (self.k, self.n), analysis=analyses, **kw)
        if kind is not None:
            # There is none if no process is available at the start.
            frames = None
            if os.path.exists(name) or self.how == "done":
                _, frames = trajfile.load(self.ctx, kind, name, "the trajectory of model %d" % self.k)
            self.outputs.append(frames)
            self.ctx.count("trajectories")
        for a in analyses:
            self.outputs.append(printed(a))
            self.ctx.count("analyses")
        if self.how == "end":
            self.plan = []

    def analysis(self, name):
        from KMCLib.Analysis.TimeStepDistribution import TimeStepDistribution
        from KMCLib.Analysis.Composition import Composition
        from KMCLib.Analysis.ProcessStatistics import ProcessStatistics
        from KMCLib.Analysis.OnTheFlyMSD import OnTheFlyMSD
        spec = self.m["spec"]
        if name == "tsd":
            # (not more bins than memory can hold)
            slowest = min(p["rate"] for p in spec["procs"]) * (1e-4 if spec["calc"] else 1.0)
            return TimeStepDistribution(binsize=2.0 / slowest)
        if name == "comp":
            return Composition()
        if name == "stat" or spec["bucket"]:
            return ProcessStatistics(processes=list(range(0, len(spec["procs"]), 2)))
        return OnTheFlyMSD(history_steps=3, n_bins=8, t_max=4.0, track_type=spec["possible"][0])

    def result(self):
        r = self.run
        return {"history": list(r.history), "how": self.how, "state": r.state(), "atoms": r.atoms(), "events": r.events(),
                "outputs": self.outputs}


def printed(analysis):
    """The table of an analysis, or why there is none (of runs with too few steps)."""
    out = io.StringIO()
    try:
        analysis.printResults(out)
    except Exception as e:
        return out.getvalue(), type(e).__name__
    return out.getvalue(), None


def run_alone(sc, ctx, k):
    m = Model(ctx, sc, k, None)
    m.swap_in()
    m.build()
    while m.plan:
        m.go()
    m.swap_out()
    return m.result()


def execute(sc, ctx):
    rng_setup(ctx, sc)
    if sc["mode"] == "sequential":
        ctx.rng.tail(0)
    # Each in a process of its own.
    alone = [ctx.isolated(lambda: run_alone(sc, ctx, k)) for k in range(len(sc["models"]))]
    mixed, trace = {"nested": nested, "sequential": nested, "threads": threads}[sc["mode"]](sc, ctx)
    for k, (a, b) in enumerate(zip(alone, mixed)):
        what = "model %d alone and among others (%s)" % (k, sc["mode"])
        same_history(ctx, a["history"], b["history"], "history", what)
        ctx.require(a["how"] == b["how"], "history", "%s end differently", what)
        ctx.require(a["state"] == b["state"], "state", "%s end in different configurations", what)
        ctx.require(a["atoms"] == b["atoms"], "state", "%s end with different atoms", what)
        same_events(ctx, a["events"], b["events"], "events", what)
        ctx.require(len(a["outputs"]) == len(b["outputs"]), "output", "%s write %d and %d trajectories and tables", what,
                    len(a["outputs"]), len(b["outputs"]))
        for x, y in zip(a["outputs"], b["outputs"]):
            ctx.require(x == y, "output", "%s write different trajectories or tables: %s and %s", what, brief(x), brief(y))
        ctx.steps += 2 * len(a["history"])
        ctx.sim_time += a["history"][-1][1] if a["history"] else 0.0
    switches = sum(1 for x, y in zip(trace, trace[1:]) if x != y)
    ctx.count("switches", switches)
    ctx.count("runs_" + sc["mode"])
    for i in range(0, max(1, len(trace) - 7), 4):
        ctx.state(trace[i:i + 8])
    ctx.event(trace)
    ctx.event([b["history"] for b in mixed])
    ctx.nontrivial = switches >= 5


def brief(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def nested(sc, ctx):
    """Models run, are built, queried and destroyed from inside each other's callbacks."""
    rnd = random.Random(sc["schedule"])
    stack, trace, results = [], [], {}
    budget = [400]
    models = []

    def act():
        budget[0] -= 1
        free = [m for m in models if m not in stack and m.plan and m.k not in results]
        other = [m for m in models if m.run is not None and m.n and m not in stack]
        if other and rnd.random() < 0.3:
            m = rnd.choice(other)
            ctx.count("queries_from_outside")
            m.run.config.types()
            m.run.model._backend().interactions().totalAvailableSites()
            return
        if not free:
            return
        m = rnd.choice(free)
        if stack:
            stack[-1].swap_out()
        m.swap_in()
        stack.append(m)
        trace.append(m.k)
        if m.run is None:
            m.build()
            if rnd.random() < 0.5:
                m.run.model._backend()
        else:
            m.go()
        stack.pop()
        m.swap_out()
        if stack:
            stack[-1].swap_in()
            trace.append(stack[-1].k)
        if not m.plan:
            results[m.k] = m.result()
            if rnd.random() < 0.7:
                # Destroyed while others are in the middle of something.
                m.run = None
                gc.collect()
                ctx.count("models_destroyed")

    def hook(m, kind):
        trace.append(m.k)
        if sc["mode"] == "nested" and len(stack) < 3 and budget[0] > 0 and rnd.random() < sc["switch"]:
            ctx.count("nested_in_" + kind)
            act()

    def guarded(m, kind):
        ctx.guard(hook)(m, kind)

    for k in range(len(sc["models"])):
        models.append(Model(ctx, sc, k, guarded, models))
    while any(m.plan for m in models):
        budget[0] = max(budget[0], 1)
        act()
    for m in models:
        if m.k not in results:
            results[m.k] = m.result()
    return [results[k] for k in range(len(models))], trace


def threads(sc, ctx):
    """One thread per model; the scheduler lets exactly one run, and switches at calls out of the library."""
    rnd = random.Random(sc["schedule"])
    n = len(sc["models"])
    batons = [threading.Semaphore(0) for _ in range(n + 1)]
    alive = set(range(n))
    trace, results, models = [], {}, []
    current = [None]

    def switch(me, to):
        if current[0] == to:
            return
        if me is not None and me.k in alive:
            me.swap_out()
        current[0] = to
        if to < n:
            models[to].swap_in()
        batons[to].release()

    def hook(m, kind):
        trace.append(m.k)
        if ctx.violations or ctx.harness:
            return
        if rnd.random() < sc["switch"]:
            to = rnd.choice(sorted(alive))
            if to != m.k:
                ctx.count("switched_in_" + kind)
                switch(m, to)
                batons[m.k].acquire()

    def body(k):
        m = models[k]
        batons[k].acquire()
        try:
            m.build()
            hook(m, "run")
            while m.plan and not (ctx.violations or ctx.harness):
                m.go()
                hook(m, "run")
            results[k] = m.result()
            if rnd.random() < 0.5:
                m.run = None
                gc.collect()
        except BaseException:
            if not ctx.violations and ctx.harness is None:
                import traceback
                ctx.harness = traceback.format_exc()
        finally:
            m.swap_out()
            alive.discard(k)
            switch(None, rnd.choice(sorted(alive)) if alive else n)

    for k in range(n):
        models.append(Model(ctx, sc, k, ctx.guard(hook), models))
    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
    for t in ts:
        t.start()
    switch(None, rnd.randrange(n))
    batons[n].acquire()
    for t in ts:
        t.join(10)
    if ctx.violations or ctx.harness:
        from sim.core import Stop
        raise Stop()
    return [results[k] for k in range(n)], trace


def shrink(sc):
    for i in range(len(sc["models"])):
        if len(sc["models"]) > 2:
            c = copy.deepcopy(sc)
            del c["models"][i]
            if i == 0:
                for m in c["models"]:
                    m.pop("share", None)
            yield c
        m = sc["models"][i]
        if m.get("traj", [None])[0] is not None:
            c = copy.deepcopy(sc)
            c["models"][i]["traj"] = [None, 1]
            yield c
        for a in m.get("analyses", ()):
            c = copy.deepcopy(sc)
            c["models"][i]["analyses"].remove(a)
            yield c
        for j in range(len(m["plan"])):
            if len(m["plan"]) > 1:
                c = copy.deepcopy(sc)
                del c["models"][i]["plan"][j]
                yield c
            if m["plan"][j] > 1:
                c = copy.deepcopy(sc)
                c["models"][i]["plan"][j] = 1
                yield c
        if m.get("share") or i == 0 and any(x.get("share") for x in sc["models"]):
            continue
        for s in common.shrink_spec(m["spec"]):
            c = copy.deepcopy(sc)
            c["models"][i]["spec"] = s
            yield c
