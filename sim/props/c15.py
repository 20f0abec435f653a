"""C15: the memory and files a run holds do not grow with its length, the number of runs or the models that are gone."""
import collections
import copy
import array
import gc
import os
import sys

from sim import ref, world
from sim.core import HarnessError, Stop, Violation
from sim.props import common
from sim.props.common import REAL, ASSUMPTIONS          # noqa: F401
from sim.session import is_end, rng_setup

ID = "C15"
RUNS = {"quick": 700, "thorough": 30000}
RULE = ("A run repeats one thing many times (blocks of steps of one run, calls of run(), calls that a fault ends, whole models, "
        "queries) and measures after each the living C++ objects, Python objects and open files. What grows at every one of the "
        "last repetitions grows without bound. Non-trivial: all repetitions were made.")
STATES = "levels of living C++ objects, by hash"
STUBS = common.STUBS + ["operator new and delete (counted)", "files (faults injected below the C library)"]
TIMEOUT = {"quick": 60.0, "thorough": 120.0}
KINDS = ["steps", "steps", "calls", "calls", "faults", "faults", "models", "models", "queries"]
QUERIES = ["types", "atomIDTypes", "atomIDCoordinates", "particlesPerType", "movedAtomIDs", "latestEventProcess", "latestEventSite",
           "possibleTypes", "sites", "cellRepetitions", "script", "events", "rates", "params"]
SIZED = (list, dict, set, tuple, collections.deque)
# The default limit of what a trajectory holds in memory.
LIMIT = 10 * 1024 * 1024
FAULTS = ["analysis", "breaker", "calc", "output", "sigint", "eio", "enospc", "open"]


def gen_small(rng):
    for _ in range(1000):
        spec = world.gen_spec(rng, world.Profile(max_sites=rng.choice([10, 24, 40]), max_procs=5, reversible=1.0))
        if spec["calc"]:
            # Stored rates take memory until the table is full.
            spec["calc"].update(cache=False, exclude=[])
        if any(sum(c for u in p["update"] for c, _ in u) for p in spec["procs"] if p["kind"] == "bucket"):
            # The number of particles grows.
            continue
        if lasts(spec, rng):
            break
    return spec


def lasts(spec, rng):
    """A few random events do not lead into a state without any."""
    model = ref.RefModel(spec)
    inc = ref.Incremental(model)
    state = list(model.state0)
    for _ in range(12):
        all_, edge, hang = inc.available(state)
        keys = sorted(k for k in all_ if k not in edge and k not in hang)
        if not keys:
            return False
        p, i = rng.choice(keys)
        state = model.apply(p, i, state)
    return True


def gen_full(rng):
    """A system with more surroundings than rates are stored for."""
    n = rng.randint(9, 13)
    types = ["A", "B", "C"]
    procs = [{"kind": "type", "coords": [[0.0, 0.0, 0.0]], "before": [a], "after": [b], "moves": None, "basis": [0],
              "rate": rng.choice([0.5, 1.0, 2.0])} for a in types for b in types if a != b]
    return {"cell": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "basis": [(0.0, 0.0, 0.0)], "rep": [n, n, 1],
            "per": [True, True, False], "possible": types, "bucket": False, "implicit": True, "format": "short",
            "calc": {"mode": "env", "cutoff": 1.5, "cache": True, "exclude": []}, "procs": procs,
            "types": [rng.choice(types) for _ in range(n * n)]}


def gen_buffer(rng):
    """Frames that are only held in memory, as no time passes."""
    n = rng.randint(36, 44)
    traj = rng.choice(["lattice", "xyz"])
    procs = [{"kind": "type", "coords": [[0.0, 0.0, 0.0]], "before": [a], "after": [b], "moves": None, "basis": [0], "rate": 1.0}
             for a in "AB" for b in "AB" if a != b]
    spec = {"cell": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "basis": [(0.0, 0.0, 0.0)], "rep": [n, n, 1],
            "per": [True, True, False], "possible": ["A", "B"], "bucket": False, "implicit": True, "format": "short", "calc": None,
            "procs": procs, "types": [rng.choice("AB") for _ in range(n * n)]}
    # Pointers of a list of types, in xyz frames also three coordinates.
    size = n * n * (8 if traj == "lattice" else 32)
    return {"kind": "buffer", "spec": spec, "traj": traj, "seed": rng.randint(1, 10 ** 6), "reps": 1, "msd": None, "dump": 1, "analyse": 1,
            "rng": {"tail": "sim", "state": rng.getrandbits(63)}, "clock": {"now": 1.7e9, "tick": 0.0}, "last": 1,
            "held": int(1.5 * LIMIT / size), "block": int(1.5 * LIMIT / size) + 20}


def gen(rng, tier, index):
    kind = KINDS[index % len(KINDS)]
    full = index % 90 == 0
    if index % 60 == 31:
        return gen_buffer(rng)
    spec = gen_full(rng) if full else gen_small(rng)
    traj = None
    if rng.random() < 0.6:
        traj = "lattice" if spec["bucket"] else rng.choice(["lattice", "xyz"])
    sc = {"kind": kind, "spec": spec, "traj": traj, "seed": rng.randint(1, 10 ** 6), "reps": 12,
          "rng": {"tail": rng.choice(["sim", "real"]), "state": rng.getrandbits(63)},
          # Every frame is written at once.
          "clock": {"now": 1.7e9, "tick": 2000.0}, "dump": rng.choice([1, 1, 2, 5]), "analyse": rng.choice([1, 1, 3]),
          "msd": rng.choice(spec["possible"]) if not spec["bucket"] and rng.random() < 0.3 else None}
    if kind == "steps":
        sc["block"] = rng.choice([60, 120])
        if full:
            sc["block"], sc["reps"], sc["dump"] = 150, 12, 1000
    elif kind in ("calls", "models"):
        sc["block"] = rng.choice([0, 1, 3, 10])
        sc["reps"] = 40 if kind == "calls" else 8
        sc["query"] = rng.random() < 0.3
    elif kind == "faults":
        sc["block"] = rng.choice([3, 10])
        sc["reps"] = 40
        sc["fault"] = rng.choice([f for f in FAULTS if (f != "calc" or spec["calc"]) and (f not in ("eio", "enospc", "open") or traj)])
        sc["at"] = rng.randint(1, sc["block"])
        sc["new"] = rng.random() < 0.3
    else:
        sc["block"], sc["reps"] = 5, 8
        sc["queries"] = rng.sample(QUERIES, rng.randint(1, 4))
    # A level that moves with the state does not rise this many times in a row.
    sc["last"] = 16 if sc["reps"] == 40 else 6
    return sc


class Injected(Exception):
    pass


class Output(object):
    """A standard output that fails when told to."""

    def __init__(self):
        self.fails = False

    def write(self, text):
        if self.fails:
            raise BrokenPipeError(32, "injected")
        return len(text)

    def flush(self):
        pass


class Subject(object):
    """What is repeated."""

    def __init__(self, ctx, sc):
        self.ctx, self.sc = ctx, sc
        # (keeping the numbers takes no memory)
        self.table = array.array("q", [0] * 5 * (sc["reps"] + 1))
        self.n = 0
        self.out = Output()
        self.model = self.config = None
        self.fail = 0
        self.hit = 0

    def mark(self):
        gc.collect()
        blocks, size = self.ctx.os.heap()
        # (not the allocated blocks of Python: numpy, SWIG and the lists of free objects keep some)
        alive = gc.get_objects()
        objects = own = 0
        for o in alive:
            t = type(o)
            if t in SIZED:
                objects += len(o)
            elif t.__module__.startswith("KMCLib"):
                own += 1
                # (what holds no containers itself is not tracked)
                for v in getattr(o, "__dict__", {}).values():
                    if type(v) in SIZED and not gc.is_tracked(v):
                        objects += len(v)
        objects += len(alive)
        del alive, o
        files = len(os.listdir("/proc/self/fd"))
        for i, x in enumerate((blocks, size, objects, files, own)):
            self.table[5 * self.n + i] = x
        self.n += 1

    def build(self):
        def hook(*a):
            if self.fail and self.sc["fault"] == "calc":
                self.fail -= 1
                if not self.fail:
                    self.hit += 1
                    raise Injected()
        self.config = world.build_config(self.sc["spec"])
        self.model = world.build_model(self.sc["spec"], hook if self.sc["spec"]["calc"] else None, self.config)

    def analysis(self, on_step):
        from KMCLib import KMCAnalysisPlugin

        class Observer(KMCAnalysisPlugin):
            def registerStep(self, step, time, configuration):
                on_step(step, time, configuration)
        return Observer()

    def run(self, steps, on_step, breakers=None):
        from KMCLib import KMCControlParameters
        sc = self.sc
        kw = {}
        if sc["traj"]:
            kw = {"trajectory_filename": "t.%s" % ("xyz" if sc["traj"] == "xyz" else "py"), "trajectory_type": sc["traj"]}
        params = KMCControlParameters(number_of_steps=steps, seed=sc["seed"], dump_interval=sc["dump"], analysis_interval=sc["analyse"])
        analysis = [self.analysis(on_step)]
        if sc["msd"]:
            from KMCLib import OnTheFlyMSD
            analysis.insert(0, OnTheFlyMSD(history_steps=5, n_bins=10, t_max=10.0, track_type=sc["msd"]))
        self.model.run(control_parameters=params, analysis=analysis, breakers=breakers, **kw)

    def nothing(self, *a):
        pass


def execute(sc, ctx):
    rng_setup(ctx, sc)
    s = Subject(ctx, sc)
    ctx.os.disk("t.")
    # (a text file keeps what is written to it for a while)
    old, sys.stdout = sys.stdout, s.out
    try:
        getattr(sys.modules[__name__], "do_" + sc["kind"])(sc, ctx, s)
    except (Violation, Stop, HarnessError):
        raise
    except Exception as e:
        if not is_end(e):
            def again():
                raise e
            ctx.sut(sc["kind"], again)
        ctx.count("ended_early")
        return
    finally:
        sys.stdout = old
    if sc["kind"] == "buffer":
        ctx.event(ctx.steps, os.path.getsize("t.xyz" if sc["traj"] == "xyz" else "t.py"))
        ctx.count("buffer")
        ctx.nontrivial = True
        return
    levels = [tuple(s.table[5 * i:5 * i + 5]) for i in range(s.n)]
    judge(sc, ctx, levels)
    for l in levels:
        ctx.state(l[0])
    ctx.event(sc["kind"], [l[0] for l in levels])
    ctx.count(sc["kind"])
    if s.hit:
        ctx.count("fault:" + sc["fault"], s.hit)
    ctx.nontrivial = True


def judge(sc, ctx, levels):
    """Growth at every one of the last repetitions."""
    what = {"steps": "%d further steps of a run", "calls": "every call of run() with %d steps", "models": "every model that ran %d steps "
            "and is gone", "queries": "%d rounds of queries", "faults": "every run of %d steps that a fault ends"}[sc["kind"]] % sc["block"]
    steps = sc["kind"] == "steps"
    last = levels[-sc["last"]:]
    for k, name, limit in ((0, "C++ objects", 0.1 * sc["block"] if steps else 1), (1, "bytes of C++ objects", 4 * sc["block"] if steps else 16),
                           (2, "Python objects and entries of containers", 0.1 * sc["block"] if steps else 1), (3, "open files", 1),
                           (4, "objects of KMCLib", 0.1 * sc["block"] if steps else 1)):
        grow = [b[k] - a[k] for a, b in zip(last, last[1:])]
        ctx.require(min(grow) < limit, "leak", "%s leaves more %s: %s", what, name, grow)


def do_steps(sc, ctx, s):
    s.build()
    done = [0]

    def on_step(step, time, configuration):
        ctx.steps += 1
        ctx.sim_time = time
        if step >= sc["block"] * (s.n + 1):
            s.mark()
    s.run(sc["block"] * (sc["reps"] + 1), on_step)


def do_buffer(sc, ctx, s):
    s.build()
    name = "t.xyz" if sc["traj"] == "xyz" else "t.py"
    seen = [0, 0]

    def on_step(step, time, configuration):
        ctx.steps += 1
        ctx.sim_time = time
        size = os.path.getsize(name)
        if size > seen[0]:
            seen[:] = [size, step]
        ctx.require(step - seen[1] <= sc["held"], "buffer", "%d frames of %d sites are held in memory and not in the file", step - seen[1],
                    len(sc["spec"]["types"]))
    s.run(sc["block"], ctx.guard(on_step))


def do_calls(sc, ctx, s):
    s.build()
    for i in range(sc["reps"]):
        s.run(sc["block"], s.nothing)
        ctx.steps += sc["block"]
        if sc["query"]:
            query(s.model, s.config, QUERIES)
        s.mark()


def do_models(sc, ctx, s):
    for i in range(sc["reps"]):
        # (the same events each time)
        ctx.rng.reset()
        rng_setup(ctx, sc)
        s.build()
        s.run(sc["block"], s.nothing)
        ctx.steps += sc["block"]
        if sc["query"]:
            query(s.model, s.config, QUERIES)
        s.model = s.config = None
        s.mark()


def do_queries(sc, ctx, s):
    s.build()
    s.run(sc["block"], s.nothing)
    for i in range(sc["reps"]):
        for j in range(sc["block"]):
            query(s.model, s.config, sc["queries"])
        s.mark()


def do_faults(sc, ctx, s):
    from KMCLib import KMCBreakerPlugin
    out = s.out
    fault = sc["fault"]

    class Breaker(KMCBreakerPlugin):
        def interval(self):
            return 1

        def evaluate(self, step, time, configuration):
            if step >= sc["at"]:
                s.hit += 1
                raise Injected()
            return False

    def on_step(step, time, configuration):
        if fault == "analysis" and step >= sc["at"]:
            s.hit += 1
            raise Injected()
        if fault == "output" and step >= sc["at"]:
            out.fails = True

    for i in range(sc["reps"]):
        if s.model is None or sc["new"]:
            s.model = s.config = None
            ctx.rng.reset()
            rng_setup(ctx, sc)
            s.fail = 0
            s.build()
            s.model._backend()
        s.fail = sc["at"] if fault == "calc" else 0
        out.fails = False
        if fault in ("eio", "enospc"):
            ctx.os.clear_faults()
            ctx.os.fault(ctx.os.ops() + 2 + sc["at"], ctx.os.EIO if fault == "eio" else ctx.os.ENOSPC, 0, 3)
        elif fault == "open":
            ctx.os.clear_faults()
            ctx.os.fault(ctx.os.ops(), ctx.os.EIO, 0, 1)
        elif fault == "sigint":
            ctx.rng.signal_at(ctx.rng.total() + 3 * sc["at"])
        try:
            s.run(sc["block"], on_step, [Breaker()] if fault == "breaker" else None)
        except Injected:
            pass
        except KeyboardInterrupt:
            s.hit += 1
        except OSError:
            s.hit += 1
        s.mark()


def query(model, config, names):
    for q in names:
        if q == "script":
            config._script()
        elif q == "events":
            for p in model._backend().interactions().processes():
                list(p.sites())
        elif q == "rates":
            model._backend().interactions().totalRate()
            model._backend().interactions().totalAvailableSites()
        elif q == "params":
            from KMCLib import KMCControlParameters
            KMCControlParameters(number_of_steps=1, seed=3)
        else:
            getattr(config, q)()


def shrink(sc):
    if sc["kind"] == "buffer":
        # (the size is what makes it fail)
        return
    for c in common.shrink(dict(sc, steps=1)):
        c.pop("steps", None)
        yield c
    if sc["traj"]:
        c = copy.deepcopy(sc)
        c["traj"] = None
        if sc.get("fault") not in ("eio", "enospc", "open"):
            yield c
    if sc["msd"]:
        yield dict(sc, msd=None)
    if len(sc.get("queries", ())) > 1:
        for q in sc["queries"]:
            c = copy.deepcopy(sc)
            c["queries"] = [q]
            yield c
