"""C05: a seed determines the trajectory."""
import json
import os
import subprocess
import sys

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))

from sim import world
from sim.history import Run, same_history
from sim.props import common
from sim.props.common import REAL, STUBS, ASSUMPTIONS          # noqa: F401
from sim.session import gen_clock, rng_setup

ID = "C05"
RUNS = {"quick": 1020, "thorough": 20000}
RULE = ("A run is one random system executed with one seed in several environments: with other clocks, after other models, with "
        "trajectories, analyses and breakers, and (every sixth run) in fresh interpreters with another hash seed and memory pattern; "
        "all draws are compared with an independent implementation of the stream. Non-trivial: at least 5 steps.")
STATES = "histories, by hash"


def gen(rng, tier, index):
    spec = world.gen_spec(rng, world.Profile(max_sites=rng.choice([12, 40, 80]), reversible=0.9))
    other = world.gen_spec(rng, world.Profile(max_sites=30))
    return {"spec": spec, "other": other, "steps": rng.randint(3, 40), "rng": {"tail": "real", "state": 1},
            "rng_type": rng.choice(["MT", "MT", "MINSTD", "RANLUX24", "RANLUX48"]),
            "seed": rng.choice([rng.randint(1, 1000), rng.randint(1, 2 ** 31 - 1), 2 ** 31 - 1, 1, 13]),
            "clock": gen_clock(rng), "clock2": gen_clock(rng), "fresh": index % 6 == 0, "hashseed": rng.randint(1, 10 ** 6),
            "perturb": rng.randint(1, 255), "traj": rng.choice(["lattice", "xyz"]), "dump": rng.randint(1, 4),
            "analyse": rng.randint(1, 3), "gap": rng.randint(1, 100000)}


def stream(ctx, sc, seed, start, what):
    """Compares with the standard library's generator (up to rounding: KMCLib is built with fast math)."""
    have = ctx.rng.log(start)
    want = ctx.reflib.draws(sc["rng_type"], seed, len(have))
    for i, (x, y) in enumerate(zip(have, want)):
        ctx.require(abs(x - y) <= 1e-12, "stream", "%s: draw %d of %s with seed %d is %r instead of %r", what, i, sc["rng_type"], seed, x, y)
    return len(have)


def ending(r):
    """The types at the end as KMCLib gives them, in its order."""
    return json.loads(json.dumps([r.config.types(), r.config.atomIDTypes(), [int(x) for x in r.config.particlesPerType()],
                                  sorted(r.config.possibleTypes().items())]))


def execute(sc, ctx):
    spec = sc["spec"]
    rng_setup(ctx, sc)
    a = Run(ctx, spec)
    a.run(sc["steps"], seed=sc["seed"], rng_type=sc["rng_type"])
    final = ending(a)
    n = stream(ctx, sc, sc["seed"], 0, "first run")
    ctx.count("draws_compared", n)
    # A second call of run() starts the stream of its own seed.
    if a.how == "done":
        first = list(a.history)
        at = ctx.rng.count()
        a.run(5, seed=sc["seed"] // 2 + 1, rng_type=sc["rng_type"])
        stream(ctx, sc, sc["seed"] // 2 + 1, at, "second run")
        a.history = first
    ctx.event(a.history)

    # Another model before it, another clock, and everything attached that should not matter.
    ctx.os.clock(sc["clock2"]["now"], sc["clock2"].get("tick", 0.0), sc["clock2"].get("jumps", ()))
    junk = Run(ctx, sc["other"])
    junk.run(3, seed=7)
    b = Run(ctx, spec)
    from KMCLib import KMCAnalysisPlugin, KMCBreakerPlugin

    class Watch(KMCAnalysisPlugin):
        def registerStep(self, step, time, configuration):
            configuration.types()
            configuration.atomIDCoordinates()
            configuration.particlesPerType()

    class Never(KMCBreakerPlugin):
        def evaluate(self, step, time, configuration):
            configuration.movedAtomIDs()
            return False

    kw = {"dump_interval": sc["dump"]}
    if not (spec["bucket"] and sc["traj"] == "xyz"):
        kw.update({"trajectory_filename": "t.out", "trajectory_type": sc["traj"]})
    at = ctx.rng.count()
    b.run(sc["steps"], seed=sc["seed"], rng_type=sc["rng_type"], analysis=[Watch()], breakers=[Never()], **kw)
    stream(ctx, sc, sc["seed"], at, "run with observers")
    ctx.count("fault:clock_jumps", ctx.os.clock_jumped())
    ctx.require(ending(b) == final, "environment", "the types after the run are %s alone, and %s with another clock and observers", final, ending(b))
    same_history(ctx, a.history, b.history, "environment", "alone, and with another clock and observers")
    ctx.require(a.how in (b.how, "end", "done"), "environment", "ends differ")

    # The interval of the analysis does not matter either.
    c = Run(ctx, spec)
    c.run(sc["steps"], seed=sc["seed"], rng_type=sc["rng_type"], analysis_interval=sc["analyse"])
    same_history(ctx, [h for h in a.history if h[0] % sc["analyse"] == 0], c.history, "environment", "with every and with some steps analysed")

    # Without a seed the clock decides.
    def timed(now):
        ctx.os.clock(now, 0.0, ())
        r = Run(ctx, spec)
        at = ctx.rng.count()
        r.run(4, seed=None, rng_type=sc["rng_type"])
        return r, ctx.rng.log(at)
    now = sc["clock"]["now"] + 1000.0
    x, dx = timed(now)
    y, dy = timed(now)
    same_history(ctx, x.history, y.history, "time-seed", "two runs without a seed at the same time")
    z, dz = timed(now + sc["gap"])
    if dx and dz:
        ctx.require(dx != dz, "time-seed", "runs without a seed at different times use the same random numbers")
    ctx.os.clock_off()

    if sc["fresh"]:
        ctx.count("fresh_interpreters")
        env = dict(os.environ)
        env.update({"PYTHONHASHSEED": str(sc["hashseed"]), "MALLOC_PERTURB_": str(sc["perturb"]), "MALLOC_ARENA_MAX": "1"})
        env.pop("LD_PRELOAD", None)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), ctx.built], input=json.dumps(sc), text=True, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        out = [line for line in p.stdout.splitlines() if line.startswith("HISTORY ")]
        if p.returncode != 0 or not out:
            ctx.violate("environment", "the run in a fresh interpreter failed: %s" % p.stderr[-400:])
        h = [tuple(e) for e in json.loads(out[0][8:])]
        other = json.loads([line for line in p.stdout.splitlines() if line.startswith("ENDING ")][0][7:])
        ctx.require(other == final, "environment", "the types after the run are %s here, and %s in a fresh interpreter with hash seed %d",
                    final, other, sc["hashseed"])
        same_history(ctx, a.history, h, "environment", "here, and in a fresh interpreter with hash seed %d" % sc["hashseed"])
    ctx.state(a.history)
    ctx.steps = 3 * len(a.history)
    ctx.sim_time = a.history[-1][1] if a.history else 0.0
    ctx.nontrivial = len(a.history) >= 5


def fresh():
    """In a fresh interpreter, with nothing simulated."""
    sys.dont_write_bytecode = True
    sc = json.load(sys.stdin)
    from sim.core import Ctx
    import KMCLib                                          # noqa: F401
    r = Run(Ctx(None, None, None, "."), sc["spec"])
    r.run(sc["steps"], seed=sc["seed"], rng_type=sc["rng_type"])
    print("\nHISTORY " + json.dumps(r.history))
    print("ENDING " + json.dumps(ending(r)))


def shrink(sc):
    import copy
    if sc["fresh"]:
        c = copy.deepcopy(sc)
        c["fresh"] = False
        yield c
    for c in common.shrink(sc):
        yield c
    for s in common.shrink_spec(sc["other"]):
        c = copy.deepcopy(sc)
        c["other"] = s
        yield c


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(sys.argv[1], "site"))
    fresh()
