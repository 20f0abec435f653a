"""C12: a run can be split and continued."""
import copy

from sim import world
from sim.history import Run, same_events, same_history
from sim.props import common
from sim.props.common import REAL, STUBS, ASSUMPTIONS          # noqa: F401
from sim.session import gen_clock, rng_setup

ID = "C12"
RUNS = {"quick": 3000, "thorough": 50000}
RULE = ("A run is one random system advanced once in one piece and once in random pieces (empty ones included) with queries in "
        "between, under the same random numbers. Non-trivial: at least 3 pieces and 5 steps.")
STATES = "pairs (configuration, event lists) where a run was split, by hash"
QUERIES = ["types", "atomIDTypes", "atomIDCoordinates", "particlesPerType", "movedAtomIDs", "latestEventProcess", "possibleTypes",
           "sites", "cellRepetitions", "script", "model_script", "events", "rates", "seed"]


def gen(rng, tier, index):
    prof = world.Profile(max_sites=rng.choice([20, 60, 120]))
    spec = world.gen_spec(rng, prof)
    pieces = [rng.choice([0, 1, 1, 2, 3, 5, 10, 20]) for _ in range(rng.randint(2, 7))]
    return {"spec": spec, "pieces": pieces, "queries": [rng.sample(QUERIES, rng.randint(0, 4)) for _ in pieces],
            "rng": {"tail": rng.choice(["sim", "sim", "biased"]), "state": rng.getrandbits(63)}, "clock": gen_clock(rng),
            "opts": [{"dump": rng.choice([None, 1, 3]), "seed": rng.randint(1, 99999),
                      "rng_type": rng.choice(["MT", "MINSTD", "RANLUX24"])} for _ in pieces]}


def execute(sc, ctx):
    spec = sc["spec"]
    rng_setup(ctx, sc)
    total = sum(sc["pieces"])

    def in_one_piece():
        one = Run(ctx, spec)
        one.run(total, what="the run in one piece")
        return (one.history, one.how, ctx.rng.biased(),
                (one.state(), one.atoms(), one.events(), [int(n) for n in one.config.particlesPerType()]))
    one_history, one_how, one_biased, final = ctx.isolated(in_one_piece)
    rng_setup(ctx, sc)
    many = Run(ctx, spec)
    n = 0
    for i, (k, q, o) in enumerate(zip(sc["pieces"], sc["queries"], sc["opts"])):
        before = len(many.history)
        kw = {}
        if o["dump"] is not None:
            kw = {"dump_interval": o["dump"], "trajectory_filename": "piece%d.py" % i}
        how = many.run(k, seed=o["seed"], rng_type=o["rng_type"], what="piece %d" % i, **kw)
        steps = [h[0] for h in many.history[before:]]
        ctx.require(steps == list(range(1, len(steps) + 1)), "numbering", "piece %d numbers its steps %s", i, steps[:8])
        n += 1
        if how == "end":
            break
        ctx.sut("queries between runs", queries, many, q, ctx)
        ctx.state(many.state(), many.events())
    a = [(0,) + h[1:] for h in one_history]
    b = [(0,) + h[1:] for h in many.history]
    same_history(ctx, a, b, "history", "in one piece and in %s" % sc["pieces"])
    have = (many.state(), many.atoms(), many.events(), many.config.particlesPerType())
    ctx.require(have[0] == final[0], "configuration", "the final configurations differ")
    ctx.require(have[1] == final[1], "atoms", "the final atom ids, types or coordinates differ")
    same_events(ctx, final[2], have[2], "events", "after the last step")
    ctx.require(list(have[3]) == list(final[3]), "particles", "the particle counts differ")
    ctx.require(one_how == many.how or (one_how == "done" and many.how == "end" and not many.events()[0][0]) or total == 0
                or many.how == "end" or one_how == "end", "end", "one run ended with %s, the other with %s", one_how, many.how)
    ctx.event(b)
    ctx.steps = len(a) + len(b)
    ctx.sim_time = one_history[-1][1] if one_history else 0.0
    ctx.count("pieces", n)
    ctx.count("fault:boundary_draws", one_biased + ctx.rng.biased())
    ctx.nontrivial = n >= 3 and len(a) >= 5


def queries(run, names, ctx):
    for q in names:
        if q == "script":
            if not run.spec["bucket"]:
                run.config._script()
        elif q == "model_script":
            if not run.spec["bucket"]:
                run.model._script()
        elif q == "events":
            run.events()
        elif q == "rates":
            run.model._backend().interactions().totalRate()
            run.model._backend().interactions().totalAvailableSites()
        elif q == "seed":
            # Uses no random number, but reads the whole state.
            run.state()
            run.atoms()
        else:
            getattr(run.config, q)()


def shrink(sc):
    for i in range(len(sc["pieces"])):
        if len(sc["pieces"]) > 1:
            c = copy.deepcopy(sc)
            for k in ("pieces", "queries", "opts"):
                del c[k][i]
            yield c
        for m in (0, sc["pieces"][i] // 2, sc["pieces"][i] - 1):
            if 0 <= m < sc["pieces"][i]:
                c = copy.deepcopy(sc)
                c["pieces"][i] = m
                yield c
        if sc["queries"][i]:
            c = copy.deepcopy(sc)
            c["queries"][i] = []
            yield c
        if sc["opts"][i]["dump"] is not None:
            c = copy.deepcopy(sc)
            c["opts"][i]["dump"] = None
            yield c
    for c in common.shrink(sc):
        yield c
