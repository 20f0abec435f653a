"""C16: malformed input is refused without consequences."""
import copy
import os
import random

from sim import world
from sim.history import Run, same_events, same_history
from sim.props import common
from sim.props.common import REAL, STUBS          # noqa: F401
from sim.session import gen_clock, rng_setup

ID = "C16"
RUNS = {"quick": 2500, "thorough": 80000}
RULE = ("A run is one random system advanced in pieces, once undisturbed and once with malformed calls (constructors, and run() of the model "
        "itself) between and during the pieces; each must be refused with an Error. "
        "Non-trivial: at least 3 malformed calls and 3 steps.")
STATES = "pairs (malformed call, state of the model it was made at), by hash"
ASSUMPTIONS = common.ASSUMPTIONS
BUILD = ["unit_cell", "lattice", "configuration", "process", "bucket_process", "local_configuration", "interactions", "model", "foreign",
         "parameters", "analysis", "scripts"]


def gen(rng, tier, index):
    prof = world.Profile(max_sites=rng.choice([8, 20, 60]), calc=rng.random() < 0.3)
    spec = world.gen_spec(rng, prof)
    pieces = [rng.choice([0, 1, 2, 5, 10]) for _ in range(rng.randint(1, 4))]
    bad = []
    for _ in range(rng.randint(3, 12)):
        piece = rng.randrange(len(pieces) + 1)
        step = rng.randint(1, 5) if piece < len(pieces) and rng.random() < 0.3 else 0
        bad.append({"piece": piece, "step": step, "seed": rng.getrandbits(40),
                    "what": rng.choice(BUILD + ["run"] * 5)})
    return {"spec": spec, "pieces": pieces, "bad": bad, "traj": [rng.choice([None, "lattice", "xyz"]) for _ in pieces],
            "rng": {"tail": rng.choice(["sim", "real", "real", "biased"]), "state": rng.getrandbits(63)}, "clock": {"now": gen_clock(rng)["now"], "tick": 0.0}}


def execute(sc, ctx):
    spec = sc["spec"]

    def undisturbed():
        return pieces(sc, ctx, "a", [])
    want = ctx.isolated(undisturbed)
    have = pieces(sc, ctx, "b", sc["bad"])
    same_history(ctx, want[0], have[0], "consequences", "without and with malformed calls")
    ctx.require(want[1] == have[1], "consequences", "the run ends as %s instead of %s", have[1], want[1])
    for w, h, what in zip(want[2], have[2], ("configurations", "atoms", "numbers of particles")):
        ctx.require(w == h, "consequences", "the %s differ without and with malformed calls", what)
    same_events(ctx, want[3], have[3], "consequences", "without and with malformed calls")
    for i, (w, h) in enumerate(zip(want[4], have[4])):
        ctx.require(w == h, "consequences", "the trajectory of piece %d differs without and with malformed calls", i)
    ctx.event(have[0])
    ctx.steps = len(want[0]) + len(have[0])
    ctx.sim_time = (have[0] or [(0, 0.0)])[-1][1]
    ctx.nontrivial = len(sc["bad"]) >= 3 and len(have[0]) >= 3


def pieces(sc, ctx, prefix, bad):
    rng_setup(ctx, sc)
    run = Run(ctx, sc["spec"])
    files = []
    for i, (n, traj) in enumerate(zip(sc["pieces"], sc["traj"])):
        name = files[-1] if files else "%sx" % prefix
        before(sc, ctx, run, [b for b in bad if b["piece"] == i and not b["step"]], name)

        def hook(step, time, cfg):
            during = [b for b in bad if b["piece"] == i and b["step"] == step]
            if during:
                ctx.guard(before)(sc, ctx, run, during, files[-1] if files else None)
        run.hook = hook
        kw = {}
        if traj is not None:
            files.append("%s%d" % (prefix, i))
            kw = {"trajectory_filename": files[-1], "trajectory_type": traj}
        how = run.run(n, seed=i + 1, what="piece %d" % i, **kw)
        if how == "end":
            break
    before(sc, ctx, run, [b for b in bad if b["piece"] == len(sc["pieces"])], None)
    data = []
    for f in files:
        # (a run that finds no process at its start writes nothing)
        if os.path.exists(f):
            with open(f, "rb") as x:
                data.append(x.read())
        else:
            data.append(None)
    return (run.history, run.how, (run.state(), run.atoms(), [int(n) for n in run.config.particlesPerType()]), run.events(), data)


def before(sc, ctx, run, bad, name):
    import KMCLib as kmc
    from KMCLib.Exceptions.Error import Error
    from sim.props import malformed
    for b in bad:
        r = random.Random(b["seed"])
        spec = sc["spec"]
        make = getattr(malformed, b["what"])
        if b["what"] == "configuration":
            e = make(r, spec, kmc, run.config.lattice())
        elif b["what"] == "interactions":
            e = make(r, spec, kmc, world.build_processes(spec))
        elif b["what"] == "foreign":
            e = make(r, spec, kmc, run.config)
        elif b["what"] == "model":
            e = make(r, spec, kmc, run.config, world.build_interactions(spec))
        elif b["what"] == "run":
            e = make(r, spec, kmc, run.model, name or "bx")
        else:
            e = make(r, spec, kmc)
        if e is None:
            continue
        what, args, call = e
        if what == "run: track" and b["step"]:
            # (the run starts and seeds the random numbers before its analysis finds out)
            continue
        text = repr(args)
        try:
            call()
            ctx.violate("accepted", "%s: malformed input is accepted: %s" % (what, text[:600]))
        except Error:
            pass
        except Exception as x:
            ctx.violate("refusal", "%s: malformed input gives %s (%s) instead of an Error: %s" % (what, type(x).__name__, str(x)[:100], text[:400]))
        ctx.require(repr(args) == text, "arguments", "%s: the arguments were changed to %r", what, args)
        ctx.count("fault:malformed %s" % b["what"].replace("_", " "))
        if b["step"]:
            ctx.count("during_a_step")
        ctx.state(what, run.state())


def shrink(sc):
    for k in ("bad",):
        if len(sc[k]) > 1:
            c = copy.deepcopy(sc)
            c[k] = c[k][:len(c[k]) // 2]
            yield c
            c = copy.deepcopy(sc)
            c[k] = c[k][len(c[k]) // 2:]
            yield c
        for i in range(len(sc[k])):
            c = copy.deepcopy(sc)
            del c[k][i]
            yield c
    for i in range(len(sc["pieces"])):
        if sc["pieces"][i]:
            c = copy.deepcopy(sc)
            c["pieces"][i] //= 2
            yield c
        if sc["traj"][i]:
            c = copy.deepcopy(sc)
            c["traj"][i] = None
            yield c
    for c in common.shrink(sc):
        yield c
