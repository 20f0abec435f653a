"""C17: memory safety: no history and no input makes the backend touch what it does not own, or brings the interpreter down."""
import copy
import importlib
import random

from sim.core import Stop, Violation
from sim.props import common
from sim.props.common import REAL, STUBS          # noqa: F401

ID = "C17"
VARIANT = "memory"
# Only what the sanitizers, the standard library or the kernel end counts here.
ONLY = ("crash",)
RUNS = {"quick": 900, "thorough": 50000}
TIMEOUT = {"quick": 120.0, "thorough": 240.0}
RULE = ("A run is a scenario of another property (histories with faults, callbacks that fail, reads, resets, trajectories, analyses, "
        "scripts, several models, malformed calls), or six systems that make no sense, executed with a backend that is instrumented for "
        "invalid memory accesses and undefined behaviour. Non-trivial: at least one step, or a senseless system.")
STATES = "states of the scenarios, by hash"
ASSUMPTIONS = ["numbers of particles up to 1000 per site, cutoffs up to 5 cells, as memory is allocated for them",
               "a backend compiled with -O1 and the sanitizers stands for the one that is shipped",
               "alignment and vptr checks are left out; reads of memory that was never written are not seen here (C05 sees their effect)"]
SOURCES = ["c01", "c02", "c03", "c03", "c04", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c16"]


def gen(rng, tier, index):
    if rng.random() < 0.35:
        return {"senseless": [rng.getrandbits(40) for _ in range(6)]}
    name = rng.choice(SOURCES)
    mod = importlib.import_module("sim.props." + name)
    return {"source": name, "sc": mod.gen(random.Random(rng.getrandbits(64)), "quick", index)}


def execute(sc, ctx):
    if "senseless" in sc:
        for seed in sc["senseless"]:
            nonsense(ctx, seed)
        ctx.nontrivial = True
        return
    mod = importlib.import_module("sim.props." + sc["source"])
    ctx.count("scenarios of " + sc["source"].upper())
    try:
        mod.execute(sc["sc"], ctx)
    except (Violation, Stop):
        pass
    finally:
        if ctx.violations:
            # (another property's business)
            del ctx.violations[:]
            ctx.harness = None
            ctx.count("violations_of_other_properties")
        ctx.known.clear()
    ctx.nontrivial = ctx.steps > 0


def nonsense(ctx, seed):
    import KMCLib as kmc
    from sim.props import malformed
    ctx.count("fault:senseless system")
    try:
        steps = malformed.senseless(random.Random(seed), kmc)
        ctx.count("senseless_accepted")
        ctx.steps += steps
        ctx.state("senseless", seed)
    except Exception as e:
        ctx.count("senseless_without_processes" if "available processes" in str(e) else "senseless_refused")
        ctx.state("refused", type(e).__name__, str(e)[:60])


def shrink(sc):
    if "senseless" in sc:
        if len(sc["senseless"]) > 1:
            for s in sc["senseless"]:
                yield {"senseless": [s]}
        return
    mod = importlib.import_module("sim.props." + sc["source"])
    for c in mod.shrink(copy.deepcopy(sc["sc"])):
        yield {"source": sc["source"], "sc": c}
