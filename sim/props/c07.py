"""C07: what a custom rate calculator is given, when it is called, and that caching is transparent."""
import copy
import math

from sim import world
from sim.history import Run, same_events, same_history
from sim.props import common
from sim.props.common import REAL, STUBS, ASSUMPTIONS          # noqa: F401
from sim.session import Session, close, gen_clock, gen_rng, rng_setup

ID = "C07"
RUNS = {"quick": 900, "thorough": 40000}
RULE = ("A run is one random system with a custom rate calculator whose calls are all recorded; the input of every call is compared "
        "with the reference, every event with changed surroundings must have been evaluated, and the rates must be those of the "
        "latest call. The same draws are then used with and without caching. Non-trivial: at least 50 calls.")
STATES = "inputs given to the calculator, by hash"
TIMEOUT = {"quick": 60.0, "thorough": 90.0}


def gen(rng, tier, index):
    if index % 20 == 13:
        return {"builtin": True, "spec": world.gen_builtin(rng), "steps": rng.randint(20, 120), "rng": gen_rng(rng),
                "clock": gen_clock(rng), "seed": rng.randint(1, 10 ** 6)}
    big = index % 50 == 7
    prof = world.Profile(calc=True, max_sites=rng.choice([20, 50, 90]), max_procs=6, reversible=0.85)
    prof.calc_modes = ("env", "env", "process", "global", "mixed", "wide")
    prof.cache = rng.random() < 0.6
    if big:
        # More environments than the table of stored rates holds.
        prof.max_sites, prof.cache, prof.bucket, prof.max_procs, prof.calc_modes = 200, True, False, 4, ("env", "mixed")
    for _ in range(300):
        spec = world.gen_spec(rng, prof)
        if not big or (len(spec["types"]) > 120 and len(spec["possible"]) > 2):
            break
    calc = spec["calc"]
    if calc["cutoff"] == 1.0 and rng.random() < 0.3:
        calc["cutoff"] = None
    if not calc["cache"] and calc["mode"] != "mixed" and rng.random() < 0.2:
        # Excluding has no effect without caching.
        calc["exclude"] = [0]
    return {"spec": spec, "steps": 260 if big else rng.randint(3, 50), "rng": gen_rng(rng), "clock": gen_clock(rng),
            "seed": rng.randint(1, 10 ** 6), "big": big, "drift": rng.random() < 0.3, "calls": rng.choice([1, 1, 2])}


def shrink(sc):
    for c in common.shrink(sc):
        # (the builtin calculators are made for their system)
        if not sc.get("builtin") or c["spec"] == sc["spec"]:
            yield c


def execute_builtin(sc, ctx):
    """A builtin calculator, referred to by its name, and the same function as a plugin."""
    spec = sc["spec"]
    rng_setup(ctx, sc)
    ses = Session(ctx, spec)
    ctx.sut("setting up the backend", ses.model._backend)
    ses.check_rates(ses.check_listed("initially: "), "initially: ")
    events = []

    def step(step_, time, configuration):
        ses.follow()
        what = "after step %d with the builtin calculator: " % step_
        ses.check_rates(ses.check_listed(what), what)
        ses.check_state(what)
        events.append((step_, time) + ses.last)
        ctx.sim_time = time
        ctx.state(tuple(ses.state))
    ses.run(sc["steps"], step, seed=sc["seed"])
    ctx.count("fault:boundary_draws", ctx.rng.biased())
    plain = copy.deepcopy(spec)
    del plain["calc"]["builtin"]
    rng_setup(ctx, sc)
    config = []

    def hook(calculator, *a):
        ctx.require(calculator.configuration is config[0], "configuration", "the calculator is given %r instead of the configuration",
                    calculator.configuration)

    def interactions():
        inter = world.build_interactions(plain)
        if spec["calc"]["twice"]:
            # The latest one counts.
            inter.setRateCalculator(spec["calc"]["builtin"])
        inter.setRateCalculator(world.make_calculator(plain, ctx.guard(hook)))
        return inter
    other = Run(ctx, plain, interactions=ctx.sut("interactions", interactions))
    config.append(other.config)
    other.run(sc["steps"], seed=sc["seed"])
    same_history(ctx, events, other.history, "builtin", "with the builtin calculator and with the same plugin")
    ctx.count("builtin_calculators")
    ctx.nontrivial = len(events) >= 10


def execute(sc, ctx):
    if sc.get("builtin"):
        return execute_builtin(sc, ctx)
    spec = sc["spec"]
    calc = spec["calc"]
    rng_setup(ctx, sc)
    pending = []
    factor = [1.0]
    anew = set(range(len(spec["procs"]))) - (set() if not calc["cache"] else
                                             set(range(len(spec["procs"]))) - set(calc["exclude"]))

    def hook(calculator, entries, k, p, g, nc, nb, na, rate):
        ctx.require(0 <= p < len(spec["procs"]) and int(p) == p, "process-number", "the calculator is given process number %r", p)
        # A rate may depend on the time of its evaluation if it is not cached.
        r = rate * factor[0] if (sc["drift"] and p in anew) else rate
        pending.append((int(p), g, entries, k, (nc, nb, na), r))
        return r

    ses = Session(ctx, spec, rate_hook=ctx.guard(hook))
    ref = ses.ref
    periodic = all(spec["per"])
    seen = {}
    latest = {}
    total_calls = [0]
    keys = set()

    def verify(what, before):
        """All calls since the last time, and what must have been called."""
        called = set()
        for p, g, entries, k, lengths, r in pending:
            s = ref.site_at(g)
            ctx.require(s is not None and s >= 0 and max(abs(g[d] - ref.coords[s][d]) for d in range(3)) < 1e-6,
                        "coordinate", "%sprocess %d is evaluated at %s, which is no lattice site", what, p, g)
            ctx.require((p, s) in ses.avail, "call", "%sprocess %d is evaluated at site %d, where it does not match", what, p, s)
            ctx.require(close(k, spec["procs"][p]["rate"], 1e-12), "rate-constant", "%sprocess %d is evaluated with rate constant %r", what, p, k)
            ctx.require(lengths[0] == lengths[1] == lengths[2], "lengths",
                        "%sprocess %d at site %d: %d coordinates, %d types before and %d types after", what, p, s, *lengths)
            want = ref.rate_input(p, s, ses.state)
            compare(ctx, what, p, s, entries, want)
            key = (p, s) if not periodic else (p, s % ref.nb)
            key += (tuple((tuple(int(math.floor(x * 64 + 0.5)) for x in e[0]), e[1], e[2]) for e in want),)
            if p not in anew:
                if len(keys) < 7000:
                    ctx.require(seen.get(key, what) == what, "cache", "%sprocess %d at site %d is evaluated again for surroundings "
                                "that were evaluated before, although its rates are to be stored", what, p, s)
                keys.add(key)
            seen[key] = what
            called.add((p, s))
            latest[(p, s)] = r
            ctx.state(p, key[2:])
        total_calls[0] += len(pending)
        del pending[:]
        for k in ses.avail:
            if k[0] not in anew or k in ses.edge or k in ses.hang:
                continue
            if k not in called:
                changed = before is None or k not in before[1] or ref.rate_input(k[0], k[1], before[0]) != ref.rate_input(k[0], k[1], ses.state)
                ctx.require(not changed, "not-called", "%sthe surroundings of process %d at site %d changed, but its rate was not "
                            "evaluated", what, *k)
        if sc["drift"]:
            for k in ses.avail:
                if k[0] in anew and k in latest:
                    ses.avail[k] = latest[k]

    ctx.sut("setting up the backend", ses.model._backend)
    verify("initially: ", None)
    ses.check_rates(ses.check_listed("initially: "), "initially: ")

    def step(step_, time, configuration):
        ses.follow()
        what = "after step %d of call %d: " % (step_, call)
        verify(what, ses.before)
        ses.check_rates(ses.check_listed(what), what)
        factor[0] = 1.0 + ((step_ * 7) % 5) / 4.0
        ctx.sim_time = time

    for call in range(sc["calls"]):
        if ses.run(sc["steps"], step, seed=sc["seed"] + call) == "end":
            break
    ctx.count("calls", total_calls[0])
    ctx.count("fault:boundary_draws", ctx.rng.biased())
    ctx.count("distinct_environments", len(keys))
    if len(keys) > 8192:
        ctx.count("runs_with_evictions")
    ctx.nontrivial = total_calls[0] >= 50

    # Missing events near edges are C02's finding.
    ctx.known.clear()

    # The other way around the cache.
    if sc["drift"] or calc["mode"] == "global":
        return
    runs = []
    for cache in (False, True):
        s = copy.deepcopy(spec)
        s["calc"]["cache"] = cache
        rng_setup(ctx, sc)
        n = [0]

        def count(*a):
            n[0] += 1
        r = Run(ctx, s, rate_hook=count)
        r.run(sc["steps"], seed=sc["seed"])
        runs.append((r, n[0]))
    (a, na), (b, nb) = runs
    same_history(ctx, a.history, b.history, "caching", "without and with stored rates")
    ctx.require(a.how == b.how, "caching", "without stored rates the run ended with %s, with them with %s", a.how, b.how)
    ctx.require(a.state() == b.state(), "caching", "the final configurations differ without and with stored rates")
    same_events(ctx, a.events(), b.events(), "caching", "without and with stored rates")
    ctx.require(nb <= na, "caching", "storing rates takes %d instead of %d evaluations", nb, na)
    ctx.count("pairs_with_and_without_cache")


def compare(ctx, what, p, s, have, want):
    """The input of one call and that of the reference (in any order among equally distant sites)."""
    def q(off):
        return tuple(int(math.floor(x * 4096.0 + 0.5)) for x in off)
    w = dict((q(e[0]), (e[1], e[2])) for e in want)
    h = dict((q(e[0]), (e[1], e[2])) for e in have)
    ctx.require(len(h) == len(have), "input", "%sprocess %d at site %d is given a site twice", what, p, s)
    for off in w:
        if off not in h:
            ctx.violate("input", "%sprocess %d at site %d is not given the site at %s" % (what, p, s, [x / 4096.0 for x in off]))
    for off in h:
        if off not in w:
            ctx.violate("input", "%sprocess %d at site %d is given %s, which is not within the cutoff" % (
                what, p, s, [x / 4096.0 for x in off]))
        if h[off] != w[off]:
            ctx.violate("input", "%sprocess %d at site %d: types at %s are %s before and %s after instead of %s and %s" % (
                what, p, s, [x / 4096.0 for x in off], h[off][0], h[off][1], w[off][0], w[off][1]))
    last = 0.0
    for e in have:
        d = math.sqrt(sum(x * x for x in e[0]))
        ctx.require(d >= last - 1e-4, "order", "%sprocess %d at site %d: the sites are not given nearest first", what, p, s)
        last = d
