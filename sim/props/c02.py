"""C02: the listed events and their rates equal a from-scratch match after every step."""
from sim import world
from sim.props import common
from sim.props.common import REAL, STUBS, ASSUMPTIONS          # noqa: F401
from sim.session import Session, gen_clock, gen_rng, is_end, rng_setup

ID = "C02"
RUNS = {"quick": 1400, "thorough": 40000}
RULE = ("A run is one random lattice, configuration, process list and (often) rate calculator, advanced under a random or "
        "boundary biased random source; after every step the event lists, counts and rates of the backend are compared with a "
        "from-scratch match of the reference. Non-trivial: at least 5 steps in which the set of available events changed.")
STATES = "pairs (set of available events, configuration), by hash"


def gen_large(rng):
    """More sites than numbers of 16 bits; matched by arithmetic on the indices."""
    while True:
        rep = [rng.choice([1, rng.randint(5, 400), rng.choice([8, 40, 250]), 70000]) for _ in range(3)]
        nb = rng.choice([1, 1, 2])
        if 66000 < rep[0] * rep[1] * rep[2] * nb < 110000:
            break
    # (open edges: see edge-wildcards)
    per = [r > 1 for r in rep]
    types = ["A", "B", "C"]
    procs = []
    for _ in range(rng.randint(1, 3)):
        d = rng.choice([k for k in range(3) if rep[k] > 1])
        a, b = rng.sample(types, 2)
        procs.append([d, rng.choice([-1, 1]), a, b, rng.randrange(nb), float("%.4g" % rng.uniform(0.1, 5.0))])
    return {"large": True, "rep": rep, "per": per, "nb": nb, "procs": procs, "types": types, "state": rng.getrandbits(63), "few": rng.random() < 0.5,
            "steps": rng.randint(2, 6), "rng": gen_rng(rng), "clock": gen_clock(rng)}


def execute_large(sc, ctx):
    import random
    import numpy
    from KMCLib import KMCAnalysisPlugin, KMCConfiguration, KMCControlParameters, KMCInteractions, KMCLattice, KMCLatticeModel, KMCProcess
    from KMCLib import KMCUnitCell
    rng_setup(ctx, sc)
    rep, per, nb = sc["rep"], sc["per"], sc["nb"]
    rnd = random.Random(sc["state"])
    n = rep[0] * rep[1] * rep[2] * nb
    if sc["few"]:
        names = ["C"] * n
        for _ in range(40):
            names[rnd.randrange(n)] = rnd.choice(sc["types"])
        for d, _, a, b, basis, _ in sc["procs"]:
            # At least one event, far from the first site.
            i = (n // nb - 1) * nb + basis
            names[i] = a
    else:
        names = [rnd.choice(sc["types"]) for _ in range(n)]
    cell = KMCUnitCell(cell_vectors=numpy.identity(3), basis_points=[[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]][:nb])
    config = KMCConfiguration(lattice=KMCLattice(unit_cell=cell, repetitions=tuple(rep), periodic=tuple(per)), types=list(names),
                              possible_types=list(sc["types"]))
    procs = []
    for d, way, a, b, basis, rate in sc["procs"]:
        off = [0.0, 0.0, 0.0]
        off[d] = float(way)
        procs.append(KMCProcess(coordinates=[[0.0, 0.0, 0.0], off], elements_before=[a, b], elements_after=[b, a], basis_sites=[basis],
                                rate_constant=rate))
    model = KMCLatticeModel(configuration=config, interactions=KMCInteractions(processes=procs, implicit_wildcards=True))
    now = numpy.array([sc["types"].index(t) for t in names]).reshape(rep + [nb])
    number = numpy.arange(n).reshape(rep + [nb])

    def matches():
        out = []
        for d, way, a, b, basis, rate in sc["procs"]:
            ok = (now == sc["types"].index(a)) & (numpy.roll(now, -way, d) == sc["types"].index(b))
            if not per[d]:
                edge = [slice(None)] * 4
                edge[d] = rep[d] - 1 if way > 0 else 0
                ok[tuple(edge)] = False
            out.append(sorted(int(i) for i in number[..., basis][ok[..., basis]]))
        return out

    def compare(what):
        want = matches()
        total = 0.0
        inter = model._backend().interactions()
        for k, p in enumerate(inter.processes()):
            have = sorted(int(i) for i in p.sites())
            ctx.require(have == want[k], "large", "%sprocess %d is listed at %d sites instead of %d, the first difference at %s", what, k,
                        len(have), len(want[k]), sorted(set(have) ^ set(want[k]))[:3])
            total += len(want[k]) * sc["procs"][k][5]
        have = inter.totalRate()
        ctx.require(abs(have - total) <= 1e-9 * total, "large", "%sthe rate is %r instead of %r", what, have, total)
        ctx.state([len(w) for w in want])
        ctx.event([len(w) for w in want], "%.9g" % have)
        return want

    want = [compare("initially: ")]
    if not any(want[0]):
        return
    done = []

    class Watch(KMCAnalysisPlugin):
        def registerStep(self, step, time, configuration):
            look(step, time, configuration)

    def look(step, time, configuration):
        p, s = configuration.latestEventProcess(), configuration.latestEventSite()
        ctx.require(s in want[0][p], "large", "process %d was performed at site %d, where it does not match", p, s)
        d, way = sc["procs"][p][:2]
        at = [int(x) for x in numpy.unravel_index(s, rep + [nb])]
        to = list(at)
        to[d] = (to[d] + way) % rep[d]
        now[tuple(at)], now[tuple(to)] = int(now[tuple(to)]), int(now[tuple(at)])
        have = configuration.types()
        diff = [i for i, t in enumerate(now.reshape(-1)) if have[i] != sc["types"][t]]
        ctx.require(not diff, "large", "the types at sites %s are wrong after step %d", diff[:4], step)
        want[0] = compare("after step %d: " % step)
        done.append(step)
        ctx.steps += 1
        ctx.sim_time = time
    look = ctx.guard(look)
    try:
        model.run(control_parameters=KMCControlParameters(number_of_steps=sc["steps"], seed=1, dump_interval=1000), analysis=[Watch()])
    except Exception as e:
        if not is_end(e):
            raise
    ctx.count("large")


def gen(rng, tier, index):
    if index % 230 == 57:
        return gen_large(rng)
    prof = world.Profile(max_sites=rng.choice([30, 60, 110]), max_procs=8)
    if rng.random() < 0.1:
        prof.max_sites = 260
    small = rng.random() < 0.03
    if small:
        # A long run of a small system.
        prof.max_sites, prof.max_procs, prof.reversible, prof.many = 12, 4, 1.0, False
    elif rng.random() < 0.02:
        # A large system.
        prof.max_sites, prof.max_procs, prof.many, prof.big = 2500, 3, False, True
    spec = world.gen_spec(rng, prof)
    n = len(spec["types"])
    return {"spec": spec, "steps": rng.randint(800, 2000) if small else rng.randint(5, 60 if n < 120 else 25 if n < 400 else 8), "rng": gen_rng(rng), "clock": gen_clock(rng),
            "seed": rng.randint(1, 10 ** 6), "full_every": 1}


def execute(sc, ctx):
    if sc.get("large"):
        ctx.sut("a large system", execute_large, sc, ctx)
        return
    spec = sc["spec"]
    rng_setup(ctx, sc)
    ses = Session(ctx, spec)
    changes = [0]

    def compare(what):
        listed = ctx.sut("listing", ses.check_listed, what)
        total = ctx.sut("rates", ses.check_rates, listed, what)
        ctx.state(sorted(listed), ses.state)
        ctx.event("R", "%.9g" % total)
        return listed

    ctx.sut("setting up the backend", ses.model._backend)
    prev = [set(compare("initially: "))]
    ctx.sut("types", ses.check_state)

    def step(step, time, configuration):
        ses.follow()
        ses.check_state("after step %d: " % step)
        listed = set(compare("after step %d: " % step))
        if listed != prev[0]:
            changes[0] += 1
        prev[0] = listed
        ctx.sim_time = time

    ctx.count("end" if ses.run(sc["steps"], step, seed=sc["seed"]) == "end" else "all_steps")
    ctx.count("fault:boundary_draws", ctx.rng.biased())
    for k, on in (("custom_rates", spec["calc"]), ("cached_rates", spec["calc"] and spec["calc"]["cache"]),
                  ("bucket", spec["bucket"]), ("non_periodic", not all(spec["per"])), ("no_implicit", not spec["implicit"])):
        if on:
            ctx.count("runs_" + k)
    ctx.nontrivial = changes[0] >= 5


def shrink(sc):
    if not sc.get("large"):
        for c in common.shrink(sc):
            yield c
        return
    for k in range(len(sc["procs"])):
        if len(sc["procs"]) > 1:
            yield dict(sc, procs=sc["procs"][:k] + sc["procs"][k + 1:])
    if sc["steps"] > 1:
        yield dict(sc, steps=1)
