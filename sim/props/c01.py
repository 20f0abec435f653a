"""C01: every step performs exactly one available event, and nothing else."""
from sim import world
from sim.props.common import REAL, STUBS, ASSUMPTIONS, shrink          # noqa: F401
from sim.session import Session, gen_clock, gen_rng, rng_setup

ID = "C01"
RUNS = {"quick": 1600, "thorough": 60000}
RULE = ("A run is one random lattice, configuration, process list and (often) rate calculator advanced under a random or "
        "boundary biased source of random numbers, possibly in several calls of run(); every reported event is replayed on the "
        "reference model and the whole configuration is compared after it. Non-trivial: at least 5 events of at least 2 kinds.")
STATES = "configurations, by hash"


def gen(rng, tier, index):
    prof = world.Profile(max_sites=rng.choice([20, 60, 120]), max_procs=8, rate_spread=rng.choice([1.0, 3.0, 8.0]))
    if rng.random() < 0.08:
        prof.max_sites = 400
    if rng.random() < 0.3:
        # Few processes that can not be reversed: many runs come to an end.
        prof.reversible, prof.max_procs = 0.0, 3
    steps = rng.randint(5, 120)
    if rng.random() < 0.03:
        # A long run of a small system.
        prof.max_sites, prof.max_procs, prof.reversible, prof.many = 12, 4, 1.0, False
        steps = rng.randint(800, 2500)
    elif rng.random() < 0.02:
        # A large system.
        prof.max_sites, prof.max_procs, prof.many, prof.big = 2500, 3, False, True
        steps = rng.randint(3, 12)
    spec = world.gen_spec(rng, prof)
    return {"spec": spec, "steps": steps, "calls": rng.choice([1, 1, 1, 2, 3]), "rng": gen_rng(rng, 0.5),
            "clock": gen_clock(rng), "seed": rng.randint(1, 10 ** 6)}


def execute(sc, ctx):
    spec = sc["spec"]
    rng_setup(ctx, sc)
    ses = Session(ctx, spec)
    ref = ses.ref
    possible = ["*"] + list(spec["possible"])
    seen = set()
    done = [0]

    def step(step_, time, configuration):
        ctx.require(step_ == done[0] + 1, "step-number", "step %d is reported after step %d", step_, done[0])
        done[0] = step_
        p, s = ses.follow()
        ses.check_state("after process %d at site %d in step %d: " % (p, s, step_))
        names = list(configuration._backendTypeNames())
        number = list(configuration.particlesPerType())
        ctx.require(sorted(names) == sorted(possible) and len(number) == len(names), "types", "the types are %s", names)
        for i, t in enumerate(spec["possible"]):
            n = sum(c[i] for c in ses.state)
            ctx.require(number[names.index(t)] == n, "particle-count", "%d particles of type %s reported after step %d, there are %d",
                        number[names.index(t)], t, step_, n)
        ctx.require(time == time and abs(time) != float("inf"), "time", "the time is %r after step %d", time, step_)
        ctx.require(time >= ses.time, "time", "the time went from %r to %r in step %d", ses.time, time, step_)
        ses.time = time
        seen.add((p, tuple(ses.before[0][x] for x in ref.affected(p, s))))
        ctx.state(ses.state)

    how = "done"
    for call in range(sc["calls"]):
        done[0] = 0
        how = ses.run(sc["steps"], step, seed=sc["seed"] + call)
        left = [k for k in ses.avail if k not in ses.edge and k not in ses.hang]
        if how == "end":
            ctx.require(not left, "early-end", "the run ended after %d steps though process %d is available at site %d",
                        done[0], *(left[0] if left else (0, 0)))
            ses.check_state("after the end: ")
            break
        ctx.require(done[0] == sc["steps"], "steps", "%d steps were taken instead of %d", done[0], sc["steps"])
    ctx.count("ended" if how == "end" else "all_steps")
    ctx.count("fault:boundary_draws", ctx.rng.biased())
    ctx.sim_time = ses.time
    ctx.nontrivial = ses.total_steps >= 5 and len(seen) >= 2
