"""C04: atom identities, their types and their unwrapped coordinates follow the performed moves."""
import math

from sim import world
from sim.props.common import REAL, STUBS, ASSUMPTIONS, shrink          # noqa: F401
from sim.session import Session, gen_clock, gen_rng, rng_setup

ID = "C04"
RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("A run is one random system of hops, exchanges, rings and reactions with one particle per site; after every event the "
        "type, position and site of every atom id is compared with a reference that carries the ids along the move vectors. "
        "Non-trivial: at least 5 events that move an atom, or an atom that crossed a periodic boundary.")
STATES = "assignments of atom ids to sites, by hash"


def gen(rng, tier, index):
    prof = world.Profile(bucket=False, max_sites=rng.choice([12, 40, 100]), max_procs=6, swaps=0.55, rings=0.3,
                         reversible=0.8, nonper=0.15, wild=0.15, calc=rng.random() < 0.15)
    spec = world.gen_spec(rng, prof)
    return {"spec": spec, "steps": rng.randint(5, 100), "calls": rng.choice([1, 1, 2]), "rng": gen_rng(rng),
            "clock": gen_clock(rng), "seed": rng.randint(1, 10 ** 6)}


class Atoms(object):
    """The reference: who is where."""

    def __init__(self, ref, spec):
        self.ref = ref
        self.site = list(range(ref.n))                  # id at each site
        self.coord = [list(c) for c in ref.coords]      # unwrapped, per id
        self.type = list(spec["types"])                 # per id

    def perform(self, p, s):
        ref = self.ref
        q = ref.procs[p]
        sites = ref._match[p][s][0]
        moved = set()
        src = dict((i, (j, v)) for i, j, v in q["moves"])
        new = list(self.site)
        for i, (j, v) in src.items():
            a = self.site[sites[i]]
            for d in range(3):
                self.coord[a][d] += v[d]
            new[sites[j]] = a
            moved.add(a)
        for i, u in enumerate(q["upd"]):
            if any(u) and i not in src:
                a = self.site[sites[i]]
                self.type[a] = q["after"][i]
                moved.add(a)
        self.site = new
        return moved


def execute(sc, ctx):
    spec = sc["spec"]
    rng_setup(ctx, sc)
    ses = Session(ctx, spec)
    ref = ses.ref
    atoms = Atoms(ref, spec)
    hops = [0]

    def compare(what, moved=None):
        cfg = ses.config
        types = list(cfg.atomIDTypes())
        ctx.require(types == atoms.type, "atom-type", "%sthe types of atoms %s differ: %s instead of %s", what,
                    *_diff(types, atoms.type))
        xyz = cfg.atomIDCoordinates()
        ctx.require(len(xyz) == ref.n, "atom-count", "%s%d atom coordinates", what, len(xyz))
        for a in range(ref.n):
            for d in range(3):
                if abs(float(xyz[a][d]) - atoms.coord[a][d]) > 1e-6:
                    ctx.violate("atom-coordinate", "%satom %d is at %s instead of %s" % (
                        what, a, [float(x) for x in xyz[a]], atoms.coord[a]))
        ids = [int(i) for i in cfg._backend().atomID()]
        ctx.require(ids == atoms.site, "atom-site", "%sthe atoms at sites %s differ: %s instead of %s", what,
                    *_diff(ids, atoms.site))
        # What must hold on any account: every id once, at the place of its site, with the type found there.
        ctx.require(sorted(ids) == list(range(ref.n)), "atom-lost", "%satom ids are lost or doubled", what)
        names = cfg.types()
        for s, a in enumerate(ids):
            ctx.require(names[s] == types[a], "atom-type", "%ssite %d holds %s, its atom %d is %s", what, s, names[s], a, types[a])
            at = ref.site_at([float(x) for x in xyz[a]])
            ctx.require(at == s, "atom-place", "%satom %d at %s is not at its site %d but at %s", what, a, list(xyz[a]), s, at)
        if moved is not None:
            have = [int(i) for i in cfg.movedAtomIDs()]
            ctx.require(sorted(have) == sorted(moved), "moved-atoms", "%sthe moved atoms are %s instead of %s",
                        what, sorted(have), sorted(moved))

    ctx.sut("setting up the backend", ses.model._backend)
    compare("initially: ")

    def step(step_, time, configuration):
        p, s = ses.follow()
        moved = atoms.perform(p, s)
        compare("after process %d at site %d in step %d: " % (p, s, step_), moved)
        if ref.procs[p]["moves"]:
            hops[0] += 1
            if len(ref.procs[p]["moves"]) > 2:
                ctx.count("rings")
        ctx.state(atoms.site)
        ctx.sim_time = time

    for call in range(sc["calls"]):
        if ses.run(sc["steps"], step, seed=sc["seed"] + call) == "end":
            break
    crossed = any(not -1e-6 <= c[d] < ref.rep[d] - 1e-6 for c in atoms.coord for d in range(3))
    if crossed:
        ctx.count("runs_crossing_boundaries")
    ctx.count("hops", hops[0])
    ctx.count("fault:boundary_draws", ctx.rng.biased())
    ctx.nontrivial = hops[0] >= 5 or crossed


def _diff(a, b):
    bad = [i for i in range(max(len(a), len(b))) if i >= len(a) or i >= len(b) or a[i] != b[i]][:5]
    return bad, [a[i] for i in bad if i < len(a)], [b[i] for i in bad if i < len(b)]
