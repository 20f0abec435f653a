"""Random lattices, configurations and processes, and their KMCLib objects.

gen_spec() only uses the random.Random it is given. The KMCLib objects are
built by the functions below it, which are only called in simulated runs.
"""
import math
import random

NAMES = ["a_rather_long_name_for_a_type", "another-rather-long-name-of-an-adsorbate", "A", "B", "V", "C", "O2", "Na+", "x y", "vac", "spin_up", "CO*ads", "O'", "a\"b", "\\alpha", "\u00c5"]

BASES = [
    [(0.0, 0.0, 0.0)],
    [(0.25, 0.5, 0.75)],
    [(0.0, 0.0, 0.0), (0.5, 0.5, 0.5)],
    [(0.0, 0.0, 0.0), (0.5, 0.5, 0.0)],
    [(0.1, 0.2, 0.3), (0.6, 0.7, 0.8)],
    [(0.0, 0.0, 0.0), (0.25, 0.25, 0.25), (0.5, 0.0, 0.5)],
    [(0.3, 0.0, 0.0), (0.8, 0.0, 0.0), (0.3, 0.5, 0.9)],
    [(0.9, 0.9, 0.9), (0.4, 0.1, 0.2)],
    [(0.0, 0.0, 0.0), (1.0 / 3.0, 2.0 / 3.0, 0.0)],
    [(1.0 / 3.0, 2.0 / 3.0, 0.25), (2.0 / 3.0, 1.0 / 3.0, 0.75)],
    # Distances that are nearly, but not quite, the same.
    [(0.0, 0.0, 0.0), (0.4999, 0.0, 0.0)],
    [(0.2, 0.5, 0.1), (0.20005, 0.0, 0.6)],
]


def choice_w(rng, pairs):
    t = sum(w for _, w in pairs)
    x = rng.random() * t
    for v, w in pairs:
        x -= w
        if x <= 0:
            return v
    return pairs[-1][0]


class Profile(object):
    """What kinds of systems to generate (every field can be overridden)."""
    bucket = None          # None: now and then
    max_sites = 90
    min_procs = 1
    max_procs = 7
    calc = None            # None: now and then; False: never; True: always
    calc_modes = ("const", "env", "env", "process", "global", "wide")
    cache = None
    reversible = 0.7
    swaps = 0.45           # share of exchange type processes
    rings = 0.1
    nonper = 0.35
    wild = 0.25
    basis_max = 3
    edge_gap = True        # allow implicit wildcards that hang over an edge
    multi_basis = 0.15
    complete = 0.15        # processes that list every site in range, without implicit wildcards
    rate_spread = 2.0
    big = False            # close to max_sites
    many = True            # many processes, now and then
    rate_scale = True      # all rates times a large or small factor, now and then
    noise = 1e-9           # largest rounding errors in the coordinates of processes, now and then
    dead_end = False

    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(Profile, k):
                raise TypeError(k)
            setattr(self, k, v)


def gen_spec(rng, prof=None):
    prof = prof or Profile()
    for _ in range(200):
        s = _gen(rng, prof)
        if s is not None:
            return s
    raise RuntimeError("no system found")


def _gen(rng, prof):
    bucket = prof.bucket if prof.bucket is not None else rng.random() < 0.2
    bases = [b for b in BASES if len(b) <= prof.basis_max]
    basis = [list(b) for b in rng.choice(bases)] if rng.random() < 0.5 else [list(bases[rng.randrange(2)][0])]
    nb = len(basis)
    with_calc = prof.calc if prof.calc is not None else rng.random() < 0.4
    calc = None
    if with_calc:
        calc = {"mode": rng.choice(prof.calc_modes),
                "cutoff": choice_w(rng, [(1.0, 4), (1.5, 1), (0.6, 1), (1.2, 1)]),
                "cache": False, "exclude": []}
        cache = prof.cache if prof.cache is not None else rng.random() < 0.4
        # Cached rates may only depend on the local geometry and the process.
        if cache and calc["mode"] != "global":
            calc["cache"] = True
    # Directions with more than one cell.
    ndim = choice_w(rng, [(1, 3), (2, 5), (3, 3)])
    dims = sorted(rng.sample(range(3), ndim))
    long_range = rng.random() < 0.15 and ndim == 1 and not calc
    reach = 2 if long_range else 1
    per, rep = [], []
    nonper_dir = [rng.random() < prof.nonper for _ in range(3)]
    for d in range(3):
        if d in dims:
            per.append(not nonper_dir[d])
            rep.append(None)
        else:
            per.append(False)
            rep.append(1)
    # Process offsets within reach cells in the active directions.
    offsets = {}
    for b in range(nb):
        lst = []
        for i in range(-reach, reach + 1):
            for j in range(-reach, reach + 1):
                for k in range(-reach, reach + 1):
                    cell = (i, j, k)
                    if any(c != 0 and d not in dims for d, c in enumerate(cell)):
                        continue
                    for o in range(nb):
                        off = tuple(cell[d] + (basis[o][d] - basis[b][d]) for d in range(3))
                        if o == b and cell == (0, 0, 0):
                            continue
                        # No further than what the periodic images allow (see need below).
                        if math.sqrt(sum(x * x for x in off)) <= reach + 0.75:
                            lst.append((off, o))
        lst.sort(key=lambda e: (round(math.sqrt(sum(x * x for x in e[0])), 5), e[0]))
        offsets[b] = lst
    far = max([abs(x) for b in range(nb) for off, _ in offsets[b] for x in off] or [0.0])
    dmax = max([abs(basis[o][d] - basis[b][d]) for o in range(nb) for b in range(nb) for d in range(3)])
    extent = max([math.sqrt(sum(x * x for x in off)) for b in range(nb) for off, _ in offsets[b]] or [0.0])
    cut = max(extent, (1.0 if calc["cutoff"] is None else calc["cutoff"]) if calc else 0.0)
    need = max(1, reach, int(math.floor(far + dmax + 1e-6)))
    # All sites within the sphere of a process (implicit wildcards) or the cutoff.
    need = max(need, int(math.floor(cut + dmax + 1e-6)))
    for d in range(3):
        if rep[d] is None:
            lo = 2 * need + 1
            if per[d]:
                rep[d] = lo + choice_w(rng, [(0, 4), (1, 3), (2, 2), (3, 1)])
                if ndim == 1 and rng.random() < 0.25:
                    rep[d] = lo + rng.randint(4, 40)
            else:
                rep[d] = rng.choice([2, 3, 4, 5, 6])
                if ndim == 1 and rng.random() < 0.15:
                    rep[d] = rng.randint(7, 40)
                if not prof.edge_gap:
                    rep[d] = max(rep[d], 2 * need + 1)
    n = rep[0] * rep[1] * rep[2] * nb
    if prof.big:
        # As many cells as fit.
        k = max(1, int((prof.max_sites / float(n)) ** (1.0 / ndim) * rng.uniform(0.6, 1.0)))
        for d in dims:
            rep[d] *= k
        n = rep[0] * rep[1] * rep[2] * nb
    if n > prof.max_sites or n < 2:
        return None
    # Types.
    nt = rng.choice([2, 2, 3, 3, 4]) if rng.random() < 0.92 else rng.randint(5, 9)
    possible = rng.sample(NAMES, nt)
    if prof.many and not bucket and rng.random() < 0.015:
        # Many types.
        possible = rng.sample(["T%d" % k for k in range(400)], rng.choice([20, 40, 150, 300]))
    cell = [[round(rng.uniform(1.0, 4.0) if i == j else rng.choice([0.0, 0.0, rng.uniform(-1.0, 1.0)]), 3)
             for j in range(3)] for i in range(3)]
    spec = {"cell": cell, "basis": basis, "rep": rep, "per": per, "possible": possible, "bucket": bucket,
            "calc": calc, "implicit": True, "format": "long" if (not bucket and rng.random() < 0.25) else "short"}
    procs = []
    nprocs = rng.randint(prof.min_procs, prof.max_procs)
    if prof.many and rng.random() < 0.04:
        nprocs = rng.randint(12, 30) if rng.random() < 0.7 or prof.max_procs < 6 else rng.randint(130, 280)
    complete = (not bucket or True) and rng.random() < prof.complete
    if complete:
        spec["implicit"] = rng.random() < 0.5
    tries = 0
    while len(procs) < nprocs and tries < 60 + 2 * nprocs:
        tries += 1
        p = _bucket_proc(rng, prof, spec, offsets) if bucket else _proc(rng, prof, spec, offsets, complete)
        if p is None:
            continue
        procs.append(p)
        if len(procs) < nprocs and rng.random() < prof.reversible:
            q = _reverse(p, bucket)
            if q is not None:
                q["rate"] = _rate(rng, prof)
                procs.append(q)
    if len(procs) < prof.min_procs:
        return None
    if bucket and complete:
        spec["implicit"] = True
    rng.shuffle(procs)
    if rng.random() < 0.08:
        for p in procs:
            p["rate"] = procs[0]["rate"]
    if prof.noise and rng.random() < 0.2:
        # Coordinates as they come out of arithmetics.
        size = min(prof.noise, rng.choice([1e-16, 1e-16, 2e-12, 1e-9]))
        for p in procs:
            p["noise"] = [size, rng.getrandbits(30)]
    if prof.rate_scale and rng.random() < 0.2:
        scale = 10.0 ** rng.choice([-15, -12, -9, -6, 3, 6, 9, 13])
        for p in procs:
            p["rate"] = float("%.6g" % (p["rate"] * scale))
    spec["procs"] = procs
    if calc and calc["cache"] and len(procs) > 1 and rng.random() < 0.4:
        calc["exclude"] = sorted(rng.sample(range(len(procs)), rng.randint(1, len(procs) - 1)))
    # Composition.
    if bucket:
        types = []
        crowd = rng.random() < 0.12
        most = rng.choice([15, 20, 40, 300])
        for _ in range(n):
            entry = []
            for t in possible:
                c = rng.choice([0, 0, 1, 1, 2, 3]) if not crowd else rng.choice([0, 1, 4, 9, most])
                if c:
                    entry.append([c, t])
            types.append(entry)
        if crowd and rng.random() < 0.5:
            # Processes that need many particles.
            for p in procs:
                for m in p["match"]:
                    for e in m:
                        if e != "*" and rng.random() < 0.4:
                            e[0] = max(e[0], rng.choice([4, 9, most // 2, most]))
    else:
        w = [rng.random() ** 2 + 0.02 for _ in possible]
        types = [choice_w(rng, list(zip(possible, w))) for _ in range(n)]
    if rng.random() < 0.25:
        # The possible types are not given, but taken from the types (which then are all there).
        spec["infer"] = True
        for t, i in zip(possible, rng.sample(range(n), min(n, len(possible)))):
            if bucket:
                if not any(e[1] == t for e in types[i]):
                    types[i].append([1, t])
            elif t not in types:
                types[i] = t
    spec["types"] = types
    if bucket and rng.random() < 0.5:
        spec["notation"] = rng.getrandbits(32)
    return spec


def inferred(spec):
    """True if KMCLib has to find the possible types."""
    if not spec.get("infer"):
        return False
    there = set(e[1] for t in spec["types"] for e in t) if spec.get("bucket") else set(spec["types"])
    return there == set(spec["possible"])


def _rate(rng, prof):
    return float("%.6g" % 10.0 ** rng.uniform(-prof.rate_spread / 2, prof.rate_spread / 2))


def _proc(rng, prof, spec, offsets, complete):
    possible, nb = spec["possible"], len(spec["basis"])
    b = rng.randrange(nb)
    lst = offsets[b]
    if complete:
        # Every lattice point within the range of the outermost entry.
        if not lst:
            return None
        near = [e for e in lst if math.sqrt(sum(x * x for x in e[0])) <= 1.0 + 1e-6 or e is lst[0]]
        k = min(len(near), 8)
        if k < len(near):
            return None
        # Include everything as near as the last entry.
        last = math.sqrt(sum(x * x for x in near[-1][0]))
        near = [e for e in lst if math.sqrt(sum(x * x for x in e[0])) <= last + 1e-6]
        if len(near) > 8:
            return None
        offs = [(0.0, 0.0, 0.0)] + [e[0] for e in near]
        # All basis sites with the same surroundings.
        basis = []
        for o in range(nb):
            same = [e[0] for e in offsets[o] if math.sqrt(sum(x * x for x in e[0])) <= last + 1e-6]
            if len(same) == len(near) and all(any(max(abs(x - y) for x, y in zip(v, e[0])) < 1e-6 for e in near) for v in same):
                basis.append(o)
        if len(basis) > 1 and rng.random() < 0.3:
            basis = [b]
    else:
        m = choice_w(rng, [(0, 2.0), (1, 5.0), (2, 4.0), (3, 2.0), (4, 1.0), (5, 0.4), (6, 0.4)])
        m = min(m, len(lst))
        # Mostly near neighbours.
        pool = list(lst)
        picked = []
        for _ in range(m):
            i = min(int(rng.random() ** 2 * len(pool)), len(pool) - 1)
            picked.append(pool.pop(i))
        offs = [(0.0, 0.0, 0.0)] + [e[0] for e in picked]
        basis = [b]
        if m == 0 and nb > 1 and rng.random() < prof.multi_basis * 3:
            # Only the centre: complete for any basis site.
            basis = sorted(rng.sample(range(nb), rng.randint(2, nb)))
    n = len(offs)
    kind = rng.random()
    moves = None
    before = [rng.choice(possible) for _ in range(n)]
    wild = set()
    if n > 1:
        for i in range(0 if rng.random() < 0.2 else 1, n):
            if rng.random() < prof.wild * (2.0 if complete else 1.0):
                wild.add(i)
    live = [i for i in range(n) if i not in wild]
    if not live:
        return None
    after = list(before)
    if len(live) >= 2 and kind < prof.swaps:
        i, j = rng.sample(live, 2)
        if before[i] == before[j]:
            before[j] = rng.choice([t for t in possible if t != before[i]])
        after = list(before)
        after[i], after[j] = before[j], before[i]
        if rng.random() < 0.4:
            v = tuple(offs[j][d] - offs[i][d] for d in range(3))
            moves = [[i, list(v)], [j, [-x for x in v]]]
            if rng.random() < 0.5:
                moves.reverse()
    elif len(live) >= 3 and kind < prof.swaps + prof.rings:
        ring = rng.sample(live, rng.randint(3, min(len(live), 6)))
        after = list(before)
        for x, y in zip(ring, ring[1:] + ring[:1]):
            after[y] = before[x]
        if after == before:
            return None
        moves = [[x, [offs[y][d] - offs[x][d] for d in range(3)]] for x, y in zip(ring, ring[1:] + ring[:1])]
        rng.shuffle(moves)
    else:
        k = rng.randint(1, min(len(live), 3))
        after = list(before)
        for i in rng.sample(live, k):
            after[i] = rng.choice([t for t in possible if t != before[i]])
    if after == before:
        return None
    for i in wild:
        before[i] = after[i] = "*"
    # The origin of the local coordinates does not matter.
    shift = rng.choice([(0.0, 0.0, 0.0), (0.0, 0.0, 0.0), (1.0, -2.0, 0.5)])
    coords = [[o[d] + shift[d] for d in range(3)] for o in offs]
    return {"kind": "type", "coords": coords, "before": before, "after": after, "moves": moves, "basis": basis,
            "rate": _rate(rng, prof)}


def _bucket_proc(rng, prof, spec, offsets):
    possible, nb = spec["possible"], len(spec["basis"])
    b = rng.randrange(nb)
    lst = offsets[b]
    m = min(choice_w(rng, [(0, 4), (1, 5), (2, 2)]), len(lst))
    pool = list(lst)
    picked = []
    for _ in range(m):
        picked.append(pool.pop(min(int(rng.random() ** 2 * len(pool)), len(pool) - 1)))
    coords = [[0.0, 0.0, 0.0]] + [list(e[0]) for e in picked]
    n = len(coords)
    match, update = [], []
    for i in range(n):
        need, upd = {}, {}
        for t in possible:
            if rng.random() < 0.5:
                need[t] = rng.choice([1, 1, 1, 2])
            if rng.random() < 0.45:
                lo = -need.get(t, 0)
                v = rng.randint(lo, 2 if rng.random() < 0.2 else 1)
                if v:
                    upd[t] = v
        if i > 0 and rng.random() < 0.15:
            need, upd = None, {}
        match.append(["*"] if need is None else [[c, t] for t, c in need.items()])
        update.append([[c, t] for t, c in upd.items()])
    if not any(update):
        return None
    if all(not x for x in match):
        return None
    return {"kind": "bucket", "coords": coords, "match": match, "update": update, "basis": [b],
            "rate": _rate(rng, prof)}


def _reverse(p, bucket):
    q = dict(p)
    if bucket:
        match, update = [], []
        for m, u in zip(p["match"], p["update"]):
            if m == ["*"]:
                match.append(["*"])
                update.append([])
                continue
            need = dict((t, c) for c, t in m)
            for c, t in u:
                need[t] = max(0, need.get(t, 0) + c)
            match.append([[c, t] for t, c in need.items() if c > 0])
            update.append([[-c, t] for c, t in u])
        # An update may never take away more than what is matched.
        for m, u in zip(match, update):
            need = {} if m == ["*"] else dict((t, c) for c, t in m)
            for c, t in u:
                if c < 0 and need.get(t, 0) < -c:
                    return None
        if all(not x for x in match):
            return None
        q["match"], q["update"] = match, update
        return q
    q["before"], q["after"] = list(p["after"]), list(p["before"])
    if p["moves"] is not None and len(p["moves"]) > 2:
        n = len(p["coords"])
        rev = []
        for i, v in p["moves"]:
            dst = [p["coords"][i][d] + v[d] for d in range(3)]
            j = [k for k in range(n) if max(abs(p["coords"][k][d] - dst[d]) for d in range(3)) < 1e-6][0]
            rev.append([j, [-x for x in v]])
        q["moves"] = rev
    return q


# ---------------------------------------------------------------------------
# The KMCLib objects.

def build_lattice(spec):
    from KMCLib import KMCUnitCell, KMCLattice
    cell = KMCUnitCell(cell_vectors=[list(map(float, v)) for v in spec["cell"]],
                       basis_points=[list(map(float, b)) for b in spec["basis"]])
    return KMCLattice(unit_cell=cell, repetitions=tuple(spec["rep"]), periodic=tuple(spec["per"]))


def notation(spec):
    """Writes the occupation of a bucket site, [(number, type)], in one of the ways KMCLib understands."""
    if spec.get("notation") is None:
        return lambda e, update=False: [(c, t) for c, t in e]
    rng = random.Random(spec["notation"])

    def write(e, update=False):
        how = rng.random()
        if update and len(e) == 0 and how < 0.4:
            return "*"
        if how < 0.3 or len(e) == 0:
            return [(c, t) for c, t in e]
        if len(e) == 1 and not update and how < 0.55:
            return e[0][1] if e[0][0] == 1 else (e[0][0], e[0][1])
        out = []
        for c, t in e:
            if abs(c) > 6 or (abs(c) > 1 and rng.random() < 0.5):
                a = rng.randint(1, abs(c) - 1)
                a = a if c > 0 else -a
                out += [(a, t), (c - a, t)]
            elif update:
                out.append((c, t))
            elif rng.random() < 0.5:
                out.append((c, t))
            else:
                out += [t] * c
        if rng.random() < 0.5:
            rng.shuffle(out)
        return out
    return write


def build_config(spec, lattice=None):
    from KMCLib import KMCConfiguration
    lattice = lattice if lattice is not None else build_lattice(spec)
    possible = None if inferred(spec) else list(spec["possible"])
    if spec.get("bucket"):
        write = notation(spec)
        types = [write(e) for e in spec["types"]]
        return KMCConfiguration(lattice=lattice, types=types, possible_types=possible)
    types = list(spec["types"])
    if spec.get("format") == "long":
        count = {}
        for t in types:
            count[t] = count.get(t, 0) + 1
        default = max(sorted(count), key=lambda t: count[t])
        nb = len(spec["basis"])
        entries = []
        for i, t in enumerate(types):
            c, b = divmod(i, nb)
            c, z = divmod(c, spec["rep"][2])
            x, y = divmod(c, spec["rep"][1])
            if t != default or i == 0:
                entries.append((x, y, z, b, t))
        return KMCConfiguration(lattice=lattice, types=entries, possible_types=possible, default_type=default)
    return KMCConfiguration(lattice=lattice, types=types, possible_types=possible)


def build_processes(spec):
    from KMCLib import KMCProcess, KMCBucketProcess
    out = []
    write = notation(spec)
    star = "*" if (spec.get("notation") or 0) % 2 else ["*"]
    for p in spec["procs"]:
        coords = [list(map(float, c)) for c in p["coords"]]
        if p.get("noise"):
            size, seed = p["noise"]
            r = random.Random(seed)
            coords = [[x + size * r.uniform(-2.0, 2.0) for x in c] for c in coords]
        if p["kind"] == "bucket":
            out.append(KMCBucketProcess(coordinates=coords,
                                        minimum_match=[star if m == ["*"] else list(m) if any(isinstance(e, str) for e in m) else write(m) for m in p["match"]],
                                        update=[write(u, True) for u in p["update"]],
                                        basis_sites=list(p["basis"]),
                                        rate_constant=float(p["rate"])))
        else:
            moves = p.get("moves")
            if moves is not None:
                moves = [(int(i), list(map(float, v))) for i, v in moves]
            out.append(KMCProcess(coordinates=coords, elements_before=list(p["before"]), elements_after=list(p["after"]),
                                  move_vectors=moves, basis_sites=list(p["basis"]), rate_constant=float(p["rate"])))
    return out


def make_calculator(spec, hook=None):
    """A rate calculator class; hook(self, entries, rate constant, process, coordinate, lengths..., rate) is
    called at every call and may return another rate."""
    from KMCLib import KMCRateCalculatorPlugin
    from sim import ref
    calc = spec["calc"]
    # (the numbers of a calculator may depend on the order of the types, see C14)
    possible = spec.get("calc_possible") or spec["possible"]
    index = dict((t, i) for i, t in enumerate(possible))
    n = len(possible)

    def counts(e):
        c = [0] * n
        if isinstance(e, str):
            c[index[e]] += 1
        else:
            for k, t in e:
                c[index[t]] += k
        return tuple(c)

    class SimCalculator(KMCRateCalculatorPlugin):

        def rate(self, coords, types_before, types_after, rate_constant, process_number, global_coordinate):
            entries = [(tuple(float(x) for x in c), counts(b), counts(a))
                       for c, b, a in zip(coords, types_before, types_after)]
            g = tuple(float(x) for x in global_coordinate)
            r = ref.calc_rate(calc, entries, rate_constant, process_number, g)
            if hook is not None:
                # The hook may change the rate.
                v = hook(self, entries, rate_constant, process_number, g, len(coords), len(types_before), len(types_after), r)
                r = r if v is None else v
            return r

        def cutoff(self):
            return calc["cutoff"]

        def cacheRates(self):
            return bool(calc["cache"])

        def excludeFromCaching(self):
            return tuple(calc["exclude"])

    return SimCalculator


def build_interactions(spec, hook=None, processes=None):
    from KMCLib import KMCInteractions
    processes = processes if processes is not None else build_processes(spec)
    inter = KMCInteractions(processes=list(processes), implicit_wildcards=bool(spec["implicit"]))
    if spec.get("calc"):
        name = spec["calc"].get("builtin")
        if name is None or spec["calc"].get("twice"):
            inter.setRateCalculator(make_calculator(spec, hook))
        if name is not None:
            inter.setRateCalculator(name)
    return inter


def build_model(spec, hook=None, configuration=None, interactions=None):
    from KMCLib import KMCLatticeModel
    config = configuration if configuration is not None else build_config(spec)
    inter = interactions if interactions is not None else build_interactions(spec, hook)
    return KMCLatticeModel(configuration=config, interactions=inter)


def gen_builtin(rng):
    """A system for one of the builtin rate calculators, on a periodic square lattice."""
    hops = rng.random() < 0.5
    spec = {"cell": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "basis": [(0.0, 0.0, 0.0)],
            "rep": [rng.randint(3, 9), rng.randint(3, 9), 1], "per": [True, True, False], "bucket": hops,
            "implicit": True, "format": "short",
            "calc": {"mode": "hops" if hops else "ising", "cutoff": 1.0, "cache": not hops, "exclude": [],
                     "builtin": "BucketsTestCalculator" if hops else "IsingTestCalculator", "twice": rng.random() < 0.3}}
    n = spec["rep"][0] * spec["rep"][1]
    share = rng.choice([0.1, 0.3, 0.5, 0.8])
    if hops:
        spec["possible"] = ["A", "B"] + ["C"] * (rng.random() < 0.3)
        spec["types"] = [[[rng.randint(1, 3), t] for t in spec["possible"] if rng.random() < share] for _ in range(n)]
        procs = [{"coords": [[0.0, 0.0, 0.0]], "match": [[[rng.randint(1, 3), "A"]]], "update": [[[-1, "A"], [1, "B"]]]}]
        for way in ((1, 0), (-1, 0), (0, 1), (0, -1)):
            procs.append({"coords": [[0.0, 0.0, 0.0], [float(way[0]), float(way[1]), 0.0]], "match": [[[1, "B"]], ["*"]],
                          "update": [[[-1, "B"]], [[1, "B"]]]})
        if rng.random() < 0.3:
            procs.append({"coords": [[0.0, 0.0, 0.0]], "match": [[[2, "B"]]], "update": [[[-1, "B"], [1, "A"]]]})
        for p in procs:
            p["kind"] = "bucket"
    else:
        spec["possible"] = ["U", "D"]
        spec["types"] = ["U" if rng.random() < share else "D" for _ in range(n)]
        procs = [{"coords": [[0.0, 0.0, 0.0]], "before": [b], "after": [a], "kind": "type", "moves": None}
                 for b, a in (("U", "D"), ("D", "U"))]
    for p in procs:
        p["basis"], p["rate"] = [0], _rate(rng, Profile())
    spec["procs"] = procs
    return spec


def read_state(config, spec):
    """The state of a configuration as KMCLib reports it, in reference form."""
    possible = spec["possible"]
    index = dict((t, i) for i, t in enumerate(possible))
    out = []
    for e in config.types():
        c = [0] * len(possible)
        if isinstance(e, str):
            c[index[e]] += 1
        else:
            for t in e:
                c[index[t]] += 1
        out.append(tuple(c))
    return out
