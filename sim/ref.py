"""Reference model of lattice KMC, written from the documentation.

Nothing in here uses KMCLib.  A state is a list with one tuple of particle
counts (in the order of the possible types) per lattice site.
"""
import math
import zlib


class RefModel(object):

    def __init__(self, spec):
        self.spec = spec
        self.rep = tuple(spec["rep"])
        self.per = tuple(spec["per"])
        self.basis = [tuple(b) for b in spec["basis"]]
        self.nb = len(self.basis)
        self.possible = list(spec["possible"])
        self.tindex = dict((t, i) for i, t in enumerate(self.possible))
        self.bucket = bool(spec.get("bucket"))
        self.coords = []
        for i in range(self.rep[0]):
            for j in range(self.rep[1]):
                for k in range(self.rep[2]):
                    for b in self.basis:
                        self.coords.append((i + b[0], j + b[1], k + b[2]))
        self.n = len(self.coords)
        self.procs = [self._proc(p) for p in spec["procs"]]
        self.calc = spec.get("calc")
        self._env = {}
        self._match = [[self._embed(p, s) for s in range(self.n)] for p in self.procs]
        # Which (process, site) pairs depend on the type at a site.
        self.state0 = [self.counts(t) for t in spec["types"]]

    # -- geometry ----------------------------------------------------------

    def counts(self, entry):
        c = [0] * len(self.possible)
        if isinstance(entry, str):
            c[self.tindex[entry]] += 1
        else:
            for e in entry:
                if isinstance(e, str):
                    c[self.tindex[e]] += 1
                else:
                    c[self.tindex[e[1]]] += e[0]
        return tuple(c)

    def site_at(self, pos):
        """Index of the lattice site at a position, wrapped where periodic; None outside; -1 if not a lattice point."""
        for b, base in enumerate(self.basis):
            cell = []
            for d in range(3):
                x = pos[d] - base[d]
                n = int(math.floor(x + 0.5))
                if abs(x - n) > 1e-4:
                    break
                cell.append(n)
            else:
                for d in range(3):
                    if self.per[d]:
                        cell[d] %= self.rep[d]
                    elif not 0 <= cell[d] < self.rep[d]:
                        return None
                return ((cell[0] * self.rep[1] + cell[1]) * self.rep[2] + cell[2]) * self.nb + b
        return -1

    def env(self, site, radius):
        """All (offset, site) within a radius (fractional coordinates), nearest first, absent sites as (offset, None)."""
        key = (site, radius)
        if key in self._env:
            return self._env[key]
        c = self.coords[site]
        b = self.basis[site % self.nb]
        reach = int(radius + 2)
        out = []
        for i in range(-reach, reach + 1):
            for j in range(-reach, reach + 1):
                for k in range(-reach, reach + 1):
                    for o in self.basis:
                        off = (i + o[0] - b[0], j + o[1] - b[1], k + o[2] - b[2])
                        d = math.sqrt(off[0] ** 2 + off[1] ** 2 + off[2] ** 2)
                        if d <= radius + 1e-6:
                            out.append((round(d, 5), off, self.site_at((c[0] + off[0], c[1] + off[1], c[2] + off[2]))))
        out.sort(key=lambda e: _rank(e[1]))
        self._env[key] = [(e[1], e[2]) for e in out]
        return self._env[key]

    # -- processes ---------------------------------------------------------

    def _proc(self, p):
        c0 = p["coords"][0]
        q = dict(p)
        q["off"] = [tuple(c[d] - c0[d] for d in range(3)) for c in p["coords"]]
        q["extent"] = max(math.sqrt(sum(x * x for x in o)) for o in q["off"])
        nt = len(self.possible)
        need, upd = [], []
        if p["kind"] == "bucket":
            for m, u in zip(p["match"], p["update"]):
                need.append(None if m == ["*"] else self.counts(m))
                v = [0] * nt
                for e in u:
                    v[self.tindex[e[1]]] = e[0]
                upd.append(tuple(v))
        else:
            for b, a in zip(p["before"], p["after"]):
                if b == "*":
                    need.append(None)
                    upd.append((0,) * nt)
                else:
                    cb, ca = self.counts(b), self.counts(a)
                    need.append(cb)
                    upd.append(tuple(x - y for x, y in zip(ca, cb)))
        q["need"], q["upd"] = need, upd
        q["moves"] = self._moves(p, q["off"])
        return q

    @staticmethod
    def _moves(p, off):
        """List of (from entry, to entry, vector)."""
        if p["kind"] == "bucket":
            return []
        mv = p.get("moves")
        if mv is None:
            diff = [i for i, (b, a) in enumerate(zip(p["before"], p["after"])) if b != a]
            if len(diff) != 2:
                return []
            i, j = diff
            if p["before"][i] != p["after"][j] or p["before"][j] != p["after"][i]:
                return []
            vec = tuple(off[j][d] - off[i][d] for d in range(3))
            return [(i, j, vec), (j, i, tuple(-x for x in vec))]
        res = []
        for i, vec in mv:
            dst = tuple(off[i][d] + vec[d] for d in range(3))
            j = [k for k, o in enumerate(off) if max(abs(o[d] - dst[d]) for d in range(3)) < 1e-6]
            res.append((i, j[0], tuple(vec)))
        return res

    def _embed(self, p, site):
        """(sites of the entries, True if a position the implicit wildcards stand for is absent,
        True if an explicit wildcard entry is absent), or None where the process can not be performed."""
        if site % self.nb not in p["basis"]:
            return None
        c = self.coords[site]
        sites = []
        hanging = False
        for o, need in zip(p["off"], p["need"]):
            s = self.site_at((c[0] + o[0], c[1] + o[1], c[2] + o[2]))
            if s == -1:
                raise ValueError("process entry is not a lattice point")
            if s is None:
                if need is not None:
                    return None
                hanging = True
            sites.append(s)
        # Implicit wildcards stand for all other positions up to the last entry. Known finding: they are laid out for the
        # most central cell, so where other positions are present than there the process is not found.
        gap = False
        if any(not x for x in self.per):
            mid = ((self.rep[0] // 2) * self.rep[1] + self.rep[1] // 2) * self.rep[2] + self.rep[2] // 2
            gap = self._present(p, site) != self._present(p, mid * self.nb + site % self.nb)
        return (sites, gap, hanging)

    def _present(self, p, site):
        last = max(_rank(o) for o in p["off"])
        out = set()
        for off, s in self.env(site, p["extent"]):
            if _rank(off) > last:
                break
            if s is not None:
                out.add((round(off[0], 4), round(off[1], 4), round(off[2], 4)))
        return out

    def matches(self, p, site, state):
        m = self._match[p][site]
        if m is None:
            return False
        for s, need in zip(m[0], self.procs[p]["need"]):
            if need is None or s is None:
                continue
            have = state[s]
            if self.bucket:
                for h, n in zip(have, need):
                    if h < n:
                        return False
            elif have != need:
                return False
        return True

    def gap(self, p, site):
        return self._match[p][site][1]

    def affected(self, p, site):
        """Sites whose counts change."""
        return [s for s, u in zip(self._match[p][site][0], self.procs[p]["upd"]) if any(u)]

    def apply(self, p, site, state):
        new = list(state)
        for s, u in zip(self._match[p][site][0], self.procs[p]["upd"]):
            if s is not None and any(u):
                new[s] = tuple(a + b for a, b in zip(new[s], u))
        return new

    # -- rates -------------------------------------------------------------

    def cutoff(self, p):
        c = self.calc.get("cutoff")
        return max(1.0 if c is None else c, self.procs[p]["extent"])

    def rate_input(self, p, site, state):
        """What the rate calculator must be given: {offset: (before, after)}."""
        upd = {}
        for s, u in zip(self._match[p][site][0], self.procs[p]["upd"]):
            if s is not None:
                upd[s] = u
        entries = []
        for off, s in self.env(site, self.cutoff(p)):
            if s is None:
                continue
            before = state[s]
            after = before
            if s in upd:
                after = tuple(a + b for a, b in zip(before, upd[s]))
            entries.append((off, before, after))
        return entries

    def rate(self, p, site, state):
        q = self.procs[p]
        if self.calc is None:
            return q["rate"]
        return calc_rate(self.calc, self.rate_input(p, site, state), q["rate"], p, self.coords[site])

    # -- everything available ----------------------------------------------

    def available(self, state):
        """{(p, site): rate} of all events documented as available; the subset with an implicit, and the subset
        with an explicit wildcard outside of the lattice."""
        full, edge, hang = {}, set(), set()
        for p in range(len(self.procs)):
            for s in range(self.n):
                if self.matches(p, s, state):
                    full[(p, s)] = self.rate(p, s, state)
                    if self._match[p][s][1]:
                        edge.add((p, s))
                    if self._match[p][s][2]:
                        hang.add((p, s))
        return full, edge, hang


def _rank(o):
    """The order in which sites are matched: by distance, then by coordinate."""
    return (round(math.sqrt(sum(x * x for x in o)), 5), round(o[0], 6) + 0.0, round(o[1], 6) + 0.0, round(o[2], 6) + 0.0)


class Incremental(object):
    """Keeps the available events of a RefModel up to date cheaply: caches rates by local environment."""

    def __init__(self, model):
        self.m = model
        self.cache = {}

    def available(self, state):
        m = self.m
        full, edge, hang = {}, set(), set()
        for p in range(len(m.procs)):
            for s in range(m.n):
                if m.matches(p, s, state):
                    if m.calc is None:
                        r = m.procs[p]["rate"]
                    else:
                        env = m.env(s, m.cutoff(p))
                        key = (p, s, tuple(state[x] for _, x in env if x is not None))
                        r = self.cache.get(key)
                        if r is None:
                            r = m.rate(p, s, state)
                            self.cache[key] = r
                    full[(p, s)] = r
                    if m._match[p][s][1]:
                        edge.add((p, s))
                    if m._match[p][s][2]:
                        hang.add((p, s))
        return full, edge, hang


def calc_rate(calc, entries, rate_constant, process_number, coordinate):
    """The rate function of the simulated rate calculators.

    entries: [(offset, counts before, counts after)] in any order.
    """
    mode = calc["mode"]
    if mode == "const":
        return rate_constant
    if mode == "ising" or mode == "hops":
        return builtin_rate(mode, entries, process_number)
    if mode == "mixed":
        # Excluded processes may depend on anything.
        mode = "global" if process_number in calc["exclude"] else "env"
    h = calc.get("salt", 0)
    for off, before, after in entries:
        # Rounding must not depend on the last bits of the coordinates.
        q = tuple(int(math.floor(x * 64.0 + 0.5)) for x in off)
        h += zlib.crc32(repr((q, before, after)).encode())
    if mode == "global":
        h += zlib.crc32(repr(tuple(int(math.floor(x * 64.0 + 0.5)) for x in coordinate)).encode())
    if mode == "process" or mode == "global":
        h += 7919 * process_number
    if mode == "wide":
        # Rates over many orders of magnitude.
        return rate_constant * 10.0 ** ((h % 9) - 4)
    return rate_constant * (0.25 + (h % 1009) / 500.0)


def builtin_rate(mode, entries, process_number):
    """What the builtin calculators compute (on a square lattice with the neighbours within 1.0).

    ising: Metropolis rates, process 0 flips up (the first type) to down; hops: 0.1 for process 0 and where the
    second type is in the way of process 1 (right), 2 (left), 3 (up) or 4 (down), else 1.0."""
    if mode == "ising":
        up = sum(before[0] for off, before, _ in entries if max(abs(x) for x in off) > 0.5)
        return min(1.0, math.exp((4 - 2 * up) * (1 if process_number == 0 else -1)))
    if process_number == 0:
        return 0.1
    way = {1: (1, 0), 2: (-1, 0), 3: (0, 1), 4: (0, -1)}.get(process_number)
    for off, before, _ in entries:
        if way is not None and (int(round(off[0])), int(round(off[1]))) == way and before[1] != 0:
            return 0.1
    return 1.0
