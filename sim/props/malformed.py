"""Malformed input (C16).

Each function gives (name, arguments, call): the call contradicts the documentation.
"""
import gc

import numpy


def cell_args(spec):
    return {"cell_vectors": [list(map(float, v)) for v in spec["cell"]], "basis_points": [list(map(float, b)) for b in spec["basis"]]}


def swap(seq, i, v):
    out = list(seq)
    out[i] = v
    return out


WRONG = [None, 7, 1.5, "A", (), [], {}, object(), True, [None], float("nan"), b"A", ["A", 1]]


def other_than(r, *kinds):
    """Some object that is of none of these kinds."""
    return r.choice([w for w in WRONG if not isinstance(w, kinds)])


# -- unit cells and lattices

def unit_cell(r, s, kmc):
    a = cell_args(s)
    v, b = a["cell_vectors"], a["basis_points"]
    i, j = r.randrange(3), r.randrange(3)
    k = r.randrange(len(b))
    what = r.choice(["short", "long", "narrow", "int", "flat", "zero", "nan", "kind", "no", "outside", "below", "few", "intbasis", "kindbasis",
                     "emptybasis", "nobasis"])
    if what == "short":
        a["cell_vectors"] = v[:2]
    elif what == "long":
        a["cell_vectors"] = v + [v[0]]
    elif what == "narrow":
        a["cell_vectors"] = swap(v, i, v[i][:2])
    elif what == "int":
        a["cell_vectors"] = swap(v, i, swap(v[i], j, 1))
    elif what == "flat":
        a["cell_vectors"] = swap(v, i, [2.0 * x for x in v[(i + 1) % 3]])
    elif what == "nan":
        bad = [list(x) for x in v]
        bad[i][j] = r.choice([float("nan"), float("inf")])
        a["cell_vectors"] = bad if r.random() < 0.5 else numpy.array(bad)
        if bad[i][j] > 1.0:
            a["cell_vectors"] = bad
    elif what == "zero":
        a["cell_vectors"] = swap(v, i, [0.0, 0.0, 0.0])
    elif what == "kind":
        a["cell_vectors"] = r.choice([None, 7, "abc", [1.0, 2.0, 3.0], numpy.identity(2), numpy.identity(3, dtype=int), []])
    elif what == "no":
        del a["cell_vectors"]
    elif what == "outside":
        a["basis_points"] = swap(b, k, swap(b[k], j, r.choice([1.0, 1.5, 7.0])))
    elif what == "below":
        a["basis_points"] = swap(b, k, swap(b[k], j, r.choice([-0.1, -1.0, -1e-9])))
    elif what == "few":
        a["basis_points"] = swap(b, k, b[k][:2])
    elif what == "intbasis":
        a["basis_points"] = swap(b, k, [0, 0, 0])
    elif what == "kindbasis":
        a["basis_points"] = r.choice([None, 7, "abc", [0.0, 0.0, 0.0], [None]])
    elif what == "emptybasis":
        a["basis_points"] = []
    else:
        del a["basis_points"]
    return "unit cell: " + what, a, lambda: kmc.KMCUnitCell(**a)


def lattice(r, s, kmc):
    cell = kmc.KMCUnitCell(**cell_args(s))
    a = {"unit_cell": cell, "repetitions": tuple(s["rep"]), "periodic": tuple(s["per"])}
    i = r.randrange(3)
    what = r.choice(["cell", "few", "many", "float", "zero", "negative", "string", "kind", "perfew", "permany", "perint", "perkind",
                     "nocell"])
    if what == "cell":
        a["unit_cell"] = other_than(r)
    elif what == "few":
        a["repetitions"] = a["repetitions"][:2]
    elif what == "many":
        a["repetitions"] = a["repetitions"] + (1,)
    elif what == "float":
        a["repetitions"] = swap(s["rep"], i, float(s["rep"][i]))
    elif what == "zero":
        a["repetitions"] = swap(s["rep"], i, 0)
    elif what == "negative":
        a["repetitions"] = swap(s["rep"], i, -s["rep"][i])
    elif what == "string":
        a["repetitions"] = swap(s["rep"], i, str(s["rep"][i]))
    elif what == "kind":
        a["repetitions"] = r.choice([7, "abc", 1.5])
    elif what == "perfew":
        a["periodic"] = a["periodic"][:2]
    elif what == "permany":
        a["periodic"] = a["periodic"] + (True,)
    elif what == "perint":
        a["periodic"] = swap(s["per"], i, r.choice([0, 1, None, "True"]))
    elif what == "perkind":
        a["periodic"] = r.choice([7, "abc", 1.5, True])
    else:
        del a["unit_cell"]
    return "lattice: " + what, a, lambda: kmc.KMCLattice(**a)


# -- configurations

def configuration(r, s, kmc, lat):
    n = len(s["types"])
    possible = list(s["possible"])
    if r.random() < 0.45:
        types = [r.choice(possible) for _ in range(n)]
        a = {"lattice": lat, "types": types, "possible_types": possible}
        k = r.randrange(n)
        what = r.choice(["lattice", "few", "many", "unknown", "wildcard", "wildpossible", "kindpossible", "intpossible", "default", "kind",
                         "notypes"])
        if what == "lattice":
            a["lattice"] = other_than(r)
        elif what == "few":
            a["types"] = types[:-1]
        elif what == "many":
            a["types"] = types + [types[0]]
        elif what == "unknown":
            a["types"] = swap(types, k, "unknown type")
        elif what == "wildcard":
            a["types"] = swap(types, k, "*")
            if r.random() < 0.5:
                del a["possible_types"]
        elif what == "wildpossible":
            a["possible_types"] = possible + ["*"]
        elif what == "kindpossible":
            a["possible_types"] = r.choice([7, "A", tuple(possible), dict.fromkeys(possible)])
        elif what == "intpossible":
            a["possible_types"] = possible + [7]
        elif what == "default":
            a["default_type"] = types[0]
        elif what == "kind":
            a["types"] = r.choice([7, "A", None, tuple(types), dict.fromkeys(types)])
        else:
            del a["types"]
        return "configuration: short, " + what, a, lambda: kmc.KMCConfiguration(**a)
    if r.random() < 0.6:
        entry = tuple(r.randrange(m) for m in list(s["rep"]) + [len(s["basis"])]) + (possible[0],)
        entries = [entry] + [tuple(r.randrange(m) for m in list(s["rep"]) + [len(s["basis"])]) + (r.choice(possible),)
                             for _ in range(r.randint(0, 3))]
        a = {"lattice": lat, "types": entries, "possible_types": possible, "default_type": r.choice(possible)}
        k = r.randrange(len(entries))
        d = r.randrange(4)
        m = (list(s["rep"]) + [len(s["basis"])])[d]
        what = r.choice(["above", "below", "short", "long", "unknown", "nodefault", "default", "intdefault", "float", "unknowndefault"])
        if n <= len(entries) and what in ("default", "unknowndefault"):
            # (the default type may not be needed)
            what = "nodefault"
        if what == "above":
            a["types"] = swap(entries, k, tuple(swap(entries[k], d, r.choice([m, m + 1, 10 * m]))))
        elif what == "below":
            a["types"] = swap(entries, k, tuple(swap(entries[k], d, r.choice([-1, -m]))))
        elif what == "short":
            a["types"] = entries + [entries[0][:4]]
        elif what == "long":
            a["types"] = entries + [entries[0] + (1,)]
        elif what == "unknown":
            # (a later entry for the same site counts)
            a["types"] = entries + [entries[k][:4] + ("unknown type",)]
        elif what == "nodefault":
            del a["default_type"]
        elif what == "default":
            a["default_type"] = "*"
        elif what == "intdefault":
            a["default_type"] = 7
        elif what == "float":
            a["types"] = entries + [tuple(swap(entries[0], d, float(entries[0][d])))]
        else:
            a["default_type"] = "unknown type"
        return "configuration: long, " + what, a, lambda: kmc.KMCConfiguration(**a)
    types = [[(1, r.choice(possible))] for _ in range(n)]
    a = {"lattice": lat, "types": types, "possible_types": possible}
    k = r.randrange(n)
    what = r.choice(["unknown", "few", "many", "none", "int", "swapped", "triple", "listint", "listswapped", "listtriple", "default", "wild",
                     "negative", "floatcount"])
    if what == "unknown":
        types[k] = [(1, "unknown type")]
    elif what == "few":
        a["types"] = types[:-1]
    elif what == "many":
        a["types"] = types + [types[0]]
    elif what == "none":
        types[k] = None
    elif what == "int":
        types[k] = 7
    elif what == "swapped":
        types[k] = (possible[0], 1)
    elif what == "triple":
        types[k] = (1, possible[0], 1)
    elif what == "listint":
        types[k] = [1, possible[0]]
    elif what == "listswapped":
        types[k] = [(possible[0], 1)]
    elif what == "listtriple":
        types[k] = [(1, possible[0], 1)]
    elif what == "default":
        a["default_type"] = possible[0]
    elif what == "wild":
        types[k] = [(1, "*")]
    elif what == "negative":
        types[k] = [(-1, possible[0])]
    else:
        types[k] = [(1.5, possible[0])]
    return "configuration: buckets, " + what, a, lambda: kmc.KMCConfiguration(**a)


# -- processes

def process(r, s, kmc):
    a_, b_ = s["possible"][0], s["possible"][-1] + "2"
    a = {"coordinates": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], "elements_before": [a_, b_, a_],
         "elements_after": [b_, a_, a_], "basis_sites": [0], "rate_constant": 1.5}
    if r.random() < 0.5:
        a["move_vectors"] = [(0, [1.0, 0.0, 0.0]), (1, [-1.0, 0.0, 0.0])]
    what = r.choice(["nocoords", "empty", "flat", "narrow", "int", "nan", "before", "after", "longbefore", "intbefore", "kindbefore", "same", "wild",
                     "wildafter", "basisneg", "basisfloat", "basisempty", "basiskind", "nobasis", "rateneg", "rateint", "ratestr", "norate",
                     "moveto", "movewrong", "moveshort", "movekind", "movelist", "moveint", "movefloat", "movemissing", "moveindex"])
    moves = [(0, [1.0, 0.0, 0.0]), (1, [-1.0, 0.0, 0.0])]
    c = a["coordinates"]
    i = r.randrange(3)
    if what == "nocoords":
        del a["coordinates"]
    elif what == "empty":
        a["coordinates"] = []
    elif what == "flat":
        a["coordinates"] = c[0]
    elif what == "narrow":
        a["coordinates"] = swap(c, i, c[i][:2])
    elif what == "int":
        a["coordinates"] = swap(c, i, [int(x) for x in c[i]])
    elif what == "nan":
        a["coordinates"] = swap(c, i, swap(c[i], r.randrange(3), r.choice([float("nan"), float("inf")])))
    elif what == "before":
        a["elements_before"] = a["elements_before"][:-1]
    elif what == "after":
        a["elements_after"] = a["elements_after"][:-1]
    elif what == "longbefore":
        a["elements_before"] = a["elements_before"] + [a_]
    elif what == "intbefore":
        a["elements_before"] = swap(a["elements_before"], i, 1)
    elif what == "kindbefore":
        a["elements_before"] = r.choice([None, 7, "ABA", tuple(a["elements_before"])])
    elif what == "same":
        a["elements_after"] = list(a["elements_before"])
    elif what == "wild":
        a["elements_before"] = swap(a["elements_before"], i, "*")
    elif what == "wildafter":
        a["elements_after"] = swap(a["elements_after"], i, "*")
    elif what == "basisneg":
        a["basis_sites"] = [-1]
    elif what == "basisfloat":
        a["basis_sites"] = [0.0]
    elif what == "basisempty":
        a["basis_sites"] = []
    elif what == "basiskind":
        a["basis_sites"] = r.choice([0, "0", None, [None]])
    elif what == "nobasis":
        del a["basis_sites"]
    elif what == "rateneg":
        a["rate_constant"] = r.choice([-1.0, -1e-300, float("-inf"), float("nan")])
    elif what == "rateint":
        a["rate_constant"] = 1
    elif what == "ratestr":
        a["rate_constant"] = r.choice(["1.0", [1.0], b"1.0"])
    elif what == "norate":
        del a["rate_constant"]
    elif what == "moveto":
        a["move_vectors"] = [(0, [1.5, 0.0, 0.0]), (1, [-1.0, 0.0, 0.0])]
    elif what == "movewrong":
        a["move_vectors"] = [(0, [0.0, 1.0, 0.0]), (2, [0.0, -1.0, 0.0])]
    elif what == "moveshort":
        a["move_vectors"] = swap(moves, i % 2, (i % 2, [1.0, 0.0]))
    elif what == "movekind":
        a["move_vectors"] = r.choice([7, 1.5, "abc", [None], [7]])
    elif what == "movelist":
        a["move_vectors"] = [list(m) for m in moves]
    elif what == "moveint":
        a["move_vectors"] = [(0, [1, 0, 0]), (1, [-1, 0, 0])]
    elif what == "movefloat":
        a["move_vectors"] = [(0.0, [1.0, 0.0, 0.0]), (1.0, [-1.0, 0.0, 0.0])]
    elif what == "movemissing":
        a["move_vectors"] = moves[:1]
    else:
        a["move_vectors"] = [moves[0], (r.choice([3, 7, -4]), [-1.0, 0.0, 0.0])]
    return "process: " + what, a, lambda: kmc.KMCProcess(**a)


def bucket_process(r, s, kmc):
    t = s["possible"][0]
    a = {"coordinates": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]], "minimum_match": [[(1, t)], [(1, t)]], "update": [[(-1, t)], [(1, t)]],
         "basis_sites": [0], "rate_constant": 1.5}
    what = r.choice(["empty", "int", "match", "longmatch", "kindmatch", "swapped", "triple", "basisneg", "basisempty", "rateneg", "rateint",
                     "norate", "update", "longupdate", "kindupdate", "swappedupdate"])
    if what == "empty":
        a["coordinates"] = []
    elif what == "int":
        a["coordinates"] = [[0, 0, 0], [1, 0, 0]]
    elif what == "match":
        a["minimum_match"] = a["minimum_match"][:1]
    elif what == "longmatch":
        a["minimum_match"] = a["minimum_match"] * 2
    elif what == "kindmatch":
        a["minimum_match"] = [[(1, t)], r.choice([None, 7, 1.5])]
    elif what == "swapped":
        a["minimum_match"] = [[(1, t)], r.choice([(t, 1), [(t, 1)]])]
    elif what == "triple":
        a["minimum_match"] = [[(1, t)], r.choice([(1, t, 1), [(1, t, 1)]])]
    elif what == "basisneg":
        a["basis_sites"] = [-1]
    elif what == "basisempty":
        a["basis_sites"] = []
    elif what == "rateneg":
        a["rate_constant"] = -1.0
    elif what == "rateint":
        a["rate_constant"] = 1
    elif what == "norate":
        del a["rate_constant"]
    elif what == "update":
        a["update"] = a["update"][:1]
    elif what == "longupdate":
        a["update"] = a["update"] * 2
    elif what == "kindupdate":
        a["update"] = [[(-1, t)], r.choice([None, 7, [None], [7]])]
    else:
        a["update"] = [[(-1, t)], [(t, 1)]]
    return "bucket process: " + what, a, lambda: kmc.KMCBucketProcess(**a)


def local_configuration(r, s, kmc):
    t = s["possible"][0]
    a = {"coordinates": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]], "types": [t, t]}
    what = r.choice(["center", "below", "kind", "types", "empty", "int"])
    if what == "center":
        a["center"] = r.choice([2, 100])
    elif what == "below":
        a["center"] = -1
    elif what == "kind":
        a["center"] = r.choice([0.0, "0", []])
    elif what == "types":
        a["types"] = r.choice([[t], [t] * 3, [t, 7], [t, None]])
    elif what == "empty":
        a["coordinates"] = []
    else:
        a["coordinates"] = [[0, 0, 0], [1, 0, 0]]
    return "local configuration: " + what, a, lambda: kmc.KMCLocalConfiguration(**a)


# -- interactions, models and runs

def interactions(r, s, kmc, procs):
    a = {"processes": procs, "implicit_wildcards": True}
    what = r.choice(["empty", "kind", "element", "none", "flag", "calculator", "name"])
    if what == "empty":
        a["processes"] = []
    elif what == "kind":
        a["processes"] = r.choice([None, 7, procs[0]])
    elif what == "element":
        a["processes"] = procs + [other_than(r)]
    elif what == "none":
        del a["processes"]
    elif what == "flag":
        a["implicit_wildcards"] = r.choice([0, 1, "True", []])
    elif what == "calculator":
        calc = r.choice([7, 1.5, [], kmc.KMCProcess.__init__])
        return "interactions: calculator", {}, lambda: kmc.KMCInteractions(processes=procs).setRateCalculator(calc)
    else:
        return "interactions: calculator name", {}, lambda: kmc.KMCInteractions(processes=procs).setRateCalculator("NoSuchCalculator")
    return "interactions: " + what, a, lambda: kmc.KMCInteractions(**a)


def foreign(r, s, kmc, config):
    """Processes with a type that is not possible, rate calculators that are none."""
    what = r.choice(["type", "addtype", "calculator", "base"])
    t = s["possible"][0]
    p = kmc.KMCProcess(coordinates=[[0.0, 0.0, 0.0]], elements_before=[t], elements_after=["unknown type" if what == "type" else t + "x"],
                       basis_sites=[0], rate_constant=1.0)
    if what == "addtype":
        p = kmc.KMCBucketProcess(coordinates=[[0.0, 0.0, 0.0]], minimum_match=[[(1, t)]], update=[[(1, "unknown type")]], basis_sites=[0],
                                 rate_constant=1.0)
    if what in ("calculator", "base"):
        after = (s["possible"] + [t])[1]
        if after == t:
            return None
        p = kmc.KMCProcess(coordinates=[[0.0, 0.0, 0.0]], elements_before=[t], elements_after=[after], basis_sites=[0], rate_constant=1.0)

    class NoCalculator(object):
        def __init__(self, configuration):
            pass
    inter = kmc.KMCInteractions(processes=[p])
    if what == "calculator":
        inter.setRateCalculator(NoCalculator)
    elif what == "base":
        inter.setRateCalculator(kmc.KMCRateCalculatorPlugin)
    return "model: " + what, {}, lambda: kmc.KMCLatticeModel(configuration=config, interactions=inter).run(kmc.KMCControlParameters(number_of_steps=1))


def model(r, s, kmc, config, inter):
    a = {"configuration": config, "interactions": inter}
    what = r.choice(["configuration", "interactions", "swapped"])
    if what == "swapped":
        a = {"configuration": inter, "interactions": config}
    else:
        a[what] = other_than(r)
    return "model: " + what, a, lambda: kmc.KMCLatticeModel(**a)


def parameters(r, s, kmc):
    name = r.choice(["number_of_steps", "dump_interval", "analysis_interval", "seed", "dump_time_interval", "both", "rng_type"])
    if name == "both":
        a = {"dump_interval": 1, "dump_time_interval": 1.0}
    elif name == "rng_type":
        a = {name: r.choice(["mt", "XX", 7, ""])}
    elif name == "dump_time_interval":
        a = {name: r.choice([0.0, -1.0, 1, "1.0", -1e-300, float("nan")])}
    elif name == "seed" and r.random() < 0.3:
        a = {name: r.choice([2 ** 31, 2 ** 32 + 1, 2 ** 63, 10 ** 30])}
    elif name in ("dump_interval", "analysis_interval") and r.random() < 0.3:
        a = {name: 0}
    else:
        a = {name: r.choice([-1, -100, 1.0, 10.5, "1", [1], (1, 2)])}
    a.setdefault("number_of_steps", 3)
    return "parameters: " + name, a, lambda: kmc.KMCControlParameters(**a)


def analysis(r, s, kmc):
    name = r.choice(["composition", "statistics", "spatial", "interval", "msd", "hist", "tmax", "tsd", "bins"])
    neg = r.choice([-1.0, 1, "1.0", [1.0], float("nan"), -float("inf")])
    if name == "composition":
        return "analysis: " + name, {}, lambda: kmc.Composition(time_interval=neg)
    if name == "statistics":
        p = r.choice([[-1], 7, "0", [0.0], [], [None]])
        return "analysis: " + name, {}, lambda: kmc.ProcessStatistics(processes=p)
    if name == "spatial":
        return "analysis: " + name, {}, lambda: kmc.ProcessStatistics(processes=[0], spatially_resolved=r.choice([0, 1, "True"]))
    if name == "interval":
        return "analysis: " + name, {}, lambda: kmc.ProcessStatistics(processes=[0], time_interval=neg)
    ok = {"history_steps": 5, "n_bins": 5, "t_max": 1.0, "track_type": s["possible"][0]}
    if name == "msd":
        ok["track_type"] = r.choice([7, None, ["A"]])
    elif name == "hist":
        ok["history_steps"] = r.choice([-1, 1.5, "1"])
    elif name == "bins":
        ok["n_bins"] = r.choice([-1, 1.5, "1"])
    elif name == "tmax":
        ok["t_max"] = r.choice([neg, 0.0])
    else:
        return "analysis: time steps", {}, lambda: kmc.TimeStepDistribution(binsize=r.choice([neg, 0.0]))
    return "analysis: " + name, {}, lambda: kmc.OnTheFlyMSD(**ok)


def run(r, s, kmc, m, name):
    """A call of run() of a model that is in use."""
    good = kmc.KMCControlParameters(number_of_steps=r.randint(0, 3), seed=r.randint(1, 999))
    a = {"control_parameters": good, "trajectory_filename": name, "trajectory_type": r.choice(["lattice", "xyz"])}
    what = r.choice(["parameters", "none", "filename", "type", "kindtype", "analysis", "analyses", "breakers", "breaker", "class", "track"])
    if what == "parameters":
        a["control_parameters"] = other_than(r)
    elif what == "none":
        del a["control_parameters"]
    elif what == "filename":
        a["trajectory_filename"] = r.choice([7, 1.5, [name], b"name"])
    elif what == "type":
        a["trajectory_type"] = r.choice(["Lattice", "pdb", "", "xyz "])
    elif what == "kindtype":
        a["trajectory_type"] = r.choice([7, 1.5, ["xyz"]])
    elif what == "analysis":
        a["analysis"] = [other_than(r)]
    elif what == "analyses":
        a["analysis"] = r.choice([7, kmc.Composition()])
    elif what == "breakers":
        a["breakers"] = r.choice([7, [7], [kmc.Composition()]])
    elif what == "breaker":
        a["breakers"] = [other_than(r)]
    elif what == "class":
        a["analysis"] = [kmc.Composition]
    else:
        # (found out by the analysis, when the trajectory exists already)
        a["trajectory_filename"] = "other"
        a["analysis"] = [kmc.OnTheFlyMSD(history_steps=3, n_bins=3, t_max=1.0, track_type="unknown type")]
    return "run: " + what, a, lambda: m.run(**a)


def scripts(r, s, kmc):
    from KMCLib.Utilities.SaveAndReadUtilities import KMCConfigurationFromScript
    return "script: missing", {}, lambda: KMCConfigurationFromScript("no such file.py")


# -- systems that may be senseless, but may not do damage

def senseless(r, kmc):
    """A model nobody should build; whatever happens, the interpreter stays alive."""
    n = r.randint(1, 2)
    rep, per = [r.randint(1, 4) for _ in range(3)], [r.random() < 0.6 for _ in range(3)]
    cell = kmc.KMCUnitCell(cell_vectors=numpy.identity(3), basis_points=[[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]][:n])
    lat = kmc.KMCLattice(unit_cell=cell, repetitions=rep, periodic=per)
    sites = n * rep[0] * rep[1] * rep[2]
    possible = ["A", "B"]
    bucket = r.random() < 0.6
    what = r.choice(["range", "range", "possible", "basis", "empty", "sites", "count", "update", "overdraw", "rates", "wildcard", "cutoff", "same",
                     "analysis", "analysis", "analysis", "moves", "moves", "crowd", "lifetime"])
    if what == "possible":
        possible = r.choice([["A", "A", "B"], ["B", "A", "B", "A"], ["A", "B"] + ["C%d" % i for i in range(500)]])
    if bucket:
        types = [[(r.randint(0, 2), "A"), (r.randint(0, 2), "B")] for _ in range(sites)]
        if what == "empty":
            types = [[] for _ in range(sites)]
        elif what == "sites":
            types = types[:r.randint(0, sites)] + types[:r.randint(0, 3)]
        elif what == "count":
            types[0] = [(r.choice([-1, -5, 1000, 0]), "A")]
        elif what == "crowd":
            types = [[(r.choice([0, 5, 40, 80, 1000]), t) for t in "AB"] for _ in range(sites)]
    else:
        types = [r.choice("AB") for _ in range(sites)]
        if what == "sites":
            types = types[:r.randint(0, sites)] + types[:r.randint(0, 3)]
    config = kmc.KMCConfiguration(lattice=lat, types=types, possible_types=possible)
    procs = []
    for _ in range(r.choice([1, 2, 2, 3])):
        far = r.choice([1, 2, 3, 5]) if what == "range" else 1
        coords = [[0.0, 0.0, 0.0]]
        for _ in range(r.randint(0, 4)):
            c = [float(r.randint(-far, far)) for _ in range(3)]
            if c not in coords or what == "same":
                coords.append(c)
        basis = [0] if what != "basis" else r.choice([[1], [0, 1], [5], [2 ** 31 - 1], [2 ** 40], [0, 0]])
        rate = 1.0 if what != "rates" else r.choice([0.0, float("inf"), float("nan"), 1e308, 1e-320])
        if bucket:
            match = [[(r.randint(0, 1), "A")] for _ in coords]
            update = [[(r.choice([-1, 1]), r.choice("AB"))] for _ in coords]
            if what == "crowd":
                match = [[(r.choice([0, 1, 4, 20, 36, 500]), r.choice("AB"))] for _ in coords]
            elif what == "overdraw":
                update = [[(-3, "A")] for _ in coords]
            elif what == "update":
                update = update[:r.randint(0, len(update))] + [[(1, "A")]] * r.randint(0, 2)
            elif what == "wildcard":
                update[0] = [(1, "*")]
            p = kmc.KMCBucketProcess(coordinates=coords, minimum_match=match, update=update, basis_sites=basis, rate_constant=rate)
        else:
            before = [r.choice("AB*") if i else r.choice("AB") for i in range(len(coords))]
            after = [x if x == "*" else {"A": "B", "B": "A"}[x] if r.random() < 0.7 or i == 0 else x for i, x in enumerate(before)]
            moves = None
            if what == "moves":
                # (the indices and the format are right, nothing else needs to be)
                moves = []
                for i in r.sample(range(len(coords)), r.randint(1, len(coords))):
                    to = r.choice(coords + [[9.0, 9.0, 9.0]]) if r.random() < 0.8 else coords[i]
                    moves.append((i, [y - x for x, y in zip(coords[i], to)]))
            p = kmc.KMCProcess(coordinates=coords, elements_before=before, elements_after=after, basis_sites=basis, rate_constant=rate,
                               move_vectors=moves)
        procs.append(p)
    inter = kmc.KMCInteractions(processes=procs, implicit_wildcards=r.random() < 0.5)
    if what == "cutoff":
        cut = r.choice([0.0, -1.0, 2.5, 5.0, 3, None])

        class Calculator(kmc.KMCRateCalculatorPlugin):
            def rate(self, *a):
                return 1.0

            def cutoff(self):
                return cut
        inter.setRateCalculator(Calculator)
    analysis = []
    if what == "analysis":
        for _ in range(r.randint(1, 2)):
            analysis.append(kmc.OnTheFlyMSD(history_steps=r.choice([0, 1, 1, 2, 3, 5]), n_bins=r.choice([0, 1, 2, 5]),
                                            t_max=r.choice([1e-300, 1e-9, 0.3, 2.0, 1e9, 1e300]), track_type="A"))
        if r.random() < 0.3:
            analysis.append(kmc.ProcessStatistics(processes=[r.choice([0, 1, 99])], spatially_resolved=r.random() < 0.5,
                                                  time_interval=r.choice([0.1, 3.0])))
    m = kmc.KMCLatticeModel(configuration=config, interactions=inter)
    n = 0
    if what == "lifetime" or r.random() < 0.2:
        # The model keeps what it needs.
        del config, inter, p, procs, lat, cell
        gc.collect()
        config = None
    for steps in (20, 2):
        n += steps
        m.run(kmc.KMCControlParameters(number_of_steps=steps, seed=1), analysis=analysis or None)
    if config is not None:
        if r.random() < 0.5:
            # The configuration goes on to another model.
            del m
            gc.collect()
            kmc.KMCLatticeModel(configuration=config, interactions=inter).run(kmc.KMCControlParameters(number_of_steps=2, seed=1))
        config.types(), config.atomIDTypes(), config.movedAtomIDs(), config.particlesPerType()
    return n
