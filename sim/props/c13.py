"""C13: the script of a model restores it, at any point of its history."""
import os
import random
import re

from sim import world
from sim.history import Run, same_events, same_history
from sim.props import common
from sim.props.common import REAL, ASSUMPTIONS          # noqa: F401
from sim.session import gen_clock, rng_setup

ID = "C13"
RUNS = {"quick": 1300, "thorough": 40000}
RULE = ("A run advances one random system a random number of steps, saves its script and reads it back; the restored model is compared "
        "with the original and run next to a newly built model with the same configuration and random numbers. The script is then cut "
        "off at random points (as a crash while saving would), and read again. Non-trivial: at least one step before saving.")
STATES = "restored configurations, by hash"
STUBS = common.STUBS + ["the saving of scripts (plain writes of the text, cut off at random)"]

# What a user writes above a script.
HEADER = "from KMCLib import *\n"


def gen(rng, tier, index):
    prof = world.Profile(bucket=rng.random() < 0.12, calc=False, max_sites=rng.choice([10, 40, 90]), reversible=0.85)
    spec = world.gen_spec(rng, prof)
    if rng.random() < 0.7:
        # Numbers with all digits.
        for p in spec["procs"]:
            p["rate"] *= rng.uniform(0.9, 1.1)
        for v in spec["cell"]:
            v[:] = [x * rng.uniform(0.9, 1.1) for x in v]
    return {"spec": spec, "steps": rng.choice([0, 1, 2, 5, 10, 40]), "more": rng.randint(1, 30), "split": rng.random() < 0.5,
            "rng": {"tail": rng.choice(["sim", "sim", "biased"]), "state": rng.getrandbits(63)}, "clock": gen_clock(rng),
            "cuts": [rng.random() for _ in range(6)] + [1.0 - rng.random() * 0.05 for _ in range(4)],
            "damage": rng.choice(["cut", "cut", "hole"]), "order": rng.random() < 0.5}


def execute(sc, ctx):
    from KMCLib import KMCLattice, KMCLatticeModel, KMCUnitCell
    from KMCLib.Utilities import SaveAndReadUtilities as sr
    spec = sc["spec"]
    rng_setup(ctx, sc)
    a = Run(ctx, spec)
    if sc["split"]:
        a.run(sc["steps"] // 2, what="the first run")
    if sc["split"] and not spec["bucket"]:
        # An earlier checkpoint in the same file.
        early = ctx.sut("_script", a.model._script)
        save("model.py", early)
        checkpoint = ctx.sut("KMCLatticeModelFromScript", sr.KMCLatticeModelFromScript, "model.py")
        ctx.require(isinstance(checkpoint, KMCLatticeModel), "restore", "the script of the model gives %r", checkpoint)
        same_script(ctx, spec, early, checkpoint)
        ctx.count("checkpoints_overwritten")
    if sc["split"]:
        a.run(sc["steps"] - sc["steps"] // 2, seed=2, what="the second run")
    else:
        a.run(sc["steps"], what="the run")
    state = a.state()
    if spec["bucket"]:
        return of_buckets(sc, ctx, a, state)
    text = ctx.sut("_script", a.model._script)
    ctx.require(isinstance(text, str), "script", "the script is no text")
    ctx.require(ctx.sut("_script", a.model._script) == text, "script", "a second script differs")
    save("model.py", text)
    restored = ctx.sut("KMCLatticeModelFromScript", sr.KMCLatticeModelFromScript, "model.py")
    ctx.require(isinstance(restored, KMCLatticeModel), "restore", "the script of the model gives %r", restored)
    same_script(ctx, spec, text, restored)

    # The parts.
    config = ctx.sut("KMCConfigurationFromScript", sr.KMCConfigurationFromScript, "model.py")
    inter = ctx.sut("KMCInteractionsFromScript", sr.KMCInteractionsFromScript, "model.py")
    lattice = ctx.sut("getScriptComponent", sr.getScriptComponent, "model.py", KMCLattice)
    cell = ctx.sut("getScriptComponent", sr.getScriptComponent, "model.py", KMCUnitCell)
    same_parts(ctx, spec, state, config, inter, lattice, cell, "model.py", "in the script of the model")
    save("configuration.py", ctx.sut("_script", a.config._script))
    config2 = ctx.sut("KMCConfigurationFromScript", sr.KMCConfigurationFromScript, "configuration.py")
    save("interactions.py", ctx.sut("_script", inter._script))
    inter2 = ctx.sut("KMCInteractionsFromScript", sr.KMCInteractionsFromScript, "interactions.py")
    ctx.require(ctx.sut("KMCInteractionsFromScript", sr.KMCInteractionsFromScript, "configuration.py") is None, "absent",
                "the script of a configuration gives interactions")
    ctx.require(ctx.sut("KMCLatticeModelFromScript", sr.KMCLatticeModelFromScript, "interactions.py") is None, "absent",
                "the script of interactions gives a model")
    same_parts(ctx, spec, state, config2, inter2, lattice, cell, "interactions.py", "in the scripts of the parts")
    local(ctx, processes("model.py"))
    exported(ctx, sc, a)

    # The restored models behave like a new one.
    now = dict(spec)
    now["types"] = [[t for c, t in zip(s, spec["possible"]) if c][0] for s in state]
    now["format"] = "short"
    runs = []
    for name, make in (("new", None), ("restored", lambda: restored),
                       ("restored from the parts", lambda: KMCLatticeModel(configuration=config2, interactions=inter2))):
        rng_setup(ctx, sc)
        r = Run(ctx, now)
        if make is not None:
            r.model = ctx.sut("model", make)
            r.config = config2 if "parts" in name else restored_config(r.model)
        before = r.events()
        r.run(sc["more"], seed=3, what="the run of the %s model" % name)
        runs.append((name, r, before))
    ref = runs[0]
    for name, r, before in runs[1:]:
        what = "the new and the %s model" % name
        same_events(ctx, ref[2], before, "events", what + " at the start")
        same_history(ctx, ref[1].history, r.history, "history", what)
        ctx.require(ref[1].how == r.how, "history", "%s end differently", what)
        same_events(ctx, ref[1].events(), r.events(), "events", what + " at the end")
        if r.config is not None:
            ctx.require(ref[1].state() == r.state(), "history", "%s end in different configurations", what)
            x, y = ref[1].atoms(), r.atoms()
            ctx.require(x[0] == y[0] and x[2] == y[2], "history", "%s end with different atoms", what)
            ctx.require(all(abs(p - q) < 1e-9 for c, d in zip(x[1], y[1]) for p, q in zip(c, d)), "history",
                        "%s end with atoms at different positions", what)
    # (the first one has moved on)
    restored_now = ctx.sut("KMCLatticeModelFromScript", sr.KMCLatticeModelFromScript, "model.py")
    ctx.require(a.state() == state, "disturbed", "running a restored model changed the original")

    damaged(sc, ctx, text, [(sr.KMCLatticeModelFromScript, restored_now), (sr.KMCConfigurationFromScript, config),
                            (sr.KMCInteractionsFromScript, inter)])
    from KMCLib.Exceptions.Error import Error
    try:
        sr.KMCLatticeModelFromScript(os.path.join("missing", "model.py"))
        ctx.violate("absent", "a missing file gives no error")
    except Error:
        pass
    ctx.event(text)
    ctx.event(runs[1][1].history)
    ctx.state(state)
    ctx.steps = len(a.history) + 3 * len(ref[1].history)
    ctx.sim_time = (a.history or [(0, 0.0)])[-1][1]
    ctx.nontrivial = len(a.history) > 0


def of_buckets(sc, ctx, a, state):
    """Configurations with several particles per site have a script, bucket processes have not."""
    from KMCLib import KMCLattice, KMCLatticeModel, KMCUnitCell
    from KMCLib.Utilities import SaveAndReadUtilities as sr
    spec = sc["spec"]
    text = ctx.sut("_script", a.config._script)
    save("configuration.py", text)
    config = ctx.sut("KMCConfigurationFromScript", sr.KMCConfigurationFromScript, "configuration.py")
    lattice = ctx.sut("getScriptComponent", sr.getScriptComponent, "configuration.py", KMCLattice)
    cell = ctx.sut("getScriptComponent", sr.getScriptComponent, "configuration.py", KMCUnitCell)
    same_system(ctx, spec, state, config, lattice, cell, "in the script of the configuration")
    ctx.require(ctx.sut("_script", config._script) == text, "script", "the script of the restored configuration differs")
    ctx.require(ctx.sut("KMCLatticeModelFromScript", sr.KMCLatticeModelFromScript, "configuration.py") is None, "absent",
                "the script of a configuration gives a model")
    now = dict(spec)
    now["types"] = [[[c, t] for c, t in zip(s, spec["possible"]) if c] for s in state]
    runs = []
    for name, c in (("new", None), ("restored", config)):
        rng_setup(ctx, sc)
        r = Run(ctx, now)
        if c is not None:
            r.config = c
            r.model = ctx.sut("model", KMCLatticeModel, configuration=c, interactions=world.build_interactions(now))
        before = r.events()
        r.run(sc["more"], seed=3, what="the run of the %s model" % name)
        runs.append((r, before))
    what = "the new and the restored model"
    (x, p), (y, q) = runs
    same_events(ctx, p, q, "events", what + " at the start")
    same_history(ctx, x.history, y.history, "history", what)
    ctx.require(x.how == y.how and x.state() == y.state(), "history", "%s end in different configurations", what)
    # (the first one has moved on)
    again = ctx.sut("KMCConfigurationFromScript", sr.KMCConfigurationFromScript, "configuration.py")
    damaged(sc, ctx, text, [(sr.KMCConfigurationFromScript, again)])
    ctx.event(text)
    ctx.event(y.history)
    ctx.state(state)
    ctx.count("bucket_configurations")
    ctx.steps = len(a.history) + 2 * len(x.history)
    ctx.nontrivial = len(a.history) > 0


def damaged(sc, ctx, text, readers):
    """Files that are cut off or hold a run of zeros where data was lost."""
    data = (HEADER + text).encode()
    for f in sc["cuts"]:
        n = min(len(data) - 1, int(f * len(data)))
        if sc["damage"] == "cut":
            broken = data[:n]
        else:
            broken = data[:n] + b"\0" * min(64, len(data) - n) + data[n + 64:]
        with open("broken.py", "wb") as out:
            out.write(broken)
        ctx.count("fault:" + ("cut_file" if sc["damage"] == "cut" else "zeroed_block"))
        for reader, whole in readers:
            try:
                got = reader("broken.py")
            except Exception:
                continue
            if got is None:
                continue
            ctx.count("damaged_files_read")
            ctx.require(got._script() == whole._script(), "wrong-model", "a script damaged at byte %d of %d gives another %s", n,
                        len(data), type(whole).__name__)


def same_script(ctx, spec, text, restored):
    again = ctx.sut("_script of the restored model", restored._script)
    if any(p.get("noise") for p in spec["procs"]):
        # Coordinates of processes are sorted by all their digits, and the script drops rounding errors: the sites may be listed in
        # another order, once.
        save("again.py", again)
        from KMCLib.Utilities import SaveAndReadUtilities as sr
        text, restored = again, ctx.sut("KMCLatticeModelFromScript", sr.KMCLatticeModelFromScript, "again.py")
        ctx.require(restored is not None, "restore", "the script of the restored model gives nothing")
        again = ctx.sut("_script of the restored model", restored._script)
    ctx.require(again == text, "script", "the script of the restored model differs")


def save(name, text):
    with open(name, "w", encoding="utf-8") as f:
        f.write(HEADER + text)


def restored_config(model):
    """The configuration a restored model holds."""
    from KMCLib import KMCConfiguration
    for v in vars(model).values():
        if isinstance(v, KMCConfiguration):
            return v
    return None


def processes(name):
    """The processes a script sets up."""
    from KMCLib import KMCProcess
    space = {}
    with open(name, "rb") as f:
        exec(compile(f.read(), name, "exec"), space)
    return [v for v in space.values() if isinstance(v, KMCProcess)]


def local(ctx, procs):
    """Local configurations and their scripts."""
    from KMCLib import KMCLocalConfiguration
    from KMCLib.Utilities import SaveAndReadUtilities as sr
    for i, p in enumerate(procs[:4]):
        coords = [[float(v) for v in q] for q in p.localConfigurations()[0].coordinates()]
        other = ctx.sut("KMCLocalConfiguration", KMCLocalConfiguration, coordinates=coords, types=[str(t) for t in p.elementsAfter()],
                        center=i % len(coords))
        for c in list(p.localConfigurations()) + [other]:
            save("local.py", ctx.sut("_script", c._script))
            r = ctx.sut("getScriptComponent", sr.getScriptComponent, "local.py", KMCLocalConfiguration)
            ctx.require(r is not None, "restore", "the script of a local configuration gives nothing")
            ctx.require(r.types() == c.types(), "local", "the types of a local configuration are %s instead of %s", r.types(), c.types())
            x, y = [[float(v) for v in q] for q in r.coordinates()], [[float(v) for v in q] for q in c.coordinates()]
            ctx.require(len(x) == len(y) and all(abs(u - v) <= 1e-13 * abs(v) for p, q in zip(x, y) for u, v in zip(p, q)), "local",
                        "the coordinates of a local configuration are %s instead of %s", x, y)


def exported(ctx, sc, a):
    """The script for ATK holds the atoms where they are."""
    spec = sc["spec"]
    rng = random.Random(sc["more"])
    names = dict((t, "E%d" % i) for i, t in enumerate(spec["possible"]) if rng.random() < 0.8)
    types, coords, ids = a.atoms()
    atoms = [(names[t], c) for t, c in zip(types, coords) if t in names]
    if not atoms:
        return
    text = ctx.sut("_atkScript", a.config._atkScript, names)
    number = r"\s*([-+0-9.e]+|[-+]?inf|nan)"
    m = re.search(r"^elements = \[([^\]]*)\]", text, re.M)
    ctx.require(m, "export", "an exported configuration has no elements")
    got = [t.strip() for t in m.group(1).split(",")]
    ctx.require(got == [t for t, c in atoms], "export", "%d elements of an exported configuration are not the %d atoms", len(got), len(atoms))
    rows = re.findall(r"\[" + ",".join([number] * 3) + r"\]", text[text.index("coordinates = ["):])
    ctx.require(len(rows) == len(atoms), "export", "%d coordinates for %d atoms", len(rows), len(atoms))
    for row, (t, c) in zip(rows, atoms):
        want = [x / n for x, n in zip(c, spec["rep"])]
        ctx.require(all(abs(float(x) - y) <= 1e-7 * (abs(y) + 1e-3) for x, y in zip(row, want)), "export",
                    "an atom is exported at %s instead of %s", row, want)
    rows = re.findall(r"^vector_[abc] = \[" + ",".join([number] * 3) + r"\]", text, re.M)
    want = [[x * n for x in v] for v, n in zip(spec["cell"], spec["rep"])]
    ctx.require(len(rows) == 3 and all(abs(float(x) - y) <= 1e-7 for p, q in zip(rows, want) for x, y in zip(p, q)), "export",
                "exported cell vectors are %s instead of %s", rows, want)
    ctx.count("exported")


def same_system(ctx, spec, state, config, lattice, cell, what):
    ctx.require(config is not None and lattice is not None and cell is not None, "absent", "a part is missing %s", what)
    ctx.require(world.read_state(config, spec) == state, "configuration", "the types %s differ from the configuration", what)
    have = config.possibleTypes()
    want = dict((t, i) for i, t in enumerate(["*"] + spec["possible"]))
    if world.inferred(spec):
        # (their order is not given)
        want = dict((t, have.get(t)) for t in want)
    ctx.require(dict(have) == want, "configuration", "the possible types %s are %s", what, have)
    for lat in (lattice, config.lattice()):
        ctx.require(tuple(lat.repetitions()) == tuple(spec["rep"]), "lattice", "the repetitions %s are %s", what, lat.repetitions())
        ctx.require(tuple(bool(x) for x in lat.periodic()) == tuple(spec["per"]), "lattice", "the periodicity %s is %s", what, lat.periodic())
    for c in (cell, config.lattice().unitCell()):
        for v, w in list(zip(c.cellVectors(), spec["cell"])) + list(zip(c.basis(), spec["basis"])):
            ctx.require(all(abs(x - y) <= 1e-13 * abs(y) for x, y in zip(v, w)), "lattice", "%s holds %s instead of %s", what, v, w)


def same_parts(ctx, spec, state, config, inter, lattice, cell, name, what):
    same_system(ctx, spec, state, config, lattice, cell, what)
    ctx.require(inter is not None, "absent", "a part is missing %s", what)
    procs = processes(name)
    ctx.require(len(procs) == len(spec["procs"]), "processes", "%d processes %s", len(procs), what)
    ctx.require(bool(inter.implicitWildcards()) == bool(spec["implicit"]), "processes", "implicit wildcards are %s %s",
                inter.implicitWildcards(), what)
    for i, (p, w) in enumerate(zip(procs, spec["procs"])):
        off = dict()
        c0 = w["coords"][0]
        for c, b, a in zip(w["coords"], w["before"], w["after"]):
            off[tuple(int(round((c[d] - c0[d]) * 1024)) for d in range(3))] = (b, a)
        h0 = [float(x) for x in p.localConfigurations()[0].coordinates()[0]]
        got = dict()
        for c, b, a in zip(p.localConfigurations()[0].coordinates(), p.elementsBefore(), p.elementsAfter()):
            got[tuple(int(round((float(c[d]) - h0[d]) * 1024)) for d in range(3))] = (b, a)
        ctx.require(got == off, "processes", "process %d %s is %s instead of %s (coordinate * 1024: before, after)", i, what, got, off)
        ctx.require(list(p.basisSites()) == list(w["basis"]), "processes", "process %d %s has basis sites %s", i, what, p.basisSites())
        ctx.require(abs(p.rateConstant() - w["rate"]) <= 1e-13 * w["rate"], "processes", "process %d %s has rate %r instead of %r", i, what, p.rateConstant(), w["rate"])


def shrink(sc):
    import copy
    for i in range(len(sc["cuts"])):
        c = copy.deepcopy(sc)
        del c["cuts"][i]
        yield c
    if sc["split"]:
        c = copy.deepcopy(sc)
        c["split"] = False
        yield c
    for c in common.shrink(sc):
        yield c
