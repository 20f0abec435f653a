"""Reads the two trajectory formats (independent of KMCLib)."""
import ast


class Malformed(Exception):
    pass


def read_lattice(path):
    """(sites, [(step, time, types)]) of a complete file."""
    with open(path, encoding="utf-8") as f:
        text = f.read()
    try:
        tree = ast.parse(text)
    except SyntaxError as e:
        raise Malformed("not valid: %s" % e)
    if not text.startswith("# KMCLib Trajectory\n"):
        raise Malformed("no header")
    env = {}
    for st in tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            name = st.targets[0].id
            if name in env:
                raise Malformed("%s is set twice" % name)
            env[name] = ast.literal_eval(st.value)
        elif (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute)
              and st.value.func.attr == "append" and isinstance(st.value.func.value, ast.Name)):
            name = st.value.func.value.id
            if name not in env:
                raise Malformed("%s is not set up" % name)
            env[name].append(ast.literal_eval(st.value.args[0]))
        else:
            raise Malformed("unexpected statement in line %d" % st.lineno)
    for name in ("version", "creation_time", "sites", "times", "steps", "types"):
        if name not in env:
            raise Malformed("no %s" % name)
    if not len(env["times"]) == len(env["steps"]) == len(env["types"]):
        raise Malformed("%d times, %d steps, %d types" % (len(env["times"]), len(env["steps"]), len(env["types"])))
    return env["sites"], list(zip(env["steps"], env["times"], env["types"]))


def read_xyz(path):
    """(header, [(step, time, [(type, coordinate)])]) of a complete file."""
    with open(path, encoding="utf-8") as f:
        lines = f.read().split("\n")
    if lines[-1] != "":
        raise Malformed("the last line is not complete")
    lines.pop()
    head = {}
    i = 0
    try:
        if not lines[0].startswith("KMCLib XYZ FORMAT VERSION"):
            raise Malformed("no header")
        i = 1
        while i < len(lines) and not lines[i].startswith("STEP"):
            w = lines[i].split()
            if w and w[0] in ("a:", "b:", "c:"):
                head[w[0][0]] = [float(x) for x in w[1:4]]
            elif w and w[0] == "REPETITIONS":
                head["rep"] = [int(x) for x in w[1:4]]
            elif w and w[0] == "PERIODICITY":
                head["per"] = [x == "True" for x in w[1:4]]
            i += 1
        if len(head) != 5:
            raise Malformed("the header is not complete")
        frames = []
        while i < len(lines):
            w = lines[i].split()
            if len(w) != 2 or w[0] != "STEP":
                raise Malformed("line %d is not a step: %r" % (i + 1, lines[i][:60]))
            step = int(w[1])
            n = int(lines[i + 1])
            w = lines[i + 2].split()
            if len(w) != 2 or w[0] != "TIME":
                raise Malformed("line %d is not a time: %r" % (i + 3, lines[i + 2][:60]))
            time = float(w[1])
            atoms = {}
            for k in range(n):
                t = lines[i + 3 + k].rsplit(None, 4)
                atoms[int(t[4])] = (t[0].strip(), [float(x) for x in t[1:4]])
            if sorted(atoms) != list(range(n)):
                raise Malformed("step %d: atoms are missing" % step)
            frames.append((step, time, [atoms[k] for k in range(n)]))
            i += 3 + n
        return head, frames
    except (ValueError, IndexError) as e:
        raise Malformed("in or after line %d: %s" % (i + 1, e))


def read(kind, path):
    return read_lattice(path) if kind == "lattice" else read_xyz(path)


# ---------------------------------------------------------------------------
# What a frame must hold.

def snapshot(kind, config, spec, state, atoms):
    """The expected contents of a frame: of the reference state, or of the atoms (types, coordinates)."""
    if kind == "lattice":
        out = []
        for counts in state:
            e = [(c, t) for c, t in zip(counts, spec["possible"]) if c]
            out.append(sorted(e, key=lambda x: x[1]) if spec["bucket"] else e[0][1])
        return out
    return [(t, list(c)) for t, c in zip(atoms[0], atoms[1])]


def content(kind, spec, data):
    """A frame of a file in the form of snapshot()."""
    if kind == "lattice":
        if spec["bucket"]:
            return [sorted([tuple(e) for e in s], key=lambda x: x[1]) for s in data]
        return list(data)
    return data


def same_content(kind, a, b):
    if kind == "lattice":
        return a == b
    return len(a) == len(b) and all(x[0] == y[0] and all(abs(p - q) <= 1e-8 * max(1.0, abs(q)) for p, q in zip(x[1], y[1]))
                                    for x, y in zip(a, b))


def same_time(a, b):
    return abs(a - b) <= 2e-10 * max(abs(a), abs(b))


def check_header(ctx, kind, head, spec, ref):
    if kind == "lattice":
        ctx.require(len(head) == ref.n, "header", "the header holds %d sites instead of %d", len(head), ref.n)
        for s, c in enumerate(head):
            ctx.require(all(abs(x - y) < 2e-6 for x, y in zip(c, ref.coords[s])), "header", "site %d is at %s in the header", s, c)
    else:
        for v, k in zip(spec["cell"], "abc"):
            ctx.require(all(abs(x - y) <= 1e-8 for x, y in zip(head[k], v)), "header", "cell vector %s is %s in the header", k, head[k])
        ctx.require(head["rep"] == list(spec["rep"]) and head["per"] == list(spec["per"]), "header",
                    "the header holds repetitions %s and periodicity %s", head["rep"], head["per"])


def load(ctx, kind, path, what="the trajectory"):
    try:
        return read(kind, path)
    except (Malformed, UnicodeDecodeError) as e:
        ctx.violate("malformed", "%s: %s" % (what, e))
    except OSError as e:
        ctx.violate("missing", "%s can not be read: %s" % (what, e))


def check_frames(ctx, kind, spec, frames, due, what="the trajectory"):
    """due: [(step, time, snapshot)]."""
    for i, (f, d) in enumerate(zip(frames, due)):
        ctx.require(f[0] == d[0], "frames", "%s: frame %d is of step %d, should be of step %d", what, i, f[0], d[0])
        ctx.require(same_time(f[1], d[1]), "frames", "%s: frame %d (step %d) has time %r instead of %r", what, i, f[0], f[1], d[1])
        ctx.require(same_content(kind, content(kind, spec, f[2]), d[2]), "frames", "%s: frame %d (step %d) holds another configuration",
                    what, i, f[0])
    ctx.require(len(frames) == len(due), "frames", "%s holds %d frames instead of %d (steps %s instead of %s)", what, len(frames),
                len(due), [f[0] for f in frames][:20], [d[0] for d in due][:20])
