"""Shared by the property modules."""
import copy

REAL = ["all C++ of the backend and all Python of KMCLib, compiled and imported from the working tree of /repo",
        "SWIG glue, numpy and the CPython interpreter"]
STUBS = ["uniform random source (randomDouble01: recorded; scripted, biased or passed through)",
         "clocks (time, clock_gettime, gettimeofday)"]
ASSUMPTIONS = ["lattices of up to a few hundred sites and up to 8 processes",
               "periodic directions are at least 2*range+1 cells wide, as matching needs"]


def shrink_spec(spec, min_procs=1):
    """Smaller variants of a system."""
    out = []
    n = len(spec["procs"])
    if n > min_procs:
        for i in range(n):
            s = copy.deepcopy(spec)
            del s["procs"][i]
            if s.get("calc"):
                s["calc"]["exclude"] = sorted(e - (1 if e > i else 0) for e in s["calc"]["exclude"] if e != i)
            out.append(s)
    nb = len(spec["basis"])
    for d in range(3):
        small = spec["rep"][d] - 1
        if small >= 1 and (not spec["per"][d] or small >= 3):
            s = copy.deepcopy(spec)
            s["rep"][d] = small
            types = []
            for i in range(small if d == 0 else spec["rep"][0]):
                for j in range(small if d == 1 else spec["rep"][1]):
                    for k in range(small if d == 2 else spec["rep"][2]):
                        at = ((i * spec["rep"][1] + j) * spec["rep"][2] + k) * nb
                        types += spec["types"][at:at + nb]
            s["types"] = types
            out.append(s)
    if spec.get("calc"):
        s = copy.deepcopy(spec)
        s["calc"] = None
        out.append(s)
        if spec["calc"]["cache"]:
            s = copy.deepcopy(spec)
            s["calc"]["cache"] = False
            out.append(s)
        if spec["calc"]["mode"] != "const":
            s = copy.deepcopy(spec)
            s["calc"]["mode"] = "const"
            out.append(s)
    if any(p.get("noise") for p in spec["procs"]):
        s = copy.deepcopy(spec)
        for p in s["procs"]:
            p.pop("noise", None)
        out.append(s)
    if spec.get("format") == "long":
        s = copy.deepcopy(spec)
        s["format"] = "short"
        out.append(s)
    return out


def shrink(sc):
    """Generic: fewer steps, simpler system, simpler random source and clock."""
    if sc.get("steps", 1) > 1:
        n = sc["steps"]
        for m in sorted(set([1, n // 4, n // 2, n - n // 4, n - 1])):
            if 0 < m < n:
                c = copy.deepcopy(sc)
                c["steps"] = m
                yield c
    if "spec" in sc:
        for s in shrink_spec(sc["spec"]):
            c = copy.deepcopy(sc)
            c["spec"] = s
            yield c
    if sc.get("clock") and sc["clock"].get("jumps"):
        c = copy.deepcopy(sc)
        c["clock"]["jumps"] = []
        yield c
        c = copy.deepcopy(sc)
        c["clock"]["jumps"] = c["clock"]["jumps"][:len(c["clock"]["jumps"]) // 2]
        yield c
    if sc.get("clock") and sc["clock"].get("tick"):
        c = copy.deepcopy(sc)
        c["clock"]["tick"] = 0.0
        yield c
