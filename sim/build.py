"""Builds the KMCLib backend from /repo's current working tree for the simulator.

build(variant) returns a directory: site/ below it is to be put on sys.path and
holds a copy of the Python package of the working tree with a backend compiled from the C++ sources
of the working tree, linked with the simulation seams of sim/cxx; lib/
below it holds the simulated clock and disk (to preload) and the reference
random streams.

  variant "serial":  as shipped (RUNMPI false)
  variant "mpi":     RUNMPI true against the simulated MPI library of sim/cxx/mpi
  variant "memory":  as "serial", with the address and undefined behaviour
                     sanitizers and the checks of the standard library

The C++ sources under test are compiled with the flags the project ships
(-O3 -ffast-math; -O1 in the "memory" variant); only the SWIG glue is compiled without optimisation.
Results are kept under a directory named by a hash of every input, so that
nothing stale can be used.
"""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KMCSIM_REPO", "/repo")
CACHE = os.environ.get("KMCSIM_BUILD", os.path.join(VERIF, ".build"))
CXX = os.path.join(VERIF, "sim", "cxx")

PYINC = "/usr/include/python3.12"
SRC_FLAGS = ["-O3", "-ffast-math", "-fPIC", "-std=c++0x", "-w", "-Wno-unused-parameter"]
GLUE_FLAGS = ["-O0", "-ffast-math", "-fPIC", "-std=c++0x", "-w", "-fno-strict-aliasing"]
MEMORY_FLAGS = ["-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined",
                "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
# The runtime of the sanitizers comes before everything else.
MEMORY_PRELOAD = ["libasan.so", "libubsan.so"]


def preload(built):
    """What is to be preloaded for a build."""
    libs = [os.path.join(built, "lib", "libsimos.so")]
    if os.path.basename(built).startswith("memory-"):
        libs = [run(["gcc", "-print-file-name=" + x]).strip() for x in MEMORY_PRELOAD] + libs
    return ":".join(libs)


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def tree(root, keep):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "doc"))
        for f in sorted(files):
            p = os.path.join(d, f)
            r = os.path.relpath(p, root)
            if keep(r):
                out.append(r)
    return out


GENERATED = ("mpiflag.h", "custom.i", "CMakeLists.txt")


def inputs():
    """(logical name, path) of every file the build depends on."""
    res = []
    for sub in ("src", "custom", "wrap"):
        root = os.path.join(REPO, "c++", sub)
        for r in tree(root, lambda r: os.path.basename(r) not in GENERATED
                      and r.endswith((".cpp", ".h", ".i", ".hpp", ".c", ".cc", ".hh", ".inc"))
                      and not r.endswith(("_wrap.h",))):
            res.append(("c++/%s/%s" % (sub, r), os.path.join(root, r)))
    root = os.path.join(REPO, "python", "src", "KMCLib")
    for r in tree(root, lambda r: not (r.startswith("Backend" + os.sep)
                                       and os.path.basename(r) in ("Backend.py", "Custom.py", "_Backend.so", "_Custom.so"))
                  and not r.endswith((".pyc", ".so"))):
        res.append(("py/" + r, os.path.join(root, r)))
    for r in tree(CXX, lambda r: True):
        res.append(("sim/" + r, os.path.join(CXX, r)))
    res.append(("sim/build.py", os.path.abspath(__file__)))
    return res


def templates():
    """The templates instantiated in the generated custom.i."""
    with open(os.path.join(REPO, "c++", "wrap", "CMakeLists.txt"), errors="replace") as f:
        lines = [x for x in f if x.strip().startswith("file(") and "custom.i" in x]
    return [m for x in lines for m in re.findall(r"%template\(\w+\)[^;\\\"]*;", x)]


def md5_sources(dst):
    """The vendored MD5 routine, from the tarball the project ships."""
    os.makedirs(os.path.join(dst, "externals"), exist_ok=True)
    zips = os.path.join(REPO, "c++", "externals", "zip")
    tarball = [f for f in sorted(os.listdir(zips)) if f.startswith("md5") and f.endswith(".tar.gz")]
    if not tarball:
        raise BuildError("no md5 tarball in " + zips)
    tmp = os.path.join(dst, "md5src")
    os.makedirs(tmp, exist_ok=True)
    run(["tar", "xzf", os.path.join(zips, tarball[0]), "-C", tmp])
    found = {}
    for d, _, files in os.walk(tmp):
        for f in files:
            if f in ("md5.h", "md5.c"):
                found[f] = os.path.join(d, f)
    shutil.copy(found["md5.h"], os.path.join(dst, "externals", "md5.h"))
    return found["md5.c"]


def hash_inputs(variant):
    h = hashlib.sha256(("%s|%s|%s" % (variant, sys.version, templates())).encode())
    for name, path in inputs():
        with open(path, "rb") as f:
            data = f.read()
        h.update(("%s %d\n" % (name, len(data))).encode())
        h.update(data)
    return h.hexdigest()[:24]


def build(variant="serial", verbose=True):
    key = hash_inputs(variant)
    final = os.path.join(CACHE, "%s-%s" % (variant, key))
    if os.path.exists(os.path.join(final, "OK")):
        return final
    os.makedirs(CACHE, exist_ok=True)
    work = tempfile.mkdtemp(prefix="b_", dir=CACHE)
    try:
        _build(variant, work)
        with open(os.path.join(work, "OK"), "w") as f:
            f.write(key + "\n")
        for junk in ("obj", "c", "inc"):
            shutil.rmtree(os.path.join(work, junk), ignore_errors=True)
        try:
            os.rename(work, final)
        except OSError:
            if not os.path.exists(os.path.join(final, "OK")):
                raise
            shutil.rmtree(work, ignore_errors=True)
    except BaseException:
        shutil.rmtree(work, ignore_errors=True)
        raise
    return final


def _build(variant, work):
    c = os.path.join(work, "c")
    obj = os.path.join(work, "obj")
    inc = os.path.join(work, "inc")
    for d in (c, obj, inc):
        os.makedirs(d)
    for name, path in inputs():
        if name.startswith("c++/"):
            dst = os.path.join(c, name[4:])
        elif name.startswith("py/"):
            dst = os.path.join(work, "site", "KMCLib", name[3:])
        else:
            continue
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copyfile(path, dst)
    src, wrap, custom = (os.path.join(c, x) for x in ("src", "wrap", "custom"))
    mpi = variant == "mpi"
    memory = variant == "memory"
    src_flags = [("-O1" if x == "-O3" else x) for x in SRC_FLAGS] + MEMORY_FLAGS if memory else SRC_FLAGS
    glue_flags = GLUE_FLAGS + MEMORY_FLAGS if memory else GLUE_FLAGS
    with open(os.path.join(src, "mpiflag.h"), "w") as f:
        f.write("#define RUNMPI %s\n" % ("true" if mpi else "false"))
    md5c = md5_sources(inc)

    headers = sorted(os.path.join(custom, x) for x in os.listdir(custom) if x.endswith(".h"))
    with open(os.path.join(wrap, "custom.i"), "w") as f:
        for x in ("std_vector.i", "std_map.i", "std_string.i", "std_pair.i"):
            f.write('%%include "%s"\n' % x)
        for x in templates():
            f.write(x + "\n")
        f.write('%include "ratecalculator.h"\n')
        f.write("%module Custom\n%{\n")
        for x in headers:
            f.write('#include "%s"\n' % x)
        f.write("%}\n")
        for x in headers:
            f.write('%%include "%s"\n' % x)

    includes = ["-isystem", PYINC, "-I" + src, "-I" + inc, "-I" + wrap]
    if mpi:
        includes.append("-I" + os.path.join(CXX, "mpi"))

    out = os.path.join(work, "site", "KMCLib", "Backend")
    os.makedirs(out, exist_ok=True)

    def glue(mod, itf):
        cxx = os.path.join(obj, mod + "_wrap.cxx")
        run(["/usr/bin/swig4.0", "-w-302,-362", "-python", "-outdir", out, "-c++", "-interface", "_" + mod,
             "-I" + src, "-I" + inc, "-I" + wrap, "-o", cxx, os.path.join(wrap, itf)])
        o = os.path.join(obj, mod + "_wrap.o")
        try:
            # The glue code compiles in half the time with clang++ (same ABI).
            run([("g++" if memory else "clang++")] + glue_flags + includes + ["-c", cxx, "-o", o])
        except (BuildError, OSError):
            run(["g++"] + glue_flags + includes + ["-c", cxx, "-o", o])

    def comp(path, o, flags, extra=()):
        run(["g++"] + list(flags) + includes + list(extra) + ["-c", path, "-o", o])

    jobs = []
    with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        jobs.append(ex.submit(glue, "Backend", "backend.i"))
        jobs.append(ex.submit(glue, "Custom", "custom.i"))
        src_o, custom_o, sim_o = [], [], []
        for f in sorted(os.listdir(src)):
            if f.endswith((".cpp", ".cc")):
                o = os.path.join(obj, "src_%s.o" % f)
                src_o.append(o)
                jobs.append(ex.submit(comp, os.path.join(src, f), o, src_flags))
        for f in sorted(os.listdir(custom)):
            if f.endswith((".cpp", ".cc")):
                o = os.path.join(obj, "custom_%s.o" % f)
                custom_o.append(o)
                jobs.append(ex.submit(comp, os.path.join(custom, f), o, src_flags))
        lib = os.path.join(work, "lib")
        os.makedirs(lib)
        jobs.append(ex.submit(run, ["gcc", "-O1", "-fPIC", "-shared"] + (["-DSIMOS_NO_HEAP"] if memory else []) + [os.path.join(CXX, "os", "sim_os.c"),
                                    "-o", os.path.join(lib, "libsimos.so"), "-ldl"]))
        jobs.append(ex.submit(run, ["g++", "-O1", "-fPIC", "-shared", os.path.join(CXX, "ref", "std_streams.cpp"),
                                    "-o", os.path.join(lib, "libsimref.so")]))
        seams = ["sim_random.cpp", "sim_alloc.cpp"]
        if mpi:
            seams.append("mpi/sim_mpi.cpp")
        for f in seams:
            o = os.path.join(obj, "sim_%s.o" % os.path.basename(f))
            sim_o.append(o)
            jobs.append(ex.submit(run, ["g++", "-O1", "-fPIC", "-std=c++11"] + (MEMORY_FLAGS if memory else []) + includes + ["-c", os.path.join(CXX, f), "-o", o]))
        md5o = os.path.join(obj, "md5.o")
        jobs.append(ex.submit(run, ["g++", "-O2", "-fPIC", "-w", "-c", md5c, "-I" + os.path.join(inc, "externals"), "-o", md5o]))
        for j in jobs:
            j.result()
    # The crtfastm.o start file of -ffast-math is linked as in the shipped build.
    link = ["g++", "-shared", "-fPIC", "-Wl,-Bsymbolic", "-O3", "-ffast-math"]
    wraps = ["-Wl,--wrap=_Z14randomDouble01v", "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]
    if memory:
        link += MEMORY_FLAGS
    run(link + wraps + ["-o", os.path.join(out, "_Backend.so")] + src_o + sim_o + [md5o, os.path.join(obj, "Backend_wrap.o")])
    run(link + wraps + ["-o", os.path.join(out, "_Custom.so")] + src_o + custom_o + sim_o + [md5o, os.path.join(obj, "Custom_wrap.o")])


if __name__ == "__main__":
    import time
    for v in sys.argv[1:] or ["serial"]:
        t = time.time()
        print(v, build(v), "%.1f s" % (time.time() - t))
