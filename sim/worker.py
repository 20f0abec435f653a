"""Executes simulated runs, each in a forked process.

Reads one JSON request per line and writes one JSON answer per line. Started by
check.py with the simulated clock and disk preloaded.
"""
import ctypes
import importlib
import json
import os
import random
import re
import resource
import select
import shutil
import signal
import sys
import time
import traceback

LIBC = ctypes.CDLL(None)
MEMORY = 3 << 30


def main():
    prop, built, scratch = sys.argv[1:4]
    out_fd = os.dup(1)
    in_fd = os.dup(0)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 0)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.path.insert(0, os.path.join(built, "site"))
    sys.dont_write_bytecode = True
    from sim import seams
    mod = importlib.import_module("sim.props." + prop.lower())
    preload_error = None
    if getattr(mod, "IMPORT_KMCLIB", True):
        try:
            import KMCLib
            if not KMCLib.__file__.startswith(built):
                raise RuntimeError("wrong KMCLib: " + KMCLib.__file__)
            import KMCLib.Backend.Backend
        except Exception:
            preload_error = traceback.format_exc()
    backend = os.path.join(built, "site", "KMCLib", "Backend", "_Backend.so")
    lib = os.path.join(built, "lib")
    reader = os.fdopen(in_fd, "r")
    writer = os.fdopen(out_fd, "w")
    n = 0
    for line in reader:
        req = json.loads(line)
        n += 1
        if preload_error is not None:
            res = {"violations": [["import", "KMCLib can not be imported: " + preload_error[-1500:]]]}
        else:
            res = one(mod, req, backend, lib, os.path.join(scratch, "r%d_%d" % (os.getpid(), n)), seams, built)
        writer.write(json.dumps(res) + "\n")
        writer.flush()


def one(mod, req, backend, lib, scratch, seams, built):
    try:
        sc = req.get("sc")
        if sc is None:
            tier, seed, index = req["gen"]
            from sim.core import subseed
            sc = mod.gen(random.Random(subseed(mod.ID, seed, index)), tier, index)
    except Exception:
        return {"harness": "generation: " + traceback.format_exc()}
    r, w = os.pipe()
    os.makedirs(scratch)
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setpgid(0, 0)
            # A run ends with its worker, and does not take the memory of the others.
            LIBC.prctl(1, signal.SIGKILL)
            if not sanitized(built):
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            err = os.open(os.path.join(scratch, "stderr"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
            os.dup2(err, 2)
            work = os.path.join(scratch, "work")
            os.makedirs(work)
            os.chdir(work)
            res = execute(mod, sc, backend, lib, work, seams, built)
            data = json.dumps(res).encode()
            while data:
                k = os.write(w, data)
                data = data[k:]
            code = 0
        except BaseException:
            try:
                os.write(w, json.dumps({"harness": traceback.format_exc()}).encode())
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    limit = req.get("timeout", 40.0)
    chunks = []
    timed_out = False
    end = time.time() + limit
    while True:
        left = end - time.time()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    try:
        with open(os.path.join(scratch, "stderr"), "r", errors="replace") as f:
            err = excerpt(f.read())
    except OSError:
        err = ""
    data = b"".join(chunks)
    shutil.rmtree(scratch, ignore_errors=True)
    res = None
    if data and not timed_out:
        try:
            res = json.loads(data.decode())
        except ValueError:
            res = None
    if res is None:
        if timed_out:
            res = {"timeout": limit}
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            res = {"violations": [["crash", "the process died from signal %d; %s" % (os.WTERMSIG(status), err)]]}
        elif os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
            res = {"violations": [["endless", "more random draws than any legal run of this scenario makes"]]}
        elif os.WIFSIGNALED(status):
            res = {"harness": "run ended by signal %d" % os.WTERMSIG(status), "killed": True}
        else:
            res = {"violations": [["exit", "the process ended early with status %d; %s" % (status, err)]]}
    only = getattr(mod, "ONLY", None)
    if only:
        if res.get("timeout"):
            res = {}
        if res.get("violations"):
            res["violations"] = [v for v in res["violations"] if v[0] in only]
    res["wall"] = time.time() - t0
    res["sc"] = sc
    return res


def sanitized(built):
    return os.path.basename(built).startswith("memory-")


def excerpt(err):
    """What stderr says about the end of a process."""
    lines = err.split("\n")
    for i, x in enumerate(lines):
        if "AddressSanitizer" in x or "runtime error:" in x or "Assertion" in x:
            # (the frames in the code under test)
            frames = [re.sub(r"^#\d+ \S+ in |/\S*/c/", "", y.strip()) for y in lines[i + 1:i + 60] if re.search("/c/(src|custom)/", y)]
            return re.sub(r"^==\d+==|0x[0-9a-f]+|/\S*/", "", x)[:250] + " at " + "; ".join(frames[:3])[:500]
    return err[-300:]


def execute(mod, sc, backend, lib, work, seams, built):
    from sim.core import Ctx, HarnessError, Stop, Violation
    ctx = Ctx(seams.Rng(backend), seams.Os(os.path.join(lib, "libsimos.so")), seams.Ref(os.path.join(lib, "libsimref.so")), work)
    ctx.built = built
    ctx.backend = backend
    ctx.lib = lib
    try:
        mod.execute(sc, ctx)
    except (Violation, Stop):
        pass
    except HarnessError:
        if ctx.harness is None and not ctx.violations:
            ctx.harness = traceback.format_exc()
    except BaseException:
        if not ctx.violations and ctx.harness is None:
            ctx.harness = traceback.format_exc()
    finally:
        ctx.os.clock_off()
        ctx.os.disk_off()
    res = ctx.result()
    if ctx.violations:
        # A violation stands by itself, whatever the harness met after it.
        res["harness"] = None
    return res


if __name__ == "__main__":
    main()
