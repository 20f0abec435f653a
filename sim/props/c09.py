"""C09: trajectory files are complete, ordered and untorn."""
import copy
import os
import re
import signal
import struct

from sim import ref as refmod
from sim import trajfile, world
from sim.core import HarnessError, Stop, Violation
from sim.history import Run
from sim.props import common
from sim.props.common import REAL, ASSUMPTIONS          # noqa: F401
from sim.session import gen_clock, rng_setup

ID = "C09"
RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("A run writes the trajectory of a random system, either frame by frame through the trajectory classes with random buffer "
        "limits, flushes and clock jumps, or by run(), first without faults and then with faults at random operations on the file: "
        "short and interrupted writes, full disk, I/O errors, SIGINT, and death of the process at a random byte. After every "
        "operation (and after the death) the file is read and compared with the frames due. Non-trivial: a fault hit, or at least "
        "3 frames were written in 2 flushes.")
STATES = "outcomes (operations, faults hit, frames in the file), by hash"
LAST = {}
REF = [None]
STUBS = common.STUBS + ["files (faults injected below the C library; contents on the real file system)"]


def gen(rng, tier, index):
    big = rng.random() < 0.15
    spec = world.gen_spec(rng, world.Profile(max_sites=600 if big else rng.choice([4, 12, 30, 60]), max_procs=4, reversible=0.95,
                                             calc=False))
    mode = rng.choice(["direct", "direct", "direct", "run"])
    kind = "lattice" if spec["bucket"] else rng.choice(["lattice", "xyz"])
    sc = {"spec": spec, "mode": mode, "kind": kind, "rng": {"tail": "sim", "state": rng.getrandbits(63)}, "clock": gen_clock(rng),
          "old": rng.random() < 0.15, "name": rng.choice(["t.out", "t.out", "a b.py", "sub/traj.xyz"])}
    if mode == "run":
        sc["steps"] = rng.randint(1, 25)
        sc["dump"] = rng.choice([1, 1, 2, 3])
        if rng.random() < 0.6:
            sc["clock"] = {"now": 1.7e9, "tick": rng.choice([400.0, 700.0, 2000.0])}
        frames = sc["steps"] // sc["dump"] + 1
    else:
        ops = []
        for _ in range(rng.randint(1, 25)):
            ops.append(rng.choice(["append"] * 6 + ["flush", "step", "step", "wait"]))
            if ops[-1] == "append" and rng.random() < 0.7:
                ops.append("step")
        sc["ops"] = [[o, rng.choice([1, 1, 2, 5]) if o == "step" else rng.choice([1.0, 100.0, 2000.0, -500.0]) if o == "wait" else 0]
                     for o in ops]
        sc["size"] = rng.choice([None, None, 0, 100, 300, 1000, 5000])
        sc["time"] = rng.choice([None, None, 0.0, 10.0, 1000.0, 1.0e12])
        frames = len([o for o in ops if o == "append"])
    faults = []
    if rng.random() < 0.8:
        for _ in range(rng.choice([1, 1, 2, 4])):
            faults.append({"op": rng.randrange(0, 3 + 3 * frames), "kind": rng.choice([1, 1, 2, 3, 4, 6]), "arg": rng.randrange(0, 9000),
                           "repeat": rng.choice([1, 1, 2, 5])})
    sc["faults"] = faults
    sc["crash"] = None
    if rng.random() < 0.5:
        sc["crash"] = {"op": rng.randrange(0, 3 + 3 * frames), "arg": rng.choice([0, 1, rng.randrange(0, 200), rng.randrange(0, 10000)])}
    return sc


def execute(sc, ctx):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    REF[0] = refmod.RefModel(sc["spec"])
    plain = copy.deepcopy(sc)
    plain["faults"], plain["crash"] = [], None
    frames, _ = write(plain, ctx, "plain", None)
    path = os.path.join("plain", sc["name"])
    whole = read(path)
    check_file(ctx, sc, path, frames, len(frames), "without faults")
    if sc["faults"]:
        got, done = write(sc_without_crash(sc), ctx, "faulty", None)
        if done:
            data = read(os.path.join("faulty", sc["name"]))
            ctx.require(data == whole, "contents", "the file written with faults in between (all handled) differs from the one without")
    if sc["crash"]:
        crash(sc, ctx, whole, frames)
    ctx.event([f[:2] for f in frames], len(whole))
    ctx.steps += len(frames)
    ctx.sim_time = frames[-1][1] if frames else 0.0
    ctx.count("frames", len(frames))
    ctx.count("bytes", len(whole))


def sc_without_crash(sc):
    c = dict(sc)
    c["crash"] = None
    return c


def trajectory(sc, run, path):
    from KMCLib.Utilities.Trajectory.LatticeTrajectory import LatticeTrajectory
    from KMCLib.Utilities.Trajectory.XYZTrajectory import XYZTrajectory
    cls = LatticeTrajectory if sc["kind"] == "lattice" else XYZTrajectory
    return cls(trajectory_filename=path, configuration=run.config, max_buffer_size=sc["size"], max_buffer_time=sc["time"])


def set_faults(sc, ctx, where):
    ctx.os.disk(where)
    for f in sc["faults"]:
        ctx.os.fault(f["op"], f["kind"], f["arg"], f["repeat"])
    if sc["crash"]:
        ctx.os.fault(sc["crash"]["op"], ctx.os.CRASH, sc["crash"]["arg"], 1000000)


def hard(fired):
    return fired["enospc"] + fired["eio"] + fired["sigint"]


def write(sc, ctx, where, note):
    """Writes the file. Returns the frames and whether nothing is missing in it."""
    os.makedirs(os.path.join(where, "sub"))
    path = os.path.join(where, sc["name"])
    if sc["old"]:
        with open(path, "w") as f:
            f.write("# KMCLib Trajectory\nold = 1\n" * 2000)
    rng_setup(ctx, sc)
    return (direct if sc["mode"] == "direct" else by_run)(sc, ctx, where, path, note)


def failing(ctx, what, fn):
    """Calls fn, which may fail only if an injected fault says so. Returns whether it failed."""
    before = hard(ctx.os.fired())
    error = None
    try:
        fn()
        # (a signal at the very end is delivered now)
        for _ in range(10):
            pass
    except (Violation, Stop, HarnessError):
        raise
    except BaseException as e:
        error = e
    hit = hard(ctx.os.fired()) - before
    if error is None:
        ctx.require(not hit, "silent", "%s: a failed write was not reported", what)
        return False
    if not hit or not isinstance(error, (OSError, KeyboardInterrupt)):
        def again():
            raise error
        ctx.sut(what, again)
        raise error
    return True


class Followed(Run):
    """A run whose state is followed by the reference, from the events alone."""

    def __init__(self, ctx, spec):
        Run.__init__(self, ctx, spec)
        self.now = list(REF[0].state0)
        self.done = 0

    def state(self):
        for _, _, p, s in self.history[self.done:]:
            self.now = REF[0].apply(p, s, self.now)
        self.done = len(self.history)
        return self.now


def direct(sc, ctx, where, path, note):
    spec = sc["spec"]
    run = Followed(ctx, spec)
    set_faults(sc, ctx, where)
    frames, flushed, flushes = [], 0, 0
    made = []
    try:
        if failing(ctx, "the header", lambda: made.append(trajectory(sc, run, path))):
            count(ctx, "header")
            return frames, False
        t = made[0]
        step, time, stuck, last = 0, 0.0, False, 0.0
        failed = False
        for i, (op, arg) in enumerate(sc["ops"] + [["flush", 0]]):
            what = "operation %d (%s)" % (i, op)
            before = ctx.os._lib.simos_clock_now()
            if op == "step":
                if not stuck:
                    n = len(run.history)
                    stuck = run.run(arg, what="steps") == "end"
                    if len(run.history) > n:
                        step += len(run.history) - n
                        time = run.history[-1][1]
                continue
            if op == "wait":
                now = ctx.os._lib.simos_clock_now()
                if now + arg > 0.0:
                    ctx.os.clock(now + arg, sc["clock"].get("tick", 0.0))
                continue
            if op == "append":
                frames.append((step, time, trajfile.snapshot(sc["kind"], run.config, spec, run.state(),
                                                             None if spec["bucket"] else run.atoms()[:2])))
                failed = failing(ctx, what, lambda: t.append(simulation_time=time, step=step, configuration=run.config))
            else:
                failed = failing(ctx, what, t.flush)
            least = flushed
            now = ctx.os._lib.simos_clock_now()
            limit = 1800.0 if sc["time"] is None else sc["time"]
            # Frames may stay in the buffer until a limit is passed.
            late = op == "append" and before - last > limit + 1e-3 and not sc["clock"].get("jumps")
            last = max(last, now) if op == "append" else last
            if late:
                ctx.count("time_limit_passed")
            if not failed and (op == "flush" or sc["size"] == 0 or late):
                least = len(frames)
            was = flushed
            flushed = check_file(ctx, sc, path, frames, least, what + (", failed" if failed else ""))
            flushes += 1 if flushed > was else 0
            if note is not None:
                note(flushed, os.path.getsize(path))
        if failed:
            # The disk works again: nothing may be missing or twice.
            ctx.os.clear_faults()
            ctx.sut("flush after a failure", t.flush)
            check_file(ctx, sc, path, frames, len(frames), "after the last fault")
        if note is None:
            f = ctx.os.fired()
            count(ctx, "operation")
            ctx.state(sc["kind"], f, len(frames), flushes)
            ctx.nontrivial = ctx.nontrivial or sum(f.values()) > 0 or (len(frames) >= 3 and flushes >= 2)
        return frames, True
    finally:
        ctx.os.disk_off()


def count(ctx, what):
    for k, v in ctx.os.fired().items():
        if v:
            ctx.count("fault:" + k, v)


def by_run(sc, ctx, where, path, note):
    from KMCLib import KMCBreakerPlugin, KMCControlParameters
    from sim.session import is_end
    spec = sc["spec"]
    run = Followed(ctx, spec)
    snap = lambda: trajfile.snapshot(sc["kind"], run.config, spec, run.state(), None if spec["bucket"] else run.atoms()[:2])
    frames = [(0, 0.0, snap())]

    class Watch(KMCBreakerPlugin):
        def evaluate(self, step, time, configuration):
            run.history.append((step, time, int(configuration.latestEventProcess()), int(configuration.latestEventSite())))
            if step % sc["dump"] == 0:
                frames.append((step, time, snap()))
            if note is not None:
                note(0, os.path.getsize(path))
            return False
    ended = []

    def go():
        params = KMCControlParameters(number_of_steps=sc["steps"], dump_interval=sc["dump"])
        try:
            run.model.run(control_parameters=params, trajectory_filename=path, trajectory_type=sc["kind"], breakers=[Watch()])
        except Exception as e:
            if not is_end(e):
                raise
            ended.append(str(e))
    set_faults(sc, ctx, where)
    try:
        failed = failing(ctx, "run", go)
        if not failed and ended and not run.config._backend().elements():
            raise HarnessError("no elements")
        if note is None:
            f = ctx.os.fired()
            ctx.state(sc["kind"], f, len(frames))
            count(ctx, "run")
            ctx.nontrivial = ctx.nontrivial or sum(f.values()) > 0 or len(frames) >= 3
    finally:
        ctx.os.disk_off()
    if not os.path.exists(path) or sc["old"] and os.path.getsize(path) > 50000 and "old = 1" in open(path, errors="replace").read():
        # Nothing could happen, or not even the header could be opened.
        ctx.require(failed or ended, "missing", "there is no file")
        if not failed:
            with open(path, "w"):
                pass
        return [], False
    if failed:
        # The frame of the step that was interrupted is not in the list.
        extra = [(frames[-1][0] + sc["dump"], None, None)]
        check_file(ctx, sc, path, frames + extra, 0, "after a run with a failed write", header=False)
        return frames, False
    return frames, True


def check_file(ctx, sc, path, frames, least, what, header=True):
    if sc["mode"] == "run" and not frames:
        return 0
    if not header and torn_header(path):
        return 0
    if header:
        # (the same file as at the last check holds the same frames)
        with open(path, "rb") as f:
            data = f.read()
        key = (path, data)
        if LAST.get("key") == key and LAST["frames"] == frames[:LAST["n"]] and least <= LAST["n"] <= len(frames):
            return LAST["n"]
    head, have = trajfile.load(ctx, sc["kind"], path, what)
    trajfile.check_header(ctx, sc["kind"], head, sc["spec"], REF[0])
    ctx.require(least <= len(have) <= len(frames), "frames", "%s: the file holds %d frames (steps %s), at least %d of %d should be there",
                what, len(have), [f[0] for f in have][:20], least, len(frames))
    due = frames[:len(have)]
    if due and due[-1][1] is None:
        ctx.require(have[-1][0] == due[-1][0], "frames", "%s: the last frame is of step %d", what, have[-1][0])
        due, have = due[:-1], have[:-1]
        trajfile.check_frames(ctx, sc["kind"], sc["spec"], have, due, what)
        return len(have) + 1
    trajfile.check_frames(ctx, sc["kind"], sc["spec"], have, due, what)
    if header:
        LAST.update(key=key, n=len(have), frames=list(due))
    return len(have)


def torn_header(path):
    """The file ends inside of the header, or before it."""
    with open(path, errors="replace") as f:
        text = f.read()
    return "types=[]\n" not in text and not re.search(r"PERIODICITY \S+ \S+ \S+\n\n", text)


def read(path):
    """The contents, with the time of creation masked."""
    with open(path, "rb") as f:
        data = f.read()
    i = data.find(b'creation_time="')
    if 0 <= i < 100:
        i += 15
        j = data.find(b'"', i)
        j = len(data) if j < 0 else j
        data = data[:i] + b"T" * (j - i) + data[j:]
    return data


def crash(sc, ctx, whole, frames):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 4
        try:
            os.close(r)

            def note(n, size):
                os.write(w, struct.pack("qq", n, size))
            write(sc, ctx, "crash", note)
            code = 0
        except (Violation, Stop):
            code = 5
        except BaseException:
            pass
        os._exit(code)
    os.close(w)
    notes = b""
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        notes += x
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not os.WIFEXITED(status):
        ctx.violate("crash", "the process died from signal %d" % os.WTERMSIG(status))
    code = os.WEXITSTATUS(status)
    if code in (0, 5):
        # It ended before the crash was reached; violations are seen in the run without the crash.
        ctx.count("crash_not_reached")
        return
    if code != 86:
        raise HarnessError("the process ended with %d" % code)
    ctx.count("fault:crash")
    ctx.nontrivial = True
    n, size = struct.unpack("qq", notes[-16:]) if notes else (0, 0)
    path = os.path.join("crash", sc["name"])
    if not os.path.exists(path):
        ctx.require(not notes, "lost", "the file is gone after a crash")
        return
    data = read(path)
    if sc["old"] and data.startswith(b"# KMCLib Trajectory\nold = 1\n") and not notes:
        # Not even opened.
        return
    ctx.require(data == whole[:len(data)], "prefix", "after a crash (operation %d) the file is not a prefix of the complete one (%d of %d "
                "bytes, first difference at %d)", sc["crash"]["op"], len(data), len(whole),
                next((i for i, (x, y) in enumerate(zip(data, whole)) if x != y), min(len(data), len(whole))))
    ctx.require(len(data) >= size, "lost", "the file had %d bytes (%d frames) before the crash and %d after it", size, n, len(data))
    ctx.state("crash", len(data) * 50 // max(1, len(whole)), n)


def shrink(sc):
    for i in range(len(sc["faults"])):
        c = copy.deepcopy(sc)
        del c["faults"][i]
        yield c
        if sc["faults"][i]["repeat"] > 1:
            c = copy.deepcopy(sc)
            c["faults"][i]["repeat"] = 1
            yield c
    if sc["crash"]:
        c = copy.deepcopy(sc)
        c["crash"] = None
        yield c
    for k in ("size", "time"):
        if sc.get(k) is not None:
            c = copy.deepcopy(sc)
            c[k] = None
            yield c
    if sc["old"] or sc["name"] != "t.out":
        c = copy.deepcopy(sc)
        c["old"], c["name"] = False, "t.out"
        yield c
    for i in range(len(sc.get("ops", []))):
        c = copy.deepcopy(sc)
        del c["ops"][i]
        yield c
    for c in common.shrink(sc):
        yield c
