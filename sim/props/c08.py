"""C08: failures and interrupts end a run cleanly."""
import copy
import math
import signal
import sys

from sim import ref as refmod
from sim import trajfile, world
from sim.core import HarnessError, Stop, Violation
from sim.history import Run, same_events
from sim.props import common
from sim.props.common import REAL, ASSUMPTIONS          # noqa: F401
from sim.session import gen_clock, is_end, rng_setup

ID = "C08"
RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("A run is one random system taken through one to five calls of run(), each with random intervals, analyses, breakers and "
        "trajectory, most of them with one fault at a random point: an exception or a real SIGINT in an analysis, a breaker or the "
        "rate calculator, a failing standard output, SIGINT at a random draw or file write, a failing disk. The whole history is "
        "then executed again without faults under the same draws, in one piece, and every call is compared with it. Non-trivial: a "
        "fault hit and at least one event followed it.")
STATES = "outcomes (fault kind, where it hit, calls and frames seen), by hash"
STUBS = common.STUBS + ["files (faults injected below the C library; contents on the real file system)", "standard output"]

EXC = ["value", "own", "base", "keyboard", "exit", "error", "memory", "stop", "signal", "os"]


class Own(Exception):
    pass


class OwnBase(BaseException):
    pass


def make_exc(name):
    from KMCLib.Exceptions.Error import Error
    return {"value": lambda: ValueError("injected", 3), "own": lambda: Own("injected"), "base": lambda: OwnBase("injected"),
            "keyboard": KeyboardInterrupt, "exit": lambda: SystemExit(3), "error": lambda: Error("injected"),
            "memory": MemoryError, "stop": lambda: StopIteration(1), "os": lambda: BrokenPipeError(32, "injected")}[name]()


def gen(rng, tier, index):
    spec = world.gen_spec(rng, world.Profile(max_sites=rng.choice([12, 30, 60]), reversible=0.95, calc=rng.random() < 0.3))
    calls = []
    n = rng.choice([1, 2, 2, 3, 4, 5])
    for i in range(n):
        c = {"steps": rng.randint(1, 30), "analyse": rng.choice([1, 1, 2, 3]), "analyses": rng.choice([0, 1, 2, 3]),
             "breakers": [{"interval": rng.choice([1, 1, 2, 3]), "at": rng.choice([5, 20, 1000, 1000])}
                          for _ in range(rng.choice([0, 1, 2]))], "traj": None, "fault": None}
        if rng.random() < 0.85:
            c["traj"] = "lattice" if spec["bucket"] else rng.choice(["lattice", "xyz"])
        if rng.random() < 0.6:
            c["dump"] = rng.choice([1, 1, 2, 3, 7])
        else:
            c["dump_time"] = rng.choice([0.05, 0.5, 1.0, 3.3]) * rng.uniform(0.8, 1.2)
        if rng.random() < 0.85:
            c["fault"] = gen_fault(rng, c, spec)
        calls.append(c)
    clock = gen_clock(rng)
    if rng.random() < 0.5:
        # Every frame is written at once.
        clock = {"now": 1.7e9, "tick": rng.choice([700.0, 1000.0, 2000.0, 4000.0])}
    return {"spec": spec, "calls": calls, "rng": {"tail": "sim", "state": rng.getrandbits(63)}, "clock": clock}


def gen_fault(rng, c, spec):
    kinds = ["output", "draw", "draw"]
    if c["analyses"]:
        kinds += ["analysis"] * 3
    if c["breakers"]:
        kinds += ["breaker"] * 3
    if c["traj"]:
        kinds += ["write_sigint"] * 2 + ["disk"]
    if spec.get("calc"):
        kinds += ["calc"] * 2 + ["build"]
    k = rng.choice(kinds)
    f = {"kind": k}
    if k in ("analysis", "breaker"):
        f.update(who=rng.randrange(c["analyses"] if k == "analysis" else len(c["breakers"])), call=rng.randint(1, max(1, c["steps"])),
                 exc=rng.choice(EXC))
        if rng.random() < 0.1:
            f["call"] = 0
    elif k == "output":
        f.update(call=rng.randint(0, c["steps"] * 2), exc=rng.choice(["os", "os", "keyboard", "value"]), stays=rng.random() < 0.3)
    elif k == "draw":
        f["at"] = rng.randrange(3 * c["steps"])
    elif k == "write_sigint":
        f["op"] = rng.randint(4, 4 + 3 * c["steps"])
    elif k == "disk":
        f.update(op=rng.randint(4, 4 + 3 * c["steps"]), error=rng.choice([3, 4]), stays=rng.random() < 0.6)
    else:
        f.update(call=rng.randint(0, 20), exc=rng.choice(EXC))
    return f


class Output(object):
    """A standard output that can fail."""

    def __init__(self, trigger):
        self.trigger = trigger

    def write(self, text):
        self.trigger()
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


class Fault(object):
    """The fault of a call: counts the points where it may hit and raises it there."""

    def __init__(self, ctx, f):
        self.ctx = ctx
        self.f = f or {"kind": None}
        self.n = 0
        self.raised = None
        self.start = ctx.rng.total()

    def in_loop(self):
        return self.ctx.rng.total() > self.start

    def hit(self, kind, who=None):
        f = self.f
        if f["kind"] != kind or (who is not None and f["who"] != who):
            return
        if self.raised is not None:
            if f.get("stays"):
                raise self.raised
            return
        if kind == "output" and not self.in_loop():
            return
        if kind == "calc" and not self.in_loop():
            return
        if kind == "build" and self.in_loop():
            return
        n = self.n
        self.n += 1
        if n == f["call"]:
            if f["exc"] == "signal":
                self.raised = "signal"
                signal.raise_signal(signal.SIGINT)
                for _ in range(10):
                    pass
                raise HarnessError("no KeyboardInterrupt")
            self.raised = make_exc(f["exc"])
            raise self.raised


def execute(sc, ctx):
    signal.signal(signal.SIGINT, signal.default_int_handler)
    spec = sc["spec"]
    ref = refmod.RefModel(spec)
    rng_setup(ctx, sc)
    fault = [None]

    def rate(*a):
        if fault[0] is not None:
            fault[0].hit("build")
            fault[0].hit("calc")
    b = Run(ctx, spec, rate_hook=rate if spec.get("calc") else None)
    mean = mean_step(ref, spec)
    calls, late = [], False
    stdout = sys.stdout
    for n, c in enumerate(sc["calls"]):
        fault[0] = Fault(ctx, c["fault"])
        try:
            r = one_call(ctx, sc, b, n, c, fault[0], mean)
        finally:
            sys.stdout = stdout
            ctx.os.disk_off()
        fault[0] = None
        calls.append(r)
        if r["how"] == "end" and r["draws"] == 0:
            break
        # What ends the calculator leaves the new events to be found by the next run.
        late = r["how"] == "calc" or (r["how"] == "draw" and r["draws"] % 3 == 0) or (late and r["how"] == "build")
        r["seen"] = (b.state(), b.atoms(), None if late and spec.get("calc") else b.events())
    judge(ctx, sc, spec, ref, b, calls)


def mean_step(ref, spec):
    """A rough time scale of the system, to choose dump times."""
    avail, _, _ = refmod.Incremental(ref).available(list(ref.state0))
    total = sum(avail.values())
    return 1.0 / total if total > 0.0 else 1.0


def one_call(ctx, sc, b, n, c, fault, mean):
    from KMCLib import KMCControlParameters, KMCAnalysisPlugin, KMCBreakerPlugin
    log = []
    f = fault.f

    class Watch(KMCAnalysisPlugin):
        def __init__(self, i):
            self.i = i

        def setup(self, step, time, configuration):
            log.append(("setup", self.i, step, time))
            if f["kind"] == "draw" and self.i == 0:
                arm()

        def registerStep(self, step, time, configuration):
            log.append(("step", self.i, step, time))
            fault.hit("analysis", self.i)

        def finalize(self):
            log.append(("finalize", self.i))

    class Break(KMCBreakerPlugin):
        def __init__(self, i, x):
            self.i, self.x = i, x

        def interval(self):
            return self.x["interval"]

        def evaluate(self, step, time, configuration):
            log.append(("evaluate", self.i, step, time))
            fault.hit("breaker", self.i)
            return step >= self.x["at"]

    kw, run_kw, dump_time = {}, {}, None
    if "dump_time" in c:
        dump_time = kw["dump_time_interval"] = float("%.6g" % (c["dump_time"] * mean))
    else:
        kw["dump_interval"] = c["dump"]
    name = None
    if c["traj"]:
        name = "call%d.out" % n
        run_kw = {"trajectory_filename": name, "trajectory_type": c["traj"]}

    def arm():
        ctx.rng.signal_at(ctx.rng.total() + f["at"])
    if f["kind"] == "draw":
        arm()
    if f["kind"] in ("write_sigint", "disk"):
        ctx.os.disk(name)
        if f["kind"] == "disk":
            ctx.os.fault(f["op"], f["error"], 0, 1000000 if f["stays"] else 1)
        else:
            ctx.os.fault(f["op"], ctx.os.SIGINT)
    before = ctx.rng.total()
    caught = None
    if f["kind"] == "output":
        sys.stdout = Output(lambda: fault.hit("output"))
    try:
        params = KMCControlParameters(number_of_steps=c["steps"], analysis_interval=c["analyse"], seed=1 + n, **kw)
        b.model.run(control_parameters=params, analysis=[Watch(i) for i in range(c["analyses"])] or None,
                    breakers=[Break(i, x) for i, x in enumerate(c["breakers"])] or None, **run_kw)
        # (a signal at the very end is delivered now)
        for _ in range(10):
            pass
    except (Violation, Stop, HarnessError):
        raise
    except BaseException as e:
        caught = e
    fired = ctx.os.fired() if f["kind"] in ("write_sigint", "disk") else {}
    ctx.rng.signal_at(-1)
    r = {"c": c, "log": log, "draws": ctx.rng.total() - before, "name": name, "dump_time": dump_time, "raised": fault.raised,
         "exc": type(caught).__name__}
    what = "call %d (fault %s)" % (n, f)
    k = f["kind"]
    if fault.raised is not None:
        ctx.count("fault:%s_%s" % (k, f["exc"]))
        if fault.raised == "signal":
            ctx.require(isinstance(caught, KeyboardInterrupt), "exception", "%s: SIGINT gave %r", what, caught)
        else:
            ctx.require(caught is fault.raised, "exception", "%s: %r reached the caller instead of %r", what, caught, fault.raised)
        r["how"] = k
    elif caught is None:
        r["how"] = "done"
        ctx.require(k != "disk" or not fired["enospc"] + fired["eio"], "exception", "%s: the error was not reported", what)
        ctx.require(k != "write_sigint" or not fired["sigint"], "exception", "%s: the interrupt got lost", what)
        ctx.require(k != "draw" or r["draws"] <= f["at"], "exception", "%s: the interrupt got lost", what)
    elif k == "draw" and r["draws"] > f["at"]:
        ctx.count("fault:sigint_at_draw_%d" % (f["at"] % 3))
        ctx.require(isinstance(caught, KeyboardInterrupt), "exception", "%s: SIGINT gave %r", what, caught)
        r["how"] = "draw"
    elif k == "write_sigint" and fired["sigint"]:
        ctx.count("fault:sigint_at_write")
        ctx.require(isinstance(caught, KeyboardInterrupt), "exception", "%s: SIGINT gave %r", what, caught)
        r["how"] = k
    elif k == "disk" and fired["enospc"] + fired["eio"]:
        ctx.count("fault:" + ("enospc" if fired["enospc"] else "eio"))
        ctx.require(isinstance(caught, OSError) and caught.errno == {3: 28, 4: 5}[f["error"]], "exception", "%s: a disk error gave %r",
                    what, caught)
        r["how"] = k
    elif is_end(caught):
        r["how"] = "end"
    else:
        def again():
            raise caught
        ctx.sut(what, again)
    return r


def judge(ctx, sc, spec, ref, b, calls):
    # The same events without any faults, in one piece.
    draws = ctx.rng.log()
    clean, wasted, at = [], [], 0
    pos = 0
    for r in calls:
        n, rest = divmod(r["draws"], 3)
        part = draws[pos:pos + r["draws"]]
        pos += r["draws"]
        r["start"], r["done"] = at, n
        r["rest"] = rest
        ctx.require(rest == 0 or (rest == 1 and r["how"] in ("output", "draw", "write_sigint", "disk")), "events",
                    "a call ends after %d random numbers (%s), inside of an event", r["draws"], r["how"])
        clean += part[:3 * n]
        wasted.append(part[3 * n:])
        at += n
        r["end"] = at
    wanted = set(r["end"] for r in calls)
    rng_setup(ctx, sc)
    ctx.rng.script(clean)
    a = Run(ctx, spec)
    states, atoms, lists = [a.state()], [a.atoms()], {}
    if 0 in wanted:
        lists[0] = a.events()

    def keep(step, time, cfg):
        states.append(a.state())
        atoms.append(a.atoms())
        if len(states) - 1 in wanted:
            lists[len(states) - 1] = a.events()
    a.hook = keep
    how = a.run(at, what="the run without faults") if at else "done"
    record = [0.0] + [h[1] for h in a.history]
    ctx.require(len(record) == at + 1, "events", "%d events were performed, but only %d are possible", at, len(record) - 1)
    offset, after_fault, hits = 0.0, 0, 0
    for n, (r, w) in enumerate(zip(calls, wasted)):
        what = "call %d (%s, fault %s)" % (n, r["how"], r["c"]["fault"])
        start, done = r["start"], r["done"]
        if r["how"] == "end" and r["draws"] == 0:
            ctx.require(not any(len(x[0]) for x in lists[start]), "end", "%s: events are available", what)
            if not r["log"]:
                continue
        # The time that passed without an event, when the interrupt came between the two.
        gone = 0.0
        if w:
            total = sum(x[1] for x in lists[r["end"]])
            gone = -math.log(w[0]) / total
        if r["how"] == "build":
            ctx.require(not r["log"] and r["draws"] == 0, "calls", "%s: calls after a failed construction: %s", what, r["log"][:4])
        else:
            stuck = not any(len(x[0]) for x in lists[r["end"]])
            schedule(ctx, what, spec, ref, r, record, states, atoms, offset, gone, stuck)
        offset += gone
        if "seen" in r:
            s, at_, ev = r["seen"]
            ctx.require(s == states[r["end"]], "state", "%s: the configuration is not that after %d events", what, r["end"])
            ctx.require(at_ == atoms[r["end"]], "state", "%s: the atoms are not those after %d events", what, r["end"])
            if ev is not None:
                same_events(ctx, ev, lists[r["end"]], "events", what)
        after_fault += done if hits else 0
        if r["how"] not in ("done", "end"):
            hits += 1
        ctx.steps += done
        ctx.state(r["how"], r["exc"], [x[0] for x in r["log"]][-8:], done)
        ctx.event(n, r["how"], r["exc"], r["log"])
    ctx.sim_time = record[-1] + offset
    ctx.count("fault:clock_jumps", ctx.os.clock_jumped())
    ctx.count("calls_of_run", len(calls))
    ctx.nontrivial = hits > 0 and after_fault > 0


def schedule(ctx, what, spec, ref, r, record, states, atoms, offset, gone, stuck):
    c, start, done = r["c"], r["start"], r["done"]
    t = lambda k: record[start + k] + offset
    want = [("setup", i, 0, t(0)) for i in range(c["analyses"])]
    snap = lambda k: trajfile.snapshot(c["traj"], None, spec, states[start + k], None if spec["bucket"] else atoms[start + k][:2])
    due, sure, k, ambiguous = [], 0, 0, False
    if c["traj"]:
        due.append((0, t(0), snap(0)))
        sure = 1
    exact = r["how"] in ("done", "analysis", "breaker", "end")
    broke = False
    for step in range(1, done + 1 + (1 if r["rest"] else 0)):
        if r["dump_time"] is not None:
            after = t(step) if step <= done else t(done) + gone
            gap = after - (t(0) + (k + 1) * r["dump_time"])
            if abs(gap) <= 1e-9 * (abs(after) + r["dump_time"]):
                ambiguous = True
            if gap >= 0.0:
                k += 1
                if c["traj"]:
                    due.append((step - 1, t(step - 1), snap(step - 1)))
                    # Interrupted between the time and the frame, or between the frame and the event.
                    sure += 1 if step <= done else 0
        elif step % c["dump"] == 0 and c["traj"] and step <= done:
            due.append((step, t(step), snap(step)))
            sure += 1 if step < done or exact else 0
        if step > done:
            break
        at_least = len(want)
        if step % c["analyse"] == 0:
            want += [("step", i, step, t(step)) for i in range(c["analyses"])]
        for i, x in enumerate(c["breakers"]):
            if step % x["interval"] == 0:
                want.append(("evaluate", i, step, t(step)))
                if step >= x["at"]:
                    broke = True
                    break
        if broke:
            break
    log = r["log"]
    calls = [x for x in log if x[0] != "finalize"]
    ends = [x for x in log if x[0] == "finalize"]
    ctx.require(log == calls + ends, "finalize", "%s: calls after finalize: %s", what, log[-4:])
    # Interrupted while the first frame is written, before the first step.
    early = r["draws"] == 0 and r["how"] in ("write_sigint", "disk")
    ctx.require(early or sorted(ends) == [("finalize", i) for i in range(c["analyses"])], "finalize",
                "%s: finalize was called %s", what, [x[1] for x in ends])
    for i, (x, y) in enumerate(zip(calls, want)):
        ctx.require(x[:3] == y[:3] and abs(x[3] - y[3]) <= 1e-9 * abs(y[3]), "calls", "%s: call number %d is %s, should be %s", what, i, x, y)
    ctx.require(len(calls) <= len(want), "calls", "%s: %d calls instead of %d, last %s", what, len(calls), len(want), calls[-1:])
    if r["how"] in ("analysis", "breaker"):
        kind = "step" if r["how"] == "analysis" else "evaluate"
        mine = [x for x in calls if x[0] == kind and x[1] == c["fault"]["who"]]
        ctx.require(calls and calls[-1] == (mine[-1] if mine else None) and calls[-1][2] == done, "calls",
                    "%s: the run did not end at the call that failed (%s)", what, calls[-1:])
    elif exact:
        ctx.require(len(calls) == len(want), "calls", "%s: %d calls instead of %d", what, len(calls), len(want))
        ctx.require(done == c["steps"] or broke or r["how"] == "end", "steps", "%s: %d of %d steps", what, done, c["steps"])
    elif done:
        ctx.require(len(calls) >= at_least, "calls", "%s: %d calls instead of at least %d", what, len(calls), at_least)
    if r["name"] and not ambiguous and not (early and no_header(r["name"], c["traj"])):
        head, frames = trajfile.load(ctx, c["traj"], r["name"], what)
        trajfile.check_header(ctx, c["traj"], head, spec, ref)
        lost = early or (r["how"] == "disk" and c["fault"]["stays"]) or (r["how"] in ("write_sigint", "disk") and (done == c["steps"] or broke or stuck))
        # (what fails while the last frames are written leaves those out)
        least = 0 if lost else sure
        ctx.require(least <= len(frames) <= len(due), "frames", "%s: %d frames in the file (steps %s), %d are due (steps %s)", what,
                    len(frames), [f[0] for f in frames][:20], sure, [d[0] for d in due][:20])
        trajfile.check_frames(ctx, c["traj"], spec, frames, due[:len(frames)], what)
        ctx.count("frames", len(frames))


def no_header(name, kind):
    """Interrupted before the header was complete."""
    try:
        trajfile.read(kind, name)
        return False
    except (trajfile.Malformed, UnicodeDecodeError, OSError):
        with open(name) as f:
            return "append" not in f.read() if kind == "lattice" else False


def shrink(sc):
    for i in range(len(sc["calls"])):
        if len(sc["calls"]) > 1:
            c = copy.deepcopy(sc)
            del c["calls"][i]
            yield c
        call = sc["calls"][i]
        if call["fault"]:
            c = copy.deepcopy(sc)
            c["calls"][i]["fault"] = None
            yield c
            for key in ("call", "at", "op"):
                for m in sorted(set([0, call["fault"].get(key, 0) // 2, call["fault"].get(key, 0) - 1])):
                    if 0 <= m < call["fault"].get(key, 0):
                        c = copy.deepcopy(sc)
                        c["calls"][i]["fault"][key] = m
                        yield c
        for m in sorted(set([1, call["steps"] // 2, call["steps"] - 1])):
            if 0 < m < call["steps"]:
                c = copy.deepcopy(sc)
                c["calls"][i]["steps"] = m
                yield c
        f = call["fault"] or {}
        if call["analyses"] > (f["who"] + 1 if f.get("kind") == "analysis" else 0):
            c = copy.deepcopy(sc)
            c["calls"][i]["analyses"] -= 1
            yield c
        if len(call["breakers"]) > (f["who"] + 1 if f.get("kind") == "breaker" else 0):
            c = copy.deepcopy(sc)
            c["calls"][i]["breakers"].pop()
            yield c
        if call["traj"] and f.get("kind") not in ("write_sigint", "disk"):
            c = copy.deepcopy(sc)
            c["calls"][i]["traj"] = None
            yield c
    for c in common.shrink(sc):
        yield c
