"""Drives a KMCLib model under the simulator, next to the reference model."""
import math
import os

from sim import ref, world
from sim.core import HarnessError, Stop, Violation

END = ("No more available processes.", "No available processes.")


def is_end(e):
    from KMCLib.Exceptions.Error import Error
    return isinstance(e, Error) and any(str(e).strip().startswith(t) or t in str(e) for t in END)


class Session(object):
    """One model, its reference, and the checks made at every step."""

    def __init__(self, ctx, spec, rate_hook=None, configuration=None):
        self.ctx = ctx
        self.spec = spec
        self.ref = ref.RefModel(spec)
        self.inc = ref.Incremental(self.ref)
        self.state = list(self.ref.state0)
        self.avail, self.edge, self.hang = self.inc.available(self.state)
        self.config = configuration
        self.model = ctx.sut("construction", self._build, rate_hook)
        self.time = 0.0
        self.steps = 0
        self.total_steps = 0
        self.last = None
        self.ended = False

    def _build(self, hook):
        if self.config is None:
            self.config = world.build_config(self.spec)
        return world.build_model(self.spec, hook=hook, configuration=self.config)

    # -- queries -----------------------------------------------------------

    def inter(self):
        return self.model._backend().interactions()

    def listed(self):
        """{(process, site): count} as the backend lists them."""
        out = {}
        for p, proc in enumerate(self.inter().processes()):
            for s in proc.sites():
                out[(p, int(s))] = out.get((p, int(s)), 0) + 1
        return out

    # -- checks ------------------------------------------------------------

    def required(self):
        return set(k for k in self.avail if k not in self.edge and k not in self.hang)

    def check_listed(self, what=""):
        """The events the backend lists are those available in the reference. Returns the rates expected per process."""
        ctx = self.ctx
        listed = self.listed()
        for k, c in listed.items():
            ctx.require(c == 1, "listed-twice", "%sprocess %d lists site %d %d times", what, k[0], k[1], c)
            ctx.require(k in self.avail, "not-available",
                        "%sprocess %d is listed at site %d, where it does not match", what, k[0], k[1])
        for k in self.avail:
            if k in listed:
                continue
            if k in self.hang:
                continue
            if k in self.edge:
                ctx.count("known_edge_events")
                ctx.known_finding("edge-wildcards", "process %d matches at site %d near a non-periodic boundary but is not "
                                  "available (implicit wildcard outside of the lattice)" % k)
                continue
            ctx.violate("missing", "%sprocess %d matches at site %d but is not listed" % (what, k[0], k[1]))
        return listed

    def check_rates(self, listed, what=""):
        ctx = self.ctx
        inter = self.inter()
        expected = [0.0] * len(self.ref.procs)
        number = [0] * len(self.ref.procs)
        for k in listed:
            expected[k[0]] += self.avail[k]
            number[k[0]] += 1
        total = sum(expected)
        for p, proc in enumerate(inter.processes()):
            ctx.require(proc.nSites() == number[p], "count", "%sprocess %d has %d sites listed but reports %d",
                        what, p, number[p], proc.nSites())
            r = proc.totalRate()
            ctx.require(close(r, expected[p], 1e-9, 0.0 if number[p] == 0 else 1e-300), "process-rate",
                        "%stotal rate of process %d is %r, should be %r", what, p, r, expected[p])
        r = inter.totalRate()
        ctx.require(close(r, total, 1e-9), "total-rate", "%stotal rate is %r, should be %r", what, r, total)
        n = inter.totalAvailableSites()
        ctx.require(n == len(listed), "total-count", "%s%d available sites reported, %d listed", what, n, len(listed))
        return total

    def check_state(self, what=""):
        have = world.read_state(self.config, self.spec)
        if have != self.state:
            bad = [i for i in range(len(have)) if have[i] != self.state[i]][:4]
            self.ctx.violate("state", "%sthe configuration differs from the reference at %s" % (
                what, ", ".join("site %d: %s instead of %s" % (i, have[i], self.state[i]) for i in bad)))

    # -- running -----------------------------------------------------------

    def follow(self):
        """Performs the reported latest event on the reference."""
        cfg = self.config
        p, s = int(cfg.latestEventProcess()), int(cfg.latestEventSite())
        ctx = self.ctx
        ctx.require((p, s) in self.avail, "illegal-event", "process %d was performed at site %d, where it was not available", p, s)
        self.before = (self.state, self.avail, self.edge, self.hang)
        self.state = self.ref.apply(p, s, self.state)
        self.avail, self.edge, self.hang = self.inc.available(self.state)
        self.last = (p, s)
        ctx.event(p, s)
        ctx.steps += 1
        self.total_steps += 1
        return p, s

    def observer(self, on_step=None, on_setup=None, on_finalize=None):
        from KMCLib import KMCAnalysisPlugin
        ctx = self.ctx

        class Observer(KMCAnalysisPlugin):
            @staticmethod
            def setup(step, time, configuration):
                if on_setup is not None:
                    ctx.guard(on_setup)(step, time, configuration)

            @staticmethod
            def registerStep(step, time, configuration):
                if on_step is not None:
                    ctx.guard(on_step)(step, time, configuration)

            @staticmethod
            def finalize():
                if on_finalize is not None:
                    ctx.guard(on_finalize)()
        return Observer()

    def run(self, steps, on_step=None, on_setup=None, seed=1, rng_type="MT", analysis=(), breakers=(), **kw):
        """Runs the model. Returns 'done' or 'end' (no more available processes)."""
        from KMCLib import KMCControlParameters
        ctx = self.ctx
        run_kw = {}
        for k in ("trajectory_filename", "trajectory_type"):
            if k in kw:
                run_kw[k] = kw.pop(k)

        def go():
            params = KMCControlParameters(number_of_steps=steps, seed=seed, rng_type=rng_type, **kw)
            obs = [self.observer(on_step, on_setup)] if (on_step or on_setup) else []
            self.model.run(control_parameters=params, analysis=(obs + list(analysis)) or None,
                           breakers=list(breakers) or None, **run_kw)
        try:
            go()
        except (Violation, Stop, HarnessError):
            raise
        except Exception as e:
            if is_end(e):
                self.ended = True
                return "end"
            if ctx.violations or ctx.harness:
                raise
            ctx.sut("run", _reraise, e)
        return "done"


def _reraise(e):
    raise e


def close(a, b, rel, tiny=1e-300):
    if a != a or b != b:
        return False
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + tiny


def rng_setup(ctx, sc):
    """Random source and clock of a scenario."""
    r = sc.get("rng", {})
    ctx.rng.reset()
    if r.get("script"):
        ctx.rng.script(r["script"])
    ctx.rng.tail({"real": 0, "sim": 1, "biased": 2, "half": 3}[r.get("tail", "real")], r.get("state", 1))
    ctx.rng.budget(r.get("budget", 2000000))
    c = sc.get("clock")
    if c:
        ctx.os.clock(c["now"], c.get("tick", 0.0), c.get("jumps", ()))


def gen_rng(rng, biased=0.35):
    x = rng.random()
    tail = "biased" if x < biased else ("sim" if x < biased + 0.3 else "real")
    return {"tail": tail, "state": rng.getrandbits(63)}


def gen_clock(rng):
    k = rng.random()
    base = rng.choice([1.7e9, 1.7e9, 1.0e9, 5.0e8, 1000.0, 0.0])
    if k < 0.5:
        return {"now": base, "tick": rng.choice([0.0, 1e-6, 0.01, 1.0])}
    if k < 0.8:
        return {"now": base, "tick": rng.choice([5.0, 100.0, 700.0, 2000.0])}
    jumps = [rng.choice([0.0, 0.0, 0.0, 1.0, 3600.0, -3600.0, 86400.0, -40.0]) for _ in range(rng.randint(5, 60))]
    return {"now": max(base, 1.0e6), "tick": rng.choice([0.0, 0.5, 30.0]), "jumps": jumps}
