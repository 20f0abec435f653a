"""Runs a model and records what it does, without judging it."""
from sim import world
from sim.core import HarnessError, Stop, Violation
from sim.session import is_end


class Run(object):
    """A model and its recorded history [(step, time, process, site)]."""

    def __init__(self, ctx, spec, rate_hook=None, lattice=None, interactions=None):
        self.ctx = ctx
        self.spec = spec
        self.config = ctx.sut("configuration", world.build_config, spec, lattice)
        self.model = ctx.sut("model", world.build_model, spec, rate_hook, self.config, interactions)
        self.history = []
        self.how = None
        self.hook = None

    def recorder(self):
        from KMCLib import KMCAnalysisPlugin
        me = self

        class Recorder(KMCAnalysisPlugin):
            def setup(self, step, time, configuration):
                pass

            def registerStep(self, step, time, configuration):
                me.ctx.guard(me.record)(step, time, configuration)

            def finalize(self):
                pass
        return Recorder()

    def record(self, step, time, cfg):
        self.history.append((step, time, int(cfg.latestEventProcess()), int(cfg.latestEventSite())))
        if self.hook is not None:
            self.hook(step, time, cfg)

    def run(self, steps, seed=1, rng_type="MT", analysis=(), breakers=(), what="run", **kw):
        from KMCLib import KMCControlParameters
        run_kw = dict((k, kw.pop(k)) for k in ("trajectory_filename", "trajectory_type") if k in kw)

        def go():
            params = KMCControlParameters(number_of_steps=steps, seed=seed, rng_type=rng_type, **kw)
            self.model.run(control_parameters=params, analysis=[self.recorder()] + list(analysis),
                           breakers=list(breakers) or None, **run_kw)
        try:
            go()
            self.how = "done"
        except (Violation, Stop, HarnessError):
            raise
        except Exception as e:
            if not is_end(e):
                def again():
                    raise e
                self.ctx.sut(what, again)
            self.how = "end"
        return self.how

    # -- what can be seen of the model -------------------------------------

    def state(self):
        return world.read_state(self.config, self.spec)

    def atoms(self):
        return (list(self.config.atomIDTypes()), [[float(x) for x in c] for c in self.config.atomIDCoordinates()],
                [int(i) for i in self.config._backend().atomID()])

    def events(self):
        inter = self.model._backend().interactions()
        return [(sorted(int(s) for s in p.sites()), p.totalRate()) for p in inter.processes()]


def same_history(ctx, a, b, kind, what, exact=True):
    """Two recorded histories are the same."""
    for i in range(max(len(a), len(b))):
        if i >= len(a) or i >= len(b):
            ctx.violate(kind, "%s: %d and %d steps" % (what, len(a), len(b)))
        x, y = a[i], b[i]
        ok = x[2:] == y[2:] and x[0] == y[0] and (x[1] == y[1] or (not exact and abs(x[1] - y[1]) <= 1e-9 * abs(x[1])))
        if not ok:
            ctx.violate(kind, "%s: step %d is %s and %s (step, time, process, site)" % (what, i + 1, x, y))


def same_events(ctx, a, b, kind, what):
    for p, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0]:
            ctx.violate(kind, "%s: process %d is listed at %s and %s" % (what, p, x[0][:12], y[0][:12]))
        if abs(x[1] - y[1]) > 1e-9 * max(abs(x[1]), abs(y[1])):
            ctx.violate(kind, "%s: the rate of process %d is %r and %r" % (what, p, x[1], y[1]))
