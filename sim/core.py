"""What a simulated run reports, and how it separates violations from harness errors."""
import hashlib
import json
import os
import pickle
import traceback


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, message):
        Exception.__init__(self, "%s: %s" % (kind, message))
        self.kind = kind
        self.message = message


class HarnessError(Exception):
    """Something is wrong with the simulator, not with the code under test."""


class Stop(Exception):
    """Ends a run early on purpose."""


class Ctx(object):

    def __init__(self, rng, os_, reflib, scratch):
        self.rng = rng
        self.os = os_
        self.reflib = reflib
        self.scratch = scratch
        self.violations = []
        self.harness = None
        self.counters = {}
        self.states = set()
        self.known = {}
        self.sim_time = 0.0
        self.steps = 0
        self.log = []
        self.nontrivial = False

    # -- findings ----------------------------------------------------------

    def violate(self, kind, message):
        v = Violation(kind, message)
        self.violations.append([kind, message])
        raise v

    def known_finding(self, key, message):
        self.known.setdefault(key, message)

    def require(self, cond, kind, message, *args):
        if not cond:
            self.violate(kind, message % args if args else message)

    def guard(self, fn):
        """Wraps a callback that the code under test calls: harness errors can not get lost in there."""
        def wrapped(*a, **k):
            try:
                return fn(*a, **k)
            except (Violation, Stop, HarnessError):
                raise
            except Exception:
                if self.harness is None:
                    self.harness = traceback.format_exc()
                raise HarnessError("in a callback")
        return wrapped

    def sut(self, what, fn, *a, **k):
        """Calls the code under test with legal input: it may not raise."""
        try:
            return fn(*a, **k)
        except (Violation, Stop, HarnessError):
            raise
        except Exception as e:
            if self.harness is None and not self.violations:
                tb = traceback.extract_tb(e.__traceback__)
                where = "; ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[-3:])
                self.violate("exception", "%s raised %s: %s (%s)" % (what, type(e).__name__, str(e)[:300], where))
            raise

    def isolated(self, fn):
        """What fn() returns in a forked process, which leaves no trace here but what it counted."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out = None
            try:
                os.close(r)
                self.counters, self.states, self.log = {}, set(), []
                value = None
                try:
                    value = fn()
                except (Violation, Stop):
                    pass
                except BaseException:
                    if not self.violations and self.harness is None:
                        self.harness = traceback.format_exc()
                out = pickle.dumps((value, self.violations, self.harness, self.counters, self.states, self.log))
            except BaseException:
                out = pickle.dumps((None, [], traceback.format_exc(), {}, set(), []))
            finally:
                while out:
                    out = out[os.write(w, out):]
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if not data:
            if os.WIFSIGNALED(status):
                # The same end for this process, so that it is judged in one place.
                os.kill(os.getpid(), os.WTERMSIG(status))
            os._exit(os.WEXITSTATUS(status))
        value, violations, harness, counters, states, log = pickle.loads(data)
        for k, v in counters.items():
            self.count(k, v)
        self.states |= states
        self.log += log
        self.violations += violations
        if harness is not None and self.harness is None:
            self.harness = harness
        if violations or harness is not None:
            raise Stop()
        return value

    # -- measures ----------------------------------------------------------

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def state(self, *key):
        if len(self.states) < 4000:
            self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=6).hexdigest())

    def event(self, *what):
        """The recorded history (its digest tells runs apart and shows that they repeat exactly)."""
        self.log.append(repr(what))

    def result(self):
        h = hashlib.sha256("\n".join(self.log).encode()).hexdigest()
        return {"violations": self.violations, "harness": self.harness, "counters": self.counters,
                "states": sorted(self.states), "known": self.known, "sim_time": self.sim_time, "steps": self.steps,
                "digest": h, "nontrivial": bool(self.nontrivial)}


def dumps(x):
    return json.dumps(x, sort_keys=True)


def subseed(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), "big")
