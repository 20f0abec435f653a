"""The simulated MPI machine: processes that meet in collective calls, one of which runs at any time.

Each rank is a forked process whose backend is linked with the MPI library of
cxx/mpi; a collective call stops it until the simulator lets it go on. Which
rank goes on is decided by a seeded schedule.
"""
import ctypes
import json
import os
import random
import signal
import socket
import struct

from sim.core import HarnessError, Stop, Violation

BARRIER, BCAST, REDUCE, ALLREDUCE, GATHER, ALLGATHER, FINALIZE, ABORT, BAD, RESULT = 1, 2, 3, 4, 5, 6, 7, 8, 9, 99
NAMES = {1: "Barrier", 2: "Bcast", 3: "Reduce", 4: "Allreduce", 5: "Gather", 6: "Allgather", 8: "Abort", 9: "illegal call"}
HEAD = struct.Struct("7q")
FORMATS = {1: "b", 2: "B", 3: "i", 4: "I", 5: "q", 6: "Q", 7: "q", 8: "f", 9: "d", 10: "h", 11: "B", 12: "Q", 13: "?"}


def setup(ctx, rank, size, fd):
    lib = ctypes.CDLL(ctx.backend)
    lib.kmcsim_mpi_setup(rank, size, fd)


class Rank(object):

    def __init__(self, rank):
        self.rank = rank
        self.pid = 0
        self.sock = None
        self.calls = 0          # collective calls entered
        self.answer = b""       # what it gets when it goes on
        self.where = "ready"    # ready | waiting | done
        self.result = None

    def read(self, n):
        out = b""
        while len(out) < n:
            b = self.sock.recv(min(1 << 20, n - len(out)))
            if not b:
                return None
            out += b
        return out


class Machine(object):

    def __init__(self, ctx, size, schedule):
        self.ctx = ctx
        self.size = size
        self.schedule = schedule
        self.rng = random.Random(schedule["seed"])
        self.ranks = [Rank(r) for r in range(size)]
        self.meets = []         # per collective call: {rank: data}
        self.signatures = []
        self.trace = []

    # -- processes ---------------------------------------------------------

    def start(self, fn):
        """fn(rank) runs in every process and returns what is to be reported (as JSON)."""
        for k in self.ranks:
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    a.close()
                    for other in self.ranks[:k.rank]:
                        other.sock.close()
                    # (wait for the first turn)
                    b.recv(8)
                    setup(self.ctx, k.rank, self.size, b.fileno())
                    res = self.child(fn, k.rank)
                    data = json.dumps(res).encode()
                    b.sendall(HEAD.pack(RESULT, 0, 0, 0, 0, 0, len(data)) + data)
                    b.recv(8)
                    code = 0
                finally:
                    os._exit(code)
            b.close()
            k.sock = a
            k.pid = pid

    def child(self, fn, rank):
        ctx = self.ctx
        out = {"report": None}
        try:
            out["report"] = fn(rank)
        except (Violation, Stop):
            pass
        except BaseException:
            if ctx.harness is None and not ctx.violations:
                import traceback
                ctx.harness = traceback.format_exc()
        out["violations"] = ctx.violations
        out["harness"] = ctx.harness if not ctx.violations else None
        out["counters"] = ctx.counters
        return out

    def stop(self):
        for k in self.ranks:
            if k.pid:
                try:
                    os.kill(k.pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(k.pid, 0)
                k.pid = 0
            if k.sock is not None:
                k.sock.close()

    # -- schedule ----------------------------------------------------------

    def choose(self, ready):
        s = self.schedule
        kind = s["kind"]
        if len(ready) == 1:
            return ready[0]
        if kind == "round":
            last = self.trace[-1] if self.trace else -1
            return min(ready, key=lambda k: (k.rank - last - 1) % self.size)
        if kind == "stall":
            others = [k for k in ready if k.rank != s["rank"] % self.size]
            return self.rng.choice(others or ready)
        if kind == "ahead":
            for k in ready:
                if k.rank == s["rank"] % self.size:
                    return k
        if kind == "priority":
            if not hasattr(self, "order"):
                self.order = list(range(self.size))
                self.rng.shuffle(self.order)
            if self.rng.random() < 0.05:
                self.rng.shuffle(self.order)
            return min(ready, key=lambda k: self.order[k.rank])
        return self.rng.choice(ready)

    # -- collective calls --------------------------------------------------

    def enter(self, k, head, data):
        op, count, dtype, red, root, comm, n = head
        ctx = self.ctx
        name = NAMES.get(op, "?")
        ctx.require(op != BAD, "illegal-call", "rank %d makes a collective call outside of MPI_Init/MPI_Finalize or on another communicator",
                    k.rank)
        ctx.require(op != ABORT, "abort", "rank %d calls MPI_Abort", k.rank)
        i = k.calls
        k.calls += 1
        sig = (op, None if op in (GATHER, ALLGATHER) else count, dtype, red, root)
        if i == len(self.meets):
            self.meets.append({})
            self.signatures.append((sig, k.rank))
            ctx.count("collective:" + name)
        first, by = self.signatures[i]
        ctx.require(sig == first, "mismatch", "call %d is %s by rank %d and %s by rank %d", i, describe(first), by, describe(sig), k.rank)
        self.meets[i][k.rank] = data
        k.where = "waiting"
        k.at = i
        got = self.meets[i]
        if op == BCAST:
            if root in got:
                for o in self.ranks:
                    if o.where == "waiting" and o.at == i:
                        self.go(o, b"" if o.rank == root else got[root])
            return
        if op in (REDUCE, GATHER) and k.rank != root:
            # Only the root has to wait.
            self.go(k, b"")
        if len(got) < self.size:
            return
        if op == BARRIER:
            answer = b""
        elif op in (REDUCE, ALLREDUCE):
            answer = self.reduce(got, dtype, red)
        else:
            answer = b"".join(struct.pack("q", len(got[r])) + got[r] for r in range(self.size))
        for o in self.ranks:
            if o.where == "waiting" and o.at == i:
                self.go(o, answer)
        self.meets[i] = dict((r, None) for r in got)

    def go(self, k, answer):
        k.answer = answer
        k.where = "ready"

    def reduce(self, got, dtype, red):
        """In an order of the simulator's choice."""
        order = list(range(self.size))
        self.rng.shuffle(order)
        fmt = FORMATS[dtype]
        vectors = [struct.unpack("=%d%s" % (len(got[r]) // struct.calcsize("=" + fmt), fmt), got[r]) for r in order]
        bits = 8 * struct.calcsize("=" + fmt)
        out = []
        for xs in zip(*vectors):
            v = xs[0]
            for x in xs[1:]:
                if red == 1:
                    v = v + x
                elif red == 2:
                    v = v * x
                elif red == 3:
                    v = max(v, x)
                elif red == 4:
                    v = min(v, x)
                elif red == 5:
                    v = type(x)(bool(v) and bool(x))
                elif red == 6:
                    v = type(x)(bool(v) or bool(x))
                elif red == 7:
                    v = v & x
                else:
                    v = v | x
            if isinstance(v, int) and not isinstance(v, bool):
                v &= (1 << bits) - 1
                if fmt.islower() and v >> (bits - 1):
                    v -= 1 << bits
            out.append(v)
        return struct.pack("=%d%s" % (len(out), fmt), *out)

    # -- running -----------------------------------------------------------

    def run(self):
        """Runs all ranks to their end. Returns their reports."""
        ctx = self.ctx
        try:
            while True:
                ready = [k for k in self.ranks if k.where == "ready"]
                if not ready:
                    break
                self.turn(self.choose(ready))
            if any(k.where != "done" for k in self.ranks):
                ctx.violate("deadlock", "; ".join("rank %d %s" % (
                    k.rank, "is done" if k.where == "done" else "waits in call %d (%s)" % (k.at, describe(self.signatures[k.at][0])))
                    for k in self.ranks))
        finally:
            self.stop()
        ctx.count("turns", len(self.trace))
        return [k.result for k in self.ranks]

    def turn(self, k):
        ctx = self.ctx
        self.trace.append(k.rank)
        try:
            k.sock.sendall(struct.pack("q", len(k.answer)) + k.answer)
            raw = k.read(HEAD.size)
            data = b""
            if raw is not None:
                head = HEAD.unpack(raw)
                data = k.read(head[6]) if head[6] else b""
        except (BrokenPipeError, ConnectionResetError):
            raw = None
        if raw is None or data is None:
            _, status = os.waitpid(k.pid, 0)
            k.pid = 0
            if os.WIFSIGNALED(status):
                if os.WTERMSIG(status) == signal.SIGKILL:
                    raise HarnessError("rank %d was killed" % k.rank)
                ctx.violate("crash", "rank %d died from signal %d" % (k.rank, os.WTERMSIG(status)))
            if os.WEXITSTATUS(status) == 77:
                ctx.violate("endless", "rank %d makes more random draws than any legal run of this scenario" % k.rank)
            ctx.violate("exit", "rank %d ended early with status %d" % (k.rank, os.WEXITSTATUS(status)))
        if head[0] != RESULT:
            self.enter(k, head, data)
            return
        res = json.loads(data.decode())
        if res["harness"]:
            ctx.harness = "rank %d: %s" % (k.rank, res["harness"])
            raise HarnessError("in a rank")
        for kind, message in res["violations"]:
            ctx.violate(kind, "rank %d: %s" % (k.rank, message))
        for c, n in res["counters"].items():
            ctx.count(c, n)
        k.result = res["report"]
        k.where = "done"


def describe(sig):
    op, count, dtype, red, root = sig
    if op == BARRIER:
        return "Barrier"
    return "%s(count %s, type %s, op %s, root %s)" % (NAMES.get(op, op), count, FORMATS.get(dtype, dtype), red, root)
