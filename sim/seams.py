"""Python side of the simulation seams (random draws, clock, disk, signals)."""
import ctypes
import os

import numpy


class Rng(object):
    """The uniform random source of the backend."""

    REAL, SIM, BIASED, HALF = 0, 1, 2, 3

    def __init__(self, backend_so):
        lib = ctypes.CDLL(backend_so)
        self._lib = lib
        d = ctypes.POINTER(ctypes.c_double)
        lib.kmcsim_rng_script.argtypes = [d, ctypes.c_int64]
        lib.kmcsim_rng_tail.argtypes = [ctypes.c_int, ctypes.c_uint64]
        lib.kmcsim_rng_log.argtypes = [d, ctypes.c_int64, ctypes.c_int64]
        for f in ("count", "total", "script_left", "biased"):
            getattr(lib, "kmcsim_rng_" + f).restype = ctypes.c_int64
        lib.kmcsim_rng_tail_state.restype = ctypes.c_uint64
        lib.kmcsim_rng_budget.argtypes = [ctypes.c_int64]
        lib.kmcsim_rng_signal_at.argtypes = [ctypes.c_int64]

    def reset(self):
        self._lib.kmcsim_rng_reset()

    def script(self, values):
        a = numpy.asarray(values, dtype=float)
        self._lib.kmcsim_rng_script(a.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), len(a))

    def tail(self, mode, state=0):
        self._lib.kmcsim_rng_tail(mode, state & 0xFFFFFFFFFFFFFFFF)

    def tail_mode(self):
        return self._lib.kmcsim_rng_tail_mode()

    def tail_state(self):
        return self._lib.kmcsim_rng_tail_state()

    def budget(self, n):
        self._lib.kmcsim_rng_budget(n)

    def signal_at(self, n):
        self._lib.kmcsim_rng_signal_at(n)

    def total(self):
        return self._lib.kmcsim_rng_total()

    def biased(self):
        return self._lib.kmcsim_rng_biased()

    def count(self):
        return self._lib.kmcsim_rng_count()

    def script_left(self):
        return self._lib.kmcsim_rng_script_left()

    def log(self, start=0):
        n = self.count() - start
        a = numpy.zeros(max(n, 1))
        self._lib.kmcsim_rng_log(a.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), start, n)
        return a[:n].tolist()


class Os(object):
    """The simulated clock and disk (preloaded)."""

    SHORT, EINTR, ENOSPC, EIO, CRASH, SIGINT = 1, 2, 3, 4, 5, 6
    NAMES = {1: "short_write", 2: "eintr", 3: "enospc", 4: "eio", 5: "crash", 6: "sigint"}

    def __init__(self, path):
        lib = ctypes.CDLL(path)
        self._lib = lib
        d = ctypes.POINTER(ctypes.c_double)
        lib.simos_clock.argtypes = [ctypes.c_int, ctypes.c_double, ctypes.c_double, d, ctypes.c_int64]
        lib.simos_disk.argtypes = [ctypes.c_int, ctypes.c_char_p]
        lib.simos_disk_fault.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
        for f in ("simos_clock_reads", "simos_clock_jumped", "simos_disk_ops", "simos_disk_ops_of", "simos_disk_fired"):
            getattr(lib, f).restype = ctypes.c_int64
        for f in ("blocks", "bytes", "total"):
            getattr(lib, "simos_heap_" + f).restype = ctypes.c_int64
        lib.simos_clock_span.restype = ctypes.c_double
        lib.simos_clock_now.restype = ctypes.c_double

    def clock(self, now, tick=0.0, jumps=()):
        a = numpy.asarray(list(jumps), dtype=float)
        self._lib.simos_clock(1, float(now), float(tick), a.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), len(a))

    def clock_off(self):
        self._lib.simos_clock(0, 0.0, 0.0, None, 0)

    def clock_reads(self):
        return self._lib.simos_clock_reads()

    def clock_jumped(self):
        return self._lib.simos_clock_jumped()

    def clock_span(self):
        return self._lib.simos_clock_span()

    def heap(self):
        """C++ objects alive: blocks and bytes."""
        return self._lib.simos_heap_blocks(), self._lib.simos_heap_bytes()

    def disk(self, root):
        self._lib.simos_disk(1, os.fsencode(root))

    def disk_off(self):
        self._lib.simos_disk(0, b"")

    def fault(self, op, kind, arg=0, repeat=1):
        self._lib.simos_disk_fault(op, kind, arg, repeat)

    def clear_faults(self):
        self._lib.simos_disk_clear()

    def ops(self):
        return self._lib.simos_disk_ops()

    def fired(self):
        return dict((n, self._lib.simos_disk_fired(k)) for k, n in self.NAMES.items())


class Ref(object):
    """Independent random streams of the standard library."""

    TYPES = {"MT": 0, "MINSTD": 1, "RANLUX24": 2, "RANLUX48": 3}

    def __init__(self, path):
        self._lib = ctypes.CDLL(path)
        self._lib.simref_draws.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_double), ctypes.c_int64]

    def draws(self, rng_type, seed, n):
        a = numpy.zeros(max(n, 1))
        self._lib.simref_draws(self.TYPES[rng_type], seed, a.ctypes.data_as(ctypes.POINTER(ctypes.c_double)), n)
        return a[:n].tolist()
