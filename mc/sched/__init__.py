"""Stateless exploration of the thread schedules of an instrumented extension module.

The module was built by mc.build with sched=True: its OpenMP threads are fibers and every
memory access, atomic, lock and barrier of a parallel region goes through mc/sched/rt.cpp.
mode 'sync': decisions at thread starts, atomics, locks, barriers and chunk requests (enough
for programs without data races, and data races are looked for by happens-before on every
access); mode 'access': decisions before every access to memory that is not thread-local."""
import ctypes

import numpy as np

from ..core import Fail, T

CAP = 1 << 16
GUARD = 64          # bytes off limits on either side of an array, in multiples of 8


class Sched:
    def __init__(self, module):
        self.lib = ctypes.CDLL(getattr(module, '__file__', module))
        self.lib.mc_report.restype = ctypes.c_char_p
        self.lib.mc_count.restype = ctypes.c_ulonglong
        self.lib.mc_guard.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
        self.buf = [(ctypes.c_int * CAP)() for _ in range(3)]

    def once(self, threads, mode, prefix, run):
        threads, give = threads if isinstance(threads, tuple) else (threads, 0)
        pre = (ctypes.c_int * max(1, len(prefix)))(*prefix)
        self.lib.mc_begin(threads, {'sync': 0, 'access': 1}[mode], pre, len(prefix))
        self.lib.mc_give(give)
        try:
            out = run(self)
        finally:
            self.lib.mc_end()
            self.lib.mc_give(0)
        k = self.lib.mc_trace(*self.buf, CAP)
        if k >= CAP:
            raise RuntimeError('schedule longer than the trace buffer')
        return out, [b[:k] for b in self.buf], self.lib.mc_report().decode()

    def guard(self, arr):
        """Declares the surroundings of an array made by guarded() off limits."""
        base = arr.base
        lo = base.__array_interface__['data'][0]
        a = arr.__array_interface__['data'][0]
        self.lib.mc_guard(lo, a)
        self.lib.mc_guard(a + arr.nbytes, lo + base.nbytes)


def guarded(values, dtype=np.float64, fill=0):
    """Copy of values inside a buffer with surroundings filled with a marker."""
    values = np.asarray(values, dtype=dtype)
    g = GUARD // values.itemsize
    buf = np.full(values.size + 2 * g, fill, dtype=dtype) if fill else np.zeros(values.size + 2 * g, dtype)
    buf[g:g + values.size] = values
    return buf[g:g + values.size]


def intact(arr, fill=0):
    b = arr.base
    g = GUARD // arr.itemsize
    return (b[:g] == fill).all() and (b[g + arr.size:] == fill).all()


def explore(sched, threads, run, mode='sync', bound=None, limit=None):
    """Runs every schedule (with at most bound preemptions) and yields (decisions, result).

    threads: how many are asked for, or a pair (asked for, delivered by the runtime).
    run(sched) declares guards and calls the kernel; it is called anew for every schedule.
    Where there are more than limit schedules, those with fewer preemptions are explored instead."""
    for b in [bound] + [x for x in (1, 0) if bound is None or x < bound]:
        prefix, n = [], 0
        while True:
            out, (cnt, chosen, pre), report = sched.once(threads, mode, prefix, run)
            n += 1
            T.call()
            if report:
                raise Fail(f'{report}; schedule {chosen}')
            yield chosen, out
            if limit and n > limit:
                T.seen(('fewer preemptions explored', threads, mode, b))
                break
            used, best = 0, None
            for i in range(len(chosen)):
                if chosen[i] + 1 < cnt[i] and (not pre[i] or chosen[i] > 0 or b is None or used < b):
                    best = i
                used += bool(pre[i] and chosen[i])
            if best is None:
                return
            prefix = chosen[:best] + [chosen[best] + 1]
