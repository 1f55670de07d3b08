"""C01 Parallel kernels equal their serial results under every thread schedule."""
import ctypes
import importlib
import itertools
import math
import os
import subprocess
import sys

import numpy as np

from mc import aes, build, sched
from mc.core import REPO, Fail, T, close, ensure

META = {
    'technique': 'stateless model checking of the compiled OpenMP kernels under a controlled scheduler (threads as fibers, '
                 'every memory access instrumented), exhaustive over schedules up to a preemption bound, with happens-before '
                 'race detection on every explored schedule',
    'note': 'Kernels of ld_funcs, disc_integrator, num_integrator and the Cython histograms, arrays of up to 7 (10) elements, '
            '1-3 (4) threads, and of up to 1000 (10001) elements with at most one preemption. All schedules at atomics, locks, '
            'barriers, chunk requests and thread starts; for small arrays all '
            'schedules at every access with at most 2 preemptions. Heap blocks of C++ code and all arrays are surrounded by '
            'forbidden zones.',
}
MODS = {}
JC = 'hogg_jacky.cython_jacky.cython_jacky_'
HIST = ['binning', 'bin_widths', 'empirical_density_hist', 'empirical_probability_hist',
        'empirical_probability_conversion_factor', 'jacky']


def load(ctx):
    for pkg, name, mod in (('num', 'num', 'num_integrator.libcpp_num_integrator'),
                           ('ld', 'ld', 'ld_funcs.libcpp_ld_funcs'),
                           ('disc', 'disc', 'disc_integrator.libcpp_disc_integration')):
        MODS[name] = direct(build.so_dir(pkg, sched=True), mod)
    h = build.so_dir('hist', sched=True)
    for x in HIST:
        MODS[x] = direct(h, JC + x)
    MODS['private'] = private(ctx)


def direct(root, name):
    import glob
    import importlib.machinery
    import importlib.util
    so, = glob.glob(f'{root}/{name.replace(".", "/")}.*.so')
    spec = importlib.util.spec_from_loader(name, importlib.machinery.ExtensionFileLoader(name, so))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def private(ctx):
    d = f'{REPO}/cpp-numintegrator/num_integrator'
    out = f'{ctx.scratch}/private.so'
    sd = os.path.dirname(sched.__file__)
    flags = ['-std=c++17', '-O2', '-fPIC', '-fvisibility=hidden', f'-I{d}']
    for src, extra in ((f'{sd}/rt.cpp', ['-fno-builtin']),
                       (f'{sd}/private.cpp', ['-fopenmp', '-fsanitize=thread']),
                       (f'{d}/num_integration.cpp', ['-fopenmp', '-fsanitize=thread'])):
        r = subprocess.run(['g++', *flags, *extra, '-c', src, '-o', f'{ctx.scratch}/{os.path.basename(src)}.o'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print(f'note: private integration rules not explored: {r.stdout.decode()[-300:]}')
            return None
    subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic', '-o', out]
                   + [f'{ctx.scratch}/{x}.o' for x in ('rt.cpp', 'private.cpp', 'num_integration.cpp')], check=True)
    return out


SCHEDS = {}
CUR = [None]


def sch(name):
    if name not in SCHEDS:
        SCHEDS[name] = sched.Sched(MODS[name])
    return SCHEDS[name]


def compare(name, threads, mode, bound, serial, parallel, arrays, inout=()):
    """Runs serial once and parallel under every schedule; arrays are guarded, inout restored."""
    S = sch(name)
    keep = [a.copy() for a in arrays]

    def run(fn):
        def go(s):
            CUR[0] = s
            if s is not None:
                for a in arrays:
                    s.guard(a)
            for i in inout:
                arrays[i][:] = keep[i]
            r = fn()
            return (None if r is None else np.array(r, dtype=float).ravel().copy(),
                    [arrays[i].copy() for i in inout])
        return go
    want = run(serial)(None)
    size = max(a.size for a in arrays)
    limit = 18000 if mode == 'access' else 3300 if size < 16 else 250
    rt = 1e-13 if size < 100 else 1e-11      # order of the terms of long sums
    n = 0
    for chosen, got in sched.explore(S, threads, run(parallel), mode, bound, limit=limit):
        n += 1
        ensure((got[0] is None) == (want[0] is None), 'no result')
        if want[0] is not None:
            ensure(got[0].shape == want[0].shape and same(got[0], want[0], rt),
                   lambda: f'{got[0]} instead of {want[0]} with {threads} threads under schedule {chosen}')
        for g, w in zip(got[1], want[1]):
            ensure(same(g, w, rt), lambda: f'{g} instead of {w} with {threads} threads under schedule {chosen}')
        for i, (a, k) in enumerate(zip(arrays, keep)):
            ensure(sched.intact(a), lambda: f'memory around argument {i} changed under schedule {chosen}')
            ensure(i in inout or same(a, k), lambda: f'argument {i} changed under schedule {chosen}')
    T.seen((S.lib.mc_count(0), S.lib.mc_count(2)))
    return n, threads, S.lib.mc_count(1)


def ask(t):
    """Threads asked for in t or (asked for, delivered)."""
    return t[0] if isinstance(t, tuple) else t


def same(a, b, rtol=1e-13):
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True)


def data(n, k=0):
    return np.array([((7 * i + 3 * k) % 11 - 4) / 4 for i in range(n)])


def ld(case):
    n, t, mode, bound = case
    mu, res = sched.guarded(data(n)), sched.guarded(np.full(n, 99.))
    m = MODS['ld']
    return compare('ld', t, mode, bound, lambda: m.compute(mu, res, 'eddington', ask(t), False),
                   lambda: m.compute(mu, res, 'eddington', ask(t), True), [mu, res], [1])


def disc(case):
    pat, rule, t, mode, bound = case
    n = len(pat)
    step = 1 / max(1, n)
    mu = sched.guarded([(-.5, i * step, 1.5)[p] for i, p in enumerate(pat)])
    f = [sched.guarded(data(n, k)) for k in (1, 2, 3)]
    m = MODS['disc']
    return compare('disc', t, mode, bound,
                   lambda: m.get_integrals(mu, *f, 'eddington', rule, ask(t), False),
                   lambda: m.get_integrals(mu, *f, 'eddington', rule, ask(t), True), [mu, *f])


def num(case):
    n, rule, es, t, mode, bound = case
    x = sched.guarded(np.arange(n) / 8 if es else np.array([i * (i + 1) / 16 for i in range(n)]))
    y = sched.guarded(data(n))
    m = MODS['num']
    return compare('num', t, mode, bound, lambda: m.integrate(rule, es, y, x, ask(t), False),
                   lambda: m.integrate(rule, es, y, x, ask(t), True), [y, x])


def priv(case):
    n, which, es, t, mode, bound = case
    x = sched.guarded(np.arange(n) / 8 if es else np.array([i * (i + 1) / 16 for i in range(n)]))
    y = sched.guarded(data(n))
    f = sch('private').lib.mc_private
    f.restype = ctypes.c_double
    ptr = ctypes.c_void_p

    def call():
        r = f(which, n, ptr(y.ctypes.data), ptr(x.ctypes.data), ctypes.c_bool(es), ask(t))
        return None if math.isnan(r) else r
    m = MODS['num']

    def serial():
        return None if call() is None else m.integrate(('trapz', 'simpson')[which], es, y, x, 1, False)
    return compare('private', t, mode, bound, serial, call, [y, x])


# serial and parallel functions of one module, their arguments and the arrays they change
def kernels(n):
    d, e = np.sort(data(n, 2)), np.arange(n + 1) ** 2 / 8.
    counts = np.arange(n) % 3 + 1.
    return {
        'binning': ('binning', 'cython_binning_serial_loop', 'cython_binning_parallel_loop', [d], [], (-1., .25, 0.)),
        'widths': ('bin_widths', 'cython_compute_bin_widths', 'cython_compute_bin_widths_parallel', [e], [], ()),
        'factor': ('empirical_probability_conversion_factor', 'cython_empirical_probability_conversion_serial_loop',
                   'cython_empirical_probability_conversion_parallel_loop', [counts], [], (2.5,)),
        'prob': ('empirical_probability_hist', 'cython_empirical_probability_hist',
                 'cython_empirical_probability_hist_parallel', [counts], [0], (4.5,)),
        'prob-int': ('empirical_probability_hist', 'cython_empirical_probability_hist_int',
                     'cython_empirical_probability_hist_int_parallel', [counts], [0], (5,)),
        'dens': ('empirical_density_hist', 'cython_empirical_density_hist', 'cython_empirical_density_hist_parallel',
                 [counts], [0], (4.5, .5)),
        'dens-int': ('empirical_density_hist', 'cython_empirical_density_hist_int',
                     'cython_empirical_density_hist_int_parallel', [counts], [0], (5, .5)),
        'vdens': ('empirical_density_hist', 'cython_variable_bw_empirical_density_hist',
                  'cython_variable_bw_empirical_density_hist_parallel', [counts, e], [0], (4.5,)),
        'vdens-int': ('empirical_density_hist', 'cython_variable_bw_empirical_density_hist_int',
                      'cython_variable_bw_empirical_density_hist_int_parallel', [counts, e], [0], (5,)),
        'jacky': ('jacky', 'cython_jacky_serial_loop', 'cython_jacky_parallel_loop', [counts], [], (1.5, .5, 7.)),
        'vjacky': ('jacky', 'cython_variable_bw_jacky_serial_loop', 'cython_variable_bw_jacky_parallel_loop',
                   [counts, e], [], (1.5, 7.)),
    }


def hist(case):
    name, n, t, mode, bound = case
    mod, ser, par, arrs, inout, args = kernels(n)[name]
    if not hasattr(MODS[mod], ser) or not hasattr(MODS[mod], par):
        return 'no such kernel'
    arrs = [sched.guarded(a) for a in arrs]
    m = MODS[mod]
    made = []
    empty = np.empty

    def guarded_empty(shape, dtype=float, **k):     # arrays the module makes for its results
        if np.ndim(shape) == 0:
            made.append(sched.guarded(np.zeros(shape, dtype), dtype))
            if CUR[0] is not None:
                CUR[0].guard(made[-1])
            return made[-1]
        return empty(shape, dtype, **k)

    # cdef scalars follow the array arguments, except where the edges come last
    def call(fn):
        a = [arrs[0], *args, *arrs[1:]]
        if name == 'vjacky':
            a = [*arrs, *args]

        def go():
            made.clear()
            np.empty = guarded_empty
            try:
                r = getattr(m, fn)(*a)
            finally:
                np.empty = empty
            for x in made:
                ensure(sched.intact(x), 'written outside the result array')
            return r
        return go
    out = []
    S = sch(mod)
    # a serial variant that is itself parallel is explored too
    for fn in (par, ser):
        out.append(compare(mod, t, mode, bound, call(ser), call(fn), arrs, inout))
    return out


def large(case):
    which, args = case
    return {'ld': ld, 'num': num, 'private': priv, 'disc': disc, 'hist': hist}[which](args)


def run(ctx):
    load(ctx)
    TH = (1, 2, 3) + ((4,) if ctx.thorough else ())
    # runtimes that deliver fewer threads than asked for (thread limits, nested regions)
    LESS = [(t, g) for t in TH + ((8,) if ctx.thorough else (5,)) for g in range(1, min(t, 4))]
    big = ctx.pick(8, 11)

    # array sizes at which an implementation may change its ways
    SIZES = (17, 32, 33, 64, 65, 128, 129, 257) + ctx.pick((1000,), (100, 256, 512, 1000, 1025, 2048, 4097, 10001))

    def bnd(t):
        return None if (t[1] if isinstance(t, tuple) else t) < 4 else 2
    ctx.explore('ld', ld, [(n, t, 'sync', bnd(t)) for n in range(0, big) for t in [*TH, *LESS]]
                + [(n, t, 'access', 2) for n in range(1, ctx.pick(4, 6)) for t in (2, 3)][:ctx.pick(5, 99)],
                'limb-darkening values', limit=600.)
    ctx.explore('disc', disc, [(p, r, t, 'sync', 1 if t > 2 else 3) for n in range(1, ctx.pick(5, 6))
                               for p in itertools.product((0, 1, 2), repeat=n) for r in ('trapz', 'simpson') for t in TH[:3]]
                + [((1,) * n, r, t, 'sync', 1) for n in range(2, big) for r in ('trapz', 'simpson') for t in LESS]
                + [((1,) * n, r, 2, 'sync', None) for n in range(2, big) for r in ('trapz', 'simpson')]
                + [(p, 'trapz', 2, 'access', 1) for p in ((1, 1), (0, 1, 1), (1, 2, 1, 1))],
                'disc integrals over all patterns of samples below, inside and above the visible hemisphere', limit=600.)
    ctx.explore('num', num, [(n, r, es, t, 'sync', bnd(t)) for n in range(1, big) for r in ('trapz', 'simpson')
                             for es in (True, False) for t in [*TH, *LESS]], 'numerical integration', limit=600.)
    if MODS['private']:
        ctx.explore('private', priv, [(n, w, es, t, 'sync', bnd(t)) for n in range(2, big) for w in (0, 1)
                                      for es in (True, False) for t in [*TH, *LESS]]
                    + [(n, w, es, 2, 'access', 2) for n in range(2, ctx.pick(4, 6)) for w in (0, 1) for es in (True, False)],
                    'parallel integration rules that are private members', limit=600.)
    ctx.explore('hist', hist, [(k, n, t, 'sync', bnd(t)) for k in kernels(2) for n in range(1, big) for t in [*TH, *LESS]]
                + [(k, n, 2, 'access', 2) for k in kernels(2) for n in range(1, ctx.pick(3, 5))],
                'Cython histogram kernels, also those called serial', limit=600.)
    ctx.explore('large', large, [('ld', (n, t, 'sync', 1)) for n in SIZES for t in (2, 3, (3, 2))]
                + [(k, (n, r, es, t, 'sync', 1)) for k, rs in (('num', ('trapz', 'simpson')), ('private', (0, 1))) for n in SIZES
                   for r in rs for es in (True, False) for t in (2, 3, (3, 2)) if k in MODS and MODS[k]]
                + [('disc', (p, r, t, 'sync', 1)) for n in SIZES for p in ((1,) * n, (0,) * (n // 2) + (1,) * (n - n // 2))
                   for r in ('trapz', 'simpson') for t in (2, (3, 2))]
                + [('hist', (k, n, t, 'sync', 1)) for k in kernels(2) for n in SIZES for t in (2, 3, (3, 2))],
                'all kernels on larger arrays', limit=600., chunk=3)
    ctx.assumptions.append('schedules at plain accesses beyond two preemptions are covered through the absence of data races '
                           'under every schedule of the synchronisation operations')
    ctx.assumptions.append('where a kernel has more than 3300 schedules (18000 at every access; 250 for arrays of 16 or more elements), '
                           'those with at most one preemption and then those without any are explored instead')
