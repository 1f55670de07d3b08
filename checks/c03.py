"""C03 Disc integrals cover exactly the visible hemisphere with the limb-darkening law."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from checks.c02 import arr, weights
from mc import build
from mc.core import T, close, ensure

META = {
    'technique': 'bounded exhaustive enumeration of sample patterns (below, on the bounds of, inside, above the visible hemisphere) '
                 'on the compiled integrator against exact rational quadrature',
    'note': 'All patterns of up to 6 (7) samples out of 4 classes of position with equally spaced visible samples, both rules, '
            'serial and parallel; unit-vector integrands on grids of up to 33 (65) samples over the whole sphere; '
            'five kinds of grid of up to 65537 samples.',
}
BELOW = (Fr(-1), Fr(-1, 2 ** 40), Fr(-1, 8))
ABOVE = (Fr(1) + Fr(1, 2 ** 40), Fr(2), Fr(9, 8))


def di():
    from disc_integrator import di
    return di


def exact(mus, f, f1, f2, rule):
    vis = [i for i, m in enumerate(mus) if 0 <= m <= 1]
    x = [mus[i] for i in vis]
    w = weights(rule, True, x)
    ld = [1 + Fr(3, 2) * m for m in x]
    one = [m * f[i] * d for i, m, d in zip(vis, x, ld)]
    two = [(2 * m * f1[i] + (m * m - 1) * f2[i]) * d * m for i, m, d in zip(vis, x, ld)]
    return [(sum((a * b for a, b in zip(w, v)), Fr(0)), sum((abs(a * b) for a, b in zip(w, v)), Fr(0))) for v in (one, two)]


def check(mus, f, rule, t, par):
    a = [arr(v) for v in (mus, *f)]
    keep = [v.copy() for v in a]
    T.call()
    got = di().get_integrals(*a, 'eddington', rule, t, par)
    for name, g, (w, s) in zip(('first', 'second'), got, exact(mus, *f, rule)):
        ensure(abs(g - float(w)) <= 1e-12 * float(s) + 1e-300,
               lambda: f'{name} {rule} integral {g} instead of {float(w)} (threads={t}, parallel={par}) for mu={a[0]}, '
                       f'f={a[1]}, {a[2]}, {a[3]}')
    for v, k in zip(a, keep):
        ensure(np.array_equal(v, k), 'an argument was changed')
    return tuple(round(float(g), 8) for g in got)


def patterns(case):
    """0 below, 1 visible, 2 above; the visible ones are equally spaced from x0."""
    pat, rule, t, par, (x0, h) = case
    mus, k = [], 0
    for i, p in enumerate(pat):
        if p == 1:
            mus.append(x0 + k * h)
            k += 1
        else:
            mus.append((BELOW if p == 0 else ABOVE)[i % 3])
    n = len(mus)
    f = [[Fr((5 * i + 3 * q) % 7 - 3, 2) for i in range(n)] for q in range(3)]
    out = check(mus, f, rule, t, par)
    for i, p in enumerate(pat):     # nothing outside the hemisphere counts
        if p != 1:
            g = [list(v) for v in f]
            for v in g:
                v[i] += 1000
            ensure(check(mus, g, rule, t, par) == out, lambda: f'sample {i} at mu={float(mus[i])} counts')
    return out


def basis(case):
    """Whole-sphere grids, each sample of each function on its own."""
    n, rule, t, par = case
    out = []
    for lo in (Fr(-1), Fr(-1, 2), Fr(0)):
        mus = [lo + (1 - lo) * Fr(i, n - 1) for i in range(n)]
        if any(Fr(float(m)) != m for m in mus):
            continue
        zero = [Fr(0)] * n
        for q in range(3):
            for i in range(n):
                f = [zero, zero, zero]
                f[q] = [Fr(int(j == i)) for j in range(n)]
                out.append(check(mus, f, rule, t, par))
        for down in (False, True):
            m = mus[::-1] if down else mus
            out.append(check(m, [[Fr((3 * j + q) % 5 - 2) for j in range(n)] for q in range(3)], rule, t, par))
    return len(out), out[-1] if out else None


BIG = (63, 64, 65, 100, 127, 128, 129, 200, 201, 255, 256, 257, 1000, 1001, 4096, 4097, 16385, 65537)


def large(case):
    """Fine grids of the sphere, in whichever order the invisible samples come."""
    n, rule, kind, t, par = case
    i, j = np.arange(n), np.arange(n)
    h = 2. ** -(int(n).bit_length() + 1)
    if kind == 'up':
        mu = -1 + i * 2 / (n - 1)
    elif kind == 'down':
        mu = 1 - i * 2 / (n - 1)
    elif kind == 'visible':
        mu = i * h
    elif kind == 'fore':       # most of the samples are visible
        mu = (i - n // 8) * h
    else:                      # every other sample is invisible
        mu = np.where(i % 2 == 0, (i // 2) * h, np.where(i % 4 == 1, -.5, 1.5))
    f = [((j * a) % b - c) / 8. for a, b, c in ((7919, 1009, 400), (31, 17, 5), (13, 97, 20))]
    vis = np.flatnonzero((mu >= 0) & (mu <= 1))
    x, g = mu[vis], [v[vis] for v in f]
    m = len(x)
    if rule == 'simpson' and m % 2 == 1:
        w = np.full(m, 2.)
        w[1::2], w[0], w[-1] = 4., 1., 1.
        w *= (x[-1] - x[0]) / (m - 1) / 3
    else:
        w, d = np.zeros(m), np.diff(x)
        w[:-1] += d / 2
        w[1:] += d / 2
    ld = 1 + 1.5 * x
    one, two = x * g[0] * ld * w, (2 * x * g[1] + (x * x - 1) * g[2]) * ld * x * w
    T.call()
    got = di().get_integrals(mu, *f, 'eddington', rule, t, par)
    for name, a, b in zip(('first', 'second'), got, (one, two)):
        ensure(abs(a - b.sum()) <= 1e-10 * np.abs(b).sum(), lambda: f'{name} {rule} integral {a} instead of {b.sum()} for {n} '
               f'samples, {kind}, threads={t}, parallel={par}')
    return tuple(round(float(a), 6) for a in got)


def law(case):
    vals, t, par = case
    from ld_funcs import ldf
    mu, res = np.array(vals, dtype=float), np.full(len(vals), 7.)
    T.call()
    ldf.compute(mu, res, 'eddington', t, par)
    ensure(close(res, 1 + 1.5 * mu, 1e-15, 1e-15), lambda: f'{res} at mu={mu}')
    ensure(np.array_equal(mu, np.array(vals, dtype=float)), 'mu was changed')
    return tuple(res)


def layout(case):
    kind, t, par = case
    from ld_funcs import ldf
    n = 5
    mu = np.arange(n) / 4.
    buf = np.full(3 * n, 7.)
    src = np.full(3 * n, .5)
    src[::3] = mu
    a = src[::3] if 'mu' in kind else mu
    r = buf[::3] if 'res' in kind else np.full(n, 7.)
    if 'back' in kind:
        a, r = a[::-1], r[::-1]
    T.call()
    try:
        ldf.compute(a, r, 'eddington', t, par)
    except (ValueError, TypeError):
        ensure((buf == 7).all(), 'refused, but written')
        return 'refused'
    ensure(close(r, 1 + 1.5 * a), lambda: f'{kind}: {r} at mu={a}')
    ensure((np.delete(buf, np.s_[::3]) == 7).all(), 'written between the elements')
    return tuple(r)


def run(ctx):
    build.use(ctx, ['num', 'ld', 'disc'])
    import disc_integrator  # noqa: F401
    import ld_funcs  # noqa: F401
    tp = [(1, False), (2, True), (4, False), (3, True)]
    sp = [(Fr(0), Fr(1, 8)), (Fr(1, 4), Fr(1, 16)), (Fr(1), Fr(-1, 8))]
    ctx.explore('patterns', patterns, [(p, r, t, q, s) for n in range(1, ctx.pick(7, 8)) for p in itertools.product((0, 1, 2), repeat=n)
                                       for r in ('trapz', 'simpson') for t, q in tp[:ctx.pick(2, 4)] for s in sp[:3 if n < 6 else 1]],
                'patterns of samples inside and outside the hemisphere')
    ctx.explore('basis', basis, [(n, r, t, q) for n in [2, 3, 5, 9, 17, 33] + ctx.pick([], [65]) for r in ('trapz', 'simpson')
                                 for t, q in tp], 'unit-vector integrands on uniform grids of the sphere')
    ctx.explore('large', large, [(n, r, k, t, q) for n in BIG for r in ('trapz', 'simpson')
                                 for k in ('up', 'down', 'visible', 'fore', 'alternating') for t, q in tp + [(8, True)]],
                'fine grids of the sphere')
    v = (-1., -.25, 0., .5, 1., 1.5)
    ctx.explore('law', law, [(p, t, q) for n in range(0, ctx.pick(5, 6)) for p in itertools.product(v, repeat=n) for t, q in tp],
                'limb-darkening law')
    ctx.explore('layout', layout, [(k, t, q) for k in ('plain', 'mu', 'res', 'mu res', 'back', 'mu res back') for t, q in tp],
                'array layouts of the limb-darkening law')
