"""C02 Tabulated integrals follow the composite trapezoid and Simpson rules."""
import itertools
from fractions import Fraction as Fr

import numpy as np

from mc import build
from mc.core import T, close, ensure

META = {
    'technique': 'bounded exhaustive enumeration of grids, integrand bases and request histories on the compiled integrator '
                 'against exact rational composite rules',
    'note': 'All strictly increasing grids over 8 (9) nodes, unit-vector integrands (which determine a linear rule) on uniform '
            'grids of up to 41 (121) samples, all three-valued integrands of up to 6 (7) samples, all histories of 3 (4) '
            'requests out of 8; grids of up to 65537 samples of six kinds; serial and parallel, 1 to 4 threads.',
}
RULES = ('trapz', 'simpson')


def cni():
    from num_integrator import cni
    return cni


def weights(rule, es, x):
    """Exact weights of the documented rule."""
    n = len(x)
    w = [Fr(0)] * n
    if n < 2:
        return w
    if rule == 'simpson' and es and n % 2 == 1:
        h = x[1] - x[0]
        for i in range(0, n - 2, 2):
            w[i] += h / 3
            w[i + 1] += 4 * h / 3
            w[i + 2] += h / 3
        return w
    for i in range(n - 1):
        w[i] += (x[i + 1] - x[i]) / 2
        w[i + 1] += (x[i + 1] - x[i]) / 2
    return w


def arr(v):
    return np.array([float(a) for a in v])


def ask(rule, es, y, x, t, par):
    T.call()
    return cni().integrate(rule, es, y, x, t, par)


def check(rule, es, y, x, t, par):
    ya, xa = arr(y), arr(x)
    k = ya.copy(), xa.copy()
    got = ask(rule, es, ya, xa, t, par)
    want = sum((a * b for a, b in zip(weights(rule, es, x), y)), Fr(0))
    scale = float(sum((abs(a * b) for a, b in zip(weights(rule, es, x), y)), Fr(0)))
    ensure(abs(got - float(want)) <= 1e-13 * scale + 1e-300,
           lambda: f'{rule} es={es} threads={t} parallel={par}: {got} instead of {float(want)} for y={ya} x={xa}')
    ensure(np.array_equal(ya, k[0]) and np.array_equal(xa, k[1]), 'an argument was changed')
    return round(got, 10)


def uniform(n, h, x0):
    return [x0 + i * h for i in range(n)]


def basis(case):
    """Unit vectors: the weights of the rule, one by one."""
    n, rule, t, par = case
    out = []
    for h, x0 in ((Fr(1, 8), Fr(0)), (Fr(3), Fr(-40)), (Fr(1, 1024), Fr(1))):
        x = uniform(n, h, x0)
        for i in range(n):
            out.append(check(rule, True, [Fr(int(j == i)) for j in range(n)], x, t, par))
            out.append(check(rule, False, [Fr(int(j == i)) for j in range(n)], x, t, par))
        for es in (True, False):
            out.append(check(rule, es, [Fr((3 * j) % 7 - 3, 4) for j in range(n)], x, t, par))
    return n, rule


def grids(case):
    """Any strictly increasing grid; an equally spaced request only where it is."""
    sub, rule, t, par = case
    nodes = [Fr(-3), Fr(-1), Fr(-1, 4), Fr(0), Fr(1, 8), Fr(1), Fr(5, 2), Fr(3), Fr(1000)]
    x = [nodes[i] for i in sub]
    n = len(x)
    vals = []
    for y in [[Fr(int(j == i)) for j in range(n)] for i in range(n)] + [[Fr(j * j - 3, 2) for j in range(n)],
                                                                      [Fr(-1) ** j for j in range(n)]]:
        vals.append(check(rule, False, y, x, t, par))
    d = {b - a for a, b in zip(x, x[1:])}
    if len(d) <= 1:
        vals.append(check(rule, True, [Fr(j + 1) for j in range(n)], x, t, par))
    return len(x), len(d) <= 1


def values(case):
    y, rule, es = case
    x = uniform(len(y), Fr(1, 4), Fr(-1)) if es else [Fr(i * i + i, 8) for i in range(len(y))]
    return check(rule, es, [Fr(v) for v in y], x, 2, False)


def requests():
    xs = arr(uniform(5, Fr(1, 4), Fr(0)))
    xn = np.array([0., .25, 1., 1.5, 4.])
    y = np.array([1., -2., 3., .5, 2.])
    z = np.array([2., 1., 0., -1.])
    return [('trapz', True, y, xs, 2, False), ('simpson', True, y, xs, 2, False), ('trapz', False, y, xn, 2, False),
            ('simpson', False, y, xn, 3, True), ('simpson', True, z, xs[:4].copy(), 1, False),
            ('trapz', True, z, xs[:4].copy(), 4, True), ('simpson', True, -y, xs, 4, True), ('trapz', False, z, xn[:4].copy(), 1, True)]


def history(seq):
    """The answer to a request does not depend on what was asked before."""
    r = requests()
    got = [ask(*r[i]) for i in seq]
    for i, g in zip(seq, got):
        rule, es, y, x, _, _ = r[i]
        w = weights(rule, es, [Fr(v) for v in x])
        want = float(sum(a * Fr(b) for a, b in zip(w, y)))
        ensure(close(g, want, 1e-13, 1e-15), lambda: f'history {seq}: request {i} answered {g} instead of {want}')
    return tuple(got)


BIG = (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1001, 2047, 2048, 4096, 4097, 10000, 65536, 65537)


def large(case):
    """Grids of practical and of huge sizes, at practical magnitudes."""
    n, rule, kind, t, par = case
    i = np.arange(n)
    x = {'even': lambda: i * 2. ** -10 - 3, 'tiny': lambda: i * 2. ** -60, 'huge': lambda: 2. ** 40 * i,
         'quadratic': lambda: (i * i + i) * 2. ** -12, 'clustered': lambda: np.cumsum(1. + (i % 7 == 3) * 64.) * 2. ** -8,
         'random-like': lambda: np.cumsum(1. + (i * 37) % 101) / 128.}[kind]()
    es = kind in ('even', 'tiny', 'huge')
    out = []
    for k, y in enumerate((((i * 7919) % 1009 - 500.) / 8, np.where(i >= n // 2, 1., 0.), 1e-30 * ((i * 31) % 17 - 8.),
                           (i == n - 1) * 1., (i == n - 2) * 1e12, (i % max(n // 5, 1) == 0) * 1.)):
        for e in {es, False}:
            if rule == 'simpson' and e and n % 2 == 1:
                w = np.full(n, 2.)
                w[1::2], w[0], w[-1] = 4., 1., 1.
                w *= (x[1] - x[0]) / 3
            else:
                w, d = np.zeros(n), np.diff(x)
                w[:-1] += d / 2
                w[1:] += d / 2
            got, want, scale = ask(rule, e, y, x, t, par), float((w * y).sum()), float(np.abs(w * y).sum())
            ensure(abs(got - want) <= 1e-11 * scale, lambda: f'{rule} es={e} n={n} {kind} integrand {k} threads={t} parallel={par}: '
                                                             f'{got} instead of {want}')
            out.append(round(got / scale, 8) if scale else got)
    return tuple(out)


def layout(case):
    """Strided, foreign and read-only arrays are refused or integrated correctly, never mixed up."""
    kind, rule = case
    n = 7
    y, x = np.arange(n) ** 2 / 4., np.arange(n) / 2.
    want = float(sum(a * Fr(b) for a, b in zip(weights(rule, True, [Fr(v) for v in x]), y)))
    big = np.full(2 * n, 1e6)
    args = {
        'strided-y': lambda: (put(big, y), x), 'strided-x': lambda: (y, put(big, x)),
        'reversed': lambda: (y[::-1][::-1], x), 'view': lambda: (np.concatenate([[9.], y, [9.]])[1:-1], x),
        'float32': lambda: (y.astype(np.float32), x), 'int': lambda: (y, x.astype(np.int64)),
        'column': lambda: (np.asfortranarray(np.stack([y, y + 1]).T)[:, 0], x),
        'row': lambda: (np.ascontiguousarray(np.stack([y, y + 1]).T)[:, 0], x),
    }[kind]()
    try:
        got = ask(rule, True, *args, 2, False)
    except (ValueError, TypeError):
        return 'refused'
    ensure(close(got, want, 1e-13), lambda: f'{kind}: {got} instead of {want}')
    return got


def put(big, v):
    big = big.copy()
    big[::2] = v
    return big[::2]


def run(ctx):
    build.use(ctx, ['num'])
    import num_integrator  # noqa: F401
    tp = [(1, False), (2, False), (2, True), (3, True), (4, True)]
    ctx.explore('basis', basis, [(n, r, t, p) for n in range(1, ctx.pick(42, 122)) for r in RULES for t, p in tp[:ctx.pick(3, 5)]],
                'weights of both rules on uniform grids')
    ctx.explore('grids', grids, [(s, r, t, p) for n in range(2, 9) for s in itertools.combinations(range(ctx.pick(8, 9)), n)
                                 for r in RULES for t, p in tp], 'all strictly increasing grids over a node set')
    ctx.explore('values', values, [(v, r, es) for n in range(1, ctx.pick(7, 8)) for v in itertools.product((-1, 0, 2), repeat=n)
                                   for r in RULES for es in (True, False)], 'all three-valued integrands')
    ctx.explore('history', history, list(itertools.product(range(8), repeat=ctx.pick(3, 4))), 'all request histories')
    ctx.explore('large', large, [(n, r, k, t, p) for n in BIG for r in RULES
                                 for k in ('even', 'tiny', 'huge', 'quadratic', 'clustered', 'random-like')
                                 for t, p in tp + [(8, True)]], 'practical and huge grids')
    ctx.explore('layout', layout, [(k, r) for k in ('strided-y', 'strided-x', 'reversed', 'view', 'float32', 'int', 'column', 'row')
                                   for r in RULES], 'array layouts')
