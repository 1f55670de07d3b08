"""C04 numerical derivatives."""
import itertools
from fractions import Fraction as F

import numpy as np

from mc import build
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of monotonic grids x accuracy x derivative order x unit data (which, by linearity, is all data) on the compiled Fornberg module and on the differentiator object, against exact rational derivatives',
    'note': 'Tolerance: rounding of sums of the exact weight size; grids with dyadic spacings, so that every grid value is exact.',
}
EPS = np.finfo(float).eps
_W = {}


def weights(xs, i, m):
    """Exact weights of the m-th derivative at xs[i] of the interpolating polynomial through xs (Fractions)."""
    rel = tuple(x - xs[i] for x in xs)
    key = (rel, m)
    if key in _W:
        return _W[key]
    n = len(xs)
    out = []
    for j in range(n):
        # coefficients of the Lagrange polynomial of node j in powers of (x - x_i)
        c = [F(1)]
        den = F(1)
        for k in range(n):
            if k != j:
                den *= rel[j] - rel[k]
                c = [(c[p - 1] if p else 0) - (rel[k] * c[p] if p < len(c) else 0) for p in range(len(c) + 1)]
        f = F(1)
        for p in range(1, m + 1):
            f *= p
        out.append(f * c[m] / den if m < len(c) else F(0))
    _W[key] = out
    return out


def grid(start, gaps, direction):
    x = [F(start)]
    for g in gaps:
        x.append(x[-1] + F(g) * direction)
    return x


def falling(k, m):
    r = 1
    for i in range(m):
        r *= k - i
    return r


def response(fun, n):
    """Matrix of the responses to unit data."""
    R = np.empty((n, n))
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.
        T.call()
        R[:, j] = fun(e)
    return R


def polynomial(fun, xs, deg, m, rows, R, case):
    """fun differentiates all polynomials up to degree deg exactly at the given rows."""
    n = len(xs)
    big = np.abs(R).max(axis=1)
    for k in range(deg + 1):
        # centred powers, to keep the numbers small: still all polynomials of degree k
        for c in (0, n // 2):
            vals = [(x - xs[c]) ** k for x in xs]
            want = [float(falling(k, m) * (x - xs[c]) ** (k - m)) if k >= m else 0. for x in xs]
            got = fun(np.array([float(v) for v in vals]))
            vmax = max(abs(float(v)) for v in vals)
            for i in rows:
                tol = 200 * n * EPS * (big[i] * vmax + abs(want[i]))
                ensure(abs(got[i] - want[i]) <= tol, lambda: f'{case}: derivative {m} of (x-{xs[c]})^{k} at point {i}: {got[i]}, exact {want[i]}')


def native(case):
    """One grid and accuracy: all derivative orders, unit data and polynomials."""
    from myfnd import fnd
    start, gaps, direction, acc, orders = case
    xs = grid(start, gaps, direction)
    n = len(xs)
    x = np.array([float(v) for v in xs])
    for m in orders:
        keep = x.copy()

        def fun(y):
            d = np.full(n, 777.)
            y0 = y.copy()
            fnd.fornberg_grid_derivative(m, acc, x, y, d)
            ensure(np.array_equal(y, y0), lambda: f'{case}: input data altered')
            return d
        R = response(fun, n)
        ensure(np.array_equal(x, keep), lambda: f'{case}: grid altered')
        ensure(np.all(np.isfinite(R)), lambda: f'{case}: order {m}: not finite: {R}')
        for i in range(n):
            nz = np.flatnonzero(R[i])
            lo, hi = (nz[0], nz[-1]) if len(nz) else (i, i)
            lo, hi = min(lo, i), max(hi, i)
            ensure(hi - lo <= acc, lambda: f'{case}: point {i} uses points {lo}..{hi}, more than accuracy {acc} allows')
            ok = False
            for a in range(max(0, hi - acc), min(lo, n - 1 - acc) + 1):
                w = np.array([float(q) for q in weights(xs[a:a + acc + 1], i - a, m)])
                full = np.zeros(n)
                full[a:a + acc + 1] = w
                if np.all(np.abs(R[i] - full) <= 500 * acc * EPS * (np.abs(w).max() + 0.)):
                    ok = True
                    break
            ensure(ok, lambda: f'{case}: order {m}: weights at point {i} are {R[i]}, not those of any {acc + 1}-point polynomial')
        polynomial(fun, xs, acc, m, range(n), R, (case, 'order', m))
        v = np.array([((3 * j * j + 1) % 7) - 3. for j in range(n)])
        got = fun(v)
        want = R @ v
        ensure(np.allclose(got, want, rtol=1e-11, atol=1e-12 * np.abs(R).max()), lambda: f'{case}: order {m}: not linear: {got} vs {want}')
    return acc, n


def forms(case):
    """Storage of the inputs (strides, byte order of numbers, read-only, other number types) does not matter."""
    from num_deriv import NumericalDifferentiator
    method, kw, form, n, interp = case
    x = np.cumsum(1. + (np.arange(n) % 3)) - 4.
    y = ((np.arange(n) * 5) % 7) * 1. - 2.
    mk = {'plain': lambda a: a.copy(), 'strided': lambda a: np.repeat(a, 3)[::3], 'reversed': lambda a: a[::-1].copy()[::-1], 'column': lambda a: np.stack([a, a * 0 + 9], 1)[:, 0],
          'readonly': lambda a: (lambda b: (b.setflags(write=False), b)[1])(a.copy()), 'int': lambda a: a.astype(int), 'float32': lambda a: a.astype(np.float32),
          'fortran': lambda a: np.asfortranarray(a), 'field': lambda a: np.array(list(zip(a, a)), dtype=[('p', float), ('q', float)])['q']}[form]
    order = 2 if method == 'fornberg' else 1

    def go(a, b):
        T.call()
        d = NumericalDifferentiator(order_derivative=order, differentiation_method=method, perform_interpolation=interp, interpolation_factor=4)
        return d.differentiate(a, b, **kw)[0]
    ref = go(x, y)
    for fx, fy in itertools.product((False, True), repeat=2):
        a, b = (mk(x) if fx else x.copy()), (mk(y) if fy else y.copy())
        a0, b0 = a.copy(), b.copy()
        out = go(a, b)
        ensure(np.array_equal(a, a0) and np.array_equal(b, b0), lambda: f'{case}: input altered')
        for m in range(order + 1):
            ensure(np.allclose(out[m], ref[m], rtol=1e-5 if form == 'float32' else 1e-12, atol=1e-5 if form == 'float32' else 1e-12),
                   lambda: f'{case}: order {m}: {out[m]} instead of {ref[m]}')


KW = {'gradient': [{}, {'edge_order': 1}, {'edge_order': 2}],
      'fornberg': [{}, {'interpolation_order': 1}, {'interpolation_order': 2}, {'interpolation_order': 3}, {'interpolation_order': 4},
                   {'interpolation_order': 5}, {'interpolation_order': 6, 'original_formulation': False}],
      'stencil_functions': [{}, {'my_order': 1, 'my_differencing_type': 'center'}, {'my_order': 2, 'my_differencing_type': 'center'},
                            {'my_order': 1, 'my_differencing_type': 'forward'}, {'my_order': 1, 'my_differencing_type': 'backward'}]}


def obj(case):
    """The differentiator: every order it reports, all unit data, against the exact stencil."""
    from num_deriv import NumericalDifferentiator
    method, kw, start, gaps, direction, top, full = case
    xs = grid(start, gaps, direction)
    n = len(xs)
    x = np.array([float(v) for v in xs])
    acc = kw.get('interpolation_order', 4)

    def all_(y):
        T.call()
        d = NumericalDifferentiator(order_derivative=top, differentiation_method=method)
        out = d.differentiate(x, y, **kw)
        ensure(len(out[0]) == top + 1, lambda: f'{case}: {len(out[0])} derivatives for order {top}')
        ensure(np.array_equal(out[0][0], y), lambda: f'{case}: zeroth derivative {out[0][0]} is not the data')
        return out[0]
    offered = [m for m in range(1, top + 1) if method == 'fornberg' or m == 1]
    probe = all_(np.ones(n))
    for m in range(1, top + 1):
        ensure((probe[m] is None) == (m not in offered), lambda: f'{case}: order {m} is {probe[m]!r}')
    for m in offered:
        fun = lambda y: np.asarray(all_(y)[m])
        ensure(np.shape(probe[m]) == (n,), lambda: f'{case}: shape {np.shape(probe[m])}')
        R = None if method == 'stencil_functions' and not full else response(fun, n)
        if method == 'fornberg':
            polynomial(fun, xs, acc, m, range(n), R, (case, 'order', m))
            continue
        want = np.zeros((n, n))
        if method == 'gradient':
            e = kw.get('edge_order', 2)
            for i in range(n):
                a, b = (i - 1, i + 2) if 0 < i < n - 1 else ((0, e + 1) if i == 0 else (n - e - 1, n))
                want[i, a:b] = [float(q) for q in weights(xs[a:b], i - a, 1)]
        else:
            o, t = kw.get('my_order', 1), kw.get('my_differencing_type', 'center')
            uniform = len(set(gaps)) == 1
            for i in range(n):
                if t == 'forward' and i < n - 1:
                    want[i, i:i + 2] = [float(q) for q in weights(xs[i:i + 2], 0, 1)]
                elif t == 'backward' and i > 0:
                    want[i, i - 1:i + 1] = [float(q) for q in weights(xs[i - 1:i + 1], 1, 1)]
                elif t == 'center' and o == 1 and 0 < i < n - 1:
                    want[i, i + 1] = float(1 / (xs[i + 1] - xs[i - 1]))
                    want[i, i - 1] = -want[i, i + 1]
                elif t == 'center' and o == 2 and 2 <= i < n - 2:
                    h = xs[i + 1] - xs[i]
                    want[i, i - 2:i + 3] = [float(F(q, 12) / h) for q in (1, -8, 0, 8, -1)]
                    if uniform:
                        w = np.array([float(q) for q in weights(xs[i - 2:i + 3], 2, 1)])
                        ensure(np.allclose(w, want[i, i - 2:i + 3]), lambda: f'{case}: oracle')
        if R is None:       # every call of a stencil compiles it anew: one call with incommensurable data
            v = np.array([np.sqrt(p) for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31)][:n])
            got = fun(v)
            ensure(np.allclose(got, want @ v, rtol=1e-12, atol=1e-12), lambda: f'{case}: {got} instead of {want @ v}')
            continue
        ensure(np.allclose(R, want, rtol=1e-12, atol=1e-13 * np.abs(want).max()), lambda: f'{case}: responses\n{R}\ninstead of\n{want}')
        v = np.array([((3 * j * j + 1) % 7) - 3. for j in range(n)])
        ensure(np.allclose(fun(v), R @ v, rtol=1e-11, atol=1e-12 * np.abs(R).max()), lambda: f'{case}: not linear')
    return len(offered)


def interpolated(case):
    """Internal linear interpolation: derivative of the broken line, reported at the input points in their order."""
    from num_deriv import NumericalDifferentiator
    method, kw, start, gaps, direction, factor = case
    xs = grid(start, gaps, direction)
    n = len(xs)
    x = np.array([float(v) for v in xs])
    top = 2 if method == 'fornberg' else 1

    def all_(y):
        T.call()
        return NumericalDifferentiator(order_derivative=top, differentiation_method=method, perform_interpolation=True,
                                       interpolation_factor=factor).differentiate(x, y, **kw)[0]
    data = [np.array([float(v) for v in xs]), np.ones(n), 3. - 2. * x, np.array([((5 * j * j + 2) % 7) - 3. for j in range(n)])] + list(np.eye(n))
    for k, y in enumerate(data):
        if method == 'stencil_functions' and k not in (2, 3):
            continue
        out = all_(y.copy())
        for m in range(top + 1):
            ensure(np.shape(out[m]) == (n,), lambda: f'{case}: order {m} has shape {np.shape(out[m])} for {n} points')
        ensure(np.allclose(out[0], y, rtol=1e-13, atol=1e-13), lambda: f'{case}: zeroth derivative {out[0]} for data {y}')
        slope = np.diff(y) / np.diff(x)
        left, right = np.r_[slope[0], slope], np.r_[slope, slope[-1]]
        if k < 3:
            ensure(np.allclose(out[1], left, rtol=1e-10, atol=1e-10) if method != 'stencil_functions' else np.allclose(out[1][1:-1], left[1:-1], rtol=1e-10, atol=1e-10),
                   lambda: f'{case}: derivative of a straight line {out[1]}, slope {left}')
            if top == 2:
                ensure(np.allclose(out[2], 0, atol=1e-7 * max(1, np.abs(y).max()) * factor ** 2), lambda: f'{case}: second derivative of a line {out[2]}')
        if method == 'gradient' and factor >= 2:
            dl, dr = np.diff(x), np.diff(x)
            h = np.diff(x)
            want = np.r_[slope[0], (h[1:] * slope[:-1] + h[:-1] * slope[1:]) / (h[1:] + h[:-1]), slope[-1]]
            edge = kw.get('edge_order', 2) == 1 or factor >= 2
            rows = slice(None) if edge else slice(1, -1)
            ensure(np.allclose(out[1][rows], want[rows], rtol=1e-9, atol=1e-9), lambda: f'{case}: data {y}: {out[1]}, expected {want}')


def refused(case):
    """Requests outside what the scheme offers are refused, not answered with numbers."""
    from num_deriv import NumericalDifferentiator
    method, kw, n = case
    x = np.arange(1., n + 1)
    T.call()
    try:
        out = NumericalDifferentiator(order_derivative=1, differentiation_method=method).differentiate(x, x ** 2, **kw)
    except (SystemExit, ValueError, TypeError, IndexError, KeyError):
        return 'refused'
    ensure(False, lambda: f'{case}: answered {out[0]}')


def gapsets(vals, lengths, budget=None):
    for k in lengths:
        yield from itertools.product(vals, repeat=k)


def run(ctx):
    build.use(ctx, ['fnd'])
    try:
        from num_deriv.stencils import StencilFunctions  # noqa: F401
        from num_deriv import NumericalDifferentiator
        z = np.arange(8.)
        for kw in KW['stencil_functions']:      # compile once, before the workers are forked
            NumericalDifferentiator(order_derivative=1, differentiation_method='stencil_functions').differentiate(z, z, **kw)
        methods = list(KW)
    except ImportError:
        methods = ['gradient', 'fornberg']
    q = not ctx.thorough
    vals = ['1/4', '1', '3']
    nat = []
    for acc in range(1, ctx.pick(7, 10)):
        for extra in range(0, 4):
            k = acc + extra
            space = list(gapsets(vals if k <= ctx.pick(5, 6) else ['1/2', '2'] if k <= ctx.pick(8, 10) else ['1'], [k]))
            if len(space) > ctx.pick(300, 1500):
                step = [g for g in space if sum(a != b for a, b in zip(g, g[1:])) <= ctx.pick(2, 3)]
                space = step
            for g in space:
                for start, d in (('0', 1), ('-2', 1), ('5', -1)) if k <= 4 else ((('-2', 1), ('5', -1)) if k <= 6 else (('-2', 1),)):
                    nat.append((start, g, d, acc, tuple(range(0, min(acc + 2, 5 if q else 8)))))
    ctx.explore('native.weights', native, nat, 'grids x accuracy; all orders and unit data', limit=120)
    hi = [('0', ('1',) * (acc + e), d, acc, (1, 2)) for acc in range(7, 21) for e in (0, 1, 5) for d in (1, -1)]
    ctx.explore('native.high', native, hi, 'high accuracies on equidistant grids', limit=120)
    objs = []
    for mth in methods:
        for kw in KW[mth]:
            need = kw.get('interpolation_order', 4) if mth == 'fornberg' else 4
            for k in ctx.pick((need, need + 1), (need, need + 1, need + 2, need + 3)):
                sp = list(gapsets(vals if k <= ctx.pick(4, 5) else ['1/2', '2'], [k]))
                for g in sp:
                    for start, d in (('-2', 1), ('5', -1)):
                        for top in (0, 1, 2) if mth != 'fornberg' else (0, 1, 2, 3):
                            if mth == 'stencil_functions' and (k > 4 or top == 2 or q and len(set(g)) > 1 and (start == '5' or g[0] != '1' or g[-1] == '1/4')):
                                continue
                            if top in (1, 2) or len(set(g)) == 1:
                                objs.append((mth, kw, start, g, d, top, len(set(g)) == 1 and top == 1))
    ctx.explore('object', obj, objs, 'methods x options x grids', chunk=8)
    tiny = []
    for e in ctx.pick((-120, -40, -34, -20, 20, 60), (-200, -120, -60, -40, -34, -27, -20, -10, 10, 20, 40, 60, 120)):
        sc = F(2) ** e
        for mth in methods:
            if mth == 'stencil_functions':
                continue
            for kw in KW[mth]:
                k = max(kw.get('interpolation_order', 4) if mth == 'fornberg' else 4, 3)
                for g in gapsets(vals if k <= 4 else ['1/2', '2'], [k]):
                    for start, d in (('0', 1), ('5', -1)):
                        tiny.append((mth, kw, str(F(start) * sc), tuple(str(F(q) * sc) for q in g), d, 1, False))
    ctx.explore('scales', obj, tiny, 'methods x options x grids in other units of length', chunk=8)
    itp = []
    for mth in methods:
        for kw in KW[mth]:
            if mth == 'stencil_functions' and kw.get('my_order') == 2:
                continue
            if mth == 'stencil_functions' and len(kw) and kw['my_differencing_type'] == 'center':
                continue
            for k in range(1, ctx.pick(5, 6)):
                for g in gapsets(vals, [k]):
                    if mth != 'gradient' and len(set(g)) > 1 and mth == 'fornberg' and k > 3:
                        continue
                    for f in (2, 3, 4, 10):
                        if mth == 'stencil_functions' and (k not in (2, 3) or f != k or g[0] == '3' or g[-1] == '1'):
                            continue
                        if mth == 'fornberg' and (k * f < kw.get('interpolation_order', 4) + 1):
                            continue
                        for start, d in (('-2', 1), ('5', -1)):
                            itp.append((mth, kw, start, g, d, f))
    ctx.explore('interpolated', interpolated, itp, 'refined grids reported at the input points', chunk=8)
    fm = ['plain', 'strided', 'reversed', 'column', 'readonly', 'int', 'float32', 'fortran', 'field']
    ctx.explore('forms', forms, [(m, kw, f, n, i) for m in methods for kw in KW[m] for f in fm for n in (7, 8, 12) for i in (False, True)
                                      if m != 'stencil_functions' or (n == 7 and not i)], chunk=4)
    bad = [('fornberg', {'interpolation_order': a}, n) for a in range(1, 8) for n in range(1, a + 1)]
    bad += [('stencil_functions', {'my_order': 2, 'my_differencing_type': t}, 9) for t in ('forward', 'backward')] if 'stencil_functions' in methods else []
    bad += [('stencil_functions', {'my_order': 3}, 9)] if 'stencil_functions' in methods else []
    bad += [('gradient', {'edge_order': 2}, n) for n in (1, 2)] + [('gradient', {'edge_order': 1}, 1)]
    bad += [('spline', {}, 9), ('fornberg', {'original_formulation': True}, 9)]
    ctx.explore('refused', refused, bad)
