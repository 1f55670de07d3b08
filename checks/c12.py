"""C12 Angular coupling integrals obey the azimuthal selection rule and quadrature."""
import itertools
import math

import numpy as np

from mc import aes
from mc.core import Fail, T, close, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of azimuthal orders, conjugation requests, function lists, grids and quadrature '
                 'options on the real angular integrator against a reference quadrature',
    'note': 'All azimuthal-order triples in -3..3 (-5..5) with every conjugation spelling, all function lists of up to 4 (5) entries '
            'over 3 functions, uniform, Chebyshev and irregular grids of up to 9 (13) points, all factor and method options, blow-up '
            'protection around its threshold, and all ordered triples of real Hough functions of degree up to 2 (3).',
}
SPELL = ([None, False, True] + [tuple(b) for b in itertools.product((False, True), repeat=3)]
         + [list(b) for b in itertools.product((False, True), repeat=3)])
NAMES = ('hr_mode_1', 'ht_mode_2', 'hp_mode_3')


def HI():
    from aesolver.angular_integration import HI as C
    return C


def ask(*a, **k):
    T.call()
    return HI().quadratic_angular_integral(*a, **k)


def grid(kind, n):
    if kind == 'uniform':
        return np.linspace(-.9, .9, n)
    if kind == 'offset':
        return np.linspace(-.25, .75, n)
    if kind == 'cheby':
        return -np.cos(np.pi * (np.arange(n) + .5) / n)
    if kind == 'cluster':                 # first two steps equal, the later ones not
        return np.concatenate([[-.9, -.85, -.8], np.linspace(-.7, .9, n - 3)]) if n > 3 else np.linspace(-.9, .9, n)
    x = np.array([-.95 + 1.9 * ((i * i + 2 * i) / ((n - 1) * (n + 1.))) for i in range(n)])
    return x


def table(k, n):
    """Three distinguishable functions without symmetries."""
    i = np.arange(n)
    return [1. + .5 * ((3 * i + 1) % 5), -2. + ((i * i + 2) % 7), .25 * ((5 * i + k) % 11) - 1.][k]


def holder(kind, n):
    b = aes.Bag(_mu_values=grid(kind, n))
    for k, s in enumerate(NAMES):
        setattr(b, s, table(k, n))
    return b


def rule(method, x, y):
    """Composite rule of the documented kind."""
    d = np.diff(x)
    if method == 'simpson' and len(x) % 2 == 1 and np.allclose(d, d[0], rtol=1e-6, atol=0.):
        return d[0] / 3. * (y[0] + y[-1] + 4. * y[1:-1:2].sum() + 2. * y[2:-1:2].sum())
    return float((.5 * (y[1:] + y[:-1]) * d).sum())


def gauss(x, y, order):
    """Chebyshev-Gauss rule of linearly interpolated values; None if its nodes leave the grid."""
    nodes = np.cos(np.pi * (2. * np.arange(1, order + 1) - 1.) / (2. * order))
    if nodes.max() > x.max() or nodes.min() < x.min():
        return None
    return float(np.interp(nodes, x, y).sum() * np.pi / order)


def flags(conj):
    if conj is None:
        return False, False, False
    if isinstance(conj, bool):
        return conj, False, False
    return tuple(conj)


def selection(case):
    """Zero exactly when the signed azimuthal orders do not cancel."""
    ms = case
    out = []
    for kind, n in (('uniform', 5), ('cheby', 4)):
        b = holder(kind, n)
        full = 2. * math.pi * rule('trapz', b._mu_values, b.hr_mode_1 * b.ht_mode_2 * b.hp_mode_3)
        for conj in SPELL:
            s = sum(-m if f else m for m, f in zip(ms, flags(conj)))
            given = list(ms)
            got = ask(b, list(NAMES), m_list_for_azimuthal_check=given, conj=conj)
            ensure(given == list(ms), 'the list of azimuthal orders was changed')
            if s:
                ensure(got == 0., lambda: f'm={ms} conj={conj}: {got} although the orders add up to {s}')
            else:
                ensure(close(got, full, 1e-12), lambda: f'm={ms} conj={conj}: {got} instead of {full}')
            out.append(bool(s))
            got = ask(b, list(NAMES), m_list_for_azimuthal_check=list(ms), conj=conj, only_theta=True)
            ensure(close(got, full, 1e-12), lambda: f'm={ms} conj={conj} only_theta: {got} instead of {full}')
            got = ask(b, list(NAMES), conj=conj)
            ensure(close(got, full, 1e-12), lambda: f'conj={conj} without azimuthal orders: {got} instead of {full}')
    return out


def permuted(case):
    """Modes listed in another order, with their orders and flags, give the same value."""
    ms, fl = case
    out = []
    for kind, n in (('uniform', 5), ('cheby', 6), ('irregular', 4)):
        b = holder(kind, n)
        vals = []
        for p in itertools.permutations(range(3)):
            for sp in (tuple, list):
                vals.append(ask(b, [NAMES[i] for i in p], m_list_for_azimuthal_check=[ms[i] for i in p],
                                conj=sp(fl[i] for i in p)))
        ensure(all(close(v, vals[0], 1e-12) for v in vals), lambda: f'm={ms} conj={fl}: values of the permutations {vals}')
        out.append(rnd(vals[0], 7))
    return out


def functions(case):
    """Every list of functions, factor and rule."""
    kind, n, names, div, mul, method, par, thr = case
    b = holder(kind, n)
    keep = {s: getattr(b, s).copy() for s in NAMES}
    mu = b._mu_values.copy()
    y = np.prod([keep[s] for s in names], axis=0)
    if mul:
        y = y * mu
    if div:
        y = y / np.sqrt(1. - mu ** 2)
    want = 2. * math.pi * rule(method, mu, y)
    got = ask(b, list(names), div_by_sin=div, mul_with_mu=mul, num_integ_method=method, use_parallel=par, nr_omp_threads=thr)
    scale = float(np.abs(y).sum())
    ensure(abs(got - want) <= 1e-11 * scale + 1e-13, lambda: f'{case}: {got} instead of {want}')
    for s in NAMES:
        ensure(np.array_equal(keep[s], getattr(b, s)), f'{case}: the function {s} was changed')
    ensure(np.array_equal(mu, b._mu_values), 'the grid was changed')
    return rnd(got, 8)


def scaled(case):
    """Grids of the size used in practice; functions, orders and flags of any magnitude and number type."""
    kind, n, size, ms, wrap = case
    m = np.array(ms) if wrap == 'array' else [np.int32(v) for v in ms] if wrap == 'numpy' else list(ms)
    b = aes.Bag(_mu_values=grid(kind, n))
    for s, f, q in zip(NAMES, (0, 1, 2), size):
        setattr(b, s, q * table(f, n))
    out = []
    for div, mul, meth in itertools.product((False, True), (False, True), ('trapz', 'simpson')):
        y = b.hr_mode_1 * b.ht_mode_2 * b.hp_mode_3
        y = y * (b._mu_values if mul else 1.) / (np.sqrt(1. - b._mu_values ** 2) if div else 1.)
        want = 2. * math.pi * rule(meth, b._mu_values, y)
        for conj in ((False, False, False), (False, True, True)):
            s = sum(-v if f else v for v, f in zip(ms, conj))
            got = ask(b, list(NAMES), m_list_for_azimuthal_check=m, conj=conj, div_by_sin=div, mul_with_mu=mul, num_integ_method=meth)
            ensure(got == 0. if s else abs(got - want) <= 1e-12 * float(np.abs(y).sum()),
                   lambda: f'{case} conj={conj} {div, mul, meth}: {got} instead of {0. if s else want}')
            out.append(bool(s))
    return out


def wide(kind, n):
    """Grids that reach the poles, so that all Chebyshev-Gauss nodes can be interpolated."""
    if kind == 'closed':
        return np.linspace(-1. + 1e-9, 1. - 1e-9, n)
    if kind == 'fine':
        return -np.cos(np.pi * (np.arange(4 * n) + .5) / (4 * n))
    return grid(kind, n)


def cheby(case):
    """Chebyshev-Gauss rule on request."""
    kind, n, names, div, mul, mult = case
    x = wide(kind, n)
    b = aes.Bag(_mu_values=x, **{s: table(k, len(x)) for k, s in enumerate(NAMES)})
    y = np.prod([table(NAMES.index(s), len(x)) for s in names], axis=0)
    if mul:
        y = y * x
    g = y if div else y * np.sqrt(1. - x ** 2)
    want = gauss(x, g, mult * len(x))
    try:
        got = ask(b, list(names), div_by_sin=div, mul_with_mu=mul, use_cheby_integration=True, cheby_order_multiplier=mult)
    except SystemExit:
        if want is None:
            return 'refused'
        # nodes that touch the ends of the grid may be judged outside by rounding
        nodes = np.cos(np.pi * .5 / (mult * len(x)))
        if abs(nodes - x.max()) < 1e-12:
            return 'refused'
        raise Fail(f'{case}: refused although all nodes lie on the grid')
    if want is None:
        nodes = np.cos(np.pi * .5 / (mult * len(x)))
        ensure(abs(nodes - x.max()) < 1e-12, lambda: f'{case}: {got} although nodes lie outside the grid')
        return 'edge'
    scale = float(np.abs(g).sum())
    ensure(abs(got - 2. * math.pi * want) <= 1e-11 * scale + 1e-13, lambda: f'{case}: {got} instead of {2 * math.pi * want}')
    return rnd(got, 8)


def blowup(case):
    """Blow-up protection: by magnitude, same for both signs, at the given factor."""
    kind, n, sign, div, level, method = case
    x = wide(kind, n)
    y0 = table(0, len(x)) + .3
    b = aes.Bag(_mu_values=x, f=sign * y0)
    w = y0 / np.sqrt(1. - x ** 2) if div else y0
    regular = rule(method, x, w)
    ch = gauss(x, y0 if div else y0 * np.sqrt(1. - x ** 2), 4 * len(x))
    factor = abs(regular) * level
    got = ask(b, ['f'], div_by_sin=div, num_integ_method=method, cheby_blow_up_protection=True, cheby_blow_up_factor=factor)
    want = ch if (level < 1. and ch is not None) else regular
    ensure(close(got, sign * 2. * math.pi * want, 1e-11), lambda: f'{case}: {got} instead of {sign * 2 * math.pi * want} '
           f'(regular {2 * math.pi * regular}, Chebyshev {ch})')
    return level < 1., ch is None


# ------------------------------------------------------------------ real Hough functions
NPTS = 120


def houghs(nu, l, m, defn='lee_saio_equivalent', _c={}):
    key = nu, l, m, defn
    if key not in _c:
        from aesolver.angular_integration import HFHandler as H
        T.call()
        _c[key] = H.get_relevant_hough_output(nu=nu, l=l, m=m, npts=NPTS, lmbd=None, definition=defn)
    return _c[key]


def fejer(n):
    """Weights of the interpolatory rule on the Chebyshev points cos((k+1/2)pi/n)."""
    th = np.pi * (np.arange(n) + .5) / n
    w = np.ones(n)
    for j in range(1, n // 2 + 1):
        w -= 2. * np.cos(2. * j * th) / (4. * j * j - 1.)
    return 2. * w / n


def real(case):
    """Integrals of products of Hough functions of three modes, for every order of the modes."""
    modes, nus, kinds, mul = case
    mu = None
    arrs, par = [], 0
    for (l, m), nu, kd in zip(modes, nus, kinds):
        d, x, _ = houghs(nu, l, m)
        ensure(mu is None or np.array_equal(mu, x), 'Hough functions of the modes live on different grids')
        mu = x
        arrs.append(np.asarray(d[kd], dtype=float))
        par += (l - abs(m)) + (kd in ('ht', 'theta_der_hr', 'theta_der_hp'))
    par += mul
    b = aes.Bag(_mu_values=mu, a=arrs[0], b=arrs[1], c=arrs[2])
    y = arrs[0] * arrs[1] * arrs[2] * (mu if mul else 1.)
    exact = 2. * math.pi * float((y[np.argsort(mu)] * fejer(len(mu))).sum())
    size = 4. * math.pi * max(float(np.abs(y).max()), 1e-3)
    ms = [m for _, m in modes]
    out = []
    for flag in itertools.product((False, True), repeat=3):
        s = sum(-m if f else m for m, f in zip(ms, flag))
        vals = []
        for p in itertools.permutations(range(3)):
            vals.append(ask(b, ['abc'[i] for i in p], m_list_for_azimuthal_check=[ms[i] for i in p],
                            conj=tuple(flag[i] for i in p), mul_with_mu=mul))
        if s:
            ensure(all(v == 0. for v in vals), lambda: f'{case} conj={flag}: {vals} although the orders add up to {s}')
            continue
        ensure(all(abs(v - vals[0]) <= 1e-12 * size for v in vals), lambda: f'{case} conj={flag}: {vals} for the orders of the modes')
        ensure(abs(vals[0] - exact) <= 6e-3 * size, lambda: f'{case}: {vals[0]} instead of {exact} (scale {size})')
        if par % 2:
            ensure(abs(vals[0]) <= 1e-9 * size, lambda: f'{case}: {vals[0]} for a product odd about the equator')
        out.append(f'{vals[0] / size:.4f}')
    return out


def run(ctx):
    aes.use(ctx)
    M = ctx.pick(3, 5)
    ctx.explore('selection', selection, list(itertools.product(range(-M, M + 1), repeat=3)),
                'all azimuthal-order triples x every spelling of the conjugation request x azimuthal check on/off')
    trip = [t for t in itertools.product(range(-2, 3), repeat=3)]
    ctx.explore('permuted', permuted, list(itertools.product(trip, itertools.product((False, True), repeat=3))),
                'all orders of three distinguishable functions with their azimuthal orders and flags')
    L = ctx.pick(3, 5)
    lists = [t for k in range(1, L + 1) for t in itertools.product(NAMES, repeat=k)]
    cases = []
    for kind in ('uniform', 'offset', 'cheby', 'cluster', 'irregular'):
        for n in ctx.pick((2, 3, 4, 5, 6, 7, 8, 9), range(2, 14)):
            for names in (lists if n in (4, 5) else [(NAMES[0],), NAMES, NAMES[::-1], NAMES + NAMES[:1]]):
                for div, mul, meth in itertools.product((False, True), (False, True), ('trapz', 'simpson')):
                    for par, thr in ((False, 4), (True, 1), (True, 2), (True, 4)):
                        if par and n > 6 and len(names) != 3:
                            continue
                        cases.append((kind, n, names, div, mul, meth, par, thr))
    ctx.explore('functions', functions, cases, 'lists of functions x factors x rules x grids x threads')
    sizes = [(1., 1., 1.), (1e-9, 1., 1.), (1e-9, 1e-7, 1e-8), (1e9, 1e7, 1e8), (1e-30, 1e-30, 1e30)]
    orders = [(0, 0, 0), (3, -1, -2), (3, 1, 2), (17, -8, -9), (17, 8, 9), (300, -128, -172), (128, 128, 256), (1, 0, 0)]
    ctx.explore('scaled', scaled, list(itertools.product(('uniform', 'offset', 'cheby', 'cluster', 'irregular'), ctx.pick((50, 51, 200, 201), (33, 50, 51, 64, 65, 100, 129, 200, 201, 400, 401)),
                                                         sizes, orders, ('list', 'numpy', 'array'))),
                'grids of practical size x magnitudes of the functions x large azimuthal orders of every number type')
    ctx.explore('cheby', cheby, list(itertools.product(('closed', 'cheby', 'fine', 'uniform'), ctx.pick((3, 4, 5, 8), range(2, 13)),
                                                       [(NAMES[0],), (NAMES[1], NAMES[2]), NAMES], (False, True), (False, True),
                                                       (1, 2, 3, 4))), 'Chebyshev-Gauss rule on request')
    ctx.explore('blowup', blowup, list(itertools.product(('closed', 'cheby', 'fine', 'uniform', 'irregular'),
                                                         ctx.pick((4, 5, 8), range(3, 13)), (1., -1.), (False, True),
                                                         (.5, .99, 1.01, 2.), ('trapz', 'simpson'))),
                'both signs of the integral, thresholds on either side')
    lm = [(l, m) for l in range(1, ctx.pick(2, 3) + 1) for m in range(-l, l + 1)]
    nu = [(.2, .2, .2), (0., 1.5, -1.5)] if not ctx.thorough else [(0., 0., 0.), (.2, .2, .2), (0., 1.5, -1.5), (3., 2.5, .5)]
    kinds = [('hr', 'hr', 'hr'), ('hr', 'ht', 'ht'), ('hp', 'hr', 'hp'), ('ht', 'hp', 'theta_der_hr')]
    if not ctx.thorough:
        kinds = kinds[:3]
    cases = []
    for modes in itertools.product(lm, repeat=3):
        if not any(sum(s * m for s, (_, m) in zip(sg, modes)) == 0 for sg in itertools.product((1, -1), repeat=3)):
            continue
        for k in kinds:
            cases.append((modes, nu[(len(cases) // 2) % len(nu)] if not ctx.thorough else nu[0], k, bool(len(cases) % 2)))
            if ctx.thorough:
                for q in nu[1:]:
                    cases.append((modes, q, k, bool(len(cases) % 2)))
    ctx.explore('real', real, cases, 'real Hough functions of all mode triples of small degree, all orders and conjugations', chunk=200)
    ctx.assumptions.append('the quadrature is the documented one (trapezoid, Simpson or Chebyshev-Gauss); its error against the exact '
                           'integral is bounded by 0.6% of the largest integrand value for 120 points')
