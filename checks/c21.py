"""C21 the jackknife bin selection maximises the documented likelihood."""
import contextlib
import io
import itertools
import math

import numpy as np

from mc import histref as hr
from mc.core import T, ensure
from mc.histref import KINDS, NAN

META = {
    'technique': 'bounded exhaustive enumeration of data vectors and parameter grids on every real backend, against the likelihood of every combination evaluated independently',
    'note': 'The returned combination must attain the largest reference likelihood; ties are free.',
}


def shifted(valued, n, phase):
    """Counts in n bins whose lower limits lie phase * width below those of the equal-width histogram."""
    lo, hi = hr.Fr(min(valued)), hr.Fr(max(valued))
    w = (hi - lo) / n
    c = [0] * n
    for x in valued:
        c[min(int((hr.Fr(x) - lo) / w + hr.Fr(phase)), n - 1)] += 1
    return c


def reference(vec, alphas, bins, phs, log):
    """{(alpha, bins, phase): (likelihood, counts, edges)}, or None if a datum lies on an edge up to rounding."""
    valued = [x for x in vec if not math.isnan(x)]
    out = {}
    for n in bins:
        opts, edges = (hr.exact_log if log else hr.exact_lin)(valued, n)
        if any(len(o) != 1 for o in opts) and n > 1:
            return None
        for p in phs:
            if p and any(((hr.Fr(x) - hr.Fr(min(valued))) / (hr.Fr(max(valued)) - hr.Fr(min(valued))) * n + hr.Fr(p)).denominator == 1 for x in valued) \
                    and n & (n - 1):
                return None
            c = shifted(valued, n, p) if p else [sum(o[0] == i for o in opts) for i in range(n)]
            w = np.diff(edges)
            for a in alphas:
                out[a, n, p] = hr.L(c, w, a), c, edges
    return out


def select(case):
    vec, alphas, bins, phs, log, backends = case
    valued = [x for x in vec if not math.isnan(x)]
    ref = reference(vec, alphas, bins, phs, log)
    if ref is None:
        return 'a datum on an edge'
    best = max(r[0] for r in ref.values())
    tol = 1e-9 * (1. + abs(best))
    top = [k for k, r in ref.items() if r[0] >= best - tol]
    for name in backends:
        fn, kw = hr.likelihood(name, log)
        a, b = np.array(alphas), np.array(bins)
        if len(bins) % 2:
            a, b = list(alphas), list(bins)
        kw = dict(kw, my_alpha_parameters=a, my_bin_numbers=b)
        if name in hr.PHASED and not (log and name != 'blas') and phs != (0.,):
            kw['my_bin_phases'] = np.array(phs)
        full = len(bins) == 4 and len(alphas) == 3
        for kind, flags in KINDS.items():
            if kind not in ('prob',) and not full:
                continue
            hist, edges, width, par = hr.run_on(fn, vec, return_binning_parameters=True, **flags, **kw)
            what = f'{name} {kind}'
            got = (par['binning alpha'], par['nr of bins'], par['binning phase'])
            ensure(got in ref, f'{what}: the combination {got} was not asked for')
            lik, counts, e = ref[got]
            ensure(got in top, f'{what}: {got} with likelihood {lik:.9g} was selected, {top} attain {best:.9g}')
            ensure(len(edges) == got[1] + 1 and np.allclose(edges, e, rtol=1e-10, atol=1e-12), f'{what}: edges {edges} do not belong to {got}')
            w = np.diff(edges)
            ensure(np.allclose(np.broadcast_to(width, w.shape), w, rtol=1e-9), f'{what}: widths {width} do not belong to {got}')
            c = hr.counts_of(hist, kind, len(valued), np.broadcast_to(width, np.shape(hist)))
            c += [0] * (got[1] - len(c))
            ensure(c == counts, f'{what}: counts {c} do not belong to {got}: {counts}')
            if not full:
                continue
            h2, e2, w2, p2 = hr.run_on(fn, vec, **flags, **kw)
            ensure(p2 is None and np.array_equal(h2, hist) and np.array_equal(e2, edges) and np.array_equal(w2, width),
                   f'{what}: another histogram if the binning parameters are not asked for')
    T.seen((top[:1], len(top) > 1, round(best, 9)))


def verbose(case):
    """Announcing the selection does not alter it."""
    vec, name, log, kind, single = case
    fn, kw = hr.likelihood(name, log)
    kw = dict(kw, my_alpha_parameters=np.array([.1, 10.]), my_bin_numbers=np.array([2, 3]), return_binning_parameters=True, **KINDS[kind])
    quiet = hr.run_on(fn, vec, **kw)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        loud = hr.run_on(fn, vec, verbose=True, **kw)
    ensure(all(np.array_equal(x, y) for x, y in zip(quiet[:3], loud[:3])) and quiet[3] == loud[3], f'{name}: another histogram with output')
    text = buf.getvalue()
    ensure(text.strip(), f'{name}: no output')
    if not single:
        ensure(f"{quiet[3]['nr of bins']} bins" in text, f'{name}: {text!r} does not name the number of bins of {quiet[3]}')
        ensure(f"{quiet[3]['binning alpha']:.1f}" in text, f'{name}: {text!r} does not name the smoothing of {quiet[3]}')
    T.seen((case, text))


def grid(case):
    """Every requested combination once, in order."""
    import hogg_jacky.shared as sh
    a, b, p, as_list, arr = case
    conv = (lambda x: None if x is None else np.array(x)) if arr else (lambda x: x)
    want = [tuple(c) for c in (itertools.product(a, b) if p is None else itertools.product(a, b, p))]
    T.call()
    kw = {} if p is None else {'my_bin_phases': conv(p)}
    out = sh.get_parameter_combinations(my_alpha_parameters=conv(a), my_bin_numbers=conv(b), return_list=as_list, **kw)
    ensure(isinstance(out, list) == as_list or not as_list, 'no list was returned')
    got = [tuple(c) for c in out]
    ensure(sorted(got) == sorted(want), f'combinations {got}, want {want}')
    T.seen(got)


def run(ctx):
    hr.use(ctx)
    import hogg_jacky.shared as sh
    al = ((1.,), (10.,), (.01,), (.1, 1., 10.), (100., .5), (.01, .1, 1., 10., 100.), (1., 1.))
    bn = ((1,), (2, 3), (1, 2, 3, 4), (4, 2), (3, 5, 7))
    lens = ctx.pick((2, 3, 4), (2, 3, 4, 5))

    def vecs(alpha, keep):
        out = []
        for v in hr.vectors(alpha, lens):
            x = [y for y in v if y == y]
            if len(set(x)) < 2 or (not keep and len(v) > 3 and list(x) != sorted(x)):
                continue
            out.append(v)
        return out
    lin = vecs((0., 1., 2.5, 7., NAN), ctx.thorough)
    ctx.explore('linear', select, [(v, a, b, (0.,), False, hr.LIN) for v in lin for a in al for b in bn],
                'data vectors x smoothing parameters x bin numbers x backends', chunk=150)
    # larger counts: many repetitions of few values
    rep = [tuple([0.] * i + [1.] * j + [3.] * k + [8.] * m) for i in (1, 2, 5, 20) for j in (0, 1, 7) for k in (0, 3, 40) for m in (1, 2, 9)]
    ctx.explore('weights', select, [(v, a, b, (0.,), False, hr.LIN) for v in rep for a in al for b in bn + ((1, 2, 4, 8, 16, 32), (10, 25, 50, 100))],
                'multiplicities x smoothing parameters x bin numbers x backends', chunk=60)
    big = [tuple([0.] * i + [1.] * j + [3.] * k + [8.] * m) for i, j, k, m in ((300, 7, 1500, 9), (1, 2000, 0, 1), (129, 128, 127, 256), (3, 3, 3, 2500))]
    big += [tuple(a for v in b for a in (v, NAN)) for b in big[:2]]
    ctx.explore('large', select, [(tuple(x + lg for x in v), a, b, (0.,), lg, hr.LOG if lg else hr.LIN) for v in big for a in (al[1], al[3], al[5]) for lg in (False, True)
                                  for b in ((1, 2, 3, 4), (10, 25, 50, 100), (5, 130, 257, 300), (1000, 500))],
                'many data and bins, linear and logarithmic', chunk=2)
    log = vecs((1., 3., 20., 5000., NAN), ctx.thorough)
    ctx.explore('logarithmic', select, [(v, a, b, (0.,), True, hr.LOG) for v in log for a in al for b in bn],
                'positive data vectors x smoothing parameters x bin numbers x backends', chunk=150)
    scl = [tuple(x * s for x in v) for v in vecs((1., 3., 20., NAN), False) for s in (1e-12, 1e-3, 1e6)]
    ctx.explore('log-scales', select, [(v, a, b, (0.,), True, hr.LOG) for v in scl for a in al[2:4] for b in bn], 'data of other magnitudes', chunk=100)
    ph = [(v, a, b, p, False, hr.PHASED) for v in vecs((0., 1., 4., NAN), False) for a in (al[1], al[3])
          for b in ((2, 4), (1, 8), (4,)) for p in ((0., .5), (.25,), (.75, .5, .25, 0.))]
    ctx.explore('phases', select, ph, 'data vectors x smoothing parameters x bin numbers x phases x backends', chunk=100)
    ctx.explore('verbose', verbose, [(v, b, lg, k, v.count(NAN) and len([x for x in v if x == x]) == 1 or len(v) == 1)
                                     for lg in (False, True) for b in (hr.LOG if lg else hr.LIN) for k in KINDS
                                     for v in ((1., 2., 8.), (1., NAN, 1.5, 9.), (3.,))], 'announced selections', chunk=20)
    if hasattr(sh, 'get_parameter_combinations'):
        vals = ((), (1.,), (.5, 2.), (2., .5, 1.), (1., 1.))
        ns = ((), (1,), (3, 2), (5, 5), (1, 2, 3))
        ctx.explore('grid', grid, [(a, b, p, as_list, arr) for a in vals for b in ns for p in (None, (), (0.,), (.5, 0.))
                                   for as_list in (True, False) for arr in (True, False)], 'parameter lists', chunk=100)
