"""C20 all histogram backends count every datum exactly once."""
import itertools
import math

import numpy as np

from mc import histref as hr
from mc.core import T, ensure
from mc.histref import KINDS, NAN

META = {
    'technique': 'bounded exhaustive enumeration of data vectors (with repeated, edge-valued and missing values), bin numbers and normalisations on every real backend, against exact rational binning',
    'note': 'Every vector over the alphabet, in every order; the backends are the compiled ones.',
}


def check_hist(hist, edges, width, kind, valued, opts, ref_edges, what):
    n = len(ref_edges) - 1
    edges = np.asarray(edges, dtype=float)
    ensure(edges.shape == (n + 1,) and np.allclose(edges, ref_edges, rtol=1e-10, atol=1e-12),
           f'{what}: edges {edges.tolist()}, want {ref_edges}')
    ws = np.diff(edges)
    ensure(np.allclose(np.broadcast_to(np.asarray(width, dtype=float), ws.shape), ws, rtol=1e-9, atol=1e-12),
           f'{what}: widths {width} of bins with edges {edges.tolist()}')
    ensure(np.shape(hist) == (n,), f'{what}: {np.shape(hist)} values for {n} bins')
    c = hr.counts_of(hist, kind, len(valued), ws)
    ensure(hr.feasible(c, opts), f'{what}: counts {c} in bins {edges.tolist()} of the data {list(valued)}')
    return c


def optimal(case):
    """Histograms of the width selected among one bin number."""
    vec, n, log = case
    valued = [x for x in vec if not math.isnan(x)]
    seen = []
    for name in (hr.LOG if log else hr.LIN):
        fn, kw = hr.likelihood(name, log)
        for kind, flags in KINDS.items():
            if kind == 'both' and name != 'blas':
                continue
            what = f'{name} {kind}'
            out = hr.run_on(fn, vec, my_alpha_parameters=np.array([10.]), my_bin_numbers=np.array([n]), **flags, **kw)
            ensure(len(out) == 4, f'{what}: {len(out)} values returned')
            hist, edges, width, par = out
            ensure(par is None, f'{what}: binning parameters that were not asked for')
            if not valued:
                ensure(hist is None and edges is None and width is None, f'{what}: a histogram of no data')
                seen.append(None)
                continue
            if min(valued) == max(valued):
                # no range: all in one bin around the value
                ensure(len(hist) == 1 and len(edges) == 2 and edges[0] <= valued[0] <= edges[1] and edges[0] < edges[1],
                       f'{what}: bins {list(edges)} for the only value {valued[0]}')
                c = hr.counts_of(hist, kind if len(valued) > 1 else ('count' if kind != 'dens' else 'dens'), len(valued), np.diff(edges))
                ensure(c == [len(valued)], f'{what}: counts {c} of the data {valued}')
                seen.append(('one', c))
                continue
            opts, ref = (hr.exact_log if log else hr.exact_lin)(valued, n)
            c = check_hist(hist, edges, width, kind, valued, opts, ref, what)
            seen.append(c)
    ensure(log is False or all(s == seen[0] for s in seen), f'the backends disagree: {seen}')
    if not log and seen[0] is not None and all(len(o) == 1 for o in (opts if min(valued) < max(valued) else [[0]])):
        ensure(all(list(s) == list(seen[0]) for s in seen), f'the backends disagree: {seen}')
    T.seen((seen, log))


def phases(case):
    """Shifted bins: still every datum once, and the backends agree."""
    vec, n, phase = case
    valued = [x for x in vec if not math.isnan(x)]
    res = {}
    for name in hr.PHASED:
        fn, kw = hr.likelihood(name, False)
        for kind, flags in KINDS.items():
            hist, edges, width, par = hr.run_on(fn, vec, my_alpha_parameters=np.array([10.]), my_bin_numbers=np.array([n]),
                                                my_bin_phases=np.array([phase]), **flags, **kw)
            c = hr.counts_of(hist, kind, len(valued), float(width))
            ensure(sum(c) == len(valued), f'{name} {kind}: counts {c} of {len(valued)} data at the phase {phase}')
            res[name, kind] = c + [0] * (n - len(c))
    first = res['blas', 'count']
    ensure(all(c == first for c in res.values()), f'the backends disagree at the phase {phase}: {res}')
    T.seen(first)


def spec_width(case):
    """Histograms of a specified width, from a specified minimum."""
    vec, n, bw, lo, minbins = case
    valued = [x for x in vec if not math.isnan(x)]
    seen = []
    for name in hr.PHASED:
        fn, kw = hr.backend(name, 'histogram_@_spec_width')
        kw = dict(kw)
        kw['bin_nr' if name == 'blas' else 'nr_bins'] = n
        for kind, flags in KINDS.items():
            what = f'{name} {kind}'
            h = hr.run_on(fn, vec, bin_phase=0., my_bw=bw, my_data_min=lo, min_nr_bins=minbins, **flags, **kw)
            if not valued:
                ensure(h is None, f'{what}: a histogram of no data')
                seen.append(None)
                continue
            ensure(minbins <= len(h) <= max(n, minbins) or n == 1, f'{what}: {len(h)} bins, want at least {minbins} and at most {n}')
            c = hr.counts_of(h, kind, len(valued), bw)
            c += [0] * (n - len(c))
            want = [0] * n
            base = min(valued) if lo is None else lo
            for x in valued:
                want[min(int((x - base) / bw), n - 1)] += 1
            ensure(c == want or (n == 1 and c[:1] == want and not any(c[1:])), f'{what}: counts {c}, want {want}, from {base} with width {bw}')
            seen.append(c)
    T.seen(seen[0])


def spec_number(case):
    """Histograms of a specified number of bins (numpy backend)."""
    vec, n = case
    from hogg_jacky import histogram_spec_width
    valued = [x for x in vec if not math.isnan(x)]
    for kind, flags in KINDS.items():
        h = hr.run_on(histogram_spec_width, vec, bin_nr=n, **flags)
        if not valued:
            ensure(h is None, 'a histogram of no data')
            continue
        if min(valued) == max(valued):
            ensure(len(h) == n, f'{len(h)} bins instead of {n}')
            w = 1. / n     # numpy: one unit around the value
            c = hr.counts_of(h, kind, len(valued), w)
            ensure(sum(c) == len(valued), f'{kind}: counts {c} of {valued}')
        else:
            opts, ref = hr.exact_lin(valued, n)
            ensure(len(h) == n, f'{len(h)} bins instead of {n}')
            c = hr.counts_of(h, kind, len(valued), np.diff(ref))
            ensure(hr.feasible(c, opts), f'{kind}: counts {c} in {n} bins of the data {valued}')
        T.seen(c)


def spec_edges(case):
    """Histograms with specified edges."""
    vec, edges, minbins = case
    from hogg_jacky import histogram_log_counts
    valued = [x for x in vec if not math.isnan(x)]
    n = len(edges) - 1
    e = np.array(edges)
    opts = hr.by_edges(valued, edges)
    seen = []
    import hogg_jacky as hj
    fns = [('numpy', hj.histogram_log_spec_edges, {})] + [(b,) + hr.backend(b, 'histogram_@_log_spec_edges') for b in hr.PHASED]
    for name, fn, kw in fns:
        for kind, flags in KINDS.items():
            h = hr.run_on(fn, vec, e, min_nr_bins=minbins, **flags, **kw)
            if not valued:
                ensure(h is None, f'{name} {kind}: a histogram of no data')
                continue
            ensure(len(h) == n, f'{name} {kind}: {len(h)} values for {n} bins')
            c = hr.counts_of(h, kind, len(valued), np.diff(e))
            ensure(hr.feasible(c, opts), f'{name} {kind}: counts {c} in bins {edges} of the data {valued}')
            seen.append(c)
            ensure(hr.run_on(fn, vec, e, min_nr_bins=minbins, negative_values=True, **flags, **kw) is None,
                   f'{name} {kind}: a logarithmic histogram of negative values')
    if valued:
        h = hr.run_on(histogram_log_counts, vec, e, 0., min_nr_bins=minbins)
        seen.append([int(round(x)) for x in h])
    ensure(e.tolist() == list(edges), 'the edges were changed')
    ensure(all(s == seen[0] for s in seen), f'the backends disagree: {seen}')
    T.seen(seen[:1])


def large(case):
    """Many data, many bins: the counts are known by construction."""
    N, n, log, every, heavy = case
    lo, hi = (.37, 4242.) if log else (-3.5, 12.25)
    at = lambda t: lo * (hi / lo) ** t if log else lo + (hi - lo) * t  # noqa: E731
    want = [0] * n
    want[0] += 1
    want[-1] += 1
    val = [lo, hi]
    for i in range(N):
        b = heavy if heavy is not None and i % 16 else (i * i * 7 + 3 * i) % n
        val.append(at((b + (.3, .5, .7)[i % 3]) / n))
        want[b] += 1
    step = next(k for k in range(len(val) // 3 + 2, 2 * len(val) + 9) if math.gcd(k, len(val)) == 1)
    val = [val[i * step % len(val)] for i in range(len(val))]
    vec = [y for i, x in enumerate(val) for y in ((NAN, x) if every and i % every == 0 else (x,))]
    edges = [at(k / n) for k in range(n + 1)]
    edges[0], edges[-1] = lo, hi
    ws = np.diff(edges)
    import hogg_jacky as hj
    asks = []
    for name in (hr.LOG if log else hr.LIN):
        fn, kw = hr.likelihood(name, log)
        for alpha in (2., 100.):
            asks.append((f'{name} likelihood', lambda f, fn=fn, kw=kw, a=alpha: fn_on(
                fn, vec, my_alpha_parameters=np.array([a]), my_bin_numbers=np.array([n]), **f, **kw)[0]))
    for name in hr.PHASED:
        if log:
            fn, kw = hr.backend(name, 'histogram_@_log_spec_edges')
            asks.append((f'{name} edges', lambda f, fn=fn, kw=kw: fn_on(fn, vec, np.array(edges), **f, **kw)))
        else:
            fn, kw = hr.backend(name, 'histogram_@_spec_width')
            kw = dict(kw, **{'bin_nr' if name == 'blas' else 'nr_bins': n})
            asks.append((f'{name} width', lambda f, fn=fn, kw=kw: fn_on(fn, vec, bin_phase=0., my_bw=(hi - lo) / n, my_data_min=lo, **f, **kw)))
    if log:
        asks.append(('numpy edges', lambda f: fn_on(hj.histogram_log_spec_edges, vec, np.array(edges), **f)))
    else:
        asks.append(('numpy number', lambda f: fn_on(hj.histogram_spec_width, vec, bin_nr=n, **f)))
    for what, ask in asks:
        for kind, flags in KINDS.items():
            if kind == 'both' and 'blas likelihood' != what:
                continue
            h = np.asarray(ask(flags), dtype=float)
            c = h * len(val) if kind in ('prob', 'both') else h * len(val) * np.resize(ws, len(h)) if kind == 'dens' else h
            c = list(c) + [0.] * (n - len(c))
            ensure(np.allclose(c, want, rtol=1e-8, atol=1e-6),
                   lambda: f'{what} {kind}: {N} data in {n} bins: ' + str([(i, x, y) for i, (x, y) in enumerate(zip(c, want)) if abs(x - y) > 1e-6][:4]))
    T.seen(tuple(want[:20]))


def fn_on(fn, vec, *a, **k):
    return hr.run_on(fn, vec, *a, **k)


FORMS = {'strided': lambda v: np.repeat(v, 3)[::3], 'reversed': lambda v: v[::-1].copy()[::-1], 'field': lambda v: np.asfortranarray(np.stack([v, v + 1.]).T)[:, 0],
         'row': lambda v: np.stack([v, v + 1.]).T.copy()[:, 0], 'int': lambda v: v.astype(int), 'float32': lambda v: v.astype(np.float32),
         'big': lambda v: v.astype('>f8'), 'read-only': lambda v: (lambda a: (a.setflags(write=False), a)[1])(v.copy()), 'middle': lambda v: np.r_[99., v, -7.][1:-1]}


def layout(case):
    """Views and other number types give the same histogram, or are refused."""
    vec, n, log, form = case
    v = np.array(vec)
    d = FORMS[form](v)
    asks = []
    import hogg_jacky as hj
    for name in (hr.LOG if log else hr.LIN):
        fn, kw = hr.likelihood(name, log)
        for par in (np.array([2., 10.]), np.repeat(np.array([2., 10.]), 2)[::2]):
            asks.append((f'{name} likelihood', lambda x, f, fn=fn, kw=kw, p=par: fn(x, my_alpha_parameters=p, my_bin_numbers=np.repeat(np.array([n, n + 1]), 2)[::2], **f, **kw)))
    lo, hi = float(v.min()), float(v.max())
    for name in hr.PHASED:
        if log:
            fn, kw = hr.backend(name, 'histogram_@_log_spec_edges')
            e = np.geomspace(lo, hi, n + 1)
            asks.append((f'{name} edges', lambda x, f, fn=fn, kw=kw, e=e: (fn(x, e, **f, **kw), e)))
        else:
            fn, kw = hr.backend(name, 'histogram_@_spec_width')
            kw = dict(kw, **{'bin_nr' if name == 'blas' else 'nr_bins': n})
            asks.append((f'{name} width', lambda x, f, fn=fn, kw=kw: (fn(x, bin_phase=0., my_bw=(hi - lo) / n, my_data_min=lo, **f, **kw), [lo])))
    out = []
    for what, ask in asks:
        for kind, flags in KINDS.items():
            if kind == 'both' and what != 'blas likelihood':
                continue
            ref = ask(v.copy(), flags)
            keep = d.tobytes()
            T.call(2)
            try:
                got = ask(d, flags)
            except (ValueError, TypeError):
                ensure(form in ('int', 'float32', 'big', 'read-only'), lambda: f'{what}: refuses data of the form {form}')
                out.append('refused')
                continue
            ensure(d.tobytes() == keep, lambda: f'{what}: the data were changed')
            for a, b in zip(got[:2], ref[:2]):
                ensure(np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-5, atol=1e-7),
                       lambda: f'{what} {kind}: {a} from data {list(vec)} of the form {form}, {b} from plain ones')
            out.append([float(x) for x in np.asarray(got[0], float)])
    T.seen(str(out[:3]))


def guards(case):
    name, log, what = case
    fn, kw = hr.likelihood(name, log)
    d, a, b = np.array([1., 2., 4.]), np.array([1.]), np.array([2])
    if what == 'missing':
        for args in itertools.product((True, False), repeat=3):
            if all(args):
                continue
            try:
                fn(*(x if y else None for x, y in zip((d, a, b), args)), **kw)
            except SystemExit:
                continue
            ensure(False, f'{name}: answered without {args}')
    elif what == 'empty':
        for vec in ((), (NAN,), (NAN, NAN)):
            out = hr.run_on(fn, vec, my_alpha_parameters=a, my_bin_numbers=b, **kw)
            ensure(out == (None,) * 4, f'{name}: {out} for no data')
    elif what == 'negative':
        if log:
            out = hr.run_on(fn, d, my_alpha_parameters=a, my_bin_numbers=b, negative_values=True, **kw)
            ensure(out == (None,) * 4, f'{name}: {out} for negative values on a logarithmic scale')
    elif what == 'single':
        for w in (None, .5, 4.):
            for vec in ((3.,), (NAN, 3.), (3., NAN, NAN)):
                for kind, flags in KINDS.items():
                    k = dict(kw, **flags, **({} if w is None else {'custom_bin_width': [w]}))
                    hist, edges, width, par = hr.run_on(fn, vec, my_alpha_parameters=a, my_bin_numbers=b, return_binning_parameters=True, **k)
                    ensure(len(hist) == 1 and hist[0] == 1 and edges[0] <= 3. <= edges[1], f'{name}: {hist} in {edges} for the only datum 3')
                    ensure(width == (1. if w is None else w), f'{name}: bin width {width} instead of the custom one {w}')
                    ensure(par is None, f'{name}: parameters {par} of an optimisation that was not done')
    elif what == 'none':
        import hogg_jacky as hj
        base = name.split('-')[0]
        if base in ('numpy', 'iter'):
            ensure(hj.histogram_spec_width(None, 2, True) is None and hj.histogram_spec_width(d, None, True) is None
                   and hj.histogram_spec_width(np.array([]), 2, True) is None, 'a histogram without data or bins')
            f = hj.histogram_log_spec_edges
        else:
            g = getattr(hj, f'histogram_{base}_spec_width')
            nb = {'bin_nr': 2} if base == 'blas' else {'nr_bins': 2}
            for x, w in ((None, 1.), (d, None), (np.array([]), 1.)):
                ensure(g(x, my_bw=w, bin_phase=0., empirical_probability=True, **nb, **kw) is None, f'{name}: a histogram without data or bins')
            f = getattr(hj, f'histogram_{base}_log_spec_edges')
        for x, w in ((None, np.array([1., 2.])), (d, None), (np.array([]), np.array([1., 2.]))):
            ensure(f(x, w, True, **kw) is None, f'{name}: a histogram without data or bins')
    T.seen(case)


def run(ctx):
    hr.use(ctx)
    bins = ctx.pick((1, 2, 3, 4, 5), (1, 2, 3, 4, 5, 6, 7, 8, 9, 12))
    lens = ctx.pick((0, 1, 2, 3, 4), (0, 1, 2, 3, 4, 5))
    ints = hr.vectors((0., 1., 2., 5., NAN), lens)
    if not ctx.thorough:
        ints = [v for v in ints if len(v) < 4 or v == tuple(sorted(v, key=str)) or sum(map(math.isnan, v)) < 2]
    ctx.explore('linear', optimal, [(v, n, False) for v in ints for n in bins],
                'data vectors x bin numbers x backends x normalisations', chunk=200)
    far = [tuple(x * s + o for x in v) for v in hr.vectors((0., 1., 3., NAN), (2, 3) if not ctx.thorough else (2, 3, 4))
           for s, o in ((.25, -2.), (1024., -3.), (2. ** -20, 2. ** -10), (1.1, .3), (-1., 0.))]
    ctx.explore('scales', optimal, [(v, n, False) for v in far for n in bins], 'the same at other scales and offsets', chunk=200)
    pos = hr.vectors((1., 2., 10., 1000., NAN), lens)
    if not ctx.thorough:
        pos = [v for v in pos if len(v) < 4 or v == tuple(sorted(v, key=str))]
    ctx.explore('logarithmic', optimal, [(v, n, True) for v in pos for n in bins],
                'positive data vectors x bin numbers x backends x normalisations', chunk=200)
    # extrema that are no powers or multiples of anything, so that edges are rounded either way
    odd = ctx.pick(range(1, 62), range(1, 400))
    rd = [(a, m, b) for i in odd for a, m, b in ((.01, .5, 1. + i * .37), (i * .1, i * .1 + .03, 70.1), (.3 / i, .7, .7), (1., 1.5, 1e3 / (i + .5)))]
    ctx.explore('rounding', optimal, [(v, n, log) for v in rd for n in ctx.pick((3, 4, 7), (2, 3, 4, 5, 6, 7, 9, 11, 13)) for log in (False, True)],
                'data whose extrema are not representable in bins exactly', chunk=100)
    ph = [(v, n, p) for v in hr.vectors((0., 1., 4., NAN), (2, 3, 4)) for n in (1, 2, 4, 8) for p in (0., .25, .5, .75)
          if len({x for x in v if x == x}) > 1]
    ctx.explore('phases', phases, ph, 'data vectors x bin numbers x phases x backends', chunk=200)
    sw = []
    for v in hr.vectors((0., .5, 1., 2., 3., NAN), (0, 1, 2, 3) if not ctx.thorough else (0, 1, 2, 3, 4)):
        for bw, n in ((1., 3), (.5, 6), (1., 5), (4., 1), (2., 2)):
            for lo in (None, 0., -1.):
                if lo == -1. and bw * n < 4.:
                    continue
                for m in (0, n):
                    sw.append((v, n, bw, lo, m))
    ctx.explore('width', spec_width, sw, 'data vectors x widths x minima x bin numbers x backends', chunk=300)
    ctx.explore('number', spec_number, [(v, n) for v in ints for n in bins], 'data vectors x bin numbers', chunk=300)
    se = []
    for v in hr.vectors((1., 2., 10., 50., 100., NAN), (0, 1, 2, 3) if not ctx.thorough else (0, 1, 2, 3, 4)):
        for e in ((1., 100.), (1., 10., 100.), (.5, 2., 8., 200.), (1., 1.5, 3., 30., 60., 100.)):
            for m in (0, len(e) - 1):
                se.append((v, e, m))
    ctx.explore('edges', spec_edges, se, 'data vectors x edges x backends', chunk=300)
    ctx.explore('large', large, [(N, n, log, ev, hv) for N in ctx.pick((63, 64, 257, 1025, 5000), (31, 63, 64, 65, 127, 129, 255, 257, 511, 1023, 1025, 5000, 9999, 70000))
                                 for n in ctx.pick((2, 17, 130), (2, 17, 64, 130, 300, 1001)) for log in (False, True) for ev in (0, 7) for hv in (None, 0, n - 1)]
                + [(70000, 3, log, 0, 1) for log in (False, True)],
                'many data in many or few bins', chunk=4)
    ctx.explore('guards', guards, [(b, log, w) for log in (False, True) for b in (hr.LOG if log else hr.LIN)
                                   for w in ('missing', 'empty', 'negative', 'single', 'none')], 'requests without data')
    ctx.explore('layout', layout, [(v, n, log, f) for v in itertools.product((1., 3., 8.), repeat=ctx.pick(3, 5)) if len(set(v)) > 1
                                   for n in ctx.pick((3,), (2, 3, 5)) for log in (False, True) for f in FORMS], 'views and other number types', chunk=50)
