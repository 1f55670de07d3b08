"""Reference for the histogram backends: exact rational binning and the Hogg (2008) likelihood."""
import itertools
import math
import os
from fractions import Fraction as Fr

import numpy as np

from . import build
from .core import T, ensure

NAN = math.nan
LIN = ('numpy', 'iter', 'blas', 'numexpr', 'cython', 'cython-par')
LOG = ('iter', 'blas', 'numexpr', 'cython', 'cython-par')
PHASED = ('blas', 'numexpr', 'cython', 'cython-par')


def use(ctx):
    os.environ['NUMEXPR_NUM_THREADS'] = '1'
    os.environ['NUMEXPR_MAX_THREADS'] = '1'
    build.use(ctx, ['hist'])
    import warnings
    warnings.simplefilter('ignore')
    import hogg_jacky  # noqa: F401


def backend(name, prefix='', suffix=''):
    """The public function of a backend, with the keyword arguments that select its variant."""
    import hogg_jacky as hj
    par = {'use_parallel': True} if name == 'cython-par' else {}
    base = name.split('-')[0]
    return getattr(hj, prefix.replace('@', base) + (base if '@' not in prefix else '')), par


def likelihood(name, log):
    return backend(name, 'log_histogram_likelihood_' if log else 'histogram_likelihood_')


def exact_lin(vals, n):
    """Possible bins of every datum: the one by exact arithmetic, and its neighbours if it lies on an inner edge that is not a float."""
    v = [Fr(x) for x in vals]
    lo, hi = min(v), max(v)
    w = (hi - lo) / n
    exact = Fr(float(w)) == w and all(Fr(float(lo + k * w)) == lo + k * w for k in range(n + 1))
    out = []
    for x in v:
        k = (x - lo) / w
        i = min(int(k), n - 1)
        opts = {i}
        if not exact and k.denominator == 1 and 0 < k < n:
            opts.add(int(k) - 1)
        out.append(sorted(opts))
    edges = [float(lo + k * w) for k in range(n + 1)]
    return out, edges


def exact_log(vals, n):
    """The same for bins of equal width in the logarithm; a datum on an inner edge belongs to either neighbour."""
    lo, hi = min(vals), max(vals)
    edges = [lo * (hi / lo) ** (k / n) for k in range(n + 1)]
    return by_edges(vals, edges), edges


def by_edges(vals, edges):
    """Bins [edge, next edge]; data on an inner edge (to rounding) belong to either."""
    n = len(edges) - 1
    out = []
    for x in vals:
        opts = [i for i in range(n)
                if (edges[i] < x or math.isclose(x, edges[i], rel_tol=1e-12, abs_tol=1e-300))
                and (x < edges[i + 1] or math.isclose(x, edges[i + 1], rel_tol=1e-12, abs_tol=1e-300))]
        out.append(opts)
    return out


def feasible(counts, opts):
    """Every datum in exactly one of its possible bins gives these counts?"""
    counts = [round(c) for c in counts]
    if sum(counts) != len(opts):
        return False
    fixed = [0] * len(counts)
    free = []
    for o in opts:
        if len(o) == 1:
            fixed[o[0]] += 1
        else:
            free.append(o)
    rest = [c - f for c, f in zip(counts, fixed)]
    if not free:
        return not any(rest)
    # free data have two neighbouring bins: greedy from the left
    for o in sorted(free):
        i = next((b for b in o if rest[b] > 0), None)
        if i is None:
            return False
        rest[i] -= 1
    return not any(rest)


def L(counts, widths, alpha):
    """Hogg (2008), eq. 5: a sum over data, hence without terms of empty bins."""
    tot = sum(c + alpha for c in counts) - 1.
    return sum(c * math.log((c + alpha - 1.) / (w * tot)) for c, w in zip(counts, widths) if c)


KINDS = {'prob': dict(empirical_probability=True, empirical_density=False),
         'both': dict(empirical_probability=True, empirical_density=True),
         'dens': dict(empirical_probability=False, empirical_density=True),
         'count': dict(empirical_probability=False, empirical_density=False)}


def counts_of(hist, kind, N, widths):
    """Counts that a histogram of this kind stands for."""
    h = np.asarray(hist, dtype=float)
    if kind in ('prob', 'both'):
        h = h * N
    elif kind == 'dens':
        h = h * N * np.asarray(widths)
    ensure(np.all(np.isfinite(h)) and np.allclose(h, np.round(h), atol=1e-9, rtol=1e-9),
           f'values {np.asarray(hist).tolist()} are no {kind} histogram of {N} data')
    return np.round(h).astype(int).tolist()


def run_on(fn, data, *a, **k):
    """Calls fn on a copy, which must come back unchanged."""
    d = np.array(data, dtype=np.float64)
    before = d.tobytes()
    T.call()
    out = fn(d, *a, **k)
    ensure(d.tobytes() == before, f'the data {list(data)} were changed to {d.tolist()}')
    return out


def vectors(alphabet, lens):
    return [v for n in lens for v in itertools.product(alphabet, repeat=n)]
