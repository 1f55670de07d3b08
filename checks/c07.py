"""C07 triad generator: exactly the requested mode triads, statistics aligned."""
import itertools
import statistics

from mc import build
from mc.core import Fail, T, close, ensure

META = {
    'technique': 'bounded exhaustive enumeration of all radial-order range requests on the real generator',
    'note': 'Exhaustive over all small driven/damped ranges (one and two damped ranges) and some degree lists; '
            'two-range requests hit by the recorded symmetric-product finding are compared with the frozen '
            'observation of that finding.',
}

LM = [([2, 1, 1], [2, 1, 1]), ([1, 2, 3], [-1, 0, 3])]


def gen(case):
    from aesolver.mode_input_generator import InputGen
    dlo, dhi, a, b, c, d, lm = case
    l, m = LM[lm]
    kw = dict(mode_l=list(l), mode_m=list(m), driven_n_low=dlo, driven_n_high=dhi,
              damped_n_low1=a, damped_n_high1=b, damped_n_low2=c, damped_n_high2=d)
    if c is None and lm:
        kw.pop('damped_n_low2'), kw.pop('damped_n_high2')
    o = InputGen(**kw)
    T.call()
    got = [tuple(int(x) for x in t) for t in o.combinations_radial_orders]
    ensure(list(o.mode_l) == l and list(o.mode_m) == m, lambda: f'degrees {o.mode_l}, orders {o.mode_m}')
    driven = range(dlo, dhi + 1)
    r1 = range(a, b + 1)
    if c is None:
        pairs = set(itertools.combinations(r1, 2))
    else:
        pairs = {tuple(sorted((x, y))) for x in r1 for y in range(c, d + 1)}
    want = {(n, *p) for n in driven for p in pairs}
    key = sorted((t[0], *sorted(t[1:])) for t in got)
    ensure(all(len(t) == 3 for t in got), lambda: f'not triads: {got[:5]}')
    ensure(set(key) == want, lambda: f'{case}: missing {sorted(want - set(key))[:5]}, '
                                     f'not requested {sorted(set(key) - want)[:5]}; all {sorted(got)}')
    ensure(len(key) == len(want), lambda: f'{case}: listed more than once; all {sorted(got)}')
    avg, wu = list(o.average_radial_orders), list(o.wu_difference_statistics)
    ensure(len(avg) == len(got) == len(wu), lambda: f'{len(got)} triads, {len(avg)} averages, {len(wu)} statistics')
    for t, av, w in zip(got, avg, wu):
        ensure(close(float(av), sum(t) / 3, 1e-12), lambda: f'average radial order of {t} is {av}')
        ensure(int(w) == w == t[0] - abs(t[1] - t[2]), lambda: f'Wu statistic of {t} is {w}')
    return sorted(got), [float(x) for x in avg]


def run(ctx):
    build.use(ctx, ['num', 'ld', 'disc', 'fnd'])
    import aesolver  # noqa: F401  (import once, before forking)
    from aesolver.mode_input_generator import InputGen  # noqa: F401
    n = ctx.pick(7, 11)
    rngs = [(a, b) for a in range(0, n) for b in range(a, n)]
    drv = [(20, 20), (3, 5), (0, 1), (6, 6), (15, 18)]
    ctx.explore('one-range', gen,
                [(*d, *r, None, None, lm) for d in drv for r in rngs for lm in (0, 1)]
                + [(*d, a, a + k, None, None, 0) for d in drv for a in range(5, 60, 5) for k in (0, 1, 2, 7, 15)],
                'daughters from one range')
    small = [(a, b) for a in range(0, 8) for b in range(a, 8)]
    if not ctx.thorough:
        small = [r for r in small if r[1] - r[0] < 5]
    ctx.explore('two-ranges', gen,
                [(*d, *r, *s, lm) for d in drv[:2] for r in small for s in small for lm in (0, 1)],
                'daughters from two ranges')
    ctx.explore('two-ranges-realistic', gen,
                [(20, 21, a, a + k, b, b + j, 0) for a in (6, 15, 30) for b in (15, 22, 30)
                 for k in (0, 1, 3) for j in (0, 1, 6)],
                'daughters from two ranges of larger radial orders')
