"""C08 pre-check: selection rules and excitation conditions."""
import itertools

import numpy as np

from mc import aes
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of degree/order/conjugation/rate configurations and call histories on the real pre-check objects',
    'note': 'All (l, m) with l <= 2 (3 in thorough) per mode, all conjugation patterns, several triads per object in all '
            'positions; all sign/size patterns of rates and detunings away from the stability boundary, judged by the '
            'spectrum of the linearised amplitude equations.',
}
DEF = (True, False, False)
PATS = list(itertools.product((True, False), repeat=3))


def rule(lm, conj):
    s = sum(-m if c else m for (_, m), c in zip(lm, conj))
    return s == 0 and sum(l - abs(m) for l, m in lm) % 2 == 0


def dicts(lm):
    return [{'l': l, 'm': m} for l, m in lm]


def single(case):
    """One triad, every conjugation pattern and every spelling of the default."""
    from aesolver.pre_checks import PreCheckQuadratic
    lm = case
    out = []
    for conj in PATS + [None, [True], 'first']:
        arg = None if conj is None else conj if isinstance(conj, list) else [DEF] if conj == 'first' else [conj]
        eff = conj if isinstance(conj, tuple) else DEF
        for tri in (None, [(1, 2, 3)]):
            kw = {} if tri is None else {'triads': list(tri)}
            o = PreCheckQuadratic(dicts(lm), conjugation=arg, **kw)
            got = o.generic_check()
            T.call()
            want = rule(lm, eff)
            ensure(bool(got) == want, lambda: f'(l, m) {lm} conjugation {arg}: {got}, expected {want}')
            ensure(o.l_list == [[l for l, _ in lm]] and o.m_list == [[m for _, m in lm]]
                   and o.k_list == [[l - abs(m) for l, m in lm]],
                   lambda: f'{lm}: degrees {o.l_list} orders {o.m_list} meridional {o.k_list}')
            ensure(bool(o.generic_check()) == want, 'verdict changes when asked again')
            out.append(want)
    return out


def several(case):
    """Several triads in one object, all_fulfilled or not, with mode numbers in any order."""
    from aesolver.pre_checks import PreCheckQuadratic
    lm, triads, conj = case
    eff = [DEF] * len(triads) if conj is None or conj == 'bool' else [(False,) * 3] * len(triads) if conj == 'none' else conj
    arg = [True] if conj == 'bool' else [False] if conj == 'none' else None if conj is None else list(conj)
    sub = [[lm[i - 1] for i in t] for t in triads]
    want = [rule(s, c) for s, c in zip(sub, eff)]
    one = PreCheckQuadratic(dicts(lm), triads=list(triads), conjugation=arg, all_fulfilled=False)
    T.call(2)
    got = one.generic_check()
    ensure([bool(x) for x in got] == want, lambda: f'{lm} triads {triads} conjugation {arg}: {got}, expected {want}')
    ensure(one.k_list == [[l - abs(m) for l, m in s] for s in sub]
           and one.l_list == [[l for l, _ in s] for s in sub] and one.m_list == [[m for _, m in s] for s in sub],
           lambda: f'{lm} triads {triads}: {one.l_list} {one.m_list} {one.k_list}')
    al = PreCheckQuadratic(dicts(lm), triads=list(triads), conjugation=arg, all_fulfilled=True).generic_check()
    ensure(bool(al) == all(want), lambda: f'{lm} triads {triads}: {al}, expected {all(want)}')
    return want


class FH:
    def __init__(self, g, q, asfloat):
        self.driving_rates = np.array(g)
        self.q_factor = float(q) if asfloat else np.array(q)


def lin_ok(g, q, harmonic):
    """(condition of the interaction type holds, clear of the boundary)."""
    from checks.c11 import growth, lin3, lin4
    par = g[0] > 0 and g[1] < 0 and g[2] < 0
    dr = g[0] < 0 and g[1] > 0 and g[2] > 0
    if harmonic:
        if not (par or dr):
            return False, True
        top = growth(lin3((g[0], g[1]), q)) / max(map(abs, g))
        if par:
            th = -g[1] / g[0]
            x = 2 * th * (th - 1)
            if th > (1 + 3 ** .5) / 2 and (x - 1) / (x + 1) < q * q <= 1.0001 * (x + 1) / (x - 1):
                return None, False          # recorded under C11 (K-C11-two-mode)
        return top < 0, abs(top) > 1e-6
    if not par:
        return False, True
    top = growth(lin4(g, q, (1, 1, 1))) / max(map(abs, g))
    return top < 0, abs(top) > 1e-6


def full(case):
    from aesolver.pre_checks import PreThreeQuad
    lm, conj, g, q, harm, scale = case
    ok, clear = lin_ok(g, q, harm)
    if not clear:
        return 'borderline'
    sel = rule(lm, conj or DEF)
    fh = FH(np.array(g) * scale, q, harm or scale == 1.)
    before = fh.driving_rates.copy()
    kw = dict(conjugation=None if conj is None else [conj], two_mode_harmonic=harm)
    o = PreThreeQuad(dicts(lm), fh, **kw)
    T.call()
    got = bool(o.check())
    ensure(got == (sel and ok), lambda: f'(l, m) {lm} conjugation {conj} rates {g} q {q} harmonic {harm}: '
                                        f'accepted {got}; selection rules {sel}, stable excitation {ok}')
    ensure((fh.driving_rates == before).all(), 'driving rates of the handler were changed')
    ensure(bool(o.check()) == got, 'verdict changes when asked again')
    return got, sel, ok


def trigger(case):
    from aesolver.pre_checks import check_direct, check_driven, check_parametric
    g = np.array(case)
    info = {'linear driving rates': g}
    T.call(3)
    got = tuple(bool(f(info)) for f in (check_parametric, check_direct, check_driven))
    want = (g[0] > 0 and g[1] < 0 and g[2] < 0, g[0] < 0 and g[1] > 0 and g[2] > 0, all(x > 0 for x in g))
    ensure(got == tuple(map(bool, want)), lambda: f'rates {case}: parametric, direct, driven = {got}')
    return got


def sequence(case):
    """A history of checks in one process; every verdict equals that of a fresh object."""
    from aesolver.pre_checks import PreThreeQuad
    out = []
    for lm, conj, g, q in case:
        fh = FH(g, q, True)
        got = bool(PreThreeQuad(dicts(lm), fh, conjugation=None if conj is None else [conj]).check())
        T.call()
        want = rule(lm, conj or DEF) and lin_ok(g, q, False)[0]
        ensure(got == want, lambda: f'history {case}: verdict {got} for {(lm, conj, g, q)}')
        out.append(got)
    return out


def run(ctx):
    aes.use(ctx)
    import aesolver.pre_checks  # noqa: F401
    L = ctx.pick(2, 3)
    LM = [(l, m) for l in range(1, L + 1) for m in range(-l, l + 1)]
    ctx.explore('one-triad', single, list(itertools.product(LM, repeat=3)), 'all degree/order triples x conjugations')
    lm5 = [(2, 2), (1, 1), (1, 0), (2, -1), (3, 2)]
    tri = list(itertools.permutations(range(1, 6), 3))
    ctx.explore('numbering', several, [(lm5, [t], c) for t in tri for c in [None, 'bool', 'none'] + [[p] for p in PATS]],
                'every numbering of one triad within five modes')
    t2 = [(1, 2, 3), (2, 2, 1), (4, 5, 1), (5, 1, 3), (1, 2, 2), (3, 3, 5)]
    cs = [(lm5, list(ts), c) for n in (1, 2, 3) for ts in itertools.product(t2, repeat=n)
          for c in [None, 'bool', 'none'] + [[p] * n for p in PATS[::3]]
          + [[PATS[(k * 3 + j) % 8] for k in range(n)] for j in range(4)]]
    ctx.explore('several-triads', several, cs, 'all sequences of up to three triads in one object')
    rates = [(s1 * a, s2 * b, s3 * c) for s1 in (1, -1) for s2 in (1, -1) for s3 in (1, -1)
             for a, b, c in ((1., 1.3, .9), (1., .3, .4), (1., .3, 2.), (.4, 3., .5), (2., .7, .9), (1., 4., 5.), (1., .2, .25))]
    rates += [(0., -1., -1.), (1., 0., -2.), (1., -2., 0.), (0., 1., 1.), (-1., 0., 1.), (0., 0., 0.)]
    hr = [(s1 * a, s2 * b, s2 * b) for s1 in (1, -1) for s2 in (1, -1) for a in (1.,) for b in (.2, .4, .6, 1.2, 1.45, 1.6, 2.5, 5.)]
    qs = ctx.pick((-9., -2., -.6, .05, .5, 1.4, 30.), (-40., -9., -4., -2., -1., -.6, -.2, .05, .3, .5, .9, 1.4, 3., 30.))
    lms = [((2, 2), (1, 1), (1, 1)), ((2, 0), (1, 1), (1, -1)), ((2, 1), (1, 1), (1, 1)), ((2, 1), (1, 1), (1, 0)),
           ((3, 2), (2, 1), (2, 1)), ((1, 0), (2, 0), (1, 0))]
    ctx.explore('verdict', full,
                [(lm, c, g, q, False, s) for lm in lms for c in [None, (False,) * 3, (True, True, False)] for g in rates
                 for q in qs for s in (1., 1e-9)]
                + [(lm, None, g, q, True, s) for lm in lms for g in hr for q in qs for s in (1., 1e-9)],
                'selection rules x rates x detuning')
    ctx.explore('trigger', trigger, list(itertools.product((-2., -1e-12, 0., 1e-12, 3.), repeat=3)),
                'interaction type from the rates')
    al = [(lms[0], None, (1., -1.3, -.9), 9.), (lms[0], None, (1., -.3, -.4), 9.), (lms[3], None, (1., -1.3, -.9), 9.),
          (lms[1], (True, True, False), (1., -1.3, -.9), 9.), (lms[1], None, (2., -3., -4.), 30.)]
    al = [a for a in al if lin_ok(a[2], a[3], False)[1]]
    ctx.explore('histories', sequence, [s for n in range(1, ctx.pick(4, 6)) for s in itertools.product(al, repeat=n)],
                'all sequences of triads checked one after another')
