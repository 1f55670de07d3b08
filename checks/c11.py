"""C11 stability verdicts against the linearised amplitude equations."""
import itertools

import numpy as np

from mc import aes
from mc.core import Fail, T, close, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of matrices and rate/detuning triples, judged by the spectrum of independently linearised amplitude equations',
    'note': 'All small integer matrices with exactly known imaginary-axis eigenvalues; all rate/detuning triples of an '
            'alphabet with margins around the stability boundary. One sign of the Jacobian of direct harmonic resonances and the '
            'inverted two-mode quotient are recorded findings (existing tests enshrine them).',
}


def lin4(g, q, a):
    """d(dx/dt)/dx of the three-mode amplitude equations at the fixed point, x = (A1, A2, A3, phase)."""
    gp = sum(g)
    J = np.zeros((4, 4))
    for i in range(3):
        for j in range(3):
            J[i, j] = g[i] if i == j else -g[i] * a[i] / a[j]
        J[i, 3] = q * g[i] * a[i]
        J[3, i] = q * (gp - 2 * g[i]) / a[i]
    J[3, 3] = gp
    return J


def lin3(g, q):
    """Two-mode harmonic system in (ln A1, ln A2, phase)."""
    gp = g[0] + 2 * g[1]
    return np.array([[g[0], -2 * g[0], q * g[0]], [-g[1], 0., q * g[1]],
                     [q * (2 * g[1] - g[0]), 2 * q * g[0], gp]])


def growth(J):
    return np.linalg.eigvals(J).real.max()


def three(case):
    from aesolver.stability_checker import check_van_beeck_conditions, gss
    g, q, kind = case
    gam = np.array(g)
    scale = {'plain': 1., 'small': 1e-9, 'large': 1e6}[kind]
    top = growth(lin4(gam, q, (1, 1, 1))) / abs(gam).max()
    T.call(2)
    # rates adding up to zero but for the rounding are settled only where the sum is exact
    if abs(sum(g)) < 1e-12 * abs(gam).max() and (scale != 1 or any(x * 1024 % 1 for x in g)):
        return 'borderline'
    a = bool(gss(gam * scale))
    ensure(a == bool(gss(list(gam * scale))) == bool(gss(float(sum(gam) * scale))) == (sum(g) < 0),
           lambda: f'sum of rates {g} judged {a}')
    if abs(top) < 1e-6:
        return 'borderline'
    for arg in (q, np.float64(q)):
        got = a and bool(check_van_beeck_conditions(gam * scale, arg))
        ensure(got == (top < 0), lambda: f'rates {g} q {q}: judged {"" if got else "un"}stable, largest '
                                         f'linear growth is {top}')
    return a, got


def two(case):
    from aesolver.stability_checker import check_dziembowski_parametric
    g1, th, q, scale = case
    g = np.array([g1, -th * g1])
    top = growth(lin3(g, q)) / max(1, th)
    if abs(top) < 1e-6:
        return 'borderline'
    T.call()
    got = bool(check_dziembowski_parametric(np.array([g[0], g[1], g[1]]) * scale, q))
    if got != (top < 0):
        x = 2 * th * (th - 1)
        wrong = th > (1 + 3 ** .5) / 2 and q * q > (x - 1) / (x + 1)
        if got and wrong:
            raise Fail('accepted between the inverted and the true bound on q^2')
        raise Fail(f'rates {g}, q {q}: judged {got}, largest linear growth {top}')
    return got


def two_direct(case):
    from aesolver.stability_checker import check_dziembowski_direct
    g1, th, q, scale = case
    g = np.array([-g1, th * g1])
    top = growth(lin3(g, q)) / max(1, th)
    if abs(top) < 1e-6:
        return 'borderline'
    T.call()
    got = bool(check_dziembowski_direct(np.array([g[0], g[1], g[1]]) * scale))
    ensure(got == (top < 0), lambda: f'rates {g}, q {q}: judged {got}, largest linear growth {top}')
    return got


def forms(case):
    """The other published formulations of the three-mode condition."""
    from aesolver.stability_checker.three_mode import stab_checker_quadratic_three_sum as st
    g, q, scale = case
    gam = np.array(g) * scale
    a, b = -g[1] / g[0], -g[2] / g[0]
    T.call(3)
    top = growth(lin4(np.array(g), q, (1, 1, 1))) / max(map(abs, g))
    got = bool(st.check_additional_condition_equivalent(gam, q))
    if sum(g) < -1e-12 * max(map(abs, g)) and abs(top) > 1e-6:
        ensure(got == (top < 0), lambda: f'rates {g} q {q}: equivalent condition says {got}, linear growth {top}')
        arr = st.check_additional_condition_equivalent(gam, np.array([q, -q, q]))
        ensure(list(arr) == [got] * 3, 'detunings given as an array are judged differently')
    s = a + b - 1
    c = (-s ** 3 - 2 * a * b, 2 * s * (a * a + b * b + 1) - 12 * a * b,
         s * (9 * (a * a + b * b) + 6 * a * b + 3) - 18 * a * b)
    val = sum(x * q ** (2 * i) for i, x in enumerate(c))
    if abs(val) > 1e-9 * sum(abs(x) * q ** (2 * i) for i, x in enumerate(c)):
        orig = bool(st.check_original_dziembowski_conditions(gam, q))
        ensure(orig == (val > 0), lambda: f'rates {g} q {q}: original criterion says {orig}, polynomial is {val}')
    # q^4 coefficient of the linearised equations, -(sum)^3 (18 p + 3 - 12 r) in units of the driven mode
    new = 3 * s ** 3 - 18 * a * b + 12 * s * (a + b - a * b)
    if abs(c[2]) > 1e-9:
        r = st.ratio_coefficients_q4_dziembowski(gam)
        ensure(close(r, new / c[2], 1e-9, 1e-9), lambda: f'rates {g}: ratio of the coefficients is {r}, not {new / c[2]}')
    return got


def hyper(case):
    from aesolver.stability_checker import check_hyper
    M, want = case
    T.call()
    got = check_hyper(np.array(M, dtype=float))
    ensure(bool(got) == want, lambda: f'matrix {M}: hyperbolic {got}, expected {want}')
    return bool(got)


def jac(case):
    from aesolver.stability_checker import hyper_jac
    g, om, q, eta, form = case
    g, om = np.array(g), np.array(om)
    Q = om / g
    with np.errstate(all='ignore'):
        a = np.sqrt(np.array([(1 + q * q) / (4 * eta ** 2 * Q[1] * Q[2]),
                              -(1 + q * q) / (4 * eta ** 2 * Q[0] * Q[2]),
                              -(1 + q * q) / (4 * eta ** 2 * Q[0] * Q[1])]))
    want = lin4(g, q, a)
    T.call()
    e = {'float': eta, 'list': [eta], 'array': np.array(eta)}[form]
    got = hyper_jac(g.copy(), om.copy(), q, e)
    ensure(got.shape == (4, 4), lambda: f'shape {got.shape}')
    wrong(got, want, g, q, eta)
    return rnd(got, 6)


def wrong(got, want, g, q, eta):
    bad = [(int(i), int(j)) for i, j in zip(*np.where(~np.isclose(got, want, rtol=1e-9, atol=1e-300)))]
    ensure(not bad, lambda: f'rates {g.tolist()} q {q} eta {eta}: derivative entries {bad} are '
                            f'{[float(got[b]) for b in bad]}, expected {[float(want[b]) for b in bad]}')


def jac3(case):
    """Two-mode Jacobian; the parent amplitude carries the sign of its coupling term."""
    from aesolver.stability_checker import hyper_jac_three
    g, om, q, eta, form = case
    g, om = np.array(g), np.array(om)
    T.call()
    e = {'float': eta, 'list': [eta], 'array': np.array(eta)}[form]
    got = np.array(hyper_jac_three(g.copy(), om.copy(), q, e))
    ensure(got.shape == (3, 3), lambda: f'shape {got.shape}')
    k = np.sqrt(1 + q * q) / (2 * eta)
    a0, a1 = k * g[1] / om[1], k * np.sqrt(-2 * g[0] * g[1] / (om[0] * om[1]))
    gp = g[0] + 2 * g[1]
    want = np.array([[g[0], -2 * g[0] * a0 / a1, q * g[0] * a0], [-g[1] * a1 / a0, 0., q * g[1] * a1],
                     [q * (2 * g[1] - g[0]) / a0, 2 * q * g[0] / a1, gp]])
    if g[0] < 0 and np.isclose(got[2, 1], -want[2, 1], rtol=1e-9):
        got[2, 1] *= -1
        wrong(got, want, g, q, eta)
        raise Fail('derivative of the phase to the driven amplitude of a direct resonance has the opposite sign')
    wrong(got, want, g, q, eta)
    return rnd(got, 6)


def matrices():
    """Exactly representable matrices whose spectrum is known by construction."""
    out = []
    # companion-free family: block diagonal of rotations and reals, conjugated by unit-triangular integer matrices
    blocks = []
    vals = (-2., -1., 1., 3., 0.)
    for n in (3, 4):
        for d in itertools.product(vals, repeat=n):
            blocks.append((np.diag(d), all(x != 0 for x in d)))
    for re, im in itertools.product((-1., 0., 1., 2.), (1., 2.)):
        for d in itertools.product((-1., 2., 0.), repeat=2):
            B = np.zeros((4, 4))
            B[:2, :2] = [[re, -im], [im, re]]
            B[2, 2], B[3, 3] = d
            blocks.append((B, re != 0 and all(x != 0 for x in d)))
            blocks.append((B[:3, :3].copy(), re != 0 and d[0] != 0))
    for B, h in blocks:
        out.append((B.tolist(), h))
        # permutation similarity keeps the spectrum exactly
        p = list(range(len(B)))[::-1]
        out.append((B[np.ix_(p, p)].tolist(), h))
        # triangular coupling keeps the diagonal spectrum exactly
        if np.count_nonzero(B - np.diag(np.diag(B))) == 0:
            U = B.copy()
            U[np.triu_indices(len(B), 1)] = 1.
            out.append((U.tolist(), h))
            out.append((U.T.tolist(), h))
            # hyperbolic matrices stay so under tiny and huge uniform scaling
            out.append(((B * 2. ** -30).tolist(), h))
    for bad in (float('nan'), float('inf'), -float('inf')):
        for i in range(4):
            for j in range(4):
                Mx = np.diag([1., -1., 2., -3.])
                Mx[i, j] = bad
                out.append((Mx.tolist(), False))
    return out


def run(ctx):
    aes.use(ctx)
    from aesolver.stability_checker import gss  # noqa: F401
    r1 = ctx.pick((.5, 1., 2.), (.1, .3, .5, .75, 1., 1.5, 2., 4., 30.))
    r2 = ctx.pick((-.3, -.49, -.7, -1., -2.5, -6.), (-.003, -.1, -.2, -.3, -.49, -.5, -.51, -.7, -.9, -1., -1.1, -1.3, -1.6, -1.9, -2.2, -2.5, -4., -6., -20., -300.))
    qs = ctx.pick((-7., -2., -1., -.5, .1, .5, .9, 1.7, 3., 11.),
                  (-40., -7., -3., -2., -1.3, -1., -.7, -.5, -.2, -.05, .01, .1, .3, .5, .9, 1.2, 1.7, 2.4, 3., 11., 90.))
    ctx.explore('three-mode', three,
                [((a, b, c), q, k) for a in r1 for b in r2 for c in r2 for q in qs
                 for k in ('plain', 'small', 'large')],
                'parametric triads: verdict against the growth of the linearised equations')
    ctx.explore('formulations', forms, [((a, b, c), q, k) for a in r1 for b in r2 for c in r2 for q in qs for k in (1., 1e-9)],
                'the original and the equivalent formulation')
    ths = ctx.pick((.2, .45, .6, 1., 1.2, 1.36, 1.37, 1.4, 1.5, 1.7, 2., 3., 5., 9.),
                   tuple(np.round(np.arange(.02, 6, .02), 3)) + (10., 40.))
    qq = qs + (1.05, 1.15, 1.25, 1.35, -1.6, 2.1, 5., 6., 20.)
    ctx.explore('two-mode-parametric', two,
                [(g, float(t), q, s) for g in (1., .25, 4.) for t in ths for q in qq for s in (1., 1e-8)],
                'harmonic parametric resonance')
    ctx.explore('two-mode-direct', two_direct,
                [(g, float(t), q, s) for g in (1., .25, 4.) for t in ths for q in qq for s in (1., 1e-8)],
                'harmonic direct resonance')
    ctx.explore('hyperbolicity', hyper, matrices(), 'matrices of known spectrum and non-finite matrices')
    cs = [(g, om, q, eta, f)
          for g in itertools.product((1., .3), (-1., -2.5), (-.7, -3.))
          for om in ((2., 1.1, .9), (3., 2., 1.), (-2., -1.1, -.8)) for q in (-3., -.5, .1, 2.)
          for eta in (1., 40., -7.) for f in ('float', 'list', 'array')]
    # rates and frequencies of real stars
    cs += [(tuple(1e-9 * x for x in g), tuple(1e-5 * x for x in om), q, eta, f)
           for g in itertools.product((1., .3), (-1., -2.5), (-.7, -3e3))
           for om in ((2., 1.1, .9), (-2., -1.1, -.8)) for q in (-3., -1e-3, 2., 250.)
           for eta in (1e-3, 4e6, -7e6) for f in ('float', 'list', 'array')]
    flip = [(tuple(-x for x in c[0]),) + c[1:] for c in cs]
    ctx.explore('jacobian', jac, [c for c in cs if c[3] > 0], 'derivative of the amplitude equations at the fixed point')
    ctx.explore('jacobian-direct', jac, [c for c in flip if c[3] > 0], 'the same for direct resonances')

    def same(cases):
        return [((g[0], g[k], g[k]), (om[0], om[1], om[1]), q, eta, f) for g, om, q, eta, f in cases for k in (1, 2)]
    ctx.explore('jacobian-two-mode', jac3, same(cs), 'two-mode Jacobian')
    ctx.explore('jacobian-two-mode-direct', jac3, same(flip), 'the same for direct resonances')
