"""C24 Hough functions keep equatorial parity, their equations and normalisation."""
import itertools
import math

import numpy as np

from mc import aes
from mc.core import T, close, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of parities, resolutions, degrees, orders, spins, definitions and eigenvalue guesses '
                 'on the real transform and Hough solver against independent spectral differentiation of the tidal equation',
    'note': 'Every basis polynomial of every parity for all resolutions of 2 to 24 (48) points; all degrees up to 4 (6) with all orders, '
            '9 (15) spins and the three definitions at 96 points; all guesses of the eigenvalue on a lattice; all three-valued '
            'functions of up to 5 (6) samples for the normalisation.',
}
cheb = np.polynomial.chebyshev


def transform(n):
    from cheby_transform import ChebyTransform
    T.call()
    return ChebyTransform(npts=n)


def basis(case):
    """Every basis function of the stated parity is differentiated exactly."""
    n, par, pf = case
    t = transform(n)
    size = n // 2
    th = np.pi * (np.arange(size) + .5) / (2 * size)
    mu, s = np.cos(th), np.sin(th)
    ensure(close(t.mu, mu, 1e-14) and close(t.s, s, 1e-13), lambda: f'n={n}: grid {t.mu} {t.s}')
    out = []
    c2, c1, c0 = 1. + mu, mu - .5, 2. - mu ** 2
    tol = 1e-13 * (4. * size) ** 4
    for j in range(par, 2 * size, 2):
        e = np.zeros(j + 1)
        e[j] = 1.
        p = cheb.chebval(mu, e)
        p1 = cheb.chebval(mu, cheb.chebder(e)) if j > 0 else 0. * mu
        p2 = cheb.chebval(mu, cheb.chebder(e, 2)) if j > 1 else 0. * mu
        if pf:
            f, f1 = s * p, s * p1 - mu / s * p
            f2 = s * p2 - 2. * mu / s * p1 - p / s ** 3
        else:
            f, f1, f2 = p, p1, p2
        T.call(4)
        for name, got, want in (('first derivative', t.diff1(f, par, pf), f1), ('second derivative', t.diff2(f, par, pf), f2),
                                ('operator of first order', t.apply(f, c0, c1, None, par, pf), c0 * f + c1 * f1),
                                ('operator of second order', t.apply(f, c0, c1, c2, par, pf), c0 * f + c1 * f1 + c2 * f2)):
            ensure(np.all(np.abs(got - want) <= tol * (1. + np.abs(want).max())),
                   lambda: f'n={n} parity={par} factor={pf}: {name} of basis function {j} is {got} instead of {want}')
            out.append(rnd(np.abs(got).max(), 4))
    # eigenfunctions of the non-rotating operator of this parity are found by the eigensolver
    if size >= 3:
        m = pf
        T.call()
        val, vec = t.solve_eig(-m ** 2 / s ** 2, -2. * mu, s ** 2, par, pf)
        full = lambda v: s ** 2 * t.diff2(v, par, pf) - 2. * mu * t.diff1(v, par, pf) - m ** 2 / s ** 2 * v  # noqa: E731
        for k in range(len(val)):
            v = vec[:, k]
            ensure(np.abs(full(v) - val[k] * v).max() <= 1e-9 * (4. * size) ** 4 * np.abs(v).max(),
                   lambda: f'n={n} parity={par} factor={pf}: pair {k} does not solve the eigenproblem')
        for l in range(m + (par if m == 0 else par), size, 2):
            if l == 0:
                continue
            ensure(np.abs(val + l * (l + 1.)).min() <= 1e-9 * (4. * size) ** 3,
                   lambda: f'n={n} parity={par} factor={pf}: no eigenvalue -{l}({l}+1) in {val}')
    return out


# ------------------------------------------------------------------ Hough functions
NPTS = 96
KEYS = ('hr', 'ht', 'hp', 'theta_der_hr', 'theta_der_ht', 'theta_der_hp', 'theta_phi', 'phi_phi', 'mhr', 'theta_der2_hr',
        'theta_der_hr_theta', 'theta_der2_hr_theta', 'theta_der_ht_theta', 'theta_der_hp_theta')


def bary(n, _c={}):
    """Nodes and differentiation matrix of the Chebyshev points (independent of the code)."""
    if n not in _c:
        k = np.arange(n)
        x = -np.cos(np.pi * (k + .5) / n)
        w = (-1.) ** k * np.sin(np.pi * (k + .5) / n)
        d = (w[None, :] / w[:, None]) / (x[:, None] - x[None, :] + np.eye(n))
        np.fill_diagonal(d, 0.)
        np.fill_diagonal(d, -d.sum(axis=1))
        _c[n] = x, d
    return _c[n]


def deriv(f, pw, times=1):
    """Derivatives of s^pw * (smooth function) with respect to mu."""
    n = len(f)
    x, d = bary(n)
    s = np.sqrt(1. - x * x)
    p = f / s ** pw
    p1 = d @ p
    f1 = s ** pw * p1 - pw * x * s ** (pw - 2) * p
    if times == 1:
        return f1
    p2 = d @ p1
    return (s ** pw * p2 - 2. * pw * x * s ** (pw - 2) * p1
            + pw * (-s ** (pw - 2) + (pw - 2) * x * x * s ** (pw - 4)) * p)


def spectrum(nu, m, par, _c={}):
    """Resolved eigenvalues (negative, real) of the tidal operator of one parity, by own collocation on the full grid."""
    key = nu, m, par
    if key in _c:
        return _c[key]
    sets = []
    for n in (NPTS, NPTS + 24):
        x, d = bary(n)
        s2 = 1. - x * x
        s = np.sqrt(s2)
        pf = m % 2
        D = (s ** pf)[:, None] * d - np.diag(pf * x * s ** (pf - 2.) * np.ones(n)) if pf else d
        D2 = ((s ** pf)[:, None] * (d @ d) - 2. * pf * (x * s ** (pf - 2.))[:, None] * d
              + np.diag(pf * (-s ** (pf - 2.) + (pf - 2.) * x * x * s ** (pf - 4.)))) if pf else d @ d
        den = 1. - nu ** 2 * x * x
        A = ((s2 / den)[:, None] * D2 + (-2. * x * (1. - nu ** 2) / den ** 2)[:, None] * D
             + np.diag((nu * m * (1. + nu ** 2 * x * x) / den ** 2 - m * m / (s2 * den)) * s ** pf))
        A = A / (s ** pf)[:, None]
        half = n // 2                                    # reduce to one parity
        sg = 1. if par == 0 else -1.
        R = A[half:, half:] + sg * A[half:, :half][:, ::-1]
        val = np.linalg.eigvals(R)
        sets.append(np.sort(val.real[np.abs(val.imag) < 1e-6 * (1. + np.abs(val.real))]))
    a, b = sets
    good = [v for v in a if v < -1e-3 and np.abs(b - v).min() < 1e-5 * abs(v)]
    _c[key] = np.array(good)
    return _c[key]


def hough(nu, l, m, defn, lmbd=None, adjust=True, npts=NPTS):
    from aesolver.angular_integration import HFHandler as H
    T.call()
    return H.get_relevant_hough_output(nu=nu, l=l, m=m, npts=npts, lmbd=lmbd, definition=defn, lmbd_adjust=adjust)


def solved(case):
    """One mode and spin: the tidal equation, parity, derived functions and all their derivatives."""
    nu, l, m, defn = case
    d, x, th = hough(nu, l, m, defn)
    ensure(set(KEYS) <= set(d), lambda: f'functions {sorted(d)}')
    mu, dm = bary(NPTS)
    ensure(close(x, mu, 1e-12, 1e-14) and close(np.cos(th), mu, 1e-12, 1e-14), 'grid is not the Chebyshev grid from south to north')
    s = np.sqrt(1. - mu ** 2)
    pf, par = m % 2, (l - m) % 2
    den = 1. - nu ** 2 * mu ** 2
    hr = np.asarray(d['hr'])
    sg = -1. if par else 1.
    for k, odd in (('hr', 0), ('ht', 1), ('hp', 0), ('theta_der_hr', 1), ('theta_der_ht', 0), ('theta_der_hp', 1), ('theta_phi', 1),
                   ('phi_phi', 0), ('mhr', 0), ('theta_der2_hr', 0), ('theta_der_hr_theta', 1), ('theta_der2_hr_theta', 0),
                   ('theta_der_ht_theta', 0), ('theta_der_hp_theta', 1)):
        a = np.asarray(d[k])
        ensure(a.shape == mu.shape and a.dtype == np.float64, f'{k}: shape or type')
        want = sg * (-1. if odd else 1.) * a[::-1]
        ensure(np.abs(a - want).max() <= 1e-9 * np.abs(a).max(), lambda: f'{case}: {k} does not have definite parity about the equator')
    ensure(abs(np.abs(hr).max() - 1.) < 1e-12, lambda: f'{case}: largest value of hr is {np.abs(hr).max()}')
    ensure(hr[NPTS // 2] > -1e-9, lambda: f'{case}: hr is negative north of the equator')

    def same(name, got, want, tol=1e-6):
        got = np.asarray(got)
        ensure(np.abs(got - want).max() <= tol * (np.abs(want).max() + 1e-3),
               lambda: f'{case}: {name} differs by {np.abs(got - want).max():.3g} (size {np.abs(want).max():.3g})')
    h1, h2 = deriv(hr, pf), deriv(hr, pf, 2)
    same('theta_der_hr', d['theta_der_hr'], h1)
    same('theta_der2_hr', d['theta_der2_hr'], h2, 1e-5)
    # the equation, multiplied by its denominators; its eigenvalue by projection
    lhs = s ** 4 * den * h2 - 2. * mu * (1. - nu ** 2) * s ** 2 * h1 + (nu * m * (1. + nu ** 2 * mu ** 2) * s ** 2 - m * m * den) * hr
    rhs = s ** 2 * den ** 2 * hr
    lam = float((lhs * rhs).sum() / (rhs * rhs).sum())
    size = max(np.abs(s ** 4 * den * h2).max(), np.abs(rhs * lam).max(), 1.)
    ensure(np.abs(lhs - lam * rhs).max() <= 1e-6 * size,
           lambda: f'{case}: tidal equation is off by {np.abs(lhs - lam * rhs).max():.3g} (terms of size {size:.3g})')
    sp = spectrum(nu, m, par)
    guess = -l * (l + 1.)
    gap = np.sort(np.abs(sp - guess))
    # the constant solution of eigenvalue zero may stand in for a guess that is nearer to zero than to every mode
    if gap[1] - gap[0] > 1e-6 * abs(guess) and (m or par or gap[0] < abs(guess)):
        ensure(abs(lam - sp[np.argmin(np.abs(sp - guess))]) <= 1e-5 * abs(lam),
               lambda: f'{case}: eigenvalue {lam}, nearest to {guess} is {sp[np.argmin(np.abs(sp - guess))]}')
    if nu == 0.:
        from scipy.special import lpmv
        ensure(abs(lam - guess) <= 1e-7 * abs(guess), lambda: f'{case}: eigenvalue {lam} instead of {guess} without rotation')
        P = lpmv(abs(m), l, mu)
        P = P / np.abs(P).max()
        ensure(min(np.abs(hr - P).max(), np.abs(hr + P).max()) < 1e-7, lambda: f'{case}: hr is no Legendre function without rotation')
    # latitudinal and azimuthal functions of the definition
    fac = s if defn == 'townsend' else 1.
    sgn = 1. if defn == 'prat' else -1.
    wt = fac * (-s ** 2 * h1 - m * nu * mu * hr) / (s * den)
    wp = fac * sgn * (nu * mu * s ** 2 * h1 + m * hr) / (s * den)
    same('ht', d['ht'], wt, 1e-5)
    same('hp', d['hp'], wp, 1e-5)
    ht, hp = np.asarray(d['ht']), np.asarray(d['hp'])
    same('theta_phi', d['theta_phi'], sgn * m * ht - mu * hp, 1e-12)
    same('phi_phi', d['phi_phi'], (mu * ht - sgn * m * hp) / s, 1e-12)
    if defn != 'townsend':                # the horizontal divergence of the displacement is the eigenvalue times its radial part
        same('horizontal divergence', np.asarray(d['theta_der_ht_theta']) + np.asarray(d['phi_phi']), lam * hr, 1e-4)
    same('mhr', d['mhr'], -m * hr, 1e-12)
    pw = pf if defn == 'townsend' else 1 - pf
    same('theta_der_ht', d['theta_der_ht'], deriv(ht, pw), 2e-5)
    same('theta_der_hp', d['theta_der_hp'], deriv(hp, pw), 2e-5)
    for k in ('theta_der_hr', 'theta_der_ht', 'theta_der_hp'):
        same(k + '_theta', d[k + '_theta'], -s * np.asarray(d[k]), 1e-12)
    same('theta_der2_hr_theta', d['theta_der2_hr_theta'], s ** 2 * np.asarray(d['theta_der2_hr']) - mu * np.asarray(d['theta_der_hr']), 1e-12)
    return rnd(lam, 6)


def guess(case):
    """Any given eigenvalue selects the nearest eigenfunction, in every spelling of the guess."""
    nu, l, m, lam = case
    par = (l - m) % 2
    sp = spectrum(nu, m, par)
    out = []
    for spelling, adj in ((lambda v: v, True), (lambda v: -v, False), (lambda v: [v, v], True), (lambda v: [-v, -v], False),
                          (lambda v: np.array([v, v]), True), (lambda v: complex(v, 0.), True)):
        d, x, _ = hough(nu, l, m, 'prat', spelling(lam), adj)
        hr = np.asarray(d['hr'])
        mu, _ = bary(NPTS)
        pf = m % 2
        den = 1. - nu ** 2 * mu ** 2
        s2 = 1. - mu ** 2
        h1, h2 = deriv(hr, pf), deriv(hr, pf, 2)
        lhs = s2 ** 2 * den * h2 - 2. * mu * (1. - nu ** 2) * s2 * h1 + (nu * m * (1. + nu ** 2 * mu ** 2) * s2 - m * m * den) * hr
        rhs = s2 * den ** 2 * hr
        got = float((lhs * rhs).sum() / (rhs * rhs).sum())
        ds = np.sort(np.abs(sp + lam))
        if ds[1] - ds[0] < 1e-4 * abs(lam) or (not m and not par and ds[0] >= abs(lam)):
            continue
        want = sp[np.argmin(np.abs(sp + lam))]
        ensure(abs(got - want) <= 1e-4 * abs(want), lambda: f'{case}: eigenvalue {got} chosen instead of {want} (of {sp})')
        out.append(rnd(got, 5))
    return out


def norm(case):
    """Normalisation factors of arbitrary tabulated functions."""
    kind, vals = case
    from hough_function import HNorm
    n = len(vals)
    mu = {'cheby': bary(n)[0], 'uniform': np.linspace(-1., 1., n), 'unequal': np.linspace(-1., 1., n) ** 3}[kind]
    hr = np.array(vals, dtype=float)
    out = []
    for par, thr in ((False, 4), (True, 1), (True, 3)):
        for name in ('lee2012', 'LEE2012', 'prat2019', 'Prat2019'):
            k = hr.copy(), mu.copy()
            T.call()
            with np.errstate(all='ignore'):
                f = HNorm.get_norm_factor(name, mu, hr, thr, par)
            ensure(np.array_equal(k[0], hr) and np.array_equal(k[1], mu), 'an argument was changed')
            if name.lower() == 'lee2012':
                I = float((.5 * (hr[1:] ** 2 + hr[:-1] ** 2) * np.diff(mu)).sum())
                if I == 0.:
                    continue
                ensure(close(2. * math.pi * f * f * I, 1., 1e-11), lambda: f'{case} {name}: 2 pi f^2 integral = {2 * math.pi * f * f * I}')
            else:
                if not np.any(hr):
                    continue
                ensure(close(np.abs(f * hr).max(), 1., 1e-12), lambda: f'{case} {name}: largest value {np.abs(f * hr).max()}')
            out.append(rnd(f, 8))
    for bad in ('lee', '', 'lee2012 ', 'prat'):
        try:
            HNorm.get_norm_factor(bad, mu, hr)
        except SystemExit:
            continue
        ensure(False, f'unknown normalisation {bad!r} was accepted')
    return out


def resolution(case):
    """The functions do not depend on the number of points: those of other grids agree with the ones examined above."""
    nu, l, m, defn, npts = case
    d, x, th = hough(nu, l, m, defn, npts=npts)
    r = hough(nu, l, m, defn)[0]
    mu, _ = bary(NPTS)
    ensure(len(x) == npts and close(x, bary(npts)[0], 1e-12, 1e-14) and close(np.cos(th), x, 1e-12, 1e-14), lambda: f'{case}: grid {x}')
    s, t = np.sqrt(1. - mu ** 2), np.sqrt(1. - np.asarray(x) ** 2)
    pf = m % 2
    odd = dict.fromkeys(KEYS, 1 - pf)
    odd.update(dict.fromkeys(('hr', 'theta_der_hr', 'theta_der2_hr', 'mhr', 'theta_der2_hr_theta', 'phi_phi', 'theta_der_ht_theta', 'theta_der_hp_theta'), pf))
    if defn == 'townsend':
        odd.update({k: 1 - odd[k] for k in ('ht', 'hp', 'theta_der_ht', 'theta_der_hp', 'theta_phi', 'phi_phi', 'theta_der_ht_theta', 'theta_der_hp_theta')})
    on = lambda k, p: cheb.chebval(x, cheb.chebfit(mu, np.asarray(r[k]) * s ** p, NPTS - 1))  # noqa: E731
    size = np.abs(on('hr', pf) / t ** pf).max()                   # the largest tabulated value is one on every grid
    for k in KEYS:
        want = on(k, odd[k] + 4) / size
        got = np.asarray(d[k]) * t ** (odd[k] + 4)
        err = np.abs(got - want).max()
        ensure(err <= 1e-6 * (np.abs(want).max() + 1e-3), lambda: f'{case}: {k} is off by {err:.3g} of {np.abs(want).max():.3g} from the 96 points')
    return rnd(float(np.abs(d['ht']).max()), 4)


SHAPES = {'constant': lambda x: 1. + 0. * x, 'odd': lambda x: x, 'polar': lambda x: x ** 40, 'equatorial': lambda x: np.exp(-200. * x ** 2),
          'wave': lambda x: np.cos(37. * x + 1.), 'north': lambda x: (x > .9) * 1., 'one sample': lambda x: (np.arange(len(x)) == len(x) // 3) * 1.}


def norm_long(case):
    kind, n, shape, amp = case
    mu = {'cheby': lambda: bary(n)[0], 'uniform': lambda: np.linspace(-1., 1., n), 'unequal': lambda: np.linspace(-1., 1., n) ** 3}[kind]()
    return norm((kind, tuple((amp * SHAPES[shape](mu)).tolist())))


def run(ctx):
    aes.use(ctx)
    N = ctx.pick(24, 48)
    ctx.explore('basis', basis, list(itertools.product(range(2, N + 1), (0, 1), (0, 1))),
                'all basis functions of both parities and both sine factors at every resolution')
    L = ctx.pick(4, 6)
    nus = ctx.pick((0., .3, -.3, .9, -.9, 1.7, -1.7, 4.3, -4.3), (0., .1, -.1, .3, -.3, .7, -.7, .95, -.95, 1.3, -1.3, 2.1, -2.1, 4.3, -4.3))
    ctx.explore('solved', solved, [(nu, l, m, defn) for l in range(1, L + 1) for m in range(-l, l + 1) for nu in nus
                                   for defn in ('prat', 'lee_saio_equivalent', 'townsend')], 'modes x spins x definitions')
    ctx.explore('guess', guess, [(nu, l, m, g) for nu in ctx.pick((0., .3, -1.7), (0., .3, -.3, 1.7, -1.7, 4.3)) for l, m in ((1, 0), (1, 1), (2, 0), (2, -1), (2, 2), (3, -1))
                                 for g in ctx.pick((1., 2.5, 5., 7., 14., 31.), (.7, 1., 1.6, 2.5, 4., 5., 7., 9., 14., 22., 31., 43.))],
                'guesses of the eigenvalue in every spelling')
    ctx.explore('resolution', resolution, [(nu, l, m, defn, n) for l in range(1, ctx.pick(3, 5)) for m in range(-l, l + 1)
                                           for nu in ctx.pick((0., .3, -1.7), (0., .3, -.3, .9, 1.7, -1.7)) for defn in ('prat', 'lee_saio_equivalent', 'townsend')
                                           for n in ctx.pick((60, 100, 200), (50, 60, 100, 150, 200, 400))], 'other numbers of points')
    K = ctx.pick(5, 6)
    ctx.explore('norm', norm, [(k, v) for n in range(2, K + 1) for v in itertools.product((0., 1., -2.), repeat=n) if any(v)
                               for k in ('cheby', 'uniform', 'unequal')], 'all three-valued functions on three grids')
    ctx.explore('norm-long', norm_long, [(k, n, shape, amp) for n in ctx.pick((63, 64, 65, 100, 200, 255, 1001), (63, 64, 65, 100, 127, 200, 255, 513, 1001, 4097))
                                         for k in ('cheby', 'uniform', 'unequal') for shape in SHAPES for amp in (1., -3e-9, 7e12)],
                'functions of the lengths used in runs')
    ctx.assumptions.append('spins are real and not of magnitude exactly one; 96 collocation points resolve the modes examined')
