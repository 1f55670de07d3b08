"""C25 Polytropic structure obeys hydrostatic and Lane-Emden identities."""
import itertools
import math

import numpy as np

from mc import aes
from mc.core import T, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of polytropic models (index x truncation x grid x mass x radius x units x adiabatic exponent '
                 'x spellings of scalars) on the real structure class against the equations of stellar structure',
    'note': 'Eleven indices between 0.5 and 5 (analytic and integrated Lane-Emden functions), surfaces at and inside the first zero, five '
            'grids, masses and radii over twelve decades, two unit systems, and scalars given as numbers or one-element arrays. '
            'Index zero (no pressure-density relation) is left out.',
}
G_CGS, G_SI = 6.6743e-8, 6.6743e-11


# ------------------------------------------------------------------ Lane-Emden functions
def series(n, z):
    """theta and its derivative near the centre."""
    th = 1. - z ** 2 / 6. + n * z ** 4 / 120. - n * (8. * n - 5.) * z ** 6 / 15120. + n * (122. * n ** 2 - 183. * n + 70.) * z ** 8 / 3265920.
    d = -z / 3. + n * z ** 3 / 30. - n * (8. * n - 5.) * z ** 5 / 2520. + n * (122. * n ** 2 - 183. * n + 70.) * z ** 7 / 408240.
    return th, d


_ZERO = {}


def first_zero(n):
    if n >= 5.:
        return math.inf
    if n not in _ZERO:
        lo, hi = 2., 60.
        z, y = .05, np.array(series(n, .05))
        h = 2e-3
        while True:
            y2 = step(n, z, y, h)
            if y2[0] <= 0.:
                break
            z, y = z + h, y2
        lo, hi = 0., h
        for _ in range(60):
            mid = .5 * (lo + hi)
            if step(n, z, y, mid)[0] > 0.:
                lo = mid
            else:
                hi = mid
        _ZERO[n] = z + lo
    return _ZERO[n]


def step(n, z, y, h):
    def f(z, y):
        return np.array([y[1], -abs(y[0]) ** n - 2. / z * y[1]])
    a = f(z, y)
    b = f(z + .5 * h, y + .5 * h * a)
    c = f(z + .5 * h, y + .5 * h * b)
    d = f(z + h, y + h * c)
    return y + h / 6. * (a + 2. * b + 2. * c + d)


def lane_emden(n, zs):
    if n == 1.:
        with np.errstate(all='ignore'):
            return np.where(zs > 0., np.sin(zs) / zs, 1.), np.where(zs > 0., np.cos(zs) / zs - np.sin(zs) / zs ** 2, 0.)
    if n == 5.:
        w = 1. + zs ** 2 / 3.
        return w ** -.5, -zs / 3. * w ** -1.5
    out = []
    z, y = .05, np.array(series(n, .05))
    for t in zs:
        if t <= .05:
            out.append(series(n, t))
            continue
        k = max(1, int(math.ceil((t - z) / 4e-3)))
        h = (t - z) / k
        for _ in range(k):
            y = step(n, z, y, h)
            z += h
        out.append(y)
    a = np.array(out)
    return a[:, 0], a[:, 1]


def grid(kind, zs):
    u = {'uniform': np.linspace(0., 1., 21), 'no centre': np.linspace(0., 1., 21)[1:], 'dense centre': np.linspace(0., 1., 17) ** 2,
         'dense surface': np.linspace(0., 1., 17) ** .4, 'few': np.array([0., .3, .31, 1.])}
    if kind not in u:                                  # grids of real models: 'uniform 1001', 'centre 2000', 'surface 4097'
        k, n = kind.split()
        t = np.linspace(0., 1., int(n))
        return zs * {'uniform': t, 'centre': t ** 2, 'surface': 1. - (1. - t) ** 2, 'both': t ** 2 * (3. - 2. * t)}[k]
    u = u[kind]
    return u * zs


# ------------------------------------------------------------------ structure
def build_model(n, frac, kind, mass, radius, g, gam, spell):
    from aesolver.polytropic_computations import PaSi
    zs = (first_zero(n) if n < 5. else 20.) * frac
    z = grid(kind, zs)
    th, dth = lane_emden(n, z)
    if frac == 1. and n < 5.:
        th[-1] = max(th[-1], 0.)
    gamma = {'constant': np.full(len(z), 5. / 3.), 'varying': 1.3 + .4 * z / zs}[gam]
    sp = {'float': float, 'array': lambda v: np.array([v]), 'numpy': np.float64,
          'int': lambda v: int(v) if v == int(v) else v}[spell]
    d = {'n_poly': sp(n), 'z': z, 'theta': th, 'dtheta': dth, 'Gamma_1': gamma, 'G': g}
    keep = {k: np.array(v, copy=True) for k, v in d.items()}
    T.call()
    with np.errstate(all='ignore'):
        p = PaSi([d], mass, radius).property_dict
    for k, v in keep.items():
        ensure(np.array_equal(v, d[k]), lambda: f'input {k} was changed from {v} to {d[k]}')
    return p, z, zs, th, dth, gamma


def arr(p, k, m):
    v = np.asarray(p[k], float)
    return np.broadcast_to(v, (m,)) if v.size == 1 else v


def structure(case):
    (n, frac, kind), models, gams, spells = case
    out = []
    for (mass, radius, g), gam, spell in itertools.product(models, gams, spells):
        p, z, zs, th, dth, gamma = build_model(n, frac, kind, mass, radius, g, gam, spell)
        lab = f'n={n} frac={frac} {kind} M={mass:g} R={radius:g} G={g:g} Gamma {gam} ({spell})'
        with np.errstate(all='ignore'):
            want = expected(n, z, zs, th, dth, gamma, mass, radius, g)
        missing = set(want) - set(p)
        ensure(not missing, lambda: f'{lab}: no {sorted(missing)}')
        for k, (w, valid, scale) in want.items():
            got = arr(p, k, len(z))
            w = np.broadcast_to(w, (len(z),))
            ensure(got.shape == w.shape, lambda: f'{lab}: {k} of shape {got.shape}')
            ok = valid & np.isfinite(w)
            bad = ok & ~(np.abs(got - w) <= 1e-9 * np.maximum(np.abs(w), scale))
            ensure(not bad.any(), lambda: f'{lab}: {k} is {got[bad][:3]} instead of {w[bad][:3]} at x={(z / zs)[bad][:3]}')
        for k in ('p0', 'rho0'):
            ensure(np.asarray(p[k]).size == 1, lambda: f'{lab}: central value {k} is {p[k]}')
        out.append([rnd(p['p0'], 6), rnd(p['brunt_n2'], 6)[1:-1]])
    return out


def expected(n, z, zs, th, dth, gamma, mass, radius, g):
    """key -> (value, where it is defined, natural size), from hydrostatic equilibrium, mass conservation and p ~ rho^(1+1/n)."""
    x = z / zs
    r = x * radius
    al = radius / zs
    rho0 = -mass / (4. * math.pi * al ** 3 * zs ** 2 * dth[-1])
    p0 = 4. * math.pi * g * (al * rho0) ** 2 / (n + 1.)
    rho, p = rho0 * th ** n, p0 * th ** (n + 1.)
    mr = -4. * math.pi * al ** 3 * rho0 * z ** 2 * dth
    c = z == 0.
    grav = np.where(c, 0., g * mr / np.where(c, 1., r) ** 2)
    goverr = np.where(c, 4. / 3. * math.pi * g * rho0, grav / np.where(c, 1., r))
    g2 = 4. * math.pi * g * rho - 2. * goverr
    dp = -rho * grav
    hp = np.where(c, 0., dp / p)
    drho = rho * n / (n + 1.) * hp
    g3 = np.where(c, 0., 4. * math.pi * g * drho - 2. * (g2 - goverr) / np.where(c, 1., r))
    dp2 = -(drho * grav + rho * g2)
    # logarithmic derivatives of p along r
    h1 = dp2 / p - hp ** 2
    drho2 = n / (n + 1.) * (drho * hp + rho * h1)
    dp3 = -(drho2 * grav + 2. * drho * g2 + rho * g3)
    h2 = dp3 / p - dp2 * dp / p ** 2 - 2. * hp * h1
    drho3 = n / (n + 1.) * (drho2 * hp + 2. * drho * h1 + rho * h2)
    u = np.where(c, 3., 4. * math.pi * r ** 3 * rho / np.where(c, 1., mr))
    v = np.where(c, 0., rho * grav * r / p)
    v2 = np.where(c, (n + 1.) * zs ** 2 / 3., v / np.where(c, 1., x) ** 2)
    c1 = np.where(c, mass / (4. / 3. * math.pi * rho0 * radius ** 3), x ** 3 * mass / np.where(c, 1., mr))
    a = dict(rho0=rho0, p0=p0, rho=rho, p=p, r=r, mr=mr, surfgrav=grav, dgravpot=grav, dgravpot2=g2, dgravpot3=g3, dp=dp, dp2=dp2, dp3=dp3,
             drho=drho, drho2=drho2, drho3=drho3, u=u, v=v, v2=v2, c1=c1,
             brunt_n2=goverr * v * (n / (n + 1.) - 1. / gamma))
    a['as'] = v * (n / (n + 1.) - 1. / gamma)
    inside = th > 1e-6
    size = {}
    for k in a:
        base, o = (k[:-1], int(k[-1])) if k[-1] in '23' and k != 'v2' and k != 'brunt_n2' else (k, 1)
        if base in ('dp', 'drho'):
            size[k] = {'dp': p0, 'drho': rho0}[base] / al ** o
        elif base == 'dgravpot':
            size[k] = 4. * math.pi * g * rho0 * al / al ** (o - 1)
        else:
            size[k] = 0.
    # the third derivatives of potential, pressure and density hold a difference of equal numbers close to the centre
    near = np.where(c, 0., .1 * 4. * math.pi * g * rho0 / np.where(c, 1., r))
    for k, unit in (('dgravpot3', 1.), ('dp3', rho0), ('drho3', rho0 ** 2 / p0)):
        size[k] = size[k] + near * unit
    deep = th > 2e-3                                     # higher derivatives cancel like 1/theta^2 above
    return {k: (np.asarray(w, float), deep if k in ('dp2', 'dp3', 'drho2', 'drho3') else inside if k in ('v', 'v2', 'as', 'brunt_n2', 'drho') else
                np.ones(len(z), bool), 1e-3 * size[k]) for k, w in a.items()}


def scaling(case):
    """Scaling mass, radius and G multiplies every quantity by the power its dimension dictates."""
    n, frac, kind, gam = case
    powers = {'rho': (1, -3, 0), 'rho0': (1, -3, 0), 'p': (2, -4, 1), 'p0': (2, -4, 1), 'r': (0, 1, 0), 'mr': (1, 0, 0),
              'surfgrav': (1, -2, 1), 'brunt_n2': (1, -3, 1), 'dgravpot': (1, -2, 1), 'dgravpot2': (1, -3, 1), 'dgravpot3': (1, -4, 1),
              'dp': (2, -5, 1), 'dp2': (2, -6, 1), 'dp3': (2, -7, 1), 'drho': (1, -4, 0), 'drho2': (1, -5, 0), 'drho3': (1, -6, 0),
              'u': (0, 0, 0), 'v': (0, 0, 0), 'v2': (0, 0, 0), 'c1': (0, 0, 0), 'as': (0, 0, 0)}
    ref = build_model(n, frac, kind, 1., 1., 1., gam, 'float')[0]
    for fm, fr, fg in itertools.product((1., 3., 1e-5), (1., .5, 1e4), (1., 1e-8)):
        p = build_model(n, frac, kind, fm, fr, fg, gam, 'float')[0]
        for k, (a, b, c) in powers.items():
            got, w = np.asarray(p[k], float), np.asarray(ref[k], float) * fm ** a * fr ** b * fg ** c
            with np.errstate(all='ignore'):
                ok = (np.abs(got - w) <= 1e-10 * np.abs(w)) | ~np.isfinite(w)
            ensure(ok.all(), lambda: f'n={n} {kind}: {k} scales by {got / np.asarray(ref[k])}, mass {fm}, radius {fr}, G {fg} (powers {a, b, c})')
    return rnd(ref['brunt_n2'][1:-1], 6)


def run(ctx):
    aes.use(ctx)
    ns = ctx.pick((.5, 1., 1.5, 3., 3.25, 5.), (.5, .75, 1., 1.5, 2., 2.5, 3., 3.25, 4., 4.5, 5.))
    models = [(1.989e33, 6.957e10, G_CGS), (3. * 1.989e30, 2. * 6.957e8, G_SI), (1., 1., 1.), (1e-3, 1e6, G_CGS)]
    kinds = ('uniform', 'no centre', 'dense centre', 'dense surface', 'few')
    ctx.explore('structure', structure, [(c, models, ('constant', 'varying'), ('float', 'array', 'numpy', 'int'))
                                         for c in itertools.product(ns, (.5, .9, 1.), kinds)], 'all polytropic models', limit=120)
    ctx.explore('scaling', scaling, [(n, f, k, 'varying') for n in ns for f in (.9, 1.) for k in ('no centre', 'dense surface')],
                'dimensional scaling', limit=120)
    ctx.explore('large', structure, [((n, f, k + f' {m}'), models[:2], ('varying',), ('float',)) for n in ns for f in (.9, 1.)
                                     for m in ctx.pick((500, 1001, 4097), (500, 1001, 2000, 4097, 20001)) for k in ('uniform', 'centre', 'surface', 'both')],
                'grids of real models', limit=300)
