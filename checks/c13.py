"""C13 The coupling coefficient is symmetric and correctly normalised."""
import itertools
import math

import numpy as np

from mc import aes
from mc.core import Fail, T, close, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of mode triads, conjugation patterns, rotation rates, structure models and options on '
                 'the real coupling-coefficient object against the third-order tensor integral and rotational symmetry',
    'note': 'All triads of degrees up to 2 (3) with all azimuthal orders, all conjugation patterns, three (four) rotation rates, all six '
            'orderings, every eigenfunction scale of a small alphabet, eight structure set-ups (three grids, numerical and symbolic '
            'derivatives, polytropes), every integration option, and every rotated copy of every triad. Radial grids of 8 to 24 points, and '
            'of up to 1000 (3001) points for chosen triads.',
}
OM = (1.3, .8, .5)                       # dimensionless frequencies in the corotating frame
G0, M0, R0 = 6.67430e-8, 1.989e33, 6.957e10
UNIT = math.sqrt(G0 * M0 / R0 ** 3)
HNAMES = ('hr', 'ht', 'hp')


# ------------------------------------------------------------------ star and modes
def star(n, bend=1.1):
    """Sphere of the n=1 polytrope with made-up adiabatic exponent (arrays in centre-to-surface order)."""
    x = np.linspace(0., 1., n) ** bend
    z = np.where(x > 0., np.pi * x, 1.)
    th = np.maximum(np.where(x > 0., np.sin(z) / z, 1.), 1e-6)
    dth = np.where(x > 0., (np.cos(z) * z - np.sin(z)) / z ** 2, 0.)
    rho = np.pi * M0 / (4. * R0 ** 3) * th
    mr = -M0 * np.pi * x ** 2 * dth
    P = 2. * G0 * R0 ** 2 / np.pi * rho ** 2
    gam = 5. / 3. + .1 * x
    g = G0 * mr / np.where(x > 0., (x * R0) ** 2, 1.)
    n2 = g ** 2 * rho / P * (1. / gam - .5)
    return dict(x=x, rho=rho, mr=mr, P=P, gam=gam, n2=n2, v2=2. + x, a=.5 * x ** 2 * (1. + x), u=3. - 2. * x ** 2, c1=1. + 1.5 * x,
                gder=1e-3 / rho[0] * (1. + x), g2=1. + x - x ** 2, g3=.3 - x ** 3, g1=x * (2. - x))


def mode(k, x, l, lam, scale=1.):
    y1 = scale * ((1. + k) * np.cos(2. * (k + 1.) * x) * x + .3)
    y2 = scale * (np.sin(1.5 * (k + 2.) * x) * x + .2 * (k + 1.))
    d = {'n': len(x), 'x': x, 'y_1': y1, 'y_2': y2, 'l': l, 'lambda': np.full(len(x), lam)}
    d.update({s: np.zeros(len(x)) for s in ('xi_r', 'xi_h', 'eul_phi', 'deul_phi', 'lag_L_dim')})
    return d


def poly_profile(s):
    """Polytropic structure dictionary, surface last; derivatives of the potential are made up when given analytically."""
    r = s['x'] * R0
    gref = G0 * M0 / R0 ** 2
    d = dict(r=r, p=s['P'], rho=s['rho'], mr=s['mr'], brunt_n2=s['n2'], c1=s['c1'], v2=s['v2'], u=s['u'], G=G0, n_poly=1.,
             p0=np.float64(s['P'][0]), rho0=np.float64(s['rho'][0]), dgravpot=gref * s['g1'], dgravpot2=gref / R0 * s['g2'],
             dgravpot3=gref / R0 ** 2 * s['g3'])
    d['as'] = s['a']
    for k in ('drho', 'drho2', 'drho3', 'dp', 'dp2', 'dp3'):
        d[k] = np.zeros(len(r))
    return d


SETUPS = ('mesa', 'mesa numeric', 'mesa no buoyancy', 'mesa other grid', 'modes other grids', 'polytrope', 'polytrope analytic',
          'polytrope numeric', 'polytrope other grid', 'polytrope other grid analytic', 'polytrope other grid numeric')


class Case:
    """One coupling object with everything needed to predict it."""

    def __init__(self, ls, ms, conj=None, rot=0., setup='mesa', n=9, npts=24, scale=(1., 1., 1.), order=(0, 1, 2), spell=None,
                 om=OM, bend=1.1, same=False, **kw):
        from aesolver.coupling_coefficients import QCCR
        self.setup, self.rot, self.npts, self.n = setup, rot, npts, n
        self.ls, self.ms = [ls[i] for i in order], [ms[i] for i in order]
        self.om = [om[i] for i in order]
        self.nu = [2. * rot / w for w in self.om]
        self.conj = (True, False, False) if conj is None else tuple(conj)
        self.lam = [eigenvalue(self.nu[k], self.ls[k], self.ms[k], npts) for k in range(3)]
        s = star(n, bend)
        x = s['x']
        grids = [x, x, x]
        if setup == 'modes other grids':
            grids = [np.linspace(0., 1., n - 2), x, np.linspace(0., 1., n - 1) ** .9]
            grids = [grids[i] for i in order]
        self.modes = [mode(0 if same else order[k], grids[k], self.ls[k], self.lam[k], scale[order[k]]) for k in range(3)]
        prof_star = s
        if setup == 'mesa other grid':
            prof_star = star(n + 4, .95)
        polytropic = setup.startswith('poly')
        if polytropic:
            prof = poly_profile(s)
            if 'other grid' in setup:
                p = prof_star = star(n + 4, .95)
                prof = poly_profile(p)
                s = {k: (s[k] if k in ('x', 'gam') else np.interp(x, p['x'], v)) for k, v in p.items()}
            common = dict(Omega_rot=0. * x, G=G0, M_star=M0, R_star=R0, Gamma_1=s['gam'])
            kw.update(polytropic=True, analytic_polytrope=setup.endswith('analytic'))
        else:
            p = prof_star
            prof = dict(radius=(p['x'] * R0)[::-1].copy(), brunt_N2=p['n2'][::-1].copy(), gamma_1_adDer=p['gder'][::-1].copy())
            common = dict(P=s['P'], rho=s['rho'], M_r=s['mr'], Gamma_1=s['gam'], G=G0, M_star=M0, R_star=R0, T=1e6 + 0. * x, V_2=s['v2'],
                          As=s['a'], U=s['u'], c_1=s['c1'], Omega_rot=0. * x, Delta_p=1., Delta_g=1.)
        for m in self.modes:
            m.update({k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in common.items()})
        if setup.endswith('numeric'):
            kw['use_symbolic_derivatives'] = False
        if setup.endswith('no buoyancy'):
            kw['use_brunt_def'] = False
        self.s, self.prof_star = s, prof_star
        fh = aes.Bag(dimless_corot_omegas=np.array(self.om), corot_mode_omegas=UNIT * np.array(self.om), spin_factors=np.array(self.nu),
                     surf_rot_angular_freq=rot * UNIT)
        self.kw = dict(kw)
        T.call()
        self.q = QCCR(*self.modes, prof, fh, list(self.ls), list(self.ms), npoints=npts,
                      conj_cc=(conj if spell is None else spell[0]), **kw)

    def compute(self):
        T.call()
        self.q.adiabatic_coupling_rot()
        return self.terms()

    def terms(self):
        return np.array([float(np.asarray(v).ravel()[0]) for v in self.q.coupling_terms_quadratic])

    @property
    def total(self):
        return float(np.asarray(self.q.coupling_coefficient).ravel()[0])

    @property
    def selected(self):
        return sum(-m if c else m for m, c in zip(self.ms, self.conj)) == 0

    # -------------------------------------------------------------- prediction
    def radial(self, k):
        """z1, zh, their gradients and the divergence of unnormalised mode k on the cut grid."""
        s, x = self.s, self.s['x'][1:-1]
        m = self.modes[k]
        f = x ** (self.ls[k] - 2) * math.sqrt(4. * math.pi)
        z1 = np.interp(self.s['x'], m['x'], m['y_1'])[1:-1] * f
        z2 = np.interp(self.s['x'], m['x'], m['y_2'])[1:-1] * f
        c = {a: s[a][1:-1] for a in ('v2', 'gam', 'c1', 'a', 'u', 'rho')}
        cw = c['c1'] * self.om[k] ** 2
        vg = c['v2'] * x ** 2 / c['gam']
        zh = z2 / cw
        if self.kw.get('use_symbolic_derivatives', True):
            d1 = (vg - 2.) * z1 + (self.lam[k] / cw - vg) * z2
            d2 = (1. - c['a'] / cw) * z1 + ((c['a'] - c['u'] - 1.) / cw
                                           + 4. * np.pi * c['rho'] / (M0 / R0 ** 3 * self.om[k] ** 2)) * z2
        else:
            d1, d2 = np.gradient(x * z1, x, edge_order=2), np.gradient(x * zh, x, edge_order=2)
        return z1, zh, d1, d2, (z1 - z2) * vg

    def potential(self):
        """First, second and third derivative of the gravitational potential on the cut grid."""
        s = {k: v[1:-1] for k, v in self.s.items()}
        r = s['x'] * R0
        gref = G0 * M0 / R0 ** 2
        if self.setup.endswith('analytic'):
            return gref * s['g1'], gref / R0 * s['g2'], gref / R0 ** 2 * s['g3']
        g = G0 * s['mr'] / r ** 2
        if not self.kw.get('use_symbolic_derivatives', True):
            g2 = np.gradient(g, r, edge_order=2)
            return g, g2, np.gradient(g2, r, edge_order=2)
        n2 = np.interp(self.s['x'], self.prof_star['x'], self.prof_star['n2'])[1:-1]
        drho = s['rho'] * (-s['rho'] * g / (s['gam'] * s['P']) - n2 / g)
        if self.setup.endswith('no buoyancy'):
            drho = np.gradient(s['rho'], r, edge_order=2)
        g2 = 4. * np.pi * G0 * s['rho'] - 2. * g / r
        return g, g2, 4. * np.pi * G0 * drho + 2. / r * (g / r - g2)

    def tensors(self, norms):
        """Gradient tensor, displacement (over R) and divergence of each normalised, possibly conjugated, mode."""
        x = self.s['x'][1:-1]
        out = []
        for k in range(3):
            mu, h = hough(self.nu[k], self.ls[k], self.ms[k], self.npts)
            s, m = np.sqrt(1. - mu ** 2), self.ms[k]
            hr, ht, hp = (h[a] for a in HNAMES)
            hrt, htt, hpt = (h[f'theta_der_{a}_theta'] for a in HNAMES)
            z1, zh, d1, d2, dv = (norms[k] * v for v in self.radial(k))
            t = np.zeros((3, 3, len(x), len(mu)), complex)
            o = np.outer
            t[0, 0], t[0, 1], t[0, 2] = o(d1, hr), o(d2, ht), 1j * o(d2, hp)
            t[1, 0], t[1, 1], t[1, 2] = o(z1, hrt) - o(zh, ht), o(zh, htt) + o(z1, hr), 1j * o(zh, hpt)
            t[2, 0], t[2, 1] = 1j * (o(z1, m * hr / s) - o(zh, hp)), 1j * o(zh, (m * ht - mu * hp) / s)
            t[2, 2] = o(z1, hr) + o(zh, (mu * ht - m * hp) / s)
            v = np.array([o(x * z1, hr), o(x * zh, ht), 1j * o(x * zh, hp)])
            if self.conj[k]:
                t, v = t.conj(), v.conj()
            out.append((t, v, o(dv, hr)))
        return mu, out

    def predict(self, norms=None):
        """Cumulative radial integrals of the four contributions (rows) from the tensor expression."""
        norms = self.norms() if norms is None else norms
        x = self.s['x'][1:-1]
        s = {k: v[1:-1] for k, v in self.s.items()}
        mu, ((A, a, da), (B, b, db), (C, c, dc)) = self.tensors(norms)
        tr2 = lambda p, q: np.einsum('ij...,ji...->...', p, q)  # noqa: E731
        tr3 = np.einsum('ij...,jk...,ki...->...', A, B, C) + np.einsum('ij...,jk...,ki...->...', A, C, B)
        hor = lambda p, q: p[1] * q[1] + p[2] * q[2]  # noqa: E731
        gam2 = (s['gam'] - 1.) ** 2
        if not self.setup.startswith('poly'):
            gam2 = gam2 + s['rho'] * np.interp(self.s['x'], self.prof_star['x'], self.prof_star['gder'])[1:-1]
        g1, g2, g3 = self.potential()
        r = x * R0
        cp, cr = .5 * R0 ** 3, -.5 * R0 ** 6

        sq = [[np.sqrt((np.abs(q) ** 2).sum(axis=tuple(range(q.ndim - 2)))) for q in m] for m in ((A, a), (B, b), (C, c))]
        self.size = 2. * np.pi * max(
            float(trap(trap(sq[0][j] * sq[1][j] * sq[2][j], mu) * np.abs(w) * x ** 2, x))
            for j, w in ((0, cp * s['P'] * gam2), (1, cr * s['rho'] * g3), (1, cr * s['rho'] * (g2 / r - g1 / r ** 2))))

        def cum(f, w):
            y = 2. * np.pi * trap(f.real, mu) * w * x ** 2
            return np.concatenate([[0.], np.cumsum(.5 * (y[1:] + y[:-1]) * np.diff(x))])
        return np.array([
            cp * cum(da * tr2(B, C) + db * tr2(A, C) + dc * tr2(A, B), s['P'] * (s['gam'] - 1.)),
            cp * cum(da * db * dc, s['P'] * gam2),
            cp * cum(tr3, s['P']),
            cr * (cum(a[0] * hor(b, c) + b[0] * hor(a, c) + c[0] * hor(a, b), s['rho'] * (g2 / r - g1 / r ** 2))
                  + cum(a[0] * b[0] * c[0], s['rho'] * g3))])

    def energy(self, k):
        """omega b of the unnormalised mode: kinetic form including the Coriolis term of the traditional approximation."""
        x, rho = self.s['x'][1:-1], self.s['rho'][1:-1]
        mu, h = hough(self.nu[k], self.ls[k], self.ms[k], self.npts)
        z1, zh = self.radial(k)[:2]
        rr, hh = (float(trap(rho * x ** 4 * f ** 2, x)) for f in (z1, zh))
        w, rot = self.om[k] * UNIT, self.rot * UNIT
        ang = {a: float(trap(h[a] ** 2, mu)) for a in HNAMES}
        cor = float(trap(mu * h['ht'] * h['hp'], mu))
        return 2. * np.pi * R0 ** 5 * w * (2. * w * (rr * ang['hr'] + hh * (ang['ht'] + ang['hp'])) + 4. * rot * hh * cor)

    def norms(self):
        return [math.sqrt(G0 * M0 ** 2 / R0 / self.energy(k)) for k in range(3)]

    def __str__(self):
        return f'l={self.ls} m={self.ms} conj={self.conj} rotation={self.rot} {self.setup}'


def trap(y, x):
    return (.5 * (y[..., 1:] + y[..., :-1]) * np.diff(x)).sum(axis=-1)


_CACHE = {}


def hough(nu, l, m, npts):
    key = nu, l, m, npts
    if key not in _CACHE:
        from aesolver.angular_integration import HFHandler
        from hough_function import HNorm
        d, mu, _ = HFHandler.get_relevant_hough_output(nu=nu, l=l, m=m, npts=npts, lmbd=None, definition='prat')
        f = HNorm.get_norm_factor(norm_procedure='lee2012', mu=mu, hr=d['hr'], nr_omp_threads=1, use_parallel=False)
        _CACHE[key] = np.asarray(mu), {k: np.asarray(v) * f for k, v in d.items()}
    return _CACHE[key]


def eigenvalue(nu, l, m, npts):
    """Rayleigh quotient of the horizontal divergence: the eigenvalue that belongs to the function the code picks by default."""
    if nu == 0.:
        return l * (l + 1.)
    mu, h = hough(nu, l, m, npts)
    s = np.sqrt(1. - mu ** 2)
    div = h['theta_der_ht_theta'] + (mu * h['ht'] - m * h['hp']) / s
    return float(-(div * h['hr']).sum() / (h['hr'] ** 2).sum())


def compare(c, got, want, what='contributions'):
    if not hasattr(c, 'size'):
        c.predict()
    size = c.size if c.selected else 0.
    ensure(np.all(np.abs(got - want) <= 1e-9 * size), lambda: f'{c}: {what} {got} instead of {want}')


# ------------------------------------------------------------------ families
ROTS = (0., .2, .9)


def tensor(case):
    """Every contribution equals the tensor integral; zero if the selection rule fails; normalised to the reference energy."""
    (ls, ms), conjs, rots = case
    out = []
    for conj in conjs:
        for i, rot in enumerate(rots):
            c = Case(ls, ms, conj, rot)
            if not c.selected and i:
                continue
            got = c.compute()
            if not c.selected:
                ensure(np.all(got == 0.) and c.total == 0., lambda: f'{c}: selection rule fails but contributions are {got}')
                continue
            want = c.norms()
            ensure(close(np.asarray(c.q.normalization_factors, float), np.array(want), 1e-9),
                   lambda: f'{c}: normalising factors {c.q.normalization_factors} instead of {want}')
            compare(c, got, c.predict(want)[:, -1])
            tot = c.total
            ensure(abs(tot - got.sum()) <= 1e-11 * c.size, lambda: f'{c}: total {tot} of contributions {got}')
            e0 = G0 * M0 ** 2 / R0
            for name, v, f in (('normed_coupling_coefficient', c.q.normed_coupling_coefficient, 1.),
                               ('eta_lee_coupling_coefficient', c.q.eta_lee_coupling_coefficient, 2.)):
                v = float(np.asarray(v).ravel()[0])
                ensure(abs(v - f * tot / e0) <= 1e-11 * c.size / e0, lambda: f'{c}: {name} is {v}, coefficient over energy is {tot / e0}')
            out.append([rnd(v, 5) for v in got])
    return out


def orders(case):
    """All six orderings of a triad give the same coefficient and contributions."""
    ls, ms, conj, rot, setup = case
    ref = Case(ls, ms, conj, rot, setup)
    want = ref.compute()
    for o in itertools.permutations(range(3)):
        c = Case(ls, ms, [conj[i] for i in o], rot, setup, order=o) if setup == 'modes other grids' else \
            Case(ls, ms, None if o == (0, 1, 2) and conj == (True, False, False) else [conj[i] for i in o], rot, setup, order=o)
        c.conj = tuple(conj[i] for i in o)
        got = c.compute()
        compare(c, got, want, f'ordering {o} gives contributions')
        nf = np.asarray(c.q.normalization_factors, float)
        w = np.asarray(ref.q.normalization_factors, float)[list(o)]
        ensure(close(nf, w, 1e-9), lambda: f'{c}: ordering {o} gives normalising factors {nf} instead of {w}')
    return [rnd(v, 5) for v in want]


def scales(case):
    """Positive scales of the eigenfunctions cancel in the normalisation; a sign change changes the sign of the coefficient."""
    ls, ms, rot, setup = case
    ref = Case(ls, ms, None, rot, setup)
    want = ref.compute()
    out = []
    for sc in itertools.product((1., -1., 250., 1e-4), repeat=3):
        c = Case(ls, ms, None, rot, setup, scale=sc)
        got = c.compute()
        sign = float(np.sign(sc).prod())
        compare(c, got, sign * want, f'scales {sc} give contributions')
        raw = np.asarray(c.q.normalization_factors, float) * np.abs(sc)
        w = np.asarray(ref.q.normalization_factors, float)
        ensure(close(raw, w, 1e-9), lambda: f'{c}: scales {sc} give normalising factors {raw / np.abs(sc)}')
        out.append(rnd(got[0], 5))
    return out


def profile(case):
    """The radial profile is the running integral: each contribution, and their sum, at every point; the last point is the coefficient."""
    ls, ms, conj, rot, setup, n = case
    c = Case(ls, ms, conj, rot, setup, n=n)
    want = c.predict([float(v) for v in c.q.normalization_factors])
    end = c.compute()
    T.call()
    c.q.adiabatic_coupling_rot_profile()
    tot = np.asarray(c.q.coupling_coefficient_profile)
    e0 = G0 * M0 ** 2 / R0
    parts = np.array([np.asarray(v) for v in c.q.normed_contributions_coupling_coefficient_profile]) * e0
    ensure(tot.shape == (n - 2,) and parts.shape == (4, n - 2), lambda: f'{c}: profile of shape {tot.shape}, {parts.shape}')
    size = c.size
    ensure(np.all(np.abs(parts - want) <= 1e-9 * size), lambda: f'{c}: contributions along the radius {parts} instead of {want}')
    ensure(np.all(np.abs(tot - parts.sum(axis=0)) <= 1e-9 * size), lambda: f'{c}: profile is not the sum of its contributions')
    ensure(np.all(np.abs(parts[:, -1] - end) <= 1e-9 * size), lambda: f'{c}: end of the profile {parts[:, -1]} is not {end}')
    nrm = np.asarray(c.q.normed_coupling_coefficient_profile) * e0
    ensure(np.all(np.abs(nrm - tot) <= 1e-9 * size), lambda: f'{c}: normed profile is off')
    return [rnd(v, 5) for v in tot]


def setups(case):
    """Every structure set-up is evaluated on the same footing."""
    ls, ms, conj, rot, setup, n, bend = case
    c = Case(ls, ms, conj, rot, setup, n=n, bend=bend)
    want = c.norms()
    nf = np.asarray(c.q.normalization_factors, float)
    ensure(close(nf, np.array(want), 1e-9), lambda: f'{c}: normalising factors {nf} instead of {want}')
    got = c.compute()
    compare(c, got, c.predict(want)[:, -1])
    return [rnd(v, 5) for v in got]


def large(case):
    """Grids as fine as those of stellar models and of the Hough functions; running integrals too."""
    ls, ms, rot, setup, n, npts, kw = case
    c = Case(ls, ms, None, rot, setup, n=n, npts=npts, **dict(kw))
    want = c.norms()
    nf = np.asarray(c.q.normalization_factors, float)
    ensure(close(nf, np.array(want), 1e-8), lambda: f'{c}, {n} points: normalising factors {nf} instead of {want}')
    got = c.compute()
    pr = c.predict(want)
    ensure(np.all(np.abs(got - pr[:, -1]) <= 1e-8 * c.size), lambda: f'{c}, {n} points: contributions {got} instead of {pr[:, -1]}')
    T.call()
    c.q.adiabatic_coupling_rot_profile()
    parts = np.array([np.asarray(v) for v in c.q.normed_contributions_coupling_coefficient_profile]) * (G0 * M0 ** 2 / R0)
    ensure(parts.shape == pr.shape and np.all(np.abs(parts - pr) <= 1e-8 * c.size), lambda: f'{c}, {n} points: running integrals are off')
    return [rnd(v, 4) for v in got]


OPTIONS = [dict(use_parallel=True, nr_omp_threads=t) for t in (1, 2, 3)] + [
    dict(numerical_integration_method='trapz', nr_omp_threads=1), dict(store_debug=False), dict(diff_terms_method='gradient')]
SPELLS = [(None, (True, False, False)), (True, (True, False, False)), (False, (False, False, False)),
          ([True, False, False], (True, False, False)), ([False, True, True], (False, True, True)),
          ((False, False, False), (False, False, False)), ([False, False, False], (False, False, False))]


def options(case):
    """Spellings of the conjugation and technical options do not change the result."""
    ls, ms, rot = case
    out = []
    for sp, conj in SPELLS:
        c = Case(ls, ms, conj, rot, spell=[sp])
        got = c.compute()
        if not c.selected:
            ensure(np.all(got == 0.), lambda: f'{c} (conj_cc={sp!r}): selection rule fails but contributions are {got}')
            continue
        compare(c, got, c.predict()[:, -1], f'conj_cc={sp!r} gives contributions')
        out.append([rnd(v, 5) for v in got])
    for o in OPTIONS:
        c = Case(ls, ms, None, rot, **o)
        if c.selected:
            compare(c, c.compute(), c.predict()[:, -1], f'{o} gives contributions')
    return out


def w3j(a, b, c, x, y, z):
    if x + y + z or not abs(a - b) <= c <= a + b:
        return 0.
    f = math.factorial
    s = 0.
    for k in range(a + b + c + 1):
        d = [k, a + b - c - k, a - x - k, b + y - k, c - b + x + k, c - a - y + k]
        if min(d) >= 0:
            s += (-1.) ** k / math.prod(map(f, d))
    return (-1.) ** (a - b - z) * s * math.sqrt(
        f(a + b - c) * f(a - b + c) * f(b + c - a) / f(a + b + c + 1) * math.prod(f(j + i) * f(j - i) for j, i in
                                                                                  ((a, x), (b, y), (c, z))))


def rotated(case):
    """Without rotation the axis is arbitrary: contributions of the same degrees depend on the orders through the 3j symbol only."""
    ls, conj, n = case
    base, out, size = None, [], 0.
    for ms in itertools.product(*(range(-l, l + 1) for l in ls)):
        sg = [-m if c else m for m, c in zip(ms, conj)]
        if sum(sg):
            continue
        t = w3j(*ls, *sg)
        c = Case(ls, ms, conj, 0., n=n, npts=120)
        got = c.compute()
        c.predict()
        size = max(size, c.size)
        if base is None and abs(t) > 1e-9:
            base = np.abs(got / t)
        out.append((ms, t, got))
    if base is None:                       # forbidden triad
        ref = np.ones(4)
        for ms, t, got in out:
            c = Case((2, 1, 1), (0, 0, 0), conj, 0., n=n, npts=120)
            base = np.abs(c.compute())
            ensure(np.all(np.abs(got) <= 5e-3 * base.max()), lambda: f'{ls} {ms}: forbidden by the triangle rule but {got}')
        return rnd(ref, 3)
    for ms, t, got in out:
        ensure(np.all(np.abs(np.abs(got) - base * abs(t)) <= 5e-3 * np.abs(base).max() + 1e-9 * size),
               lambda: f'l={ls} m={ms} conj={conj} without rotation: contributions {got}, rotated triads give {base * abs(t)}')
    # relative signs of the four contributions are those of every other rotated copy
    ref = max(out, key=lambda o: abs(o[1]))
    for ms, t, got in out:
        if abs(t) < 1e-9:
            continue
        q, p = got / t, ref[2] / ref[1]
        for sgn in (1., -1.):
            if np.all(np.abs(q - sgn * p) <= 2e-2 * np.abs(p).max() + 1e-8 * size):
                break
        else:
            ensure(False, f'l={ls} m={ms} conj={conj} without rotation: contributions over 3j symbol {q}, elsewhere {p}')
    return [rnd(v, 3) for v in base]


def energies(case):
    """With rotation the mode energy is twice the sum of kinetic and potential parts, which is positive."""
    l, m, rot, om = case
    c = Case((l, l, l), (m, m, m), None, rot, om=(om, om, om), npts=160)
    e0 = G0 * M0 ** 2 / R0
    x, rho = c.s['x'][1:-1], c.s['rho'][1:-1]
    mu, h = hough(c.nu[0], l, m, 160)
    for k in range(3):
        z1, zh = (float(c.q.normalization_factors[k]) * v for v in c.radial(k)[:2])
        rr, hh = (float(trap(rho * x ** 4 * f ** 2, x)) for f in (z1, zh))
        ang = {a: float(trap(h[a] ** 2, mu)) for a in HNAMES}
        e = 2. * np.pi * R0 ** 5 * (om * UNIT) ** 2 * (2. * rr * ang['hr'] + hh * (ang['ht'] + ang['hp'] + c.lam[k] * ang['hr']))
        ensure(abs(e - e0) <= 2e-2 * e0, lambda: f'{c}: mode {k + 1} has energy {e / e0} of the reference energy')
    return rnd(c.lam[0], 4)


def triads(lmax):
    out = []
    for ls in itertools.product(range(1, lmax + 1), repeat=3):
        for ms in itertools.product(*(range(-l, l + 1) for l in ls)):
            out.append((ls, ms))
    return out


def self_coupled(case):
    """A mode coupling to itself: the shortcut for this gives what the general expressions give."""
    l, rot, su, conj = case
    kw = dict(conj=conj, rot=rot, setup=su, om=(OM[0],) * 3)
    q = [Case([l] * 3, [0] * 3, self_coupling=f, same=True, **kw) for f in (False, True)]
    a, b = q[0].compute(), q[1].compute()
    off = [i + 1 for i in range(4) if abs(a[i] - b[i]) > 1e-7 * np.abs(a).max() + 1e-9 * abs(a[i])]
    if off and set(off) <= {1, 3, 4} and {1, 3} <= set(off) and (rot or 4 not in off):
        raise Fail('the shortcut for a mode coupling to itself gives another value of contributions 1 and 3 (with rotation also 4)')
    ensure(not off, lambda: f'l={l} rot={rot} {su}: contributions {off} of a mode coupling to itself are {b}, in general {a}')
    return tuple(rnd(x) for x in a)


def run(ctx):
    aes.use(ctx)
    all_conj = [tuple(b) for b in itertools.product((True, False), repeat=3)]
    two = triads(2)
    conjs = ctx.pick([None, (False, False, False), (False, True, True), (True, True, False)], [None] + all_conj)
    rots = ctx.pick((0., .9), ROTS)
    ctx.explore('tensor', tensor, [(t, conjs, rots) for t in two], 'all triads of degrees 1 and 2, conjugation patterns and rotation rates',
                limit=300)
    if ctx.thorough:
        three = [t for t in triads(3) if max(t[0]) == 3 and t[1][0] == t[1][1] + t[1][2]]
        ctx.explore('tensor3', tensor, [(t, [None], (0., .2, .9)) for t in three], 'all coupled triads of degrees up to 3', limit=300)
    sel = [((2, 1, 1), (2, 1, 1)), ((2, 1, 1), (0, 1, -1)), ((2, 2, 2), (1, -1, 2)), ((2, 2, 2), (0, 0, 0)), ((1, 2, 2), (-1, 1, -2)),
           ((1, 2, 1), (1, 2, -1)), ((2, 1, 2), (-2, -1, -1))]
    ctx.explore('orders', orders, [(ls, ms, (True, False, False), rot, su) for ls, ms in (two if ctx.thorough else sel)
                                   if ms[0] == ms[1] + ms[2] for rot in ROTS for su in ('mesa', 'polytrope')
                                   if not (ctx.thorough and su == 'modes other grids' and rot == .2)],
                'all orderings of triads', limit=300)
    ctx.explore('scales', scales, [(ls, ms, rot, su) for ls, ms in sel[:ctx.pick(3, 7)] for rot in (0., .9) for su in ('mesa', 'polytrope')],
                'all scales and signs of the eigenfunctions', limit=600)
    ctx.explore('profile', profile, [(ls, ms, None, rot, su, n) for ls, ms in sel for rot in (0., .9) for su in ctx.pick(
        ('mesa', 'polytrope analytic'), SETUPS) for n in ctx.pick((6, 9), (5, 6, 9, 13, 24))], 'running integrals at every radius', limit=300)
    ctx.explore('setups', setups, [(ls, ms, None, rot, su, n, b) for ls, ms in sel for rot in (0., .2, .9) for su in SETUPS
                                   for n in ctx.pick((8, 13), (8, 9, 13, 24)) for b in (1., 1.4)], 'all structure set-ups', limit=300)
    far = [((3, 2, 1), (1, 2, -1)), ((4, 3, 1), (-4, -3, -1)), ((3, 3, 2), (0, -2, 2)), ((5, 4, 3), (2, 1, 1)), ((1, 12, 11), (1, 0, 1))]
    fine = ctx.pick([(su, n, rot, t) for su in SETUPS for n, rot, t in ((64, .9, 0), (101, .2, 1))]
                    + [(su, 1000, .9, 0) for su in ('mesa', 'polytrope analytic', 'mesa other grid')],
                    [(su, n, rot, t) for su in SETUPS for n in (32, 33, 63, 64, 65, 100, 101, 128, 129, 257, 1000, 1001) for rot in (0., .9)
                     for t in range(7) if n < 200 or t < 2])
    ctx.explore('large', large, [(*sel[t], rot, su, n, 24, ()) for su, n, rot, t in fine if n < 102 or 'numeric' not in su]
                + [(ls, ms, rot, su, n, npts, kw) for ls, ms in (sel[:3] if ctx.thorough else []) + far for rot, su in ((.2, 'mesa'), (0., 'polytrope'))
                   for n, npts in ctx.pick(((40, 60),), ((40, 60), (101, 200), (300, 121)))
                   for kw in ((), (('use_parallel', True), ('nr_omp_threads', 3)))],
                'fine grids of the star and of the sphere, high degrees', limit=600., chunk=1)
    ctx.explore('options', options, [(ls, ms, rot) for ls, ms in sel + [((2, 1, 1), (-2, 1, 1)), ((1, 1, 1), (0, -1, 1))] for rot in (0., .9)],
                'spellings and technical options', limit=300)
    ctx.explore('rotated', rotated, [(ls, cj, 9) for ls in itertools.product(range(1, ctx.pick(3, 4)), repeat=3)
                                     for cj in ctx.pick([(True, False, False)], all_conj)], 'all rotated copies of each triad', limit=600)
    ctx.explore('energies', energies, [(l, m, rot, om) for l in (1, 2, 3)[:ctx.pick(2, 3)] for m in range(-l, l + 1)
                                       for rot in ctx.pick((0., .2, .45), (0., .1, .2, .3, .45, .7)) for om in ctx.pick((1.3, .5), (1.3, .8, .5))],
                'energies of rotating modes', limit=300)
    ctx.explore('self-coupling', self_coupled, [(l, rot, su, cj) for l in (2, 4) for rot in (0., .1, .2) for su in ('mesa', 'polytrope')
                                                for cj in (None, (False,) * 3)], 'a mode coupling to itself')
