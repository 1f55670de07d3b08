"""C14 grid computations keep every triad's results at its own place."""
import itertools
import math
import os
import shutil
import tempfile

import numpy as np

from checks import c13
from mc import aes
from mc.core import T, close, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of triad sequences (accepted, rejected and marginal parents, harmonic and ordinary '
                 'daughter pairs) through the real grid solvers on real mode files, against one-triad runs and against the numbers '
                 'the files were written with',
    'note': 'All sequences of up to three parents (four in the thorough tier) over an alphabet of seven kinds, each with one to three '
            'daughter pairs, both solver classes, stationary and general runs, adiabatic and nonadiabatic eigenfunctions.',
}
G0 = 6.67430e-8
M0, R0, L0 = 1.989e33, 6.957e10, 3.8e33
UNIT = math.sqrt(G0 * M0 / R0 ** 3)
N = 9
ROT = .05
DT = np.dtype([('re', float), ('im', float)])
DAUGHTER = {11: (.71, -3e-3), 12: (.55, -2e-3)}       # dimensionless corotating frequency, growth rate
PARENT = {                                            # offset from twice/sum of daughters, growth rate
    'a': (1.26 + .04, 1e-3), 'b': (1.26 - .03, 2e-3),  # off resonance, weakly driven: accepted
    's': (1.26 + .02, 9e-3),                           # rates sum to a positive number
    'v': (1.26 + 1e-7, 1.5e-3),                        # too close to resonance with the mixed pair
    'u': (1.26 + .03, -1e-3),                          # damped parent
    'z': (.71 + .55, 1e-3),                            # exactly resonant with the mixed pair
    'h': (1.42 + .05, 5e-4),
}
OM_OF = {'mixed': (11, 12)}


def cplx(v):
    a = np.empty(np.shape(v), DT)
    a['re'], a['im'] = np.real(v), np.imag(v)
    return a


def eig(om, l, m):
    return c13.eigenvalue(2. * ROT / om, l, m, 200)


def mode_data(k, om, gam, l, m, n, nad):
    """Everything one mode file holds, as plain numbers."""
    s = c13.star(N)
    x = s['x']
    d = c13.mode(k, x, l, eig(om, l, m), 1. + .1 * k)
    y1, y2 = d['y_1'] * (1. + .01 * nad), d['y_2'] * (1. + .02 * nad)
    freq = (om + m * ROT) * UNIT / (2 * np.pi) * 1e6 + 1j * gam * UNIT / (2 * np.pi) * 1e6
    if not nad:
        freq = freq.real + 0j
    return dict(s=s, y_1=y1, y_2=y2, lam=d['lambda'], freq=freq, l=l, m=m, n=n, om=om, gam=gam,
                lag_L=(1.3 + .2 * k + .4j * (k + 1)) * (1 + x), xi_r=(.8 + .3 * k - (.1j * k if nad else 0j)) * (1 + x ** 2))


def write(path, d):
    import h5py
    s = d['s']
    with h5py.File(path, 'w') as f:
        for a, v in (('l', d['l']), ('m', d['m']), ('n_g', d['n']), ('n_p', 0), ('n_pg', -d['n']), ('n', N), ('M_star', M0), ('R_star', R0),
                     ('L_star', L0), ('Delta_p', 1.), ('Delta_g', 1.), ('freq_units', np.bytes_(b'UHZ')), ('freq_frame', np.bytes_(b'INERTIAL'))):
            f.attrs[a] = v
        f.attrs['freq'] = cplx(d['freq'])
        f.attrs['omega'] = cplx(d['freq'])
        for k in ('y_1', 'y_2', 'lag_L', 'xi_r'):
            f[k] = cplx(d[k])
        f['xi_h'], f['eul_phi'], f['deul_phi'] = (cplx(np.zeros(N)) for _ in range(3))
        f['lambda'] = cplx(d['lam'])
        for k, v in dict(x=s['x'], P=s['P'], rho=s['rho'], M_r=s['mr'], Gamma_1=s['gam'], V_2=s['v2'], As=s['a'], U=s['u'], c_1=s['c1'],
                         T=1e6 + 0. * s['x'], Omega_rot=ROT + 0. * s['x'], c_rad=1. + s['x']).items():
            f[k] = v


def profile_text():
    s = c13.star(N)
    cols = dict(radius=(s['x'] * R0)[::-1], brunt_N2=s['n2'][::-1], gamma_1_adDer=s['gder'][::-1])
    w = 28
    head = {'version_number': 1., 'initial_mass': 3.}
    lines = [''.join(f'{i + 1:>{w}d}' for i in range(len(head))), ''.join(f'{h:>{w}}' for h in head), ''.join(f'{v:>{w}.16e}' for v in head.values()),
             '', ''.join(f'{i + 1:>{w}d}' for i in range(len(cols))), ''.join(f'{h:>{w}}' for h in cols)]
    lines += [''.join(f'{c[i]:>{w}.16e}' for c in cols.values()) for i in range(N)]
    return '\n'.join(lines) + '\n'


LM = ([2, 1, 1], [2, 1, 1])


def info_text(d):
    return '\n'.join(f"# {k}\n{v!r}\n" for k, v in {
        'MESA base folder/directory': f'{d}/', 'MESA default output folder/directory': f'{d}/mesa',
        'MESA default profile substrings': 'profile', 'MESA default suffix': 'dat', 'GYRE base folder/directory': f'{d}/',
        'GYRE default output folder/directory': f'{d}/ad', 'GYRE default detail substring': 'detail',
        'GYRE default summary substring': 'summary', 'POLYTROPE structure base folder/directory': f'{d}/',
        'POLYTROPE structure default output folder/directory': f'{d}/pstruct', 'POLYTROPE default structure substrings': 'struct',
        'POLYTROPE default structure suffix': 'h5', 'POLYTROPE mode base folder/directory': f'{d}/',
        'POLYTROPE mode default output folder/directory': f'{d}/pmode', 'POLYTROPE mode default detail substring': 'detail',
        'POLYTROPE mode default summary substring': 'summary'}.items())


class Files:
    """Scratch directory with the mode files of a sequence of parents and the two daughters."""

    def __init__(self, letters, lm=LM):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c14-'))
        self.letters = letters
        self.data = {}
        self.lm = lm
        self.memo = {}
        for s in ('ad', 'nad', 'mesa', 'pmode', 'pstruct'):
            os.makedirs(f'{self.d}/{s}')
        (lp, l1, l2), (mp, m1, m2) = lm
        files = [(('p', i + 1), i, *PARENT[c], lp, mp, i + 1) for i, c in enumerate(letters)]
        for n, (om, g) in DAUGHTER.items():
            files.append((('d', n), n - 7, om, g, l1, m1, n))
            if (l1, m1) != (l2, m2):
                files.append((('e', n), n - 5, om + .01, g, l2, m2, n))
        for key, k, om, g, l, m, n in files:
            for nad in (0, 1):
                data = mode_data(k, om, g, l, m, n, nad)
                self.data[key, nad] = data
                sign = '-' if m < 0 else '+'
                write(f'{self.d}/{("ad", "nad")[nad]}/detail_g_mode_l{l}m{sign}{abs(m)}n+{n}.h5', data)
            write_poly(f'{self.d}/pmode/detail_g_mode_l{l}m{sign}{abs(m)}n+{n}.h5', self.data[key, 0])
        write_structure(f'{self.d}/pstruct/struct_1.h5')
        open(f'{self.d}/mesa/profile_1.dat', 'w').write(profile_text())
        open(f'{self.d}/info.dat', 'w').write(info_text(self.d))

    def roles(self, triad):
        two = 'd' if self.lm[0][1:] == [self.lm[0][1]] * 2 and self.lm[1][1] == self.lm[1][2] else 'e'
        return [('p', triad[0]), ('d', triad[1]), (two, triad[2])]

    def solve(self, kind, sel, **kw):
        old = os.getcwd()
        os.chdir(self.d)
        try:
            import aesolver.solver as m
            kw = dict(base_dir=f'{self.d}/', alternative_directory_path=self.d, alternative_file_name='info.dat', ad_path='ad', nad_path='nad',
                      mode_selection_dict=dict(mode_l=self.lm[0], mode_m=self.lm[1], **sel), **{'nr_omp_threads': 1, **kw})
            T.call()
            if kind == 'grid':
                from aesolver.solver.quadratic_grid import QuadraticAEGridSolver
                s = QuadraticAEGridSolver([f'{self.d}/x'], **kw)
                s()
            else:
                import contextlib, io
                with contextlib.redirect_stdout(io.StringIO()):
                    s = m.QuadRotAESolver([f'{self.d}/x'], None, compute_grid=True, **kw)
                    s(compute_grid=True, compute_profile=False)
            return s
        finally:
            os.chdir(old)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def write_poly(path, d):
    import h5py
    s = d['s']
    with h5py.File(path, 'w') as f:
        for a, v in (('l', d['l']), ('m', d['m']), ('n_g', d['n']), ('n_p', 0), ('n_pg', -d['n']), ('n', N),
                     ('freq_units', np.bytes_(b'UHZ')), ('freq_frame', np.bytes_(b'INERTIAL'))):
            f.attrs[a] = v
        f.attrs['freq'] = f.attrs['omega'] = cplx(d['freq'])
        for k in ('y_1', 'y_2', 'xi_r'):
            f[k] = cplx(d[k])
        f['xi_h'], f['eul_phi'], f['deul_phi'] = (cplx(np.zeros(N)) for _ in range(3))
        f['lambda'] = cplx(d['lam'])
        for k, v in dict(x=s['x'], Gamma_1=s['gam'], Omega_rot=ROT + 0. * s['x']).items():
            f[k] = v


def write_structure(path):
    import h5py
    x = c13.star(N)['x']
    z = np.pi * x
    with h5py.File(path, 'w') as f:
        f.attrs['n_poly'], f.attrs['n'], f.attrs['n_r'] = np.array([1.]), N, 1
        zz = np.where(x > 0., z, 1.)
        f['z'], f['theta'] = z, np.maximum(np.where(x > 0., np.sin(zz) / zz, 1.), 0.)
        f['dtheta'] = np.where(x > 0., (np.cos(zz) * zz - np.sin(zz)) / zz ** 2, 0.)
        f['Gamma_1'] = c13.star(N)['gam']


# ------------------------------------------------------------------ prediction
def conj_of(req):
    return (True, False, False) if req is None or req is True else (False,) * 3 if req is False else tuple(req)


def lin_stable(roles, harmonic):
    """Linear growth of the amplitude equations at their fixed point; None when too close to call."""
    from checks.c11 import growth, lin3, lin4
    om, g = (np.array([r[k] for r in roles]) for k in ('om', 'gam'))
    q = (om[0] - om[1] - om[2]) / g.sum()
    if not (g[0] > 0 and g[1] < 0 and g[2] < 0):
        return False if not (g[0] < 0 < g[1] and g[2] > 0) else None
    if harmonic:
        x = 2 * (-g[1] / g[0]) * (-g[1] / g[0] - 1)
        if x > 1 and (x - 1) / (x + 1) <= q * q <= (x + 1) / (x - 1):
            return None                                # recorded under C11 (K-C11-two-mode)
    top = growth(lin3(g[:2], q) if harmonic else lin4(g, q, (1, 1, 1))) / np.abs(g).max()
    return None if abs(top) < 1e-5 else top < 0


def predicted(fl, triad, stat, adia, req):
    """What a run on this triad has to report, from the numbers in the files."""
    key = tuple(triad), stat, adia, req if not isinstance(req, list) else tuple(req)
    if key in fl.memo:
        return fl.memo[key]
    ids = fl.roles(triad)
    ad, nad = ([fl.data[i, k] for i in ids] for k in (0, 1))
    ls, ms = [d['l'] for d in ad], [d['m'] for d in ad]
    om, gam = np.array([d['om'] for d in ad]), np.array([d['gam'] for d in ad])
    cj = conj_of(req)
    rule = sum(-m if c else m for m, c in zip(ms, cj)) == 0 and sum(l - abs(m) for l, m in zip(ls, ms)) % 2 == 0
    harmonic = triad[1] == triad[2] and ls[1] == ls[2] and ms[1] == ms[2]
    stable = lin_stable(ad, harmonic)
    acc = rule if not stat else (rule and stable if stable is not None else (None if rule else False))
    hz = UNIT / (2 * np.pi)
    rot = ROT * np.array(ms)
    p = dict(acc=acc, azimuthal=sum(-m if c else m for m, c in zip(ms, cj)) != 0, om=om, gam=gam, det=om[0] - om[1] - om[2], stat=(np.mean(triad), triad[0] - abs(triad[1] - triad[2])),
             q=(om[0] - om[1] - om[2]) / gam.sum(), corot=om * hz, inert=(om + rot) * hz, dl=om, di=om + rot)
    if acc is not False and (acc or not stat):
        c = c13.Case.__new__(c13.Case)
        src = ad if adia else nad
        c.setup, c.rot, c.npts, c.n, c.kw = 'mesa', ROT, 200, N, {}
        c.ls, c.ms, c.om, c.conj = ls, ms, list(om), cj
        c.nu = [2. * ROT / w for w in om]
        c.lam = [float(d['lam'][0]) for d in src]
        c.s = c.prof_star = src[0]['s']
        c.modes = [{'x': d['s']['x'], 'y_1': np.real(d['y_1']), 'y_2': np.real(d['y_2'])} for d in src]
        p['norm'] = np.array(c.norms())
        p['case'] = c
        p['profile'] = c.predict() if c.selected else None
        p['terms'] = p['profile'][:, -1] if c.selected else np.zeros(4)
        p['size'] = c.size if c.selected else 0.
        from disc_integrator import di
        tk, ek = np.array([disc(di, c13.hough(c.nu[k], ls[k], ms[k], 200)) for k in range(3)]).T
        p['disc'] = np.abs(tk * np.array([d['lag_L'][-1] for d in nad]) * p['norm']
                           - ek * np.array([np.real(d['xi_r'][-1]) for d in ad]) * p['norm'])
    fl.memo[key] = p
    return p


def disc(di, hm):
    mu, h = hm
    return di.get_integrals(mu, h['hr'], h['theta_der_hr'], h['theta_der2_hr'], 'eddington', 'trapz', 1, False)


def flat(v):
    return np.asarray(v, float).ravel()


def judge(fl, triad, s, i, stat, adia, req, what):
    """The entry of one triad against the prediction."""
    p = predicted(fl, triad, stat, adia, req)
    ci, fi, so, cs = s.coupling_info[i], s.mode_freq_info[i], s.stat_sol_info[i], s.coupling_statistics[i]
    w = lambda: f'{what}, triad {i} {triad}'  # noqa: E731
    ok = lambda a, b, name, tol=1e-8, sc=0.: ensure(  # noqa: E731
        np.shape(flat(a)) == np.shape(flat(b)) and bool(np.all(np.abs(flat(a) - flat(b)) <= tol * np.maximum(np.abs(flat(b)), sc))),
        lambda: f'{w()}: {name} {flat(a).tolist()} instead of {flat(b).tolist()}')
    for j, (name, k, f) in enumerate((('inertial frequencies', 'inert', 1.), ('corotating frequencies', 'corot', 1.),
                                      ('inertial angular frequencies', 'inert', 2 * np.pi), ('corotating angular frequencies', 'corot', 2 * np.pi))):
        ok(fi[j], p[k] * f, name)
    ok(fi[7], p['dl'], 'dimensionless angular frequencies')
    ok(fi[6], p['di'], 'dimensionless inertial angular frequencies')
    ok(fi[8], 2 * ROT / p['om'], 'spin factors')
    ok(fi[9], p['om'] / p['gam'], 'quality factors', 1e-7)
    ok(fi[12], p['inert'], 'nonadiabatic inertial frequencies')
    ok(ci[3], [p['corot'][0], p['inert'][0]], 'parent frequencies')
    ok(ci[4], [p['dl'][0], p['di'][0]], 'dimensionless parent frequencies')
    ensure(bool(ci[6]) == adia, lambda: f'{w()}: adiabatic flag {ci[6]}')
    ok(cs, p['stat'], 'statistics', 1e-12, 1.)
    ok(so['linear driving rates'], p['gam'] * UNIT, 'driving rates', 1e-7)
    ok(so['gamma'], p['gam'].sum() * UNIT, 'sum of rates', 1e-6, abs(p['gam']).max() * UNIT)
    ok(so['detunings'], p['det'] * UNIT, 'detuning', 1e-9, UNIT)
    got = bool(so['linearly stable'])
    if p['acc'] is None:
        return got, None
    ensure(got == p['acc'], lambda: f'{w()}: {"accepted" if got else "rejected"}')
    if not p['acc']:
        ensure(so['critical parent amplitude'] is None and so['stationary relative phase'] is None
               and not flat(so['equilibrium amplitudes']).any() and not flat(so['surface flux variations']).any(),
               lambda: f'{w()}: rejected triad has a solution {so}')
        if stat:
            ensure(not any(flat(ci[k]).any() for k in (0, 1, 2, 5, 8)) and not so['hyperbolic'],
                   lambda: f'{w()}: rejected triad has coupling information {ci}')
            return got, False
        if not p.get('size'):
            # odd integrands cancel up to rounding
            odd = 0. if p['azimuthal'] else 1e-10 * G0 * M0 ** 2 / R0
            ensure((abs(flat(ci[8])) <= odd).all() and (abs(flat(ci[0])) <= 4 * odd).all(), lambda: f'{w()}: forbidden triad has coupling terms {ci[8]}')
    if 'norm' in p:
        ok(ci[5], p['norm'], 'normalising factors', 1e-7)
        ok(ci[8], p['terms'], 'coupling terms', 1e-6, p['size'])
        ok(ci[0], p['terms'].sum(), 'coupling coefficient', 1e-6, p['size'])
        ok(ci[1], p['terms'].sum() / (G0 * M0 ** 2 / R0), 'normed coefficient', 1e-6, p['size'] / (G0 * M0 ** 2 / R0))
    if p['acc'] and stat:
        eta = abs(2 * flat(ci[1])[0])
        Q = p['om'] / p['gam']
        A = np.sqrt((1 + p['q'] ** 2) / (4 * eta ** 2) * np.array([1., -1., -1.]) / np.array([Q[1] * Q[2], Q[0] * Q[2], Q[0] * Q[1]]))
        ok(so['equilibrium amplitudes'], A, 'amplitudes', 1e-5)
        ok(so['surface flux variations'], A * p['disc'], 'surface flux variations', 1e-5, abs(A * p['disc']).max())
        if np.isfinite(A).all():                          # stable, so no growth rate lies on the imaginary axis
            ensure(so['hyperbolic'], lambda: f'{w()}: stable solution is called non-hyperbolic')
    return got, bool(so['hyperbolic'])


def judge_poly(fl, triad, s, i, what):
    """The polytropic entry: frequencies of its own triad, no stationary solution."""
    p = predicted(fl, triad, True, True, False)
    ci, fi = s.coupling_info[i], s.mode_freq_info[i]
    for j, w in enumerate((p['inert'], p['corot'], p['inert'] * 2 * np.pi, p['corot'] * 2 * np.pi, p['di'] / 2 / np.pi, p['dl'] / 2 / np.pi,
                           p['di'], p['dl'], 2 * ROT / p['om'])):
        ensure(np.shape(flat(fi[j])) == (3,) and np.allclose(flat(fi[j]), w, rtol=1e-7), lambda: f'{what}, triad {i} {triad}: frequency entry {j} is {fi[j]}, expected {w}')
    ensure(np.allclose(flat(ci[4]), [p['dl'][0], p['di'][0]], rtol=1e-7) and s.stat_sol_info[i] is None and np.all(flat(ci[5]) > 0.)
           and flat(ci[8]).shape == (4,) and np.allclose(flat(s.coupling_statistics[i]), p['stat']), lambda: f'{what}, triad {i} {triad}: {ci}')
    return [rnd(v, 5) for v in flat(ci[8])]


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(map(same, a, b))
    if a is None or b is None or isinstance(a, (str, bool)):
        return a is b if a is None or b is None else a == b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=1e-9, atol=0., equal_nan=True)))


LISTS = ('coupling_info', 'mode_freq_info', 'stat_sol_info', 'coupling_statistics')
KINDS = ('grid', 'solver')


def single(fl, kind, triad, opts, cache):
    k = kind, tuple(triad), fl.letters[triad[0] - 1], opts
    if k not in cache:
        sel = dict(driven_n_low=triad[0], driven_n_high=triad[0], damped_n_low1=triad[1], damped_n_high1=triad[1],
                   damped_n_low2=triad[2], damped_n_high2=triad[2])
        s = fl.solve(kind, sel, **dict(opts))
        ensure(len(s.coupling_info) == 1, lambda: f'one requested triad {triad} gives {len(s.coupling_info)} entries')
        cache[k] = {n: getattr(s, n)[0] for n in LISTS}
    return cache[k]


def sequences(case):
    """One first parent, every continuation: each entry is the prediction and equals that of the triad run alone."""
    from aesolver.mode_input_generator import InputGen
    kind, lm, opts, heads, letters, length, pair, alone = case
    cache, out = {}, []
    o = dict(opts)
    stat, adia, req = o.get('stationary_solving', True), o.get('adiabatic', True), o.get('terms_cc_conj')
    sel = dict(driven_n_low=1, damped_n_low1=11, damped_n_high1=12)
    if pair == 'all':
        sel.update(damped_n_low2=11, damped_n_high2=12)
    elif pair == 'harmonic':
        sel.update(damped_n_high1=11, damped_n_low2=11, damped_n_high2=11)
    daughters = {'all': [(11, 11), (11, 12), (12, 12)], 'mixed': [(11, 12)], 'harmonic': [(11, 11)]}[pair]
    for rest in itertools.product(letters, repeat=length - len(heads)):
        seq = heads + rest
        with Files(seq, lm) as fl:
            s = fl.solve(kind, dict(sel, driven_n_high=len(seq)), **o)
            n = len(seq) * len(daughters)
            for name in LISTS:
                ensure(len(getattr(s, name)) == n, lambda: f'{name} has {len(getattr(s, name))} entries for {n} triads')
            have = [tuple(t) for t in InputGen(mode_l=lm[0], mode_m=lm[1], driven_n_high=len(seq), **sel).combinations_radial_orders]
            ensure(sorted(have) == [(i + 1, *d) for i in range(len(seq)) for d in daughters], lambda: f'requested triads {have}')
            for i, triad in enumerate(have):
                what = f'{kind} {"".join(seq)} {lm} {o}'
                out.append(judge_poly(fl, triad, s, i, what) if o.get('polytrope_comp') else judge(fl, triad, s, i, stat, adia, req, what))
                if alone:
                    ref = single(fl, kind, triad, opts, cache)
                    for name in LISTS:
                        ensure(same(getattr(s, name)[i], ref[name]),
                               lambda: f'{kind} {"".join(seq)} {lm} {o}: {name} of triad {i} {triad} is {getattr(s, name)[i]}, run alone it is {ref[name]}')
    return out


def fine(case):
    """The same on stars of as many zones as real ones have."""
    global N
    old, N = N, case[0]
    try:
        return sequences(case[1:])
    finally:
        N = old


def neutral(case):
    """Threads, progress bars and diagnostic output change no result."""
    import contextlib
    import io
    kind, letters, opts, extra = case
    sel = dict(driven_n_low=1, driven_n_high=len(letters), damped_n_low1=11, damped_n_high1=12, damped_n_low2=11, damped_n_high2=12)
    with Files(letters) as fl:
        ref = fl.solve(kind, sel, **dict(opts))
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            s = fl.solve(kind, sel, **dict(opts), **dict(extra))
        for name in LISTS:
            ensure(same(getattr(s, name), getattr(ref, name)), lambda: f'{case}: {name} is {getattr(s, name)}, without these options {getattr(ref, name)}')
    return kind, len(ref.coupling_info)


def run(ctx):
    aes.use(ctx)
    np.seterr(all='ignore')
    base = (('stationary_solving', True),)
    gen = (('stationary_solving', False),)
    nad = (('stationary_solving', True), ('adiabatic', False))
    L3 = ctx.pick('abs', 'absvz')
    cases = [(k, LM, o, (a,), 'absvuzh', 2, 'mixed', True) for k in KINDS for o in (base, nad) for a in 'absvuzh']
    cases += [(k, LM, gen, (a,), 'asvuz', 2, 'mixed', True) for k in KINDS for a in 'asu']
    cases += [(k, LM, base, (a, b), L3, 3, 'mixed', False) for k in KINDS for a in L3 for b in L3]
    if ctx.thorough:
        cases += [(k, LM, o, (a, b), 'absvuzh', 3, 'mixed', False) for k in KINDS for o in (base, nad) for a in 'absvuzh' for b in 'absvuzh']
        cases += [(k, LM, base, (a, b, c), 'abs', 4, 'mixed', False) for k in KINDS for a in 'abs' for b in 'abs' for c in 'abs']
    ctx.explore('sequences', sequences, cases, 'sequences of parents', limit=300)
    ctx.explore('pairs', sequences, [(k, LM, o, (a,), ctx.pick('ash', 'absvuzh'), n, 'all', True) for k in KINDS for o in ctx.pick((base,), (base, nad, gen))
                                     for n in ctx.pick((1, 2), (1, 2)) for a in ctx.pick('ash', 'absvuzh')], 'parents times daughter pairs', limit=600)
    poly = (('polytrope_comp', True), ('polytrope_mass', M0 / 1.988409870698051e33), ('polytrope_radius', 1.))
    ctx.explore('polytropes', sequences, [(k, LM, poly, (a,), 'abs', ctx.pick(2, 3), pr, True) for k in KINDS for a in 'abs' for pr in ('mixed', 'all')],
                'polytropic models', limit=300)
    lms = [([2, 1, 1], [0, 1, -1]), ([1, 2, 1], [1, 1, 0]), ([1, 1, 1], [1, 1, 0]), ([2, 1, 1], [-2, 1, 1]), ([2, 2, 2], [0, 0, 0])]
    reqs = [None, True, False, (False, False, False), [True, False, False], (True, True, False)]
    ctx.explore('conjugation', sequences, [(k, lm, (('stationary_solving', st), ('terms_cc_conj', r)), ('a',), 's', 2, 'mixed', False)
                                           for k in KINDS for lm in [LM] + lms for r in reqs for st in ctx.pick((True,), (True, False))],
                'degrees, orders and conjugation requests', limit=300)
    ctx.explore('large', fine, [(n, k, lm, o, (a,), b, 2, 'all', False) for n in ctx.pick((300, 2000), (100, 300, 1001, 2000, 5000)) for k in KINDS for o in ctx.pick((base,), (base, gen, nad))
                                for lm in (LM, lms[0]) for a, b in (('a', 's'), ('h', 'b'))], 'stars of many zones', limit=600)
    ex = [e for e in itertools.product(*(((k, False), (k, True)) for k in ('get_debug_info', 'use_parallel', 'progress_bars')), (('nr_omp_threads', 1), ('nr_omp_threads', 3)))
          if any(v is True for _, v in e) and (dict(e)['use_parallel'] or dict(e)['nr_omp_threads'] == 1)]
    # the class without a progress bar option does not take one
    ctx.explore('neutral-options', neutral, [(k, ls, o, tuple(x for x in e if k == 'grid' or x[0] != 'progress_bars')) for k in KINDS for ls in ctx.pick(('as',), ('as', 'ub', 'hva', 'sab'))
                                             for o in ctx.pick((base, poly), (base, nad, poly, gen)) for e in ex], 'options that must not matter', limit=300)
