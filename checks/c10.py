"""C10 stationary solutions: substituted back into the amplitude equations."""
import itertools

import numpy as np

from mc import aes
from mc.core import Fail, T, close, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of rate/detuning/coupling/observer configurations; every solution is substituted into the amplitude equations and every threshold into the linearised daughter equations',
    'note': 'Distinct values per mode (so that swaps show), all verdict combinations, real and complex coupling and '
            'luminosity terms, inclinations and periastron arguments, through the real frequency handler.',
}


def dicts(om, gam, m):
    base = dict(freq_units=b'RAD_PER_SEC', freq_frame=b'COROT_O', G=1., M_star=1., R_star=1.)
    ad = [dict(base, freq=np.array([o + 0j]), m=mm, Omega_rot_dim=np.array([.1])) for o, mm in zip(om, m)]
    nad = [dict(base, freq=np.array([o * 1.001 + 1j * g]), m=mm) for o, g, mm in zip(om, gam, m)]
    return ad, nad


MU = np.linspace(-1., 1., 41)


def hough(k):
    return [1.2 - .3 * MU + .7 * MU ** 2, .4 + MU - .2 * MU ** 3, -2. + .5 * MU ** 2 + MU ** 3][k]


def solver(eta, m, cplx):
    c = aes.Bag(eta_lee_coupling_coefficient=eta, _mu_values=MU)
    for k in range(3):
        setattr(c, f'_hr_mode_{k + 1}', hough(k))
        setattr(c, f'_m_mode_{k + 1}', m[k])
    z = (1 + 0j) if cplx else 1.
    j = 1j if cplx else 0.
    return aes.Bag(_coupler=c,
                   _lag_var_surf_lum=np.array([2., -3., .5]) * z + j * np.array([.3, .1, -.7]),
                   _xir_terms_norm=np.array([.7, 1.1, -.4]) * z + j * np.array([-.2, .6, .1]),
                   _tk_disc_integrals=np.array([.9, .35, 1.7]), _ek_disc_integrals=np.array([-.6, .25, 1.3]))


def build_solver(case):
    from aesolver.frequency_handling import FH
    from aesolver.stationary_solving import ThreeModeStationary
    om, gam, m, eta, cplx, pre, hyp, inc, per = case
    ad, nad = dicts(om, gam, m)
    fh = FH(*ad, my_freq_units='RAD_PER_SEC')
    fh.set_mode_nonadiabatic_info(*nad)
    so = solver(eta, m, cplx)
    T.call(2)
    return ThreeModeStationary(precheck_satisfied=pre, freq_handler=fh, hyperbolic=hyp, solver_object=so,
                               spin_inclination=inc, periastron_arg=per), so


def common(r, case):
    om, gam, m, eta, cplx, pre, hyp, inc, per = case
    gam = np.array(gam)
    det = om[0] - om[1] - om[2]
    ensure(close(r['linear driving rates'], gam, 1e-9), lambda: f'{r["linear driving rates"]}')
    ensure(close(r['gamma'], gam.sum(), 1e-9), lambda: f'gamma {r["gamma"]}')
    ensure(close(r['detunings'], det, 1e-9, 1e-12), lambda: f'detuning {r["detunings"]}, expected {det}')
    ensure(close(r['q factor'], det / gam.sum(), 1e-7), lambda: f'q {r["q factor"]}')
    ensure(close(r['critical q factor'], det / (gam[1] + gam[2]), 1e-7), lambda: f'critical q {r["critical q factor"]}')
    ensure(bool(r['hyperbolic']) == hyp and bool(r['linearly stable']) == pre,
           lambda: f'hyperbolic {r["hyperbolic"]}, linearly stable {r["linearly stable"]}')


def solve(case):
    om, gam, m, eta, cplx, pre, hyp, inc, per = case
    s, so = build_solver(case)
    r = s()
    T.call()
    common(r, case)
    A = np.asarray(r['equilibrium amplitudes'], float)
    F = np.asarray(r['surface flux variations'], float)
    if not pre:
        ensure(A.shape == F.shape == (3,) and not A.any() and not F.any()
               and r['critical parent amplitude'] is None and r['stationary relative phase'] is None
               and r['stationary relative luminosity phase'] is None, lambda: f'rejected triad has a solution: {r}')
        return 'rejected'
    g, w, e = np.array(gam), np.array(om), abs(eta)
    U = float(r['stationary relative phase'])
    ensure(A.shape == (3,) and np.isfinite(A).all() and (A > 0).all(), lambda: f'amplitudes {A}')
    P = A.prod()
    sg = np.array([1., -1., -1.])
    K = 2 * w * e * P / A ** 2 * sg              # right-hand side: rate of A_i is gamma_i + K_i sin / + K_i cos
    res = []
    for sigma in (1., -1.):
        r_amp = np.abs(g + sigma * K * np.sin(U)) / np.abs(g)
        det = om[0] - om[1] - om[2]
        r_ph = abs(det - sigma * (K * np.cos(U)).sum()) / max(abs(det), np.abs(g).max())
        res.append(max(r_amp.max(), r_ph))
    ensure(min(res) < 1e-6, lambda: f'omegas {om} rates {gam} eta {eta}: amplitudes {A.tolist()}, phase {U} '
                                    f'leave a relative residual of {min(res)} in the amplitude equations')
    # threshold: growth of the daughters in the field of a parent of constant amplitude
    ac = float(r['critical parent amplitude'])

    def daughters(a):
        d = om[0] - om[1] - om[2]
        M = np.array([[g[1] + .5j * d, 2j * w[1] * e * a], [-2j * w[2] * e * a, g[2] - .5j * d]])
        return np.linalg.eigvals(M).real.max()
    lo, hi = daughters(ac * .999), daughters(ac * 1.001)
    ensure(lo < 0 < hi, lambda: f'omegas {om} rates {gam} eta {eta}: parent at 0.999/1.001 of the threshold {ac} '
                                f'gives daughter growth {lo} / {hi}')
    # luminosity fluctuations
    D = np.abs(so._tk_disc_integrals * so._lag_var_surf_lum - so._ek_disc_integrals * so._xir_terms_norm)
    view = np.ones(3)
    if inc is not None:
        x = np.cos(inc)
        view = np.array([[1.2 - .3 * x + .7 * x ** 2, .4 + x - .2 * x ** 3, -2. + .5 * x ** 2 + x ** 3][k] for k in range(3)])
    ensure(close(F, A * D * view, 1e-6, 1e-9 * np.abs(A * D).min()), lambda: f'flux variations {F}, expected {A * D * view}')
    az = 0.
    if per is not None:
        az = np.mod(np.pi / 2 - per, 2 * np.pi) * (m[0] - m[1] - m[2])
    L = float(r['stationary relative luminosity phase'])
    ensure(abs(L - U - az) < 1e-9, lambda: f'luminosity phase {L}, expected {U + az} (orders {m}, periastron {per})')
    r2 = s()
    ensure(all(close(np.asarray(r2[k], float), np.asarray(r[k], float)) for k in r),
           'asking again gives another solution')
    return rnd(A, 6), rnd(F, 6), round(U, 6)


def run(ctx):
    aes.use(ctx)
    oms = [(2., 1.1, .8), (2., .7, 1.4), (5., 2.9, 2.05), (-3., -1.4, -1.7), (1.0, .6, .4001)]
    gams = [(1e-3, -2e-3, -3e-3), (2e-3, -.5e-3, -4e-3), (1e-2, -7e-2, -2e-2), (3e-3, -1.7e-3, -1.6e-3)]
    if ctx.thorough:
        oms += [(7., 3., 3.9), (2., 1.999, .002), (1., .3, .69)]
        gams += [(1e-5, -2e-3, -1e-6), (5e-3, -5e-3, -1e-3), (1., -.9, -.2)]
    etas = [1., 37.5, -4., 3 + 4j, 1e-3j]
    ms = [(2, 1, 1), (1, -1, 0), (3, -2, 5)]
    ctx.explore('solutions', solve,
                [(o, g, m, e, c, True, h, i, p) for o in oms for g in gams for m in ms for e in etas
                 for c in (False, True) for h in (True, False)
                 for i, p in ((None, None), (.3, None), (np.pi / 2, .4), (1.1, 2.), (0., np.pi / 2), (2.9, -1.),
                              (np.pi, 4.), (None, .7))],
                'accepted triads: substitution into the amplitude equations')
    f = 7.272e-5      # frequencies, rates and couplings of the size met in stars
    ctx.explore('stellar', solve,
                [(tuple(v * f for v in o), tuple(v * f * 1e-2 for v in g), m, e * 2e5, c, True, True, i, p) for o in oms for g in gams for m in ms
                 for e in etas for c in (False, True) for i, p in ((None, None), (.3, .4))],
                'accepted triads with frequencies, rates and couplings of realistic size')
    ctx.explore('rejected', solve,
                [(o, tuple(np.array(g) * np.array(sg)), m, e, False, False, h, i, p) for o in oms for g in gams
                 for sg in itertools.product((1, -1), repeat=3) for m in ms for e in etas[:2] for h in (True, False)
                 for i, p in ((None, None), (.3, .2))], 'rejected triads')
