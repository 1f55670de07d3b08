"""C09 frequency handler: one physical truth, every spelling of it."""
import itertools

import numpy as np

from mc import aes
from mc.core import Fail, T, close, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of unit/frame/azimuthal-order configurations on the real frequency handler',
    'note': 'Every combination of supplied units per mode, frames per mode, requested unit, rotation spelling and '
            'nonadiabatic units/frames for several physical triads, including reuse of one handler object.',
}

UNITS = ['HZ', 'UHZ', 'RAD_PER_SEC', 'CYC_PER_DAY', 'NONE']
REQ = ['HZ', 'UHZ', 'CPD', 'CYC_PER_DAY', 'RAD_PER_SEC', 'hz', 'rad_per_sec']
G, M, R = 6.674e-8, 6.5e33, 2.1e11
# physical triads: co-rotating angular frequencies (rad/s), growth rates (1/s), m, rotation (rad/s)
PHYS = [
    ((3.1e-5, 1.7e-5, 1.3e-5), (2e-9, -3e-9, -5e-9), (2, 1, 1), 1.1e-5),
    ((2.2e-5, 1.4e-5, 0.9e-5), (-4e-9, 1e-9, 7e-9), (-2, 0, 1), 4e-6),
    ((5e-5, 2e-5, 2e-5), (1e-9, -1.5e-9, -1.5e-9), (0, -3, 3), 0.7e-5),
    ((1e-5, 7e-6, 2e-6), (3e-9, 2e-9, -1e-9), (1, -1, 2), 0.),
]


def tdyn():
    return np.sqrt(R ** 3 / (G * M))


def in_unit(om, unit):
    """A (complex) angular frequency in rad/s written in unit."""
    return {'HZ': om / (2 * np.pi), 'UHZ': om / (2 * np.pi) * 1e6, 'RAD_PER_SEC': om,
            'CYC_PER_DAY': om / (2 * np.pi) * 86400., 'CPD': om / (2 * np.pi) * 86400.,
            'NONE': om * tdyn()}[unit.upper()]


def mode_dict(om, gam, m, rot, unit, frame, omdim, shape):
    val = om + (m * rot if frame == 'INERTIAL' else 0.) + (1j * gam if gam is not None else 0j)
    f = np.array([[in_unit(val, unit)]]) if shape else np.array([in_unit(val, unit)])
    d = {'freq': f.astype(complex), 'freq_units': unit.encode(), 'freq_frame': frame.encode(), 'm': m,
         'G': G, 'M_star': M, 'R_star': R}
    if omdim:
        d['Omega_rot_dim'] = np.array([9., 7., rot])
    else:
        d['Omega_rot'] = np.array([9., 7., rot * tdyn()])
    return d


def expect(phys, req):
    om, gam, m, rot = phys
    om, gam, m = np.array(om), np.array(gam), np.array(m)
    ang = req.upper() == 'RAD_PER_SEC'
    cyc = 2 * np.pi
    e = {}
    # the omegas are in radians per requested time unit
    s = in_unit(1., req) if ang else in_unit(1., req) * cyc
    co, ci = om * s, (om + m * rot) * s
    e['corot_mode_omegas'], e['inert_mode_omegas'] = co, ci
    e['corot_mode_freqs'], e['inert_mode_freqs'] = co / cyc, ci / cyc
    e['surf_rot_freq'] = in_unit(rot, req)
    e['surf_rot_angular_freq'] = rot * s
    e['surf_rot_angular_freq_rps'] = rot
    e['angular_conv_factor_from_rps'] = s
    e['spin_factors'] = 2 * rot / om
    for fr, base in (('corot', om), ('inert', om + m * rot)):
        e[f'dimless_{fr}_omegas'] = base * tdyn()
        e[f'dimless_{fr}_freqs'] = base * tdyn() / cyc
    e['detuning'] = (om[0] - om[1] - om[2]) * s
    return e, s


def expect_nad(phys, ad, req):
    om, gam, m, rot = phys
    e, s = expect(phys, req)
    e2 = {k + '_nad': v for k, v in e.items() if k.startswith(('corot', 'inert', 'dimless', 'detuning'))}
    gam = np.array(gam) * s
    Q = expect(ad, req)[0]['corot_mode_omegas'] / gam
    Qn = e['corot_mode_omegas'] / gam
    e2['driving_rates'] = gam
    e2['quality_factors'], e2['quality_factors_nad'] = Q, Qn
    for nm, q in (('', Q), ('_nad', Qn)):
        e2['quality_factor_products' + nm] = np.array([q[0] * q[1], q[0] * q[2], q[1] * q[2]])
    e2['gamma_sum'] = gam.sum()
    det = expect(ad, req)[0]['detuning']
    e2['q_factor'], e2['q_factor_nad'] = det / gam.sum(), e['detuning'] / gam.sum()
    e2['q1_factor'], e2['q1_factor_nad'] = det / gam[0], e['detuning'] / gam[0]
    return e2, s


def scale(name, want, phys, req, s):
    """Magnitude against which cancellation errors are judged."""
    om = max(phys[0]) * s
    if name.startswith('detuning'):
        return om
    if name.startswith(('q_factor', 'q1_factor')):
        return om / abs(np.array(phys[1]) * s).min()
    return max(1e-300, float(np.max(np.abs(want))))


def compare(h, want, phys, req, s, what):
    for k, v in want.items():
        T.call()
        got = np.asarray(getattr(h, k), dtype=float)
        ensure(got.size == np.size(v), lambda: f'{what}: {k} has shape {got.shape}')
        tol = 3e-9 * scale(k, v, phys, req, s)
        if not np.all(np.abs(got.ravel() - np.ravel(v)) <= tol):
            raise Fail(f'{what}: {k} is {got.ravel().tolist()}, expected {np.ravel(v).tolist()}')


GET = {'get_inert_corot_f': ('corot_mode_freqs', 'inert_mode_freqs'),
       'get_inert_corot_o': ('corot_mode_omegas', 'inert_mode_omegas'),
       'get_dimless_freqs': ('dimless_corot_freqs', 'dimless_inert_freqs'),
       'get_dimless_omegas': ('dimless_corot_omegas', 'dimless_inert_omegas')}


def getters(h, want, suffix, what):
    for g, (a, b) in GET.items():
        for nr in (1, 2, 3):
            got = np.asarray(getattr(h, g + suffix)(nr)).ravel()
            T.call()
            ensure(close(got, [want[a + suffix][nr - 1], want[b + suffix][nr - 1]], 1e-8, 0),
                   lambda: f'{what}: {g + suffix}({nr}) is {got}, expected '
                           f'{want[a + suffix][nr - 1]}, {want[b + suffix][nr - 1]}')
    got = np.asarray(getattr(h, 'get_detunings' + suffix)()).ravel()
    d = want['detuning' + suffix]
    ensure(close(got, [d, d], 1e-6, 1e-8 * abs(d) + 1e-9 * abs(want['corot_mode_omegas' + suffix][0])),
           lambda: f'{what}: detunings {got}, expected {d}')


def nad_phys(phys):
    return (tuple(o * f for o, f in zip(phys[0], (1.01, .99, 1.02))), *phys[1:])


def ad_dicts(phys, units, frames, omdim, shape):
    return [mode_dict(o, None, m, phys[3], u, f, omdim, shape)
            for o, m, u, f in zip(phys[0], phys[2], units, frames)]


def nad_dicts(phys, units, frames, omdim, shape):
    return [mode_dict(o, g, m, phys[3], u, f, omdim, shape)
            for o, g, m, u, f in zip(phys[0], phys[1], phys[2], units, frames)]


def handler(case):
    from aesolver.frequency_handling import FH
    p, units, frames, nunits, nframes, req, omdim, shape, before = case
    phys = PHYS[p]
    if before is None:
        h = FH(*ad_dicts(phys, units, frames, omdim, shape), my_freq_units=req)
    else:    # a handler that held another triad, in other units, before
        b = PHYS[before]
        h = FH(*ad_dicts(b, UNITS[1:4], ('INERTIAL', 'COROT_I', 'INERTIAL'), True, True), my_freq_units='UHZ')
        h.set_mode_nonadiabatic_info(*nad_dicts(nad_phys(b), UNITS[1:4], ('INERTIAL',) * 3, True, True))
        h.set_mode_info(*ad_dicts(phys, units, frames, omdim, shape), requested_units=req)
    T.call()
    want, s = expect(phys, req)
    ensure(h.nr_of_modes == 3 and h.requested_units == req and h.angular == (req.upper() == 'RAD_PER_SEC'),
           lambda: f'{h.nr_of_modes} modes, {h.requested_units}, angular {h.angular}')
    what = f'units {units} frames {frames} requested {req}'
    compare(h, want, phys, req, s, what)
    getters(h, want, '', what)
    out = [rnd(h.corot_mode_omegas, 7)]
    if nunits is not None:
        nphys = nad_phys(phys)
        h.set_mode_nonadiabatic_info(*nad_dicts(nphys, nunits, nframes, omdim, shape))
        T.call()
        want2, s = expect_nad(nphys, phys, req)
        what += f' nonadiabatic units {nunits} frames {nframes}'
        compare(h, want2, nphys, req, s, what)
        getters(h, want2, '_nad', what)
        compare(h, want, phys, req, s, what + ' (adiabatic values afterwards)')
        out += [rnd(h.driving_rates, 7), rnd(h.quality_factor_products, 7)]
    return out


def run(ctx):
    aes.use(ctx)
    frames = list(itertools.product(('INERTIAL', 'COROT_O'), repeat=3))
    triples = list(itertools.product(UNITS, repeat=3))
    same = [(u,) * 3 for u in UNITS]
    few = frames if ctx.thorough else [frames[k] for k in (0, 2, 5, 7)]
    req = REQ if ctx.thorough else REQ[:6]
    ph = range(4) if ctx.thorough else (0, 1)
    ctx.explore('adiabatic', handler,
                [(p, u, f, None, None, r, od, sh, None) for p in ph for u in triples for f in few
                 for r in req for od, sh in ((True, True), (False, False))],
                'every assignment of units to modes x frames x requested unit x rotation spelling')
    ctx.explore('nonadiabatic', handler,
                [(p, u, f, v, g, r, od, True, None) for p in range(4) for u in same for v in same
                 for f in (frames if ctx.thorough else frames[::3]) for g in few for r in req
                 for od in ((True, False) if ctx.thorough else (True,))],
                'units and frames of the adiabatic against those of the nonadiabatic input')
    ctx.explore('mixed-nonadiabatic', handler,
                [(p, same[0], frames[2], v, g, r, True, False, None) for p in (0, 1) for v in triples
                 for g in few for r in REQ[:5]], 'every assignment of nonadiabatic units to modes')
    ctx.explore('reused', handler,
                [(p, u, f, v, f, r, True, True, b) for p in range(4) for b in range(4) for u in same
                 for v in (None, same[0], same[4]) for f in frames for r in REQ],
                'a handler object that held another triad before')
