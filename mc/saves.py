"""A stand-in for a finished solver run, and what a save of it must contain.

Every scalar handed to the saver is distinguishable: it encodes save tag, quantity, triad and mode.
"""
import numpy as np

from .aes import Bag

FREQS = ['inert_mode_freqs', 'corot_mode_freqs', 'inert_mode_omegas', 'corot_mode_omegas',
         'inert_dimless_mode_freqs', 'corot_dimless_mode_freqs', 'inert_dimless_mode_omegas',
         'corot_dimless_mode_omegas']
STAT = [('detunings', 'detunings', 0), ('gammas', 'gamma', 0),
        ('critical_parent_amplitudes', 'critical parent amplitude', 0),
        ('stationary_relative_phases', 'stationary relative phase', 0),
        ('stationary_relative_luminosity_phases', 'stationary relative luminosity phase', 0),
        ('q_factors', 'q factor', 0), ('critical_q_factors', 'critical q factor', 0),
        ('equilibrium_theoretical_amplitudes', 'equilibrium amplitudes', 3),
        ('surface_flux_variations', 'surface flux variations', 3)]
UNSOLVED = {'critical parent amplitude', 'stationary relative phase', 'stationary relative luminosity phase'}


class Numbers:
    """Distinct numbers; those listed in `bump` (quantity, triad, mode) are changed."""
    def __init__(self, tag, bump=()):
        self.tag, self.bump, self.names = tag, set(bump), {}

    def __call__(self, name, i, k=0):
        q = self.names.setdefault(name, len(self.names) + 1)
        v = 1000. * (self.tag + 1) + 10. * q + i + k / 16. + 1e-7 * q * (i + 1) * (k + 1)
        return v + 31. * ((name, i, k) in self.bump)

    def vec(self, name, i, n=3):
        return np.array([self(name, i, k) for k in range(n)])


def run_of(n, solved=None, poly=False, tag=0, signs=None, flags=None, bump=(), meta=None, l=None, m=None):
    """(solver stand-in, expected datasets, expected attributes) of a run of n triads."""
    num = Numbers(tag, bump)
    solved = (True,) * n if solved is None else solved
    signs = ((1, -1, -1),) * n if signs is None else signs
    flags = tuple((s, s) for s in solved) if flags is None else flags
    meta = meta or (('trapz', 'simpson', 'cheby')[tag % 3], tag % 2 == 0, 3 + tag, tag % 3 == 0, 1e-3 * (tag + 1))
    l = l or (2 + tag % 2, 2, 1)
    m = m or (2, 1, -(tag % 2))
    D, A = {}, {}
    fr = [[num.vec(f, i) for f in FREQS] for i in range(n)]
    nad = [[num.vec('nad ' + f, i) for f in FREQS] for i in range(n)]
    spin = [num.vec('spin', i) for i in range(n)]
    qual = [num.vec('quality', i) for i in range(n)]
    rot = [num('rotation', i) for i in range(n)]
    unit = ['HZ', 'UHZ', 'CPD', 'RAD_PER_SEC'][tag % 4]
    if poly:
        freq_info = [tuple(fr[i]) + (spin[i], rot[i], unit) for i in range(n)]
    else:
        freq_info = [tuple(fr[i]) + (spin[i], qual[i], rot[i], unit) + tuple(nad[i]) for i in range(n)]
    stat, kappa = [], []
    for i in range(n):
        d = {}
        for _, key, w in STAT:
            d[key] = num.vec(key, i) if w else num(key, i)
            if not solved[i]:
                d[key] = np.zeros(3) if w else None if key in UNSOLVED else d[key]
        rates = num.vec('rates', i) * np.array(signs[i])
        d['linear driving rates'] = rates
        d['gamma'] = float(rates.sum()) + 31. * (('gamma', i, 0) in num.bump)
        d['linearly stable'], d['hyperbolic'] = flags[i]
        stat.append(None if poly else d)
        kappa.append((num('k', i), num('kn', i), num('eta', i), 'x', -1., num.vec('norm', i), (i + tag) % 2 == 0,
                      -2., num.vec('terms', i, 4)))
    wu = [(int(num('avg', i)), int(num('wu', i)) - 1500) for i in range(n)]
    rad = [tuple(int(num('n', i, k) + 7 * k) for k in range(3)) for i in range(n)]
    s = Bag(stat_sol_info=stat, coupling_info=kappa, coupling_statistics=wu, mode_freq_info=freq_info,
            _mode_info_object=Bag(mode_l=list(l), mode_m=list(m), combinations_radial_orders=rad),
            _numerical_integration_method=meta[0], _use_cheby=meta[1], _cheby_order_mul=meta[2],
            _cheby_blow_up=meta[3], _cheby_blow_up_fac=meta[4])
    for k, v in zip(('num_int_method', 'use_cheby', 'cheby_order_mul', 'cheby_blow_up', 'cheby_blow_up_fac'), meta):
        A['/', k] = v
    A['quantum_numbers', 'l'], A['quantum_numbers', 'm'] = np.array(l), np.array(m)
    A['quantum_numbers', 'k'] = np.array(l) - np.abs(m)
    A['mode_frequency_info', 'frequency_units'] = unit.encode()
    D['quantum_numbers/n'] = np.array(rad)
    D['mode_statistics/wu'] = np.array([w[1] for w in wu])
    for j, f in enumerate(FREQS):
        D['mode_frequency_info/' + f] = np.array([x[j] for x in fr])
    D['rotation/spin_factors'] = np.array(spin)
    D['rotation/surface_rotation_frequency'] = np.array(rot)
    for name, j in (('|kappa|', 0), ('|kappa_norm|', 1), ('|eta|', 2), ('adiabatic', 6), ('quadratic_terms', 8)):
        D['coupling/generic/' + name] = np.array([x[j] for x in kappa])
    D['normalization/radial'] = np.array([x[5] for x in kappa])
    if not poly:
        A['nad_mode_frequency_info', 'frequency_units'] = unit.encode()
        for j, f in enumerate(FREQS):
            D['nad_mode_frequency_info/' + f] = np.array([x[j] for x in nad])
        D['linear_driving/driving_rates'] = np.array([d['linear driving rates'] for d in stat])
        D['linear_driving/quality_factors'] = np.array(qual)
        for name, key, w in STAT:
            D['coupling/stationary_three_mode/' + name] = np.array(
                [np.nan if d[key] is None else d[key] for d in stat], dtype=float)
        chk = []
        for d in stat:
            g = d['linear driving rates'] > 0
            chk.append([g[0] and not g[1] and not g[2], not g[0] and g[1] and g[2], bool(g.all()),
                        d['gamma'] < 0, d['linearly stable'], d['hyperbolic']])
        D['checks/pre_checks'] = np.array(chk, dtype=bool)
    return s, D, A


def read(path):
    """Everything in an HDF5 file: ({dataset path: value}, {(group, attribute): value})."""
    import h5py
    D, A = {}, {}
    with h5py.File(path, 'r') as f:
        for k, v in f.attrs.items():
            A['/', k] = v

        def visit(name, o):
            if isinstance(o, h5py.Dataset):
                D[name] = None if o.shape is None else o[()]
            for k, v in o.attrs.items():
                A[name, k] = v
        f.visititems(visit)
    return D, A


def same(a, b):
    """Equal value, shape and kind (bool, integer, float, text); missing values equal each other."""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in 'SUO' or b.dtype.kind in 'SUO':
        t = [[x.decode() if isinstance(x, bytes) else str(x) for x in np.ravel(y)] for y in (a, b)]
        return a.shape == b.shape and t[0] == t[1]
    if a.shape != b.shape or a.dtype.kind.replace('u', 'i') != b.dtype.kind.replace('u', 'i'):
        return False
    return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))


def differences(got, want):
    """Text describing how the contents differ, or ''."""
    out = []
    for g, w in zip(got, want):
        for k in sorted(set(g) | set(w), key=str):
            if k not in g:
                out.append(f'{k} is missing')
            elif k not in w:
                out.append(f'{k} should not be there')
            elif not same(g[k], w[k]):
                out.append(f'{k} is {np.asarray(g[k]).tolist()}, expected {np.asarray(w[k]).tolist()}')
    return '; '.join(out[:6])
