"""C23 Eigenfunction normalisation ends at unit norm for every mode."""
import itertools
import math

import numpy as np

from mc import aes
from mc.core import T, close, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of conventions, mode sets, scales, iteration limits and call histories on the real '
                 'normaliser, with energy responses under the control of the harness, against a reference run of the iteration',
    'note': 'All sets of 1 to 3 (4) modes with scales from an alphabet of 4, both conventions, linear and nonlinear responses of the '
            'energies, iteration off or limited to 0 to 4, numpy and plain Python numbers, complex eigenfunctions, and repeated '
            'normalisation.',
}
ATTRS = ('_x_z_1', '_x_z_2_over_c_1_omega', '_rad_diverg', '_lag_L_dim', '_y')
G, M, R = 6.67e-8, 4.1e33, 2.7e11
TARGET = {'lee2012': G * M ** 2. / R, 'schenk2002': M * R ** 2.}


class Coupler:
    @staticmethod
    def access_all_parameters():
        return list(ATTRS)


class Data:
    """Data object whose mode energies answer to the scale of the eigenfunctions as s**power."""
    def __init__(self, scales, power, number, cplx):
        self._G, self._M_star, self._R_star = number(G), number(M), number(R)
        self.power, self.number, self.n = power, number, len(scales)
        self.computed = []
        for i, s in enumerate(scales, 1):
            for k, a in enumerate(ATTRS):
                v = (np.arange(1., 5.) + .25 * k + i) * s
                setattr(self, f'{a}_mode_{i}', v * (1. + .5j) if cplx and k % 2 else v)
            setattr(self, f'_other_mode_{i}', np.arange(3.) + i)
            self.compute_b_a_mode_energy(i)
        self.computed.clear()

    def compute_b_a_mode_energy(self, mode_nr):
        self.computed.append(mode_nr)
        x = getattr(self, f'_x_z_1_mode_{mode_nr}')
        s = float(np.abs(x[0])) / (1. + mode_nr)
        e = 1e-3 * mode_nr * s ** self.power
        setattr(self, f'_energy_mode_{mode_nr}', self.number(e * TARGET['lee2012']))
        setattr(self, f'_classic_norm_mode_{mode_nr}', self.number(e * TARGET['schenk2002']))
        setattr(self, f'_b_a_mode_{mode_nr}', self.number(e))


def norms(d, conv, i):
    return float(getattr(d, f'_energy_mode_{i}' if conv == 'lee2012' else f'_classic_norm_mode_{i}')) / TARGET[conv]


def one(conv, scales, power, number, cplx, iterate, limit, upper=False):
    from gyre_eigen_norm import GYREEigenFunctionNormalizer as N
    d = Data(scales, power, number, cplx)
    before = {k: np.array(v) for k, v in d.__dict__.items() if isinstance(v, np.ndarray)}
    n = N(my_obj=d, coupler_enumeration=Coupler, norm_convention=conv.upper() if upper else conv, nr_modes=len(scales),
          iterative_process=iterate, max_iterations=limit)
    T.call()
    n()
    return d, n, before


def judge(case):
    conv, scales, power, num, cplx, iterate, limit = case
    number = np.float64 if num == 'numpy' else float
    d, n, before = one(conv, scales, power, number, cplx, iterate, limit)
    f = np.array(n.normalizing_factors)
    ensure(f.shape == (len(scales),), lambda: f'{case}: factors {f}')
    bad = np.array(n.normalization_check_array)
    perf, mx, its = n.iteration_characteristics
    ensure((bool(perf), int(mx)) == (iterate, limit), lambda: f'{case}: characteristics {n.iteration_characteristics}')
    ensure(0 <= its <= (limit if iterate else 0), lambda: f'{case}: {its} iterations of {limit}')
    out = []
    for i in range(1, len(scales) + 1):
        for a in ATTRS:
            k = f'{a}_mode_{i}'
            ensure(close(getattr(d, k), before[k] * f[i - 1], 1e-11),
                   lambda: f'{case}: {k} was not multiplied by the reported factor {f[i - 1]}: {getattr(d, k)} from {before[k]}')
        k = f'_other_mode_{i}'
        ensure(np.array_equal(getattr(d, k), before[k]), f'{case}: {k} is no eigenfunction and was changed')
        e = norms(d, conv, i)
        v = float(getattr(d, f'_energy_mode_{i}' if conv == 'lee2012' else f'_classic_norm_mode_{i}'))
        g, m, r = float(G), float(M), float(R)
        targets = (g * m ** 2. / r, g * (m * m / r), (g / r) * m * m, (g * m) * (m / r)) if conv == 'lee2012' else (m * r ** 2., m * r * r)
        if all(v == t for t in targets):
            ensure(not bad[i - 1], lambda: f'{case}: mode {i} is exactly normalised but is reported off')
        if abs(e - 1.) > 1e-9:
            ensure(bad[i - 1], lambda: f'{case}: mode {i} has norm {e!r} of the target but is reported normalised')
        # response s**power: every pass multiplies log(norm) by (1 - power/2)
        e0 = 1e-3 * i * (float(np.abs(before[f"_x_z_1_mode_{i}"][0])) / (1. + i)) ** power
        q = 1. - power / 2.
        if q == 0.:
            ensure(abs(e - 1.) < 1e-10, lambda: f'{case}: norm of mode {i} is {e}')
        else:
            passes = 1 + its if bad[i - 1] else None
            if passes is not None:
                ensure(abs(math.log(e) - math.log(e0) * q ** passes) <= 1e-8 + 1e-8 * abs(math.log(e0)),
                       lambda: f'{case}: log norm of mode {i} after {passes} passes is {math.log(e)} instead of {math.log(e0) * q ** passes}')
            if iterate and limit and not bad.any():
                ensure(abs(e - 1.) < 1e-12, lambda: f'{case}: norm {e}')
        out.append((rnd(e, 6), bool(bad[i - 1])))
    if iterate and its < limit:
        ensure(not bad.any(), lambda: f'{case}: stopped after {its} of {limit} iterations with modes {bad} off')
    # alone, each mode ends at the same place
    for i in range(1, len(scales) + 1):
        if len(scales) == 1:
            break
        others = list(scales)
        for k in range(len(scales)):
            if k != i - 1:
                others[k] = 1.7 * scales[k]
        d2, n2, _ = one(conv, tuple(others), power, number, cplx, iterate, limit)
        if n2.iteration_characteristics[2] == its or power == 2.:
            ensure(close(n2.normalizing_factors[i - 1], f[i - 1], 1e-9),
                   lambda: f'{case}: factor of mode {i} is {f[i - 1]}, and {n2.normalizing_factors[i - 1]} beside other modes')
    return out


def again(case):
    """Histories of normalisations: the second one changes nothing."""
    convs, scales, cplx = case
    from gyre_eigen_norm import GYREEigenFunctionNormalizer as N
    d = Data(scales, 2., np.float64, cplx)
    out = []
    prev = None
    for conv in convs:
        before = {k: np.array(v) for k, v in d.__dict__.items() if isinstance(v, np.ndarray)}
        n = N(my_obj=d, coupler_enumeration=Coupler, norm_convention=conv, nr_modes=len(scales))
        T.call()
        n()
        f = np.array(n.normalizing_factors)
        for i in range(1, len(scales) + 1):
            ensure(abs(norms(d, conv, i) - 1.) < 1e-10, lambda: f'{case}: norm of mode {i} is {norms(d, conv, i)}')
            if prev == conv:
                ensure(abs(f[i - 1] - 1.) < 1e-10, lambda: f'{case}: normalising again multiplies mode {i} by {f[i - 1]}')
                ensure(close(getattr(d, f'_x_z_1_mode_{i}'), before[f'_x_z_1_mode_{i}'], 1e-10), 'normalising again changes a mode')
        prev = conv
        out.append(rnd(f, 6))
    return out


def unknown(case):
    from gyre_eigen_norm import GYREEigenFunctionNormalizer as N
    d = Data((1., 2.), 2., np.float64, False)
    before = {k: np.array(v) for k, v in d.__dict__.items() if isinstance(v, np.ndarray)}
    n = N(my_obj=d, coupler_enumeration=Coupler, norm_convention=case, nr_modes=2)
    T.call()
    try:
        n()
    except BaseException as e:
        ensure(all(np.array_equal(before[k], getattr(d, k)) for k in before), 'modes were changed by an unknown convention')
        return type(e).__name__
    ensure(False, f'unknown convention {case!r} was accepted')


def run(ctx):
    aes.use(ctx)
    al = (1., 3.3e-7, .7, 2.5e9)
    K = ctx.pick(3, 4)
    cases = []
    for k in range(1, K + 1):
        for scales in itertools.product(al, repeat=k):
            for conv in ('lee2012', 'schenk2002'):
                for power in (2., 3., 1.5):
                    for num in ('numpy', 'python'):
                        for iterate, limit in ((False, 10), (True, 0), (True, 1), (True, 2), (True, 4), (True, 10)):
                            if k >= 3 and (num == 'python' or limit in (2, 10) and iterate):
                                continue
                            cases.append((conv, scales, power, num, k == 2, iterate, limit))
    ctx.explore('judge', judge, cases, 'mode sets x conventions x energy responses x iteration limits')
    ctx.explore('again', again, [(c, s, cx) for n in (2, 3, 4) for c in itertools.product(('lee2012', 'schenk2002'), repeat=n)
                                 for k in (1, 2, 3) for s in itertools.product(al[1:], repeat=k) for cx in (False, True)],
                'histories of normalisations')
    ctx.explore('unknown', unknown, ['lee', 'lee2013', '', 'schenk', 'LEE2012_'], 'unknown conventions')
    ctx.assumptions.append('energies of the modes are positive')
