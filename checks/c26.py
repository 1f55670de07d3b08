"""C26 Analysis masks classify every solution by the stated criteria, once."""
import contextlib
import io
import itertools
import math
import os
import re
import tempfile

import numpy as np

from mc import build, histref
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of triad tables (shared and unshared parents and daughters x threshold and saturation '
                 'amplitudes x verdicts) on the real mask functions, and of stored result files (value alphabets x file layouts x row '
                 'orders) on the real analyser and plotter, against the stated criteria',
    'note': 'Tables of up to three (thorough: four) triads enumerated completely, larger ones up to reordering. The daughters of a table have '
            'equal degree and order (radial orders identify them), and the first daughter has azimuthal order one, as the analysis assumes. '
            'When two triads share the lowest threshold of a parent either may count as the lowest one.',
}
CPD, MU = 86400., 1e6
NYQ = 283e-6 * 86400.


def quiet(f, *a, **k):
    T.call()
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
        out = f(*a, **k)
    return out, buf.getvalue()


# ------------------------------------------------------------------ the criteria
def isolated(rad, thr, eq):
    """(True / False / None where the criterion leaves it open) per triad."""
    n = len(thr)
    ok = [i for i in range(n) if not math.isnan(thr[i])]
    out = [False] * n
    for i in ok:
        if thr[i] > min(thr[j] for j in ok if rad[j][0] == rad[i][0]):
            continue
        low = True
        for d in rad[i][1:]:
            if thr[i] > min(thr[j] for j in ok if d in rad[j][1:]):
                low = False
        if not low:
            continue
        mine = [j for j in ok if rad[j][0] == rad[i][0]]
        if len(mine) == 1:
            out[i] = True
            continue
        srt = sorted(thr[j] for j in mine)
        cand = {srt[1] > eq[j] * 1e6 for j in mine if thr[j] == srt[0]}
        out[i] = cand.pop() if len(cand) == 1 else None
    return out


def agrees(got, want):
    return all(w is None or bool(g) == w for g, w in zip(got, want))


def table(rows):
    """Data dictionary of rows (rad, thr, eq, stab3, detuning, harmonic?)."""
    n = len(rows)
    return {'rad_ord': np.array([r[0] for r in rows], dtype=np.int64).reshape(n, 3),
            'thresh_surf_ppm': np.array([r[1] for r in rows], dtype=float),
            'surfs': np.array([[r[2], 0., 0.] for r in rows], dtype=float).reshape(n, 3),
            'checks': np.array([(True, False, True) + tuple(r[3]) for r in rows], dtype=bool).reshape(n, 6),
            'linear_omega_diff_to_min_omega': np.array([r[4] for r in rows], dtype=float),
            'harmonic_mask': np.array([r[0][1] == r[0][2] for r in rows], dtype=bool)}


def masks_of(rows):
    from ae_analyzer.library_functions import get_mask_information_triad_counts as counts
    from aeplotter.library_functions import isolated_non_isolated_stable_valid_masking as sharp
    from aeplotter.library_functions import theoretical_plotting_masks_overview as overview
    return counts, sharp, overview


def triads(case):
    """The mask functions on one table."""
    rows = case
    counts, sharp, overview = masks_of(rows)
    dd = table(rows)
    keep = {k: v.copy() for k, v in dd.items()}
    n = len(rows)
    iso = isolated([r[0] for r in rows], [r[1] for r in rows], [r[2] for r in rows])
    stab = [all(r[3]) for r in rows]
    ae = [abs(r[4]) <= .1 for r in rows]
    har = [r[0][1] == r[0][2] for r in rows]
    got, _ = quiet(counts, data_dict=dd)
    ensure(len(got) == 5 and all(np.shape(g) == (n,) for g in got), f'the masks have shapes {[np.shape(g) for g in got]}')
    gs, ga, gi, gv, gsv = (np.asarray(g, dtype=bool) for g in got)
    ensure(agrees(gs, stab), f'stable: {gs.tolist()}, by the checks {stab}')
    ensure(agrees(ga, ae), f'amplitude equations valid: {ga.tolist()}, by the detunings {ae}')
    ensure(agrees(gi, iso), f'isolated: {gi.tolist()}, by the thresholds {iso}')
    ensure((gv == (ga & gi)).all() and (gsv == (gs & gv)).all(), 'the combined masks are not the conjunctions of the single ones')
    (ov), _ = quiet(overview, data_dict=dd)
    s, a, v = (np.asarray(o, dtype=bool) for o in ov)
    ensure(((s.astype(int) + a + v) <= 1).all(), 'a triad is in two classes of the overview')
    want = [st and not h for st, h in zip(stab, har)]
    ensure(agrees(s | a | v, want), f'in some class of the overview: {(s | a | v).tolist()}, stable and no harmonic {want}')
    for name, g, w in (('stable only', s, lambda i, x: stab[i] and not ae[i]),
                       ('stable and valid amplitude equations', a, lambda i, x: stab[i] and ae[i] and not x),
                       ('stable and isolated', v, lambda i, x: stab[i] and ae[i] and x)):
        for i in range(n):
            opts = {bool(w(i, x)) and not har[i] for x in ((True, False) if iso[i] is None else (iso[i],))}
            ensure(bool(g[i]) in opts, f'triad {i} {name}: {bool(g[i])}')
    (gi1, gi0), _ = quiet(sharp, data_dict=dd, minimum_threshold_lum=None, max_threshold_detuning=None)
    for i in range(n):
        opts = {(stab[i] and ae[i] and x, stab[i] and ae[i] and not x) for x in ((True, False) if iso[i] is None else (iso[i],))}
        ensure((bool(gi1[i]), bool(gi0[i])) in opts, f'triad {i} isolated, not isolated: {bool(gi1[i])}, {bool(gi0[i])}; wanted {opts}')
    for k, x in keep.items():
        ensure(np.array_equal(dd[k], x, equal_nan=x.dtype.kind == 'f'), f'the masking changed the data behind {k}')
    T.seen((n, sum(x is True for x in iso), sum(x is None for x in iso)))


def large(case):
    """Tables as long as those of real computations."""
    n, P, Q, step, ties, sign = case
    b3 = list(itertools.product((True, False), repeat=3))
    rows = []
    for i in range(n):
        j = i * step % n
        d = [(j * 7 + j // P) % Q + 30, (j * j + 5 * j) % Q + (30 if ties else 30 + Q)]
        t = NAN if i % 11 == 4 else 1. + (j * 13 % (n // 2 if ties else n)) / 7.
        rad = (j % P + 1, *d)
        if sign == 0:     # p and g modes
            rad = tuple((r // 2 + 1) * (1 if r % 2 else -1) for r in rad)
            t, u = t * 1e-5, 1e-5
        else:
            rad, u = tuple(sign * r for r in rad), 1.
        rows.append((rad, t, u * (.5e-6, 1.5e-6, 4e-6, 2e-5)[j * 3 % 4], b3[0] if i % 3 else b3[i // 3 % 8],
                     (.05, -.02, .3)[0 if i % 5 else i // 5 % 3]))
    # daughters of a triad are at different places of the list: the smaller first
    return triads(tuple((r[0][:1] + tuple(sorted(r[0][1:])),) + r[1:] for r in rows))


def limits(case):
    """The optional threshold and detuning limits."""
    rows, lum, det = case
    counts, sharp, overview = masks_of(rows)
    dd = table(rows)
    (b1, b0), _ = quiet(sharp, data_dict=dd, minimum_threshold_lum=None, max_threshold_detuning=None)
    (g1, g0), _ = quiet(sharp, data_dict=dd, minimum_threshold_lum=lum, max_threshold_detuning=det)
    low = [i for i, r in enumerate(rows) if lum is not None and (math.isnan(r[1]) or r[1] < float(lum))]
    for i, r in enumerate(rows):
        drop = any(r[0][k] == rows[j][0][k] for j in low for k in range(3))
        cross = any(r[0][k] == rows[j][0][3 - k] for j in low for k in (1, 2))
        off = det is not None and abs(r[4]) > det
        for b, g, what in ((b1, g1, 'isolated'), (b0, g0, 'not isolated')):
            if drop or off:
                ensure(not g[i], f'triad {i} ({what}) is kept although it is beyond the limits {lum}, {det}')
            elif not cross:
                ensure(bool(g[i]) == bool(b[i]), f'triad {i} ({what}): {bool(g[i])} within the limits {lum}, {det}, {bool(b[i])} without')
            else:
                ensure(not g[i] or b[i], f'triad {i} ({what}) appears with limits only')
    T.seen((len(low), lum, det))


# ------------------------------------------------------------------ stored files
PATHS = {'surfs': 'coupling/stationary_three_mode/surface_flux_variations', 'checks': 'checks/pre_checks',
         'driv': 'linear_driving/driving_rates', 'theo': 'coupling/stationary_three_mode/equilibrium_theoretical_amplitudes',
         'thr': 'coupling/stationary_three_mode/critical_parent_amplitudes', 'rad': 'quantum_numbers/n',
         'com': 'mode_frequency_info/corot_mode_omegas', 'cof': 'mode_frequency_info/corot_mode_freqs',
         'iom': 'mode_frequency_info/inert_mode_omegas', 'iof': 'mode_frequency_info/inert_mode_freqs',
         'dim': 'mode_frequency_info/inert_dimless_mode_omegas', 'kap': 'coupling/generic/|kappa|',
         'kan': 'coupling/generic/|kappa_norm|', 'pha': 'coupling/stationary_three_mode/stationary_relative_luminosity_phases'}
KEYS = {'surfs': 'surfs', 'checks': 'checks', 'driv': 'driv_damp_rates', 'theo': 'theoretical_amps', 'thr': 'thresh_amp', 'rad': 'rad_ord',
        'com': 'corot_mode_omegas', 'cof': 'corot_mode_freqs', 'iom': 'inert_mode_omegas', 'iof': 'inert_mode_freqs', 'kap': 'kappa',
        'kan': 'kappa_norm', 'pha': 'stationary_relative_luminosity_phase'}
NAN = math.nan


def base_row(i):
    return {'surfs': (2e-6 + 1e-8 * i, 1e-6 + 2e-8 * i, 3e-6 - 1e-8 * i), 'theo': (.5 + .01 * i, .25, .125), 'thr': .4 + .003 * i,
            'checks': (True, False, True, True, True, True), 'com': (4e-5 + 1e-7 * i, 2e-5, 1.9e-5), 'rot': 3e-6,
            'driv': (1e-9, -2e-9 - 1e-11 * i, -3e-9), 'rad': (-20 - i, -30 - i, -31 - i), 'kap': -1.5 + .1 * i, 'kan': .7 - .2 * i, 'pha': .1 * i}


def blocks(name):
    """Rows of one block of values."""
    rows = []

    def add(**kw):
        r = base_row(len(rows))
        r.update(kw)
        rows.append(r)
    if name == 'amplitudes':
        for sp, sd, th, tr, (par, dr) in itertools.product((NAN, 0., 2e-6), ((NAN, NAN), (0., 1e-6), (3e-6, 2e-6)), (NAN, 0., .5), (NAN, .3),
                                                           ((True, False), (False, True), (False, False))):
            add(surfs=(sp,) + sd, theo=(th, .3, .2), thr=tr, checks=(par, dr, True, True, True, True))
    elif name == 'frequencies':
        for p, d1, d2, rot, g1, g2 in itertools.product((4e-5, 3.6e-5, 4.4e-5), (2e-5, 2.2e-5), (1.9e-5, 2e-5), (0., 3e-6, 4e-5),
                                                        (1e-9, 4e-10), (-2e-9, -7e-10)):
            add(com=(p, d1, d2), rot=rot, driv=(g1, g2, -3e-9))
    elif name == 'retrograde':
        # frequencies that end up negative in the inertial frame
        for c, rot in itertools.product((3e-4, 6e-4, 1.2e-3, 2e-3), (-2e-4, -5e-4, -9e-4, -1.5e-3, -2e-3, -2.4e-3, -3.1e-3)):
            add(com=(2 * c, c * 1.01, c * .98), rot=rot)
    elif name == 'verdicts':
        for bits in itertools.product((True, False), repeat=3):
            for d, (q1, q2), h in itertools.product((1.6e-6, 1.8e-6, 2.2e-6, -1.9e-6), ((True, False), (False, True)), (0, 1)):
                i = len(rows)
                add(checks=(q1, q2, True) + bits, com=(4e-5 + d, 2e-5, 2e-5), rad=(-20 - i // 3, -30 - i, -30 - i - (1 - h) * 500))
    else:
        # parents and daughters shared between triads
        for p, a, b, t, s in itertools.product((1, 2, 3), (4, 5), (4, 6), (.3, .35, .5), (2e-6, 5e-7)):
            i = len(rows)
            add(rad=(p, a + 2 * p, b + 2 * p), thr=t + .001 * (i * 7 % 11), surfs=(s, 1e-6, 2e-6), theo=(.5, .2, .2))
    return rows


def store(path, rows):
    import h5py
    n = len(rows)
    com = np.array([r['com'] for r in rows], dtype=float).reshape(n, 3)
    iom = com + np.array([r['rot'] for r in rows], dtype=float)[:, None] * np.array([2., 1., 1.])
    a = {k: np.array([r[k] for r in rows]) for k in ('surfs', 'theo', 'thr', 'checks', 'driv', 'rad', 'kap', 'kan', 'pha')}
    a.update(com=com, cof=com / (2 * np.pi), iom=iom, iof=iom / (2 * np.pi), dim=iom * 1e4)
    with h5py.File(path, 'w') as f:
        for k, p in PATHS.items():
            f.create_dataset(p, data=a[k])
        g = f['quantum_numbers']
        for k, v in (('k', (0, 0, 0)), ('l', (2, 1, 1)), ('m', (2, 1, 1))):
            g.attrs[k] = np.array(v)
    return a


LAYOUTS = ('one', 'flat', 'nested-one', 'nested-two', 'nested-mixed', 'mixed-first')


def layout(name, rows):
    """(base names, rows per file, files per data set or None where open)."""
    k = max(1, len(rows) // 3)
    parts = [rows] if name == 'one' or name == 'nested-one' else [rows[:k], rows[k:]] if name in ('flat', 'nested-two') else \
        [rows[:k], rows[k:2 * k + 1], rows[2 * k + 1:]]
    names = [f'part{i}' for i in range(len(parts))]
    if name == 'one':
        return ['part0'], names, parts, [[0]]
    if name == 'flat':
        return names, names, parts, None
    if name == 'nested-one':
        return [names], names, parts, [[0]]
    if name == 'nested-two':
        return [names], names, parts, [[0, 1]]
    if name == 'nested-mixed':
        return [names[:2], names[2]], names, parts, [[0, 1], [2]]
    return [names[0], names[1:]], names, parts, [[0], [1, 2]]


def load_dict(d, base):
    def like(v):
        return [[v] * len(x) if isinstance(x, list) else v for x in base]
    n = len(base)
    return {'nr_files': n, 'base_dir': d, 'output_dir': 'out', 'use_standard_format': False, 'base_file_names': base,
            'specification_names': like(''), 'file_suffix': like('hdf5'), 'meridional_degrees': [[0, 0, 0]] * n,
            'azimuthal_orders': [[2, 1, 1]] * n}


def data(files, names):
    return {k: np.concatenate([files[i][k] for i in names], axis=0) for k in files[names[0]]}


def same(got, want, what, rtol=1e-11):
    got, want = np.asarray(got), np.asarray(want)
    ensure(got.shape == want.shape, f'{what} has shape {got.shape} instead of {want.shape}')
    bad = ~np.isclose(got, want, rtol=rtol, atol=0., equal_nan=True)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        ensure(False, f'{what} of triad {i[0]}{i[1:] or ""} is {got[i]!r}, from the stored values {want[i]!r}')


def derived(a):
    """Every derived quantity of the stored values of one data set."""
    com, iom, drv, s, chk = a['com'], a['iom'], a['driv'], a['surfs'], a['checks'].astype(bool)
    with np.errstate(all='ignore'):
        d = com[:, 0] - com[:, 1] - com[:, 2]
        rot = iom[:, 1] - com[:, 1]
        par, dr = chk[:, 0], chk[:, 1]
        conv = np.where(par & ~np.isnan(a['theo'][:, 0]) & (a['theo'][:, 0] != 0.), s[:, 0] / a['theo'][:, 0], NAN)

        def ratio(x, y):
            return np.where((y == 0.) | np.isnan(y), NAN, x / y)

        def amp(k):
            return np.where(dr, ratio(s[:, 0], s[:, k]), np.where(par, ratio(s[:, k], s[:, 0]), NAN))
        g = drv.sum(axis=1)
        sh = np.stack([-d * drv[:, 0] / g, d * drv[:, 1] / g, d * drv[:, 2] / g], axis=1)
        o = {'linear_omega_diff': d, 'linear_omega_diff_to_min_omega': d / np.abs(com).min(axis=1), 'rotation_freqs': rot,
             'spin_parameters': 2 * rot[:, None] / com, 'thresh_surf_ppm': a['thr'] * conv * 1e6,
             'p_driv_rates': drv[:, 0], 'd_damp_rates': drv[:, 1:],
             'surf_ratio_daughter_parent_OG_SHAPE': np.stack([amp(1), amp(2)], axis=1),
             'surf_ratio_daughter_parent': np.concatenate([amp(1), amp(2)]),
             'surf_ratio_vb_21': np.where(par | dr, ratio(s[:, 0], s[:, 1] * s[:, 2]), NAN),
             'abs_kappa': np.abs(a['kap']), 'abs_kappa_norm': np.abs(a['kan']), 'freq_shift_p': sh[:, 0], 'freq_shift_d': sh[:, 1:],
             'freq_shift_p_to_omega': sh[:, 0] / iom[:, 0], 'freq_shift_d_to_omega': sh[:, 1:] / iom[:, 1:]}
        for k in ('linear_omega_diff', 'rotation_freqs', 'p_driv_rates', 'd_damp_rates', 'freq_shift_p', 'freq_shift_d'):
            o[k + '_cpd'], o[k + '_muHz'] = o[k] * CPD, o[k] * MU
        for k, n in (('com', 'corot_mode_omegas'), ('cof', 'corot_mode_freqs'), ('iom', 'inert_mode_omegas'), ('iof', 'inert_mode_freqs')):
            for u, f in (('cpd', CPD), ('muHz', MU)):
                o[f'{n}_p_{u}'], o[f'{n}_d_{u}'] = a[k][:, 0] * f, a[k][:, 1:] * f
        ana = {'p_quality_factors': com[:, 0] / drv[:, 0], 'gamma_sum': g * CPD, 'gamma_sum_cpd': g * CPD, 'q': d / g, 'q1': d / drv[:, 0],
               'q3': d / drv[:, 2], 'theta2': -drv[:, 1] / drv[:, 0], 'theta3': -drv[:, 2] / drv[:, 0], 'theta23': drv[:, 1] / drv[:, 2],
               'nonlinear frequency shift/omega inert': sh / iom, 'nonlinear parent omega (c/d)': (iom + sh)[:, 0] * CPD,
               'nonlinear daughter omega (c/d)': (iom + sh)[:, 1:] * CPD, 'nonlinear omegas (c/d)': (iom + sh) * CPD, 'nonlinear phase': a['pha']}
        f = ((iom + sh) / (2 * np.pi) * CPD).min(axis=1)
        r = np.mod(np.abs(f), 2 * NYQ)
        neg = f < 0
        alias = np.where(neg & (np.abs(f) < 4 * NYQ), np.where(r <= NYQ, r, 2 * NYQ - r), f)
        plo = {'resonance_sharpness_factor': d / (drv[:, 1] + drv[:, 2]), 'min_inertial_freq_stack': np.stack([alias, alias], axis=1),
               'neg_mask': np.stack([neg, neg], axis=1), 'harmonic_mask': a['rad'][:, 1] == a['rad'][:, 2], 'dimless_freq_ratio': a['dim'] / iom}
    iso = isolated(a['rad'].tolist(), o['thresh_surf_ppm'].tolist(), s[:, 0].tolist())
    stab = chk[:, -3:].all(axis=1)
    ae = np.abs(o['linear_omega_diff_to_min_omega']) <= .1
    return o, ana, plo, stab, ae, iso


TIGHT = {'freq_shift_p', 'freq_shift_d'}


def compare(dd, o, what, optional=()):
    for k, w in o.items():
        if k not in dd:
            continue
        d = o.get('linear_omega_diff')
        # differences of frequencies lose digits
        tol = 1e-9 if any(x in k for x in ('diff', 'shift', 'sharp', 'rotation', 'spin')) or k in ('q', 'q1', 'q3') else 1e-11
        same(dd[k], w, f'{k} ({what})', tol)


def numbers(text, label):
    """The integers printed after lines that mention label."""
    out = []
    for line in text.splitlines():
        if label in line:
            out.append(int(line.rsplit(' ', 1)[1]))
    return out


INTERNALS = ('_list_data_dict', '_mask_list_isolated', '_mask_list_not_isolated_stable', '_mask_list_stable', '_mask_list_ae_stable', '_mask_list_stable_valid',
             '_count_nr_dict', '_resonance_sharpness_figure_dict', '_plot_resonance_sharpness')


def analysed(case):
    """The analyser on stored files."""
    block, lay, rev = case
    from ae_analyzer import QuadraticAEStationaryAnalyzer
    rows = blocks(block)
    if rev:
        rows = rows[::-1]
    base, names, parts, groups = layout(lay, rows)
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, 'out'))
        files = [store(os.path.join(d, 'out', f'{n}_k_0_0_0_m_2_1_1.hdf5'), p) for n, p in zip(names, parts)]
        an, _ = quiet(QuadraticAEStationaryAnalyzer, load_information=load_dict(d, base), analysis_dict={'verbose': False},
                      save_information=None, model_names=['aaa', 'bbb', 'ccc'])
        if not hasattr(an, '_list_data_dict'):
            return 'no such internals'
        if groups is None:
            groups = [[0, 1]] if len(an._list_data_dict) == 1 else [[0], [1]]
        ensure(len(an._list_data_dict) == len(groups), f'{len(an._list_data_dict)} data sets from {len(groups)} groups of files')
        want = []
        for gi, (g, dd) in enumerate(zip(groups, an._list_data_dict)):
            a = data(files, g)
            for k, key in KEYS.items():
                ensure(np.array_equal(dd[key], a[k], equal_nan=a[k].dtype.kind == 'f'), f'{key} of data set {gi} differs from the stored values')
            o, ana, _, stab, ae, iso = derived(a)
            compare(dd, o, f'data set {gi}')
            compare(dd, ana, f'data set {gi}')
            nl = np.asarray(dd['nonlinear omegas (c/d)'])
            with np.errstate(all='ignore'):
                lock = nl[:, 0] - nl[:, 1] - nl[:, 2]
            ensure((np.abs(lock) <= 1e-9 * np.abs(nl).max(axis=1)).all(), 'the nonlinear frequencies are not locked')
            ensure(agrees(dd['stability_mask'], stab) and agrees(dd['ae_mask'], ae), 'the stability or validity mask of the files differs')
            ensure(agrees(dd['isolation_mask'], iso), f'isolation mask {np.flatnonzero(dd["isolation_mask"]).tolist()}, by the thresholds '
                                                      f'{[i for i, x in enumerate(iso) if x]}')
            iso = np.asarray(dd['isolation_mask'], dtype=bool)
            ensure((np.asarray(dd['validity_mask']) == (ae & iso)).all() and
                   (np.asarray(dd['stability_and_validity_mask']) == (stab & ae & iso)).all(), 'the stored combined masks differ')
            want.append((a, o, ana, stab, ae, iso))
        _, text = quiet(an.generate_mode_triad_numbers_per_model)
        for name, (a, o, ana, stab, ae, iso) in zip(('aaa', 'bbb', 'ccc'), want):
            lines = [x for x in text.splitlines() if f'({name})' in x]
            c = a['checks'].astype(bool)
            for lab, n in (('Total nr', len(stab)), ('_g_box_dot_ok', c[:, 3].sum()), ('Quartic', c[:, 4].sum()), ('hyperbolic', c[:, 5].sum()),
                           ('AE validity', ae.sum()), ('the isolation validity', iso.sum()), ('fulfilling the stability conditions', stab.sum()),
                           ('fulfilling the validity conditions', (ae & iso).sum()), ('stability and validity', (stab & ae & iso).sum())):
                got = [x for x in lines if lab in x]
                ensure(len(got) == 1 and int(got[0].rsplit(None, 1)[1]) == n, f'the summary of {name} reads {got}, counted {n}')
        _, text = quiet(an.generate_counts_q_quality_factor_1_condition)
        tot = {}
        for a, o, ana, stab, ae, iso in want:
            with np.errstate(all='ignore'):
                big = (o['surf_ratio_daughter_parent_OG_SHAPE'] > 1).all(axis=1)
                m = ana['q'] > ana['p_quality_factors']
            for k, v in (('both', big), ('q', m), ('both q', big & m), ('both not q', big & ~m), ('stab', big & m & stab),
                         ('unstab', big & m & ~stab), ('ae', big & m & ae), ('iso', big & m & iso), ('aeb', big & ae), ('naeb', big & ~ae)):
                tot[k] = tot.get(k, 0) + int(v.sum())
        amps = 'for which both predicted daughter-parent amplitude ratios are larger than unity'
        for lead, tail, k in (('total number of triads for which q > Q1', '', 'q'), (f'total number of triads {amps} (', '', 'both'),
                              (f'total number of triads {amps} and q > Q1', '', 'both q'), (f'total number of triads {amps} and q <= Q1', '', 'both not q'),
                              (f'number of stable triads {amps} and q > Q1', '', 'stab'), (f'number of unstable triads {amps} and q > Q1', '', 'unstab'),
                              (f'number of AE-valid triads {amps} and q > Q1', '', 'ae'), (f'number of isolated triads {amps} and q > Q1', '', 'iso'),
                              (f'number of AE-valid triads {amps} (', '', 'aeb'), (f'number of AE-invalid triads {amps} (', '', 'naeb')):
            got = [x for x in text.splitlines() if lead in x]
            ensure(len(got) == 1 and int(got[0].rsplit(None, 1)[1]) == tot[k], f'the counts read {got}, counted {tot[k]}')
        for f in (an.generate_isolated_triad_mode_properties, an.generate_isolated_triad_stab_val_estimators, an.generate_isolated_triad_observables):
            _, text = quiet(f)
            for name, (a, o, ana, stab, ae, iso) in zip(('aaa', 'bbb', 'ccc'), want):
                sel = stab & ae & iso
                m = re.search(r'Radial orders of isolated triads \(%s\): (\[\]|\[.*?\]\])' % name, text, re.S)
                if m is None or '...' in m.group(1):
                    ensure(m is not None, f'no radial orders of the isolated triads of {name} are printed')
                    continue
                got = [int(x) for x in re.findall(r'-?\d+', m.group(1))]
                ensure(got == a['rad'][sel].reshape(-1).tolist(), f'the isolated triads of {name} are printed as {got}, wanted {a["rad"][sel].tolist()}')
    T.seen((block, lay, rev, [int(w[5].sum()) for w in want]))


def bars(fig, want, labels):
    """The sharpness histograms of a figure against the sharpness values per class (isolated, not isolated)."""
    drawn = {}
    for ax in fig.axes:
        for c in ax.containers:
            drawn[c.get_label()] = [(b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in c]
        ensure(ax.get_xscale() == 'log', 'the sharpness axis is not logarithmic')
    vals = [[abs(float(x)) for x in w] for w in want]
    tot = [x for v in vals for x in v]
    if len(set(tot)) < 2:
        for b in drawn.values():
            ensure(abs(sum(x[2] for x in b) - 100.) < 1e-6, f'the bars of a single value are {b}')
        return len(drawn)
    ensure(sorted(drawn) == sorted(x for x, v in zip(labels, vals) if v), f'classes {sorted(drawn)} are drawn for {[len(v) for v in vals]} triads ({labels})')
    edges = None
    for lab, v in zip(labels, vals):
        if not v:
            continue
        b = drawn[lab]
        e = [x[0] for x in b] + [b[-1][1]]
        ensure(np.allclose([x[1] for x in b], e[1:], rtol=1e-9), f'the bars of {lab!r} leave gaps or overlap')
        ensure(np.allclose(e, np.geomspace(min(tot), max(tot), len(b) + 1), rtol=1e-9), f'the bins of {lab!r} {e} do not span the sharpness of '
               'both classes in equal logarithmic steps')
        ensure(edges is None or np.allclose(edges, e, rtol=1e-12), 'the two classes have different bins')
        edges = e
        h = [x[2] / 100. * len(v) for x in b]
        ensure(all(abs(x - round(x)) < 1e-6 for x in h) and histref.feasible(h, histref.by_edges(v, e)),
               f'{lab!r}: bars of {[x[2] for x in b]} percent in the bins {e} for the values {v}')
    # the number of bins maximises the likelihood
    lik = {}
    for n in range(2, min(100, len(tot)) + 1):
        opts, e = histref.exact_log(tot, n)
        if any(len(o) != 1 for o in opts):
            return len(drawn)
        c = [sum(o[0] == i for o in opts) for i in range(n)]
        lik[n] = max(histref.L(c, np.diff(e), 10. ** k) for k in range(-2, 3))
    n = len(edges) - 1
    ensure(n in lik and lik[n] >= max(lik.values()) - 1e-9 * (1 + abs(lik[n])), f'{n} bins were drawn for {tot}, the likelihoods are {lik}')
    return len(drawn)


def figure(case):
    """The sharpness figure of given values."""
    iso, no, sub, fm = case
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from pathlib import Path
    from aeplotter.resonance_sharpness import ResonanceSharpnessFigure
    a, b = np.array(iso, dtype=float), np.array(no, dtype=float)
    plt.close('all')
    with tempfile.TemporaryDirectory() as d:
        r, _ = quiet(ResonanceSharpnessFigure, sharpness_data_dict={'all': np.concatenate([a, b]), 'isolated': a, 'not isolated': b},
                     count_nr_dict={'isolated': [len(a) - len(a) // 2, len(a) // 2], 'not isolated': [len(b)]},
                     generic_save_dict={'save_dir': Path(d), 'extra_specifier': fm[0], 'save_formats': list(fm[1:])},
                     specific_save_dict={'sharpness_save_name': 'sharp', 'sharpness_subdir': sub})
        quiet(r.generate_plot, fig_size=(4., 3.))
        n = bars(plt.figure(plt.get_fignums()[0]), (a, b), (f'Isolated ({len(a)} triads)', f'Stable & AE-valid ({len(b)} triads)'))
        if fm[1:]:
            quiet(r.save_plots, dpi=20)
        got = sorted(os.path.relpath(os.path.join(x, y), d) for x, _, z in os.walk(d) for y in z)
        name = os.path.join(sub, 'sharp' + (f'_{fm[0]}' if fm[0] else ''))
        ensure(got == sorted(f'{name}.{x}' for x in fm[1:]), f'figures saved at {got}')
    plt.close('all')
    T.seen((len(iso), len(no), n))


def plotted(case):
    """The plotter on stored files."""
    block, lay, rev, draw = case
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from aeplotter import QuadraticAEPlotter
    rows = blocks(block)
    if rev:
        rows = rows[::-1]
    base, names, parts, groups = layout(lay, rows)
    opts = {'plot_overview': True, 'verbose': False, 'plot_coefficient_profile': False, 'plot_resonance_sharpness': True, 'fig_size': (4., 3.),
            'fig_dpi': 20, 'ax_label_size': 8, 'tick_label_size': 8, 'tick_size': 8, 'rad_nr': 1, 'show_plots': False, 'cmap': 'viridis',
            'tick_label_pad': 1}
    with tempfile.TemporaryDirectory() as d:
        os.mkdir(os.path.join(d, 'out'))
        files = [store(os.path.join(d, 'out', f'{n}_k_0_0_0_m_2_1_1.hdf5'), p) for n, p in zip(names, parts)]
        sv = {'save_base_dir': os.path.join(d, 'figs'), 'save_dir': 'sub', 'extra_specifier_save': 'x', 'save_formats': ['png'],
              'sharpness_save_name': 'sharp', 'sharpness_subdir': '', 'overview_save_name': 'over', 'overview_subdir': 'o'}
        p, _ = quiet(QuadraticAEPlotter, load_information=load_dict(d, base), plotting_dict=opts, save_information=sv)
        if not all(hasattr(p, k) for k in INTERNALS):
            return 'no such internals'
        if groups is None:
            groups = [[0, 1]] if len(p._list_data_dict) == 1 else [[0], [1]]
        ensure(len(p._list_data_dict) == len(groups), f'{len(p._list_data_dict)} data sets from {len(groups)} groups of files')
        sharp = {'isolated': [], 'not isolated': []}
        pts = [[], [], []]
        for gi, (g, dd) in enumerate(zip(groups, p._list_data_dict)):
            a = data(files, g)
            o, _, plo, stab, ae, iso = derived(a)
            compare(dd, o, f'data set {gi}')
            compare(dd, {k: v for k, v in plo.items() if k not in ('neg_mask', 'harmonic_mask')}, f'data set {gi}')
            ensure('dimless_freq_ratio' in dd, 'the ratio of the stored dimensionless and dimensional frequencies is missing')
            for k in ('neg_mask', 'harmonic_mask'):
                ensure(np.array_equal(dd[k], plo[k]), f'{k} of data set {gi} differs')
            gi1, gi0 = np.asarray(p._mask_list_isolated[gi], dtype=bool), np.asarray(p._mask_list_not_isolated_stable[gi], dtype=bool)
            ensure(not (gi1 & gi0).any() and agrees(gi1 | gi0, stab & ae), 'the sharpness classes do not partition the stable valid triads')
            ensure(agrees(gi1, [None if x is None else bool(x and s and v) for x, s, v in zip(iso, stab, ae)]), 'the isolated sharpness class differs')
            har = plo['harmonic_mask']
            cls = (stab & ~ae & ~har, gi0 & ~har, gi1 & ~har)
            for j, ml in enumerate((p._mask_list_stable, p._mask_list_ae_stable, p._mask_list_stable_valid)):
                ensure(np.array_equal(np.asarray(ml[gi], dtype=bool), cls[j]), f'overview class {j} of data set {gi}: '
                                                                              f'{np.flatnonzero(ml[gi]).tolist()} instead of {np.flatnonzero(cls[j]).tolist()}')
                pts[j].append(np.stack([plo['min_inertial_freq_stack'][cls[j]], o['surf_ratio_daughter_parent_OG_SHAPE'][cls[j]]], axis=-1).reshape(-1, 2))
            for k, m in (('isolated', gi1), ('not isolated', gi0)):
                ensure(int(p._count_nr_dict[k][gi]) == int(m.sum()), f'{p._count_nr_dict[k][gi]} triads counted as {k}, there are {m.sum()}')
                sharp[k].append(plo['resonance_sharpness_factor'][m])
        f = p._resonance_sharpness_figure_dict
        for k in sharp:
            same(f[k], np.concatenate(sharp[k]), f'resonance sharpness ({k})', 1e-9)
        same(f['all'], np.concatenate(sharp['isolated'] + sharp['not isolated']), 'resonance sharpness (all)', 1e-9)
        if draw:
            plt.close('all')
            w = [np.concatenate(sharp[k]) for k in ('isolated', 'not isolated')]
            p._plot_resonance_sharpness = bool((np.concatenate(w) != 0.).all())       # zero has no place on a logarithmic axis
            quiet(p.generate_plots)
            if p._plot_resonance_sharpness:
                fig = plt.figure(plt.get_fignums()[0])
                bars(fig, w, [x % len(y) for x, y in zip(('Isolated (%d triads)', 'Stable & AE-valid (%d triads)'), w)])
                plt.close(fig)
                out = os.path.join(d, 'figs', 'sub', 'sharp_x.png')
                ensure(os.path.isfile(out) and os.path.getsize(out) > 0, 'the sharpness figure was not saved at the documented place')
            out = os.path.join(d, 'figs', 'sub', 'o', 'over_x.png')
            ensure(os.path.isfile(out) and os.path.getsize(out) > 0, 'the overview figure was not saved at the documented place')
            got = {}
            for ax in plt.figure(plt.get_fignums()[0]).axes:
                for c in ax.collections:
                    got.setdefault(c.get_label(), []).append(np.ma.filled(np.ma.masked_array(c.get_offsets(), dtype=float), NAN).reshape(-1, 2))
            for lab, w in zip(('Stab.', 'Stab. + AE', 'Stab. + Val.'), pts):
                g = np.concatenate(got.get(lab, [np.zeros((0, 2))]))
                w = np.concatenate(w)
                w, g = (x[~np.isnan(x).any(axis=1)] for x in (w, g))
                w, g = (x[np.lexsort((x[:, 1], x[:, 0]))] for x in (np.round(w, 9), np.round(g, 9)))
                ensure(w.shape == g.shape and np.allclose(w, g, rtol=1e-6, atol=1e-7), f'the overview shows {len(g)} points as {lab!r}, there are {len(w)}')
            plt.close('all')
    T.seen((block, lay, rev, [len(x) for x in sharp['isolated']]))


# ------------------------------------------------------------------ enumeration
def small(n, parents, daughters, thr, eq):
    one = []
    for p in parents:
        for d in daughters:
            for t in thr:
                for e in ((1e-6,) if math.isnan(t) else eq):
                    one.append(((p,) + d, t, e, (True, True, True), .05))
    return one


def run(ctx):
    build.use(ctx, ['num', 'ld', 'disc', 'fnd', 'hist'])
    import aesolver  # noqa: F401
    one = small(3, (1, 2), ((3, 4), (4, 5), (4, 3)), (NAN, 1., 2., 3.), (.5e-6, 2.5e-6))
    cases = [()] + [(a,) for a in one] + list(itertools.product(one, repeat=2))
    cases += list(itertools.product(one if ctx.thorough else [o for o in one if o[1] != 3. and o[0][1:] != (4, 3)], repeat=3))
    two = [o for o in one if o[1] != 3.] if ctx.thorough else [o for o in one if o[1] in (1., 2.) and o[0][1:] != (4, 3)]
    cases += list(itertools.combinations_with_replacement(two, 4))
    ctx.explore('isolation', triads, cases, 'tables of triads sharing parents and daughters x thresholds x saturation amplitudes', chunk=400)
    # thresholds as small and as large as they come
    sc = [[(r[0], r[1] * f, r[2] * f) + r[3:] for r in c] for f in (1e-9, 1e-5, 1e4, 1e9)
          for c in itertools.product([o for o in one if o[1] in (1., 2.) and o[0][1:] != (4, 3)], repeat=2)]
    ctx.explore('scales', triads, [tuple(c) for c in sc], 'pairs of triads with thresholds of other magnitudes', chunk=200)
    # thresholds that hardly differ: the lowest one is still one of them only
    near = small(3, (1, 2), ((3, 4), (4, 5), (5, 6)), (NAN, 1., 1. + 2. ** -40, 1. + 2. ** -24, 1. + 2. ** -12), (.5e-6, 2.5e-6))
    n3 = [o for o in near if o[2] == .5e-6 and o[1] in (1., 1. + 2. ** -24)]
    nr = list(itertools.product(near, repeat=2)) + list(itertools.product(near if ctx.thorough else n3, repeat=3))
    nr += [tuple((r[0], r[1] * f, r[2] * f) + r[3:] for r in c) for f in (1e-6, 1e6) for c in itertools.product(n3, repeat=2)]
    ctx.explore('close', triads, nr, 'tables of triads with nearly equal thresholds', chunk=400)
    pg = small(3, (1, -1), ((-3, 4), (-4, 3), (1, 3)), (NAN, 1., 2.), (.5e-6, 2.5e-6))
    ctx.explore('signs', triads, list(itertools.product(pg, repeat=2)) + list(itertools.product([o for o in pg if o[1] in (1., 2.)], repeat=3)),
                'tables of triads of p and g modes', chunk=400)
    lg = [(n, P, Q, st, ti, sg) for n, st in ctx.pick(((17, 5), (40, 17), (150, 61), (601, 240)), ((9, 4), (16, 7), (17, 5), (18, 5), (33, 14), (40, 17), (64, 23), (101, 45), (150, 61), (257, 100), (601, 240), (1500, 601)))
          for P in (3, 8, n // 2) for Q in (11, 3 * n) for ti in (False, True) for sg in (1, -1, 0)]
    ctx.explore('large', large, lg, 'tables of 17 to 600 triads', chunk=2, limit=120.)
    b3 = list(itertools.product((True, False), repeat=3))
    det = (0., .05, .1, -.1, .1000001, -.3, 2.)
    cl = [(rad, t, .5e-6, b, x) for rad in ((1, 3, 4), (1, 5, 5)) for t in (1., NAN) for b in b3 for x in det]
    c2 = [(((2, 8, 9), 1., .5e-6, b, x), r) for r in cl for b in (b3[0], b3[1]) for x in (.05, .3)]
    ctx.explore('classes', triads, [(r,) for r in cl] + c2, 'verdict bits x detunings x harmonics x thresholds', chunk=100)
    lim = []
    rad = ((1, 3, 4), (1, 5, 6), (2, 3, 7), (2, 4, 3), (8, 9, 10))
    for r in itertools.product(rad, repeat=2):
        for t in itertools.product((NAN, 1., 2.), repeat=2):
            for x in itertools.product((.02, -.06), repeat=2):
                rows = tuple((a, b, .5e-6, b3[0], c) for a, b, c in zip(r, t, x)) + (((8, 11, 12), 1.5, .5e-6, b3[0], .01),)
                for lum in (None, .5, 1., 1.2, '1.6', 3.):
                    for dl in (None, .01, .05, .1):
                        lim.append((rows, lum, dl))
    ctx.explore('limits', limits, lim, 'optional limits of threshold and detuning', chunk=200)
    bl = ('amplitudes', 'frequencies', 'retrograde', 'verdicts', 'shared')
    tf = (False, True)
    ctx.explore('analysis', analysed, list(itertools.product(bl, LAYOUTS, tf)), 'value blocks x file layouts x row orders', limit=120.)
    al = (.5, -2., 3., 40.)
    vs = [v for n in range(ctx.pick(3, 4)) for v in itertools.product(al, repeat=n)]
    fg = [(a, b, '', ('',)) for a in vs for b in vs] + [((.5, 2.), b, sub, fm) for b in ((), (3., -1., 3.)) for sub in ('', 'a', 'a/b')
                                                         for fm in (('', 'png'), ('x', 'png', 'pdf'), ('x.y', 'png'))]
    ctx.explore('sharpness', figure, fg, 'sharpness values of isolated and other triads', chunk=20, limit=120.)
    ctx.explore('plots', plotted, [c + (c[1] == 'nested-mixed' and (ctx.thorough or not c[2]),) for c in itertools.product(bl, LAYOUTS, tf)],
                'value blocks x file layouts x row orders', limit=240.)
