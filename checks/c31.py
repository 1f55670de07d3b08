"""C31 Comparison figures show the adiabatic and nonadiabatic data of the requested modes and the structure profiles."""
import itertools
import os
import re

import numpy as np

from checks import c13, c14
from mc import aes
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of triads, mode numbers and figure options through the real comparison classes on real mode '
                 'and structure files, every curve against the numbers in the files',
    'note': 'All triads of three selections of degrees and orders in both radial coordinates; all combinations of quantities, parts, '
            'labels, mode numbers and bounds; all structure figures and all normalisations.',
}
COLUMNS = ('h1', 'h2', 'he3', 'he4', 'brunt_N2', 'brunt_N2_structure_term', 'brunt_N2_composition_term', 'lamb_S2', 'csound', 'hyeq_lhs',
           'hyeq_rhs', 'gamma_1_adDer', 'log_D_mix', 'log_D_conv', 'log_D_ovr', 'log_D_minimum', 'pressure', 'logRho', 'logT', 'grada',
           'gradT', 'gradr', 'mass')
SHOWN = [('h1', 'h2', 'he3', 'he4'), ('brunt_N2', 'brunt_N2_structure_term', 'brunt_N2_composition_term'), ('lamb_S2',), ('csound',),
         'difference', ('gamma_1_adDer',), ('log_D_mix', 'log_D_conv', 'log_D_ovr', 'log_D_minimum'), ('pressure',), ('logRho',), ('logT',),
         ('grada', 'gradT', 'gradr')]


def columns():
    """Structure profile: surface first; every column its own irregular numbers."""
    s = c13.star(c14.N)
    n = c14.N
    out = {'radius': (s['x'] * 3.)[::-1]}
    for k, c in enumerate(COLUMNS):
        out[c] = np.round(np.sin(1. + k + (1.3 + .1 * k) * np.arange(n)) * (k + 2.), 12)
    out['mass'] = np.round((s['x'] ** 2 * 5.)[::-1], 12)
    return out


def profile_text(cols):
    w = 30
    head = {'version_number': 1., 'initial_mass': 3.}
    n = len(cols['radius'])
    lines = [''.join(f'{i + 1:>{w}d}' for i in range(len(head))), ''.join(f'{h:>{w}}' for h in head), ''.join(f'{v:>{w}.16e}' for v in head.values()),
             '', ''.join(f'{i + 1:>{w}d}' for i in range(len(cols))), ''.join(f'{h:>{w}}' for h in cols)]
    lines += [''.join(f'{c[i]:>{w}.16e}' for c in cols.values()) for i in range(n)]
    return '\n'.join(lines) + '\n'


class Files(c14.Files):
    def __init__(self, letters, lm):
        super().__init__(letters, lm)
        import h5py
        self.content = {}
        names = sorted(os.listdir(f'{self.d}/ad'))
        for i, name in enumerate(names):
            for j, sub in enumerate(('ad', 'nad')):
                with h5py.File(f'{self.d}/{sub}/{name}', 'a') as f:
                    t = np.arange(c14.N) + 1.
                    for k, q in enumerate(('xi_r', 'xi_h')):
                        v = np.sin(t * (i + 1.5)) + k + 10. * j + 1j * (np.cos(t + i) - k + 100. * j)
                        del f[q]
                        f[q] = c14.cplx(v)
                        self.content[name, sub, q] = v
                    self.content[name, sub, 'x'] = f['x'][()]
                    self.content[name, sub, 'mass'] = f['M_r'][()] / f.attrs['M_star']
                    self.content[name, sub, 'P'] = f['P'][()]
        os.remove(f'{self.d}/mesa/profile_1.dat')
        self.cols = columns()
        open(f'{self.d}/mesa/profile_1.dat', 'w').write(profile_text(self.cols))

    def comparer(self, triad):
        """Comparer with the modes of this triad, the file name of each mode."""
        from aesolver.ad_nad_comparer import AdNadComparer
        from aesolver.mode_input_generator import InputGen
        (ls, ms) = self.lm
        gen = InputGen(mode_l=list(ls), mode_m=list(ms), driven_n_low=triad[0], driven_n_high=triad[0], damped_n_low1=triad[1],
                       damped_n_high1=triad[1], damped_n_low2=triad[2], damped_n_high2=triad[2])
        got = [tuple(int(v) for v in c) for c in gen.combinations_radial_orders]
        ensure(tuple(triad) in got, lambda: f'{triad}: combinations {got}')
        T.call()
        c = AdNadComparer([f'{self.d}/x'], 20, gen, base_dir=f'{self.d}/', alternative_directory_path=self.d, alternative_file_name='info.dat',
                          ad_path='ad', nad_path='nad')
        c.load_modes(got.index(tuple(triad)))
        return c, [f'detail_g_mode_l{li}m{"-" if mi < 0 else "+"}{abs(mi)}n+{n}.h5' for li, mi, n in zip(ls, ms, triad)]


def figures():
    import matplotlib.pyplot as plt
    out = [plt.figure(k) for k in plt.get_fignums()]
    return [[(a.get_title(), a.get_xlabel(), a.get_ylabel(), [(str(ln.get_label()), np.asarray(ln.get_xdata(), float),
              np.asarray(ln.get_ydata(), float)) for ln in a.get_lines()], a.get_xlim(), a.get_ylim(),
              [t.get_text() for t in a.get_legend().get_texts()] if a.get_legend() else None) for a in f.axes] for f in out]


def clear():
    import matplotlib.pyplot as plt
    plt.close('all')


def same(a, b, tol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (np.abs(b) + 1e-300)))


def part(v, real):
    return v if real is None else v.real if real else v.imag


def panel(fl, name, ax, xq, yq, real, what, title, legend):
    """Two curves: adiabatic and nonadiabatic data of this file."""
    ensure(len(ax[3]) == 2, lambda: f'{what}: {len(ax[3])} curves')
    by = {label: (x, y) for label, x, y in ax[3]}
    for sub, label in (('ad', 'adiabatic'), ('nad', 'non-adiabatic')):
        ensure(label in by, lambda: f'{what}: curves {sorted(by)}')
        x, y = by[label]
        ensure(same(x, fl.content[name, sub, xq]) and same(y, part(fl.content[name, sub, yq], real)),
               lambda: f'{what}: the {label} curve shows {y[:4]} at {x[:4]}, the file has '
                       f'{part(fl.content[name, sub, yq], real)[:4]} at {fl.content[name, sub, xq][:4]}')
    li, mi, n = re.match(r'detail_g_mode_l(\d+)m([-+]\d+)n([-+]\d+)', name).groups()
    if title:
        ensure(f'({int(li)},{int(mi)},{int(n)})' in ax[0].replace(' ', ''), lambda: f'{what}: title {ax[0]!r}')
    else:
        ensure(not ax[0], lambda: f'{what}: title {ax[0]!r}')
    ensure((ax[6] == ['adiabatic', 'non-adiabatic']) == legend, lambda: f'{what}: legend {ax[6]}')


def modes(case):
    letters, lm, triads = case
    out = []
    with Files(letters, lm) as fl:
        for triad in triads:
            c, names = fl.comparer(triad)
            for radius in (False, True):
                clear()
                c.generate_mode_eigenfunction_comparison_figures(radius_profiles=radius)
                figs = figures()
                ensure(len(figs) == 6, lambda: f'{triad}: {len(figs)} figures')
                for (name, yq), fig in zip(itertools.product(names, ('xi_r', 'xi_h')), figs):
                    w = f'{lm} {triad} radius_profiles={radius}: {yq} of {name}'
                    ensure(len(fig) == 2, lambda: f'{w}: {len(fig)} panels')
                    for i, ax in enumerate(fig):
                        panel(fl, name, ax, 'x' if radius else 'mass', yq, i == 0, w, i == 0, i == 0)
                        ensure(('Re' in ax[2], 'Im' in ax[2]) == (i == 0, i == 1) and ('R' in ax[2].replace('Re', '')) == (yq == 'xi_r'),
                               lambda: f'{w}: panel {i} is labelled {ax[2]!r}')
                        ensure(ax[4] == (0., 1.), lambda: f'{w}: shows {ax[4]}')
                    ensure(('r' in fig[1][1].split('/')[0]) == radius, lambda: f'{w}: abscissa {fig[1][1]!r}')
            clear()
            out.append(triad)
    return out


BOUNDS = {None: None, 'pair': (.1, .7), 'left': {'left': .2}, 'right': {'right': .9}}


class Hand:
    """Mode data as they are handed to the figures, without files."""

    def __init__(self, text):
        self.content, self.names, self.modes = {}, [], {'ad': [], 'nad': []}
        for k, (li, mi, n) in enumerate(((2, 2, 3), (1, -1, 14), (4, 0, 7))):
            name = f'detail_g_mode_l{li}m{mi:+d}n+{n}.h5'
            self.names.append(name)
            for j, sub in enumerate(('ad', 'nad')):
                t = np.arange(6) + 1.
                d = {'l': li, 'm': mi, 'n_g': n, 'x': np.sqrt(t) / 3. + j, 'M_r': t ** 2 * (k + 1.), 'M_star': 36. + j, 'P': 1. / t + k + 5. * j,
                     'freq': np.array([1. + k + 1j * j]), 'freq_units': 'UHZ' if text else b'UHZ', 'freq_frame': 'INERTIAL' if text else b'INERTIAL'}
                for i, q in enumerate(('xi_r', 'xi_h')):
                    v = np.sin(t * (k + 1.5)) + i + 10. * j + 1j * (np.cos(t + k) - i + 100. * j)
                    d[q] = c14.cplx(v)
                    self.content[name, sub, q] = v
                self.content[name, sub, 'x'], self.content[name, sub, 'P'] = np.array(d['x']), np.array(d['P'])
                self.content[name, sub, 'mass'] = d['M_r'] / d['M_star']
                self.modes[sub].append(d)


def options(case):
    """Every combination of quantities, parts, labels and bounds."""
    text, mode, xq, full = case
    from aesolver.ad_nad_comparer.plotting import GYREPlot
    fl, n = Hand(text), 0
    g = GYREPlot(gyre_ad=fl.modes['ad'], gyre_nad=fl.modes['nad'])
    combos = [('P', None, 'a'), *((q, r, 'a') for q in ('xi_r', 'xi_h') for r in (True, False)),
              *((q, [r, t], ['a', 'b']) for q in ('xi_r', 'xi_h') for r in (True, False) for t in (True, False)), ('P', (None, None), ('a', 'b'))]
    bounds = list(itertools.product(BOUNDS, (None, 'pair'))) if full else [(None, None), ('pair', 'pair'), ('left', None), ('right', 'pair')]
    for (yq, real, label), (xb, yb) in itertools.product(combos, bounds):
        clear()
        T.call()
        g.figure_comparison(x_quantity=xq, y_quantity=yq, real_quantity_y=real, x_label='ab', y_label=label, mode_nr=mode,
                            x_bounds=BOUNDS[xb], y_bounds=BOUNDS[yb])
        figs = figures()
        w = f'{xq} {yq} {real} mode {mode} bounds {xb} {yb}'
        two = isinstance(label, (list, tuple))
        ensure(len(figs) == 1 and len(figs[0]) == 1 + two, lambda: f'{w}: {[len(f) for f in figs]} panels')
        for i, ax in enumerate(figs[0]):
            panel(fl, fl.names[mode - 1], ax, xq, yq, real[i] if two else real, w, i == 0, i == 0)
            ensure(ax[2] == label[i] and (ax[1] == 'ab' or two and i == 0), lambda: f'{w}: labels {ax[1:3]}')
            limits(ax[4], BOUNDS[xb], w)
            limits(ax[5], BOUNDS[yb], w)
        n += 1
    clear()
    return n


def limits(got, b, what):
    want = {None: {}, dict: b}.get(type(b) if b else None, dict(zip(('left', 'right'), b or ())))
    ensure(all(abs(got[0 if k == 'left' else 1] - v) < 1e-9 for k, v in want.items()), lambda: f'{what}: limits {got}')


def profiles(case):
    """All structure figures of a complete run."""
    letters, lm, triad, radius = case
    with Files(letters, lm) as fl:
        c, _ = fl.comparer(triad)
        clear()
        c.generate_profile_figures(radius_profiles=radius)
        figs = figures()
        q = 'radius' if radius else 'mass'
        x = fl.cols[q] / fl.cols[q].max()
        ensure(len(figs) == len(SHOWN), lambda: f'{len(figs)} figures')
        left = list(SHOWN)
        for fig in figs:
            ys = [cur[2] for cur in fig[0][3]]
            ensure(all(same_curve(cur[1], cur[2], x, None) for cur in fig[0][3]), lambda: f'abscissa {fig[0][3][0][1]}, expected {x}')
            hit = None
            for t in left:
                want = [fl.cols['hyeq_lhs'] - fl.cols['hyeq_rhs']] if t == 'difference' else [fl.cols[k] for k in t]
                if len(want) == len(ys) and all(same_curve(cur[1], cur[2], x, v) for cur, v in zip(fig[0][3], want)):
                    hit = t
                    break
            ensure(hit is not None, lambda: f'figure with {len(ys)} curves labelled {fig[0][2]!r} {[cur[0] for cur in fig[0][3]]} shows no set '
                                            f'of columns of the file')
            left.remove(hit)
            ensure(len(hit) == 1 or hit == 'difference' or fig[0][6] and len(fig[0][6]) == len(hit), lambda: f'{hit}: legend {fig[0][6]}')
            ensure(abs(fig[0][4][0]) < 1e-12 and abs(fig[0][4][1] - 1.) < 1e-12, lambda: f'{hit}: shows {fig[0][4]}')
        clear()
        return [triad, radius]


def same_curve(x, y, wx, wy):
    """Curve through the given points, drawn from either end."""
    return any(same(x, wx[s]) and (wy is None or same(y, wy[s], 1e-9)) for s in (np.s_[:], np.s_[::-1]))


def structure(case):
    """Quantities, legends and normalisations of the structure figures on hand-made profiles."""
    mode, qd = case
    from aesolver.ad_nad_comparer.plotting import MESAPlot
    data = [{k: v + 7. * i for k, v in columns().items()} for i in range(3)]
    p, n = MESAPlot(mesa=data), 0
    norms = {None: lambda q: 1., 'pressure': lambda q: data[mode]['pressure'], (max, 'radius'): lambda q: data[mode]['radius'].max(),
             (np.mean, 'mass'): lambda q: data[mode]['mass'].mean(), (len, 'h1'): lambda q: c14.N}
    for xn, yn, (yq, leg) in itertools.product(norms, norms, ((('h1',), None), (('h1',), 'H'), (('h1', 'h2', 'csound'), ['c', 'b', 'a']),
                                                              (('csound',), ['only']), (('hyeq_lhs', 'hyeq_rhs'), None))):
        if yq[0] == 'hyeq_lhs' and not qd:
            continue
        clear()
        T.call()
        one = len(yq) == 1 and not isinstance(leg, list)
        p.figure_profile('radius', yq[0] if one else list(yq), 'r', 'y', quantity_diff=qd, mode_nr=mode, y_legend_labels=leg,
                         x_normalizing_quantity=xn, y_normalizing_quantity=yn)
        ax = figures()[0][0]
        w = f'{yq} {leg} over {yn} at radius over {xn}'
        x = data[mode]['radius'] / norms[xn](0)
        want = [data[mode]['hyeq_lhs'] - data[mode]['hyeq_rhs']] if yq[0] == 'hyeq_lhs' else [data[mode][k] / norms[yn](0) for k in yq]
        ensure(len(ax[3]) == len(want) and all(same(c[1], x) and same(c[2], v, 1e-9) for c, v in zip(ax[3], want)),
               lambda: f'{w}: curves {[c[2][:3] for c in ax[3]]}, expected {[v[:3] for v in want]}')
        labels = [leg] if isinstance(leg, str) else leg
        ensure(labels is None or [c[0] for c in ax[3]] == labels == ax[6], lambda: f'{w}: labels {[c[0] for c in ax[3]]}, legend {ax[6]}')
        n += 1
    clear()
    return n


def run(ctx):
    aes.use(ctx)
    import logging
    import matplotlib
    matplotlib.use('Agg')
    matplotlib.rcParams['figure.max_open_warning'] = 0
    logging.disable(logging.CRITICAL)
    lms = [c14.LM, ([2, 1, 1], [0, 1, -1]), ([2, 1, 1], [-2, -1, -1])]
    tri = [(p, a, b) for p in (1, 2) for a in (11, 12) for b in (11, 12) if a <= b]
    cases = [('ab', lm, [t]) for lm in lms for t in tri]
    ctx.explore('modes', modes, cases, 'triads and radial coordinates', limit=300)
    ctx.explore('options', options, [(text, m, xq, ctx.thorough) for text in (False, True) for m in (1, 2, 3) for xq in ('x', 'mass')],
                'quantities, parts, labels, modes and bounds', limit=600)
    ctx.explore('profiles', profiles, [('ab', lm, (2, 11, 12), r) for lm in lms for r in (False, True)], 'structure figures', limit=300)
    ctx.explore('structure', structure, [(m, qd) for m in range(3) for qd in (False, True)], 'normalisations', limit=300)
