"""C32 Published stability domains and threshold boundary follow from the amplitude equations and the listed triads."""
import contextlib
import importlib.util
import io
import itertools
import os
import re
import runpy
import tempfile
from fractions import Fraction as F

import numpy as np

from mc import aes
from mc.core import REPO, T, close, ensure

META = {
    'technique': 'bounded exhaustive enumeration of damping ratios, detunings and small triad tables through the real scripts, every verdict '
                 'against the exact Hurwitz determinants of the linearised amplitude equations in rational arithmetic',
    'note': 'All pairs of damping ratios of an alphabet with all detunings of an alphabet and with detunings bracketing the exact stability '
            'boundary of each pair; all ordered tables of amplitude ratios of an alphabet; complete runs of both scripts.',
}
DIR = f'{REPO}/VB_et_al_2024_additional_plot_compute_scripts'
DOMAINS, THRESHOLD = f'{DIR}/dziembowski_subplot.py', f'{DIR}/compute_threshold_theta.py'
_MOD = {}


def module(path):
    import matplotlib
    if path not in _MOD:
        spec = importlib.util.spec_from_file_location(os.path.basename(path)[:-3], path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        matplotlib.rcParams['text.usetex'] = False
        _MOD[path] = m
    return _MOD[path]


def hurwitz(a, b, d):
    """Coefficients of the characteristic polynomial of the linearised equations at the fixed point for driving rate 1, damping rates
    a and b and detuning d; the decisive Hurwitz determinant."""
    g = [F(1), -F(a), -F(b)]
    gp = sum(g)
    q = F(d) / gp
    J = [[(g[i] if i == j else -g[i]) for j in range(3)] + [q * g[i]] for i in range(3)]
    J.append([q * (gp - 2 * g[i]) for i in range(3)] + [gp])
    M, c = [[F(0)] * 4 for _ in range(4)], [F(1)]
    for k in range(1, 5):     # Faddeev-LeVerrier
        M = [[sum(J[i][s] * M[s][j] for s in range(4)) + (c[-1] if i == j else 0) for j in range(4)] for i in range(4)]
        c.append(-sum(J[i][s] * M[s][i] for i in range(4) for s in range(4)) / k)
    _, a3, a2, a1, a0 = c
    return a3, a2, a1, a0, (a3 * a2 - a1) * a1 - a3 * a3 * a0


def verdicts(a, b, d):
    """(stable, stable by the uncorrected criterion); None where a last digit decides."""
    S, P = F(a) + F(b), F(a) * F(b)
    if S <= 1:
        return (None, None) if abs(float(S) - 1) < 1e-12 else (False, False)
    a3, a2, a1, a0, H = hurwitz(a, b, d)
    size = abs(a3 * a2 * a1) + a1 * a1 + a3 * a3 * a0
    q = F(d) / (1 - S)
    near = abs(H) <= size * F(1, 10 ** 9)
    old = H / (8 * P) + 6 * q ** 4 * S * (S - 1) ** 2
    onear = abs(old) <= (size / (8 * P) + 6 * q ** 4 * S * (S - 1) ** 2) * F(1, 10 ** 9)
    stable = min(a3, a0, a3 * a2 - a1, H) > 0
    return (None if near else stable), (None if onear else old > 0)


def edges(a, b):
    """Detunings at which the verdict of this pair changes: exact roots in d^2, found by bisection."""
    if F(a) + F(b) <= 1:
        return []

    def h(x):
        return hurwitz(a, b, F(x))[4] > 0
    grid = [2. ** (k / 2.) for k in range(-24, 36)]
    out = []
    for lo, hi in zip(grid, grid[1:]):
        s = h(lo)
        if s == h(hi):
            continue
        for _ in range(24):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if h(mid) == s else (lo, mid)
        out.append(hi)
    return out


def judge(X, Y, d, new, old, what):
    ensure(new.shape == old.shape == X.shape and new.dtype == bool and old.dtype == bool,
           lambda: f'{what}: shapes {new.shape} {old.shape}, types {new.dtype} {old.dtype}')
    n = 0
    for i in np.ndindex(X.shape):
        w, o = verdicts(float(X[i]), float(Y[i]), d)
        ensure(w is None or bool(new[i]) == w, lambda: f'{what}: damping ratios {X[i]} {Y[i]}, detuning {d}: {"" if new[i] else "un"}stable, '
                                                       f'the linearised equations say {"" if w else "un"}stable')
        ensure(o is None or bool(old[i]) == o, lambda: f'{what}: damping ratios {X[i]} {Y[i]}, detuning {d}: original criterion says {bool(old[i])}')
        n += w is not None
    return n


def domain(case):
    """One pair of damping ratios, all detunings; the verdict of the solver's own stability check must be the same."""
    from aesolver.stability_checker import check_van_beeck_conditions, gss
    a, b, ds = case
    m = module(DOMAINS)
    ed = edges(a, b)
    every = [s * d for d in ds for s in (1., -1.)] + [e * f for e in ed for f in (.99, .9999, 1.0001, 1.01)]
    n = 0
    for d in every:
        X, Y = np.array([[a, b], [a, b]]), np.array([[b, a], [a, b]])
        T.call(2)
        with np.errstate(all='ignore'):
            n += judge(X, Y, d, m.corrected_dziembowski(X, Y, d), m.original_dziembowski(X, Y, d), 'pair')
        g = np.array([1., -a, -b])
        want = verdicts(a, b, d)[0]
        if want is not None and abs(g.sum()) > 1e-9:
            got = bool(gss(g)) and bool(check_van_beeck_conditions(g, d / g.sum()))
            ensure(got == want, lambda: f'the solver judges rates {g} at detuning {d} {got}, the figure {want}')
    return [len(ed), n]


def mesh(case):
    lo, hi, st = case
    T.call()
    X, Y, ext = module(DOMAINS).comp_meshgrid(theta_min=lo, theta_max=hi, dtheta=st)
    want = [lo + st * i for i in range(10 ** 4) if lo + st * i < hi]
    ensure(X.shape == Y.shape == (len(want), len(want)), lambda: f'shape {X.shape}, expected {len(want)} values')
    ensure(close(X, np.tile(want, (len(want), 1)), 1e-12) and close(Y, np.tile(want, (len(want), 1)).T, 1e-12), 'not the grid of all pairs')
    ensure(close(ext, [lo, hi, lo, hi], 1e-12), lambda: f'extent {ext}')
    return [len(want)]


class Recorder:
    """Stands in for the drawing calls; keeps what they were given."""

    def __enter__(self):
        import matplotlib.axes as ax
        import matplotlib.pyplot as plt
        self.calls, self.saved = [], []
        self.old = {k: getattr(ax.Axes, k) for k in ('contour', 'contourf', 'imshow')}
        self.plt, self.ax = plt, ax
        self.oldp = {k: getattr(plt, k) for k in ('savefig', 'show')}
        self.olds = plt.Figure.savefig
        rec = self

        def grid(kind):
            def f(axes, *a, **k):
                rec.calls.append((kind, axes, [np.array(v) for v in a if isinstance(v, np.ndarray)], k))
                return None
            return f
        for k in self.old:
            setattr(ax.Axes, k, grid(k))
        plt.savefig = lambda fname, *a, **k: rec.saved.append((fname, k))
        plt.Figure.savefig = lambda fig, fname, *a, **k: rec.saved.append((fname, k))
        plt.show = lambda *a, **k: None
        self.rc = plt.rcParams.copy()
        return self

    def __exit__(self, *exc):
        for k, v in self.old.items():
            setattr(self.ax.Axes, k, v)
        for k, v in self.oldp.items():
            setattr(self.plt, k, v)
        self.plt.Figure.savefig = self.olds
        self.plt.close('all')
        self.plt.rcParams['text.usetex'] = False


def cells(Z, skip):
    """Coordinates of a regular selection of cells, with all corners, and of the cells on the boundary of every skip-th row."""
    n = len(Z)
    pts = {(i, j) for i in range(0, n, skip) for j in range(0, n, skip)} | {(i, j) for i in (0, n - 1) for j in (0, n - 1)}
    for i in range(0, n, skip):
        for j in np.nonzero(Z[i, 1:] != Z[i, :-1])[0]:
            pts |= {(i, int(j)), (i, int(j) + 1)}
    return sorted(pts)


def script(case):
    """The complete figure script."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    real = type(plt.rcParams).__setitem__

    def no_tex(self, k, v):
        real(self, k, False if k == 'text.usetex' else v)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp, Recorder() as rec, contextlib.redirect_stdout(io.StringIO()):
        type(plt.rcParams).__setitem__ = no_tex
        try:
            os.chdir(tmp)
            T.call()
            with np.errstate(all='ignore'):
                runpy.run_path(DOMAINS, run_name='__main__')
        finally:
            type(plt.rcParams).__setitem__ = real
            os.chdir(cwd)
    panels = {}
    for kind, ax, arrs, kw in rec.calls:
        panels.setdefault(ax, {}).setdefault(kind, (arrs, kw))
    ensure(len(panels) == 3, lambda: f'{len(panels)} panels')
    n, ds = 0, []
    for ax, d in zip(panels, (1e2, 1e3, 1e4)):
        p = panels[ax]
        ensure({'contour', 'imshow'} <= set(p), lambda: f'panel shows {sorted(p)}')
        (X, Y, old), _ = p['contour']
        (new,), kw = p['imshow']
        ext = kw['extent']
        ensure(kw.get('origin') == 'lower', 'the image is upside down')
        ensure(close(ext, [X.min(), X.max(), Y.min(), Y.max()], 1e-9, 2 * (X[0, 1] - X[0, 0])), lambda: f'extent {ext} of a grid from {X.min()} to {X.max()}')
        if 'contourf' in p:
            ensure(np.array_equal(p['contourf'][0][2], old), 'hatching and contours differ')
        pts = cells(new, max(1, len(new) // 24)) + cells(old, max(1, len(old) // 24))
        i, j = np.array(pts).T
        n += judge(X[i, j], Y[i, j], d, new[i, j].astype(bool), old[i, j].astype(bool), f'panel {d:g}')
        ensure(ax.get_xlabel() and 'vartheta_2' in ax.get_xlabel().replace(' ', ''), lambda: f'abscissa {ax.get_xlabel()!r}')
        ds.append(d)
    ensure(len(rec.saved) == 1, lambda: f'saved {rec.saved}')
    name, kw = rec.saved[0]
    ensure(str(name) == 'Stability_domain_dg1_subplot_e2_e3_e4_VB_et_al_2024.png', lambda: f'saved as {name}')
    text = kw['metadata']['Description']
    ensure(all(f'{d:.2E}' in text for d in ds), lambda: f'description {text!r}')
    return [n, ds]


def rows(case):
    """What both rows of the published figure are made of."""
    m = module(DOMAINS)
    import matplotlib.pyplot as plt
    want = {True: ([.1, 1., 10.], 'e-1_e0_e1'), False: ([1e2, 1e3, 1e4], 'e2_e3_e4')}
    for first, text in itertools.product((True, False), (True, False)):
        T.call()
        name = m.generate_save_name(add_text=text, first_row=first)
        ensure(name == f'Stability_domain_dg1_subplot_{want[first][1]}_VB_et_al_2024{"_annotated" if text else ""}.png', lambda: name)
        g = m.get_grid_information(first_row=first)
        ensure(close(g['domega_gamma1'], want[first][0], 1e-12), lambda: f'detunings {g["domega_gamma1"]}')
        info, fig = m.get_figure_information(first_row=first)
        d = m.generate_loop_data(grid_info=g, axes_info=info)
        for k, (dg, lo, hi, st, ax, xl, yl, left, bottom, col) in enumerate(zip(*d.values())):
            ensure((dg, lo, hi, st) == (g['domega_gamma1'][k], g['theta_min'][k], g['theta_max'][k], g['dtheta'][k]) and ax is fig.axes[k]
                   and (xl, yl) == (True, k == 0), lambda: f'panel {k}: {(dg, lo, hi, st, xl, yl, left, bottom, col)}')
            # the whole boundary between the domains lies inside the panel, or the panel ends inside the stable domain
            ensure(0 < lo < hi and st > 0, 'empty grid')
            m.adjust_labels(plot_xlabel=xl, plot_ylabel=yl, ax=ax)
            ensure(('vartheta_2' in ax.get_xlabel(), 'vartheta_3' in ax.get_ylabel()) == (xl, yl), lambda: f'labels {ax.get_xlabel()!r} {ax.get_ylabel()!r}')
            m.add_text_label(my_ax=ax, delta_omega_over_gamma_1=dg, text_color=col)
            ensure(f'10^{{{round(np.log10(dg))}}}' in ax.texts[-1].get_text(), lambda: ax.texts[-1].get_text())
        text = m.create_figure_meta_data(grid_data=g)['Description']
        ensure(all(f'{v:.2E}' in text for v in want[first][0]), lambda: text)
        plt.close(fig)
    cm = m.get_custom_colormap()
    ensure(np.allclose(cm(0), (1, 1, 1, 1)) and np.allclose(cm(cm.N - 1), (0, 0, 0, 1)), 'unstable is not white or stable not black')
    return ['rows']


def regression(x, y):
    """Least squares y = s x + i with standard errors."""
    x, y = np.array([F(v) for v in x]), np.array([F(v) for v in y])
    n = len(x)
    xm, ym = sum(x) / n, sum(y) / n
    sxx = sum((x - xm) ** 2)
    s = sum((x - xm) * (y - ym)) / sxx
    i = ym - s * xm
    res = sum((y - s * x - i) ** 2)
    se2 = res / (n - 2) / sxx if n > 2 else F(0)
    return float(s), float(i), float(se2) ** .5, float(se2 * (sum(x ** 2) / n)) ** .5


def expected(theta, ratio, k):
    above = sorted((r - 1, j) for j, r in enumerate(ratio) if r > 1)[:k]
    below = sorted((1 - r, j) for j, r in enumerate(ratio) if r <= 1)[:k]
    use = [j for _, j in above + below]
    s, i, se, ie = regression([ratio[j] for j in use], [theta[j] for j in use])
    return sorted((theta[j], ratio[j]) for j in use), s, i, se, ie


def threshold(case):
    """All tables of this many triads with these amplitude ratios in every order."""
    first, n, k, values = case
    m = module(THRESHOLD)
    thetas = ((.5, 2., .25, 7., 1.25, .125, 3.), (1., 4., 9., 2., 5., 11., 6.))
    cnt = 0
    for rest in itertools.permutations([v for v in values if v != first], n - 1):
        ratio = [first, *rest]
        if not k <= sum(r > 1 for r in ratio) <= n - k:
            continue
        for th in thetas:
            theta = list(th[:n])
            pts, s, i, se, ie = expected(theta, ratio, k)
            T.call()
            df = m.generate_plot_dataframe(theta_2=theta, ratio_2_1=ratio)
            pos, neg = m.get_difference_arrays(my_df=df)
            r = np.array(ratio)
            ensure(np.array_equal(np.isnan(pos), r <= 1) and np.array_equal(np.isnan(neg), r > 1)
                   and close(np.where(r > 1, pos, neg), r - 1, 1e-12), lambda: f'{ratio}: differences {pos} {neg}')
            pk, nk = m.get_k_smallest_points_masks(k=k, my_pos_diff=pos, my_neg_diff=neg)
            xx, yy = m.get_k_smallest_points(k=k, X=np.array(theta), Y=r, pos_closest_k=pk, neg_closest_k=nk)
            ensure(sorted(zip(xx.tolist(), yy.tolist())) == pts, lambda: f'{ratio}, {k} closest: used {sorted(zip(xx.tolist(), yy.tolist()))}, expected {pts}')
            lin, unc, bound = m.perform_linear_regression(xx_k=xx, yy_k=yy)
            want = (s + i, (se ** 2 + ie ** 2) ** .5)
            scale = max(abs(v) for v in theta)
            ensure(close(bound, want[0], 1e-9, 1e-9 * scale) and close(unc, want[1], 1e-6, 1e-6 * scale),
                   lambda: f'{ratio}, {theta}: boundary {bound} +/- {unc}, expected {want}')
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                m.print_result(lin_result=lin, uncertainty_boundary=unc, boundary=bound)
            nums = [float(v) for v in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', out.getvalue().split('yields', 1)[1])]
            ensure(len(nums) == 6 and close(nums, [*want, s, se, i, ie], 1e-6, 1e-6 * scale), lambda: f'printed {nums}')
            cnt += 1
    return [cnt]


def estimate(case):
    """The complete threshold script."""
    import matplotlib
    matplotlib.use('Agg')
    out = io.StringIO()
    with Recorder(), contextlib.redirect_stdout(out):
        T.call()
        ns = runpy.run_path(THRESHOLD, run_name='__main__')
    theta, ratio = ns['get_values_for_interpolation']()
    ensure(len(theta) == len(ratio) == 21 and min(theta) > 0 and min(ratio) > 0, lambda: f'{len(theta)} triads')
    _, s, i, se, ie = expected(theta, ratio, 3)
    nums = [float(v) for v in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', out.getvalue().split('yields', 1)[1])]
    ensure(close(nums, [s + i, (se ** 2 + ie ** 2) ** .5, s, se, i, ie], 1e-6), lambda: f'printed {nums}, expected {[s + i, s, se, i, ie]}')
    return nums


def run(ctx):
    import matplotlib
    aes.use(ctx)
    matplotlib.use('Agg')
    matplotlib.rcParams['figure.max_open_warning'] = 0
    th = [.015625, .1, .3, .5, .6, .75, .95, 1., 1.1, 1.5, 2., 2.5, 3., 4., 5.5, 8., 12., 20., 40., 100., 333., 1000., 7995.]
    if ctx.thorough:
        th = sorted({*th, *[round(10 ** (k / 16), 6) for k in range(-32, 64)]})
    ds = [0., 1e-3, .1, .3, 1., 2., 5., 10., 33., 100., 1e3, 1e4]
    ctx.explore('domain', domain, [(a, b, ds) for a, b in itertools.combinations_with_replacement(th, 2)],
                'pairs of damping ratios with all detunings and their exact boundaries', limit=300)
    ctx.explore('mesh', mesh, list(itertools.product((.125, .5, 2.), (2.5, 3., 10.0625), (.0625, .25, .5))), 'grids', limit=60)
    ctx.explore('script', script, [()], 'complete run of the figure script', limit=600)
    ctx.explore('rows', rows, [()], 'both rows of the figure', limit=60)
    vals = (.4, .75, .9, 1., 1.25, 1.7, 2.5)
    cs = [(f, n, k, vals) for n, k in ((3, 1), (4, 1), (5, 1), (5, 2), (6, 2), (6, 3) if ctx.thorough else (6, 2)) for f in vals]
    ctx.explore('threshold', threshold, sorted(set(cs)), 'ordered tables of triads', limit=600)
    ctx.explore('estimate', estimate, [()], 'complete run of the threshold script', limit=60)
