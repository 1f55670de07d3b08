"""C30 Coupling profiles of a single triad: integrated profile, TAR adjustment, kernels and what is reported about them."""
import contextlib
import io
import itertools
import os
import re

import numpy as np

from checks import c13, c14
from mc import aes
from mc.core import T, ensure, rnd

META = {
    'technique': 'bounded exhaustive enumeration of TAR zone patterns, triads, conjugation patterns and options through complete profile '
                 'runs on real mode files, every printed number and every curve of every figure against the tensor integral of the numbers '
                 'in the files',
    'note': 'All valid/invalid patterns of the seven inner cells of a nine-cell star for an accepted triad, in both solver classes; pattern '
            'subsets for other triads, degrees, conjugations and nonadiabatic eigenfunctions; all patterns of up to 6 (9) cells with '
            'several profile shapes on the masking function itself.',
}
HEAD = c14.UNIT ** 2
LOWN, HIGHN = (20., .5), 400.                          # buoyancy frequency squared: below the modes, below the rotation, above both


class Files(c14.Files):
    """Mode files of one parent and its daughters in a star with a given pattern of strongly stratified cells."""

    def __init__(self, letter, pattern, lm=c14.LM):
        super().__init__(letter, lm)
        n2 = np.array([HIGHN if b else LOWN[i % 2] for i, b in enumerate((pattern[0], *pattern, pattern[-1]))]) * HEAD
        n2 = n2 * (1. + .01 * np.arange(len(n2)))
        for d in self.data.values():
            d['s'] = dict(d['s'], n2=n2)
        real, c13_star = c14.c13.star, c13.star
        try:
            c14.c13.star = lambda *a, **k: dict(c13_star(*a, **k), n2=n2)
            text = c14.profile_text()
        finally:
            c14.c13.star = real
        os.remove(f'{self.d}/mesa/profile_1.dat')
        open(f'{self.d}/mesa/M3_profile.dat', 'w').write(text)
        info = open(f'{self.d}/info.dat').read()
        open(f'{self.d}/info.dat', 'w').write(info.replace("profile substrings\n'profile'", "profile substrings\n('M3','profile')"))
        self.n2 = n2[1:-1]

    def profile(self, kind, triad, **kw):
        """Complete profile run: printed text, figures that were saved, the solver."""
        import matplotlib.pyplot as plt
        from matplotlib.figure import Figure
        saved = []
        old, keep, show = os.getcwd(), Figure.savefig, plt.show
        os.chdir(self.d)
        shown = []
        Figure.savefig = lambda fig, fname, *a, **k: saved.append((os.path.relpath(os.path.abspath(str(fname)), self.d), snapshot(fig)))
        plt.show = lambda *a, **k: shown.append(1)
        out = io.StringIO()
        try:
            import aesolver.solver as m
            T.call()
            kw = dict(base_dir=f'{self.d}/', alternative_directory_path=self.d, alternative_file_name='info.dat', ad_path='ad', nad_path='nad',
                      cc_profile_selection_dict=dict(parent_n=triad[0], daughter_1_n=triad[1], daughter_2_n=triad[2], mode_l=self.lm[0],
                                                     mode_m=self.lm[1]), nr_omp_threads=1, save_name='sv', **kw)
            with contextlib.redirect_stdout(out):
                s = None
                try:
                    if kind == 'profile':
                        s = m.QuadraticAEProfileSolver([f'{self.d}/x'], **kw)
                        s()
                    else:
                        kw = {k: v for k, v in kw.items() if not k.startswith('view_')}
                        s = m.QuadRotAESolver([f'{self.d}/x'], compute_profile=True, **kw)
                        s(compute_grid=False, compute_profile=True)
                except SystemExit as e:
                    ensure(not e.code, lambda: f'exit code {e.code}')
            return out.getvalue(), saved, s, bool(shown)
        finally:
            Figure.savefig, plt.show = keep, show
            os.chdir(old)
            plt.close('all')


def snapshot(fig):
    """Axes of a figure: list of curves (x, y, label) and the label and title texts."""
    return [([(np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float), str(ln.get_label())) for ln in a.get_lines()],
             a.get_title()) for a in fig.axes]


# ------------------------------------------------------------------ prediction
def runs_of(valid):
    """Invalid zones as (first invalid cell, first valid cell after it or last cell)."""
    out, i, n = [], 0, len(valid)
    while i < n:
        if valid[i]:
            i += 1
            continue
        j = i
        while j < n and not valid[j]:
            j += 1
        out.append((i, min(j, n - 1)))
        i = j
    return out


def adjusted(valid, y):
    """Profile without the growth inside invalid zones, its end value, and the growth of each invalid zone."""
    y, n = np.asarray(y, float), len(y)
    zones = runs_of(valid)
    cont = [y[b] - y[a] for a, b in zones]
    prof = np.array(y)
    if not any(valid):
        prof = np.zeros(n)
    else:
        for i in range(n):
            prof[i] = (y[i] if valid[i] else y[max(a for a, _ in zones if a <= i)]) - sum(
                c for c, (a, b) in zip(cont, zones) if (b <= i if valid[i] else b < i))
    return prof, y[-1] - sum(cont), cont


def near(a, b, size, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * size))


NUM = r'-?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)'


def numbers(s):
    return [float(v) for v in re.findall(NUM, re.sub(r'np\.float64', '', s))]


def line(text, start):
    """The numbers before and after adjustment in the line that starts like this."""
    flatten = re.sub(r'\n(?=[ \d])', ' ', text)
    have = [ln for ln in flatten.splitlines() if ln.lower().startswith(start.lower())]
    ensure(len(have) == 1, lambda: f'{len(have)} lines "{start}" in {text!r}')
    return have[0][len(start):]


def pair(text, start):
    s = line(text, start)
    a, b = re.split('after adjustment', s)
    return numbers(a), numbers(b)


OPS = {'hr': 'H_r', 'ht': r'H_\theta', 'hp': r'H_\phi', 'mhr': r'm\,H_r', 'theta_der_hr_theta': r'\partial\,H_r',
       'theta_der_ht_theta': r'\partial\,H_\theta', 'theta_der_hp_theta': r'\partial\,H_\phi', 'phi_phi': r'H_\phi^\phi',
       'theta_phi': r'H_\phi^\theta'}
FLIP = ('hp', 'mhr', 'theta_der_hp_theta', 'theta_phi')
R, H, P, DR, DT, DP, MR, PP, TP = 'hr', 'ht', 'hp', 'theta_der_hr_theta', 'theta_der_ht_theta', 'theta_der_hp_theta', 'mhr', 'phi_phi', 'theta_phi'
# angular integrands of the tensor expression: functions and whether they are divided by the sine of the colatitude
ANG = {1: [((R, R, R), 0), ((DT, DT, R), 0), ((PP, PP, R), 0), ((TP, DP, R), 1), ((DT, R, R), 0), ((PP, R, R), 0), ((DR, H, R), 0),
           ((MR, P, R), 1), ((R, H, H), 0), ((R, P, P), 0)],
       2: [((R, R, R), 0)],
       3: [((R, H, H), 0), ((R, P, P), 0), ((DR, R, H), 0), ((MR, R, P), 1), ((DR, DT, H), 0), ((MR, PP, P), 1), ((MR, DP, H), 1),
           ((DR, TP, P), 1), ((H, DT, H), 0), ((P, PP, P), 0), ((P, DP, H), 0), ((TP, H, P), 1), ((DT, TP, DP), 1), ((DP, TP, PP), 1),
           ((R, TP, DP), 1), ((R, PP, PP), 0), ((R, DT, DT), 0), ((R, R, DT), 0), ((R, R, PP), 0), ((R, R, R), 0), ((PP, PP, PP), 0),
           ((DT, DT, DT), 0)],
       4: [((R, H, H), 0), ((R, P, P), 0), ((R, R, R), 0)]}
Z, ZH, DZ, DZH, DV = 'z1', 'zh', 'dz1', 'dzh', 'div'
# radial integrands: constant factor, functions, profile of the star (without the common third power of the radius)
RAD = {1: [(.5, (DZ, DZ, DV), 'a'), (.5, (ZH, ZH, DV), 'a'), (1., (Z, Z, DV), 'a'), (1., (ZH, Z, DV), 'a'), (1., (Z, DZH, DV), 'a'),
           (-1., (DV, ZH, DZH), 'a')],
       2: [(1., (DV, DV, DV), 'b'), (1., (DV, DV, DV), 'c')],
       3: [(-1., (DZ, ZH, DZH), 'p'), (1., (DZ, Z, DZH), 'p'), (1., (Z, ZH, DZH), 'p'), (1., (ZH, ZH, DZH), 'p'), (1., (Z, Z, DZH), 'p'),
           (-1., (ZH, ZH, ZH), 'p'), (-2., (Z, ZH, ZH), 'p'), (1., (Z, ZH, ZH), 'p'), (1., (Z, Z, ZH), 'p'), (2., (DZ, DZ, DZ), 'p'),
           (4., (Z, Z, Z), 'p'), (2., (ZH, ZH, ZH), 'p')],
       4: [(-.5, (Z, ZH, ZH), 'r1'), (.5, (Z, ZH, ZH), 'r2'), (1., (Z, Z, Z), 'r3')]}
SYMMETRIC_OFF = {(2, 0), (2, 1), (3, 9), (3, 10), (3, 11), (4, 2)}


def perms(ops):
    return sorted(set(itertools.permutations(ops)))


def angular_curve(case, ops):
    """Product of the angular functions of modes 1, 2 and 3."""
    out = 1.
    for k, o in enumerate(ops):
        _, h = c13.hough(case.nu[k], case.ls[k], case.ms[k], case.npts)
        out = out * (case.ms[k] * h['hr'] if o == 'mhr' else h[o]) * (-1. if case.conj[k] and o in FLIP else 1.)
    return out


def parse_angular(label):
    """Operators, constant factor, times mu, over sine."""
    s = label.replace('$', '')
    sine = r'\sqrt{1 - \mu^2}' in s
    s = s.replace(r'\sqrt{1 - \mu^2}', '').replace(r'\dfrac', '')
    s = re.sub(r'\\left|\\right', '', s)
    mu = bool(re.search(r'\\mu(?![a-z])', s))
    s = re.sub(r'\\mu(?![a-z])', '', s)
    s = re.sub(r'_\{?[ABC]\}?', '', s).replace('_{{A}}', '')
    f = re.match(r'[\[\]{}() ]*(-?)(?:\\,)*(\d+\.?\d*)?', s)
    fac = (-1. if f.group(1) else 1.) * float(f.group(2) or 1.)
    parts = [p for p in s[f.end():].split(',  ')] if ',  ' in s else re.split(r'(?<!\\), ', s[f.end():])
    ops = []
    for p in parts:
        p = re.sub(r'[\[\]{}() ]', '', p)
        p = re.sub(r'^(\\,)+|(\\,)+$', '', p)
        hit = [k for k, v in OPS.items() if v == p]
        ensure(len(hit) == 1, lambda: f'unknown function {p!r} in the label {label!r}')
        ops.append(hit[0])
    return tuple(ops), fac, mu, sine


def match_axes(axes, want, what, tol=1e-6):
    """Every axis shows the curves of one term, every term is shown once."""
    left = list(want)
    for curves, _ in axes:
        ys = [c[1] for c in curves]
        for t in left:
            if len(t) == len(ys):
                rest = list(t)
                for y in ys:
                    hit = [i for i, r in enumerate(rest) if near(y, r, max(np.abs(r).max(), 1e-300), tol)]
                    if not hit:
                        break
                    rest.pop(hit[0])
                if not rest:
                    left.remove(t)
                    break
        else:
            ensure(False, lambda: f'{what}: {len(ys)} curves {[rnd(y[:4], 4) for y in ys]} are not a term of the contribution')
    ensure(not left, lambda: f'{what}: {len(left)} terms are not shown')


def judge_kernels(p, saved, what):
    case = p['case']
    s = {k: v[1:-1] for k, v in case.s.items()}
    x = s['x']
    r = x * c13.R0
    mu = c13.hough(case.nu[0], case.ls[0], case.ms[0], case.npts)[0]
    sine = np.sqrt(1. - mu ** 2)
    rad = [dict(zip((Z, ZH, DZ, DZH, DV), (case.norms()[k] * v for v in case.radial(k)))) for k in range(3)]
    g1, g2, g3 = case.potential()
    eps = c13.G0 * c13.M0 ** 2 / c13.R0
    gam = s['gam'] - 1.
    gder = np.interp(case.s['x'], case.prof_star['x'], case.prof_star['gder'])[1:-1]
    star = {'a': s['P'] * gam, 'b': s['P'] * gam ** 2, 'c': s['P'] * s['rho'] * gder, 'p': s['P'], 'r1': s['rho'] * r * g1,
            'r2': s['rho'] * r ** 2 * g2, 'r3': s['rho'] * r ** 3 * g3}
    for c in (1, 2, 3, 4):
        axes = [a for path, axs in saved if 'radial_kernels/' in path and f'contribution_{c}_' in path for a in axs]
        want = []
        for i, (f, ops, st) in enumerate(RAD[c]):
            pm = [ops] if (c, i) in SYMMETRIC_OFF else perms(ops)
            want.append([f * rad[0][a] * rad[1][b] * rad[2][d] * star[st] * r ** 3 / eps for a, b, d in pm])
        for curves, _ in axes:
            for cx, _, _ in curves:
                ensure(near(cx, x, 1., 1e-9), lambda: f'{what}: abscissa {cx} of a radial kernel')
        if c == 2:
            want = [[w for t in want for w in t]]
        match_axes(axes, want, f'{what}: radial kernels of contribution {c}')
        axes = [a for path, axs in saved if 'angular_kernels/' in path and f'contribution_{c}_' in path for a in axs]
        seen = []
        for curves, _ in axes:
            ops = set()
            for cx, cy, lab in curves:
                o, f, m, d = parse_angular(lab.strip("[]'"))
                ops.add((tuple(sorted(o)), int(d), int(m), f))
                w = f * angular_curve(case, o) * (mu if m else 1.) / (sine if d else 1.)
                ensure(near(cx, mu, 1., 1e-9), lambda: f'{what}: abscissa of an angular kernel')
                ensure(near(cy, w, max(np.abs(w).max(), 1e-300)), lambda: f'{what}: curve labelled {lab!r} is {cy[:4]}, the product is {w[:4]}')
            ensure(len(ops) == 1, lambda: f'{what}: one panel shows {ops}')
            o, d, m, f = ops.pop()
            have = {tuple(parse_angular(lab.strip("[]'"))[0]) for _, _, lab in curves}
            ensure(len(have) == len(curves) and (len(curves) == 1 or have == set(perms(o))), lambda: f'{what}: permutations {have} of {o}')
            ensure(m == 0, lambda: f'{what}: {o} multiplied with mu')
            seen.append((o, d))
        need = sorted((tuple(sorted(o)), d) for o, d in ANG[c])
        ensure(sorted(set(seen)) == need, lambda: f'{what}: angular kernels of contribution {c}: missing {set(need) - set(seen)}, '
                                                 f'not part of it {set(seen) - set(need)}')


def judge(fl, kind, triad, pattern, text, saved, s, shown, kw, what):
    adia = kw.get('adiabatic', True)
    p = c14.predicted(fl, triad, True, adia, kw.get('terms_cc_conj'))
    if not p['acc']:
        ensure(not saved, lambda: f'{what}: figures {[q for q, _ in saved]} of a rejected triad')
        return 'rejected'
    n2 = fl.n2
    bound = (10. * np.abs(p['om']).max() * c14.UNIT) ** 2
    valid = (n2 > bound) & (n2 > (20. * c14.ROT * c14.UNIT) ** 2)
    eps = c13.G0 * c13.M0 ** 2 / c13.R0
    prof = p['profile'] / eps
    size = max(p['size'] / eps, np.abs(prof).max())
    y = prof.sum(axis=0)
    adj, end, cont = adjusted(valid, y)
    # what is printed
    a, b = pair(text, 'Normed coupling coefficient eta:')
    ensure(near(a, [y[-1]], size) and near(b, [end], size), lambda: f'{what}: coefficient {a}, adjusted {b}; expected {y[-1]}, {end}')
    got = numbers(line(text, 'Contributions to the normed coupling coefficient due to TAR non-validity zones:').split(']')[0])
    ensure(near(got, cont, size), lambda: f'{what}: zone contributions {got}, expected {cont}')
    eta = abs(2. * y[-1])
    Q = p['om'] / p['gam']
    pre = 1. / (4. * eta ** 2) * np.array([1., -1., -1.]) / np.array([Q[1] * Q[2], Q[0] * Q[2], Q[0] * Q[1]])
    amp = 1e6 * np.sqrt((1. + p['q'] ** 2) * pre)
    qc = p['det'] / p['gam'][1:].sum()
    thr = 1e6 * np.sqrt((1. + qc ** 2) * pre[0])
    ratio = abs(a[0] / b[0]) if b[0] else np.inf
    flux = amp * p['disc']
    ff = thr * p['disc'][0]
    for start, w in (('Stationary amplitudes (ppm):', amp), ('Parent threshold amplitude for parametric resonance (ppm):', thr),
                     ('Surface luminosity fluctuations (ppm):', flux),
                     ('Parent threshold luminosity fluctuation for parametric resonance (ppm):', ff)):
        u, v = pair(text, start)
        w = np.atleast_1d(w)
        ensure(near(u, w, np.abs(w).max(), 1e-5), lambda: f'{what}: {start} {u}, expected {w}')
        ensure(len(v) == len(w), lambda: f'{what}: {start} {v} after adjustment')
        if abs(end) > 1e-6 * size:
            ensure(near(v, w * ratio, np.abs(w * ratio).max(), 1e-5), lambda: f'{what}: {start} {v} after adjustment, expected {w * ratio}')
    hyp = re.findall('True|False', line(text, 'Hyperbolicity check:'))
    ensure(len(hyp) == 2, lambda: f'{what}: hyperbolic {hyp}')
    if np.isfinite(amp).all():                                        # stable solutions stay so when all couplings are rescaled
        ensure(hyp[0] == 'True' and (hyp[1] == 'True' or abs(end) <= 1e-6 * size), lambda: f'{what}: hyperbolic {hyp} although it is stable')
    # figures
    name = f'sv_n{triad[0]}_{triad[1]}_{triad[2]}_l{"_".join(map(str, fl.lm[0]))}_m{"_".join(map(str, fl.lm[1]))}'
    for path, _ in saved:
        ensure(path.startswith('figure_output/') and '/M3/' in path and '/rot_20/' in path and os.path.splitext(path)[0].endswith(name),
               lambda: f'{what}: figure saved as {path}')
    ensure(len({q for q, _ in saved}) == len(saved), lambda: f'{what}: figures overwrite each other')
    x = fl.data[('p', triad[0]), 0]['s']['x'][1:-1]
    by = {os.path.basename(q).replace('_' + name, ''): axs for q, axs in saved}

    def curve(ax, i, w, sc, name, tol=1e-6):
        ensure(i < len(ax[0]) and near(ax[0][i][0], x, 1., 1e-9) and near(ax[0][i][1], w, sc, tol),
               lambda: f'{what}: {name} shows {[rnd(c[1], 6) for c in ax[0]]}, expected {rnd(np.asarray(w), 6)}')
    single = by['cc_profile_single.pdf'] if 'cc_profile_single.pdf' in by else by['cc_profile_single.png']
    curve(single[0], 0, y, size, 'profile')
    curve(single[1], 0, n2, n2.max(), 'buoyancy profile')
    both = by['cc_profile.png']
    curve(both[0], 0, y, size, 'profile')
    curve(both[1], 0, adj, size, 'adjusted profile')
    for ax in both[2:]:
        curve(ax, 0, n2, n2.max(), 'buoyancy profile')
    terms = kw.get('view_term_by_term', True) or kind != 'profile'
    ensure(terms == ('cc_contributions_profile.png' in by), lambda: f'{what}: figures {sorted(by)}')
    if terms:
        fig = by['cc_contributions_profile.png']
        for i, nth in enumerate(('First', 'Second', 'Third', 'Fourth')):
            ad, e, ct = adjusted(valid, prof[i])
            curve(fig[0], i, prof[i], size, f'{nth} contribution')
            curve(fig[1], i, ad, size, f'adjusted {nth} contribution')
            u, v = pair(text, f'{nth} normed coupling coefficient (eta) contribution:')
            ensure(near(u, [prof[i][-1]], size) and near([float(re.search(NUM, line(
                text, f'{nth} normed coupling coefficient (eta) contribution:').split('validity:')[1]).group())], [e], size),
                lambda: f'{what}: {nth} contribution {u}, adjusted {v}; expected {prof[i][-1]}, {e}')
            got = numbers(line(text, f'Contributions to the {nth.lower()} normed coupling coefficient (eta) contribution due to TAR '
                                     'non-validity zones:').split(']')[0])
            ensure(near(got, ct, size), lambda: f'{what}: zone contributions of the {nth} term {got}, expected {ct}')
    kern = kw.get('view_kernels', True) or kind != 'profile'
    ensure(kern == any('kernels' in q for q, _ in saved), lambda: f'{what}: figures {sorted(by)}')
    if kern:
        judge_kernels(p, saved, what)
    ensure(shown, lambda: f'{what}: the figures are not shown')
    return [rnd(v, 5) for v in (y[-1], end, *cont)]


def profile_run(case):
    kind, letter, lm, triad, opts, patterns = case
    out = []
    for pat in patterns:
        with Files(letter, pat, lm) as fl:
            kw = dict(opts)
            text, saved, s, shown = fl.profile(kind, triad, **kw)
            out.append(judge(fl, kind, triad, pat, text, saved, s, shown, kw, f'{kind} {letter} {lm} {triad} {kw} {"".join(map(str, pat))}'))
    return out


def zones(case):
    """The masking function on hand-made profiles."""
    import matplotlib.pyplot as plt
    from aesolver.solver.profile_plot_classes import double_masking_integrated_radial_profile_figure_template_function as f
    n, shape, many, pats = case
    out = []
    x = np.linspace(.05, .95, n)
    base = {'steps': 2. ** np.arange(n) - 1., 'alternating': np.cumsum((-1.) ** np.arange(n) * 3. ** np.arange(n)) - 1.,
            'flat': np.full(n, 7.)}[shape]
    ys = [base * (-1.) ** k * 5. ** k + k for k in range(many)] if many else [base]
    for pat in pats:
        v = np.array(pat, bool)
        inv = [slice(a, b if v[b] else n) for a, b in runs_of(v)]
        val = [slice(a, b if not v[b] else n) for a, b in runs_of(~v)] or [np.s_[None]]
        T.call()
        cc, ad, fig, cont = f(radial_coordinate=x, y_ax_data=[q.copy() for q in ys] if many else base.copy(), y_ax_label=['a', 'b'],
                              convection_zone_selection_indices=runs_of(v), fully_invalid=not v.any(), convection_zone_masks=inv,
                              validity_zone_masks=val, tar_validity_mask=v, use_legend=bool(many),
                              y_legend_entries=['a', 'b', 'c', 'd'][:many] if many else None)
        snap = snapshot(fig)
        plt.close('all')
        cc, ad, cont = (cc, ad, cont) if many else ([cc], [ad], [cont])
        ensure(len(snap[0][0]) == len(snap[1][0]) == len(cc) == len(ad) == len(cont) == len(ys), lambda: f'{pat}: {len(cc)} results')
        for k, q in enumerate(ys):
            prof, end, c = adjusted(v, q)
            sc = np.abs(q).max()
            ensure(near(snap[0][0][k][1], q, sc, 1e-12) and near(snap[1][0][k][1], prof, sc, 1e-12),
                   lambda: f'{shape} {pat}: shown profile {snap[0][0][k][1]}, adjusted {snap[1][0][k][1]}; expected {q}, {prof}')
            ensure(near([cc[k], ad[k]], [q[-1], end], sc, 1e-12) and near(cont[k], c, sc, 1e-12),
                   lambda: f'{shape} {pat}: end values {cc[k]}, {ad[k]} with {cont[k]}; expected {q[-1]}, {end} with {c}')
        out.append([rnd(v, 5) for v in ad])
    return out


def run(ctx):
    aes.use(ctx)
    np.seterr(all='ignore')
    import matplotlib
    matplotlib.use('Agg')
    import logging
    logging.disable(logging.CRITICAL)
    plain = (('view_kernels', False), ('view_term_by_term', True))
    full = (('view_kernels', True), ('view_term_by_term', True))
    bare = (('view_kernels', False), ('view_term_by_term', False))
    conj = lambda c: (('terms_cc_conj', c),)  # noqa: E731
    nad = (('adiabatic', False),)
    pats = list(itertools.product((0, 1), repeat=7))[:-1]           # a star without invalid cell is refused (see C28)
    some = [(0, 0, 0, 1, 1, 1, 1), (1, 1, 1, 0, 0, 1, 1), (0, 1, 1, 0, 1, 1, 0), (1, 1, 0, 0, 1, 0, 0), (1, 0, 1, 0, 1, 0, 1), (0,) * 7]
    mix, har = (1, 11, 12), (1, 11, 11)
    cases = [('profile', 'a', c14.LM, mix, plain, pats[i:i + 4]) for i in range(0, 128, 4)]
    ctx.explore('patterns', profile_run, cases, 'all zone patterns of the inner cells', limit=300)
    lms = [([2, 1, 1], [0, 1, -1]), ([2, 1, 1], [-2, 1, 1]), ([2, 2, 2], [0, 0, 0])]
    cases = [('profile', a, c14.LM, t, full, some[i:i + 2]) for a, t in (('a', mix), ('b', mix), ('h', har), ('a', har)) for i in (0, 2, 4)]
    cases += [('profile', 'a', lm, mix, full + conj(c), some[1:ctx.pick(2, 5)])
              for lm, c in ((lms[0], None), (lms[0], (True, False, False)), (lms[1], None), (lms[1], (True, True, True)), (lms[2], None),
                            (lms[2], (False, False, False)), (lms[2], (False, True, False)))]
    cases += [('profile', a, c14.LM, mix, full + nad, some[1:ctx.pick(2, 5)]) for a in 'ab']
    cases += [('solver', 'a', c14.LM, mix, o, [q]) for o in ((), nad) for q in ctx.pick(some[:4], some)]
    cases += [('profile', a, c14.LM, mix, o, [some[1]]) for a in 'suv' for o in (full, bare)]
    cases += [('solver', a, c14.LM, mix, (), [some[1]]) for a in 'su']
    cases += [('profile', 'a', c14.LM, mix, bare, some)]
    ctx.explore('runs', profile_run, cases, 'triads, degrees, conjugations, eigenfunctions and display options', limit=600)
    n = ctx.pick(6, 9)
    cases = []
    for m in range(2, n + 1):
        q = [p for p in itertools.product((0, 1), repeat=m) if not all(p)]
        cases += [(m, sh, many, q[i:i + 16]) for sh in ('steps', 'alternating', 'flat') for many in (0, 1, 4) for i in range(0, len(q), 16)]
    ctx.explore('zones', zones, cases, 'all zone patterns on hand-made profiles', limit=600)
