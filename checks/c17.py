"""C17 loading a triad reads exactly the files of the requested modes."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import aes
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of file names, requests and small directory contents on the real sub-selection and loader, against the numbers the files were written with',
    'note': 'Names carry each of l, m and n once as a token of its own (not glued to a preceding letter), joined directly or by "_", next to arbitrary words that may hold similar letters and digits.',
}

PRE = ['', 'detail_', 'my_substring_', 'M6_00_Xc0_5_', 'model3_', 'col1_nl2_', '2l_3m_4n_', 'um+1_', 'run+1_', '10_']
SUF = ['', '_nad', '_model3', '_xl2', '_um+1', '_run+1', '_M6_00', '.v2', '_3']
SEP = ['', '_']


def name_of(pre, mode, sep, l, m, n, suf, order, pad, ext='h5'):
    w = '02d' if pad else 'd'
    tok = {'l': f'l{l:{w}}', 'm': f'm{"-" if m < 0 else "+"}{abs(m):{w}}', 'n': f'n+{n:{w}}', 'g': f'{mode}_mode'}
    out = ''
    for i, c in enumerate(order):
        glue = '' if i == 0 else ('_' if c == 'g' or order[i - 1] == 'g' else sep)
        out += glue + tok[c]
    return f'{pre}{out}{suf}.{ext}'


def classes():
    import aesolver.model_handling.subselection_classes as s
    return {'gyre': s.GYREDetailSubSelector, 'poly': s.PolytropeOscillationModelSubSelector}


def numbers(case):
    """One way of writing names: every file of the window against every request."""
    kind, pre, sep, suf, order, pad, ls, ms, ns = case
    cls = classes()[kind]
    modes = list(itertools.product(ls, ms, ns))
    k = 3
    T.call(len(modes) ** 2 * 2)
    for i in range(0, len(modes), k):
        req = modes[i:i + k]
        sel = cls(search_l=[r[0] for r in req], search_m=[r[1] for r in req], search_n=[r[2] for r in req])
        for l, m, n in modes:
            for tag in 'gp':
                nm = name_of(pre, tag, sep, l, m, n, suf, order, pad)
                for j, r in enumerate(req):
                    for g in (True, False):
                        got = sel.subselect(name=nm, additional_substring=None, mode_number=j + 1, g_mode=g)
                        want = r == (l, m, n) and (tag == 'g') == g
                        ensure(bool(got) == want, lambda: f'{kind}: {nm} {"selected" if got else "not selected"} for l,m,n={r} '
                               f'{"g" if g else "p"} mode')
    return len(modes)


def strange(case):
    """Names without the tokens, or with only some of them, belong to no mode."""
    kind, nm = case
    cls = classes()[kind]
    for l, m, n in itertools.product((0, 1, 2, 12), (-1, 0, 1), (1, 2, 12)):
        sel = cls(search_l=[l], search_m=[m], search_n=[n])
        for g in (True, False):
            T.call()
            ensure(not sel.subselect(name=nm, mode_number=1, g_mode=g), lambda: f'{kind}: {nm} selected for l,m,n={(l, m, n)}')


def extra(case):
    """Additional substrings: one text, all texts of a tuple, the text of this mode from a list."""
    kind, pre, spec, nr = case
    cls = classes()[kind]
    sel = cls(search_l=[1, 2, 1], search_m=[0, -1, 0], search_n=[1, 11, 1])
    for tag in ('nad', 'ad', 'x'):
        for i, (l, m, n) in enumerate(((1, 0, 1), (2, -1, 11))):
            nm = name_of(pre, 'g', '', l, m, n, '_' + tag, 'glmn', False)
            got = sel.subselect(name=nm, additional_substring=spec, mode_number=nr, g_mode=True)
            want = i == (1 if nr == 2 else 0)
            if isinstance(spec, str):
                want = want and spec in nm
            elif isinstance(spec, tuple):
                want = want and all(s in nm for s in spec)
            elif isinstance(spec, list):
                want = want and spec[nr - 1] in nm
            T.call()
            ensure(bool(got) == want, lambda: f'{kind}: {nm} with {spec!r} for mode {nr}: {got}')


def struct(case):
    """Structure files: the suffix, the substrings and (for profiles) no GYRE input models."""
    kind, suffix, spec, words, ext = case
    import aesolver.model_handling.subselection_classes as s
    sel = (s.MESAProfileSubSelector(mesa_file_suffix=suffix) if kind == 'mesa'
           else s.PolytropeModelSubSelector(polytrope_model_suffix=suffix))
    nm = '_'.join(words) + '.' + ext
    T.call()
    got = sel.subselect(name=nm, additional_substring=spec)
    want = nm.endswith('.' + suffix)
    if kind == 'mesa':
        want = want and 'gyre' not in nm and 'GYRE' not in nm
    if isinstance(spec, str):
        want = want and spec in nm
    elif spec is not None:
        want = want and all(x in nm for x in spec)
    ensure(bool(got) == want, lambda: f'{kind}: {nm} with suffix {suffix!r} and {spec!r}: {got}')
    return want


# ---- the loader on real directories
POOL = {'a': (1, 0, 1, 'g'), 'b': (1, 0, 11, 'g'), 'c': (1, 0, 111, 'g'), 'd': (1, -1, 1, 'g'), 'e': (1, 1, 1, 'g'), 'f': (11, 0, 1, 'g'),
        'h': (1, 0, 1, 'p'), 'i': (2, -2, 12, 'g'), 'j': (2, 2, 21, 'g'), 'k': (3, -3, 102, 'g')}
Msun, Rsun = 1.9e33, 6.9e10
DT = np.dtype([('re', float), ('im', float)])


def cplx(base, n=3):
    a = np.empty(n, DT)
    a['re'] = base + np.arange(n)
    a['im'] = -base - 0.5 * np.arange(n)
    return a


def write_mode(path, key, copy):
    import h5py
    b = 100. * (1 + sorted(POOL).index(key)) + 10. * copy
    l, m, n, tag = POOL[key]
    with h5py.File(path, 'w') as f:
        for a, v in (('l', l), ('m', m), ('n_g', n), ('n_pg', -n), ('n', 3), ('M_star', b * Msun), ('R_star', b * Rsun), ('freq', cplx(b, 1)[0])):
            f.attrs[a] = v
        for q in ('xi_r', 'xi_h', 'eul_phi', 'eul_P', 'lag_rho', 'lag_L'):
            f[q] = cplx(b + len(q))
        f['x'] = b + np.linspace(0, 1, 3)
        f['P'] = b * np.array([1., 2., 4.])
        f['rho'] = b * np.array([2., 3., 5.])
        f['Gamma_1'] = np.array([1.6, 1.7, 1.8])
        f.attrs['L_star'] = 3. * b
        f['Omega_rot'] = b * np.array([.1, .2, .3])
    return b


def prepared(d, content, kind):
    """Directory with the given files; the value of each role is found again in base[key]."""
    base = {}
    os.makedirs(d)
    for key, copies in content:
        l, m, n, tag = POOL[key]
        for c in range(copies):
            nm = name_of('prof_' if c else 'detail_', tag, '', l, m, n, '_second' if c else '', 'glmn', False)
            base[key] = write_mode(f'{d}/{nm}', key, c)
    open(f'{d}/notes.txt', 'w').write('x')
    os.makedirs(f'{d}/detail_g_mode_l1m+0n+1.h5.d')
    return base


def get(d, reqs, kind, units='CGS', g=True, spec=None, bars=False, mass=None, radius=None, infer=False):
    from aesolver.model_handling import ModelLoader
    T.call()
    kw = dict(base_dir=d, infer_dir=infer, search_l=[POOL[r][0] for r in reqs], search_m=[POOL[r][1] for r in reqs],
              search_n=[POOL[r][2] for r in reqs], unit_system=units)
    gm = [POOL[r][3] == 'g' for r in reqs]
    if not infer:
        kw.update(gyre_output_dir=f'{d}/modes', polytrope_oscillation_output_dir=f'{d}/modes')
    if kind == 'gyre':
        ld = ModelLoader(gyre_detail_substring=spec, **kw)
        ld.read_data_files(gyre_detail=True, g_modes=gm, progress_bars=bars)
        return ld.gyre_details
    ld = ModelLoader(polytrope_oscillation_substrings=spec, use_polytrope_data=True, **kw)
    ld.read_data_files(polytrope_oscillation=True, g_modes=gm, polytrope_mass=mass, polytrope_radius=radius, progress_bars=bars)
    return ld.polytrope_oscillation_models


def judge(data, reqs, base, kind, units, case, mass=None, radius=None):
    from astropy.constants import G
    ensure(len(data) == len(reqs), lambda: f'{case}: {len(data)} loaded for {len(reqs)} roles')
    si = units == 'SI'
    for i, (r, dd) in enumerate(zip(reqs, data)):
        b = base[r]
        l, m, n, tag = POOL[r]
        ensure((dd['l'], dd['m'], dd['n_g']) == (l, m, n), lambda: f'{case}: role {i + 1} has the mode {(dd["l"], dd["m"], dd["n_g"])}, requested {(l, m, n)}')
        g = G.si.value if si else G.cgs.value
        M = (b * Msun * (1e-3 if si else 1)) if kind == 'gyre' else mass
        R = (b * Rsun * (1e-2 if si else 1)) if kind == 'gyre' else radius
        c = lambda q: cplx(b + len(q))['re'] + 1j * cplx(b + len(q))['im']
        want = {'x': b + np.linspace(0, 1, 3)}
        if kind == 'gyre':
            P = b * np.array([1., 2., 4.]) * (.1 if si else 1)
            rho = b * np.array([2., 3., 5.]) * (1e3 if si else 1)
            want.update(M_star=M, R_star=R, G=g, P=P, rho=rho, xi_r_dim=c('xi_r') * R, xi_h_dim=c('xi_h') * R,
                        eul_phi_dim=c('eul_phi') * g * M / R, eul_P_dim=c('eul_P') * P, lag_rho_dim=c('lag_rho') * rho,
                        lag_L_dim=c('lag_L') * 3 * b * (1e-7 if si else 1),
                        Omega_rot_dim=b * np.array([.1, .2, .3]) * np.sqrt(g * M / R ** 3))
        else:
            want.update(xi_r=c('xi_r'), xi_h=c('xi_h'), eul_phi=c('eul_phi'), M_star=M, R_star=R, G=g, Omega_rot=b * np.array([.1, .2, .3]))
        for k, w in want.items():
            ensure(k in dd, lambda: f'{case}: role {i + 1} lacks {k}')
            ensure(np.shape(dd[k]) == np.shape(w) and np.allclose(dd[k], w, rtol=1e-12, atol=0),
                   lambda: f'{case}: role {i + 1} ({r}) {k} = {dd[k]!r}, expected {w!r}')


def loader(case):
    """All directory contents of some modes (absent, present, twice) against all requests."""
    kind, keys, copies, units, bars = case
    d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c17-'))
    try:
        base = prepared(f'{d}/modes', list(zip(keys, copies)), kind)
        have = dict(zip(keys, copies))
        out = []
        for reqs in itertools.product(keys, repeat=3):
            ok = all(have[r] == 1 for r in reqs)
            if not ok and len({have[r] for r in reqs}) == 1 and reqs[0] != reqs[-1]:
                continue
            try:
                data = get(d, reqs, kind, units, bars=bars, mass=3., radius=5.)
            except SystemExit:
                ensure(not ok, lambda: f'{case}: request {reqs} refused though each mode has one file')
                out.append(0)
                continue
            ensure(ok, lambda: f'{case}: request {reqs} accepted with {[have[r] for r in reqs]} files')
            judge(data, reqs, base, kind, units, (case, reqs), 3., 5.)
            out.append(1)
        return out
    finally:
        shutil.rmtree(d)


def number_of_modes(case):
    """Requests of one to four modes."""
    kind, reqs = case
    d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c17-'))
    try:
        base = prepared(f'{d}/modes', [(k, 1) for k in POOL], kind)
        from aesolver.model_handling import ModelLoader
        gm = [POOL[r][3] == 'g' for r in reqs]
        T.call()
        ld = ModelLoader(base_dir=d, infer_dir=False, gyre_output_dir=f'{d}/modes', polytrope_oscillation_output_dir=f'{d}/modes',
                         search_l=[POOL[r][0] for r in reqs], search_m=[POOL[r][1] for r in reqs], search_n=[POOL[r][2] for r in reqs],
                         gyre_detail_substring=None, polytrope_oscillation_substrings=None)
        if kind == 'gyre':
            ld.read_data_files(gyre_detail=True, g_modes=gm)
            data = ld.gyre_details
        else:
            ld.read_data_files(polytrope_oscillation=True, g_modes=gm, polytrope_mass=3., polytrope_radius=5.)
            data = ld.polytrope_oscillation_models
        judge(data, reqs, base, kind, 'CGS', case, 3., 5.)
    finally:
        shutil.rmtree(d)


DIRS = {'gyre': ['GYRE', 'gyre_out', 'my_gyre', 'GyreB'], 'poly': ['POLYTROPE_OSCILLATION', 'my_polytrope_oscillation_x'],
        'none': ['MESA', 'other', 'polytrope_model', 'gyr', 'oscillation']}


def inference(case):
    """The mode directory is inferred when exactly one sub-directory bears its name, and explicit ones are used as given."""
    kind, subs, asfile, explicit, nobase = case
    d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c17-'))
    try:
        base = {}
        for i, s in enumerate(subs):
            os.makedirs(f'{d}/{s}')
            base[s] = write_mode(f'{d}/{s}/detail_{i}_g_mode_l1m+0n+1.h5', 'a', i)
        if asfile:
            open(f'{d}/' + ('gyre.in' if kind == 'gyre' else 'polytrope_oscillation.in'), 'w').write('x')
        word = 'gyre' if kind == 'gyre' else 'polytrope_oscillation'
        match = [s for s in subs if word in s.lower()]
        exp = f'{d}/{subs[explicit]}' if explicit is not None else None
        from aesolver.model_handling import ModelLoader
        T.call()
        try:
            kw = {('gyre_output_dir' if kind == 'gyre' else 'polytrope_oscillation_output_dir'): exp} if exp else {}
            ld = ModelLoader(base_dir=None if nobase else d, infer_dir=not nobase, search_l=[1], search_m=[0], search_n=[1],
                             gyre_detail_substring=None, polytrope_oscillation_substrings=None, **kw)
            old = os.getcwd()
            os.makedirs(f'{d}/_empty')
            os.chdir(f'{d}/_empty')       # a directory that is not known must not become the current one unnoticed
            try:
                ld.read_data_files(gyre_detail=kind == 'gyre', polytrope_oscillation=kind == 'poly', g_modes=[True],
                                   polytrope_mass=3., polytrope_radius=5.)
            finally:
                os.chdir(old)
            data = (ld.gyre_details if kind == 'gyre' else ld.polytrope_oscillation_models)
        except SystemExit:
            ensure(explicit is None and len(match) != 1, lambda: f'{case}: refused, matching {match}')
            return 'refused'
        ensure(explicit is not None or len(match) == 1, lambda: f'{case}: loaded from some directory although {match} match')
        want = subs[explicit] if explicit is not None else match[0]
        ensure(np.allclose(data[0]['x'], base[want] + np.linspace(0, 1, 3)), lambda: f'{case}: not the file of {want}')
        return want
    finally:
        shutil.rmtree(d)


COLS = ['zone', 'logT', 'logRho', 'radius', 'pressure', 'mass', 'grav', 'brunt_N2', 'x', 'y']
HEAD = ['version_number', 'initial_mass', 'initial_z', 'star_age', 'num_zones', 'Teff']


def profile_text(order, heads, nz, seed):
    w = 28
    val = lambda i, c: (i + 1) * (10. ** (COLS.index(c) - 3)) * (1 + seed)
    hv = {h: (1 + HEAD.index(h)) * (3.5 + seed) for h in heads}
    lines = [''.join(f'{i + 1:>{w}d}' for i in range(len(heads))), ''.join(f'{h:>{w}}' for h in heads),
             ''.join(f'{hv[h]:>{w}.10e}' for h in heads), '', ''.join(f'{i + 1:>{w}d}' for i in range(len(order))),
             ''.join(f'{c:>{w}}' for c in order)]
    lines += [''.join(f'{val(i, c):>{w}.10e}' for c in order) for i in range(nz)]
    return '\n'.join(lines) + '\n', {c: np.array([val(i, c) for i in range(nz)]) for c in order}, hv


def profile(case):
    """MESA profiles: each column and header value under its own name, whatever the column order."""
    order, heads, nz, decoys, units = case
    d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c17-'))
    try:
        os.makedirs(f'{d}/MESA')
        text, want, hv = profile_text(order, heads, nz, 0)
        open(f'{d}/MESA/profile_KIC1_M6.dat', 'w').write(text)
        for i, q in enumerate(decoys):
            open(f'{d}/MESA/{q}', 'w').write(profile_text(order, heads, nz, i + 1)[0])
        from aesolver.model_handling import ModelLoader
        T.call()
        ld = ModelLoader(base_dir=d, mesa_output_dir=f'{d}/MESA', infer_dir=False, mesa_profile_substrings=('profile', 'KIC1'), unit_system=units)
        ld.read_data_files(mesa_profile=True)
        data = ld.mesa_profile
        ensure(len(data) == 1, lambda: f'{case}: {len(data)} profiles')
        fac = {'pressure': .1, 'grav': .01} if units == 'SI' else {}
        for k, w in want.items():
            ensure(k in data[0] and np.shape(data[0][k]) == w.shape and np.allclose(np.asarray(data[0][k], float), w * fac.get(k, 1.), rtol=1e-9, atol=0),
                   lambda: f'{case}: column {k}: {data[0].get(k)!r}, expected {w * fac.get(k, 1.)!r}')
        for k, w in hv.items():
            ensure(k in data[0] and np.allclose(float(data[0][k]), w, rtol=1e-9), lambda: f'{case}: header {k}: {data[0].get(k)!r}, expected {w!r}')
        for k in COLS + HEAD:
            ensure((k in data[0]) == (k in want or k in hv), lambda: f'{case}: {k} appeared')
    finally:
        shutil.rmtree(d)


def mesa_number(v, w=40):
    m, e = f'{v:.16e}'.split('e')
    return f'{m}E{e[0]}{int(e[1:]):03d}'.rjust(w)


def star(case):
    """Profiles of whole stars: the values change sign, size and width somewhere inside."""
    nz, cut, kinds, order, units, neg = case
    i = np.arange(nz)
    deep = i >= cut
    D = {'zone': i + 1, 'logT': 4 + i * 1e-3, 'brunt_N2': 1e-6 * (i + 1), 'mass': 3 - i * 1e-3, 'pressure': 1e3 * 1.01 ** i, 'x': np.full(nz, .7),
         'conv_mixing_type': np.zeros(nz, dtype=int)}
    for k, kind in zip(('brunt_N2', 'pressure', 'x', 'conv_mixing_type'), kinds):
        if kind == 'sign':
            D[k] = np.where(deep, -D[k] - (k == 'conv_mixing_type'), D[k])
        elif kind == 'size':
            D[k] = np.where(deep, (D[k] + 1) * (12345678 if k == 'conv_mixing_type' else 1e120), D[k])
        elif kind == 'small':
            D[k] = np.where(deep, D[k] * (1 if k == 'conv_mixing_type' else 1e-120), D[k])
    hv = {'version_number': 12115, 'Teff': -1.5e4 if neg else 1.5e4, 'star_age': 1.5e8, 'num_zones': nz}
    num = lambda v: f'{int(v):>40d}' if isinstance(v, (int, np.integer)) else mesa_number(v)
    cols = [list(D)[k] for k in order]
    lines = [''.join(f'{k + 1:>40d}' for k in range(len(hv))), ''.join(f'{h:>40}' for h in hv), ''.join(num(v) for v in hv.values()), '',
             ''.join(f'{k + 1:>40d}' for k in range(len(cols))), ''.join(f'{c:>40}' for c in cols)]
    lines += [''.join(num(D[c][k]) for c in cols) for k in range(nz)]
    d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c17-'))
    try:
        os.makedirs(f'{d}/MESA')
        open(f'{d}/MESA/profile_KIC1_M6.dat', 'w').write('\n'.join(lines) + '\n')
        from aesolver.model_handling import ModelLoader
        T.call()
        ld = ModelLoader(base_dir=d, mesa_output_dir=f'{d}/MESA', infer_dir=False, mesa_profile_substrings=('profile', 'KIC1'), unit_system=units)
        ld.read_data_files(mesa_profile=True)
        data, = ld.mesa_profile
        for k, w in D.items():
            w = w * (.1 if units == 'SI' and k == 'pressure' else 1)
            ensure(np.shape(data[k]) == (nz,), lambda: f'{case}: column {k} has the shape {np.shape(data[k])}')
            g = np.asarray(data[k], dtype=float)
            bad = np.flatnonzero(~np.isclose(g, w, rtol=1e-14, atol=0))
            ensure(not len(bad), lambda: f'{case}: column {k} in zone {bad[0] + 1} of {nz}: {g[bad[0]]} instead of {w[bad[0]]}')
        for k, w in hv.items():
            ensure(float(data[k]) == w, lambda: f'{case}: header {k}: {data[k]!r} instead of {w}')
        T.seen((nz, cut) + kinds)
    finally:
        shutil.rmtree(d)


def run(ctx):
    aes.use(ctx)
    q = not ctx.thorough
    ls, ms, ns = ctx.pick(([1, 2, 12], [-12, -1, 0, 1, 2], [1, 2, 12, 21, 102]), ([0, 1, 2, 3, 11, 12, 21], [-21, -12, -2, -1, 0, 1, 2, 12], [1, 2, 11, 12, 21, 101, 102, 112]))
    orders = ['glmn', 'lmng'] if q else ['glmn', 'lmng', 'lgmn', 'gnml', 'mlgn', 'nmlg']
    cases = []
    for kind, pre, sep, suf, order, pad in itertools.product(('gyre', 'poly'), PRE, SEP, SUF, orders, (0, 1)):
        if order != 'glmn' and sep == '' and order not in ('lmng',):
            continue
        # a word glued to a token is no token of its own: keep a separator in front
        cases.append((kind, pre, sep, suf, order, pad, ls, ms, ns))
    if q:
        cases = [c for i, c in enumerate(cases) if c[1] in PRE[:3] or c[3] in SUF[:3]]
        cases = [c[:6] + (ls, ms, ns) if (c[5] == 0 and c[2] == '') else c[:6] + (ls[:2], ms[1:4], ns[::2]) for c in cases]
    ctx.explore('modes.numbers', numbers, cases, 'names x requests x mode tags', limit=300)
    part = ['l1m+0.h5', 'g_mode_l1m+0.h5', 'g_mode_l1n+1.h5', 'g_mode_m+0n+1.h5', 'l1m+0n+1.h5', 'g_mode.h5', 'G_MODE_l1m+0n+1.h5', 'g_mode_lm+0n+1.h5',
            'g_mode_l1m0n+1.h5', 'g_mode_l1m+0n1.h5', 'g_mode_l1m+n+1.h5', 'detail.h5', 'x', 'g_mode_L1M+0N+1.h5', 'gmode_l1m+0n+1.h5']
    ctx.explore('modes.strange', strange, [(k, p) for k in ('gyre', 'poly') for p in part])
    specs = [None, 'nad', 'ad', '', 'zzz', ('detail', 'nad'), ('detail',), (), ('ad', 'zzz'), ['nad', 'ad', 'x'], ['ad', 'nad', 'ad'], ['', 'zzz', '']]
    ctx.explore('modes.extra', extra, list(itertools.product(('gyre', 'poly'), ('detail_', '', 'nad_'), specs, (1, 2, 3))))
    words = ['profile', 'KIC1', 'M6', 'gyre', 'GYRE', 'dat', 'h5']
    names = [w for r in range(1, ctx.pick(3, 4)) for w in itertools.permutations(words, r)]
    names += [('a.dat', 'b'), ('a.h5', 'b'), ('profile1.data',), ('x.dat.bak',)]
    exts = ['dat', 'h5', 'data', 'dat~', 'dat.bak', 'h5.tmp', 'hdf5', 'DAT', 'txt', 'dat.GYRE', 'xdat']
    sspecs = [None, ('profile', 'KIC1'), ['profile'], 'profile', 'KIC1', (), ('M6', 'dat')]
    ctx.explore('structure', struct, list(itertools.product(('mesa', 'poly'), ('dat', 'h5', 'data', 'txt'), sspecs, names, exts)))
    sets = [('a', 'b', 'c'), ('a', 'd', 'e'), ('a', 'f', 'h'), ('i', 'j', 'k')] if q else [tuple(s) for s in itertools.combinations('abcdefhijk', 3)]
    ctx.explore('loader', loader, [(kind, s, cp, u, b) for kind in ('gyre', 'poly') for s in sets for cp in itertools.product((1, 0, 2), repeat=3)
                                   for u in ('CGS', 'SI') for b in (False, True) if not q or (u == 'CGS') != b or cp == (1, 1, 1)], limit=300)
    reqs = [r for n in (1, 2, 3, 4) for r in itertools.product('adhi', repeat=n)]
    ctx.explore('loader.modes', number_of_modes, [(k, r) for k in ('gyre', 'poly') for r in reqs])
    inf = []
    for kind in ('gyre', 'poly'):
        for a in range(0, 3):
            for mine in itertools.combinations(DIRS[kind], a):
                for o in (0, 1, 2):
                    for other in itertools.combinations(DIRS['none'] + (DIRS['poly'][:1] if kind == 'gyre' else DIRS['gyre'][:1]), o):
                        subs = list(other[:1]) + list(mine) + list(other[1:])
                        for asfile in (False, True):
                            inf.append((kind, subs, asfile, None, False))
                        for e in range(len(subs)):
                            inf += [(kind, subs, False, e, nb) for nb in (False, True)]
    ctx.explore('loader.directories', inference, inf)
    perms = list(itertools.permutations(COLS[:4])) + [tuple(COLS), tuple(COLS[::-1])] + [tuple(COLS[i:] + COLS[:i]) for i in range(1, 10)]
    dec = [(), ('profile_KIC2_M6.dat',), ('profile_KIC1_M6.dat.GYRE',), ('gyre_profile_KIC1.dat', 'profile_KIC1.data'), ('profile_KIC1_gyre.dat',), ('KIC1.dat', 'profile.dat')]
    ctx.explore('profile', profile, [(o, tuple(HEAD[:h]), nz, dc, u) for o in perms for h in (2, 6) for nz in ctx.pick((2, 5), (1, 2, 3, 5, 12)) for dc in dec
                                     for u in ('CGS', 'SI') if not q or (nz, u) in ((2, 'SI'), (5, 'CGS'))])
    kd = ('same', 'sign', 'size', 'small')
    st = [(nz, cut, k, o, u, neg) for nz in ctx.pick((120, 1100), (30, 99, 100, 101, 120, 250, 1100, 10050)) for cut in sorted({1, 60, 99, 100, 101, nz - 1})
          for k in (list(itertools.product(kd, repeat=4)) if ctx.thorough and nz == 120 else [(a,) * 4 for a in kd] + [('sign', 'size', 'small', 'same'), ('size', 'sign', 'same', 'sign')])
          for o in (range(7), (2, 6, 5, 4, 0, 3, 1)) for u, neg in (('CGS', True), ('SI', False)) if cut < nz]
    ctx.explore('star', star, [(a, b, c, tuple(o), u, g) for a, b, c, o, u, g in st], 'profiles of whole stars')
