"""C22 GYRE helpers cut, convert and label mode data exactly."""
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

from mc import aes, build
from mc.core import T, digest, ensure

META = {
    'technique': 'bounded exhaustive enumeration of cut sequences, attribute layouts, unit names and mode orders on the real helpers',
    'note': 'Cut sequences up to length 3 (4) over all named groups and several explicit lists; all mode orders up to |m|, |k| <= 5 (9).',
}
M = range(1, 4)
MODES = [f'_{q}_mode_{i}' for q in ('xi_h', 'xi_r', 'y_1', 'y_2') for i in M]
LISTS = {
    'structure_coefficient_cuts': ['_c_1', '_V_2', '_As', '_U'],
    'polytropic_cuts': MODES,
    'mesa_gyre_cuts': MODES + [f'_{q}_mode_{i}' for q in ('deul_phi', 'eul_phi') for i in M] + ['_gamma_1_adDer_profile'],
    'pre_profile_load_cuts': ['_x', '_M_r', '_rho', '_P', '_Gamma_1', '_brunt_N2_profile'],
    ('pre_profile_load_cuts', True): ['_x', '_mr_profile', '_rho_profile', '_r_profile', '_p_profile', '_Gamma_1', '_brunt_n2_profile'],
    ('profile_load_cuts_analytic', True): ['_x', '_mr_profile', '_rho_profile', '_r_profile', '_p_profile', '_Gamma_1',
                                           '_brunt_n2_profile'] + [f'_{q}{k}' for q in ('drho', 'dP', 'dgravpot') for k in ('', '2', '3')],
}
ALL = sorted({a for v in LISTS.values() for a in v} | {'_other', '_x_mode_1', '_rho_profile_POLY', '_x_POLY', '_dP_prev'})
SLICES = {'default': None, 'centre': np.s_[1:], 'surface': np.s_[:-1], 'both': np.s_[1:-1], 'none': np.s_[:], 'step': np.s_[::2]}
REQ = [(k, False) if isinstance(k, str) else k for k in LISTS] + [(('_rho', '_c_1'), False), (('_rho_profile', '_x'), True), ((), False)]


def content(i, a, n):
    return 1000. * i + np.arange(n) if i % 3 else np.stack([1000. * i + np.arange(n)] * 2, axis=1) * [1., -1.]


def cuts(case):
    from gyre_cutter import GYRECutter
    n, seq = case
    o = aes.Bag(**{a: content(i, a, n) for i, a in enumerate(ALL)}, scalar=5., text='abc')
    src = {a: getattr(o, a) for a in ALL}
    ref = {a: v.copy() for a, v in src.items()}
    for (what, poly), sl in seq:
        names = LISTS[(what, True) if (what, True) in LISTS and poly else what] if isinstance(what, str) else \
            [f'{w}_POLY' if poly else w for w in what]
        kw = {} if SLICES[sl] is None else dict(cut_slice=SLICES[sl])
        if poly:
            kw['polytrope'] = True
        T.call()
        GYRECutter.cutter(o, what if isinstance(what, str) else list(what), **kw)
        for a in names:
            ref[a] = ref[a][np.s_[1:] if SLICES[sl] is None else SLICES[sl]]
        for a in ALL:
            ensure(np.array_equal(getattr(o, a), ref[a]), lambda: f'{case}: {a} is {getattr(o, a)!r}, expected {ref[a]!r}')
    ensure(set(vars(o)) == set(ALL) | {'scalar', 'text'} and o.scalar == 5. and o.text == 'abc', lambda: f'{case}: attributes {sorted(vars(o))}')
    for i, a in enumerate(ALL):
        ensure(np.array_equal(src[a], content(i, a, n)), lambda: f'{case}: the stored array of {a} was changed in place')
    return n, tuple(ref[a].shape[0] for a in ALL)


def names(case):
    """Names of groups in any letter case; unknown groups are refused and nothing is cut."""
    from gyre_cutter import GYRECutter
    name, poly = case
    o = aes.Bag(**{a: np.arange(5.) for a in ALL})
    key = name.lower()
    want = LISTS.get((key, True) if poly and (key, True) in LISTS else key if not poly else None)
    T.call()
    try:
        GYRECutter.cutter(o, name, polytrope=poly)
        done = True
    except SystemExit:
        done = False
    ensure(done == (want is not None), lambda: f'{case}: {"accepted" if done else "refused"}')
    for a in ALL:
        k = 4 if want and a in want else 5
        ensure(len(getattr(o, a)) == k, lambda: f'{case}: {a} has {len(getattr(o, a))} points')
    return case, done


UNITS = {'CYC_PER_DAY': 'd$^{-1}$', 'HZ': 'Hz', 'UHZ': r'$\mu$Hz', 'RAD_PER_SEC': 'rad s$^{-1}$'}


def labels(case):
    from gyre_unit_converter import GYREFreqUnitConverter as C
    seq = case
    out = []
    for t in seq:
        T.call()
        g = C.convert(t)
        k = t.decode() if isinstance(t, bytes) else t
        ensure(g == UNITS.get(k, '') and isinstance(g, str), lambda: f'{seq}: {t!r} gives {g!r}')
        out.append(g)
    return tuple(out)


STUB = '''
class TarFit:
    def __init__(self, fn):
        self.fn = fn
    @staticmethod
    def load(fn):
        return TarFit(open(fn).read())
    def lam(self, nu):
        return (self.fn, nu)
'''


def gyre(files, via, fn):
    d = tempfile.mkdtemp(prefix='mc-c22-')
    keep = list(sys.path), os.environ.get('GYRE_DIR'), sys.modules.pop('gyre_tar_fit', None)
    try:
        os.makedirs(f'{d}/g/src/tar')
        os.makedirs(f'{d}/g/data/tar')
        with open(f'{d}/g/src/tar/gyre_tar_fit.py', 'w') as fh:
            fh.write(STUB)
        for f in files:
            with open(f'{d}/g/data/tar/{f}', 'w') as fh:
                fh.write(f)
        os.environ['GYRE_DIR'] = f'{d}/g' if via == 'env' else f'{d}/nowhere'
        from lam_tar_gyre import GyreLambdas
        T.call()
        return fn(GyreLambdas() if via == 'env' else GyreLambdas(base_gyre_dir=f'{d}/g'), d)
    finally:
        sys.path[:] = keep[0]
        os.environ.pop('GYRE_DIR')
        if keep[1] is not None:
            os.environ['GYRE_DIR'] = keep[1]
        sys.modules.pop('gyre_tar_fit', None)
        shutil.rmtree(d)


def tar(m, k):
    return f'tar_fit.m{m:+d}.k{k:+d}.h5'


def eigen(case):
    """The file opened is that of the requested orders, among the files of all other orders."""
    via, top, present = case
    orders = list(itertools.product(range(-top, top + 1), repeat=2))
    have = [(m, k) for m, k in orders if present == 'all' or (present == 'even') == ((m + k) % 2 == 0)]

    def ask(g, d):
        for m, k in orders:
            l = abs(m) + k
            T.call()
            try:
                r = g.get_lambda(l, m, .5 + k)
            except SystemExit:
                r = None
            want = (tar(m, k), .5 + k) if (m, k) in have else None
            ensure(r == want, lambda: f'{case}: l={l}, m={m}: {r} instead of {want}')
        some = [o for o in have if o != (0, 0)]
        for n in range(0, 4):
            for pick in (some[:n], some[-n:] if n else [], some[::max(1, len(some) // 3)][:n]):
                if not pick:
                    continue
                ms, ls, nu = [m for m, _ in pick], [abs(m) + k for m, k in pick], [float(i) for i in range(len(pick))]
                T.call()
                r = g.get_lambda(ls, ms, nu)
                ensure(list(r) == [(tar(*o), float(i)) for i, o in enumerate(pick)], lambda: f'{case}: list {pick}: {r}')
        return len(have)
    return case, gyre([tar(*o) for o in have], via, ask)


def folder(case):
    """Directories without GYRE's tidal files are refused."""
    kind = case
    d = tempfile.mkdtemp(prefix='mc-c22-')
    keep = list(sys.path), sys.modules.pop('gyre_tar_fit', None)
    try:
        os.makedirs(f'{d}/good/src/tar')
        open(f'{d}/good/src/tar/gyre_tar_fit.py', 'w').write(STUB)
        os.makedirs(f'{d}/nosrc')
        os.makedirs(f'{d}/nomod/src/tar')
        from lam_tar_gyre import GyreLambdas
        arg = {'missing': f'{d}/nothing', 'nosrc': f'{d}/nosrc', 'none': None, 'nomod': f'{d}/nomod', 'good': f'{d}/good'}[kind]
        T.call()
        try:
            GyreLambdas(base_gyre_dir=arg)
            ok = True
        except SystemExit:
            ok = False
        ensure(ok == (kind == 'good'), lambda: f'{kind}: {"accepted" if ok else "refused"}')
    finally:
        sys.path[:] = keep[0]
        sys.modules.pop('gyre_tar_fit', None)
        shutil.rmtree(d)
    return kind, ok


def run(ctx):
    build.use(ctx, [])
    b = ctx.thorough
    req = [(r, s) for r in REQ for s in SLICES]
    sp = [(n, (a,)) for n in (1, 2, 3, 7, 8) for a in req]
    sp += [(n, s) for n in (4, 9) for s in itertools.product(req, repeat=2)]
    red = [(r, s) for r in REQ for s in ('default', 'surface', *(('both', 'step') if b else ()))]
    sp += [(9, s) for s in itertools.product(red, repeat=3)]
    ctx.explore('cuts', cuts, sp, 'all sequences of cuts over groups, lists and slices')
    base = sorted({k if isinstance(k, str) else k[0] for k in LISTS})
    nm = [f(x) for x in base for f in (str.lower, str.upper, str.title)] + ['nonsense', '', 'cutter', 'polytropic_cuts_poly', 'mesa']
    nm = [x for x in nm if x.upper() != 'POLYTROPIC_CUTS_POLY' and x != 'cutter']
    ctx.explore('cut-names', names, list(itertools.product(nm, (False, True))), 'group names x polytrope flag')
    words = [*UNITS, *(u.encode() for u in UNITS), 'NONE', b'NONE', '', 'hz', 'CYC', 'ACOUSTIC_DELTA', 'UHZ ', 'value', 'mro', b'']
    ctx.explore('labels', labels, [s for n in (1, 2) for s in itertools.product(words, repeat=n)], 'unit names as text and bytes')
    ctx.explore('eigenvalue-files', eigen, list(itertools.product(('env', 'arg'), range(0, ctx.pick(6, 10)), ('all', 'even', 'odd'))) + [('arg', 12, 'odd'), ('env', 11, 'all')],
                'all mode orders against all or half of the files', chunk=1)
    ctx.explore('folders', folder, ['missing', 'nosrc', 'none', 'nomod', 'good'], 'GYRE directories')
