"""C16 every saved quantity carries its own name and its own triad's value."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import aes, saves
from mc.core import T, digest, ensure

META = {
    'technique': 'bounded exhaustive enumeration of solver results (triad counts, solved patterns, flags, every single changed value) through the real saver; each written file is read back and compared with a reference description of the documented layout',
    'note': 'All scalars of a run are distinguishable, so a swap, shift or truncation of any two is visible; the '
            'non-interference family changes each stored scalar in turn and asks that exactly its own entry changes.',
}


def save(s, poly, name='res'):
    from aesolver.data_handling import NumericalSaver
    d = tempfile.mkdtemp(prefix='mc-c16-')
    try:
        ns = NumericalSaver(name, s, base_dir=d, polytropic=poly)
        ns()
        T.call(2)
        files = [os.path.join(a, f) for a, _, c in os.walk(d) for f in c]
        ensure(len(files) == 1, lambda: f'files written: {files}')
        return saves.read(files[0]), os.path.basename(files[0])
    finally:
        shutil.rmtree(d)


def whole(case):
    n, poly, solved, signs, flags, l, m = case
    s, D, A = saves.run_of(n, solved=solved, poly=poly, tag=n, signs=signs, flags=flags, l=l, m=m)
    got, name = save(s, poly)
    diff = saves.differences(got, (D, A))
    ensure(not diff, diff)
    return digest(sorted((k, np.asarray(v).tobytes()) for k, v in got[0].items())), name


BASE = {}


def bumped(case):
    n, poly, bump = case
    if (n, poly) not in BASE:
        s, _, _ = saves.run_of(n, poly=poly, tag=n)
        BASE[n, poly] = save(s, poly)[0]
    s, D, A = saves.run_of(n, poly=poly, tag=n, bump=[bump])
    got, _ = save(s, poly)
    diff = saves.differences(got, (D, A))
    ensure(not diff, f'with {bump} changed: {diff}')
    changed = sorted(k for k in got[0] if not saves.same(got[0][k], BASE[n, poly][0].get(k)))
    ensure(changed, f'changing {bump} changes nothing in the file')
    return bump, changed


def names(n, poly):
    """Every scalar of the stand-in run that is documented as saved."""
    for i in range(n):
        q3 = list(saves.FREQS) + ['spin', 'norm', 'n']
        q1 = ['rotation', 'k', 'kn', 'eta', 'wu']
        if not poly:
            q3 += ['nad ' + f for f in saves.FREQS] + ['quality', 'rates']
            q3 += [k for _, k, w in saves.STAT if w]
            q1 += [k for _, k, w in saves.STAT if not w]
        for q in q3:
            yield from ((q, i, k) for k in range(3))
        yield from ((q, i, 0) for q in q1)
        yield from (('terms', i, k) for k in range(4))


def place(case):
    """The file appears inside the requested folders and nowhere else, whatever was saved there before."""
    from aesolver.data_handling import NumericalSaver
    runs, fmt = case
    d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c16-'))
    old = os.getcwd()
    os.makedirs(f'{d}/work')
    os.chdir(f'{d}/work')
    want = {}
    try:
        for tag, (base, sub, extra, name, poly) in enumerate(runs):
            s, D, A = saves.run_of(1, poly=poly, tag=tag)
            base, sub = base.replace('@', d), sub if sub is None else sub.replace('@', d)
            NumericalSaver(name, s, base_dir=base, save_dir=sub, extra_specifier=extra, polytropic=poly, initial_save_format=fmt)()
            T.call()
            l, m = A['quantum_numbers', 'l'], A['quantum_numbers', 'm']
            file = f'{name}_k_{"_".join(str(abs(a) - abs(b)) for a, b in zip(l, m))}_m_{"_".join(map(str, m))}.h5'
            top = os.path.normpath(os.path.join(os.getcwd(), base, 'hdf5_output', (sub or '').lstrip('/')))
            have = [os.path.join(a, f) for a, _, c in os.walk(d) for f in c]
            if extra:                                  # open how the extra specifier enters the path
                new = [f for f in have if f not in want or not saves.differences(saves.read(f), (D, A))]
                ensure(len(new) == 1 and new[0].startswith(top) and extra.strip('/') in new[0][len(top):] and os.path.basename(new[0]).endswith(file),
                       lambda: f'{case}: save {tag} is in {new}, expected below {top}')
                want[new[0]] = D, A
            else:
                want[os.path.join(top, file)] = D, A
            ensure(sorted(have) == sorted(want), lambda: f'{case}: after save {tag} there are {sorted(have)}, expected {sorted(want)}')
        for f, w in want.items():
            diff = saves.differences(saves.read(f), w)
            ensure(not diff, lambda: f'{case}: {f}: {diff}')
        return sorted(os.path.relpath(f, d) for f in want)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def run(ctx):
    aes.use(ctx)
    b3 = list(itertools.product((1, -1), repeat=3))
    tf = (False, True)
    pat = []
    for n in range(1, ctx.pick(4, 5) + 1):
        for solved in itertools.product(tf, repeat=n):
            for poly in tf:
                if poly and not all(solved):
                    continue
                pat.append((n, poly, solved, None, None, None, None))
    ctx.explore('solved-patterns', whole, pat, 'triad counts x solved/unsolved patterns x polytropic or not')
    one = list(itertools.product(b3, tf, tf))           # signs, linearly stable, hyperbolic
    combos = list(itertools.product(one, repeat=2))
    if not ctx.thorough:
        combos = [c for c in combos if c[0] in one[::5] or c[1][0] != c[0][0]]
    ctx.explore('flags', whole, [(len(c), False, tuple(x[1] for x in c), tuple(x[0] for x in c),
                                  tuple(x[1:] for x in c), None, None)
                                 for c in combos + [(x,) for x in one]],
                'pairs of triads x signs of the driving rates x both stability verdicts')
    pats = {'all': lambda i, n: True, 'none': lambda i, n: False, 'third': lambda i, n: i % 3 == 1, 'first': lambda i, n: i == 0, 'last': lambda i, n: i == n - 1,
            'not first': lambda i, n: i > 0, 'half': lambda i, n: i >= n // 2}
    ctx.explore('many', whole, [(n, p, tuple(f(i, n) for i in range(n)), None, None, None, None) for n in ctx.pick((9, 17, 64, 250), (8, 9, 10, 16, 17, 33, 64, 65, 129, 250, 1100))
                                for k, f in pats.items() for p in tf if not p or k == 'all'], 'runs of many triads')
    lm = [(l, m) for l in range(0, 4) for m in range(-l, l + 1)]
    trip = list(itertools.product(lm, repeat=3)) if ctx.thorough else \
        [t for t in itertools.product(lm, repeat=3) if sum(lm.index(x) * w for x, w in zip(t, (1, 3, 5))) % 7 == 0]
    ctx.explore('identifications', whole, [(1, p, (True,), None, None, tuple(x[0] for x in t), tuple(x[1] for x in t))
                                           for t in trip for p in tf], 'mode identifications')
    ctx.explore('one-change', bumped, [(n, p, b) for n in ctx.pick((1, 3), (1, 2, 3, 4)) for p in tf for b in names(n, p)],
                'each stored scalar changed on its own')
    bases, subs = ('.', './', 'rel', 'rel/', '../up', '@', '@/deep/er/'), ('', None, 'sub', 'sub/', '@/abs', 'a/b', 'a/b/', 'sub.d')
    one = [(b, u, x, n, p) for b in bases for u in subs for x in ('', 'x', '_y/') for n in ('res', 'r.s', '0') for p in tf]
    ctx.explore('places', place, [((o,), f) for o in one for f in ('hdf5', 'HDF5')], 'folders, sub-folders, specifiers and names')
    few = [(b, u, '', n, p) for b in ('.', 'rel') for u in ('', 'sub', 'a/b/') for n in ('res', 'two') for p in tf]
    ctx.explore('shared-places', place, [((a, c), 'hdf5') for a in few for c in few if a[:4] != c[:4] or a[4] == c[4]],
                'pairs of saves to the same or other places')
