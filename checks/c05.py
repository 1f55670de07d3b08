"""C05 pairing functions: injective, invertible, symmetric (exhaustive integer windows)."""
import itertools

import numpy as np

from mc import build
from mc.core import Fail, T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of all pairs/codes in integer windows on the real functions',
    'note': 'Exhaustive within windows of 80x80 (quick) / 250x250 (thorough) pairs per lowest integer, and '
            'windows around large magnitudes up to 1e6; trusts Python integers as oracle.',
}


def fns():
    import pairing_functions as pf
    return {'cantor': (pf.cantor_pair, pf.invert_cantor_pair, False),
            'symmetric': (pf.symmetric_pair, pf.invert_symmetric_pair, True),
            'xie': (pf.xie_symmetric_pair, pf.invert_xie_symmetric_pair, True)}


def enc(kind, pair, low, style):
    f = fns()[kind][0]
    T.call()
    arg = {'tuple': tuple(pair), 'array': np.array(pair), 'list': list(pair), 'int32': np.array(pair, dtype=np.int32)}[style]
    lo = low if style == 'array' else int(low)
    v = f(arg, lo)
    ensure(v == int(v), lambda: f'{kind}{pair}: code {v!r} is not an integer')
    return int(v)


def dec(kind, code, low, style):
    f = fns()[kind][1]
    T.call()
    lo = {'array': np.int64, 'int32': np.int32}.get(style, int)(low)
    r = f(int(code), lo)
    r = [x for x in r]
    ensure(len(r) == 2 and all(x == int(x) for x in r), lambda: f'{kind}: decoded {r!r}')
    return tuple(int(x) for x in r)


def canon(sym, pair):
    return tuple(sorted(pair)) if sym else tuple(pair)


def window(case):
    """All pairs of one window: injective, symmetric, inverse returns the pair."""
    kind, low, base, size, style = case
    sym = fns()[kind][2]
    seen = {}
    rng = range(low + base, low + base + size)
    for a in rng:
        # pairs (a, b) of the window and (a, low): far off-diagonal codes as well
        for b in itertools.chain(rng, (low, low + 1)):
            c = enc(kind, (a, b), low, style)
            ensure(c >= 0, lambda: f'{kind}({a},{b};low={low}) = {c} is negative')
            key = canon(sym, (a, b))
            T.seen((kind, low, key, c))
            old = seen.setdefault(c, key)
            ensure(old == key, lambda: f'{kind}: {old} and {key} both map to {c} (low={low})')
            if sym:
                c2 = enc(kind, (b, a), low, style)
                ensure(c2 == c, lambda: f'{kind}: ({a},{b})->{c} but ({b},{a})->{c2} (low={low})')
            back = dec(kind, c, low, style)
            ensure(canon(sym, back) == key, lambda: f'{kind}: {key} -> {c} -> {back} (low={low})')
    return sorted(seen)[:3], len(seen), max(seen)


def onto(case):
    """All codes of a range decode to distinct admissible pairs that encode to them."""
    kind, low, start, n, style = case
    sym = fns()[kind][2]
    f0 = min(enc(kind, (low + a, low + b), low, style) for a in range(3) for b in range(3))
    seen = set()
    for c in range(f0 + start, f0 + start + n):
        p = dec(kind, c, low, style)
        ensure(min(p) >= low, lambda: f'{kind}: code {c} decodes to {p}, below lowest integer {low}')
        k = canon(sym, p)
        ensure(k not in seen, lambda: f'{kind}: {k} decoded from two codes (low={low})')
        seen.add(k)
        T.seen((kind, low, k, c, 'inv'))
        c2 = enc(kind, p, low, style)
        ensure(c2 == c, lambda: f'{kind}: code {c} -> {p} -> {c2} (low={low})')
    return len(seen), sorted(seen)[:2]


def run(ctx):
    build.use(ctx)
    size = ctx.pick(80, 250)
    lows = (-7, -1, 0, 1, 5, 30)
    cases = []
    for kind in ('cantor', 'symmetric', 'xie'):
        for style in ('tuple', 'array'):
            for low in lows:
                cases.append((kind, low, 0, size, style))
            for base in (1000, 65530, 99990, 10**6):
                cases.append((kind, 0, base, ctx.pick(8, 24), style))
        for style in ('list', 'int32'):
            cases += [(kind, low, base, ctx.pick(8, 24), style) for low in (-7, 0, 1) for base in (0, 180, 30000, 65530, 10**6)]
    ctx.explore('window', window, cases, 'all pairs of each window: injectivity, symmetry, inverse')
    cases = [(kind, low, start, ctx.pick(900, 4000), style)
             for kind in ('cantor', 'symmetric', 'xie') for style in ('tuple', 'array')
             for low in (-7, 0, 1, 30) for start in (0, 10**6, 10**9)]
    ctx.explore('onto', onto, cases, 'all codes of each range: inverse is admissible, distinct, encodes back')
    ctx.assumptions += ['integers up to about 1e6 above the lowest integer (radial orders are below 1e3)']
