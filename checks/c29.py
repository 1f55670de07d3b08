"""C29 complex data survive splitting into real and imaginary parts."""
import itertools

import numpy as np

from mc import build
from mc.core import T, digest, ensure

META = {
    'technique': 'bounded exhaustive enumeration of all arrays over a value alphabet x memory layouts x dimensioning expressions on the real recombination functions',
    'note': 'Values include signed zeros, infinities and NaN; single records (as read from attributes) and one-dimensional arrays.',
}
VALS = [0., -0., 1., -2.5, 1e300, 5e-324, np.inf, np.nan]


def bits(a):
    return np.ascontiguousarray(a).view(np.uint64 if np.asarray(a).dtype == float else np.uint8).tolist()


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and ((a == b) & (np.signbit(a) == np.signbit(b)) | np.isnan(a) & np.isnan(b)).all()


def lay(re, im, layout):
    """Structured array holding the parts, and the raw buffer it lives in."""
    n = len(re)
    dt = {'plain': [('re', 'f8'), ('im', 'f8')], 'swapped': [('im', 'f8'), ('re', 'f8')], 'big': [('re', '>f8'), ('im', '>f8')],
          'padded': [('x', 'i4'), ('re', 'f8'), ('y', 'f4'), ('im', 'f8')], 'single': [('re', 'f4'), ('im', 'f4')],
          'strided': [('re', 'f8'), ('im', 'f8')], 'reversed': [('re', 'f8'), ('im', 'f8')]}[layout]
    if layout == 'strided':
        buf = np.zeros(2 * n + 1, dt)
        v = buf[1::2][:n]
    elif layout == 'reversed':
        buf = np.zeros(n, dt)
        v = buf[::-1]
    else:
        buf = np.zeros(n, dt)
        v = buf
    v['re'], v['im'] = re, im
    return v, buf


def dims(n):
    yield 'one', 1
    yield 'float', 2.5
    yield 'np', np.float64(-.5)
    yield 'zero-d', np.array(4.)
    yield 'array', np.linspace(1., -2., n) if n else np.zeros(0)


def structured(case):
    from carr_conv import re_im
    re, im, layout = case
    v, buf = lay(re, im, layout)
    out = []
    for nm, d in dims(len(re)):
        raw = buf.tobytes()
        with np.errstate(all='ignore'):
            T.call()
            g = re_im(v, d)
            wr, wi = np.array(v['re']) * d, np.array(v['im']) * d
        ensure(isinstance(g, np.ndarray) and g.dtype == np.complex128 and g.shape == (len(re),), lambda: f'{case} {nm}: {g!r}')
        ensure(same(g.real, wr) and same(g.imag, wi), lambda: f'{case} x {d!r}: {g!r}')
        ensure(buf.tobytes() == raw, lambda: f'{case}: input changed')
        if nm == 'one' and layout != 'single':
            ensure(same(g.real, re) and same(g.imag, im), lambda: f'{case}: does not give back the data: {g!r}')
        g[:] = 7
        ensure(buf.tobytes() == raw, lambda: f'{case}: result shares memory with the input')
        out.append((nm, wr.tobytes(), wi.tobytes()))
    return digest(out)


def record(case):
    """One stored record, alone or taken out of an array."""
    from carr_conv import re_im
    re, im, layout, how = case
    v, buf = lay([re, 9.], [im, -9.], layout)
    rec = {'item': v[0], 'slice': v[:1], 'void': v.copy()[0]}[how]
    raw = buf.tobytes()
    for nm, d in (('one', 1), ('float', 2.5), ('arr', np.array([3.]))):
        with np.errstate(all='ignore'):
            T.call()
            g = re_im(rec, d)
            f = float(np.ravel(d)[0])
            wr, wi = np.array([float(v['re'][0]) * f]), np.array([float(v['im'][0]) * f])
        ensure(g.dtype == np.complex128 and g.shape == (1,) and same(g.real, wr.astype(float)) and same(g.imag, wi.astype(float))
               or layout == 'single' and np.allclose(g, wr + 1j * wi, rtol=1e-6, equal_nan=True),
               lambda: f'{case} x {d!r}: {g!r}, expected {wr}, {wi}')
    ensure(buf.tobytes() == raw, lambda: f'{case}: neighbours changed')
    return digest((re, im))


def parts(case):
    from carr_conv import re_im_parts
    re, im, layout, check = case
    n = len(re)
    r, i = np.array(re, float), np.array(im, float)
    if layout == 'strided':
        br, bi = np.zeros(2 * n), np.zeros(3 * n)
        br[::2], bi[::3] = r, i
        r, i = br[::2], bi[::3]
    elif layout == 'reversed':
        r, i = r[::-1].copy()[::-1], i[::-1].copy()[::-1]
    elif layout == 'shared':
        b = np.array([re, im], float)
        r, i = b[0], b[1]
    elif layout == 'views':
        c = np.array(re, complex)
        c.imag = im
        r, i = c.real, c.imag
    elif layout == 'big':
        r, i = r.astype('>f8'), i.astype('>f8')
    a, b = r.copy(), i.copy()
    T.call()
    g = re_im_parts(r, i, check) if check is not None else re_im_parts(r, i)
    ensure(g.dtype == np.complex128 and g.shape == (n,) and same(g.real, re) and same(g.imag, im), lambda: f'{case}: {g!r}')
    g[:] = 3
    ensure(same(r, a) and same(i, b), lambda: f'{case}: inputs changed')
    return digest((re, im))


def long(case):
    """Arrays of practical size."""
    n, layout, shift, which = case
    v = VALS[2:4] + [3.5e-9, -7e12, 0., 1e-300, 2., -1.] + (VALS if which == 'special' else [])
    re, im = [v[(i * i + shift) % len(v)] + (i if which == 'ramp' else 0) for i in range(n)], [v[(3 * i + shift) % len(v)] for i in range(n)]
    if which == 'real':
        im = [0.] * n
    elif which == 'imaginary':
        re = [-0.] * n
    return (parts((re, im, layout, bool(shift % 2))) if layout in ('shared', 'views') else structured((re, im, layout)))


def history(case):
    """Recombinations one after the other do not disturb each other's results."""
    from carr_conv import re_im, re_im_parts
    kept = []
    for k, (n, how) in enumerate(case):
        re, im = [k + .5 + j for j in range(n)], [-k - j * 2. for j in range(n)]
        T.call()
        g = re_im_parts(np.array(re), np.array(im)) if how == 'parts' else re_im(lay(re, im, 'plain')[0], 1)
        kept.append((g, re, im))
        for h, a, b in kept:
            ensure(same(h.real, a) and same(h.imag, b), lambda: f'{case}: earlier result changed to {h!r}')
    return case


def run(ctx):
    build.use(ctx, [])
    b = ctx.thorough
    layouts = ['plain', 'swapped', 'big', 'padded', 'single', 'strided', 'reversed']
    arr = [(x, y) for n in (0, 1) for x in itertools.product(VALS, repeat=n) for y in itertools.product(VALS, repeat=n)]
    v2 = VALS if b else VALS[1:4] + VALS[6:]
    arr += [(x, y) for x in itertools.product(v2, repeat=2) for y in itertools.product(v2, repeat=2)]
    v3 = [1., -2., -0.] if b else [1., -2.]
    arr += [(x, y) for n in (3, 4) for x in itertools.product(v3, repeat=n) for y in itertools.product(v3, repeat=n)]
    ctx.explore('structured', structured, [(x, y, l) for x, y in arr for l in layouts], 'every array of up to 4 values x layouts x dimensioning expressions')
    ctx.explore('record', record, list(itertools.product(VALS, VALS, layouts, ('item', 'slice', 'void'))), 'single records')
    ctx.explore('parts', parts, [(x, y, l, c) for x, y in arr for l in ('plain', 'strided', 'reversed', 'shared', 'views', 'big')
                                 for c in (None, False, True)], 'separate real and imaginary arrays')
    ctx.explore('long', long, list(itertools.product(ctx.pick((5, 8, 17, 64, 1000, 4097), (5, 6, 7, 8, 9, 16, 17, 63, 64, 65, 257, 1000, 1024, 4097, 70001)), [*layouts, 'shared', 'views'],
                                                     (0, 1), ('special', 'ramp', 'real', 'imaginary'))), 'arrays of practical size', chunk=20)
    ops = [(n, h) for n in (0, 1, 3) for h in ('parts', 'struct')]
    ctx.explore('history', history, [s for n in range(1, ctx.pick(4, 6)) for s in itertools.product(ops, repeat=n)], 'sequences of recombinations')
