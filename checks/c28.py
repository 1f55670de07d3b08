"""C28 TAR validity zones partition the star."""
import itertools

import numpy as np

from mc import aes
from mc.core import Fail, T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of all buoyancy-frequency patterns on the real zone finder of both solver classes',
    'note': 'All valid/invalid patterns over stars of up to 11 (14) cells and all three-level patterns of up to 7 (9) '
            'cells, for several frequency hierarchies and units. Uniform stars that are refused with PhysicsError are outside.',
}
HIER = {   # rotation, mode angular frequencies (rad/s): which of the two conditions is the stricter one
    'modes': (1e-5, (5e-5, 3e-5, 2.1e-5)),
    'rotation': (4e-5, (5e-5, 2e-5, 2.9e-5)),
    'second': (1e-6, (1e-5, 6e-5, -4.8e-5)),
    'none': (0., (2e-5, 1.2e-5, .9e-5)),
}


def levels(h):
    rot, om = HIER[h]
    a, b = 20 * abs(rot), 10 * max(map(abs, om))
    lo, hi = sorted((a, b))
    return [0., (lo + hi) / 2, 1.3 * hi, None, .99 * hi, 1.01 * hi]


def solver(which):
    import aesolver.solver as S
    if which == 'profile':
        from aesolver.solver.quadratic_profile import QuadraticAEProfileSolver as C
    else:
        from aesolver.solver.quadratic_solver import QuadraticAESolver as C
    return object.__new__(C)


def handler(h, unit, q=1e4):
    from aesolver.frequency_handling import FH
    rot, om = HIER[h]
    base = dict(freq_units=b'RAD_PER_SEC', freq_frame=b'COROT_O', G=1., M_star=1., R_star=1.)
    fh = FH(*[dict(base, freq=np.array([o + 0j]), m=1, Omega_rot_dim=np.array([rot])) for o in om], my_freq_units=unit)
    fh.set_mode_nonadiabatic_info(*[dict(base, freq=np.array([o + 1j * o / q]), m=1) for o in om])
    return fh


def zones(case):
    which, h, unit, pat = case
    lv = levels(h)
    n2 = np.array([-1e-9 if lv[p] is None else lv[p] ** 2 for p in pat])
    rot, om = HIER[h]
    N = np.array([-1. if lv[p] is None else lv[p] for p in pat])
    want = (N > 20 * abs(rot)) & (N > 10 * max(map(abs, om)))
    s = solver(which)
    s._coupler = aes.Bag(_freq_handler=handler(h, unit), _brunt_N2_profile=n2)
    T.call()
    from aesolver.solver.quadratic_solver import PhysicsError as P1
    from aesolver.solver.solver_base_classes import PhysicsError as P2
    try:
        with np.errstate(invalid='ignore'):
            valid, ind, vm, nvm, full = s.get_masking_info_tar_validity()
    except (P1, P2):
        ensure(want.all() or not want.any(), lambda: f'pattern {want.astype(int)} refused')
        return 'refused'
    n = len(pat)
    ensure(np.array_equal(np.asarray(valid), want), lambda: f'cells judged {np.asarray(valid).astype(int)}, '
                                                           f'hierarchy holds in {want.astype(int)}')
    ensure(bool(full) == (not want.any()), lambda: f'fully invalid {full} for {want.astype(int)}')
    if full:
        ensure([tuple(x) for x in ind] == [(0, n - 1)] and [list(range(n))[x] for x in nvm] == [list(range(n))],
               lambda: f'fully invalid star: {ind} {nvm}')
        return 'invalid'
    cells = np.arange(n)
    count = np.zeros(n, int)
    for masks, flag in ((vm, True), (nvm, False)):
        last = -1
        for m in masks:
            c = cells[m].ravel()
            ensure(c.size > 0, lambda: f'{want.astype(int)}: empty zone {m}')
            ensure((want[c] == flag).all(), lambda: f'{want.astype(int)}: zone {m} listed as {"valid" if flag else "invalid"}')
            ensure(c[0] > last, lambda: f'{want.astype(int)}: zones {masks} not from the centre outwards')
            last = c[-1]
            count[c] += 1
    ensure((count == 1).all(), lambda: f'{want.astype(int)}: cells covered {count} times by {vm} and {nvm}')
    ensure(len(ind) == len(nvm), lambda: f'{len(ind)} index pairs for {len(nvm)} zones')
    for (a, b), m in zip(ind, nvm):
        c = cells[m].ravel()
        ensure(a == c[0] and b == min(c[-1] + 1, n - 1), lambda: f'{want.astype(int)}: pair {(a, b)} for zone {m}')
    return len(vm), len(nvm), bool(want[0]), bool(want[-1])


def slow(case):
    """Modes off the slow manifold are refused, whatever the zones."""
    which, h, unit, pat, q = case
    from aesolver.solver.quadratic_solver import PhysicsError as P1
    from aesolver.solver.solver_base_classes import PhysicsError as P2
    lv = levels(h)
    s = solver(which)
    s._coupler = aes.Bag(_freq_handler=handler(h, unit, q), _brunt_N2_profile=np.array([lv[p] ** 2 for p in pat]))
    T.call()
    try:
        s.get_masking_info_tar_validity()
        ok = True
    except (P1, P2):
        ok = False
    ensure(ok == (abs(q) > 10), lambda: f'quality factors {q}: accepted {ok}')
    return ok


def run(ctx):
    aes.use(ctx)
    import aesolver.solver.quadratic_profile  # noqa: F401
    import aesolver.solver.quadratic_solver  # noqa: F401
    ctx.explore('binary', zones,
                [(w, h, u, p) for w in ('solver', 'profile') for h in HIER for u in ('HZ', 'RAD_PER_SEC')
                 for n in range(1, ctx.pick(10, 13)) for p in itertools.product((0, 2), repeat=n)],
                'all valid/invalid patterns')
    ctx.explore('binary-long', zones,
                [(w, 'modes', 'UHZ', p) for w in ('solver', 'profile')
                 for p in itertools.product((1, 5), repeat=ctx.pick(11, 14))], 'all patterns of longer stars')
    ctx.explore('levels', zones,
                [(w, h, u, p) for w in ('solver', 'profile') for h in HIER for u in ('CPD',)
                 for n in range(2, ctx.pick(6, 8)) for p in itertools.product((0, 1, 2, 3), repeat=n)]
                + [(w, h, 'HZ', p) for w in ('solver', 'profile') for h in HIER
                   for n in range(2, ctx.pick(6, 8)) for p in itertools.product((3, 4, 5), repeat=n)],
                'patterns with cells between the two hierarchies, just around the bound, and unstable cells')
    ctx.explore('slow-manifold', slow,
                [(w, h, 'HZ', p, q) for w in ('solver', 'profile') for h in HIER for q in (5., 9.9, 10.1, -9.9, -10.1, 1e3)
                 for p in ((0, 2), (2, 0), (0, 2, 0), (2, 0, 2))], 'refusal off the slow manifold')
    blocks = [b for k in range(1, ctx.pick(6, 8)) for b in itertools.product((1, 2, 257, 1000), repeat=k)] if ctx.tier == 'thorough' else \
        [b for k in range(1, 6) for b in itertools.product((1, 2, 1000), repeat=k)]
    ctx.explore('long', zones,
                [(w, 'modes', 'HZ', tuple(x for i, k in enumerate(b) for x in ((first + i) % 2 * 2,) * k))
                 for w in ('solver', 'profile') for b in blocks for first in (0, 1)],
                'alternating zones of one, two or a thousand cells')
