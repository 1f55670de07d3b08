"""C06 combination sets: every combination exactly once, cardinality = length."""
import itertools

import numpy as np

from mc import build
from mc.core import Fail, T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of all input sets over a small universe on the real classes',
    'note': 'Exhaustive over all ordered inputs from universes of up to 6 integers, strings and floats, several '
            'container kinds; oracle is brute-force enumeration. Inputs whose element order differs from CPython '
            'set order are a recorded known finding of the symmetric product.',
}

CONT = {'list': list, 'tuple': tuple, 'array': np.array,
        'range': lambda x: range(x[0], x[-1] + 1) if x else range(0)}


def single(case):
    from py_combinations import SingleSetCombos
    elems, cont = case
    o = SingleSetCombos(CONT[cont](list(elems)))
    T.call()
    got = [tuple(x) for x in o.l]
    want = list(itertools.combinations(elems, 2))
    ensure(sorted(map(sorted, got)) == sorted(map(sorted, want)),
           lambda: f'pairs of {elems}: got {got}, expected each of {want} once')
    ensure(o.c == len(o.l), lambda: f'cardinality {o.c} of {len(o.l)} pairs of {elems}')
    return got, o.c


def cart(case):
    from py_combinations import CartesianCombos
    a, b, cont = case
    o = CartesianCombos(CONT[cont](list(a)), CONT[cont](list(b)))
    T.call()
    got = [tuple(x) for x in o.l]
    want = [(x, y) for x in a for y in b]
    ensure(sorted(got) == sorted(want), lambda: f'{a} x {b}: got {got}, expected {want}')
    ensure(o.c == len(o.l), lambda: f'cardinality {o.c} of {len(o.l)} pairs of {a} x {b}')
    return got, o.c


def sym(case):
    from py_combinations import SymmetricProductCombos
    a, b, cont, diag = case
    ca, cb = CONT[cont](list(a)), CONT[cont](list(b))
    o = SymmetricProductCombos(ca, cb, include_diagonal=diag)
    T.call()
    got = [tuple(x) for x in o.l]
    want = {tuple(sorted((x, y))) for x in a for y in b if diag or x != y}
    key = sorted(tuple(sorted(x)) for x in got)
    ensure(set(key) == want, lambda: f'{a} * {b} diag={diag}: got {sorted(got)}, expected {sorted(want)}')
    ensure(len(key) == len(want), lambda: f'duplicate pairs: {a} * {b} diag={diag}: {sorted(got)}')
    ensure(o.c == len(o.l), lambda: f'cardinality {o.c} of {len(o.l)} pairs: {a} * {b} diag={diag}')
    return got, o.c


def subsets(u):
    return [s for k in range(len(u) + 1) for s in itertools.combinations(u, k)]


def run(ctx):
    build.use(ctx)
    n = ctx.pick(5, 7)
    u = tuple(range(n))
    ss = subsets(u)
    perms = [p for k in range(4) for p in itertools.permutations((0, 3, 5, 9), k)]
    ctx.explore('single', single,
                [(s, c) for s in subsets(tuple(range(9))) for c in ('list', 'tuple')]
                + [(p, 'list') for p in perms]
                + [(s, c) for s in subsets((-2.5, 0.5, 3.0, 7.25)) for c in ('list', 'array')]
                + [(tuple(range(a, b)), 'range') for a in range(0, 40, 3) for b in range(a, a + 12)],
                'all subsets of 9 integers, permuted inputs, floats, ranges')
    ctx.explore('cartesian', cart,
                [(a, b, c) for a in ss for b in ss for c in ('list', 'tuple')]
                + [(a, b, 'list') for a in perms for b in perms]
                + [(tuple(range(a, a + k)), tuple(range(b, b + j)), 'range')
                   for a in (0, 7) for k in range(1, 5) for b in (0, 3, 30) for j in range(1, 5)],
                'all pairs of subsets, permuted inputs, ranges')
    ctx.explore('symmetric', sym,
                [(a, b, c, d) for a in ss for b in ss for c in ('list', 'tuple') for d in (False, True)]
                + [(tuple(range(a, a + k)), tuple(range(b, b + j)), 'range', d) for d in (False, True)
                   for a in range(0, 8) for k in range(0, 8 - a) for b in range(0, 8) for j in range(0, 8 - b)],
                'all pairs of ascending subsets of a small universe, both diagonal options')
    ctx.explore('symmetric-order', sym,
                [(a, b, 'list', d) for d in (False, True)
                 for k in range(1, 4) for j in range(1, 4)
                 for a in itertools.permutations((0, 1, 2), k) for b in itertools.permutations((0, 1, 2), j)],
                'inputs in any element order')
    ctx.explore('symmetric-range', sym,
                [(tuple(range(a, a + k)), tuple(range(b, b + j)), 'range', d) for d in (False, True)
                 for a in (6, 14, 15, 30) for b in (6, 15, 22, 31)
                 for k in (1, 2, 3, 5, 11) for j in (1, 2, 4, 12)],
                'ranges of radial orders as used for daughter modes')
