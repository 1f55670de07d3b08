"""C18 inlists yield the typed user settings over the defaults."""
import itertools
import os
import shutil
import tempfile

from mc import build
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of inlist texts (value forms x layouts x orders x default/user presence, all small TOML tables) on the real readers, against a reference reading of the documented format',
    'note': 'Grammar: one "name = value" per line, % comments, values without blanks outside quotes (blanks inside '
            'lists and tuples are refused by the reader and are outside).',
}

FORMS = [  # text, value
    ('0', 0), ('7', 7), ('-3', -3), ('1000000000000', 10 ** 12), ('+4', 4),
    ('8.0', 8.), ('-0.5', -.5), ('.5', .5), ('1.', 1.), ('1e5', 1e5), ('1E5', 1e5), ('2e-5', 2e-5), ('-1e5', -1e5),
    ('-2E-3', -2e-3), ('2.5e-3', 2.5e-3), ('1e+5', 1e5), ('1.5e+2', 150.), ('0.0', 0.),
    ('True', True), ('TRUE', True), ('False', False), ('FALSE', False), ('None', None),
    ("'word'", 'word'), ('"word"', 'word'), ("'two words'", 'two words'), ("''", ''), ('""', ''), ("' edge '", ' edge '),
    ("'True'", 'True'), ("'False'", 'False'), ("'None'", 'None'), ("'8'", '8'), ("'1.5'", '1.5'), ("'1e5'", '1e5'),
    ("'[1,2]'", '[1,2]'), ("'(1,2)'", '(1,2)'), ("'a[0]'", 'a[0]'), ("'a = b'", 'a = b'), ("'50% of'", '50% of'),
    ("'/path/to/some where.h5'", '/path/to/some where.h5'), ('"it\'s"', "it's"), ("'say \"x\"'", 'say "x"'),
    ('"say \'x\'"', "say 'x'"), ('"\'x\' said"', "'x' said"), ("'../up_1-2+3'", '../up_1-2+3'),
    ('[]', []), ('[1]', [1]), ('[2,1,1]', [2, 1, 1]), ('[8.0,-7.5,1e-3]', [8., -7.5, 1e-3]), ('[-1,0]', [-1, 0]),
    ("['a','b']", ['a', 'b']), ('["a"]', ['a']), ('[True,False]', [True, False]), ('[True,True]', [True, True]),
    ('[False]', [False]), ('[None,1]', [None, 1]), ('[None]', [None]), ("['True',True]", ['True', True]),
    ('[1,True]', [1, True]), ('[[1,2],[3]]', [[1, 2], [3]]), ('[(1,2),(3,4)]', [(1, 2), (3, 4)]),
    ('()', ()), ('(1,)', (1,)), ('(1,2)', (1, 2)), ('(1.5,-2)', (1.5, -2)), ("('a','b')", ('a', 'b')),
    ("('a',1)", ('a', 1)), ('(True,False)', (True, False)), ('(None,2)', (None, 2)), ('([1],[2])', ([1], [2])),
]
LAYOUT = ['{k}={v}', '{k} = {v}', '    {k} =   {v}   ', '\t{k}\t=\t{v}', '{k} = {v} % comment', '{k} = {v}% 7 = 8',
          "% don't read = 3\n{k} = {v}", '\n\n  {k} = {v}\n\n', '%%%%%%\n% x %\n%%%%%%\n{k} = {v}\n% z = 1 %']


def strict(a, b):
    """Equal value and type, at every depth."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(map(str, sorted(a, key=str))) == list(map(str, sorted(b, key=str))) and all(strict(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(strict, a, b))
    return a == b


def read(user, default, name='run'):
    from inlist_handler import InlistHandler
    d = tempfile.mkdtemp(prefix='mc-c18-')
    try:
        for sub, nm, text in (('user_input', name + '.in', user), ('defaults', name + '.defaults', default)):
            os.makedirs(f'{d}/{sub}')
            with open(f'{d}/{sub}/{nm}', 'w') as fh:
                fh.write(text)
        T.call()
        return InlistHandler.get_inlist_values(f'{d}/user_input/{name}.in')
    finally:
        shutil.rmtree(d)


def one(case):
    text, layout, end = case
    val = dict(FORMS)[text]
    body = LAYOUT[layout].format(k='my_key', v=text) + end
    got = read(body, '')
    ensure(strict(got, {'my_key': val}), lambda: f'{body!r} read as {got!r}')
    got = read('', body)
    ensure(strict(got, {'my_key': val}), lambda: f'default {body!r} read as {got!r}')
    return repr(val)


def pairs(case):
    """Two settings one after the other: no value leaks into the next line."""
    (ta, tb), (la, lb) = case
    body = LAYOUT[la].format(k='first', v=ta) + '\n' + LAYOUT[lb].format(k='second', v=tb) + '\n'
    got = read(body, '')
    want = {'first': dict(FORMS)[ta], 'second': dict(FORMS)[tb]}
    ensure(strict(got, want), lambda: f'{body!r} read as {got!r}')
    return repr(want)


def merge(case):
    """Every setting is in the defaults or not, in the user's inlist or not, in every order."""
    pres, order_u, order_d, name = case
    keys = ['aa', 'b_2', 'aa_long']
    dv = {'aa': ('1', 1), 'b_2': ("'def'", 'def'), 'aa_long': ('[1.5]', [1.5])}
    uv = {'aa': ('2.5', 2.5), 'b_2': ('None', None), 'aa_long': ('False', False)}
    dk = [keys[i] for i in order_d if pres[i] & 1]
    uk = [keys[i] for i in order_u if pres[i] & 2]
    got = read('\n'.join(f'{k} = {uv[k][0]}' for k in uk), '\n'.join(f'{k} = {dv[k][0]}' for k in dk), name)
    want = {k: dv[k][1] for k in dk}
    want.update({k: uv[k][1] for k in uk})
    ensure(strict(got, want), lambda: f'defaults {dk}, user {uk} ({name}): {got!r}')
    return repr(sorted(want.items(), key=str))


LEAF = [('1', 1), ('0', 0), ('false', False), ("''", ''), ('[]', []), ('2.5', 2.5), ('true', True), ('[1, 2]', [1, 2])]


def trees(depth, keys, leaves):
    """All TOML tables (as nested tuples) up to the given depth; 'T' nodes hold sub-trees."""
    vals = [None] + list(range(leaves))
    if depth > 0:
        vals = vals + [('T', t) for t in trees(depth - 1, keys, leaves)]
    for pick in itertools.product(vals, repeat=len(keys)):
        yield tuple((k, v) for k, v in zip(keys, pick) if v is not None)


def render(tree, inline, path=()):
    """TOML text of a tree, with inline tables or table headers, and its expected value."""
    lines, subs, want = [], [], {}
    for k, v in tree:
        if isinstance(v, tuple):
            if inline:
                def lit(t):
                    return '{' + ', '.join(f'{a} = {lit(b[1]) if isinstance(b, tuple) else LEAF[b][0]}' for a, b in t) + '}'
                lines.append(f'{k} = {lit(v[1])}')
                want[k] = render(v[1], inline)[1] if v[1] else None
            else:
                t, w = render(v[1], inline, path + (k,))
                subs.append('[' + '.'.join(path + (k,)) + ']\n' + t)
                want[k] = w if v[1] else None
        else:
            lines.append(f'{k} = {LEAF[v][0]}')
            want[k] = LEAF[v][1]
    return '\n'.join(lines + subs) + '\n', want


def toml(case):
    from inlist_handler import TomlInlistHandler
    tree, inline = case
    text, want = render(tree, inline)
    fd, p = tempfile.mkstemp(suffix='.toml', prefix='mc-c18-')
    try:
        os.write(fd, text.encode())
        os.close(fd)
        T.call()
        got = TomlInlistHandler.get_inlist_values(p)
    finally:
        os.unlink(p)
    ensure(strict(got, want), lambda: f'{text!r} read as {got!r}, expected {want!r}')
    return repr(want)


# ---- the settings of the run scripts
def leaves(d, path=()):
    for k, v in d.items():
        if isinstance(v, dict) and v:
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,)


def flat(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from flat(v, path + (k,))
    elif isinstance(o, tuple) and not path:
        for i, v in enumerate(o):
            yield from flat(v, (i,))
    else:
        yield path, o


def dump(d):
    def val(v):
        if v is None or v == {}:
            return '{}'
        if isinstance(v, dict):
            return '{' + ', '.join(f'"{a}" = {val(b)}' for a, b in v.items()) + '}'
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, str):
            import json
            return json.dumps(v)
        if isinstance(v, list):
            return '[' + ', '.join(map(val, v)) + ']'
        return repr(v)
    return '\n'.join(f'"{k}" = {val(v)}' for k, v in d.items()) + '\n'


def parser(which):
    import importlib
    return getattr(importlib.import_module(f'aerunners.{which}_quadratic'),
                   {'solve': 'QuadraticSolveParser', 'analyze': 'QuadraticAnalysisParser', 'plot': 'QuadraticPlotParser'}[which])


def parsed(which, data):
    import sys
    from pathlib import Path
    d = tempfile.mkdtemp(prefix='mc-c18-')
    old = sys.argv
    try:
        os.makedirs(f'{d}/AESolver_amplitude_equations_solver/inlists')
        p = Path(f'{d}/AESolver_amplitude_equations_solver/inlists/inlist.toml')
        p.write_text(dump(data))
        sys.argv = ['run.py']
        T.call()
        return dict(flat(tuple(parser(which)(full_inlist_path=p).read_toml_args())))
    finally:
        sys.argv = old
        shutil.rmtree(d)


def shipped():
    import tomllib
    from mc.core import REPO
    with open(f'{REPO}/inlists/inlist.toml', 'rb') as fh:
        return tomllib.load(fh)


def at(d, path):
    for k in path.split('.'):
        d = None if d is None else d.get(k)
    return None if d == {} else d


def settings_table(which):
    import json
    from mc.core import HERE
    with open(f'{HERE}/data/settings.json') as fh:
        return json.load(fh)[which]


def expected(which, data):
    """What each role of a run has to get, from the documented meaning of the settings (data/settings.json)."""
    out = {}
    for dest, path in settings_table(which).items():
        v = [at(data, p) for p in path] if isinstance(path, list) else at(data, path)
        out[dest] = (not v) if dest.endswith('/use_standard_format') else v
    return out


def setting(case):
    """The run parsers hand every setting to its role, whatever single setting is changed."""
    import copy
    which, path, step = case
    new = copy.deepcopy(shipped())
    node = new
    for k in path[:-1]:
        node = node[k]
    old = node[path[-1]]
    if step == 'absent':
        del node[path[-1]]
    else:
        node[path[-1]] = {'flip': (not old) if isinstance(old, bool) else 'flip', 'none': {}, 'word': 'changed', 'int': 987654,
                          'list': ['c1', 'c2']}[step]
    got = {'/'.join(map(str, k)): v for k, v in parsed(which, new).items()}
    want = expected(which, new)
    for k, w in want.items():
        g = got.get(k, 'nothing')
        if isinstance(g, tuple):
            g = list(g)
        ensure(strict(g, w), lambda: f'{which}: with {".".join(path)} = {step}: {k} gets {g!r}, expected {w!r}')
    return which, repr(sorted(got.items(), key=str))


def run(ctx):
    build.use(ctx, ['num', 'ld', 'disc', 'fnd', 'hist'])
    b = ctx.thorough
    texts = [t for t, _ in FORMS]
    ctx.explore('value', one, list(itertools.product(texts, range(len(LAYOUT)), ('', '\n'))),
                'every value form x every layout, as user setting and as default')
    lay = [(1, 1)] + ([(0, 4), (4, 0), (6, 5)] if b else [(5, 6)])
    ctx.explore('pairs', pairs, list(itertools.product(itertools.product(texts, repeat=2), lay)), 'all ordered pairs of value forms')
    names = ['run', 'run.v2', 'r_1'] if b else ['run', 'run.v2']
    perms = list(itertools.permutations(range(3)))
    ctx.explore('defaults', merge, list(itertools.product(itertools.product(range(4), repeat=3), perms, perms, names)),
                'every presence pattern of three settings in defaults and user inlist, in every order')
    sp = [(t, i) for t in trees(1, ('a', 'b'), 5) for i in (True, False)]
    sp += [(t, i) for t in trees(2, ('a', 'b'), 1) for i in (True, False)]
    sp += [(t, i) for t in trees(4 if b else 3, ('a',), 8) for i in (True, False)]
    sp += [(t, i) for t in trees(1, ('a', 'b', 'c'), ctx.pick(1, 2)) for i in (True, False)]
    ctx.explore('toml', toml, sp, 'all TOML documents over two or three keys and nested tables')
    L = list(leaves(shipped()))
    steps = ('flip', 'none', 'word', 'list', 'int', 'absent') if b else ('flip', 'none', 'list')
    sp = [(w, q, s) for w in ('solve', 'analyze', 'plot') for q in L for s in steps
          if not (q[-1] == 'terms_cc_conj' and s != 'list')]
    ctx.explore('run-settings', setting, sp, 'every setting of the shipped inlist changed in turn, for each of the three run parsers')
    return [
        'blanks inside custom-format lists and tuples, and values starting with other symbols, are refused with an error',
    ]
