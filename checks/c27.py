"""C27 information files map each directory and name to its role."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import aes, saves
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of information files (roles, value forms, orders, both formats) and of loading dictionaries on the real parsers, with the real saver as second oracle for file names',
    'note': 'Custom format: one "# role" line and one value line per entry, no blanks outside quotes and no # inside values.',
}
ROLES = {
    'MESA base folder/directory': 'base_dir', 'MESA default output folder/directory': 'mesa_output_dir',
    'MESA default profile substrings': 'mesa_profile_substrings', 'MESA default suffix': 'mesa_suffix',
    'GYRE base folder/directory': 'gyre_base_dir', 'GYRE default output folder/directory': 'gyre_output_dir',
    'GYRE default detail substring': 'gyre_detail_substring', 'GYRE default summary substring': 'gyre_summary_substring',
    'POLYTROPE structure base folder/directory': 'poly_base_dir',
    'POLYTROPE structure default output folder/directory': 'poly_struct_dir',
    'POLYTROPE default structure substrings': 'poly_struct_substrings', 'POLYTROPE default structure suffix': 'poly_struct_suffix',
    'POLYTROPE mode base folder/directory': 'poly_mode_base_dir',
    'POLYTROPE mode default output folder/directory': 'poly_mode_dir',
    'POLYTROPE mode default detail substring': 'poly_mode_substrings',
    'POLYTROPE mode default summary substring': 'poly_summary_substring'}
LOAD = ['base_dir', 'mesa_output_dir', 'mesa_profile_substrings', 'mesa_suffix', 'gyre_detail_substring', 'gyre_summary_substring',
        'gyre_output_dir']
COMP = LOAD[:-1]
TOML = {'base_dir': 'MESA.default.base_dir', 'mesa_output_dir': 'MESA.default.output_dir',
        'mesa_profile_substrings': 'MESA.selection.substrings', 'mesa_suffix': 'MESA.selection.suffix',
        'gyre_base_dir': 'GYRE.default.base_dir', 'gyre_output_dir': 'GYRE.default.output_dir',
        'gyre_detail_substring': 'GYRE.selection.detail_substrings', 'gyre_summary_substring': 'GYRE.selection.summary_substring',
        'poly_base_dir': 'POLY.structure.default.base_dir', 'poly_struct_dir': 'POLY.structure.default.output_dir',
        'poly_struct_substrings': 'POLY.structure.selection.substrings', 'poly_struct_suffix': 'POLY.structure.selection.suffix',
        'poly_mode_base_dir': 'POLY.modes.default.base_dir', 'poly_mode_dir': 'POLY.modes.default.output_dir',
        'poly_mode_substrings': 'POLY.modes.selection.detail_substrings',
        'poly_summary_substring': 'POLY.modes.selection.summary_substring'}
SEQ = {'mesa_profile_substrings': 'MESA.selection.substrings_to_tuple', 'gyre_detail_substring': 'GYRE.selection.detail_substrings_to_tuple',
       'poly_struct_substrings': 'POLY.structure.selection.substrings_to_tuple',
       'poly_mode_substrings': 'POLY.modes.selection.detail_substrings_to_tuple'}
VALS = [("'/a/b'", '/a/b'), ('"/a b/c d/"', '/a b/c d/'), ("''", ''), ("'out put'", 'out put'), ("('a','b')", ('a', 'b')),
        ("('x',)", ('x',)), ("'rel/../dir-1_2.h5'", 'rel/../dir-1_2.h5'), ('"it\'s"', "it's"), ('(1,2)', (1, 2)), ("'.data'", '.data')]
FMT = ['# {k}\n{v}\n', '# {k}\n\n{v}\n\n', '# {k}\n   {v}  \n', '\n\n# {k}\n\t{v}\n']


def parse(text=None, toml=None, alt=True):
    from aesolver.read_load_info import InfoDirHandler
    d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c27-'))
    old = os.getcwd()
    try:
        os.makedirs(f'{d}/run/x')
        os.chdir(f'{d}/run')
        if toml is not None:
            p = f'{d}/in.toml'
            open(p, 'w').write(toml)
            T.call()
            h = InfoDirHandler([f'{d}/run/x/r.py'], toml_use=True, inlist_path=p)
        elif alt:
            os.makedirs(f'{d}/else')
            open(f'{d}/else/info.dat', 'w').write(text)
            T.call()
            h = InfoDirHandler([f'{d}/run/x/r.py'], alternative_directory_path=f'{d}/else', alternative_file_name='info.dat')
        else:
            os.makedirs(f'{d}/run/data/setup_data')
            open(f'{d}/run/data/setup_data/information_folders.dat', 'w').write(text)
            T.call()
            h = InfoDirHandler([f'{d}/run/x/r.py'])
        h.parse_info_directories()
        return dict(h.full_info), dict(h.load_info), dict(h.gyre_comparison_info)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def views(got, want, case):
    full, load, comp = got
    for nm, g, w in (('full', full, want), ('loading', load, {k: v for k, v in want.items() if k in LOAD}),
                     ('comparison', comp, {k: v for k, v in want.items() if k in COMP})):
        ensure(g == w and all(type(g[k]) is type(w[k]) for k in w), lambda: f'{case}: {nm} information {g!r}, expected {w!r}')


def entries(case):
    """A short custom file: each value goes to the role named above it, in any order."""
    items, fmt, alt = case
    names = list(ROLES)
    text = ''.join(FMT[fmt].format(k=names[r], v=VALS[v][0]) for r, v in items)
    views(parse(text, alt=alt), {ROLES[names[r]]: VALS[v][1] for r, v in items}, case)
    return sorted(ROLES[names[r]] for r, _ in items)


def value_of(key, variant, i, tup):
    if key in SEQ:
        n = 1 + (i + variant) % 3
        seq = [f'{key} {j} v{variant}' if variant % 2 else f'{key}{j}' for j in range(n)]
        return tuple(seq) if tup else f'one {key}'
    return [f'/dir/{key}', f'/my dir/{key} x', '', f'rel-{key}'][(variant + i) % 4]


def both(case):
    """The custom and the TOML form of the same content give the same information."""
    order, variant, tups = case
    keys = list(ROLES.values())
    seqk = list(SEQ)
    want = {k: value_of(k, variant, i, tups[seqk.index(k)] if k in SEQ else None) for i, k in enumerate(keys)}
    idx = list(range(16))
    idx = {'plain': idx, 'reverse': idx[::-1], 'odd': idx[1::2] + idx[::2]}.get(order) or idx[order:] + idx[:order]
    names = {v: k for k, v in ROLES.items()}
    hard = any(isinstance(v, tuple) and any(' ' in x for x in v) for v in want.values())
    q = lambda v: repr(v) if isinstance(v, str) else '(' + ','.join(map(repr, v)) + (',' if len(v) == 1 else '') + ')'
    if not hard:
        text = ''.join(f'# {names[keys[i]]}\n{q(want[keys[i]])}\n\n' for i in idx)
        views(parse(text), want, ('custom', case))
    tq = lambda v: "'" + v + "'" if isinstance(v, str) else '[' + ', '.join(map(tq, v)) + ']'
    lines = [f'{TOML[keys[i]]} = {tq(want[keys[i]])}' for i in idx]
    lines += [f'{p} = {"true" if t else "false"}' for (k, p), t in zip(SEQ.items(), tups)]
    views(parse(toml='[other]\nx = 1\n[information_folders]\n' + '\n'.join(lines) + '\n'), want, ('toml', case))
    return case


def unknown(case):
    """An entry for an unknown role is refused, not dropped or shifted."""
    pos, name = case
    names = list(ROLES)[:3]
    rows = [(n, f"'v{i}'") for i, n in enumerate(names)]
    rows.insert(pos, (name, "'stray'"))
    try:
        got = parse(''.join(f'# {a}\n{b}\n' for a, b in rows))
    except SystemExit:
        return case
    ensure(False, lambda: f'{case}: accepted as {got[0]!r}')


# ---- names of result files
def name_of(base, spec, std, mass, xc, tp, k, m, suffix):
    s = base + (f'_{spec}' if spec else '')
    if std:
        (a, b), (c, d), (e, f) = tp
        s += f'_M{mass}_Xc{str(xc).replace(".", "_")}_d{a}_{b}_d{c}_{d}_p{e}_{f}'
    return s + ''.join(f'_{n}_' + '_'.join(map(str, v)) for n, v in (('k', k), ('m', m))) + '.' + suffix


def load_names(case):
    from aesolver.read_load_info import generate_load_file_path_list
    rows, std, base_dir, out = case
    d = dict(nr_files=len(rows), base_dir=base_dir, output_dir=out, use_standard_format=std, base_file_names=[], specification_names=[],
             masses=[], Xcs=[], triple_pairs=[], meridional_degrees=[], azimuthal_orders=[], file_suffix=[])
    want = []
    for i, (k, m, many, spec) in enumerate(rows):
        tp = [[i, -1 - i], [k[1], m[1]], [7, i + 10]]
        mass, xc = ('3', 3.5, 6)[i % 3], (.7, 0.05, 1.0)[i % 3]
        b, s, f = ([f'a{i}', 'b c'], [spec, ''], ['hdf5', 'h5']) if many else (f'base{i}', spec, 'hdf5')
        for key, v in (('base_file_names', b), ('specification_names', s), ('masses', mass), ('Xcs', xc), ('triple_pairs', tp),
                       ('meridional_degrees', list(k)), ('azimuthal_orders', list(m)), ('file_suffix', f)):
            d[key].append(v)
        one = lambda x, y, z: f'{base_dir}/{out}/' + name_of(x, y, std, mass, xc, tp, k, m, z)
        want.append([one(*t) for t in zip(b, s, f)] if many else one(b, s, f))
    T.call()
    got = generate_load_file_path_list(d)
    ensure(list(got) == want, lambda: f'{case}: {got!r}, expected {want!r}')
    return want[0] if want else None


def saved(case):
    """The file a run writes is the file the loading name of that run names."""
    from aesolver.data_handling import NumericalSaver
    from aesolver.read_load_info import generate_load_file_path_list
    name, k, m, poly, sub = case
    l = tuple(a + abs(b) for a, b in zip(k, m))
    d = tempfile.mkdtemp(prefix='mc-c27-')
    try:
        base = f'{d}/{sub}' if sub else d
        os.makedirs(base, exist_ok=True)
        s, _, _ = saves.run_of(1, poly=poly, l=l, m=m)
        T.call()
        NumericalSaver(name, s, base_dir=base, polytropic=poly)()
        files = [os.path.join(a, f) for a, _, c in os.walk(d) for f in c]
        T.call()
        want = generate_load_file_path_list(dict(
            nr_files=1, base_dir=base, output_dir='hdf5_output', use_standard_format=False, base_file_names=[name], specification_names=[''],
            meridional_degrees=[list(k)], azimuthal_orders=[list(m)], file_suffix=['h5']))
        ensure(list(map(os.path.normpath, files)) == list(map(os.path.normpath, want)), lambda: f'{case}: written {files}, loading name {want}')
    finally:
        shutil.rmtree(d)
    return os.path.basename(files[0])


def run(ctx):
    aes.use(ctx)
    b = ctx.thorough
    n, tf = len(ROLES), (False, True)
    sp = [(((r, v),), f, a) for r in range(n) for v in range(len(VALS)) for f in range(len(FMT)) for a in tf]
    vv = list(itertools.product(range(len(VALS)), repeat=2)) if b else [(v, (3 * v + 1) % len(VALS)) for v in range(len(VALS))]
    sp += [(((r, x), (s, y)), f, True) for r in range(n) for s in range(n) if r != s for x, y in vv for f in ((0, 1, 2, 3) if b else (0,))]
    sp += [(((r, 0), (s, 1), (t, 4)), 0, False) for r, s, t in itertools.permutations(range(n if b else 8), 3)]
    ctx.explore('entries', entries, sp, 'custom files of one to three entries: roles x values x layouts x orders')
    tups = list(itertools.product(tf, repeat=4))
    orders = ['plain', 'reverse', 'odd', *range(1, 16)]
    ctx.explore('formats', both, list(itertools.product(orders, range(ctx.pick(4, 8)), tups)), 'full files in both formats, in many orders')
    bad = ['MESA base folder', 'mesa base folder/directory', 'GYRE default suffix', 'x', 'MESA default suffix ']
    ctx.explore('unknown-roles', unknown, list(itertools.product(range(4), bad)), 'an entry of an unknown role at every place')
    ks = list(itertools.product((-1, 0, 2), repeat=3))
    ms = list(itertools.product((-2, 0, 1), repeat=3))
    sp = [(((k, m, many, spec),), std, '/b', 'o') for k in ks for m in ms for many in tf for spec in ('', 'sp') for std in tf]
    rows = [((0, 1, -2), (2, -1, -1), many, spec) for many in tf for spec in ('', 'x y')] + [((0, 0, 0), (0, 0, 0), False, '')]
    sp += [(r, std, bd, o) for q in range(0, ctx.pick(4, 5)) for r in itertools.product(rows, repeat=q) for std in tf
           for bd, o in (('/b', 'o'), ('.', ''), ('a b', 'c/d'))]
    ctx.explore('load-names', load_names, sp, 'mode numbers of every sign, single files and lists of files')
    nm = ['res', 'model_1', 'model-1', 'M3.0_Xc0.5', 'a.b.c', 'x', 'M3-0.2']
    kk = [(0, 0, 0), (1, 0, 2), (0, 3, 1), (10, 0, 12)]
    mm = [(2, 1, 1), (-2, -1, -1), (0, 1, -1), (2, -1, 0), (-11, 12, -23)]
    ctx.explore('saved-names', saved, list(itertools.product(nm, kk, mm, tf, ('', 'in.put', 'v1.2/r-x'))), 'file written by the saver against the generated name')
