"""C19 file paths and run arguments resolve to the documented location."""
import itertools
import os
import shutil
import sys
import tempfile
from pathlib import Path

from mc import build
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of file presence patterns, path spellings and initialisation modes on the real resolver, parsers and run scripts, inside scratch directories',
    'note': 'Every pattern of present and absent candidate files; the content read tells which file was used.',
}


class Scratch:
    """Scratch directory as working directory, with its own command line."""
    def __init__(self, argv, sub='w'):
        self.argv, self.sub = argv, sub

    def __enter__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c19-'))
        os.makedirs(f'{self.d}/{self.sub}')
        self.old = sys.argv, os.getcwd()
        os.chdir(f'{self.d}/{self.sub}')
        sys.argv = [a.replace('@', self.d) for a in self.argv]
        return self.d

    def __exit__(self, *a):
        sys.argv = self.old[0]
        os.chdir(self.old[1])
        shutil.rmtree(self.d)


def put(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as fh:
        fh.write(text)


def resolve(case):
    """Candidates: default path (from the working directory), then the same below the run script; nothing else."""
    script, default, name, run, here, there, decoy = case
    from path_resolver import resolve_path_to_file
    with Scratch([script, 'x'], 'a/b/work') as d:
        dflt = default.replace('@', d)
        sdir = os.path.dirname(script.replace('@', d))
        sdir = sdir if os.path.isabs(sdir) else os.path.join(d, 'a/b/work', sdir)
        os.makedirs(sdir, exist_ok=True)
        first = os.path.normpath(os.path.join(d, 'a/b/work', dflt, name))
        second = os.path.normpath(os.path.join(sdir, '..' if run is None else run, dflt, name))
        for ok, p in ((here, first), (there, second)):
            if ok:
                put(p, p)
        if decoy:      # files of the same name at other places
            for p in (f'{d}/{name}', f'{d}/a/b/work/{name}', f'{sdir}/{name}', f'{d}/a/{name}', f'{d}/a/b/work/decoy/{name}'):
                if p not in (first, second) and not os.path.exists(p):
                    put(p, 'decoy')
        want = next((p for p in (first, second) if os.path.isfile(p)), None)
        kw = {} if run is None else dict(default_run_path=run)
        T.call()
        try:
            got = resolve_path_to_file(sys_arguments=sys.argv, file_name=name, default_path=dflt, **kw)
        except FileNotFoundError as e:
            got = None
            ensure(name in str(e), lambda: f'error does not name the file: {e}')
        if want is None:
            ensure(got is None, lambda: f'{case}: {got} returned though it exists nowhere')
        else:
            ensure(got is not None and os.path.isabs(str(got)) and Path(got) == Path(want),
                   lambda: f'{case}: {got} instead of {want}')
    return want is not None, here, there


def content(i, toml):
    return f'which = {i}\n[t]\nu.v = {i + 100}\n' if toml else f'which = {i}\n'


def parser_reads(case):
    """The parser reads the very file it was told to, whatever similar files lie around it."""
    mode, suffix, name, sub, absolute, argv, both, decoys = case
    from generic_parser import GenericParser
    toml = suffix == 'toml'
    cl = {'none': [], 'inlist': ['--inlist_name', f'@/proj/{sub}/other.{suffix}'], 'flags': ['--debug', '-no_verbose'],
          'unknown': ['--save_file_name', 'q']}[argv]
    with Scratch(['@/proj/run.py', *cl]) as d:
        base = f'{d}/proj'
        want = f'{base}/{sub}/{name}.{suffix}'
        files = [want, f'{base}/{sub}/other.{suffix}']
        if decoys:
            files += [f'{base}/{sub}/{n}.{s}' for n in (name.split('.')[0], name + '.x', name + '2') for s in ('toml', 'in')]
            files += [f'{base}/{name}.{suffix}', f'{d}/{sub}/{name}.{suffix}', f'{base}/{sub}/{name}']
        files = list(dict.fromkeys(files))
        for i, f in enumerate(files):
            if os.path.isdir(f):
                continue
            put(f, content(i, f.endswith('toml')))
            # custom-format inlists come with defaults
            b = os.path.dirname(os.path.dirname(f))
            put(f'{b}/defaults/{os.path.basename(f).rsplit(".", 1)[0]}.defaults', 'dflt = 1\n')
        exp = 1 if argv == 'inlist' else 0
        kw = {}
        if mode == 1 or both:
            kw['full_inlist_path'] = Path(want) if absolute else Path(os.path.relpath(want))
        if mode == 2 or both:
            kw.update(base_dir=base, inlist_name='other' if both else name, inlist_dir=sub, inlist_suffix=suffix)
        T.call()
        p = GenericParser('proj', **kw)
        r = p.read_in_to_dict([('w', ['which'], False), ('n', ['which'], True), ('m', ['missing'], False)])
        ensure(r['w'] == exp and r['n'] is (not exp) and r['m'] is None, lambda: f'{case}: read {r}, expected file {files[exp]}')
        ensure(p.read_in_to_list([['which'], ['absent']]) == [exp, None], lambda: f'{case}: list reading')
        r2 = p.read_in_to_dict([('w', ['which']), ('v', ['t', 'u', 'v'])])
        ensure(r2 == {'w': exp, 'v': exp + 100 if toml else None}, lambda: f'{case}: nested reading {r2}')
        ensure(os.path.realpath(p.inlist_path) == files[exp], lambda: f'{case}: inlist_path {p.inlist_path}')
    return exp, suffix, mode


def parser_refuses(case):
    """Without the file, or without usable arguments, nothing is read."""
    kw, make = case
    from generic_parser import GenericParser
    with Scratch(['@/proj/run.py']) as d:
        put(f'{d}/proj/inl/other.toml', content(3, True))
        put(f'{d}/elsewhere/inl/run.toml', content(4, True))
        if make:
            put(f'{d}/proj/inl/run.toml', content(5, True))
        k = {a: (Path(v.replace('@', d)) if a == 'full_inlist_path' and v else v.replace('@', d) if isinstance(v, str) else v)
             for a, v in kw.items()}
        T.call()
        try:
            p = GenericParser('proj', **k)
            got = p.read_in_to_list([['which']])[0]
        except (Exception, SystemExit):
            got = None
        ensure(got is None or (make and got == 5), lambda: f'{case}: read file number {got}')
        if make and kw.get('ok'):
            ensure(got == 5, lambda: f'{case}: file not read')
    return got


def runs(case):
    """Run scripts: the inlist named on the command line, or the default one, below the working directory or the script's parent."""
    which, given, name, rel, here, there, cwd_script = case
    import importlib
    mod = importlib.import_module(f'aerunners.{which}_quadratic')
    fn = getattr(mod, '_get_path_to_inlist', None) or getattr(mod, 'get_path_to_inlist', None)
    if fn is None:
        return 'not offered'
    script = 'run_scripts/run.py' if cwd_script else '@/AESolver/run_scripts/run.py'
    save = ['--save_file_name', 'some_name'] if which == 'solve' else []
    cl = [*name.rsplit('.', 1), rel] if given else []
    with Scratch([script, *cl, *save], 'AESolver' if cwd_script else 'far') as d:
        cwd = os.getcwd()
        sdir = f'{d}/AESolver/run_scripts'
        os.makedirs(sdir, exist_ok=True)
        nm, rl = (name, rel) if given else ('inlist.toml', 'inlists')
        first, second = os.path.normpath(f'{cwd}/{rl}/{nm}'), os.path.normpath(f'{sdir}/../{rl}/{nm}')
        text = '[which]\n'
        for ok, p in ((there, second), (here, first)):
            if ok:
                put(p, text)
        put(f'{d}/AESolver/inlists/decoy.toml', text)
        want = next((p for p in (first, second) if os.path.isfile(p)), None)
        T.call()
        try:
            got = fn(sys_arguments=list(sys.argv))
        except FileNotFoundError:
            got = None
        ensure((got is None) == (want is None) and (want is None or str(got) == want), lambda: f'{case}: {got} instead of {want}')
        if want is not None and 'AESolver' in want:
            cls = {'solve': 'QuadraticSolveParser', 'analyze': 'QuadraticAnalysisParser', 'plot': 'QuadraticPlotParser'}[which]
            p = getattr(mod, cls)(full_inlist_path=got)
            ensure(os.path.realpath(p.inlist_path) == want, lambda: f'{case}: {p.inlist_path} instead of {want}')
            if which == 'solve':
                ensure(p.get_save_name() == 'some_name', lambda: f'{case}: save name {p.get_save_name()!r}')
    return which, want is not None


def arguments(case):
    """Only the documented numbers and spellings of run arguments are accepted."""
    which, argv = case
    import importlib
    mod = importlib.import_module(f'aerunners.{which}_quadratic')
    fn = getattr(mod, '_get_path_to_inlist', None) or getattr(mod, 'get_path_to_inlist', None)
    if fn is None:
        return 'not offered'
    with Scratch(['@/AESolver/run_scripts/run.py', *argv], 'AESolver') as d:
        for n in ('inlist.toml', 'mine.toml'):
            for sub in ('inlists', 'other'):
                put(f'{d}/AESolver/{sub}/{n}', '')
        a = list(argv)
        if which == 'solve':
            ok = len(a) in (2, 5) and a[-2] == '--save_file_name'
            a = a[:-2]
        else:
            ok = len(a) in (0, 3)
        want = None
        if ok:
            want = f'{d}/AESolver/{a[2]}/{a[0]}.{a[1]}' if a else f'{d}/AESolver/inlists/inlist.toml'
            want = want if os.path.isfile(want) else None
        T.call()
        try:
            got = str(fn(sys_arguments=list(sys.argv)))
        except (RuntimeError, FileNotFoundError):
            got = None
        ensure(got == want, lambda: f'{case}: {got} instead of {want}')
    return want is not None


def run(ctx):
    build.use(ctx, ['num', 'ld', 'disc', 'fnd', 'hist'])
    tf = (False, True)
    scripts = ['@/code/run/x.py', 'x.py', '../sib/x.py', '@/a/b/work/x.py']
    dflts = ['data', './data/', 'data/setup/', '.', '../data', '@/abs/data', '@/abs/data/']
    names = ['f.dat', 'sub/f.dat', 'f'] if ctx.thorough else ['f.dat', 'f']
    runp = [None, '..', '../../', 'x/y', '.']
    ctx.explore('resolver', resolve, list(itertools.product(scripts, dflts, names, runp, tf, tf, tf)),
                'script location x default path spelling x name x run path x presence of each candidate and of decoys')
    sp = list(itertools.product((1, 2), ('toml', 'in'), ('run', 'run.v2', 'a.b.c', '_x'), ('inl', 'inl/user', 'proj_in/x'), tf,
                                ('none', 'inlist', 'flags', 'unknown'), tf, tf))
    sp = [c for c in sp if not (c[0] == 2 and (c[4] or c[6]))]
    ctx.explore('parser-file', parser_reads, sp, 'initialisation modes x suffixes x names x directories x command lines x decoys')
    kws = [dict(full_inlist_path='@/proj/inl/run.toml', ok=1), dict(full_inlist_path='@/elsewhere/inl/run.toml'), {}, dict(base_dir='@/proj'),
           dict(inlist_name='run'), dict(base_dir='@/proj', inlist_name='run', inlist_dir='inl', inlist_suffix='toml', ok=1),
           dict(base_dir='@/proj', inlist_name='run', inlist_dir='inl'), dict(base_dir='@/proj', inlist_name='run', inlist_suffix='toml'),
           dict(base_dir='@/proj', inlist_name=5, inlist_dir='inl', inlist_suffix='toml')]
    for k in kws:
        k.setdefault('ok', 0)
    sp = [({a: v for a, v in k.items()}, m) for k in kws for m in tf]

    ctx.explore('parser-refusal', parser_refuses_ok, sp, 'unusable arguments and missing files')
    sp = list(itertools.product(('solve', 'analyze', 'plot'), tf, ('mine.toml', 'inlist.toml', 'my.v2.toml'), ('inlists', './own/dir/', '.'), tf, tf, tf))
    ctx.explore('run-scripts', runs, sp, 'run script x arguments x presence of the inlist at either place x working directory')
    words = ['--save_file_name', 'mine', 'toml', 'other', 'inlist']
    sp = [(w, a) for w in ('solve', 'analyze', 'plot') for n in range(0, ctx.pick(5, 6)) for a in itertools.product(words, repeat=n)]
    sp += [(w, a + b) for w in ('solve', 'analyze', 'plot') for a in itertools.product(['mine', 'inlist'], ['toml'], ['inlists', 'other', 'none'])
           for b in itertools.product(words[:2], repeat=2)]
    ctx.explore('arguments', arguments, sp, 'all short argument lists over a vocabulary')


def parser_refuses_ok(case):
    kw, make = case
    ok = kw.get('ok')
    r = parser_refuses(({k: v for k, v in kw.items() if k != 'ok'}, make))
    ensure(not (ok and make) or r == 5, lambda: f'{case}: file not read')
    return r
