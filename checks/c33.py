"""C33 A complete run computes, saves, analyses and plots what its inlist asks for."""
import contextlib
import copy
import inspect
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile

import numpy as np

from checks import c14, c18, c30
from mc import build, saves
from mc.core import T, ensure

META = {
    'technique': 'bounded exhaustive enumeration of inlists (every setting changed in turn, every combination of the switches) through the '
                 'real complete runs with the computing classes replaced by recorders, plus complete runs on real mode files compared with '
                 'directly constructed solvers, savers, analysers and plotters',
    'note': 'All settings of the shipped inlist for each kind of run, all combinations of the computation, verbosity, analysis and display '
            'switches, all spellings of the command line; complete solve, analysis and plot runs on small grids.',
}
ROOT = 'AESolver_amplitude_equations_solver'
GENERATE = {'numbers_categories': 'generate_mode_triad_numbers_per_model', 'q_Q1_condition': 'generate_counts_q_quality_factor_1_condition',
            'isolated_mode_properties': 'generate_isolated_triad_mode_properties',
            'isolated_stability_validity_estimators': 'generate_isolated_triad_stab_val_estimators',
            'isolated_triad_observables': 'generate_isolated_triad_observables'}


class Site:
    """Scratch installation with an inlist; the command line and working directory of a run script."""

    def __init__(self, which, data, argv=('--save_file_name', 'nm'), inlist='inlists/inlist.toml', cwd='', script=None):
        self.which, self.data, self.inlist, self.cwd = which, data, inlist, cwd
        self.argv = [script or f'@/{ROOT}/run_scripts/{which}_quadratic.py', *(argv if which == 'solve' else [a for a in argv if a not in ('--save_file_name', 'nm')])]

    def __enter__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='mc-c33-'))
        self.base = f'{self.d}/{ROOT}'
        os.makedirs(f'{self.base}/run_scripts')
        self.path = f'{self.base}/{self.inlist}'
        for p, data in ((self.path, self.data), (f'{self.base}/inlists/decoy.toml', None)):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fh:
                fh.write(c18.dump(data) if data else 'x = 1\n')
        self.old = sys.argv, os.getcwd()
        os.makedirs(os.path.join(self.base, self.cwd), exist_ok=True)
        os.chdir(os.path.join(self.base, self.cwd))
        sys.argv = [a.replace('@', self.d) for a in self.argv]
        self.root = logging.getLogger()
        self.log = self.root.level, list(self.root.handlers)
        return self

    def __exit__(self, *a):
        sys.argv = self.old[0]
        os.chdir(self.old[1])
        for h in list(self.root.handlers):
            self.root.removeHandler(h)
        for h in self.log[1]:
            self.root.addHandler(h)
        self.root.setLevel(self.log[0])
        shutil.rmtree(self.d)

    def run(self):
        import aerunners
        from log_formatter import set_up_root_logger
        f = {'solve': 'perform_complete_solve_run', 'analyze': 'perform_complete_analysis_run', 'plot': 'perform_complete_plotting_run'}[self.which]
        T.call()
        getattr(aerunners, f)(logger=set_up_root_logger())


def heard():
    """The lowest level of message the root logger lets through."""
    root = logging.getLogger()
    return max([root.level] + [h.level for h in root.handlers[:1]])


class Recorder:
    """Replaces constructors and methods of real classes; keeps what they were given."""

    def __init__(self):
        self.log, self.undo = [], []

    def cls(self, c, name, methods):
        sig = inspect.signature(c.__init__)

        def init(obj, *a, **k):
            b = sig.bind(obj, *a, **k)
            b.apply_defaults()
            args = dict(b.arguments)
            args.pop('self', None)
            self.log.append((name, args, obj, heard()))
        self.put(c, '__init__', init)
        for m in methods:
            def call(obj, *a, _m=m, **k):
                self.log.append((f'{name}.{_m}', None, obj, heard()))
            self.put(c, m, call)
        return {k: p.default for k, p in sig.parameters.items() if p.default is not p.empty}

    def put(self, o, name, v):
        had = name in vars(o)
        old = getattr(o, name)
        setattr(o, name, v)
        self.undo.append((o, name, had, old))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for o, name, had, old in reversed(self.undo):
            if had:
                setattr(o, name, old)
            else:
                delattr(o, name)


def alike(g, w):
    g = list(g) if isinstance(g, tuple) else g
    w = list(w) if isinstance(w, tuple) else w
    return c18.strict(g, w)


def given(name, args, want, defaults, at_, free=()):
    """The arguments are the wanted ones, all others stay at their defaults."""
    for k, w in want.items():
        ensure(k in args and alike(args[k], w), lambda: f'{at_}: {name} gets {k} = {args.get(k, "nothing")!r}, the inlist asks for {w!r}')
    for k, v in args.items():
        if k not in want and k not in free:
            ensure(k in defaults and (v is defaults[k] or alike(v, defaults[k])), lambda: f'{at_}: {name} gets {k} = {v!r} unasked')


def level(data):
    return logging.DEBUG if c18.at(data, 'verbosity-debug.debug') else logging.INFO if c18.at(data, 'verbosity-debug.verbose') else logging.WARNING


def roles(which, data, part):
    e = c18.expected(which, data)
    return {k[len(part) + 1:]: v for k, v in e.items() if k.startswith(part + '/')}


def solve_run(data, at_, **site):
    """The solve run of an inlist hands exactly the settings over, in order, or refuses."""
    from aesolver import NumericalSaver, QuadraticAEGridSolver, QuadraticAEProfileSolver
    grid, prof = bool(c18.at(data, 'computation.compute_grid_models')), bool(c18.at(data, 'computation.compute_coefficient_profile'))
    with Site('solve', data, **site) as st, Recorder() as r:
        dg = r.cls(QuadraticAEGridSolver, 'grid solver', ('__call__',))
        dp = r.cls(QuadraticAEProfileSolver, 'profile solver', ('__call__',))
        ds = r.cls(NumericalSaver, 'saver', ('__call__',))
        name = sys.argv[-1]
        argv = list(sys.argv)
        err = None
        try:
            st.run()
        except RuntimeError as e:
            err = e
        log = r.log
        if grid == prof:
            ensure(err is not None and not log, lambda: f'{at_}: grid {grid}, profile {prof}: {[x[0] for x in log]}, error {err}')
            return 'refused'
        ensure(err is None, lambda: f'{at_}: {err}')
        who = 'grid solver' if grid else 'profile solver'
        order = [x[0] for x in log]
        ensure(order == [who, f'{who}.__call__'] + (['saver', 'saver.__call__'] if grid else []), lambda: f'{at_}: steps {order}')
        ensure(log[0][2] is log[1][2] and (not grid or log[2][2] is log[3][2]), f'{at_}: another object was run')
        poly = bool(c18.at(data, 'coupling_coefficient.compute_for_polytrope'))
        e = c18.expected('solve', data)
        want = {k: v for k, v in roles('solve', data, '7' if grid and poly else '1').items() if k not in ('debug', 'verbose')}
        for part in '589':
            want.update(roles('solve', data, part))
        want.update(toml_use=True, use_parallel=e['6/use_parallel'], progress_bars=e['6/progress_bars'], get_debug_info=e['13'])
        free = {'sys_args', 'inlist_path'}
        if grid:
            want.update(mode_selection_dict=roles('solve', data, '4'), ad_path=e['12'] if poly else e['10'], nad_path=None if poly else e['11'])
        else:
            want.update(cc_profile_selection_dict=roles('solve', data, '2'), save_name=name, **roles('solve', data, '3'))
            want.update(ad_path=e['10'], nad_path=e['11'])
            if poly:                                   # open which mode files a polytropic profile would use
                for k in ('ad_path', 'nad_path', *roles('solve', data, '1')):
                    want.pop(k, None)
                    free.add(k)
        args = log[0][1]
        given(who, args, want, dg if grid else dp, at_, free)
        ensure(list(args['sys_args']) == argv, lambda: f'{at_}: command line {args["sys_args"]}')
        ensure(os.path.realpath(str(args['inlist_path'])) == os.path.realpath(st.path), lambda: f'{at_}: inlist {args["inlist_path"]}')
        if grid:
            given('saver', log[2][1], dict(roles('solve', data, '0'), save_name=name, polytropic=bool(poly) if isinstance(e['5/polytrope_comp'], bool) else e['5/polytrope_comp'], nr_modes=3),
                  ds, at_, {'solving_object'})
            ensure(log[2][1]['solving_object'] is log[0][2], f'{at_}: another solver is saved')
        for x in log:
            ensure(x[3] == level(data), lambda: f'{at_}: messages from level {x[3]} on are shown during {x[0]}, expected {level(data)}')
        return who, poly, level(data)


def analysis_run(data, at_, **site):
    from ae_analyzer import QuadraticAEStationaryAnalyzer as A
    with Site('analyze', data, **site) as st, Recorder() as r:
        da = r.cls(A, 'analyser', tuple(GENERATE.values()))
        st.run()
        log = r.log
        want = [f'analyser.{m}' for k, m in GENERATE.items() if c18.at(data, f'analysis.{k}')]
        order = [x[0] for x in log]
        ensure(order[:1] == ['analyser'] and sorted(order[1:]) == sorted(want), lambda: f'{at_}: {order}, the inlist asks for {want}')
        ensure(all(x[2] is log[0][2] for x in log), f'{at_}: another object analyses')
        for k, part in (('load_information', '3'), ('save_information', '0')):
            for q, w in roles('analyze', data, part).items():
                g = log[0][1][k].get(q, 'nothing')
                ensure(alike(g, w), lambda: f'{at_}: {k} {q} = {g!r}, the inlist asks for {w!r}')
        for k, v in log[0][1].items():
            ensure(k in ('load_information', 'save_information', 'analysis_dict') or alike(v, da[k]), lambda: f'{at_}: {k} = {v!r} unasked')
        ensure(log[0][3] == level(data), lambda: f'{at_}: messages from level {log[0][3]} on are shown, expected {level(data)}')
        return tuple(want), level(data)


def plot_run(data, at_, **site):
    import matplotlib.pyplot as plt
    from aeplotter import QuadraticAEPlotter as P
    with Site('plot', data, **site) as st, Recorder() as r:
        dp = r.cls(P, 'plotter', ('generate_plots',))
        r.put(plt, 'show', lambda *a, **k: r.log.append(('show', None, None, heard())))
        st.run()
        log = r.log
        order = [x[0] for x in log]
        want = ['plotter', 'plotter.generate_plots'] + ['show'] * bool(c18.at(data, 'plotting.plot.show'))
        ensure(order == want and log[0][2] is log[1][2], lambda: f'{at_}: {order}, the inlist asks for {want}')
        for k, part in (('load_information', '3'), ('save_information', '0'), ('plotting_dict', '2')):
            for q, w in roles('plot', data, part).items():
                g = log[0][1][k].get(q, 'nothing')
                ensure(alike(g, w), lambda: f'{at_}: {k} {q} = {g!r}, the inlist asks for {w!r}')
        for k, v in log[0][1].items():
            ensure(k in ('load_information', 'save_information', 'plotting_dict') or alike(v, dp[k]), lambda: f'{at_}: {k} = {v!r} unasked')
        ensure(log[0][3] == level(data), lambda: f'{at_}: messages from level {log[0][3]} on are shown, expected {level(data)}')
        return len(order), level(data)


RUN = {'solve': solve_run, 'analyze': analysis_run, 'plot': plot_run}


def put(data, path, v):
    path = path.split('.') if isinstance(path, str) else path
    for k in path[:-1]:
        data = data[k]
    data[path[-1]] = v


def changed(base, changes):
    new = copy.deepcopy(base)
    for k, v in changes.items():
        put(new, k, v)
    return new


BASES = {'mesa': {'computation.compute_grid_models': True, 'computation.compute_coefficient_profile': False},
         'poly': {'computation.compute_grid_models': True, 'computation.compute_coefficient_profile': False,
                  'coupling_coefficient.compute_for_polytrope': True},
         'profile': {'computation.compute_grid_models': False, 'computation.compute_coefficient_profile': True}}


def settings(case):
    """One setting of the shipped inlist changed; everything else as shipped."""
    which, base, path, step = case
    new = changed(c18.shipped(), BASES.get(base, {}))
    node = new
    for k in path[:-1]:
        node = node[k]
    old = node[path[-1]]
    if step == 'absent':
        del node[path[-1]]
    else:
        node[path[-1]] = {'flip': (not old) if isinstance(old, bool) else 'flip', 'none': {}, 'int': 987654, 'list': ['c1', 'c2']}[step]
    return which, RUN[which](new, f'{which} ({base}) with {".".join(path)} = {step}')


SWITCH = {'solve': ['computation.compute_grid_models', 'computation.compute_coefficient_profile', 'coupling_coefficient.compute_for_polytrope',
                    'verbosity-debug.verbose', 'verbosity-debug.debug', 'verbosity-debug.get_debug_info', 'computation.parallel_mode_coupling',
                    'computation.display_progress', 'computation.parallel_pre_check'],
          'analyze': [f'analysis.{k}' for k in GENERATE] + ['verbosity-debug.verbose', 'verbosity-debug.debug', 'plotting.plot.show'],
          'plot': ['plotting.plot.show', 'plotting.plot.overview', 'plotting.plot.coefficient_profile', 'plotting.plot.resonance_sharpness',
                   'verbosity-debug.verbose', 'verbosity-debug.debug', 'plotting.load.use_custom_name']}


def switches(case):
    which, vals = case
    ch = dict(zip(SWITCH[which], vals))
    return which, RUN[which](changed(c18.shipped(), ch), f'{which} with {ch}')


def command(case):
    """The inlist named on the command line (or the default one) is used, from wherever the script is started."""
    which, base, argv, inlist, cwd, script = case
    data = changed(c18.shipped(), dict(BASES.get(base, {}), **{'rotation.rot_percent': 77}))
    site = dict(argv=argv, inlist=inlist, cwd=cwd)
    if script:
        site['script'] = script
    return which, RUN[which](data, f'{which} {argv} from {cwd or "."}', **site)


def refused(case):
    """An unknown form of the command line is refused before anything is computed."""
    which, argv = case
    from aesolver import NumericalSaver, QuadraticAEGridSolver, QuadraticAEProfileSolver
    from ae_analyzer import QuadraticAEStationaryAnalyzer
    from aeplotter import QuadraticAEPlotter
    data = changed(c18.shipped(), BASES['mesa'])
    st = Site(which, data)
    st.argv = st.argv[:1] + list(argv)
    with st, Recorder() as r:
        for c in (NumericalSaver, QuadraticAEGridSolver, QuadraticAEProfileSolver):
            r.cls(c, 'solving', ('__call__',))
        r.cls(QuadraticAEStationaryAnalyzer, 'analysing', tuple(GENERATE.values()))
        r.cls(QuadraticAEPlotter, 'plotting', ('generate_plots',))
        try:
            st.run()
            how = 'returned'
        except RuntimeError:
            how = 'refused'
        except SystemExit:
            how = 'exit'
        ensure(how != 'returned' and not r.log, lambda: f'{which} {argv}: {how}, steps {[x[0] for x in r.log]}')
    return how


# ------------------------------------------------------------------ complete runs on real files
def inlist_for(d, lm, sel, **ch):
    """The shipped inlist with the mode files of a scratch directory."""
    new = c18.shipped()
    i = new['information_folders']
    i['MESA'].update(default=dict(base_dir=f'{d}/', output_dir=f'{d}/mesa'))
    i['MESA']['selection'].update(substrings=['profile'], substrings_to_tuple=True, suffix='dat')
    i['GYRE'].update(default=dict(base_dir=f'{d}/', output_dir=f'{d}/ad'))
    i['GYRE']['selection'].update(detail_substrings=['detail'], detail_substrings_to_tuple=True, summary_substring='summary')
    i['POLY']['structure'].update(default=dict(base_dir=f'{d}/', output_dir=f'{d}/pstruct'))
    i['POLY']['structure']['selection'].update(substrings=['struct'], substrings_to_tuple=True, suffix='h5')
    i['POLY']['modes'].update(default=dict(base_dir=f'{d}/', output_dir=f'{d}/pmode'))
    i['POLY']['modes']['selection'].update(detail_substrings=['detail'], detail_substrings_to_tuple=True, summary_substring='summary')
    p = 'mode_info'
    base = {'GYRE_selection.gyre_dir_path': f'{d}/', 'GYRE_selection.specifier.adiabatic': 'ad', 'GYRE_selection.specifier.nonadiabatic': 'nad',
            'POLY_selection.mode_path': f'{d}/', 'POLY_selection.specifier.modes': 'pmode', 'computation.display_progress': False,
            'POLY_model.mass': c14.M0 / 1.988409870698051e33, 'POLY_model.radius': 1., 'verbosity-debug.verbose': False,
            f'{p}.parent.n.low': sel['driven_n_low'], f'{p}.parent.n.high': sel['driven_n_high'],
            f'{p}.daughter_1.n.low': sel['damped_n_low1'], f'{p}.daughter_1.n.high': sel['damped_n_high1'],
            f'{p}.daughter_2.n.low': sel['damped_n_low2'], f'{p}.daughter_2.n.high': sel['damped_n_high2']}
    for who, l, m in zip(('parent', 'daughter_1', 'daughter_2'), *lm):
        base[f'{p}.{who}.l'], base[f'{p}.{who}.m'] = l, m
    base.update(ch)
    return changed(new, base)


TOL = 1e-10                                            # runs with other numbers of threads


def close_files(got, want, at_):
    """Two saved files hold the same numbers."""
    for g, w in zip(got, want):
        ensure(set(g) == set(w), lambda: f'{at_}: saved entries differ: {sorted(set(map(str, g)) ^ set(map(str, w)))}')
        for k in g:
            a, b = g[k], w[k]
            if a is None or b is None or np.asarray(a).dtype.kind not in 'fc':
                ok = saves.same(a, b)
            else:
                a, b = np.asarray(a), np.asarray(b)
                ok = a.shape == b.shape and a.dtype == b.dtype and bool(np.all(np.isclose(a, b, rtol=TOL, atol=0., equal_nan=True)))
            ensure(ok, lambda: f'{at_}: {k} is {np.asarray(a).tolist()}, expected {np.asarray(b).tolist()}')


def complete(case):
    """Solve run from an inlist; what it saved equals the save of the directly constructed solver; then analysis and plots of it."""
    letters, daughters, poly, adia, req, method, folders, after = case
    from aesolver import NumericalSaver
    import h5py
    del h5py
    sel = dict(driven_n_low=1, driven_n_high=len(letters), damped_n_low1=daughters[0], damped_n_high1=daughters[1], damped_n_low2=daughters[2],
               damped_n_high2=daughters[3])
    at_ = f'{"".join(letters)} {daughters} poly {poly} adiabatic {adia} conjugation {req} {method} {folders}'
    with c14.Files(letters) as fl:
        kw = dict(numerical_integration_method=method, adiabatic=adia, terms_cc_conj=req, cheby_blow_up_factor=1e5)
        if poly:
            kw.update(polytrope_comp=True, polytrope_mass=c14.M0 / 1.988409870698051e33, polytrope_radius=1.)
        s = fl.solve('grid', sel, **kw)
        old = os.getcwd()
        os.makedirs(f'{fl.d}/direct')
        os.chdir(f'{fl.d}/direct')
        try:
            NumericalSaver(save_name='nm', solving_object=s, polytropic=poly, base_dir='.', save_dir=folders[1], extra_specifier=folders[2])()
        finally:
            os.chdir(old)
        ch = {'computation.compute_grid_models': True, 'computation.compute_coefficient_profile': False,
              'coupling_coefficient.compute_for_polytrope': poly, 'coupling_coefficient.adiabatic': adia,
              'coupling_coefficient.terms_cc_conj': {} if req is None else list(req) if isinstance(req, tuple) else req,
              'computation.integration_method': method, 'saving.solve.base_dir': folders[0].replace('@', fl.d),
              'saving.solve.save_dir': folders[1], 'saving.solve.extra_specifier': folders[2]}
        data = inlist_for(fl.d, fl.lm, sel, **ch)
        with Site('solve', data) as st, contextlib.redirect_stdout(io.StringIO()):
            st.run()
            here = os.path.normpath(os.path.join(os.getcwd(), folders[0].replace('@', fl.d)))
            rel = [os.path.relpath(os.path.join(p, f), f'{fl.d}/direct') for p, _, fs in os.walk(f'{fl.d}/direct') for f in fs]
            have = [os.path.relpath(os.path.join(p, f), here) for p, _, fs in os.walk(here) for f in fs if f.endswith('.h5') and not f.startswith('struct') and not f.startswith('detail')]
            ensure(len(rel) == 1 and have == rel, lambda: f'{at_}: saved as {have}, expected {rel}')
            close_files(saves.read(os.path.join(here, have[0])), saves.read(f'{fl.d}/direct/{rel[0]}'), at_)
            if after:
                reports(data, os.path.join(here, have[0]), len(letters), at_)
        return len(s.coupling_info), [bool(c[6]) for c in s.coupling_info]


def reports(data, path, n, at_):
    """Analysis and plot runs read the very file the solve run saved."""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from ae_analyzer import QuadraticAEStationaryAnalyzer
    from aeplotter import QuadraticAEPlotter
    out, nm = os.path.split(path)
    suf = os.path.splitext(nm)[1]                      # the reader adds the quantum numbers to the save name itself
    ch = {'plotting.load.nr_files': 1, 'plotting.load.base_dir': os.path.dirname(out), 'plotting.load.output_dir': os.path.basename(out),
          'plotting.load.use_custom_name': True, 'plotting.load.base_file_names': ['nm'], 'plotting.load.specification_names': [''],
          'plotting.load.masses': [3], 'plotting.load.Xcs': [.09], 'plotting.load.triple_pairs': [[[5, 1], [15, 10], [15, 10]]],
          'plotting.load.meridional_degrees': [[0, 0, 0]], 'plotting.load.azimuthal_orders': [[2, 1, 1]], 'plotting.load.file_suffix': [suf[1:]],
          'plotting.plot.overview': True, 'plotting.plot.resonance_sharpness': True, 'plotting.plot.show': False,
          'saving.plot.base_dir': os.path.join(os.path.dirname(out), 'figs'), 'saving.plot.save_formats': ['png']}
    new = changed(data, ch)
    load = roles('plot', new, '3')
    text = []
    for run in (True, False):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            if run:
                with Site('analyze', new) as st:
                    st.run()
            else:
                a = QuadraticAEStationaryAnalyzer(load_information=load, analysis_dict=roles('analyze', new, '2'), save_information=None)
                for m in GENERATE.values():
                    getattr(a, m)()
        text.append(buf.getvalue())
    ensure(text[0] == text[1], lambda: f'{at_}: the analysis run prints {text[0]!r}, the analyser {text[1]!r}')
    saved = [[], []]
    keep = Figure.savefig
    for run in (True, False):
        Figure.savefig = lambda fig, fname, *a, **k: saved[run].append((os.path.realpath(str(fname)), c30.snapshot(fig)))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if run:
                    with Site('plot', new) as st:
                        st.run()
                else:
                    QuadraticAEPlotter(load_information=load, plotting_dict=roles('plot', new, '2'), save_information=roles('plot', new, '0')).generate_plots()
        finally:
            Figure.savefig = keep
            plt.close('all')
    ensure([p for p, _ in saved[0]] == [p for p, _ in saved[1]] and saved[0], lambda: f'{at_}: figures {[p for p, _ in saved[1]]}, expected {[p for p, _ in saved[0]]}')
    ensure(repr(saved[0]) == repr(saved[1]), lambda: f'{at_}: the figures of the plot run show other data')


def profile_run(case):
    """Profile run from an inlist: the same text and figures as the directly constructed profile solver."""
    letter, pattern, triad, view, name = case
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    at_ = f'profile {letter} {triad} {view}'
    with c30.Files(letter, pattern) as fl:
        text, figs, _, shown = fl.profile('profile', triad, view_kernels=view[0], view_term_by_term=view[1], terms_cc_conj=(True, False, False),
                                          inlist_path=None)
        sel = dict(driven_n_low=1, driven_n_high=1, damped_n_low1=11, damped_n_high1=12, damped_n_low2=11, damped_n_high2=12)
        data = inlist_for(fl.d, fl.lm, sel, **{'mode_info.coupling.parent.n': triad[0], 'mode_info.coupling.daughter_1.n': triad[1],
                                               'mode_info.coupling.daughter_2.n': triad[2], 'plotting.profile.show_kernels': view[0],
                                               'plotting.profile.show_term_by_term': view[1]})
        data['information_folders']['MESA']['selection']['substrings'] = ['M3', 'profile']
        saved, out, seen = [], io.StringIO(), []
        keep, show = Figure.savefig, plt.show
        with Site('solve', data, argv=('--save_file_name', name)) as st:
            Figure.savefig = lambda fig, fname, *a, **k: saved.append((os.path.relpath(os.path.abspath(str(fname)), os.getcwd()), c30.snapshot(fig)))
            plt.show = lambda *a, **k: seen.append(1)
            try:
                with contextlib.redirect_stdout(out):
                    st.run()
            except SystemExit as e:
                ensure(not e.code, lambda: f'{at_}: exit code {e.code}')
            finally:
                Figure.savefig, plt.show = keep, show
                plt.close('all')
        ensure(bool(seen) == shown and out.getvalue() == text, lambda: f'{at_}: printed {out.getvalue()!r}, expected {text!r}')
        a, b = [p for p, _ in saved], [p.replace('sv', name) for p, _ in figs]
        ensure(a == b, lambda: f'{at_}: figures {a}, expected {b}')
        ensure(repr([s for _, s in saved]) == repr([s for _, s in figs]), lambda: f'{at_}: the figures show other data')
    return len(figs), len(text) > 0


def run(ctx):
    build.use(ctx, ['num', 'ld', 'disc', 'fnd', 'hist'])
    np.seterr(all='ignore')
    b = ctx.thorough
    L = list(c18.leaves(c18.shipped()))
    steps = ('flip', 'none', 'list', 'int', 'absent') if b else ('flip', 'none', 'int')
    kinds = [('solve', 'mesa'), ('solve', 'poly'), ('solve', 'profile'), ('analyze', ''), ('plot', '')]
    ctx.explore('settings', settings, [(w, k, q, s) for w, k in kinds for q in L for s in steps if not (q[-1] == 'terms_cc_conj' and s != 'list')],
                'every setting of the shipped inlist changed in turn, for each kind of run')
    ctx.explore('switches', switches, [(w, v) for w in SWITCH for v in itertools.product((False, True), repeat=len(SWITCH[w]))],
                'all combinations of the switches of each run')
    sp = []
    for w, k in kinds:
        tail = ('--save_file_name', 'nm') if w == 'solve' else ()
        for cwd in ('', 'run_scripts', 'some/where'):
            sp.append((w, k, tail, 'inlists/inlist.toml', cwd, None))
            for nm, sub in (('my_list', 'inlists'), ('my.list', 'inlists/deep'), ('inlist2', 'other')):
                for pre in ('', './'):
                    sp.append((w, k, (nm, 'toml', f'{pre}{sub}/', *tail), f'{sub}/{nm}.toml', cwd, None))
        sp += [(w, k, (nm, 'toml', '@/' + ROOT + '/inlists', *tail), f'inlists/{nm}.toml', 'x', None) for nm in ('my_list', 'inlist')]
        sp += [(w, k, tail, 'inlists/inlist.toml', 'run_scripts', f'{w}_quadratic.py')]
    sp += [('solve', k, ('--save_file_name', n), 'inlists/inlist.toml', '', None) for k in BASES for n in ('a', 'a.b', 'two words', 'x/y', '0')]
    ctx.explore('command-line', command, sp, 'inlist names, places, working directories and save names')
    words = ['inlist', 'toml', './inlists/', '--save_file_name', 'nm']
    sp = [('solve', v) for n in range(0, 6) for v in itertools.product(words, repeat=n) if not (n == 2 and v[0] == '--save_file_name') and n not in (5,)]
    sp += [('solve', v) for v in itertools.product(words, repeat=5) if v[3] != '--save_file_name'][::ctx.pick(7, 1)]
    sp += [(w, v) for w in ('analyze', 'plot') for n in (1, 2, 4) for v in itertools.product(words, repeat=n)][::ctx.pick(3, 1)]
    ctx.explore('refused', refused, sp, 'command lines of an undefined form')
    fold = [('.', '', ''), ('.', 'sub', ''), ('@/saved', 'sub', 'x_'), ('../up', '', 'y')]
    req = [(True, False, False), (False, False, False)]
    cs = [(ls, dd, p, ad, r, mt, f, p is False and f == fold[0]) for ls in ctx.pick(('a', 'ab', 'asu', 'su'), ('a', 'ab', 'asu', 'su', 'vz', 'hab', 'abs', 'u'))
          for dd in ctx.pick(((11, 12, 11, 12),), ((11, 12, 11, 12), (11, 11, 12, 12), (11, 11, 11, 11)))
          for p in (False, True) for ad in (True, False) for r in req for mt in ('trapz', 'simpson') for f in fold
          if b or (f == fold[0]) or (ad and mt == 'trapz' and r == req[0])]
    ctx.explore('complete', complete, cs, 'complete solve, analysis and plot runs on real files', chunk=1)
    pr = [(c, p, t, v, n) for c in 'asu' for p in ((0, 0, 1, 1, 1, 0, 1), (1, 1, 0, 1, 1, 0, 0)) for t in ((1, 11, 12), (1, 11, 11))
          for v in itertools.product((False, True), repeat=2) for n in ctx.pick(('nm',), ('nm', 'other'))]
    ctx.explore('profile', profile_run, pr, 'complete profile runs on real files', chunk=1)
    return ['which mode files the profile of a polytrope would use', 'the number of parallel processes']
