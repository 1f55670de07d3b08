"""C15 saved results read back exactly, whatever was saved before."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import aes, saves
from mc.core import Fail, T, digest, ensure

META = {
    'technique': 'explicit enumeration of save histories (open mode, size and kind of the saved run, foreign contents) on the real HDF5 files, against a dictionary model of the file',
    'note': 'Histories of up to 3 saves over all open modes, 1-3 triads, polytropic or not, in files with or without '
            'foreign entries; plus all histories of dataset values over shapes, types, empty and missing values.',
}

MODES = {'w': ((False, False),), 'a': ((False, True),), 'r+': ((True, False), (True, True))}
CACHE = {}


def payload(n, poly, tag):
    if (n, poly, tag) not in CACHE:
        from aesolver.data_handling import NumericalSaver
        s, D, A = saves.run_of(n, poly=poly, tag=tag, l=(3, 2, 2), m=(2, 1, -1))
        d = tempfile.mkdtemp(prefix='mc-c15-')
        try:
            ns = NumericalSaver('x', s, base_dir=d, polytropic=poly)
            ns()
            CACHE[n, poly, tag] = ns.unpacked_data, D, A
        finally:
            shutil.rmtree(d)
    return CACHE[n, poly, tag]


FOREIGN = {'coupling/generic/notes': np.array([1, 2, 3]), 'other/thing': np.array([[1., 2.], [3., 4.]]), 'top': np.array(5.)}


def history(case):
    import h5py
    from aesolver.data_handling.data_specific import HDF5Saver
    foreign, steps = case
    d = tempfile.mkdtemp(prefix='mc-c15-')
    try:
        path = f'{d}/res_k_1_1_1_m_2_1_-1.h5'
        D, A, exists = {}, {}, False
        if foreign:
            with h5py.File(path, 'w') as f:
                for k, v in FOREIGN.items():
                    f[k] = v
                f['other'].attrs['mine'] = 'kept'
                f.attrs['owner'] = 7
            D, A, exists = dict(FOREIGN), {('other', 'mine'): 'kept', ('/', 'owner'): 7}, True
        for t, (mode, arg, n, poly) in enumerate(steps):
            up, d_new, a_new = payload(n, poly, t)
            sv = HDF5Saver(f'{d}/res.h5', up, poly)
            if not (t == 0 and arg == 0 and mode == 'w'):       # write mode is the default
                sv.h5_mode = MODES[mode][arg % len(MODES[mode])]
            ensure(sv.h5_mode == mode, f'open mode {sv.h5_mode}, expected {mode}')
            T.call()
            if mode == 'r+' and not exists:
                try:
                    sv.save_data()
                except OSError:
                    ensure(not os.listdir(d), f'refused save left {os.listdir(d)}')
                    continue
                raise Fail('read-write save to a file that does not exist succeeded')
            sv.save_data()
            if mode == 'w':
                D, A = {}, {}
            D = {**D, **d_new} if mode != 'a' else {**d_new, **D}
            A = {**A, **a_new}
            exists = True
            ensure(os.listdir(d) == [os.path.basename(path)], lambda: f'files: {os.listdir(d)}')
            got = saves.read(path)
            diff = saves.differences(got, (D, A))
            ensure(not diff, lambda: f'after save {t + 1} of {steps}: {diff}')
            T.seen(digest(sorted((k, np.asarray(v).tobytes()) for k, v in got[0].items())))
        return 'ok'
    finally:
        shutil.rmtree(d)


def values():
    import h5py
    return {'vec3': np.array([1., -2., 3.]), 'vec3b': np.array([4., 5., 6.]), 'vec1': np.array([7.]), 'scalar': np.array(8.),
            'row': np.array([[1., 2., 3.]]), 'col': np.array([[1.], [2.], [3.]]), 'mat': np.arange(6.).reshape(2, 3),
            'mat33': np.arange(9.).reshape(3, 3), 'nan': np.array([np.nan, np.inf, -0.]),
            'f32': np.array([1., 2., 3.], dtype='f4'), 'int': np.array([1, 2, 3]), 'int32': np.array([9, 8, 7], dtype='i4'),
            'bool': np.array([True, False, True]), 'bool1': np.array([True]), 'str': np.array([b'ab', b'c', b'd']),
            'long': np.array([b'abcdef', b'c', b'd']), 'none3': np.array([], dtype=float), 'none23': np.empty((2, 0)),
            'empty': h5py.Empty('f'), 'emptyd': h5py.Empty('d'), 'np': np.float64(3.), 'cplx': np.array([1 + 2j])}


def plain(v):
    return None if v.shape is None else np.asarray(v)


def overwrite(case):
    import h5py
    from aesolver.data_handling.data_specific.hdf5_specific import overwrite_dataset
    path, seq = case
    V = values()
    d = tempfile.mkdtemp(prefix='mc-c15-')
    try:
        for t, k in enumerate(seq):
            with h5py.File(f'{d}/f.h5', 'a') as f:
                if t == 0:
                    f.create_dataset(path, data=V[k])
                    f['g/other'] = np.array([1, 2])
                    f.attrs['owner'] = 7
                else:
                    T.call()
                    overwrite_dataset(f, path, V[k])
            D, A = saves.read(f'{d}/f.h5')
            want = {path: plain(V[k]), 'g/other': np.array([1, 2])}
            diff = saves.differences((D, A), (want, {('/', 'owner'): 7}))
            ensure(not diff, lambda: f'values {seq[:t + 1]} saved one after the other at {path}: {diff}')
            with h5py.File(f'{d}/f.h5', 'r') as f:
                ensure(f[path].dtype == V[k].dtype, lambda: f'type {f[path].dtype} after saving {V[k].dtype}')
        return seq
    finally:
        shutil.rmtree(d)


def generic(case):
    """Saver-level create/overwrite/keep with missing values."""
    mode, a, b = case
    import h5py
    from aesolver.data_handling.data_specific import HDF5Saver
    up, _, _ = payload(1, True, 0)
    if not hasattr(HDF5Saver, '_create_overwrite_dataset') or not hasattr(HDF5Saver, '_create_attribute_in_group'):
        return 'no such internals'
    V = {**values(), 'missing': None}
    d = tempfile.mkdtemp(prefix='mc-c15-')
    try:
        sv = HDF5Saver(f'{d}/res.h5', up, True)
        sv.h5_mode = MODES[mode][0]
        with h5py.File(f'{d}/g.h5', 'a') as f:
            for v in (a, b):
                T.call()
                sv._create_overwrite_dataset(f, 'p/q', 'd', value=V[v])
                sv._create_attribute_in_group(f, 'p', 'at', value=None if V[v] is None else np.float64(3.5))
        D, A = saves.read(f'{d}/g.h5')
        keep = V[b] if mode == 'r+' else V[a]
        want = None if keep is None else plain(keep)
        ensure(set(D) == {'p/q/d'} and saves.same(D['p/q/d'], want),
               lambda: f'mode {mode}: {a} then {b} gives {D}, expected {want}')
        at = A['p', 'at']
        ensure((isinstance(at, h5py.Empty)) == (V[b] is None) and (V[b] is None or at == 3.5), lambda: f'attribute {at}')
        return mode, a, b
    finally:
        shutil.rmtree(d)


def run(ctx):
    aes.use(ctx)
    ks = list(values())
    ctx.explore('dataset-pairs', overwrite, [(p, s) for p in ('g/d', 'top', 'a/b/c') for s in itertools.product(ks, repeat=2)],
                'all ordered pairs of values at one dataset')
    short = ks if ctx.thorough else ['vec3', 'vec1', 'scalar', 'mat', 'int', 'bool', 'long', 'none3', 'empty']
    ctx.explore('dataset-triples', overwrite, [('g/d', s) for s in itertools.product(short, repeat=3)],
                'all ordered triples of values at one dataset')
    ctx.explore('missing', generic, [(m, a, b) for m in ('a', 'r+') for a in ks + ['missing'] for b in ks + ['missing']],
                'saver-level creation, overwriting and keeping, with missing values')
    ops = [(m, g, n, p) for m in MODES for g in range(len(MODES[m])) for n in (1, 2, 3) for p in (False, True)]
    few = [(m, 0, n, p) for m in MODES for n, p in ((1, False), (3, False), (1, True), (3, True))]
    hist = [(f, h) for f in (False, True) for k in (1, 2) for h in itertools.product(ops, repeat=k)]
    if ctx.thorough:
        hist += [(f, h) for f in (False, True) for h in itertools.product(ops, repeat=3)]
    else:
        hist += [(f, h) for f in (False, True) for h in itertools.product(few, repeat=3) if len({x[0] for x in h}) > 1]
    big = [(m, 0, n, p) for m in MODES for n, p in ((2, False), (60, False), (300, True))]
    hist += [(f, h) for f in (False, True) for h in itertools.product(big, repeat=2) if max(x[2] for x in h) > 2]
    ctx.explore('save-histories', history, hist, 'all histories of saves')
