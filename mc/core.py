"""Bounded-exhaustive explorer used by every check of /verif.

A check enumerates *cases* (inputs, operation histories, configurations, schedules) of
a finite, explicitly bounded space and runs the real code of /repo on every one of them,
comparing what it observes with a reference model.  Nothing is sampled.

case functions  fn(case) -> outcome          (anything; its digest is one observed state)
                raise Fail(message)           the property is broken on this case
                T.call(n) / T.step(n)         count of transitions taken in the real code
"""
import hashlib
import json
import os
import pickle
import select
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')


class Fail(Exception):
    """The property does not hold on the case being run."""


class Hang(Exception):
    pass


class _T:
    """Counters of the case function that is running."""
    def __init__(self):
        self.calls = 0
        self.states = set()

    def seen(self, obj):
        """One observed implementation state inside a case."""
        self.states.add(digest(obj))

    def call(self, n=1):
        self.calls += n

    step = call


T = _T()


def ensure(cond, msg):
    if not cond:
        raise Fail(msg() if callable(msg) else msg)


def digest(obj):
    try:
        data = pickle.dumps(obj, protocol=4)
    except Exception:
        data = repr(obj).encode()
    return hashlib.blake2b(data, digest_size=8).digest()


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, complex):
        return [o.real, o.imag]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def _alarm(signum, frame):
    raise Hang('no answer within the time limit of one case')


def _run_one(fn, case, limit):
    """(kind, payload): ('ok', outcome digest) or ('fail', message)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        out = fn(case)
        return 'ok', out
    except Fail as e:
        return 'fail', str(e)
    except Hang as e:
        return 'fail', f'hang: {e}'
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as e:   # also SystemExit raised by the code under test
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}'
                            for f in reversed(tb[-4:]))
        return 'fail', f'raised {type(e).__name__}: {str(e)[:400]} [{where}]'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Ctx:
    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.families = {}
        self.fns = {}
        self.states = set()
        self.calls = 0
        self.traces = 0
        self.samples = []
        self.assumptions = []
        self.rule = []
        self.extra = {}
        self.failures = []      # (family, case, message)
        self.known_hit = {}
        self.known = load_known(pid)
        self.jobs = int(os.environ.get('MC_JOBS', '8'))
        self.scratch = tempfile.mkdtemp(prefix=f'mc-{pid}-')
        self.max_fail = 5

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def register(self, fam, fn):
        self.fns[fam] = fn

    def explore(self, fam, fn, cases, what='', limit=60., jobs=None, chunk=None):
        """Runs fn on every case; the whole iterable is always exhausted."""
        self.fns[fam] = fn
        self._only = getattr(self, '_only', None)
        if self._only and fam not in self._only:
            return
        t0 = time.time()
        cases = list(cases)
        n = len(cases)
        jobs = jobs or self.jobs
        if chunk is None:
            chunk = max(1, min(4000, -(-n // (jobs * 4))))
        chunks = [(i, cases[i:i + chunk]) for i in range(0, n, chunk)]
        fails, fam_states, calls, done = [], set(), 0, 0
        samples = []
        for idx, res in fork_map(fn, chunks, jobs, limit, self.scratch):
            fam_states |= res['states']
            calls += res['calls']
            done += res['done']
            samples += res['samples']
            for ci, msg in res['fails']:
                fails.append((idx + ci, msg))
        fails.sort()
        if os.environ.get('MC_FREEZE'):      # development only, see tools/README
            with open(os.environ['MC_FREEZE'], 'a') as fh:
                for ci, msg in fails:
                    fh.write(json.dumps([fam, json.dumps(jsonable(cases[ci])), msg_id(msg), msg]) + '\n')
        confirmed = []
        for ci, msg in fails[:200]:
            if len(confirmed) >= self.max_fail:
                break
            kf = self.match_known(fam, cases[ci], msg)
            if kf is not None:
                self.known_hit.setdefault(kf['id'], 0)
                self.known_hit[kf['id']] += 1
                continue
            # replay before report: alone, in a fresh process, with a longer limit
            again = run_forked(fn, cases[ci], limit * 3, self.scratch)
            if again[0] == 'fail':
                confirmed.append((fam, cases[ci], again[1]))
            else:
                raise RuntimeError(f'{fam}: case {cases[ci]!r} failed ({msg}) and passed '
                                   'when replayed: the harness does not own all nondeterminism')
        for ci, msg in fails[200:]:
            kf = self.match_known(fam, cases[ci], msg)
            if kf is not None:
                self.known_hit[kf['id']] = self.known_hit.get(kf['id'], 0) + 1
            elif not confirmed:
                again = run_forked(fn, cases[ci], limit * 3, self.scratch)
                if again[0] == 'fail':
                    confirmed.append((fam, cases[ci], again[1]))
        self.failures += confirmed
        self.states |= {(fam, s) for s in fam_states}
        self.calls += calls
        self.traces += done
        self.families[fam] = {'cases': n, 'implementation_calls': calls,
                              'distinct_observed_outcomes': len(fam_states),
                              'failing_cases': len(fails), 'what': what,
                              'wall_s': round(time.time() - t0, 2)}
        if samples:
            self.samples.append({'family': fam, **samples[len(samples) // 2]})
        print(f'[{self.pid}] {fam}: cases={n} calls={calls} outcomes={len(fam_states)} '
              f'failing={len(fails)} ({time.time() - t0:.1f} s)', flush=True)

    def match_known(self, fam, case, msg):
        for kf in self.known:
            if kf.get('status') != 'known' or kf['family'] != fam:
                continue
            cj = jsonable(case)
            if 'cases_file' in kf:
                if '_table' not in kf:
                    with open(f'{HERE}/{kf["cases_file"]}') as fh:
                        kf['_table'] = json.load(fh)
                if kf['_table'].get(json.dumps(cj)) != msg_id(msg):
                    continue
                return kf
            if 'case' in kf and kf['case'] != cj:
                continue
            if 'cases' in kf and cj not in kf['cases']:
                continue
            if 'message' in kf and kf['message'] not in msg:
                continue
            return kf
        return None

    def finish(self):
        import shutil
        shutil.rmtree(self.scratch, ignore_errors=True)
        wall = time.time() - self.t0
        cov = {
            'states': len(self.states),
            'transitions': self.calls,
            'traces_validated_against_impl': self.traces,
            'evaluations': sum(f['cases'] for f in self.families.values()),
            'distinct_nontrivial': len(self.states),
            'rule': 'Every element of each listed bounded space is run once on the real code '
                    'built from /repo; states = distinct digests of everything observed from '
                    'the code, transitions = calls (steps) made into it, traces = executions '
                    'compared with the reference model from start to end. '
                    + ' '.join(self.rule),
            'samples': self.samples[:40] or ['none'],
            'exhaustive': True,
            'families': self.families,
            'known_findings_reproduced': self.known_hit,
            **self.extra,
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.failures)}
        os.makedirs(f'{HERE}/evidence', exist_ok=True)
        with open(f'{HERE}/evidence/{self.pid}.json', 'w') as fh:
            json.dump(jsonable(ev), fh, indent=1)
        for kf in self.known:
            if kf.get('status') == 'known' and kf['id'] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {kf['what']}")
        print(f'[{self.pid}] tier={self.tier} states={cov["states"]} '
              f'transitions={cov["transitions"]} traces={cov["traces_validated_against_impl"]} '
              f'wall={wall:.1f}s')
        if not self.failures:
            print(f'[{self.pid}] property held on everything explored')
            return 0
        os.makedirs(f'{HERE}/replays', exist_ok=True)
        for k, (fam, case, msg) in enumerate(self.failures[:self.max_fail]):
            path = f'{HERE}/replays/{self.pid}-{k}.json'
            with open(path, 'wb') as fh:
                fh.write(json.dumps({
                    'property': self.pid, 'family': fam, 'case': jsonable(case),
                    'message': msg, 'tier': self.tier,
                    'pickle': pickle.dumps(case).hex(),
                    'how': f'bash check.sh {self.pid} --replay {path}'}, indent=1).encode())
            print(f'  {fam}: case {json.dumps(jsonable(case))[:600]}')
            print(f'  -> {msg[:1500]}')
            print(f'VIOLATION property={self.pid} replay={path}', flush=True)
        return 1


def msg_id(msg):
    """Identity of a failure: what was observed, without source positions."""
    import re
    msg = re.sub(r' \[[^\[\]]*\.py:\d+:.*\]$', '', msg)
    return hashlib.blake2b(msg.encode(), digest_size=6).hexdigest()


def load_known(pid):
    p = f'{HERE}/known_findings.json'
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)['findings'] if k['property'] == pid]


# ---------------------------------------------------------------- processes
def _child(fn, items, limit, path):
    T.calls = 0
    T.states = set()
    res = {'states': set(), 'calls': 0, 'done': 0, 'fails': [], 'samples': []}
    for i, case in enumerate(items):
        with open(path + '.at', 'w') as fh:
            fh.write(str(i))
        kind, out = _run_one(fn, case, limit)
        if kind == 'ok':
            res['states'].add(digest(out))
            res['done'] += 1
            if i in (0, len(items) // 2):
                res['samples'].append({'case': jsonable(case), 'observed': repr(out)[:300]})
        else:
            res['fails'].append((i, out))
    res['calls'] = T.calls
    res['states'] |= T.states
    with open(path + '.tmp', 'wb') as fh:
        pickle.dump(res, fh)
    os.rename(path + '.tmp', path)


def _quiet():
    """Output of the code under test is not output of the check."""
    fd = os.open('/dev/null', os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def _spawn(fn, items, limit, path):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            if not os.environ.get('MC_LOUD'):
                _quiet()
            _child(fn, items, limit, path)
        except BaseException:
            with open(path + '.err', 'w') as fh:
                traceback.print_exc(file=fh)
            code = 3
        finally:
            os._exit(code)
    return pid


def fork_map(fn, chunks, jobs, limit, scratch):
    """Runs chunks in forked children. A child that dies (crash in native code) is a
    failing case: the rest of its chunk is then run in further children."""
    todo = list(reversed([(idx, items, 0) for idx, items in chunks]))
    live = {}
    serial = 0
    try:
        while todo or live:
            while todo and len(live) < jobs:
                idx, items, off = todo.pop()
                serial += 1
                path = f'{scratch}/c{serial}'
                live[_spawn(fn, items, limit, path)] = (idx, items, off, path, time.time())
            pid, status = os.wait()
            if pid not in live:
                continue
            idx, items, off, path, started = live.pop(pid)
            if os.path.exists(path):
                with open(path, 'rb') as fh:
                    res = pickle.load(fh)
                os.unlink(path)
                yield idx, res
                continue
            if os.path.exists(path + '.err'):
                raise RuntimeError('harness error in a child:\n' + open(path + '.err').read())
            at = int(open(path + '.at').read() or 0) if os.path.exists(path + '.at') else 0
            sig = status & 0x7f
            yield idx, {'states': set(), 'calls': 0, 'done': 0, 'samples': [],
                        'fails': [(at, f'process died: signal {sig}, status {status >> 8}')]}
            if items[:at]:
                todo.append((idx, items[:at], 0))
            if items[at + 1:]:
                todo.append((idx + at + 1, items[at + 1:], 0))
    finally:
        for pid in live:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass


def run_forked(fn, case, limit, scratch):
    path = f'{scratch}/one'
    for suffix in ('', '.at', '.err'):
        if os.path.exists(path + suffix):
            os.unlink(path + suffix)
    pid = _spawn(fn, [case], limit, path)
    _, status = os.waitpid(pid, 0)
    if os.path.exists(path):
        with open(path, 'rb') as fh:
            res = pickle.load(fh)
        os.unlink(path)
        if res['fails']:
            return 'fail', res['fails'][0][1]
        return 'ok', None
    if os.path.exists(path + '.err'):
        raise RuntimeError(open(path + '.err').read())
    return 'fail', f'process died: signal {status & 0x7f}, status {status >> 8}'


# ---------------------------------------------------------------- comparisons
def close(a, b, rtol=1e-9, atol=1e-12):
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b)
                           | ((a != a) & (b != b))))


def rnd(x, digits=9):
    """Rounded value for outcome digests (kept independent of last-bit effects)."""
    import numpy as np
    try:
        a = np.asarray(x)
        if a.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                return [f'{v:.{digits}g}' for v in a.ravel().tolist()]
        return a.ravel().tolist()
    except Exception:
        return repr(x)
