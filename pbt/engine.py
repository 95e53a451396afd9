"""Engine of the checks: runs generated cases against an oracle, shrinks and records failures.

Every sub-test of a property is a pair (gen, check).  `gen(d)` draws a plain case (a dict of
JSON-able values and numpy arrays) from Hypothesis; `check(case, ctx)` runs the real code on it and
raises Violation when the oracle disagrees.  An exception that comes out of /repo on a generated
(valid) case is a violation too; an exception of the harness itself is an error (exit 2).
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = os.path.join(REPO, 'PyAnEn') + os.sep

# Hypothesis is not in the venv of the project: take it from the verification tools (same Python).
for _p in (os.path.join(VERIF, '.deps'),
           '/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
    try:
        import hypothesis  # noqa
        break
    except ImportError:
        if os.path.isdir(_p):
            sys.path.append(_p)
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings, strategies as st

import numpy as np

DEFAULTS = {
    'pyanen_ens_to_prob_method': 'moments', 'pyanen_kde_bandwidth': '0.01',
    'pyanen_kde_kernel': 'gaussian', 'pyanen_kde_samples': '1000',
    'pyanen_kde_multiply_spread': '5', 'pyanen_boot_confidence': '0.95',
    'pyanen_boot_repeats': '1000', 'pyanen_boot_samples': '300',
    'pyanen_tqdm_disable': 'True', 'pyanen_tqdm_leave': 'False',
    'pyanen_tqdm_workers': '1', 'pyanen_tqdm_map_axis': '-1', 'pyanen_tqdm_chunksize': '1',
    'pyanen_use_tensorflow_math': 'False', 'pyanen_skip_nan': 'False',
    'pyanen_split_crps_ensemble_along_0': 'False', 'pyanen_integrate_range_multiplier': '5',
    'pyanen_integrate_with_less_memory': 'False', 'pyanen_integrate_wdir': '',
}


class Violation(Exception):
    """The oracle disagrees with the code."""


class Unsupported(BaseException):
    """The code asks a stand-in of the harness for something it does not provide."""


class StopShrink(KeyboardInterrupt):
    pass


class Hang(BaseException):
    """A case that does not end."""


CASE_LIMIT = 200        # seconds; cases take far less than one


def _alarm(*_):
    raise Hang()


class Known(Exception):
    """A case that falls under a known finding; nothing is concluded from it."""
    def __init__(self, key):
        self.key = key


# ------------------------------------------------------------------ file system guard

_guard = {'on': False, 'roots': (), 'hits': []}


def _check_path(ev, path):
    if not isinstance(path, (str, bytes, os.PathLike)):
        return
    p = os.path.realpath(os.fsdecode(path))
    if p.startswith('/dev/') or p.startswith('/proc/') or p == '/dev':
        return
    for r in _guard['roots']:
        if p.startswith(r + os.sep):
            return
    _guard['hits'].append((ev, p))
    raise Violation('file system effect outside the scratch folder: {} {}'.format(ev, p))


def _audit(event, args):
    if not _guard['on']:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            _check_path('open for writing', path)
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'shutil.rmtree', 'os.chmod'):
        # with a dir_fd the name is relative to a folder that was itself checked by shutil.rmtree
        if event in ('os.remove', 'os.rmdir') and len(args) > 1 and isinstance(args[-1], int) and args[-1] != -1:
            return
        _check_path(event, args[0])
    elif event in ('os.rename', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile'):
        _check_path(event, args[1])
        if event in ('os.rename', 'shutil.move'):
            _check_path(event, args[0])


sys.addaudithook(_audit)


# ------------------------------------------------------------------ case context

class Ctx:
    """Passed to the checks: scratch folders, settings, labels."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = []
        self.trivial = False
        self.n = 0

    def label(self, s):
        self.labels.append(str(s))

    def fresh_dir(self):
        # nested, so that an effect on the parent of a working directory stays inside the scratch folder
        self.n += 1
        p = os.path.join(self.scratch, 'case', 'd{}'.format(self.n), 'in', 'side')
        os.makedirs(p, exist_ok=True)
        return p

    def env(self, **kw):
        for k, v in kw.items():
            os.environ['pyanen_' + k] = str(v)

    def reset(self, case):
        self.labels = []
        self.trivial = False
        self.n = 0
        for k, v in DEFAULTS.items():
            os.environ[k] = v
        np.random.seed(int(digest(case)[:8], 16))
        random.seed(int(digest(case)[:8], 16))
        c = os.path.join(self.scratch, 'case')
        if os.path.isdir(c):
            shutil.rmtree(c, ignore_errors=True)
        os.makedirs(c)
        os.chdir(c)


# ------------------------------------------------------------------ encoding

def enc(x):
    if isinstance(x, np.ndarray):
        return {'__nd__': x.ravel().tolist(), 'dtype': str(x.dtype), 'shape': list(x.shape)}
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return {'__tuple__': [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def dec(x):
    if isinstance(x, dict):
        if '__nd__' in x:
            return np.array(x['__nd__'], dtype=x['dtype']).reshape(x['shape'])
        if '__tuple__' in x:
            return tuple(dec(v) for v in x['__tuple__'])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(v) for v in x]
    return x


def digest(case):
    return hashlib.sha1(json.dumps(enc(case), sort_keys=True, default=str).encode()).hexdigest()


def sample(case, limit=700):
    s = json.dumps(enc(case), sort_keys=True, default=str)
    if len(s) <= limit:
        return json.loads(s)
    return s[:limit] + ' ...'


# ------------------------------------------------------------------ sub-tests

class Sub:
    def __init__(self, name, gen, check, n, rule, thorough=None, shrink=True, fixed=None, known=None):
        self.name, self.gen, self.check, self.n, self.rule = name, gen, check, n, rule
        self.thorough = n * 12 if thorough is None else thorough
        self.shrink = shrink
        self.fixed = fixed or []       # plain regression cases, run first
        self.known = known or {}


def from_repo(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(fr.filename).startswith(PKG):
                return True
        if PKG in str(e):           # traceback text of a worker process
            return True
        e = e.__cause__ or e.__context__
    return False


def run_case(sub, case, ctx):
    """One execution. Returns None, or (kind, message)."""
    ctx.reset(case)
    _guard['hits'].clear()
    _guard['on'] = True
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            sub.check(case, ctx)
        if _guard['hits']:
            return 'violation', 'file system effect outside the scratch folder: {}'.format(_guard['hits'][0])
        return None
    except Violation as e:
        return 'violation', str(e)
    except Known as e:
        ctx.label('known:' + e.key)
        ctx.trivial = True
        return None
    except StopShrink:
        raise
    except Hang as e:
        if from_repo(e):
            return 'violation', 'the code did not return within {} s'.format(CASE_LIMIT)
        return 'error', 'the harness did not return within {} s'.format(CASE_LIMIT)
    except Unsupported as e:
        return 'unsupported', repr(e)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        if _guard['hits']:
            return 'violation', 'file system effect outside the scratch folder: {}'.format(_guard['hits'][0])
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if from_repo(e):
            return 'violation', 'the code raised on a valid case:\n' + tb[-3000:]
        return 'error', tb
    finally:
        signal.alarm(0)
        _guard['on'] = False


class HarnessError(BaseException):
    pass


def run_sub(prop, sub, tier, seed, scratch, budget, shrink_budget, first=None):
    from .gen import D, RD, shrink_choices
    stats = {'evaluations': 0, 'distinct': 0, 'nontrivial': 0, 'labels': {}, 'samples': [],
             'name': sub.name, 'rule': sub.rule, 'skipped': 0, 'failure': None, 'error': None, 'unsupported': None}
    os.makedirs(scratch, exist_ok=True)
    scratch = os.path.realpath(scratch)
    _guard['roots'] = (scratch,)
    os.environ['HOME'] = os.path.join(scratch, 'home')
    os.environ['TMPDIR'] = os.path.join(scratch, 'tmp')
    for k in ('HOME', 'TMPDIR'):
        os.makedirs(os.environ[k], exist_ok=True)
    tempfile.tempdir = os.environ['TMPDIR']
    ctx = Ctx(scratch)
    seen = set()
    t0 = time.time()
    fail = {}

    def one(case):
        # the case is copied so that what is recorded is what was generated
        res = run_case(sub, dec(enc(case)), ctx)
        if not fail:
            stats['evaluations'] += 1
            h = digest(case)
            if h not in seen:
                seen.add(h)
                stats['distinct'] += 1
                if not ctx.trivial:
                    stats['nontrivial'] += 1
                    if len(stats['samples']) < 2 or (len(stats['samples']) < 4 and stats['nontrivial'] % 37 == 0):
                        stats['samples'].append({'sub': sub.name, 'case': sample(case)})
            for l in set(ctx.labels):
                stats['labels'][l] = stats['labels'].get(l, 0) + 1
        if res is None:
            return
        kind, msg = res
        if kind == 'error':
            stats['error'] = msg
            raise HarnessError()
        if kind == 'unsupported':
            stats['unsupported'] = msg
            raise HarnessError()
        if not fail:
            fail['t'] = time.time()
            fail['first'] = (dec(enc(case)), msg)
            if first is not None:       # kept in case shrinking comes to no end
                with open(first + '.tmp', 'w') as f:
                    json.dump({'case': enc(case), 'message': msg, 'reproduced': None}, f)
                os.rename(first + '.tmp', first)
        size = len(json.dumps(enc(case), default=str))
        if 'size' not in fail or size <= fail['size']:
            fail.update(size=size, case=dec(enc(case)), msg=msg)
        if msg.startswith('the code did not return'):
            fail['hang'] = True
            raise StopShrink()
        raise Violation(msg)

    try:
        for c in sub.fixed:
            one(c)
        n = sub.n if tier == 'quick' else sub.thorough

        @st.composite
        def strat(draw):
            return sub.gen(D(draw))

        def body(case):
            if fail and time.time() - fail['t'] > shrink_budget:
                raise StopShrink()
            if not fail and time.time() - t0 > budget:
                stats['skipped'] += 1
                return
            one(case)

        if sub.gen is not None:
            import contextlib
            with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
                # uniformly distributed cases, shrunk over their choices
                n_uni = n - n // 3
                rng = random.Random('{}/{}/{}/uniform'.format(seed, prop, sub.name))
                for _ in range(n_uni):
                    d = RD(rng=random.Random(rng.getrandbits(64)))
                    case = sub.gen(d)
                    try:
                        body(case)
                    except Violation:
                        if sub.shrink:
                            shrink_choices(sub.gen, d.choices, body)
                        raise
                # and cases drawn by Hypothesis, which likes boundaries and duplicates
                phases = [Phase.generate] + ([Phase.shrink] if sub.shrink else [])
                f = settings(max_examples=max(1, n // 3), deadline=None, database=None, phases=phases, print_blob=False,
                             report_multiple_bugs=False, suppress_health_check=list(HealthCheck))(given(strat())(body))
                f = hypothesis.seed(int(hashlib.sha1('{}/{}/{}'.format(seed, prop, sub.name).encode()).hexdigest()[:12], 16))(f)
                f()
    except (HarnessError, StopShrink):
        pass
    except Violation:
        pass
    except BaseException as e:
        if not fail and stats['error'] is None:
            stats['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if fail:
        again = 0
        for _ in range(0 if fail.get('hang') else 2):
            r = run_case(sub, dec(enc(fail['case'])), ctx)
            again += r is not None and r[0] == 'violation'
        stats['failure'] = {'case': enc(fail['case']), 'message': fail['msg'], 'reproduced': again}
    stats['wall_s'] = time.time() - t0
    os.chdir('/')
    shutil.rmtree(scratch, ignore_errors=True)
    return stats


def _child(prop, sub, tier, seed, scratch, budget, shrink_budget, out):
    try:
        r = run_sub(prop, sub, tier, seed, scratch, budget, shrink_budget, out + '.first')
    except BaseException as e:
        r = {'name': sub.name, 'error': ''.join(traceback.format_exception(type(e), e, e.__traceback__)), 'failure': None}
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f)
    os.rename(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


def load(prop):
    return importlib.import_module('pbt.props.' + prop.lower())


def use_repo(fake_ray=True):
    """Import PyAnEn from /repo's working tree, with the stand-in for Ray."""
    if fake_ray:
        from . import fakeray
        sys.modules['ray'] = fakeray
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    for k, v in DEFAULTS.items():
        os.environ[k] = v
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import PyAnEn
        for m in ('utils_verify', 'utils_dist', 'utils_crps', 'utils_special_boot', 'utils_ss',
                  'utils_approximation', 'utils_significance', 'dist_truncgamma', 'IO', 'Grid', 'Verify'):
            try:
                importlib.import_module('PyAnEn.' + m)
            except ImportError:
                pass
    assert os.path.realpath(PyAnEn.__file__).startswith(PKG), PyAnEn.__file__
    return PyAnEn


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--n', type=int)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = a.property
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='pyanen_pbt.')
    try:
        try:
            use_repo()
            mod = load(prop)
        except Exception:
            traceback.print_exc()
            return 2
        subs = list(mod.SUBS)
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            sub = [s for s in subs if s.name == r['sub']][0]
            sd = os.path.realpath(os.path.join(scratch, 'replay'))
            _guard['roots'] = (sd,)
            for k in ('home', 'tmp'):
                os.makedirs(os.path.join(sd, k))
            os.environ['HOME'], os.environ['TMPDIR'] = os.path.join(sd, 'home'), os.path.join(sd, 'tmp')
            tempfile.tempdir = os.environ['TMPDIR']
            res = run_case(sub, dec(r['case']), Ctx(sd))
            os.chdir('/')
            print(res[0] + ': ' + res[1] if res else 'no violation')
            if res and res[0] == 'violation':
                print('VIOLATION property={} replay={}'.format(prop, a.replay))
                return 1
            return 0 if res is None else 2
        if a.only:
            subs = [s for s in subs if s.name in a.only.split(',')]
        if a.n:
            for s in subs:
                s.n = s.thorough = a.n
        budget = 240 if tier == 'quick' else 3000
        shrink_budget = 25 if tier == 'quick' else 120
        hard = budget + shrink_budget + 240
        results = run_parallel(prop, subs, tier, seed, scratch, budget, shrink_budget, hard)
        return report(prop, mod, subs, results, tier, seed, t0, a, scratch)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def run_parallel(prop, subs, tier, seed, scratch, budget, shrink_budget, hard):
    jobs, results, todo = {}, {}, list(subs)
    width = min(8, os.cpu_count() or 4)
    fork = mp.get_context('fork')
    while todo or jobs:
        while todo and len(jobs) < width:
            s = todo.pop(0)
            out = os.path.join(scratch, s.name + '.json')
            p = fork.Process(target=_child, args=(prop, s, tier, seed, os.path.join(scratch, 'sub_' + s.name),
                                                  budget, shrink_budget, out), daemon=False)
            p.start()
            jobs[s.name] = (p, out, time.time())
        time.sleep(0.02)
        for name, (p, out, ts) in list(jobs.items()):
            if not p.is_alive():
                p.join()
                if os.path.exists(out):
                    with open(out) as f:
                        results[name] = json.load(f)
                else:
                    results[name] = {'name': name, 'error': 'the sub-test process ended with {}'.format(p.exitcode), 'failure': found(out)}
                del jobs[name]
            elif time.time() - ts > hard:
                kill_tree(p.pid)
                p.join()
                results[name] = {'name': name, 'error': 'time limit', 'failure': found(out)}
                del jobs[name]
    return results


def found(out):
    """The failure of a sub-test whose process did not come back."""
    if not os.path.exists(out + '.first'):
        return None
    with open(out + '.first') as f:
        return json.load(f)


def kill_tree(pid):
    kids = []
    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/{}/stat'.format(d)) as f:
                    if int(f.read().rsplit(')', 1)[1].split()[1]) == pid:
                        kids.append(int(d))
            except (OSError, ValueError):
                pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    for k in kids:
        kill_tree(k)


def run_known(prop, mod, scratch):
    """Known findings: each listed one is executed; it is printed while it still fails."""
    path = os.path.join(VERIF, 'known_findings.json')
    out = []
    with open(path) as f:
        listed = [k for k in json.load(f)['known'] if k['property'] == prop]
    if not listed:
        return out
    os.makedirs(os.path.join(scratch, 'known', 'home'), exist_ok=True)
    sd = os.path.realpath(os.path.join(scratch, 'known'))
    _guard['roots'] = (sd,)
    ctx = Ctx(sd)
    for k in listed:
        fn = getattr(mod, 'KNOWN', {}).get(k['key'])
        if fn is None:
            continue
        sub = Sub(k['key'], None, lambda case, c, fn=fn: fn(c), 1, '')
        res = run_case(sub, {'known': k['key']}, ctx)
        if res is not None and res[0] == 'violation':
            out.append(k)
    os.chdir('/')
    return out


def report(prop, mod, subs, results, tier, seed, t0, a, scratch):
    fails, errors = [], []
    for s in subs:
        r = results[s.name]
        if r.get('failure'):
            fails.append(r)
        elif r.get('error'):
            errors.append(r)
    known = run_known(prop, mod, scratch)
    for k in known:
        print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
    if a.v or errors:
        for s in subs:
            r = results[s.name]
            print('{:28s} eval={} nontrivial={} skipped={} wall={:.1f} {}'.format(
                s.name, r.get('evaluations'), r.get('nontrivial'), r.get('skipped'), r.get('wall_s', 0),
                r.get('labels') if a.v else ''))
            if r.get('unsupported'):
                print('   unsupported: ' + r['unsupported'])
    for r in errors:
        print('ERROR in {}:\n{}'.format(r['name'], r['error']), file=sys.stderr)
    if not a.no_evidence and not a.only:
        cov = {
            'evaluations': sum(r.get('evaluations', 0) for r in results.values()),
            'distinct_nontrivial': sum(r.get('nontrivial', 0) for r in results.values()),
            'rule': '; '.join('{}: {}'.format(s.name, s.rule) for s in subs),
            'samples': [x for s in subs for x in results[s.name].get('samples', [])[:2]],
            'per_subtest': {s.name: {k: results[s.name].get(k) for k in
                                     ('evaluations', 'distinct', 'nontrivial', 'skipped', 'labels', 'wall_s', 'unsupported')} for s in subs},
        }
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(fails)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if fails:
        for r in fails:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '{}_{}.json'.format(prop, r['name']))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'sub': r['name'], 'message': r['failure']['message'],
                           'reproduced': r['failure']['reproduced'], 'case': r['failure']['case']}, f, indent=1)
            print('--- {} {}: {}'.format(prop, r['name'], r['failure']['message'][:1500]))
            print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if errors:
        return 2
    print('{} held on {} cases ({:.1f} s)'.format(prop, sum(r.get('evaluations', 0) for r in results.values()), time.time() - t0))
    return 0
