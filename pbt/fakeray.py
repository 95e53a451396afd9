"""A stand-in for Ray that runs the tasks in this process and owns the schedule.

`order` is a list of integers drawn by Hypothesis: it decides in which order submitted tasks run and
which of the finished ones ray.wait reports first.  Arguments and results are pickled like Ray does,
so that a task cannot share memory with the caller.
"""
import pickle

import cloudpickle

from . import engine

_state = {'on': False, 'order': [], 'i': 0, 'objs': {}, 'next': 0, 'inits': 0, 'shutdowns': 0}


def harness_schedule(order):
    _state.update(on=False, order=list(order), i=0, objs={}, next=0, inits=0, shutdowns=0)


def harness_state():
    return dict(_state)


def _pick(n):
    o = _state['order']
    if not o or n <= 1:
        return 0
    v = o[_state['i'] % len(o)]
    _state['i'] += 1
    return v % n


class ObjectRef:
    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return hash(('ref', self.k))

    def __eq__(self, other):
        return isinstance(other, ObjectRef) and other.k == self.k


def init(*a, ignore_reinit_error=False, **kw):
    if _state['on'] and not ignore_reinit_error:
        raise RuntimeError('Maybe you called ray.init twice by accident?')
    _state['on'] = True
    _state['inits'] += 1


def is_initialized():
    return _state['on']


def shutdown(*a, **kw):
    _state['on'] = False
    _state['objs'] = {}
    _state['shutdowns'] += 1


def _new(v):
    k = _state['next']
    _state['next'] += 1
    _state['objs'][k] = v
    return ObjectRef(k)


def put(x):
    if not _state['on']:
        init()
    return _new(('done', cloudpickle.dumps(x)))


def _run(k):
    st, v = _state['objs'][k]
    if st == 'todo':
        f, a, kw = pickle.loads(v)
        a = [get(x) if isinstance(x, ObjectRef) else x for x in a]
        kw = {n: get(x) if isinstance(x, ObjectRef) else x for n, x in kw.items()}
        try:
            r = ('done', cloudpickle.dumps(f(*a, **kw)))
        except Exception as e:
            r = ('failed', e)
        _state['objs'][k] = r


def get(refs, *, timeout=None):
    if isinstance(refs, list):
        return [get(r) for r in refs]
    if refs.k not in _state['objs']:
        raise RuntimeError('ray.get on an object that is gone (shutdown before get?)')
    _run(refs.k)
    st, v = _state['objs'][refs.k]
    if st == 'failed':
        raise v
    return pickle.loads(v)


def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
    refs = list(refs)
    done, rest = [], list(refs)
    for _ in range(num_returns):
        r = rest.pop(_pick(len(rest)))
        _run(r.k)
        done.append(r)
    return done, rest


class _Remote:
    def __init__(self, f):
        self.f = f

    def remote(self, *a, **kw):
        if not _state['on']:
            init()
        return _new(('todo', cloudpickle.dumps((self.f, a, kw))))

    def options(self, **kw):
        return self


def remote(*a, **kw):
    if len(a) == 1 and callable(a[0]) and not kw:
        return _Remote(a[0])
    return lambda f: _Remote(f)


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise engine.Unsupported('ray.' + name)
