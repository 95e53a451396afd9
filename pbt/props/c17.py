"""C17: saving intermediate data is transparent."""
import os
import pickle

import numpy as np

from .. import ver
from ..engine import Sub, Violation
from ..gen import need, need_close, norm_axis

ASSUMPTIONS = ['a folder is reused (start_from_scratch=False) only with the same forecasts, observations and settings other than '
               'the average axis and the bootstrap',
               'a crash while saving is modelled as a file cut at any byte']

THR = [0.5, 1., 1.0000001, 1.5, 2, 7., 0, -1.]


def gen_data(d, cls, k=1.):
    shape = (2, d.int(2, 3))
    c = ver.gen(d, cls, shape, **({'members': 4} if cls == 'ens' else {}))
    for key in ('f', 'o', 'mu', 'sigma', 'unshifted_mu', 'shift'):
        if key in c and k != 1.:
            c[key] = c[key] * k
    if 'irange' in c:
        c['irange'] = tuple(x * k for x in c['irange'])
    return c


def call_gen(d, cls, k=1.):
    names = ['error', 'ab_error', 'sq_error', 'rmse', 'corr', 'iou_determ', 'f_determ']
    if cls != 'determ':
        names += ['variance', 'brier', 'brier', 'cdf', 'cdf', 'brier_decomp', 'iou_prob', 'ss', 'reliability', 'roc', 'sharpness', 'pit_rank']
        if cls != 'tgamma':
            names += ['crps']
        if cls == 'ens':
            names += ['spread']
        elif cls != 'hurdle':
            names += ['prob_to_ens', 'spread']
    m = d.pick(names)
    op = {'op': 'call', 'm': m}
    if m in ('iou_determ', 'brier', 'cdf', 'brier_decomp', 'roc', 'sharpness', 'reliability'):
        op['side'] = d.pick(['over', 'below'])
        op['t'] = d.pick(THR)
        if k != 1.:
            op['t'] = op['t'] * k
        if m in ('brier', 'cdf') and d.bool():
            op['arr'] = [(d.pick([1., 2.]) + d.pick([0., 1e-9])) * k for _ in range(6)]
        if m == 'reliability':
            op['n'] = d.pick([2, 3, 15])
    if m == 'iou_prob':
        op['side'], op['t'], op['pt'] = d.pick(['over', 'below']), d.pick(THR) * k, d.pick([0.3, 0.5, 0.500000001])
    if m == 'ss':
        op['n'] = d.int(1, 2)
    if m not in ('prob_to_ens', 'pit_rank', 'rmse'):
        op['name'] = d.pick(['default', 'default', 'default', 'none', 'my data', 'LITERAL_'])
    return op


def gen(cls):
    def g(d):
        k1 = d.pick([1., 1., 1., 1e-3, 1e-6, 1e5])
        c = {'cls': cls, 'data': [gen_data(d, cls, k1) for _ in range(2)], 'axis': d.axis(2), 'scratch': d.bool(), 'ops': []}
        c['less'], c['workers'] = d.int(0, 3) == 0, d.pick([1, 1, 1, 2]) if cls == 'hurdle' else 1
        c['data'][1]['o'] = np.resize(c['data'][1]['o'], c['data'][0]['o'].shape)
        for k in ver.FORECAST_KEYS:
            if k in c['data'][1]:
                c['data'][1][k] = np.resize(c['data'][1][k], c['data'][0][k].shape)
        # the same few calls again and again: what is saved must be found, but only where it belongs
        pool = [call_gen(d, cls, k1) for _ in range(d.int(1, 3))]

        def call():
            return dict(d.pick(pool)) if d.int(0, 2) else call_gen(d, cls, k1)

        for _ in range(d.int(2, 12)):
            k = d.pick(['call'] * 6 + ['axis'] + ['axis', 'boot', 'noboot', 'reopen', 'reopen', 'replace', 'disable', 'enable', 'enable'])
            if k == 'call':
                c['ops'].append(call())
            elif k == 'axis':
                c['ops'].append({'op': k, 'axis': d.axis(2)})
            elif k in ('reopen',):
                c['ops'].append({'op': k, 'axis': d.axis(2)})
            elif k == 'enable':
                c['ops'].append({'op': k, 'scratch': d.bool()})
            else:
                c['ops'].append({'op': k})
        c['ops'].append(call())
        return c
    return g


def flat(x):
    """A result as a list of arrays."""
    if isinstance(x, (tuple, list)):
        return [y for z in x for y in flat(z)]
    return [np.asarray(x, float)]


def run(v, op, uniq):
    m = op['m']
    kw = {}
    if 'side' in op and m != 'iou_prob':
        t = op['t']
        if 'arr' in op:
            t = np.array(op['arr'])[:v.o.size].reshape(v.o.shape)
        kw[op['side']] = t
    if m == 'iou_prob':
        kw = {'over': (None, None), 'below': (None, None)}
        kw[op['side']] = (op['t'], op['pt'])
    if 'n' in op:
        kw['nbins'] = op['n']
    if op.get('name') == 'none':
        kw['save_name'] = None
    elif op.get('name') == 'my data':
        kw['save_name'] = 'my data ' + m
    elif op.get('name') == 'LITERAL_':
        if m in ('corr', 'brier_decomp', 'iou_determ', 'iou_prob', 'ss', 'reliability'):
            kw['save_name'] = None       # they hold averaged data: a literal name cannot tell the average axes apart
        else:
            kw['save_name'] = 'LITERAL_' + 'x{}'.format(uniq)
    if m == 'ss':
        return v.binned_spread_skill(**kw)
    if m == 'pit_rank':
        return v.rank_hist() if hasattr(v, 'ensemble_axis') else v.pit()
    if m == 'rmse':
        return v.rmse()
    return getattr(v, m)(**kw)


RANDOM = ('prob_to_ens', 'pit_rank', 'spread')


def check(c, ctx):
    wd = ctx.fresh_dir()
    ctx.env(integrate_with_less_memory=c['less'], tqdm_workers=c['workers'])
    big = max(ver.mag(x) for x in c['data'])
    tiny = 1e-12 * min(1., big * big)
    parent = os.path.dirname(wd)
    for p in (os.path.join(parent, 'mine.txt'), os.path.join(parent, 'side2.pkl')):
        with open(p, 'w') as f:
            f.write('keep')
    os.makedirs(os.path.join(parent, 'side.bak'))
    kw = {} if c['cls'] in ('determ', 'ens') else {}
    if c['cls'] not in ('determ', 'ens', 'hurdle'):
        kw['n_sample_members'] = 3
    cur, axis = 0, c['axis']
    s = ver.build(c['data'][0], avg_axis=axis, working_directory=wd, start_from_scratch=c['scratch'], **kw)
    saving, scratch, boot = True, c['scratch'], None
    memory = {}                 # what random results were saved
    uniq = {}
    calls = 0

    def wiped():
        memory.clear()

    for op in c['ops']:
        k = op['op']
        if k == 'call':
            calls += 1
            key = repr(sorted((a, repr(b)) for a, b in op.items()))
            u = uniq.setdefault(key, len(uniq))
            # literal names of other data must not be found: the folder is wiped when the data are replaced
            t = ver.build(c['data'][cur], avg_axis=axis, boot_samples=boot, **kw)
            random = op['m'] in RANDOM and not (op['m'] == 'spread' and c['cls'] == 'ens') or \
                (op['m'] == 'pit_rank')
            try:
                got = flat(run(s, op, u))
            except Exception as e:
                if op['m'] == 'reliability' or op['m'] == 'roc' or isinstance(e, (AssertionError,)):
                    try:
                        run(t, op, u)
                    except Exception:
                        continue
                raise
            if random:
                mk = 'ens' if op['m'] == 'prob_to_ens' else ('rank' if op['m'] == 'pit_rank' else None)
                if mk and saving:
                    if mk in memory:
                        need(len(got) == len(memory[mk]) and all(np.array_equal(a, b, equal_nan=True) for a, b in zip(got, memory[mk])),
                             '{} changed between two calls although it is saved', op['m'])
                    memory[mk] = [x.copy() for x in got]
                elif op['m'] == 'spread' and saving and boot is None:
                    e = np.asarray(s.prob_to_ens())
                    memory.setdefault('ens', [e.copy()])
                    need(np.array_equal(memory['ens'][0], e), 'prob_to_ens changed between two calls although it is saved')
                    need_close(got[0], np.mean(e.max(-1) - e.min(-1), axis=None if axis is None else norm_axis(axis, 2)),
                               'spread and the saved members', rtol=1e-9, atol=1e-9 * big)
                continue
            want = flat(run(t, op, u))
            need([x.shape for x in got] == [x.shape for x in want], '{}: shapes {} with saving, {} without', op, [x.shape for x in got], [x.shape for x in want])
            if boot is None or op['m'] in ('iou_determ', 'iou_prob', 'cdf', 'sharpness', 'variance', 'f_determ', 'roc'):
                for a, b in zip(got, want):
                    need_close(a, b, 'step {}: with saving'.format(op), rtol=1e-11, atol=tiny)
        elif k == 'axis':
            axis = op['axis']
            s.set_avg_axis(axis)
            if saving and scratch:
                wiped()
        elif k == 'boot':
            boot = 25
            ctx.env(boot_repeats=20)
            s.set_boot_samples(25)
            if saving and scratch:
                wiped()
        elif k == 'noboot':
            boot = None
            s.disable_boot()
        elif k == 'reopen':
            axis, boot, saving, scratch = op['axis'], None, True, False
            s = ver.build(c['data'][cur], avg_axis=axis, working_directory=wd, start_from_scratch=False, **kw)
        elif k == 'replace':
            cur = 1 - cur
            boot, saving, scratch = None, True, True
            s = ver.build(c['data'][cur], avg_axis=axis, working_directory=wd, start_from_scratch=True, **kw)
            wiped()
            need(os.listdir(wd) == [], 'the folder was not emptied: {}', os.listdir(wd))
        elif k == 'disable':
            saving = False
            s.disable_saving()
        elif k == 'enable':
            saving, scratch = True, op['scratch']
            s.enable_saving(wd, start_from_scratch=scratch)
            if scratch:
                wiped()
        if not saving and k == 'call':
            pass
    ctx.trivial = calls < 2
    need(sorted(os.listdir(parent)) == ['mine.txt', 'side', 'side.bak', 'side2.pkl'], 'files next to the folder changed: {}', os.listdir(parent))
    need(open(os.path.join(parent, 'mine.txt')).read() == 'keep', 'a file next to the folder changed')
    if not scratch:
        # nothing is removed when the folder is reused
        p = os.path.join(wd, 'notes.txt')
        open(p, 'w').write('keep')
        ver.build(c['data'][cur], working_directory=wd, start_from_scratch=False, **kw).set_avg_axis(0)
        need(os.path.exists(p), 'a file in the reused folder was removed')


def gen_cut(d):
    cls = d.pick(['determ', 'ens', 'gauss', 'gamma', 'hurdle'])
    c = {'data': gen_data(d, cls), 'axis': d.axis(2), 'op': call_gen(d, cls), 'at': d.int(0, 1000), 'how': d.pick(['cut', 'cut', 'zero', 'flip tail'])}
    c['op']['name'] = 'default'
    return c


def check_cut(c, ctx):
    wd = ctx.fresh_dir()
    cls = c['data']['cls']
    kw = {'n_sample_members': 3} if cls not in ('determ', 'ens', 'hurdle') else {}
    op = c['op']
    v = ver.build(c['data'], avg_axis=c['axis'], working_directory=wd, start_from_scratch=True, **kw)
    try:
        want = flat(run(v, op, 0))
    except Exception:
        try:
            run(ver.build(c['data'], avg_axis=c['axis'], **kw), op, 0)
        except Exception:
            ctx.trivial = True
            return
        raise
    files = sorted(os.listdir(wd))
    ctx.label('{} files'.format(len(files)))
    if not files:
        ctx.trivial = True
        return
    for fn in files:
        p = os.path.join(wd, fn)
        data = open(p, 'rb').read()
        cut = int(len(data) * c['at'] / 1001.)
        with open(p, 'wb') as f:
            f.write(b'' if c['how'] == 'zero' else data[:cut])
        try:
            got = flat(run(ver.build(c['data'], avg_axis=c['axis'], working_directory=wd, start_from_scratch=False, **kw), op, 0))
        except Exception:
            got = None
        if got is not None and op['m'] not in RANDOM:
            need(len(got) == len(want), 'an incomplete file was used')
            for a, b in zip(got, want):
                need_close(a, b, 'after the file {} was cut at {} of {} bytes'.format(fn, cut, len(data)), rtol=1e-11, atol=1e-12)
        with open(p, 'wb') as f:
            f.write(data)
    got = flat(run(ver.build(c['data'], avg_axis=c['axis'], working_directory=wd, start_from_scratch=False, **kw), op, 0))
    for a, b in zip(got, want):
        if op['m'] == 'spread' and cls != 'ens' or op['m'] in RANDOM:
            need(np.array_equal(a, b, equal_nan=True), '{} of a reopened folder differs', op['m'])
        else:
            need_close(a, b, 'reopened', rtol=1e-11, atol=1e-12)


def gen_names(d):
    cls = d.pick(['gauss', 'ens', 'gamma'])
    c = gen_data(d, cls)
    c['m'] = d.pick(['brier', 'cdf', 'sharpness', 'reliability', 'iou_determ', 'roc', 'iou_prob', 'brier_decomp'])
    c['named'] = d.bool() or c['m'] == 'brier_decomp'
    c['calls'] = [(d.pick(['over', 'below']), d.pick([1., 1, -1., -0.3, 1.0000000001, 2., 1.25, 0.1 + 0.2, 0.3, 1e-5, 10., 100.]), d.pick([3, 4])) for _ in range(d.int(2, 5))]
    c['arrays'] = d.bool()
    c['bump'] = [d.int(0, 5) for _ in range(6)]
    c['base'] = d.arr(c['o'].shape, 0., 5., 'grid')
    return c


def check_names(c, ctx):
    """Every argument that matters is part of the identity of the saved data."""
    wd = ctx.fresh_dir()
    s = ver.build(c, working_directory=wd)
    t = ver.build(c)
    ctx.trivial = len(set(map(repr, c['calls']))) < 2
    for i, (side, x, n) in enumerate(c['calls']):
        if c['arrays'] and c['m'] in ('brier', 'cdf', 'sharpness'):
            a = c['base'].copy()
            a.ravel()[c['bump'][i] % a.size] += [0., 1e-9, 1., 2.][(n if x == 1. else n - 3) % 4]
            x = a
        kw = {side: x}
        if c['m'] == 'reliability':
            kw['nbins'] = n
        if c['m'] == 'iou_prob':
            kw = {side: (x, n / 10.)}
        if c['named']:
            kw['save_name'] = 'some name'
        try:
            want = flat(getattr(t, c['m'])(**kw))
        except Exception:
            continue
        got = flat(getattr(s, c['m'])(**kw))
        need(len(got) == len(want), 'different results')
        for p, q in zip(got, want):
            need_close(p, q, '{}({}) with saving'.format(c['m'], kw), rtol=1e-12, atol=1e-13)


def gen_lit(d):
    cls = d.pick(['determ', 'ens', 'gauss', 'gamma', 'hurdle'])
    return {'data': [gen_data(d, cls) for _ in range(1)], 'm': d.pick(['error', 'ab_error', 'sq_error', 'f_determ'] + ([] if cls == 'determ' else ['variance', 'brier', 'cdf', 'crps', 'roc', 'sharpness'])),
            'side': d.pick(['over', 'below']), 't': d.pick(THR), 'arr': d.bool(), 'axis': d.axis(2),
            'name': d.pick(['mine', 'I want this', 'a.b', 'LITERAL_again', 'brier_over_1.0_below_None', 'x-1'])}


def check_lit(c, ctx):
    """A literal name is the name of the saved file, and what it holds is found again."""
    wd = ctx.fresh_dir()
    x = c['data'][0]
    v = ver.build(x, avg_axis=c['axis'], working_directory=wd)
    kw = {}
    if c['m'] in ('brier', 'cdf', 'roc', 'sharpness'):
        kw[c['side']] = np.full(x['o'].shape, float(c['t'])) if c['arr'] and c['m'] != 'roc' else c['t']
    try:
        want = flat(getattr(ver.build(x, avg_axis=c['axis']), c['m'])(**kw))
    except Exception:
        ctx.trivial = True
        return
    got = flat(getattr(v, c['m'])(save_name='LITERAL_' + c['name'], **kw))
    p = os.path.join(wd, c['name'].replace(' ', '_') + '.pkl')
    need(os.path.isfile(p), 'no file {} among {}', p, os.listdir(wd))
    for a, b in zip(got, want):
        need_close(a, b, 'under a literal name', rtol=1e-11, atol=1e-12)
    for f in os.listdir(wd):
        if os.path.join(wd, f) != p:
            os.remove(os.path.join(wd, f))
    # the saved data are all that is needed: the same values come back although the forecasts are gone
    y = dict(x)
    for k in ver.FORECAST_KEYS:
        if k in y and k != 'irange' and isinstance(y[k], np.ndarray):
            y[k] = y[k] * 0.5 + 0.25
    got = flat(getattr(ver.build(y, avg_axis=c['axis'], working_directory=wd, start_from_scratch=False), c['m'])(save_name='LITERAL_' + c['name'], **kw))
    for a, b in zip(got, want):
        need_close(a, b, 'found again under a literal name', rtol=1e-11, atol=1e-12)


R = 'random histories of metrics, settings, reopening and replacing; compared with a verifier that does not save; non-trivial: at least two metric calls'
SUBS = [Sub(cls, gen(cls), check, 500 if cls != 'hurdle' else 300, R) for cls in ver.CLASSES] + [
    Sub('cut_files', gen_cut, check_cut, 500, 'every saved file cut at a generated byte; non-trivial: something was saved'),
    Sub('names', gen_names, check_names, 800, 'nearly equal arguments; non-trivial: at least two different calls'),
    Sub('literal', gen_lit, check_lit, 300, 'names given by the user; non-trivial: the metric is defined'),
]
