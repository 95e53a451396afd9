"""C18: computing a metric changes nothing: not the inputs, not the settings, not later results."""
import os

import numpy as np

import PyAnEn
from PyAnEn import Grid
from PyAnEn import utils_crps as uc
from PyAnEn import utils_dist as ud
from PyAnEn import utils_significance as us
from PyAnEn import utils_special_boot as usb
from PyAnEn import utils_ss as uss
from PyAnEn import utils_verify as uv

from .. import fakeray, ver
from ..engine import Sub
from ..gen import need, need_close
from .c17 import RANDOM, call_gen, flat, gen_data, run

ASSUMPTIONS = ['results that are random by definition (sampled members, randomized ranks) are only checked for side effects']

LAYOUTS = ['C', 'F', 'reversed', 'strided', 'readonly', 'int']


def lay(x, how):
    x = np.asarray(x)
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'reversed':
        return np.ascontiguousarray(x[::-1])[::-1]
    if how == 'strided':
        b = np.full(x.shape[:-1] + (2 * x.shape[-1],), -777.)
        b[..., ::2] = x
        return b[..., ::2]
    if how == 'readonly':
        x = x.copy()
        x.setflags(write=False)
        return x
    return np.ascontiguousarray(x).copy()


def gen(cls):
    def g(d):
        c = gen_data(d, cls)
        ops = []
        for _ in range(d.int(2, 6)):
            op = call_gen(d, cls)
            op.pop('name', None)
            ops.append(op)
        return {'data': c, 'axis': d.axis(2), 'ops': ops, 'boot': d.int(0, 3) == 0, 'save': d.int(0, 3) == 0, 'again': d.bool(),
                'skip': d.pick(['False', 'False', 'True']), 'scribble': d.bool(), 'layout': d.pick(LAYOUTS[:5]), 'disable': d.pick(['True', 'True', 'False', '0']),
                'leave': d.bool(), 'less': d.int(0, 3) == 0}
    return g


def snapshot(v):
    out = {'o': np.array(v.o)}
    if hasattr(v.f, 'keys'):
        for k in v.f.keys():
            out['f.' + k] = np.array(v.f[k])
    else:
        out['f'] = np.array(v.f)
    return out


def same(a, b, what):
    need(sorted(a) == sorted(b), '{}: keys changed', what)
    for k in a:
        need(a[k].dtype == b[k].dtype and np.array_equal(a[k], b[k], equal_nan=True), '{}: {} changed from {} to {}', what, k, a[k], b[k])


def scribble(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            scribble(y)
    elif isinstance(x, np.ndarray) and x.flags.writeable and x.dtype != bool:
        x[...] = -12345


def attempt(v, op, kw_thr=None):
    try:
        return run(v, op, 0)
    except Exception as e:
        return e


def settings(env):
    """The environment; the spellings of one truth value are the same setting."""
    return {k: {'True': '1', 'False': '0'}.get(v, v) if k.startswith('pyanen_') else v for k, v in env.items()}


def check(c, ctx):
    data = c['data']
    ctx.env(skip_nan=c['skip'], boot_repeats=10, tqdm_disable=c['disable'], tqdm_leave=c['leave'], integrate_with_less_memory=c['less'])
    wd = ctx.fresh_dir()
    kw = {'avg_axis': list(c['axis']) if isinstance(c['axis'], tuple) and c['again'] else c['axis']}
    axis_before = repr(kw['avg_axis'])
    if c['boot']:
        kw['boot_samples'] = 12
    if data['cls'] not in ('determ', 'ens', 'hurdle'):
        kw['n_sample_members'] = 3
    given = dict(data)
    for k in ver.FORECAST_KEYS + ('o',):
        if k in data:
            given[k] = lay(data[k], c['layout'])
    plain = {k: np.array(given[k]) for k in ver.FORECAST_KEYS + ('o',) if k in given}
    v = ver.build(given, **dict(kw, working_directory=wd) if c['save'] else kw)
    before = snapshot(v)
    env = {k: x for k, x in os.environ.items()}
    err, cwd, files = np.geterr(), os.getcwd(), sorted(os.listdir('.'))
    done = 0
    for op in c['ops']:
        fresh = ver.build(data, **kw)
        want = attempt(fresh, op)
        got = attempt(v, op)
        what = 'after {}'.format(op)
        same(before, snapshot(v), what)
        for k, x in plain.items():
            need(np.array_equal(given[k], x), '{}: the caller\'s {} changed', what, k)
        need(settings(os.environ) == settings(env), '{}: settings changed: {}', what, {k: x for k, x in os.environ.items() if env.get(k) != x})
        need(os.getcwd() == cwd and sorted(os.listdir('.')) == files, '{}: files or the current folder changed', what)
        need(np.geterr() == err, '{}: error handling of numpy changed', what)
        need(repr(kw['avg_axis']) == axis_before, '{}: the average axis argument changed', what)
        if isinstance(want, Exception) or isinstance(got, Exception):
            need(isinstance(want, Exception) == isinstance(got, Exception), '{}: {} but {} with a new verifier', op, repr(got), repr(want))
            continue
        done += 1
        g, w = flat(got), flat(want)
        need([x.shape for x in g] == [x.shape for x in w], '{}: shapes {} but {} with a new verifier', op, [x.shape for x in g], [x.shape for x in w])
        if op['m'] in RANDOM and not (op['m'] == 'spread' and data['cls'] == 'ens'):
            continue
        if not c['boot'] or op['m'] in ('iou_determ', 'iou_prob', 'cdf', 'sharpness', 'variance', 'f_determ', 'roc'):
            for a, b in zip(g, w):
                need_close(a, b, '{} after other metrics'.format(op), rtol=1e-10, atol=1e-12)
            if c['scribble']:
                scribble(got)
                same(before, snapshot(v), 'after writing into the result of {}'.format(op))
                g2 = flat(run(v, op, 0))
                for a, b in zip(g2, w):
                    need_close(a, b, '{} after writing into its first result'.format(op), rtol=1e-10, atol=1e-12)
    ctx.trivial = done < 2
    ctx.label(c['layout'])


def gen_thr(d):
    cls = d.pick(['ens', 'gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle'])
    c = gen_data(d, cls)
    return {'data': c, 'm': d.pick(['cdf', 'brier', 'sharpness', 'brier_decomp']), 'side': d.pick(['over', 'below']),
            't': d.arr(c['o'].shape, -1., 9., d.kind()), 'layout': d.pick(LAYOUTS[:5]), 'workers': d.pick([1, 1, 1, 2])}


def check_thr(c, ctx):
    v = ver.build(c['data'])
    t = lay(c['t'], c['layout'])
    keep = t.copy()
    ctx.env(tqdm_workers=c['workers'])
    r = flat(getattr(v, c['m'])(**{c['side']: t}))
    need(np.array_equal(t, keep), 'the threshold array changed')
    for x in r:
        need(not np.shares_memory(x, t), 'the result shares memory with the threshold')
    ctx.env(tqdm_workers=1)
    w = flat(getattr(ver.build(c['data']), c['m'])(**{c['side']: np.array(c['t'])}))
    for a, b in zip(r, w):
        need_close(a, b, 'threshold in another memory layout', rtol=1e-10, atol=1e-12)


def gen_int(d):
    cls = d.pick(['determ', 'ens', 'ens', 'gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle'])
    c = ver.gen(d, cls, (2, d.int(2, 3)), kind='int')
    for k in ('f', 'o', 'mu', 'unshifted_mu', 'shift'):
        if k in c:
            c[k] = np.round(c[k])
    if 'sigma' in c:
        c['sigma'] = np.maximum(1., np.round(c['sigma']))
    if cls in ('gamma', 'tgamma', 'hurdle'):
        k = 'mu' if cls == 'hurdle' else 'unshifted_mu'
        c[k] = np.maximum(1., c[k])
    if cls in ('gamma', 'tgamma'):
        c['mu'] = c['unshifted_mu'] + c['shift']
    if 'sigma' in c and d.bool():
        # squares do not fit into small types
        for k in ('sigma', 'mu', 'unshifted_mu', 'shift', 'o'):
            if k in c:
                c[k] = c[k] * 6.
    ops = []
    for _ in range(4):
        op = call_gen(d, cls)
        op.pop('name', None)
        if 't' in op:
            op['t'] = op['t'] + d.pick([0., 0.3, 0.5])
        ops.append(op)
    if cls == 'hurdle' and d.bool() and np.ptp(c['o']) > 0:
        c['irange'] = None
        c['o'] = c['o'] * d.pick([1., 10.])
    return {'data': c, 'ops': ops, 'axis': d.axis(2), 'which': d.pick(['both', 'f', 'o']), 'dtype': d.pick(['int64', 'int32', 'int16', 'int8', 'uint8', 'uint16'])}


def check_int(c, ctx):
    """Whole numbers stored as integers give what the same numbers stored as floats give."""
    data = c['data']
    given = dict(data)
    for k in ('f', 'o', 'mu', 'unshifted_mu', 'shift', 'sigma'):
        if k in data and c['which'] in ('both', 'o' if k == 'o' else 'f'):
            t = c['dtype']
            # unsigned: only numbers that are not negative
            t = t if data[k].min() >= 0 else t.lstrip('u')
            given[k] = data[k].astype(t if data[k].max() <= np.iinfo(t).max and data[k].min() >= np.iinfo(t).min else 'int64')
    a, b = ver.build(given, avg_axis=c['axis']), ver.build(data, avg_axis=c['axis'])
    n = 0
    for op in c['ops']:
        if op['m'] in RANDOM and op['m'] != 'spread':
            continue
        w, g = attempt(b, op), attempt(a, op)
        if isinstance(w, Exception):
            continue
        if isinstance(g, Exception):
            raise g
        n += 1
        for x, y in zip(flat(g), flat(w)):
            need_close(x, y, '{} of integers'.format(op), rtol=1e-10, atol=1e-12)
    ctx.trivial = n == 0


def gen_fun(d):
    shape = d.shape(1, 3, 4, min_size=2, max_size=30)
    m = d.int(2, 5)
    return {'f': d.arr(shape + (m,), 0., 9., d.kind()), 'o': d.arr(shape, 0., 9., d.kind()), 'p': d.arr(shape, 0., 1., 'grid'),
            's': d.arr(shape, 0.5, 2., 'grid'), 'axis': d.axis(len(shape)), 'layout': d.pick(LAYOUTS[:5]), 'fun': d.pick(sorted(FUNS)),
            'skip': d.pick(['False', 'True']), 'nan': d.bool(), 'boot': d.pick([None, None, 7])}


def fun_dm(x, c):
    return us.diebold_mariano_test(x['o'].ravel(), x['p'].ravel(), x['s'].ravel())


def fun_write(x, c):
    p = os.path.join(c['dir'], 'm.txt')
    Grid.write_matrix(p, x['o'].reshape(len(x['o']), -1), overwrite=True)
    return [np.array(len(open(p).read()))]


def axis_list(c):
    a = c['axis']
    return None if a is None else ([a] if isinstance(a, int) else list(a))


FUNS = {
    'rank_histogram': lambda x, c: uv.rank_histogram(x['f'], x['o'], -1),
    'ens_to_prob': lambda x, c: uv.ens_to_prob(x['f'], -1, over=x['o']),
    'ens_to_prob_below': lambda x, c: uv.ens_to_prob(x['f'], -1, below=4.),
    'binarize_obs': lambda x, c: np.asarray(uv.binarize_obs(x['o'], over=4.), float),
    'calculate_roc': lambda x, c: uv.calculate_roc(x['p'], (x['o'] > np.nanmedian(x['o'])) * 1.),
    'boot_arr': lambda x, c: uv.boot_arr(x['o'], axis_list(c), 9, 5, 0.9),
    'reliability_diagram': lambda x, c: uv.reliability_diagram(x['p'], x['o'] > 4., 5, None, c['boot'], 4, 0.9)[:2],
    'binned_spread_skill': lambda x, c: uss.binned_spread_skill(x['s'], x['o'], 2, None, c['boot'], 4, 0.9),
    'iou_determ': lambda x, c: uv.iou_determ(x['p'] * 9, x['o'], over=4.),
    'iou_prob': lambda x, c: uv.iou_prob(x['p'], x['o'] > 4., over=.5),
    'corr': lambda x, c: usb.corr(x['p'], x['o'], axis_list(c), c['boot'], 4, 0.9),
    'brier_decomp': lambda x, c: usb.brier_decomp(x['p'], (x['o'] > 4.) * 1., axis_list(c), c['boot'], 4, 0.9),
    'diebold_mariano_test': fun_dm,
    'crps_gamma': lambda x, c: uc.crps_gamma(x['s'], x['s'], -x['p'], x['o'], reduce_sum=False),
    'crps_truncated_gaussian': lambda x, c: uc.crps_truncated_gaussian(x['o'], x['p'], x['s']),
    'cdf_gaussian': lambda x, c: ud.cdf_gaussian(x['p'], x['s'], x['o']),
    'cdf_gaussian_truncated': lambda x, c: ud.cdf_gaussian(x['p'], x['s'], x['o'], True),
    'cdf_gamma': lambda x, c: ud.cdf_gamma(x['s'], x['s'], -x['p'], x['o']),
    'cdf_gamma_truncated': lambda x, c: ud.cdf_gamma(x['s'], x['s'], -x['p'], x['o'], True),
    'cdf_gamma_hurdle': lambda x, c: ud.cdf_gamma_hurdle(x['p'], x['s'], x['s'], x['o']),
    'sample_dist_gaussian': lambda x, c: ud.sample_dist_gaussian(x['p'], x['s'], 3),
    'sample_dist_gamma': lambda x, c: ud.sample_dist_gamma(x['s'], x['s'], -x['p'], 3),
    'reliability_index': lambda x, c: PyAnEn.VerifyDeterm.reliability_index(x['s'].ravel()),
    'reliability_index_rows': lambda x, c: PyAnEn.VerifyEnsemble.reliability_index(x['s'].reshape(-1)),
    'write_matrix': fun_write,
}


def check_fun(c, ctx):
    """The functions behind the classes leave the arrays they are given alone, and are repeatable."""
    ctx.label(c['fun'])
    ctx.env(skip_nan=c['skip'])
    c = dict(c, dir=ctx.fresh_dir())
    x = {k: np.array(c[k]) for k in 'fops'}
    if c['nan'] and c['skip'] == 'True' and c['fun'] not in ('diebold_mariano_test', 'reliability_index', 'reliability_index_rows', 'ens_to_prob', 'write_matrix'):
        x['o'].ravel()[0] = np.nan
    x = {k: lay(v, c['layout']) for k, v in x.items()}
    keep = {k: v.copy() for k, v in x.items()}
    env = dict(os.environ)
    r = []
    for _ in range(2):
        np.random.seed(11)
        try:
            r.append(FUNS[c['fun']](x, c))
        except Exception as e:
            r.append(e)
        for k in x:
            need(np.array_equal(x[k], keep[k], equal_nan=True), '{} changed its argument {}', c['fun'], k)
        need(dict(os.environ) == env, '{} changed the settings', c['fun'])
    ctx.trivial = isinstance(r[0], Exception)
    if isinstance(r[0], Exception):
        # only acceptable when it is about the values: the same values in ordinary memory have to fail as well
        try:
            FUNS[c['fun']]({k: v.copy() for k, v in keep.items()}, c)
        except Exception:
            return
        raise r[0]
    for a, b in zip(flat(r[0]), flat(r[1])):
        need(np.array_equal(a, b, equal_nan=True), '{}: {} and then {} with the same seed', c['fun'], a, b)


R = 'histories of metrics on one verifier against new verifiers; non-trivial: at least two metrics succeeded'
SUBS = [Sub(cls, gen(cls), check, 500 if cls != 'hurdle' else 200, R) for cls in ver.CLASSES] + [
    Sub('thresholds', gen_thr, check_thr, 500, 'threshold arrays; every case is non-trivial'),
    Sub('functions', gen_fun, check_fun, 1200, 'functions behind the classes, arrays in several memory layouts; non-trivial: a result'),
    Sub('integers', gen_int, check_int, 500, 'non-trivial: at least one metric'),
]
