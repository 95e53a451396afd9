"""C11: Brier score and its decomposition."""
import numpy as np

from PyAnEn.utils_special_boot import brier_decomp

from .. import ref, ver
from ..engine import Sub
from ..gen import need, need_close, out_shape, slices

ASSUMPTIONS = ['forecast probabilities within 1e-9 of an edge of the twenty bins are left out (parametric forecasts)',
               'events are strict (observation < below, > over); the forecast probability of below includes equality']


def gen(cls):
    def g(d):
        big = d.int(0, 19) == 0 and cls != 'tgamma'
        shape = d.big_shape(hi=1100) if big else d.shape(1, 4, 5, max_size=60)
        c = ver.gen(d, cls, shape, **({'members': d.int(1, 19)} if cls == 'ens' else {}))
        c = ver.units(d, c)
        c['ob'] = ver.over_below(d, c, arrays=True)
        c['axis'] = d.axis(len(shape))
        return c
    return g


def check(c, ctx):
    ob = c['ob']
    p, y = ver.prob(c, **ob), ver.event(c, **ob).astype(float)
    v = ver.build(c, avg_axis=c['axis'])
    ctx.trivial = len(np.unique(y)) < 2
    ctx.label(list(ob)[0])
    bs = v.brier(**ob)
    need_close(bs, ref.mean_over((p - y) ** 2, c['axis']), 'Brier score', rtol=1e-7, atol=1e-9)
    q = p * 20
    if c['cls'] != 'ens' and np.any((np.abs(q - np.round(q)) < 1e-6) & (q > 1e-5) & (q < 20 - 1e-5)):
        return
    rel, res, unc = v.brier_decomp(**ob)
    want = out_shape(c['o'].shape, c['axis'])
    for name, x in (('reliability', rel), ('resolution', res), ('uncertainty', unc)):
        need(np.shape(x) == want, '{} has shape {} instead of {}', name, np.shape(x), want)
    for idx, full in slices(c['o'].shape, c['axis']):
        ps, ys = np.ravel(p[full]), np.ravel(y[full])
        if c['cls'] == 'ens':
            a, b, u = by_value(ps, ys)
        else:
            a, b, u = ref.brier_decomp(ps, ys)
        need_close(np.asarray(rel)[idx], a, 'reliability of slice {}'.format(idx), rtol=1e-6, atol=1e-9)
        need_close(np.asarray(res)[idx], b, 'resolution of slice {}'.format(idx), rtol=1e-6, atol=1e-9)
        need_close(np.asarray(unc)[idx], u, 'uncertainty of slice {}'.format(idx), rtol=1e-6, atol=1e-9)
    if c['cls'] == 'ens':
        # up to 19 members: every probability has a bin of its own, and the identity is exact
        need_close(np.asarray(rel) - res + unc, bs, 'reliability - resolution + uncertainty', rtol=1e-8, atol=1e-9)
    need(np.all(np.asarray(rel) >= -1e-12) and np.all(np.asarray(res) >= -1e-12) and np.all(np.asarray(res) <= np.asarray(unc) + 1e-9),
         'components out of range')


def by_value(p, y):
    n, ob = len(p), y.mean()
    k = np.round(p * 1e6).astype(int)
    rel = res = 0.
    for u in np.unique(k):
        m = k == u
        rel += m.sum() * (p[m].mean() - y[m].mean()) ** 2
        res += m.sum() * (y[m].mean() - ob) ** 2
    return rel / n, res / n, ob * (1 - ob)


def gen_f(d):
    shape = d.shape(1, 4, 6, min_size=2, max_size=100) if d.int(0, 9) else d.big_shape()
    p = d.arr(shape, 0., 1., d.pick(['cont', 'cont', 'coarse']))
    how = d.pick(['as is', 'as is', 'low', 'high', 'narrow'])
    p = {'as is': p, 'low': p ** 4, 'high': 1 - p ** 4, 'narrow': 0.451 + 0.098 * p}[how]
    return {'p': p, 'y': d.arr(shape, 0, 1, 'cont') < d.pick([0.02, 0.1, 0.5, 0.9, 0.98]),
            'axis': d.axis(len(shape)), 'asfloat': d.bool()}


def check_f(c, ctx):
    p, y, ax = c['p'], c['y'], c['axis']
    ctx.trivial = len(np.unique(y)) < 2
    q = p * 20
    if np.any((np.abs(q - np.round(q)) < 1e-6) & (q > 1e-5) & (q < 20 - 1e-5)):
        ctx.trivial = True
        return
    a = ax if ax is None or isinstance(ax, (tuple, list)) else (ax,)
    rel, res, unc = brier_decomp(p, y.astype(float) if c['asfloat'] else y, a)
    for idx, full in slices(p.shape, ax):
        w = ref.brier_decomp(p[full], y[full])
        for name, x, z in zip(('reliability', 'resolution', 'uncertainty'), (rel, res, unc), w):
            need_close(np.asarray(x)[idx], z, name, rtol=1e-7, atol=1e-10)


SUBS = [Sub(cls, gen(cls), check, 500 if cls != 'ens' else 1200, 'random thresholds (ties, scalar and array); non-trivial: events and non-events') for cls in ('ens',) + ver.PROB] + \
       [Sub('function', gen_f, check_f, 1200, 'random probabilities; non-trivial: events and non-events')]
