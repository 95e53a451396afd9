"""C12: ROC curves."""
import numpy as np

from PyAnEn.utils_verify import calculate_roc

from .. import ref, ver
from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['cases with events only or non-events only are left out: the curve is not defined',
               'parametric probabilities that agree to 1e-9 may be ordered either way: the area then has bounds']


def gen(cls):
    def g(d):
        big = d.int(0, 19) == 0 and cls != 'tgamma'
        shape = d.big_shape(hi=1100) if big else d.shape(1, 4, 5, min_size=3, max_size=80)
        c = ver.gen(d, cls, shape)
        c = ver.units(d, c)
        c['ob'] = ver.over_below(d, c, arrays=True)
        c['axis'] = d.axis(len(shape))
        return c
    return g


def verify(fpr, tpr, auc, p, y):
    p, y = np.ravel(p), np.ravel(y).astype(bool)
    fpr, tpr = np.asarray(fpr, float), np.asarray(tpr, float)
    need(fpr.shape == tpr.shape and fpr.ndim == 1, 'shapes {} {}', fpr.shape, tpr.shape)
    need_close(auc, ref.auc(p, y), 'area under the curve', rtol=1e-9, atol=1e-9)
    need(fpr[0] == 0 and tpr[0] == 0 and abs(fpr[-1] - 1) < 1e-12 and abs(tpr[-1] - 1) < 1e-12, 'the curve does not go from (0, 0) to (1, 1)')
    need(np.all(np.diff(fpr) >= 0) and np.all(np.diff(tpr) >= 0), 'the curve decreases')
    need_close(np.sum(np.diff(fpr) * (tpr[1:] + tpr[:-1]) / 2), auc, 'area under the returned points', rtol=1e-9, atol=1e-9)
    pts = {(0., 0.)}
    for t in np.unique(p):
        f = p >= t
        pts.add((round(float(np.sum(f & ~y) / np.sum(~y)), 9), round(float(np.sum(f & y) / np.sum(y)), 9)))
    for a, b in zip(fpr, tpr):
        need((round(float(a), 9), round(float(b), 9)) in pts, 'point ({}, {}) is no pair of rates of any probability threshold', a, b)


def check(c, ctx):
    y = ver.event(c, **c['ob'])
    p = ver.prob(c, **c['ob'])
    if c['cls'] == 'ens':
        p = np.round(p, 12)
    if y.all() or not y.any():
        ctx.trivial = True
        return
    if c['cls'] != 'ens':
        # values that agree to rounding could be ordered either way
        u = np.sort(np.ravel(p))
        if np.min(np.diff(u)) < 1e-10:
            ctx.label('near ties')
            fpr, tpr, auc = ver.build(c, avg_axis=c['axis']).roc(**c['ob'])
            need_close(np.sum(np.diff(fpr) * (tpr[1:] + tpr[:-1]) / 2), auc, 'area under the returned points', rtol=1e-9, atol=1e-9)
            a, b = np.ravel(p)[np.ravel(y)], np.sort(np.ravel(p)[~np.ravel(y)])
            lo = np.sum(np.searchsorted(b, a - 1e-9)) / (len(a) * len(b))
            hi = np.sum(np.searchsorted(b, a + 1e-9, side='right')) / (len(a) * len(b))
            need(lo - 1e-9 <= auc <= hi + 1e-9, 'area {} is not between {} and {}', auc, lo, hi)
            return
    v = ver.build(c, avg_axis=c['axis'])
    fpr, tpr, auc = v.roc(**c['ob'])
    verify(fpr, tpr, auc, p, y)


def gen_f(d):
    shape = d.shape(1, 3, 6, min_size=2, max_size=120) if d.int(0, 9) else d.big_shape()
    p = d.arr(shape, 0., 1., d.pick(['cont', 'grid', 'coarse']))
    # rare events: small probabilities, which still have an order
    how = d.pick(['as is', 'as is', 'tiny', 'narrow'])
    p = {'as is': p, 'tiny': p * 1e-6, 'narrow': 0.7 + 1e-6 * p}[how]
    return {'p': p, 'y': d.arr(shape, 0, 1, 'cont') < d.pick([0.02, 0.1, 0.5, 0.9, 0.98]), 'how': how,
            'perm': d.perm(len(shape))}


def check_f(c, ctx):
    p, y = c['p'], c['y']
    if y.all() or not y.any():
        ctx.trivial = True
        return
    fpr, tpr, auc = calculate_roc(p, y)
    verify(fpr, tpr, auc, p, y)
    ctx.label(c['how'])
    a2 = calculate_roc(np.sqrt(p), y)[2]
    need_close(a2, auc, 'area after an increasing map of the probabilities', atol=1e-9)
    if c['how'] != 'tiny':
        a3 = calculate_roc(1 - p, ~y)[2]
        need_close(a3, auc, 'area of the complementary event', atol=1e-9)
    a4 = calculate_roc(p.transpose(c['perm']), y.transpose(c['perm']))[2]
    need_close(a4, auc, 'area after permuting dimensions', atol=1e-9)


SUBS = [Sub(cls, gen(cls), check, 400 if cls != 'ens' else 1000, 'against the Mann-Whitney statistic and the rates of every threshold; non-trivial: events and non-events') for cls in ('ens',) + ver.PROB] + \
       [Sub('function', gen_f, check_f, 1000, 'random probabilities with ties; non-trivial: events and non-events')]
