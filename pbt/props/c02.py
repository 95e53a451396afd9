"""C02: metrics along an axis are the metrics of every slice on its own."""
import numpy as np

from .. import ver
from ..engine import Sub
from ..gen import need, need_close, norm_axis, out_shape, slices

ASSUMPTIONS = ['forecast probabilities within 1e-9 of an edge of a probability bin are left out for parametric forecasts']

BASE = ['error', 'ab_error', 'sq_error', 'rmse', 'corr', 'iou_determ']
PROBM = ['brier', 'brier_decomp', 'iou_prob', 'ss', 'crps', 'cdf', 'sharpness', 'variance', 'reliability']


def metrics(cls):
    if cls == 'determ':
        return BASE
    m = BASE + PROBM + (['spread'] if cls == 'ens' else [])
    return [x for x in m if not (cls == 'tgamma' and x == 'crps')]


def gen(cls):
    def g(d):
        metric = d.pick(metrics(cls))
        nd = d.int(2, 4)
        shape = tuple(d.int(1, 4 if metric not in ('ss', 'corr') else 5) for _ in range(nd))
        c = ver.units(d, ver.gen(d, cls, shape))
        c['metric'] = metric
        c['axis'] = d.axis(nd, allow_none=False)
        c['ob'] = ver.over_below(d, c)
        c['pt'] = d.pick([0., 0.05, 0.25, 0.5, 0.73, 1.])
        c['pt_over'] = d.bool()
        n = int(np.prod([shape[i] for i in norm_axis(c['axis'], nd)]))
        c['nbins'] = c.get('nbins', d.int(5, 20))
        c['ssbins'] = d.int(1, min(n, 6))
        c['relbins'] = d.int(1, 12)
        c['perm'] = d.perm(nd)
        return c
    return g


def call(c, v):
    m, ob = c['metric'], c['ob']
    if m in ('error', 'ab_error', 'sq_error', 'rmse', 'corr', 'crps', 'spread', 'variance'):
        return [getattr(v, m)()]
    if m in ('brier', 'iou_determ', 'cdf', 'sharpness'):
        return [getattr(v, m)(**ob)]
    if m == 'brier_decomp':
        return list(v.brier_decomp(**ob))
    if m == 'iou_prob':
        k, t = list(ob.items())[0]
        other = 'below' if k == 'over' else 'over'
        pair = {k: (t, c['pt'] if c['pt_over'] == (k == 'over') else None)}
        pair[other] = (None, None if pair[k][1] is not None else c['pt'])
        return [v.iou_prob(**pair)]
    if m == 'ss':
        return list(v.binned_spread_skill(nbins=c['ssbins']))
    if m == 'reliability':
        a, b, pc, tc = v.reliability(nbins=c['relbins'], **ob)
        return [np.asarray(a), np.asarray(b), np.asarray(pc), np.asarray(tc)]
    raise ValueError(m)


ELEMENT = ('cdf', 'sharpness', 'variance')


def near_edge(p, nbins):
    q = np.asarray(p) * nbins
    return bool(np.any(np.abs(q - np.round(q)) < 1e-6))


def close_ties(x, tol):
    return bool(np.any(np.diff(np.sort(np.ravel(x))) <= tol))


def check(c, ctx):
    m = c['metric']
    ctx.label(m)
    g = ver.mag(c)
    tiny = 1e-9 * {'sq_error': g * g, 'variance': g * g, 'error': g, 'ab_error': g, 'rmse': g, 'crps': g, 'spread': g, 'ss': g}.get(m, 1.)
    shape = c['o'].shape
    n = int(np.prod([shape[i] for i in norm_axis(c['axis'], len(shape))]))
    nout = int(np.prod(out_shape(shape, c['axis'])))
    ctx.trivial = n < 2 or nout < 2
    binned = {'brier_decomp': 20, 'reliability': c['relbins']}.get(m)
    if binned and c['cls'] != 'ens' and near_edge(ver.prob(c, **c['ob']), binned):
        ctx.trivial = True
        return
    parts = {}
    for idx, full in slices(shape, c['axis']):
        s = ver.take(c, full)
        if m == 'corr' and (np.ptp(s['o']) == 0 or np.ptp(ver.build(s).f_determ()) < 1e-11 * ver.mag(c) or s['o'].size < 2):
            ctx.trivial = True
            return
        if m == 'ss' and close_ties(ver.build(s).variance(), 1e-9 * ver.mag(c) ** 2):
            ctx.trivial = True      # ties in spread: which of the tied samples goes into which bin is not specified
            return
        parts[idx] = [np.asarray(x, float) for x in call(c, ver.build(s, avg_axis=None))]
    if m == 'reliability':
        if len({tuple(x.shape for x in p) for p in parts.values()}) > 1:
            ctx.trivial = True      # the bins in use differ between slices: no rectangular result exists
            return
    full = [np.asarray(x, float) for x in call(c, ver.build(c, avg_axis=c['axis']))]
    if m in ELEMENT:
        need(full[0].shape == shape, '{} has shape {} for observations {}', m, full[0].shape, shape)
        for idx, sl in slices(shape, c['axis']):
            need_close(np.atleast_1d(full[0][sl]), parts[idx][0], m + ' of slice {}'.format(idx), rtol=1e-8, atol=tiny)
        return
    want = out_shape(shape, c['axis'])
    for k in range(len(full)):
        tail = parts[next(iter(parts))][k].shape
        need(full[k].shape == want + tail, '{}[{}] has shape {} instead of {}', m, k, full[k].shape, want + tail)
        for idx, p in parts.items():
            need_close(full[k][idx], p[k], '{}[{}] of slice {} axis {}'.format(m, k, idx, c['axis']), rtol=1e-7, atol=10 * tiny)
    # the order of the dimensions does not matter
    if m == 'reliability':
        return
    t = dict(c)
    for k in ver.FORECAST_KEYS + ('o',):
        if k in c:
            t[k] = np.ascontiguousarray(c[k].transpose(c['perm'] + ([len(shape)] if k == 'f' and c['cls'] == 'ens' else [])))
    ax = norm_axis(c['axis'], len(shape))
    t['axis'] = tuple(c['perm'].index(a) for a in ax)
    other = [np.asarray(x, float) for x in call(c, ver.build(t, avg_axis=t['axis']))]
    keep = [p for p in c['perm'] if p not in ax]
    order = sorted(keep)
    back = [keep.index(a) for a in order]
    for k in range(len(full)):
        extra = list(range(len(back), other[k].ndim))
        need_close(other[k].transpose(back + extra), full[k], '{}[{}] after permuting dimensions by {}'.format(m, k, c['perm']),
                   rtol=1e-6, atol=100 * tiny)


RULE = ('random metric, 2-4 dimensions, average axis in any spelling; non-trivial: several slices of several samples, '
        'defined (no constant series for corr, no tied spread for spread-skill, no probability at a bin edge)')
SUBS = [Sub(cls, gen(cls), check, {'determ': 700, 'ens': 1000, 'hurdle': 400}.get(cls, 500), RULE) for cls in ver.CLASSES]
