"""C13: reliability diagrams."""
import numpy as np

from PyAnEn.utils_verify import reliability_diagram

from .. import ver
from ..engine import Sub
from ..gen import need, need_close, out_shape, slices

ASSUMPTIONS = ['probabilities within 1e-6 of an interior bin edge may fall into either bin',
               'with an average axis only cases where every slice fills the same number of bins (the result is rectangular)']


def gen(cls):
    def g(d):
        big = d.int(0, 19) == 0 and cls != 'tgamma'
        shape = d.big_shape(hi=1100) if big else d.shape(1, 4, 6, min_size=2, max_size=100)
        c = ver.gen(d, cls, shape, **({'members': d.int(1, 30)} if cls == 'ens' else {}))
        c = ver.units(d, c)
        c['ob'] = ver.over_below(d, c, arrays=True)
        c['bins'] = d.pick([1, 2, 3, 5, 7, 10, 15, 20, 50, 99, 100])
        c['full_axis'] = d.bool()
        return c
    return g


def verify(r, p, y, nb):
    pp, pt, pc, tc = r
    p, y = np.ravel(p), np.ravel(y).astype(int)
    pp, pt = np.asarray(pp, float), np.asarray(pt, float)
    n = len(p)
    need(pp.ndim == 1 and pp.shape == pt.shape and len(pc) == len(pp), 'shapes {} {} {}', pp.shape, pt.shape, len(pc))
    cnt, ids = np.asarray(pc, float), np.asarray(pc.index, int)
    need(cnt.sum() == n, 'the bins have {} of {} samples', cnt.sum(), n)
    need(np.all(cnt > 0), 'empty bins are listed')
    need(np.all(np.diff(ids) > 0) and ids[0] >= 0 and ids[-1] < nb, 'bins {}', ids)
    need_close(np.sum(cnt * pp), p.sum(), 'the forecast probabilities are not conserved', rtol=1e-9, atol=1e-9)
    need_close(np.sum(cnt * pt), y.sum(), 'the events are not conserved', rtol=1e-9, atol=1e-9)
    t = {int(k): int(v) for k, v in zip(tc.index, np.asarray(tc))}
    need(t.get(1, 0) == y.sum() and t.get(0, 0) == n - y.sum() and set(t) <= {0, 1}, 'counts of events {} instead of {}', t, y.sum())
    # every bin against its definition
    q = p * nb
    near = (np.abs(q - np.round(q)) < 1e-5) & (np.round(q) > 0) & (np.round(q) < nb)
    b = np.clip(np.floor(q).astype(int), 0, nb - 1)
    for k, m1, m2, c in zip(ids, pp, pt, cnt):
        need(k / nb - 1e-5 <= m1 <= (k + 1) / nb + 1e-5, 'bin {} has a mean probability of {}', k, m1)
    # samples near an edge may be on either side of it, all others have one bin
    for k in range(nb):
        sure = int(np.sum((b == k) & ~near))
        may = sure + int(np.sum(near & ((np.round(q) == k) | (np.round(q) == k + 1))))
        got = int(cnt[ids == k].sum())
        need(sure <= got <= may, 'bin {} has {} samples, possible are {} to {}', k, got, sure, may)
    if not near.any():
        need(sorted(set(b)) == ids.tolist(), 'bins in use {} instead of {}', ids, sorted(set(b)))
        for k, m1, m2, c in zip(ids, pp, pt, cnt):
            s = b == k
            need(c == s.sum(), 'bin {} has {} samples instead of {}', k, c, s.sum())
            need_close(m1, p[s].mean(), 'forecast probability of bin {}'.format(k), rtol=1e-8, atol=1e-9)
            need_close(m2, y[s].mean(), 'event frequency of bin {}'.format(k), rtol=1e-8, atol=1e-9)
    return near.any()


def check(c, ctx):
    p, y = ver.prob(c, **c['ob']), ver.event(c, **c['ob'])
    ctx.trivial = len(np.unique(y)) < 2
    ax = None if not c['full_axis'] else tuple(range(c['o'].ndim))
    r = ver.build(c, avg_axis=ax).reliability(nbins=c['bins'], **c['ob'])
    ctx.label('at an edge' if verify(r, p, y, c['bins']) else 'no edge')
    # resampling changes neither the bins nor what is counted
    ctx.env(boot_repeats=15)
    b = ver.build(c, avg_axis=ax, boot_samples=10).reliability(nbins=c['bins'], **c['ob'])
    for k in (2, 3):
        need(np.array_equal(np.asarray(b[k]), np.asarray(r[k])), 'counts {} with and {} without bootstrapping', np.asarray(b[k]), np.asarray(r[k]))
        if hasattr(r[k], 'index') and hasattr(b[k], 'index'):
            need(list(b[k].index) == list(r[k].index), 'bins {} with and {} without bootstrapping', list(b[k].index), list(r[k].index))
    for k in (0, 1):
        x = np.asarray(b[k], float)
        need(x.shape == np.shape(r[k]) + (3,), 'shape {} for {} bins', x.shape, np.shape(r[k]))
        need(np.all(x >= -1e-12) and np.all(x <= 1 + 1e-12) and np.all(x[..., 0] <= x[..., 2] + 1e-12), 'intervals {}', x)


def gen_f(d):
    shape = d.shape(1, 4, 8, min_size=2, max_size=150) if d.int(0, 9) else d.big_shape()
    return {'p': d.arr(shape, 0., 1., d.pick(['cont', 'grid', 'coarse'])), 'y': d.arr(shape, 0, 1, 'cont') < d.pick([0.02, 0.1, 0.5, 0.9, 0.98]),
            'bins': d.pick([1, 2, 3, 5, 7, 10, 15, 20, 50, 99, 100]), 'axis': d.axis(len(shape), allow_none=False)}


def check_f(c, ctx):
    p, y = c['p'], c['y']
    ctx.trivial = len(np.unique(y)) < 2
    verify(reliability_diagram(p, y, c['bins'], None), p, y, c['bins'])
    verify(reliability_diagram(p, y, c['bins'], tuple(range(p.ndim))), p, y, c['bins'])
    ax = c['axis'] if not isinstance(c['axis'], int) else (c['axis'],)
    keep = out_shape(p.shape, ax)
    if keep == ():
        return
    parts = {i: reliability_diagram(p[f].ravel(), y[f].ravel(), c['bins'], None) for i, f in slices(p.shape, ax)}
    if len({(len(r[0]), len(r[3])) for r in parts.values()}) > 1:
        return
    ctx.label('along an axis')
    full = reliability_diagram(p, y, c['bins'], ax)
    for k in range(4):
        for i, r in parts.items():
            need_close(np.asarray(full[k])[i], np.asarray(r[k]), 'element {} of slice {}'.format(k, i), rtol=1e-9, atol=1e-10)


SUBS = [Sub(cls, gen(cls), check, 400 if cls != 'ens' else 1000, 'conservation and definition of every bin; non-trivial: events and non-events') for cls in ('ens',) + ver.PROB] + \
       [Sub('function', gen_f, check_f, 1000, 'random probabilities; non-trivial: events and non-events')]
