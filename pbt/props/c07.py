"""C07: rank histograms."""
import numpy as np

import PyAnEn
from PyAnEn.utils_verify import rank_histogram

from .. import ver
from ..engine import Sub, Violation
from ..gen import need, need_close

ASSUMPTIONS = ['tie counts are compared with the uniform distribution at 6.5 standard deviations']


def gen(d, big=False):
    shape = d.big_shape() if big else d.shape(1, 5, 5, max_size=80)
    c = ver.gen(d, 'ens', shape, members=d.pick([1, 2, 21, 51, 100, 130, 260]) if big else None)
    c['dtype'] = d.pick(['float64', 'float64', 'float32', 'int64', 'mixed'])
    if c['dtype'] == 'float64':
        c = ver.units(d, c)
    c['ax'] = d.int(-len(shape) - 1, len(shape))
    c['perm'] = d.perm(c['f'].shape[-1])
    c['a'] = d.pick([0.5, 3., 100.])
    c['b'] = d.pick([-7., 0., 11.])
    return c


def bounds(f, o):
    lo = 1 + np.sum(f < o[..., None], axis=-1)
    return lo, lo + np.sum(f == o[..., None], axis=-1)


def check(c, ctx):
    if c['dtype'] != 'float64':
        t = 'int64' if c['dtype'] == 'mixed' else c['dtype']
        c = dict(c, f=np.round(c['f']).astype(t))
        c['o'] = np.round(c['o'] * 2) / 2 if c['dtype'] == 'mixed' else np.round(c['o']).astype(t)
    f, o = c['f'], c['o']
    lo, hi = bounds(f, o)
    ctx.label('ties' if np.any(hi > lo) else 'no ties')
    ctx.trivial = len(np.unique(lo)) < 2
    for what, r in (('rank_hist', ver.build(c).rank_hist()),
                    ('rank_histogram', rank_histogram(np.moveaxis(f, -1, c['ax']), o, c['ax'])),
                    ('permuted members', ver.build(dict(c, f=np.ascontiguousarray(f[..., c['perm']]))).rank_hist())):
        need(r.shape == o.shape, '{}: shape {} instead of {}', what, r.shape, o.shape)
        need(np.all(r == np.round(r)), '{}: ranks are not integers', what)
        need(np.all((r >= lo) & (r <= hi)), '{}: {} outside {}..{}', what, r.tolist(), lo.tolist(), hi.tolist())
    if np.all(lo == hi):
        # unchanged by an increasing map of forecasts and observations
        g = ver.build(dict(c, f=f * c['a'] + c['b'], o=o * c['a'] + c['b'])).rank_hist()
        lo2, hi2 = bounds(f * c['a'] + c['b'], o * c['a'] + c['b'])
        if np.all(lo2 == hi2):
            need(np.array_equal(g, lo), 'ranks after scaling: {} instead of {}', g.tolist(), lo.tolist())


def gen_ties(d):
    k = d.int(1, 4)
    below = d.int(0, 3)
    above = d.int(0, 3)
    kinds = [(below, k, above)] + [(d.int(0, 3), d.int(0, 4), d.int(0, 3)) for _ in range(d.int(0, 2))]
    m = max(sum(x) for x in kinds)
    kinds = [(b, t, m - b - t) for b, t, _ in kinds]
    if d.int(0, 5) == 0:             # a large ensemble that agrees, as on a dry day
        b, t = d.pick([0, 0, 3]), d.pick([100, 127, 128, 130, 255, 256, 260, 300])
        m = b + t + d.pick([0, 0, 5])
        kinds = [(b, t, m - b - t), (m - 1, 1, 0)]
    return {'kinds': kinds, 'n': d.pick([600, 1500]), 'workers': d.often(1, 2), 'perm': d.perm(m), 'salt': d.int(0, 10 ** 6), 'two_d': d.bool()}


def check_ties(c, ctx):
    rows, obs, kind = [], [], []
    for i, (b, t, a) in enumerate(c['kinds']):
        row = np.array([-1.] * b + [2.] * t + [5.] * a)[c['perm']]
        rows += [row] * c['n']
        obs += [2.] * c['n']
        kind += [i] * c['n']
    f, o, kind = np.array(rows), np.array(obs), np.array(kind)
    p = np.random.RandomState(c['salt']).permutation(len(o))
    f, o, kind = f[p], o[p], kind[p]
    ax = -1
    if c['two_d']:
        f, o, kind = f.reshape(10, -1, f.shape[1]), o.reshape(10, -1), kind.reshape(10, -1)
        ctx.env(tqdm_map_axis=-2)
    elif c['workers'] > 1:
        ctx.env(tqdm_chunksize=200)
    ctx.env(tqdm_workers=c['workers'])
    ctx.label('{} workers'.format(c['workers']))
    r = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1).rank_hist()
    for i, (b, t, a) in enumerate(c['kinds']):
        x = r[kind == i]
        need(np.all((x >= 1 + b) & (x <= 1 + b + t)), 'rank outside {}..{}', 1 + b, 1 + b + t)
        q = 1. / (t + 1)
        for rank in range(1 + b, 2 + b + t):
            k = int(np.sum(x == rank))
            need(abs(k - c['n'] * q) <= 6.5 * np.sqrt(c['n'] * q * (1 - q)) + 1e-9,
                 '{} members equal to the observation: rank {} chosen {} of {} times', t, rank, k, c['n'])
        # as a whole: the mean and the variance of a uniform choice among all ranks
        u = (x.ravel() - 1. - b) - t / 2.
        var = ((t + 1) ** 2 - 1) / 12.
        need(abs(u.mean()) <= 6.5 * np.sqrt(var / c['n']) + 1e-9, '{} members equal to the observation: the mean rank is {} above that of a fair choice', t, u.mean())
        need(abs((u ** 2).mean() - var) <= 6.5 * var / np.sqrt(c['n']) + 1e-9, '{} members equal to the observation: the ranks vary by {} instead of {}', t, (u ** 2).mean(), var)
        # neighbours are broken independently
        if t > 0:
            y = x - x.mean()
            s = np.sum(y[1:] * y[:-1]) / np.sum(y * y)
            need(abs(s) < 6.5 / np.sqrt(len(x)), 'ties of neighbouring samples are not independent ({})', s)


def gen_nan(d):
    shape = d.shape(1, 3, 4, min_size=2, max_size=40)
    c = ver.gen(d, 'ens', shape)
    c['mo'] = d.arr(shape, 0, 1, 'cont') < 0.3
    c['mf'] = d.arr(c['f'].shape, 0, 1, 'cont') < 0.1
    c['workers'] = d.pick([1, 1, 1, 2])
    c['map_axis'] = -d.int(1, len(shape))
    return c


def check_nan(c, ctx):
    f, o = c['f'].copy(), c['o'].copy()
    f[c['mf']] = np.nan
    o[c['mo']] = np.nan
    miss = np.isnan(o) | np.any(np.isnan(f), axis=-1)
    ctx.trivial = not miss.any() or miss.all()
    lo, hi = bounds(c['f'], c['o'])
    c2 = dict(c, f=f, o=o)
    ctx.env(skip_nan='True', tqdm_workers=c['workers'], tqdm_map_axis=c['map_axis'])
    r = ver.build(c2).rank_hist()
    need(r.shape == o.shape, 'shape {} instead of {}', r.shape, o.shape)
    need(np.array_equal(np.isnan(r), miss), 'missing ranks {} for missing data {}', np.isnan(r), miss)
    ok = ~miss
    need(np.all((r[ok] >= lo[ok]) & (r[ok] <= hi[ok])), 'ranks {} outside {}..{}', r[ok], lo[ok], hi[ok])
    ctx.env(skip_nan='False', tqdm_workers=1)
    if miss.any():
        try:
            r = ver.build(c2).rank_hist()
        except Exception:
            return
        raise Violation('missing data were ranked although pyanen_skip_nan is off: {}'.format(r))


def gen_ri(d):
    n = d.int(2, 12)
    return {'freq': [d.int(0, 50) for _ in range(n - 1)] + [d.int(1, 50)], 'scale': d.pick([1., 0.25, 100.]),
            'perm': d.perm(n), 'flat': d.bool()}


def check_ri(c, ctx):
    q = np.array([1] * len(c['freq']) if c['flat'] else c['freq'], dtype=float)
    ctx.trivial = len(set(c['freq'])) < 2
    want = float(sum(abs(x / q.sum() - 1. / len(q)) for x in q))
    ri = PyAnEn.VerifyEnsemble.reliability_index
    need_close(ri(q * c['scale']), want, 'reliability index of {}'.format(q.tolist()))
    need_close(ri(q.astype(int)), want, 'reliability index of counts')
    need_close(ri(q / q.sum()), want, 'reliability index of frequencies')
    need_close(ri(q[c['perm']]), want, 'reliability index of permuted counts')
    if c['flat']:
        need(abs(float(ri(q))) < 1e-12, 'a flat histogram has the index {}', ri(q))


SUBS = [
    Sub('large', lambda d: gen(d, True), check, 40, 'the same with 150 to 3000 samples and up to 100 members; non-trivial as above'),
    Sub('ranks', gen, check, 1500, 'with and without ties, member axis anywhere; non-trivial: several ranks occur'),
    Sub('ties', gen_ties, check_ties, 60, 'many copies of tied samples; every case is non-trivial', thorough=800),
    Sub('missing', gen_nan, check_nan, 500, 'missing observations and members; non-trivial: some are missing and some are not'),
    Sub('index', gen_ri, check_ri, 500, 'frequencies, flat or not; non-trivial: not all equal'),
]
