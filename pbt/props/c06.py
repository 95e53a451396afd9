"""C06: members sampled from a forecast distribution follow that distribution."""
import numpy as np

from PyAnEn.utils_dist import sample_dist_gamma, sample_dist_gaussian

from .. import ref, ver
from ..engine import Sub
from ..gen import need, need_close, norm_axis

ASSUMPTIONS = ['Kolmogorov-Smirnov bound 3.7/sqrt(n): a correct sampler exceeds it with probability below 1e-11',
               'correlation bound 6.5/sqrt(n) between cells']

CL = ('gauss', 'tgauss', 'gamma', 'tgamma')


def gen(cls):
    def g(d):
        shape = d.shape(1, 4, 4, max_size=20)
        c = ver.gen(d, cls, shape)
        if cls in ('gauss', 'tgauss') and d.int(0, 3) == 0:
            c['mu'] = -c['sigma'] * d.arr(shape, 1., 8., 'cont')
        c = ver.units(d, c)
        c['n'] = d.int(1, 7)
        c['move'] = d.int(-1 - len(shape), len(shape))
        c['clip'] = d.pick([None, float(np.median(c['sigma'])) * d.pick([0.5, 1., 3.]), 2.0, 0.0])
        c['axis'] = d.axis(len(shape))
        return c
    return g


def axis_of(c):
    return c['move'] + c['o'].ndim + 1 if c['move'] < 0 else c['move']


def check(c, ctx):
    wd = ctx.fresh_dir()
    v = ver.build(c, n_sample_members=c['n'], move_sampled_ens_axis=c['move'], clip_member_to_zero=c['clip'],
                  avg_axis=c['axis'], working_directory=wd)
    e = np.array(v.prob_to_ens())
    ax = axis_of(c)
    want = list(c['o'].shape)
    want.insert(ax, c['n'])
    need(list(e.shape) == want, 'members have shape {} instead of {}', e.shape, want)
    need(np.all(np.isfinite(e)), 'members are not finite')
    ctx.trivial = c['n'] < 2
    if c['cls'] in ('tgauss', 'tgamma'):
        need(np.all(e >= 0), 'truncated members below zero: {}', e.min())
    if c['cls'] in ('gamma',) and c['clip'] is None:
        need(np.all(np.moveaxis(e, ax, -1) >= c['shift'][..., None] - 1e-9 * ver.mag(c)), 'members below the shift')
    if c['clip'] is not None:
        need(np.all((e == 0) | (e >= c['clip'])), 'members below the clip value {} that are not zero: {}', c['clip'], e.tolist())
        if c['cls'] in ('tgauss', 'tgamma') and c['clip'] == 0.0:
            need(np.all(e > 0), 'members were clipped without reason')
    # everything that uses the members uses these
    m = np.moveaxis(e, ax, -1)
    need_close(v.spread(), ref.mean_over(m.max(-1) - m.min(-1), c['axis']), 'spread of the sampled members')
    lo = 1 + np.sum(m < c['o'][..., None], axis=-1)
    hi = lo + np.sum(m == c['o'][..., None], axis=-1)
    r = v.rank_hist()
    need(r.shape == c['o'].shape and np.all((r >= lo) & (r <= hi)), 'ranks {} among the sampled members, expected {}..{}', r, lo, hi)


def gen_dist(cls):
    def g(d):
        shape = d.pick([(1,), (3,), (2, 2), (4,), (1, 3)])
        c = ver.gen(d, cls, shape)
        if cls in ('gauss', 'tgauss') and d.int(0, 2) == 0:
            c['mu'] = -c['sigma'] * d.arr(shape, 1., 8., 'cont')
        c = ver.units(d, c)
        c['n'] = d.pick([1500, 3000])
        c['move'] = d.int(-1 - len(shape), len(shape))
        c['workers'] = d.often(1, 2, 3)
        c['map_axis'] = -d.int(1, len(shape))
        c['chunk'] = d.int(1, 3)
        c['clip'] = d.pick([None, None, 0.7 * float(np.median(c['sigma']))])
        c['via'] = d.pick(['class', 'function'])
        c['salt'] = d.int(0, 10 ** 6)
        return c
    return g


def check_dist(c, ctx):
    ctx.env(tqdm_workers=c['workers'], tqdm_map_axis=c['map_axis'], tqdm_chunksize=c['chunk'])
    ctx.label('{} workers'.format(c['workers']))
    n, ax, clip = c['n'], axis_of(c), c['clip']
    if c['via'] == 'class':
        e = ver.build(c, n_sample_members=n, move_sampled_ens_axis=c['move'], clip_member_to_zero=clip).prob_to_ens()
    else:
        clip = None
        tr = c['cls'] in ('tgauss', 'tgamma')
        if c['cls'] in ('gauss', 'tgauss'):
            e = sample_dist_gaussian(c['mu'], c['sigma'], n, c['move'], tr)
        else:
            e = sample_dist_gamma(c['unshifted_mu'], c['sigma'], c['shift'], n, c['move'], tr)
    m = np.moveaxis(e, ax, -1).reshape(-1, n)
    us = []
    cells = [ver.take(c, np.unravel_index(i, c['o'].shape)) for i in range(len(m))]
    for cell, x in zip(cells, m):
        x = np.sort(x) if clip is None else np.sort(x[x != 0])
        u = ver.ref_cdf(cell, x) if clip is None else None
        if clip is not None:
            # above the clip value: the distribution conditioned on it; the share of zeros: the mass below
            p0 = float(np.ravel(ver.ref_cdf(cell, clip))[0])
            k = n - len(x)
            need(abs(k - n * p0) < 6.5 * np.sqrt(n * p0 * (1 - p0)) + 3, '{} of {} members clipped, expected {}', k, n, n * p0)
            if len(x) < 200:
                continue
            u = (ver.ref_cdf(cell, x) - p0) / (1 - p0)
        k = len(x)
        i = np.arange(1, k + 1)
        ks = max(np.max(i / k - u), np.max(u - (i - 1) / k))
        need(ks < 3.7 / np.sqrt(k), 'members of {} do not follow the forecast distribution: Kolmogorov-Smirnov {} with {} members',
             c['cls'], ks, k)
    if clip is None:
        us = [ver.ref_cdf(cell, x) for cell, x in zip(cells, m)]
        for i in range(len(us)):
            s = us[i]
            r = np.corrcoef(s[1:], s[:-1])[0, 1]
            need(abs(r) < 6.5 / np.sqrt(n), 'successive members are correlated: {}', r)
            for j in range(i):
                r = np.corrcoef(us[i], us[j])[0, 1]
                need(abs(r) < 6.5 / np.sqrt(n), 'members of cells {} and {} are correlated: {}', j, i, r)
                need(abs(np.corrcoef(us[i][1:], us[j][:-1])[0, 1]) < 6.5 / np.sqrt(n), 'members of cells {} and {} are correlated with a lag', j, i)


def gen_tail(cls):
    def g(d):
        c = ver.units(d, ver.gen(d, cls, (1,)))
        c['move'], c['n'] = d.pick([-1, 0]), 300000
        return c
    return g


def check_tail(c, ctx):
    """Many members reach as far into both tails as they should, and every call draws its own."""
    n = c['n']
    v = ver.build(c, n_sample_members=n, move_sampled_ens_axis=c['move'])
    us = [np.ravel(ver.ref_cdf(c, np.ravel(np.asarray(v.prob_to_ens())))) for _ in range(2)]
    for u in us:
        need(u.min() < 30. / n and u.max() > 1 - 30. / n, '{} members of {} lie between the probabilities {} and {}', n, c['cls'], u.min(), u.max())
        for p in (1e-3, 0.01, 0.1, 0.5, 0.9, 0.99, 0.999):
            k = int(np.sum(u < p))
            need(abs(k - n * p) < 6.5 * np.sqrt(n * p * (1 - p)) + 3, '{} of {} members of {} below the quantile {}', k, n, c['cls'], p)
    need(abs(np.corrcoef(us[0], us[1])[0, 1]) < 6.5 / np.sqrt(n), 'members of two calls are correlated')


SUBS = [Sub('tail_' + cls, gen_tail(cls), check_tail, 12, '300000 members twice; every case is non-trivial', thorough=150) for cls in CL] + \
       [Sub(cls, gen(cls), check, 400, 'count, axis, clip and truncation; non-trivial: at least two members') for cls in CL] + \
       [Sub('dist_' + cls, gen_dist(cls), check_dist, 60, 'large samples, serial and parallel; every case is non-trivial', thorough=800) for cls in CL]
