"""C05: results do not depend on workers, map axis, chunk size, memory mode or completion order."""
import os

import numpy as np

from PyAnEn.utils_approximation import Integration

from .. import fakeray, ver
from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['process pools are real forked processes; Ray is a stand-in that runs tasks in a generated order '
               'and reports them in a generated order',
               'randomness (sampling, ties) is compared by what it may return, not by its exact numbers']


def gen(cls):
    def g(d):
        shape = d.shape(1, 4, 4, max_size=24)
        c = ver.gen(d, cls, shape)
        if cls == 'tgauss' and d.int(0, 3) == 0:
            c['mu'] = -c['sigma'] * d.arr(shape, 2., 8., 'cont')
        c = ver.units(d, c)
        c['workers'] = d.int(2, 4)
        c['map_axis'] = -d.int(1, len(shape))
        c['chunk'] = d.int(1, 5)
        c['ob'] = ver.over_below(d, c)
        c['arr'] = d.bool()
        w = 0.1 * (np.ptp(c['o']) + ver.mag(c))
        c['t'] = d.arr(shape, float(c['o'].min()) - w, float(c['o'].max()) + w, 'cont')
        c['what'] = d.pick({'ens': ['cdf', 'kde', 'rank_hist', 'rank_hist', 'brier', 'roc'], 'hurdle': ['cdf', 'pit', 'brier']}.get(cls, ['cdf', 'pit', 'brier']))
        return c
    return g


def run(c):
    v = ver.build(c, **({'pit_randomize_zero_ranks': False} if c['what'] == 'pit' else {}))
    side, t = list(c['ob'].items())[0]
    if c['arr']:
        t = c['t']
    if c['what'] in ('cdf', 'kde'):
        return [v.cdf(**{side: t})]
    if c['what'] == 'pit':
        return [v.pit()]
    if c['what'] == 'brier':
        return [v.brier(**{side: t})]
    if c['what'] == 'roc':
        return list(v.roc(**{side: t}))
    return [v.rank_hist()]


def check(c, ctx):
    ctx.label(c['what'])
    ctx.trivial = c['o'].size < 2
    if c['what'] == 'roc':
        t = c['t'] if c['arr'] else list(c['ob'].values())[0]
        if len(np.unique(c['o'] < t)) < 2 or len(np.unique(c['o'] > t)) < 2:
            ctx.trivial = True
            return
    if c['what'] == 'kde':
        w = max(np.ptp(c['f']), 1e-6 * ver.mag(c))
        c['f'] = c['f'] + 0.1 * w * np.arange(c['f'].shape[-1])
        ctx.env(ens_to_prob_method='kde', kde_bandwidth=0.2 * w, kde_samples=60)
    serial = run(c)
    ctx.env(tqdm_workers=c['workers'], tqdm_map_axis=c['map_axis'], tqdm_chunksize=c['chunk'])
    par = run(c)
    if c['what'] == 'rank_hist':
        lo = 1 + np.sum(c['f'] < c['o'][..., None], axis=-1)
        hi = lo + np.sum(c['f'] == c['o'][..., None], axis=-1)
        for r in (serial[0], par[0]):
            need(r.shape == c['o'].shape, 'ranks of shape {} for {}', r.shape, c['o'].shape)
            need(np.all((r >= lo) & (r <= hi)), 'ranks {} outside {}..{}', r.tolist(), lo.tolist(), hi.tolist())
        return
    for a, b in zip(serial, par):
        need_close(b, a, '{} with {} workers along {}'.format(c['what'], c['workers'], c['map_axis']), rtol=1e-10, atol=1e-12)


def gen_large(d):
    cls = d.pick(['ens', 'ens', 'tgauss', 'tgamma'])
    shape = d.big_shape(1, 3, lo=990, hi=2100) if cls == 'ens' else d.big_shape(2, 3, lo=150, hi=300)
    c = ver.gen(d, cls, shape)
    c.update(workers=d.int(2, 3), map_axis=-1 - int(np.argmin(shape[::-1])), chunk=d.int(1, 9), ob=ver.over_below(d, c), arr=d.bool(),
             t=d.arr(shape, float(c['o'].min()), float(c['o'].max()) + 1, 'cont'), what=d.pick(['cdf', 'brier'] + (['rank_hist'] if cls == 'ens' else ['pit'])))
    return c


def gen_int(d):
    cls = d.pick(['hurdle', 'hurdle', 'gauss', 'ens', 'gamma', 'tgauss'])
    shape = d.shape(1, 3, 3, max_size=12)
    c = ver.gen(d, cls, shape)
    c['bins'] = d.often(d.int(2, 12), d.int(13, 60))
    c['range'] = (d.pick([0., -3.]), d.pick([5., 12.])) if d.bool() else None
    c['what'] = d.pick(['mean', 'variance', 'crps'])
    c['order'] = [d.int(0, 20) for _ in range(d.int(1, 12))]
    c['less'] = d.bool()
    c['workers'] = d.int(1, 6)
    c['chunk'] = d.int(1, 9)
    c['via_env'] = d.bool()
    return c


def check_int(c, ctx):
    ctx.label(c['what'] + (' less memory' if c['less'] else ''))
    if c['range'] is None and np.ptp(c['o']) == 0:
        ctx.trivial = True
        return
    v = ver.build(c)
    serial = getattr(Integration(v, integration_range=c['range'], nbins=c['bins']), c['what'])()
    ctx.trivial = c['workers'] == 1 and not c['less']
    fakeray.harness_schedule(c['order'])
    wd = ctx.fresh_dir()
    if c['via_env']:
        ctx.env(tqdm_workers=c['workers'], tqdm_chunksize=c['chunk'], integrate_with_less_memory=c['less'], integrate_wdir=wd)
        par = getattr(Integration(v, integration_range=c['range'], nbins=c['bins']), c['what'])()
    else:
        par = getattr(Integration(v, integration_range=c['range'], nbins=c['bins'], workers=c['workers'], chunksize=c['chunk'],
                                  less_memory=c['less'], memmap_dir=wd), c['what'])()
    need_close(par, serial, '{} with {} workers, less memory {}, completion order {}'.format(c['what'], c['workers'], c['less'], c['order']),
               rtol=1e-9, atol=1e-12 * (1 + ver.mag(c)) ** 2)
    need(os.listdir(wd) == [], 'files left behind: {}', os.listdir(wd))
    if c['workers'] > 1:
        need(not fakeray.harness_state()['on'], 'Ray is left running')


def gen_samp(cls):
    def g(d):
        shape = d.shape(1, 4, 4, max_size=24)
        n = int(np.prod(shape))
        order = np.array(d.perm(n), float).reshape(shape)
        c = {'cls': cls, 'sigma': np.full(shape, 0.5), 'mu': 20. + 20. * order, 'o': np.ones(shape)}
        if cls in ('gamma', 'tgamma'):
            c['shift'] = -d.arr(shape, d.pick([0., -3.]), 3., 'cont')
            c['unshifted_mu'] = c['mu'] - c['shift']
        c['n'] = d.int(1, 5)
        c['move'] = d.int(-1 - len(shape), len(shape))
        c['workers'] = d.int(2, 4)
        c['map_axis'] = -d.int(1, len(shape))
        c['chunk'] = d.int(1, 5)
        return c
    return g


def check_samp(c, ctx):
    ctx.trivial = c['o'].size < 2
    for w in (1, c['workers']):
        ctx.env(tqdm_workers=w, tqdm_map_axis=c['map_axis'], tqdm_chunksize=c['chunk'])
        v = ver.build(c, n_sample_members=c['n'], move_sampled_ens_axis=c['move'])
        e = v.prob_to_ens()
        nd = c['o'].ndim
        ax = c['move'] + nd + 1 if c['move'] < 0 else c['move']
        want = list(c['o'].shape)
        want.insert(ax, c['n'])
        need(list(e.shape) == want, '{} workers: members have shape {} instead of {}', w, e.shape, want)
        dist = np.abs(np.moveaxis(e, ax, -1) - c['mu'][..., None])
        need(np.all(dist < 0.5 * 15), '{} workers: members far from the forecast of their own cell: {}', w, dist.max())


R = 'serial and parallel runs of one case; non-trivial: at least two cells'
SUBS = [Sub(cls, gen(cls), check, 90, R, thorough=1500) for cls in ver.CLASSES if cls != 'determ'] + [
    Sub('integration', gen_int, check_int, 800, 'integrals under every schedule and memory mode; non-trivial: parallel or memory mapped', thorough=12000),
    Sub('large', gen_large, check, 15, 'more cells than fit into one chunk; every case is non-trivial', thorough=300),
] + [Sub('members_' + cls, gen_samp(cls), check_samp, 30, 'sharp forecasts at distinct places; non-trivial: at least two cells', thorough=800)
     for cls in ('gauss', 'tgauss', 'gamma', 'tgamma')]
