"""C23: inputs that do not fit together are rejected instead of producing numbers."""
import numpy as np

import pandas as pd
import xarray as xr

import PyAnEn
from PyAnEn.utils_special_boot import brier_decomp, corr

from .. import ver
from ..engine import Sub, Violation
from ..gen import need

ASSUMPTIONS = ['rejected means that an exception is raised; its type is not specified']

KEYS = {'gauss': ('mu', 'sigma'), 'tgauss': ('mu', 'sigma'), 'gamma': ('mu', 'sigma', 'shift', 'unshifted_mu'),
        'tgamma': ('mu', 'sigma', 'shift', 'unshifted_mu'), 'hurdle': ('pop', 'mu', 'sigma')}
CTOR = {'determ': 'VerifyDeterm', 'ens': 'VerifyEnsemble', 'gauss': 'VerifyProbGaussian', 'tgauss': 'VerifyProbGaussian',
        'gamma': 'VerifyProbGamma', 'tgamma': 'VerifyProbGamma', 'hurdle': 'VerifyProbGammaHurdle'}


def rejected(f, what):
    try:
        r = f()
    except Violation:
        raise
    except Exception:
        return
    raise Violation('{} was accepted: {}'.format(what, repr(r)[:300]))


def other_shape(d, shape):
    """A different shape; often one that would broadcast."""
    how = d.pick(['ones', 'drop', 'extra', 'longer', 'swap'])
    s = list(shape)
    if how == 'ones':
        s[d.int(0, len(s) - 1)] = 1
    elif how == 'drop' and len(s) > 1:
        s = s[1:]
    elif how == 'extra':
        s = [1] + s
    elif how == 'swap' and len(s) > 1:
        s[0], s[-1] = s[-1], s[0]
    if tuple(s) == tuple(shape):
        s[-1] += 1
    return tuple(s)


def gen(cls):
    def g(d):
        shape = d.shape(1, 3, 4, min_size=2, max_size=30)
        c = ver.gen(d, cls, shape)
        kinds = ['shape', 'shape', 'shape', 'o type', 'f type', 'boot type', 'axis type', 'wd type', 'scratch type', 'axis range']
        if cls == 'ens':
            kinds += ['middle axis', 'no guess', 'collapse', 'ens axis type']
        elif cls != 'determ':
            kinds += ['key', 'key', 'members type', 'clip type', 'trunc type', 'move type', 'pit type']
            if cls == 'hurdle':
                kinds += ['truncated', 'range', 'bins']
        c.update(what=d.pick(kinds), other=other_shape(d, shape), which=d.int(0, 9), setter=d.bool(),
                 val=d.pick([0, 1, 2, 3]))
        return c
    return g


BAD = {'boot type': [2.5, '10', [3], 1e3], 'axis type': [0.5, '0', {0}, {'a': 1}], 'wd type': [3, ['x'], 2.5, ('a',)],
       'scratch type': [1, 'False', None, 0], 'members type': [2.5, '5', [3], 3.0], 'clip type': ['0', [0.], (1,), {}],
       'trunc type': [1, None, 'True', 0], 'pit type': [1, None, 'False', 0], 'move type': [0.5, None, '0', (0,)], 'collapse': [3, None, 'mean', np.zeros(2)],
       'ens axis type': [0.5, '0', (0,), [1]], 'bins': [2.5, '3', None, [4]]}
ARG = {'boot type': ('boot_samples', 'set_boot_samples'), 'axis type': ('avg_axis', 'set_avg_axis'), 'wd type': ('working_directory', 'enable_saving'),
       'scratch type': ('start_from_scratch', None), 'members type': ('n_sample_members', 'set_ensemble_members'),
       'clip type': ('clip_member_to_zero', 'set_member_clip'), 'trunc type': ('truncated', 'set_truncation'), 'pit type': ('pit_randomize_zero_ranks', None),
       'move type': ('move_sampled_ens_axis', 'set_move_sampled_ens_axis'), 'collapse': ('ensemble_collapse_func', 'set_collapse_func'),
       'ens axis type': ('ensemble_axis', 'set_ensemble_axis'), 'bins': ('n_approx_bins', 'set_bins')}


def check(c, ctx):
    cls, what = c['cls'], c['what']
    ctx.label(what)
    make = getattr(PyAnEn, CTOR[cls])
    o = c['o']
    kw = {}
    if cls == 'ens':
        f, axis = ver.ens_args(c)
        kw['ensemble_axis'] = axis if axis is not None else (-1 if f.shape[:-1] == o.shape else 0)
    elif cls == 'determ':
        f = c['f']
    else:
        f = {k: c[k] for k in KEYS[cls]}
        if cls in ('tgauss', 'tgamma'):
            kw['truncated'] = True

    def metrics(v):
        return [v.error(), v.sq_error()]

    if what == 'shape':
        if cls in ('determ', 'ens'):
            rejected(lambda: make(f, np.resize(o, c['other']), **kw), 'observations {} with forecasts {}'.format(c['other'], f.shape))
        else:
            k = sorted(f)[c['which'] % len(f)]
            g = dict(f)
            g[k] = np.resize(g[k], c['other'])
            rejected(lambda: make(g, o, **kw), 'parameter {} of shape {} with observations {}'.format(k, c['other'], o.shape))
            rejected(lambda: make(f, np.resize(o, c['other']), **kw), 'observations {} with parameters {}'.format(c['other'], o.shape))
    elif what == 'o type':
        rejected(lambda: make(f, [o.tolist(), 3., None, xr.DataArray(o), 'x', pd.Series(o.ravel()) if o.ndim == 1 else pd.DataFrame(o.reshape(len(o), -1))][c['which'] % 6], **kw), 'observations of another type')
    elif what == 'f type':
        if cls in ('determ', 'ens'):
            rejected(lambda: make([f.tolist(), 3., None, {'f': f}, xr.DataArray(f)][c['which'] % 5], o, **kw), 'forecasts of another type')
        else:
            rejected(lambda: make([c['mu'], [c['mu'], c['sigma']], None, 3.][c['val']], o, **kw), 'forecasts of another type')
    elif what == 'key':
        k = sorted(f)[c['which'] % len(f)]
        rejected(lambda: make({q: x for q, x in f.items() if q != k}, o, **kw), 'forecasts without ' + k)
    elif what == 'axis range':
        ax = [o.ndim, -o.ndim - 1, (0, o.ndim), (o.ndim + 2,)][c['val']]
        for m in ('error', 'sq_error', 'ab_error', 'rmse', 'corr'):
            rejected(lambda: getattr(make(f, o, avg_axis=ax, **kw), m)(), '{} with average axis {} of {} dimensions'.format(m, ax, o.ndim))
    elif what == 'middle axis':
        if o.ndim < 2:
            ctx.trivial = True
            return
        g = np.moveaxis(c['f'], -1, 1)
        for ax in (1, 1 - g.ndim):
            rejected(lambda: make(g, o, ensemble_axis=ax), 'ensemble axis {} of {}'.format(ax, g.shape))
    elif what == 'no guess':
        g = np.moveaxis(c['f'], -1, 0)[..., None] * np.ones(2)
        rejected(lambda: make(g, o), 'ensembles {} with observations {}'.format(g.shape, o.shape))
    elif what == 'truncated':
        rejected(lambda: make(f, o, truncated=True), 'a truncated gamma hurdle distribution')
        rejected(lambda: make(f, o).set_truncation(True), 'a truncated gamma hurdle distribution')
    elif what == 'range':
        rejected(lambda: make(f, o, integration_range=[(1.,), (0., 1., 2.), (), 'abc'][c['val']]), 'an integration range without two ends')
    else:
        x = BAD[what][c['val']]
        name, setter = ARG[what]
        if c['setter'] and setter:
            v = make(f, o, **kw)
            rejected(lambda: getattr(v, setter)(x), '{}({!r})'.format(setter, x))
        else:
            kw[name] = x
            if name == 'start_from_scratch':
                kw['working_directory'] = ctx.fresh_dir()
            rejected(lambda: make(f, o, **kw), '{}={!r}'.format(name, x))


def gen_thr(d):
    cls = d.pick([x for x in ver.CLASSES])
    c = ver.gen(d, cls, d.shape(1, 2, 5, min_size=3, max_size=20))
    kinds = ['both', 'neither', 'both', 'neither']
    if cls != 'determ':
        kinds += ['prob', 'bins', 'no members', 'method', 'iou sides', 'threshold shape', 'threshold list', 'map axis']
    if cls == 'hurdle':
        kinds += ['range multiplier'] * 2
    c.update(what=d.pick(kinds), t=ver.threshold(d, c), t2=ver.threshold(d, c), other=other_shape(d, c['o'].shape),
             m=d.pick(['brier', 'cdf', 'sharpness', 'brier_decomp', 'reliability', 'roc', 'iou_determ']) if cls != 'determ' else 'iou_determ',
             p=d.pick([-0.1, 1.1, 2., -5.]), save=d.int(0, 4) == 0)
    return c


def check_thr(c, ctx):
    what, cls = c['what'], c['cls']
    ctx.label(what)
    v = ver.build(c, **({'working_directory': ctx.fresh_dir()} if c['save'] else {}))
    f = getattr(v, c['m'])
    if what == 'both':
        rejected(lambda: f(over=c['t'], below=c['t2']), '{} over {} and below {}'.format(c['m'], c['t'], c['t2']))
    elif what == 'neither':
        rejected(lambda: f(), '{} without a threshold'.format(c['m']))
    elif what == 'prob':
        rejected(lambda: v.iou_prob(over=(c['t'], c['p'])), 'probability {}'.format(c['p']))
        rejected(lambda: v.iou_prob(below=(c['t'], c['p'])), 'probability {}'.format(c['p']))
    elif what == 'iou sides':
        rejected(lambda: v.iou_prob(), 'no threshold for the intersection over union')
        rejected(lambda: v.iou_prob(over=(c['t'], 0.5), below=(c['t2'], 0.5)), 'two thresholds for the intersection over union')
        rejected(lambda: v.iou_prob(over=c['t']), 'a threshold without a probability')
    elif what == 'bins':
        rejected(lambda: v.binned_spread_skill(nbins=c['o'].size + 1), 'more bins than samples')
    elif what == 'no members':
        if cls in ('ens', 'hurdle'):
            ctx.trivial = True
            return
        rejected(lambda: v.prob_to_ens(), 'sampling without a number of members')
        rejected(lambda: v.spread(), 'spread without a number of members')
    elif what == 'method':
        if cls != 'ens':
            ctx.trivial = True
            return
        ctx.env(ens_to_prob_method='nothing')
        rejected(lambda: v.cdf(over=c['t']), 'an unknown method')
        ctx.env(tqdm_workers=2)
        rejected(lambda: v.cdf(over=c['t']), 'an unknown method')
    elif what == 'threshold shape':
        for m in ('cdf', 'brier', 'roc', 'reliability'):
            for side in ('over', 'below'):
                rejected(lambda: getattr(v, m)(**{side: np.full(c['other'], c['t'])}), '{} {} a threshold of shape {}'.format(m, side, c['other']))
    elif what == 'threshold list':
        rejected(lambda: v.cdf(below=[c['t']] * c['o'].shape[0]), 'a list as threshold')
    elif what == 'map axis':
        # counted from the end, so that it never is the axis of the members
        ctx.env(tqdm_workers=2, tqdm_map_axis=0 if c['save'] else min(1, c['o'].ndim - 1))
        if cls == 'ens':
            rejected(lambda: v.rank_hist(), 'an axis to parallelize that is not negative')
        else:
            rejected(lambda: v.cdf(over=c['t']), 'an axis to parallelize that is not negative')
    elif what == 'range multiplier':
        ctx.env(integrate_range_multiplier=0 if c['save'] else -2)
        c['irange'] = None
        v = ver.build(c)
        for m in ('f_determ', 'variance', 'crps'):
            rejected(lambda: getattr(v, m)(), '{} with a range multiplier of zero or less'.format(m))


def gen_pairs(d):
    shape = d.shape(1, 3, 4, min_size=3, max_size=30)
    return {'f': d.arr(shape, 0., 1.), 'o': d.arr(shape, 0., 1.), 'other': other_shape(d, shape), 'swap': d.bool()}


def check_pairs(c, ctx):
    from PyAnEn.utils_verify import iou_determ, iou_prob
    a, b = c['f'], np.resize(c['o'], c['other'])
    if c['swap']:
        a, b = b, a
    rejected(lambda: corr(a, b), 'correlation of {} and {}'.format(a.shape, b.shape))
    rejected(lambda: brier_decomp(a, b > 0.5), 'decomposition of {} and {}'.format(a.shape, b.shape))
    rejected(lambda: iou_determ(a, b, over=0.5), 'intersection over union of {} and {}'.format(a.shape, b.shape))
    rejected(lambda: iou_prob(a, b > 0.5, over=0.5), 'intersection over union of {} and {}'.format(a.shape, b.shape))


SUBS = [Sub(cls, gen(cls), check, 300, 'invalid constructions and settings; every case is non-trivial') for cls in ver.CLASSES] + [
    Sub('thresholds', gen_thr, check_thr, 500, 'invalid arguments of metrics; non-trivial: applies to the forecast type'),
    Sub('pairs', gen_pairs, check_pairs, 200, 'arrays of different shapes, which often broadcast; every case is non-trivial'),
]
