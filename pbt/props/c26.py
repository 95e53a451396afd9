"""C26: metrics do not depend on units, origin, or the order and multiplicity of samples and members."""
import numpy as np

from .. import ver
from ..engine import Sub
from ..gen import need, need_close, slices

ASSUMPTIONS = ['only scaling, and no change of origin, for forecasts that are bounded at zero',
               'changes of sign and multiplied members for forecasts without ties (an event is strict, a probability includes equality)',
               'kernel density estimates and clip values have units of their own and are not part of this']

DATA = ('f', 'o', 'mu', 'sigma', 'unshifted_mu', 'shift')
# metric: how it scales (power of the factor), and whether it moves with the origin
POWER = {'error': 1, 'ab_error': 1, 'rmse': 1, 'sq_error': 2, 'crps': 1, 'spread': 1, 'variance': 2, 'f_determ': 1, 'ss': 1,
         'corr': 0, 'cdf': 0, 'sharpness': 0, 'brier': 0, 'brier_decomp': 0, 'roc': 0, 'reliability': 0, 'iou_determ': 0, 'iou_prob': 0, 'rank_hist': 0, 'pit': 0}
THRESHOLD = ('cdf', 'sharpness', 'brier', 'brier_decomp', 'roc', 'reliability', 'iou_determ', 'iou_prob')
DETERM = ('error', 'ab_error', 'rmse', 'sq_error', 'corr', 'iou_determ', 'f_determ')
PARAM = DETERM + ('crps', 'variance', 'cdf', 'sharpness', 'brier', 'brier_decomp', 'roc', 'reliability', 'iou_prob', 'ss', 'pit')


def metrics_of(cls):
    if cls == 'determ':
        return [m for m in DETERM if m != 'f_determ']
    if cls == 'ens':
        return [m for m in PARAM if m != 'pit'] + ['spread', 'rank_hist']
    if cls == 'tgamma':
        return [m for m in PARAM if m != 'crps']
    return list(PARAM)


def gen(cls):
    def g(d):
        shape = d.shape(1, 4, 6, min_size=2, max_size=40 if cls != 'hurdle' else 10)
        c = ver.gen(d, cls, shape, kind='cont')
        c['ob'] = {d.pick(['over', 'below']): ver.threshold(d, c)}
        c['axis'] = d.axis(len(shape))
        c['pow'] = d.pick([-40, -20, -10, -3, 3, 10, 20, 40])
        c['k'] = d.pick([2.54, 0.3048, 1000., 1e-3])
        c['b'] = d.pick([0., 273.15, -40., 1000., 1e6 * c['k']])
        c['bins'] = d.int(1, 4)
        c['nb'] = d.int(1, 3)
        c['perm'] = d.perm(int(np.prod(shape)))
        c['reps'] = d.int(2, 3)
        if cls == 'ens':
            c['mperm'] = d.perm(c['f'].shape[-1])
        if 'irange' in c and d.int(0, 2) == 0:
            c['irange'] = None
        return c
    return g


def run(c, m, t, axis):
    v = ver.build(c, avg_axis=axis, **({'pit_randomize_zero_ranks': False} if c['cls'] in ver.PROB else {}))
    ob = {k: t for k in c['ob']}
    if m == 'ss':
        n = int(c['o'].size)
        return list(v.binned_spread_skill(nbins=min(c['nb'], n)))
    if m == 'reliability':
        return [np.asarray(x) for x in v.reliability(nbins=c['bins'], **ob)]
    if m == 'iou_prob':
        return [v.iou_prob(over=(ob.get('over'), 0.37), below=(ob.get('below'), None))]
    if m in THRESHOLD:
        r = getattr(v, m)(**ob)
        return list(r) if isinstance(r, tuple) else [r]
    return [getattr(v, m)()]


def move(c, k, b):
    out = dict(c)
    for key in DATA:
        if key in c:
            out[key] = c[key] * k + (b if key in ('f', 'o') or (key == 'mu' and c['cls'] == 'gauss') else 0.)
    if c.get('irange') is not None:
        out['irange'] = tuple(x * k for x in c['irange'])
    return out


def level(c):
    return float(np.max(c['sigma'])) if 'sigma' in c else max(float(np.ptp(c['f'])), float(np.ptp(c['o'])), 1e-12 * ver.mag(c), 1e-100)


def same(a, b, what, rtol, atol):
    need(len(a) == len(b), '{}: {} results instead of {}', what, len(a), len(b))
    for x, y in zip(a, b):
        need_close(x, y, what, rtol=rtol, atol=atol)


def near(c, t):
    """Is a value next to the threshold, or a probability next to the edge of a bin, so that rounding decides?"""
    s = 1e-9 * (ver.mag(c) + abs(t))
    vals = [c['o'].ravel()] + ([c['f'].ravel()] if 'f' in c else []) + ([c['mu'].ravel()] if 'mu' in c else []) + ([c['f'].mean(-1).ravel()] if c['cls'] == 'ens' else [])
    if any(np.any(np.abs(x - t) < s) for x in vals):
        return True
    if c['cls'] == 'determ':
        return False
    p = ver.prob(c, **{k: t for k in c['ob']}).ravel()
    q = np.sort(p)
    for n in (20, c['bins']):
        e = q * n
        # probabilities next to an edge, also those next to zero and one: their order in a curve is that of rounding
        if c['cls'] != 'ens' and np.any((np.abs(e - np.round(e)) < 1e-7) & (np.round(e) > 0) & (np.round(e) < n)):
            return True
    return bool(np.any(np.abs(p - 0.37) < 1e-7) or (c['cls'] != 'ens' and len(q) > 1 and np.min(np.diff(q)) < 1e-9))


def usable(c, m, t):
    if m in ('roc',):
        y = ver.event(c, **{k: t for k in c['ob']})
        return bool(y.any() and not y.all())
    if m == 'ss':
        var = c['f'].var(-1) if c['cls'] == 'ens' else c['sigma'] ** 2
        return c['o'].size >= c['nb'] and c['cls'] != 'hurdle' and np.min(np.diff(np.sort(var.ravel())), initial=np.inf) > 1e-9 * level(c) ** 2
    if m == 'rank_hist':
        return not np.any(c['f'] == c['o'][..., None])
    if m == 'corr':
        f = c['f'].mean(-1) if c['cls'] == 'ens' else c['f'] if c['cls'] == 'determ' else c['mu']
        return c['o'].size > 2 and all(np.ptp(x[full]) > 1e-3 * level(c) for x in (f, c['o']) for _, full in slices(f.shape, c['axis']))
    return True


def usable_range(c):
    """Gamma hurdle: the default range of the integration has no length when all observations are the same."""
    return not (c['cls'] == 'hurdle' and c['irange'] is None and np.ptp(c['o']) < 1e-3)


def check_units(c, ctx):
    if not usable_range(c):
        ctx.trivial = True
        return
    t = float(list(c['ob'].values())[0])
    # a power of two changes no digit of any number
    k = 2. ** c['pow']
    a = move(c, k, 0.)
    free = c['cls'] in ('determ', 'ens', 'gauss')
    k2, b2 = c['k'], c['b'] if free else 0.
    e = move(c, k2, b2)
    close = near(c, t) or near(e, t * k2 + b2)
    ctx.label('near' if close else 'clear')
    lev = level(c)
    for m in metrics_of(c['cls']):
        if not usable(c, m, t) or (m in ('ss', 'reliability') and c['axis'] is not None):
            continue
        p = POWER[m]
        x = run(c, m, t, c['axis'])
        exact = not (close and c['cls'] != 'ens' and c['cls'] != 'determ' and m in THRESHOLD)
        if exact:
            same(run(a, m, t * k, c['axis']), [np.asarray(z, float) * k ** p for z in x], '{} in units {} times smaller'.format(m, k),
                 1e-9, 1e-10 * (lev * k) ** p if m not in ('error', 'f_determ') else 1e-10 * ver.mag(a))
        if (m in THRESHOLD and close) or (m == 'crps' and c['cls'] == 'hurdle'):
            continue                # rounding decides on which side of a bin an observation lies
        w = [np.asarray(z, float) * k2 ** p for z in x]
        if m == 'f_determ':
            w = [z + b2 for z in w]
        # digits are lost when the data move away from zero
        tol = 1e-8 * (1. + ver.mag(e) / (lev * k2))
        if (m == 'corr' and tol > 1e-5) or (m == 'ss' and tol > 1e-3):
            continue
        if tol > 1e-3 and m in THRESHOLD and c['cls'] == 'gauss':
            continue
        if m == 'rank_hist':
            need(np.array_equal(run(e, m, t * k2 + b2, c['axis'])[0], x[0]), 'ranks change after x * {} + {}', k2, b2)
            continue
        same(run(e, m, t * k2 + b2, c['axis']), w, '{} after x * {} + {}'.format(m, k2, b2), 1e-6 + tol, tol * (lev * k2) ** p + ((1e-12 * ver.mag(e)) ** p if p else 0.))


def flat(c, idx):
    out = dict(c)
    for key in DATA + ('pop',):
        if key in c:
            x = c[key]
            out[key] = (x.reshape(-1, x.shape[-1]) if c['cls'] == 'ens' and key == 'f' else x.reshape(-1))[idx]
    return out


def check_order(c, ctx):
    """All samples in one average: their order and shape do not matter, and repeating all of them changes nothing."""
    if not usable_range(c):
        ctx.trivial = True
        return
    t = float(list(c['ob'].values())[0])
    n = c['o'].size
    i = np.array(c['perm'])
    one, other = flat(c, np.arange(n)), flat(c, i)
    many = flat(c, np.concatenate([i] * c['reps']))
    lev = level(c)
    close = near(c, t)
    for m in metrics_of(c['cls']):
        if not usable(c, m, t) or m in ('f_determ', 'variance', 'cdf', 'sharpness', 'rank_hist', 'pit'):
            continue
        if close and m in ('roc', 'reliability', 'brier_decomp') and c['cls'] != 'ens':
            continue
        x = run(c, m, t, None)
        atol = 1e-10 * lev ** POWER[m] + 1e-13 * ver.mag(c) ** POWER[m]
        same(run(one, m, t, None), x, '{} of the samples in one dimension'.format(m), 1e-8, atol)
        same(run(other, m, t, None), x, '{} of the samples in another order'.format(m), 1e-8, atol)
        if m == 'ss':
            continue
        y = run(many, m, t, None)
        if m == 'reliability':
            y = y[:2] + [z / c['reps'] for z in y[2:]]
        same(y, x, '{} of the samples repeated {} times'.format(m, c['reps']), 1e-8, atol)
    if c['cls'] == 'ens':
        ctx.label('members')
        p = dict(c, f=c['f'][..., c['mperm']])
        q = dict(c, f=np.concatenate([c['f']] * c['reps'], axis=-1))
        q['ens_pos'], q['ens_spell'] = 'last', 'neg'
        for m in metrics_of('ens'):
            if not usable(c, m, t):
                continue
            if m in ('ss', 'reliability'):
                continue
            x = run(c, m, t, c['axis'])
            atol = 1e-10 * lev ** POWER[m] + 1e-12 * ver.mag(c) ** POWER[m]
            if m in ('corr', 'iou_determ') and close:
                continue
            same(run(p, m, t, c['axis']), x, '{} with the members in another order'.format(m), 1e-8, atol)
            if m == 'rank_hist':
                x = [(x[0] - 1) * c['reps'] + 1]
            same(run(q, m, t, c['axis']), x, '{} with every member {} times'.format(m, c['reps']), 1e-8, atol)


def check_sign(c, ctx):
    """Turning the sign of all data turns above into below."""
    t = float(list(c['ob'].values())[0])
    side = list(c['ob'])[0]
    if near(c, t):
        ctx.trivial = True
        return
    n = dict(c, o=-c['o'])
    for key in ('f', 'mu'):
        if key in c:
            n[key] = -c[key]
    n['ob'] = {{'over': 'below', 'below': 'over'}[side]: -t}
    lev = level(c)
    for m in metrics_of(c['cls']):
        if not usable(c, m, t) or (m in ('ss', 'reliability') and c['axis'] is not None):
            continue
        x = [np.asarray(z, float) for z in run(c, m, t, c['axis'])]
        y = [np.asarray(z, float) for z in run(n, m, -t, c['axis'])]
        if m in ('error', 'f_determ'):
            y = [-z for z in y]
        if m == 'pit':
            y = [1 - z for z in y]
        if m == 'rank_hist':
            y = [c['f'].shape[-1] + 2 - z for z in y]
        same(y, x, '{} with the opposite sign'.format(m), 1e-8, 1e-9 * lev ** POWER[m] + 1e-13 * ver.mag(c) ** POWER[m])


R = 'every case is non-trivial unless its range has no length'
SUBS = [Sub('units_' + cls, gen(cls), check_units, 300 if cls not in ('hurdle', 'tgamma') else 120, 'all metrics in other units; ' + R, thorough=4000) for cls in ver.CLASSES] + \
       [Sub('order_' + cls, gen(cls), check_order, 250 if cls not in ('hurdle', 'tgamma') else 100, 'samples and members in another order, or repeated; ' + R, thorough=3000) for cls in ver.CLASSES] + \
       [Sub('sign_' + cls, gen(cls), check_sign, 300, 'all data with the opposite sign; non-trivial: nothing lies at the threshold', thorough=3000) for cls in ('determ', 'ens', 'gauss')]
