"""C14: binned spread-skill."""
import numpy as np

from PyAnEn.utils_ss import binned_spread_skill

from .. import ver
from ..engine import Sub
from ..gen import need, need_close, norm_axis, out_shape, slices

ASSUMPTIONS = ['tied spreads may be distributed over neighbouring bins in any way']


def gen_f(d):
    shape = d.shape(1, 4, 6, min_size=2, max_size=120) if d.int(0, 9) else d.big_shape(max_dim=4)
    ax = d.axis(len(shape))
    n = int(np.prod([shape[i] for i in norm_axis(ax, len(shape))]))
    k = d.pick([1., 1., 1e-8, 1e-4, 1e6])
    return {'var': k * d.arr(shape, 0., 9., d.pick(['cont', 'cont', 'grid', 'coarse'])),
            'sq': d.pick([1., k]) * d.arr(shape, 0., 20., d.pick(['cont', 'prec'])),
            'axis': ax, 'bins': min(n, d.pick([d.int(1, 15), d.int(1, 15), d.int(1, n), n]))}


def verify(sp, rm, var, sq, axis, nb, ctx, eps=1e-13):
    """eps: relative precision of the variances and squared errors."""
    ev, es = eps * np.max(np.abs(var)), eps * np.max(np.abs(sq))
    sp, rm = np.asarray(sp), np.asarray(rm)
    want = out_shape(var.shape, axis) + (nb,)
    need(sp.shape == want and rm.shape == want, 'shapes {} {} instead of {}', sp.shape, rm.shape, want)
    ties = False
    for idx, full in slices(var.shape, axis):
        a, b = np.ravel(var[full]), np.ravel(sq[full])
        n = len(a)
        size = np.array([n // nb + (1 if k < n % nb else 0) for k in range(nb)])
        s, r = sp[idx], rm[idx]
        need(np.all(np.diff(s ** 2) >= -ev), 'the spread of the bins decreases: {}', s)
        need_close(np.sum(size * s ** 2), a.sum(), 'variance is not conserved', rtol=1e-9, atol=n * ev)
        need_close(np.sum(size * r ** 2), b.sum(), 'squared error is not conserved', rtol=1e-9, atol=n * es)
        o = np.argsort(a, kind='stable')
        cuts = np.cumsum(size)[:-1]
        need_close(s ** 2, [x.mean() for x in np.split(a[o], cuts)], 'squared spread of the bins of slice {}'.format(idx), rtol=1e-8, atol=ev)
        v = a[o]
        if np.min(np.diff(v), initial=np.inf) > 2 * ev:
            need_close(r ** 2, [x.mean() for x in np.split(b[o], cuts)], 'squared error of the bins of slice {}'.format(idx), rtol=1e-8, atol=es)
        else:
            ties = True
            # bins without a tie across their edges still have to match
            for k, (x, lo, hi) in enumerate(zip(np.split(b[o], cuts), [0] + list(cuts), list(cuts) + [n])):
                if (lo == 0 or v[lo] - v[lo - 1] > 2 * ev) and (hi == n or v[hi] - v[hi - 1] > 2 * ev):
                    need_close(r[k] ** 2, x.mean(), 'squared error of bin {}'.format(k), rtol=1e-8, atol=es)
    ctx.label('ties' if ties else 'no ties')


def check_f(c, ctx):
    ctx.trivial = c['bins'] < 2
    ax = c['axis'] if not isinstance(c['axis'], int) else (c['axis'],)
    sp, rm = binned_spread_skill(c['var'], c['sq'], c['bins'], ax)
    verify(sp, rm, c['var'], c['sq'], c['axis'], c['bins'], ctx)


def gen(cls):
    def g(d):
        shape = d.shape(1, 4, 6, min_size=2, max_size=80) if d.int(0, 14) or cls == 'hurdle' else d.big_shape(hi=1100)
        c = ver.units(d, ver.gen(d, cls, shape))
        c['axis'] = d.axis(len(shape))
        n = int(np.prod([shape[i] for i in norm_axis(c['axis'], len(shape))]))
        c['bins'] = min(n, d.pick([d.int(1, 12), d.int(1, n)]))
        return c
    return g


def check(c, ctx):
    ctx.trivial = c['bins'] < 2
    v = ver.build(c, avg_axis=c['axis'])
    if c['cls'] == 'ens':
        m = c['f'].mean(-1)
        var, sq = ((c['f'] - m[..., None]) ** 2).mean(-1), (m - c['o']) ** 2
    elif c['cls'] == 'hurdle':
        var, sq = np.array(v.variance()), (np.array(v.f_determ()) - c['o']) ** 2
        if var.min() < 0:           # a coarse integration can give this; the root is then not defined
            ctx.trivial = True
            return
    else:
        var, sq = c['sigma'] ** 2, (c['mu'] - c['o']) ** 2
    sp, rm = v.binned_spread_skill(nbins=c['bins'])
    # the data can lie far from zero compared with their spread
    m = ver.mag(c)
    eps = 1e-13 * max(1., m ** 2 / np.max(var) if np.max(var) > 0 else 1., m ** 2 / np.max(sq) if np.max(sq) > 0 else 1.)
    if np.max(var) == 0 or eps > 1e-6:
        ctx.trivial = True
        return
    verify(sp, rm, var, sq, c['axis'], c['bins'], ctx, eps)


SUBS = [Sub('function', gen_f, check_f, 1500, 'variances with and without ties, any axis; non-trivial: at least two bins')] + \
       [Sub(cls, gen(cls), check, 500 if cls != 'hurdle' else 150, 'verifiers; non-trivial: at least two bins') for cls in ('ens',) + ver.PROB]
