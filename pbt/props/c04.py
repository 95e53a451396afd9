"""C04: probabilities of parametric forecasts equal the analytic distribution."""
import numpy as np
import PyAnEn
from scipy import special

from PyAnEn.utils_dist import cdf_gamma, cdf_gamma_hurdle, cdf_gaussian

from .. import ref, ver
from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['reference: scipy.special (erfc, gammainc), accurate to about 1e-12']


def gen(cls):
    def g(d):
        shape = d.shape(1, 4, 5, max_size=60) if d.int(0, 19) else d.big_shape(max_dim=4, hi=1100)
        c = ver.gen(d, cls, shape)
        if cls == 'tgamma' and d.bool():
            c['shift'] = -c['unshifted_mu'] * d.arr(shape, 0., 1.2, d.pick(['cont', 'prec']))
            c['mu'] = c['unshifted_mu'] + c['shift']
        if cls == 'tgauss' and d.int(0, 3) == 0:
            c['mu'] = -c['sigma'] * d.arr(shape, 0., 5., 'cont')
        c = ver.units(d, c)
        how = d.pick(['normal', 'normal', 'sharp', 'vague'])
        if cls in ('tgauss', 'tgamma') and np.any(c['mu'] < 0):
            how = 'normal'
        if how == 'sharp':
            c['sigma'] = c['sigma'] * 0.02
        elif how == 'vague' and cls in ('gauss', 'tgauss'):
            c['sigma'] = c['sigma'] * 20
        c['how'] = how
        c['ob'] = ver.over_below(d, c)
        c['arr'] = d.bool()
        if c['arr']:
            s = float(np.max(c['sigma']))
            c['t'] = d.arr(shape, float(np.min(c['mu'])) - 2 * s, 1.5 * float(np.max(c['mu'])) + s, d.pick(['cont', 'prec', 'grid']))
        return c
    return g


def check(c, ctx):
    side, t = list(c['ob'].items())[0]
    if c['arr']:
        t = c['t']
    p = ver.prob(c, **{side: t})
    ctx.trivial = bool(np.all((p < 1e-6) | (p > 1 - 1e-6)))
    ctx.label(side + (' array' if c['arr'] else ' scalar'))
    ctx.label(c['how'])
    v = ver.build(c)
    got = v.cdf(**{side: t})
    need_close(got, p, 'P({} {})'.format(side, t), rtol=1e-7, atol=1e-9)
    need(np.all((got >= 0) & (got <= 1)), 'probability outside [0, 1]: {}', got)
    need_close(v.sharpness(**{side: t}), p, 'sharpness', rtol=1e-7, atol=1e-9)
    other = 'over' if side == 'below' else 'below'
    need_close(v.cdf(**{other: t}) + got, np.ones(c['o'].shape), 'over + below', rtol=0, atol=1e-12)
    # the functions below the classes
    q = ver.prob(c, below=t)
    if c['cls'] in ('gauss', 'tgauss'):
        r = cdf_gaussian(c['mu'], c['sigma'], t, truncated=c['cls'] == 'tgauss')
    elif c['cls'] in ('gamma', 'tgamma'):
        r = cdf_gamma(c['unshifted_mu'], c['sigma'], c['shift'], t, truncated=c['cls'] == 'tgamma')
    else:
        r = cdf_gamma_hurdle(c['pop'], c['mu'], c['sigma'], t)
    need_close(r, q, 'distribution function at {}'.format(t), rtol=1e-7, atol=1e-9)
    if c['cls'] in ('tgauss', 'tgamma', 'hurdle'):
        need(np.all(v.cdf(below=-0.001 * ver.mag(c)) == 0), 'probability below zero')
        need(np.all(v.cdf(below=-1000) == 0), 'probability below zero')
    if c['cls'] in ('tgauss', 'tgamma'):
        need(np.all(v.cdf(below=0) == 0), 'probability at zero')
    if c['cls'] == 'hurdle':
        need_close(v.cdf(below=0), 1 - c['pop'], 'probability of no precipitation')
        need_close(v.cdf(over=0.), c['pop'], 'probability of precipitation')
    need_close(v.cdf(below=1e3 * (ver.mag(c) + 1.)), np.ones(c['o'].shape), 'limit', atol=1e-9)


def gen_mono(cls):
    def g(d):
        c = ver.gen(d, cls, d.shape(1, 2, 4, max_size=16))
        hi = 2 * float(np.max(c['mu']))
        c['ts'] = sorted({-0.3 * hi + 1.5 * hi * d.int(0, 40) / 40. for _ in range(d.int(3, 8))} | {0.})
        return c
    return g


def check_mono(c, ctx):
    v = ver.build(c)
    last = np.zeros(c['o'].shape)
    for t in c['ts']:
        p = v.cdf(below=t)
        need(np.all(p >= last - 1e-12), 'the distribution function decreases at {}: {} after {}', t, p, last)
        last = p


def gen_deep(d):
    shape = d.shape(1, 3, 4, max_size=12)
    c = {'cls': d.pick(['tgauss', 'tgamma']), 'top': 10. ** -d.arr(shape, 1., 140., 'cont'), 'q': d.arr(shape, 0.001, 0.999, 'cont'),
         's': d.arr(shape, 0.3, 12., 'cont'), 'scale': d.pick([1., 0.02, 300.]) * d.arr(shape, 0.5, 2., 'cont'), 'over': d.bool()}
    return c


def check_deep(c, ctx):
    """Nearly all of the distribution is below zero, as far as 1e-140 of it above."""
    top, q, s, sc = c['top'], c['q'], c['s'], c['scale']
    ctx.label(c['cls'])
    if c['cls'] == 'tgauss':
        l = -special.ndtri(top)
        mu = -l * sc
        t = mu + sc * -special.ndtri_exp(np.log(special.ndtr(-l)) + np.log1p(-q))
        want = ref.trunc_gauss_cdf(t, mu, sc)
        v = PyAnEn.VerifyProbGaussian({'mu': mu, 'sigma': sc}, np.zeros(top.shape), truncated=True)
    else:
        umu, sigma = s * sc, np.sqrt(s) * sc
        shift = -sc * special.gammainccinv(s, top)
        t = shift + sc * special.gammainccinv(s, top * (1 - q))
        want = ref.trunc_gamma_cdf(t, umu, sigma, shift)
        v = PyAnEn.VerifyProbGamma({'mu': umu + shift, 'sigma': sigma, 'shift': shift, 'unshifted_mu': umu}, np.zeros(top.shape), truncated=True)
        if np.any(shift > -1e-9 * sc):
            ctx.trivial = True
            return
    got = v.cdf(over=t) if c['over'] else v.cdf(below=t)
    need_close(got, 1 - want if c['over'] else want, 'probability {} {}'.format('over' if c['over'] else 'below', t), rtol=1e-6, atol=1e-7)
    need_close(v.cdf(below=0.), np.zeros(top.shape), 'at zero', atol=0)
    need_close(v.cdf(below=1e6), np.ones(top.shape), 'limit', atol=1e-12)


R = 'distribution parameters (also sharp, vague, deeply truncated, in units from 1e-6 to 1e6), scalar and array thresholds; non-trivial: some probability strictly inside (0, 1)'
SUBS = [Sub(cls, gen(cls), check, 700, R) for cls in ver.PROB] + \
       [Sub('deep', gen_deep, check_deep, 500, 'truncated distributions with hardly anything above zero; non-trivial: the truncation cuts something')] + \
       [Sub('mono_' + cls, gen_mono(cls), check_mono, 200, 'increasing thresholds; every case is non-trivial') for cls in ver.PROB]
