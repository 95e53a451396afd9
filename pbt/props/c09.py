"""C09: CRPS equals the integrated squared difference of the forecast distribution and the observation."""
import numpy as np
import PyAnEn
from scipy import special

from PyAnEn.utils_crps import crps_gamma, crps_truncated_gaussian

from .. import faketf, ref, ver
from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['quadrature (Gauss-Legendre, 40 points per standard deviation) accurate to 1e-9 of the spread',
               'truncated Gaussian: mu at least minus 120 standard deviations (the terms cancel to the square of this ratio)',
               'shifted gamma forecasts are left-censored at zero and observations are not negative',
               'gamma hurdle: numerical integration, judged by the error bound of the trapezoidal rule for its bins']


def gen(cls):
    def g(d):
        big = cls in ('ens', 'gauss') and d.int(0, 24) == 0
        shape = d.big_shape(hi=1100) if big else d.shape(1, 4, 4, max_size=10 if cls != 'ens' else 40)
        c = ver.gen(d, cls, shape, members=d.pick([1, 21, 51, 130]) if big and cls == 'ens' else None)
        c['axis'] = d.axis(len(shape))
        c['how'] = d.pick(['normal', 'normal', 'sharp', 'deep']) if cls != 'ens' else 'normal'
        if c['how'] == 'sharp':
            c['sigma'] = c['sigma'] * 0.05
            if cls == 'tgauss':
                c['mu'] = np.maximum(c['mu'], -9 * c['sigma'])
        elif c['how'] == 'deep' and cls == 'tgauss':
            c['mu'] = -c['sigma'] * d.arr(shape, 3., 9., 'cont')
            c['o'] = c['sigma'] * d.arr(shape, 0., 1., 'prec')
        if cls == 'tgauss' and d.int(0, 2) == 0:
            # the forecast never goes below zero, observations may
            c['o'] = c['o'] - c['sigma'] * d.arr(shape, 0., 3., d.pick(['cont', 'prec']))
        if cls == 'ens' and d.int(0, 2) == 0:
            c = ver.units(d, c, 0)
        elif d.int(0, 2) == 0:
            c = ver.units(d, dict(c), 0)
        c['split'] = d.bool()
        c['a'] = d.pick([0.5, 2., 10.])
        c['b'] = d.pick([-3., 7.]) * ver.mag(c)
        return c
    return g


def one(c, full):
    cell = ver.take(c, full)
    o = float(cell['o'][0])
    cls = c['cls']
    if cls == 'ens':
        return ref.crps_ens(cell['f'].ravel(), o)
    s = float(cell['sigma'][0])
    if cls == 'gauss':
        return ref.crps_gauss(float(cell['mu'][0]), s, o)
    mu = float(cell['mu'][0])
    lo, hi = min(0., o), max(o, mu + 40 * s, 5 * s)
    br = [mu + k * s for k in np.arange(-12, 40, 0.5)] + [k * s for k in np.arange(0.1, 5, 0.1)] + [0., o]
    if cls == 'tgauss':
        cdf = lambda x: ver.ref_cdf(cell, x)
    else:                       # left-censored at zero
        sh, um = float(cell['shift'][0]), float(cell['unshifted_mu'][0])
        br += [sh] + [sh + um * 2. ** -k for k in range(0, 45)]
        cdf = lambda x: np.where(x < 0, 0., ver.ref_cdf(cell, x))
    return ref.crps_quad(cdf, o, lo, hi, breaks=br, pieces=1)


def check(c, ctx):
    shape = c['o'].shape
    ctx.label(c['how'])
    want = np.zeros(shape)
    for i in np.ndindex(*shape):
        want[i] = one(c, i)
    if c['split']:
        ctx.env(split_crps_ensemble_along_0='True')
    v = ver.build(c, avg_axis=c['axis'])
    scale = float(np.max(c['sigma'])) if c['cls'] != 'ens' else 1e-3 * ver.mag(c)
    need_close(v.crps(), ref.mean_over(want, c['axis']), 'CRPS', rtol=2e-6, atol=1e-7 * scale)
    if c['cls'] == 'gamma':
        need_close(crps_gamma(c['unshifted_mu'], c['sigma'], c['shift'], c['o'], reduce_sum=False), want, 'crps_gamma', rtol=2e-6, atol=1e-7 * scale)
        need_close(crps_gamma(c['unshifted_mu'], c['sigma'], c['shift'], c['o']), want.mean(), 'crps_gamma, reduced', rtol=2e-6, atol=1e-7 * scale)
    if c['cls'] == 'tgauss':
        need_close(crps_truncated_gaussian(c['o'], c['mu'], c['sigma']), want, 'crps_truncated_gaussian', rtol=2e-6, atol=1e-7 * scale)
    ctx.trivial = bool(np.all(want < 1e-12 * ver.mag(c)))
    # equivariance under a change of units
    t = dict(c)
    for k in ver.FORECAST_KEYS + ('o',):
        if k in c:
            t[k] = c[k] * c['a']
    if c['cls'] in ('ens', 'gauss'):
        for k in ('f', 'mu', 'o'):
            if k in t:
                t[k] = t[k] + c['b']
    need_close(ver.build(t, avg_axis=c['axis']).crps(), c['a'] * np.asarray(v.crps()), 'CRPS in other units', rtol=1e-6, atol=1e-7 * scale)


def gen_deep(d):
    shape = d.shape(1, 3, 4, max_size=8)
    l = 3. * 10. ** d.arr(shape, 0., 1.6, 'cont')
    s = d.pick([1., 0.02, 300.])
    sigma = s * d.arr(shape, 0.5, 2., 'cont')
    return {'l': l, 'sigma': sigma, 'x': d.often(d.arr(shape, 0., 6., 'cont'), d.arr(shape, -3., 3., 'prec'), d.arr(shape, 0., 200., 'prec')), 'axis': d.axis(len(shape))}


def check_deep(c, ctx):
    """The distribution is hardly above zero: close to an exponential with rate l / sigma."""
    l, sigma, shape = c['l'], c['sigma'], c['l'].shape
    unit = sigma / l
    o = c['x'] * unit
    want = np.zeros(shape)
    for i in np.ndindex(*shape):
        k, u = l[i], c['x'][i]

        def cdf(t):
            # t in units of sigma / l
            z = np.maximum(t, 0.) / k
            return np.where(t <= 0, 0., 1. - np.exp(-z * (2 * k + z) / 2) * special.erfcx((k + z) / np.sqrt(2)) / special.erfcx(k / np.sqrt(2)))
        want[i] = ref.crps_quad(cdf, u, min(0., u), max(50., u), breaks=[0.] + list(np.arange(0.5, 50, 0.5)), pieces=1) * unit[i]
    mu = -l * sigma
    got = crps_truncated_gaussian(o, mu, sigma)
    need(np.all(np.isfinite(got)) and np.all(got >= 0), 'CRPS {} with mu {} and sigma {}', got, mu, sigma)
    need(np.all(np.abs(got - want) <= 1e-5 * want), 'CRPS {} instead of {} with mu {} and sigma {}', got, want, mu, sigma)
    v = PyAnEn.VerifyProbGaussian({'mu': mu, 'sigma': sigma}, o, truncated=True, avg_axis=c['axis'])
    need_close(v.crps(), ref.mean_over(want, c['axis']), 'CRPS far below the truncation', rtol=1e-5, atol=0)


def gen_h(d):
    shape = d.shape(1, 2, 4, max_size=8)
    c = ver.gen(d, 'hurdle', shape)
    c['nbins'] = d.pick([50, 200, 600])
    c['axis'] = d.axis(len(shape))
    return c


def check_h(c, ctx):
    shape = c['o'].shape
    lo, hi = c['irange']
    hi = 40.
    c['irange'] = (lo, hi)
    want = np.zeros(shape)
    for i in np.ndindex(*shape):
        cell = ver.take(c, i)
        o, mu, s = float(cell['o'][0]), float(cell['mu'][0]), float(cell['sigma'][0])
        br = [mu * x for x in (1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.03, 0.1, 0.2, 0.4)] + [mu + k * s for k in np.arange(-6, 30, 0.5)]
        want[i] = ref.crps_quad(lambda x: ver.ref_cdf(cell, x), o, 0., hi, breaks=br, pieces=2)
    dx = (hi - lo) / (c['nbins'] - 1)
    got = ver.build(c, avg_axis=c['axis']).crps()
    w = ref.mean_over(want, c['axis'])
    need(np.shape(got) == w.shape, 'shape {} instead of {}', np.shape(got), w.shape)
    # the integrand has a total variation of at most 3
    need(np.all(np.abs(got - w) <= 1.5 * dx + 1e-6), 'CRPS {} instead of {} (bins of width {})', got, w, dx)


def gen_tf(d):
    shape = d.shape(1, 3, 4, max_size=40)
    c = ver.gen(d, 'gamma', shape)
    c['shift'] = -np.abs(c['shift'])     # igamma is not defined below the shift
    c['mu'] = c['unshifted_mu'] + c['shift']
    c['axis'] = d.axis(len(shape))
    c['nan'] = d.arr(shape, 0., 1., 'cont') < d.pick([0., 0.3])
    return c


def check_tf(c, ctx):
    """Special functions from TensorFlow (a stand-in with the same functions) give the same score; so does the mean with skipping."""
    want = crps_gamma(c['unshifted_mu'], c['sigma'], c['shift'], c['o'], reduce_sum=False)
    plain = ver.build(c, avg_axis=c['axis']).crps()
    scale = float(np.max(c['sigma']))
    ctx.env(use_tensorflow_math='True')
    try:
        with faketf.installed():
            got = crps_gamma(c['unshifted_mu'], c['sigma'], c['shift'], c['o'], reduce_sum=False)
            other = ver.build(c, avg_axis=c['axis']).crps()
    except faketf.Unsupported:
        ctx.label('function without stand-in')
        got, other = want, plain
    need_close(np.asarray(got), want, 'crps_gamma with functions of TensorFlow', rtol=1e-9, atol=1e-10 * scale)
    need_close(np.asarray(other), plain, 'CRPS with functions of TensorFlow', rtol=1e-9, atol=1e-10 * scale)
    ctx.env(use_tensorflow_math='False', skip_nan='True')
    if not c['nan'].all():
        o = np.where(c['nan'], np.nan, c['o'])
        need_close(crps_gamma(c['unshifted_mu'], c['sigma'], c['shift'], o), want[~c['nan']].mean(), 'crps_gamma, reduced, missing values skipped', rtol=1e-9, atol=1e-10 * scale)


R = 'non-trivial: the CRPS is not zero everywhere'
SUBS = [Sub('ens', gen('ens'), check, 1000, 'ensembles with ties against the pairwise formula; ' + R),
        Sub('gauss', gen('gauss'), check, 500, 'against the closed form; ' + R),
        Sub('tgauss', gen('tgauss'), check, 250, 'against quadrature, also sharp and deeply truncated; ' + R),
        Sub('tgauss_deep', gen_deep, check_deep, 250, 'means 3 to 120 standard deviations below zero, against quadrature; every case is non-trivial'),
        Sub('gamma', gen('gamma'), check, 250, 'against quadrature, also sharp; ' + R),
        Sub('tensorflow', gen_tf, check_tf, 300, 'gamma forecasts with a stand-in for TensorFlow, and reduced with missing values; every case is non-trivial'),
        Sub('hurdle', gen_h, check_h, 100, 'against quadrature; every case is non-trivial')]
