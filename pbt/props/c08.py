"""C08: probability integral transform."""
import numpy as np

from .. import ver
from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['uniformity by Kolmogorov-Smirnov at 3.7/sqrt(n)']


def gen(cls):
    def g(d):
        shape = d.shape(1, 4, 5, max_size=60) if d.int(0, 19) else d.big_shape(max_dim=4, hi=1100)
        c = ver.units(d, ver.gen(d, cls, shape))
        if cls == 'tgauss' and d.int(0, 3) == 0:
            c['mu'] = -c['sigma'] * d.arr(shape, 0., 5., 'cont')
        c['rand'] = d.bool()
        if d.int(0, 3) == 0:
            c['o'] = np.where(d.arr(shape, 0, 1, 'cont') < 0.5, 0., c['o'])
        c['via'] = d.pick(['pit', 'rank_hist'])
        return c
    return g


def check(c, ctx):
    kw = {} if c['rand'] and c['o'].size % 2 else {'pit_randomize_zero_ranks': c['rand']}
    v = ver.build(c, **kw)
    o0 = c['o'].copy()
    r = np.array(getattr(v, c['via'])())
    want = ver.ref_cdf(c, c['o'])
    zero = c['o'] == 0
    ctx.label('zeros' if zero.any() else 'no zeros')
    ctx.trivial = bool(np.all((want < 1e-9) | (want > 1 - 1e-9)))
    need(r.shape == c['o'].shape, 'shape {} instead of {}', r.shape, c['o'].shape)
    need(np.array_equal(o0, c['o']), 'the observations were changed')
    exact = ~zero if c['rand'] else np.ones(zero.shape, bool)
    need_close(r[exact], want[exact], 'PIT', rtol=1e-7, atol=1e-9)
    if c['rand']:
        need(np.all((r[zero] >= 0) & (r[zero] <= want[zero] + 1e-12)), 'PIT of zero observations {} not in 0..{}', r[zero], want[zero])


def gen_cal(cls):
    def g(d):
        n = 2500
        seed = d.int(0, 2 ** 31)
        rng = np.random.RandomState(seed)
        c = {'cls': cls, 'seed': seed, 'n': n, 'lead': d.pick([1, 5]), 'ms': d.pick([0.2, 1., 3.]), 'pop': [d.f(0., 1.), d.f(0., 1.)]}
        return c
    return g


def check_cal(c, ctx):
    """Observations drawn from the forecasts: the PIT has to be uniform, also with a point mass at zero."""
    rng = np.random.RandomState(c['seed'])
    n, cls = c['n'], c['cls']
    u = rng.uniform(size=n)
    k = {'cls': cls}
    from scipy import special
    if cls in ('gauss', 'tgauss'):
        k['mu'], k['sigma'] = rng.uniform(-1, 3, n) * c['ms'], rng.uniform(0.5, 2, n)
        if cls == 'gauss':
            o = k['mu'] + k['sigma'] * special.ndtri(u)
        else:
            o = k['mu'] - k['sigma'] * special.ndtri((1 - u) * special.ndtr(k['mu'] / k['sigma']))
    elif cls in ('gamma', 'tgamma', 'hurdle'):
        mu, s = rng.uniform(0.5, 4, n) * c['ms'], rng.uniform(0.3, 1.5, n) * c['ms']
        shift = -rng.uniform(0, 0.5, n) * c['ms'] if cls != 'hurdle' else np.zeros(n)
        a, th = (mu / s) ** 2, s ** 2 / mu
        if cls == 'gamma':
            o = special.gammaincinv(a, u) * th + shift
        elif cls == 'tgamma':
            o = special.gammainccinv(a, (1 - u) * special.gammaincc(a, -shift / th)) * th + shift
            o = np.maximum(o, 1e-12)
        else:
            pop = rng.uniform(min(c['pop']), max(c['pop']), n)
            o = np.where(u <= 1 - pop, 0., special.gammaincinv(a, np.clip((u - 1 + pop) / np.maximum(pop, 1e-12), 0, 1)) * th)
            k['pop'] = pop
        k['sigma'] = s
        if cls == 'hurdle':
            k['mu'], k['nbins'], k['irange'] = mu, 5, (0., 10.)
        else:
            k['unshifted_mu'], k['shift'], k['mu'] = mu, shift, mu + shift
    k['o'] = o
    sh = (c['lead'], n // c['lead'])
    for key in list(k):
        if isinstance(k[key], np.ndarray):
            k[key] = k[key].reshape(sh)
    v = ver.build(k)
    r = np.sort(np.ravel(v.rank_hist()))
    i = np.arange(1, n + 1)
    ks = max(np.max(i / n - r), np.max(r - (i - 1) / n))
    ctx.label('zeros' if np.any(o == 0) else 'no zeros')
    need(ks < 3.7 / np.sqrt(n), 'calibrated {} forecasts: the PIT is not uniform, Kolmogorov-Smirnov {}', cls, ks)


def gen_draws(d):
    return {'cls': d.pick(list(ver.PROB)), 'n': d.pick([800, 1500]), 'seed': d.int(0, 2 ** 31), 'via': d.pick(['pit', 'rank_hist']), 'first': d.int(0, 5), 'lead': d.pick([1, 4])}


def check_draws(c, ctx):
    """Draws for zero observations: uniform below the probability, and new ones in every call and for every place."""
    n, rng = c['n'], np.random.RandomState(c['seed'])
    k = {'cls': c['cls'], 'o': np.zeros(n), 'sigma': rng.uniform(0.8, 2., n), 'mu': rng.uniform(-1., 1., n)}
    if c['cls'] in ('gamma', 'tgamma', 'hurdle'):
        k['unshifted_mu'], k['shift'] = rng.uniform(1., 3., n), -rng.uniform(0.3, 0.9, n)
        k['mu'] = k['unshifted_mu'] + (k['shift'] if c['cls'] != 'hurdle' else 0.)
        k['pop'], k['nbins'], k['irange'] = rng.uniform(0.1, 0.8, n), 5, (0., 10.)
    if c['cls'] in ('tgauss', 'tgamma'):
        # no probability at or below zero: nothing to draw from
        r = np.ravel(getattr(ver.build(k), c['via'])())
        need(np.all(np.abs(r) < 1e-12), 'PIT of zero observations {} where nothing is below zero', r[:5])
        ctx.trivial = True
        return
    for key in list(k):
        if isinstance(k[key], np.ndarray):
            k[key] = k[key].reshape(c['lead'], -1)
    want = np.ravel(ver.ref_cdf(k, 0.))
    v = ver.build(k)
    for _ in range(c['first']):
        v.pit()
    u = [np.ravel(getattr(x, c['via'])()) / want for x in (v, v, ver.build(k), v)]
    i = np.arange(1, n + 1)
    for x in u:
        s = np.sort(x)
        need(max(np.max(i / n - s), np.max(s - (i - 1) / n)) < 3.7 / np.sqrt(n), 'draws for zero observations are not uniform')
        need(abs(np.corrcoef(x[1:], x[:-1])[0, 1]) < 6.5 / np.sqrt(n), 'successive draws are correlated')
    for a in range(len(u)):
        for b in range(a):
            need(abs(np.corrcoef(u[a], u[b])[0, 1]) < 6.5 / np.sqrt(n), 'draws of calls {} and {} are correlated', b, a)


SUBS = [Sub('draws', gen_draws, check_draws, 60, 'repeated calls; non-trivial: some probability at or below zero')] + \
       [Sub(cls, gen(cls), check, 700, 'PIT against the distribution function, zeros randomized or not; non-trivial: some value strictly inside (0, 1)') for cls in ver.PROB] + \
       [Sub('uniform_' + cls, gen_cal(cls), check_cal, 80, 'calibrated forecasts; every case is non-trivial') for cls in ver.PROB]
