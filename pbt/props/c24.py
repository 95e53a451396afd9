"""C24: the truncated gamma distribution is a probability distribution with the documented parameters."""
import numpy as np
from scipy import special

from PyAnEn.dist_truncgamma import truncgamma_gen

from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['bounds a < b in units of the scale, shape s; support loc + a * scale .. loc + b * scale',
               'cases with both bounds keep at least 1e-4 of the gamma distribution between them; with less only bounds in the upper tail are generated (sub-test deep, down to 1e-150)']


def gen(d):
    s = d.often(d.f(0.2, 9.), 0.05, 1., 30., 200.)
    lo = d.f(0., 0.95)
    hi = d.often(d.f(0.96, 1.), lo + (1 - lo) * 0.5)
    a = 0. if d.int(0, 3) == 0 else float(special.gammaincinv(s, lo))
    b = d.often(float(special.gammaincinv(s, max(min(hi, 0.9999), lo + 0.02))), 1000., 10000.)
    # small quantiles of small shapes would be rounded next to a location
    sc = d.pick([1., 0.1, 7., 1e-5, 1e4])
    return {'a': a, 'b': b, 's': s, 'loc': d.pick([0., 0., -1.5, 20.]) * sc if s > 0.5 else 0., 'scale': sc,
            'q': d.arr((7,), 0.001, 0.999), 'u': d.arr((7,), -0.3, 1.3), 'n': d.int(1, 3)}


def check(c, ctx):
    a, b, s, loc, sc = c['a'], c['b'], c['s'], c['loc'], c['scale']
    g = truncgamma_gen()
    kw = {'loc': loc, 'scale': sc}
    z = special.gammainc(s, b) - special.gammainc(s, a)
    if z < 1e-4 or b <= a:
        ctx.trivial = True
        return
    L, U = loc + a * sc, loc + b * sc

    def F(x):
        y = np.clip((x - loc) / sc, a, b)
        return (special.gammainc(s, y) - special.gammainc(s, a)) / z

    # quantiles inside, and points around the whole range
    q = c['q']
    y = special.gammaincinv(s, special.gammainc(s, a) + q * z)
    x = loc + sc * y
    need_close(g.ppf(q, a, b, s, **kw), x, 'quantiles', rtol=1e-7, atol=1e-9 * max(sc, abs(loc)))
    top = loc + sc * min(b, float(special.gammaincinv(s, 0.99999)) + a)
    e = np.concatenate([x, L + (top - L) * c['u'], [L - 1., U + 1., U + 1e4]])
    tiny = 1e-9 * max(sc, abs(loc))
    e = e[np.abs(e - L) > tiny]
    e = e[np.abs(e - U) > tiny]
    got = g.cdf(e, a, b, s, **kw)
    need_close(got, F(e), 'distribution function', rtol=1e-7, atol=1e-9)
    need(np.all(got >= 0) and np.all(got <= 1), 'probabilities {}', got)
    need(np.all(np.diff(got[np.argsort(e)]) >= -1e-12), 'not monotone')
    need_close(g.sf(e, a, b, s, **kw), 1 - F(e), 'survival function', rtol=1e-6, atol=1e-9)
    need_close(g.cdf(x, a, b, s, **kw), q, 'distribution function of the quantiles', rtol=1e-7, atol=1e-9)
    # density
    w = (e - loc) / sc
    dens = np.where((w < a) | (w > b) | (w <= 0), 0., np.exp(special.xlogy(s - 1, np.maximum(w, 1e-300)) - w - special.gammaln(s)) / z / sc)
    need_close(g.pdf(e, a, b, s, **kw), dens, 'density', rtol=1e-6, atol=1e-12)
    # members
    np.random.seed(c['n'])
    r = g.rvs(a, b, s, size=(3, c['n']), **kw)
    need(np.shape(r) == (3, c['n']), 'shape {}', np.shape(r))
    need(np.all(r >= L - tiny) and np.all(r <= U + 1e-9 * abs(U)), 'members {} outside {}..{}', r, L, U)


def gen_many(d):
    c = gen(d)
    c['loc'], c['seed'] = 0., d.int(0, 10 ** 6)
    return c


def check_many(c, ctx):
    """Members follow the distribution (Kolmogorov-Smirnov)."""
    a, b, s, sc = c['a'], c['b'], c['s'], c['scale']
    z = special.gammainc(s, b) - special.gammainc(s, a)
    if z < 1e-3 or b <= a:
        ctx.trivial = True
        return
    np.random.seed(c['seed'])
    n = 4000
    x = np.sort(np.ravel(truncgamma_gen().rvs(a, b, s, size=n, scale=sc)))
    u = (special.gammainc(s, x / sc) - special.gammainc(s, a)) / z
    k = np.arange(n)
    D = max(np.max(u - k / n), np.max((k + 1) / n - u))
    need(np.sqrt(n) * D < 3.3, 'members do not follow the distribution: D = {} with {} members', D, n)


def gen_vec(d):
    n = d.int(1, 5)
    return {'s': d.arr((n,), 0.3, 6.), 'a': d.arr((n,), 0., 2., d.pick(['prec', 'cont'])), 'x': d.arr((n,), 0., 8.), 'scale': d.arr((n,), 0.5, 3.), 'loc': -d.arr((n,), 0., 2.)}


def check_vec(c, ctx):
    """Many distributions at once."""
    b = 10000.
    g = truncgamma_gen()
    z = special.gammaincc(c['s'], c['a'])
    if np.any(z < 1e-4):
        ctx.trivial = True
        return
    y = (c['x'] - c['loc']) / c['scale']
    if np.any(np.abs(y - c['a']) < 1e-9):
        ctx.trivial = True
        return
    want = np.where(y < c['a'], 0., (special.gammainc(c['s'], y) - special.gammainc(c['s'], c['a'])) / z)
    need_close(g.cdf(c['x'], a=c['a'], b=b, s=c['s'], loc=c['loc'], scale=c['scale']), want, 'distribution functions', rtol=1e-7, atol=1e-9)
    need_close(g(a=c['a'], b=b, s=c['s'], loc=c['loc'], scale=c['scale']).cdf(c['x']), want, 'frozen distribution functions', rtol=1e-7, atol=1e-9)


def gen_deep(d):
    """Little or hardly any of the gamma distribution is above the lower bound."""
    s = d.often(d.f(0.2, 9.), 1., 1., 0.1, 30.)
    top = 10. ** -d.f(1., 150.)
    return {'s': s, 'a': float(special.gammainccinv(s, top)), 'width': d.pick([None, None, 0.5, 3., 30.]), 'scale': d.pick([1., 0.1, 7.]),
            'q': d.arr((5,), 0.001, 0.999), 'n': d.int(0, 10 ** 6)}


def check_deep(c, ctx):
    a, s, sc = c['a'], c['s'], c['scale']
    b = np.inf if c['width'] is None else a + c['width']
    ctx.label('one side' if c['width'] is None else 'two sides')
    Qa, Qb = special.gammaincc(s, a), special.gammaincc(s, b)
    ctx.trivial = a <= 0 or not Qa > 1e-160

    if ctx.trivial:
        return
    if s == 1.:
        ctx.label('exponential')
        w = 1. if c['width'] is None else -np.expm1(-c['width'])
        y = a - np.log1p(-c['q'] * w)
    else:
        y = special.gammainccinv(s, Qa - c['q'] * (Qa - Qb))
    x = sc * y
    g = truncgamma_gen()
    F = c['q'] if s == 1. else (Qa - special.gammaincc(s, y)) / (Qa - Qb)
    need_close(g.cdf(x, a, b, s, scale=sc), F, 'distribution function far in the tail', rtol=1e-6, atol=1e-7)
    need_close(g.sf(x, a, b, s, scale=sc), 1 - F, 'survival function far in the tail', rtol=1e-6, atol=1e-7)
    need_close(g.ppf(c['q'], a, b, s, scale=sc), x, 'quantiles far in the tail', rtol=1e-9, atol=1e-7 * sc)
    dens = np.exp(special.xlogy(s - 1, y) - y - special.gammaln(s) - np.log(Qa - Qb)) / sc
    need_close(g.pdf(x, a, b, s, scale=sc), dens, 'density far in the tail', rtol=1e-6, atol=1e-12)
    np.random.seed(c['n'])
    n = 400
    r = np.sort(g.rvs(a, b, s, size=n, scale=sc)) / sc
    need(np.all(r >= a * (1 - 1e-12)) and np.all(r <= b * (1 + 1e-12)), 'members {}..{} outside {}..{}', r[0], r[-1], a, b)
    u = (Qa - special.gammaincc(s, r)) / (Qa - Qb)
    k = np.arange(n)
    D = max(np.max(u - k / n), np.max((k + 1) / n - u))
    need(np.sqrt(n) * D < 3.6, 'members far in the tail do not follow the distribution: D = {} with {} members', D, n)


def gen_tails(d):
    c = gen_many(d)
    c['b'] = d.pick([1e4, np.inf, 1e4, c['b']])
    return c


def check_tails(c, ctx):
    """Many members reach as far into both tails as they should."""
    a, b, s, sc, n = c['a'], c['b'], c['s'], c['scale'], 300000
    Pa, Qa = special.gammainc(s, a), special.gammaincc(s, a)
    z = Qa - special.gammaincc(s, b)
    if z < 1e-2 or b <= a or (s < 0.3 and a == 0):
        ctx.trivial = True
        return
    np.random.seed(c['seed'])
    x = np.ravel(truncgamma_gen().rvs(a, b, s, size=n, scale=sc)) / sc
    lo, hi = (special.gammainc(s, x.min()) - Pa) / z, (special.gammaincc(s, x.max()) - special.gammaincc(s, b)) / z
    need(-1e-9 <= lo < 30. / n, 'the smallest of {} members is at probability {}', n, lo)
    need(-1e-9 <= hi < 30. / n, 'the largest of {} members is at probability 1 - {}', n, hi)
    u = (special.gammainc(s, x) - Pa) / z
    for p in (1e-3, 0.01, 0.1, 0.5, 0.9, 0.99, 0.999):
        k = int(np.sum(u < p))
        need(abs(k - n * p) < 6.5 * np.sqrt(n * p * (1 - p)) + 3, '{} of {} members below the quantile {}', k, n, p)


SUBS = [Sub('tails', gen_tails, check_tails, 16, '300000 members each; non-trivial: enough probability between the bounds', thorough=300),
        Sub('functions', gen, check, 2000, 'against regularized gamma functions; non-trivial: enough probability between the bounds'),
        Sub('members', gen_many, check_many, 300, 'samples; the bound on the distance has a chance of 1e-9; non-trivial: as above'),
        Sub('deep', gen_deep, check_deep, 600, 'as little as 1e-150 of the gamma distribution above the lower bound; non-trivial: the bound is positive'),
        Sub('many', gen_vec, check_vec, 1000, 'arrays of parameters; non-trivial: as above')]
