"""C21: the Diebold-Mariano test."""
import math

import numpy as np
from scipy import special

from PyAnEn.utils_significance import diebold_mariano_test as dm

from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['statistic with the Harvey correction and a t distribution with n - 1 degrees of freedom, as the documentation says',
               'cases whose long-run variance is close to zero or negative are not compared: the statistic is not defined there']


def gen(d):
    n = d.pick([d.int(2, 40), d.int(4, 40), d.int(41, 400)])
    shape = (n,) if d.bool() else d.pick([(2, (n + 1) // 2), ((n + 1) // 2, 2)])
    k = d.often('cont', 'grid', 'int')
    c = {'a': d.arr(shape, 1., 20., k), 'p': d.arr(shape, -5., 25., k), 'q': d.arr(shape, -5., 25., d.often('cont', 'grid'))}
    c['near'] = d.int(0, 3) == 0
    m = int(np.prod(shape))
    c['h'] = d.often(d.pick([1, 1, 2]) if m > 2 else 1, *range(1, min(9, m - 1) + 1), d.int(1, m - 1))
    c['crit'] = d.pick(['MSE', 'MAD', 'MAPE', 'poly'])
    c['power'] = d.pick([1, 2, 3, 4])
    c['ints'] = d.int(0, 4) == 0
    c['up'] = d.int(0, 1)
    c['int dtype'] = d.pick(['int64', 'int8', 'uint8', 'int16', 'uint16', 'int32'])
    c['sign'] = d.pick([1., 1., -1.])
    c['scale'] = d.pick([0.01, 3., 1000., -2.])
    c['off'] = d.pick([0., 5., -100.])
    c['default'] = d.int(0, 4) == 0
    return c


def losses(a, p, crit, power):
    e = (np.ravel(a) - np.ravel(p)).tolist()
    if crit == 'MSE':
        return [x * x for x in e]
    if crit == 'MAD':
        return [abs(x) for x in e]
    if crit == 'MAPE':
        return [abs(x / y) for x, y in zip(e, np.ravel(a).tolist())]
    return [x ** power for x in e]


def ref(a, p, q, h, crit, power):
    d = [x - y for x, y in zip(losses(a, p, crit, power), losses(a, q, crit, power))]
    n = len(d)
    m = math.fsum(d) / n
    g = [math.fsum((d[i] - m) * (d[i - k] - m) for i in range(k, n)) / n for k in range(h)]
    v = (g[0] + 2 * math.fsum(g[1:])) / n
    scale = (g[0] + 2 * math.fsum(abs(x) for x in g[1:])) / n
    if not g[0] > 1e-12 * (1 + m * m) or v < 1e-6 * scale:
        return None
    s = m / math.sqrt(v) * math.sqrt((n + 1 - 2 * h + h * (h - 1) / n) / n)
    return s, float(special.betainc((n - 1) / 2., 0.5, (n - 1) / (n - 1 + s * s)))


def check(c, ctx):
    a, p, q, h = c['a'], c['p'], c['q'], c['h']
    if c['near']:
        p = a + 0.01 * (p - 10)
    a, p, q = a * c['sign'], p * c['sign'], q * c['sign']
    if c['ints']:
        a, p, q = [np.round(np.abs(x) if c['up'] else x).astype(int) for x in (a, p, q)]
        a[a == 0] = 1
        ctx.label('integers')
    kw = {} if c['default'] else {'h': h, 'crit': c['crit'], 'power': c['power']}
    crit, power = ('MSE', 2) if c['default'] else (c['crit'], c['power'])
    h = 1 if c['default'] else h
    want = ref(a, p, q, h, crit, power)
    if c['ints'] and (c['int dtype'][0] == 'i' or min(x.min() for x in (a, p, q)) >= 0):
        w = [x.astype(c['int dtype']) for x in (a, p, q)]
        got = dm(*w, **kw)
        if want is not None:
            need_close(got[0], want[0], 'statistic of series stored as {}'.format(c['int dtype']), rtol=1e-7, atol=1e-9)
            need_close(got[1], want[1], 'p-value of series stored as {}'.format(c['int dtype']), rtol=1e-6, atol=1e-9)
    keep = [x.copy() for x in (a, p, q)]
    got = dm(a, p, q, **kw)
    need(all(np.array_equal(x, y) for x, y in zip(keep, (a, p, q))), 'the series changed')
    if want is None:
        ctx.trivial = True
        return
    ctx.label(crit)
    ctx.label('h=1' if h == 1 else 'h>1')
    need_close(got[0], want[0], 'statistic ({}, h={})'.format(crit, h), rtol=1e-7, atol=1e-9)
    need_close(got[1], want[1], 'p-value ({}, h={})'.format(crit, h), rtol=1e-6, atol=1e-9)
    need(0 <= got[1] <= 1, 'p-value {}', got[1])
    r = dm(a, q, p, **kw)
    need_close(r[0], -got[0], 'exchanged forecasts: statistic', rtol=1e-7, atol=1e-9)
    need_close(r[1], got[1], 'exchanged forecasts: p-value', rtol=1e-6, atol=1e-9)
    sign = 1. if crit != 'poly' or power % 2 == 0 or c['scale'] > 0 else -1.
    r = dm(a * c['scale'], p * c['scale'], q * c['scale'], **kw)
    need_close(r[0], sign * got[0], 'other units: statistic', rtol=1e-5, atol=1e-7)
    need_close(r[1], got[1], 'other units: p-value', rtol=1e-4, atol=1e-7)
    if crit != 'MAPE':
        r = dm(a + c['off'], p + c['off'], q + c['off'], **kw)
        need_close(r[0], got[0], 'other origin: statistic', rtol=1e-4, atol=1e-6)
    r = dm(a.ravel(), p.ravel(), q.ravel(), **kw)
    need_close(r[0], got[0], 'flat series', rtol=1e-12)
    if h == 1:
        o = np.argsort(np.ravel(q), kind='stable')
        r = dm(a.ravel()[o], p.ravel()[o], q.ravel()[o], **kw)
        need_close(r[0], got[0], 'another order of the samples with h=1', rtol=1e-7, atol=1e-9)
    # the better forecast has the smaller loss
    if crit in ('MSE', 'MAD'):
        la, lb = np.mean(losses(a, p, crit, power)), np.mean(losses(a, q, crit, power))
        need((got[0] > 0) == (la > lb) or abs(la - lb) < 1e-9 * (1 + la), 'sign of the statistic {} with losses {} and {}', got[0], la, lb)


def gen_bad(d):
    n = d.int(3, 12)
    return {'n': n, 'a': d.arr((n,), 1., 9.), 'p': d.arr((n,), 1., 9.), 'q': d.arr((n,), 1., 9.),
            'what': d.pick(['short p', 'short q', 'short a', 'h=0', 'h<0', 'h=n', 'h>n', 'h float', 'crit', 'list']), 'x': d.int(1, 3),
            'crit': d.pick(['', 'mse', 'RMSE', 'MAE', 'Poly'])}


def check_bad(c, ctx):
    a, p, q = c['a'], c['p'], c['q']
    kw, w, x = {}, c['what'], c['x']
    ctx.label(w)
    m = max(1, c['n'] - x)
    if w == 'short p':
        p = p[:m]
    elif w == 'short q':
        q = q[:m]
    elif w == 'short a':
        a = a[:m]
    elif w == 'h=0':
        kw['h'] = 0
    elif w == 'h<0':
        kw['h'] = -x
    elif w == 'h=n':
        kw['h'] = c['n']
    elif w == 'h>n':
        kw['h'] = c['n'] + x
    elif w == 'h float':
        kw['h'] = 1.5
    elif w == 'crit':
        kw['crit'] = c['crit']
    elif w == 'list':
        a = a.tolist()
    try:
        r = dm(a, p, q, **kw)
    except Exception:
        return
    need(False, '{} was accepted: {}', w, r)


SUBS = [Sub('statistic', gen, check, 5000, 'against the definition, and relations between calls; non-trivial: the statistic is defined'),
        Sub('rejected', gen_bad, check_bad, 600, 'invalid arguments; every case is non-trivial')]
