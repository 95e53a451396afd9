"""C01: error metrics, spread and variance equal their definitions."""
import numpy as np

from .. import ref, ver
from ..engine import Sub
from ..gen import need, need_close, norm_axis, out_shape

ASSUMPTIONS = ['averages are compared with an exact sum (fsum) to a relative 1e-9']


def gen(cls, big=False):
    def g(d):
        shape = d.big_shape() if big else d.shape(1, 5, 5, max_size=100)
        c = ver.gen(d, cls, shape, members=d.pick([1, 2, 21, 51, 100, 130, 260]) if big and cls == 'ens' else None)
        c['units'] = d.bool()
        if c['units']:
            c = ver.units(d, c, 0)
        if cls == 'ens':
            c['collapse'] = d.pick(['mean', 'mean', 'median', 'max', 'min'])
        c['axis'] = d.axis(len(shape))
        c['dtype'] = d.often('float64', 'float32', 'int64', 'int16', 'uint8', 'uint16', 'int8') if cls in ('determ', 'ens') and not c['units'] else 'float64'
        if c['dtype'] in ('int8', 'int16', 'uint8', 'uint16'):     # values over the whole range of the type
            lo, hi = (-100, 127) if c['dtype'] == 'int8' else (0, 255) if c['dtype'] == 'uint8' else (-9000, 32000) if c['dtype'] == 'int16' else (0, 60000)
            for k in 'fo':
                c[k] = lo + (c[k] + 10.) / 40. * (hi - lo)
        if c['dtype'] != 'float64':
            c['f'], c['o'] = np.round(c['f']).astype(c['dtype']), np.round(c['o']).astype(c['dtype'])
        return c
    return g


def check(c, ctx):
    v = ver.build(c, avg_axis=c['axis'])
    o = c['o'].astype(float)
    ctx.label('axis ' + type(c['axis']).__name__)
    ctx.trivial = o.size < 2
    # rounding errors: of the data, and of the differences
    e0 = {'float32': 1e-5}.get(c['dtype'], 1e-13) * ver.mag(c)
    rtol = 1e-5 if c['dtype'] == 'float32' else 1e-9
    if c['cls'] == 'determ':
        f = c['f'].astype(float)
    elif c['cls'] == 'ens':
        fn = {'mean': np.mean, 'median': np.median, 'max': np.max, 'min': np.min}[c['collapse']]
        f = fn(c['f'].astype(float), axis=-1)
    elif c['cls'] == 'hurdle':
        f = np.array(v.f_determ())
        need(f.shape == o.shape, 'f_determ has shape {}', f.shape)
    else:
        f = c['mu']
    lin = dict(rtol=rtol, atol=e0)
    worst = float(np.max(np.abs(f - o))) + e0
    sq = dict(rtol=rtol, atol=e0 * worst)
    need_close(v.f_determ(), f, 'f_determ', **lin)
    need_close(v.error(), ref.mean_over(f - o, c['axis']), 'error', **lin)
    need_close(v.ab_error(), ref.mean_over(np.abs(f - o), c['axis']), 'ab_error', **lin)
    need_close(v.sq_error(), ref.mean_over((f - o) ** 2, c['axis']), 'sq_error', **sq)
    need_close(np.asarray(v.rmse()) ** 2, ref.mean_over((f - o) ** 2, c['axis']), 'rmse, squared', **sq)
    # again, in another order: no call may influence another
    need_close(v.error(), ref.mean_over(f - o, c['axis']), 'error, second call', **lin)
    if c['cls'] == 'ens':
        m = c['f'].astype(float)
        need_close(v.spread(), ref.mean_over(m.max(-1) - m.min(-1), c['axis']), 'spread', **lin)
        mean = m.sum(-1) / m.shape[-1]
        dev = m - mean[..., None]
        need_close(v.variance(), (dev ** 2).sum(-1) / m.shape[-1], 'variance', rtol=rtol * 10, atol=e0 * (float(np.max(np.abs(dev))) + e0))
    elif c['cls'] not in ('determ', 'hurdle'):
        need_close(v.variance(), c['sigma'] ** 2, 'variance', atol=0.)
    # the negated data have the negated error
    if c['cls'] == 'determ':
        n = dict(c, f=-c['f'].astype(float), o=-c['o'].astype(float))
        need_close(ver.build(n, avg_axis=c['axis']).error(), -np.asarray(v.error(), float), 'error of the negated data', **lin)


RULE = 'random shape, data (ties, integers, float32, units from 1e-6 to 1e6, offsets), average axis in any spelling; non-trivial: at least two observations'
SUBS = [Sub(cls, gen(cls), check, 700 if cls != 'hurdle' else 150, RULE) for cls in ver.CLASSES if cls not in ('tgauss', 'tgamma')] + [
    Sub('large_' + cls, gen(cls, True), check, 40, 'the same with 150 to 3000 observations and up to 100 members; non-trivial as above') for cls in ('determ', 'ens', 'gauss')]
