"""C16: bootstrap intervals."""
import numpy as np

from PyAnEn.utils_special_boot import brier_decomp, corr
from PyAnEn.utils_verify import boot_arr

from .. import ver
from ..engine import Sub
from ..gen import need, need_close, norm_axis, out_shape, slices

ASSUMPTIONS = ['interval ends are compared with a reference bootstrap at 6.5 standard deviations of the order statistics',
               'the mean lies in the interval only for statistics that are not too skewed: its place follows from the comparison with the reference']

REF = 30000


def brackets(got, reps, conf, repeats, what):
    """got: (low, mean, high); reps: replicates of a reference bootstrap."""
    got = np.asarray(got, float)
    need(got.shape == (3,), '{}: shape {}', what, got.shape)
    s = np.sort(reps)
    lo, me, hi = got
    eps = 1e-9 * (np.abs(s[-1]) + np.abs(s[0])) + 1e-15
    need(np.all(np.isfinite(got)), '{}: {}', what, got)
    need(lo <= hi + eps, '{}: {} is not ordered', what, got)
    need(lo >= s[0] - eps - (s[-1] - s[0]) and hi <= s[-1] + eps + (s[-1] - s[0]), '{}: {} out of range', what, got)
    k = 6.5 * np.sqrt(1. / repeats + 1. / len(s))
    need(abs(me - s.mean()) <= k * s.std() + eps, '{}: mean {} instead of {}', what, me, s.mean())
    for q, x in (((1 - conf) / 2, lo), ((1 + conf) / 2, hi)):
        d = k * np.sqrt(q * (1 - q)) + 2. / repeats
        a = s[0] if q - d <= 0 else np.quantile(s, q - d)
        b = s[-1] if q + d >= 1 else np.quantile(s, q + d)
        if q - d <= 0:
            a = a - (s[-1] - s[0])
        if q + d >= 1:
            b = b + (s[-1] - s[0])
        need(a - eps <= x <= b + eps, '{}: end {} at {} outside {}..{} (confidence {})', what, x, q, a, b, conf)


def rng_of(c):
    return np.random.RandomState(c['salt'])


def gen_mean(d):
    nd = d.int(1, 3)
    keep = d.int(0, min(2, nd - 1))
    cls = d.pick(['determ', 'ens', 'gauss', 'gamma'])
    axes = d.perm(nd)[:nd - keep]
    shape = tuple(d.int(1, 2) if i not in axes else d.int(3, 6) for i in range(nd))
    c = ver.gen(d, cls, shape, kind='cont')
    if cls == 'ens':
        c['ens_pos'] = 'last'
    # slices at different places
    off = np.zeros(shape)
    for k, (idx, full) in enumerate(slices(shape, tuple(axes))):
        off[full] = 50. * k
    if cls in ('determ', 'ens'):
        c['o'] = c['o'] - off
    c['axis'] = tuple(a - nd if d.bool() else a for a in axes) if keep or d.bool() else None
    if c['axis'] is not None and len(c['axis']) == 1 and d.bool():
        c['axis'] = c['axis'][0]
    c['metric'] = d.pick({'determ': ['error', 'ab_error', 'sq_error', 'rmse'], 'ens': ['error', 'ab_error', 'spread', 'crps', 'brier', 'sq_error', 'rmse']}.get(cls, ['error', 'ab_error', 'sq_error', 'rmse', 'brier', 'crps']))
    c['ob'] = ver.over_below(d, c)
    c['n'] = d.pick([1, 2, 7, 20, 50, 120, 300])
    c['repeats'] = d.pick([1000, 3000, 5000])
    c['conf'] = d.pick([0.2, 0.5, 0.8, 0.9, 0.95, 0.99])
    c['nan'] = d.int(0, 3) == 0
    c['salt'] = d.int(0, 10 ** 6)
    return c


def raw(c):
    """The metric of every sample, from verifiers of single samples."""
    out = np.zeros(c['o'].shape)
    for i in np.ndindex(*out.shape):
        v = ver.build(ver.take(c, i))
        m = getattr(v, c['metric'])
        out[i] = float(np.ravel(m(**c['ob']) if c['metric'] == 'brier' else m())[0])
    return out


def check_mean(c, ctx):
    m = raw(c)
    ctx.label(c['metric'])
    ctx.env(boot_repeats=c['repeats'], boot_confidence=c['conf'])
    nan = c['nan'] and c['metric'] in ('error', 'ab_error', 'sq_error', 'rmse') and c['n'] >= 20 and c['cls'] in ('determ', 'gauss')
    if nan:
        ctx.env(skip_nan='True')
        k = rng_of(c).uniform(size=m.shape) < 0.2
        for idx, full in slices(m.shape, c['axis']):
            if np.all(k[full]):
                k[full] = False
        c = dict(c, o=np.where(k, np.nan, c['o']))
        m = np.where(k, np.nan, m)
        ctx.label('missing')
    v = ver.build(c, avg_axis=c['axis'], boot_samples=c['n'])
    f = getattr(v, c['metric'])
    r = np.asarray(f(**c['ob']) if c['metric'] == 'brier' else f())
    root = c['metric'] == 'rmse'
    if root:
        r, m = r ** 2, m ** 2
    want = (3,) + out_shape(m.shape, c['axis'])
    need(r.shape == want, 'shape {} instead of {}', r.shape, want)
    rng = rng_of(c)
    for idx, full in slices(m.shape, c['axis']):
        x = np.ravel(m[full])
        ctx.trivial = ctx.trivial or np.nanmax(x) == np.nanmin(x)
        s = x[rng.randint(len(x), size=(REF, c['n']))]
        s = np.nanmean(s, axis=1) if nan else s.mean(axis=1)
        s = s[~np.isnan(s)]
        brackets(r[(slice(None),) + idx], s, c['conf'], c['repeats'], '{} of slice {}'.format(c['metric'], idx))
    # and back
    v.disable_boot()
    r = f(**c['ob']) if c['metric'] == 'brier' else f()
    for idx, full in slices(m.shape, c['axis']):
        need_close(np.asarray(r)[idx] ** 2 if root else np.asarray(r)[idx], np.nanmean(m[full]) if nan else np.mean(m[full]), 'without bootstrapping', rtol=1e-7, atol=1e-8)


def gen_arr(d):
    nd = d.int(1, 3)
    shape = tuple(d.int(1, 5) for _ in range(nd))
    ax = d.axis(nd)
    ax = (ax,) if isinstance(ax, int) else ax
    m = d.arr(shape, -3., 9., 'cont') * d.pick([1., 1e-6, 1e6])
    return {'m': m, 'axis': ax, 'n': d.pick([None, 1, 3, 25, 60]), 'repeats': d.pick([None, 3000]), 'conf': d.pick([None, 0.6, 0.9]),
            'env': [d.pick([30, 70]), d.pick([2500, 3500]), d.pick([0.7, 0.95])], 'salt': d.int(0, 10 ** 6), 'const': d.int(0, 4) == 0}


def check_arr(c, ctx):
    m = np.full(c['m'].shape, 2.5) if c['const'] else c['m']
    ctx.env(boot_samples=c['env'][0], boot_repeats=c['env'][1], boot_confidence=c['env'][2])
    n, rep, conf = c['n'] or c['env'][0], c['repeats'] or c['env'][1], c['conf'] or c['env'][2]
    r = boot_arr(m, c['axis'], n_samples=c['n'], repeats=c['repeats'], confidence=c['conf'])
    want = (3,) + out_shape(m.shape, c['axis'])
    need(r.shape == want, 'shape {} instead of {}', r.shape, want)
    rng = rng_of(c)
    ctx.trivial = c['const']
    for idx, full in slices(m.shape, c['axis']):
        x = np.ravel(m[full])
        brackets(r[(slice(None),) + idx], x[rng.randint(len(x), size=(REF, n))].mean(axis=1), conf, rep, 'slice {}'.format(idx))


def gen_corr(d):
    nd = d.int(1, 3)
    axes = d.perm(nd)[:d.int(1, nd)]
    shape = tuple(d.int(1, 2) if i not in axes else d.int(4, 6) for i in range(nd))
    x = d.arr(shape, 0., 10., 'cont')
    e = d.arr(shape, -4., 4., 'cont')
    return {'f': x, 'o': x * d.pick([1., -2.]) + e * d.pick([0., 1.]), 'axis': tuple(a - nd if d.bool() else a for a in axes),
            'n': d.pick([20, 40]), 'repeats': 1500, 'conf': d.pick([0.5, 0.8, 0.9]), 'salt': d.int(0, 10 ** 6), 'via': d.bool(), 'nan': d.int(0, 3) == 0}


def check_corr(c, ctx):
    import PyAnEn
    f, o = c['f'], c['o']
    ctx.env(boot_repeats=c['repeats'], boot_confidence=c['conf'])
    if c['nan']:
        ctx.env(skip_nan='True')
        k = rng_of(c).uniform(size=f.shape) < 0.15
        f, o = f.copy(), np.where(k, np.nan, o)
        ctx.label('missing')
    for _, full in slices(f.shape, c['axis']):
        ok = ~np.isnan(np.ravel(o[full]))
        if ok.sum() < 3 or min(np.ptp(np.ravel(f[full])[ok]), np.ptp(np.ravel(o[full])[ok])) < 0.5:
            ctx.trivial = True
            return
    if c['via']:
        r = PyAnEn.VerifyDeterm(f, o, avg_axis=c['axis'], boot_samples=c['n']).corr()
    else:
        r = corr(f, o, c['axis'], c['n'])
    want = (3,) + out_shape(f.shape, c['axis'])
    need(np.shape(r) == want, 'shape {} instead of {}', np.shape(r), want)
    rng = rng_of(c)
    for idx, full in slices(f.shape, c['axis']):
        a, b = np.ravel(f[full]), np.ravel(o[full])
        ok = ~np.isnan(b)
        a, b = a[ok], b[ok]
        i = rng.randint(len(a), size=(REF, c['n']))
        x, y = a[i], b[i]
        x, y = x - x.mean(1, keepdims=True), y - y.mean(1, keepdims=True)
        den = np.sqrt((x ** 2).sum(1) * (y ** 2).sum(1))
        s = ((x * y).sum(1)[den > 1e-9] / den[den > 1e-9])
        if len(s) < REF:
            ctx.trivial = True        # a sample of equal values has no correlation
            return
        brackets(np.asarray(r)[(slice(None),) + idx], s, c['conf'], c['repeats'], 'correlation of slice {}'.format(idx))


def decomp_many(p, y, i):
    """Components of many resamples; p has few distinct values, each in its own bin."""
    n = i.shape[1]
    P, Y = p[i], y[i].astype(float)
    ob = Y.mean(1)
    rel, res = np.zeros(len(i)), np.zeros(len(i))
    for v in np.unique(p):
        m = P == v
        k = m.sum(1)
        with np.errstate(all='ignore'):
            oy = np.where(k > 0, (Y * m).sum(1) / np.maximum(k, 1), 0.)
        rel += np.where(k > 0, k * (v - oy) ** 2, 0.)
        res += np.where(k > 0, k * (oy - ob) ** 2, 0.)
    return rel / n, res / n, ob * (1 - ob)


def gen_dec(d):
    n, k = d.int(8, 30), d.int(1, 3)
    return {'p': np.array([d.pick([0., 0.12, 0.33, 0.57, 0.81, 1.]) for _ in range(k * n)]).reshape(k, n),
            'y': d.arr((k, n), 0, 1, 'cont') < d.pick([0.3, 0.5, 0.7]), 'n': d.pick([20, 40]), 'repeats': 600,
            'conf': d.pick([0.5, 0.7, 0.8]), 'salt': d.int(0, 10 ** 6), 'axis': d.pick([(1,), (-1,), None]), 'perfect': d.int(0, 4) == 0,
            'skip': d.pick([None, 'all', 'p', 'y', 'both'])}


def check_dec(c, ctx):
    p, y = c['p'], c['y']
    if c['perfect']:
        p = y.astype(float)
    ctx.env(boot_repeats=c['repeats'], boot_confidence=c['conf'])
    if c['skip']:
        ctx.env(skip_nan='True')
        ctx.label('skipping: ' + c['skip'])
        p, y = p.copy(), y.astype(float)
        g = np.random.RandomState(c['salt'] + 1)
        for x in {'p': [p], 'y': [y], 'both': [p, y]}.get(c['skip'], []):
            x[g.uniform(size=x.shape) < 0.15] = np.nan
        for _, full in slices(p.shape, c['axis']):
            if np.sum(~np.isnan(np.ravel(p[full]) + np.ravel(y[full]))) < 3:
                ctx.trivial = True
                return
    r = brier_decomp(p, y, c['axis'], c['n'])
    rng = rng_of(c)
    for idx, full in slices(p.shape, c['axis']):
        a, b = np.ravel(p[full]), np.ravel(y[full])
        ok = ~np.isnan(a + b)
        a, b = a[ok], b[ok]
        i = rng.randint(len(a), size=(REF // 3, c['n']))
        for name, x, s in zip(('reliability', 'resolution', 'uncertainty'), r, decomp_many(a, b, i)):
            need(np.shape(x) == (3,) + out_shape(p.shape, c['axis']), '{}: shape {}', name, np.shape(x))
            brackets(np.asarray(x)[(slice(None),) + idx], s, c['conf'], c['repeats'], '{} of slice {}'.format(name, idx))


def gen_ss(d):
    cls = d.pick(['gauss', 'ens'])
    shape, ax = d.pick([((d.int(1, 2), d.int(12, 24)), [(1,), -1, None]), ((d.int(12, 16), d.int(1, 4)), [0, (-2,), [0]]), ((d.int(1, 3), d.int(6, 9), d.int(1, 3)), [(1, 2), (1,), (-1, 1), [0, 1]])])
    c = ver.gen(d, cls, shape, kind='cont')
    c['ens_pos'] = 'last'
    c['bins'] = d.int(1, 3)
    c['axis'] = d.pick(ax)
    c['skip'] = d.bool()
    c.update(n=d.pick([20, 50]), repeats=d.pick([1500, 3000]), conf=d.pick([0.5, 0.8, 0.9]), salt=d.int(0, 10 ** 6))
    return c


def check_ss(c, ctx):
    ctx.env(boot_repeats=c['repeats'], boot_confidence=c['conf'])
    if c['skip']:
        ctx.env(skip_nan='True')
    v = ver.build(c, avg_axis=c['axis'], boot_samples=c['n'])
    if c['cls'] == 'ens':
        m = c['f'].mean(-1)
        var, sq = ((c['f'] - m[..., None]) ** 2).mean(-1), (m - c['o']) ** 2
    else:
        var, sq = c['sigma'] ** 2, (c['mu'] - c['o']) ** 2
    for _, full in slices(var.shape, c['axis']):
        if np.min(np.diff(np.sort(np.ravel(var[full])))) < 1e-9:
            ctx.trivial = True
            return
    sp, rm = v.binned_spread_skill(nbins=c['bins'])
    want = out_shape(var.shape, c['axis']) + (c['bins'], 3)
    need(sp.shape == want and rm.shape == want, 'shapes {} {} instead of {}', sp.shape, rm.shape, want)
    rng = rng_of(c)
    for idx, full in slices(var.shape, c['axis']):
        a, b = np.ravel(var[full]), np.ravel(sq[full])
        o = np.argsort(a)
        for k, (x, y) in enumerate(zip(np.array_split(a[o], c['bins']), np.array_split(b[o], c['bins']))):
            i = rng.randint(len(x), size=(REF, c['n']))
            brackets(sp[idx][k] ** 2, x[i].mean(1), c['conf'], c['repeats'], 'squared spread of bin {}'.format(k))
            brackets(rm[idx][k] ** 2, y[i].mean(1), c['conf'], c['repeats'], 'squared error of bin {}'.format(k))


def gen_rel(d):
    cls = d.pick(['gauss', 'tgauss', 'gamma', 'hurdle'])
    c = ver.gen(d, cls, (d.int(15, 40),))
    c['ob'] = ver.over_below(d, c)
    c['bins'] = d.pick([1, 2, 3, 4, 8])
    c['holes'] = d.arr(c['o'].shape, 0., 16., 'cont') < d.pick([0, 0, 3])
    c.update(n=d.pick([20, 50]), repeats=d.pick([1500, 2500]), conf=d.pick([0.5, 0.8, 0.9]), salt=d.int(0, 10 ** 6))
    return c


def check_rel(c, ctx):
    ctx.env(boot_repeats=c['repeats'], boot_confidence=c['conf'])
    p, y = ver.prob(c, **c['ob']), ver.event(c, **c['ob']).astype(float)
    q = p * c['bins']
    if np.any((np.abs(q - np.round(q)) < 1e-5) & (np.round(q) > 0) & (np.round(q) < c['bins'])):
        ctx.trivial = True
        return
    b = np.clip(np.floor(q).astype(int), 0, c['bins'] - 1)
    if c['holes'].all():
        ctx.trivial = True
        return
    if c['holes'].any():
        ctx.label('missing')
        ctx.env(skip_nan='True')
        keep = ~c['holes']
        c = dict(c, o=np.where(keep, c['o'], np.nan))
        p, y, b = p[keep], y[keep], b[keep]
    pp, pt, pc, tc = ver.build(c, boot_samples=c['n']).reliability(nbins=c['bins'], **c['ob'])
    use = sorted(set(b.tolist()))
    need(np.shape(pp) == (len(use), 3) and np.shape(pt) == (len(use), 3), 'shapes {} {}', np.shape(pp), np.shape(pt))
    need(np.asarray(pc).tolist() == [int(np.sum(b == k)) for k in use], 'counts {}', np.asarray(pc))
    rng = rng_of(c)
    for j, k in enumerate(use):
        a, e = p[b == k], y[b == k]
        i = rng.randint(len(a), size=(REF, c['n']))
        brackets(pp[j], a[i].mean(1), c['conf'], c['repeats'], 'forecast probability of bin {}'.format(k))
        brackets(pt[j], e[i].mean(1), c['conf'], c['repeats'], 'event frequency of bin {}'.format(k))


def gen_relk(d):
    a, b, n = d.int(1, 2), d.int(1, 3), d.int(8, 20)
    shape, axis = d.pick([((a, n, b), (1,)), ((n, a, b), (0,)), ((a, b, n), (-1,)), ((a, n, 2), (1, 2)), ((a, n, 2), (-1, 1)), ((n, b), (-2,))])
    return {'p': d.arr(shape, 0.01, 0.99, 'cont'), 'y': d.arr(shape, 0, 1, 'cont') < d.pick([0.3, 0.5]), 'axis': axis, 'bins': d.int(1, 2),
            'n': d.pick([20, 50]), 'repeats': d.pick([1000, 2000]), 'conf': d.pick([0.5, 0.8, 0.9]), 'salt': d.int(0, 10 ** 6), 'env': d.bool(), 'skip': d.bool()}


def check_relk(c, ctx):
    """Reliability along axes: every slice has its own intervals."""
    p, y, nb = c['p'], c['y'], c['bins']
    b = np.minimum((p * nb).astype(int), nb - 1)
    parts = list(slices(p.shape, c['axis']))
    for _, full in parts:
        s = np.ravel(p[full]) * nb
        if len(set(np.ravel(b[full]).tolist())) < nb or np.any(np.abs(s - np.round(s)) < 1e-5) or len(np.unique(np.ravel(y[full]))) < 2:
            ctx.trivial = True
            return
    from PyAnEn.utils_verify import reliability_diagram
    if c['skip']:
        ctx.env(skip_nan='True')
    if c['env']:
        ctx.env(boot_repeats=c['repeats'], boot_confidence=c['conf'])
        r = reliability_diagram(p, y.astype(float), nb, c['axis'], boot_samples=c['n'])
    else:
        r = reliability_diagram(p, y.astype(float), nb, c['axis'], boot_samples=c['n'], repeats=c['repeats'], confidence=c['conf'])
    keep = out_shape(p.shape, c['axis'])
    need(np.shape(r[0]) == keep + (nb, 3) and np.shape(r[1]) == keep + (nb, 3), 'shapes {} {} instead of {}', np.shape(r[0]), np.shape(r[1]), keep + (nb, 3))
    rng = rng_of(c)
    for idx, full in parts:
        ps, ys, bs = np.ravel(p[full]), np.ravel(y[full]).astype(float), np.ravel(b[full])
        need(np.asarray(r[2])[idx].tolist() == [int(np.sum(bs == k)) for k in range(nb)], 'counts of slice {}', idx)
        need(np.asarray(r[3])[idx].tolist() == [int(np.sum(ys == k)) for k in range(2)], 'events of slice {}', idx)
        for k in range(nb):
            x, e = ps[bs == k], ys[bs == k]
            i = rng.randint(len(x), size=(REF, c['n']))
            brackets(r[0][idx][k], x[i].mean(1), c['conf'], c['repeats'], 'forecast probability of bin {} of slice {}'.format(k, idx))
            brackets(r[1][idx][k], e[i].mean(1), c['conf'], c['repeats'], 'event frequency of bin {} of slice {}'.format(k, idx))


def few(got, repeats, conf, lattice, what):
    """With one, two or three repetitions the interval tells what the repeated statistics were."""
    lo, me, hi = np.asarray(got, float)
    a = (1 - conf) / 2 * (repeats - 1)           # place of the lower end among the sorted statistics
    if repeats == 1:
        need_close(np.array([lo, hi]), np.array([me, me]), '{}: interval of one repetition'.format(what), rtol=1e-9, atol=1e-12)
        m = np.array([me])
    elif repeats == 2:
        need_close(lo + hi, 2 * me, '{}: ends and mean of two repetitions'.format(what), rtol=1e-9, atol=1e-12)
        w = (hi - lo) / conf
        m = np.array([me - w / 2, me + w / 2])
    else:
        A = np.array([[1 - a, a, 0.], [1 / 3., 1 / 3., 1 / 3.], [0., a, 1 - a]])
        m = np.linalg.solve(A, [lo, me, hi])
        need(m[0] <= m[1] + 1e-9 and m[1] <= m[2] + 1e-9, '{}: {} cannot be an interval of three repetitions, which would be {}', what, got, m)
    d = np.min(np.abs(m[:, None] - lattice), axis=1)
    need(np.all(d < 1e-8), '{}: {} comes from statistics {}, which samples of this size do not have', what, got, m)


def gen_few(d):
    nd = d.int(1, 3)
    axes = d.perm(nd)[:d.int(1, nd)]
    shape = tuple(d.int(1, 2) if i not in axes else d.int(2, 5) for i in range(nd))
    return {'b': d.arr(shape, 0., 2., 'cont') < d.pick([0.6, 1., 1.5]), 'axis': tuple(a - nd if d.bool() else a for a in axes), 'n': d.pick([1, 2, 3, 10, 17]),
            'repeats': d.pick([1, 2, 3]), 'conf': d.pick([0.2, 0.5, 0.8, 0.9, 0.95, 0.99]), 'how': d.pick(['error', 'ab_error', 'sq_error', 'rmse', 'brier', 'brier_decomp', 'corr', 'reliability', 'spread_skill', 'boot_arr', 'crps']),
            'salt': d.int(0, 10 ** 6), 'skip': d.bool()}


def check_few(c, ctx):
    import PyAnEn
    b, n, conf, rep, how = c['b'].astype(float), c['n'], c['conf'], c['repeats'], c['how']
    np.random.seed(c['salt'])
    ctx.env(boot_repeats=rep, boot_confidence=conf, skip_nan=str(c['skip']))
    ctx.label('{} repetitions'.format(rep))
    k = np.arange(n + 1) / n
    keep = out_shape(b.shape, c['axis'])
    kw = dict(avg_axis=c['axis'], boot_samples=n)
    z = np.zeros(b.shape)
    if how in ('error', 'ab_error', 'sq_error', 'rmse'):
        r = getattr(PyAnEn.VerifyDeterm(b, z, **kw), how)()
        parts = [(np.asarray(r) ** 2 if how == 'rmse' else np.asarray(r), k)]
    elif how == 'brier':
        r = PyAnEn.VerifyEnsemble(z[..., None] + [0., 0.], b, ensemble_axis=-1, **kw).brier(over=0.5)
        parts = [(np.asarray(r), k)]
    elif how == 'crps':
        r = PyAnEn.VerifyEnsemble(z[..., None] + [0., 0.], b, ensemble_axis=-1, **kw).crps()
        parts = [(np.asarray(r), k)]
    elif how == 'boot_arr':
        parts = [(boot_arr(b, c['axis'], n_samples=n), k)]
    elif how == 'corr':
        f = np.random.RandomState(c['salt']).normal(size=b.shape)
        if n < 10:
            ctx.trivial = True
            return
        r = np.asarray(corr(f, f + z + b * 1e-3, list(c['axis']), n))
        # a sample of one value again and again has no correlation
        if np.any(np.isnan(r)):
            ctx.trivial = True
            return
        need(np.all(np.abs(r) <= 1 + 1e-9), 'correlation {}', r)
        if rep == 1:
            need_close(r[0], r[2], 'interval of one repetition', rtol=1e-9, atol=1e-12)
        if rep < 3:
            need_close(r[0] + r[2], 2 * r[1], 'ends and mean of the repetitions', rtol=1e-9, atol=1e-12)
        return
    elif how == 'brier_decomp':
        # forecasts of one half: reliability (1/2 - o)^2, no resolution, uncertainty o (1 - o)
        r = brier_decomp(z + 0.5, b, list(c['axis']), n)
        parts = [(np.asarray(r[0]), (k - 0.5) ** 2), (np.asarray(r[1]), np.zeros(1)), (np.asarray(r[2]), k * (1 - k))]
    elif how == 'reliability':
        from PyAnEn.utils_verify import reliability_diagram
        r = reliability_diagram(z + 0.25, b, 1, None, boot_samples=n)
        parts, keep = [(np.moveaxis(np.asarray(r[1]), -1, 0), k), (np.moveaxis(np.asarray(r[0]), -1, 0), np.array([0.25]))], (1,)
    else:
        from PyAnEn.utils_ss import binned_spread_skill
        r = binned_spread_skill(z + 4., b, 1, None, n)
        parts, keep = [(np.moveaxis(np.asarray(r[1]), -1, 0) ** 2, k), (np.moveaxis(np.asarray(r[0]), -1, 0) ** 2, np.array([4.]))], (1,)
    ctx.trivial = b.min() == b.max()
    for r, lattice in parts:
        need(r.shape == (3,) + keep, '{}: shape {} instead of {}', how, r.shape, (3,) + keep)
        for i in np.ndindex(*keep):
            few(r[(slice(None),) + i], rep, conf, lattice, how)


SUBS = [
    Sub('means', gen_mean, check_mean, 150, 'averaged metrics of verifiers; non-trivial: no slice is constant', thorough=1500),
    Sub('array', gen_arr, check_arr, 120, 'arguments and settings; non-trivial: the data vary', thorough=1500),
    Sub('few', gen_few, check_few, 1500, 'one to three repetitions: the repeated statistics can be told from the interval and have to be those of samples of the size asked for; non-trivial: the data vary'),
    Sub('corr', gen_corr, check_corr, 60, 'pairs are resampled together; non-trivial: defined in every resample', thorough=1000),
    Sub('decomp', gen_dec, check_dec, 40, 'pairs are resampled together; every case is non-trivial', thorough=600),
    Sub('spread_skill', gen_ss, check_ss, 60, 'per bin; non-trivial: no ties', thorough=1000),
    Sub('reliability', gen_rel, check_rel, 60, 'per bin; non-trivial: no probability at an edge', thorough=1000),
    Sub('reliability_axes', gen_relk, check_relk, 60, 'per bin and slice; non-trivial: every slice fills every bin', thorough=1000),
]
