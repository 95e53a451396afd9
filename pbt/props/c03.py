"""C03: the probability of an ensemble is the fraction of its members."""
import numpy as np

import PyAnEn
from PyAnEn.utils_verify import ens_to_prob

from .. import ref, ver
from ..engine import Sub, Violation
from ..gen import need, need_close

ASSUMPTIONS = ['kernel densities are compared only where the grid resolves the kernel and the ensemble has a spread',
               'NaN-free data']


def gen(d, big=False):
    shape = d.big_shape() if big else d.shape(1, 4, 5, max_size=80)
    c = ver.gen(d, 'ens', shape, members=d.pick([1, 2, 21, 51, 100, 130, 260]) if big else None)
    c['dtype'] = d.often('float64', 'float32', 'int64')
    if c['dtype'] == 'float64':
        c = ver.units(d, c)
    c['ob'] = ver.over_below(d, c)
    c['arr'] = d.bool()
    if c['arr']:
        t = d.arr(shape, float(c['o'].min()), float(c['o'].max()) + 0.1 * float(np.ptp(c['f'])), d.kind())
        if d.bool():
            t = np.where(d.arr(shape, 0, 1, 'cont') < 0.5, c['f'][..., 0], t)
        c['t'] = t
    c['perm'] = d.perm(c['f'].shape[-1])
    return c


def check(c, ctx):
    f, o = c['f'], c['o']
    if c['dtype'] != 'float64':
        f = c['f'] = np.round(f).astype(c['dtype'])
    side, t = list(c['ob'].items())[0]
    if c['arr']:
        t = c['t'].astype(f.dtype) if c['dtype'] == 'float32' else c['t']
    elif c['dtype'] == 'float32':
        t = float(np.float32(t))
    m = f.shape[-1]
    cnt = np.sum(f <= np.asarray(t)[..., None] if c['arr'] else f <= t, axis=-1)
    p = cnt / m if side == 'below' else (m - cnt) / m
    ctx.trivial = bool(np.all((p == 0) | (p == 1)))
    ctx.label('ties' if np.any(f == (np.asarray(t)[..., None] if c['arr'] else t)) else 'no ties')
    ctx.label(side)
    v = ver.build(c)
    got = v.cdf(**{side: t})
    need_close(got, p, 'probability {} {}'.format(side, t), rtol=0, atol=1e-12)
    need_close(v.sharpness(**{side: t}), p, 'sharpness', rtol=0, atol=1e-12)
    # both sides add up to one
    other = 'over' if side == 'below' else 'below'
    need_close(v.cdf(**{other: t}) + got, np.ones(o.shape), 'over + below', rtol=0, atol=1e-12)
    # the order of the members does not matter
    c2 = dict(c, f=np.ascontiguousarray(f[..., c['perm']]))
    need_close(ver.build(c2).cdf(**{side: t}), p, 'permuted members', rtol=0, atol=1e-12)
    # the function, with the member axis anywhere
    for ax in range(f.ndim):
        g = np.moveaxis(f, -1, ax)
        need_close(ens_to_prob(g, ax, **{side: t}), p, 'ens_to_prob, member axis {}'.format(ax), rtol=0, atol=1e-12)
        need_close(ens_to_prob(g, ax - f.ndim, **{side: t}), p, 'ens_to_prob, member axis {}'.format(ax - f.ndim), rtol=0, atol=1e-12)


def gen_mono(d):
    c = ver.units(d, ver.gen(d, 'ens', d.shape(1, 3, 4, max_size=30)))
    lo, hi = float(c['f'].min()), float(c['f'].max())
    ts = sorted(set([lo + (hi - lo) * d.int(-4, 24) / 20. for _ in range(d.int(2, 6))] + [float(c['f'].ravel()[0])]))
    c['ts'] = ts
    return c


def check_mono(c, ctx):
    v = ver.build(c)
    last = None
    ctx.trivial = len(c['ts']) < 2 or c['f'].shape[-1] < 2
    for t in c['ts']:
        p = v.cdf(below=t)
        q = v.cdf(over=t)
        need(np.all((p >= 0) & (p <= 1) & (q >= 0) & (q <= 1)), 'probability outside [0, 1] at {}', t)
        if last is not None:
            need(np.all(p >= last[0]), 'P(below) decreases at {}', t)
            need(np.all(q <= last[1]), 'P(over) increases at {}', t)
        last = (p, q)
    need(np.all(v.cdf(below=np.nextafter(float(c['f'].max()), np.inf)) == 1), 'not certain above all members')
    need(np.all(v.cdf(below=np.nextafter(float(c['f'].min()), -np.inf)) == 0), 'not impossible below all members')


KERNELS = {'gaussian': (ref.phi_cdf, 0.4),
           'tophat': (lambda u: np.clip((u + 1) / 2, 0, 1), 0.5),
           'epanechnikov': (lambda u: np.clip((2 + 3 * np.clip(u, -1, 1) - np.clip(u, -1, 1) ** 3) / 4, 0, 1), 0.75),
           'exponential': (lambda u: np.where(u < 0, 0.5 * np.exp(np.minimum(u, 0)), 1 - 0.5 * np.exp(-np.maximum(u, 0))), 0.5),
           'linear': (lambda u: np.where(u < 0, 0.5 * np.clip(1 + u, 0, 1) ** 2, 1 - 0.5 * np.clip(1 - u, 0, 1) ** 2), 1.),
           'cosine': (lambda u: 0.5 * (1 + np.sin(0.5 * np.pi * np.clip(u, -1, 1))), 0.8)}


def gen_kde(d):
    shape = d.shape(1, 3, 3, max_size=8)
    m = d.int(2, 7)
    f = d.arr(shape + (m,), 0., 10., 'cont')
    f[..., 0], f[..., 1] = 0.5, 9.                     # a spread of at least 8.5
    c = {'cls': 'ens', 'f': f, 'o': d.arr(shape, 0., 10., 'cont'), 'ens_pos': d.pick(['last', 'first']), 'ens_spell': d.pick(['neg', 'pos'])}
    k, b = d.pick([1., 1., 0.01, 25.]), d.pick([0., 0., -50., 280.])
    t = d.arr(shape, -1., 12., 'cont')
    c['f'], c['o'] = (c['f'] + b) * k, (c['o'] + b) * k
    c['bw'] = d.pick([0.3, 0.5, 1., 2.]) * k
    c['t'] = (d.f(-1., 12.) + b) * k
    if d.bool():
        c['t'] = (t + b) * k
    c['side'] = d.pick(['over', 'below'])
    c['kernel'] = d.pick(['gaussian'] + sorted(KERNELS))
    c['samples'] = d.pick([1000, 2000, 5000])
    c['mult'] = d.int(1, 6)
    return c


def check_kde(c, ctx):
    ctx.env(ens_to_prob_method='kde', kde_bandwidth=c['bw'], kde_samples=c['samples'], kde_kernel=c['kernel'], kde_multiply_spread=c['mult'])
    f, t, h = c['f'], c['t'], c['bw']
    cdf, k0 = KERNELS[c['kernel']]
    tt = np.broadcast_to(np.asarray(t, float), c['o'].shape)[..., None]
    p = np.mean(cdf((tt - f) / h), axis=-1)
    start = f.min(-1) - np.ptp(f, axis=-1) * c['mult']
    # rectangle rule on a grid from the start: the variation of the density, and the tail below the start
    dx = np.abs(tt[..., 0] - start) / (c['samples'] - 1)
    tol = 3.1 * k0 / h * dx + np.mean(cdf((start[..., None] - f) / h), axis=-1) + 1e-9
    ctx.label(c['kernel'])
    got = ver.build(c).cdf(**{c['side']: t})
    need(np.shape(got) == c['o'].shape, 'kernel density probability of shape {}', np.shape(got))
    want = p if c['side'] == 'below' else 1 - p
    need(np.all(np.abs(got - want) <= tol), 'kernel density ({}, bandwidth {}) probability {} {}: {} instead of {}',
         c['kernel'], h, c['side'], t, got, want)
    direct = ens_to_prob(f, -1, **{c['side']: t})
    need_close(direct, got, 'ens_to_prob and cdf', rtol=1e-9)


def known_kde(ctx):
    ctx.env(ens_to_prob_method='kde')
    f, o = np.full((2, 5), 5.), np.array([5., 5.])
    p = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1).cdf(below=4.99)
    q = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=-1).cdf(below=100.)
    need(np.all((p >= 0) & (p <= 1) & (q >= 0) & (q <= 1)), 'kernel density probability {} {}', p, q)


KNOWN = {'kde-degenerate': known_kde}

SUBS = [
    Sub('large', lambda d: gen(d, True), check, 40, 'the same with 150 to 3000 cells and up to 100 members; non-trivial as above'),
    Sub('fraction', gen, check, 1500, 'members and thresholds with ties, scalar or array threshold, member axis anywhere; non-trivial: some probability strictly between 0 and 1'),
    Sub('monotone', gen_mono, check_mono, 500, 'increasing thresholds; non-trivial: at least two members and two thresholds'),
    Sub('kde', gen_kde, check_kde, 400, 'resolved kernel densities; every case is non-trivial'),
]
