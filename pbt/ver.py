"""Generated verifiers of every forecast type, and references for what they hold."""
import numpy as np

import PyAnEn
from . import ref
from .gen import need, norm_axis, slices

CLASSES = ('determ', 'ens', 'gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle')
PROB = ('gauss', 'tgauss', 'gamma', 'tgamma', 'hurdle')


def gen(d, cls, shape, kind=None, members=None):
    """Forecasts and observations of the given type. Values resemble temperature or precipitation."""
    c = {'cls': cls}
    kind = kind or d.kind()
    if cls == 'determ':
        c['f'] = d.arr(shape, -10, 30, kind)
        c['o'] = d.arr(shape, -10, 30, d.often(kind, 'cont'))
    elif cls == 'ens':
        m = members or d.int(1, 9)
        lo = d.pick([-10., 0.])
        k2 = 'prec' if lo == 0. and d.bool() else kind
        c['f'] = d.arr(tuple(shape) + (m,), lo, 30, k2)          # members last; placed by build()
        c['o'] = d.arr(shape, lo, 30, k2)
        c['ens_pos'] = d.pick(['last', 'first'])
        c['ens_spell'] = d.pick(['neg', 'pos', 'none'])
    elif cls in ('gauss', 'tgauss'):
        sc = d.pick([1., 10., 0.1])
        c['mu'] = d.arr(shape, -2 * sc if cls == 'gauss' else -1 * sc, 4 * sc, d.often('cont', 'grid'))
        c['sigma'] = d.arr(shape, 0.4 * sc, 2 * sc, d.often('cont', 'grid'))
        c['o'] = d.arr(shape, (-2 * sc if cls == 'gauss' else 0.), 5 * sc, d.often('cont', 'prec', 'grid'))
    elif cls in ('gamma', 'tgamma'):
        sc = d.pick([1., 10.])
        c['unshifted_mu'] = d.arr(shape, 0.5 * sc, 4 * sc, d.often('cont', 'grid'))
        c['sigma'] = d.arr(shape, 0.3 * sc, 2 * sc, d.often('cont', 'grid'))
        c['shift'] = -d.arr(shape, 0., 0.5 * sc, d.often('cont', 'prec'))
        if d.int(0, 3) == 0:         # also distributions that begin above zero
            c['shift'] = -c['shift'] if d.bool() else -c['shift'] * d.arr(shape, -1., 1., 'coarse')
        c['mu'] = c['unshifted_mu'] + c['shift']
        c['o'] = d.arr(shape, 0., 5 * sc, d.often('cont', 'prec', 'grid'))
    elif cls == 'hurdle':
        c['pop'] = d.arr(shape, 0., 1., d.often('cont', 'grid'))
        c['mu'] = d.arr(shape, 0.5, 4., d.often('cont', 'grid'))
        c['sigma'] = d.arr(shape, 0.3, 2., d.often('cont', 'grid'))
        c['o'] = d.arr(shape, 0., 8., d.often('prec', 'cont', 'grid'))
        c['nbins'] = d.int(5, 60)
        c['irange'] = (0., d.pick([20., 30., 40.]))
    return c


def units(d, c, often=2):
    """The same case in other units: scaled and, where the forecast allows it, moved away from zero."""
    if d.int(0, often) != 0:
        return c
    k = d.pick([1e-6, 1e-3, 0.01, 2.54, 1e3, 1e6])
    b = k * d.pick([0., 0., 273.15, -40., 1e4, 1e6]) if c['cls'] in ('determ', 'ens', 'gauss') else 0.
    out = dict(c)
    for key in ('f', 'o', 'mu', 'sigma', 'unshifted_mu', 'shift'):
        if key in c:
            out[key] = c[key] * k
            if key in ('f', 'o') or (key == 'mu' and c['cls'] == 'gauss'):
                out[key] = out[key] + b
    if 'irange' in c:
        out['irange'] = tuple(x * k for x in c['irange'])
    return out


def mag(c):
    """The largest magnitude in the data."""
    return max([float(np.max(np.abs(c[k]))) for k in ('f', 'o', 'mu', 'sigma', 'unshifted_mu', 'shift') if k in c and np.size(c[k])] + [1e-300])


FORECAST_KEYS = ('f', 'mu', 'sigma', 'unshifted_mu', 'shift', 'pop')


def take(c, full):
    """The case restricted to one slice (full: index into the shape of the observations)."""
    out = dict(c)
    for k in FORECAST_KEYS + ('o',):
        if k in c:
            v = c[k][full]
            out[k] = np.array(v) if np.ndim(v) else np.array([v])
    if c['cls'] == 'ens':
        v = c['f'][full]
        out['f'] = np.array(v)
        if out['f'].ndim == 1:
            out['f'] = out['f'][None]
    return out


def ens_args(c):
    """The forecast array with the member axis placed, and the ensemble_axis argument."""
    f = c['f']
    nd = f.ndim
    pos = c.get('ens_pos', 'last')
    spell = c.get('ens_spell', 'neg')
    if pos == 'first':
        f = np.moveaxis(f, -1, 0)
    axis = {('last', 'neg'): -1, ('last', 'pos'): nd - 1, ('first', 'neg'): -nd, ('first', 'pos'): 0}.get((pos, spell))
    if spell == 'none':
        # guessing tries the last axis first: only leave it out where that is not ambiguous
        if pos == 'first' and tuple(f.shape[:-1]) == tuple(c['o'].shape):
            axis = 0
        else:
            axis = None
    return f, axis


def build(c, **kw):
    cls = c['cls']
    if cls == 'determ':
        return PyAnEn.VerifyDeterm(c['f'], c['o'], **kw)
    if cls == 'ens':
        f, axis = ens_args(c)
        if c.get('collapse'):
            kw['ensemble_collapse_func'] = getattr(np, c['collapse'])
        return PyAnEn.VerifyEnsemble(f, c['o'], ensemble_axis=axis, **kw)
    if cls in ('gauss', 'tgauss'):
        return PyAnEn.VerifyProbGaussian({'mu': c['mu'], 'sigma': c['sigma']}, c['o'], truncated=cls == 'tgauss', **kw)
    if cls in ('gamma', 'tgamma'):
        return PyAnEn.VerifyProbGamma({k: c[k] for k in ('mu', 'sigma', 'shift', 'unshifted_mu')}, c['o'],
                                      truncated=cls == 'tgamma', **kw)
    if cls == 'hurdle':
        return PyAnEn.VerifyProbGammaHurdle({k: c[k] for k in ('pop', 'mu', 'sigma')}, c['o'],
                                            n_approx_bins=c['nbins'], integration_range=c['irange'], **kw)
    raise ValueError(cls)


def ref_cdf(c, below):
    """P(forecast <= below), from the definition of the distribution."""
    cls = c['cls']
    if cls == 'ens':
        b = np.broadcast_to(np.asarray(below, float), c['o'].shape)
        return np.sum(c['f'] <= b[..., None], axis=-1) / c['f'].shape[-1]
    if cls == 'gauss':
        return ref.gauss_cdf(below, c['mu'], c['sigma'])
    if cls == 'tgauss':
        return ref.trunc_gauss_cdf(below, c['mu'], c['sigma'])
    if cls == 'gamma':
        return ref.gamma_cdf(below, c['unshifted_mu'], c['sigma'], c['shift'])
    if cls == 'tgamma':
        return ref.trunc_gamma_cdf(below, c['unshifted_mu'], c['sigma'], c['shift'])
    if cls == 'hurdle':
        return ref.hurdle_cdf(below, c['pop'], c['mu'], c['sigma'])
    raise ValueError(cls)


def prob(c, over=None, below=None):
    return ref_cdf(c, below) if over is None else 1. - ref_cdf(c, over)


def event(c, over=None, below=None):
    return c['o'] < below if over is None else c['o'] > over


def threshold(d, c):
    """A scalar threshold: inside the data, exactly at an observation or member, or outside."""
    o = c['o']
    how = d.pick(['inside', 'inside', 'obs', 'member', 'far', 'int', 'zero'])
    lo, hi = float(np.min(o)), float(np.max(o))
    if how == 'inside':
        t = lo + (hi - lo) * d.int(0, 20) / 20.
    elif how == 'obs':
        t = float(o.ravel()[d.int(0, o.size - 1)])
    elif how == 'member' and 'f' in c:
        t = float(c['f'].ravel()[d.int(0, c['f'].size - 1)])
    elif how == 'far':
        t = d.pick([lo - 1000. * (mag(c) + hi - lo), hi + 1000. * (mag(c) + hi - lo)])
    elif how == 'int':
        return int(round(0.5 * (lo + hi)))
    elif how == 'zero':
        t = 0.
    else:
        t = 0.5 * (lo + hi)
    return float(t)


def over_below(d, c, arrays=False):
    if arrays and d.int(0, 3) == 0:
        o = c['o']
        t = d.arr(o.shape, float(o.min()), float(o.max()) + 0.1 * mag(c), d.pick(['cont', 'grid', 'coarse']))
        if d.bool():                # some exactly at the observations
            t = np.where(d.arr(o.shape, 0., 1., 'coarse') > 0.5, o, t)
    else:
        t = threshold(d, c)
    return {'over': t} if d.bool() else {'below': t}
