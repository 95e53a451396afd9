"""Reference definitions, written from the definitions of the metrics and without PyAnEn's code."""
import math

import numpy as np
from scipy import special

from .gen import norm_axis, out_shape, slices


def mean_over(a, axis, skip_nan=False):
    a = np.asarray(a, dtype=float)
    out = np.full(out_shape(a.shape, axis), np.nan)
    for idx, full in slices(a.shape, axis):
        v = a[full].ravel().tolist()
        if skip_nan:
            v = [x for x in v if x == x]
        out[idx] = math.fsum(v) / len(v) if v else np.nan
    return out


def phi_cdf(z):
    return 0.5 * special.erfc(-np.asarray(z, dtype=float) / math.sqrt(2.))


def gauss_cdf(x, mu, sigma):
    return phi_cdf((x - mu) / sigma)


def trunc_gauss_cdf(x, mu, sigma):
    # truncated at zero: 1 - P(X > x) / P(X > 0), in logarithms because both can be tiny
    x = np.asarray(x, dtype=float)
    lg = special.log_ndtr(-(np.maximum(x, 0.) - mu) / sigma) - special.log_ndtr(mu / sigma)
    return np.where(x <= 0, 0., np.clip(-np.expm1(lg), 0., 1.))

def gamma_par(mu, sigma):
    return (mu / sigma) ** 2, sigma ** 2 / mu


def gamma_cdf(x, umu, sigma, shift):
    k, th = gamma_par(umu, sigma)
    return special.gammainc(k, np.maximum(x - shift, 0.) / th)


def gamma_sf(x, umu, sigma, shift):
    k, th = gamma_par(umu, sigma)
    return special.gammaincc(k, np.maximum(x - shift, 0.) / th)


def trunc_gamma_cdf(x, umu, sigma, shift):
    sf0 = gamma_sf(0., umu, sigma, shift)
    return np.where(x <= 0, 0., np.clip(1. - gamma_sf(x, umu, sigma, shift) / sf0, 0., 1.))


def hurdle_cdf(x, pop, mu, sigma):
    k, th = gamma_par(mu, sigma)
    x = np.asarray(x, dtype=float)
    return np.where(x < 0, 0., 1. - pop + pop * special.gammainc(k, np.maximum(x, 0.) / th))


# ---- CRPS by quadrature: integral of (F(x) - 1{x >= o})^2 ----

_gl = np.polynomial.legendre.leggauss(40)


def _quad(g, a, b, pieces):
    tot = 0.
    edges = np.linspace(a, b, pieces + 1)
    x, w = _gl
    for lo, hi in zip(edges[:-1], edges[1:]):
        h = 0.5 * (hi - lo)
        tot += h * float(np.sum(w * g(lo + h * (x + 1.))))
    return tot


def crps_quad(cdf, o, lo, hi, breaks=(), pieces=24):
    pts = sorted(set([lo, hi, o] + [b for b in breaks if lo < b < hi]))
    pts = [p for p in pts if min(lo, o) <= p <= max(hi, o)]
    tot = 0.
    for a, b in zip(pts[:-1], pts[1:]):
        if b <= a:
            continue
        if b <= o:
            tot += _quad(lambda x: cdf(x) ** 2, a, b, pieces)
        else:
            tot += _quad(lambda x: (1. - cdf(x)) ** 2, a, b, pieces)
    return tot


def crps_ens(members, o):
    m = np.asarray(members, dtype=float)
    n = len(m)
    a = math.fsum(abs(x - o) for x in m.tolist()) / n
    b = math.fsum(np.abs(m[:, None] - m[None, :]).ravel().tolist()) / (2. * n * n)
    return a - b


def crps_gauss(mu, sigma, o):
    z = (o - mu) / sigma
    return sigma * (z * (2 * phi_cdf(z) - 1) + 2 * math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi) - 1 / math.sqrt(math.pi))


def corr(f, o):
    f, o = np.asarray(f, float).ravel(), np.asarray(o, float).ravel()
    n = len(f)
    mf, mo = math.fsum(f) / n, math.fsum(o) / n
    sff = math.fsum((x - mf) ** 2 for x in f)
    soo = math.fsum((x - mo) ** 2 for x in o)
    sfo = math.fsum((x - mf) * (y - mo) for x, y in zip(f, o))
    return sfo / math.sqrt(sff * soo) if sff > 0 and soo > 0 else float('nan')


def auc(p, y):
    """Mann-Whitney: probability that an event has a higher forecast than a non-event, ties count half."""
    p, y = np.asarray(p, float).ravel(), np.asarray(y).ravel().astype(bool)
    a, b = p[y], p[~y]
    if len(a) == 0 or len(b) == 0:
        return float('nan')
    s = 0.
    for x in a:
        s += np.count_nonzero(b < x) + 0.5 * np.count_nonzero(b == x)
    return s / (len(a) * len(b))


def brier_decomp(p, y, nbins=20):
    """Murphy's decomposition with `nbins` equally wide probability bins."""
    p, y = np.asarray(p, float).ravel(), np.asarray(y, float).ravel()
    n = len(p)
    ob = y.mean()
    edges = [i / nbins for i in range(1, nbins)]
    b = np.array([sum(1 for e in edges if v >= e) for v in p])
    rel = res = 0.
    for k in set(b.tolist()):
        m = b == k
        rel += m.sum() * (p[m].mean() - y[m].mean()) ** 2
        res += m.sum() * (y[m].mean() - ob) ** 2
    return rel / n, res / n, ob * (1 - ob)
