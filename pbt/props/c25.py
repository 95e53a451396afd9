"""C25: correlation."""
import numpy as np

import PyAnEn
from PyAnEn.utils_special_boot import corr

from .. import ref, ver
from ..engine import Sub
from ..gen import need, need_close, norm_axis, out_shape, slices

ASSUMPTIONS = ['slices whose forecasts or observations are constant have no correlation and are left out']


def gen(d):
    cls = d.pick(['determ', 'determ', 'ens', 'gauss', 'tgauss', 'gamma', 'tgamma'])
    shape = d.shape(1, 4, 4, min_size=2, max_size=80) if d.int(0, 14) else d.big_shape(max_dim=4)
    c = ver.units(d, ver.gen(d, cls, shape))
    c['axis'] = d.axis(len(shape))
    c.update(k=d.pick([2., 0.01, -3.]), m=d.pick([0., 100., -7.]) * ver.mag(c), k2=d.pick([1., 5., -0.2]), m2=d.pick([0., 30.]) * ver.mag(c), perm=d.perm(len(shape)),
             roll=d.int(0, 3), linear=d.int(0, 5) == 0)
    return c


def det(c):
    return c['f'].mean(-1) if c['cls'] == 'ens' else c['f'] if c['cls'] == 'determ' else c['mu']


def check(c, ctx):
    if c['linear']:
        # perfectly correlated
        c = dict(c, cls='determ', f=c['o'] * c['k'] + c['m'])
    f, o = det(c), c['o']
    r = np.asarray(ver.build(c, avg_axis=c['axis']).corr(), float)
    need(r.shape == out_shape(o.shape, c['axis']), 'shape {}', r.shape)
    ax = norm_axis(c['axis'], o.ndim)
    r2 = np.asarray(corr(c['k'] * f + c['m'], c['k2'] * o + c['m2'], ax), float)
    r3 = np.asarray(corr(o, f, ax), float)
    # samples in another order, both series alike
    r4 = np.asarray(corr(np.roll(f, c['roll'], axis=ax), np.roll(o, c['roll'], axis=ax), ax), float)
    n = 0
    for idx, full in slices(o.shape, c['axis']):
        a, b = np.ravel(f[full]), np.ravel(o[full])
        if len(a) < 2 or np.ptp(a) <= 1e-6 * np.max(np.abs(f)) or np.ptp(b) <= 1e-6 * np.max(np.abs(o)):
            continue
        n += 1
        want = ref.corr(a, b)
        tol = 1e-13 * (np.max(np.abs(f)) / np.ptp(a) + np.max(np.abs(o)) / np.ptp(b)) * len(a)
        need_close(r[idx], want, 'correlation of slice {}'.format(idx), rtol=1e-7, atol=1e-8 + tol)
        need(-1 - 1e-9 <= r[idx] <= 1 + 1e-9, 'correlation {}', r[idx])
        need_close(r2[idx], want * np.sign(c['k'] * c['k2']), 'other units', rtol=1e-5, atol=1e-6 + 1e4 * tol)
        need_close(r3[idx], want, 'exchanged', rtol=1e-7, atol=1e-8 + tol)
        need_close(r4[idx], want, 'another order', rtol=1e-7, atol=1e-8 + tol)
        if c['linear']:
            need_close(r[idx], np.sign(c['k']), 'correlation of a linear relation', rtol=1e-7)
    ctx.trivial = n == 0
    ctx.label('kept' if r.shape else 'all averaged')


SUBS = [Sub('pearson', gen, check, 4000, 'every verifier and average axis against the definition, and relations; non-trivial: some slice varies')]
