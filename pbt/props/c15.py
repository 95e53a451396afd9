"""C15: intersection over union."""
import numpy as np

from PyAnEn.utils_verify import iou_determ, iou_prob

from .. import ver
from ..engine import Sub
from ..gen import need, need_close, out_shape, slices

ASSUMPTIONS = ['a union without elements has no defined ratio (NaN)',
               'probabilities within 1e-9 of the probability threshold are left out unless both are exactly 0, 0.5 or 1']


def gen(cls):
    def g(d):
        big = d.int(0, 19) == 0 and cls not in ('tgamma', 'hurdle')
        shape = d.big_shape(hi=1100) if big else d.shape(1, 4, 5, max_size=80)
        c = ver.gen(d, cls, shape)
        c = ver.units(d, c)
        c['ob'] = ver.over_below(d, c, arrays=True)
        c['axis'] = d.axis(len(shape))
        c['pt'] = d.pick([0., 0.1, 0.25, 0.5, 0.5, 0.66, 0.9, 1.])
        c['pside'] = d.pick(['over', 'below'])
        c['lists'] = d.bool()
        if cls in ('determ', 'ens') and d.int(0, 3) == 0:
            c['small'] = d.pick(['uint8', 'int8', 'uint16', 'float32', 'float16'])
        return c
    return g


def ref_iou(a, b, axis):
    out = np.full(out_shape(a.shape, axis), np.nan)
    for idx, full in slices(a.shape, axis):
        x, y = np.ravel(a[full]), np.ravel(b[full])
        u = int(np.sum(x | y))
        if u:
            out[idx] = int(np.sum(x & y)) / u
    return out


def same(got, want, what):
    need_close(got, want, what, rtol=1e-12, atol=1e-12)


def check(c, ctx):
    given = c
    if c.get('small'):
        # numbers stored in small types: the same numbers
        lim = {'uint8': (0, 255), 'int8': (-128, 127), 'uint16': (0, 65535)}.get(c['small'], (-6e4, 6e4))
        given = dict(c, **{k: (np.round(np.clip(c[k], *lim)) if 'int' in c['small'] else np.clip(c[k], *lim)).astype(c['small']) for k in 'fo'})
        c = dict(c, **{k: given[k].astype(float) for k in 'fo'})
        ctx.label(c['small'])
        if 'float' in c['small']:
            # numpy compares in the type of the array: a threshold of that type
            lim = float(np.finfo(c['small']).max)
            c['ob'] = {k: t if np.ndim(t) else float(np.array(np.clip(t, -lim, lim)).astype(c['small'])) for k, t in c['ob'].items()}
    side, t = list(c['ob'].items())[0]
    v = ver.build(given, avg_axis=c['axis'])
    f = np.asarray(v.f_determ())
    y = ver.event(c, **c['ob'])
    g = f < t if side == 'below' else f > t
    want = ref_iou(g, y, c['axis'])
    ctx.trivial = not np.any((want > 0) & (want < 1))
    same(v.iou_determ(**c['ob']), want, 'IOU of {} {}'.format(side, t))
    ax = c['axis'] if c['axis'] is None or not isinstance(c['axis'], int) else (c['axis'],)
    ax = tuple(ax) if isinstance(ax, list) else ax
    same(iou_determ(f, c['o'], axis=ax, **c['ob']), want, 'iou_determ')
    same(iou_determ(c['o'], f, axis=ax, **c['ob']), want, 'iou_determ with forecasts and observations exchanged')
    if c['cls'] == 'determ':
        return
    p, pt = ver.prob(c, **c['ob']), c['pt']
    close = np.abs(p - pt) < 1e-7
    if pt in (0., 0.5, 1.):
        close &= p != pt
        if c['cls'] != 'ens':
            close |= p == pt
    if close.any():
        return
    g = p < pt if c['pside'] == 'below' else p > pt
    want = ref_iou(g, y, c['axis'])
    args = {'over': [None, None], 'below': [None, None]}
    args[side][0] = t
    args[c['pside']][1] = pt
    if not c['lists']:
        args = {k: tuple(x) for k, x in args.items()}
    other = {'over': 'below', 'below': 'over'}[side]
    if c['pside'] == side and not c['lists']:
        args.pop(other)
    ctx.label('prob')
    same(v.iou_prob(**args), want, 'probabilistic IOU {}'.format(args))
    same(iou_prob(p, y, axis=ax, **{c['pside']: pt}), want, 'iou_prob')


SUBS = [Sub(cls, gen(cls), check, 700 if cls not in ('tgamma', 'hurdle') else 400, 'thresholds on ties, any axis; non-trivial: some ratio strictly between 0 and 1') for cls in ver.CLASSES]
