"""C20: with skip_nan, missing values are left out: every metric is that of the remaining data."""
import numpy as np

import PyAnEn

from .. import ref, ver
from ..engine import Known, Sub
from ..gen import need, need_close, out_shape, slices

ASSUMPTIONS = ['binned spread-skill with missing values is a known finding; kernel density estimates do not accept missing members']


def holes(d, shape):
    p = d.pick([0, 1, 3, 5, 9])
    return d.arr(shape, 0., 16., 'cont') < p


def gen(cls):
    def g(d):
        shape = d.shape(1, 4, 5, min_size=2, max_size=60) if d.int(0, 19) else d.big_shape(hi=600)
        c = ver.gen(d, cls, shape, **({'members': d.int(1, 5)} if cls == 'ens' else {}))
        c = ver.units(d, c)
        c['axis'] = d.axis(len(shape))
        c['ho'], c['hf'] = holes(d, shape), holes(d, shape)
        c['on'] = d.int(0, 4) > 0
        c['spell'] = d.pick(['True', '1', 'true', 'yes', 'on'])
        c['off'] = d.pick(['False', '0', 'no'])
        c['ob'] = ver.over_below(d, c)
        if cls == 'hurdle':
            c['default'] = d.bool() and c['on']
            c['nbins'] = min(c['nbins'], 15)
        return c
    return g


def punch(c, hole_f, hole_o):
    out = dict(c)
    out['o'] = np.where(hole_o, np.nan, c['o'])
    for k in ver.FORECAST_KEYS:
        if k in c:
            out[k] = np.where(hole_f[..., None] if c['cls'] == 'ens' else hole_f, np.nan, c[k])
    return out


def sel(c, mask):
    """The data at the places of mask, as one vector."""
    out = dict(c)
    for k in ver.FORECAST_KEYS + ('o',):
        if k in c:
            out[k] = c[k][mask]
    out['ens_pos'], out['ens_spell'] = 'last', 'neg'
    return out


METRICS = {'determ': ['error', 'ab_error', 'sq_error', 'rmse', 'corr'],
           'ens': ['error', 'ab_error', 'sq_error', 'rmse', 'corr', 'crps', 'spread'],
           'gauss': ['error', 'ab_error', 'sq_error', 'rmse', 'corr', 'crps'],
           'tgauss': ['error', 'rmse', 'crps'],
           'gamma': ['error', 'sq_error', 'crps', 'corr'], 'tgamma': ['ab_error', 'sq_error', 'corr'],
           'hurdle': ['error', 'ab_error', 'sq_error', 'rmse', 'corr', 'crps']}


def check(c, ctx):
    ctx.env(skip_nan=c['spell'] if c['on'] else c['off'])
    data = punch(c, c['hf'], c['ho'])
    bad = c['hf'] | c['ho']
    if c.get('default') and not c['ho'].all():
        # the default range of the integration is that of the observations there are
        lo, hi = float(np.nanmin(data['o'])), float(np.nanmax(data['o']))
        if hi - lo > 1e-6 * ver.mag(c):
            ctx.label('default range')
            data['irange'] = None
            c = dict(c, irange=(max(lo - 5 * (hi - lo), 0.), hi + 5 * (hi - lo)))
    v = ver.build(data, avg_axis=c['axis'])
    if c['cls'] in ver.PROB:
        p = ver.build(data, pit_randomize_zero_ranks=False).pit()
        need_close(p, np.where(bad, np.nan, ver.ref_cdf(c, c['o'])), 'PIT, missing where a value is missing', rtol=1e-7, atol=1e-9)
    shape = out_shape(bad.shape, c['axis'])
    ctx.trivial = not (np.any(bad) and not np.all(bad)) or not c['on']
    if c['cls'] in ('gauss', 'ens') and not c['on']:
        n = bad.size // max(1, int(np.prod(shape, dtype=int)))
        sp, rm = v.binned_spread_skill(nbins=min(n, 2))
        for idx, full in slices(bad.shape, c['axis']):
            need(np.isnan(rm[idx]).any() == bad[full].any(), 'skill of slice {}: {}', idx, rm[idx])
            need(np.isnan(sp[idx]).any() == c['hf'][full].any(), 'spread of slice {}: {}', idx, sp[idx])
    for m in METRICS[c['cls']] + (['brier'] if c['cls'] != 'determ' else []):
        hole = bad
        if m == 'spread':
            hole = c['hf']
        if m == 'brier' and not c['on']:
            continue                    # without skip_nan nothing is said about thresholds and missing values
        kw = c['ob'] if m == 'brier' else {}
        r = np.asarray(getattr(v, m)(**kw), float)
        need(r.shape == shape, '{}: shape {} instead of {}', m, r.shape, shape)
        for idx, full in slices(bad.shape, c['axis']):
            ok = np.zeros(bad.shape, bool)
            ok[full] = True
            n_all = ok.sum()
            ok &= ~hole
            if not c['on']:
                if ok.sum() < n_all:
                    need(np.isnan(r[idx]), '{} of slice {} is {} although values are missing and skip_nan is off', m, idx, r[idx])
                    continue
            elif not ok.any():
                need(np.isnan(r[idx]), '{} of slice {} is {} although nothing is left', m, idx, r[idx])
                continue
            if m == 'corr':
                s = sel(c, ok)
                f = s['f'].mean(-1) if c['cls'] == 'ens' else s['f'] if c['cls'] == 'determ' else ver.build(s).f_determ() if c['cls'] == 'hurdle' else s['mu']
                if ok.sum() < 2 or np.ptp(f) <= 1e-6 * ver.mag(c) or np.ptp(s['o']) <= 1e-6 * ver.mag(c):
                    continue
                need_close(r[idx], ref.corr(f, s['o']), 'corr of slice {}'.format(idx), rtol=1e-6, atol=1e-7)
                continue
            want = getattr(ver.build(sel(c, ok)), m)(**kw)
            need_close(r[idx], want, '{} of slice {} without the missing values'.format(m, idx), rtol=1e-9, atol=1e-11 * (ver.mag(c) ** 2 if m == 'sq_error' else 1. if m == 'brier' else ver.mag(c)))


def gen_rank(d):
    shape = d.shape(1, 3, 4, max_size=30)
    c = ver.gen(d, 'ens', shape, kind='cont', members=d.int(1, 5))
    c['f'] = c['f'] + np.arange(c['f'].shape[-1]) * 1e-6
    c['ho'] = holes(d, shape)
    c['hm'] = holes(d, c['f'].shape)
    c['workers'] = d.pick([1, 1, 1, 2])
    return c


def check_rank(c, ctx):
    ctx.env(skip_nan='True', tqdm_workers=c['workers'])
    data = dict(c, o=np.where(c['ho'], np.nan, c['o']), f=np.where(c['hm'], np.nan, c['f']))
    r = ver.build(data).rank_hist()
    bad = c['ho'] | c['hm'].any(-1)
    ctx.trivial = not bad.any() or bad.all()
    need(r.shape == bad.shape, 'shape {}', r.shape)
    need(np.array_equal(np.isnan(r), bad), 'missing at {} instead of {}', np.isnan(r), bad)
    lo = (c['f'] < c['o'][..., None]).sum(-1) + 1
    hi = (c['f'] <= c['o'][..., None]).sum(-1) + 1
    need(np.all((lo <= r)[~bad]) and np.all((r <= hi)[~bad]), 'ranks {}', r)
    ctx.env(skip_nan='False')
    if (c['ho'].any() or c['hm'].any()):
        try:
            ver.build(data).rank_hist()
        except Exception:
            return
        need(False, 'ranks of missing values without skip_nan')


def gen_spread(d):
    shape = d.shape(1, 2, 4, max_size=16)
    c = ver.gen(d, 'ens', shape, members=d.int(1, 6))
    c['hm'] = holes(d, c['f'].shape)
    c['axis'] = d.axis(len(shape))
    return c


def check_spread(c, ctx):
    """Missing members: the spread of the others."""
    ctx.env(skip_nan='True')
    f = np.where(c['hm'], np.nan, c['f'])
    r = np.asarray(ver.build(dict(c, f=f), avg_axis=c['axis']).spread())
    ctx.trivial = not c['hm'].any()
    s = np.full(c['o'].shape, np.nan)
    for i in np.ndindex(*s.shape):
        x = f[i][~np.isnan(f[i])]
        if len(x):
            s[i] = x.max() - x.min()
    need_close(r, ref.mean_over(s, c['axis'], True), 'spread', rtol=1e-9, atol=1e-10)


def gen_thr(d):
    cls = d.pick(['gauss', 'gamma', 'ens', 'tgauss', 'tgamma', 'hurdle'])
    c = ver.gen(d, cls, d.shape(1, 4, 8, min_size=6, max_size=50), **({'members': d.int(1, 4)} if cls == 'ens' else {}))
    c['axis'] = d.often(None, d.axis(c['o'].ndim))
    c['hf'], c['ho'] = holes(d, c['o'].shape), holes(d, c['o'].shape)
    c['ob'] = ver.over_below(d, c)
    c['m'] = d.pick(['roc', 'brier_decomp', 'reliability', 'iou_prob', 'iou_determ', 'brier', 'sharpness'])
    c['n'] = d.int(1, 6)
    c['workers'] = d.pick([1] * 5 + [2])
    return c


def check_thr(c, ctx):
    ctx.env(skip_nan='True', tqdm_workers=c['workers'])
    ctx.label(c['m'])
    bad = c['hf'] | c['ho']
    if c['m'] == 'sharpness':
        bad = c['hf']
    ok = ~bad
    ctx.trivial = not bad.any() or not ok.any()
    if not ok.any():
        return
    y = ver.event(c, **c['ob'])
    if c['m'] == 'roc' and (y[ok].all() or not y[ok].any()):
        ctx.trivial = True
        return
    kw = dict(c['ob'])
    if c['m'] == 'iou_prob':
        kw = {k: (t, 0.4) for k, t in kw.items()}
    if c['m'] == 'reliability':
        kw['nbins'] = c['n']
    if c['m'] == 'iou_determ' and c['cls'] == 'hurdle':
        ctx.trivial = True              # its mean is integrated over the range of the data
        return
    if c['axis'] is not None and c['m'] in ('brier_decomp', 'iou_prob', 'iou_determ', 'brier'):
        ctx.label('along axes')
        got = getattr(ver.build(punch(c, c['hf'], c['ho']), avg_axis=c['axis']), c['m'])(**kw)
        ctx.env(tqdm_workers=1)
        got = list(got) if c['m'] == 'brier_decomp' else [got]
        for idx, full in slices(bad.shape, c['axis']):
            k = np.zeros(bad.shape, bool)
            k[full] = True
            k &= ok
            if not k.any():
                need(all(np.isnan(np.asarray(g)[idx]) for g in got), '{} of slice {} is {} although nothing is left', c['m'], idx, [np.asarray(g)[idx] for g in got])
                continue
            want = getattr(ver.build(sel(c, k)), c['m'])(**kw)
            for g, w in zip(got, list(want) if c['m'] == 'brier_decomp' else [want]):
                need_close(np.asarray(g)[idx], w, '{} of slice {} without the missing values'.format(c['m'], idx), rtol=1e-9, atol=1e-12)
        return
    got = getattr(ver.build(punch(c, c['hf'], c['ho'])), c['m'])(**kw)
    ctx.env(tqdm_workers=1)
    want = getattr(ver.build(sel(c, ok)), c['m'])(**kw)
    if c['m'] == 'sharpness':
        need(np.array_equal(np.isnan(got), bad), 'probabilities {}', got)
        got = got[ok]
    if not isinstance(got, (tuple, list)):
        got, want = [got], [want]
    for a, b in zip(got, want):
        need_close(a, b, '{} without the missing values'.format(c['m']), rtol=1e-9, atol=1e-12)


def gen_mem(d):
    shape = d.shape(1, 2, 4, max_size=16)
    c = ver.gen(d, 'ens', shape, members=d.int(1, 6))
    c['hm'] = holes(d, c['f'].shape)
    c['axis'] = d.axis(len(shape))
    c['ob'] = ver.over_below(d, c)
    c['workers'] = d.pick([1] * 5 + [2])
    return c


def check_mem(c, ctx):
    """Missing members: the probability is that of the others."""
    ctx.env(skip_nan='True', tqdm_workers=c['workers'])
    ctx.trivial = not c['hm'].any()
    f = np.where(c['hm'], np.nan, c['f'])
    v = ver.build(dict(c, f=f), avg_axis=c['axis'])
    p = np.full(c['o'].shape, np.nan)
    for i in np.ndindex(*p.shape):
        x = f[i][~np.isnan(f[i])]
        if len(x):
            p[i] = np.mean(x <= c['ob']['below']) if 'below' in c['ob'] else 1. - np.mean(x <= c['ob']['over'])
    need_close(v.cdf(**c['ob']), p, 'probability of the other members', rtol=1e-9, atol=1e-10)
    need_close(v.brier(**c['ob']), ref.mean_over((p - ver.event(c, **c['ob'])) ** 2, c['axis'], True), 'Brier score of the other members', rtol=1e-9, atol=1e-10)


def known_ss(ctx):
    ctx.env(skip_nan='True')
    o = np.array([0., 1., np.nan, 2., 4., np.nan, 1., 3.])
    f = {'mu': np.zeros(8), 'sigma': np.array([1., 2., np.nan, 3., 4., np.nan, 5., 6.])}
    keep = ~np.isnan(o)
    a = PyAnEn.VerifyProbGaussian(f, o).binned_spread_skill(nbins=2)
    b = PyAnEn.VerifyProbGaussian({k: x[keep] for k, x in f.items()}, o[keep]).binned_spread_skill(nbins=2)
    for x, y in zip(a, b):
        need_close(x, y, 'spread and skill without the missing values')


KNOWN = {'missing-spread-skill': known_ss}

R = 'metrics of data with missing values against those of the remaining data; non-trivial: some but not all values are missing, and skip_nan is on'
SUBS = [Sub(cls, gen(cls), check, 600 if cls != 'hurdle' else 300, R) for cls in METRICS] + [
    Sub('rank_hist', gen_rank, check_rank, 300, 'non-trivial: some but not all are missing'),
    Sub('spread', gen_spread, check_spread, 500, 'missing members; non-trivial: some are missing'),
    Sub('thresholds', gen_thr, check_thr, 1500, 'missing forecasts and observations; non-trivial: some but not all are missing'),
    Sub('members', gen_mem, check_mem, 400, 'missing members; non-trivial: some are missing'),
]
