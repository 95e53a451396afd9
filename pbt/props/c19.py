"""C19: a verifier changed through its setters behaves like one constructed that way."""
import numpy as np

import PyAnEn

from .. import ver
from ..engine import Sub
from ..gen import need, need_close
from .c17 import call_gen, flat, gen_data, run

ASSUMPTIONS = ['random results are compared under the same random seed: both verifiers run the same code']

COLLAPSE = ['mean', 'median', 'max', 'min', 'std']


def gen(cls):
    def g(d):
        c = gen_data(d, cls)
        ops = []
        kinds = ['axis', 'axis', 'boot', 'noboot', 'call', 'call', 'save', 'nosave']
        if cls == 'ens':
            kinds += ['collapse'] * 3 + ['ensaxis']
        elif cls != 'determ':
            kinds += ['members'] * 2 + ['clip'] * 2 + ['moveaxis'] * 2
            if cls == 'hurdle':
                kinds = [k for k in kinds if k not in ('clip', 'moveaxis')] + ['bins', 'bins', 'range', 'range']
            else:
                kinds += ['trunc'] * 3
        for _ in range(d.int(1, 8)):
            k = d.pick(kinds)
            op = {'op': k}
            if k == 'axis':
                op['x'] = d.axis(2)
            elif k == 'boot':
                op['x'] = d.pick([5, 9, None])
            elif k == 'collapse':
                op['x'] = d.pick(COLLAPSE)
            elif k == 'ensaxis':
                op['x'] = d.pick(['neg', 'pos', 'none'])
            elif k == 'members':
                op['x'] = d.pick([2, 5, 7, None])
            elif k == 'clip':
                op['x'] = d.pick([None, 0.5, 1., 0.])
            elif k == 'moveaxis':
                op['x'] = d.pick([-1, 0, 1, 2])
            elif k == 'trunc':
                op['x'] = d.bool()
            elif k == 'bins':
                op['x'] = d.pick([5, 12, 33])
            elif k == 'range':
                op['x'] = [d.pick([0., 0.5, -1.]), d.pick([15., 25.])]
            elif k == 'call':
                op['call'] = call_gen(d, cls)
                op['call'].pop('name', None)
            ops.append(op)
        final = [call_gen(d, cls) for _ in range(4)]
        for f in final:
            f.pop('name', None)
        return {'data': c, 'ops': ops, 'final': final, 'seed': d.int(0, 10 ** 6)}
    return g


def attempt(v, op):
    try:
        return run(v, op, 0)
    except Exception as e:
        return e


def check(c, ctx):
    data = c['data']
    cls = data['cls']
    ctx.env(boot_repeats=12)
    cfg = {'avg_axis': None, 'boot_samples': None}
    if cls == 'hurdle':
        cfg.update(n_approx_bins=data['nbins'], integration_range=data['irange'])
    v = ver.build(data)
    last, n = None, 0
    for op in c['ops']:
        k, x = op['op'], op.get('x')
        n += k not in ('call', 'save', 'nosave')
        if k == 'axis':
            r = v.set_avg_axis(x)
            cfg['avg_axis'] = x
        elif k == 'boot':
            r = v.set_boot_samples(x)
            cfg['boot_samples'] = x
        elif k == 'noboot':
            r = v.disable_boot()
            cfg['boot_samples'] = None
        elif k == 'save':
            p = ctx.fresh_dir()
            r = v.enable_saving(p)
            need(p in repr(v), 'the description does not name the folder of saved data')
        elif k == 'nosave':
            r = v.disable_saving()
        elif k == 'collapse':
            r = v.set_collapse_func(getattr(np, x))
            cfg['ensemble_collapse_func'] = getattr(np, x)
        elif k == 'ensaxis':
            data = dict(data, ens_spell=x)
            r = v.set_ensemble_axis(ver.ens_args(data)[1])
        elif k == 'members':
            r = v.set_ensemble_members(x)
            cfg['n_sample_members'] = x
        elif k == 'clip':
            r = v.set_member_clip(x)
            cfg['clip_member_to_zero'] = x
        elif k == 'moveaxis':
            r = v.set_move_sampled_ens_axis(x)
            cfg['move_sampled_ens_axis'] = x
        elif k == 'trunc':
            r = v.set_truncation(x)
            cfg['truncated'] = x
        elif k == 'bins':
            r = v.set_bins(x)
            cfg['n_approx_bins'] = x
        elif k == 'range':
            r = v.set_integration_range(*x)
            cfg['integration_range'] = tuple(x)
        else:
            attempt(v, op['call'])
            continue
        need(r is v, '{} does not return the verifier', k)
    v.disable_saving()
    ctx.trivial = n == 0
    # the same, constructed
    kw = dict(cfg)
    if cls == 'ens':
        f, ax = ver.ens_args(data)
        w = PyAnEn.VerifyEnsemble(f, data['o'], ensemble_axis=ax, **kw)
    elif cls == 'hurdle':
        w = PyAnEn.VerifyProbGammaHurdle({k: data[k] for k in ('pop', 'mu', 'sigma')}, data['o'], **kw)
    elif cls in ('gauss', 'tgauss'):
        kw.setdefault('truncated', cls == 'tgauss')
        w = PyAnEn.VerifyProbGaussian({k: data[k] for k in ('mu', 'sigma')}, data['o'], **kw)
    elif cls in ('gamma', 'tgamma'):
        kw.setdefault('truncated', cls == 'tgamma')
        w = PyAnEn.VerifyProbGamma({k: data[k] for k in ('mu', 'sigma', 'shift', 'unshifted_mu')}, data['o'], **kw)
    else:
        w = PyAnEn.VerifyDeterm(data['f'], data['o'], **kw)
    need(repr(v) == repr(w), 'described as\n{}\nafter the setters, as\n{}\nwhen constructed', repr(v), repr(w))
    text = repr(v)
    for key in ('avg_axis', 'boot_samples', 'n_sample_members', 'move_sampled_ens_axis'):
        if cfg.get(key) is not None:
            x = cfg[key]
            x = (x,) if key == 'avg_axis' and isinstance(x, int) else tuple(x) if isinstance(x, list) else x
            need(str(x) in text, 'the description does not show {}={}:\n{}', key, x, text)
    if cls == 'ens':
        need(cfg.get('ensemble_collapse_func', np.mean).__name__ in text, 'the description does not show the collapsing function:\n{}', text)
    for x in [data['o']] + [data[k] for k in ('mu', 'sigma') if k in data]:
        need(str(x.shape) in text, 'the description does not show the shape {}:\n{}', x.shape, text)
    base = [{'m': 'error'}, {'m': 'f_determ'}, {'m': 'sq_error'}, {'m': 'corr'}]
    if cls != 'determ':
        base += [{'m': 'crps'}, {'m': 'brier', 'side': 'over', 't': 1.}, {'m': 'pit_rank'}, {'m': 'spread'}, {'m': 'variance'}]
    if cls in ('gauss', 'tgauss', 'gamma', 'tgamma'):
        base += [{'m': 'prob_to_ens'}]
    for op in base + c['final']:
        np.random.seed(c['seed'])
        a = attempt(v, op)
        np.random.seed(c['seed'])
        b = attempt(w, op)
        need(isinstance(a, Exception) == isinstance(b, Exception), '{}: {} after the setters, {} when constructed ({})', op, repr(a)[:200], repr(b)[:200], cfg)
        if isinstance(a, Exception):
            continue
        a, b = flat(a), flat(b)
        need([x.shape for x in a] == [x.shape for x in b], '{}: shapes {} after the setters, {} when constructed', op, [x.shape for x in a], [x.shape for x in b])
        for x, y in zip(a, b):
            need_close(x, y, '{} after the setters {}'.format(op, cfg), rtol=1e-10, atol=1e-12)


def gen_eff(d):
    """What each setting does, against a definition."""
    c = ver.gen(d, d.pick(['gauss', 'gamma']), (2, d.int(2, 3)))
    c.update(n=d.int(1, 6), clip=d.pick([None, 0.5, 2.]), move=d.pick([-1, 0, 1, 2, -2, -3]), salt=d.int(0, 10 ** 6))
    return c


def check_eff(c, ctx):
    v = ver.build(c).set_ensemble_members(c['n']).set_member_clip(c['clip']).set_move_sampled_ens_axis(c['move'])
    np.random.seed(c['salt'])
    e = v.prob_to_ens()
    want = list(c['o'].shape)
    want.insert(c['move'] if c['move'] >= 0 else 3 + c['move'], c['n'])
    need(list(e.shape) == want, 'members of shape {} instead of {}', e.shape, want)
    if c['clip'] is not None:
        need(not np.any((e < c['clip']) & (e != 0)), 'a member below {} is kept', c['clip'])
    ctx.trivial = c['clip'] is None
    np.random.seed(c['salt'])
    u = ver.build(c, n_sample_members=c['n'], move_sampled_ens_axis=c['move']).prob_to_ens()
    need_close(e, np.where(u < c['clip'], 0., u) if c['clip'] is not None else u, 'clipped members', rtol=0, atol=0)


def gen_collapse(d):
    c = ver.gen(d, 'ens', (2, d.int(1, 3)))
    c['funcs'] = [d.pick(COLLAPSE) for _ in range(d.int(1, 3))]
    c['axis'] = d.axis(2)
    return c


def check_collapse(c, ctx):
    v = ver.build(c)
    for f in c['funcs']:
        v.set_collapse_func(getattr(np, f))
        m = getattr(np, f)(c['f'], axis=-1)
        need_close(v.f_determ(), m, 'collapsed with ' + f, rtol=1e-9, atol=1e-10)
        need_close(v.error(), np.mean(m - c['o']), 'error of the collapsed ensembles', rtol=1e-9, atol=1e-10)
        need_close(v.ab_error(), np.mean(np.abs(m - c['o'])), 'absolute error of the collapsed ensembles', rtol=1e-9, atol=1e-10)
        need_close(v.rmse(), np.sqrt(np.mean((m - c['o']) ** 2)), 'rmse of the collapsed ensembles', rtol=1e-9, atol=1e-10)


def gen_guess(d):
    nd = d.int(1, 3)
    side = d.int(1, 4)
    kind = d.pick(['cube', 'cube', 'first', 'last', 'any'])
    shape = (side,) * nd if kind == 'cube' else tuple(d.int(1, 4) for _ in range(nd))
    m = side if kind == 'cube' else d.int(1, 5)
    pos = {'first': 'first', 'last': 'last'}.get(kind) or d.pick(['first', 'last'])
    f = d.arr(shape + (m,), 0., 9., 'cont')
    return {'f': f if pos == 'last' else np.moveaxis(f, -1, 0), 'o': d.arr(shape, 0., 9., 'cont'), 'axis': d.axis(nd), 't': d.f(0., 9.), 'reset': d.bool()}


def check_guess(c, ctx):
    """Without ensemble_axis: the last axis where it fits, otherwise the first."""
    f, o = c['f'], c['o']
    ax = -1 if f.shape[:-1] == o.shape else 0
    ctx.label('both fit' if f.shape[:-1] == o.shape and f.shape[1:] == o.shape else 'one fits')
    v, w = PyAnEn.VerifyEnsemble(f, o, avg_axis=c['axis']), PyAnEn.VerifyEnsemble(f, o, ensemble_axis=ax, avg_axis=c['axis'])
    if c['reset']:
        v = PyAnEn.VerifyEnsemble(f, o, ensemble_axis=ax, avg_axis=c['axis']).set_ensemble_axis(None)
    for k in ('error', 'f_determ', 'spread', 'variance', 'crps'):
        need_close(getattr(v, k)(), getattr(w, k)(), k + ' with a guessed member axis', rtol=1e-12, atol=0)
    need_close(v.cdf(below=c['t']), w.cdf(below=c['t']), 'cdf with a guessed member axis', rtol=1e-12, atol=0)
    need_close(v.f_determ(), f.mean(ax), 'mean over the guessed member axis', rtol=1e-12, atol=1e-12)


R = 'histories of setters and metrics against direct construction; non-trivial: at least one setting changed'
SUBS = [Sub(cls, gen(cls), check, 500 if cls != 'hurdle' else 250, R) for cls in ver.CLASSES] + [
    Sub('members', gen_eff, check_eff, 500, 'number, place and clipping of sampled members; non-trivial: clipped'),
    Sub('guess', gen_guess, check_guess, 400, 'the member axis left out; every case is non-trivial'),
    Sub('collapse', gen_collapse, check_collapse, 500, 'every case is non-trivial'),
]
