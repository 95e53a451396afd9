"""C10: numerical integration converges to the exact moments and cleans up after itself."""
import os

import numpy as np

import PyAnEn
from PyAnEn.utils_approximation import Integration

from .. import fakeray, ref, ver
from ..engine import Sub, Violation
from ..gen import need, need_close

ASSUMPTIONS = ['error bounds of the rule: half a bin for the mean, one bin times the largest |x| for the second moment',
               'faults are injected as exceptions out of the distribution function of the verifier and as a missing folder']


def moments(c):
    if c['cls'] == 'ens':
        m = c['f'].mean(-1)
        return m, ((c['f'] - m[..., None]) ** 2).mean(-1)
    if c['cls'] == 'gauss':
        return c['mu'], c['sigma'] ** 2
    if c['cls'] == 'gamma':
        return c['mu'], c['sigma'] ** 2
    return c['pop'] * c['mu'], c['pop'] * (c['sigma'] ** 2 + c['mu'] ** 2) - (c['pop'] * c['mu']) ** 2


def gen(d, cls):
    shape = d.shape(1, 4, 4, max_size=16)
    c = ver.gen(d, cls, shape)
    c = ver.units(d, c)
    c['bins'] = d.pick([30, 30, 100, 100, 300, 1500])
    c['default'] = d.bool()
    c['less'] = d.bool()
    c['workers'] = d.pick([1, 1, 3])
    c['multi'] = d.pick([5, 8, 20])
    c['api'] = d.bool()
    return c


def check(c, ctx):
    cls = c['cls']
    mean, var = moments(c)
    pad = float(np.ptp(c['f'])) + 1e-3 * ver.mag(c) if cls == 'ens' else float(np.max(c['sigma']))
    # a range that has (nearly) all of the probability
    if cls == 'ens':
        lo, hi = float(c['f'].min()) - 0.1 * pad, float(c['f'].max()) + 0.1 * pad
    elif cls == 'gauss':
        lo, hi = float(np.min(c['mu'] - 8 * c['sigma'])), float(np.max(c['mu'] + 8 * c['sigma']))
    elif cls == 'gamma':
        lo, hi = float(np.min(c['shift'])) - 0.1 * pad, float(np.max(c['mu'] + 25 * c['sigma'] + 12 * c['sigma'] ** 2 / c['unshifted_mu']))
    else:
        lo, hi = -0.1 * pad, float(np.max(c['mu'] + 25 * c['sigma'] + 12 * c['sigma'] ** 2 / c['mu']))
    wd = ctx.fresh_dir()
    ctx.env(tqdm_workers=c['workers'], integrate_with_less_memory=c['less'], integrate_wdir=wd, integrate_range_multiplier=c['multi'])
    fakeray.harness_schedule([3, 1, 4, 1, 5, 9, 2, 6])
    rng = (lo, hi)
    if c['default']:
        a, b = float(c['o'].min()), float(c['o'].max())
        la, lb = a - c['multi'] * (b - a), b + c['multi'] * (b - a)
        if la <= lo and lb >= hi:
            rng, lo, hi = None, la, lb
    ctx.label('default range' if rng is None else 'given range')
    nb = c['bins']
    dx = (hi - lo) / (nb - 1)
    v = ver.build(c)
    if cls == 'hurdle' and c['api']:
        v.set_bins(nb)
        v.integration_range = None
        if rng is not None:
            v.set_integration_range(lo, hi)
        m, s = v.f_determ(), v.variance()
    else:
        m = Integration(v, integration_range=rng, nbins=nb).mean()
        s = Integration(v, integration_range=rng, nbins=nb).variance()
    big = max(abs(lo), abs(hi))
    if cls == 'hurdle' and rng is None:
        # nothing below zero: the default range may be cut there, and then starts at the point mass at zero,
        # which contributes nothing to either moment
        big = hi
    need(np.shape(m) == c['o'].shape and np.shape(s) == c['o'].shape, 'shapes {} {}', np.shape(m), np.shape(s))
    need(np.all(np.abs(m - mean) <= 0.5 * dx + 1e-5 * big), 'mean {} instead of {} with bins of {}', m, mean, dx)
    tol = dx * big + 2 * (np.abs(mean) + dx) * 0.5 * dx + 1e-5 * big ** 2
    need(np.all(np.abs(s - var) <= tol), 'variance {} instead of {} with bins of {}', s, var, dx)
    # fine bins: the second order error dx^2/6 of the rule for smooth distributions
    if cls in ('gauss',) and dx < 0.5 * float(c['sigma'].min()):
        need(np.all(np.abs(m - mean) <= 1e-4 * big + 0.02 * dx), 'mean {} instead of {}', m, mean)
        need(np.all(np.abs(s - var) <= 1.2 * dx ** 2 + 1e-4 * big ** 2), 'variance {} instead of {}', s, var)
    need(os.listdir(wd) == [], 'files left behind: {}', os.listdir(wd))


class Broken(RuntimeError):
    pass


class Stopped(KeyboardInterrupt):
    pass


class Full(OSError):
    pass


class Memory(MemoryError):
    pass


class Quit(SystemExit):
    pass


FAULTS = {k.__name__: k for k in (Broken, Stopped, Full, Memory, Quit)}


def gen_fault(d):
    cls = d.pick(['hurdle', 'gauss', 'ens'])
    c = ver.gen(d, cls, d.shape(1, 2, 3, min_size=2, max_size=9))
    c['bins'] = d.int(2, 8)
    c['at'] = d.int(0, 9)
    c['what'] = d.pick(['mean', 'variance', 'crps'])
    c['less'] = d.bool()
    c['workers'] = d.pick([1, 1, 2, 3])
    c['order'] = [d.int(0, 9) for _ in range(4)]
    c['disable'] = d.pick(['True', 'False', '1', '0'])
    c['nodir'] = d.int(0, 7) == 0
    c['fault'] = d.often(*FAULTS)
    c['again'] = d.bool()
    return c


def check_fault(c, ctx):
    wd = ctx.fresh_dir()
    ctx.env(tqdm_workers=c['workers'], integrate_with_less_memory=c['less'], tqdm_disable=c['disable'])
    mdir = os.path.join(wd, 'gone') if c['nodir'] else wd
    before = {k: v for k, v in os.environ.items() if k.startswith('pyanen_')}
    files = sorted(os.listdir('.'))
    v = ver.build(c)
    fakeray.harness_schedule(c['order'])
    xs = np.linspace(-1., 9., c['bins'])
    bad = float(xs[c['at'] % c['bins']])
    real = v.cdf

    def cdf(over=None, below=None, **kw):
        if below is not None and np.all(np.abs(below - bad) < 1e-9):
            raise FAULTS[c['fault']]('injected')
        return real(over=over, below=below, **kw)

    if c['at'] < 8:
        v.cdf = cdf
    failed = False
    integration = Integration(v, integration_range=(-1., 9.), nbins=c['bins'], memmap_dir=mdir)
    try:
        r = getattr(integration, c['what'])()
    except tuple(FAULTS.values()):
        failed = True
        ctx.label(c['fault'])
    except Exception as e:
        if not c['nodir']:
            raise
        failed = True
    ctx.label('failed' if failed else 'completed')
    ctx.trivial = not failed
    after = {k: x for k, x in os.environ.items() if k.startswith('pyanen_')}
    for k in before:
        same = after.get(k) == before[k] or {after.get(k), before[k]} in ({'True', '1'}, {'False', '0'})
        need(same, 'setting {} is {} after the integration, it was {}', k, after.get(k), before[k])
    need(sorted(after) == sorted(before), 'settings appeared or disappeared')
    need(os.listdir(wd) == [], 'files left behind: {}', os.listdir(wd))
    need(sorted(os.listdir('.')) == files, 'files appeared in the current folder')
    need(not fakeray.harness_state()['on'], 'Ray is left running')
    # and the next integration is right
    v.__dict__.pop('cdf', None)
    a = getattr(Integration(v, integration_range=(-1., 9.), nbins=c['bins'], memmap_dir=wd), c['what'])()
    ctx.env(tqdm_workers=1, integrate_with_less_memory='False')
    b = getattr(Integration(ver.build(c), integration_range=(-1., 9.), nbins=c['bins']), c['what'])()
    need_close(a, b, 'integration after a failure', rtol=1e-9, atol=1e-9)
    if c['again'] and not c['nodir'] and c['workers'] == 1:
        need_close(getattr(integration, c['what'])(), b, 'the same integration after a failure', rtol=1e-9, atol=1e-9)
        need(os.listdir(wd) == [], 'files left behind: {}', os.listdir(wd))


def gen_saved(d):
    c = ver.gen(d, 'hurdle', d.shape(1, 2, 3, min_size=2, max_size=9))
    c['bins'] = d.int(2, 8)
    c['at'] = d.int(0, 9)
    c['what'] = d.pick(['f_determ', 'variance', 'crps', 'error', 'sq_error', 'ab_error', 'binned_spread_skill'])
    c['less'] = d.bool()
    c['workers'] = d.pick([1, 1, 2])
    c['order'] = [d.int(0, 9) for _ in range(4)]
    c['fault'] = d.often(*FAULTS)
    c['file'] = d.bool()
    return c


def check_saved(c, ctx):
    # metrics of a verifier that saves: the failing evaluation is inside, nothing of it may be found later
    wd = ctx.fresh_dir()
    ctx.env(tqdm_workers=c['workers'], integrate_with_less_memory=c['less'])
    fakeray.harness_schedule(c['order'])
    c = dict(c, nbins=c['bins'], irange=(-1., 9.))
    args = (2,) if c['what'] == 'binned_spread_skill' else ()
    v = ver.build(c, working_directory=wd, start_from_scratch=False)
    bad = float(np.linspace(-1., 9., c['bins'])[c['at'] % c['bins']])
    real = v.cdf

    def cdf(over=None, below=None, **kw):
        if below is not None and np.all(np.abs(below - bad) < 1e-9):
            raise FAULTS[c['fault']]('injected')
        return real(over=over, below=below, **kw)

    v.cdf = cdf
    failed = False
    try:
        getattr(v, c['what'])(*args)
    except tuple(FAULTS.values()):
        failed = True
    ctx.trivial = not failed
    v.__dict__.pop('cdf', None)
    need(not fakeray.harness_state()['on'], 'Ray is left running')
    need(not [x for x in os.listdir(wd) if not x.endswith('.pkl')], 'files left behind: {}', os.listdir(wd))
    if c['file']:
        v = ver.build(c, working_directory=wd, start_from_scratch=False)
    a = getattr(v, c['what'])(*args)
    ctx.env(tqdm_workers=1, integrate_with_less_memory='False')
    b = getattr(ver.build(c), c['what'])(*args)
    for x, y in zip(a, b) if isinstance(a, tuple) else [(a, b)]:
        need_close(x, y, '{} after a failure, with saving'.format(c['what']), rtol=1e-9, atol=1e-9)


def known_flat(ctx):
    o = np.array([2., 2.])
    v = PyAnEn.VerifyProbGammaHurdle({'pop': np.array([.8, .8]), 'mu': np.array([3., 3.]), 'sigma': np.array([1., 1.])}, o, n_approx_bins=100)
    m = v.f_determ()
    need(np.all(np.abs(m - 2.4) < 0.3), 'mean {} instead of 2.4', m)


KNOWN = {'flat-observations': known_flat}

SUBS = [Sub('moments_' + k, lambda d, k=k: gen(d, k), check, 150, 'mean and variance within the error bound of the rule; every case is non-trivial') for k in ('hurdle', 'gauss', 'ens', 'gamma')] + [
    Sub('faults' + str(i), gen_fault, check_fault, 200, 'an exception at a generated call; non-trivial: the integration failed') for i in (1, 2)] + [
    Sub('faults_saved', gen_saved, check_saved, 200, 'the same inside a metric of a verifier that saves; non-trivial: the metric failed')]
