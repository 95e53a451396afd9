"""C27: the environment settings do what they are documented to do."""
import contextlib
import importlib
import io
import os
import sys

import numpy as np

import PyAnEn
from PyAnEn.utils_approximation import Integration
from PyAnEn.utils_special_boot import brier_decomp, corr
from PyAnEn.utils_ss import binned_spread_skill
from PyAnEn.utils_verify import boot_arr, boot_vec, ens_to_prob_kde, reliability_diagram

from .. import ver
from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['randomness is fixed by the seed of numpy: a setting and the argument of the same meaning then give the same numbers',
               'tensorflow is not installed, so pyanen_use_tensorflow_math stays off']

DOCUMENTED = {'ens_to_prob_method': 'moments', 'kde_bandwidth': 0.01, 'kde_kernel': 'gaussian', 'kde_samples': 1000, 'kde_multiply_spread': 5,
              'boot_confidence': 0.95, 'boot_repeats': 1000, 'boot_samples': 300, 'tqdm_disable': True, 'tqdm_leave': False, 'tqdm_workers': 1,
              'tqdm_map_axis': -1, 'tqdm_chunksize': 1, 'use_tensorflow_math': False, 'skip_nan': False, 'split_crps_ensemble_along_0': False,
              'integrate_range_multiplier': 5, 'integrate_with_less_memory': False, 'integrate_wdir': ''}
VALUES = {'ens_to_prob_method': ['kde', 'moments'], 'kde_bandwidth': ['0.5', '2', '1e-3'], 'kde_kernel': ['tophat', 'linear'], 'kde_samples': ['50', '7'],
          'kde_multiply_spread': ['1', '3'], 'boot_confidence': ['0.5', '.9'], 'boot_repeats': ['10'], 'boot_samples': ['3'],
          'tqdm_disable': ['False', '1', 'no'], 'tqdm_leave': ['True', '0'], 'tqdm_workers': ['4'], 'tqdm_map_axis': ['-2'], 'tqdm_chunksize': ['9'],
          'use_tensorflow_math': ['0', 'False'], 'skip_nan': ['True', 'yes'], 'split_crps_ensemble_along_0': ['1'],
          'integrate_range_multiplier': ['2'], 'integrate_with_less_memory': ['on'], 'integrate_wdir': ['/somewhere/else', '~/x y']}
TRUE, FALSE = ['True', 'true', 'TRUE', '1', 'yes', 'Y', 'on', 't'], ['False', 'false', 'FALSE', '0', 'no', 'N', 'off', 'f']


def gen_import(d):
    return {'set': {k: d.pick(v) for k, v in VALUES.items() if d.int(0, 2) == 0}, 'other': d.bool()}


def alike(a, b):
    """The same setting, however it is written."""
    if isinstance(b, bool):
        return a in (TRUE if b else FALSE)
    if isinstance(b, (int, float)):
        return float(a) == b
    return a == b


def check_import(c, ctx):
    """A setting that is already there when the package is imported stays; the others get their defaults."""
    keep_env, keep_mod = dict(os.environ), {k: m for k, m in sys.modules.items() if k == 'PyAnEn' or k.startswith('PyAnEn.')}
    ctx.trivial = not c['set']
    try:
        for k in list(os.environ):
            if k.startswith('pyanen_'):
                del os.environ[k]
        for k, v in c['set'].items():
            os.environ['pyanen_' + k] = v
        if c['other']:
            os.environ['pyanen_something'] = 'x'
        before = dict(os.environ)
        for k in keep_mod:
            del sys.modules[k]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            m = importlib.import_module('PyAnEn')
        need(out.getvalue() == '', 'importing prints {}', out.getvalue())
        for k, v in before.items():
            need(os.environ.get(k) == v, 'importing changed the setting {} from {} to {}', k, v, os.environ.get(k))
        for k, v in DOCUMENTED.items():
            if k not in c['set']:
                got = os.environ.get('pyanen_' + k)
                need(got is not None and alike(got, v), 'the default of {} is {} instead of {}', k, got, v)
        new = set(os.environ) - set(before) - {'pyanen_' + k for k in DOCUMENTED}
        need(not [k for k in new if k.startswith('pyanen_') and k[7:] in VALUES], 'other settings appeared: {}', new)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            m.print_settings()
        for k in DOCUMENTED:
            k = 'pyanen_' + k
            line = [x for x in out.getvalue().splitlines() if "'{}'".format(k) in x]
            need(len(line) == 1, 'print_settings shows {} {} times', k, len(line))
            need(line[0].strip() == "os.environ['{}'] = '{}'".format(k, os.environ[k]), 'print_settings shows {} but the setting is {}', line[0], os.environ[k])
    finally:
        for k in [k for k in sys.modules if k == 'PyAnEn' or k.startswith('PyAnEn.')]:
            del sys.modules[k]
        sys.modules.update(keep_mod)
        os.environ.clear()
        os.environ.update(keep_env)


# ---------------------------------------------------------------- when settings are read

def gen_late(d):
    cls = d.pick(['ens', 'ens', 'gauss', 'hurdle', 'determ'])
    c = ver.gen(d, cls, d.shape(2, 3, 4, min_size=4, max_size=20), **({'members': d.int(2, 5), 'kind': 'cont'} if cls == 'ens' else {}))
    c['axis'] = d.axis(c['o'].ndim)
    c['ob'] = ver.over_below(d, c)
    c['hole'] = d.arr(c['o'].shape, 0., 1., 'cont') < d.pick([0., 0.2])

    def some():
        s = {'boot_confidence': d.pick(['0.5', '0.9']), 'boot_repeats': d.pick(['5', '20']), 'skip_nan': d.pick(TRUE + FALSE),
             'integrate_range_multiplier': d.pick(['1', '2', '7']), 'split_crps_ensemble_along_0': d.pick(TRUE + FALSE),
             'ens_to_prob_method': d.pick(['moments', 'kde']), 'kde_bandwidth': d.pick(['0.7', '3']), 'kde_kernel': d.pick(['gaussian', 'epanechnikov']),
             'kde_samples': d.pick(['20', '60']), 'kde_multiply_spread': d.pick(['1', '2']), 'tqdm_leave': d.pick(TRUE + FALSE)}
        return {k: v for k, v in s.items() if d.bool()}

    c['a'], c['b'] = some(), some()
    c['boot'] = d.pick([None, None, 9])
    if 'irange' in c:
        c['irange'] = None
    c['seed'] = d.int(0, 10 ** 6)
    return c


def metrics(c, v):
    ob = c['ob']
    names = ['error', 'sq_error', 'corr', 'crps', 'cdf', 'brier', 'f_determ', 'variance', 'spread']
    if c['cls'] == 'determ':
        names = ['error', 'ab_error', 'corr']
    out = {}
    for m in names:
        if m in ('spread',) and c['cls'] != 'ens':
            continue
        np.random.seed(c['seed'])
        try:
            out[m] = np.asarray(getattr(v, m)(**(ob if m in ('cdf', 'brier') else {})), float)
        except Exception as e:
            out[m] = type(e).__name__
    return out


def check_late(c, ctx):
    """Settings count when a metric is computed, not when the verifier was made."""
    c = dict(c, o=np.where(c['hole'], np.nan, c['o'])) if c['cls'] != 'hurdle' and not c['hole'].all() else c
    if c['cls'] == 'hurdle' and np.ptp(c['o']) == 0:
        ctx.trivial = True
        return
    ctx.env(boot_repeats=8, kde_samples=30)
    base = {k: os.environ['pyanen_' + k] for k in DOCUMENTED}
    kw = {'avg_axis': c['axis'], 'boot_samples': c['boot']}
    ctx.env(**c['a'])
    v = ver.build(c, **kw)
    first = metrics(c, v)
    ctx.env(**base)
    ctx.env(**c['b'])
    got = metrics(c, v)
    want = metrics(c, ver.build(c, **kw))
    for m in want:
        if isinstance(want[m], str) or isinstance(got[m], str):
            need(got[m] is want[m] or got[m] == want[m] if isinstance(got[m], str) and isinstance(want[m], str) else False,
                 '{}: {} with changed settings, {} for a new verifier', m, got[m], want[m])
        else:
            need_close(got[m], want[m], '{} after the settings changed from {} to {}'.format(m, c['a'], c['b']), rtol=1e-12, atol=1e-13)
    # and back
    ctx.env(**base)
    ctx.env(**c['a'])
    again = metrics(c, v)
    for m in first:
        if not isinstance(first[m], str):
            need_close(again[m], first[m], '{} after the settings changed back to {}'.format(m, c['a']), rtol=1e-12, atol=1e-13)
    ctx.trivial = not any(isinstance(want[m], str) != isinstance(first[m], str) or
                          (not isinstance(first[m], str) and not np.array_equal(first[m], want[m], equal_nan=True)) for m in want)


# ---------------------------------------------------------------- arguments and settings

def gen_args(d):
    n = d.int(4, 12)
    return {'x': d.arr((2, n), 0., 9., 'cont'), 'y': d.arr((2, n), 0., 9., 'cont'), 'p': d.arr((2, n), 0.01, 0.99, 'cont'), 'e': d.arr((2, n), 0, 1, 'cont') < 0.5,
            'hole': d.arr((2, n), 0., 1., 'cont') < d.pick([0., 0.1]),
            'samples': d.pick([4, 11, 30]), 'repeats': d.pick([6, 25]), 'conf': d.pick([0.3, 0.6, 0.9]), 'skip': d.bool(),
            'o_samples': d.pick([5, 12]), 'o_repeats': d.pick([7, 13]), 'o_conf': d.pick([0.45, 0.8]), 'seed': d.int(0, 10 ** 6),
            'bw': d.pick([0.2, 1., 4.]), 'kernel': d.pick(['gaussian', 'tophat', 'cosine']), 'ks': d.pick([15, 40]), 'mult': d.pick([1, 2, 6]),
            't': d.f(0., 12.), 'what': d.pick(['boot_vec', 'boot_arr', 'corr', 'brier_decomp', 'ss', 'reliability', 'kde'])}


def check_args(c, ctx):
    """An argument wins over the setting, and a setting over nothing: both ways give the same result."""
    ctx.label(c['what'])
    boot = {'repeats': c['repeats'], 'confidence': c['conf']}
    env = {'boot_samples': c['samples'], 'boot_repeats': c['repeats'], 'boot_confidence': c['conf']}
    other = {'boot_samples': c['o_samples'], 'boot_repeats': c['o_repeats'], 'boot_confidence': c['o_conf']}
    ctx.trivial = all(env[k] == other[k] for k in env)
    w, x, y, n = c['what'], c['x'], c['y'], c['samples']
    skip = False
    if w == 'boot_vec':
        f = lambda **k: boot_vec(x[0], **k)
        boot['n_samples'] = n
    elif w == 'boot_arr':
        f = lambda **k: boot_arr(x, (1,), **k)
        boot['n_samples'] = n
    elif w == 'kde':
        env = {'kde_bandwidth': c['bw'], 'kde_kernel': c['kernel'], 'kde_samples': c['ks'], 'kde_multiply_spread': c['mult']}
        other = {'kde_bandwidth': 0.33, 'kde_kernel': 'linear', 'kde_samples': 23, 'kde_multiply_spread': 4}
        boot = {'bandwidth': c['bw'], 'kernel': c['kernel'], 'samples': c['ks'], 'spread_multiplier': c['mult']}
        f = lambda **k: ens_to_prob_kde(np.concatenate([[c['t']], x[0]]), **k)
        ctx.trivial = False
    else:
        skip = c['skip']
        if skip:
            y = np.where(c['hole'], np.nan, y)
            e = np.where(c['hole'], np.nan, c['e'].astype(float))
        else:
            e = c['e'].astype(float)
        env['skip_nan'], other['skip_nan'], boot['skip_nan'] = skip, not skip, skip
        if w == 'corr':
            f = lambda **k: corr(x, y, (1,), n, **k)
        elif w == 'brier_decomp':
            f = lambda **k: np.array(brier_decomp(c['p'], e, (1,), n, **k))
        elif w == 'ss':
            f = lambda **k: np.array(binned_spread_skill(x, y, 2, (1,), n, **k))
        else:
            f = lambda **k: [np.array(z, float) for z in reliability_diagram(c['p'].ravel(), e.ravel(), 3, None, n, **k)]
    ctx.env(**env)
    np.random.seed(c['seed'])
    by_env = f()
    ctx.env(**other)
    np.random.seed(c['seed'])
    by_arg = f(**boot)
    for a, b in zip(by_arg if isinstance(by_arg, list) else [by_arg], by_env if isinstance(by_env, list) else [by_env]):
        need_close(a, b, '{}: arguments {} against the same settings'.format(w, boot), rtol=1e-12, atol=1e-14)


def gen_range(d):
    cls = d.pick(['gauss', 'tgauss', 'gamma', 'hurdle', 'ens'])
    c = ver.gen(d, cls, d.shape(1, 2, 4, min_size=2, max_size=8))
    c = ver.units(d, c)
    c['bins'] = d.int(2, 30)
    c['m'] = d.pick([1, 2, 3, 5, 9])
    c['what'] = d.pick(['mean', 'variance', 'crps'])
    if 'irange' in c:
        c['irange'] = None
    return c


def check_range(c, ctx):
    """The default range of an integration: the observations, extended on both sides by a multiple of their range."""
    lo, hi = float(c['o'].min()), float(c['o'].max())
    if hi - lo <= 1e-6 * ver.mag(c):
        ctx.trivial = True
        return
    ctx.env(integrate_range_multiplier=c['m'])
    v = ver.build(c)
    a, b = lo - c['m'] * (hi - lo), hi + c['m'] * (hi - lo)
    if c['cls'] == 'hurdle':
        a = max(a, 0.)
    got = getattr(Integration(v, nbins=c['bins']), c['what'])()
    ctx.env(integrate_range_multiplier=4)
    want = getattr(Integration(v, integration_range=(a, b), nbins=c['bins']), c['what'])()
    need_close(got, want, '{} with the default range and multiplier {}'.format(c['what'], c['m']), rtol=1e-8, atol=1e-9 * ver.mag(c) ** (2 if c['what'] == 'variance' else 1))


# ---------------------------------------------------------------- spellings

def gen_spell(d):
    c = ver.gen(d, 'ens', d.shape(2, 3, 4, min_size=2, max_size=20), members=d.int(2, 4))
    c['hole'] = d.arr(c['o'].shape, 0., 1., 'cont') < 0.2
    c['axis'] = d.axis(c['o'].ndim)
    c['on'] = d.bool()
    c['spell'] = [d.pick(TRUE if c['on'] else FALSE) for _ in range(3)]
    c['bad'] = d.pick(['', 'maybe', '2', 'None', 'nope', '-1'])
    c['method'] = d.pick(['Moments', 'KDE', 'mean', '', 'ecdf'])
    c['workers'] = d.pick([1, 1, 1, 2])
    return c


def check_spell(c, ctx):
    o = np.where(c['hole'], np.nan, c['o']) if not c['hole'].all() else c['o']
    v = ver.build(dict(c, o=o), avg_axis=c['axis'])
    ctx.env(skip_nan=bool(c['on']))
    want = [v.error(), v.crps(), v.corr()]
    for s in c['spell']:
        ctx.env(skip_nan=s, split_crps_ensemble_along_0=s, tqdm_leave=s)
        for a, b, n in zip([v.error(), v.crps(), v.corr()], want, ('error', 'crps', 'corr')):
            need_close(a, b, '{} with skip_nan={}'.format(n, s), rtol=1e-10, atol=1e-11)
    ctx.env(skip_nan=c['bad'], split_crps_ensemble_along_0='False', tqdm_leave='False')
    for n in ('error', 'corr', 'spread'):
        try:
            r = getattr(v, n)()
        except Exception:
            continue
        need(False, '{} is {} with skip_nan={!r}', n, r, c['bad'])
    ctx.env(skip_nan='False', ens_to_prob_method=c['method'], tqdm_workers=c['workers'])
    for n, f in (('cdf', v.cdf), ('brier', v.brier)):
        try:
            r = f(over=float(c['o'].mean()))
        except Exception:
            continue
        need(False, '{} is {} with the unknown method {!r}', n, r, c['method'])


# ---------------------------------------------------------------- progress bars

def gen_quiet(d):
    cls = d.pick(['ens', 'gauss', 'gamma', 'hurdle'])
    c = ver.gen(d, cls, d.shape(1, 2, 4, min_size=4, max_size=12), **({'members': d.int(2, 4), 'kind': 'cont'} if cls == 'ens' else {}))
    c['ob'] = ver.over_below(d, c)
    c['axis'] = d.pick([None, 0, (0,)])
    c['m'] = d.pick(['brier', 'brier_decomp', 'corr', 'error', 'reliability', 'binned_spread_skill', 'crps', 'rank_hist', 'f_determ', 'cdf'])
    c['boot'] = d.pick([None, 5])
    c['kde'] = cls == 'ens' and d.bool()
    c['less'] = d.bool()
    c['workers'] = d.pick([1, 1, 2])
    return c


def check_quiet(c, ctx):
    """With progress bars off, a metric writes nothing."""
    ctx.env(tqdm_disable='True', boot_repeats=5, tqdm_workers=c['workers'], integrate_with_less_memory=c['less'], integrate_wdir=ctx.fresh_dir())
    if c['kde']:
        w = max(float(np.ptp(c['f'])), 1.)
        ctx.env(ens_to_prob_method='kde', kde_bandwidth=0.2 * w, kde_samples=30)
    v = ver.build(c, avg_axis=c['axis'], boot_samples=c['boot'])
    kw = dict(c['ob']) if c['m'] in ('brier', 'brier_decomp', 'reliability', 'cdf') else {}
    if c['m'] in ('reliability', 'binned_spread_skill'):
        kw['nbins'] = 1
    out, err = io.StringIO(), io.StringIO()
    ctx.label(c['m'])
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            getattr(v, c['m'])(**kw)
        except Exception:
            ctx.trivial = True
    text = out.getvalue() + err.getvalue()
    need(text.strip() == '', '{} wrote {}', c['m'], text[:300])


# ---------------------------------------------------------------- the folder of memory mapped integrations

def gen_wdir(d):
    c = ver.gen(d, 'gauss', d.shape(1, 2, 3, max_size=6))
    c['bins'] = d.int(2, 8)
    c['arg'], c['env'], c['verifier'] = d.bool(), d.bool(), d.bool()
    c['tilde'] = d.bool()
    c['what'] = d.pick(['mean', 'variance', 'crps'])
    return c


def check_wdir(c, ctx):
    """Given as an argument, else as a setting, else the folder of the verifier, else the current one."""
    names = ['arg', 'env', 'verifier', 'cwd']
    dirs = {k: os.path.join(ctx.fresh_dir(), k) for k in names}
    if c['tilde']:
        dirs['env'] = os.path.join(os.environ['HOME'], 'wd_env')
    for p in dirs.values():
        os.makedirs(p, exist_ok=True)
    os.chdir(dirs['cwd'])
    seen = []

    class V(PyAnEn.VerifyProbGaussian):
        def _cdf(self, over=None, below=None):
            seen.append([k for k in names if os.listdir(dirs[k])])
            return super()._cdf(over=over, below=below)

    v = V({'mu': c['mu'], 'sigma': c['sigma']}, c['o'], working_directory=dirs['verifier'] if c['verifier'] else None, start_from_scratch=False)
    ctx.env(integrate_with_less_memory='True', integrate_wdir=('~/wd_env' if c['tilde'] else dirs['env']) if c['env'] else '')
    where = 'arg' if c['arg'] else 'env' if c['env'] else 'verifier' if c['verifier'] else 'cwd'
    ctx.label(where)
    r = getattr(Integration(v, integration_range=(float(c['o'].min()) - 5., float(c['o'].max()) + 5.), nbins=c['bins'], **({'memmap_dir': dirs['arg']} if c['arg'] else {})), c['what'])()
    need(np.shape(r) == c['o'].shape, 'shape {}', np.shape(r))
    for s in seen:
        # the verifier may save its own results in its folder
        need(where in s and not [k for k in s if k not in (where, 'verifier')], 'files in {} instead of {}', s, where)
    for k in names:
        if k != 'verifier':
            need(os.listdir(dirs[k]) == [], 'files left in {}: {}', k, os.listdir(dirs[k]))
    ctx.trivial = not seen


SUBS = [Sub('import', gen_import, check_import, 150, 'settings present or absent when the package is imported; non-trivial: some are present'),
        Sub('late', gen_late, check_late, 250, 'settings changed after a verifier was made; non-trivial: some metric changes'),
        Sub('arguments', gen_args, check_args, 500, 'arguments and settings of the same meaning; non-trivial: the other settings differ'),
        Sub('range', gen_range, check_range, 300, 'default and given ranges; non-trivial: observations differ'),
        Sub('spelling', gen_spell, check_spell, 300, 'spellings of on and off, unknown values; every case is non-trivial'),
        Sub('quiet', gen_quiet, check_quiet, 250, 'no output with progress bars off; non-trivial: the metric is defined'),
        Sub('folder', gen_wdir, check_wdir, 150, 'precedence of folders; every case is non-trivial')]
