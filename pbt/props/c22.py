"""C22: files: the grid matrix and NetCDF data sets come back as they were written."""
import ast
import os
import re
from decimal import Decimal

import numpy as np
import xarray as xr
from netCDF4 import Dataset

from PyAnEn import Grid, IO

from ..engine import Sub
from ..gen import need, need_close

ASSUMPTIONS = ['dask is not installed: several files are opened with parallel=False and without chunks']


# ---------------------------------------------------------------- the grid matrix

def gen_mat(d):
    r, c = d.int(1, 6), d.int(1, 6)
    if d.int(0, 11) == 0:
        r, c = d.pick([(1, 1200), (1200, 1), (70, 40), (3, 501), (1001, 2)])
    kind = d.pick(['cont', 'int', 'wide', 'wide', 'long'])
    m = d.arr((r, c), -1e3, 1e3, 'cont')
    if kind == 'int':
        m = np.floor(m)
    if kind == 'long':
        # integers beyond the precision of floating-point numbers
        m = (m * 1e3).astype('int64') * 10 ** d.int(9, 12) + d.int(0, 10 ** 6)
    if kind == 'wide':
        m = m * 10. ** (np.floor(d.arr((r, c), -12, 12, 'int'))) / 3.
    if d.int(0, 3) == 0 and kind != 'long':
        m = np.where(d.arr((r, c), 0., 1., 'cont') < 0.2, np.nan, m)
    return {'m': m, 'dtype': 'same' if kind == 'long' else d.pick(['float64', 'float64', 'float32', 'int64', 'int32', 'uint8', 'float16']), 'layout': d.pick(['C', 'F', 'T']),
            'exists': d.bool(), 'over': d.bool(), 'old': d.pick(['', 'x' * 5000, '[1, 1]\n(\n(7),\n)'])}


def parse(text):
    """The form PAnEn and DeepAnalogs read: dimensions, then rows in parentheses."""
    m = re.match(r'^\[(\d+), (\d+)\]\n\(\n((?:\([^()\n]*\),\n)*)\)\s*$', text)
    need(m is not None, 'the file does not have the form of a matrix: {}', text[:300])
    rows = [[x for x in line[1:-2].split(', ')] for line in m.group(3).splitlines()]
    return int(m.group(1)), int(m.group(2)), rows


def check_mat(c, ctx):
    m = c['m']
    if c['dtype'] in ('float16', 'float32'):
        with np.errstate(all='ignore'):
            m = np.clip(m, -6e4, 6e4).astype(c['dtype']) if c['dtype'] == 'float16' else m.astype(c['dtype'])
    elif c['dtype'] == 'uint8':
        m = np.nan_to_num(np.clip(m, 0, 255)).astype('uint8')
    elif c['dtype'] not in ('float64', 'same'):
        m = np.nan_to_num(np.clip(m, -2e9, 2e9)).astype(c['dtype'])
    if c['layout'] == 'F':
        m = np.asfortranarray(m)
    elif c['layout'] == 'T':
        m = np.ascontiguousarray(m.T).T
    p = os.path.join(ctx.fresh_dir(), 'grid.txt')
    if c['exists']:
        with open(p, 'w') as f:
            f.write(c['old'])
        if not c['over']:
            ctx.label('refused')
            try:
                Grid.write_matrix(p, m)
            except Exception:
                need(open(p).read() == c['old'], 'an existing file changed although overwriting was refused')
                return
            need(False, 'an existing file was overwritten')
    keep = m.copy()
    r = Grid.write_matrix(p, m, overwrite=c['over'])
    need(r is True, 'returned {}', r)
    need(np.array_equal(m, keep, equal_nan=True), 'the matrix changed')
    nr, nc, rows = parse(open(p).read())
    need((nr, nc) == m.shape, 'dimensions {} instead of {}', (nr, nc), m.shape)
    need(len(rows) == nr and all(len(x) == nc for x in rows), 'rows of other lengths')
    if m.dtype.kind in 'iu':
        need(all(Decimal(x) == int(m[i, j]) for i, row in enumerate(rows) for j, x in enumerate(row)), 'read back {} instead of {}', rows, m)
    else:
        need_close(np.array(rows, float).astype(m.dtype).astype(float), m.astype(float), 'matrix read back', rtol=0, atol=0)
    need(sorted(os.listdir(os.path.dirname(p))) == ['grid.txt'], 'other files')


def check_mat_bad(c, ctx):
    p = os.path.join(ctx.fresh_dir(), 'grid.txt')
    try:
        Grid.write_matrix(p, c['m'])
    except Exception:
        need(not os.path.exists(p), 'a file appeared although the matrix was rejected')
        return
    need(False, 'an array of {} dimensions was written', c['m'].ndim)


def gen_mat_bad(d):
    nd = d.pick([1, 3, 4])
    return {'m': d.arr(tuple(d.int(1, 3) for _ in range(nd)), 0., 9.)}


# ---------------------------------------------------------------- NetCDF

NAMES = ['Temperature', 'U', 'wind 10m', 'Precip_24h', 'x' * 19, 'a', '', 'P-1.5', 'ab']


def gen_nc(d, analogs=None):
    return {'analogs': d.bool() if analogs is None else analogs, 'group': d.pick([None, 'Sub', 'a/b']), 'nt': d.int(1, 4), 'ns': d.often(d.int(1, 4), 30), 'nf': d.int(1, 3),
            'names': [d.pick(NAMES) for _ in range(d.int(1, 4))], 'snames': [d.pick(NAMES) for _ in range(4)],
            'chars': d.int(19, 24), 'pad': d.pick(['\0', ' ']), 't0': d.int(0, 2 * 10 ** 9), 'dt': d.pick([3600, 86400, 1]),
            'data': d.arr((4, 4, 4, 3), -50., 50.), 'xs': d.arr((30,), -180., 360., 'cont'), 'ys': d.arr((30,), -90., 90., 'cont'),
            'decode': d.bool(), 'drop': d.pick(['', '', 'FLTs', 'Times', 'ParameterNames']), 'perm': d.perm(4),
            'timeless': d.int(0, 5) == 0, 'both': d.int(0, 5) == 0}


def chars(names, n, pad):
    out = np.full((len(names), n), pad.encode(), 'S1')
    for i, s in enumerate(names):
        for j, ch in enumerate(s):
            out[i, j] = ch.encode()
    return out


def both(c):
    """Analogs that have the times of the forecasts, too."""
    return c['analogs'] and c['both'] and not c['timeless'] and c['drop'] != 'Times'


def tdim(c):
    return [] if c['timeless'] else ['num_test_times' if both(c) else 'num_times']


def check_times(ds, k, t, decoded, units=True):
    need(k in ds, 'no {}', k)
    if decoded:
        need(np.array_equal(ds[k].values.astype('datetime64[s]'), t.astype('datetime64[s]')), '{}: times {}', k, ds[k].values)
    else:
        need(np.array_equal(ds[k].values, t), '{}: times {}', k, ds[k].values)
        if units:
            need(ds[k].attrs.get('units') == 'seconds since 1970-01-01', '{}: units {}', k, ds[k].attrs)


def write(path, c, station0=0, ns=None, coords=True):
    ns = c['ns'] if ns is None else ns
    nt, nf, npar = c['nt'], c['nf'], len(c['names'])
    tname, tvar = ('num_test_times', 'test_times') if c['analogs'] else ('num_times', 'Times')
    root = Dataset(path, 'w')
    g = root if c['group'] is None else root.createGroup(c['group'])
    for h in ([root] if g is root else [root, g]):
        h.createDimension('num_stations', ns)
        h.createDimension('num_flts', nf)
        if not c['timeless']:
            h.createDimension(tname, nt)
        h.createDimension('num_parameters', npar)
        h.createDimension('num_chars', c['chars'])
        if c['analogs']:
            h.createDimension('num_search_times', nt + 1)
        if both(c):
            h.createDimension('num_times', nt + 2)

        def var(name, kind, dims, value):
            if name == c['drop'] and not (h is root and g is not root):
                return
            h.createVariable(name, kind, dims)[:] = value

        var('FLTs', 'i8', ('num_flts',), np.arange(nf) * 3600)
        if not c['timeless']:
            var(tvar, 'i8', (tname,), c['t0'] + np.arange(nt) * c['dt'])
        if both(c):
            var('Times', 'i8', ('num_times',), c['t0'] + 7 + np.arange(nt + 2) * c['dt'])
        if c['analogs']:
            var('search_times', 'i8', ('num_search_times',), c['t0'] - 10 + np.arange(nt + 1))
        var('ParameterNames', 'S1', ('num_parameters', 'num_chars'), chars(c['names'], c['chars'], c['pad']))
        var('StationNames', 'S1', ('num_stations', 'num_chars'), chars([c['snames'][i % 4] for i in range(ns)], c['chars'], c['pad']))
        if coords or h is root:
            xs = np.resize(c['xs'], ns) + 1000. * station0
            ys = np.resize(c['ys'], ns) - 1000. * station0
            var('Xs', 'f8', ('num_stations',), xs)
            var('Ys', 'f8', ('num_stations',), ys)
        data = np.resize(c['data'], (npar, ns, nt, nf)) + station0
        if c['timeless']:
            var('Data', 'f8', ('num_parameters', 'num_stations', 'num_flts'), data[:, :, 0])
        else:
            var('Data', 'f8', ('num_parameters', 'num_stations', tname, 'num_flts'), data)
    root.close()
    return data[:, :, 0] if c['timeless'] else data


def text(c, names):
    return [s + c['pad'] * (c['chars'] - len(s)) if c['pad'] == ' ' else s for s in names]


def check_nc(c, ctx):
    p = os.path.join(ctx.fresh_dir(), 'x.nc')
    data = write(p, c)
    before = open(p, 'rb').read()
    ds = IO.open_dataset(p, group=c['group'], decode=c['decode'])
    ctx.label('analogs' if c['analogs'] else 'forecasts')
    try:
        need(('num_times' in ds.dims) == (not c['timeless']) and ('num_test_times' in ds.dims) == both(c), 'dimensions {}', dict(ds.sizes))
        sizes = {'num_stations': c['ns'], 'num_flts': c['nf'], 'num_parameters': len(c['names'])}
        for k, n in sizes.items():
            need(ds.sizes[k] == n, '{} is {} instead of {}', k, ds.sizes[k], n)
        need(set(ds['Data'].dims) == {'num_parameters', 'num_stations', 'num_flts'} | set(tdim(c)), 'dimensions {}', ds['Data'].dims)
        v = ds['Data'].transpose('num_parameters', 'num_stations', *tdim(c), 'num_flts')
        need_close(v.values, data, 'data', rtol=0, atol=0)
        need_close(ds['Xs'].values, c['xs'][:c['ns']], 'x', rtol=0, atol=0)
        need_close(ds['Ys'].values, c['ys'][:c['ns']], 'y', rtol=0, atol=0)
        need(ds['StationNames'].dims == ('num_stations',), 'station names have dimensions {}', ds['StationNames'].dims)
        need([str(x) for x in ds['StationNames'].values] == text(c, [c['snames'][i % 4] for i in range(c['ns'])]), 'station names {}', ds['StationNames'].values)
        if c['drop'] != 'ParameterNames':
            for k in ('ParameterNames', 'num_parameters'):
                need([str(x) for x in ds[k].values] == text(c, c['names']), '{} {} instead of {}', k, ds[k].values, c['names'])
            need('num_parameters' in ds.coords, 'no coordinate for parameters')
        if c['drop'] != 'FLTs':
            need('num_flts' in ds.coords, 'no coordinate for lead times')
            need(np.array_equal(np.asarray(ds['num_flts'].values).astype(np.int64), np.arange(c['nf']) * 3600), 'lead times {}', ds['num_flts'].values)
        tvar = 'test_times' if c['analogs'] else 'Times'
        if c['drop'] != tvar and not c['timeless']:
            need(tdim(c)[0] in ds.coords, 'no coordinate for times')
            for k in (tdim(c)[0], tvar):
                check_times(ds, k, c['t0'] + np.arange(c['nt']) * c['dt'], c['decode'])
        if both(c):
            for k in ('num_times', 'Times'):
                check_times(ds, k, c['t0'] + 7 + np.arange(c['nt'] + 2) * c['dt'], c['decode'])
        if c['analogs']:
            s = c['t0'] - 10 + np.arange(c['nt'] + 1)
            for k in ('search_times', 'num_search_times'):
                x = ds[k].values
                x = x.astype('datetime64[s]').astype(np.int64) if np.issubdtype(x.dtype, np.datetime64) else x
                need(np.array_equal(x, s), '{}: {}', k, ds[k].values)
    finally:
        ds.close()
    x, y = Grid.read_station_coordinates(p, group=c['group'])
    need_close(x, c['xs'][:c['ns']], 'station x', rtol=0, atol=0)
    need_close(y, c['ys'][:c['ns']], 'station y', rtol=0, atol=0)
    x, y = Grid.read_station_coordinates(p, group=c['group'], var_x='Ys', var_y='Xs')
    need_close(x, c['ys'][:c['ns']], 'station x by name', rtol=0, atol=0)
    need_close(y, c['xs'][:c['ns']], 'station y by name', rtol=0, atol=0)
    if c['nf'] != c['ns'] and c['drop'] != 'FLTs':
        try:
            x, y = Grid.read_station_coordinates(p, group=c['group'], var_y='FLTs')
        except Exception:
            x = None
        need(x is None, 'coordinates of different lengths were accepted: {} and {}', c['ns'], c['nf'])
    need(open(p, 'rb').read() == before, 'the file changed')


def gen_mf(d):
    c = gen_nc(d)
    c['drop'] = ''
    k = d.often(d.int(1, 4), 12)
    rest, ranks = [0, 1, 2, 3, 9, 10, 11, 19, 20, 21, 99, 100, 101, 999, 1000], []
    for _ in range(k):
        ranks.append(rest.pop(d.int(0, len(rest) - 1)))
    c.update(ranks=ranks, sizes=[d.often(d.int(1, 4), 12, d.pick([130, 270])) for _ in range(k)], coords=d.bool(), how=d.pick(['glob', 'list', 'reversed', 'home', 'home list']),
             zero=d.pick(['', '00000']))
    return c


def no_chunks(f):
    def g(*a, **kw):
        kw.pop('chunks', None)
        return f(*a, **kw)
    return g


def check_mf(c, ctx):
    """Files of MPI ranks: stations in the order of the ranks, everything about a station together."""
    home = c['how'].startswith('home')
    wd = ctx.fresh_dir() if not home else os.path.join(os.environ['HOME'], 'mf{}'.format(sum(c['ranks'])))
    if home:
        import shutil
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
    paths, data = [], {}
    for r, n in zip(c['ranks'], c['sizes']):
        p = os.path.join(wd, 'AnEn_Rank{}{}.nc'.format(c['zero'] if c['zero'] and r < 10 else '', r))
        data[r] = write(p, c, station0=r, ns=n, coords=c['coords'])
        paths.append(p)
    real = xr.open_mfdataset.__globals__['open_dataset']
    xr.open_mfdataset.__globals__['open_dataset'] = no_chunks(real)
    try:
        if c['how'] == 'glob':
            arg = os.path.join(wd, '*.nc')
        elif c['how'] == 'home':
            arg = os.path.join('~', os.path.relpath(wd, os.environ['HOME']), '*.nc')
        elif home:
            arg = [os.path.join('~', os.path.relpath(p, os.environ['HOME'])) for p in paths]
        else:
            arg = list(reversed(paths)) if c['how'] == 'reversed' else list(paths)
        ds = IO.open_mfdataset(arg, group=c['group'], parallel=False, decode=c['decode'])
        try:
            order = sorted(c['ranks'])
            want = np.concatenate([data[r] for r in order], axis=1)
            v = ds['Data'].transpose('num_parameters', 'num_stations', *tdim(c), 'num_flts').values
            need_close(v, want, 'data of the ranks {}'.format(order), rtol=0, atol=0)
            size = dict(zip(c['ranks'], c['sizes']))
            xs = np.concatenate([np.resize(c['xs'], size[r]) + 1000. * r for r in order])
            ys = np.concatenate([np.resize(c['ys'], size[r]) - 1000. * r for r in order])
            need_close(ds['Xs'].values, xs, 'x of the stations of the ranks {}'.format(order), rtol=0, atol=0)
            need_close(ds['Ys'].values, ys, 'y of the stations of the ranks {}'.format(order), rtol=0, atol=0)
            sc = ds['num_stations'].values
            need(np.all(np.diff(sc) > 0), 'station index {} is not increasing', sc)
            need(np.array_equal(np.floor(sc).astype(int), np.concatenate([[r] * size[r] for r in order])), 'station index {}', sc)
            if not c['timeless']:
                check_times(ds, 'test_times' if c['analogs'] else 'Times', c['t0'] + np.arange(c['nt']) * c['dt'], c['decode'])
                if c['analogs']:
                    need(tdim(c)[0] in ds.coords, 'no coordinate for times')
                    check_times(ds, tdim(c)[0], c['t0'] + np.arange(c['nt']) * c['dt'], c['decode'])
            need('num_flts' in ds.coords and np.array_equal(ds['num_flts'].values, np.arange(c['nf']) * 3600), 'lead times {}', ds.coords)
        finally:
            ds.close()
    finally:
        xr.open_mfdataset.__globals__['open_dataset'] = real
    ctx.trivial = len(c['ranks']) < 2


SUBS = [Sub('matrix', gen_mat, check_mat, 1200, 'written matrices are parsed; every case is non-trivial'),
        Sub('not_matrix', gen_mat_bad, check_mat_bad, 60, 'every case is non-trivial'),
        Sub('one_file', gen_nc, check_nc, 400, 'every case is non-trivial'),
        Sub('rank_files', gen_mf, check_mf, 150, 'non-trivial: at least two files')]
