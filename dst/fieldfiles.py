"""Field data on disk and in memory for the checks of lazy loading (C10, C16): generated flows on generated time axes,
written as NetCDF files, and the same data as arrays."""
import os

import numpy as np

from . import seams

NX, NY = 17, 11


def spec(rng, dt, small=False):
    """Axes (in steps), files, encoding and reading options of one field set."""
    def axis(lo=None):
        n = rng.choice([3, 3, 4, 5, 6, 8])
        t = [rng.choice([0, 0, 0, -2, 3]) if lo is None else lo]
        for _ in range(n - 1):
            t.append(t[-1] + rng.choice([1, 1, 2, 3, 5]))
        return t

    def cut(n):
        c = sorted(rng.sample(range(1, n), rng.randint(0, min(n - 1, 4))))
        return [b - a for a, b in zip([0] + c, c + [n])]
    s = {'seed': rng.randrange(1 << 30), 'dt': dt}
    tu = axis(0)
    s['time'] = {'U': tu, 'V': tu if rng.random() < 0.7 else axis(), 'P': tu if rng.random() < 0.4 else axis()}
    s['files'] = {k: cut(len(s['time'][k])) for k in 'UVP'}
    s['date'] = rng.random() < 0.4
    s['pack'] = {k: rng.random() < 0.3 for k in 'UVP'}
    s['mask'] = rng.random() < 0.4
    s['depth'] = rng.random() < 0.25
    s['flip'] = rng.random() < 0.15
    r = rng.random()
    s['extra'] = r < 0.2
    s['period'] = None
    if 0.2 <= r < 0.5:
        # one period for all fields: same range
        for k in 'VP':
            if s['time'][k] is not tu:
                s['time'][k] = sorted(set([tu[0], tu[-1]] + [t for t in s['time'][k] if tu[0] < t < tu[-1]] + [t for t in tu[1:-1] if rng.random() < 0.5]))
                s['files'][k] = cut(len(s['time'][k]))
        s['period'] = tu[-1] - tu[0] + rng.choice([0, 1, 3])
    s['scale'] = rng.choice([None, None, 2.0, 0.5])
    s['sub'] = rng.random() < 0.15
    s['halo'] = rng.random() < 0.1
    s['compute'] = rng.random() < 0.15       # user-defined computations on data that have just been loaded
    return s


def rich(rng, s):
    """Other kinds of grids and of describing the files, added to a field set made by spec()."""
    s['keys'] = 'UVP'
    g = s['geo'] = rng.choice([None, 'curv', 'c', 'ccurv', 'b', 's3', 's4'])
    if g in ('s3', 's4', 'b'):
        s['depth'] = True
    s['bext'] = g == 'b' and rng.random() < 0.5       # velocities have one level less than there are depths
    if g is not None:
        s['flip'] = s['flip'] and g == 's3'
        s['halo'] = s['halo'] and g in ('curv', 's3')
    if g is None or g in ('curv', 's3', 's4'):
        s['im'] = rng.choice([None, 'nearest', 'linear_invdist_land_tracer']) if g in (None, 'curv') else None
    s['W'] = bool(s['depth'] and rng.random() < 0.6)
    if s['W']:
        s['keys'] += 'W'
    if rng.random() < 0.4:
        s['keys'] += 'Q'                               # sampled together with P
        s['comb'] = rng.choice(['sum', 'nest'])
    if rng.random() < 0.2 and g != 's4':
        s['vlim'] = [-0.5, 0.5]
    tu, fu = s['time']['U'], s['files']['U']
    if g in ('c', 'ccurv', 's4'):                      # velocities on one staggered grid; depths with the same times
        s['time']['V'], s['files']['V'] = tu, fu
    if g == 's4':
        for k in s['keys']:
            s['time'][k], s['files'][k] = tu, fu
        s['pack'] = {k: False for k in s['pack']}
    for k in s['keys']:
        if k not in s['time']:
            o = rng.choice('UVP') if k == 'Q' else 'U'
            s['time'][k], s['files'][k] = s['time'][o], s['files'][o]
        s['pack'].setdefault(k, rng.random() < 0.3 and g != 's4')
    r = rng.random()
    s['how'] = None
    if r < 0.3:
        s['how'] = 'dict'                              # coordinates in a file of their own
    elif r < 0.45:
        s['how'] = 'joint'                             # several variables in the same files
        for k in 'V' + ('W' if s['W'] else ''):
            s['time'][k], s['files'][k] = tu, fu
    elif r < 0.6:
        s['how'] = 'stamps'                            # times are given, not read
        s['date'] = True
        for k in s['keys']:
            s['time'][k], s['files'][k] = tu, fu
    if s['how'] and g == 's4':
        s['how'] = None
    return s


def keys(s):
    return s.get('keys', 'UVP')


def is2d(s):
    return s.get('geo') in ('curv', 'ccurv')


def interp(s):
    """Interpolation method per field."""
    g = s.get('geo')
    r = {k: 'linear' for k in keys(s)}
    for k in r:
        if g in ('c', 'ccurv'):
            r[k] = 'cgrid_velocity' if k in 'UVW' else 'cgrid_tracer'
        elif g == 'b':
            r[k] = {'U': 'bgrid_velocity', 'V': 'bgrid_velocity', 'W': 'bgrid_w_velocity'}.get(k, 'bgrid_tracer')
        elif s.get('im') and k in 'PQ':
            r[k] = s['im']
    return r


def coords(s):
    """lon, lat, depth as they are in the files (and whole)."""
    nz = 3 if s['depth'] else 1
    lon = np.linspace(-160, 160, NX).astype(np.float32)
    lat = np.linspace(-80, 80, NY).astype(np.float32)
    dep = np.array([0, 10, 20], dtype=np.float32)[:nz]
    if is2d(s):
        X, Y = np.meshgrid(lon.astype(np.float64), lat.astype(np.float64))
        a = 0.1
        lon = (X * np.cos(a) - Y * np.sin(a) + 0.02 * Y * Y / 80).astype(np.float32)
        lat = (X * np.sin(a) + Y * np.cos(a) + 0.02 * X * X / 160).astype(np.float32)
    elif s.get('geo') in ('s3', 's4'):
        X, Y = np.meshgrid(lon / 160, lat / 80)
        dep = (dep[:, None, None] * (1 + 0.2 * np.sin(X + 2 * Y))[None]).astype(np.float32)
        if s['geo'] == 's4':
            n = len(s['time']['U'])
            dep = np.stack([dep * np.float32(1 + 0.0625 * ((3 * t) % 5)) for t in range(n)])
            if s['period'] is not None and s['period'] == s['time']['U'][-1] - s['time']['U'][0]:
                dep[-1] = dep[0]
    return lon, lat, dep


def data(s):
    """True field values, time axes in seconds."""
    nz = 3 if s['depth'] else 1
    r = np.random.RandomState(s['seed'] % (2 ** 31))
    lon = np.linspace(-160, 160, NX).astype(np.float32)
    lat = np.linspace(-80, 80, NY).astype(np.float32)
    dep = np.array([0, 10, 20], dtype=np.float32)[:nz]
    Z, Y, X = np.meshgrid(dep / 20, lat / 80, lon / 160, indexing='ij')
    out = {}
    for k in keys(s):
        a = r.uniform(-1, 1, 8)
        sc = 1.0 if k in 'PQ' else (0.05 if k == 'W' else 0.3) / s['dt']
        v = np.stack([(sc * (a[0] * np.sin(2 * X + 2.1 * t) + a[2] * np.cos(3 * Y + t * 1.3 + a[3]) + 0.3 * a[4] * X * Y * np.cos(t) + 0.2 * a[5] + 0.2 * Z * np.sin(1.7 * t))).astype(np.float32)
                      for t in range(len(s['time'][k]))])
        if s['period'] is not None and s['period'] == s['time'][k][-1] - s['time'][k][0]:
            v[-1] = v[0]
        q = sc / 4096.
        q = 2.0 ** np.floor(np.log2(q))
        packed = np.round(v / q).astype(np.int16)
        if s['pack'][k]:
            v = (packed.astype(np.float32) * np.float32(q)).astype(np.float32)
        m = np.zeros(v.shape, bool)
        if s['mask']:  # the same land at all times
            m[:, :, r.randint(0, NY, 3), r.randint(0, NX, 3)] = True
        if s.get('bext'):
            v, packed, m = v[:, :-1], packed[:, :-1], m[:, :-1]
        out[k] = (v, packed, q, m)
    return coords(s) + (out,)


def write(s, d):
    """Write the NetCDF files; returns {field: [paths]}."""
    lon, lat, dep, out = data(s)
    files = {}
    D = seams.REAL.get('netCDF4.Dataset')
    if D is None:
        import netCDF4
        D = netCDF4.Dataset
    how = s.get('how')

    def create(fn, n, mesh, time):
        nc = D(fn, 'w')
        nc.createDimension('time', n)
        nc.createDimension('lat', NY)
        nc.createDimension('lon', NX)
        if s['depth']:
            nc.createDimension('depth', 3)
            if s.get('bext'):
                nc.createDimension('level', 2)
        if mesh:
            dd = ('lat', 'lon') if is2d(s) else None
            x = nc.createVariable('lon', 'f4', dd or ('lon',))
            x[:] = lon
            x = nc.createVariable('lat', 'f4', dd or ('lat',))
            x[:] = lat[::-1] if s['flip'] else lat
            if s['depth'] and s.get('geo') != 's4':
                x = nc.createVariable('depth', 'f4', ('depth', 'lat', 'lon') if dep.ndim == 3 else ('depth',))
                x[:] = dep[:, ::-1] if s['flip'] and dep.ndim == 3 else dep
        if time is not None and how != 'stamps':
            x = nc.createVariable('time', 'f8', ('time',))
            x[:] = [t * s['dt'] for t in time]
            if s['date']:
                x.units = 'seconds since 2001-02-03 00:00:00'
        return nc

    def put(nc, k, i, n):
        v, packed, q, m = out[k]
        dims = ('time', 'level' if v.shape[1] == 2 else 'depth', 'lat', 'lon') if s['depth'] else ('time', 'lat', 'lon')
        if s['pack'][k]:
            x = nc.createVariable(k + 'data', 'i2', dims, fill_value=-32767)
            x.scale_factor = np.float32(q)
            x.set_auto_maskandscale(False)
            a = np.where(m, -32767, packed)[i:i + n]
        else:
            x = nc.createVariable(k + 'data', 'f4', dims, fill_value=np.float32(1e20))
            x.set_auto_maskandscale(False)
            a = np.where(m, np.float32(1e20), v)[i:i + n]
        if s['flip']:
            a = a[:, :, ::-1]
        x[:] = a if s['depth'] else a[:, 0]
    mesh = how != 'dict'
    if how == 'dict':
        files['mesh'] = os.path.join(d, 'mesh.nc')
        create(files['mesh'], 1, True, None).close()
    joint = 'V' + ('W' if s.get('W') else '') if how == 'joint' else ''
    for k in keys(s):
        if k in joint:
            continue
        i = 0
        files[k] = []
        for j, n in enumerate(s['files'][k]):
            fn = os.path.join(d, '%s_%02d.nc' % (k, j))
            nc = create(fn, n, mesh, s['time'][k][i:i + n])
            for kk in k + (joint if k == 'U' else ''):
                put(nc, kk, i, n)
            if s.get('geo') == 's4':
                x = nc.createVariable('deptht', 'f4', ('time', 'depth', 'lat', 'lon'))
                x[:] = dep[i:i + n]
            nc.close()
            files[k].append(fn)
            i += n
    for k in joint:
        files[k] = files['U']
    return files


def options(s):
    kw = {'mesh': 'flat'}
    if s['period'] is not None:
        kw['time_periodic'] = s['period'] * s['dt']
    elif s['extra']:
        kw['allow_time_extrapolation'] = True
    elif s.get('how') == 'stamps':
        kw['allow_time_extrapolation'] = False
    if 'geo' in s:
        kw['interp_method'] = interp(s)
    if s.get('bext'):
        kw['gridindexingtype'] = 'pop'
    if s.get('vlim'):
        kw['vmin'], kw['vmax'] = s['vlim']
    return kw


def memory(P, s):
    lon, lat, dep, out = data(s)
    dims, dat = {}, {}
    x0, y0 = (1, 1) if s['sub'] else (0, 0)
    for k in keys(s):
        v, _, _, m = out[k]
        v = np.where(m, np.float32(0), v)[:, :, y0:, x0:]
        t = np.array([x * s['dt'] for x in s['time'][k]], dtype=np.float64)
        dims[k] = {'lon': lon[y0:, x0:] if is2d(s) else lon[x0:], 'lat': lat[y0:, x0:] if is2d(s) else lat[y0:], 'time': t}
        if s['depth']:
            dims[k]['depth'] = dep if dep.ndim == 1 else dep[..., y0:, x0:]
        dat[k] = v if s['depth'] else v[:, 0]
    fs = P.FieldSet.from_data(dat, dims, **options(s))
    finish(P, fs, s)
    if s.get('compute'):
        fs.P.data = (fs.P.data * np.float32(0.5) + np.float32(0.25)).astype(np.float32)
    return fs


def from_files(P, s, files, deferred=True, chunks=None):
    dims = {k: {'lon': 'lon', 'lat': 'lat', 'time': 'time'} for k in keys(s)}
    kw = options(s)
    if s['depth']:
        for k in dims:
            dims[k]['depth'] = 'not_yet_set' if s.get('geo') == 's4' else 'depth'
    if s.get('how') == 'stamps':
        t0, st, i = np.datetime64('2001-02-03T00:00:00'), [], 0
        for n in s['files']['U']:
            st.append([t0 + np.timedelta64(int(round(t * s['dt'] * 1000)), 'ms') for t in s['time']['U'][i:i + n]])
            i += n
        kw['timestamps'] = st
        for k in dims:
            del dims[k]['time']
    if s['sub']:
        kw['indices'] = {'lon': list(range(1, NX)), 'lat': list(range(0, NY - 1)) if s['flip'] else list(range(1, NY))}
    if chunks is not None:
        kw['chunksize'] = dict(chunks) if isinstance(chunks, dict) else chunks
    fn = {k: list(files[k]) for k in keys(s)}
    if s.get('how') == 'dict':
        m = files['mesh']
        fn = {k: dict({'lon': m, 'lat': m, 'data': list(files[k])}, **({'depth': m} if s['depth'] else {})) for k in fn}
    var = {k: k + 'data' for k in keys(s)}
    if s.get('geo') == 's4':
        fn['deptht'], var['deptht'], dims['deptht'] = list(files['U']), 'deptht', dict(dims['U'])
        kw['interp_method'] = dict(kw['interp_method'], deptht='linear')
        kw.pop('vmin', None), kw.pop('vmax', None)
    fs = P.FieldSet.from_netcdf(fn, var, dims, deferred_load=deferred, **kw)
    if s.get('geo') == 's4':
        for k in keys(s):
            getattr(fs, k).set_depth_from_field(fs.deptht)
        fs.deptht.set_depth_from_field(fs.deptht)
    finish(P, fs, s)
    if s.get('compute') and deferred and fs.P.grid.defer_load:
        def compute(fs):
            f = fs.P
            for t in f.loaded_time_indices:
                f.data = f.data_concatenate(f.data, (f.data[t:t + 1] * np.float32(0.5) + np.float32(0.25)).astype(np.float32), t)
        fs.compute_on_defer = compute
    elif s.get('compute'):
        fs.P.data = (fs.P.data * np.float32(0.5) + np.float32(0.25)).astype(np.float32)
    return fs


def finish(P, fs, s):
    if s['halo']:
        fs.add_periodic_halo(zonal=True, halosize=3)
    if s['scale']:
        fs.P.set_scaling_factor(s['scale'])
    if s.get('comb') == 'sum':
        fs.add_field(P.field.SummedField('C', [fs.P, fs.Q]))
    elif s.get('comb') == 'nest':
        fs.add_field(P.field.NestedField('C', [fs.P, fs.Q]))


def chunkspec(rng, s):
    c = {'lat': ('lat', rng.choice([2, 3, 4, 6])), 'lon': ('lon', rng.choice([2, 5, 8, 17]))}
    if s.get('geo') == 's4':       # the depths are computed from all chunks whenever data are loaded
        c = {'lat': ('lat', rng.choice([4, 6])), 'lon': ('lon', rng.choice([8, 17]))}
    if rng.random() < 0.8:
        c['time'] = ('time', rng.choice([1, 1, 2]))
    if s['depth'] and rng.random() < 0.5:
        c['depth'] = ('depth', rng.choice([1, 2, 3]))
    return c
