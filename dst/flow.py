"""Time-varying flow fields for the checks that need real advection and sampling."""
import numpy as np


def arrays(seed, nt=5, ny=9, nx=11, scale=1.0):
    r = np.random.RandomState(seed % (2 ** 31))
    lon = np.linspace(-160, 160, nx).astype(np.float32)
    lat = np.linspace(-80, 80, ny).astype(np.float32)
    X, Y = np.meshgrid(lon / 160, lat / 80)
    out = {}
    for k in ('U', 'V', 'P'):
        a = r.uniform(-1, 1, 8)
        out[k] = np.stack([(scale * (a[0] * np.sin(2 * X + t * a[1]) + a[2] * np.cos(3 * Y + t * a[3]) + 0.3 * a[4] * X * Y * np.cos(t)
                                     + 0.2 * a[5])).astype(np.float32) for t in range(nt)])
    return lon, lat, out


def fieldset(P, seed, t0, t1, nt=5, scale=1.0, mesh='flat', extrapolate=False, curv=None, dates=None, **kw):
    lon, lat, d = arrays(seed, nt=nt, scale=scale)
    if curv:      # a rotated and bent grid: cells are searched for from the particle's last one
        X, Y = np.meshgrid(lon.astype(np.float64), lat.astype(np.float64))
        lon = (X * np.cos(curv) - Y * np.sin(curv) + 0.02 * Y * Y / 80).astype(np.float32)
        lat = (X * np.sin(curv) + Y * np.cos(curv) + 0.02 * X * X / 160).astype(np.float32)
    tm = np.linspace(t0, t1, nt)
    if dates:     # times are dates, relative to the first of which all times are
        tm = np.array([dates(t - t0) for t in tm])
    return P.FieldSet.from_data(d, {'lon': lon, 'lat': lat, 'time': tm}, mesh=mesh, allow_time_extrapolation=extrapolate, **kw)


def app_kernel(P, pset, names):
    from . import kernels
    tab = dict(kernels.KERNELS)
    tab.update(AdvectionRK4=P.AdvectionRK4, AdvectionEE=P.AdvectionEE, AdvectionRK4_3D=P.AdvectionRK4_3D)
    k = None
    for n in names.split('+'):
        kk = pset.Kernel(tab[n])
        k = kk if k is None else k + kk
    return k
