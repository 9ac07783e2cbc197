"""The simulated application and its reference model.

The application is built through the public parcels interface from a scenario; the model knows nothing of parcels: a
particle is a record that is stepped once per time step from its release to the end of the run.
"""
import json
import os
import random
import sys
import types

import numpy as np

from . import seams

PARCELS = None


def ensure_version():
    """parcels/_version.py is generated at install time; stand in for it where it is missing."""
    if not os.path.exists(os.path.join('/repo/parcels', '_version.py')):
        m = types.ModuleType('parcels._version')
        m.version = '0.dst'
        sys.modules['parcels._version'] = m


def load_parcels(net=None, rank=0):
    """Import the package with the in-process MPI in place (size 1 unless a network is given)."""
    global PARCELS
    from . import simmpi
    ensure_version()
    net = net or simmpi.Network(1)
    sys.modules.update(simmpi.make_module(net, rank))
    import parcels
    import parcels.scripts.convert_npydir_to_netcdf
    parcels.tools.loggers.logger.setLevel(50)
    assert parcels.__file__.startswith('/repo/'), parcels.__file__
    PARCELS = parcels
    return parcels


def load_ranks(n):
    """One copy of the package per rank, each with its own rank of one (not yet connected) network: [(package, modules, communicator)]."""
    from . import simmpi
    ensure_version()
    out = []
    mine = lambda: [k for k in sys.modules if k == 'parcels' or k.startswith('parcels.') or k == 'mpi4py' or k.startswith('mpi4py.')]
    saved = {k: sys.modules.pop(k) for k in mine()}
    for r in range(n):
        mods = simmpi.make_module(simmpi.Network(1), r)
        sys.modules.update(mods)
        ensure_version()
        import parcels
        parcels.tools.loggers.logger.setLevel(50)
        out.append((parcels, {k: sys.modules[k] for k in mine()}, mods['mpi4py.MPI'].COMM_WORLD))
        for k in mine():
            del sys.modules[k]
    sys.modules.update(saved)
    return out


def setup():
    load_parcels()
    from . import kernels  # noqa


# ---------------------------------------------------------------------------------------------------------- model --

PVARS = ['tag', 'inc', 'n', 'ts', 'vx', 'vy', 'kill', 'fail', 'fk', 'nf', 'ract', 'rec', 'e', 's', 'ss', 'tp', 'bad', 'nd']
HIDDEN = ['inc', 'tp', 'bad', 's', 'ss', 'vx', 'vy', 'kill', 'fail', 'fk', 'nf', 'ract', 'e', 'nd']


SCRIPT = ('tag', 'vx', 'vy', 'kill', 'fail', 'fk', 'nf', 'ract', 'nd')
STATE = ('time', 'lon', 'lat', 'depth', 'tag', 'n', 'ts', 'rec', 'e', 'bad')


class MP(object):
    """One particle of the model."""
    __slots__ = ['x', 'y', 'z', 't', 'alive', 'v', 'recs', 'once', 'key', 'log', 'ini', 'h']

    def __init__(self, p, t):
        self.x, self.y, self.z = float(p['x']), float(p['y']), float(p.get('z', 0))
        self.t = float(t)
        self.alive = True
        self.h = None            # its own time step, where its kernel changed it
        self.v = {k: 0.0 for k in PVARS}
        for k in SCRIPT:
            self.v[k] = float(p.get(k, 0))
        self.v['inc'] = float(p.get('inc', 1))
        self.recs = []
        self.once = None
        self.log = []
        self.ini = p

    def rec(self):
        return (self.t, self.x, self.y, self.z, self.v['tag'], self.v['n'], self.v['ts'], self.v['rec'])

    def state(self):
        return self.rec() + (self.v['e'], 0.0)


class Model(object):
    """Reference semantics of a particle set with one output file (all times multiples of the step)."""

    def __init__(self, scn, sample=None):
        self.scn = scn
        self.dt = float(scn['dt'])
        self.parts = []          # alive
        self.dead = []
        self.all = []
        self.out = scn.get('out')
        self.lastw = None
        self.lastw_ids = set()
        self.repeat_start = None
        self.callbacks = []
        self.recoveries = []
        self.sample = sample
        self.sim_s = 0.0
        self.releases = []

    def add(self, plist, t=None):
        new = [MP(p, t if t is not None else p['t']) for p in plist]
        self.parts += new
        self.all += new
        return new

    def remove(self, idx):
        gone = [self.parts[i] for i in sorted(set(idx))]
        self.parts = [p for p in self.parts if p not in gone]

    # -- output
    def once_value(self, p):
        return p.v['tag'] * 2 + (p.v['n'] if 'KOnce' in self.scn.get('kernel', '') else 0)

    def write(self, t):
        o = self.out
        if not o or o.get('ondelete'):
            return
        if self.lastw != t:
            self.lastw = t
            self.lastw_ids = set()
        for p in self.parts:
            if abs(p.t - t) <= self.dt / 2 and id(p) not in self.lastw_ids:
                p.recs.append(p.rec())
                if p.once is None:
                    p.once = self.once_value(p)
                self.lastw_ids.add(id(p))

    def write_deleted(self, p):
        if self.out:
            p.recs.append(p.rec())
            if p.once is None:
                p.once = self.once_value(p)

    # -- stepping
    def step(self, p, d):
        """One time step of one particle; returns 'ok', 'del' or 'err'."""
        v = p.v
        while True:
            n = v['n'] + 1
            if v['nf'] > 0 and v['fail'] == n and 'KFail' in self.scn.get('kernel', 'KStep'):
                # the step fails; nothing of it remains; recovery runs once
                self.recoveries.append((v['tag'], p.t, int(v['fk']), v['n'], v['ts'], p.x, p.y, v['rec'], v['e'], p.t))
                v['nf'] -= 1
                v['rec'] += 1
                v['exc'] = int(v['fk'])
                if v['ract'] == 1:        # recovery moves the particle
                    p.y += 0.5
                elif v['ract'] == 2:      # recovery deletes it
                    return 'del'
                continue
            break
        ker = self.scn.get('kernel', 'KStep').split('+')
        if 'KExtra' in ker:
            v['e'] += n if ker[0] == 'KExtra' else n + 1
        v['n'] = n
        v['ts'] += p.t
        if self.sample is not None:
            v['s'] = self.sample(p)
            v['ss'] += v['s']
        p.x += v['vx'] * d
        p.y += v['vy'] * d
        p.log.append(p.t)
        p.t += d
        if v['nd'] == n and 'KNext' in self.scn.get('kernel', ''):
            p.h = abs(d) / 2
        if v['kill'] == n:
            return 'del'
        return 'ok'

    def at_callback(self, t):
        pass

    def once(self):
        """A run without time steps: every particle executes the kernel once, where it is."""
        ts = [p.t for p in self.parts]
        self.write(min(ts))
        for p in list(self.parts):
            if p.v['inc'] and self.step(p, 0.0) == 'del':
                p.alive = False
                self.write_deleted(p)
                self.parts.remove(p)
                self.dead.append(p)
        self.write(min(ts))

    def execute(self, nsteps, sgn, outsteps=None, cbsteps=None, cb=False, end=None):
        d = self.dt * sgn
        ts = [p.t for p in self.parts]
        start = min(ts) if sgn > 0 else max(ts)
        if end is None:
            end = start + nsteps * d
        rep = self.scn.get('repeat')
        if rep and self.repeat_start is None:
            self.repeat_start = start
        self.write(start)
        t = start
        k = 0
        for p in self.parts:
            p.h = None
        while (t < end) if sgn > 0 else (t > end):
            for p in list(self.parts):
                if p.v['inc'] == 0:       # released between two steps: takes part from then on, its steps are not counted
                    p.t = max(p.t, t + d) if sgn > 0 else min(p.t, t + d)
                elif p.t == t:
                    r = 'ok'
                    while r == 'ok' and p.t != t + d:
                        r = self.step(p, d if p.h is None else p.h * sgn)
                    if r == 'del':
                        p.alive = False
                        self.write_deleted(p)
                        self.parts.remove(p)
                        self.dead.append(p)
            t += d
            k += 1
            if rep:
                q = abs(t - self.repeat_start) / self.dt
                if q % rep == 0 and q > 0:
                    new = self.add(self.scn['parts'], t)
                    self.releases.append((t, len(new)))
            if outsteps and k % outsteps == 0:
                self.write(t)
            if cb and cbsteps and k % cbsteps == 0:
                self.callbacks.append((t, len([p for p in self.parts if p.t == t]), len(self.parts)))
                self.at_callback(t)
        self.write(end)
        self.sim_s += abs(end - start)
        return start, end


# ------------------------------------------------------------------------------------------------------------ real --

def date(scn, t, py=False):
    """The absolute date of a time of a scenario whose fields have dates."""
    if scn['dates'] == 'np':
        d = np.datetime64('2000-01-01T00:00:00') + np.timedelta64(int(round(t * 1e6)), 'us')
        return d.astype('datetime64[us]').astype(object) if py else d
    import cftime
    from datetime import timedelta
    return {'noleap': cftime.DatetimeNoLeap, '360': cftime.Datetime360Day, 'greg': cftime.DatetimeGregorian}[scn['dates']](2000, 1, 1) + timedelta(seconds=float(t))


def axis_default(scn, sgn):
    """The release time of particles that are given none."""
    return scn['axis'][0 if sgn > 0 else 1]


def make_fieldset(P, scn):
    """A flat-mesh fieldset with zero velocity; P(lat,lon,t) is set by the property when needed."""
    lon = np.linspace(-1024, 1024, 5).astype(np.float32)
    lat = np.linspace(-1024, 1024, 5).astype(np.float32)
    z = np.zeros((5, 5), dtype=np.float32)
    if not scn or not (scn.get('axis') or scn.get('dates')):
        return P.FieldSet.from_data({'U': z, 'V': z}, {'lon': lon, 'lat': lat}, mesh='flat')
    tm = [float(t) for t in scn.get('axis') or (0, 1e6)]
    z = np.zeros((2, 5, 5), dtype=np.float32)
    if scn.get('dates') in (None, 'np'):
        tm = np.array([date(scn, t) for t in tm] if scn.get('dates') else tm)
        return P.FieldSet.from_data({'U': z, 'V': z.copy()}, {'lon': lon, 'lat': lat, 'time': tm}, mesh='flat')
    import xarray as xr
    ds = xr.Dataset({'U': (('time', 'lat', 'lon'), z), 'V': (('time', 'lat', 'lon'), z)},
                    coords={'time': ('time', np.array([date(scn, t) for t in tm])), 'lat': lat, 'lon': lon})
    return P.FieldSet.from_xarray_dataset(ds, {'U': 'U', 'V': 'V'}, {'lon': 'lon', 'lat': 'lat', 'time': 'time'}, mesh='flat')


def make_pclass(P, scn, name='SimP'):
    base = P.JITParticle if scn['mode'] == 'jit' else P.ScipyParticle
    d = {}
    wr = scn.get('novar', [])
    for v in PVARS:
        dt_ = np.float64 if v in ('ts', 'ss', 'tp') else np.float32
        d[v] = P.Variable(v, dtype=dt_, initial=0., to_write=(v not in ('s', 'ss') if scn.get('writeall') else v not in HIDDEN and v not in wr))
    if scn.get('once'):
        d['o1'] = P.Variable('o1', dtype=np.float32, initial=0., to_write='once')
    return type(name, (base,), d)


def coord_dtype(scn):
    return np.float64 if scn.get('coord') == 'f8' else np.float32


def make_pset(P, scn, fieldset, pclass, plist, repeat=None, use_time=True, partitions=None, pids=None):
    kw = {k: [float(p.get(k, 0)) for p in plist] for k in SCRIPT}
    kw['inc'] = [float(p.get('inc', 1)) for p in plist]
    if scn.get('once'):
        kw['o1'] = [float(p.get('tag', 0)) * 2 for p in plist]
    if partitions is not None:
        kw['partitions'] = partitions
    if pids:      # ids in another order than the particles, and with gaps
        kw['pid_orig'] = np.array(random.Random(pids).sample(range(2 * len(plist)), len(plist)))
    tm = [float(p['t']) for p in plist]
    if scn.get('dates'):
        tm = [date(scn, t, py=len(plist) % 2 == 0) for t in tm]
    if not use_time or any(p.get('notime') for p in plist):
        tm = None
    return P.ParticleSet(fieldset, pclass, lon=[p['x'] for p in plist], lat=[p['y'] for p in plist],
                         depth=[float(p.get('z', 0)) for p in plist], time=tm,
                         repeatdt=repeat, lonlatdepth_dtype=coord_dtype(scn), **kw)


class App(object):
    """The application: one particle set and, optionally, one output file, driven operation by operation."""

    def __init__(self, P, scn, env, outdir='out', tag='', partitions=None, fs=None, pclass=None, hide=()):
        self.P, self.scn, self.env = P, scn, env
        self.dt = float(scn['dt'])
        self.fs = fs if fs is not None else make_fieldset(P, scn)
        self.pclass = pclass if pclass is not None else make_pclass(P, scn, 'SimP' + tag)
        self.cb_hook = None
        rep = scn.get('repeat')
        rep = rep * self.dt if rep else None
        if rep and scn.get('tdrep'):
            from datetime import timedelta
            rep = timedelta(seconds=rep)
        self.pset = make_pset(P, scn, self.fs, self.pclass, scn['parts'], repeat=rep, partitions=partitions, pids=scn.get('pids'))
        for v in hide:
            self.pset.set_variable_write_status(v, False)
        self.pf = None
        self.outdir = outdir
        self.outname = os.path.join(env.dir, outdir + '.nc')
        self.tmpdir = os.path.join(env.dir, outdir + '_tmp')
        o = scn.get('out')
        if o:
            odt = o['dt'] * self.dt if o.get('dt') else np.inf
            if o.get('td') and o.get('dt'):
                from datetime import timedelta
                odt = timedelta(seconds=odt)
            self.pf = self.pset.ParticleFile(name=self.outname, outputdt=odt, write_ondelete=bool(o.get('ondelete')),
                                             tempwritedir=None if scn.get('autotmp') else self.tmpdir, convert_at_end=False)
        self.reclog = []
        self.cblog = []
        from . import kernels
        parts = scn.get('kernel', 'KStep').split('+')
        self.kernel = kernels.KERNELS[parts[0]]
        if len(parts) > 1:
            self.kernel = self.pset.Kernel(self.kernel)
            for k in parts[1:]:
                self.kernel = self.kernel + self.pset.Kernel(kernels.KERNELS[k])

    def recovery(self):
        E = self.P.ErrorCode
        log = self.reclog

        def make(code):
            def rec(particle, fieldset, time):
                log.append((float(particle.tag), float(particle.time), code, float(particle.n), float(particle.ts),
                            float(particle.lon), float(particle.lat), float(particle.rec), float(particle.e), float(time)))
                particle.nf -= 1
                particle.rec += 1
                if particle.ract == 1:
                    particle.lat += 0.5
                elif particle.ract == 2:
                    particle.delete()
            return rec
        return {E.Error: make(1), E.ErrorOutOfBounds: make(2), E.ErrorTimeExtrapolation: make(3),
                E.ErrorThroughSurface: make(4), E.ErrorInterpolation: make(5)}

    def execute(self, op, **kw):
        sgn = op.get('dir', 1)
        dt = self.dt * sgn
        args = dict(dt=dt, output_file=self.pf, verbose_progress=op.get('prog', False))
        if op.get('by') == 'endtime':
            ts = np.asarray(self.pset.time, dtype=float)
            if self.scn.get('axis'):
                ts = np.where(np.isnan(ts), axis_default(self.scn, sgn), ts)
            start = np.min(ts) if sgn > 0 else np.max(ts)
            args['endtime'] = float(start + op['n'] * dt)
            if self.scn.get('dates'):
                args['endtime'] = date(self.scn, args['endtime'], py=op['n'] % 2 == 0)
        elif op.get('by') == 'default':        # until the end of the fields
            pass
        elif op.get('by') == 'td':
            from datetime import timedelta
            args['runtime'] = timedelta(seconds=op['n'] * self.dt)
            args['dt'] = timedelta(seconds=dt)
        else:
            args['runtime'] = op['n'] * self.dt
        if op.get('once'):
            args.pop('endtime', None)
            args.update({'rt': dict(runtime=0), 'dt': dict(runtime=4 * self.dt, dt=0), 'end': dict(runtime=None, endtime=float(np.min(self.pset.time)))}[op['once']])
        if 'KFail' in self.scn.get('kernel', 'KStep') and not op.get('norec'):
            args['recovery'] = self.recovery()
        if op.get('cb'):
            cbs = op['cb']
            args['postIterationCallbacks'] = [self._cb(i) for i in range(cbs.get('num', 1))]
            if cbs.get('dt'):
                args['callbackdt'] = cbs['dt'] * self.dt
                if cbs.get('td'):
                    from datetime import timedelta
                    args['callbackdt'] = timedelta(seconds=args['callbackdt'])
        args.update(kw)
        self.pset.execute(self.kernel, **args)

    def _cb(self, i):
        def f():
            ts = np.array(self.pset.time, dtype=float)
            self.cblog.append((i, sorted(ts.tolist())))
            if self.cb_hook is not None:
                self.cb_hook()
        return f

    def add(self, plist, partitions=None, split=None):
        if split and split < len(plist):       # two sets, added in the opposite order of their creation
            a, b = [make_pset(self.P, self.scn, self.fs, self.pclass, q) for q in (plist[:split], plist[split:])]
            self.pset.add(b)
            self.pset.add(a)
            return
        self.pset.add(make_pset(self.P, self.scn, self.fs, self.pclass, plist, partitions=partitions))

    def state(self, ids=False):
        """Canonical state of the particle set: sorted list of particle tuples."""
        ps = self.pset
        cols = [np.asarray(getattr(ps, k), dtype=float) for k in STATE]
        rows = list(zip(*[c.tolist() for c in cols])) if len(ps) else []
        if ids:
            rows = [r + (int(i),) for r, i in zip(rows, np.asarray(ps.id).tolist())]
        return sorted(rows)


def model_state(m):
    return sorted(p.state() for p in m.parts)


# ------------------------------------------------------------------------------------------------- reading outputs --

def read_nc(path, once=False, vars_=('tag', 'n', 'ts', 'rec')):
    """Rows of the exported file: list of (id, [records], once value)."""
    D = seams.REAL['netCDF4.Dataset']
    seams.S.depth += 1
    try:
        with D(path, 'r') as ds:
            ds.set_auto_mask(False)
            ids = np.array(ds.variables['trajectory'][:])
            cols = [np.array(ds.variables[v][:], dtype=float) for v in ('time', 'lon', 'lat', 'z') + tuple(vars_)]
            o = np.array(ds.variables['o1'][:], dtype=float) if once else None
    finally:
        seams.S.depth -= 1
    rows = []
    fill = -2 ** 63
    for i in range(ids.shape[0]):
        row_ids = ids[i]
        ok = np.isfinite(cols[0][i])
        recs = [tuple(float(c[i, j]) for c in cols) for j in range(ids.shape[1]) if ok[j]]
        idset = {int(x) for x, k in zip(row_ids, ok) if k}
        extra = [int(x) for x, k in zip(row_ids, ok) if not k and int(x) != fill]
        gap = bool(np.any(np.diff(ok.astype(int)) > 0))
        rows.append({'ids': idset, 'recs': recs, 'once': None if o is None else float(o[i]), 'gap': gap,
                     'ghost': len(extra)})
    return rows


def f4(x):
    return float(np.float32(x))


def expected_rows(model, scn, hide=()):
    f8 = scn.get('coord') == 'f8'
    c = (lambda x: x) if f8 else f4
    rows = []
    for p in model.all:
        if not p.recs:
            continue
        recs = [(r[0], c(r[1]), c(r[2]), c(r[3])) + tuple(f4(x) for k, x in zip(('tag', 'n', 'ts', 'rec'), r[4:]) if k not in hide) for r in p.recs]
        rows.append((recs, p))
    return rows


def compare_file(env, rows, model, scn, cls='output', hide=()):
    """The exported rows are exactly the expected ones (as a multiset of record sequences, each with its own id)."""
    seen = set()
    for r in rows:
        env.check(len(r['ids']) == 1, cls + ':row-mixes-particles', lambda: 'row with ids %s: %s' % (r['ids'], r['recs'][:5]))
        i = next(iter(r['ids']))
        env.check(i not in seen, cls + ':id-in-two-rows', 'id %d' % i)
        seen.add(i)
        env.check(not r['gap'], cls + ':gap-inside-row', lambda: str(r))
    exp = sorted(recs for recs, _ in expected_rows(model, scn, hide))
    got = sorted(r['recs'] for r in rows)
    if exp != got:
        raise _diff(exp, got, cls)
    if scn.get('once'):
        eo = sorted((recs, f4(p.once)) for recs, p in expected_rows(model, scn, hide))
        go = sorted((r['recs'], r['once']) for r in rows)
        env.check(eo == go, cls + ':once-variable', lambda: 'expected %s got %s' % ([x[1] for x in eo], [x[1] for x in go]))


def _diff(exp, got, cls):
    from .core import Violation
    es, gs = {json.dumps(e) for e in exp}, {json.dumps(g) for g in got}
    miss = [json.loads(x) for x in sorted(es - gs)][:3]
    extra = [json.loads(x) for x in sorted(gs - es)][:3]
    ne, ng = sum(len(e) for e in exp), sum(len(g) for g in got)
    kind = ':records-missing' if ng < ne else ':records-extra' if ng > ne else ':records-wrong'
    return Violation(cls + kind, 'expected %d records in %d trajectories, file has %d in %d\nexpected but absent: %s\npresent but not expected: %s' % (
        ne, len(exp), ng, len(got), miss, extra))
