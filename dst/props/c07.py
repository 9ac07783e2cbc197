"""C07: compiled and interpreted execution agree over whole run histories."""
import math

import numpy as np

from .. import world as W
from .. import flow
from ..gen import history, dy, particle

LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 7000}
RULE = ('The same generated history - scripted kernels with deletion and failing steps, or advection and sampling in a flow with particles leaving its domain in space and time, with output, callbacks, '
        'repeated release, removal, reversal - is made in compiled and in interpreted mode; recovery calls, callbacks, output records and final sets are compared (exactly where values are exactly representable, '
        'to single-precision rounding otherwise). Non-trivial: at least one step was made in each mode.')
ASSUMPTIONS = ['all intervals are multiples of the time step', 'histories whose course does not hinge on rounding (no particle within rounding of a domain edge)']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels', 'netCDF4/HDF5']
STUBS = ['MPI (in-process, one rank)', 'recovery and callbacks follow the scenario script']


def setup():
    W.setup()


def gen(rng, tier):
    if rng.random() < 0.45:
        return gen_flow(rng, tier)
    s = history(rng, tier, out=True if rng.random() < 0.6 else None, mode='jit',
                features={'dates': 0.1, 'nextdt': 0.25, 'unsorted': 0.2, 'fail': 0.5, 'repeat': 0.25, 'delay': 0.4, 'add': 0.3, 'remove': 0.2, 'reverse': 0.2, 'ondelete': 0.1, 'once': 0.3, 'oncemoves': 0.5, 'xwrite': 0.2, 'late': 0.15})
    if rng.random() < 0.3:
        s['kernel'] = rng.choice(['%s+KExtra', 'KExtra+%s']) % s['kernel']
    for o in s['ops']:
        if o['op'] == 'exec':
            if rng.random() < 0.4:
                o['cb'] = {'dt': rng.choice([None, 1, 2, 3]), 'num': 1}
    if rng.random() < 0.25:
        s['ops'].insert(rng.randint(0, len(s['ops'])), {'op': 'exec', 'n': 0, 'dir': s['dir'], 'once': rng.choice(['rt', 'dt', 'end'])})
    s['_scalars'].pop('mode')
    return s


def gen_flow(rng, tier):
    dt = rng.choice([1, 60, 3600])
    sgn = rng.choice([1, 1, -1])
    total = rng.randint(1, 8)
    n = rng.randint(1, 5)
    parts = []
    for i in range(n):
        p = {'tag': i + 1, 'x': rng.uniform(-150, 150), 'y': rng.uniform(-75, 75), 'vx': rng.choice([0, 0, 7.3, -9.1]) / dt, 'vy': rng.choice([0, 0, 3.7, -5.3]) / dt,
             't': sgn * dt * rng.choice([0, 0, 1, 3]), 'ract': rng.choice([0, 2])}
        if rng.random() < 0.3:
            p['kill'] = rng.randint(1, 6)
        parts.append(p)
    parts[0]['t'] = 0
    curv = rng.choice([0, 0, 0.2, 0.7])
    if curv:      # in a curvilinear grid the particles keep inside (the search for a cell outside is very long)
        for p in parts:
            x, y = p['x'] * math.cos(curv) - p['y'] * math.sin(curv) + 0.02 * p['y'] ** 2 / 80, p['x'] * math.sin(curv) + p['y'] * math.cos(curv) + 0.02 * p['x'] ** 2 / 160
            p.update(x=x, y=y, vx=0, vy=0)
    span = (rng.choice([3, total + 6, 3 * total]))
    return {'type': 'flow', 'dt': dt, 'dir': sgn, 'coord': rng.choice(['f4', 'f8']), 'parts': parts, 'flow': rng.randrange(1 << 30), 'span': span,
            'kernel': rng.choice(['AdvectionRK4+KSample', 'AdvectionEE+KSample', 'KSampleFail', 'AdvectionRK4+KSampleFail']),
            'extrapolate': rng.random() < 0.3, 'periodic': rng.random() < 0.2, 'curv': curv, 'mesh': 'flat' if curv else rng.choice(['flat', 'flat', 'spherical']), 'out': rng.choice([None, 1, 2]),
            'ops': [{'n': rng.randint(1, total), 'cb': rng.choice([None, None, 1, 2]), 'populate': rng.random() < 0.2} for _ in range(rng.randint(1, 3))],
            '_lists': ['ops', 'parts'], '_scalars': {'coord': ['f8'], 'out': [None], 'mesh': ['flat'], 'periodic': [False], 'curv': [0]}}


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0


def hist(scn, env, mode):
    scn = dict(scn, mode=mode)
    app = W.App(W.PARCELS, scn, env, outdir='out_' + mode, tag=mode)
    trace = []
    for op in scn['ops']:
        k = op['op']
        if k == 'exec':
            if not len(app.pset):
                trace.append(('empty',))
                continue
            if op.get('once') and len(set(np.asarray(app.pset.time).tolist())) > 1:
                continue
            app.execute(op)
        elif k == 'add':
            cur = np.asarray(app.pset.time, dtype=float)
            inc = np.asarray(app.pset.inc) if len(app.pset) else np.array([])
            cur = cur[inc > 0] if len(cur) else cur
            pl = []
            for p in op['parts']:
                q = dict(p)
                base = (max(cur) if op.get('dirhint', 1) > 0 else min(cur)) if len(cur) else scn['t0']
                q['t'] = base + p['rel'] * app.dt * op.get('dirhint', 1)
                pl.append(q)
            app.add(pl)
        elif k == 'remove':
            if len(app.pset) > 1:
                idx = sorted({i % len(app.pset) for i in op['idx']})
                if len(idx) < len(app.pset):
                    app.pset.remove_indices(np.array(idx))
        elif k == 'write' and app.pf is not None and len(app.pset):
            ts = np.asarray(app.pset.time, dtype=float)
            app.pf.write(app.pset, float(ts.max() if op.get('last', 1) else ts.min()))
        trace.append((k, app.state()))
    rows = None
    if app.pf is not None:
        app.pf.export()
        rows = sorted((r['recs'], r['once']) for r in W.read_nc(app.outname, once=bool(scn.get('once'))))
        rows = [(a, None if b is None or math.isnan(b) else b) for a, b in rows]
    return {'recoveries': sorted(app.reclog), 'callbacks': app.cblog, 'states': trace, 'output': rows}


def flowrun(scn, env, mode):
    P = W.PARCELS
    scn = dict(scn, mode=mode)
    dt, sgn = scn['dt'], scn['dir']
    lo, hi = sorted([0, sgn * dt * scn['span']])
    kw = {}
    fs = flow.fieldset(P, scn['flow'], lo - dt, hi + dt, scale=(0.1 if scn.get('curv') else 12.0 if scn['mesh'] == 'flat' else 800000.0) / dt, mesh=scn['mesh'], curv=scn.get('curv'),
                       extrapolate=scn['extrapolate'] if not scn['periodic'] else None, **({'time_periodic': (hi - lo + 3 * dt)} if scn['periodic'] else {}))
    ps = W.make_pset(P, scn, fs, W.make_pclass(P, scn, 'SimF' + mode), scn['parts'])
    kern = flow.app_kernel(P, ps, scn['kernel'])
    rlog, cblog = [], []

    def rec(code):
        def f(particle, fieldset, time):
            rlog.append([code, float(particle.tag), float(particle.time), float(particle.n), float(particle.lon), float(particle.lat), float(particle.s), float(particle.ss)])
            particle.rec += 1
            if code == 3 or particle.ract == 2 or particle.rec > 3:
                particle.delete()
            else:
                particle.lon = 0.4 * particle.lon
                particle.lat = 0.4 * particle.lat
        return f
    E = P.ErrorCode
    recovery = {E.ErrorOutOfBounds: rec(2), E.ErrorTimeExtrapolation: rec(3)}
    pf = None
    if scn['out']:
        pf = ps.ParticleFile('%s/f_%s.nc' % (env.dir, mode), outputdt=scn['out'] * dt, tempwritedir='%s/f_%s_tmp' % (env.dir, mode), convert_at_end=False)
    states = []
    cols = ('time', 'lon', 'lat', 'tag', 'n', 'ts', 'rec', 'bad', 's', 'ss')
    for op in scn['ops']:
        if not len(ps):
            break
        if op.get('populate'):
            ps.populate_indices()
            env.probe('populate-indices')
        if op['cb']:
            kw = dict(postIterationCallbacks=[lambda: cblog.append(sorted(np.asarray(ps.time, dtype=float).tolist()))], callbackdt=op['cb'] * dt)
        ps.execute(kern, runtime=op['n'] * dt, dt=sgn * dt, recovery=recovery, output_file=pf, verbose_progress=False, **kw)
        states.append(sorted((list(x) for x in zip(*[np.asarray(getattr(ps, c), dtype=float).tolist() for c in cols])), key=lambda x: x[3]) if len(ps) else [])
    rows = None
    if pf is not None:
        pf.export()
        rows = sorted([[list(x) for x in r['recs']] for r in W.read_nc(pf.name)], key=lambda r: r[0][4])
    return {'recoveries': sorted(rlog), 'callbacks': cblog, 'states': states, 'output': rows}


def near(a, b, tol):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def edge(scn, r):
    """Whether some step of this run ended within rounding of an edge of the domain (its course then hinges on rounding)."""
    c = scn.get('curv') or 0
    tol = 0.08 if c else 0.02     # a curved edge is a chain of chords
    for s in r['states']:
        for p in s:
            x, y = p[1], p[2]
            if c:
                for _ in range(60):
                    x, y = (lambda a, b: (a * math.cos(c) + b * math.sin(c), b * math.cos(c) - a * math.sin(c)))(p[1] - 0.02 * y * y / 80, p[2] - 0.02 * x * x / 160)
            if abs(abs(x) - 160) < tol or abs(abs(y) - 80) < tol:
                return True
    return False


def run(scn, env):
    fl = scn.get('type') == 'flow'
    fn = flowrun if fl else hist
    a, b = fn(scn, env, 'jit'), fn(scn, env, 'scipy')
    for key in ('recoveries', 'callbacks', 'states', 'output'):
        if fl:
            ok = near(a[key], b[key], 3e-4)
            if not ok and edge(scn, a) | edge(scn, b):
                env.probe('near-edge')
                return
        else:
            ok = a[key] == b[key]
        env.check(ok, 'modes-differ:' + key, lambda: diff(a[key], b[key]))
    env.log(len(a['recoveries']), len(a['callbacks']), str(a['states'][-1:])[:300])
    env.probe('recovery', len(a['recoveries']))
    if a['recoveries']:
        env.fault('kernel-or-field-error', len(a['recoveries']))
    env.nontrivial = bool(a['states'])


def diff(a, b):
    if isinstance(a, list) and isinstance(b, list):
        for i in range(max(len(a), len(b))):
            x, y = (a[i] if i < len(a) else None), (b[i] if i < len(b) else None)
            if not near(x, y, 3e-4):
                return 'entry %d (of %d/%d)\ncompiled    %s\ninterpreted %s' % (i, len(a), len(b), str(x)[:700], str(y)[:700])
    return 'compiled %s\ninterpreted %s' % (str(a)[:600], str(b)[:600])
