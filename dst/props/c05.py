"""C05: trajectories do not depend on how a run is interrupted."""
import numpy as np

from .. import world as W
from .. import fieldfiles as F
from .. import flow
from ..gen import particle

LEVEL = 'exploration'
RUNS = {'quick': 260, 'thorough': 6000}
RULE = ('A simulation (advection in a time-varying flow on a rectilinear or curvilinear grid, in memory or read from files as time goes on, plus scripted kernels, delayed and repeated release, deletion, failing steps; forward or backward) is made once in a single '
        'uninterrupted run and 2-3 times cut up by seeded sequences of runs, output files, output intervals, callbacks, explicit writes, exports and progress display; all particle variables are compared bit for bit. '
        'Non-trivial: a variant was interrupted at least once.')
ASSUMPTIONS = ['all intervals are multiples of the time step and exactly representable', 'kernels are deterministic; a new run starts with the given time step, also for particles that had changed theirs']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels', 'netCDF4/HDF5']
STUBS = ['MPI (in-process, one rank)', 'recovery and callbacks follow the scenario script']
COLS = ('time', 'lon', 'lat', 'depth', 'tag', 'n', 'ts', 'rec', 'e', 'bad', 's', 'ss')


def setup():
    W.setup()
    import dask
    dask.config.set(scheduler='synchronous')


def gen(rng, tier):
    f = {'kill': rng.random() < 0.5, 'fail': rng.random() < 0.35, 'delay': rng.random() < 0.5}
    dt = rng.choice([1, 2, 60, 3600, 0.5])
    sgn = rng.choice([1, 1, -1])
    t0 = rng.choice([0, 1024, 86400])
    total = rng.randint(2, 12 if tier == 'quick' else 24)
    lazy = None
    if rng.random() < 0.3:       # fields are read from files as time goes on
        while True:
            sp = F.spec(rng, dt)
            lo = max(t[0] for t in sp['time'].values())
            hi = min(t[-1] for t in sp['time'].values())
            if sp['period'] is not None or sp['extra']:
                lo, hi = lo - 7, hi + 13
            if hi - lo >= 2:
                break
        total = min(total, hi - lo)
        lazy = {'spec': sp, 'chunks': F.chunkspec(rng, sp) if rng.random() < 0.5 else None}
        off = rng.randint(0, hi - lo - total)
        t0 = (lo + off if sgn > 0 else hi - off) * dt
    nxt = lazy is None and rng.random() < 0.2       # the kernel changes the time step of particles
    f['nextdt'] = nxt
    dates = 'np' if lazy is None and rng.random() < 0.25 else None
    if dates:        # times count from the first date of the fields, one step before (or after) the run
        t0 = dt if sgn > 0 else (total + 1) * dt
    rep = rng.randint(1, total) if rng.random() < 0.3 else None
    if rep:
        f['delay'] = False
    n = rng.randint(1, 5)
    parts = [particle(rng, i + 1, dict(f, delay=f['delay'] and i > 0), t0, dt, sgn, total) for i in range(n)]
    for p in parts:
        p.update(x=p['x'] / 4, y=p['y'] / 4, vx=p['vx'] / dt, vy=p['vy'] / dt)
    for k in ('kill',):
        parts[0].pop(k, None)
    if parts[0].get('ract') == 2:
        parts[0]['ract'] = 0
    ker = rng.choice(['AdvectionRK4+', 'AdvectionEE+', '']) + ('KFail' if f['fail'] else rng.choice(['KStep', 'KSample']))
    if nxt:
        ker = 'KNext+' + rng.choice(['KFail', 'KStep'])
    variants = []
    for _ in range(rng.choice([2, 2, 3])):
        v = {'cuts': sorted(rng.sample(range(1, total), min(total - 1, rng.choice([0, 1, 1, 2, 4])))), 'out': rng.choice([None, 1, 2, 3, 5, 7, 'inf']),
             'cb': rng.choice([None, None, 1, 2, 3, 5]), 'write': rng.random() < 0.3, 'export': rng.random() < 0.2, 'by': rng.choice(['runtime', 'endtime', 'td']),
             'prog': rng.random() < 0.15, 'fresh': rng.random() < 0.2, 'newkernel': rng.random() < 0.3}
        if nxt:            # (a new run starts with the given time step again)
            v['cuts'] = []
        if dates:
            v['by'] = rng.choice(['date', 'pydate', 'td', 'runtime'])
        variants.append(v)
    return {'mode': rng.choice(['jit', 'jit', 'scipy']), 'coord': rng.choice(['f4', 'f8']), 'dt': dt, 't0': t0, 'dir': sgn, 'total': total, 'repeat': rep, 'parts': parts,
            'kernel': ker, 'lazy': lazy, 'curv': rng.choice([None, None, 0.2, 0.7]), 'dates': dates, 'flow': rng.randrange(1 << 30), 'variants': variants, '_lists': ['variants', 'parts'],
            '_scalars': {'coord': ['f4'], 'mode': ['scipy'], 'repeat': [None], 'kernel': ['KStep'], 'lazy': [None], 'curv': [None]}}


def valid(scn):
    p = scn['parts']
    return len(p) > 0 and len(scn['variants']) > 0 and p[0].get('kill') is None and p[0]['rel'] == 0 and p[0].get('ract') != 2


def simulate(scn, env, v, name):
    P = W.PARCELS
    dt, sgn, tot = scn['dt'], scn['dir'], scn['total']
    lo, hi = sorted([scn['t0'], scn['t0'] + sgn * dt * tot])
    if scn.get('lazy'):
        fs = F.from_files(P, scn['lazy']['spec'], scn['files'], True, scn['lazy']['chunks'])
    else:
        fs = flow.fieldset(P, scn['flow'], lo - dt, hi + dt, scale=1.0 / dt, curv=scn.get('curv'), dates=(lambda x: W.date(scn, x)) if scn.get('dates') else None)
    pc = W.make_pclass(P, scn, 'Sim')
    ps = W.make_pset(P, scn, fs, pc, scn['parts'], repeat=scn['repeat'] * dt if scn['repeat'] else None)
    app = W.App.__new__(W.App)
    app.P, app.scn, app.reclog = P, scn, []
    kern = flow.app_kernel(P, ps, scn['kernel'])
    out = None
    if v and v['out']:
        out = ps.ParticleFile(name='%s/%s.nc' % (env.dir, name), outputdt=np.inf if v['out'] == 'inf' else v['out'] * dt, tempwritedir='%s/%s_tmp' % (env.dir, name), convert_at_end=False)
    cuts = [0] + (v['cuts'] if v else []) + [tot]
    t = float(scn['t0'])
    for a, b in zip(cuts[:-1], cuts[1:]):
        kw = dict(dt=sgn * dt, verbose_progress=bool(v and v['prog']), output_file=out)
        if v and v['by'] in ('date', 'pydate'):
            kw['endtime'] = W.date(scn, t + sgn * (b - a) * dt, py=v['by'] == 'pydate')
            env.probe('end-date')
        elif v and v['by'] == 'endtime':
            kw['endtime'] = t + sgn * (b - a) * dt
        elif v and v['by'] == 'td':
            from datetime import timedelta
            kw['runtime'] = timedelta(seconds=(b - a) * dt)
        else:
            kw['runtime'] = (b - a) * dt
        if v and v['cb']:
            kw.update(postIterationCallbacks=[lambda: env.probe('interrupted')], callbackdt=v['cb'] * dt)
        if 'KFail' in scn['kernel']:
            kw['recovery'] = app.recovery()
        if v and v['newkernel'] and a > 0:
            kern = flow.app_kernel(P, ps, scn['kernel'])
        ps.execute(kern, **kw)
        t += sgn * (b - a) * dt
        if v and v['write'] and out:
            out.write(ps, t)
        if v and v['export'] and out:
            out.export()
    ids = np.asarray(ps.id)
    base = int(ids.min())
    rows = sorted((int(i) - base,) + tuple(np.asarray(getattr(ps, c))[k].tobytes().hex() for c in COLS) for k, i in enumerate(ids))
    env.sim_s += tot * dt
    return rows, sorted(app.reclog), [tuple(float(np.asarray(getattr(ps, c))[k]) for c in COLS) for k in np.argsort(ids)]


def run(scn, env):
    if scn.get('lazy'):
        scn = dict(scn, files=F.write(scn['lazy']['spec'], env.dir))
    ref, rlog, val = simulate(scn, env, None, 'ref')
    env.log('ref', val)
    if rlog:
        env.fault('kernel-error', len(rlog))
    nt = False
    for i, v in enumerate(scn['variants']):
        got, glog, gval = simulate(scn, env, v, 'v%d' % i)
        nt = nt or bool(v['cuts'] or v['cb'] or v['out'])
        env.check(got == ref, 'depends-on-interruption', lambda: 'variant %s\nuninterrupted %s\ninterrupted   %s' % (
            v, [x for x in val if x not in gval][:3], [x for x in gval if x not in val][:3]))
        env.check(glog == rlog, 'recoveries-depend-on-interruption', lambda: '%s\n%s' % (rlog[:5], glog[:5]))
        env.log('variant', i, len(got))
        env.probe('variant')
        if len(v['cuts']):
            env.probe('cut', len(v['cuts']))
    env.nontrivial = nt
