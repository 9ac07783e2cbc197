"""C10: deferred field loading gives the same results as full loading."""
import numpy as np

from .. import core
from .. import fieldfiles as F
from .. import flow
from .. import seams
from .. import world as W

LEVEL = 'exploration'
RUNS = {'quick': 260, 'thorough': 8000}
RULE = ('Generated flow fields (different time axes per field, several files, packed data with fill values, dates, periodic or extrapolated time, depth levels, subsets, halos) are read lazily '
        '(with and without spatial chunks) and held in memory; a seeded history of particle sets, forward, backward and zero-step runs, jumps in time, repeated and delayed releases and initialisation from fields '
        'is performed on each, and all particle states and sampled values are compared. Non-trivial: the lazy fields had to load another time at least twice.')
ASSUMPTIONS = ['times of field data are multiples of the time step from the start', 'particles stay inside the domain', 'runs stay inside the time range unless time is periodic or extrapolated']
REAL_CODE = ['parcels (all layers)', 'xarray/dask/netCDF4/HDF5 reading real files', 'gcc-compiled kernels']
STUBS = ['MPI (in-process, one rank)']
COLS = ('time', 'lon', 'lat', 'depth', 'tag', 'n', 'ts', 's', 'ss', 'p0')


def setup():
    W.setup()
    import dask
    dask.config.set(scheduler='synchronous')


def gen_ops(rng, s, tier):
    """Operations with times in steps; every run is inside the valid range of times."""
    if s['period'] is not None or s['extra']:
        lo, hi = -15, 40
    else:
        lo = max(t[0] for t in s['time'].values())
        hi = min(t[-1] for t in s['time'].values())
    if hi - lo < 2:
        return None
    ops, sets = [], []
    for _ in range(rng.randint(2, 7 if tier == 'quick' else 12)):
        if not sets or (len(sets) < 3 and rng.random() < 0.3):
            sgn = rng.choice([1, 1, -1])
            t = rng.randint(lo, hi - 1) if sgn > 0 else rng.randint(lo + 1, hi)
            span = (hi - t) if sgn > 0 else (t - lo)
            n = rng.randint(1, 3)
            ps = []
            delay = rng.random() < 0.3
            for i in range(n):
                rel = rng.randint(0, span - 1) if delay and i > 0 else 0
                ps.append({'tag': i + 1, 'x': rng.randint(-40 * 16, 40 * 16) / 16, 'y': rng.randint(-20 * 16, 20 * 16) / 16, 'z': (rng.choice([5, 7, 12]) if s.get('geo') or s.get('W') else rng.choice([0, 2.5, 7])) if s['depth'] else 0, 'rel': rel})
            rep = rng.randint(1, 5) if not delay and rng.random() < 0.25 else None
            ops.append({'op': 'new', 'k': len(sets), 't': t, 'dir': sgn, 'parts': ps, 'init': rng.random() < 0.3, 'rep': rep})
            sets.append({'t': t, 'dir': sgn, 'free': not delay and rep is None, 'end': t})
            continue
        k = rng.randrange(len(sets))
        st = sets[k]
        sgn = st['dir']
        if st['free'] and rng.random() < 0.3:
            sgn = -sgn
        room = (hi - st['t']) if sgn > 0 else (st['t'] - lo)
        r = rng.random()
        if r < 0.15 and st['free']:
            ops.append({'op': 'once', 'k': k})
        elif room > 0:
            n = min(room, rng.choice([1, 2, 3, 5, 8, 12, 20]))
            ops.append({'op': 'run', 'k': k, 'n': n, 'dir': sgn, 'ker': rng.choice(['AdvectionRK4+KSample', 'AdvectionRK4+KSample', 'AdvectionEE+KSample', 'KSample', 'AdvectionRK4', 'AdvectionEE']),
                        'cb': rng.choice([None, None, 1, 3])})
            if 'geo' in s:
                k_ = ops[-1]['ker']
                if s.get('W'):
                    k_ = k_.replace('AdvectionRK4', 'AdvectionRK4_3D')
                if s.get('comb') and rng.random() < 0.7:
                    k_ = k_.replace('KSample', 'KSampleC')
                ops[-1]['ker'] = k_
            st['t'] += sgn * n
        if not s['period'] and not s['extra'] and rng.random() < 0.03:
            ops.append({'op': 'beyond', 'k': k, 'dir': sgn})
            break
    return ops if any(o['op'] in ('run', 'once') for o in ops) else None


def gen(rng, tier):
    while True:
        dt = rng.choice([1, 1, 0.5, 1.5, 2, 60, 3600, 0.75])
        s = F.spec(rng, dt)
        if rng.random() < 0.5:
            F.rich(rng, s)
        ops = gen_ops(rng, s, tier)
        if ops:
            break
    var = [{'deferred': True, 'chunks': None}]
    if rng.random() < 0.6:
        var.append({'deferred': True, 'chunks': F.chunkspec(rng, s)})
    if rng.random() < 0.15 and not ('geo' in s and s['depth']):
        var.append({'deferred': True, 'chunks': 'auto'})
    if rng.random() < 0.2:
        var.append({'deferred': False, 'chunks': rng.choice([None, F.chunkspec(rng, s)])})
    return {'mode': rng.choice(['jit', 'jit', 'scipy']), 'coord': rng.choice(['f4', 'f8']), 'dt': dt, 'spec': s, 'ops': ops, 'variants': var, '_lists': ['variants', 'ops'],
            '_scalars': {'coord': ['f4']}}


def valid(scn):
    seen = set()
    for o in scn['ops']:
        if o['op'] == 'new':
            seen.add(o['k'])
        elif o['k'] not in seen:
            return False
    return len(scn['variants']) > 0 and len(seen) > 0


def simulate(scn, env, fs, name, start=0, state=None):
    """Perform the history; yields the states of all sets after each operation."""
    P = W.PARCELS
    dt = scn['dt']
    sets, out = {}, []
    for op in scn['ops']:
        err = None
        try:
            step(P, scn, fs, sets, op, dt)
        except (P.tools.statuscodes.TimeExtrapolationError, P.tools.statuscodes.OutOfTimeError):
            if op['op'] != 'beyond':
                raise
            err = 'out of time'
        out.append((err, snapshot(sets)))
    return out


def snapshot(sets):
    r = []
    for k in sorted(sets):
        ps = sets[k]
        o = np.argsort(np.asarray(ps.id))
        r.append(np.array([np.asarray(getattr(ps, c), dtype=np.float64)[o] for c in COLS if hasattr(ps, c)]))
    return r


def step(P, scn, fs, sets, op, dt):
    if op['op'] == 'new':
        pc = W.make_pclass(P, scn, 'Lazy')
        if op['init']:
            pc = type('LazyI', (pc,), {'p0': P.Variable('p0', dtype=np.float32, initial=fs.P)})
        else:
            pc = type('LazyN', (pc,), {'p0': P.Variable('p0', dtype=np.float32, initial=0.)})
        pl = [dict(p, t=(op['t'] + op['dir'] * p['rel']) * dt, kill=-1) for p in op['parts']]
        sets[op['k']] = W.make_pset(P, scn, fs, pc, pl, repeat=op['rep'] * dt if op['rep'] else None)
        return
    ps = sets[op['k']]
    if op['op'] == 'once':
        ps.execute(flow.app_kernel(P, ps, 'KSample'), runtime=0, dt=dt, verbose_progress=op.get('prog', False))
        return
    if op['op'] == 'beyond':
        ps.execute(flow.app_kernel(P, ps, 'AdvectionRK4+KSample'), runtime=100 * dt, dt=op['dir'] * dt, verbose_progress=False)
        return
    kw = {}
    if op.get('cb'):
        kw = dict(postIterationCallbacks=[lambda: None], callbackdt=op['cb'] * dt)
    ps.execute(flow.app_kernel(P, ps, op['ker']), runtime=op['n'] * dt, dt=op['dir'] * dt, verbose_progress=op.get('prog', False), **kw)


def differ(a, b):
    if a.shape != b.shape:
        return 'number of particles %d instead of %d' % (b.shape[1], a.shape[1])
    d = ~((np.abs(a - b) <= 1e-4 + 1e-6 * np.abs(a)) | (np.isnan(a) & np.isnan(b)))
    if d.any():
        c, i = np.argwhere(d)[0]
        return 'particle %d: %s is %r instead of %r' % (i, COLS[c], float(b[c, i]), float(a[c, i]))
    return None


def compare(env, scn, ref, got, cls, what):
    for i, (op, (e1, r), (e2, g)) in enumerate(zip(scn['ops'], ref, got)):
        env.check(e1 == e2, cls + ':error', lambda: '%s: operation %d %s raised %s, with the fields in memory %s' % (what, i, op, e2, e1))
        if op['op'] == 'beyond':
            continue
        for k, (a, b) in enumerate(zip(r, g)):
            d = differ(a, b)
            env.check(d is None, cls, lambda: '%s: after operation %d %s, set %d: %s' % (what, i, op, k, d))


def run(scn, env):
    P = W.PARCELS
    import dask
    s = scn['spec']
    try:
        ref = simulate(scn, env, F.memory(P, s), 'mem')
    except Exception as e:
        raise core.BaselineFailed('%s: %s' % (type(e).__name__, str(e)[:300]))
    env.log('ref', [[x.tolist() for x in r] for _, r in ref][-1])
    files = F.write(s, env.dir)
    loads = [0]
    for v in scn['variants']:
        cnt = [0]

        def counted(op, name):
            cnt[0] += op == 'open'
        seams.S.read_hook = counted
        try:
            with dask.config.set({'array.chunk-size': '256B'}):
                got = simulate(scn, env, F.from_files(P, s, files, v['deferred'], v['chunks']), 'lazy')
        finally:
            seams.S.read_hook = None
        loads[0] = max(loads[0], cnt[0])
        compare(env, scn, ref, got, 'lazy-differs' if v['deferred'] else 'full-differs', 'fields read with %s' % v)
        env.log('variant', cnt[0])
        env.probe('variant:%s' % ('chunked' if v['chunks'] else 'plain'))
    env.probe('loads', loads[0])
    env.sim_s += sum(o.get('n', 0) for o in scn['ops']) * scn['dt']
    env.nontrivial = loads[0] > 8
