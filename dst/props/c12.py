"""C12: restarting from an output file continues the run."""
import os

import numpy as np

from .. import world as W
from .. import flow
from .. import iofault as IO
from ..core import BaselineFailed
from ..gen import particle
from .c02 import _sub

LEVEL = 'exploration'
RUNS = {'quick': 220, 'thorough': 7000}
RULE = ('A history (scripted kernels or advection and sampling in a time-varying flow, forward or backward, with or without a calendar, deletions, delayed releases) is run once in one go and once in legs: each leg runs in '
        'its own or the same process, ends properly or is killed at a seeded event of the simulated disk, and the next leg restarts from its (converted) output file at the last or an earlier written time. Restarted sets are '
        'compared with the records of the undisturbed run at that time, the end states with its end states, and the ids of particles created after a restart with all ids used before. Non-trivial: at least one restart.')
ASSUMPTIONS = ['all variables that matter to the kernels are written', 'particles not yet released at the restart time are not in the file and are not expected', 'values are representable in the precision of the file',
               'a particle deleted exactly at the restart time is not judged here (listed finding)']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels', 'netCDF4/HDF5', 'xarray', 'conversion tool']
STUBS = ['file transfers pass through a seam that can end the process', 'MPI (in-process, one rank)']

T0 = 4096.0
COLS = ('time', 'lon', 'lat', 'depth', 'tag', 'n', 'ts', 'rec', 'kill', 'vx', 'vy', 'bad')


FIXED = [{'mode': 'scipy', 'coord': 'f4', 'dt': 1, 't0': T0, 'dir': 1, 'cal': False, 'flow': 1, 'kernel': 'KStep', 'out': {'dt': 1}, 'once': False, 'writeall': True, 'strict': True, 'last': 2,
          'legs': [{'n': 2, 'fresh': False, 'crash': False, 'u': 0, 'frac': 0, 'back': False, 'ub': 0, 'rt': 'value', 'new': False}],
          'parts': [{'tag': 1, 'x': 1, 'y': 1, 'vx': 0, 'vy': 0, 't': T0, 'rel': 0}, {'tag': 2, 'x': 2, 'y': 2, 'vx': 0, 'vy': 0, 't': T0, 'rel': 0, 'kill': 2}]}]     # the known finding


def setup():
    W.setup()


def gen(rng, tier):
    dt = rng.choice([1, 2, 0.5, 8])
    sgn = rng.choice([1, 1, -1])
    legs = [{'n': rng.randint(1, 5), 'fresh': rng.random() < 0.6, 'crash': rng.random() < 0.3, 'u': rng.random(), 'frac': rng.choice([0, 0.5, 1]), 'back': rng.random() < 0.25, 'ub': rng.random(),
             'rt': rng.choice(['none', 'call', 'value', 'value']), 'new': rng.random() < 0.4} for _ in range(rng.randint(1, 3 if tier == 'quick' else 5))]
    feat = {'kill': rng.random() < 0.6, 'delay': rng.random() < 0.3}
    n = rng.randint(1, 6)
    total = sum(x['n'] for x in legs) + 3
    scn = {'mode': rng.choice(['jit', 'scipy']), 'coord': rng.choice(['f4', 'f8']), 'dt': dt, 't0': T0, 'dir': sgn, 'cal': rng.random() < 0.4, 'flow': rng.randrange(1 << 30),
           'kernel': rng.choice(['KStep', 'KStep', 'AdvectionRK4+KSample']), 'out': {'dt': rng.choice([1, 1, 2, 3])}, 'once': rng.random() < 0.3, 'writeall': True,
           'legs': legs, 'last': rng.randint(1, 4)}
    scn['parts'] = [particle(rng, i + 1, feat, T0, dt, sgn, total) for i in range(n)]
    scn['parts'][0].update(t=T0, rel=0)
    scn['_lists'] = ['legs', 'parts']
    scn['_scalars'] = {'mode': ['scipy'], 'coord': ['f4'], 'dt': [1], 'cal': [False], 'kernel': ['KStep'], 'once': [False], 'last': [1]}
    return scn


def valid(scn):
    return len(scn['parts']) > 0 and scn['parts'][0].get('rel') == 0


class Leg(object):
    """One process's worth of the run."""

    def __init__(self, scn, env, outname, src=None, restarttime=None, restart=True):
        P = W.PARCELS
        self.P, self.scn, self.env = P, scn, env
        self.dt = float(scn['dt'])
        span = 2 * T0
        lon, lat, d = flow.arrays(scn['flow'], nt=33, scale=1.0 / self.dt)
        tm = np.linspace(0, span, 33)
        if scn['cal']:
            tm = np.datetime64('2000-01-01T00:00:00') + (tm * 1000).astype(np.int64).astype('timedelta64[ms]')
        self.fs = P.FieldSet.from_data(d, {'lon': lon, 'lat': lat, 'time': tm}, mesh='flat')
        self.pclass = W.make_pclass(P, scn, 'SimR')
        if src is None:
            self.pset = W.make_pset(P, scn, self.fs, self.pclass, scn['parts'])
        else:
            self.pset = P.ParticleSet.from_particlefile(self.fs, self.pclass, src, restart=restart, restarttime=restarttime, lonlatdepth_dtype=W.coord_dtype(scn))
        self.outname = outname
        self.tmpdir = outname[:-3] + '_tmp'
        self.pf = self.pset.ParticleFile(outname, outputdt=scn['out']['dt'] * self.dt, tempwritedir=self.tmpdir, convert_at_end=False)
        self.kern = flow.app_kernel(P, self.pset, scn['kernel'])

    def run(self, end):
        self.pset.execute(self.kern, endtime=end, dt=self.dt * self.scn['dir'], output_file=self.pf, verbose_progress=False)

    def states(self):
        ps = self.pset
        if not len(ps):
            return {}
        cols = [np.asarray(getattr(ps, k), dtype=float).tolist() for k in COLS]
        return {int(i): list(r) for i, r in zip(np.asarray(ps.id).tolist(), zip(*cols))}


def records(path, scn):
    """{time: {id: record}} of a file, with the columns of COLS that are stored."""
    rows = W.read_nc(path, vars_=('tag', 'n', 'ts', 'rec', 'kill', 'vx', 'vy', 'bad'))
    out, last = {}, {}
    for r in rows:
        i = next(iter(r['ids']))
        for rec in r['recs']:
            out.setdefault(rec[0], {})[i] = list(rec)
        last[i] = r['recs'][-1][0]
    return out, last


def ends(scn):
    t, out = T0, []
    for lg in scn['legs']:
        t += lg['n'] * scn['dt'] * scn['dir']
        out.append(t)
    return out, t + scn['last'] * scn['dt'] * scn['dir']


def run(scn, env):
    sgn, dt = scn['dir'], float(scn['dt'])
    stops, end = ends(scn)

    def ref(send):
        a = Leg(scn, env, env.dir + '/ref.nc')
        a.run(end)
        a.pf.export()
        send('end', sorted(a.states().items()))
    msgs, status = IO.fork_app(ref)
    if not msgs or msgs[-1][0] != 'end':
        raise BaselineFailed(str(msgs[-1:]))
    final = {i: r for i, r in msgs[-1][1]}
    refrec, reflast = records(env.dir + '/ref.nc', scn)
    src, at, restart = None, None, None
    low = None        # the restart times passed so far: particles released after the least advanced of them are not expected
    a = None
    for k, lg in enumerate(scn['legs'] + [None]):
        out = '%s/leg%d.nc' % (env.dir, k)
        stop = end if lg is None else stops[k]
        if src is not None and (stop - at) * sgn <= 0:
            continue

        def begin(e, new, src=src, at=at, restart=restart, out=out):
            leg = Leg(scn, e, out, src, restart)
            got = leg.states()
            if src is not None:
                want = {i: r for i, r in refrec.get(at, {}).items()}
                dead = {i for i in want if i not in final and reflast[i] == at}
                if not scn.get('strict'):
                    drop = [j for j, i in enumerate(got) if i in dead]
                    if drop:
                        env.probe('deleted-at-restart-time', len(drop))
                        leg.pset.remove_indices(np.array(drop))
                        got = leg.states()
                want = {i: r for i, r in want.items() if i not in dead}
                lost = [i for i, p in zip(sorted(initial), scn['parts']) if i in want and (p['t'] - low) * sgn > 0] if low is not None else []
                want = {i: r for i, r in want.items() if i not in lost}
                got = {i: r for i, r in got.items() if r[4] < 100}
                if scn.get('strict'):
                    extra = [i for i in got if i in dead]
                    e.check(not extra, 'restart-resurrects-deleted', lambda: 'deleted exactly at restart time %s: ids %s' % (at, extra))
                f = lambda d: {i: [W.f4(x) if j not in (0, 1, 2, 3) or (scn['coord'] == 'f4' and j in (1, 2, 3)) else x for j, x in enumerate(r)] for i, r in d.items()}  # noqa
                e.check(f(got) == f(want), 'restarted-set-differs', lambda: 'restart at %s\nnot restored %s\nnot in the run %s' % (
                    at, [(i, r) for i, r in f(want).items() if f(got).get(i) != r][:3], [(i, r) for i, r in f(got).items() if f(want).get(i) != r][:3]))
                env.probe('restart')
            if new:
                extra = W.make_pset(leg.P, scn, leg.fs, leg.pclass, [{'tag': 100 + k, 'x': 1, 'y': 2, 'z': 0, 't': at if src is not None else T0}])
                ni = int(extra.id[0])
                used = set(got) | ({i for t in records(src, scn)[0].values() for i in t} if src else set())
                e.check(ni not in used, 'id-reused-after-restart', lambda: 'id %d of a particle created after a restart at %s was used before (%s)' % (ni, at, sorted(used)))
                leg.pset.add(extra)
                env.probe('new-after-restart')
            return leg
        if k == 0:
            initial = list(range(len(scn['parts'])))
        if lg is None:
            a = begin(env, False)
            if not len(a.pset):
                env.probe('empty-restart')
                return
            a.run(end)
            break
        new = lg['new'] and k > 0
        if lg['crash']:
            def legmain(send, plan, out):
                disk = IO.Disk(env.dir, plan=plan, log=False).install()
                leg = begin(env, new, out=out)
                if not len(leg.pset):
                    send('empty')
                    return
                orig = leg.pf.write

                def write(pset, t, deleted_only=False, **kw):
                    orig(pset, t, deleted_only=deleted_only, **kw)
                    if deleted_only is False:
                        send('done', float(t))
                leg.pf.write = write
                leg.run(stop)
                send('end', [o[0] for o in disk.ops])
            dry = '%s/dry%d.nc' % (env.dir, k)
            msgs, st = IO.fork_app(lambda send: legmain(send, None, dry), reraise=True)
            if msgs and msgs[-1][0] == 'empty':
                return
            env.check(bool(msgs) and msgs[-1][0] == 'end', 'leg-failed', lambda: 'the leg from %s to %s failed: %s' % (at, stop, msgs[-1:]))
            ev = IO.pick(msgs[-1][1], lg['u'], False)
            msgs, st = IO.fork_app(lambda send: legmain(send, {'at': ev, 'kind': 'crash', 'frac': lg['frac']}, out))
            env.fault('crash')
            dones = [m_ for m_ in msgs if m_[0] == 'done']
            if not dones or not any(os.path.isdir(x) for x in [out[:-3] + '_tmp']):
                env.probe('crash-before-output')
                continue
            IO.convert(W.PARCELS, out[:-3] + '_tmp')
            times = sorted({m_[1] for m_ in dones}, reverse=sgn < 0)
            times = [t for t in times if t in refrec]
        else:
            box = {}

            def full(send):
                leg = begin(env, new, out=out)
                if not len(leg.pset):
                    send('empty')
                    return
                leg.run(stop)
                leg.pf.export()
                send('end')
            if lg['fresh']:
                msgs, st = IO.fork_app(full, reraise=True)
                if msgs and msgs[-1][0] == 'exception':
                    env.check(False, 'leg-failed', msgs[-1][1:3])
            else:
                box['m'] = []
                full(lambda *m_: box['m'].append(m_))
                msgs = box['m']
            if msgs and msgs[-1][0] == 'empty':
                return
            rec, _ = records(out, scn)
            # the times of full outputs of this leg (others are times of deletion only), in order
            start = T0 if src is None else at
            od = scn['out']['dt'] * dt
            times = sorted([t for t in rec if t in refrec and (abs(t - start) % od == 0 or t == stop)], reverse=sgn < 0)
        if not times:
            return
        t = times[-1]
        if lg['back']:
            t = times[int(lg['ub'] * len(times))]
        # only at times the undisturbed run wrote as well can the restarted set be judged
        od = scn['out']['dt'] * dt
        ok = [x for x in times if abs(x - T0) % od == 0 or x == end]
        if t not in ok:
            if not ok:
                continue
            t = ok[-1]
        src, at = out, t
        low = t if low is None else (min(low, t) if sgn > 0 else max(low, t))
        rt = lg['rt']
        tl = (max if sgn > 0 else min)(records(out, scn)[0])
        if rt == 'call' and t == tl:
            restart = np.nanmax if sgn > 0 else np.nanmin
        elif rt == 'none' and t == tl and sgn > 0:
            restart = None
        elif scn['cal']:
            restart = np.datetime64('2000-01-01T00:00:00') + np.timedelta64(int(t * 1000), 'ms')
        else:
            restart = t
        env.fault('stop')
        env.log('stop', k, at, lg['crash'])
    if a is None:
        return
    got = {i: r for i, r in a.states().items() if r[4] < 100}
    want = {i: r for i, r in final.items() if src is None or not any(i == j and (p['t'] - low) * sgn > 0 for j, p in enumerate(scn['parts']))}
    env.log('final', sorted(got.items()))
    env.check(got == want, 'continued-run-differs', lambda: 'restarted at %s, end %s\nonly in the undisturbed run %s\nonly in the continued run %s' % (
        at, end, [(i, r) for i, r in want.items() if got.get(i) != r][:3], [(i, r) for i, r in got.items() if want.get(i) != r][:3]))
    env.sim_s += abs(end - T0)
    env.nontrivial = src is not None
