"""C15: the wall clock never influences results."""
import io
import json

from .. import core
from .. import fieldfiles as F
from .. import gen as G
from .. import seams
from .. import world as W
from . import c01
from . import c10

LEVEL = 'exploration'
RUNS = {'quick': 300, 'thorough': 12000}
RULE = ('Seeded histories of runs with output, additions, repeated release, deletion, errors with recovery and exports, and histories on lazily read flow fields, are performed under a simulated clock that runs at any '
        'rate, stalls, jumps forwards and backwards or stands still - as seen by parcels and by the progress display, whose use is chosen per run. Particle states, output files (with particle ids) and callbacks '
        'are compared with a reference model and with the same history under an ideal clock. Non-trivial: the clock jumped or a run took longer than ten simulated seconds while it was read.')
ASSUMPTIONS = ['the clock stays within the range of dates that datetime can represent']
REAL_CODE = ['parcels (all layers)', 'progressbar2', 'gcc-compiled kernels', 'netCDF4/HDF5', 'xarray/dask']
STUBS = ['MPI (in-process, one rank)', 'wall clock and timers (simulated)', 'terminal (a buffer)']


def setup():
    W.setup()
    import dask
    dask.config.set(scheduler='synchronous')
    import progressbar  # noqa


def gen(rng, tier):
    if rng.random() < 0.75:
        scn = G.history(rng, tier, out=True, features={'dates': 0.1, 'fail': 0.3, 'repeat': 0.35, 'delay': 0.4, 'add': 0.4, 'remove': 0.2, 'reverse': 0.15, 'ondelete': 0.1, 'once': 0.3, 'export': 0.3, 'late': 0.1})
        scn['kind'] = 'history'
        for o in scn['ops']:
            if o['op'] == 'exec' and rng.random() < 0.3:
                o['cb'] = {'num': rng.randint(1, 2), 'dt': rng.choice([None, 1, 2])}
    else:
        scn = c10.gen(rng, tier)
        scn['kind'] = 'fields'
        scn['variants'] = scn['variants'][:1] if rng.random() < 0.5 else scn['variants'][-1:]
        scn['_lists'] = ['ops']
    for o in scn['ops']:
        o['prog'] = rng.choice([None, None, None, True, False])
    n = rng.choice([1, 2, 4, 8])
    scn['clock'] = {'rate': rng.choice([0, 0, 1e-6, 1e-3, 0.4, 3, 11, 1000]), 'start': rng.choice([86400, 1e9, 1e9, 1.7e9]),
                    'jumps': [[rng.randint(1, rng.choice([6, 20, 60, 200])), rng.choice([1, 1, -1]) * rng.choice([1e-3, 5, 10.5, 100, 3600, 86400 * 30, 3e8])] for _ in range(n)]}
    scn['_lists'].append('clock.jumps')
    return scn


def valid(scn):
    return c01.valid(scn) if scn['kind'] == 'history' else c10.valid(scn)


class Clock(object):
    def __init__(self, spec, env=None):
        self.t, self.n, self.spec, self.env = float(spec['start']), 0, spec, env
        self.lo = self.hi = self.t

    def __call__(self):
        self.n += 1
        self.t += self.spec['rate']
        for at, by in self.spec['jumps']:
            if at == self.n:
                if not 1 <= self.t + by < 4e9:
                    by = -by
                self.t += by
                if self.env is not None:
                    self.env.fault('clock-forward' if by > 0 else 'clock-back')
        self.hi = max(self.hi, self.t)
        return self.t


IDEAL = {'rate': 1e-6, 'start': 1e9, 'jumps': []}


def history(scn, env, name, disturbed):
    """One performance of the history; returns what can be observed."""
    s = scn if disturbed else dict(scn, ops=[dict(o, prog=False) for o in scn['ops']])
    app = W.App(W.PARCELS, s, env, outdir=name)
    m = W.Model(s)
    m.add(s['parts'])
    c01.drive(app, m, s, env)
    rows = None
    if app.pf is not None and any(p.recs for p in m.all):
        app.pf.export()
        rows = W.read_nc(app.outname, once=bool(s.get('once')))
        W.compare_file(env, rows, m, s)
        rows = [[sorted(r['ids']), r['recs'], r['once']] for r in rows]
    st = app.state(ids=True)
    i0 = min([x[0][0] for x in rows or [] if x[0]] + [int(x[-1]) for x in st] + [1 << 60])
    for x in rows or []:
        x[0] = [i - i0 for i in x[0]]
    return {'state': [list(x[:-1]) + [x[-1] - i0] for x in st], 'rows': sorted(rows or []), 'callbacks': app.cblog}


def fields(scn, env, files, disturbed):
    s = scn if disturbed else dict(scn, ops=[dict(o, prog=False) for o in scn['ops']])
    v = s['variants'][0]
    import dask
    with dask.config.set({'array.chunk-size': '256B'}):
        got = c10.simulate(s, env, F.from_files(W.PARCELS, s['spec'], files, v['deferred'], v['chunks']), 'clock')
    return [[e, [[[None if y != y else y for y in c] for c in x.tolist()] for x in r]] for e, r in got]


def run(scn, env):
    files = None
    if scn['kind'] == 'fields':
        files = F.write(scn['spec'], env.dir)

    def perform(name, disturbed):
        if scn['kind'] == 'history':
            return history(scn, env, name, disturbed)
        return fields(scn, env, files, disturbed)
    seams.S.clock = Clock(IDEAL)
    try:
        ref = perform('ideal', False)
    except core.Violation as e:
        raise core.BaselineFailed('%s: %s' % (e.cls, e.detail[:300]))
    except Exception as e:
        raise core.BaselineFailed('%s: %s' % (type(e).__name__, str(e)[:300]))
    env.sim_s = 0
    c = seams.S.clock = Clock(scn['clock'], env)
    import progressbar
    old = progressbar.streams.original_stderr
    progressbar.streams.original_stderr = term = io.StringIO()
    try:
        got = perform('clock', True)
    finally:
        progressbar.streams.original_stderr = old
        seams.S.clock = None
    env.log('reads', c.n)
    for k in ref if isinstance(ref, dict) else range(len(ref)):
        env.check(json.dumps(ref[k]) == json.dumps(got[k]), 'clock-changes-results', lambda: '%s: %s with an ideal clock, %s with %s' % (k, str(ref[k])[:500], str(got[k])[:500], scn['clock']))
    env.log('result', ref if isinstance(ref, dict) else ref[-1])
    shown = len(term.getvalue()) > 0
    env.probe('progress-shown' if shown else 'no-progress')
    if scn['clock']['rate'] == 0:
        env.fault('clock-frozen')
    env.nontrivial = c.n > 1 and (shown or c.hi - c.lo > 10 or any(at <= c.n for at, by in scn['clock']['jumps']))
