"""C19: particle sets in one process do not influence each other."""
import gc
import random

import numpy as np

from .. import core
from .. import fieldfiles as F
from .. import gen as G
from .. import world as W
from . import c01
from . import c10

LEVEL = 'exploration'
RUNS = {'quick': 300, 'thorough': 10000}
RULE = ('Two to four particle sets, each with its own seeded history (runs, additions, removals, deletions, errors, repeated release, output, exports, discarding), are interleaved in one process: at every operation and, '
        'nested, inside callbacks of each other\'s runs. They share particle classes, base classes, fieldsets and kernels or not, and differ in precision, mode, time and written variables. After every operation '
        'each set must be in the state its own reference model says and ids must not be shared; each output file is compared with the model. On lazily read flow fields, sets sharing a fieldset are compared '
        'with the same histories alone. Non-trivial: operations of at least two live sets alternated.')
ASSUMPTIONS = ['single thread; a set is not run from within its own callbacks']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels', 'netCDF4/HDF5', 'xarray/dask', 'file system of the sandbox']
STUBS = ['MPI (in-process, one rank)', 'user kernels and recovery follow the scenario script']
FEAT = {'fail': 0.25, 'repeat': 0.3, 'delay': 0.4, 'add': 0.5, 'remove': 0.25, 'reverse': 0.15, 'ondelete': 0.1, 'once': 0.3, 'export': 0.3, 'xwrite': 0.15, 'late': 0.05}


def setup():
    W.setup()
    import dask
    dask.config.set(scheduler='synchronous')


def gen(rng, tier):
    if rng.random() < 0.2:
        while True:
            s = c10.gen(rng, tier)
            if sum(o['op'] == 'new' for o in s['ops']) > 1 and not any(o['op'] == 'beyond' for o in s['ops']):
                break
        v = s['variants'][-1]
        return dict(s, kind='fields', variants=[v], _lists=['ops'])
    n = rng.choice([2, 2, 3, 4])
    modes = rng.choice([['jit'], ['scipy'], ['jit', 'scipy']])
    sets = []
    for k in range(n):
        h = G.history(rng, tier, out=True, features=FEAT, mode=rng.choice(modes), maxops=3)
        if rng.random() < 0.15:
            h['out'] = None
            h['ops'] = [o for o in h['ops'] if o['op'] in ('exec', 'add', 'remove')]
            h['once'] = False
        for o in h['ops']:
            if o['op'] == 'exec' and rng.random() < 0.5:
                o['cb'] = {'num': 1, 'dt': rng.choice([1, 1, 2])}
        h['hide'] = [v for v in ('n', 'rec', 'ts') if rng.random() < 0.15]
        h['cls'] = rng.choice([0, 0, 1])     # shared particle classes
        h['sub'] = rng.random() < 0.2        # a subclass of the shared class
        h['fs'] = rng.choice([0, 0, 1])
        h['early'] = rng.random() < 0.4      # dropped as soon as it is done
        h['rest'] = rng.random() < 0.15      # a bystander set is made from its output afterwards
        del h['_lists'], h['_scalars']
        sets.append(h)
    once = rng.random() < 0.3
    for h in sets:
        h['once'] = once and h['out'] is not None
    return {'kind': 'histories', 'sets': sets, 'sched': rng.randrange(1 << 30), 'nest': rng.choice([0, 0.2, 0.6]), 'ops': [0],
            '_lists': ['sets'] + ['sets.%d.%s' % (k, w) for k in range(n) for w in ('ops', 'parts')], '_scalars': {'nest': [0]}}


def valid(scn):
    if scn['kind'] == 'fields':
        return c10.valid(scn)
    return len(scn['sets']) > 0 and all(len(h['parts']) > 0 for h in scn['sets'])


class Life(object):
    """One particle set with its model and its remaining operations."""

    def __init__(self, world, k, h):
        self.w, self.k, self.h = world, k, h
        self.app = None
        self.ops = list(h['ops'])
        self.busy = False
        self.done = False
        self.bystander = None

    def create(self):
        self.app = W.App(W.PARCELS, self.h, self.w.env, outdir='out%d' % self.k, fs=self.w.fieldset(self.h['fs']), pclass=self.w.pclass(self.h), hide=self.h['hide'])
        self.app.cb_hook = lambda: self.w.nested(self)
        self.m = W.Model(self.h)
        self.m.add(self.h['parts'])

    def advance(self):
        if self.app is None:
            self.create()
        elif self.ops:
            op = self.ops.pop(0)
            self.busy = True
            try:
                if op['op'] == 'export':
                    self.export('export-midway')
                else:
                    c01.drive(self.app, self.m, dict(self.h, ops=[op]), self.w.env)
            finally:
                self.busy = False
            self.w.env.log('op', self.k, op['op'])
        else:
            self.export('output')
            self.done = True
            if self.h['early']:
                self.drop()

    def export(self, cls):
        if self.app.pf is None or not any(p.recs for p in self.m.all):
            return
        self.app.pf.export()
        self.compare(cls)

    def compare(self, cls):
        env = self.w.env
        keep = [v for v in ('tag', 'n', 'ts', 'rec') if v not in self.h['hide']]
        D = W.seams.REAL['netCDF4.Dataset']
        with D(self.app.outname) as ds:
            have = [v for v in ('tag', 'n', 'ts', 'rec') if v in ds.variables]
        env.check(have == keep, cls + ':variables', lambda: 'set %d: variables %s are in the file, %s are to be written' % (self.k, have, keep))
        rows = W.read_nc(self.app.outname, once=bool(self.h.get('once')), vars_=keep)
        W.compare_file(env, rows, self.m, self.h, cls=cls, hide=self.h['hide'])
        self.rows = rows

    def drop(self):
        P = W.PARCELS
        name, h = self.app.outname, self.h
        had = self.app.pf is not None and any(p.recs for p in self.m.all)
        fs = self.app.fs
        self.app = None
        gc.collect()
        if h['rest'] and had and not h['hide'] and not h.get('repeat') and not any(o['op'] == 'write' for o in h['ops']):
            pc = type('SimP', (P.JITParticle if h['mode'] == 'jit' else P.ScipyParticle,), {v: P.Variable(v, dtype=np.float32, initial=0.) for v in ('tag', 'n', 'rec')})
            self.bystander = P.ParticleSet.from_particlefile(fs, pc, name, restart=True, lonlatdepth_dtype=W.coord_dtype(h))
            self.w.env.probe('bystander-restarted')

    def verify(self):
        if self.app is None or self.busy:
            return
        st, ms = self.app.state(), W.model_state(self.m)
        self.w.env.check(st == ms, 'set-changed-by-another', lambda: 'set %d %s\nmodel %s\nreal  %s' % (self.k, self.h['cls'], [x for x in ms if x not in st][:4], [x for x in st if x not in ms][:4]))
        if self.app.pset.size:
            dt = np.dtype(W.coord_dtype(self.h))
            self.w.env.check(all(np.asarray(getattr(self.app.pset, c)).dtype == dt for c in ('lon', 'lat', 'depth')), 'precision-changed', lambda: 'set %d' % self.k)


class World(object):
    def __init__(self, scn, env):
        self.scn, self.env = scn, env
        self.rng = random.Random(scn['sched'])
        self.fss, self.classes = {}, {}
        self.lives = [Life(self, k, h) for k, h in enumerate(scn['sets'])]
        self.depth = 0
        self.last = None
        self.alternations = 0

    def fieldset(self, i):
        if i not in self.fss:
            self.fss[i] = W.make_fieldset(W.PARCELS, None)
        return self.fss[i]

    def pclass(self, h):
        key = (h['mode'], h['cls'], bool(h.get('once')))
        if key not in self.classes:
            self.classes[key] = W.make_pclass(W.PARCELS, h, 'SimP')
        c = self.classes[key]
        if h['sub']:
            c = type('SimP', (c,), {'more%d' % h['cls']: W.PARCELS.Variable('more%d' % h['cls'], dtype=np.float64, initial=3.)})
        return c

    def pick(self, lives):
        c = [x for x in lives if not x.done and not x.busy]
        return self.rng.choice(c) if c else None

    def nested(self, life):
        if self.depth < 2 and self.rng.random() < self.scn['nest']:
            o = self.pick(self.lives)
            if o is not None:
                self.env.probe('nested')
                self.go(o)

    def go(self, o):
        if self.last is not None and self.last is not o and self.last.app is not None:
            self.alternations += 1
        self.last = o
        self.depth += 1
        try:
            o.advance()
        finally:
            self.depth -= 1
        ids = {}
        for x in self.lives:
            x.verify()
            for ps in ([x.app.pset] if x.app is not None else []) + ([x.bystander] if x.bystander is not None else []):
                if x.busy:
                    continue
                i = np.asarray(ps.id).tolist() if ps.size else []
                self.env.check(len(set(i)) == len(i), 'id-twice-in-a-set', lambda: 'set %d: %s' % (x.k, i))
                for j in i:
                    self.env.check(j not in ids, 'id-shared', lambda: 'id %d in sets %d and %d' % (j, ids[j], x.k))
                    ids[j] = x.k

    def run(self):
        while True:
            o = self.pick(self.lives)
            if o is None:
                break
            self.go(o)


def run(scn, env):
    if scn['kind'] == 'fields':
        return run_fields(scn, env)
    w = World(scn, env)
    w.run()
    for x in w.lives:
        if x.app is not None and hasattr(x, 'rows'):
            x.compare('output-later')
    env.sim_s += 0
    env.nontrivial = w.alternations > 1
    env.probe('alternations', w.alternations)


def run_fields(scn, env):
    import dask
    P = W.PARCELS
    s = scn['spec']
    v = scn['variants'][0]
    files = F.write(s, env.dir)

    def perform(ops):
        with dask.config.set({'array.chunk-size': '256B'}):
            return c10.simulate(dict(scn, ops=ops), env, F.from_files(P, s, files, v['deferred'], v['chunks']), 'sets')
    ks = sorted({o['k'] for o in scn['ops']})
    alone = {}
    try:
        for k in ks:
            alone[k] = perform([o for o in scn['ops'] if o['k'] == k])
    except core.Violation:
        raise
    except Exception as e:
        raise core.BaselineFailed('%s: %s' % (type(e).__name__, str(e)[:300]))
    got = perform(scn['ops'])
    pos = {k: 0 for k in ks}
    order = []
    last = None
    for op, (err, snap) in zip(scn['ops'], got):
        k = op['k']
        if op['op'] == 'new':
            order = sorted(order + [k])
        pos[k] += 1
        for j, x in zip(order, snap):
            d = c10.differ(alone[j][pos[j] - 1][1][0], x)
            env.check(d is None, 'shared-fieldset-changes-results', lambda: 'set %d after operation %s: %s' % (j, op, d))
        if last is not None and last != k and len(order) > 1:
            env.nontrivial = True
        last = k
    env.log('fields', [x.tolist() for x in got[-1][1]] if got else None)
    env.probe('shared-lazy-fields')
    env.sim_s += sum(o.get('n', 0) for o in scn['ops']) * scn['dt']
