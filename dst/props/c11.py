"""C11: a parallel run equals the serial run for any scheduling."""
import random

from .. import core
from .. import seams
from .. import simmpi
from .. import world as W
from ..gen import history, particle
from ..sched import Sched

LEVEL = 'exploration'
RUNS = {'quick': 320, 'thorough': 8000}
RULE = ('2-4 processors (one copy of the package each) perform a generated history (delayed and repeated releases, particles added, self-deletion, recovery, output, exports) on particles distributed automatically '
        'or by a seeded partition; a seeded scheduler with seeded processor speeds decides after every communication and file operation who goes on. The union of the processors\' particles after each operation '
        'and the exported file are compared with a reference model of the serial run, identities are compared over all processors. Non-trivial: several processors had particles and the scheduler switched.')
ASSUMPTIONS = ['every processor performs the same calls (single program, multiple data)', 'at least one particle is in the (whole) set when a run starts']
REAL_CODE = ['parcels (all layers), once per processor', 'gcc-compiled kernels', 'netCDF4/HDF5', 'scikit-learn clustering']
STUBS = ['MPI: in-process communicator on a seeded scheduler; processors are tasks of one interpreter']
MAXR = 4
RANKS = None


def setup():
    global RANKS
    W.setup()
    RANKS = W.load_ranks(MAXR)


def gen(rng, tier):
    while True:
        s = history(rng, tier, out=True, features={'dates': 0.1, 'fail': 0.3, 'repeat': 0.4, 'delay': 0.5, 'add': 0.4, 'once': 0.35, 'ondelete': 0.1, 'export': 0.2})
        n = rng.choice([2, 2, 2, 3, 4])
        f = {'kill': rng.random() < 0.6, 'delay': not s.get('repeat')}
        while len(s['parts']) < n or (rng.random() < 0.4 and len(s['parts']) < 8):
            s['parts'].append(particle(rng, len(s['parts']) + 1, f, s['t0'], s['dt'], s['dir'], 6))
        if s.get('repeat'):
            for p in s['parts']:
                p['t'] = s['t0']
        tag = 100
        for o in s['ops']:
            if o['op'] == 'add':
                while len(o['parts']) < n:
                    tag += 1
                    p = particle(rng, tag, {'kill': f['kill']}, s['t0'], s['dt'], s['dir'], 6)
                    p['rel'] = rng.choice([0, 0, 1, 2]) if not s.get('repeat') else 0
                    o['parts'].append(p)
                o['part'] = rng.choice([None, [rng.randrange(n) for _ in o['parts']]])
            if o['op'] == 'exec':
                o['by'] = rng.choice(['runtime', 'runtime', 'endtime'])
        break
    s['n'] = n
    r = rng.random()
    # None: automatic; otherwise where each particle goes (some processors may be left without particles)
    s['part'] = None if r < 0.4 else [i % n for i in range(len(s['parts']))] if r < 0.6 else [rng.randrange(n) for _ in s['parts']]
    s['sched'] = rng.randrange(1 << 30)
    s['speed'] = [rng.choice([1, 1, 1, 0.1, 0.01, 10]) for _ in range(n)]
    s['close'] = rng.random() < 0.5
    s['autotmp'] = rng.random() < 0.4
    s['_lists'] = ['ops']
    s['_scalars']['part'] = [None]
    return s


def valid(scn):
    return any(o['op'] == 'exec' for o in scn['ops']) and len(scn['parts']) >= scn['n']


def plan(scn):
    """The serial run, by the reference model: states after each operation, and what each operation means in absolute terms."""
    m = W.Model(scn)
    m.add(scn['parts'])
    acts = []
    for op in scn['ops']:
        a = dict(op)
        if op['op'] == 'exec':
            if not m.parts:
                continue
            sgn = op.get('dir', 1)
            s, e = m.execute(op['n'], sgn, outsteps=scn['out'].get('dt'))
            a['end'] = e
        elif op['op'] == 'add':
            cur = [p.t for p in m.parts]
            pl = []
            for p in op['parts']:
                q = dict(p)
                base = (max(cur) if op.get('dirhint', 1) > 0 else min(cur)) if cur else scn['t0']
                q['t'] = base + p['rel'] * m.dt * op.get('dirhint', 1)
                pl.append(q)
            m.add(pl)
            a['parts'] = pl
        elif op['op'] == 'export':
            if not any(p.recs for p in m.all):
                continue
            a['recs'] = sum(len(p.recs) for p in m.all)
        acts.append((a, W.model_state(m)))
    return m, acts


def run(scn, env):
    m, acts = plan(scn)
    n = scn['n']
    sched = Sched(random.Random(scn['sched']), log=lambda e: env.sched_h.update(repr(e).encode()), max_steps=100000,
                  bias={'rank%d' % r: w for r, w in enumerate(scn['speed'])})
    net = simmpi.Network(n, sched)
    states = [[None] * len(acts) for _ in range(n)]

    def program(r):
        P, mods, comm = RANKS[r]

        def go():
            app = W.App(P, scn, env, partitions=scn['part'])
            for i, (a, _) in enumerate(acts):
                sched.switch('op')
                if a['op'] == 'exec':
                    kw = {'endtime': a['end'], 'runtime': None} if a['by'] == 'endtime' else {}
                    app.execute(dict(a, by='runtime'), **kw)
                elif a['op'] == 'add':
                    app.add(a['parts'], partitions=a.get('part'))
                elif a['op'] == 'export':
                    app.pf.export()
                states[r][i] = app.state(ids=True)
            if any(p.recs for p in m.all):
                (app.pf.close if scn['close'] else app.pf.export)()
            return True
        return go
    for r in range(n):
        RANKS[r][2].net = net
        RANKS[r][2]._seq = 0
        sched.spawn('rank%d' % r, program(r), modules=RANKS[r][1])
    random.seed(scn['sched'])

    def hook(op, rel, info=None):
        if sched.cur is not None:
            sched.switch('fs:' + op)
        return None
    seams.S.fs_root = env.dir
    seams.S.fs_hook = hook
    try:
        fail = sched.run()
    finally:
        seams.S.fs_hook = None
    env.log('sched', sched.steps, sched.switches, fail)
    for t in sched.tasks:
        if t.exc is not None:
            if isinstance(t.exc, simmpi.MPIError):
                raise core.Violation('mismatched-communication', '%s: %s' % (t.name, t.exc))
            raise t.exc
    env.check(fail is None, 'no-termination', lambda: '%s (%s)' % (fail, scn['part']))
    for kind, c in net.counts.items():
        env.probe('mpi:' + kind, c)
    ident = {}
    for i, (a, ms) in enumerate(acts):
        un = []
        for r in range(n):
            ids = [s[-1] for s in states[r][i]]
            un += states[r][i]
            for s in states[r][i]:
                key = (s[-1], s[4])
                env.check(ident.setdefault(s[-1], (s[4], r)) == (s[4], r), 'id-not-unique', lambda: 'after %s: id %d belongs to %s and to tag %r on processor %d' % (a, s[-1], ident[s[-1]], s[4], r))
            env.check(len(set(ids)) == len(ids), 'id-not-unique', lambda: str(ids))
        ids = [s[-1] for s in un]
        env.check(len(set(ids)) == len(ids), 'id-not-unique', lambda: 'after %s: %s' % (a, sorted(ids)))
        got = sorted(s[:-1] for s in un)
        env.check(got == ms, 'differs-from-serial', lambda: 'after operation %d %s\nserial   %s\nparallel %s' % (i, a, [x for x in ms if x not in got][:4], [x for x in got if x not in ms][:4]))
        env.log('state', i, got)
    if any(p.recs for p in m.all):
        rows = W.read_nc(env.dir + '/out.nc', once=bool(scn.get('once')))
        W.compare_file(env, rows, m, scn)
    if m.dead:
        env.probe('deleted', len(m.dead))
    if m.releases:
        env.probe('repeat-release', len(m.releases))
    env.probe('switches', sched.switches)
    env.sim_s += m.sim_s
    env.nontrivial = sched.switches > 0 and sum(bool(states[r][0]) for r in range(n)) > 1
