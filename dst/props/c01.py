"""C01: trajectory output is complete, exact and free of duplicates."""
from .. import world as W
from ..gen import history

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('Seeded histories of 1-6 operations (runs forward/backward, particles added, removed, explicit writes, exports) on 1-6 scripted '
        'particles with delayed/repeated release, self-deletion and failing steps with recovery; the exported file is compared with a reference model. '
        'Non-trivial: at least one record was expected.')
ASSUMPTIONS = ['all intervals are multiples of the time step; values are exactly representable',
               'at least one particle is in the set when a run starts']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels', 'netCDF4/HDF5', 'file system of the sandbox']
STUBS = ['MPI (in-process, one rank)', 'wall clock (not advanced by this check)', 'user kernels and recovery follow the scenario script']


def setup():
    W.setup()


def gen(rng, tier):
    return history(rng, tier, out=True, features={'dates': 0.15, 'notime': 0.15, 'default': 0.15, 'fail': 0.35, 'repeat': 0.3, 'delay': 0.5, 'add': 0.4, 'remove': 0.2, 'nextdt': 0.25, 'unsorted': 0.25,
                                                  'reverse': 0.15, 'oncemoves': 0.5, 'ondelete': 0.15, 'once': 0.35, 'export': 0.2,
                                                  'xwrite': 0.25, 'late': 0.12})


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0


def run(scn, env):
    P = W.PARCELS
    app = W.App(P, scn, env)
    m = W.Model(scn)
    m.add(scn['parts'])
    drive(app, m, scn, env)
    if app.pf is not None and any(p.recs for p in m.all):
        app.pf.export()
        rows = W.read_nc(app.outname, once=bool(scn.get('once')))
        W.compare_file(env, rows, m, scn)
        for r in rows:
            env.log('row', len(r['recs']), r['recs'][-1])
        # time order inside a trajectory, for histories that do not turn round
        if len({o.get('dir', 1) for o in scn['ops'] if o['op'] == 'exec'}) == 1:
            sg = [o.get('dir', 1) for o in scn['ops'] if o['op'] == 'exec'][0]
            for r in rows:
                ts = [x[0] * sg for x in r['recs']]
                env.check(ts == sorted(ts), 'output:time-order', lambda: str(r['recs']))
        # identities: the live particle with a row's id is the one the row tells of
        live = {s[-1]: s for s in app.state(ids=True)}
        for r in rows:
            i = next(iter(r['ids']))
            if i in live:
                env.check(W.f4(live[i][4]) == r['recs'][0][4], 'output:identity', lambda: 'id %d: live tag %r, row %r' % (i, live[i], r['recs'][0]))
    else:
        env.nontrivial = False


def drive(app, m, scn, env, between=None):
    """Run the operations on the application and on the model side by side."""
    for op in scn["ops"]:
        pending = bool(W.np.isnan(W.np.asarray(app.pset.time, dtype=float)).any())     # particles whose release time is not settled yet
        if between is not None and not pending:
            between()
        k = op['op']
        if pending:
            env.probe('no-release-time')
            if k in ('remove', 'write') or op.get('once'):
                continue
        if k == 'exec':
            if not m.parts:
                env.probe('skip-empty')
                continue
            sgn = op.get('dir', 1)
            if op.get('once'):
                ts = {p.t for p in m.parts}
                if len(ts) > 1:
                    env.probe('skip-once')
                    continue
                m.once()
                app.execute(op)
                env.log('once', len(m.parts))
                env.probe('run-without-steps')
                st, ms = app.state(), W.model_state(m)
                env.check(st == ms, 'run-without-steps-differs-from-model', lambda: 'after %s\nmodel %s\nreal  %s' % (op, [x for x in ms if x not in st][:4], [x for x in st if x not in ms][:4]))
                continue
            osteps = scn['out'].get('dt') if scn.get('out') else None
            end = None
            if op.get('by') == 'default':
                end = W.axis_default(scn, -sgn)
                if min([p.t * sgn for p in m.parts]) >= end * sgn:
                    op, end = dict(op, by='runtime'), None
                else:
                    env.probe('default-end')
            s, e = m.execute(op['n'], sgn, outsteps=osteps, end=end)
            app.execute(op)
            env.sim_s += abs(e - s)
            env.log('exec', s, e, len(m.parts))
        elif k == 'add':
            cur = [p.t for p in m.parts if p.v['inc']]
            pl = []
            for p in op['parts']:
                q = dict(p)
                base = (max(cur) if op.get('dirhint', 1) > 0 else min(cur)) if cur else scn['t0']
                q['t'] = base + p['rel'] * m.dt * op.get('dirhint', 1)
                if op.get('notime'):
                    q.update(t=W.axis_default(scn, op.get('dirhint', 1)), notime=True)
                pl.append(q)
            m.add(pl)
            app.add(pl, split=op.get('split'))
            env.log('add', len(pl))
            env.probe('add')
        elif k == 'remove':
            idx = sorted({i % len(m.parts) for i in op['idx']}) if m.parts else []
            if not idx or len(idx) >= len(m.parts):
                continue
            # by position in the real set: translate through the (tag, time, n) state
            tags = [W.json.dumps(r) for r in zip(*[W.np.asarray(getattr(app.pset, c), dtype=float).tolist() for c in W.STATE])]
            want = [W.json.dumps(list(m.parts[i].state())) for i in idx]
            real = []
            for w in want:
                env.check(w in tags, 'set-differs-from-model', lambda: 'particle %s not in set %s' % (w, tags))
                j = [j for j, t in enumerate(tags) if t == w and j not in real][0]
                real.append(j)
            m.remove(idx)
            app.pset.remove_indices(W.np.array(sorted(real)))
            env.log('remove', len(real))
            env.probe('remove')
        elif k == 'write':
            if not m.parts or app.pf is None:
                continue
            ts = [p.t for p in m.parts]
            t = max(ts) if op.get('last', 1) else min(ts)
            m.write(t)
            app.pf.write(app.pset, t)
            env.log('write', t)
            env.probe('explicit-write')
        elif k == 'export':
            if app.pf is not None and any(p.recs for p in m.all):
                app.pf.export()
                W.compare_file(env, W.read_nc(app.outname, once=bool(scn.get('once'))), m, scn, cls='export-midway')
                env.probe('export-midway')
        if W.np.isnan(W.np.asarray(app.pset.time, dtype=float)).any():
            continue
        st, ms = app.state(), W.model_state(m)
        env.check(st == ms, 'set-differs-from-model', lambda: 'after %s\nmodel %s\nreal  %s' % (op, [x for x in ms if x not in st][:4], [x for x in st if x not in ms][:4]))
    if scn.get('dates'):
        env.probe('dates')
    if m.dead:
        env.probe('deleted', len(m.dead))
    if m.recoveries:
        env.probe('recovered', len(m.recoveries))
        env.fault('kernel-error', len(m.recoveries))
    if m.releases:
        env.probe('repeat-release', len(m.releases))
