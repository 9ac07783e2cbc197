"""C06: a failing step is rolled back, recovered once and isolated."""
import numpy as np

from .. import world as W
from .. import kernels
from ..gen import history, dy
from .c01 import drive

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('Seeded histories in which steps of seeded particles fail - by returned error code, by Python exception, or by sampling a field outside its domain in space or time - '
        'up to three times in a row; recovery leaves, moves or deletes the particle, is missing (the run has to raise and is then continued with recovery), or is registered for another code only. '
        'The sequence of recovery calls with the particle values they saw and the set after every operation are compared with a reference model. Non-trivial: a step failed.')
ASSUMPTIONS = ['all intervals are multiples of the time step; values are exactly representable',
               'recovery always makes progress after at most three failures of a step']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels']
STUBS = ['MPI (in-process, one rank)', 'user kernels and recovery follow the scenario script']


def setup():
    W.setup()


def gen(rng, tier):
    if rng.random() < 0.3:
        return gen_field(rng, tier)
    s = history(rng, tier, out=True if rng.random() < 0.3 else None,
                features={'dates': 0.1, 'nextdt': 0.25, 'unsorted': 0.2, 'fail': 1.0, 'repeat': 0.15, 'delay': 0.4, 'add': 0.25, 'remove': 0.1, 'reverse': 0.2})
    r = rng.random()
    if s['mode'] == 'scipy' and r < 0.3 and s['kernel'] == 'KFail':      # (names of this module are not known in merged kernels)
        s['kernel'] = s['kernel'].replace('KFail', 'KFailPy')
        for p in s['parts'] + [q for o in s['ops'] if o['op'] == 'add' for q in o['parts']]:
            if p.get('fk') == 5:
                p['fk'] = 1
    elif r < 0.55:
        s['kernel'] = rng.choice(['%s+KExtra', 'KExtra+%s']) % s['kernel']
    s['surface'] = rng.random() < 0.3      # no recovery of its own for errors at the surface: the out-of-bounds recovery takes them
    for o in s['ops']:
        if o['op'] == 'exec':
            if rng.random() < 0.25:
                o['cb'] = {'dt': rng.choice([1, 2, 3]), 'num': 1}
            if rng.random() < 0.2 and not s.get('out') and 'KNext' not in s['kernel']:
                o['norec'] = True
    if rng.random() < 0.2 and not s.get('out') and not s.get('repeat'):
        s['ops'].insert(0, {'op': 'exec', 'n': 0, 'dir': s['dir'], 'once': rng.choice(['rt', 'dt', 'end'])})
    s['_scalars']['surface'] = [False]
    return s


def gen_field(rng, tier):
    dt = rng.choice([1, 1, 2, 0.5])
    n = rng.randint(1, 5)
    parts = []
    for i in range(n):
        parts.append({'tag': i + 1, 'x': (2 * rng.randint(-100, 100) + 1) / 32, 'y': (2 * rng.randint(-100, 100) + 1) / 32, 't': rng.choice([0, 0, 1, 2, 3]) * dt,
                      'vx': rng.choice([0, 1, -1, 0.5, 2, -2]) / dt, 'vy': rng.choice([0, 1, -1, 0.25]) / dt, 'ract': rng.choice([0, 0, 2])})
    return {'type': 'field', 'mode': rng.choice(['jit', 'scipy']), 'coord': rng.choice(['f4', 'f8']), 'dt': dt, 't0': 0, 'tmax': rng.choice([6, 12, 1000]) * dt,
            'parts': parts, 'ops': [{'op': 'exec', 'n': rng.randint(1, 12), 'cb': rng.choice([None, 1, 3])} for _ in range(rng.randint(1, 3))],
            '_lists': ['ops', 'parts'], '_scalars': {'coord': ['f4'], 'mode': ['scipy']}}


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0


class NoRec(object):
    """Drive the application; runs without recovery have to raise when a step fails, and are continued with recovery."""

    def __init__(self, app, m, env):
        self.app, self.m, self.env = app, m, env
        self.pset, self.pf = app.pset, app.pf
        self.before = 0

    def __getattr__(self, k):
        return getattr(self.app, k)

    def execute(self, op):
        due = len(self.m.recoveries) > self.before        # the model has made this run already
        self.before = len(self.m.recoveries)
        if op.get('once') or not op.get('norec'):
            return self.app.execute(op)
        sgn = op.get('dir', 1)
        ts = np.asarray(self.pset.time, dtype=float)
        start = ts.min() if sgn > 0 else ts.max()
        end = float(start + sgn * op['n'] * self.app.dt)
        P = self.app.P
        from parcels.tools.statuscodes import KernelError
        try:
            self.app.execute(op)
        except KernelError as e:
            self.env.check(due, 'raised-without-failure', str(e))
            self.env.log('raised', type(e).__name__)
            self.env.probe('unrecovered-error-raised')
        except Exception as e:
            self.env.check(False, 'unregistered-error:wrong-exception', '%s: %s' % (type(e).__name__, e))
        else:
            self.env.check(not due, 'unregistered-error-not-raised', lambda: 'the model expects a failing step in %s' % op)
            return
        assert P is not None
        op = dict(op, norec=False)
        self.app.execute(op, endtime=end, runtime=None, dt=self.app.dt * sgn)


def run(scn, env):
    if scn.get('type') == 'field':
        return run_field(scn, env)
    app = W.App(W.PARCELS, scn, env)
    if scn.get('surface'):
        full = app.recovery

        def partial():
            d = full()
            E = W.PARCELS.ErrorCode
            d.pop(E.ErrorThroughSurface)
            return d
        app.recovery = partial
    m = W.Model(scn)
    m.add(scn['parts'])
    drive(NoRec(app, m, env), m, scn, env)
    exp = sorted(tuple(r) for r in m.recoveries)
    if scn.get('surface'):
        exp = sorted(tuple(2 if i == 2 and x == 4 else x for i, x in enumerate(r)) for r in exp)
    got = sorted(tuple(r) for r in app.reclog)
    env.check(exp == got, 'recovery-calls-differ', lambda: 'expected %d calls, seen %d\nexpected only: %s\nseen only: %s' % (
        len(exp), len(got), [x for x in exp if x not in got][:3], [x for x in got if x not in exp][:3]))
    env.nontrivial = len(exp) > 0
    env.log('recoveries', len(exp))


def run_field(scn, env):
    """Failures that come from the fields: particles leave the domain of P, or its time axis."""
    P = W.PARCELS
    g = np.arange(-8, 9, 4).astype(np.float32)
    X, Y = np.meshgrid(g, g)
    nt = 3
    tm = np.linspace(0, scn['tmax'], nt)
    data = {'U': np.zeros((nt, 5, 5), np.float32), 'V': np.zeros((nt, 5, 5), np.float32), 'P': np.stack([(2 * X + 3 * Y).astype(np.float32)] * nt)}
    fs = P.FieldSet.from_data(data, {'lon': g, 'lat': g, 'time': tm}, mesh='flat', allow_time_extrapolation=False)
    pc = W.make_pclass(P, scn, 'SimF')
    ps = W.make_pset(P, scn, fs, pc, scn['parts'])
    dt = scn['dt']
    m = [dict(x=p['x'], y=p['y'], t=float(p['t']), vx=p['vx'], vy=p['vy'], n=0, ts=0.0, s=0.0, ss=0.0, rec=0, tag=p['tag'], ract=p['ract'], nf=0) for p in scn['parts']]
    elog, rlog = [], []

    def rec(code):
        def f(particle, fieldset, time):
            rlog.append((code, float(particle.tag), float(particle.time), float(particle.lon), float(particle.lat), float(particle.n), float(particle.ts)))
            particle.rec += 1
            if code == 3 or particle.ract == 2:
                particle.delete()
            else:
                particle.vx = -particle.vx
                particle.vy = -particle.vy
        return f
    E = P.ErrorCode
    recovery = {E.ErrorOutOfBounds: rec(2), E.ErrorTimeExtrapolation: rec(3)}
    for op in scn['ops']:
        if not m:
            break
        start = min(p['t'] for p in m)
        end = start + op['n'] * dt
        for p in list(m):
            while p['t'] < end:
                if p['t'] > scn['tmax']:
                    elog.append((3, p['tag'], p['t'], p['x'], p['y'], p['n'], p['ts']))
                    m.remove(p)
                    break
                x, y = p['x'] + p['vx'] * dt, p['y'] + p['vy'] * dt
                if abs(x) > 8 or abs(y) > 8:
                    elog.append((2, p['tag'], p['t'], p['x'], p['y'], p['n'], p['ts']))
                    p['rec'] += 1
                    if p['ract'] == 2:
                        m.remove(p)
                        break
                    p['vx'], p['vy'] = -p['vx'], -p['vy']
                    p['nf'] += 1
                    if p['nf'] > 50:
                        raise AssertionError('scenario without progress')
                    continue
                p.update(x=x, y=y, n=p['n'] + 1, ts=p['ts'] + p['t'], s=2 * x + 3 * y, t=p['t'] + dt)
                p['ss'] += p['s']
        kw = {}
        if op.get('cb'):
            kw = dict(postIterationCallbacks=[lambda: None], callbackdt=op['cb'] * dt)
        ps.execute(kernels.KSampleFail, endtime=end, dt=dt, recovery=recovery, verbose_progress=False, **kw)
        env.sim_s += end - start
        env.check(sorted(elog) == sorted(rlog), 'field-error:recovery-calls-differ', lambda: 'expected %s\nseen %s' % (
            [e for e in elog if e not in rlog][:4], [e for e in rlog if e not in elog][:4]))
        cols = ('time', 'lon', 'lat', 'tag', 'n', 'ts', 'rec', 'bad')
        got = sorted(zip(*[np.asarray(getattr(ps, c), dtype=float).tolist() for c in cols])) if len(ps) else []
        exp = sorted((p['t'], p['x'], p['y'], float(p['tag']), float(p['n']), p['ts'], float(p['rec']), 0.0) for p in m)
        env.check(got == exp, 'field-error:set-differs-from-model', lambda: 'expected %s\ngot %s' % ([e for e in exp if e not in got][:4], [e for e in got if e not in exp][:4]))
        smp = {p['tag']: (p['s'], p['ss']) for p in m}
        for t, s, ss in zip(np.asarray(ps.tag).tolist(), np.asarray(ps.s, dtype=float).tolist(), np.asarray(ps.ss, dtype=float).tolist()):
            env.check(abs(s - smp[t][0]) < 1e-3 and abs(ss - smp[t][1]) < 1e-2, 'field-error:sampled-value', lambda: 'tag %s: %s, expected %s' % (t, (s, ss), smp[t]))
        env.log('exec', end, len(m), len(elog))
    for e in elog:
        env.fault('field-error-%s' % {2: 'out-of-bounds', 3: 'time'}[e[0]])
    env.nontrivial = len(elog) > 0
