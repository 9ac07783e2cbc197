"""C17: callbacks fire exactly at their times and see a settled state."""
import numpy as np

from .. import world as W
from ..gen import history
from .c01 import drive

LEVEL = 'exploration'
RUNS = {'quick': 600, 'thorough': 10000}
RULE = ('Seeded histories of runs with one to three callbacks at seeded intervals, with output, repeated and delayed release, deletion and failing steps; '
        'each callback notes the whole particle set, which is compared with the set of a reference model at that time. Non-trivial: a callback was due.')
ASSUMPTIONS = ['all intervals are multiples of the time step; values are exactly representable',
               'at least one particle is in the set when a run starts']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels']
STUBS = ['MPI (in-process, one rank)', 'user kernels, recovery and callbacks follow the scenario script']


def setup():
    W.setup()


def gen(rng, tier):
    s = history(rng, tier, out=True if rng.random() < 0.6 else None, maxops=3,
                features={'dates': 0.1, 'fail': 0.25, 'repeat': 0.35, 'delay': 0.4, 'add': 0.2, 'remove': 0.1, 'reverse': 0.15})
    for o in s['ops']:
        if o['op'] == 'exec' and rng.random() < 0.9:
            o['cb'] = {'dt': rng.choice([None, None, 1, 2, 3, 4, 5, 7]), 'num': rng.choice([1, 1, 2, 3]), 'td': rng.random() < 0.3}
    return s


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0


class WithCallbacks(object):
    def __init__(self, app, m, scn, env):
        self.app, self.m, self.scn, self.env = app, m, scn, env
        self.pset, self.pf = app.pset, app.pf
        self.due = 0

    def __getattr__(self, k):
        return getattr(self.app, k)

    def execute(self, op):
        cb = op.get('cb')
        if not cb:
            return self.app.execute(op)
        log = []

        def make(i):
            def f():
                log.append((i, self.app.state()))
            return f
        num = cb['num']
        kw = {'postIterationCallbacks': [make(i) for i in range(num)]}
        if cb.get('dt'):
            iv = cb['dt'] * self.app.dt
            if cb.get('td'):
                from datetime import timedelta
                iv = timedelta(seconds=iv)
            kw['callbackdt'] = iv
        o = dict(op)
        o.pop('cb')
        self.app.execute(o, **kw)
        exp = self.m.cb_states
        seen = [(i, s) for i, s in log]
        want = [(i, s) for s in exp for i in range(num)]
        self.due += len(want)
        order = [i for i, _ in seen]
        self.env.check(len(seen) == len(want), 'callback-count', lambda: '%d calls, %d due, interval %s, %s\nat %s\ndue at %s' % (
            len(seen), len(want), cb, op, [s[1][0][0] if s[1] else None for s in seen], [s[1][0][0] if s[1] else None for s in want]))
        self.env.check(order == [i for i, _ in want], 'callback-order', lambda: str(order))
        for a, b in zip(seen, want):
            self.env.check(a[1] == b[1], 'callback-sees-wrong-state', lambda: 'seen %s\ndue %s' % ([x for x in a[1] if x not in b[1]][:4], [x for x in b[1] if x not in a[1]][:4]))
        self.env.log('callbacks', len(seen))
        self.env.probe('callback', len(seen))


def run(scn, env):
    app = W.App(W.PARCELS, scn, env)

    class M(W.Model):
        """Model that notes the whole set at every callback time."""
        def execute(self, n, sgn, outsteps=None, **kw):
            op = self.op
            cb = op.get('cb') or {}
            iv = cb.get('dt')
            if cb and not iv:
                cands = [x for x in (self.scn.get('repeat'), outsteps) if x]
                iv = min(cands) if cands else None
            self.cb_states = []
            return W.Model.execute(self, n, sgn, outsteps=outsteps, cbsteps=iv, cb=bool(cb))

        def at_callback(self, t):
            self.cb_states.append(W.model_state(self))
    m = M(scn)
    m.add(scn['parts'])
    it = iter([o for o in scn['ops']])
    wc = WithCallbacks(app, m, scn, env)

    def between():
        m.op = next(it)
    drive(wc, m, scn, env, between=between)
    env.nontrivial = wc.due > 0
