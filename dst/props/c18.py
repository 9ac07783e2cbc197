"""C18: every particle performs each of its time steps exactly once."""
from .. import world as W
from ..gen import history
from .c01 import drive

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('Seeded histories of runs (forward, backward, without time steps) on 1-6 scripted particles with delayed and repeated release, deletion, '
        'failing steps, callbacks and output interrupting the run at seeded intervals; the kernel counts its executions, sums the times it saw and notes '
        'every step that does not start where the last one ended; after every operation the whole set is compared with a reference model. Non-trivial: at least one step was due.')
ASSUMPTIONS = ['all intervals are multiples of the time step; values are exactly representable',
               'at least one particle is in the set when a run starts']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels']
STUBS = ['MPI (in-process, one rank)', 'user kernels and recovery follow the scenario script']


def setup():
    W.setup()


def gen(rng, tier):
    s = history(rng, tier, out=True if rng.random() < 0.4 else None,
                features={'dates': 0.15, 'notime': 0.15, 'default': 0.15, 'nextdt': 0.25, 'unsorted': 0.2, 'fail': 0.35, 'repeat': 0.25, 'delay': 0.6, 'add': 0.4, 'remove': 0.2, 'reverse': 0.25, 'once': 0.2, 'late': 0.1})
    for o in s['ops']:
        if o['op'] == 'exec':
            if rng.random() < 0.3:
                o['cb'] = {'dt': rng.choice([1, 2, 3, 5]), 'num': 1}
            if rng.random() < 0.15:
                o['prog'] = True
    if rng.random() < 0.25 and not s.get('out'):
        i = rng.randint(0, len(s['ops']))
        s['ops'].insert(i, {'op': 'exec', 'n': 0, 'dir': s['dir'], 'once': rng.choice(['rt', 'dt', 'end'])})
    if rng.random() < 0.25:
        s['kernel'] = rng.choice(['%s+KExtra', 'KExtra+%s']) % s['kernel']
    return s


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0


def run(scn, env):
    app = W.App(W.PARCELS, scn, env)
    m = W.Model(scn)
    m.add(scn['parts'])
    drive(app, m, scn, env)
    env.nontrivial = any(p.log for p in m.all)
