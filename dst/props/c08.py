"""C08: repeated releases happen at the right times with the right values."""
from .. import world as W
from ..gen import history
from .c01 import drive

LEVEL = 'exploration'
RUNS = {'quick': 700, 'thorough': 12000}
RULE = ('Seeded histories on particle sets with a repeat interval, cut into 1-6 runs with output, callbacks, runs without time steps and removals at seeded places, forwards or backwards; '
        'after every operation the set - including the release times, initial values and ids of all released particles - is compared with a reference model. Non-trivial: a release was due.')
ASSUMPTIONS = ['all intervals are multiples of the time step; values are exactly representable',
               'at least one particle is in the set when a run starts (a run of an empty set has no start time)']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels']
STUBS = ['MPI (in-process, one rank)', 'user kernels and recovery follow the scenario script']


def setup():
    W.setup()


def gen(rng, tier):
    s = history(rng, tier, out=True if rng.random() < 0.4 else None, maxops=5 if tier == 'quick' else 8,
                features={'dates': 0.15, 'notime': 0.15, 'default': 0.15, 'unsorted': 0.2, 'fail': 0.2, 'repeat': 1.0, 'add': 0.2, 'remove': 0.3, 'once': 0.3, 'export': 0.1, 'xwrite': 0.1})
    s['repeat'] = rng.choice([1, 1, 2, 3, 4, 5, s['repeat']])
    for o in s['ops']:
        if o['op'] == 'exec' and rng.random() < 0.3:
            o['cb'] = {'dt': rng.choice([1, 2, 3, 5]), 'num': 1}
    if rng.random() < 0.3 and not s.get('out'):
        s['ops'].insert(rng.randint(0, len(s['ops'])), {'op': 'exec', 'n': 0, 'dir': s['dir'], 'once': rng.choice(['rt', 'dt', 'end'])})
    if rng.random() < 0.3:
        for p in s['parts']:
            p['z'] = rng.choice([0, 0.5, 2, -1])
    return s


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0 and scn.get('repeat')


def run(scn, env):
    app = W.App(W.PARCELS, scn, env)
    m = W.Model(scn)
    m.add(scn['parts'])
    seen = {}

    def ids():
        # an id belongs to one particle for ever
        for s in app.state(ids=True):
            k = (s[4],)
            env.check(seen.setdefault(s[-1], k) == k, 'id-reused', lambda: 'id %d was particle %s, is now %s' % (s[-1], seen[s[-1]], k))
        live = [s[-1] for s in app.state(ids=True)]
        env.check(len(live) == len(set(live)), 'id-twice-in-set', lambda: str(sorted(live)))
    drive(app, m, scn, env, between=ids)
    ids()
    env.check(len(seen) <= len(m.all), 'more-ids-than-particles', lambda: '%d ids, %d particles' % (len(seen), len(m.all)))
    env.nontrivial = len(m.releases) > 0
