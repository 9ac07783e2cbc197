"""C13: seeded random runs are exactly reproducible."""
import gc
import json
import os
import random as pyrandom

import numpy as np

from .. import core
from .. import seams
from .. import world as W
from ..gen import dy

LEVEL = 'exploration'
RUNS = {'quick': 260, 'thorough': 8000}
RULE = ('A seeded program of seedings, direct draws and runs of random kernels (compiled and interpreted, built-in diffusion kernels included) with disturbances in between - other kernels compiled, merged, run and '
        'discarded, particle sets and fields created and collected, output written and exported, the clock jumping, the Python and NumPy generators reseeded or used - is performed three times in separate processes: with the disturbances, without '
        'them, and (where every step has a known order of draws) as plain direct draws. All results are compared bit by bit; the values of the basic generator are also compared with an independent implementation. '
        'Non-trivial: a kernel drew numbers after a disturbance.')
ASSUMPTIONS = ['single processor', 'the C library\'s rand() is only drawn from by parcels']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels and random library', 'C library rand()']
STUBS = ['MPI (in-process, one rank)', 'wall clock']
KN = ['RRandom', 'RUniform', 'RInt', 'RNormal', 'RExpo', 'RVonMises', 'RBranch']
DIFF = ['DiffusionUniformKh', 'AdvectionDiffusionM1', 'AdvectionDiffusionEM']
DIST = ['compile', 'merge', 'discard', 'newset', 'field', 'output', 'clock', 'gc', 'numpy', 'recompile', 'failrun', 'export', 'sample']


def setup():
    W.setup()
    from .. import rkernels  # noqa


def gen(rng, tier):
    nset = rng.randint(1, 3)
    sets = [{'mode': rng.choice(['jit', 'jit', 'scipy']), 'coord': rng.choice(['f4', 'f8']), 'x': dy(rng, -8, 8), 'y': dy(rng, -8, 8), 'n': rng.choice([1, 1, 1, 3])} for _ in range(nset)]
    ops = [{'op': 'seed', 'v': rng.choice([0, 1, 2, 1234, rng.randrange(1 << 31)])}]
    dist = [d for d in DIST if rng.random() < 0.5] or ['compile']
    for _ in range(rng.randint(3, 8 if tier == 'quick' else 14)):
        r = rng.random()
        if r < 0.1:
            ops.append({'op': 'seed', 'v': rng.randrange(1 << 31)})
        elif r < 0.3:
            ops.append({'op': 'draw', 'what': [rng.choice(['random', 'uniform', 'randint', 'normal', 'expo', 'vonmises']) for _ in range(rng.randint(1, 4))]})
        elif r < 0.6:
            ops.append({'op': 'run', 'k': rng.randrange(nset), 'ker': rng.choice(KN + KN + DIFF), 'n': rng.randint(1, 6), 'as': rng.choice(['function', 'function', 'kernel', 'merged'])})
        else:
            ops.append({'op': 'dist', 'what': rng.choice(dist), 'k': rng.randrange(nset), 'v': rng.randrange(1000)})
    return {'sets': sets, 'ops': ops, 'pre': rng.randrange(5), '_lists': ['ops'], '_scalars': {'pre': [0]}}


def valid(scn):
    return len(scn['ops']) > 0 and scn['ops'][0]['op'] == 'seed'


class Glibc(object):
    """Additive feedback generator of the C library, independently."""

    def __init__(self, seed):
        seed = seed or 1
        r = [np.int32(np.uint32(seed)).item()]
        for i in range(1, 31):
            v = (16807 * r[-1]) % 2147483647 if r[-1] >= 0 else -((16807 * -r[-1]) % 2147483647)
            r.append(v + 2147483647 if v < 0 else v)
        r += r[:3]
        self.r = [x & 0xffffffff for x in r]
        for _ in range(310):
            self.next()

    def next(self):
        v = (self.r[-3] + self.r[-31]) & 0xffffffff
        self.r.append(v)
        self.r.pop(0)
        return v >> 1


def child(fn):
    """Run fn in a process of its own; returns its result (JSON) or raises what it raised."""
    r, w = os.pipe()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        seams.confine(me)
        os.close(r)
        try:
            out = {'ok': fn()}
        except core.Violation as e:
            out = {'v': [e.cls, e.detail]}
        except BaseException as e:
            import traceback
            out = {'err': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
        try:
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        s = f.read()
    _, st = os.waitpid(pid, 0)
    if not s:
        raise core.Violation('process-died', 'status %d' % st)
    o = json.loads(s)
    if 'v' in o:
        raise core.Violation(*o['v'])
    if 'err' in o:
        raise core.Violation('unexpected-exception:' + o['err'].split(':')[0], o['err'] + '\n' + o['tb'])
    return o['ok']


def fieldset(P):
    lon = np.linspace(-1000, 1000, 6).astype(np.float32)
    z = np.full((6, 6), 0.125, dtype=np.float32)
    fs = P.FieldSet.from_data({'U': z, 'V': z, 'Kh_zonal': z * 8, 'Kh_meridional': z * 4 + lon[None, :] * 1e-3}, {'lon': lon, 'lat': lon}, mesh='flat')
    fs.add_constant('dres', 0.5)
    return fs


def program(scn, env, dist, name):
    """The program; returns the observations after each operation that is not a disturbance."""
    P = W.PARCELS
    from .. import rkernels as RK
    obs = []
    psets, fss, files = [], [], []
    clock = [1e9]
    seams.S.clock = lambda: clock[0]
    for i, s in enumerate(scn['sets']):
        base = P.JITParticle if s['mode'] == 'jit' else P.ScipyParticle
        pc = type('R%d' % i, (base,), {'acc': P.Variable('acc', dtype=np.float64, initial=0.), 'tag': P.Variable('tag', dtype=np.float32, initial=0.)})
        fs = fieldset(P)
        fss.append(fs)
        psets.append(P.ParticleSet(fs, pc, lon=[s['x'] + j for j in range(s['n'])], lat=[s['y']] * s['n'], lonlatdepth_dtype=np.float64 if s['coord'] == 'f8' else np.float32))
        files.append(None)
    junk = []
    p = lambda k: P.rng.__dict__[RK.D[k][0]](*RK.D[k][1])
    for j in range(scn['pre'] if dist else 0):
        P.rng.random()
    for op in scn['ops']:
        if op['op'] == 'seed':
            P.rng.seed(op['v'])
        elif op['op'] == 'draw':
            obs.append([p(k) for k in op['what']])
        elif op['op'] == 'run':
            ps = psets[op['k']]
            f = getattr(RK, op['ker'], None) or getattr(P, op['ker'])
            if op['as'] == 'kernel':
                f = ps.Kernel(f)
            elif op['as'] == 'merged':
                f = ps.Kernel(f) + ps.Kernel(RK.Still)
            ps.execute(f, runtime=op['n'], dt=1., verbose_progress=False)
            obs.append([np.asarray(getattr(ps, c), dtype=float).tolist() for c in ('acc', 'lon', 'lat', 'time')])
        elif dist:
            disturb(P, RK, op, scn, psets, fss, files, junk, clock, env, name)
    return obs


def disturb(P, RK, op, scn, psets, fss, files, junk, clock, env, name):
    w, k, v = op['what'], op['k'], op['v']
    ps = psets[k]
    other = getattr(RK, KN[v % len(KN)])
    clock[0] += [0, 1, -5, 100][v % 4]
    if w == 'compile':
        kr = ps.Kernel(other)
        junk.append(kr)
        if scn['sets'][k]['mode'] == 'jit':
            try:
                from parcels.compilation.codecompiler import GNUCompiler
                kr.compile(compiler=GNUCompiler(cppargs=['-DDOUBLE_COORD_VARIABLES'], incdirs=[os.path.join(os.path.dirname(P.__file__), 'include'), '.']))
                kr.load_lib()
            except (ImportError, AttributeError, TypeError):
                pass
    elif w == 'merge':
        junk.append(ps.Kernel(other) + ps.Kernel(RK.Still))
    elif w in ('discard', 'gc'):
        junk[:] = junk[v % (len(junk) + 1):]
        gc.collect()
    elif w == 'newset':
        base = P.JITParticle if v % 2 else P.ScipyParticle
        q = P.ParticleSet(fss[k], base, lon=[0., 1.], lat=[0., 1.])
        q.execute(RK.Still, runtime=2, dt=1., verbose_progress=False)
        junk.append(q)
    elif w == 'field':
        junk.append(fieldset(P))
    elif w == 'output' or w == 'export':
        if files[k] is None:
            files[k] = ps.ParticleFile(name=os.path.join(env.dir, '%s%d.nc' % (name, k)), outputdt=1.)
            seams.S.fs_root = None
        files[k].write(ps, float(ps.time[0]) + v)
        if w == 'export':
            files[k].export()
    elif w == 'numpy':
        np.random.seed(v)
        pyrandom.seed(v)
        np.random.rand(3)
        pyrandom.random()
    elif w == 'recompile':
        ps.kernel = None
    elif w == 'failrun':
        try:
            ps.execute(RK.Still, runtime=-1, dt=1., verbose_progress=False)
        except AssertionError:
            pass
    elif w == 'sample':
        fss[k].Kh_zonal[0, 0, 1., 1.]
    elif w == 'clock':
        clock[0] -= 1000 * v


def direct(scn):
    """The same draws without kernels."""
    P = W.PARCELS
    from .. import rkernels as RK
    p = lambda k: P.rng.__dict__[RK.D[k][0]](*RK.D[k][1])
    acc = [0.0] * len(scn['sets'])
    obs = []
    g = None
    for op in scn['ops']:
        if op['op'] == 'seed':
            P.rng.seed(op['v'])
            g = Glibc(op['v'])
        elif op['op'] == 'draw':
            obs.append([p(k) for k in op['what']])
            if g is not None and all(k in ('random', 'randint') for k in op['what']):
                exp = [float(np.float32(g.next()) / np.float32(2147483647)) if k == 'random' else g.next() % 1000 for k in op['what']]
                if exp != obs[-1]:
                    raise core.Violation('not-the-generator', 'after seeding: expected %s, drawn %s' % (exp, obs[-1]))
            else:
                g = None
        elif op['op'] == 'run':
            g = None
            if op['ker'] in DIFF:
                return obs
            for _ in range(op['n']):
                acc[op['k']] = RK.fold(p, op['ker'], acc[op['k']])
            obs.append([[acc[op['k']]]])
    return obs


def run(scn, env):
    clean = child(lambda: program(scn, env, False, 'c'))
    again = child(lambda: program(scn, env, False, 'e'))
    dirty = child(lambda: program(scn, env, True, 'd'))
    env.check(clean == again, 'not-reproducible', lambda: diff(scn, clean, again))
    env.check(clean == dirty, 'disturbed', lambda: diff(scn, clean, dirty))
    env.log('obs', clean)
    if all(s['n'] == 1 for s in scn['sets']):
        d = child(lambda: direct(scn))
        for o, c in zip(d, clean):
            c = c if not isinstance(c[0], list) else [c[0]]
            env.check(o == c, 'kernel-draws-differ', lambda: diff(scn, d, [x if not isinstance(x[0], list) else [x[0]] for x in clean]))
        env.probe('direct', len(d))
    seen = False
    for op in scn['ops']:
        if op['op'] == 'dist':
            seen = True
            env.fault('disturb:' + op['what'])
        elif op['op'] == 'run':
            env.nontrivial = env.nontrivial or seen
            env.sim_s += op['n']


def diff(scn, a, b):
    ops = [o for o in scn['ops'] if o['op'] in ('draw', 'run')]
    for o, x, y in zip(ops, a, b):
        if x != y:
            return 'at %s: %s and %s' % (o, x, y)
    return 'lengths %d %d' % (len(a), len(b))
