"""C14: kernels always run the code they were built from."""
import gc
import importlib.util
import json
import os
import random
import subprocess
import sys
import tempfile

import numpy as np

from .. import core
from .. import iofault
from .. import seams
from .. import world as W

LEVEL = 'exploration'
RUNS = {'quick': 300, 'thorough': 12000}
RULE = ('One or two processes, sharing one cache directory and showing equal clocks (frozen, coarse, stepping back or running), each create particle sets, build, merge, run and discard kernels '
        '- different functions of equal names among them - while compilations fail (compiler error, compiler killed, no compiler, full or failing disk, interrupt, unusable library). The value accumulated '
        'by each particle is compared with a model that applies exactly the function given to each run; after a failed compilation the particles must be unchanged and the repeated call must succeed; once '
        'everything is discarded, the cache directory must be empty. The processes interleave at every operation on the cache directory. Non-trivial: at least two compilations and a run.')
ASSUMPTIONS = ['kernels use particle variables, field values and constants only', 'a failed call is repeated before the kernel is discarded (files of a failed compilation are kept for inspection)']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels, dlopen and dlclose', 'cache directory on a scratch disk']
STUBS = ['MPI (in-process, one rank)', 'wall clock', 'outcome of the compiler when it fails']
NAMES = ['A', 'B', 'C']
FAULTS = ['rc', 'killed', 'nocc', 'int', 'badlib', 'gone', 'enospc', 'eio', 'enospc', 'eacces']


def setup():
    W.setup()


def gen_def(rng):
    kind = rng.choice(['lin', 'lin', 'const', 'field', 'cond', 'local', 'second', 'sign', 'cfun'])
    return {'name': rng.choice(NAMES), 'kind': kind, 'a': rng.choice([1, 1, -1, 2]), 'b': rng.randint(-20, 20) / 4.0, 'inc': rng.choice(['str', 'file'])}


def gen_proc(rng, tier):
    defs = [gen_def(rng) for _ in range(rng.randint(2, 5))]
    if rng.random() < 0.5:
        for d in defs[1:]:
            d['name'] = defs[0]['name']
        if rng.random() < 0.5:
            for d in defs[1:]:
                d['kind'] = defs[0]['kind']
    specs = [{'mode': rng.choice(['jit', 'jit', 'jit', 'scipy']), 'coord': rng.choice(['f4', 'f4', 'f8']), 'cls': rng.randrange(2), 'fs': rng.randrange(2)} for _ in range(rng.randint(1, 3))]
    pfault = rng.choice([0, 0, 0.15, 0.4])
    ops = [{'op': 'set', 's': rng.randrange(len(specs))}]
    if rng.random() < 0.25:
        # kernels that bring C functions, merged and run
        for d in defs[:rng.randint(1, 3)]:
            d['kind'] = 'cfun'
        specs[0]['mode'] = 'jit'
        ops[0]['s'] = 0
        for d in range(min(len(defs), 3)):
            ops.append({'op': 'build', 'k': 0, 'd': d, 'keep': False})
        for _ in range(rng.randint(1, 3)):
            ops.append({'op': 'merge', 'i': rng.randrange(100), 'j': rng.randrange(100), 'how': rng.choice(['kk', 'kk', 'kf', 'fk']), 'd': rng.randrange(len(defs))})
            ops.append({'op': 'run', 'k': 0, 'n': 1, 'kr': rng.randrange(100)})
    for _ in range(rng.randint(6, 20 if tier == 'quick' else 24)):
        r = rng.random()
        k, j = rng.randrange(100), rng.randrange(100)
        if r < 0.12:
            ops.append({'op': 'set', 's': rng.randrange(len(specs))})
        elif r < 0.27:
            ops.append({'op': 'build', 'k': k, 'd': rng.randrange(len(defs)), 'keep': rng.random() < 0.04})
        elif r < 0.4:
            ops.append({'op': 'merge', 'i': k, 'j': j, 'how': rng.choice(['kk', 'kk', 'kf', 'fk']), 'd': rng.randrange(len(defs))})
        elif r < 0.55:
            ops.append({'op': rng.choice(['drop-kernel', 'drop-set', 'gc', 'drop-kernel', 'clean-cache']), 'k': k, 'gc': rng.random() < 0.6})
        else:
            o = {'op': 'run', 'k': k, 'n': rng.randint(1, 3)}
            if rng.random() < 0.5:
                o['d'] = rng.randrange(len(defs))
            else:
                o['kr'] = j
            if rng.random() < pfault:
                o['fault'] = {'kind': rng.choice(FAULTS), 'at': rng.randrange(5), 'len': rng.choice([1, 1, 2, 5])}
            ops.append(o)
    return {'defs': defs, 'specs': specs, 'ops': ops}


def gen(rng, tier):
    two = rng.random() < 0.35
    procs = [gen_proc(rng, tier)]
    if two:
        procs.append(gen_proc(rng, tier))
        if rng.random() < 0.6:
            # the same program but for the constants, as in a parameter study
            p = json.loads(json.dumps(procs[0]))
            for d in p['defs']:
                d['b'] += 0.25
            procs[1] = p
    scn = {'procs': procs, 'clock': rng.choice(['frozen', 'frozen', 'coarse', 'back', 'run']), 'sched': rng.randrange(1 << 30), 'switch': rng.choice([0.1, 0.5, 0.9])}
    scn['_lists'] = ['procs'] + ['procs.%d.ops' % i for i in range(len(procs))]
    scn['_scalars'] = {'clock': ['run', 'frozen']}
    return scn


def shrink(scn):
    """Simpler variants: a process left out, operations left out, faults left out."""
    out = []
    if len(scn['procs']) > 1:
        for i in range(len(scn['procs'])):
            t = json.loads(json.dumps(scn))
            del t['procs'][i]
            out.append(t)
    for i, p in enumerate(scn['procs']):
        n = len(p['ops'])
        for size in (n // 2, n // 4, 1):
            if size:
                for a in range(0, n, size):
                    t = json.loads(json.dumps(scn))
                    del t['procs'][i]['ops'][a:a + size]
                    out.append(t)
        for a, o in enumerate(p['ops']):
            if 'fault' in o:
                t = json.loads(json.dumps(scn))
                del t['procs'][i]['ops'][a]['fault']
                out.append(t)
    return out


SRC = """
def %(name)s(particle, fieldset, time):
%(body)s
"""


def body(d, i, jit=False):
    a, b = repr(float(d['a'])), repr(d['b'])
    return {'cfun': ("    cfun%d('parcels_customed_Cfunc_pointer_args', particle.acc)" % i) if jit else ('    particle.acc = particle.acc * 0.5 + %s' % b),
            'lin': '    particle.acc = particle.acc * %s + %s' % (a, b),
            'const': '    particle.acc = particle.acc + fieldset.cst * %s' % a,
            'field': '    particle.acc = particle.acc + fieldset.F[time, particle.depth, particle.lat, particle.lon] * %s' % a,
            'cond': '    if particle.acc > %s:\n        particle.acc = particle.acc - %s\n    else:\n        particle.acc = particle.acc + %s' % (b, abs(d['b']) + 1, abs(d['b']) + 2),
            'local': '    tmp = %s\n    particle.acc = particle.acc + tmp' % b,
            'second': '    particle.two = particle.two + %s' % b,
            'sign': '    particle.acc = %s - particle.acc' % b}[d['kind']]


def apply(d, st, fsval):
    a, b = float(d['a']), d['b']
    if d['kind'] == 'lin':
        st['acc'] = st['acc'] * a + b
    elif d['kind'] == 'const':
        st['acc'] += fsval['cst'] * a
    elif d['kind'] == 'field':
        st['acc'] += fsval['F'] * a
    elif d['kind'] == 'cond':
        st['acc'] += -(abs(b) + 1) if st['acc'] > b else abs(b) + 2
    elif d['kind'] == 'local':
        st['acc'] += b
    elif d['kind'] == 'second':
        st['two'] += b
    elif d['kind'] == 'sign':
        st['acc'] = b - st['acc']
    elif d['kind'] == 'cfun':
        st['acc'] = st['acc'] * 0.5 + b


CFUN = '''static inline StatusCode cfun%d(double *acc)
{
  *acc = *acc * 0.5 + (%r);
  return SUCCESS;
}
'''


class Proc(object):
    """One process: executes its operations against parcels and against the model."""

    def __init__(self, scn, pi, dirname, cache, switch):
        self.P = W.PARCELS
        self.scn, self.p, self.dir, self.cache = scn, scn['procs'][pi], dirname, cache
        self.faults, self.events, self.nt = {}, [], 0
        self.disk = iofault.Disk(cache, switch=switch).install()
        self.ticks = 0
        seams.S.clock = self.clock
        self.compiles = 0
        self.kept = 0
        self.cfuns = 0
        self.sim = 0
        seams.S.compiler_hook = self.compiling
        self.plan = None
        self.switch = switch
        os.makedirs(dirname)
        self.defs = []
        self.jitdefs, self.inc = {}, {}
        for i, d in enumerate(self.p['defs']):
            self.defs.append(self.load(pi, i, d, False))
            if d['kind'] == 'cfun':      # a C function of the user's, given as code or in a file
                self.jitdefs[i] = self.load(pi, i, d, True)
                self.inc[i] = CFUN % (i, d['b'])
                if d.get('inc') == 'file':
                    path = os.path.join(dirname, 'functions%d.h' % i)
                    with seams.REAL['open'](path, 'w') as f:
                        f.write(self.inc[i])
                    self.inc[i] = path
        P = self.P
        self.fss, self.fsv = [], []
        for i in range(2):
            v = {'cst': 1.5 + i, 'F': 0.25 + 2 * i}
            x = np.arange(-2, 3, dtype=np.float32)
            z = np.zeros((5, 5), dtype=np.float32)
            fs = P.FieldSet.from_data({'U': z, 'V': z, 'F': z + v['F']}, {'lon': x, 'lat': x}, mesh='flat')
            fs.add_constant('cst', v['cst'])
            self.fss.append(fs)
            self.fsv.append(v)
        self.cls = {}
        for m in ('jit', 'scipy'):
            for c in range(2):
                base = P.JITParticle if m == 'jit' else P.ScipyParticle
                extra = {'extra': P.Variable('extra', dtype=np.float32, initial=7.)} if c else {}
                self.cls[m, c] = type('Kp', (base,), dict(extra, acc=P.Variable('acc', dtype=np.float64, initial=0.), two=P.Variable('two', dtype=np.float64, initial=0.)))
        self.sets = []      # {'ps', 'st', 'spec'}
        self.kernels = []   # {'k', 'defs', 'spec'}

    def load(self, pi, i, d, jit):
        path = os.path.join(self.dir, 'kernels%d%s.py' % (i, 'j' if jit else ''))
        with seams.REAL['open'](path, 'w') as f:
            f.write(SRC % {'name': d['name'], 'body': body(d, i, jit)})
        spec = importlib.util.spec_from_file_location('c14_%d_%d%s' % (pi, i, 'j' if jit else ''), path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return getattr(m, d['name'])

    def kernel(self, s, i, **kw):
        if i in self.jitdefs and s['spec']['mode'] == 'jit':
            self.cfuns += 1
            return s['ps'].Kernel(self.jitdefs[i], c_include=self.inc[i], **kw)
        return s['ps'].Kernel(self.defs[i], **kw)

    def clock(self):
        self.ticks += 1
        c = self.scn['clock']
        return 1e9 + {'frozen': 0, 'coarse': self.ticks // 7, 'back': -self.ticks % 5, 'run': self.ticks * 1e-3}[c]

    def fault(self, name):
        self.faults[name] = self.faults.get(name, 0) + 1

    def compiling(self, cmd):
        if '-o' not in cmd:
            return
        self.compiles += 1
        if self.switch:
            self.switch('compile')
        f = self.plan
        if f is None or f['kind'] not in ('rc', 'killed', 'nocc', 'int', 'badlib', 'gone'):
            return
        self.plan = None
        self.hit = f['kind']
        self.fault('compiler:' + f['kind'])
        out = cmd[cmd.index('-o') + 1]
        if f['kind'] in ('killed', 'badlib', 'int'):
            with seams.REAL['open'](out, 'wb') as g:
                g.write(b'\x7fELF' + b'\0' * (f['at'] * 10))
        if f['kind'] in ('badlib', 'gone'):
            return 'done'
        if f['kind'] == 'nocc':
            raise seams.mkerr('enoent', cmd[0])
        if f['kind'] == 'int':
            raise KeyboardInterrupt()
        raise subprocess.CalledProcessError(1 if f['kind'] == 'rc' else -9, cmd)

    def check(self, cond, cls, detail):
        if not cond:
            raise core.Violation(cls, detail() if callable(detail) else detail)

    def compatible(self, spec, s):
        return all(spec[x] == s['spec'][x] for x in ('mode', 'coord', 'cls', 'fs'))

    def verify(self, i):
        for n, s in enumerate(self.sets):
            got = {'acc': float(s['ps'].acc[0]), 'two': float(s['ps'].two[0]), 't': float(s['ps'].time[0])}
            self.check(got == s['st'], 'wrong-code-ran', lambda: 'set %d (%s) after operation %d %s: is %s, expected %s' % (n, s['spec'], i, self.p['ops'][i], got, s['st']))

    def set(self, op):
        spec = self.p['specs'][op['s'] % len(self.p['specs'])]
        ps = self.P.ParticleSet(self.fss[spec['fs']], self.cls[spec['mode'], spec['cls']], lon=[1.], lat=[-1.], time=[0.], lonlatdepth_dtype=np.float64 if spec['coord'] == 'f8' else np.float32)
        self.sets.append({'ps': ps, 'spec': spec, 'st': {'acc': 0., 'two': 0., 't': 0.}})

    def build(self, op):
        if self.sets:
            s = self.sets[op['k'] % len(self.sets)]
            kw = {'delete_cfiles': False} if op['keep'] else {}
            self.kernels.append({'k': self.kernel(s, op['d'], **kw), 'defs': [op['d']], 'spec': s['spec'], 'keep': op['keep']})

    def merge(self, op):
        if not self.kernels:
            return
        a = self.kernels[op['i'] % len(self.kernels)]
        if op['how'] == 'kk':
            b = self.kernels[op['j'] % len(self.kernels)]
            if a['spec'] != b['spec'] or len(a['defs']) + len(b['defs']) > 5:
                return
            k, d, keep = a['k'] + b['k'], a['defs'] + b['defs'], a['keep'] or b['keep']
        elif op['d'] in self.jitdefs and a['spec']['mode'] == 'jit':
            return      # a function cannot bring its C functions with it
        elif op['how'] == 'kf':
            k, d, keep = a['k'] + self.defs[op['d']], a['defs'] + [op['d']], a['keep']
        else:
            k, d, keep = self.defs[op['d']] + a['k'], [op['d']] + a['defs'], a['keep']
        self.kernels.append({'k': k, 'defs': d, 'spec': a['spec'], 'keep': keep})

    def drop_kernel(self, op):
        if self.kernels:
            del self.kernels[op['k'] % len(self.kernels)]
        if op['gc']:
            gc.collect()

    def drop_set(self, op):
        if self.sets:
            del self.sets[op['k'] % len(self.sets)]
        if op['gc']:
            gc.collect()

    def gc(self, op):
        gc.collect()

    def clean_cache(self, op):
        """Somebody removes the temporary files."""
        if len(self.scn['procs']) == 1:
            for x in os.listdir(self.cache):
                if 'random' not in x:
                    seams.REAL['os.remove'](os.path.join(self.cache, x))
                    self.fault('cache-file-lost')

    def data(self, s):
        return {c: np.array(getattr(s['ps'], c)).tolist() for c in ('id', 'acc', 'two', 'lon', 'lat', 'depth', 'time', 'dt', 'state')}

    def run(self, op):
        """Execute, with a fault during the compilation if there is one; then again without."""
        if not self.sets:
            return
        s = self.sets[op['k'] % len(self.sets)]
        if 'd' in op:
            what, defs = self.defs[op['d']], [op['d']]
            if op['d'] in self.jitdefs and s['spec']['mode'] == 'jit':
                what = self.kernel(s, op['d'])
        else:
            ks = [k for k in self.kernels if self.compatible(k['spec'], s)]
            if not ks:
                return
            kr = ks[op['kr'] % len(ks)]
            what, defs = kr['k'], kr['defs']
            if kr['keep'] and s['spec']['mode'] == 'jit':
                self.kept += 1
        f = op.get('fault')
        n = op['n']
        if f is not None:
            self.plan, self.hit = dict(f), None
            if f['kind'] in ('enospc', 'eio', 'eacces'):
                self.disk.plan = {'at': self.disk.n + f['at'], 'kind': f['kind'], 'len': f['len']}
            before = self.data(s)
            nhit = self.disk.hits
            try:
                s['ps'].execute(what, runtime=n, dt=1., verbose_progress=False)
                failed = None
            except (RuntimeError, OSError, KeyboardInterrupt, AttributeError) as e:
                failed = type(e).__name__
                if isinstance(e, AttributeError) and self.hit not in ('badlib', 'gone'):     # numpy reports unusable libraries so
                    raise
                if not getattr(e, 'injected', False) and not isinstance(e, KeyboardInterrupt) and self.hit is None and self.disk.hits == nhit:
                    raise
            finally:
                self.plan, self.disk.plan = None, None
            for k in self.disk.fired[nhit:]:
                self.fault('disk:%s@%s' % (f['kind'], k[1]))
            if failed is not None:
                self.check(self.data(s) == before, 'failed-compilation-changed-particles', lambda: '%s after %s: %s -> %s' % (op, failed, before, self.data(s)))
                gc.collect() if f['at'] % 2 else None
            else:
                # the compiler was not needed or the fault did not matter: the run took place
                self.check(self.hit is None, 'error-not-reported', lambda: '%s: no error although the compiler failed with %s' % (op, self.hit))
                self.step(s, defs, n)
                return
        s['ps'].execute(what, runtime=n, dt=1., verbose_progress=False)
        self.step(s, defs, n)

    def step(self, s, defs, n):
        for _ in range(n):
            for d in defs:
                apply(self.p['defs'][d], s['st'], self.fsv[s['spec']['fs']])
            s['st']['t'] += 1
            self.sim += 1


def main(scn, pi, env, cache, switch):
    tempfile.tempdir = os.path.join(env.dir, 'cc')
    pr = Proc(scn, pi, os.path.join(env.dir, 'p%d' % pi), cache, switch)
    for i, op in enumerate(pr.p['ops']):
        getattr(pr, op['op'].replace('-', '_'))(op)
        pr.events.append([i, op['op'], [[s['st']['acc'], s['st']['two'], s['st']['t']] for s in pr.sets]])
        pr.verify(i)
    pr.sets, pr.kernels = [], []
    gc.collect()
    iofault.Disk.off()
    return {'faults': pr.faults, 'events': pr.events, 'compiles': pr.compiles, 'kept': pr.kept, 'sim': pr.sim}


class Peer(object):
    """A forked process that halts at every switch point until it is told to go on."""

    def __init__(self, fn):
        r, self.w = os.pipe()
        self.r, w = os.pipe()
        me = os.getpid()
        self.pid = os.fork()
        if self.pid == 0:
            seams.confine(me)
            os.close(self.w)
            os.close(self.r)

            def switch(what):
                os.write(w, (json.dumps({'at': what}) + '\n').encode())
                if os.read(r, 1) != b'g':
                    os._exit(9)
            try:
                switch('start')
                out = {'ok': fn(switch)}
            except core.Violation as e:
                out = {'v': [e.cls, e.detail]}
            except BaseException as e:
                import traceback
                out = {'err': type(e).__name__, 'tb': traceback.format_exc()[-2000:]}
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(out) + '\n')
            sys.stdout.flush()
            os._exit(0)
        os.close(r)
        os.close(w)
        self.f = os.fdopen(self.r)
        self.res = None
        self.next()

    def next(self):
        line = self.f.readline()
        if not line:
            _, st = os.waitpid(self.pid, 0)
            raise core.Violation('process-died', 'status %d' % st)
        m = json.loads(line)
        if 'at' in m:
            return m['at']
        self.res = m
        self.f.close()
        os.close(self.w)
        os.waitpid(self.pid, 0)
        return None

    def go(self):
        os.write(self.w, b'g')
        return self.next()


def run(scn, env):
    os.makedirs(os.path.join(env.dir, 'cc'))
    old = tempfile.tempdir
    tempfile.tempdir = os.path.join(env.dir, 'cc')
    try:
        from parcels.tools import get_cache_dir
        cache = get_cache_dir()
    finally:
        tempfile.tempdir = old
    rng = random.Random(scn['sched'])
    peers = [Peer(lambda sw, i=i: main(scn, i, env, cache, sw)) for i in range(len(scn['procs']))]
    cur = peers[0]
    trace = []
    while True:
        live = [p for p in peers if p.res is None]
        if not live:
            break
        if cur not in live or (len(live) > 1 and rng.random() < scn['switch']):
            cur = live[rng.randrange(len(live))]
        at = cur.go()
        trace.append('%d:%s' % (peers.index(cur), at))
    env.sched_h.update('|'.join(trace).encode())
    tot = 0
    for i, p in enumerate(peers):
        m = p.res
        if 'v' in m:
            raise core.Violation(m['v'][0], 'process %d: %s' % (i, m['v'][1]))
        if 'err' in m:
            raise core.Violation('unexpected-exception:' + m['err'], m['tb'])
        o = m['ok']
        for k, v in o['faults'].items():
            env.fault(k, v)
        env.log('events', i, o['events'])
        env.sim_s += o['sim']
        tot += o['compiles']
    env.probe('compilations', tot)
    env.probe('two-processes', len(peers) - 1)
    env.nontrivial = tot >= 2
    left = sorted(x.split('.')[-1] for x in os.listdir(cache) if 'random' not in x)
    kept = any(p.res['ok']['kept'] for p in peers)
    if any(k.endswith('@remove') or (kept and k == 'cache-file-lost') for p in peers for k in p.res['ok']['faults']):
        pass                                    # the disk refused to remove files, or somebody else did it
    elif not kept:
        env.check(not left, 'files-remain', lambda: 'after all kernels were discarded: %s' % left)
    else:
        env.check('c' in left, 'kept-files-removed', 'a kernel built with delete_cfiles=False left no file')
