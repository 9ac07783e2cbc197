"""C16: failed reads of field data surface and never yield wrong data."""
import errno
import os

from .. import core
from .. import fieldfiles as F
from .. import seams
from .. import world as W
from . import c10

LEVEL = 'exploration'
RUNS = {'quick': 240, 'thorough': 9000}
RULE = ('A seeded history of particle sets and runs (as in C10, in terms of end times) on lazily read fields is performed undisturbed, which numbers every open and every read of field data; then again with a seeded plan of '
        'failing opens and reads (one or several in a row, or one file unavailable for a while). A call that meets faults may raise, and is then repeated until the faults are over; after each operation all particle '
        'states and sampled values must be those of the undisturbed run. Non-trivial: a fault was injected and a call raised.')
ASSUMPTIONS = ['a failed call is repeated with the same end time', 'no repeated release falls on the end time of a run', 'particles stay inside the domain', 'the content of the files does not change']
REAL_CODE = ['parcels (all layers)', 'xarray/dask/netCDF4/HDF5 reading real files', 'gcc-compiled kernels']
STUBS = ['MPI (in-process, one rank)', 'failing opens and reads are exceptions raised at xarray.open_dataset and at its reading of a variable']
KINDS = ['EIO', 'ENOENT', 'EMFILE', 'EACCES', 'hdf', 'EIO', 'ESTALE']


class Gone(Exception):
    pass


def setup():
    c10.setup()


def gen(rng, tier):
    while True:
        dt = rng.choice([1, 1, 0.5, 2, 60, 3600])
        s = F.spec(rng, dt)
        if rng.random() < 0.35:
            F.rich(rng, s)
        ops = c10.gen_ops(rng, s, tier)
        if ops and not any(o['op'] == 'beyond' for o in ops) and ends_ok(ops):
            break
    ch = rng.choice([None, None, F.chunkspec(rng, s), 'auto' if not ('geo' in s and s['depth']) else None])
    n = rng.choice([1, 1, 1, 2, 3])
    fl = []
    for _ in range(n):
        if rng.random() < 0.15:
            fl.append({'file': rng.choice(['U', 'V', 'P']), 'j': rng.randrange(5), 'from': rng.randrange(len(ops)), 'n': rng.randint(1, 2), 'kind': 'ENOENT'})
        else:
            fl.append({'u': rng.random(), 'op': rng.choice([None, None, 'open', 'read']), 'n': rng.choice([1, 1, 1, 2, 2, 3, 4]), 'kind': rng.choice(KINDS)})
    return {'mode': rng.choice(['jit', 'jit', 'scipy']), 'coord': rng.choice(['f4', 'f8']), 'dt': dt, 'spec': s, 'ops': ops, 'deferred': rng.random() < 0.9, 'chunks': ch, 'faults': fl,
            '_lists': ['faults', 'ops'], '_scalars': {'coord': ['f4'], 'chunks': [None]}}


def ends_ok(ops):
    # no repeated release at the very end of a run: a run whose last release failed has nothing left to execute, and
    # repeating it would be a run without time steps, which executes the kernels once more
    t, rep = {}, {}
    for o in ops:
        if o['op'] == 'new':
            t[o['k']], rep[o['k']] = 0, o['rep']
        elif o['op'] == 'run' and o['k'] in t:
            t[o['k']] += o['n']
            if rep[o['k']] and t[o['k']] % rep[o['k']] == 0:
                return False
    return True


def valid(scn):
    if not ends_ok(scn['ops']):
        return False
    seen = set()
    for o in scn['ops']:
        if o['op'] == 'new':
            seen.add(o['k'])
        elif o['k'] not in seen:
            return False
    return len(scn['faults']) > 0 and len(seen) > 0


def error(kind, name):
    if kind == 'hdf':
        return RuntimeError('NetCDF: HDF error')
    e = getattr(errno, kind)
    return OSError(e, os.strerror(e), str(name))


def history(scn, env, files, plan=None):
    """Perform the history (the first operation is the creation of the field set). plan(kind of event, name, operation) ->
    error or None. Returns the states after each operation."""
    P = W.PARCELS
    dt = scn['dt']
    cur = {'i': -1, 'fired': 0}
    sets, ends, out = {}, {}, []

    def hook(op, name):
        e = plan(op, str(name), cur['i'])
        if e is not None:
            cur['fired'] += 1
            raise e
    fs = None
    for i, op in enumerate([{'op': 'fieldset'}] + scn['ops']):
        cur['i'] = i
        tries = 0
        if op['op'] == 'new':
            ends[op['k']] = op['t']
        elif op['op'] == 'run':
            ends[op['k']] += op['dir'] * op['n']
        while True:
            tries += 1
            env.check(tries < 60, 'no-progress', lambda: 'operation %d %s still fails' % (i, op))
            cur['fired'] = 0
            seams.S.read_hook = hook if plan is not None else None
            try:
                if op['op'] == 'fieldset':
                    fs = F.from_files(P, scn['spec'], files, scn['deferred'], scn['chunks'])
                else:
                    step(P, scn, fs, sets, op, dt, ends.get(op.get('k')))
                break
            except Exception as e:
                seams.S.read_hook = None
                if cur['fired'] == 0:
                    if plan is None or tries == 1:
                        raise
                    raise core.Violation('retry-fails', 'operation %d %s failed because of a field read error; repeated without faults it raises %s: %s' % (i, op, type(e).__name__, str(e)[:300]))
                env.log('raised', i, type(e).__name__)
                env.probe('raised:' + ('fieldset' if i == 0 else op['op']))
            finally:
                seams.S.read_hook = None
        out.append((tries, cur['fired'], c10.snapshot(sets)))
    return out


def step(P, scn, fs, sets, op, dt, end):
    if op['op'] != 'run':
        return c10.step(P, scn, fs, sets, op, dt)
    from .. import flow
    ps = sets[op['k']]
    kw = {}
    if op.get('cb'):
        kw = dict(postIterationCallbacks=[lambda: None], callbackdt=op['cb'] * dt)
    ps.execute(flow.app_kernel(P, ps, op['ker']), endtime=end * dt, dt=op['dir'] * dt, verbose_progress=False, **kw)


def run(scn, env):
    import dask
    files = F.write(scn['spec'], env.dir)
    trace = []

    def count(op, name, i):
        trace.append((op, name, i))
    with dask.config.set({'array.chunk-size': '256B'}):
        try:
            ref = history(scn, env, files, count)
        except core.Violation:
            raise
        except Exception as e:
            raise core.BaselineFailed('%s: %s' % (type(e).__name__, str(e)[:300]))
        env.log('ref', len(trace), [x.tolist() for x in ref[-1][2]])
        # when each fault strikes: numbers of events since the start
        win, gone = [], []
        for f in scn['faults']:
            if 'file' in f:
                names = files[f['file']]
                gone.append(dict(f, name=names[f['j'] % len(names)]))
            else:
                cand = [j for j, e in enumerate(trace) if f['op'] in (None, e[0])]
                if cand:
                    win.append([cand[int(f['u'] * len(cand))], f['n'], f['op'], f['kind']])
        n = [0]

        def plan(op, name, i):
            j = n[0]
            n[0] += 1
            for w in win:
                if w[1] > 0 and j >= w[0] and w[2] in (None, op):
                    w[1] -= 1
                    env.fault('%s:%s' % (op, w[3]))
                    return error(w[3], name)
            for g in gone:
                if op == 'open' and name == g['name'] and i >= g['from'] and g['n'] > 0:
                    # the file stays away for the whole call
                    g['hit'] = True
                    env.fault('open:gone')
                    return error('ENOENT', name)
            return None

        # a file that is away comes back after the calls that met it
        real_log = env.log

        def log(what, *a):
            if what == 'raised':
                for g in gone:
                    if g.pop('hit', False):
                        g['n'] -= 1
            return real_log(what, *a)
        env.log = log
        try:
            got = history(scn, env, files, plan)
        finally:
            env.log = real_log
    raised = 0
    for i, (op, (_, _, r), (tries, fired, g)) in enumerate(zip([{'op': 'fieldset'}] + scn['ops'], ref, got)):
        raised += tries > 1
        for k, (a, b) in enumerate(zip(r, g)):
            d = c10.differ(a, b)
            env.check(d is None, 'wrong-after-fault' if tries > 1 else ('wrong-data' if fired else 'wrong-later'),
                      lambda: 'after operation %d %s (%d attempts, %d read errors in the last), set %d: %s' % (i, op, tries, fired, k, d))
    env.sim_s += sum(o.get('n', 0) for o in scn['ops']) * scn['dt']
    env.nontrivial = raised > 0
