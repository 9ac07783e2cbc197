"""C03: failed output is reported and can be retried without loss."""
import os

from .. import world as W
from .. import iofault as IO
from ..core import BaselineFailed, Violation
from ..gen import history
from .c02 import _sub, check_once
from .c01 import drive

LEVEL = 'exploration'
RUNS = {'quick': 500, 'thorough': 9000}
RULE = ('Each run executes a generated history while the simulated disk fails (full, I/O error, quota, permission, too many files; transfers '
        'cut short or torn) for 1..12 consecutive events from a seeded point; every failing call has to raise the injected error and leave the earlier '
        'output recoverable, and is repeated until the fault has passed; the final file is compared with the reference model. Non-trivial: a fault fired.')
ASSUMPTIONS = ['a failed run is continued with the same end time, a failed write or export is repeated',
               'runs that fail have an output interval as their only interruption (no callbacks); no kernel errors']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels', 'netCDF4/HDF5', 'conversion tool']
STUBS = ['file transfers pass through a seam that injects errors', 'MPI (in-process, one rank)']


def setup():
    W.setup()


def gen(rng, tier):
    rep = rng.random() < 0.25
    s = history(rng, tier, out=True, features={'dates': 0.1, 'repeat': 1.0 if rep else 0.0, 'kill': 0.0 if rep else 0.6, 'delay': 0.4, 'add': 0.3, 'remove': 0.1,
                                               'oncemoves': 0.5, 'ondelete': 0.1, 'once': 0.35, 'export': 0.3, 'xwrite': 0.3}, maxops=3)
    if rep:
        # releases only at output times, so that a run is only ever interrupted there
        s['repeat'] = (s['out']['dt'] or 1) * rng.choice([1, 2])
        s['out']['dt'] = s['out']['dt'] or 1
    s['fault'] = {'u': rng.random(), 'reads': rng.random() < 0.2, 'frac': rng.choice([0, 0, 0.5, rng.random()]), 'len': rng.choice([1, 1, 1, 2, 3, 6, 12]),
                  'kind': rng.choice(['enospc', 'eio', 'enospc', 'edquot', 'eacces', 'emfile', 'short'])}
    s['end'] = rng.choice(['close', 'export'])
    s['buf'] = rng.choice([8192, 512, 64])
    s['_scalars'].update({'fault.frac': [0], 'fault.len': [1], 'buf': [8192], 'fault.kind': ['eio']})
    return s


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0


class Faulty(object):
    """The application facing a failing disk: the same interface as world.App, every call repeated until it succeeds."""

    def __init__(self, app, env, scn, rec, disk):
        self.app, self.env, self.scn, self.rec, self.disk = app, env, scn, rec, disk
        self.pset = app.pset
        self.outname = app.outname
        self.pf = self
        self.failures = 0

    def __getattr__(self, k):
        return getattr(self.app, k)

    def attempt(self, what, fn):
        """One attempt; True if it succeeded.  A failure is the injected error and costs no earlier output."""
        hits = self.disk.hits
        try:
            fn()
        except Exception as e:
            if self.disk.hits == hits:
                raise
            self.env.check(isinstance(e, (OSError, RuntimeError)), 'failed-output:wrong-error', '%s: %s' % (type(e).__name__, e))
            self.failures += 1
            self.env.log('failed', what, type(e).__name__)
            self.env.probe('failed-' + what)
            self.check_disk(what)
            return False
        if self.disk.hits > hits and self.disk.plan['kind'] != 'short':
            fired = self.disk.fired[-1]
            # an error may only be swallowed where nothing is lost by it: removing temporary files that were exported
            self.env.check(fired[1] in ('remove', 'rmdir'), 'failed-output:not-reported', lambda: '%s reported success, but %s failed' % (what, (fired,)))
        return True

    def check_disk(self, what):
        done = self.rec.done
        if not done or not any(done.values()):
            return
        tmp = self.app.tmpdir
        saved = self.disk.plan
        IO.Disk.off()
        try:
            keep = self.app.outname + '.keep'
            had = os.path.exists(self.app.outname)
            if had:
                os.rename(self.app.outname, keep)
            try:
                IO.convert(W.PARCELS, tmp)
                rows = W.read_nc(self.app.outname, once=bool(self.scn.get('once')))
            except Exception as e:
                if had and what in ('export', 'close'):   # the failure may have happened after the output file was complete
                    got = IO.rows_by_id(W.read_nc(keep), self.env, 'after-failure')
                    if got == done:
                        return
                raise Violation('after-failure:not-recoverable', 'after failed %s: %s: %s' % (what, type(e).__name__, e))
            finally:
                if had:
                    os.replace(keep, self.app.outname)
                elif os.path.exists(self.app.outname):
                    os.remove(self.app.outname)
            IO.judge(self.env, IO.rows_by_id(rows, self.env, 'after-failure'), done, self.rec.cur, 'after-failure')
            check_once(self.env, rows, self.scn)
        finally:
            self.disk.plan = saved
            self.disk.install(self.scn['buf'])

    def until(self, what, fn):
        for k in range(60):
            if self.attempt(what, fn):
                return
        self.env.check(False, 'retry-never-succeeds', what)

    # -- the interface used by drive()
    def execute(self, op):
        sgn = op.get('dir', 1)
        ts = W.np.asarray(self.pset.time, dtype=float)
        start = ts.min() if sgn > 0 else ts.max()
        end = float(start + sgn * op['n'] * self.app.dt)
        if self.attempt('run', lambda: self.app.execute(op)):
            return
        dele = W.PARCELS.OperationCode.Delete
        for k in range(60):
            st = W.np.asarray(self.pset.state)
            ts = W.np.asarray(self.pset.time, dtype=float)[st != dele]
            cur = (ts.min() if sgn > 0 else ts.max()) if len(ts) else end
            if abs(cur - end) < 1e-9 or (cur - end) * sgn > 0:
                break
            if self.attempt('continued-run', lambda: self.app.execute(op, endtime=end, runtime=None, dt=self.app.dt * sgn)):
                return
        else:
            self.env.check(False, 'retry-never-succeeds', 'run')
        # everything is at the end of the run: only output is missing
        if W.np.any(W.np.asarray(self.pset.state) == dele):
            self.until('write-deleted', lambda: self.app.pf.write(self.pset, end, deleted_only=True))
            self.pset.remove_indices(W.np.where(W.np.asarray(self.pset.state) == dele)[0])
        self.until('write-end', lambda: self.app.pf.write(self.pset, end))

    def write(self, pset, t):
        self.until('write', lambda: self.app.pf.write(pset, t))

    def export(self):
        self.until('export', lambda: self.app.pf.export())

    def close(self):
        for k in range(60):
            hits = self.disk.hits
            if self.attempt('close', lambda: self.app.pf.close()):
                return
            if any(f[1] in ('remove', 'rmdir') for f in self.disk.fired[hits - self.disk.hits:]) and os.path.exists(self.app.outname):
                self.env.probe('cleanup-failed')      # the output file is complete, temporary files may stay
                return
        self.env.check(False, 'retry-never-succeeds', 'close')

    def add(self, pl, split=None):
        self.app.add(pl, split=split)

    def state(self, ids=False):
        return self.app.state(ids)


def one(scn, env, plan):
    disk = IO.Disk(env.dir, env=env, plan=plan).install(scn['buf'])
    box = {}
    tries = 0
    while 'app' not in box:
        tries += 1
        hits = disk.hits
        try:
            box['app'] = W.App(W.PARCELS, scn, env)
        except OSError as e:
            if disk.hits == hits or tries > 20:
                raise
            env.log('failed', 'create', type(e).__name__)
            env.probe('failed-create')
    app = box['app']
    m = W.Model(scn)
    m.add(scn['parts'])
    rec = IO.Recorder(app)
    fa = Faulty(app, env, scn, rec, disk)
    drive(fa, m, scn, env)
    if any(p.recs for p in m.all):
        if scn['end'] == 'close':
            fa.close()
            # what could not be removed may stay; the output must be there
        else:
            fa.export()
        IO.Disk.off()
        rows = W.read_nc(app.outname, once=bool(scn.get('once')))
        W.compare_file(env, rows, m, scn, cls='final')
        if scn['end'] == 'close' and not any(f[1] in ('remove', 'rmdir') for f in disk.fired):
            env.check(not os.path.exists(app.tmpdir), 'temporary-files-left', lambda: str(os.listdir(app.tmpdir)))
    return disk, fa


def run(scn, env):
    def dry(send):
        e = _sub(env, 'dry')
        disk, _ = one(scn, e, None)
        send('end', [o[0] for o in disk.ops])
    msgs, status = IO.fork_app(dry)
    if not msgs or msgs[-1][0] != 'end':
        raise BaselineFailed('%s %s' % (status, msgs[-1:]))
    total = len(msgs[-1][1])
    f = scn['fault']
    plan = {'at': IO.pick(msgs[-1][1], f['u'], f['reads']), 'kind': f['kind'], 'frac': f['frac'], 'len': f['len']}
    e = _sub(env, 'app')
    disk, fa = one(scn, e, plan)
    env.nontrivial = disk.hits > 0
    env.sim_s += 1
    env.log('end', total, disk.n, fa.failures)
