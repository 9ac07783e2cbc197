"""C02: output already written survives a crash of the process."""
import os

from .. import world as W
from .. import iofault as IO
from ..core import BaselineFailed
from ..gen import history
from .c01 import drive

LEVEL = 'exploration'
RUNS = {'quick': 500, 'thorough': 9000}
RULE = ('Each run executes a generated history in a process of its own that dies at one event of the simulated disk (file creation, '
        'transfer - torn at a random byte -, rename, removal, NetCDF definition or close), picked uniformly over all events of the same '
        'history without the crash; the disk left behind is then converted and compared with the acknowledged outputs. '
        'Non-trivial: the process died at an event and at least one output had been acknowledged or was in progress.')
ASSUMPTIONS = ['the process dies, the operating system stays up: what was handed to the file system is kept',
               'an output counts as written when ParticleFile.write returned']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels', 'netCDF4/HDF5', 'conversion tool']
STUBS = ['file transfers pass through a seam that can end the process', 'MPI (in-process, one rank)']


def setup():
    W.setup()


def gen(rng, tier):
    s = history(rng, tier, out=True, features={'dates': 0.1, 'unsorted': 0.15, 'fail': 0.2, 'repeat': 0.25, 'delay': 0.4, 'add': 0.3, 'remove': 0.1,
                                               'oncemoves': 0.5, 'ondelete': 0.1, 'once': 0.35, 'export': 0.3, 'xwrite': 0.2}, maxops=3)
    s['crash'] = {'u': rng.random(), 'reads': rng.random() < 0.15, 'frac': rng.choice([0, 0.1, 0.5, 0.9, 1.0, rng.random()])}
    s['end'] = rng.choice(['close', 'close', 'export', 'none'])
    s['buf'] = rng.choice([8192, 512, 64])
    s['_scalars'].update({'crash.frac': [0, 0.5], 'buf': [8192]})
    return s


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0


def app_main(scn, env, send, plan):
    disk = IO.Disk(env.dir, plan=plan, log=False).install(scn['buf'])
    app = W.App(W.PARCELS, scn, env)
    m = W.Model(scn)
    m.add(scn['parts'])
    IO.Recorder(app, begin=lambda cur: send('begin', cur), done=lambda: send('done'))
    drive(app, m, scn, env)
    if any(p.recs for p in m.all):
        if scn['end'] == 'close':
            send('closing')
            app.pf.close()
        elif scn['end'] == 'export':
            app.pf.export()
    send('end', [o[0] for o in disk.ops])


def run(scn, env):
    P = W.PARCELS
    msgs, status = IO.fork_app(lambda send: app_main(scn, _sub(env, 'dry'), send, None))
    if not msgs or msgs[-1][0] != 'end':
        raise BaselineFailed('%s %s' % (status, msgs[-1:]))   # a failure of the run itself is the business of C01
    total = len(msgs[-1][1])
    k = IO.pick(msgs[-1][1], scn['crash']['u'], scn['crash']['reads'])
    d = _sub(env, 'app')
    msgs, status = IO.fork_app(lambda send: app_main(scn, d, send, {'at': k, 'kind': 'crash', 'frac': scn['crash']['frac']}))
    env.check(os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77, 'crash-run-diverged',
              lambda: 'status %s, %s' % (status, msgs[-1:]))
    done, cur, nw, closing = {}, {}, 0, False
    for mm in msgs:
        if mm[0] == 'begin':
            cur = {int(i): r for i, r in mm[1].items()}
        elif mm[0] == 'done':
            for i, r in cur.items():
                done.setdefault(i, []).append(r)
            cur = {}
            nw += 1
        elif mm[0] == 'closing':
            closing = True
    env.fault('crash')
    env.probe('crash-closing' if closing else 'crash-in-write' if cur else 'crash-elsewhere')
    env.log('crashed', k, total, nw, len(cur), closing)
    env.sim_s += 1
    if not done and not cur:
        env.nontrivial = False
    nc = os.path.join(d.dir, 'out.nc')
    tmp = os.path.join(d.dir, 'out_tmp')
    once = bool(scn.get('once'))
    if closing:
        rows = IO.readable(nc, once)
        if rows is not None and IO.rows_by_id(rows, env, 'finished-file') == {i: [list(x) for x in v] for i, v in done.items()}:
            env.probe('finished-file')
            check_once(env, rows, scn)
            return
    if not done:
        if os.path.exists(tmp):
            try:
                IO.convert(P, tmp)
            except Exception:
                env.log('nothing to recover')
                return
            IO.judge(env, IO.rows_by_id(W.read_nc(nc, once=once), env, 'recovered'), done, cur, 'recovered')
        return
    try:
        IO.convert(P, tmp)
    except Exception as e:
        env.check(False, 'recovery-failed', 'acknowledged outputs: %d; died at event %d of %d; conversion: %s: %s' % (nw, k, total, type(e).__name__, e))
    rows = W.read_nc(nc, once=once)
    res = IO.judge(env, IO.rows_by_id(rows, env, 'recovered'), done, cur, 'recovered')
    check_once(env, rows, scn)
    env.log('recovered', res, len(rows))
    env.probe('recovered-' + res)
    IO.convert(P, tmp)
    again = W.read_nc(nc, once=once)
    env.check(again == rows or str(again) == str(rows), 'second-conversion-differs', lambda: '%s\n%s' % (rows[:2], again[:2]))


def check_once(env, rows, scn):
    if scn.get('once'):
        for r in rows:
            env.check(r['once'] == W.f4(r['recs'][0][4] * 2 + (r['recs'][0][5] if 'KOnce' in scn.get('kernel', '') else 0)), 'recovered:once-variable', lambda: str(r))


class _sub(object):
    def __init__(self, env, name):
        self._env = env
        self.dir = os.path.join(env.dir, name)
        os.makedirs(self.dir, exist_ok=True)

    def __getattr__(self, k):
        return getattr(self._env, k)
