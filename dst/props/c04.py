"""C04: exports and conversions are consistent, repeatable and never destroy data."""
import json
import os
import random

from .. import seams
from .. import world as W
from .. import iofault as IO
from ..core import Violation
from ..gen import history
from ..sched import Sched
from .c01 import drive
from .c02 import check_once

LEVEL = 'exploration'
RUNS = {'quick': 400, 'thorough': 7000}
RULE = ('One task runs a generated history and closes its output, 1-3 further tasks convert the same temporary directory; a seeded scheduler switches '
        'between them at every event of the simulated disk, and conversions may be hit by disk errors and be repeated. Each finished conversion is compared with '
        'the outputs completed before it began and begun before it ended; the final file with the reference model. Non-trivial: a conversion overlapped the run.')
ASSUMPTIONS = ['a conversion that is still going on when the run closes its output may fail',
               'tasks are interleaved at file-system events']
REAL_CODE = ['parcels (all layers)', 'gcc-compiled kernels', 'netCDF4/HDF5', 'conversion tool']
STUBS = ['processes are tasks of one interpreter under a seeded scheduler', 'file transfers pass through a seam that injects errors']


with open(os.path.join(os.path.dirname(__file__), 'c04_known.json')) as _f:
    FIXED = [json.load(_f)]      # the known finding


def setup():
    W.setup()


def gen(rng, tier):
    s = history(rng, tier, out=True, features={'dates': 0.1, 'fail': 0.15, 'repeat': 0.2, 'delay': 0.4, 'add': 0.25, 'remove': 0.1,
                                               'oncemoves': 0.5, 'ondelete': 0.1, 'once': 0.35, 'export': 0.35, 'xwrite': 0.2}, maxops=3)
    s['conv'] = []
    for i in range(rng.choice([1, 1, 2, 3])):
        s['conv'].append({'n': rng.randint(1, 3), 'after': rng.choice([0, 1, 1, 2, 3, 5]), 'weight': rng.choice([0.05, 0.3, 1, 4]),
                          'fault': {'at': rng.randint(0, 40), 'kind': rng.choice(['enospc', 'eio', 'eacces'])} if rng.random() < 0.35 else None})
    s['sched'] = rng.randrange(1 << 30)
    s['overlap_close'] = rng.random() < 0.3
    s['end'] = rng.choice(['close', 'close', 'export', 'twice', 'convert-delete'])
    if not s['overlap_close'] and s['end'] != 'convert-delete' and rng.random() < 0.35:
        s['endfault'] = {'at': rng.randint(1, rng.choice([3, 10, 30])), 'kind': rng.choice(['enospc', 'eio', 'eacces'])}
    s['_lists'] = ['conv', 'ops', 'parts']
    s['_scalars'].update({'overlap_close': [False], 'endfault': [None]})
    return s


def valid(scn):
    return len(scn['parts']) > 0 and len(scn['ops']) > 0


def run(scn, env):
    P = W.PARCELS
    once = bool(scn.get('once'))
    sched = Sched(random.Random(scn['sched']), bias={'conv%d' % i: c['weight'] for i, c in enumerate(scn['conv'])},
                  log=lambda e: env.sched_h.update(repr(e).encode()), max_steps=60000)
    st = {'closing': False, 'closed': False, 'running': True, 'active': 0, 'overlap': 0}
    faults = {}

    def switch(label):
        sched.switch(label)

    disk = IO.Disk(env.dir, env=env, switch=switch)
    base_hook = disk.hook
    app_box = {}

    def hook(op, rel, info):
        # disk errors hit only the task they are meant for
        name = sched.cur.name
        r = base_hook(op, rel, info)
        f = faults.get(name)
        if f is not None and op not in ('close',):
            f['n'] += 1
            if op == 'remove' and rel.startswith('out_tmp'):
                f['removing'] = True
            if f['n'] == f['at']:
                env.fault('%s@%s' % (f['kind'], op))
                f['fired'] = True
                raise seams.mkerr(f['kind'], rel)
        if op == 'remove' and rel.startswith('out_tmp') and not st.get('checked'):
            # the first temporary file disappears: the output file has to be complete by now
            st['checked'] = True
            rows = IO.readable(app_box['app'].outname, once)
            env.check(rows is not None, 'temporary-files-deleted-without-output-file', rel)
            stale(rows)
            IO.judge(env, IO.rows_by_id(rows, env, 'at-deletion'), app_box['rec'].done, {}, 'at-deletion')
        return r
    disk.hook = hook
    snaps = []

    def stale(rows):
        # known limitation: a conversion that is under way while the run closes puts its older file in place of the final one
        got = IO.rows_by_id(rows, env, 'final')
        full = app_box['rec'].done
        if scn['overlap_close'] and got in snaps and got != {j: [list(x) for x in v] for j, v in full.items()}:
            raise Violation('final:replaced-by-overlapping-conversion',
                            'a conversion that began before the run closed its output finished afterwards and replaced the final file by its older one')
    m = W.Model(scn)
    m.add(scn['parts'])

    def insist(call, f):
        # a failed export is repeated
        if f is None or f.get('fired'):
            return call()
        try:
            call()
        except OSError:
            if not f.get('fired'):
                raise
            env.probe('close-failed-injected')
            if f.get('removing'):      # the output is complete and its temporary files are being deleted
                env.probe('close-failed-while-deleting')
                return
            call()

    def main():
        app = W.App(P, scn, env)
        app_box['rec'] = IO.Recorder(app)
        app_box['app'] = app
        drive(app, m, scn, env, between=lambda: sched.switch('op'))
        has = any(p.recs for p in m.all)
        if not has:
            st['closing'] = True
        if not scn['overlap_close']:
            sched.switch('wait-converters', pred=lambda: st['active'] == 0)
            st['closing'] = True
        if has:
            st['closing'] = True
            if scn.get('endfault'):
                faults['run'] = dict(scn['endfault'], n=0)
            f = faults.get('run')
            if scn['end'] == 'close':
                insist(app.pf.close, f)
            elif scn['end'] == 'export':
                insist(app.pf.export, f)
            elif scn['end'] == 'twice':
                insist(app.pf.export, f)
                insist(lambda: app.pf.close(delete_tempfiles=False), f)
            else:
                app.pf.export()
                IO.convert(P, app.tmpdir, delete_tempfiles=True)
            faults.pop('run', None)
        st['closed'] = True
        if scn['overlap_close']:
            sched.switch('wait-converters', pred=lambda: st['active'] == 0)
        return app

    def converter(i, c):
        def go():
            faults['conv%d' % i] = dict(c['fault'], n=0) if c['fault'] else None
            for k in range(c['n']):
                sched.switch('before-conversion', pred=lambda: st['closing'] or ('rec' in app_box and app_box['rec'].nwrites >= c['after'] * (k + 1)))
                if st['closing'] or 'rec' not in app_box:
                    continue
                rec = app_box['rec']
                before = {j: list(v) for j, v in rec.done.items()}
                st['active'] += 1
                try:
                    for attempt in range(3):
                        f = faults['conv%d' % i]
                        fired = bool(f and f.get('fired'))
                        try:
                            IO.convert(P, app_box['app'].tmpdir)
                            ok = True
                        except Exception as e:
                            ok = False
                            if f and f.get('fired') and not fired:
                                env.probe('conversion-failed-injected')
                                env.log('conv', i, k, 'failed')
                                if st['closing']:
                                    break
                                before = {j: list(v) for j, v in rec.done.items()}
                                continue
                            if st['closing']:
                                env.probe('conversion-failed-by-close')
                                break
                            # without a completed output there may be nothing to convert
                            env.check(not any(before.values()) and rec.nwrites == 0 or not before, 'conversion-failed',
                                      lambda: '%s: %s; completed before: %d particles' % (type(e).__name__, e, len(before)))
                            env.log('conv', i, k, 'nothing')
                        if ok:
                            rows = W.read_nc(app_box['app'].outname, once=once)
                            got = IO.rows_by_id(rows, env, 'conversion')
                            if st['closing']:
                                snaps.append(got)
                            compare(env, got, before, rec)
                            check_once(env, rows, scn)
                            env.log('conv', i, k, sum(len(x) for x in got.values()))
                            env.probe('conversion-ok')
                            st['overlap'] += 1
                        break
                finally:
                    st['active'] -= 1
        return go

    disk.install(random.Random(scn['sched']).choice([8192, 512]))
    sched.spawn('run', main)
    for i, c in enumerate(scn['conv']):
        sched.spawn('conv%d' % i, converter(i, c))
    fail = sched.run()
    IO.Disk.off()
    for t in sched.tasks:
        if t.exc is not None:
            raise t.exc
    if fail:
        raise Violation('no-progress', fail)
    app = app_box['app']
    env.log('sched', sched.steps, sched.switches)
    env.nontrivial = st['overlap'] > 0
    if any(p.recs for p in m.all):
        rows = IO.readable(app.outname, once)
        env.check(rows is not None, 'final:file-destroyed', 'no readable output file is left')
        stale(rows)
        W.compare_file(env, rows, m, scn, cls='final')


def compare(env, got, before, rec):
    lost = [(i, r) for i in before for r in before[i] if r not in got.get(i, [])]
    env.check(not lost, 'conversion:completed-output-missing', lambda: '%d records completed before the conversion began are missing, e.g. %s' % (len(lost), lost[:3]))
    full = {i: list(v) for i, v in rec.done.items()}
    for i, r in rec.cur.items():
        full.setdefault(i, []).append(r)
    for i in got:
        env.check(got[i] == full.get(i, [])[:len(got[i])], 'conversion:never-written-record', lambda: 'id %d: %s, written so far %s' % (i, got[i], full.get(i)))
