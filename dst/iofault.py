"""Disk faults: an event counter over the simulated disk, fault plans, crashes, and the record of completed outputs."""
import json
import os
import re
import signal

import numpy as np

from . import seams
from . import world as W

HEX = re.compile(r'[0-9a-f]{32}')


def norm(rel):
    return HEX.sub('UUID', rel or '')


class Disk(object):
    """Counts the events of the simulated disk and applies a plan.

    plan: {'at': k, 'kind': 'crash'|'enospc'|'eio'|..., 'frac': part of a transfer that reaches the disk, 'len': events the
    fault lasts, 'ops': restriction to some operations}
    """

    def __init__(self, root, env=None, plan=None, log=True, switch=None):
        self.n = 0
        self.root, self.env, self.plan, self.switch = root, env, plan, switch
        self.hits = 0
        self.fired = []
        self.log = log
        self.ops = []
        self.on_event = None

    def install(self, bufsize=8192):
        seams.S.fs_root = self.root
        seams.S.fs_hook = self.hook
        seams.S.bufsize = bufsize
        return self

    @staticmethod
    def off():
        seams.S.fs_hook = None
        seams.S.fs_root = None

    def hook(self, op, rel, info):
        k = self.n
        self.n += 1
        self.ops.append((op, norm(rel)))
        if self.on_event is not None:
            self.on_event(op, rel)
        if self.switch is not None:
            self._switch(op, rel)
        p = self.plan
        if p is None or k < p['at'] or k >= p['at'] + p.get('len', 1):
            return None
        if p.get('max') is not None and self.hits >= p['max']:
            return None
        kind = p['kind']
        if kind != 'crash' and op in ('close', 'rmdir') and p.get('ops') is None:
            return None
        if kind == 'short' and op != 'write':
            return None
        if p.get('ops') is not None and op not in p['ops']:
            return None
        self.hits += 1
        self.fired.append((k, op, norm(rel), kind))
        if self.env is not None:
            self.env.fault('%s@%s' % (kind, op))
            if self.log:
                self.env.log('fault', kind, op, norm(rel))
        if op == 'write' and info is not None and p.get('frac'):
            part = int(len(info['data']) * p['frac'])
            if part:
                info['file'].write(info['data'][:part])
                if kind == 'short':
                    # the transfer was short: report what was written, the caller has to go on
                    info['file'].seek(-part, 1)
                    return part
        if kind == 'short':
            return None
        if kind == 'crash':
            os._exit(77)
        raise seams.mkerr(kind, rel)

    def _switch(self, op, rel):
        d = seams.S.depth
        seams.S.depth = 0
        try:
            self.switch('%s %s' % (op, norm(rel)))
        finally:
            seams.S.depth = d


class Recorder(object):
    """Notes what every call of ParticleFile.write has to add to the output, computed from the particle set as seen by
    the caller, and whether the call came back."""

    def __init__(self, app, begin=None, done=None):
        self.app = app
        self.done = {}       # id -> records of completed writes
        self.cur = {}        # records of the write in progress
        self.last = None     # (time, ids) of the last regular write
        self.nwrites = 0
        self.cb_begin, self.cb_done = begin, done
        self.orig = app.pf.write
        app.pf.write = self.write

    def expect(self, pset, time, deleted_only=False):
        scn = self.app.scn
        f8 = scn.get('coord') == 'f8'
        c = (lambda x: float(x)) if f8 else W.f4
        col = {k: np.asarray(getattr(pset, k), dtype=float) for k in ('time', 'lon', 'lat', 'depth', 'tag', 'n', 'ts', 'rec', 'dt')}
        ids = np.asarray(pset.id).astype(np.int64)
        st = np.asarray(pset.state)
        dele = self.app.P.OperationCode.Delete
        if len(ids) == 0:
            return {}
        if deleted_only is not False:
            if deleted_only is True:
                mask = st == dele
            else:
                mask = np.zeros(len(ids), dtype=bool)
                mask[deleted_only] = True
        elif scn['out'].get('ondelete'):
            return {}
        else:
            mask = (np.abs(col['time'] - time) <= np.abs(col['dt']) / 2) & (st != dele)
            if self.last is not None and self.last[0] == time:
                mask &= ~np.isin(ids, list(self.last[1]))
        out = {}
        for i in np.where(mask)[0]:
            out[int(ids[i])] = [float(col['time'][i]), c(col['lon'][i]), c(col['lat'][i]), c(col['depth'][i])] + \
                [W.f4(col[k][i]) for k in ('tag', 'n', 'ts', 'rec')]
        return out

    def write(self, pset, time, deleted_only=False, **kw):
        t = time.total_seconds() if hasattr(time, 'total_seconds') else float(time)
        self.cur = self.expect(pset, t, deleted_only)
        if self.cb_begin:
            self.cb_begin(self.cur)
        self.orig(pset, time, deleted_only=deleted_only, **kw)
        for i, r in self.cur.items():
            self.done.setdefault(i, []).append(r)
        if deleted_only is False:
            if self.last is None or self.last[0] != t:
                self.last = (t, set())
            self.last[1].update(self.cur)
        self.cur = {}
        self.nwrites += 1
        if self.cb_done:
            self.cb_done()


def rows_by_id(rows, env, cls):
    out = {}
    for r in rows:
        env.check(len(r['ids']) == 1, cls + ':row-mixes-particles', lambda: str(r)[:500])
        i = next(iter(r['ids']))
        env.check(i not in out, cls + ':id-in-two-rows', 'id %d' % i)
        env.check(not r['gap'], cls + ':gap-inside-row', lambda: str(r)[:500])
        out[i] = [list(x) for x in r['recs']]
    return out


def judge(env, got, done, cur, cls, exact_cur=None):
    """The recovered rows are the completed records, plus all or none of the records in progress."""
    with_cur = {i: list(v) for i, v in done.items()}
    for i, r in cur.items():
        with_cur.setdefault(i, []).append(list(r))
    done = {i: [list(x) for x in v] for i, v in done.items() if v}
    with_cur = {i: [list(x) for x in v] for i, v in with_cur.items() if v}
    if got == done:
        return 'without'
    if cur and got == with_cur:
        return 'with'
    lost = [(i, r) for i in done for r in done[i] if r not in got.get(i, [])]
    env.check(not lost, cls + ':completed-output-lost', lambda: '%d completed records are missing, e.g. %s' % (len(lost), lost[:3]))
    alien = [(i, r) for i in got for r in got[i] if r not in with_cur.get(i, [])]
    env.check(not alien, cls + ':never-written-record', lambda: '%d records that were never written, e.g. %s' % (len(alien), alien[:3]))
    partial = [(i, r) for i, r in cur.items() if r not in got.get(i, [])]
    env.check(not (cur and partial), cls + ':partial-output', lambda: 'only part of the output in progress is there; missing %s' % partial[:3])
    env.check(False, cls + ':records-differ', lambda: 'got %s\nexpected %s' % (str(got)[:600], str(done)[:600]))


def fork_app(fn, timeout=100, reraise=False):
    """Run fn(send) in a process of its own; returns (messages, exit status).  `send` survives a crash at any point."""
    r, w = os.pipe()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        seams.confine(me)
        os.close(r)
        code = 98
        try:
            def send(*m):
                os.write(w, json.dumps(m).encode() + b'\n')
            fn(send)
            code = 0
        except BaseException as e:   # noqa
            import traceback
            if type(e).__name__ == 'Violation':
                os.write(w, json.dumps(['violation', e.cls, str(e.detail)]).encode() + b'\n')
                os._exit(4)
            try:
                os.write(w, json.dumps(['exception', type(e).__name__, traceback.format_exc()[-1500:],
                                        bool(getattr(e, 'injected', False))]).encode() + b'\n')
            except OSError:
                pass
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    import select
    import time
    t0 = time.monotonic()
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    msgs = [json.loads(x) for x in buf.split(b'\n') if x.strip()]
    if reraise and msgs and msgs[-1][0] == 'violation':
        from .core import Violation
        raise Violation(msgs[-1][1], msgs[-1][2])
    return msgs, status


def convert(P, tmpdir, **kw):
    return P.scripts.convert_npydir_to_netcdf.convert_npydir_to_netcdf(tmpdir, **kw)


def readable(path, once):
    """Rows of a NetCDF file, or None if it cannot be read."""
    if not os.path.exists(path):
        return None
    try:
        return W.read_nc(path, once=once)
    except Exception:
        return None


def pick(ops, u, reads):
    """Index of the event at which a fault starts: over all events, or over those that change the disk."""
    idx = [i for i, o in enumerate(ops) if reads or o != 'open_r'] or [0]
    return idx[int(u * len(idx))]
