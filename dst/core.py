"""Driver: scenario generation from one seed, isolated execution, minimisation, replay, evidence."""
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import seams

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PKG = '/repo/parcels'
NWORK = int(os.environ.get('DST_WORKERS', '8'))
HANG_S = 60


class Violation(Exception):
    """A property clause failed."""

    def __init__(self, cls, detail=''):
        Exception.__init__(self, cls, detail)
        self.cls, self.detail = cls, detail


class BaselineFailed(Exception):
    """The run without faults does not work: nothing can be said about this property in this run."""


class Env(object):
    """Everything one simulated run reports."""

    def __init__(self, scratch):
        self.dir = scratch
        self.events = []
        self.faults = {}
        self.probes = {}
        self.sim_s = 0.0
        self.nontrivial = True
        self.h = hashlib.sha256()
        self.nev = 0
        self.sched_h = hashlib.sha256()
        self.keep = False

    def log(self, *ev):
        s = json.dumps(ev, default=str)
        self.h.update(s.encode())
        self.nev += 1
        if len(self.events) < 400:
            self.events.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def check(self, cond, cls, detail=''):
        if not cond:
            raise Violation(cls, detail() if callable(detail) else detail)


def rng_for(*key):
    return random.Random(int.from_bytes(hashlib.sha256(repr(key).encode()).digest()[:8], 'big'))


def parcels_frames(tb):
    out = []
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(REPO_PKG):
            out.append('%s:%s' % (os.path.relpath(f.filename, '/repo'), f.name))
    return out


def _child(prop, scn, scratch, wfd):
    os.environ['TMPDIR'] = scratch
    import tempfile
    os.makedirs(os.path.join(scratch, 'tmp'), exist_ok=True)
    tempfile.tempdir = os.path.join(scratch, 'tmp')
    os.chdir(scratch)
    log = os.open(os.path.join(scratch, 'out.log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    if not os.environ.get('DST_DEBUG'):
        os.dup2(log, 1)
        os.dup2(log, 2)
    env = Env(scratch)
    res = {'v': None, 'err': None}
    import numpy as np
    random.seed(12345)
    np.random.seed(12345)
    try:
        prop.run(scn, env)
    except BaselineFailed as e:
        env.nontrivial = False
        env.probe('baseline-failed')
        env.log('baseline-failed', str(e))
    except Violation as v:
        res['v'] = {'class': v.cls, 'detail': str(v.detail)[:2000]}
    except BaseException as e:
        fr = parcels_frames(e.__traceback__)
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if fr and not getattr(e, 'harness', False):
            res['v'] = {'class': 'unexpected-exception:%s' % type(e).__name__, 'detail': tb}
        else:
            res['err'] = tb
    res.update(digest=env.h.hexdigest()[:24], nev=env.nev, faults=env.faults, probes=env.probes, sim_s=env.sim_s,
               nontrivial=env.nontrivial, events=env.events[:400], sched=env.sched_h.hexdigest()[:16])
    seams.S.reset()
    data = json.dumps(res, default=str).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)
    sys.stdout.flush()
    os._exit(0)


def run_isolated(prop, scn, scratch, timeout=HANG_S):
    """One simulated run in a process of its own."""
    seams.REAL['shutil.rmtree'](scratch, ignore_errors=True)
    os.makedirs(scratch)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    me = os.getpid()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            seams.confine(me)
            _child(prop, scn, scratch, w)
        finally:
            os._exit(99)
    os.close(w)
    buf = b''
    t0 = time.monotonic()
    hang = False
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    os.close(r)
    if hang:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    logtail = ''
    try:
        with seams.REAL['open'](os.path.join(scratch, 'out.log'), 'rb') as f:
            logtail = f.read()[-1500:].decode('utf8', 'replace')
    except OSError:
        pass
    if not os.environ.get('DST_KEEP'):
        seams.REAL['shutil.rmtree'](scratch, ignore_errors=True)
    blank = {'v': None, 'err': None, 'digest': '', 'nev': 0, 'faults': {}, 'probes': {}, 'sim_s': 0,
             'nontrivial': True, 'events': [], 'sched': ''}
    if hang:
        blank['v'] = {'class': 'no-progress', 'detail': 'the run did not end within %d s of real time' % timeout}
        return blank
    if buf:
        try:
            return json.loads(buf.decode())
        except ValueError:
            pass
    if os.WIFSIGNALED(status):
        blank['v'] = {'class': 'process-died:signal %d' % os.WTERMSIG(status), 'detail': logtail}
    else:
        blank['err'] = 'scenario process ended with status %r and no result: %s' % (status, logtail)
    return blank


def _worker(prop, todo, base, wid, wfd):
    for i, scn in todo:
        res = run_isolated(prop, scn, os.path.join(base, 'w%02d' % wid))
        if res['v'] is not None and res['v']['class'] == 'no-progress':
            res = run_isolated(prop, scn, os.path.join(base, 'w%02d' % wid))
        d = json.dumps([i, res], default=str).encode() + b'\n'
        off = 0
        while off < len(d):
            off += os.write(wfd, d[off:])
    os.close(wfd)
    os._exit(0)


def run_many(prop, items, base, nwork=None, stop_after=None):
    """items: list of (index, scenario).  Returns {index: result}."""
    nwork = min(nwork or NWORK, max(1, len(items)))
    fds, pids = [], []
    for k in range(nwork):
        r, w = os.pipe()
        sys.stdout.flush()
        me = os.getpid()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in fds:
                os.close(fd)
            try:
                os.setpgid(0, 0)
                seams.confine(me)
                _worker(prop, items[k::nwork], base, k, w)
            finally:
                os._exit(98)
        os.close(w)
        fds.append(r)
        pids.append(pid)
    out = {}
    bufs = {fd: b'' for fd in fds}
    live = set(fds)
    nviol = 0
    while live:
        ready, _, _ = select.select(list(live), [], [])
        for fd in ready:
            d = os.read(fd, 1 << 20)
            if not d:
                live.discard(fd)
                continue
            bufs[fd] += d
            while b'\n' in bufs[fd]:
                line, bufs[fd] = bufs[fd].split(b'\n', 1)
                i, res = json.loads(line.decode())
                out[i] = res
                if res['v'] is not None:
                    nviol += 5 if res['v']['class'] == 'no-progress' else 1
        if stop_after is not None and nviol >= stop_after:
            break
    for pid in pids:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    for fd in fds:
        os.close(fd)
    for pid in pids:
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    return out


# -- minimisation ------------------------------------------------------------------------------------------------

def _paths(x, pre=()):
    """All list-valued paths inside a scenario."""
    if isinstance(x, dict):
        for k in x:
            for p in _paths(x[k], pre + (k,)):
                yield p
    elif isinstance(x, list):
        yield pre
        for i, y in enumerate(x):
            for p in _paths(y, pre + (i,)):
                yield p


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def default_shrink(scn):
    """Candidates: drop chunks of the scenario's shrinkable lists, then simplify scalars named in scn['_shrink']."""
    lists = scn.get('_lists', [])
    for name in lists:
        path = tuple(name.split('.'))
        try:
            lst = _get(scn, path)
        except (KeyError, TypeError):
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                c = json.loads(json.dumps(scn))
                tgt = _get(c, path)
                del tgt[s:s + size]
                yield c
            size //= 2
    for name, simple in scn.get('_scalars', {}).items():
        path = tuple(name.split('.'))
        try:
            cur = _get(scn, path)
        except (KeyError, TypeError):
            continue
        for val in simple:
            if cur != val:
                c = json.loads(json.dumps(scn))
                _get(c, path[:-1])[path[-1]] = val
                yield c


def minimise(prop, scn, cls, base, budget_s=60):
    t0 = time.monotonic()
    best = scn
    runs = 0
    improved = True
    shrink = getattr(prop, 'shrink', default_shrink)
    valid = getattr(prop, 'valid', lambda s: True)
    while improved and time.monotonic() - t0 < budget_s:
        improved = False
        cands = []
        for c in shrink(best):
            try:
                if valid(c):
                    cands.append(c)
            except Exception:
                pass
            if len(cands) >= 400:
                break
        k = 0
        while k < len(cands) and time.monotonic() - t0 < budget_s:
            batch = cands[k:k + NWORK]
            res = run_many(prop, list(enumerate(batch)), base)
            runs += len(batch)
            hit = [i for i in sorted(res) if res[i]['v'] is not None and res[i]['v']['class'] == cls]
            if hit:
                best = batch[hit[0]]
                improved = True
                break
            k += NWORK
    return best, runs


# -- main ----------------------------------------------------------------------------------------------------------

def load_known(pid):
    try:
        with seams.REAL['open'](os.path.join(VERIF, 'known_findings.json')) as f:
            return [e for e in json.load(f)['findings'] if e['property'] == pid and e['status'] == 'known']
    except FileNotFoundError:
        return []


def match_known(known, v):
    for e in known:
        m = e['match']
        if m['class'] == v['class'] and all(s in v['detail'] for s in m.get('detail_contains', [])):
            return e
    return None


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--only', type=int, help='run a single scenario index and print its event log')
    ap.add_argument('--digests', help='write the event-log digest of every run to this file (determinism test)')
    ap.add_argument('--show', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.monotonic()
    base = os.environ['DST_BASE']
    seams.install()
    seams.install_libs()
    ccache = os.path.join(base, 'cc')
    os.makedirs(ccache, exist_ok=True)
    seams.S.ccache = ccache
    prop = importlib.import_module('dst.props.%s' % a.property.lower())
    prop.setup()
    if a.replay:
        with seams.REAL['open'](a.replay) as f:
            rp = json.load(f)
        res = run_isolated(prop, rp['scenario'], os.path.join(base, 'w99'))
        print(json.dumps({'v': res['v'], 'err': res['err'], 'digest': res['digest'],
                          'same_digest': res['digest'] == rp.get('digest')}, indent=1))
        for e in res['events'] if a.show else []:
            print('  ', e)
        if res['v'] is not None:
            print('VIOLATION property=%s replay=%s' % (a.property, os.path.abspath(a.replay)))
            return 1
        return 2 if res['err'] else 0
    n = a.runs or prop.RUNS[a.tier]
    idx = range(n) if a.only is None else [a.only]
    fixed = getattr(prop, 'FIXED', [])
    items = []
    for i in idx:
        if i < len(fixed):
            scn = json.loads(json.dumps(fixed[i]))
        else:
            scn = prop.gen(rng_for(a.seed, a.property, i), a.tier)
        items.append((i, json.loads(json.dumps(scn))))
    if a.only is not None:
        print(json.dumps(items[0][1], indent=1))
        res = run_isolated(prop, items[0][1], os.path.join(base, 'w99'))
        for e in res.pop('events'):
            print('  ', e)
        print(res.pop('err'))
        print(res['v'] and res['v']['detail'])
        print(res)
        return 0
    results = run_many(prop, items, base, stop_after=40)
    if a.digests:
        with seams.REAL['open'](a.digests, 'w') as f:
            for i in sorted(results):
                f.write('%d %s %s\n' % (i, results[i]['digest'], (results[i]['v'] or {}).get('class')))
    scns = dict(items)
    known = load_known(a.property)
    known_seen = {}
    classes = {}
    errs = []
    for i in sorted(results):
        r = results[i]
        if r['err']:
            errs.append((i, r['err']))
        if r['v'] is not None:
            e = match_known(known, r['v'])
            if e is not None:
                known_seen.setdefault(e['id'], [0, e])[0] += 1
                continue
            classes.setdefault(r['v']['class'], []).append(i)
    wall_search = time.monotonic() - t0
    out_lines = []
    for cls in list(classes)[:3]:
        i = classes[cls][0]
        again = [run_isolated(prop, scns[i], os.path.join(base, 'w98')) for _ in range(2)]
        if not any(x['v'] is not None for x in again):
            errs.append((i, 'violation %s of run %d did not reproduce' % (cls, i)))
            continue
        best, mruns = minimise(prop, scns[i], cls, base, budget_s=40 if a.tier == 'quick' else 120)
        fin = run_isolated(prop, best, os.path.join(base, 'w98'))
        if fin['v'] is None:
            best, fin = scns[i], again[0]
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, '%s-%s.json' % (a.property, hashlib.sha256(json.dumps(best, sort_keys=True).encode()).hexdigest()[:10]))
        with seams.REAL['open'](rfile, 'w') as f:
            json.dump({'property': a.property, 'seed': a.seed, 'run': i, 'violation': fin['v'], 'digest': fin['digest'],
                       'scenario': best, 'trace': fin['events'], 'minimiser_runs': mruns,
                       'how': './check %s --replay %s' % (a.property, rfile)}, f, indent=1)
        print('run %d (seed %d): %s' % (i, a.seed, cls))
        print('   ' + fin['v']['detail'][-1500:].replace('\n', '\n   '))
        out_lines.append('VIOLATION property=%s replay=%s' % (a.property, rfile))
    for k in known_seen:
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (a.property, known_seen[k][1]['what'], known_seen[k][0]))
    for e in known:
        if e['id'] not in known_seen:
            print('note: known finding %s not met in this run' % e['id'])
    faults, probes = {}, {}
    for r in results.values():
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
    nbase = sum(1 for r in results.values() if r['probes'].get('baseline-failed'))
    if nbase > len(results) // 4:
        errs.append((-1, 'the fault-free run itself failed in %d of %d runs' % (nbase, len(results))))
    digs = {r['digest'] for r in results.values() if r['nontrivial']}
    wall = time.monotonic() - t0
    samples = [{'run': i, 'scenario': scns[i], 'trace_head': results[i]['events'][:12]} for i in sorted(results)[:2] + sorted(results)[-1:]]
    ev = {'property': a.property, 'tier': a.tier, 'seed': a.seed, 'level': prop.LEVEL, 'wall_s': round(wall, 2),
          'violations': sum(len(v) for v in classes.values()),
          'assumptions': prop.ASSUMPTIONS,
          'coverage': {'evaluations': len(results), 'distinct_nontrivial': len(digs),
                       'rule': prop.RULE + ' Distinct: different digest of the event log (operations, outputs, faults and schedule as they happened).',
                       'samples': samples,
                       'simulated_runs_per_hour_one_seed_each': int(len(results) * 3600 / max(wall_search, 1e-3)),
                       'simulated_seconds': round(sum(r['sim_s'] for r in results.values()), 1),
                       'events': sum(r['nev'] for r in results.values()),
                       'faults_injected': dict(sorted(faults.items())),
                       'probes': dict(sorted(probes.items())),
                       'distinct_schedules': len({r['sched'] for r in results.values()}),
                       'real_components': prop.REAL_CODE, 'stubbed_components': prop.STUBS,
                       'known_findings_met': {k: v[0] for k, v in known_seen.items()},
                       'harness_errors': len(errs)}}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with seams.REAL['open'](os.path.join(VERIF, 'evidence', '%s.json' % a.property), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d simulated runs (%d distinct) in %.1f s, faults %s, probes %s' % (
        a.property, len(results), len(digs), wall, dict(sorted(faults.items())), dict(sorted(probes.items()))))
    for ln in out_lines:
        print(ln)
    if out_lines:
        return 1
    if errs:
        for i, e in errs[:3]:
            print('HARNESS ERROR in run %d:\n%s' % (i, e))
        return 2
    return 0
