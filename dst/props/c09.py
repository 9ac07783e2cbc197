"""C09: particle sets conserve particles and keep identities."""
import numpy as np

from .. import world as W
from ..gen import particle

LEVEL = 'exploration'
RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('Each scenario is a seeded sequence of creating, merging, running (with deletions, failing steps and runs that end in an error), removing, deleting, looking up and altering particles in several sets of one '
        'class, with every way of addressing a particle (index, id, object, boolean vector, value, iteration). After every operation the sets are compared with a dictionary-of-particles model: contents, all '
        'variables, unchanged identities, and the result of each lookup. Non-trivial: at least one removal, deletion or lookup on a non-empty set.')
ASSUMPTIONS = ['a set is not added to itself', 'ids handed to a lookup have the documented type (np.int64)', 'a marked (deleted) particle leaves its set when the set is next run, as documented']
REAL_CODE = ['parcels.particlesets (collections, iterators, accessors)', 'parcels.kernel', 'gcc-compiled kernels']
STUBS = ['MPI (in-process, one rank)']

RM = ['idx1', 'idxs', 'bool', 'id1', 'ids', 'obj', 'isub', 'idxdup', 'idsdict']
LOOK = ['idx', 'id', 'ids', 'ids-missing', 'id-missing', 'iter', 'rev', 'subset', 'multi', 'values', 'obj', 'errors', 'multidict']
EXC = {0: 'NoneType', 1: 'ValueError', 2: 'FieldOutOfBoundError', 3: 'TimeExtrapolationError', 4: 'FieldOutOfBoundSurfaceError', 5: 'ZeroDivisionError'}
DEL = ['id', 'idx', 'obj', 'item']


def setup():
    W.setup()


def gen(rng, tier):
    mode = rng.choice(['jit', 'scipy', 'scipy'])
    dt = rng.choice([1, 2, 0.5])
    sgn = rng.choice([1, 1, -1])
    feat = {'kill': rng.random() < 0.5, 'fail': rng.random() < 0.4, 'delay': rng.random() < 0.4}
    scn = {'mode': mode, 'coord': rng.choice(['f4', 'f8']), 'dt': dt, 't0': 0, 'dir': sgn, 'kernel': 'KFail'}
    if mode == 'scipy' and rng.random() < 0.5:      # steps fail with exceptions, which belong to their particles
        scn['kernel'] = 'KFailPy'
        feat['fail'] = True
    nslots = rng.choice([1, 2, 3, 4, 6])
    unsorted = rng.random() < 0.3
    tag = [0]

    def parts(lo=1):
        out = []
        for _ in range(rng.randint(lo, rng.choice([2, 4, 9]))):
            tag[0] += 1
            p = particle(rng, tag[0], feat, 0, dt, sgn, 4)
            if p.get('ract') == 3:
                p['ract'] = 0
            out.append(p)
        return out
    def new(k, lo=1):
        op = {'op': 'new', 'k': k, 'parts': parts(lo)}
        if unsorted and rng.random() < 0.5:
            op['pids'] = rng.randrange(1, 1000)
        return op
    ops = [new(k) for k in range(nslots)]
    rng.shuffle(ops)
    for _ in range(rng.randint(4, 14 if tier == 'quick' else 30)):
        k = rng.randrange(nslots)
        c = rng.random()
        u = [rng.random() for _ in range(rng.randint(1, 5))]
        if c < 0.12:
            ops.append(new(k, 0 if rng.random() < 0.15 else 1))
        elif c < 0.27:
            ops.append({'op': 'merge', 'k': k, 'src': rng.randrange(nslots), 'how': rng.choice(['add', 'iadd'])})
        elif c < 0.47:
            ops.append({'op': 'rm', 'k': k, 'how': rng.choice(RM), 'u': u, 'all': rng.random() < 0.08})
        elif c < 0.57:
            ops.append({'op': 'del', 'k': k, 'how': rng.choice(DEL), 'u': u})
        elif c < 0.77:
            ops.append({'op': 'look', 'k': k, 'how': rng.choice(LOOK), 'u': u})
        elif c < 0.85:
            ops.append({'op': 'poke', 'k': k, 'how': rng.choice(['idx', 'id', 'iter']), 'u': u})
        elif c < 0.98:
            ops.append({'op': 'exec', 'k': k, 'n': rng.randint(1, 3), 'dir': sgn})
        else:
            ops.append({'op': 'exec', 'k': k, 'n': rng.randint(1, 3), 'dir': sgn, 'norec': 1})
    scn['ops'] = ops
    scn['_lists'] = ['ops']
    scn['_scalars'] = {'mode': ['scipy'], 'coord': ['f4'], 'dt': [1]}
    return scn


class Slot(W.App):
    def __init__(self, P, scn, env, fs, pclass, plist, pids=None):
        from .. import kernels
        self.P, self.scn, self.env, self.fs, self.pclass = P, scn, env, fs, pclass
        self.dt = float(scn['dt'])
        self.pf = None
        self.kernel = kernels.KERNELS[scn['kernel']]
        self.reclog, self.cblog = [], []
        self.pset = W.make_pset(P, scn, fs, pclass, plist, pids=pids)
        self.m = W.Model(scn)
        self.m.add(plist)
        self.pending = set()


def ids_of(ps):
    return [int(i) for i in np.asarray(ps.id).tolist()] if len(ps) else []


def contents(ps):
    """{id: state} through the array accessors."""
    if not len(ps):
        return {}
    cols = [np.asarray(getattr(ps, k), dtype=float).tolist() for k in W.STATE]
    return dict(zip(ids_of(ps), zip(*cols)))


def run(scn, env):
    P = W.PARCELS
    fs = W.make_fieldset(P, scn)
    pclass = W.make_pclass(P, scn, 'SimSet')
    slots, who, aside = {}, {}, []        # who: tag -> id

    def verify(s, op):
        ps = s.pset
        env.check(len(ps) == len(ps.id) == ps.size, 'size-wrong', lambda: 'after %s: len %d, size %d, %d ids' % (op, len(ps), ps.size, len(ps.id)))
        c = contents(ps)
        env.check(len(c) == len(ps), 'id-not-unique', lambda: 'after %s: ids %s' % (op, ids_of(ps)))
        st, ms = sorted(c.values()), sorted(p.state() for p in s.m.parts)
        env.check(st == ms, 'contents-differ-from-model', lambda: 'after %s\nmodel %s\nreal  %s' % (op, [x for x in ms if x not in st][:4], [x for x in st if x not in ms][:4]))
        for i, r in c.items():
            env.check(who.get(r[4]) == i, 'identity-changed', lambda: 'after %s: particle with tag %s had id %s, now %s' % (op, r[4], who.get(r[4]), i))
        if scn['kernel'] == 'KFailPy' and len(ps):
            got = sorted((float(p.tag), type(p.exception).__name__) for p in ps)
            want = sorted((p.v['tag'], EXC[p.v.get('exc', 0)]) for p in s.m.parts)
            env.check(got == want, 'exception-of-another-particle', lambda: 'after %s\nmodel %s\nreal  %s' % (op, want, got))
        if op['op'] in ('merge', 'rm', 'exec') and len(ps):       # every particle is found by its id
            for i in ids_of(ps):
                q = ps.collection.get_single_by_ID(np.int64(i))
                env.check(int(q.id) == i and who.get(float(q.tag)) == i, 'lookup-wrong:id', lambda: 'after %s: asked for id %d, got id %s, tag %s' % (op, i, q.id, q.tag))

    def pick(s, us):
        n = len(s.pset)
        return sorted({int(u * n) for u in us})

    def drop(s, ids):
        tags = {t for t, i in who.items() if i in ids}
        s.m.parts = [p for p in s.m.parts if p.v['tag'] not in tags]
        s.pending -= tags

    def judge(s, got, want, how):
        g = []
        for p in got:
            g.append((int(p.id),) + tuple(float(getattr(p, k)) for k in W.STATE))
        c = contents(s.pset)
        w = [(i,) + c[i] for i in want]
        env.check(g == w if how in ('iter', 'rev', 'idx', 'subset', 'multi') else sorted(g) == sorted(w), 'lookup-wrong:' + how, lambda: 'asked for ids %s\ngot %s\nwant %s' % (want, g, w))

    for op in scn['ops']:
        k = op['op']
        if k == 'new':
            if op['k'] in slots:
                aside.append((slots[op['k']], contents(slots[op['k']].pset)))
            s = slots[op['k']] = Slot(P, scn, env, fs, pclass, op['parts'], op.get('pids'))
            for t, i in zip(np.asarray(s.pset.tag, dtype=float).tolist() if op['parts'] else [], ids_of(s.pset)):
                env.check(i not in who.values(), 'id-reused', lambda: 'id %d of new particle %s was used by %s' % (i, t, [a for a, b in who.items() if b == i]))
                who[t] = i
            verify(s, op)
            env.log('new', ids_of(s.pset))
            continue
        if op['k'] not in slots:
            continue
        s = slots[op['k']]
        ps, coll = s.pset, s.pset.collection
        n = len(ps)
        ids = ids_of(ps)
        if k == 'merge':
            if op['src'] not in slots or op['src'] == op['k']:
                continue
            o = slots.pop(op['src'])
            before = contents(o.pset)
            if op['how'] == 'add':
                ps.add(o.pset)
            else:
                s.pset += o.pset
                env.check(s.pset is ps, 'iadd-replaces-set', '')
            s.m.parts += o.m.parts
            s.pending |= o.pending
            o.m = None
            aside.append((o, before))
            env.probe('merge')
        elif k == 'exec':
            dead = {p.v['tag'] for p in s.m.parts} & s.pending
            if n == 0 or len(dead) == n:
                continue
            if op.get('norec') and any(p.v['nf'] > 0 for p in s.m.parts):
                try:
                    s.execute(op)
                except Exception as e:
                    from ..core import parcels_frames
                    if parcels_frames(e.__traceback__) and isinstance(e, (AttributeError, NameError, KeyError, IndexError)):
                        raise
                    env.fault('unrecovered-step-error')
                # the run was abandoned: only identities are defined now
                c = contents(ps)
                env.check(len(c) == len(ps) and set(c) <= set(ids), 'identity-changed', lambda: 'after an abandoned run: ids %s, before %s' % (sorted(c), ids))
                for i, r in c.items():
                    env.check(who.get(r[4]) == i, 'identity-changed', lambda: 'after an abandoned run: tag %s has id %s' % (r[4], i))
                for t in set(ids) - set(c):
                    tg = [a for a, b in who.items() if b == t][0]
                    p = [p for p in s.m.parts if p.v['tag'] == tg][0]
                    env.check(p.v['kill'] > 0 or tg in s.pending, 'particle-lost', lambda: 'particle %s vanished in an abandoned run' % tg)
                del slots[op['k']]
                continue
            s.m.parts = [p for p in s.m.parts if p.v['tag'] not in dead]
            s.pending -= dead
            a, b = s.m.execute(op['n'], op['dir'])
            op = {x: y for x, y in op.items() if x != 'norec'}
            s.execute(op)
            env.sim_s += abs(b - a)
            if s.m.recoveries:
                env.fault('kernel-error', len(s.m.recoveries))
                s.m.recoveries = []
        elif n == 0:
            continue
        elif k == 'rm':
            ix = pick(s, op['u'])
            if op['all']:
                ix = list(range(n))
            h = op['how']
            if h in ('idx1', 'id1', 'obj', 'isub'):
                ix = ix[:1]
            gone = [ids[i] for i in ix]
            if h == 'idx1':
                ps.remove_indices(ix[0] if op['u'][0] < 0.5 else np.int32(ix[0]))
            elif h == 'idxs':
                ps.remove_indices(np.array(ix) if op['u'][0] < 0.5 else list(ix))
            elif h == 'idxdup':
                ps.remove_indices(np.array(ix + ix[:1]))
            elif h == 'bool':
                b = np.zeros(n, dtype=bool)
                b[ix] = True
                ps.remove_booleanvector(b if op['u'][0] < 0.5 else b.tolist())
            elif h == 'id1':
                coll.remove_single_by_ID(np.int64(gone[0]))
            elif h == 'ids':
                coll.remove_multi_by_IDs([np.int64(i) for i in reversed(gone)])
            elif h == 'idsdict':
                coll.remove_multi_by_IDs({j: np.int64(i) for j, i in enumerate(gone)})
            elif h == 'obj':
                coll.remove_single_by_object(ps[ix[0]])
            elif h == 'isub':
                coll -= ps[ix[0]]
            drop(s, set(gone))
            env.probe('rm-' + h)
            env.nontrivial = True
        elif k == 'del':
            i = pick(s, op['u'])[0]
            h = op['how']
            if h == 'id':
                coll.delete_by_ID(np.int64(ids[i]))
            elif h == 'idx':
                coll.delete_by_index(i)
            elif h == 'item':
                del coll[i]
            else:
                ps[i].delete()
            s.pending |= {t for t, j in who.items() if j == ids[i]}
            env.check(len(ps) == n, 'deletion-too-early', '')
            env.probe('delete')
            env.nontrivial = True
        elif k == 'look':
            ix = pick(s, op['u'])
            h = op['how']
            want = [ids[i] for i in ix]
            if h == 'idx':
                judge(s, [ps[i] for i in ix], want, h)
            elif h == 'id':
                judge(s, [coll.get_single_by_ID(np.int64(i)) for i in want], want, h)
            elif h == 'obj':
                judge(s, [coll.get_single_by_object(ps[i]) for i in ix], want, h)
            elif h == 'ids':
                judge(s, coll.get_multi_by_IDs([np.int64(i) for i in want]), want, h)
            elif h == 'ids-missing':
                r = coll.get_multi_by_IDs(np.array(sorted(want + [max(ids) + 1000] + [i for i in who.values() if i not in ids][:2], key=lambda v: hash((v, op['u'][0]))), dtype=np.int64))
                judge(s, r, want, h)
            elif h == 'id-missing':
                for bad in [max(ids) + 1000] + [i for i in who.values() if i not in ids][:2]:
                    try:
                        p = coll.get_single_by_ID(np.int64(bad))
                        pid = int(p.id)
                    except (ValueError, IndexError, KeyError):
                        continue
                    env.check(False, 'lookup-wrong:missing-id-found', lambda: 'asked for id %d, got %d' % (bad, pid))
            elif h == 'iter':
                judge(s, list(iter(ps)), ids, h)
            elif h == 'rev':
                judge(s, list(reversed(coll)), ids[::-1], h)
            elif h == 'subset':
                judge(s, list(ps.indexed_subset(np.array(ix))), want, h)
            elif h == 'multi':
                judge(s, list(coll.get_multi_by_indices(list(ix))), want, h)
            elif h == 'multidict':
                judge(s, list(coll.get_multi_by_indices({j: i for j, i in enumerate(ix)})), want, h)
            elif h == 'values':
                c = contents(ps)
                tags = [c[i][4] for i in want]
                got = [ids[j] for j in ps.data_indices('tag', tags)]
                env.check(sorted(got) == sorted(want), 'lookup-wrong:values', lambda: '%s %s' % (got, want))
                got = [ids[j] for j in ps.data_indices('tag', tags[0], invert=True)]
                env.check(sorted(got) == sorted(set(ids) - {want[0]}), 'lookup-wrong:values', lambda: '%s %s' % (got, want))
            elif h == 'errors':
                bad = sorted(who[t] for t in s.pending)
                env.check(sorted(int(p.id) for p in ps.error_particles) == bad and ps.num_error_particles == len(bad), 'lookup-wrong:errors',
                          lambda: 'error particles %s, marked %s' % ([int(p.id) for p in ps.error_particles], bad))
            env.probe('look-' + h)
            env.nontrivial = True
        elif k == 'poke':
            i = pick(s, op['u'])[0]
            tg = [t for t, j in who.items() if j == ids[i]][0]
            if op['how'] == 'idx':
                p = ps[i]
            elif op['how'] == 'id':
                p = coll.get_single_by_ID(np.int64(ids[i]))
            else:
                p = [p for p in ps if int(p.id) == ids[i]][0]
            p.e = p.e + 3
            p.lat = p.lat + 0.5
            for q in s.m.parts:
                if q.v['tag'] == tg:
                    q.v['e'] += 3
                    q.y += 0.5
            env.probe('poke')
        env.log(k, op.get('how'), ids_of(s.pset))
        for j in slots:
            verify(slots[j], op)
        for o, before in aside:
            env.check(contents(o.pset) == before, 'other-set-altered', lambda: 'a set that was added to another or put aside changed after %s:\nbefore %s\nnow %s' % (op, before, contents(o.pset)))
