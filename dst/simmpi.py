"""In-process MPI: the part of mpi4py's interface a program like parcels uses, on top of the seeded scheduler."""
import pickle
import types


class MPIError(RuntimeError):
    pass


OPS = {'MAX': lambda v: max(v), 'MIN': lambda v: min(v), 'SUM': lambda v: _sum(v),
       'LAND': lambda v: all(v), 'LOR': lambda v: any(v), 'PROD': None}


def _sum(v):
    r = v[0]
    for x in v[1:]:
        r = r + x
    return r


class Network(object):
    """State shared by all ranks: collectives matched by per-rank sequence number."""

    def __init__(self, size, sched=None, log=None):
        self.size = size
        self.sched = sched
        self.coll = {}
        self.mail = {}
        self.log = log
        self.counts = {}

    def slot(self, rank, seq, kind):
        s = self.coll.setdefault(seq, {'kind': kind, 'vals': {}, 'left': set()})
        if s['kind'] != kind:
            raise MPIError('mismatched collectives: rank %d calls %s while others call %s' % (rank, kind, s['kind']))
        return s


class Comm(object):
    def __init__(self, net, rank):
        self.net, self._rank = net, rank
        self._seq = 0

    def Get_rank(self):
        return self._rank
    rank = property(Get_rank)

    def Get_size(self):
        return self.net.size
    size = property(Get_size)

    def _sync(self, kind, value, need):
        """Deposit `value`; wait until the ranks in `need` have deposited; return {rank: value}."""
        net = self.net
        seq = self._seq
        self._seq += 1
        net.counts[kind] = net.counts.get(kind, 0) + 1
        s = net.slot(self._rank, seq, kind)
        s['vals'][self._rank] = pickle.dumps(value)
        if net.size > 1:
            net.sched.switch('mpi:' + kind, pred=lambda: all(r in s['vals'] for r in need))
        return {r: pickle.loads(v) for r, v in s['vals'].items() if r in need}

    def bcast(self, obj=None, root=0):
        need = [root]
        if self.net.size == 1:
            return obj
        # the root does not wait for the others
        v = self._sync('bcast', obj if self._rank == root else None, need)
        return v[root] if self._rank != root else obj

    def _all(self):
        return list(range(self.net.size))

    def Barrier(self):
        self._sync('barrier', None, self._all())
    barrier = Barrier

    def allreduce(self, obj, op=None):
        v = self._sync('allreduce', obj, self._all())
        vals = [v[r] for r in sorted(v)]
        return OPS[op or 'SUM'](vals)

    def reduce(self, obj, op=None, root=0):
        v = self._sync('reduce', obj, self._all() if self._rank == root else [self._rank])
        return OPS[op or 'SUM']([v[r] for r in sorted(v)]) if self._rank == root else None

    def gather(self, obj, root=0):
        v = self._sync('gather', obj, self._all() if self._rank == root else [self._rank])
        return [v[r] for r in sorted(v)] if self._rank == root else None

    def allgather(self, obj):
        v = self._sync('allgather', obj, self._all())
        return [v[r] for r in sorted(v)]

    def scatter(self, objs=None, root=0):
        v = self._sync('scatter', objs if self._rank == root else None, [root])
        return v[root][self._rank]

    def send(self, obj, dest, tag=0):
        self.net.mail.setdefault((self._rank, dest, tag), []).append(pickle.dumps(obj))
        if self.net.size > 1:
            self.net.sched.switch('mpi:send')

    def recv(self, source=0, tag=0):
        key = (source, self._rank, tag)
        self.net.sched.switch('mpi:recv', pred=lambda: len(self.net.mail.get(key, [])) > 0)
        return pickle.loads(self.net.mail[key].pop(0))


def make_module(net, rank):
    """A fake `mpi4py` package for one rank."""
    pkg = types.ModuleType('mpi4py')
    mod = types.ModuleType('mpi4py.MPI')
    mod.COMM_WORLD = Comm(net, rank)
    for op in OPS:
        setattr(mod, op, op)
    mod.Comm = Comm
    mod.Is_initialized = lambda: True
    mod.Is_finalized = lambda: False
    pkg.MPI = mod
    pkg.__path__ = []
    return {'mpi4py': pkg, 'mpi4py.MPI': mod}
