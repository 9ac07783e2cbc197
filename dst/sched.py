"""Seeded cooperative scheduler: real threads, exactly one of which runs; who runs next is decided here."""
import sys
import threading


class Deadlock(Exception):
    pass


class Killed(BaseException):
    """Raised inside a parked task when the simulation is torn down."""


class Task(object):
    def __init__(self, sched, name, fn, modules=None):
        self.sched, self.name, self.fn = sched, name, fn
        self.sem = threading.Semaphore(0)
        self.pred = None
        self.done = False
        self.exc = None
        self.result = None
        self.killed = False
        self.modules = modules
        self.thread = threading.Thread(target=self._run, daemon=True)

    def _run(self):
        self.sem.acquire()
        try:
            if self.killed:
                raise Killed()
            self.result = self.fn()
        except Killed:
            pass
        except BaseException as e:
            self.exc = e
        self.done = True
        self.sched._finished(self)

    def runnable(self):
        return not self.done and (self.pred is None or self.pred())


class Sched(object):
    def __init__(self, rng, log=None, bias=None, max_steps=200000):
        self.rng = rng
        self.tasks = []
        self.cur = None
        self.main = threading.Semaphore(0)
        self.log = log
        self.steps = 0
        self.max_steps = max_steps
        self.switches = 0
        self.bias = bias or {}        # task name -> weight
        self.failure = None
        self.stop_on_exception = True
        self.trace = []

    def spawn(self, name, fn, modules=None):
        t = Task(self, name, fn, modules)
        self.tasks.append(t)
        t.thread.start()
        return t

    # -- scheduling -----------------------------------------------------------------------------------------------
    def _pick(self):
        run = [t for t in self.tasks if t.runnable()]
        if not run:
            return None
        if len(run) == 1:
            return run[0]
        w = [self.bias.get(t.name, 1.0) for t in run]
        return self.rng.choices(run, w)[0]

    def _handover(self, t):
        if t.modules is not None and (self.cur is None or self.cur is not t):
            for k in [k for k in sys.modules if k == 'parcels' or k.startswith('parcels.') or k.startswith('mpi4py')]:
                if k not in t.modules:
                    del sys.modules[k]
            sys.modules.update(t.modules)
        self.cur = t
        t.pred = None
        t.sem.release()

    def switch(self, label='', pred=None):
        """Called by the running task: let the scheduler decide who goes on; block until pred() when given."""
        me = self.cur
        self.steps += 1
        me.pred = pred
        if self.steps > self.max_steps:
            self.failure = 'step budget of %d exceeded' % self.max_steps
            self._teardown(me)
        nxt = self._pick()
        if self.log is not None:
            self.log((me.name, label, nxt.name if nxt else None))
        if nxt is None:
            self.failure = 'deadlock: ' + ', '.join('%s %s' % (t.name, 'done' if t.done else 'waiting') for t in self.tasks)
            self._teardown(me)
        if nxt is me:
            me.pred = None
            return
        self.switches += 1
        self._handover(nxt)
        me.sem.acquire()
        if me.killed:
            raise Killed()

    def _teardown(self, me):
        for t in self.tasks:
            t.killed = True
        self.main.release()
        me.sem.acquire()   # never resumes: the process ends
        raise Killed()

    def _finished(self, t):
        if self.failure is not None:
            return
        if t.exc is not None and self.stop_on_exception:
            self.failure = 'exception'
            self.main.release()
            return
        nxt = self._pick()
        if nxt is None:
            left = [x.name for x in self.tasks if not x.done]
            if left:
                self.failure = 'deadlock: %s finished, waiting forever: %s' % (
                    ','.join(x.name for x in self.tasks if x.done), ','.join(left))
            self.main.release()
            return
        self._handover(nxt)

    def run(self):
        nxt = self._pick()
        self._handover(nxt)
        self.main.acquire()
        return self.failure
