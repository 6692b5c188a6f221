"""
Seeded thread scheduler: exactly one thread runs at any time; a list of quanta (choice, number of executed source lines
of the code under test) decides every switch.  When the list is used up, the threads finish one after another.
"""
import sys, os, threading
from . import boot

LIB = os.path.join(os.path.realpath(boot.REPO), 'lib') + os.sep
SKIP = os.path.join(os.path.realpath(boot.REPO), 'lib', 'tests')


class Stuck(Exception):
    pass


class Sched:
    active = None

    def __init__(self, tasks, quanta):
        """tasks: list of callables; quanta: list of [choice in [0,1), lines]"""
        self.tasks = tasks
        self.quanta = list(quanta)
        self.qi = 0
        self.n = len(tasks)
        self.alive = list(range(self.n))
        self.locks = [threading.Semaphore(0) for _ in tasks]
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.left = 0
        self.cur = None
        self.switches = 0
        self.lines = 0
        self.trail = []
        self.done = threading.Semaphore(0)
        self.owner = {}            # resource -> thread holding it
        self.free = False          # schedule used up: run without tracing
        self._files = {}

    # --- choice of the next thread
    def next_quantum(self, exclude=None):
        if self.qi < len(self.quanta):
            x, k = self.quanta[self.qi]
            self.qi += 1
            who = self.alive[min(len(self.alive) - 1, int(x * len(self.alive)))]
            self.left = max(1, int(k))
        else:
            self.free = True
            self.left = 1 << 60
            who = self.cur if self.cur in self.alive else self.alive[0]
        if exclude is not None and who == exclude:
            i = self.alive.index(who)
            who = self.alive[(i + 1) % len(self.alive)]
        return who

    def hand_over(self, who, me):
        if who == me:
            return
        self.switches += 1
        self.cur = who
        self.locks[who].release()
        self.locks[me].acquire()

    def mine(self, frame):
        f = frame.f_code.co_filename
        r = self._files.get(f)
        if r is None:
            p = os.path.realpath(f)
            r = self._files[f] = p.startswith(LIB) and not p.startswith(SKIP)
        return r

    def trace(self, me):
        def local(frame, event, arg):
            if event == 'line' and not self.free:
                self.lines += 1
                self.left -= 1
                if self.left <= 0:
                    who = self.next_quantum()
                    if len(self.trail) < 4000:
                        self.trail.append((frame.f_code.co_name, frame.f_lineno))
                    self.hand_over(who, me)
            return local if not self.free else None

        def glob(frame, event, arg):
            if self.free:
                sys.settrace(None)
                return None
            return local if self.mine(frame) else None
        return glob

    # --- resources that the real library serialises with a lock (ARPACK)
    def acquire(self, res):
        me = self.cur
        while self.owner.get(res) not in (None, me):
            if len(self.alive) < 2:
                raise Stuck('waits for %s forever' % res)
            self.hand_over(self.owner[res], me)
        nested = self.owner.get(res) == me
        self.owner[res] = me
        return nested

    def release(self, res, nested):
        if not nested:
            self.owner[res] = None

    def body(self, i):
        self.locks[i].acquire()
        try:
            if not self.free:
                sys.settrace(self.trace(i))
            self.result[i] = self.tasks[i]()
        except BaseException as e:
            import traceback
            self.error[i] = (e, traceback.format_exc())
        finally:
            sys.settrace(None)
            self.alive.remove(i)
            if self.alive:
                who = self.next_quantum()
                self.cur = who
                self.switches += 1
                self.locks[who].release()
            else:
                self.done.release()

    def run(self):
        Sched.active = self
        try:
            ts = [threading.Thread(target=self.body, args=(i,)) for i in range(self.n)]
            for t in ts:
                t.daemon = True
                t.start()
            self.cur = self.next_quantum()
            self.locks[self.cur].release()
            self.done.acquire()
            for t in ts:
                t.join()
        finally:
            Sched.active = None
        return self.result


def guarded(name, f, *a, **k):
    """a call that the real library protects with a global lock"""
    s = Sched.active
    if s is None or s.cur is None:
        return f(*a, **k)
    nested = s.acquire(name)
    try:
        return f(*a, **k)
    finally:
        s.release(name, nested)
