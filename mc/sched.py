"""Controlled scheduler: runs actors (threads) on mcfs one at a time, exploring interleavings.

A scheduling point is a primitive operation on the in-memory filesystem on a path
for which relevant(kind, path) holds. A schedule is the actor to start with and the
numbers of the (global) scheduling points at which the running actor is preempted;
when an actor ends another continues. explore() runs every schedule with at most
the given number of preemptions.
"""
import threading

from . import mcfs

STEP_LIMIT = 20000


class Abort(BaseException):
    """Stops an actor of an execution that is given up."""


class Execution:
    """One execution of two or more actors under one schedule."""

    def __init__(self, actors, start, preempt, relevant):
        self.actors = actors
        self.preempt = list(preempt)
        self.relevant = relevant
        self.current = start
        self.steps = 0               # scheduling points passed
        self.open_steps = []         # points where another actor could have run
        self.enabled = set(range(len(actors)))
        self.results = [None] * len(actors)
        self.trace = []
        self.failure = None
        self.gate = [threading.Semaphore(0) for _ in actors]
        self.finished = threading.Semaphore(0)
        self.ids = {}

    def others(self):
        n = len(self.actors)
        return [a for a in ((self.current + i) % n for i in range(1, n)) if a in self.enabled]

    def point(self, kind, path):
        me = self.ids.get(threading.get_ident())
        if me is None or not self.relevant(kind, path):
            return
        if self.failure:
            raise Abort()
        n = self.steps
        self.steps += 1
        if self.steps > STEP_LIMIT:
            self.failure = "step limit"
            raise Abort()
        others = self.others()
        if others:
            self.open_steps.append(n)
            if n in self.preempt:
                self.current = others[0]
                self.gate[self.current].release()
                self.gate[me].acquire()
                if self.failure:
                    raise Abort()
        self.trace.append((me, kind, path))

    def body(self, me, f):
        self.ids[threading.get_ident()] = me
        self.gate[me].acquire()
        try:
            self.results[me] = ("ok", f())
        except Abort:
            self.results[me] = ("abort", None)
        except Exception as e:
            self.results[me] = ("error", e)
        except BaseException as e:
            self.failure = repr(e)
            self.results[me] = ("abort", e)
        self.enabled.discard(me)
        others = self.others()
        if others:
            self.current = others[0]
            self.gate[self.current].release()
        else:
            self.finished.release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(n, f), daemon=True) for n, f in enumerate(self.actors)]
        mcfs.STORE.hook = self.point
        try:
            for t in threads:
                t.start()
            self.gate[self.current].release()
            self.finished.acquire()
            for t in threads:
                t.join()
        finally:
            mcfs.STORE.hook = None
        return self


def explore(make, relevant, bound, on_execution, starts=(0, 1), part=0, parts=1):
    """Run all schedules with at most bound preemptions.

    make() prepares the store and returns the list of actors. Only the schedules whose first
    preemption is number part modulo parts are run, so that the work can be divided.
    """
    count = 0
    for start in starts:
        stack = [[]]
        while stack:
            preempt = stack.pop()
            x = Execution(make(), start, preempt, relevant).run()
            if any(p >= x.steps for p in preempt) or any(p not in x.open_steps for p in preempt):
                raise AssertionError("schedule %s could not be replayed" % (preempt,))
            if preempt or part == 0:
                count += 1
                on_execution(x, (start, preempt))
            if len(preempt) < bound:
                last = preempt[-1] if preempt else -1
                for n in reversed(x.open_steps):
                    if n > last and (preempt or n % parts == part):
                        stack.append(preempt + [n])
    return count
