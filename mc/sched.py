"""A controlled scheduler for real threads.

The threads run the library's code one at a time. Before every line of a file of the package (and at every entry of one of its
functions) the running thread asks the scheduler whether it may go on; a schedule says after how many of these steps the processor
goes to the other thread. Between two schedule points a thread runs undisturbed, so a schedule is deterministic and replayable.
"""
import sys
import threading

from . import env

PREFIX = env.REPO + "/nnj/"


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, bodies, schedule):
        """schedule: list of (thread, steps): that thread runs for so many steps; afterwards everyone runs to the end in order."""
        self.bodies = bodies
        self.schedule = list(schedule)
        self.sem = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.results = [None] * len(bodies)
        self.errors = [None] * len(bodies)
        self.steps = [0] * len(bodies)
        self.left = None  # steps left in the current slice, None: to the end
        self.finished = threading.Event()

    def pick(self):
        """The next slice; returns the thread to run or None."""
        while self.schedule:
            t, k = self.schedule.pop(0)
            if not self.done[t]:
                self.left = k
                return t
        for t, d in enumerate(self.done):
            if not d:
                self.left = None
                return t
        return None

    def point(self, me):
        self.steps[me] += 1
        if self.left is None:
            return
        if self.left > 0:
            self.left -= 1
            return
        nxt = self.pick()
        if nxt == me:
            return self.point_again(me)
        self.sem[nxt].release()
        if not self.sem[me].acquire(timeout=60):
            raise Deadlock()

    def point_again(self, me):
        if self.left is not None and self.left > 0:
            self.left -= 1

    def worker(self, me):
        if not self.sem[me].acquire(timeout=60):
            return

        def local(frame, event, arg):
            if event == "line":
                self.point(me)
            return local

        def tracer(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(PREFIX):
                return local
            return None

        try:
            sys.settrace(tracer)
            try:
                self.results[me] = self.bodies[me]()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: B902
            self.errors[me] = e
        self.done[me] = True
        nxt = self.pick()
        if nxt is None:
            self.finished.set()
        else:
            self.sem[nxt].release()

    def run(self):
        ts = [threading.Thread(target=self.worker, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.sem[self.pick()].release()
        if not self.finished.wait(timeout=60):
            raise Deadlock("the threads did not finish")
        for t in ts:
            t.join()
        return self
