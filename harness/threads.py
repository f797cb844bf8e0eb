"""A deterministic scheduler for threads that run code of the package.

Each thread owns its objects.  Only the thread that holds the baton runs; it
is handed over after a given number of traced line events, so a case (its
schedule included) replays exactly.  A thread that makes no progress while it
holds the baton (blocked on a lock that another one has) makes the scheduler
step aside: all threads then run freely.
"""
import sys
import threading
import time

STALL = 3.0


class Baton:
    def __init__(self, count, schedule):
        self.cond = threading.Condition()
        self.schedule = schedule          # [(events, next thread), ...], cyclic
        self.pos = 0
        self.left = schedule[0][0]
        self.turn = 0
        self.live = set(range(count))
        self.free = False
        self.switches = 0
        self.beat = time.monotonic()

    def _hand_over(self, target):
        alive = sorted(self.live)
        if alive:
            following = [i for i in alive if i >= target] or alive
            if following[0] != self.turn:
                self.switches += 1
            self.turn = following[0]
        self.cond.notify_all()

    def _wait(self, me):
        while self.turn != me and not self.free:
            if not self.cond.wait(STALL) and time.monotonic() - self.beat > STALL:
                self.free = True
                self.cond.notify_all()

    def start(self, me):
        with self.cond:
            self._wait(me)

    def event(self, me):
        if self.free:
            return
        self.beat = time.monotonic()
        self.left -= 1
        if self.left > 0:
            return
        with self.cond:
            self.pos = (self.pos + 1) % len(self.schedule)
            self.left, target = self.schedule[self.pos]
            self._hand_over(target % (max(self.live) + 1) if self.live else 0)
            self._wait(me)

    def done(self, me):
        with self.cond:
            self.live.discard(me)
            if self.turn == me:
                self._hand_over(me)


def run(jobs, schedule, inside):
    """Runs the jobs (callables) in threads; returns ([('ok'|'raised', value)], baton).

    inside(filename): whether lines of that file are switching points.
    """
    baton = Baton(len(jobs), [tuple(s) for s in schedule] or [(1 << 30, 0)])
    results = [None] * len(jobs)

    def work(me):
        def local(_frame, kind, _arg):
            if kind == 'line':
                baton.event(me)
            return local

        def trace(frame, _kind, _arg):
            return local if inside(frame.f_code.co_filename) else None

        baton.start(me)
        sys.settrace(trace)
        try:
            results[me] = ('ok', jobs[me]())
        except BaseException as exc:  # pylint: disable=broad-except
            results[me] = ('raised', exc)
        finally:
            sys.settrace(None)
            baton.done(me)

    threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return results, baton
