"""Deterministic scheduler: real threads, one at a time, preempted at symbolic points.

Every line of the traced source files (psygnal's modules) is a point at which the
running thread may be preempted; where, and which thread runs next, is decided by
symbolic integers.  Locks are replaced by scheduler-aware ones, so that blocking on a
lock hands the baton to another thread and a deadlock is an observable outcome.

`patch()` must be called before psygnal is imported.
"""
from __future__ import annotations

import os
import queue
import sys
import threading
import _thread

_real_get = queue.Queue.get
ACTIVE: "Scheduler | None" = None


class Stop(BaseException):
    """Ends the other threads of an abandoned schedule."""


class SLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        s = ACTIVE
        if s is not None and me in s.by_ident:
            while not (self.owner is None or (self.reentrant and self.owner == me)):
                if not blocking:
                    return False
                if not s.block(lambda: self.owner is None, timed=timeout >= 0):
                    return False
        elif not (self.owner is None or (self.reentrant and self.owner == me)):
            if s is None:  # left over from an abandoned schedule
                self.owner, self.count = None, 0
            else:
                return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        self.count -= 1
        if self.count <= 0:
            self.owner, self.count = None, 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def __reduce__(self):
        raise TypeError("cannot pickle lock")


class SRLock(SLock):
    reentrant = True


def _get(self, block=True, timeout=None):
    s = ACTIVE
    if block and s is not None and _thread.get_ident() in s.by_ident:
        while not self._qsize():
            if not s.block(self._qsize, timed=timeout is not None):
                raise queue.Empty
        return _real_get(self, False)
    return _real_get(self, block, timeout)


def patch():
    """Make locks created from now on scheduler-aware."""
    threading.RLock = SRLock
    threading.Lock = SLock
    queue.Queue.get = _get


class Actor:
    def __init__(self, sched, i, fn, thread):
        self.i, self.fn, self.thread = i, fn, thread
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.done = False
        self.waiting = None
        self.timed = False
        self.timeout_fired = False
        self.exc = None
        self.started = False


class Scheduler:
    BIG = 10**6
    MAX_POINTS = 20000

    def __init__(self, x, n, preempt, files=("_signal.py", "_queue.py", "_weak_callback.py"),
                 points_from=0):
        """n actors; actor 0 is the calling thread"""
        self.x, self.n, self.left = x, n, preempt
        src = os.environ.get("SYMX_SRC", "/repo/src")
        self.files = {os.path.join(src, "psygnal", f) for f in files}
        self.queue_file = queue.__file__
        self.actors = [Actor(self, i, None, None) for i in range(n)]
        self.actors[0].thread = threading.current_thread()
        for a in self.actors[1:]:
            a.thread = _RealThread(target=self._main, args=(a,), daemon=True)
        self.by_ident = {}
        self.npoint = 0
        self.at = {}
        self.nswitch = 0
        self.deadlock = False
        self.abort = None
        self.idle = _thread.allocate_lock()
        self.idle.acquire()
        self.frozen = 0
        self.switch_log = []

    # ------------------------------------------------------------------ running
    def run(self, fns):
        global ACTIVE
        assert ACTIVE is None and len(fns) == self.n
        for a, f in zip(self.actors, fns):
            a.fn = f
        ACTIVE = self
        for a in self.actors[1:]:
            ready = _thread.allocate_lock()
            ready.acquire()
            a.ready = ready
            a.thread.start()
            ready.acquire()
        self.by_ident[_thread.get_ident()] = self.actors[0]
        try:
            self.current = self.actors[0]
            try:
                self._choose_first()
            except Stop:
                self.actors[0].done = True
            except BaseException as e:
                self.abort = e
                self.actors[0].done = True
                self._wake_all()
            else:
                self._body(self.actors[0])
            # wait until everybody has finished
            while not all(a.done for a in self.actors):
                self.idle.acquire()
        finally:
            ACTIVE = None
            for a in self.actors[1:]:
                threading.Thread.join(a.thread, 10)
                if a.thread.is_alive() and self.abort is None:
                    raise RuntimeError("a thread does not end")
        if self.abort is not None:
            raise self.abort

    def _choose_first(self):
        k = self.x.pick("first", 0, self.n - 1) if self.n > 1 else 0
        if k:
            self._hand_over(self.actors[0], self.actors[k])

    def _main(self, a):
        self.by_ident[_thread.get_ident()] = a
        a.ready.release()
        a.sem.acquire()
        if self.abort is None and not self.deadlock:
            self._body(a)
        else:
            a.done = True
            self._wake_all()

    def _body(self, a):
        sys.settrace(self._trace)
        try:
            a.fn()
        except Stop:
            pass
        except Exception as e:
            a.exc = e
        except BaseException as e:  # the explorer ends this path
            if self.abort is None:
                self.abort = e
        finally:
            sys.settrace(None)
            a.done = True
            self._finish(a)

    def _wake_all(self):
        for b in self.actors:
            if not b.done:
                try:
                    b.sem.release()
                except RuntimeError:
                    pass
        try:
            self.idle.release()
        except RuntimeError:
            pass

    def _finish(self, a):
        if self.abort is not None or self.deadlock:
            self._wake_all()
            return
        try:
            nxt = self._pick_next(a)
        except BaseException as e:
            if self.abort is None:
                self.abort = e
            self._wake_all()
            return
        if nxt is None:
            self._wake_all()  # all done (or deadlock)
            return
        self.current = nxt
        nxt.sem.release()
        if a.i == 0:
            return

    def _runnable(self):
        out = []
        for b in self.actors:
            if not b.done and (b.waiting is None or b.waiting()):
                out.append(b)
        return out

    def _pick_next(self, me):
        """Another thread to run (me is finished or blocked); None: nobody left."""
        rs = [b for b in self._runnable() if b is not me]
        if not rs:
            if all(b.done for b in self.actors):
                return None
            timed = [b for b in self.actors if not b.done and b.timed]
            if timed:
                timed[0].timeout_fired = True
                return timed[0]
            self.deadlock = True
            return None
        if len(rs) == 1:
            return rs[0]
        self.nswitch += 1
        return rs[self.x.pick(f"next{self.nswitch}", 0, len(rs) - 1)]

    def _hand_over(self, me, nxt):
        self.current = nxt
        self.switch_log.append((self.npoint, nxt.i))
        nxt.sem.release()
        me.sem.acquire()
        if self.abort is not None or self.deadlock:
            raise Stop

    # ------------------------------------------------------------------ points
    def block(self, pred, timed=False):
        """Wait until pred(); False when a timed wait gives up."""
        me = self.by_ident[_thread.get_ident()]
        try:
            if self.abort is not None or self.deadlock:
                raise Stop
            if pred():
                return True
            me.waiting, me.timed = pred, timed
            nxt = self._pick_next(me)
            if nxt is me:
                return False
            if nxt is None:
                self._wake_all()
                raise Stop
            self._hand_over(me, nxt)
            fired, me.timeout_fired = me.timeout_fired, False
            return not fired
        finally:
            me.waiting, me.timed = None, False

    def point(self):
        """The running thread may be preempted here."""
        if self.left <= 0:
            return
        me = self.by_ident.get(_thread.get_ident())
        if me is None or self.frozen or self.abort is not None or self.deadlock:
            return
        self.npoint += 1
        if self.npoint > self.MAX_POINTS:
            self.deadlock = True  # livelock
            self._wake_all()
            raise Stop
        rs = [b for b in self._runnable() if b is not me]
        if not rs:
            return
        x = self.x
        at = self.at.get(self.left)
        if at is None:
            at = self.at[self.left] = x.int(f"preempt{self.left}", 0, self.BIG)
        if at == self.npoint:
            self.left -= 1
            self.nswitch += 1
            nxt = rs[0]
            if len(rs) > 1:
                nxt = rs[x.pick(f"next{self.nswitch}", 0, len(rs) - 1)]
            self._hand_over(me, nxt)

    def _trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f in self.files:
            return self._local
        if f == self.queue_file and frame.f_code.co_name == "__init__":
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self._local


class _RealThread(threading.Thread):
    """A Thread whose internal locks are real ones."""

    def __init__(self, *a, **k):
        L, R = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = _thread.allocate_lock, _thread.RLock
        try:
            super().__init__(*a, **k)
        finally:
            threading.Lock, threading.RLock = L, R
