"""A virtual clock: threading.Timer with symbolic real time."""
from __future__ import annotations

import threading


class Clock:
    """now and the running timers of the current path (integer milliseconds)"""

    x = None
    now = 0
    timers: list = []
    fired = 0

    @classmethod
    def reset(cls, x=None):
        cls.x, cls.now, cls.timers, cls.fired = x, 0, [], 0
        cls.asked = 0

    @classmethod
    def _due(cls, until, tie):
        """The next timer to fire up to `until` (None: whenever)."""
        best = None
        for t in cls.timers:
            if until is not None:
                if tie:
                    if not (t.deadline <= until):
                        continue
                elif not (t.deadline < until):
                    continue
            if best is None or t.deadline < best.deadline:
                best = t
        return best

    @classmethod
    def advance(cls, gap, tie):
        """Let `gap` pass; timers due at the very end fire only if `tie`."""
        until = cls.now + gap
        while True:
            t = cls._due(until, tie)
            if t is None:
                break
            cls.fire(t)
        cls.now = until

    @classmethod
    def settle(cls, limit=20):
        """Run all timers; False if there is no end to it."""
        for _ in range(limit):
            t = cls._due(None, True)
            if t is None:
                return True
            cls.fire(t)
        return False

    @classmethod
    def fire(cls, t):
        cls.now = t.deadline
        cls.timers.remove(t)
        cls.fired += 1
        try:
            t.function(*t.args, **t.kwargs)
        finally:
            t.state = "done"


class VTimer:
    daemon = True

    def __init__(self, interval, function, args=None, kwargs=None):
        self.interval, self.function = interval, function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.state = "new"
        self.name = "Timer"

    def start(self):
        if self.state == "precancelled":
            self.state = "done"
            return
        if self.state != "new":
            raise RuntimeError("threads can only be started once")
        self.deadline = Clock.now + round(self.interval * 1000)
        self.state = "running"
        if self.interval <= 0:
            self.state = "done"
            self.function(*self.args, **self.kwargs)
        else:
            Clock.timers.append(self)

    def cancel(self):
        if self.state == "new":
            self.state = "precancelled"
        elif self.state == "running" and self in Clock.timers:
            Clock.timers.remove(self)
            self.state = "cancelled"

    def is_alive(self):
        if self.state == "running":
            return True
        if self.state == "cancelled":
            # the thread ends some time after it was cancelled
            Clock.asked += 1
            if Clock.x is not None and Clock.x.flag(f"still alive {Clock.asked}"):
                return True
            self.state = "done"
        return False

    def join(self, timeout=None):
        if self.state == "cancelled":
            self.state = "done"


def patch():
    threading.Timer = VTimer
