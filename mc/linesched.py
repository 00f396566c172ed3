"""Controlled execution of flory's own Python code, line by line.

`interrupted(func, n)` raises KeyboardInterrupt just before the n-th line of the package is
executed (fault injector).  `Pair` runs two functions in two threads of which only one
proceeds at a time; control passes from one to the other exactly at chosen lines (scheduler).
Compiled functions and library calls are atomic steps."""
import os
import sys
import threading
import time

import flory

ROOT = os.path.dirname(os.path.abspath(flory.__file__)) + os.sep


def tracer(hook):
    def local(frame, event, arg):
        if event == "line":
            hook()
        return local

    def top(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(ROOT):
            return local
        return None

    return top


def lines(func):
    """number of lines of the package executed by func"""
    n = 0

    def hook():
        nonlocal n
        n += 1

    old = sys.gettrace()
    sys.settrace(tracer(hook))
    try:
        func()
    finally:
        sys.settrace(old)
    return n


class Interrupt(KeyboardInterrupt):
    pass


def interrupted(func, at):
    """(True, None) if func was interrupted just before line number `at`, else (False, result)"""
    n = 0

    def hook():
        nonlocal n
        n += 1
        if n == at + 1:
            raise Interrupt

    old = sys.gettrace()
    sys.settrace(tracer(hook))
    try:
        return False, func()
    except Interrupt:
        return True, None
    finally:
        sys.settrace(old)


class Pair:
    """two threads under one scheduler; plan = numbers of lines after which control passes on"""

    STALL = 20.0

    def __init__(self, funcs, first, plan):
        self.funcs = funcs
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.result = [None, None]
        self.error = [None, None]
        self.plan = list(plan)
        self.cur = first
        self.left = self.plan.pop(0) if self.plan else None
        self.free = False
        self.events = 0
        self.switches = 0

    def hook(self, me):
        self.events += 1
        if self.free or self.left is None:
            return
        if self.left == 0:
            other = 1 - me
            if self.done[other]:
                self.left = None
                return
            self.left = self.plan.pop(0) if self.plan else None
            self.cur = other
            self.switches += 1
            self.sem[other].release()
            self.sem[me].acquire()
            # this line is executed now; it counts for the new segment
            if self.left is not None and not self.free:
                self.left = max(0, self.left - 1)
            return
        self.left -= 1

    def body(self, me):
        self.sem[me].acquire()
        sys.settrace(tracer(lambda: self.hook(me)))
        try:
            self.result[me] = self.funcs[me]()
        except BaseException as e:
            self.error[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            self.left = None
            self.sem[1 - me].release()

    def run(self):
        """True if the schedule could be followed (no thread had to wait for a lock of the other)"""
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.sem[self.cur].release()
        last, t_last = -1, time.time()
        for t in ts:
            while t.is_alive():
                t.join(1.0)
                if t.is_alive():
                    if self.events != last:
                        last, t_last = self.events, time.time()
                    elif time.time() - t_last > self.STALL and not self.free:
                        self.free = True
                        for s in self.sem:
                            s.release()
        return not self.free
