"""Two calls at the same time, on two threads of which one runs at a time.

A thread can be suspended where it enters a function of the package (or, with lines=True, at
every line of it).  The schedule says after how many such points which thread is suspended."""
import os
import sys
import threading
import time

ROOT = os.path.join(os.path.realpath(os.environ.get("VERIF_REPO", "/repo")), "eth_abi") + os.sep


class Dead(BaseException):
    """the other thread ended the experiment"""


class Blocked(BaseException):
    """a thread waits for something other than the schedule (a lock)"""


TIMES = [0]


_OURS = {}


def ours(code):
    k = _OURS.get(code)
    if k is None:
        k = not code.co_name.startswith("<") and (
            code.co_filename.startswith(ROOT) or os.path.realpath(code.co_filename).startswith(ROOT))
        _OURS[code] = k
    return k


def tracer(point, lines):
    def local(frame, event, arg):
        if event == "line":
            point()
        return local

    def trace(frame, event, arg):
        if event == "call" and ours(frame.f_code):
            if lines:
                return local
            point()
        return None

    return trace


def traced(f, point, lines):
    old = sys.gettrace()
    sys.settrace(tracer(point, lines))
    try:
        return f()
    finally:
        sys.settrace(old)


def count(f, lines=False):
    """number of points that f passes"""
    n = [0]

    def point():
        n[0] += 1

    traced(f, point, lines)
    return n[0]


def interleave(fs, plan, lines=False):
    """Runs the two functions; plan: how many points the first one passes until the second one
    runs, how many that one passes until the first one goes on, and so on.  Returns their
    results."""
    turn = [threading.Semaphore(0), threading.Semaphore(0)]
    state = dict(left=list(plan), done=[False, False], dead=False)
    result = [None, None]
    error = [None]

    def used():
        try:
            return time.clock_gettime(time.pthread_getcpuclockid(th.ident))
        except OSError:  # it has just ended
            return -1.0

    def wait(me):
        if me == 1:
            turn[1].acquire()
        else:
            # the other thread is blocked if it uses no processor time for a while
            seen = used()
            quiet = 0
            while not turn[0].acquire(timeout=0.02):
                now = used()
                quiet = quiet + 1 if now - seen < 1e-5 else 0
                seen = now
                if quiet > (60 if TIMES[0] < 2 else 10):
                    TIMES[0] += 1
                    state["dead"] = True
                    raise Blocked()
        if state["dead"]:
            raise Dead()

    def switch(me):
        turn[1 - me].release()
        wait(me)

    def point_of(me):
        def point():
            if state["dead"]:
                raise Dead()
            left = state["left"]
            if not left or state["done"][1 - me]:
                return
            if left[0] == 0:
                left.pop(0)
                switch(me)
            else:
                left[0] -= 1
        return point

    def run(me):
        result[me] = traced(fs[me], point_of(me), lines)
        state["done"][me] = True

    def second():
        try:
            wait(1)
            run(1)
        except Dead:
            return
        except BaseException as e:
            error[0] = e
            state["done"][1] = True
        turn[0].release()

    th = threading.Thread(target=second, daemon=True)
    th.start()
    try:
        run(0)
        if not state["done"][1]:
            switch(0)
    except BaseException:
        state["dead"] = True
        turn[1].release()
        th.join(5)
        raise
    th.join()
    if error[0] is not None:
        raise error[0]
    return result
