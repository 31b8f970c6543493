"""Bounded, fault-isolated analysis of one function: anything the engine cannot do is 'undecided'."""
import signal
import sys
import time
import traceback
from contextlib import contextmanager

sys.setrecursionlimit(20000)


class OutOfTime(Exception):
    pass


def _alarm(*a):
    raise OutOfTime()


@contextmanager
def guarded(rep, what, seconds=60):
    """run the body; a limit, a timeout or an engine failure becomes an undecided obligation"""
    old = signal.signal(signal.SIGALRM, _alarm)
    left = signal.getitimer(signal.ITIMER_REAL)[0]
    t0 = time.time()
    signal.setitimer(signal.ITIMER_REAL, min(seconds, left) if left else seconds)
    try:
        yield
    except OutOfTime:
        rep.add("analysed: " + what, "open", "time limit %ss" % seconds)
        rep.notes.append("%s: time limit %ss" % (what, seconds))
    except RecursionError:
        rep.add("analysed: " + what, "open", "recursion")
        rep.notes.append("%s: recursion limit" % what)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.add("analysed: " + what, "open", repr(e))
        rep.notes.append("%s: %r at %s:%d" % (what, e, tb.filename.split("/")[-1], tb.lineno))
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(0.01, left - (time.time() - t0)) if left else 0)
        signal.signal(signal.SIGALRM, old)
