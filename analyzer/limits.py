"""Time limits, nested."""
import signal
import time


class Timeout(Exception):
    pass


_stack = []


def _fire(*_):
    raise Timeout('time limit')


class limit:
    """with limit(s): ... raises Timeout after s seconds, or earlier if an outer limit ends first."""

    def __init__(self, seconds):
        self.end = time.time() + max(seconds, 0.5)

    def __enter__(self):
        _stack.append(self.end)
        self.arm()

    def arm(self):
        signal.signal(signal.SIGALRM, _fire)
        if _stack:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, min(_stack) - time.time()))
        else:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def __exit__(self, *_):
        _stack.pop()
        self.arm()
        return False


def left():
    return min(_stack) - time.time() if _stack else 1e9
