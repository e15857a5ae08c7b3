"""Helpers shared by the harnesses that drive the real code and record what it did."""
import math
import signal

NAN = 999999937
BIG = 1000000000


def fx(v, scale=1):
    """float -> fixed point int, never null, never overflowing 32 bits."""
    v = float(v)
    if math.isnan(v):
        return NAN
    v = v * scale
    if v >= BIG:
        return BIG
    if v <= -BIG:
        return -BIG
    return int(round(v))


def fxl(xs, scale=1):
    """nested list/tensor/array -> nested fixed point ints"""
    if hasattr(xs, "detach"):
        xs = xs.detach().cpu()
        xs = xs.tolist()
    elif hasattr(xs, "tolist"):
        xs = xs.tolist()
    if isinstance(xs, (list, tuple)):
        return [fxl(x, scale) for x in xs]
    return fx(xs, scale)


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout("operation did not return")


class limit:
    def __init__(self, sec):
        self.sec = sec

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.sec)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


def attempt(f, *a, **k):
    """(value, "") or (None, exception class name)"""
    try:
        return f(*a, **k), ""
    except Timeout:
        raise
    except Exception as ex:  # noqa
        return None, type(ex).__name__
