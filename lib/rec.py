"""Recording helpers for drivers: numbers become exact hexadecimal strings, calls become events."""
import numpy as np

PEND = lambda x: None


class Escaped(Exception):
    def __init__(self, call, what, case=None):
        self.call, self.what, self.case = call, what, case
        Exception.__init__(self, "%s: %s" % (call, what))


def hx(x):
    """nested lists of exact strings"""
    if isinstance(x, np.ndarray):
        if np.iscomplexobj(x):
            return [hx(x.real), hx(x.imag)]
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [hx(y) for y in x]
    if isinstance(x, complex):
        return [hx(x.real), hx(x.imag)]
    return float(x).hex()


def ints(x):
    return [ints(y) for y in x] if isinstance(x, (list, tuple, np.ndarray)) else int(x)


def must(name, fn, *a, **k):
    """A call that the property says succeeds: an exception is itself an observation (clause 'raised')."""
    PEND({"pend": name})
    try:
        return fn(*a, **k)
    except Exception as e:
        raise Escaped(name, "%s: %s" % (type(e).__name__, str(e)[:200]))


def attempt(name, fn, *a, **k):
    """-> (value, '') or (None, exception class name)"""
    PEND({"pend": name})
    try:
        return fn(*a, **k), ""
    except Exception as e:
        return None, type(e).__name__


def unit(rng, k=60, p=.5):
    """a power of two: multiplying and dividing by it is exact, so results must not depend on it"""
    return 2. ** int(rng.choice([-1, 1]) * rng.integers(k // 3, k + 1)) if rng.random() < p else 1.
