"""
Seams around what the code under test takes from outside: numerical routines, unit conversions, input objects.

`install()` has to be called before openscm is imported. A fault is armed for one operation: the n-th call at a site
raises.
"""

EXCEPTIONS = {
    "MemoryError": MemoryError,
    "RuntimeError": RuntimeError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "OSError": OSError,
    "ZeroDivisionError": ZeroDivisionError,
}


class Arm:
    """The fault armed at present."""

    site = None
    n = 0
    exc = None
    fired = 0

    def set(self, fault):
        self.site = fault["site"]
        self.n = fault["n"]
        self.exc = EXCEPTIONS[fault["exc"]]
        self.fired = 0

    def clear(self):
        """Disarm; how often it fired."""
        fired = self.fired
        self.site = None
        self.fired = 0
        return fired

    def hit(self, site):
        if self.site != site:
            return
        if self.n > 0:
            self.n -= 1
            return
        if self.fired:
            return
        self.fired += 1
        raise self.exc("injected at {}".format(site))


ARM = Arm()
SITES = ["interp1d", "interp_call", "quad", "to"]


def install():
    import scipy.integrate
    import scipy.interpolate

    if getattr(scipy.interpolate.interp1d, "simulated", False):
        return

    interp1d = scipy.interpolate.interp1d
    quad = scipy.integrate.quad

    class Interp:
        """interp1d whose construction and calls can fail."""

        simulated = True

        def __init__(self, *args, **kwargs):
            ARM.hit("interp1d")
            self._f = interp1d(*args, **kwargs)

        def __call__(self, *args, **kwargs):
            ARM.hit("interp_call")
            return self._f(*args, **kwargs)

        def __getattr__(self, name):
            return getattr(self._f, name)

    def sim_quad(*args, **kwargs):
        ARM.hit("quad")
        return quad(*args, **kwargs)

    scipy.interpolate.interp1d = Interp
    scipy.integrate.quad = sim_quad

    import pint.quantity

    cls = pint.quantity.Quantity
    to = cls.to

    def sim_to(self, *args, **kwargs):
        ARM.hit("to")
        return to(self, *args, **kwargs)

    cls.to = sim_to


class Faulty:
    """Input object which fails while being read."""

    def __init__(self, values, where, exc, at=0):
        self._values = list(values)
        self._where = where
        self._exc = EXCEPTIONS[exc]
        self._at = at

    def _hit(self, where):
        if where == self._where:
            raise self._exc("injected in input object: " + where)

    def __len__(self):
        self._hit("len")
        return len(self._values)

    def __array__(self, dtype=None, copy=None):
        import numpy as np

        self._hit("array")
        return np.array(self._values, dtype=dtype)

    def __getitem__(self, i):
        if self._where == "getitem" and i >= self._at:
            raise self._exc("injected in input object: getitem")
        return self._values[i]


class FaultyNumber:
    """Number which fails when used."""

    def __init__(self, exc):
        self._exc = EXCEPTIONS[exc]

    def _fail(self, *_):
        raise self._exc("injected in number")

    __sub__ = __rsub__ = __add__ = __radd__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __float__ = _fail
    __int__ = __index__ = __array__ = _fail
