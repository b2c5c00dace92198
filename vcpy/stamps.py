"""vcpy.stamps: time stamps, date times and durations, by their number of seconds.

A Stamp stands for a text in the form YYYY-MM-DDTHH:MM:SSZ: for such texts the order of the text is that of the time,
and datetime (assumed: the standard library's, years 1 to 9999) is exact arithmetic on seconds.
"""

from vcpy import core, arrays
from vcpy.core import SInt, Unsupported, ite

DAY = 86400


def whole(x):
    return x if isinstance(x, (int, SInt)) and not isinstance(x, bool) else core.to_int(x)


class Ordered:
    __hash__ = None

    def _t(self, o):
        if type(o) is not type(self):
            raise TypeError(f"comparison of {type(self).__name__} with {type(o).__name__}")
        return o.t

    def __lt__(self, o):
        return self.t < self._t(o)

    def __le__(self, o):
        return self.t <= self._t(o)

    def __gt__(self, o):
        return self.t > self._t(o)

    def __ge__(self, o):
        return self.t >= self._t(o)

    def __eq__(self, o):
        return self.t == o.t if type(o) is type(self) else False

    def __ne__(self, o):
        return core.snot(self == o)


class Stamp(Ordered):
    """text of a time stamp; z: with the Z at its end"""

    def __init__(self, t, z = True):
        self.t, self.z = t, z

    def _t(self, o):
        if isinstance(o, Stamp) and o.z != self.z:
            raise Unsupported('comparison of time stamps in different forms')
        return Ordered._t(self, o)

    def endswith(self, s):
        if s != 'Z':
            raise Unsupported('ending of time stamp')
        return self.z

    def rstrip(self, s):
        if s != 'Z':
            raise Unsupported('ending of time stamp')
        return Stamp(self.t, False)

    def __getitem__(self, i):
        if i == slice(None, -1, None) and self.z:
            return Stamp(self.t, False)
        raise Unsupported('part of time stamp')

    def __add__(self, s):
        if s == 'Z' and not self.z:
            return Stamp(self.t, True)
        raise Unsupported('text added to time stamp')

    def vc_isinstance(self, t):
        return t is str or (isinstance(t, tuple) and str in t)


class Delta(Ordered):

    def __init__(self, t):
        self.t = t

    @property
    def days(self):
        return self.t // DAY

    @property
    def seconds(self):
        return self.t % DAY

    microseconds = 0

    def total_seconds(self):
        return self.t * 1.0

    def __abs__(self):
        return Delta(abs(self.t))

    def __neg__(self):
        return Delta(-self.t)

    def __add__(self, o):
        return o + self if isinstance(o, When) else Delta(self.t + self._t(o))

    def __sub__(self, o):
        return Delta(self.t - self._t(o))

    def __bool__(self):
        return bool(self.t != 0)


class When(Ordered):

    def __init__(self, t):
        self.t = t

    def __sub__(self, o):
        return When(self.t - o.t) if isinstance(o, Delta) else Delta(self.t - self._t(o))

    def __add__(self, o):
        if not isinstance(o, Delta):
            raise TypeError('unsupported operand')
        return When(self.t + o.t)

    def isoformat(self):
        return Stamp(self.t, False)

    @staticmethod
    def fromisoformat(s):
        if not isinstance(s, Stamp):
            raise Unsupported('date time from other than a time stamp')
        if s.z:
            raise Unsupported('date time from a time stamp with Z')
        return When(s.t)


class Module:
    """stands for the module datetime"""
    datetime = When

    @staticmethod
    def timedelta(days = 0, seconds = 0, microseconds = 0, milliseconds = 0, minutes = 0, hours = 0, weeks = 0):
        if microseconds or milliseconds:
            raise Unsupported('fractions of seconds')
        t = 0
        for v, f in ((weeks, 7 * DAY), (days, DAY), (hours, 3600), (minutes, 60), (seconds, 1)):
            if core.kind_of(v) == 'f':
                raise Unsupported('fractions in a duration')
            t = t + v * f
        return Delta(t)


class StampList:
    """list of time stamps, of symbolic length"""
    __hash__ = None

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def vc_len(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, SInt):
            raise Unsupported('native len of list of symbolic length')
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of list of time stamps')
        return Stamp(self.fn(arrays.check_index(i, self.n)))

    def at(self, i):
        return self.fn(i)

    def append(self, s):
        self.insert(self.n, s)

    def insert(self, k, s):
        if not isinstance(s, Stamp):
            raise Unsupported('other than a time stamp in list')
        old, n = self.fn, self.n
        k = core.smax(core.smin(ite(k < 0, k + n, k), n), 0)

        def fn(i):
            return ite(i < k, old(i), ite(i == k, s.t, old(i - 1)))
        f = arrays.memo(lambda t: fn(t[0]))
        self.fn = lambda i: f((i,))
        self.n = n + 1

    def __iter__(self):
        raise Unsupported('iteration over list of symbolic length')

    def vc_isinstance(self, t):
        return t is list
