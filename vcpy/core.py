"""vcpy.core: symbolic scalars, path conditions, and obligation bookkeeping.

A scalar proxy wraps a z3 term.  Python integers are mathematical integers, floats are mathematical reals extended
with an explicit NaN flag.  The real repository code runs on these proxies; every python level decision on a symbolic
boolean asks the path explorer (Ctx.branch), so that all feasible paths are enumerated.
"""

import sys
import math
import time
import hashlib
import weakref
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3
import numpy as _np

z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    """raised when the code leaves the subset which the verifier handles"""


class PathDone(BaseException):
    """raised to end the current path (e.g. after checking preservation of a loop invariant)"""


class Infeasible(BaseException):
    """raised when the path condition is contradictory"""


class Restart(BaseException):
    """raised when the exploration has to start again with a larger loop frame"""


class Budget(Exception):
    """raised when the time or path budget of a harness is exhausted"""


CTX = None  # current Ctx, or None when running concretely


def ctx():
    if CTX is None:
        raise Unsupported('symbolic operation outside of a verification context')
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()

PI = z3.Real('PI')
F_DIV = z3.Function('quotient', I, I, I)
F_MOD = z3.Function('remainder', I, I, I)
F_SIN = z3.Function('sin', R, R)
F_COS = z3.Function('cos', R, R)
F_SQRT = z3.Function('sqrt', R, R)

_true = z3.BoolVal(True)
_false = z3.BoolVal(False)


def is_sym(x):
    return isinstance(x, (S, SBool))


# ----------------------------------------------------------------------------------------------------------------------
# coercions

def frac_of_float(x):
    """exact rational which the decimal literal denotes (idealised real arithmetic)"""
    if x == int(x) and abs(x) < 1e18:
        return Fraction(int(x))
    return Fraction(repr(float(x)))


_const_cache = {}


def int_term(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    raise Unsupported(f'int term of {type(x)}')


def real_term(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, _np.bool_)):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, (int, _np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x:
            return z3.RealVal(0)
        if math.isinf(x):
            raise Unsupported('arithmetic with infinity')
        if x == math.pi:
            return PI
        if x == 2.0 * math.pi:
            return 2 * PI
        if x == math.pi / 2.0:
            return PI / 2
        if x == math.pi / 4.0:
            return PI / 4
        if x == math.pi / 180.0:
            return PI / 180
        if x == -math.pi:
            return -PI
        return z3.RealVal(str(frac_of_float(x)))
    raise Unsupported(f'real term of {type(x)}')


def nan_of(x):
    """z3 bool or None"""
    if isinstance(x, SReal):
        return x.nan
    if isinstance(x, (float, _np.floating)) and x != x:
        return _true
    return None


def or_nan(*fs):
    fs = [f for f in fs if f is not None]
    if not fs:
        return None
    if any(z3.is_true(f) for f in fs):
        return _true
    if len(fs) == 1:
        return fs[0]
    return z3.Or(*fs)


def bool_term(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return _true if x else _false
    if isinstance(x, SInt):
        return x.t != 0
    if isinstance(x, SReal):
        return x.t != 0 if x.nan is None else z3.Or(x.nan, x.t != 0)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (int, float)):
        return _true if x else _false
    raise Unsupported(f'bool term of {type(x)}')


def kind_of(x):
    """'b', 'i', 'f' or 'o'"""
    if isinstance(x, (SBool, bool, _np.bool_)):
        return 'b'
    if isinstance(x, (SInt, int, _np.integer)):
        return 'i'
    if isinstance(x, (SReal, float, _np.floating)):
        return 'f'
    return 'o'


def is_npy(x):
    return (isinstance(x, S) and x.npy) or isinstance(x, _np.generic)


def is_inf(x):
    return isinstance(x, (float, _np.floating)) and math.isinf(x)


def mk_int(t, npy = False):
    if z3.is_int_value(t):
        v = t.as_long()
        return _np.int64(v) if npy and -2**63 <= v < 2**63 else v
    return SInt(t, npy)


def mk_bool(t):
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def mk_real(t, nan = None, npy = False):
    if nan is not None and z3.is_false(nan):
        nan = None
    return SReal(t, nan, npy)


def num(x):
    """is x a scalar number, concrete or symbolic"""
    return isinstance(x, (S, SBool, int, float, bool, _np.number, _np.bool_, Fraction))


# ----------------------------------------------------------------------------------------------------------------------
# booleans

class SBool:
    """symbolic boolean"""
    __slots__ = ('t',)
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __and__(self, o):
        return sand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return sor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if kind_of(o) != 'b':
            return NotImplemented
        return mk_bool(z3.simplify(z3.Xor(self.t, bool_term(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return snot(self)

    def __eq__(self, o):
        if kind_of(o) == 'b':
            return mk_bool(z3.simplify(self.t == bool_term(o)))
        if num(o):
            return SInt(int_term(self)) == o
        if o is None:
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def _i(self):
        return SInt(int_term(self))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __repr__(self):
        return f'SBool({self.t})'

    def __format__(self, spec):
        return '<symbolic bool>'

    def __str__(self):
        return '<symbolic bool>'

    # numpy scalar api
    def all(self):
        return self

    def any(self):
        return self

    def astype(self, t):
        from vcpy import arrays
        return arrays.cast_scalar(self, arrays.dtype_of(t))


def snot(x):
    if isinstance(x, SBool):
        t = x.t
        if z3.is_not(t):
            return mk_bool(t.arg(0))
        return mk_bool(z3.Not(t))
    if isinstance(x, (S,)):
        return mk_bool(z3.Not(bool_term(x)))
    if isinstance(x, z3.BoolRef):
        return mk_bool(z3.Not(x))
    return not x


def sand(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (SBool, z3.BoolRef)):
            t = bool_term(x)
            if z3.is_false(t):
                return False
            if not z3.is_true(t):
                ts.append(t)
        elif isinstance(x, S):
            ts.append(bool_term(x))
        elif hasattr(x, 'shape') and hasattr(x, 'elem'):
            return x & sand(*[y for y in xs if y is not x])
        elif not x:
            return False
    if not ts:
        return True
    return SBool(ts[0] if len(ts) == 1 else z3.And(*ts))


def sor(*xs):
    ts = []
    for x in xs:
        if isinstance(x, (SBool, z3.BoolRef)):
            t = bool_term(x)
            if z3.is_true(t):
                return True
            if not z3.is_false(t):
                ts.append(t)
        elif isinstance(x, S):
            ts.append(bool_term(x))
        elif hasattr(x, 'shape') and hasattr(x, 'elem'):
            return x | sor(*[y for y in xs if y is not x])
        elif x:
            return True
    if not ts:
        return False
    return SBool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def ite(c, a, b):
    """if-then-else over scalars"""
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    ct = bool_term(c)
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    if a is b:
        return a
    ka, kb = kind_of(a), kind_of(b)
    if ka == 'o' or kb == 'o':
        if hasattr(a, '_vc_ite'):
            return a._vc_ite(ct, b, False)
        if hasattr(b, '_vc_ite'):
            return b._vc_ite(ct, a, True)
        if a is None and b is None:
            return None
        return a if ctx().branch(ct) else b
    if is_inf(a) or is_inf(b):
        return a if ctx().branch(ct) else b
    npy = is_npy(a) or is_npy(b)
    if ka == kb == 'b':
        ta, tb = bool_term(a), bool_term(b)
        if ta.eq(tb):
            return a
        if z3.is_true(ta):
            return sor(SBool(ct), b) if not z3.is_false(tb) else SBool(ct)
        if z3.is_false(ta):
            return sand(snot(SBool(ct)), b) if not z3.is_true(tb) else snot(SBool(ct))
        if z3.is_false(tb):
            return sand(SBool(ct), a)
        if z3.is_true(tb):
            return sor(snot(SBool(ct)), a)
        return SBool(z3.If(ct, ta, tb))
    if 'f' in (ka, kb):
        ta, tb = real_term(a), real_term(b)
        na, nb = nan_of(a), nan_of(b)
        if na is None and nb is None:
            n = None
        else:
            n = z3.simplify(z3.If(ct, na if na is not None else _false, nb if nb is not None else _false))
        return mk_real(ta if ta.eq(tb) else z3.If(ct, ta, tb), n, npy)
    ta, tb = int_term(a), int_term(b)
    if ta.eq(tb):
        return a
    return SInt(z3.If(ct, ta, tb), npy)


# ----------------------------------------------------------------------------------------------------------------------
# numbers

class S:
    """base class of symbolic numbers"""
    __slots__ = ('t', 'npy')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __bool__(self):
        return ctx().branch(bool_term(self))

    def __repr__(self):
        s = str(self.t)
        return f'{type(self).__name__}({s if len(s) < 120 else s[:117] + "..."})'

    def __str__(self):
        from vcpy import strings
        return '<symbolic number>'

    def __format__(self, spec):
        return '<symbolic number>'

    def __hash__(self):
        raise Unsupported('hash of symbolic number')

    def __int__(self):
        raise Unsupported('native int() of a symbolic number')

    def __float__(self):
        raise Unsupported('native float() of a symbolic number')

    def __index__(self):
        # last resort: enumerate values by forking
        return ctx().enumerate_int(self)

    # numpy scalar attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        from vcpy import arrays
        return arrays.DT(kind_of(self))

    def astype(self, t):
        from vcpy import arrays
        return arrays.cast_scalar(self, arrays.dtype_of(t))

    def copy(self):
        return self

    def item(self):
        return self

    def sum(self):
        return self

    def __neg__(self):
        return arith('neg', self, None)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def __add__(self, o):
        return arith('+', self, o)

    def __radd__(self, o):
        return arith('+', o, self)

    def __sub__(self, o):
        return arith('-', self, o)

    def __rsub__(self, o):
        return arith('-', o, self)

    def __mul__(self, o):
        return arith('*', self, o)

    def __rmul__(self, o):
        return arith('*', o, self)

    def __truediv__(self, o):
        return arith('/', self, o)

    def __rtruediv__(self, o):
        return arith('/', o, self)

    def __floordiv__(self, o):
        return arith('//', self, o)

    def __rfloordiv__(self, o):
        return arith('//', o, self)

    def __mod__(self, o):
        return arith('%', self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return '<symbolic text>'
        return arith('%', o, self)

    def __divmod__(self, o):
        return arith('//', self, o), arith('%', self, o)

    def __rdivmod__(self, o):
        return arith('//', o, self), arith('%', o, self)

    def __pow__(self, o):
        return arith('**', self, o)

    def __rpow__(self, o):
        return arith('**', o, self)

    def __lt__(self, o):
        return compare('<', self, o)

    def __le__(self, o):
        return compare('<=', self, o)

    def __gt__(self, o):
        return compare('>', self, o)

    def __ge__(self, o):
        return compare('>=', self, o)

    def __eq__(self, o):
        return compare('==', self, o)

    def __ne__(self, o):
        return compare('!=', self, o)

    def __round__(self, nd = None):
        if isinstance(self, SInt):
            return self
        if nd is None:
            return round_half_even(self)
        raise Unsupported('round to digits')

    def __trunc__(self):
        return to_int(self)

    def __floor__(self):
        return floor(self)


class SInt(S):
    __slots__ = ()

    def __init__(self, t, npy = False):
        self.t = t
        self.npy = npy

    __hash__ = S.__hash__

    def __and__(self, o):
        if kind_of(o) == 'b' or isinstance(o, (S, int)):
            raise Unsupported('bitwise and of symbolic int')
        return NotImplemented

    def __invert__(self):
        return -self - 1


class SReal(S):
    __slots__ = ('nan',)

    def __init__(self, t, nan = None, npy = False):
        self.t = t
        self.nan = nan
        self.npy = npy

    __hash__ = S.__hash__

    @property
    def isnan(self):
        return False if self.nan is None else SBool(self.nan)

    def is_integer(self):
        return SBool(z3.IsInt(self.t))


def isnan(x):
    if isinstance(x, SReal):
        return False if x.nan is None else mk_bool(x.nan)
    if isinstance(x, (float, _np.floating)):
        return x != x
    return False


def arith(op, a, b):
    if op == 'neg':
        if isinstance(a, SInt):
            return mk_int(-a.t, a.npy)
        return mk_real(-a.t, a.nan, a.npy)
    if not num(a) or not num(b):
        return NotImplemented
    ka, kb = kind_of(a), kind_of(b)
    npy = is_npy(a) or is_npy(b)
    if op == '**':
        return power(a, b)
    if op == '/' or 'f' in (ka, kb):
        if is_inf(a) or is_inf(b):
            return inf_arith(op, a, b)
        n = or_nan(nan_of(a), nan_of(b))
        if n is not None and z3.is_true(n):
            return mk_real(z3.RealVal(0), _true, npy)
        ta, tb = real_term(a), real_term(b)
        if op == '+':
            if _is_zero(ta):
                return mk_real(tb, n, npy)
            if _is_zero(tb):
                return mk_real(ta, n, npy)
            return mk_real(ta + tb, n, npy)
        if op == '-':
            if _is_zero(tb):
                return mk_real(ta, n, npy)
            return mk_real(ta - tb, n, npy)
        if op == '*':
            if _is_zero(ta) or _is_zero(tb):
                return mk_real(z3.RealVal(0), n, npy)
            if _is_one(ta):
                return mk_real(tb, n, npy)
            if _is_one(tb):
                return mk_real(ta, n, npy)
            return mk_real(ta * tb, n, npy)
        if op == '/':
            if z3.is_rational_value(tb):
                if _is_zero(tb):
                    if not npy:
                        raise ZeroDivisionError('float division by zero')
                    n = or_nan(n, ta == 0)
                elif _is_one(tb):
                    return mk_real(ta, n, npy)
            elif not ctx().known(tb != 0):
                if not npy:
                    if ctx().branch(tb == 0):
                        raise ZeroDivisionError('float division by zero')
                else:
                    n = or_nan(n, z3.And(ta == 0, tb == 0))
            return mk_real(ta / tb, n, npy)
        if op == '//':
            if not npy and not (z3.is_rational_value(tb) and not _is_zero(tb)) and ctx().branch(tb == 0):
                raise ZeroDivisionError('float floor division by zero')
            return mk_real(z3.ToReal(z3.ToInt(ta / tb)), n, npy)
        if op == '%':
            if not npy and not (z3.is_rational_value(tb) and not _is_zero(tb)) and ctx().branch(tb == 0):
                raise ZeroDivisionError('float modulo')
            return mk_real(ta - tb * z3.ToReal(z3.ToInt(ta / tb)), n, npy)
        raise Unsupported(op)
    ta, tb = int_term(a), int_term(b)
    if op == '+':
        if _is_zero(ta):
            return mk_int(tb, npy)
        if _is_zero(tb):
            return mk_int(ta, npy)
        return mk_int(ta + tb, npy)
    if op == '-':
        if _is_zero(tb):
            return mk_int(ta, npy)
        if ta.eq(tb):
            return 0
        return mk_int(ta - tb, npy)
    if op == '*':
        if _is_zero(ta) or _is_zero(tb):
            return 0
        if _is_one(ta):
            return mk_int(tb, npy)
        if _is_one(tb):
            return mk_int(ta, npy)
        return mk_int(ta * tb, npy)
    if op in ('//', '%'):
        q, r = int_divmod(ta, tb, npy)
        return mk_int(q if op == '//' else r, npy)
    raise Unsupported(op)


def inf_arith(op, a, b):
    # only the sign preserving simple cases
    if op in '+-' and is_inf(a) and not is_inf(b) and nan_of(b) is None:
        return a
    if op == '+' and is_inf(b) and not is_inf(a) and nan_of(a) is None:
        return b
    if op == '-' and is_inf(b) and not is_inf(a) and nan_of(a) is None:
        return -b
    raise Unsupported('arithmetic with infinity')


def _is_zero(t):
    return (z3.is_int_value(t) and t.as_long() == 0) or (z3.is_rational_value(t) and t.numerator_as_long() == 0)


def _is_one(t):
    return (z3.is_int_value(t) and t.as_long() == 1) or (z3.is_rational_value(t) and t.numerator_as_long() == 1 and
                                                         t.denominator_as_long() == 1)


def int_divmod(ta, tb, npy):
    """python floor division and modulo"""
    c = ctx()
    if z3.is_int_value(tb):
        d = tb.as_long()
        if d == 0:
            if npy:
                return z3.IntVal(0), z3.IntVal(0)
            raise ZeroDivisionError('integer division or modulo by zero')
        if d > 0:
            if d == 1:
                return ta, z3.IntVal(0)
            return ta / tb, ta % tb
        nq, nr = int_divmod(-ta, z3.IntVal(-d), npy)
        return nq, -nr
    if not c.known(tb > 0):
        if c.branch(tb == 0):
            if npy:
                return z3.IntVal(0), z3.IntVal(0)
            raise ZeroDivisionError('integer division or modulo by zero')
        if c.branch(tb < 0):
            nq, nr = int_divmod(-ta, -tb, npy)
            return nq, -nr
    return c.divmod_pos(ta, tb)


def power(a, b):
    npy = is_npy(a) or is_npy(b)
    if isinstance(b, (int, _np.integer)) and not isinstance(b, bool) or \
            (isinstance(b, (float, _np.floating)) and float(b) == int(b) and abs(b) < 20):
        n = int(b)
        flt = isinstance(b, (float, _np.floating))
        if n >= 0:
            r = 1
            for _ in range(n):
                r = r * a if not (isinstance(r, int) and r == 1) else a
            if n == 0:
                return 1.0 if (flt or kind_of(a) == 'f') else 1
            return to_real(r) if flt else r
        return 1.0 / power(to_real(a), -n)
    if isinstance(b, (float, _np.floating)) and float(b) == 0.5:
        return sqrt(a, npy)
    na = or_nan(nan_of(a), nan_of(b))
    return mk_real(z3.Function('pow', R, R, R)(real_term(a), real_term(b)), na, npy)


def compare(op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    if not num(a) or not num(b):
        return NotImplemented
    if is_inf(a) or is_inf(b):
        n = or_nan(nan_of(a), nan_of(b))
        fa = float(a) if is_inf(a) else 0.0
        fb = float(b) if is_inf(b) else 0.0
        v = {'<': fa < fb, '<=': fa <= fb, '>': fa > fb, '>=': fa >= fb, '==': fa == fb, '!=': fa != fb}[op]
        if n is None:
            return v
        if op == '!=':
            return True
        return mk_bool(z3.Not(n)) if v else False
    ka, kb = kind_of(a), kind_of(b)
    if 'f' in (ka, kb):
        ta, tb = real_term(a), real_term(b)
        n = or_nan(nan_of(a), nan_of(b))
    else:
        ta, tb = int_term(a), int_term(b)
        n = None
    if ta.eq(tb):
        r = _true if op in ('<=', '>=', '==') else _false
    elif op == '<':
        r = ta < tb
    elif op == '<=':
        r = ta <= tb
    elif op == '>':
        r = ta > tb
    elif op == '>=':
        r = ta >= tb
    elif op == '==':
        r = ta == tb
    else:
        r = ta != tb
    if n is not None:
        r = z3.Or(n, r) if op == '!=' else z3.And(z3.Not(n), r)
    if z3.is_true(r) or z3.is_false(r):
        return mk_bool(r)
    if z3.is_const(ta) and z3.is_const(tb) and not z3.is_rational_value(ta):
        return SBool(r)
    return mk_bool(z3.simplify(r))


def to_real(x, npy = None):
    if isinstance(x, SReal):
        return x if npy is None or x.npy == npy else SReal(x.t, x.nan, npy)
    if isinstance(x, (SInt, SBool)):
        return SReal(real_term(x), None, is_npy(x) if npy is None else npy)
    if isinstance(x, Fraction):
        return SReal(real_term(x), None, bool(npy))
    return float(x)


def to_int(x):
    """python int() / astype(int): truncation towards zero"""
    if isinstance(x, SInt):
        return SInt(x.t)
    if isinstance(x, SBool):
        return SInt(int_term(x))
    if isinstance(x, SReal):
        if x.nan is not None and ctx().branch(x.nan):
            raise ValueError('cannot convert float NaN to integer')
        return mk_int(z3.simplify(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t))))
    return int(x)


def floor(x):
    if isinstance(x, SInt) or isinstance(x, int):
        return x
    if isinstance(x, SReal):
        return mk_int(z3.ToInt(x.t))
    if isinstance(x, SBool):
        return mk_int(int_term(x))
    return math.floor(x)


def ceil(x):
    if isinstance(x, SInt) or isinstance(x, int):
        return x
    if isinstance(x, SReal):
        return mk_int(-z3.ToInt(-x.t))
    if isinstance(x, SBool):
        return mk_int(int_term(x))
    return math.ceil(x)


def round_half_even(x):
    if not isinstance(x, SReal):
        return round(x) if not isinstance(x, SInt) else x
    f = z3.ToInt(x.t)
    d = x.t - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return SInt(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def smin(a, b):
    """python min(a, b): b if b < a else a"""
    return ite(b < a, b, a)


def smax(a, b):
    return ite(b > a, b, a)


def sqrt(x, npy = True):
    if not is_sym(x):
        return math.sqrt(x) if not npy else _np.sqrt(x)
    c = ctx()
    t = real_term(x)
    n = nan_of(x)
    if not c.known(t >= 0):
        if npy:
            n = or_nan(n, t < 0)
        elif c.branch(t < 0):
            raise ValueError('math domain error')
    return mk_real(c.app_sqrt(t), n, npy)


def sin(x, npy = True):
    if not is_sym(x):
        return math.sin(x)
    return mk_real(ctx().app_trig(real_term(x))[0], nan_of(x), npy)


def cos(x, npy = True):
    if not is_sym(x):
        return math.cos(x)
    return mk_real(ctx().app_trig(real_term(x))[1], nan_of(x), npy)


def app_real(name, *xs, npy = True):
    """application of an uninterpreted real function; its axioms are added by Ctx.app_facts"""
    f = z3.Function(name, *([R] * (len(xs) + 1)))
    t = f(*[real_term(x) for x in xs])
    ctx().app_facts(name, t, [real_term(x) for x in xs])
    return mk_real(t, or_nan(*[nan_of(x) for x in xs]), npy)


# ----------------------------------------------------------------------------------------------------------------------
# context

class Scope(list):
    """facts collected while a quantified body ('q') or a speculative expression ('spec') is evaluated"""

    def __init__(self, xs, kind):
        list.__init__(self, xs)
        self.kind = kind


class Obligation:
    __slots__ = ('label', 'status', 'backend', 'time', 'detail', 'model', 'path')

    def __init__(self, label, status, backend, tm, detail = None, model = None, path = None):
        self.label, self.status, self.backend, self.time = label, status, backend, tm
        self.detail, self.model, self.path = detail, model, path


class IntView:
    """the statements of a path which are about integers alone; refutes conditions on integers quickly where others are hard"""

    def __init__(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', 500)
        self.n = 0
        self.hard = False  # are there products of reals among the others
        self.memo = {}

    def mentions(self, t):
        """(does t have a real, quantified or non-linear part, does it have a product of reals)"""
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1:]
        r = p = False
        if z3.is_quantifier(t) or z3.is_var(t):
            r = True
        else:
            kind = t.decl().kind()
            if t.sort() == R:
                r = True
            if kind in (z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER) and \
                    sum(1 for x in t.children() if not (z3.is_rational_value(x) or z3.is_int_value(x))) > 1:
                r, p = True, t.sort() == R
            for ch in t.children():
                a, b = self.mentions(ch)
                r, p = r or a, p or b
        self.memo[k] = (t, r, p)
        return r, p

    def check(self, pc, cases, t):
        if self.n > len(pc):
            self.__init__()
        for a in pc[self.n:]:
            r, p = self.mentions(a)
            self.hard = self.hard or p
            if not r:
                self.solver.add(a)
        self.n = len(pc)
        if not self.hard or self.mentions(t)[0]:
            return None
        self.solver.push()
        try:
            for a in cases:
                if not self.mentions(a)[0]:
                    self.solver.add(a)
            self.solver.add(t)
            return str(self.solver.check())
        finally:
            self.solver.pop()


class Ctx:
    """one path of one harness"""

    def __init__(self, prefix, explorer):
        self.prefix = prefix
        self.explorer = explorer
        self.trace = []  # decisions made on this path
        self.pc = []
        self.n_fresh = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', explorer.branch_timeout_ms)
        self.bound = []  # stack of bound variable scopes
        self.facts_done = set()
        self.keep = []
        self.known_cache = {}
        self.inputs = {}  # name -> spec of declared inputs
        self.loop_stack = []
        self.buffers = 0
        self.registry = weakref.WeakValueDictionary()
        self.write_log = None
        self.frame_barrier = None
        self.sqrt_defs = []  # (app term, arg term)
        self.trig_defs = []  # (sin, cos, arg)
        self.nonzero = []
        self.seq = {}
        self.ints = None
        self.cases = []  # conditions of the cases being considered
        self.tainted = False  # abstractions (havoc) in force
        self.linear = None
        self.psums = {}
        self.stub_calls = []
        self.fact(z3.And(PI > z3.RealVal('3.14159265'), PI < z3.RealVal('3.14159266')))

    # ---- fresh names
    def fresh_name(self, base):
        self.n_fresh += 1
        return f'{base}!{self.n_fresh}'

    def fresh_int(self, base = 'i', npy = False):
        return SInt(z3.Int(self.fresh_name(base)), npy)

    def fresh_real(self, base = 'r', npy = False):
        return SReal(z3.Real(self.fresh_name(base)), None, npy)

    def fresh_bool(self, base = 'b'):
        return SBool(z3.Bool(self.fresh_name(base)))

    # ---- facts: valid formulae (axioms, instances of declared element bounds, ...)
    def fact(self, t):
        if z3.is_true(t):
            return
        if self.bound:
            self.bound[-1].append(t)
            return
        self.pc.append(t)
        self.solver.add(t)
        self.known_cache.clear()

    def assume(self, x):
        t = bool_term(x)
        t = z3.simplify(t) if not z3.is_quantifier(t) else t
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise Infeasible()
        self.pc.append(t)
        self.solver.add(t)
        self.known_cache.clear()

    def check_time(self):
        if time.time() > self.explorer.deadline:
            raise Budget('time budget of harness exhausted')

    def sat_with(self, t, timeout = None, quick = False):
        """'sat', 'unsat' or 'unknown' for path condition and t"""
        self.check_time()
        t0 = time.time()
        if not self.bound:
            if self.ints is None:
                self.ints = IntView()
            r = self.ints.check(self.pc, self.cases, t)
            if r == 'unsat':
                self.explorer.branch_time += time.time() - t0
                return r
            if r == 'sat' and quick:
                return 'unknown'
            if r == 'sat' and self.ints.hard:
                timeout = min(timeout or 10000, 300)
        self.solver.push()
        try:
            if timeout:
                self.solver.set('timeout', timeout)
            self.solver.add(t)
            r = self.solver.check()
        finally:
            self.solver.pop()
            if timeout:
                self.solver.set('timeout', self.explorer.branch_timeout_ms)
        self.explorer.branch_time += time.time() - t0
        self.explorer.branch_queries += 1
        return str(r)

    def linear_unsat(self, t):
        """is t refuted by linear arithmetic over canonical monomials"""
        from vcpy import linear
        if self.linear is None:
            self.linear = linear.Prover()
        t0 = time.time()
        r = self.linear.unsat(self.pc, t)
        self.explorer.linear_time += time.time() - t0
        return r

    def known(self, t):
        """True if t is implied by the path condition (quick check)"""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.bound:
            facts = [f for sc in self.bound for f in sc]
            return self.sat_with(z3.And(z3.Not(t), *facts), 1000) == 'unsat'
        k = t.get_id()
        if k in self.known_cache:
            return self.known_cache[k][0]
        r = self.sat_with(z3.Not(t), 1000) == 'unsat'
        self.known_cache[k] = (r, t)
        return r

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.bound:
            raise Unsupported('branching on a symbolic condition inside a quantified expression')
        n = len(self.trace)
        if n < len(self.prefix):
            d = self.prefix[n]
            self.trace.append(d)
            self._add_decision(t if d else z3.Not(t))
            return d
        rt = self.sat_with(t)
        if rt == 'unknown' and self.linear_unsat(t):
            rt = 'unsat'
        if rt == 'unsat':
            d = False
            # forced
        else:
            rf = self.sat_with(z3.Not(t))
            if rf == 'unknown' and self.linear_unsat(z3.Not(t)):
                rf = 'unsat'
            if rf == 'unsat':
                d = True
            else:
                d = True
                self.explorer.push(self.trace + [False])
        self.trace.append(d)
        self._add_decision(t if d else z3.Not(t))
        return d

    def _add_decision(self, t):
        self.pc.append(t)
        self.solver.add(t)
        self.known_cache.clear()

    def choose(self, n, label = ''):
        """non-deterministic choice amongst n alternatives (no condition)"""
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = 0
            for i in range(n - 1, 0, -1):
                self.explorer.push(self.trace + [i])
        self.trace.append(d)
        return d

    def enumerate_int(self, x):
        """fork on the concrete values of an int term: only for a term with few possible values"""
        for v in range(0, self.explorer.max_enum):
            if self.branch(x.t == v):
                return v
            if not self.explorer.allow_enum:
                break
        if self.branch(x.t == -1):
            return -1
        raise Unsupported('native use of a symbolic integer')

    # ---- arithmetic helpers
    def divmod_pos(self, a, b):
        """quotient and remainder for b > 0, with polynomial division hints"""
        from vcpy import ring
        key = ('divmod', a.get_id(), b.get_id())
        self.keep += [a, b]
        if key in self.seq:
            return self.seq[key][:2]
        sa = z3.simplify(a)
        if not self.bound and not z3.is_int_value(b) and self.known(z3.And(a >= 0, a < 2 * b)):
            q, r = z3.If(a < b, z3.IntVal(0), z3.IntVal(1)), z3.If(a < b, a, a - b)
            self.seq[key] = (q, r, a, b, sa)
            return q, r
        q, r = F_DIV(a, b), F_MOD(a, b)
        self.fact(z3.And(a == q * b + r, r >= 0, r < b))
        h = ring.poly_div_hint(a, b)
        if h is not None:
            qa, ra = h
            # lemma: a == qa * b + ra  and  0 <= ra < b  imply q == qa, r == ra
            self.fact(z3.Implies(z3.And(ra >= 0, ra < b), z3.And(q == qa, r == ra)))
            if self.known(z3.And(ra >= 0, ra < b)):
                q, r = qa, ra
        self.fact(z3.Implies(a >= 0, q >= 0))
        self.fact(z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, r == a)))
        if self.bound:
            return q, r
        self.seq[key] = (q, r, a, b, sa)
        for p in list(self.psums.values()):
            p.divided(a, b, q, r)
        return q, r

    def app_sqrt(self, t):
        from vcpy import ring
        t = z3.simplify(t, som = True)
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if f >= 0 and n * n == f.numerator and d * d == f.denominator:
                return z3.RealVal(str(Fraction(n, d)))
        s = F_SQRT(t)
        if ('sqrt', s.get_id()) not in self.facts_done:
            self.facts_done.add(('sqrt', s.get_id()))
            self.keep.append(s)
            r = z3.And(s >= 0, s * s == t)
            if ring.sum_of_squares(t):
                self.fact(z3.And(r, t >= 0))
            else:
                self.fact(z3.Implies(t >= 0, r))
            self.sqrt_defs.append((s, t))
        return s

    def app_trig(self, t):
        """(sine, cosine) of t; sums of angles are expanded, multiples of a quarter turn evaluated"""
        from vcpy import ring
        from vcpy import prover
        cond = prover.first_condition(t)
        if cond is not None:
            out = []
            for v in (True, False):
                u = z3.simplify(z3.substitute(t, (cond, z3.BoolVal(v))))
                out.append(self.app_trig(u))
            return tuple(z3.If(cond, x, y) for x, y in zip(*out))
        t = z3.simplify(t, som = True)
        h = ring.angle_parts(t)
        if h is None:
            return self.trig_atom(t)
        q, parts = h
        k = math.floor(2 * q)
        f = q - Fraction(k, 2)
        s, c = z3.RealVal(0), z3.RealVal(1)
        first = True
        if f:
            parts = parts + [(1, z3.RealVal(str(f)) * PI)]
        for sign, x in parts:
            s2, c2 = self.trig_atom(x)
            if sign < 0:
                s2 = -s2
            s, c = (s2, c2) if first else (s * c2 + c * s2, c * c2 - s * s2)
            first = False
        return [(s, c), (c, -s), (-s, -c), (-c, s)][k % 4]

    def trig_atom(self, t):
        t = z3.simplify(t, som = True)
        s, c = F_SIN(t), F_COS(t)
        if ('trig', t.get_id()) not in self.facts_done:
            self.facts_done.add(('trig', t.get_id()))
            self.keep.append(t)
            self.fact(s * s + c * c == 1)
            self.fact(z3.And(s >= -1, s <= 1, c >= -1, c <= 1))
            self.trig_defs.append((s, c, t))
        return s, c

    def app_facts(self, name, t, args):
        k = (name, t.get_id())
        if k in self.facts_done:
            return
        self.facts_done.add(k)
        self.keep.append(t)
        if name == 'acos':
            x = args[0]
            s, c = self.app_trig(t)
            self.fact(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(t >= 0, t <= PI, c == x, s >= 0)))
        elif name == 'asin':
            x = args[0]
            s, c = self.app_trig(t)
            self.fact(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(t >= -PI / 2, t <= PI / 2, s == x, c >= 0)))
        elif name == 'atan2':
            y, x = args
            s, c = self.app_trig(t)
            r = self.app_sqrt(x * x + y * y)
            self.fact(z3.And(t > -PI, t <= PI))
            self.fact(z3.Implies(z3.Not(z3.And(x == 0, y == 0)), z3.And(y == r * s, x == r * c, r > 0)))
            self.fact(z3.Implies(z3.And(x == 0, y == 0), t == 0))
        elif name == 'atan':
            x = args[0]
            s, c = self.app_trig(t)
            self.fact(z3.And(t > -PI / 2, t < PI / 2, c > 0, s == x * c))
        elif name == 'exp':
            self.fact(t > 0)
        elif name == 'tan':
            s, c = self.app_trig(args[0])
            self.fact(z3.Implies(c != 0, t * c == s))

    # ---- obligations
    def prove(self, label, x):
        self.explorer.prove(self, label, x)
