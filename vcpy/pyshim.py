"""vcpy.pyshim: builtins, math and control-flow helpers as seen by the instrumented repository modules."""

import builtins
import math as _math
import sys
import types
import z3
import numpy as _np

from vcpy import core, arrays, reduce_, strings
from vcpy.arrays import SArr
from vcpy.core import (S, SInt, SReal, SBool, Unsupported, ite, sand, sor, snot, is_sym, kind_of, num, mk_bool, mk_int,
                       mk_real, int_term, real_term, bool_term)


class SpecFail(Exception):
    pass


class SRange:
    """range with symbolic bounds"""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        s = self.step
        d = self.stop - self.start
        if s > 0:
            n = d if s == 1 else (d + (s - 1)) // s
        else:
            n = -d if s == -1 else (-d + (-s - 1)) // (-s)
        return ite(n > 0, n, 0)

    def vc_len(self):
        return self.count()

    def __iter__(self):
        """bounded unrolling"""
        c = core.ctx()
        i = self.start
        k = 0
        while True:
            go = (i < self.stop) if self.step > 0 else (i > self.stop)
            if not go:
                return
            if k >= c.explorer.max_unroll:
                # iterations beyond the bound are not explored: the contract counts as bounded
                c.explorer.note_unroll()
                raise core.PathDone()
            yield i
            i = i + self.step
            k += 1

    def __contains__(self, x):
        raise Unsupported('membership of symbolic range')

    def vc_to_array(self, dtype):
        from vcpy import npshim
        return npshim.arange(self.start, self.stop, self.step, dtype = dtype)


def vrange(*args):
    args = [a.vc_scalar() if isinstance(a, SArr) else a for a in args]
    if not builtins.any(isinstance(a, (SInt, SBool, SReal)) for a in args):
        return builtins.range(*args)
    if builtins.any(isinstance(a, (SReal, float)) for a in args):
        raise TypeError("'float' object cannot be interpreted as an integer")
    args = [arrays.norm_dim(a) for a in args]
    if not builtins.any(isinstance(a, SInt) for a in args):
        return builtins.range(*args)
    if len(args) == 1:
        return SRange(0, args[0], 1)
    if len(args) == 2:
        return SRange(args[0], args[1], 1)
    if isinstance(args[2], SInt):
        raise Unsupported('range with symbolic step')
    if args[2] == 0:
        raise ValueError('range() arg 3 must not be zero')
    return SRange(*args)


def vlen(x):
    if hasattr(x, 'vc_len'):
        return x.vc_len()
    return builtins.len(x)


def _ns():
    from vcpy import npshim
    return npshim


def symbolic_seq(x):
    """a one dimensional array of symbolic extent, if x is a sequence of symbolic length"""
    if isinstance(x, SArr) and x.ndim == 1 and isinstance(x.shape[0], SInt):
        return x
    if hasattr(x, 'vc_to_array') and hasattr(x, 'vc_len') and isinstance(x.vc_len(), SInt):
        return x.vc_to_array(None)
    return None


def vlist(*args):
    if len(args) == 1:
        a = symbolic_seq(args[0])
        if a is not None:
            from vcpy import loops
            return loops.SList(a.shape[0], lambda i, rd = a.reader(): rd((i,)),
                               {'i': 'int', 'f': 'float', 'b': 'bool'}.get(a.dtype.kind, 'object'))
    return builtins.list(*args)


def vmin(*args, **kw):
    a = symbolic_seq(args[0]) if len(args) == 1 and not kw else None
    if a is not None:
        return _ns().min(a)
    return _minmax(builtins.min, core.smin, args, kw)


def vmax(*args, **kw):
    a = symbolic_seq(args[0]) if len(args) == 1 and not kw else None
    if a is not None:
        return _ns().max(a)
    return _minmax(builtins.max, core.smax, args, kw)


def _minmax(real, pair, args, kw):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if kw or not builtins.any(isinstance(x, (S, SBool)) for x in xs):
        return real(*args, **kw)
    r = xs[0]
    for x in xs[1:]:
        r = pair(r, x)
    return r


def vabs(x):
    return builtins.abs(x)


def vsum(xs, start = 0):
    a = symbolic_seq(xs)
    if a is not None:
        return start + _ns().sum(a)
    r = start
    for x in xs:
        r = r + x
    return r


def vany(xs):
    a = symbolic_seq(xs)
    if a is not None:
        return _ns().any(a)
    xs = list(xs)
    if builtins.any(isinstance(x, SBool) for x in xs):
        return sor(*[x if isinstance(x, SBool) else builtins.bool(x) for x in xs])
    return builtins.any(xs)


def vall(xs):
    a = symbolic_seq(xs)
    if a is not None:
        return _ns().all(a)
    xs = list(xs)
    if builtins.any(isinstance(x, SBool) for x in xs):
        return sand(*[x if isinstance(x, SBool) else builtins.bool(x) for x in xs])
    return builtins.all(xs)


def vround(x, nd = None):
    if isinstance(x, S):
        return x.__round__(nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def vdivmod(a, b):
    if is_sym(a) or is_sym(b):
        return core.arith('//', a, b), core.arith('%', a, b)
    return builtins.divmod(a, b)


def vint(*args):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, SArr):
        x = x.vc_scalar()
    if hasattr(x, 'vc_int'):
        return x.vc_int()
    if isinstance(x, (S, SBool)):
        return core.to_int(x)
    if isinstance(x, strings.SStr):
        return x.to_number(True)
    return builtins.int(*args)


def vfloat(*args):
    if not args:
        return 0.0
    x = args[0]
    if isinstance(x, SArr):
        x = x.vc_scalar()
    if isinstance(x, (S, SBool)):
        return core.to_real(x, False)
    if isinstance(x, strings.SStr):
        return x.to_number(False)
    return builtins.float(x)


def vbool(*args):
    if not args:
        return False
    x = args[0]
    if isinstance(x, SBool):
        return x
    if isinstance(x, S):
        return mk_bool(bool_term(x))
    return builtins.bool(x)


def vstr(*args):
    if len(args) == 1:
        return strings.to_str(args[0])
    return builtins.str(*args)


def vtype(*args):
    if len(args) != 1:
        return builtins.type(*args)
    x = args[0]
    if isinstance(x, SInt):
        return _np.int64 if x.npy else int
    if isinstance(x, SReal):
        return _np.float64 if x.npy else float
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SArr):
        from vcpy import npshim
        return npshim.ndarray
    if isinstance(x, strings.SStr):
        return str
    return builtins.type(x)


def visinstance(x, t):
    if isinstance(t, tuple):
        return builtins.any(visinstance(x, u) for u in t)
    if isinstance(x, SInt):
        if t is int:
            return not x.npy
        if t is float or t is bool or t is str:
            return False
        if isinstance(t, type) and issubclass(t, _np.generic):
            return x.npy and issubclass(_np.int64, t)
    elif isinstance(x, SReal):
        if t is float:
            return True
        if t is int or t is str:
            return False
        if isinstance(t, type) and issubclass(t, _np.generic):
            return x.npy and issubclass(_np.float64, t)
    elif isinstance(x, SBool):
        if t is bool or t is int:
            return True
        if isinstance(t, type) and issubclass(t, _np.generic):
            return issubclass(_np.bool_, t)
    elif isinstance(x, strings.SStr):
        if t is str:
            return True
    elif t is _np.ndarray and isinstance(x, SArr):
        return True
    if hasattr(x, 'vc_isinstance'):
        return x.vc_isinstance(t)
    return builtins.isinstance(x, t)


def viter_enumerate(xs, start = 0):
    return builtins.enumerate(xs, start)


# ---- control flow

def vnot(x):
    if isinstance(x, SBool):
        return snot(x)
    if isinstance(x, S):
        return mk_bool(z3.Not(bool_term(x)))
    return not x


def speculate(cond, f):
    """evaluates f() assuming cond, without forking; returns (ok, value)"""
    c = core.ctx()
    sc = core.Scope([bool_term(cond)], 'spec')
    c.bound.append(sc)
    ok = False
    try:
        v = f()
        ok = True
    except (core.Restart, core.Budget):
        raise
    except Exception:
        v = None
    finally:
        while c.bound[-1] is not sc:
            c.bound.pop()
        c.bound.pop()
    if ok:
        for t in sc[1:]:
            c.fact(z3.Implies(sc[0], t))
    return ok, v


def vand(*fs):
    """lazy conjunction; each of fs is (pure, thunk)"""
    acc = None
    n = len(fs)
    for k, (pure, f) in enumerate(fs):
        if acc is None:
            v = f()
        else:
            ok = False
            if pure:
                ok, v = speculate(acc, f)
                ok = ok and isinstance(v, (bool, _np.bool_, SBool))
            if not ok:
                if not acc:
                    return False
                acc = None
                v = f()
            else:
                acc = sand(acc, v)
                if acc is False:
                    return False
                if not isinstance(acc, SBool):
                    acc = None
                    v = True
                    if k == n - 1:
                        return True
                continue
        if k == n - 1:
            return v if acc is None else sand(acc, v)
        if isinstance(v, SBool):
            acc = v
        elif not v:
            return v
    return acc


def vor(*fs):
    acc = None
    n = len(fs)
    for k, (pure, f) in enumerate(fs):
        if acc is None:
            v = f()
        else:
            ok = False
            if pure:
                ok, v = speculate(snot(acc), f)
                ok = ok and isinstance(v, (bool, _np.bool_, SBool))
            if not ok:
                if acc:
                    return True
                acc = None
                v = f()
            else:
                acc = sor(acc, v)
                if acc is True:
                    return True
                if not isinstance(acc, SBool):
                    acc = None
                    if k == n - 1:
                        return False
                continue
        if k == n - 1:
            return v if acc is None else sor(acc, v)
        if isinstance(v, SBool):
            acc = v
        elif v:
            return v
    return acc


def vchain(ops, *xs):
    """chained comparison with operands already evaluated"""
    rs = []
    for op, a, b in zip(ops, xs[:-1], xs[1:]):
        r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b,
             '!=': lambda: a != b}[op]()
        if not isinstance(r, SBool):
            if isinstance(r, SArr):
                r = builtins.bool(r)
            if not r:
                return r
            continue
        rs.append(r)
    if not rs:
        return True
    return sand(*rs)


def vifexp(c, pa, a, pb, b):
    if isinstance(c, (S,)):
        c = mk_bool(bool_term(c))
    if isinstance(c, SBool):
        t = z3.simplify(c.t)
        c = mk_bool(t)
        if isinstance(c, SBool) and pa and pb and not core.ctx().bound:
            ok, va = speculate(c, a)
            if ok and num(va):
                ok, vb = speculate(snot(c), b)
                if ok and num(vb) and kind_of(va) == kind_of(vb):
                    return ite(c, va, vb)
        elif isinstance(c, SBool) and core.ctx().bound:
            return ite(c, a(), b())
    return a() if c else b()


# ---- math

class _Maths(types.ModuleType):

    def __getattr__(self, name):
        if name == 'pi':
            return SReal(core.PI) if core.CTX is not None else _math.pi
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(_math, name)
        if not callable(v):
            return v

        def g(*args, **kw):
            args = [a.vc_scalar() if isinstance(a, SArr) else a for a in args]
            if not builtins.any(is_sym(a) for a in args + list(kw.values())):
                return v(*args, **kw)
            raise Unsupported(f'math.{name} of symbolic value')

        return g


maths = _Maths('math')


def _m(name, f):
    real = getattr(_math, name)

    def g(*args):
        args = [a.vc_scalar() if isinstance(a, SArr) else a for a in args]
        if core.CTX is None or not builtins.any(is_sym(a) for a in args):
            return real(*args)
        return f(*args)

    setattr(maths, name, g)


_m('sqrt', lambda x: core.sqrt(x, False))
_m('sin', lambda x: core.sin(x, False))
_m('cos', lambda x: core.cos(x, False))
_m('tan', lambda x: core.app_real('tan', x, npy = False))
_m('floor', core.floor)
_m('ceil', core.ceil)
_m('fabs', lambda x: core.to_real(builtins.abs(x)))
_m('exp', lambda x: core.app_real('exp', x, npy = False))
_m('log', lambda x: core.app_real('log', x, npy = False))
_m('log10', lambda x: core.app_real('log10', x, npy = False))
_m('isnan', core.isnan)
_m('isinf', lambda x: False)
_m('isfinite', lambda x: snot(core.isnan(x)))
_m('atan2', lambda y, x: core.app_real('atan2', y, x, npy = False))
_m('atan', lambda x: core.app_real('atan', x, npy = False))
_m('pow', lambda x, y: core.power(core.to_real(x), y))
_m('hypot', lambda x, y: core.sqrt(core.to_real(x * x + y * y), False))


def same_value(a, b):
    """are these equal as rational expressions, their denominators not being zero"""
    from vcpy import ring
    a, b = core.to_real(a), core.to_real(b)
    if builtins.any(isinstance(x, SReal) and x.nan is not None for x in (a, b)):
        return False
    c = core.CTX
    dens = ring.equal(core.real_term(a), core.real_term(b), c)
    return dens is not None and builtins.all(c.known(d != 0) for d in dens)


def _isclose(a, b, *, rel_tol = 1e-09, abs_tol = 0.0):
    a, b = [x.vc_scalar() if isinstance(x, SArr) else x for x in (a, b)]
    if core.CTX is None or not builtins.any(is_sym(x) for x in (a, b, rel_tol, abs_tol)):
        return _math.isclose(a, b, rel_tol = rel_tol, abs_tol = abs_tol)
    if core.is_inf(a) or core.is_inf(b):
        return False
    if same_value(a, b):
        return True
    d = builtins.abs(a - b)
    return sor(a == b, d <= rel_tol * builtins.abs(a), d <= rel_tol * builtins.abs(b), d <= abs_tol)


maths.isclose = _isclose


def _dom(name):

    def f(x):
        t = real_term(x)
        if not core.ctx().known(z3.And(t >= -1, t <= 1)) and core.ctx().branch(z3.Or(t < -1, t > 1)):
            raise ValueError('math domain error')
        return core.app_real(name, x, npy = False)

    return f


_m('acos', _dom('acos'))
_m('asin', _dom('asin'))


def _radians(x):
    if core.CTX is None or not (is_sym(x) or isinstance(x, SArr)):
        if core.CTX is not None and num(x) and x == x:
            return mk_real(real_term(x) * core.PI / 180)
        return _math.radians(x)
    x = x.vc_scalar() if isinstance(x, SArr) else x
    return mk_real(real_term(x) * core.PI / 180, core.nan_of(x))


def _degrees(x):
    if core.CTX is None or not (is_sym(x) or isinstance(x, SArr)):
        return _math.degrees(x)
    x = x.vc_scalar() if isinstance(x, SArr) else x
    return mk_real(real_term(x) * 180 / core.PI, core.nan_of(x))


maths.radians = _radians
maths.degrees = _degrees


def vis(x, b, compiled):
    """x is b, for a boolean b"""
    if isinstance(x, SArr) and x.ndim == 0:
        x = x.vc_scalar()
    if isinstance(x, SBool):
        if not compiled and core.is_npy(x):
            return False
        return x if b else core.snot(x)
    if compiled and isinstance(x, (bool, _np.bool_)):
        return bool(x) == b
    return x is b


# ---- numba

class _Numba(types.ModuleType):

    def __getattr__(self, name):
        import numba
        return getattr(numba, name)


numba = _Numba('numba')


def njit(*args, **kw):
    if len(args) == 1 and callable(args[0]) and not kw:
        return args[0]
    return lambda f: f


numba.njit = njit
numba.jit = njit
numba.prange = vrange

BUILTINS = dict(vars(builtins))
BUILTINS.update(len = vlen, range = vrange, min = vmin, max = vmax, sum = vsum, any = vany, all = vall, round = vround,
                divmod = vdivmod, isinstance = visinstance, type = vtype)

HELPERS = dict(_vc_list = vlist, _vc_int = vint, _vc_float = vfloat, _vc_bool = vbool, _vc_str = vstr, _vc_not = vnot,
               _vc_and = vand, _vc_or = vor, _vc_chain = vchain, _vc_is = vis, _vc_ifexp = vifexp, _vc_fstr = strings.fstr, _vc_format = strings.formatted)
