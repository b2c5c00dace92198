"""vcpy.npshim: stands in for numpy inside the instrumented repository modules.

Anything not defined here falls through to the real numpy, provided that all arguments are concrete.
"""

import builtins
import sys
import types
import math as _math
import z3
import numpy as _np

from vcpy import core, arrays, reduce_, ring
from vcpy.arrays import SArr, DArr, LArr, make, array as _array, as_arr, DT, dkind, dtype_of
from vcpy.core import (S, SInt, SReal, SBool, Unsupported, ite, sand, sor, snot, is_sym, kind_of, num, mk_bool, mk_int,
                       mk_real, int_term, real_term, bool_term)


def active():
    return core.CTX is not None


def _conc(x):
    """converts proxies within arguments to real values; raises Unsupported if symbolic"""
    if isinstance(x, SArr):
        return x.to_real()
    if isinstance(x, (S, SBool)):
        raise Unsupported('numpy function which is not modelled, applied to a symbolic value')
    if isinstance(x, tuple):
        return tuple(_conc(y) for y in x)
    if isinstance(x, list):
        return [_conc(y) for y in x]
    if isinstance(x, dict):
        return {k: _conc(v) for k, v in x.items()}
    if hasattr(x, '_vc_real_type'):
        return x._vc_real_type
    return x


def wrap(r):
    if isinstance(r, _np.ndarray) and r.dtype.kind in 'iufbO' and type(r) is _np.ndarray:
        return _array(r)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def fallthrough(name, f):

    def g(*args, **kw):
        if not active():
            return f(*args, **kw)
        try:
            return wrap(f(*[_conc(a) for a in args], **{k: _conc(v) for k, v in kw.items()}))
        except Unsupported as e:
            raise Unsupported(f'numpy.{name}: {e}')

    g.__name__ = name
    return g


class _NdMeta(type):

    def __instancecheck__(cls, x):
        return isinstance(x, (SArr, _np.ndarray))

    def __subclasscheck__(cls, c):
        return issubclass(c, (SArr, _np.ndarray))


class ndarray(metaclass = _NdMeta):
    _vc_real_type = _np.ndarray


nan = float('nan')
NaN = nan
NAN = nan
inf = float('inf')
newaxis = None


def shaped(fn):
    """marks a modelled function: when no context is active the real one is used"""
    real = None
    parts = fn.__name__.rstrip('_')
    real = getattr(_np, parts, None)

    def g(*args, **kw):
        if not active():
            return real(*args, **kw)
        return fn(*args, **kw)

    g.__name__ = parts
    g.vc_modelled = True
    return g


def _zero(dt):
    k = dkind(dt)
    return 0.0 if k == 'f' else 0 if k == 'i' else False if k == 'b' else 0


def _dt(dtype, default = 'f'):
    return DT(default) if dtype is None else dtype_of(dtype)


def _alloc(shape, dt, value):
    shape = arrays.norm_shape(shape)
    return make(shape, dt, lambda i: value)


@shaped
def zeros(shape, dtype = None, order = None):
    dt = _dt(dtype)
    return _alloc(shape, dt, _zero(dt))


@shaped
def ones(shape, dtype = None, order = None):
    dt = _dt(dtype)
    return _alloc(shape, dt, arrays.cast_scalar(1, dt))


def unspecified(shape, dt, name = 'uninit'):
    """array with arbitrary contents"""
    c = core.ctx()
    k = dkind(dt)
    if k == 'o':
        return _alloc(shape, dt, None)
    nm = c.fresh_name(name)
    sort = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[k]
    shape = arrays.norm_shape(shape)
    mk = {'i': SInt, 'f': SReal, 'b': SBool}[k]
    if not shape:
        return make(shape, dt, lambda i: mk(z3.Const(nm, sort)))
    if arrays.csize(shape) is not None and arrays.csize(shape) <= arrays.DENSE_LIMIT:
        return make(shape, dt, lambda i: mk(z3.Const(nm + '_' + '_'.join(str(x) for x in i), sort)))
    f = z3.Function(nm, *([z3.IntSort()] * len(shape) + [sort]))
    return LArr.from_fn(shape, dt, lambda i: mk(f(*[int_term(x) for x in i])))


@shaped
def empty(shape, dtype = None, order = None):
    return unspecified(shape, _dt(dtype))


@shaped
def full(shape, fill_value, dtype = None, order = None):
    if isinstance(fill_value, (SArr, _np.ndarray)):
        a = as_arr(fill_value)
        r = unspecified(shape, a.dtype if dtype is None else _dt(dtype))
        r[...] = a
        return r
    dt = DT(kind_of(fill_value)) if dtype is None else _dt(dtype)
    return _alloc(shape, dt, arrays.cast_scalar(fill_value, dt))


@shaped
def zeros_like(a, dtype = None, order = None, subok = True, shape = None):
    a = as_arr(a)
    return zeros(a.shape if shape is None else shape, dtype = a.dtype if dtype is None else dtype)


@shaped
def ones_like(a, dtype = None, order = None, subok = True, shape = None):
    a = as_arr(a)
    return ones(a.shape, dtype = a.dtype if dtype is None else dtype)


@shaped
def empty_like(a, dtype = None, order = None, subok = True, shape = None):
    a = as_arr(a)
    return empty(a.shape, dtype = a.dtype if dtype is None else dtype)


@shaped
def full_like(a, fill_value, dtype = None, order = None, subok = True, shape = None):
    a = as_arr(a)
    return full(a.shape, fill_value, dtype = a.dtype if dtype is None else dtype)


@shaped
def array(x, dtype = None, copy = True, order = None, subok = False, ndmin = 0):
    r = _array(x, dtype)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + tuple(r.shape))
    return r


@shaped
def asarray(x, dtype = None, order = None):
    if isinstance(x, SArr) and (dtype is None or dtype_of(dtype) == x.dtype):
        return x
    return _array(x, dtype)


@shaped
def copy(a, order = None, subok = False):
    return as_arr(a).copy()


@shaped
def arange(*args, dtype = None):
    if len(args) == 1:
        a, b, s = 0, args[0], 1
    elif len(args) == 2:
        a, b, s = args[0], args[1], 1
    else:
        a, b, s = args
    if not builtins.any(is_sym(x) for x in (a, b, s)):
        return wrap(_np.arange(a, b, s, dtype = None if dtype is None else dtype_of(dtype)))
    if 'f' in (kind_of(a), kind_of(b), kind_of(s)) or is_sym(s):
        raise Unsupported('arange of symbolic reals')
    st, step, n = arrays.norm_dim(a), int(s), None
    d = b - a
    n = d if step == 1 else (d + (step - 1)) // step if step > 0 else (-d + (-step - 1)) // (-step)
    n = arrays.norm_dim(n)
    if isinstance(n, SInt) and not core.ctx().known(n.t >= 0) and core.ctx().branch(n.t < 0):
        n = 0
    elif not isinstance(n, SInt):
        n = builtins.max(0, n)
    dt = DT('i') if dtype is None else dtype_of(dtype)
    return make((n,), dt, lambda i: arrays.add_idx(st, i[0] * step))


# ---- elementwise

def _ew1(f, x, dt = None, out = None, where = True):
    if isinstance(x, (list, tuple, _np.ndarray)):
        x = _array(x)
    if isinstance(x, SArr):
        r = arrays.unary(f, x, x.dtype if dt is None else dt)
        return _ufunc_out(r, out, where)
    r = arrays.tag(f(arrays.tag(x)))
    return r


def _ufunc_out(r, out, where):
    if isinstance(out, tuple):
        out = out[0]
    if out is None:
        if where is not True:
            base = unspecified(r.shape, r.dtype)
            w = as_arr(where)
            base[...] = where3(w, r, base)
            return base
        return r
    if where is True:
        out[...] = r
    else:
        out[...] = where3(as_arr(where), r, out)
    return out


def _is_coll(x):
    return isinstance(x, (SArr, _np.ndarray, list, tuple))


def _ew2(f, a, b, dt, out = None, where = True):
    if _is_coll(a) or _is_coll(b):
        r = arrays.elementwise2(f, a, b, dt)
        return _ufunc_out(r, out, where)
    return arrays.tag(f(arrays.tag(a), arrays.tag(b)))


def _mk_ew2(name, op, dt = None):
    real = getattr(_np, name)

    def g(a, b, out = None, where = True, dtype = None, **kw):
        if not active():
            return real(a, b, out = out, where = where, dtype = dtype, **kw)
        a = _array(a) if isinstance(a, (list, tuple, _np.ndarray)) else a
        b = _array(b) if isinstance(b, (list, tuple, _np.ndarray)) else b
        d = DT(dt) if dt else arrays.result_dtype(a, b, op)
        return _ew2(lambda x, y: arrays.scalar_op(op, x, y), a, b, d, out, where)

    g.__name__ = name
    g.vc_modelled = True
    return g


add = _mk_ew2('add', '+')
subtract = _mk_ew2('subtract', '-')
multiply = _mk_ew2('multiply', '*')
divide = _mk_ew2('divide', '/')
true_divide = divide
floor_divide = _mk_ew2('floor_divide', '//')
mod = _mk_ew2('mod', '%')
remainder = mod
power = _mk_ew2('power', '**')
less = _mk_ew2('less', '<', 'b')
less_equal = _mk_ew2('less_equal', '<=', 'b')
greater = _mk_ew2('greater', '>', 'b')
greater_equal = _mk_ew2('greater_equal', '>=', 'b')
equal = _mk_ew2('equal', '==', 'b')
not_equal = _mk_ew2('not_equal', '!=', 'b')


@shaped
def divmod(a, b):
    return floor_divide(a, b), mod(a, b)


def _nanaware(better):

    def f(x, y):
        nx, ny = core.isnan(x), core.isnan(y)
        r = ite(better(y, x), y, x)
        if nx is False and ny is False:
            return r
        return mk_real(real_term(r), core.or_nan(core.nan_of(x), core.nan_of(y)), True)

    return f


@shaped
def minimum(a, b, out = None):
    return _ew2(_nanaware(lambda y, x: y < x), a, b, arrays.result_dtype(_p(a), _p(b)), out)


@shaped
def maximum(a, b, out = None):
    return _ew2(_nanaware(lambda y, x: y > x), a, b, arrays.result_dtype(_p(a), _p(b)), out)


def _p(x):
    return _array(x) if isinstance(x, (list, tuple, _np.ndarray)) else x


def _truth2(f):
    return lambda x, y: f(reduce_.truth(x), reduce_.truth(y))


@shaped
def logical_and(a, b, out = None, where = True):
    return _ew2(_truth2(sand), a, b, DT('b'), out, where)


@shaped
def logical_or(a, b, out = None, where = True):
    return _ew2(_truth2(sor), a, b, DT('b'), out, where)


@shaped
def logical_xor(a, b, out = None, where = True):
    return _ew2(_truth2(lambda x, y: mk_bool(z3.simplify(z3.Xor(bool_term(x), bool_term(y))))), a, b, DT('b'), out,
                where)


@shaped
def logical_not(a, out = None, where = True):
    return _ew1(lambda x: snot(reduce_.truth(x)), a, DT('b'), out, where)


bitwise_and = _mk_ew2('bitwise_and', '&')
bitwise_or = _mk_ew2('bitwise_or', '|')


@shaped
def isnan(a, out = None, where = True):
    return _ew1(core.isnan, a, DT('b'), out, where)


@shaped
def isfinite(a):
    return _ew1(lambda x: False if core.is_inf(x) else snot(core.isnan(x)), a, DT('b'))


@shaped
def isinf(a):
    return _ew1(lambda x: core.is_inf(x), a, DT('b'))


def _fl(x):
    return DT('f')


@shaped
def sqrt(a, out = None):
    return _ew1(lambda x: core.sqrt(x, True), a, DT('f'), out)


@shaped
def square(a):
    return _ew1(lambda x: x * x, a)


@shaped
def negative(a, out = None):
    return _ew1(lambda x: -x, a, None, out)


@shaped
def absolute(a, out = None):
    return _ew1(arrays.abs_scalar, a, None, out)


abs = absolute
fabs = absolute


@shaped
def sign(a):
    return _ew1(lambda x: ite(x > 0, 1, ite(x < 0, -1, 0)) if kind_of(x) == 'i' else ite(x > 0, 1.0,
                                                                                      ite(x < 0, -1.0, 0.0)), a)


def _trig(fname, f):
    real = getattr(_np, fname)

    def g(a, out = None):
        if not active():
            return real(a)
        return _ew1(f, a, DT('f'), out)

    g.__name__ = fname
    g.vc_modelled = True
    return g


def _app1(nm, realf):

    def f(x):
        if is_sym(x):
            return core.app_real(nm, x)
        return realf(x)

    return f


sin = _trig('sin', lambda x: core.sin(x))
cos = _trig('cos', lambda x: core.cos(x))
tan = _trig('tan', _app1('tan', _np.tan))
arccos = _trig('arccos', _app1('acos', _np.arccos))
arcsin = _trig('arcsin', _app1('asin', _np.arcsin))
arctan = _trig('arctan', _app1('atan', _np.arctan))
exp = _trig('exp', _app1('exp', _np.exp))
log = _trig('log', _app1('log', _np.log))
log10 = _trig('log10', _app1('log10', _np.log10))


@shaped
def arctan2(y, x):
    return _ew2(lambda a, b: core.app_real('atan2', a, b) if is_sym(a) or is_sym(b) else _np.arctan2(a, b), y, x,
                DT('f'))


def _to_rad(x):
    if not is_sym(x):
        if x == x and not core.is_inf(x):
            return mk_real(real_term(x) * core.PI / 180, None, True)
        return x
    return mk_real(real_term(x) * core.PI / 180, core.nan_of(x), True)


def _to_deg(x):
    if not is_sym(x):
        if x == x and not core.is_inf(x):
            return mk_real(real_term(x) * 180 / core.PI, None, True)
        return x
    return mk_real(real_term(x) * 180 / core.PI, core.nan_of(x), True)


radians = _trig('radians', _to_rad)
deg2rad = _trig('deg2rad', _to_rad)
degrees = _trig('degrees', _to_deg)
rad2deg = _trig('rad2deg', _to_deg)


@shaped
def floor(a):
    return _ew1(lambda x: core.to_real(core.floor(x)), a)


@shaped
def ceil(a):
    return _ew1(lambda x: core.to_real(core.ceil(x)), a)


@shaped
def around(a, decimals = 0):
    if decimals:
        return fallthrough('around', _np.around)(a, decimals)
    return _ew1(lambda x: core.to_real(core.round_half_even(x)) if kind_of(x) == 'f' else x, a)


round = around
round_ = around
rint = around


@shaped
def clip(a, lo, hi, out = None):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def where3(c, x, y):
    xd, yd = _p(x), _p(y)
    dt = arrays.result_dtype(xd, yd)
    if arrays.okind(xd) == arrays.okind(yd) == 'b':
        dt = DT('b')
    c = _p(c)
    sc = c.shape if isinstance(c, SArr) else ()
    sx = xd.shape if isinstance(xd, SArr) else ()
    sy = yd.shape if isinstance(yd, SArr) else ()
    shape = arrays.broadcast_shape(sc, sx, sy)
    rc, rx, ry = (arrays.bcast_reader(v, shape) for v in (c, xd, yd))
    return arrays.scalar_if_0d(make(shape, dt, lambda i: ite(reduce_.truth(rc(i)), rx(i), ry(i))))


@shaped
def where(c, x = None, y = None):
    if x is None and y is None:
        return nonzero(c)
    return where3(c, x, y)


@shaped
def nonzero(a):
    a = as_arr(a)
    rd = a.reader()
    tr = lambda i: reduce_.truth(rd(i))
    n = arrays.csize(a.shape)
    if n is not None and n <= arrays.DENSE_LIMIT:
        hits = []
        for i in _np.ndindex(*a.shape):
            if tr(i):
                hits.append(i)
        return tuple(_array(_np.array([h[d] for h in hits], dtype = int)) for d in range(a.ndim))
    return nonzero_symbolic(a.shape, tr)


def nonzero_symbolic(shape, tr):
    """axiomatised enumeration of the true elements, in lexicographic order"""
    c = core.ctx()
    if c.bound:
        raise Unsupported('nonzero inside quantifier')
    nd = len(shape)
    nm = c.fresh_name('nz')
    E = [z3.Function(f'{nm}_e{d}', z3.IntSort(), z3.IntSort()) for d in range(nd)]
    Rk = z3.Function(f'{nm}_rank', *([z3.IntSort()] * (nd + 1)))
    m = z3.Int(f'{nm}_count')
    c.fact(m >= 0)
    k, k2 = z3.Int(c.fresh_name('k')), z3.Int(c.fresh_name('k'))

    def scoped(f):
        c.bound.append([])
        try:
            t = f()
        finally:
            fs = c.bound.pop()
        return t, fs

    t, fs = scoped(lambda: bool_term(tr(tuple(SInt(e(k)) for e in E))))
    rng = z3.And(*[z3.And(e(k) >= 0, e(k) < int_term(n)) for e, n in zip(E, shape)])
    c.fact(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(rng, t, *fs, Rk(*[e(k) for e in E]) == k)),
                     patterns = [E[0](k)]))
    lex = z3.BoolVal(False)
    for d in reversed(range(nd)):
        lex = z3.Or(E[d](k) < E[d](k2), z3.And(E[d](k) == E[d](k2), lex))
    c.fact(z3.ForAll([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < m), lex),
                     patterns = [z3.MultiPattern(E[0](k), E[0](k2))]))
    xs = [z3.Int(c.fresh_name('x')) for _ in range(nd)]
    t, fs = scoped(lambda: bool_term(tr(tuple(SInt(x) for x in xs))))
    rng = z3.And(*[z3.And(x >= 0, x < int_term(n)) for x, n in zip(xs, shape)])
    r = Rk(*xs)
    c.fact(z3.ForAll(xs, z3.Implies(z3.And(rng, t), z3.And(r >= 0, r < m, *[e(r) == x for e, x in zip(E, xs)])),
                     patterns = [r] if not _has_app(t, xs) else _pats(t, xs, r)))
    out = tuple(LArr.from_fn((SInt(m),), DT('i'), lambda i, e = e: SInt(e(int_term(i[0])))) for e in E)
    mask = LArr.from_fn(tuple(shape), DT('b'), tr)
    for d, r in enumerate(out):
        r.mask_of = (out, d, nd, mask, r.buf.version)
    return out


def _has_app(t, xs):
    return bool(_apps(t, xs))


def _apps(t, xs):
    """uninterpreted applications within t which mention all of the variables"""
    out = []
    seen = set()

    def vars_in(u, acc):
        if builtins.any(u.eq(x) for x in xs):
            acc.add(u.get_id())
        for ch in u.children():
            vars_in(ch, acc)
        return acc

    def go(u):
        if u.get_id() in seen:
            return
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            return
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.num_args() and \
                len(vars_in(u, set())) == len(xs):
            out.append(u)
        for ch in u.children():
            go(ch)

    go(t)
    return out


def _pats(t, xs, r):
    return [r] + _apps(t, xs)[:2]


@shaped
def count_nonzero(a, axis = None):
    a = as_arr(a)
    rd = a.reader()
    b = make(a.shape, DT('i'), lambda i: SInt(int_term(reduce_.truth(rd(i)))) if is_sym(rd(i)) else int(bool(rd(i))))
    n = b.sum(axis)
    if axis is None and isinstance(n, SInt):
        # lemma, by induction on the size: the count is the size exactly when all are true
        core.ctx().fact(core.int_term(n) <= core.int_term(arrays.prod(a.shape)))
        core.ctx().fact(core.bool_term(n == arrays.prod(a.shape)) == core.bool_term(reduce_.all_(a)))
    return n


@shaped
def flatnonzero(a):
    return nonzero(as_arr(a).reshape((-1,)))[0]


@shaped
def argwhere(a):
    a = as_arr(a)
    return stack(nonzero(a), axis = -1)


# ---- reductions

def _red(name, method):
    real = getattr(_np, name)

    def g(a, axis = None, **kw):
        if not active():
            return real(a, axis = axis, **kw)
        kw = {k: v for k, v in kw.items() if k in ('keepdims',)}
        if isinstance(a, MaskedArr):
            return getattr(a, name)()
        if not isinstance(a, (SArr, _np.ndarray, list, tuple)) and not hasattr(a, 'vc_to_array'):
            if num(a):
                return reduce_.truth(a) if name in ('all', 'any') else a
            if isinstance(a, types.GeneratorType):
                raise Unsupported('numpy reduction of a generator')
        return method(as_arr(a), axis, **kw)

    g.__name__ = name
    g.vc_modelled = True
    return g


sum = _red('sum', reduce_.sum_)
nansum = _red('nansum', reduce_.nansum)
any = _red('any', reduce_.any_)
all = _red('all', reduce_.all_)
min = _red('min', lambda a, axis, **kw: reduce_.minmax(a, axis, False, **kw))
max = _red('max', lambda a, axis, **kw: reduce_.minmax(a, axis, True, **kw))
amin, amax = min, max
nanmin = _red('nanmin', lambda a, axis, **kw: reduce_.minmax(a, axis, False, skipnan = True, **kw))
nanmax = _red('nanmax', lambda a, axis, **kw: reduce_.minmax(a, axis, True, skipnan = True, **kw))
mean = _red('mean', reduce_.mean)
argmin = _red('argmin', lambda a, axis: reduce_.argminmax(a, axis, False))
argmax = _red('argmax', lambda a, axis: reduce_.argminmax(a, axis, True))
cumsum = _red('cumsum', reduce_.cumsum)


def _nanmean(a, axis = None, keepdims = False):
    rd = a.reader()
    ok = make(a.shape, DT('f'), lambda i: ite(core.isnan(rd(i)), 0.0, 1.0))
    return reduce_.nansum(a, axis, keepdims) / reduce_.sum_(ok, axis, keepdims)


nanmean = _red('nanmean', _nanmean)


@shaped
def prod(a, axis = None):
    a = as_arr(a)
    k = dkind(a.dtype)

    def fold(sh, rd):
        if not reduce_.explicit(sh):
            raise Unsupported('product over symbolic extent')
        r = 1.0 if k == 'f' else 1
        for i in _np.ndindex(*sh):
            r = r * rd(i)
        return r

    return reduce_.reduce_general(a, axis, False, DT('f' if k == 'f' else 'i'), fold)


product = prod


@shaped
def dot(a, b, out = None):
    if num(a) or num(b):
        return a * b
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return arrays.scalar_if_0d(a) * arrays.scalar_if_0d(b)
    n = a.shape[-1]
    bd = -1 if b.ndim == 1 else -2
    if not arrays.dim_eq(n, b.shape[bd]):
        raise ValueError('shapes not aligned')
    ra, rb = a.reader(), b.reader()
    sa = a.shape[:-1]
    sb = b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ()
    dt = arrays.result_dtype(a, b)
    zero = 0.0 if dkind(dt) == 'f' else 0

    def fn(i):
        ia = i[:len(sa)]
        ib = i[len(sa):]

        def term(k):
            y = rb(ib[:-1] + k + ib[-1:]) if b.ndim > 1 else rb(k)
            return arrays.tag(ra(ia + k)) * arrays.tag(y)

        return reduce_.sum_scalar((n,), term, zero)

    r = make(tuple(sa) + tuple(sb), dt, fn)
    return arrays.scalar_if_0d(r)


@shaped
def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    raise Unsupported('matmul of stacked matrices')


@shaped
def vdot(a, b):
    return dot(as_arr(a).reshape((-1,)), as_arr(b).reshape((-1,)))


@shaped
def inner(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return dot(a, b)
    return dot(a, b.T)


@shaped
def outer(a, b):
    a, b = as_arr(a).reshape((-1,)), as_arr(b).reshape((-1,))
    return a[:, None] * b[None, :]


def _multiply_outer(a, b):
    if not active():
        return _np.multiply.outer(a, b)
    a, b = as_arr(a), as_arr(b)
    n = a.ndim
    return make(tuple(a.shape) + tuple(b.shape), arrays.result_dtype(a, b, '*'), lambda i: a.elem(i[:n]) * b.elem(i[n:]))


multiply.outer = _multiply_outer


@shaped
def cross(a, b, axis = -1):
    a, b = as_arr(a), as_arr(b)
    shape = arrays.broadcast_shape(a.shape[:-1], b.shape[:-1])
    na, nb = a.shape[-1], b.shape[-1]
    if not (na in (2, 3) and nb in (2, 3)):
        raise ValueError('incompatible dimensions for cross product')
    if axis not in (-1, a.ndim - 1):
        raise Unsupported('cross product over another axis')
    dt = arrays.result_dtype(a, b)
    ra = arrays.bcast_reader(a, shape + (na,)) if a.ndim else None
    rb = arrays.bcast_reader(b, shape + (nb,))
    g = lambda r, n, i, k: arrays.tag(r(i + (k,))) if k < n else 0

    def comp(i, k):
        p, q = (k + 1) % 3, (k + 2) % 3
        return g(ra, na, i, p) * g(rb, nb, i, q) - g(ra, na, i, q) * g(rb, nb, i, p)

    if na == 2 and nb == 2:
        return arrays.scalar_if_0d(make(shape, dt, lambda i: comp(i, 2)))
    return make(shape + (3,), dt, lambda i: comp(i[:-1], i[-1]) if not isinstance(i[-1], SInt) else ite(
        i[-1] == 0, comp(i[:-1], 0), ite(i[-1] == 1, comp(i[:-1], 1), comp(i[:-1], 2))))


# ---- joining and rearranging

@shaped
def stack(seq, axis = 0):
    seq = [as_arr(x) for x in seq]
    a0 = seq[0]
    nd = a0.ndim + 1
    ax = axis % nd
    dt = a0.dtype
    for x in seq[1:]:
        dt = arrays.result_dtype(_D(dt), x) if dkind(dt) != dkind(x.dtype) else dt
    rds = [x.reader() for x in seq]
    shape = a0.shape[:ax] + (len(seq),) + a0.shape[ax:]

    def fn(i):
        k = i[ax]
        rest = i[:ax] + i[ax + 1:]
        if isinstance(k, SInt):
            r = rds[-1](rest)
            for q in range(len(rds) - 2, -1, -1):
                r = ite(k == q, rds[q](rest), r)
            return r
        return rds[k](rest)

    return make(shape, dt, fn)


class _D:
    """dtype carrier for result_dtype"""

    def __new__(cls, dt):
        return DArr(_np.empty((0,), dtype = object), dt)


@shaped
def concatenate(seq, axis = 0, dtype = None):
    if isinstance(seq, SArr):
        seq = list(seq)
    if hasattr(seq, 'vc_concat'):
        return seq.vc_concat(axis)
    seq = [as_arr(x) for x in seq]
    if not seq:
        raise ValueError('need at least one array to concatenate')
    if axis is None:
        seq = [x.reshape((-1,)) for x in seq]
        axis = 0
    nd = seq[0].ndim
    ax = axis % nd
    dt = seq[0].dtype
    for x in seq[1:]:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        dt = arrays.result_dtype(_D(dt), x) if dkind(dt) != dkind(x.dtype) else dt
        for d in range(nd):
            if d != ax and not arrays.dim_eq(x.shape[d], seq[0].shape[d]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    if dtype is not None:
        dt = dtype_of(dtype)
    rds = [x.reader() for x in seq]
    offs = [0]
    for x in seq:
        offs.append(arrays.add_idx(offs[-1], x.shape[ax]))
    shape = seq[0].shape[:ax] + (offs[-1],) + seq[0].shape[ax + 1:]

    def fn(i):
        k = i[ax]
        r = None
        for q in range(len(rds) - 1, -1, -1):
            c = arrays.lt_idx(k, offs[q + 1]) if q < len(rds) - 1 else True
            if c is False:
                continue
            if c is not True and arrays.ge_idx(k, offs[q]) is False:
                continue
            v = lambda: rds[q](i[:ax] + (arrays.add_idx(k, -offs[q]) if not (isinstance(offs[q], int) and offs[q] == 0)
                                         else k,) + i[ax + 1:])
            if isinstance(seq[q].shape[ax], int) and seq[q].shape[ax] == 0:
                continue
            r = v() if c is True or r is None else ite(c, v(), r)
        return r

    return make(shape, dt, fn)


@shaped
def vstack(seq):
    seq = [as_arr(x) for x in seq]
    return concatenate([x.reshape((1, -1)) if x.ndim < 2 else x for x in seq], axis = 0)


@shaped
def hstack(seq):
    seq = [as_arr(x) for x in seq]
    return concatenate(seq, axis = 0 if seq[0].ndim == 1 else 1)


@shaped
def column_stack(seq):
    seq = [as_arr(x) for x in seq]
    return concatenate([x.reshape((-1, 1)) if x.ndim < 2 else x for x in seq], axis = 1)


@shaped
def dstack(seq):
    seq = [as_arr(x) for x in seq]
    return stack(seq, axis = 2)


@shaped
def append(a, v, axis = None):
    a, v = as_arr(a), as_arr(v)
    if axis is None:
        return concatenate([a.reshape((-1,)), v.reshape((-1,))])
    return concatenate([a, v], axis = axis)


@shaped
def repeat(a, n, axis = None):
    a = as_arr(a)
    if axis is None:
        a = a.reshape((-1,))
        axis = 0
    axis %= a.ndim
    if isinstance(n, (list, tuple, SArr, _np.ndarray)):
        n = as_arr(n)
        if n.ndim == 1 and arrays.csize(n.shape) == 1:
            n = n.elem((0,))
        else:
            reps = [n.elem((i,)) for i in range(n.shape[0])]
            if builtins.any(is_sym(r) for r in reps):
                raise Unsupported('repeat with symbolic counts')
            idx = [i for i, r in enumerate(reps) for _ in range(int(r))]
            return take(a, idx, axis)
    rd = a.reader()
    m = arrays.norm_dim(a.shape[axis] * n)
    if isinstance(a.shape[axis], int) and a.shape[axis] == 1:
        return make(a.shape[:axis] + (m,) + a.shape[axis + 1:], a.dtype, lambda i: rd(i[:axis] + (0,) + i[axis + 1:]))
    return make(a.shape[:axis] + (m,) + a.shape[axis + 1:], a.dtype,
                lambda i: rd(i[:axis] + (arrays.fix_idx(arrays.split_flat(i[axis], n)[0]),) + i[axis + 1:]))


@shaped
def take(a, idx, axis = None):
    a = as_arr(a)
    if axis is None:
        a = a.reshape((-1,))
        axis = 0
    return a[(slice(None),) * axis + (as_arr(idx) if _is_coll(idx) else idx,)]


@shaped
def tile(a, reps):
    a = as_arr(a)
    reps = (reps,) if not isinstance(reps, (tuple, list)) else tuple(reps)
    nd = builtins.max(a.ndim, len(reps))
    reps = (1,) * (nd - len(reps)) + reps
    a = a.reshape((1,) * (nd - a.ndim) + tuple(a.shape))
    rd = a.reader()
    shape = tuple(arrays.norm_dim(n * r) for n, r in zip(a.shape, reps))
    return make(shape, a.dtype, lambda i: rd(tuple(
        k if (isinstance(r, int) and r == 1) else arrays.fix_idx(k % n) for k, n, r in zip(i, a.shape, reps))))


@shaped
def reshape(a, shape, order = 'C'):
    return as_arr(a).reshape(shape)


@shaped
def ravel(a, order = 'C'):
    return as_arr(a).ravel()


@shaped
def transpose(a, axes = None):
    return as_arr(a).transpose(axes) if axes is not None else as_arr(a).transpose()


@shaped
def swapaxes(a, x, y):
    return as_arr(a).swapaxes(x, y)


@shaped
def moveaxis(a, s, d):
    a = as_arr(a)
    order = [x for x in range(a.ndim) if x != s % a.ndim]
    order.insert(d % a.ndim, s % a.ndim)
    return a.transpose(order)


@shaped
def expand_dims(a, axis):
    a = as_arr(a)
    ax = axis % (a.ndim + 1)
    return a[(slice(None),) * ax + (None,)]


@shaped
def squeeze(a, axis = None):
    return as_arr(a).squeeze(axis)


@shaped
def broadcast_to(a, shape):
    a = as_arr(a)
    shape = arrays.norm_shape(shape)
    rd = arrays.bcast_reader(a, shape)
    arrays.broadcast_shape(a.shape, shape)
    return make(shape, a.dtype, rd)


@shaped
def flip(a, axis = None):
    a = as_arr(a)
    axes = range(a.ndim) if axis is None else [axis % a.ndim] if not isinstance(axis, (tuple, list)) else [
        x % a.ndim for x in axis]
    return a[tuple(slice(None, None, -1) if d in axes else slice(None) for d in range(a.ndim))]


@shaped
def flipud(a):
    return as_arr(a)[::-1]


@shaped
def roll(a, shift, axis = None):
    a = as_arr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll of flattened array')
        axis = 0
    rd = a.reader()
    n = a.shape[axis]
    return make(a.shape, a.dtype, lambda i: rd(i[:axis] + (arrays.fix_idx((i[axis] - shift) % n),) + i[axis + 1:]))


@shaped
def packbits(a, axis = None, bitorder = 'big'):
    a = as_arr(a)
    if arrays.dkind(a.dtype) == 'f':
        raise TypeError('Expected an input array of integer or boolean data type')
    if a.ndim == 0 or bitorder != 'big' or (axis is None and a.ndim > 1) or (axis is not None and axis % a.ndim != a.ndim - 1):
        raise Unsupported('packbits other than over last axis')
    rd = a.reader()
    n = a.shape[-1]

    def fn(i):
        r = 0
        for b in range(8):
            q = i[-1] * 8 + b
            if is_sym(q) or is_sym(n):
                x = arrays.tag(rd(i[:-1] + (ite(q < n, q, 0),)))
                r = r + ite(sand(q < n, x if arrays.dkind(a.dtype) == 'b' else x != 0), 1 << (7 - b), 0)
            elif q < n:
                x = arrays.tag(rd(i[:-1] + (q,)))
                r = r + ite(x if arrays.dkind(a.dtype) == 'b' else x != 0, 1 << (7 - b), 0)
        return r

    return make(a.shape[:-1] + ((n + 7) // 8,), _np.dtype('uint8'), fn)


@shaped
def unpackbits(a, axis = None, count = None, bitorder = 'big'):
    a = as_arr(a)
    if a.dtype != _np.dtype('uint8'):
        raise TypeError('Expected an input array of unsigned byte data type')
    if a.ndim == 0 or bitorder != 'big' or count is not None or (axis is None and a.ndim > 1) or (
            axis is not None and axis % a.ndim != a.ndim - 1):
        raise Unsupported('unpackbits other than over last axis')
    rd = a.reader()

    def fn(i):
        q = i[-1]
        x = arrays.tag(rd(i[:-1] + (arrays.fix_idx(q // 8),)))
        r = q % 8
        bits = [(x // (1 << (7 - b))) % 2 for b in range(8)]
        if not is_sym(r):
            return bits[int(r)]
        v = bits[7]
        for b in range(7):
            v = ite(r == b, bits[b], v)
        return v

    return make(a.shape[:-1] + (a.shape[-1] * 8,), _np.dtype('uint8'), fn)


@shaped
def diff(a, n = 1, axis = -1):
    a = as_arr(a)
    ax = axis % a.ndim
    for _ in range(n):
        hi = a[(slice(None),) * ax + (slice(1, None),)]
        lo = a[(slice(None),) * ax + (slice(None, -1),)]
        a = hi - lo
    return a


@shaped
def meshgrid(*xs, indexing = 'xy'):
    xs = [as_arr(x) for x in xs]
    if indexing == 'ij':
        shape = tuple(x.shape[0] for x in xs)
        return [make(shape, x.dtype, lambda i, d = d, rd = x.reader(): rd((i[d],))) for d, x in enumerate(xs)]
    shape = tuple(x.shape[0] for x in xs)
    if len(xs) >= 2:
        shape = (shape[1], shape[0]) + shape[2:]
    pos = lambda d: {0: 1, 1: 0}.get(d, d) if len(xs) >= 2 else d
    return [make(shape, x.dtype, lambda i, d = d, rd = x.reader(): rd((i[pos(d)],))) for d, x in enumerate(xs)]


@shaped
def linspace(a, b, num = 50, endpoint = True, dtype = None, axis = 0):
    if isinstance(a, SArr) or isinstance(b, SArr):
        a, b = as_arr(a), as_arr(b)
        sh = arrays.broadcast_shape(a.shape, b.shape)
        a, b = broadcast_to(a, sh), broadcast_to(b, sh)
        ra, rb = a.reader(), b.reader()
        ax = axis % (a.ndim + 1)
        n = num - 1 if endpoint else num
        one = not (n > 0)

        def fn(i):
            rest = i[:ax] + i[ax + 1:]
            lo = core.to_real(ra(rest))
            return lo if one else lo + core.to_real(i[ax], True) * ((core.to_real(rb(rest)) - lo) / core.to_real(n, True))
        return make(a.shape[:ax] + (arrays.norm_dim(num),) + a.shape[ax:], DT('f'), fn)
    if not (is_sym(a) or is_sym(b) or is_sym(num)):
        return wrap(_np.linspace(a, b, num, endpoint = endpoint, dtype = dtype))
    n = num - 1 if endpoint else num
    if not (n > 0):
        return make((arrays.norm_dim(num),), DT('f'), lambda i: core.to_real(a))
    step = (b - a) / core.to_real(n, True)
    return make((arrays.norm_dim(num),), DT('f'), lambda i: a + step * i[0])


@shaped
def sort(a, axis = -1):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('sort of multi-dimensional array')
    if isinstance(a.shape[0], SInt):
        raise Unsupported('sort over symbolic extent')
    xs = [arrays.tag(a.elem((i,))) for i in range(a.shape[0])]
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            lo = ite(xs[j + 1] < xs[j], xs[j + 1], xs[j])
            hi = ite(xs[j + 1] < xs[j], xs[j], xs[j + 1])
            xs[j], xs[j + 1] = lo, hi
    return make(a.shape, a.dtype, lambda i: xs[i[0]])


@shaped
def argsort(a, axis = -1, kind = None):
    a = as_arr(a)
    if a.ndim != 1 or isinstance(a.shape[0], SInt):
        raise Unsupported('argsort')
    xs = [arrays.tag(a.elem((i,))) for i in range(a.shape[0])]
    order = []
    for i, x in enumerate(xs):
        p = len(order)
        while p > 0 and bool(x < xs[order[p - 1]]):
            p -= 1
        order.insert(p, i)
    return _array(_np.array(order, dtype = int))


@shaped
def unique(a, return_index = False, return_inverse = False, return_counts = False, axis = None):
    a = as_arr(a)
    if arrays.csize(a.shape) is None or axis is not None:
        raise Unsupported('unique over symbolic extent')
    a = a.reshape((-1,))
    xs = [arrays.tag(a.elem((i,))) for i in range(a.shape[0])]
    if not builtins.any(is_sym(x) for x in xs):
        return wrap(_np.unique(a.to_real(), return_index = return_index, return_inverse = return_inverse,
                               return_counts = return_counts))
    if return_index or return_inverse or return_counts:
        raise Unsupported('unique with auxiliary results')
    out = []
    for x in xs:
        p = 0
        dup = False
        while p < len(out):
            if bool(x == out[p]):
                dup = True
                break
            if bool(x < out[p]):
                break
            p += 1
        if not dup:
            out.insert(p, x)
    return _array(out, a.dtype)


@shaped
def isclose(a, b, rtol = 1.0e-5, atol = 1.0e-8, equal_nan = False):
    def f(x, y):
        return arrays.abs_scalar(x - y) <= atol + rtol * arrays.abs_scalar(y)
    return _ew2(f, a, b, DT('b'))


@shaped
def allclose(a, b, rtol = 1.0e-5, atol = 1.0e-8, equal_nan = False):
    return all(isclose(a, b, rtol, atol))


@shaped
def array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    if not builtins.all(arrays.dim_eq(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return all(a == b)


@shaped
def isin(a, b, invert = False):
    b = as_arr(b).reshape((-1,))
    if isinstance(b.shape[0], SInt):
        rb = b.reader()
        f = lambda x: snot(arrays.quant_all(b.shape, lambda i: snot(x == rb(i))))
    else:
        ys = [b.elem((i,)) for i in range(b.shape[0])]
        f = lambda x: sor(*[x == y for y in ys])
    return _ew1((lambda x: snot(f(x))) if invert else f, a, DT('b'))


in1d = isin


@shaped
def argpartition(*a, **k):
    raise Unsupported('argpartition')


@shaped
def ndim(a):
    return as_arr(a).ndim if not num(a) else 0


@shaped
def shape(a):
    return as_arr(a).shape if not num(a) else ()


@shaped
def size(a, axis = None):
    a = as_arr(a)
    return a.size if axis is None else a.shape[axis]


@shaped
def fill_diagonal(a, v):
    for i in range(builtins.min(a.shape)):
        a[i, i] = v


@shaped
def eye(n, m = None, k = 0, dtype = float):
    if is_sym(n) or is_sym(m):
        nn = arrays.norm_dim(n)
        dt = dtype_of(dtype)
        return make((nn, nn if m is None else m), dt, lambda i: ite(i[1] - i[0] == k, arrays.cast_scalar(1, dt),
                                                                    arrays.cast_scalar(0, dt)))
    return wrap(_np.eye(n, m, k = k, dtype = dtype_of(dtype)))


identity = eye


@shaped
def trunc(a):
    return _ew1(lambda x: core.to_real(core.to_int(x)), a)


@shaped
def delete(a, idx, axis = None):
    a = as_arr(a)
    if axis is None:
        a = a.reshape((-1,))
        axis = 0
    n = a.shape[axis]
    if isinstance(n, SInt) or is_sym(idx):
        raise Unsupported('delete with symbolic extent')
    ids = _np.delete(_np.arange(n), _conc(idx))
    return take(a, [int(i) for i in ids], axis)


@shaped
def seterr(**kw):
    return {}


class errstate:

    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def may_share_memory(a, b):
    return False


@shaped
def vectorize(*a, **k):
    raise Unsupported('np.vectorize')


class _Linalg:

    def __getattr__(self, name):
        return fallthrough('linalg.' + name, getattr(_np.linalg, name))

    @staticmethod
    def norm(a, ord = None, axis = None):
        if not active():
            return _np.linalg.norm(a, ord, axis)
        if ord not in (None, 2):
            raise Unsupported('norm order')
        a = as_arr(a)
        return sqrt(sum(a * a, axis))

    @staticmethod
    def inv(a):
        if not active():
            return _np.linalg.inv(a)
        a = as_arr(a)
        if a.shape != (3, 3):
            return fallthrough('linalg.inv', _np.linalg.inv)(a)
        m = [[arrays.tag(a.elem((i, j))) for j in range(3)] for i in range(3)]
        cof = lambda i, j: (m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] -
                            m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3])
        det = builtins.sum(m[0][j] * cof(0, j) for j in range(3))
        if det == 0:
            raise _np.linalg.LinAlgError('Singular matrix')
        return make((3, 3), DT('f'), lambda i: cof(i[1], i[0]) / det)


linalg = _Linalg()


class _Ma:
    """numpy.ma: masking of invalid values in arrays which have none is a copy"""

    def __getattr__(self, name):
        v = getattr(_np.ma, name)
        if isinstance(v, type) or not callable(v):
            return v
        return fallthrough('ma.' + name, v)

    @staticmethod
    def masked_array(a, mask = _np.ma.nomask):
        return masked_array(a, mask)

    @staticmethod
    def masked_invalid(a, copy = True):
        if not active() or not isinstance(a, SArr):
            return _np.ma.masked_invalid(a, copy)
        if a.dtype.kind == 'f':
            if isinstance(a, DArr):
                some = _np.ndindex(*a.shape)
            else:
                some = [tuple(core.CTX.fresh_int('ma') for _ in a.shape)]
            if builtins.any(core.isnan(a.elem(i)) is not False for i in some):
                raise Unsupported('masked array')
        return a.copy()


class MaskedArr:
    """a masked array, of which the mask is all that matters: an array of data, and an array of flags or None"""

    def __init__(self, data, mask):
        self.data, self._mask = data, mask

    shape = property(lambda s: s.data.shape)
    dtype = property(lambda s: s.data.dtype)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    mask = property(lambda s: _np.ma.nomask if s._mask is None else s._mask)

    def __getattr__(self, name):
        raise Unsupported('masked array: ' + name)

    def extreme(self, is_max):
        if self._mask is None:
            return reduce_.minmax(self.data, None, is_max)
        if not logical_not(self._mask).any():
            return _np.ma.masked
        rd, rm, sh = self.data.reader(), self._mask.reader(), self.data.shape
        if isinstance(self.data, DArr):
            r = none = None
            for i in _np.ndindex(*sh):
                x, m = rd(i), rm(i)
                if r is None:
                    r, none = x, m
                else:
                    r = ite(sand(snot(m), sor(none, (x > r) if is_max else (x < r))), x, r)
                    none = sand(none, m)
            return r
        c = core.CTX
        ws = tuple(c.fresh_int('w') for _ in sh)
        for w, n in zip(ws, sh):
            c.fact(core.bool_term(sand(w >= 0, w < n)))
        c.fact(core.bool_term(snot(rm(ws))))
        m = rd(ws)
        c.fact(core.bool_term(arrays.quant_all(sh, lambda i: sor(rm(i), (rd(i) <= m) if is_max else (rd(i) >= m)))))
        return m

    def min(self):
        return self.extreme(False)

    def max(self):
        return self.extreme(True)


def masked_array(a, mask = _np.ma.nomask):
    if not active() or not (isinstance(a, SArr) or isinstance(mask, SArr)):
        return _np.ma.masked_array(a, mask = mask)
    a = as_arr(a)
    if mask is _np.ma.nomask:
        return MaskedArr(a, None)
    return MaskedArr(a, broadcast_to(as_arr(mask), a.shape))


ma = _Ma()

_TYPES = {
    'int64': _np.int64, 'int32': _np.int32, 'int16': _np.int16, 'int8': _np.int8, 'uint8': _np.uint8,
    'uint16': _np.uint16, 'uint32': _np.uint32, 'uint64': _np.uint64, 'float64': _np.float64, 'float32': _np.float32,
    'bool_': _np.bool_
}


class _TypeMeta(type):

    def __instancecheck__(cls, x):
        r = cls._vc_real_type
        if isinstance(x, SInt):
            return x.npy and issubclass(_np.int64, r)
        if isinstance(x, SReal):
            return x.npy and issubclass(_np.float64, r)
        if isinstance(x, SBool):
            return issubclass(_np.bool_, r)
        return isinstance(x, r)

    def __eq__(cls, o):
        return getattr(o, '_vc_real_type', o) is cls._vc_real_type

    def __hash__(cls):
        return hash(cls._vc_real_type)

    def __call__(cls, x = 0):
        if active() and (is_sym(x) or isinstance(x, SArr)):
            if isinstance(x, SArr):
                return x.astype(cls._vc_real_type) if x.ndim else arrays.tag(arrays.cast_scalar(x.elem(()),
                                                                                               _np.dtype(cls._vc_real_type)))
            return arrays.tag(arrays.cast_scalar(x, _np.dtype(cls._vc_real_type)))
        return cls._vc_real_type(x)


for _n, _t in _TYPES.items():
    globals()[_n] = _TypeMeta(_n, (), {'_vc_real_type': _t})
integer = _TypeMeta('integer', (), {'_vc_real_type': _np.integer})
floating = _TypeMeta('floating', (), {'_vc_real_type': _np.floating})
number = _TypeMeta('number', (), {'_vc_real_type': _np.number})
double = globals()['float64']
intp = globals()['int64']


def dtype(t, *a, **k):
    return _np.dtype(getattr(t, '_vc_real_type', t), *a, **k)


def issubdtype(a, b):
    return _np.issubdtype(getattr(a, '_vc_real_type', a), getattr(b, '_vc_real_type', b))


def isscalar(x):
    return num(x) or _np.isscalar(x)


class _Shim(types.ModuleType):
    """module object with fall through to numpy"""

    def __getattr__(self, name):
        if name == 'pi':
            return SReal(core.PI) if active() else _np.pi
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(_np, name)
        if isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
            return v
        return fallthrough(name, v)


sys.modules[__name__].__class__ = _Shim
