"""vcpy.arrays: numpy array proxies.

DArr: concrete shape, elements in a numpy object array (views share memory exactly as numpy views do).
LArr: possibly symbolic shape; elements are given by a function of the index terms; views write through to the buffer.
"""

import itertools
import builtins
import z3
import numpy as _np

from vcpy import core, ring
from vcpy.core import (S, SInt, SReal, SBool, Unsupported, ctx, ite, sand, sor, snot, is_sym, kind_of, num, mk_bool,
                       mk_int, mk_real, int_term, real_term, bool_term)

DENSE_LIMIT = 4096


def DT(kind):
    return {'i': _np.dtype('int64'), 'f': _np.dtype('float64'), 'b': _np.dtype('bool'), 'o': _np.dtype('O')}[kind]


def dkind(dtype):
    k = dtype.kind
    return 'i' if k in 'iu' else k if k in 'fb' else 'o'


def dtype_of(t):
    if t is None:
        return _np.dtype('float64')
    if isinstance(t, SArr):
        return t.dtype
    t = getattr(t, '_vc_real_type', t)
    return _np.dtype(t)


def result_dtype(a, b, op = None):
    """dtype of an arithmetic result of two operands (arrays or scalars)"""
    ka, kb = okind(a), okind(b)
    if 'o' in (ka, kb):
        return DT('o')
    if 'f' in (ka, kb) or op == '/':
        return DT('f')
    if 'i' in (ka, kb):
        return DT('i')
    return DT('b') if op in ('&', '|', '^') else DT('i') if op in ('-',) else DT('b')


def okind(x):
    if isinstance(x, SArr):
        return dkind(x.dtype)
    if isinstance(x, _np.ndarray):
        return dkind(x.dtype)
    return kind_of(x)


def cast_scalar(x, dtype):
    k = dkind(dtype)
    kx = kind_of(x)
    if k == 'o' or kx == 'o':
        if k != 'o' and isinstance(x, str):
            return cast_scalar(float(x) if k == 'f' else int(x), dtype)
        if k == 'f' and x is None:
            return float('nan')
        return x
    if k == kx:
        if isinstance(x, _np.generic):
            return x.item()
        return x
    if k == 'f':
        return core.to_real(x)
    if k == 'i':
        if kx == 'b':
            return SInt(int_term(x)) if isinstance(x, SBool) else int(x)
        if isinstance(x, SReal):
            if x.nan is not None:
                u = ctx().fresh_int('nan_as_int') if not ctx().bound else None
                if u is None:
                    raise Unsupported('cast of possible NaN to int under quantifier')
                y = core.SReal(x.t)
                return ite(SBool(x.nan), u, core.to_int(y))
            return core.to_int(x)
        return int(x) if x == x and not core.is_inf(x) else -9223372036854775808
    # to bool
    if isinstance(x, S):
        return mk_bool(bool_term(x))
    return bool(x)


def tag(x):
    """marks an element read from an array as numpy scalar"""
    if isinstance(x, SInt):
        return x if x.npy else SInt(x.t, True)
    if isinstance(x, SReal):
        return x if x.npy else SReal(x.t, x.nan, True)
    if isinstance(x, bool):
        return _np.bool_(x)
    if isinstance(x, int):
        return _np.int64(x) if -2**63 <= x < 2**63 else x
    if isinstance(x, float):
        return _np.float64(x)
    return x


def csize(shape):
    n = 1
    for d in shape:
        if isinstance(d, SInt):
            return None
        n *= d
    return n


def norm_dim(d):
    """normal form of a dimension"""
    if isinstance(d, SInt):
        t = z3.simplify(d.t)
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)
    if isinstance(d, SBool):
        return norm_dim(SInt(int_term(d)))
    if isinstance(d, (SReal, float, _np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return int(d)


def norm_shape(shape):
    if isinstance(shape, (SArr, _np.ndarray)):
        shape = [shape[i] for i in range(shape.shape[0])]
    if isinstance(shape, (int, _np.integer, SInt)):
        shape = (shape,)
    shape = tuple(norm_dim(d) for d in shape)
    for d in shape:
        if isinstance(d, SInt):
            if not ctx().known(d.t >= 0) and ctx().branch(d.t < 0):
                raise ValueError('negative dimensions are not allowed')
        elif d < 0:
            raise ValueError('negative dimensions are not allowed')
    return shape


def dim_eq(a, b):
    """python bool: are the dimensions equal (may fork)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if ring.same_int(a, b):
        return True
    return ctx().branch(int_term(a) == int_term(b))


def broadcast_shape(*shapes):
    nd = max((len(s) for s in shapes), default = 0)
    out = []
    for i in range(nd):
        dims = [s[len(s) - nd + i] for s in shapes if len(s) - nd + i >= 0]
        r = 1
        for d in dims:
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(r, int) and r == 1:
                r = d
                continue
            if dim_eq(r, d):
                if isinstance(d, int):
                    r = d
                continue
            if isinstance(r, SInt) and ctx().branch(r.t == 1):
                r = d
                continue
            if isinstance(d, SInt) and ctx().branch(d.t == 1):
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(r)
    return tuple(out)


# ----------------------------------------------------------------------------------------------------------------------
# buffers

class LazyBuf:
    """a functional array content: fn(index tuple) -> scalar"""

    def __init__(self, fn, dtype, label = None):
        self.fn = memo(fn)
        self.dtype = dtype
        c = ctx()
        c.buffers += 1
        self.serial = c.buffers
        c.registry[self.serial] = self
        self.label = label
        self.version = 0

    def get(self, idx):
        return self.fn(idx)

    def write(self, pred, val):
        """pred(base idx) -> (condition, value index); val(value index) -> scalar"""
        log_write(self)
        old = self.fn
        dt = self.dtype

        def fn(idx):
            c, vidx = pred(idx)
            if c is False or c is _np.False_:
                return old(idx)
            v = cast_scalar(val(vidx), dt)
            if c is True or c is _np.True_:
                return v
            return ite(c, v, old(idx))

        self.fn = memo(fn)
        self.version += 1


class DenseBuf:
    """adaptor: buffer interface to an object array"""

    def __init__(self, data, dtype, owner = None):
        self.data = data
        self.dtype = dtype
        self.owner = owner

    @property
    def fn(self):
        snap = self.data.copy()
        return lambda idx: dense_get(snap, idx)

    def get(self, idx):
        return dense_get(self.data, idx)

    def write(self, pred, val):
        if self.owner is not None:
            log_write(self.owner)
        new = {}
        for idx in _np.ndindex(*self.data.shape):
            c, vidx = pred(idx)
            if c is False or c is _np.False_:
                continue
            c = mk_bool(z3.simplify(bool_term(c)))
            if c is False:
                continue
            v = cast_scalar(val(vidx), self.dtype)
            new[idx] = v if c is True else ite(c, v, self.data[idx])
        for idx, v in new.items():
            self.data[idx] = v


def memo(fn):
    cache = {}

    def f(idx):
        k = tuple(i if isinstance(i, int) else (i.t.get_id() if isinstance(i, SInt) else int(i)) for i in idx)
        # note: term ids and python ints are kept apart by tagging
        k = tuple(('t', a) if isinstance(i, SInt) else a for a, i in zip(k, idx))
        if k in cache:
            return cache[k][0]
        r = fn(idx)
        cache[k] = (r, idx)
        return r

    return f


def log_write(buf):
    c = core.CTX
    if c is not None and c.write_log is not None:
        for w in c.write_log:
            w.on_write(buf)


def dense_get(data, idx):
    """element of object array with possibly symbolic indices"""
    for d, i in enumerate(idx):
        if isinstance(i, SInt):
            t = z3.simplify(i.t)
            if z3.is_int_value(t):
                return dense_get(data, idx[:d] + (t.as_long(),) + idx[d + 1:])
            n = data.shape[d]
            if n == 0:
                return 0
            r = None
            for v in range(n - 1, -1, -1):
                e = dense_get(data, idx[:d] + (v,) + idx[d + 1:])
                r = e if r is None else ite(SBool(i.t == v), e, r)
            return r
    for d, i in enumerate(idx):
        if not -data.shape[d] <= i < data.shape[d]:
            return 0  # out of range: only reached for elements which are not selected
    return data[tuple(int(i) for i in idx)]


# ----------------------------------------------------------------------------------------------------------------------
# index helpers

def check_index(i, n):
    """normalises an index into a dimension of extent n; raises IndexError on the path where it is out of range"""
    if isinstance(i, SBool):
        i = SInt(int_term(i))
    if isinstance(i, (SReal, float, _np.floating)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean '
                         'arrays are valid indices')
    if isinstance(i, SInt):
        t = z3.simplify(i.t)
        if z3.is_int_value(t):
            i = t.as_long()
    if not isinstance(i, SInt) and not isinstance(n, SInt):
        i = int(i)
        if not -n <= i < n:
            raise IndexError(f'index {i} is out of bounds for axis with size {n}')
        return i + n if i < 0 else i
    c = ctx()
    if c.bound and getattr(c.bound[-1], 'kind', 'q') == 'q':
        return i
    nt = int_term(n)
    it = int_term(i)
    if not isinstance(i, SInt) and i < 0:
        it = z3.simplify(it + nt)
        i = SInt(it)
    elif isinstance(i, SInt) and not c.known(it >= 0):
        if c.branch(it < 0):
            it = z3.simplify(it + nt)
            i = SInt(it)
    if not c.known(z3.And(it >= 0, it < nt)):
        if not c.branch(z3.And(it >= 0, it < nt)):
            raise IndexError('index is out of bounds for axis')
    return i


def clip_bound(x, n):
    """slice bound x clipped into 0..n"""
    if not isinstance(x, SInt) and not isinstance(n, SInt):
        x = int(x)
        if x < 0:
            x += n
        return builtins.max(0, builtins.min(x, n))
    c = ctx()
    nt = int_term(n)
    xt = z3.simplify(int_term(x))
    if c.known(z3.And(xt >= 0, xt <= nt)):
        return norm_dim(SInt(xt))
    if not c.known(xt >= 0) and c.branch(xt < 0):
        xt = z3.simplify(xt + nt)
        if not c.known(xt >= 0) and c.branch(xt < 0):
            return 0
    if not c.known(xt <= nt) and c.branch(xt > nt):
        return n
    return norm_dim(SInt(xt))


def slice_range(sl, n):
    """(start, step, length) of a slice over extent n"""
    step = 1 if sl.step is None else sl.step
    if isinstance(step, SInt):
        raise Unsupported('symbolic slice step')
    step = int(step)
    if step > 0:
        a = 0 if sl.start is None else clip_bound(sl.start, n)
        b = n if sl.stop is None else clip_bound(sl.stop, n)
        ln = b - a
        if isinstance(ln, SInt):
            ln = norm_dim(ln)
        if isinstance(ln, SInt):
            if not ctx().known(ln.t >= 0) and ctx().branch(ln.t < 0):
                ln = 0
        else:
            ln = builtins.max(0, ln)
        if step != 1:
            ln = norm_dim((ln + (step - 1)) // step)
        return a, step, ln
    if sl.start is None and sl.stop is None:
        if step == -1:
            return norm_dim(n - 1), -1, n
        return norm_dim(n - 1), step, norm_dim((n + (-step - 1)) // (-step))
    if not isinstance(n, SInt) and not isinstance(sl.start, SInt) and not isinstance(sl.stop, SInt):
        a, b, s = slice(sl.start, sl.stop, step).indices(n)
        return a, s, len(builtins.range(a, b, s))
    raise Unsupported('symbolic slice with negative step')


def is_index_array(k):
    return isinstance(k, (SArr, _np.ndarray, list)) or (isinstance(k, tuple))


def as_arr(x):
    """coerce to array proxy"""
    if isinstance(x, SArr):
        return x
    return array(x)


def expand_key(key, shape):
    """normalises an indexing key: tuple without Ellipsis, covering all dims; masks are counted by their ndim"""
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    out = []
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, (list, _np.ndarray)):
            k = as_arr(k)
        if isinstance(k, SArr) and k.dtype.kind == 'b':
            used += k.ndim
        else:
            used += 1
    if used > len(shape):
        raise IndexError(f'too many indices for array: array is {len(shape)}-dimensional, but {used} were indexed')
    seen = False
    for k in key:
        if k is Ellipsis:
            if not seen:
                out += [slice(None)] * (len(shape) - used)
                seen = True
            continue
        if isinstance(k, (list, _np.ndarray)) or (isinstance(k, tuple)):
            if isinstance(k, _np.ndarray) and k.ndim == 0:
                k = k.item()
            elif len(k) == 0 and not isinstance(k, SArr):
                k = array(_np.array([], dtype = int))
            else:
                k = as_arr(k)
        if isinstance(k, SArr) and k.ndim == 0:
            k = k.elem(())
        if hasattr(k, 'vc_int'):
            k = k.vc_int()
        out.append(k)
    if not seen:
        out += [slice(None)] * (len(shape) - used)
    return out


def quant_all(shape, fn):
    """SBool: for all indices in shape, fn(idx) is true"""
    cdims = [d for d, n in enumerate(shape) if not isinstance(n, SInt) and n <= 64]
    sdims = [d for d in range(len(shape)) if d not in cdims]
    if not sdims:
        return sand(*[fn(i) for i in _np.ndindex(*shape)]) if csize(shape) else True
    if csize([shape[d] for d in cdims]) == 0:
        return True
    c = ctx()
    vs = [z3.Int(c.fresh_name('q')) for _ in sdims]
    rng = z3.And(*[z3.And(v >= 0, v < int_term(shape[d])) for v, d in zip(vs, sdims)])
    c.bound.append([rng])
    try:
        parts = []
        for ci in _np.ndindex(*[shape[d] for d in cdims]):
            idx = [None] * len(shape)
            for d, v in zip(cdims, ci):
                idx[d] = int(v)
            for d, v in zip(sdims, vs):
                idx[d] = SInt(v)
            parts.append(bool_term(fn(tuple(idx))))
    finally:
        facts = c.bound.pop()[1:]
    if facts:
        c.fact(z3.ForAll(vs, z3.Implies(rng, z3.And(*facts))))
    body = z3.simplify(z3.And(*parts))
    if z3.is_true(body):
        return True
    return SBool(z3.ForAll(vs, z3.Implies(rng, body)))


def make(shape, dtype, fn, force_lazy = False):
    """new array with elements fn(idx)"""
    shape = tuple(shape)
    n = csize(shape)
    if n is not None and n <= DENSE_LIMIT and not force_lazy:
        data = _np.empty(shape, dtype = object)
        for idx in _np.ndindex(*shape):
            data[idx] = cast_scalar(fn(idx), dtype)
        return DArr(data, dtype)
    return LArr.from_fn(shape, dtype, lambda idx: cast_scalar(fn(idx), dtype))


# ----------------------------------------------------------------------------------------------------------------------

class SArr:
    """base class of array proxies"""
    __array_ufunc__ = None
    __array_priority__ = 2000
    __hash__ = None

    @property
    def dtype(self):
        return self._dtype

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d
        return norm_dim(n)

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        n = self.shape[0]
        if isinstance(n, SInt):
            raise Unsupported('native len() of an array with symbolic extent')
        return n

    def vc_len(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __iter__(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        if isinstance(self.shape[0], SInt):
            raise Unsupported('native iteration over an array with symbolic extent')
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        n = csize(self.shape)
        if n == 1:
            return bool(tag(self.elem((0,) * self.ndim)))
        if n == 0:
            return False
        if n is None and ctx().branch(int_term(self.size) == 1):
            return bool(tag(self.elem((0,) * self.ndim)))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __repr__(self):
        return f'{type(self).__name__}{self.shape}:{self.dtype}'

    def __format__(self, spec):
        return '<symbolic array>'

    def __array__(self, dtype = None, copy = None):
        r = self.to_real()
        return r if dtype is None else r.astype(dtype)

    def to_real(self):
        """real numpy array, if all elements are concrete"""
        if csize(self.shape) is None:
            raise Unsupported('native use of an array with symbolic shape')
        out = _np.empty(self.shape, dtype = self.dtype)
        for idx in _np.ndindex(*self.shape):
            e = self.elem(idx)
            if is_sym(e):
                raise Unsupported('native use of an array with symbolic elements')
            out[idx] = e
        return out

    def __float__(self):
        if csize(self.shape) == 1:
            return float(self.elem((0,) * self.ndim))
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __int__(self):
        if csize(self.shape) == 1:
            return int(self.elem((0,) * self.ndim))
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def vc_scalar(self):
        if csize(self.shape) == 1:
            return tag(self.elem((0,) * self.ndim))
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def item(self, *i):
        if not i:
            if csize(self.shape) != 1:
                raise ValueError('can only convert an array of size 1 to a Python scalar')
            return untag(self.elem((0,) * self.ndim))
        return untag(self[tuple(i)])

    def tolist(self):
        if self.ndim == 0:
            return untag(self.elem(()))
        if self.ndim == 1:
            return [untag(x) for x in self]
        return [x.tolist() for x in self]

    # ---- views and copies
    def copy(self, order = None):
        rd = self.reader()
        return make(self.shape, self.dtype, rd)

    __copy__ = copy

    def __deepcopy__(self, memo_):
        return self.copy()

    def astype(self, dtype, copy = True, **kw):
        dt = dtype_of(dtype)
        rd = self.reader()
        return make(self.shape, dt, lambda i: cast_scalar(rd(i), dt))

    def fill(self, v):
        self[...] = v

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return self.reshape((-1,))

    def flatten(self, order = 'C'):
        return self.reshape((-1,)).copy()

    def ravel(self, order = 'C'):
        return self.reshape((-1,))

    def squeeze(self, axis = None):
        keep = []
        for d, n in enumerate(self.shape):
            if axis is None:
                one = (n == 1) if not isinstance(n, SInt) else ctx().branch(n.t == 1)
            else:
                one = d == axis % self.ndim
            if not one:
                keep.append(d)
        return self[tuple(slice(None) if d in keep else 0 for d in range(self.ndim))]

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(p)

    # ---- operators
    def __neg__(self):
        return unary(lambda x: -x, self, self.dtype)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return unary(abs_scalar, self, self.dtype)

    def __invert__(self):
        return unary(lambda x: snot(x) if kind_of(x) == 'b' else -x - 1, self, self.dtype)

    def __round__(self, n = None):
        from vcpy import npshim
        return npshim.around(self)

    def sum(self, axis = None, dtype = None, out = None, keepdims = False):
        from vcpy import reduce_
        return reduce_.sum_(self, axis, keepdims)

    def any(self, axis = None, keepdims = False):
        from vcpy import reduce_
        return reduce_.any_(self, axis, keepdims)

    def all(self, axis = None, keepdims = False):
        from vcpy import reduce_
        return reduce_.all_(self, axis, keepdims)

    def min(self, axis = None, keepdims = False):
        from vcpy import reduce_
        return reduce_.minmax(self, axis, False, keepdims)

    def max(self, axis = None, keepdims = False):
        from vcpy import reduce_
        return reduce_.minmax(self, axis, True, keepdims)

    def mean(self, axis = None, keepdims = False):
        from vcpy import reduce_
        return reduce_.mean(self, axis, keepdims)

    def argmin(self, axis = None):
        from vcpy import reduce_
        return reduce_.argminmax(self, axis, False)

    def argmax(self, axis = None):
        from vcpy import reduce_
        return reduce_.argminmax(self, axis, True)

    def dot(self, o):
        from vcpy import npshim
        return npshim.dot(self, o)

    def cumsum(self, axis = None):
        from vcpy import reduce_
        return reduce_.cumsum(self, axis)

    def nonzero(self):
        from vcpy import npshim
        return npshim.nonzero(self)

    def repeat(self, n, axis = None):
        from vcpy import npshim
        return npshim.repeat(self, n, axis)

    def sort(self, axis = -1):
        from vcpy import npshim
        self[...] = npshim.sort(self, axis)

    def clip(self, lo, hi):
        from vcpy import npshim
        return npshim.clip(self, lo, hi)

    def _ibin(self, op, o):
        r = binary(op, self, o)
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._ibin('+', o)

    def __isub__(self, o):
        return self._ibin('-', o)

    def __imul__(self, o):
        return self._ibin('*', o)

    def __itruediv__(self, o):
        if dkind(self.dtype) == 'i':
            raise TypeError("Cannot cast ufunc 'divide' output from dtype('float64') to dtype('int64')")
        return self._ibin('/', o)

    def __ifloordiv__(self, o):
        return self._ibin('//', o)

    def __imod__(self, o):
        return self._ibin('%', o)

    def __iand__(self, o):
        return self._ibin('&', o)

    def __ior__(self, o):
        return self._ibin('|', o)


def _add_ops():

    def mk(op):

        def f(self, o):
            return binary(op, self, o)

        def r(self, o):
            return binary(op, o, self)

        return f, r

    for op, nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'), ('//', 'floordiv'), ('%', 'mod'),
                   ('**', 'pow'), ('&', 'and'), ('|', 'or'), ('^', 'xor')):
        f, r = mk(op)
        setattr(SArr, f'__{nm}__', f)
        setattr(SArr, f'__r{nm}__', r)
    for op, nm in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq'), ('!=', 'ne')):
        f, r = mk(op)
        setattr(SArr, f'__{nm}__', f)


def untag(x):
    if isinstance(x, _np.generic):
        return x.item()
    if isinstance(x, SInt) and x.npy:
        return SInt(x.t)
    if isinstance(x, SReal) and x.npy:
        return SReal(x.t, x.nan)
    return x


def abs_scalar(x):
    if isinstance(x, S):
        return abs(x)
    return builtins.abs(x)


def operand(x):
    """(shape, reader, array?) of an operand"""
    if isinstance(x, SArr):
        return x.shape, x.reader()
    if isinstance(x, _np.ndarray):
        a = array(x)
        return a.shape, a.reader()
    if isinstance(x, (list, tuple)):
        a = array(x)
        return a.shape, a.reader()
    return (), (lambda i: x)


def bcast_idx(idx, shape):
    """index into an operand of given shape, for result index idx"""
    k = len(idx) - len(shape)
    return tuple((0 if (not isinstance(n, SInt) and n == 1) else i) for i, n in zip(idx[k:], shape))


def bcast_reader(x, res_shape):
    shape, rd = operand(x)
    if not shape:
        return rd
    # dims which are symbolic but known to be one while the result dim is not the same need index zero
    k = len(res_shape) - len(shape)
    sh = []
    for n, m in zip(shape, res_shape[k:]):
        if isinstance(n, SInt) and not ring.same_int(n, m) and ctx().known(n.t == 1) and not ctx().known(
                int_term(m) == n.t):
            n = 1
        sh.append(n)
    return lambda idx: rd(bcast_idx(idx, sh))


def binary(op, a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    if not (num(a) or isinstance(a, (SArr, _np.ndarray, list, tuple))) or \
       not (num(b) or isinstance(b, (SArr, _np.ndarray, list, tuple))):
        return NotImplemented
    return elementwise2(lambda x, y: scalar_op(op, x, y), a, b,
                        DT('b') if op in ('<', '<=', '>', '>=', '==', '!=') else result_dtype(a, b, op))


def elementwise2(f, a, b, dtype):
    if isinstance(a, (list, tuple, _np.ndarray)):
        a = array(a)
    if isinstance(b, (list, tuple, _np.ndarray)):
        b = array(b)
    sa = a.shape if isinstance(a, SArr) else ()
    sb = b.shape if isinstance(b, SArr) else ()
    shape = broadcast_shape(sa, sb)
    ra, rb = bcast_reader(a, shape), bcast_reader(b, shape)
    return scalar_if_0d(make(shape, dtype, lambda i: f(tag(ra(i)), tag(rb(i)))))


def scalar_if_0d(a):
    if isinstance(a, SArr) and a.ndim == 0:
        return tag(a.elem(()))
    return a


def unary(f, a, dtype):
    rd = a.reader()
    return make(a.shape, dtype, lambda i: f(tag(rd(i))))


def scalar_op(op, x, y):
    if op in ('&', '|', '^'):
        if kind_of(x) == 'b' and kind_of(y) == 'b':
            if op == '&':
                return sand(x, y)
            if op == '|':
                return sor(x, y)
            return mk_bool(z3.simplify(z3.Xor(bool_term(x), bool_term(y))))
        if not is_sym(x) and not is_sym(y):
            return {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
        raise Unsupported('bitwise operation on symbolic ints')
    if op in ('<', '<=', '>', '>=', '==', '!='):
        if is_sym(x) or is_sym(y):
            if isinstance(x, SBool) or isinstance(y, SBool):
                if kind_of(x) == 'b' and kind_of(y) == 'b' and op in ('==', '!='):
                    e = mk_bool(z3.simplify(bool_term(x) == bool_term(y)))
                    return e if op == '==' else snot(e)
                x = SInt(int_term(x)) if isinstance(x, SBool) else x
                y = SInt(int_term(y)) if isinstance(y, SBool) else y
            return core.compare(op, x, y)
        return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                '==': lambda: x == y, '!=': lambda: x != y}[op]()
    if is_sym(x) or is_sym(y):
        if op == '+' and kind_of(x) == 'b' and kind_of(y) == 'b':
            return sor(x, y)
        if op == '*' and kind_of(x) == 'b' and kind_of(y) == 'b':
            return sand(x, y)
        return core.arith(op, x, y)
    with _np.errstate(all = 'ignore'):
        x = x if isinstance(x, _np.generic) else (_np.float64(x) if isinstance(x, float) else x)
        r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: _np.divide(x, y),
             '//': lambda: x // y, '%': lambda: x % y, '**': lambda: x**y}[op]()
    return r.item() if isinstance(r, _np.generic) else r


class DArr(SArr):
    """array of concrete shape"""

    def __init__(self, data, dtype, serial = None, owner = None):
        self.data = data
        self._dtype = dtype
        if owner is None:
            owner = self
            c = core.CTX
            if c is not None:
                c.buffers += 1
                self.serial = c.buffers
                c.registry[self.serial] = self
            else:
                self.serial = 0
        self.owner = owner

    @property
    def shape(self):
        return self.data.shape

    @shape.setter
    def shape(self, s):
        self.data = self.data.reshape(tuple(norm_shape(s)))

    def elem(self, idx):
        return dense_get(self.data, idx)

    def reader(self):
        snap = self.data.copy()
        return lambda idx: dense_get(snap, idx)

    def _view(self, data):
        return DArr(data, self._dtype, owner = self.owner)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        return self._view(self.data.transpose(*axes) if axes and axes[0] is not None else self.data.transpose())

    def reshape(self, *shape, order = 'C'):
        if len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, (int, _np.integer, SInt)):
            shape = (shape,)
        if any(isinstance(d, SInt) and norm_dim(d) is not None and isinstance(norm_dim(d), SInt) for d in shape):
            # symbolic target shape of a concrete array: sizes must agree; fork on values
            return LArr.from_arr(self).reshape(shape)
        shape = tuple(norm_dim(d) if isinstance(d, SInt) else int(d) for d in shape)
        return self._view(self.data.reshape(shape))

    def toL(self):
        return LArr(DenseBuf(self.data, self._dtype, self.owner), self.shape, lambda i: i, lambda b: (True, b))

    def __getitem__(self, key):
        if isinstance(key, (int, _np.integer)) and self.data.ndim == 1:
            return tag(self.data[key])
        if isinstance(key, tuple) and len(key) == self.data.ndim and all(type(k) is int for k in key):
            return tag(self.data[key])
        key = expand_key(key, self.shape)
        if any(isinstance(k, SArr) for k in key):
            return fancy_get(self, key)
        if all(simple_key(k) for k in key):
            r = self.data[tuple(native_key(k) for k in key)]
            if isinstance(r, _np.ndarray) and (r.ndim or any(isinstance(k, slice) or k is None for k in key)):
                return self._view(r)
            return tag(r)
        return self.toL()[tuple(key)]

    def __setitem__(self, key, value):
        if hasattr(value, 'vc_to_array'):
            value = value.vc_to_array(None)
        key = expand_key(unwrapped(key, value), self.shape)
        if any(isinstance(k, SArr) for k in key):
            return fancy_set(self, key, value)
        if all(simple_key(k) for k in key):
            nk = tuple(native_key(k) for k in key)
            log_write(self.owner)
            tgt = self.data[nk]
            if not isinstance(tgt, _np.ndarray) or (tgt.ndim == 0 and not any(isinstance(k, slice) for k in key)):
                if isinstance(value, (SArr, _np.ndarray)):
                    value = as_arr(value).vc_scalar()
                elif isinstance(value, (list, tuple)):
                    if self._dtype.kind == 'O':
                        self.data[nk] = value
                        return
                    raise ValueError('setting an array element with a sequence.')
                self.data[nk] = cast_scalar(value, self._dtype)
                return
            assign_dense(tgt, value, self._dtype)
            return
        self.toL()[tuple(key)] = value


def assign_dense(tgt, value, dtype):
    if isinstance(value, (list, tuple, _np.ndarray)):
        value = array(value)
    if isinstance(value, SArr):
        vs = value.shape
        while len(vs) > tgt.ndim and vs[0] == 1:
            value = value[0]
            vs = value.shape
        shape = broadcast_shape(tgt.shape, vs)
        if shape != tgt.shape:
            raise ValueError(f'could not broadcast input array from shape {vs} into shape {tgt.shape}')
        rd = bcast_reader(value, tgt.shape)
        for idx in _np.ndindex(*tgt.shape):
            tgt[idx] = cast_scalar(rd(idx), dtype)
    else:
        v = cast_scalar(value, dtype)
        for idx in _np.ndindex(*tgt.shape):
            tgt[idx] = v


def simple_key(k):
    if k is None:
        return True
    if isinstance(k, slice):
        return all(x is None or not isinstance(x, SInt) or z3.is_int_value(z3.simplify(x.t))
                   for x in (k.start, k.stop, k.step))
    if isinstance(k, SInt):
        return z3.is_int_value(z3.simplify(k.t))
    if isinstance(k, SBool):
        return False
    return True


def native_key(k):
    if isinstance(k, SInt):
        return z3.simplify(k.t).as_long()
    if isinstance(k, slice):
        return slice(*[native_key(x) if x is not None else None for x in (k.start, k.stop, k.step)])
    if isinstance(k, _np.bool_):
        return bool(k)
    if k is None or isinstance(k, int):
        return k
    if isinstance(k, _np.integer):
        return int(k)
    return k


class LArr(SArr):
    """array of possibly symbolic shape: view on a functional buffer"""

    def __init__(self, buf, shape, to_base, from_base):
        self.buf = buf
        self._shape = tuple(shape)
        self.to_base = to_base
        self.from_base = from_base
        self._dtype = buf.dtype

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self._shape, self.to_base, self.from_base = r._shape, r.to_base, r.from_base

    @property
    def owner(self):
        return self.buf.owner if isinstance(self.buf, DenseBuf) else self.buf

    @staticmethod
    def from_fn(shape, dtype, fn, label = None):
        return LArr(LazyBuf(fn, dtype, label), shape, lambda i: i, lambda b: (True, b))

    @staticmethod
    def from_arr(a):
        if isinstance(a, LArr):
            return a
        return a.toL()

    def elem(self, idx):
        return self.buf.get(self.to_base(tuple(idx)))

    def reader(self):
        fn, tb = self.buf.fn, self.to_base
        return lambda idx: fn(tb(tuple(idx)))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes[0] is None:
            axes = tuple(range(self.ndim))[::-1]
        axes = tuple(a % self.ndim for a in axes)
        inv = [axes.index(d) for d in range(self.ndim)]
        tb, fb = self.to_base, self.from_base

        def from_base(b):
            c, i = fb(b)
            return c, (tuple(i[a] for a in axes) if i is not None else None)

        return LArr(self.buf, tuple(self.shape[a] for a in axes), lambda idx: tb(tuple(idx[inv[d]] for d in range(len(inv)))),
                    from_base)

    def reshape(self, *shape, order = 'C'):
        if len(shape) == 1:
            shape = shape[0]
        if isinstance(shape, (int, _np.integer, SInt)):
            shape = (shape,)
        shape = [norm_dim(d) for d in shape]
        shape = resolve_reshape(self.shape, shape)
        groups = reshape_groups(self.shape, shape)
        tb, fb = self.to_base, self.from_base
        old = self.shape

        def fwd(idx):  # new index -> old index
            out = []
            for (os, ns) in groups:
                out += unflatten(flatten_idx([idx[d] for d in ns], [shape[d] for d in ns]), [old[d] for d in os],
                                 same = [idx[d] for d in ns] if len(os) == len(ns) == 1 else None)
            return tuple(out)

        def back(i):  # old index -> new index
            out = []
            for (os, ns) in groups:
                out += unflatten(flatten_idx([i[d] for d in os], [old[d] for d in os]), [shape[d] for d in ns],
                                 same = [i[d] for d in os] if len(os) == len(ns) == 1 else None)
            return tuple(out)

        def from_base(b):
            c, i = fb(b)
            return c, (back(i) if i is not None else None)

        return LArr(self.buf, tuple(shape), lambda idx: tb(fwd(idx)), from_base)

    def __getitem__(self, key):
        key = expand_key(key, self.shape)
        if any(isinstance(k, SArr) for k in key):
            return fancy_get(self, key)
        v = self._basic(key)
        if isinstance(v, LArr) and v.ndim == 0 and not any(isinstance(k, slice) or k is None for k in key):
            return tag(v.elem(()))
        return v

    def _basic(self, key):
        items = []
        newshape = []
        d = 0
        for k in key:
            if k is None:
                newshape.append(1)
                continue
            n = self.shape[d]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    items.append(('all', len(newshape)))
                    newshape.append(n)
                else:
                    a, s, ln = slice_range(k, n)
                    items.append(('sl', len(newshape), a, s, ln))
                    newshape.append(ln)
            else:
                items.append(('int', check_index(k, n)))
            d += 1
        tb, fb = self.to_base, self.from_base
        nshape = tuple(newshape)
        nnew = len(newshape)

        def to_base(idx):
            out = []
            for it in items:
                if it[0] == 'all':
                    out.append(idx[it[1]])
                elif it[0] == 'int':
                    out.append(it[1])
                else:
                    i = idx[it[1]]
                    out.append(add_idx(it[2], i if it[3] == 1 else i * it[3]))
            return tb(tuple(out))

        def from_base(b):
            c, i = fb(b)
            if c is False:
                return False, None
            conds = [c]
            out = [0] * nnew
            for it, x in zip(items, i):
                if it[0] == 'all':
                    out[it[1]] = x
                elif it[0] == 'int':
                    e = eq_idx(x, it[1])
                    if e is False:
                        return False, None
                    conds.append(e)
                else:
                    _, p, a, s, ln = it
                    off = add_idx(x, -a) if not (isinstance(a, int) and a == 0) else x
                    if s == -1:
                        off = -off
                    elif s != 1:
                        sgn = 1 if s > 0 else -1
                        o2 = off * sgn
                        conds.append(eq_idx(o2 % abs(s), 0))
                        off = o2 // abs(s)
                    lo, hi = ge_idx(off, 0), lt_idx(off, ln)
                    if lo is False or hi is False:
                        return False, None
                    conds += [lo, hi]
                    out[p] = off
            return sand(*conds), tuple(out)

        return LArr(self.buf, nshape, to_base, from_base)

    def __setitem__(self, key, value):
        if hasattr(value, 'vc_to_array'):
            value = value.vc_to_array(None)
        key = expand_key(unwrapped(key, value), self.shape)
        if any(isinstance(k, SArr) for k in key):
            return fancy_set(self, key, value)
        v = self._basic(key)
        v._assign(value)

    def _assign(self, value):
        if isinstance(value, (list, tuple, _np.ndarray)):
            value = array(value)
        if isinstance(value, SArr):
            while value.ndim > self.ndim and not isinstance(value.shape[0], SInt) and value.shape[0] == 1:
                value = value[0]
            shape = broadcast_shape(self.shape, value.shape)
            if len(shape) != self.ndim or not all(dim_eq(a, b) for a, b in zip(shape, self.shape)):
                raise ValueError('could not broadcast input array into shape')
            rd = bcast_reader(value, self.shape)
            self.buf.write(self.from_base, rd)
        else:
            v = cast_scalar(value, self._dtype)
            self.buf.write(self.from_base, lambda i: v)


def add_idx(a, b):
    r = a + b
    if isinstance(r, SInt):
        t = z3.simplify(r.t)
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)
    return r


def _fold(x):
    if isinstance(x, SBool):
        t = z3.simplify(x.t)
        return mk_bool(t)
    return bool(x)


def eq_idx(a, b):
    return _fold(a == b)


def ge_idx(a, b):
    return _fold(a >= b)


def lt_idx(a, b):
    return _fold(a < b)


def resolve_reshape(old, new):
    neg = [d for d, n in enumerate(new) if not isinstance(n, SInt) and n == -1]
    if not neg:
        # sizes must agree
        a, b = prod(old), prod(new)
        if not dim_eq(a, b):
            raise ValueError('cannot reshape array: size mismatch')
        return list(new)
    if len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    known = [n for d, n in enumerate(new) if d != neg[0]]
    # cancel common factors structurally
    rem = list(old)
    for k in list(known):
        for r in rem:
            if (isinstance(r, int) and isinstance(k, int) and r == k) or (not (isinstance(r, int) or isinstance(k, int)) and
                                                                          ring.same_int(r, k)):
                rem = [x for x in rem if x is not r] + [r] * (sum(x is r for x in rem) - 1)
                known = [x for x in known if x is not k] + [k] * (sum(x is k for x in known) - 1)
                break
    top, bot = prod(rem), prod(known)
    if isinstance(bot, int) and bot == 1:
        v = top
    elif isinstance(top, int) and isinstance(bot, int):
        if bot == 0 or top % bot:
            raise ValueError('cannot reshape array: size mismatch')
        v = top // bot
    else:
        if ctx().branch(int_term(top % bot) != 0):
            raise ValueError('cannot reshape array: size mismatch')
        v = norm_dim(top // bot)
    out = list(new)
    out[neg[0]] = v
    return out


def prod(dims):
    r = 1
    for d in dims:
        r = r * d
    return norm_dim(r)


def reshape_groups(old, new):
    """matching groups of dimensions ([old dims], [new dims]) with equal products"""
    groups = []
    i = j = 0
    no, nn = len(old), len(new)
    while i < no or j < nn:
        os, ns = [], []
        po, pn = 1, 1
        # take at least one from each where available
        if i < no:
            os.append(i)
            po = old[i]
            i += 1
        if j < nn:
            ns.append(j)
            pn = new[j]
            j += 1
        while not ring.same_int(po, pn):
            # extend the side which divides the other; symbolic: try both by remaining products
            if isinstance(po, int) and isinstance(pn, int):
                side = 'o' if po < pn else 'n'
            else:
                side = choose_side(old, i, new, j, po, pn)
            if side == 'o' and i < no:
                os.append(i)
                po = norm_dim(po * old[i])
                i += 1
            elif side == 'n' and j < nn:
                ns.append(j)
                pn = norm_dim(pn * new[j])
                j += 1
            elif i < no:
                os.append(i)
                po = norm_dim(po * old[i])
                i += 1
            elif j < nn:
                ns.append(j)
                pn = norm_dim(pn * new[j])
                j += 1
            else:
                break  # equal by path condition only: treat the rest as one group
        # attach trailing ones
        groups.append((os, ns))
    return groups


def choose_side(old, i, new, j, po, pn):
    # extending old by successive dims reaches pn ?
    p = po
    for k in range(i, len(old)):
        p = norm_dim(p * old[k])
        if ring.same_int(p, pn):
            return 'o'
    p = pn
    for k in range(j, len(new)):
        p = norm_dim(p * new[k])
        if ring.same_int(p, po):
            return 'n'
    return 'o' if i < len(old) else 'n'


RADIX = {}  # flattened index term -> [(index, extent), ...]; valid as elements are only read at indices within the shape


def flatten_idx(idx, dims):
    r = 0
    parts = []
    for i, n in zip(idx, dims):
        if isinstance(n, int) and n == 1:
            continue
        r = r * n + i
        parts.append((i, n))
    if isinstance(r, SInt):
        if len(parts) > 1:
            if len(RADIX) > 20000:
                RADIX.clear()
            for t in (r.t, z3.simplify(r.t)):
                RADIX[t.get_id()] = (t, parts)
    return r


def split_flat(f, n):
    """quotient and remainder of a non-negative flattened index by an extent"""
    if isinstance(n, int) and n == 1:
        return f, 0
    if isinstance(f, SInt):
        parts = RADIX.get(f.t.get_id())
        if parts is not None and parts[0].eq(f.t):
            parts = parts[1]
            p = 1
            for k in range(len(parts) - 1, 0, -1):
                p = norm_dim(p * parts[k][1])
                if ring.same_int(p, n):
                    return (flatten_idx([q[0] for q in parts[:k]], [q[1] for q in parts[:k]]),
                            flatten_idx([q[0] for q in parts[k:]], [q[1] for q in parts[k:]]))
    return f // n, f % n


def unflatten(f, dims, same = None):
    if same is not None:
        return list(same)
    out = []
    for n in reversed(dims[1:]):
        f, r = split_flat(f, n)
        out.append(r)
    if dims:
        out.append(f)
    out = out[::-1]
    return [norm_dim(x) for x in out]


# ----------------------------------------------------------------------------------------------------------------------
# fancy indexing

def fancy_plan(a, key):
    """splits the key of fancy indexing

    returns (items per dim of a, result shape, position of the broadcast block, broadcast shape)
    """
    if any(k is None for k in key):
        raise Unsupported('newaxis together with fancy indexing')
    arrs = [k for k in key if isinstance(k, SArr)]
    bshape = broadcast_shape(*[k.shape for k in arrs])
    adv = [p for p, k in enumerate(key) if not isinstance(k, slice)]
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    items = []
    shape = []
    if not contiguous:
        shape = list(bshape)
        pos = 0
    else:
        pos = None
    for d, k in enumerate(key):
        n = a.shape[d]
        if isinstance(k, SArr):
            if contiguous and pos is None:
                pos = len(shape)
                shape += list(bshape)
            items.append(('arr', k))
        elif isinstance(k, slice):
            st, sp, ln = slice_range(k, n)
            items.append(('sl', len(shape), st, sp))
            shape.append(ln)
        else:
            if contiguous and pos is None:
                pos = len(shape)
                shape += list(bshape)
            items.append(('int', check_index(k, n)))
    return items, tuple(shape), pos, bshape


def norm_index_array(k, n):
    """reader of an index array with negative values wrapped, after a bounds check"""
    rd = k.reader()
    ok = quant_all(k.shape, lambda i: sand(rd(i) >= 0, rd(i) < n))
    if ok is True or (isinstance(ok, SBool) and (ctx().known(ok.t))):
        return rd
    inb = quant_all(k.shape, lambda i: sand(rd(i) >= -n, rd(i) < n))
    if not inb:
        raise IndexError('index out of bounds')
    return lambda i: ite(rd(i) < 0, rd(i) + n, rd(i))


def mask_to_ints(a, key):
    """replaces boolean masks in key by integer index arrays"""
    out = []
    for k in key:
        if isinstance(k, SArr) and k.dtype.kind == 'b':
            d = len(out)
            if not all(dim_eq(x, y) for x, y in zip(k.shape, a.shape[d:d + k.ndim])):
                raise IndexError('boolean index did not match indexed array')
            from vcpy import npshim
            out += list(npshim.nonzero(k))
        else:
            out.append(k)
    return out


def fancy_get(a, key):
    key = mask_to_ints(a, key)
    items, shape, pos, bshape = fancy_plan(a, key)
    rd = a.reader()
    nb = len(bshape)
    its = []
    for d, it in enumerate(items):
        if it[0] == 'arr':
            r = norm_index_array(it[1], a.shape[d])
            sh = it[1].shape
            its.append(('arr', r, sh))
        else:
            its.append(it)

    def fn(idx):
        b = idx[pos:pos + nb]
        out = []
        for it in its:
            if it[0] == 'arr':
                out.append(it[1](bcast_idx(b, it[2])))
            elif it[0] == 'sl':
                i = idx[it[1]]
                out.append(add_idx(it[2], i if it[3] == 1 else i * it[3]))
            else:
                out.append(it[1])
        return rd(tuple(fix_idx(x) for x in out))

    return make(shape, a.dtype, fn)


def fix_idx(x):
    if isinstance(x, SInt):
        t = z3.simplify(x.t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)
    return int(x)


def unwrapped(key, value):
    """key with the one element tuple returned by np.where for a vector replaced by its element, for a scalar value"""
    if not isinstance(key, tuple) or not num(value):
        return key
    if sum(1 for k in key if isinstance(k, (tuple, list, SArr, _np.ndarray))) != 1:
        return key
    return tuple(k[0] if isinstance(k, tuple) and len(k) == 1 and getattr(k[0], 'mask_of', None) is not None else k
                 for k in key)


def whole_masks(key):
    """index arrays which are together the positions of the true elements of a mask, replaced by the mask"""
    out = []
    p = 0
    while p < len(key):
        k = key[p]
        m = getattr(k, 'mask_of', None) if isinstance(k, LArr) else None
        if m is not None:
            run = key[p:p + m[2]]
            if m[1] == 0 and len(run) == m[2] and all(x is y and x.buf.version == m[4] for x, y in zip(run, m[0])):
                out.append(m[3])
                p += m[2]
                continue
        out.append(k)
        p += 1
    return out


def fancy_set(a, key, value):
    key = whole_masks(list(key))
    masks = [k for k in key if isinstance(k, SArr) and k.dtype.kind == 'b']
    if len(masks) == 1 and sum(1 for k in key if isinstance(k, SArr)) == 1 and \
            (num(value) or (isinstance(value, (SArr, _np.ndarray)) and as_arr(value).ndim == 0) or
             (isinstance(value, (SArr, _np.ndarray, list, tuple)) and
              mask_value_broadcasts(a, key, as_arr(value)))):
        return mask_assign(a, key, masks[0], value)
    key = mask_to_ints(a, key)
    items, shape, pos, bshape = fancy_plan(a, key)
    if isinstance(value, (list, tuple, _np.ndarray)):
        value = array(value)
    if isinstance(value, SArr):
        sh = broadcast_shape(shape, value.shape)
        if len(sh) != len(shape):
            raise ValueError('shape mismatch: value array could not be broadcast to indexing result')
        rv = bcast_reader(value, shape)
    else:
        rv = lambda i: value
    nb = len(bshape)
    if csize(bshape) is None:
        return fancy_set_symbolic(a, items, shape, pos, bshape, rv)
    rds = [norm_index_array(it[1], a.shape[d]) if it[0] == 'arr' else None for d, it in enumerate(items)]
    for b in _np.ndindex(*bshape):
        k = []
        sl_dims = []
        for d, it in enumerate(items):
            if it[0] == 'arr':
                k.append(fix_idx(rds[d](bcast_idx(b, it[1].shape))))
            elif it[0] == 'int':
                k.append(it[1])
            else:
                k.append(key[d])
                sl_dims.append((d, it))
        if not sl_dims:
            a[tuple(k)] = rv(b)
        else:
            rest = tuple(shape[it[1]] for d, it in sl_dims)

            def vfn(i, b = b, sl_dims = sl_dims):
                full = [None] * len(shape)
                full[pos:pos + nb] = list(b)
                for (d, it), x in zip(sl_dims, i):
                    full[it[1]] = x
                return rv(tuple(full))

            a[tuple(k)] = make(rest, a.dtype, vfn)


def fancy_set_symbolic(a, items, shape, pos, bshape, rv):
    """scatter with index arrays of symbolic size: only injective affine or 1-D index arrays with a choice function

    element x of a is overwritten iff some position p has index[p] == x; with duplicates the last one wins
    """
    big = [k for k, n in enumerate(bshape) if not (isinstance(n, int) and n == 1)]
    if len(big) > 1:
        raise Unsupported('scatter assignment with symbolic extents')
    big = big[0] if big else 0
    nb = len(bshape)

    def block(f):
        return tuple(f if k == big else 0 for k in range(nb))

    L = LArr.from_arr(a)
    ds = [k for k, it in enumerate(items) if it[0] == 'arr']
    rds = []
    for d in ds:
        r = norm_index_array(items[d][1], a.shape[d])
        sh = items[d][1].shape
        rds.append(lambda f, r = r, sh = sh: r(bcast_idx(block(f), sh)))
    n = bshape[big]
    c = ctx()
    if c.bound:
        raise Unsupported('scatter assignment inside quantifier')
    nm = c.fresh_name('scatter')
    F = z3.Function(nm, *([z3.IntSort()] * (len(ds) + 1)))  # last position writing the element, or -1

    # F(x) in -1..n-1; F(x) >= 0 -> index[F(x)] == x ; for all p: F(index[p]) >= p
    xs = [z3.Int(c.fresh_name('x')) for _ in ds]
    fx = F(*xs)
    c.bound.append([])
    es = [int_term(r(SInt(fx))) for r in rds]
    f1 = z3.And(fx >= -1, fx < int_term(n), z3.Implies(fx >= 0, z3.And(*[e == x for e, x in zip(es, xs)])))
    facts = c.bound.pop()
    c.fact(z3.ForAll(xs, z3.And(f1, *[z3.Implies(fx >= 0, f) for f in facts]), patterns = [fx]))
    p = z3.Int(c.fresh_name('p'))
    c.bound.append([])
    ep = [int_term(r(SInt(p))) for r in rds]
    facts = c.bound.pop()
    c.fact(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < int_term(n)), z3.And(F(*ep) >= p, *facts))))
    fb = L.from_base

    def at(i):
        return F(*[int_term(i[d]) for d in ds])

    def pred(b):
        cnd, i = fb(b)
        if cnd is False:
            return False, None
        cs = [cnd, SBool(at(i) >= 0)]
        for k, it in enumerate(items):
            if it[0] == 'int':
                cs.append(SInt(int_term(i[k])) == it[1])
        return sand(*cs), i

    def val(i):
        # result shape order: block position pos
        out = [None] * len(shape)
        out[pos:pos + nb] = list(block(SInt(at(i))))
        for k, it in enumerate(items):
            if it[0] == 'sl':
                if not (isinstance(it[2], int) and it[2] == 0 and it[3] == 1):
                    raise Unsupported('scatter assignment with partial slices')
                out[it[1]] = i[k]
        return rv(tuple(out))

    L.buf.write(pred, val)


def mask_value_broadcasts(a, key, v):
    """value which applies to the dims following the mask (same for each selected element)"""
    if v.ndim == 0:
        return True
    p = [i for i, k in enumerate(key) if isinstance(k, SArr)][0]
    m = key[p]
    rest = key[p + 1:]
    if p != 0 or not all(isinstance(k, slice) and k == slice(None) for k in rest):
        return False
    return v.ndim <= len(rest)


def mask_assign(a, key, mask, value):
    p = [i for i, k in enumerate(key) if k is mask][0]
    # view with the non mask part of the key applied
    pre = tuple(key[:p])
    view = a[pre + (slice(None),) * mask.ndim + tuple(key[p + 1:])] if any(
        not (isinstance(k, slice) and k == slice(None)) for k in list(pre) + key[p + 1:]) else a[...]
    # number of leading dims kept by pre
    lead = sum(1 for k in pre if isinstance(k, slice))
    if not all(dim_eq(x, y) for x, y in zip(mask.shape, view.shape[lead:lead + mask.ndim])):
        raise IndexError('boolean index did not match indexed array')
    rm = mask.reader()
    rd = view.reader()
    if isinstance(value, (list, tuple, _np.ndarray)):
        value = array(value)
    if isinstance(value, SArr) and value.ndim:
        k = view.ndim - value.ndim
        rvv = bcast_reader(value, view.shape[k:])
        rv = lambda i: rvv(i[k:])
    else:
        v = cast_scalar(value.elem(()) if isinstance(value, SArr) else value, a.dtype)
        rv = lambda i: v
    L = LArr.from_arr(view)
    fb = L.from_base

    def pred(b):
        c, i = fb(b)
        if c is False:
            return False, None
        m = rm(tuple(i[lead:lead + mask.ndim]))
        return sand(c, m), i

    L.buf.write(pred, rv)


# ----------------------------------------------------------------------------------------------------------------------
# construction

def array(x, dtype = None, copy = True):
    """np.array"""
    if isinstance(x, SArr):
        if dtype is not None:
            return x.astype(dtype)
        return x.copy()
    if isinstance(x, _np.ndarray):
        dt = x.dtype if dtype is None else dtype_of(dtype)
        if dt.kind in 'US':
            return x if dtype is None else x.astype(dt)
        data = _np.empty(x.shape, dtype = object)
        for idx in _np.ndindex(*x.shape):
            v = x[idx]
            data[idx] = cast_scalar(v.item() if isinstance(v, _np.generic) else v, dt)
        return DArr(data, dt)
    if hasattr(x, 'vc_to_array'):
        return x.vc_to_array(dtype)
    if isinstance(x, (list, tuple)):
        elems = [array_part(y) for y in x]
        if not elems:
            return DArr(_np.empty((0,), dtype = object), dtype_of(dtype))
        if all(not isinstance(e, SArr) for e in elems):
            if any(isinstance(e, str) for e in elems) or any(kind_of(e) == 'o' for e in elems):
                if dtype is None and not any(is_sym(e) for e in elems):
                    return _np.array(x)
                dt = dtype_of(dtype) if dtype is not None else DT('o')
            else:
                ks = [kind_of(e) for e in elems]
                k = 'f' if 'f' in ks else 'i' if 'i' in ks else 'b'
                dt = dtype_of(dtype) if dtype is not None else DT(k)
            data = _np.empty((len(elems),), dtype = object)
            for i, e in enumerate(elems):
                data[i] = cast_scalar(e, dt)
            return DArr(data, dt)
        if not all(isinstance(e, SArr) for e in elems):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        from vcpy import npshim
        sh = elems[0].shape
        for e in elems[1:]:
            if len(e.shape) != len(sh) or not all(dim_eq(p, q) for p, q in zip(e.shape, sh)):
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous '
                                 'shape after 1 dimensions.')
        r = npshim.stack(elems)
        return r if dtype is None else r.astype(dtype)
    # scalar
    dt = dtype_of(dtype) if dtype is not None else DT(kind_of(x))
    data = _np.empty((), dtype = object)
    data[()] = cast_scalar(x, dt)
    return DArr(data, dt)


def array_part(y):
    if isinstance(y, (list, tuple)):
        r = array(y)
        return array_obj(r)
    if isinstance(y, _np.ndarray):
        return array(y)
    if isinstance(y, SArr) and y.ndim == 0:
        return y.elem(())
    return y


def array_obj(r):
    return r


def full(shape, value, dtype):
    shape = norm_shape(shape)
    return make(shape, dtype, lambda i: value)


_add_ops()
