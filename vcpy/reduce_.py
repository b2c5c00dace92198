"""vcpy.reduce_: reductions over array proxies."""

import z3
import numpy as _np

from vcpy import core, ring
from vcpy import arrays as A
from vcpy.core import (S, SInt, SReal, SBool, Unsupported, ctx, ite, sand, sor, snot, is_sym, kind_of, mk_bool, mk_int,
                       mk_real, int_term, real_term, bool_term, nan_of, or_nan)


def norm_axes(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(sorted(x % a.ndim for x in axis))
    if not -a.ndim <= axis < a.ndim:
        raise _np.AxisError(axis, a.ndim)
    return (axis % a.ndim,)


def reduce_general(a, axis, keepdims, dtype, fold):
    """fold(shape of reduced dims, reader of the reduced dims) -> scalar"""
    axes = norm_axes(a, axis)
    rest = [d for d in range(a.ndim) if d not in axes]
    rd = a.reader()
    rshape = tuple(a.shape[d] for d in axes)

    def fn(idx):
        full = [None] * a.ndim
        for d, i in zip(rest, idx):
            full[d] = i

        def inner(r):
            f = list(full)
            for d, i in zip(axes, r):
                f[d] = i
            return A.tag(rd(tuple(f)))

        return fold(rshape, inner)

    shape = tuple(a.shape[d] for d in rest)
    if not rest:
        r = A.tag(A.cast_scalar(fn(()), dtype))
        if keepdims:
            return A.make((1,) * a.ndim, dtype, lambda i: r)
        return r
    r = A.make(shape, dtype, fn)
    if keepdims:
        r = r[tuple(None if d in axes else slice(None) for d in range(a.ndim))]
    return r


def explicit(shape):
    n = A.csize(shape)
    return n is not None and n <= A.DENSE_LIMIT


def sum_scalar(shape, rd, zero):
    if explicit(shape):
        r = zero
        for i in _np.ndindex(*shape):
            r = r + rd(i)
        return r
    # reduce one symbolic dim at a time: outermost last
    if len(shape) > 1:
        return sum_scalar(shape[:1], lambda i: sum_scalar(shape[1:], lambda j: rd(i + j), zero), zero)
    return psum(lambda k: rd((k,)), shape[0])


def psum(fn, n):
    """sum of fn(k) for 0 <= k < n, n symbolic"""
    f = psum_function(fn)
    if not has_index(f.body):
        m = ite(n > 0, n, 0)
        return (mk_int(f.body) if f.is_int else mk_real(f.body)) * m
    return f(n)


def has_index(t, seen = None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if t.eq(PSX):
        return True
    return any(has_index(ch, seen) for ch in t.children())


class PSum:
    """prefix sum function of a summand: F(t) is the sum of the summand at 0 <= k < t

    facts about F are instances of its recursive definition, and of lemmas which hold by induction on the number of
    terms (given the sign of the summand, or bounds on it, over the range summed)
    """

    def __init__(self, name, x, body, is_int, facts):
        self.F = z3.Function(name, z3.IntSort(), z3.IntSort() if is_int else z3.RealSort())
        self.x, self.body, self.is_int = x, body, is_int
        self.facts = facts  # valid statements about the summand
        self.zero = z3.IntVal(0) if is_int else z3.RealVal(0)
        self.terms = []  # (term, sign of the summand below term)
        self.bounds = []  # (extent, m, is_max): summand <= m or >= m for indices below extent

    def at(self, k):
        """summand at k"""
        t = z3.simplify(z3.substitute(self.body, (self.x, int_term(k))))
        return mk_int(t) if self.is_int else mk_real(t)

    def __call__(self, n):
        c = ctx()
        t = z3.simplify(int_term(n))
        if z3.is_int_value(t) and t.as_long() <= 0:
            return 0 if self.is_int else 0.0
        v = self.F(t)
        if not c.bound:
            self.unfold(t)
        return mk_int(v) if self.is_int else mk_real(v)

    def once(self, *key):
        c = ctx()
        key = ('psum', self.F.name()) + key
        if key in c.facts_done:
            return False
        c.facts_done.add(key)
        return True

    def keep(self, *ts):
        """keeps terms alive, so that their ids stay unique"""
        ctx().keep.extend(ts)
        return True

    def element(self, k):
        """statements about the summand at k"""
        if self.keep(k) and self.once('el', k.get_id()):
            for f in self.facts:
                ctx().fact(z3.Implies(k >= 0, z3.substitute(f, (self.x, k))))

    def unfold(self, t):
        self.keep(t)
        if not self.once('def', t.get_id()):
            for k, (t2, s2) in enumerate(self.terms):
                if not s2 and t2.eq(t):
                    # more may be known by now
                    s = self.sign(t)
                    if s:
                        self.terms[k] = (t, s)
                        for x in [z3.IntVal(0)] + [t3 for t3, s3 in self.terms if not t3.eq(t)]:
                            self.relate(x, t, s)
            return
        c = ctx()
        if self.once('zero'):
            c.fact(self.F(z3.IntVal(0)) == self.zero)
            for k in range(3):
                self.element(z3.IntVal(k))
                c.fact(self.F(z3.IntVal(k + 1)) ==
                       self.F(z3.IntVal(k)) + z3.substitute(self.body, (self.x, z3.IntVal(k))))
        prev = z3.simplify(t - 1)
        self.element(prev)
        c.fact(z3.And(
            z3.Implies(t <= 0, self.F(t) == self.zero),
            z3.Implies(t > 0, self.F(t) == self.F(prev) + z3.substitute(self.body, (self.x, prev))),
            z3.Implies(prev <= 0, self.F(prev) == self.zero)))
        s = self.sign(t)
        for t2, s2 in list(self.terms):
            self.relate(t2, t, s)
            self.relate(t, t2, s2)
        self.terms.append((t, s))
        self.relate(z3.IntVal(0), t, s)
        self.relate(prev, t, s)
        for b in self.bounds:
            self.bounded(t, b)

    def sign(self, t):
        """checks (by the solver) whether the summand is positive / non negative for every index below t"""
        c = ctx()
        c.bound.append([self.x >= 0, self.x < t] + self.facts)
        try:
            if c.known(self.body > 0):
                return 'pos'
            if c.known(self.body >= 0):
                return 'nonneg'
        finally:
            c.bound.pop()
        return ''

    def relate(self, x, y, s):
        """monotonicity of prefix sums (lemma by induction on the difference, from the sign s of the summand below y)"""
        self.keep(x, y)
        if not s or not self.once('rel', x.get_id(), y.get_id()):
            return
        c = ctx()
        if s == 'pos' and self.is_int:
            c.fact(z3.Implies(z3.And(x >= 0, x <= y), self.F(y) - self.F(x) >= y - x))
        else:
            c.fact(z3.Implies(z3.And(x >= 0, x <= y), self.F(y) >= self.F(x)))
            if s == 'pos':
                c.fact(z3.Implies(z3.And(x >= 0, x < y), self.F(y) > self.F(x)))

    def bound_by(self, n, m, is_max):
        b = (int_term(n), m.t if isinstance(m, S) else int_term(m) if self.is_int else real_term(m), is_max)
        self.bounds.append(b)
        for t, s in self.terms:
            self.bounded(t, b)
    def divided(self, a, b, q, r):
        """all the terms being equal, the sum is a multiple of the extent"""
        for k, (n, m, x) in enumerate(self.bounds):
            for n2, m2, x2 in self.bounds[:k]:
                if x2 != x and n2.eq(n) and n.eq(b) and self.is_int:
                    ctx().fact(z3.Implies(z3.And(m2 == m, a == self.F(z3.simplify(n))), z3.And(q == m, r == 0)))

    def bounded(self, t, b):
        """k * min <= sum of k terms <= k * max (lemma by induction on k)"""
        n, m, is_max = b
        self.keep(t, n, m)
        if self.once('bound', t.get_id(), n.get_id(), m.get_id(), is_max):
            f = self.F(t)
            k = t if self.is_int else z3.ToReal(t)
            ctx().fact(z3.Implies(z3.And(t >= 0, t <= n), f <= k * m if is_max else f >= k * m))


PSX = z3.Int('psum_index')


def psum_function(fn):
    c = ctx()
    c.bound.append([PSX >= 0])
    try:
        e = fn(SInt(PSX))
        if isinstance(e, SReal) and e.nan is not None:
            raise Unsupported('sum of possible NaN over symbolic extent')
        is_int = kind_of(e) in 'ib'
        t = int_term(e) if is_int else real_term(e)
    finally:
        facts = c.bound.pop()[1:]
    t = z3.simplify(t, som = True)
    key = (is_int, t.sexpr())
    if key in c.psums:
        return c.psums[key]
    for p in c.psums.values():
        if p.is_int == is_int and ring.equal(p.body, t, None) == []:
            c.psums[key] = p
            return p
    p = PSum(f'psum!{len(c.psums)}', PSX, t, is_int, facts)
    c.psums[key] = p
    return p


def sum_(a, axis = None, keepdims = False):
    k = A.dkind(a.dtype)
    dt = A.DT('f') if k == 'f' else A.DT('i') if k in 'ib' else A.DT('o')
    return reduce_general(a, axis, keepdims, dt, lambda sh, rd: sum_scalar(sh, rd, 0.0 if k == 'f' else 0))


def nansum(a, axis = None, keepdims = False):
    k = A.dkind(a.dtype)
    dt = A.DT('f') if k == 'f' else A.DT('i')
    f = lambda x: ite(core.isnan(x), 0.0, _strip(x)) if k == 'f' else x
    return reduce_general(a, axis, keepdims, dt, lambda sh, rd: sum_scalar(sh, lambda i: f(rd(i)), 0.0 if k == 'f' else 0))


def _strip(x):
    return SReal(x.t, None, x.npy) if isinstance(x, SReal) else x


def mean(a, axis = None, keepdims = False):
    axes = norm_axes(a, axis)
    n = A.prod([a.shape[d] for d in axes])
    s = sum_(a, axis, keepdims)
    return s / (core.to_real(n, True) if is_sym(n) else _np.float64(n))


def truth(x):
    if isinstance(x, S):
        return mk_bool(bool_term(x))
    if isinstance(x, SBool):
        return x
    return bool(x)


def all_(a, axis = None, keepdims = False):

    def fold(sh, rd):
        if explicit(sh):
            return sand(*[truth(rd(i)) for i in _np.ndindex(*sh)])
        return A.quant_all(sh, lambda i: truth(rd(i)))

    return reduce_general(a, axis, keepdims, A.DT('b'), fold)


def any_(a, axis = None, keepdims = False):

    def fold(sh, rd):
        if explicit(sh):
            return sor(*[truth(rd(i)) for i in _np.ndindex(*sh)])
        return snot(A.quant_all(sh, lambda i: snot(truth(rd(i)))))

    return reduce_general(a, axis, keepdims, A.DT('b'), fold)


def minmax(a, axis = None, is_max = False, keepdims = False, skipnan = False):

    def better(x, y):
        return (x > y) if is_max else (x < y)

    def fold(sh, rd):
        n = A.csize(sh)
        if n is None and ctx().branch(int_term(A.prod(sh)) <= 0) or n == 0:
            raise ValueError('zero-size array to reduction operation which has no identity')
        if explicit(sh):
            r = None
            nan = []
            for i in _np.ndindex(*sh):
                x = rd(i)
                if skipnan:
                    if r is None:
                        r = x
                    else:
                        xn, rn = core.isnan(x), core.isnan(r)
                        r = ite(sand(snot(xn), sor(rn, better(x, r))), x, r)
                    continue
                nn = nan_of(x)
                if nn is not None:
                    nan.append(nn)
                    x = _strip(x) if is_sym(x) else 0.0
                r = x if r is None else ite(better(x, r), x, r)
            if nan:
                r = mk_real(real_term(r), or_nan(*nan), True)
            return r
        return minmax_symbolic(sh, rd, is_max, skipnan)

    return reduce_general(a, axis, keepdims, a.dtype, fold)


def minmax_symbolic(sh, rd, is_max, skipnan = False):
    c = ctx()
    if c.bound:
        raise Unsupported('min/max over symbolic extent inside quantifier')
    ws = tuple(c.fresh_int('w') if isinstance(n, SInt) else c.fresh_int('w') for n in sh)
    for w, n in zip(ws, sh):
        c.fact(z3.And(w.t >= 0, w.t < int_term(n)))
    m = rd(ws)
    if isinstance(m, SReal) and m.nan is not None:
        # either every element considered is a number, or some (all, when NaN is skipped) are NaN
        missing = A.quant_all(sh, lambda i: core.isnan(rd(i)) if skipnan else snot(core.isnan(rd(i))))
        if c.branch(bool_term(missing)) == skipnan:
            return m if skipnan else mk_real(real_term(0.0), z3.BoolVal(True), True)
        v = mk_real(m.t, None, True)
        c.fact(z3.Not(m.nan))
        c.fact(bool_term(A.quant_all(sh, lambda i: sor(core.isnan(rd(i)), (rd(i) <= v) if is_max else (rd(i) >= v)))))
        return v
    al = A.quant_all(sh, lambda i: (rd(i) <= m) if is_max else (rd(i) >= m))
    c.fact(bool_term(al))
    if len(sh) == 1 and kind_of(m) in 'if':
        try:
            t = psum_function(lambda k: rd((k,)))
        except Unsupported:
            return m
        if has_index(t.body):
            t(sh[0])
            t.bound_by(sh[0], m, is_max)
    return m


def argminmax(a, axis, is_max):

    def fold(sh, rd):
        if not explicit(sh):
            if len(sh) != 1:
                raise Unsupported('argmin/argmax over several symbolic extents')
            c = ctx()
            if c.branch(int_term(sh[0]) <= 0):
                raise ValueError('attempt to get argmin of an empty sequence')
            w = c.fresh_int('arg', True)
            c.fact(z3.And(w.t >= 0, w.t < int_term(sh[0])))
            m = rd((w,))
            c.fact(bool_term(A.quant_all(sh, lambda i: (rd(i) <= m) if is_max else (rd(i) >= m))))
            c.fact(bool_term(A.quant_all(sh, lambda i: sor(i[0] >= w, (rd(i) < m) if is_max else (rd(i) > m)))))
            return w
        if A.csize(sh) == 0:
            raise ValueError('attempt to get argmin of an empty sequence')
        r = k = None
        for p, i in enumerate(_np.ndindex(*sh)):
            x = rd(i)
            if isinstance(x, SReal) and x.nan is not None:
                raise Unsupported('argmin/argmax of possible NaN')
            if r is None:
                r, k = x, p
            else:
                b = (x > r) if is_max else (x < r)
                r, k = ite(b, x, r), ite(b, p, k)
        return k

    return reduce_general(a, axis, False, A.DT('i'), fold)


def cumsum(a, axis = None):
    if axis is None:
        a = a.reshape((-1,))
        axis = 0
    axis %= a.ndim
    k = A.dkind(a.dtype)
    dt = A.DT('f') if k == 'f' else A.DT('i')
    rd = a.reader()
    n = a.shape[axis]
    if not isinstance(n, SInt):
        out = {}

        def fn(idx):
            r = 0.0 if k == 'f' else 0
            for j in range(int(idx[axis]) + 1):
                r = r + A.tag(rd(idx[:axis] + (j,) + idx[axis + 1:]))
            return r

        if not all(isinstance(d, int) for d in a.shape):
            raise Unsupported('cumsum of array with a symbolic extent in another axis')
        return A.make(a.shape, dt, fn)
    if a.ndim != 1:
        raise Unsupported('cumsum over symbolic extent of array which is not 1D')
    p = psum_function(lambda j: rd((j,)))
    return A.make(a.shape, dt, lambda idx: p(idx[0] + 1))
