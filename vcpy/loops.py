"""vcpy.loops: the invariant rule for loops over symbolic ranges.

An invariant is registered for a function (module, qualified name).  When execution reaches a loop whose iteration is
symbolic, the first registered invariant which applies to the local variables is used: it is checked on entry, assumed
for an arbitrary iteration after everything the body modifies has been made arbitrary, and checked again after the
body; code after the loop runs from an arbitrary state satisfying the invariant with the iteration exhausted.
Without an applicable invariant the loop is unrolled up to a bound (and the harness counts as bounded).
"""

import builtins
import weakref
import z3
import numpy as _np

from vcpy import core, arrays
from vcpy.arrays import SArr, DArr, LArr, LazyBuf
from vcpy.core import (S, SInt, SReal, SBool, Unsupported, sand, sor, snot, is_sym, kind_of, num, int_term, bool_term,
                       ite, PathDone)

from vcpy.registry import INVARIANTS, invariant, has_invariants


class Undefined:
    """value of a local variable which need not be bound"""

    def _no(self, *a, **k):
        raise Unsupported('use of a variable which is only assigned within a loop')

    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('vc_') or n.startswith('_vc'):
            raise AttributeError(n)
        self._no()

    __bool__ = __len__ = __iter__ = __getitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = __index__ = _no


class View:
    """local variables as seen by an invariant"""

    def __init__(self, loc, **kw):
        self.__dict__.update({k: v for k, v in loc.items() if not k.startswith('_vc_')})
        self.__dict__['loc'] = loc
        for k, v in kw.items():
            self.__dict__['_' + k] = v


class SList:
    """list with symbolic length: append only"""

    def __init__(self, n, fn, kind):
        self.n, self.fn, self.kind = n, fn, kind

    def vc_len(self):
        return self.n

    def append(self, x):
        old, n = self.fn, self.n

        def fn(i):
            if not isinstance(i, SInt) and not isinstance(n, SInt):
                return x if i == n else old(i)
            c = (i == n)
            return x if c is True else old(i) if c is False else ite(c, x, old(i))

        self.fn = arrays.memo(lambda t: fn(t[0]))
        f2 = self.fn
        self.fn = lambda i: f2((i,))
        self.n = n + 1

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of symbolic list')
        return self.fn(arrays.check_index(i, self.n))

    __hash__ = None

    def __eq__(self, o):
        if isinstance(o, list):
            o = SList.of(o, self.kind)
        if not isinstance(o, SList):
            return False
        return sand(self.n == o.n, arrays.quant_all((self.n,), lambda i: self.fn(i[0]) == o.fn(i[0])))

    def __ne__(self, o):
        return snot(self == o)

    def __iter__(self):
        raise Unsupported('native iteration over symbolic list')

    def __len__(self):
        raise Unsupported('native len of symbolic list')

    def __bool__(self):
        return bool(self.n > 0)

    def vc_to_array(self, dtype):
        dt = arrays.DT({'int': 'i', 'float': 'f', 'bool': 'b'}.get(self.kind, 'o')) if dtype is None else arrays.dtype_of(
            dtype)
        f = self.fn
        return arrays.make((self.n,), dt, lambda i: f(i[0]))

    def vc_isinstance(self, t):
        return t is list

    @staticmethod
    def fresh(kind, name):
        c = core.ctx()
        n = c.fresh_int(name + '_len')
        c.fact(n.t >= 0)
        sort = {'int': z3.IntSort(), 'float': z3.RealSort(), 'bool': z3.BoolSort()}[kind]
        f = z3.Function(c.fresh_name(name), z3.IntSort(), sort)
        mk = {'int': SInt, 'float': SReal, 'bool': SBool}[kind]
        return SList(n, lambda i: mk(f(int_term(i))), kind)

    @staticmethod
    def of(xs, kind):
        xs = list(xs)

        def fn(i):
            if not isinstance(i, SInt):
                return xs[i] if 0 <= i < len(xs) else 0
            r = 0 if kind == 'int' else 0.0 if kind == 'float' else False
            for k, x in enumerate(xs):
                r = ite(i == k, x, r)
            return r

        return SList(len(xs), fn, kind)


class SeqIter:
    """iteration over the elements of a symbolic array or list"""

    def __init__(self, seq):
        self.seq = seq
        self.start, self.step = 0, 1
        self.stop = seq.vc_len()

    def item(self, i):
        return self.seq[i]


class EnumIter:

    def __init__(self, seq, start):
        pass


def begin(module, qualname, ordinal, it, kind, tnames, names, loc):
    """decides whether the invariant rule applies; returns a Loop or None"""
    c = core.CTX
    if c is None or not c.explorer.use_invariants:
        return None
    from vcpy.pyshim import SRange
    if kind == 'for':
        if isinstance(it, SRange):
            dom = it
        elif (isinstance(it, SArr) and it.ndim and isinstance(it.shape[0], SInt)) or isinstance(it, SList):
            dom = SeqIter(it)
        else:
            dom = None
    else:
        dom = None
    for inv in INVARIANTS.get((module, qualname), ()):
        if kind == 'for' and dom is None and not inv.force:
            continue
        if inv.target is not None and inv.target not in (tuple(tnames) + ('while',) if kind == 'while' else tuple(tnames)):
            continue
        if not all(n in loc for n in inv.names):
            continue
        if kind == 'for' and dom is None:
            if isinstance(it, builtins.range):
                dom = SRange(it.start, it.stop, it.step)
            else:
                continue
        lp = Loop(c, inv, module, qualname, ordinal, dom, kind, tnames, names, loc)
        if lp.enter(loc):
            return lp
    return None


class Loop:

    def __init__(self, c, inv, module, qualname, ordinal, dom, kind, tnames, names, loc):
        self.c, self.inv, self.kind, self.dom = c, inv, kind, dom
        self.names, self.tnames = names, tnames
        self.id = f'{module}.{qualname}#{ordinal}'
        self.i = None

    def label(self, what, l):
        return f'loop {self.id} [{self.inv.label}]: {what}: {l}'

    def conditions(self, loc, i):
        return list(self.inv.fn(self.c.explorer.api, View(loc, i = i, entry = View(self.entry),
                                                          start = self.dom.start if self.dom is not None else None,
                                                          stop = self.dom.stop if self.dom is not None else None)))

    def enter(self, loc):
        """invariant holds on entry"""
        for n, kind in self.inv.lists.items():
            if n in loc and isinstance(loc[n], list):
                loc = dict(loc)
                loc[n] = SList.of(loc[n], kind)
        self.entry = {n: v.copy() if isinstance(v, SArr) else v for n, v in loc.items()}
        i0 = self.dom.start if self.dom is not None else None
        try:
            conds = self.conditions(loc, i0)
        except (AttributeError, KeyError, TypeError) as e:
            self.c.explorer.note(f'invariant {self.inv.label} does not apply to {self.id}: {e!r}')
            return False
        for l, x in conds:
            self.c.prove(self.label('holds on entry', l), x)
        return True

    def havoc(self, loc):
        c = self.c
        c.tainted = True
        self.threshold = c.buffers
        self.key = (self.id, tuple(c.trace))
        frame = c.explorer.frames.setdefault(self.key, set())
        for serial in sorted(frame):
            b = c.registry.get(serial)
            if b is not None:
                havoc_buffer(c, b)
        self.havocked = set(frame)
        c.write_log = (c.write_log or []) + [self]
        if self.dom is not None:
            st, sp, step = self.dom.start, self.dom.stop, self.dom.step
            if step == 1:
                self.i = c.fresh_int('it')
                c.fact(z3.And(self.i.t >= int_term(st), z3.Or(self.i.t <= int_term(sp), self.i.t == int_term(st))))
            elif step == -1:
                self.i = c.fresh_int('it')
                c.fact(z3.And(self.i.t <= int_term(st), z3.Or(self.i.t >= int_term(sp), self.i.t == int_term(st))))
            else:
                k = c.fresh_int('itk')
                c.fact(z3.And(k.t >= 0, k.t <= int_term(self.dom.count())))
                self.i = SInt(int_term(st) + k.t * step)
        out = []
        for n in self.names:
            mut = n.startswith('~')
            n = n.lstrip('~')
            v = loc.get(n, Undefined)
            if mut and n not in self.inv.lists:
                out.append(v)
            elif n in self.inv.lists:
                out.append(SList.fresh(self.inv.lists[n], n))
            elif n in self.tnames and n not in loc:
                out.append(c.fresh_int(n))
            else:
                out.append(havoc_value(c, v, n))
        # lists declared but not assigned by name in the body
        self.saved_lists = {n: (v, list(v)) for n, v in loc.items() if isinstance(v, list) and n not in self.inv.lists}
        return tuple(out)

    def assume(self, loc):
        for n in self.inv.lists:
            if n not in self.names and '~' + n not in self.names:
                raise Unsupported('list invariant needs the list to be rebound in the loop')
        for l, x in self.conditions(loc, self.i):
            self.c.assume(x)
        if z3.is_false(z3.simplify(z3.And(*self.c.pc[-1:]))):
            raise core.Infeasible()

    def iterate(self):
        d = self.dom
        r = (self.i < d.stop) if d.step > 0 else (self.i > d.stop)
        return bool(r)

    def item(self):
        if isinstance(self.dom, SeqIter):
            return self.dom.item(self.i)
        return self.i

    def end(self, loc):
        self.check_lists()
        for l, x in self.conditions(loc, None if self.i is None else self.i + self.dom.step):
            self.c.prove(self.label('is preserved', l), x)
        self.c.explorer.completed_iterations += 1
        raise PathDone()

    def check_lists(self):
        for n, (v, old) in self.saved_lists.items():
            if len(v) != len(old) or any(a is not b for a, b in zip(v, old)):
                raise Unsupported(f'list {n} is modified within a loop over a symbolic range')

    def exit(self):
        if self.dom is not None and self.dom.step == 1:
            st, sp = int_term(self.dom.start), int_term(self.dom.stop)
            self.c.fact(self.i.t == z3.If(sp > st, sp, st))

    def done(self):
        self.c.write_log = [w for w in self.c.write_log if w is not self]

    def on_write(self, buf):
        s = getattr(buf, 'serial', None)
        if s is None or s > self.threshold or s in self.havocked:
            return
        self.c.explorer.frames[self.key].add(s)
        raise core.Restart()


def havoc_value(c, v, n):
    if v is Undefined:
        return Undefined()
    if isinstance(v, (SBool, bool, _np.bool_)):
        return c.fresh_bool(n)
    if isinstance(v, (SInt, int, _np.integer)):
        return c.fresh_int(n, core.is_npy(v))
    if isinstance(v, (SReal, float, _np.floating)):
        return c.fresh_real(n, core.is_npy(v))
    if isinstance(v, SArr):
        from vcpy import npshim
        return npshim.unspecified(v.shape, v.dtype, n)
    if v is None:
        return Undefined()
    return Undefined()


def havoc_buffer(c, b):
    if isinstance(b, DArr):
        k = arrays.dkind(b.dtype)
        for idx in _np.ndindex(*b.data.shape):
            b.data[idx] = {'i': c.fresh_int, 'f': c.fresh_real, 'b': c.fresh_bool}[k]('hv')
        return
    k = arrays.dkind(b.dtype)
    sort = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[k]
    mk = {'i': SInt, 'f': SReal, 'b': SBool}[k]
    nm = c.fresh_name('hv')
    fs = {}

    def fn(idx):
        f = fs.get(len(idx))
        if f is None:
            f = fs[len(idx)] = z3.Function(nm, *([z3.IntSort()] * len(idx) + [sort]))
        return mk(f(*[int_term(x) for x in idx]))

    b.fn = arrays.memo(fn)
