"""vcpy.harness: registry of contracts and the two modes in which a contract is evaluated.

A contract (harness) is a python function of one argument `c`.  It declares inputs (c.int, c.real, c.array, ...),
states preconditions (c.assume), calls functions of the real code, and states postconditions (c.check).
  - SymC: inputs are symbolic, covering every value; each c.check is an obligation for the solvers
  - ConcC: inputs are concrete values (a counterexample being replayed, or drawn at random); the code runs unmodified
"""

import importlib
import importlib.util
import math
import os
import random
import shutil
import sys
import tempfile

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = {}  # property -> list of Contract


class Contract:

    def __init__(self, prop, name, fn, **kw):
        self.prop, self.name, self.fn = prop, name, fn
        self.doc = (fn.__doc__ or '').strip()
        self.targets = kw.pop('targets', ())
        self.bounded = kw.pop('bounded', None)  # text: why and within which bound, when not a proof by design
        self.thorough_only = kw.pop('thorough_only', False)
        self.trials = kw.pop('trials', None)
        self.assumptions = list(kw.pop('assumptions', ()))
        self.opts = kw  # explorer options


def contract(prop, name, **kw):

    def deco(fn):
        CONTRACTS.setdefault(prop, []).append(Contract(prop, name, fn, **kw))
        return fn

    return deco


def load_contracts(prop):
    """imports the contract files of a property: contracts/<prop>*.py"""
    d = os.path.join(ROOT, 'contracts')
    if d not in sys.path:
        sys.path.insert(0, d)
    for f in sorted(os.listdir(d)):
        if f.startswith(prop + '_') and f.endswith('.py'):
            importlib.import_module(f[:-3])
    names = [h.name for h in CONTRACTS.get(prop, [])]
    assert len(names) == len(set(names)), 'duplicate harness names'
    return CONTRACTS.get(prop, [])


class Reject(BaseException):
    """concrete inputs do not satisfy the preconditions"""


class Mismatch(Exception):
    """the harness does not fit the code (e.g. a function has gone): undecided"""


class Failed(Exception):
    """a concrete check failed"""

    def __init__(self, label, detail):
        Exception.__init__(self, f'{label}: {detail}')
        self.label, self.detail = label, detail


class _Raised:
    """outcome of c.attempt when an exception was raised"""

    def __init__(self, e):
        self.exc = e

    def __repr__(self):
        return f'raised {self.exc!r}'


class Base:
    """what both modes share"""
    symbolic = False

    def mod(self, name):
        try:
            return importlib.import_module(name)
        except ModuleNotFoundError as e:
            raise self.mismatch(f'module {name}: {e}')

    def fn(self, path):
        """attribute of a module by dotted path, e.g. resqpy.olio.box_utilities.volume_of_box"""
        parts = path.split('.')
        for k in range(len(parts) - 1, 0, -1):
            try:
                o = importlib.import_module('.'.join(parts[:k]))
            except ModuleNotFoundError:
                continue
            for p in parts[k:]:
                try:
                    o = getattr(o, p)
                except AttributeError:
                    raise self.mismatch(f'{path} not found')
            return o
        raise self.mismatch(f'{path} not found')

    def obj(self, cls, **attrs):
        """instance of a class of the code with given attributes, its constructor not having been run"""
        if isinstance(cls, str):
            cls = self.fn(cls)
        o = object.__new__(cls)
        for k, v in attrs.items():
            try:
                object.__setattr__(o, k, v)
            except AttributeError as e:
                raise self.mismatch(f'{k} of {cls} cannot be set: {e}')
        self.built.append(o)
        return o

    def scratch(self):
        """a new directory, removed afterwards"""
        d = tempfile.mkdtemp(prefix = 'vcpy-')
        self.dirs.append(d)
        return d

    def tidy(self):
        while self.dirs:
            shutil.rmtree(self.dirs.pop(), ignore_errors = True)

    def new_model(self):
        """a new Model, with its file names in a scratch directory; uuids are made in sequence"""
        self.replace('resqpy.olio.uuid', 'test_mode', True)
        self.replace('resqpy.olio.uuid', 'test_latest_int', 0)
        return self.fn('resqpy.model.Model')(os.path.join(self.scratch(), 'm.epc'), new_epc = True, quiet = True)

    def reopened(self, model):
        """the model after having been stored, loaded from its file"""
        model.store_epc(quiet = True)
        model.h5_release()
        return self.fn('resqpy.model.Model')(model.epc_file, quiet = True)

    def attempt(self, exceptions, f, *args, **kw):
        """(result, None) or (None, exception) if one of the given exceptions is raised"""
        try:
            return f(*args, **kw), None
        except exceptions as e:
            return None, e

    def bare_attribute_error(self, e):
        """is e an attribute missing from an object which the harness built without its constructor"""
        if not isinstance(e, AttributeError):
            return False
        o = getattr(e, 'obj', None)
        return any(o is b for b in self.built)

    # defaults for hints which only matter in one mode
    def apart(self, *xs):
        """concrete mode: rejects inputs for which a value is within rounding error of zero but not zero"""

    def lemma(self, label, x):
        self.check('lemma: ' + label, x)

    def cover(self, x = True):
        pass

    def vec(self, name, n = 3, **kw):
        return self.array(name, (n,), float, **kw)


# ----------------------------------------------------------------------------------------------------------------------

class SymC(Base):
    """symbolic mode"""
    symbolic = True

    def __init__(self):
        from vcpy import core, arrays, reduce_, npshim, prover
        self.core, self.arrays, self.reduce, self.np, self.prover = core, arrays, reduce_, npshim, prover
        self.c = None
        self.restore = []
        self.built = []
        self.dirs = []

    def mismatch(self, msg):
        return self.core.Unsupported('harness does not fit the code: ' + msg)

    def new_path(self, c):
        self.c = c
        self.ghost = {}
        self.built = []

    def end_path(self, c):
        for o, n, v, had in reversed(self.restore):
            if had:
                setattr(o, n, v)
            else:
                delattr(o, n)
        self.restore = []
        self.tidy()

    # ---- inputs
    def int(self, name, lo = None, hi = None):
        z3 = self.core.z3
        t = z3.Int(name)
        if name not in self.c.inputs:
            self.c.inputs[name] = {'kind': 'int', 't': t}
            if lo is not None:
                self.c.assume(t >= self.core.int_term(lo))
            if hi is not None:
                self.c.assume(t <= self.core.int_term(hi))
            self.feasible()
        return self.core.SInt(t)

    def real(self, name, lo = None, hi = None, nan = False, **kw):
        z3, core = self.core.z3, self.core
        t = z3.Real(name)
        n = z3.Bool(name + '.nan') if nan else None
        if name not in self.c.inputs:
            self.c.inputs[name] = {'kind': 'real', 't': t, 'nan': n}
            if lo is not None:
                self.c.assume(t >= core.real_term(lo))
            if hi is not None:
                self.c.assume(t <= core.real_term(hi))
            if n is not None:
                self.c.assume(z3.Implies(n, t == 0))
            self.feasible()
        return core.SReal(t, n)

    def bool(self, name):
        t = self.core.z3.Bool(name)
        self.c.inputs[name] = {'kind': 'bool', 't': t}
        return self.core.SBool(t)

    def choice(self, name, options):
        k = self.c.choose(len(options))
        self.c.inputs[name] = {'kind': 'choice', 'value': k}
        return options[k]

    def array(self, name, shape, dtype = float, lo = None, hi = None, nan = False, where = None, **kw):
        """array input; lo, hi bound every element; where(idx, value) is a condition on every element"""
        core, arrays, z3 = self.core, self.arrays, self.core.z3
        dt = arrays.dtype_of(dtype)
        k = arrays.dkind(dt)
        shape = arrays.norm_shape(shape)
        sort = {'i': core.I, 'f': core.R, 'b': core.B}[k]
        c = self.c
        dense = arrays.csize(shape) is not None and arrays.csize(shape) <= arrays.DENSE_LIMIT
        if dense:
            at = lambda i: z3.Const(name + '_' + '_'.join(str(x) for x in i), sort)
            nat = lambda i: z3.Const(name + '_nan_' + '_'.join(str(x) for x in i), core.B)
        else:
            f = z3.Function(name, *([core.I] * len(shape) + [sort]))
            at = lambda i: f(*[core.int_term(x) for x in i])
            fn = z3.Function(name + '_nan', *([core.I] * len(shape) + [core.B]))
            nat = lambda i: fn(*[core.int_term(x) for x in i])
        mk = {'i': core.SInt, 'f': core.SReal, 'b': core.SBool}[k]

        def elem(i):
            t = at(i)
            n = nat(i) if nan else None
            v = core.SReal(t, n) if k == 'f' else mk(t)
            ev = lambda b: b(i) if callable(b) else b
            facts = []
            if lo is not None:
                facts.append(core.compare('>=', mk(t), ev(lo)))
            if hi is not None:
                facts.append(core.compare('<=', mk(t), ev(hi)))
            if where is not None:
                facts.append(where(i, v))
            if n is not None:
                facts.append(z3.Implies(n, t == 0))
            if facts:
                b = core.bool_term(core.sand(*facts))
                if not dense:
                    rng = z3.And(*[z3.And(core.int_term(x) >= 0, core.int_term(x) < core.int_term(d))
                                   for x, d in zip(i, shape)])
                    b = z3.Implies(rng, b)
                c.fact(b)
            return v

        if dense:
            data = np.empty(shape, dtype = object)
            for i in np.ndindex(*shape):
                data[i] = elem(i)
            r = arrays.DArr(data, dt)
            elems = [at(i) for i in np.ndindex(*shape)]
        else:
            r = arrays.LArr.from_fn(shape, dt, elem)
            elems = []
        c.inputs[name] = {'kind': 'array', 'shape': [d for d in shape], 'elems': elems, 'at': at,
                          'nan_at': nat if nan else None, 'dtype': k}
        if dense:
            self.feasible()
        return r

    @property
    def unrolling(self):
        """loops are unrolled, their invariants not being used: preconditions for every element have to be quantified"""
        return not self.c.explorer.use_invariants

    def feasible(self):
        if self.c.solver.check() == self.core.z3.unsat:
            raise self.core.Infeasible()

    def const_array(self, data, dtype = None):
        return self.np.array(data, dtype = dtype)

    def int_list(self, name, n, **kw):
        from vcpy import loops
        a = self.array(name, (n,), int, **kw)
        return loops.SList(n, lambda i, rd = a.reader(): rd((i,)), 'int')

    def stamp(self, name):
        """time stamp"""
        from vcpy import stamps
        return stamps.Stamp(self.int(name))

    def stamps(self, name, n):
        """list of n time stamps, in order"""
        from vcpy import stamps
        a = self.array(name, (n,), int)
        r = stamps.StampList(n, lambda i, rd = a.reader(): rd((i,)))
        self.assume(self.forall((n, n), lambda i, j: self.Implies(i <= j, lambda: r.at(i) <= r.at(j))))
        return r

    def seconds(self, x):
        """seconds of a time stamp or duration"""
        return x.t

    def calendar(self, *modules):
        """dates by their number of seconds within the modules"""
        from vcpy import stamps
        for m in modules:
            self.stub(self.mod(m), 'dt', stamps.Module)

    # ---- logic
    def assume(self, *xs):
        for x in xs:
            self.c.assume(x)
        self.feasible()

    def check(self, label, *xs):
        for x in xs:
            self.c.prove(label, x)

    def And(self, *xs):
        return self.core.sand(*[self.b(x) for x in xs])

    def Or(self, *xs):
        return self.core.sor(*[self.b(x) for x in xs])

    def Not(self, x):
        return self.core.snot(self.b(x))

    def Implies(self, a, b):
        """b may be a function, evaluated only when a is possible"""
        a = self.b(a)
        if callable(b):
            if a is False:
                return True
            b = b()
        return self.core.sor(self.core.snot(a), self.b(b))

    def b(self, x):
        if isinstance(x, self.arrays.SArr):
            return self.reduce.truth(x.vc_scalar()) if x.ndim == 0 else self.reduce.truth(x.all())
        if callable(x):
            raise TypeError('function in place of a condition')
        return x

    def Iff(self, a, b):
        return self.core.mk_bool(self.core.bool_term(self.b(a)) == self.core.bool_term(self.b(b)))

    def ite(self, p, a, b):
        return self.core.ite(p, a, b)

    def is_true(self, x):
        """forks on x"""
        return bool(x)

    def forall(self, shape, fn):
        shape = (shape,) if not isinstance(shape, (tuple, list)) else tuple(shape)
        return self.arrays.quant_all(self.arrays.norm_shape(shape), lambda i: self.b(fn(*i)))

    def exists(self, shape, fn):
        return self.Not(self.forall(shape, lambda *i: self.Not(fn(*i))))

    def sum(self, n, fn):
        if not self.core.is_sym(n):
            r = 0
            for k in range(n):
                r = r + fn(k)
            return r
        return self.reduce.psum(fn, n)

    def check_text(self, label, s, parts):
        """s is the concatenation of parts, integers written in decimal"""
        from vcpy import strings
        self.check(label, strings.same(s, parts))

    # ---- values
    def sc(self, x):
        """plain scalar from a 0d array"""
        if isinstance(x, self.arrays.SArr):
            return x.vc_scalar()
        return x

    def eq(self, a, b, tol = None):
        """equality of scalars or (elementwise, including shape) of arrays; NaN equals NaN"""
        A = self.arrays
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) :
            if len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, (A.SArr, np.ndarray, tuple, list)) or isinstance(b, (A.SArr, np.ndarray, tuple, list)):
            a, b = A.as_arr(a), A.as_arr(b)
            if a.ndim == 0 and b.ndim == 0:
                return self.eq(a.vc_scalar(), b.vc_scalar())
            if a.ndim != b.ndim:
                return False
            sh = self.And(*[x == y for x, y in zip(a.shape, b.shape)])
            if sh is False:
                return False
            return self.And(sh, A.quant_all(a.shape, lambda i: self.eq(a.elem(i), b.elem(i))))
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        na, nb = self.core.isnan(a), self.core.isnan(b)
        r = self.core.compare('==', a, b)
        if na is False and nb is False:
            return r
        return self.Or(self.And(na, nb), r)

    def le(self, a, b, tol = None):
        return self.sc(a) <= self.sc(b)

    def lt(self, a, b):
        return self.sc(a) < self.sc(b)

    def strict_lt(self, a, b):
        return self.sc(a) < self.sc(b)

    def sqrt(self, x):
        return self.core.sqrt(x)

    def sin(self, x):
        return self.core.sin(x)

    def cos(self, x):
        return self.core.cos(x)

    def acos(self, x):
        return self.core.app_real('acos', x)

    def atan2(self, y, x):
        return self.core.app_real('atan2', y, x)

    @property
    def pi(self):
        return self.core.SReal(self.core.PI)

    def isnan(self, x):
        return self.core.isnan(self.sc(x))

    def to_int(self, x):
        return self.core.to_int(self.sc(x))

    def length(self, x):
        from vcpy import pyshim
        return pyshim.vlen(x)

    def min(self, *xs):
        from vcpy import pyshim
        return pyshim.vmin(*xs)

    def max(self, *xs):
        from vcpy import pyshim
        return pyshim.vmax(*xs)

    def abs(self, x):
        return abs(self.sc(x))

    def type_kind(self, x):
        return self.core.kind_of(self.sc(x))

    # ---- modularity
    def function(self, name, kinds, kind = 'f'):
        """an arbitrary function of scalars, kinds being those of its arguments, e.g. 'ffi'"""
        z3, core = self.core.z3, self.core
        sort = {'i': core.I, 'f': core.R, 'b': core.B}
        f = z3.Function(name, *[sort[k] for k in kinds], sort[kind])
        mk = {'i': core.SInt, 'f': core.SReal, 'b': core.SBool}[kind]
        conv = {'i': core.int_term, 'f': core.real_term, 'b': core.bool_term}
        return lambda *xs: mk(f(*[conv[k](self.sc(x)) for k, x in zip(kinds, xs)]))

    def opaque(self, name, kinds, fn, kind = 'b'):
        """fn, as a function symbol whose definition is made known for the arguments it is applied to outside quantifiers"""
        f = self.function(name, kinds, kind)
        done = {}  # the terms are kept so that their ids stay unique

        def g(*xs):
            r = f(*xs)
            if not self.c.bound and isinstance(r, (self.core.S, self.core.SBool)):
                key = (id(self.c), r.t.get_id())
                if key not in done:
                    done[key] = (self.c, r)
                    self.c.fact(self.core.bool_term(self.eq(r, fn(*xs)) if kind != 'b' else self.Iff(r, fn(*xs))))
            return r
        return g

    def lazy(self, shape, kind, fn, nan = None):
        """array with elements fn(i, j, ...), NaN where nan(i, j, ...)"""
        core, arrays = self.core, self.arrays

        def elem(i):
            v = fn(*i)
            if nan is not None:
                v = core.SReal(core.real_term(v), core.bool_term(nan(*i)))
            return v
        return arrays.LArr.from_fn(arrays.norm_shape(shape), arrays.DT(kind), elem)

    def stub(self, owner, name, f, both = False):
        """replaces a callee by its contract"""
        if isinstance(owner, str):
            try:
                owner = importlib.import_module(owner)
            except ModuleNotFoundError:
                owner = self.fn(owner)
        d = owner.__dict__
        if name not in d:
            raise self.mismatch(f'{owner} has no {name}')
        self.restore.append((owner, name, d[name], True))
        setattr(owner, name, f)

    def replace(self, owner, name, f):
        self.stub(owner, name, f)

    def note(self, s):
        self.c.explorer.note(s)


# ----------------------------------------------------------------------------------------------------------------------

class ConcC(Base):
    """concrete mode"""

    def __init__(self, values = None, seed = 0, size = 4):
        self.values = values
        self.rng = random.Random(seed)
        self.size = size
        self.used = {}
        self.restore = []
        self.built = []
        self.dirs = []
        self.checks = []
        self.scale = 1.0
        self.mode = self.rng.random()
        self.ghost = {}

    def mismatch(self, msg):
        return Mismatch(msg)

    np = np

    # ---- inputs
    def have(self, name):
        return self.values is not None and name in self.values and self.values[name] is not None

    def int(self, name, lo = None, hi = None):
        if name in self.used:
            return self.used[name]
        if self.have(name):
            v = int(self.values[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Reject()
        else:
            v = self.rand_int(lo, hi)
        self.used[name] = v
        return v

    def rand_int(self, lo, hi):
        r = self.rng
        if lo is None and hi is None:
            return r.randint(-self.size, self.size)
        if lo is None:
            return hi - min(int(r.expovariate(1.0 / self.size)), 4 * self.size)
        if hi is None:
            return int(lo) + min(int(r.expovariate(1.0 / self.size)), 4 * self.size)
        lo, hi = int(lo), int(hi)
        if hi < lo:
            raise Reject()
        if hi - lo > 6 * self.size:
            q = r.random()
            if q < 0.8:
                return lo + min(int(r.expovariate(1.0 / self.size)), 4 * self.size)
            if q < 0.95:
                return hi - r.randint(0, min(hi - lo, 2 * self.size))
        return r.randint(lo, hi)

    def rand_real(self, lo, hi):
        r = self.rng
        if lo is not None and hi is not None:
            lo, hi = float(lo), float(hi)
            if hi < lo:
                raise Reject()
            q = r.random()
            if q < 0.1:
                return lo
            if q < 0.2:
                return hi
            if q < 0.4:
                a, b = math.ceil(lo), math.floor(hi)
                if a <= b:
                    return float(r.randint(a, min(b, a + 10)) if r.random() < 0.5 else r.randint(max(a, b - 10), b))
            return r.uniform(lo, hi)
        if self.mode < 0.35:
            v = float(r.randint(-self.size, self.size))
        elif self.mode < 0.5:
            v = r.choice([0.0, 0.5, 1.0, -1.0, 2.0, -0.5, 1.5, 3.0])
        else:
            v = r.uniform(-10, 10) if r.random() < 0.8 else r.uniform(-1000.0, 1000.0)
        if lo is not None:
            return float(lo) + abs(v)
        if hi is not None:
            return float(hi) - abs(v)
        return v

    def real(self, name, lo = None, hi = None, nan = False, near = None):
        if name in self.used:
            return self.used[name]
        if self.have(name):
            v = float(self.values[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                if v == v:
                    raise Reject()
        elif nan and self.rng.random() < 0.15:
            v = math.nan
        elif near is not None and self.rng.random() < 0.5:
            v = float(self.rng.choice(near()))
        else:
            v = self.rand_real(lo, hi)
        self.used[name] = v
        return v

    def bool(self, name):
        if self.have(name):
            v = bool(self.values[name])
        else:
            v = self.rng.random() < 0.5
        self.used[name] = v
        return v

    def choice(self, name, options):
        if self.have(name) and self.values[name] < len(options):
            k = self.values[name]
        else:
            k = self.rng.randrange(len(options))
        self.used[name] = k
        return options[k]

    def array(self, name, shape, dtype = float, lo = None, hi = None, nan = False, where = None, pool = None):
        shape = tuple(int(x) for x in shape)
        if any(x < 0 for x in shape) or math.prod(shape) > 20000:
            raise Reject()
        dt = np.dtype(dtype)
        k = dt.kind if dt.kind not in 'u' else 'i'
        spec = self.values.get(name) if self.values is not None else None
        if spec is not None and tuple(spec['shape']) == shape:
            a = np.array(spec['data'], dtype = float if k == 'f' else dt).reshape(shape).astype(dt)
            fixed = True
        else:
            a = np.empty(shape, dtype = dt)
            fixed = False
        few = None
        if not fixed and k in 'if' and self.rng.random() < 0.3:
            few = [self.rand_one(k, None, None) for _ in range(2)]
        for i in np.ndindex(*shape):
            l = lo(i) if callable(lo) else lo
            h = hi(i) if callable(hi) else hi
            if fixed:
                v = a[i]
                if v == v and ((l is not None and v < l) or (h is not None and v > h)):
                    raise Reject()
                if where is not None and not where(i, v):
                    raise Reject()
                continue
            for _ in range(200):
                if k == 'b':
                    v = self.rng.random() < (0.5 if self.mode < 0.6 else 0.15 if self.mode < 0.8 else 0.85)
                elif nan and self.rng.random() < 0.2:
                    v = math.nan
                elif pool is not None and self.rng.random() < 0.8:
                    v = self.rng.choice(pool)
                elif few is not None and l is None and h is None and self.rng.random() < 0.6:
                    v = self.rng.choice(few)
                else:
                    v = self.rand_one(k, l, h)
                if where is None or where(i, v):
                    break
            else:
                raise Reject()
            a[i] = v
        self.used[name] = {'shape': list(shape), 'data': [x.item() for x in a.flatten()], 'dtype': k}
        return a

    def int_list(self, name, n, **kw):
        return self.array(name, (n,), int, **kw).tolist()

    def stamp(self, name):
        return self.stamp_text(self.int(name, -200000, 200000))

    def stamps(self, name, n):
        a = self.array(name, (n,), int, lo = -200000, hi = 200000)
        return [self.stamp_text(x) for x in sorted(a.tolist())]

    def stamp_text(self, x):
        import datetime
        return (datetime.datetime(2000, 1, 1) + datetime.timedelta(seconds = int(x))).isoformat() + 'Z'

    def seconds(self, x):
        import datetime
        if isinstance(x, str):
            x = datetime.datetime.fromisoformat(x.rstrip('Z')) - datetime.datetime(2000, 1, 1)
        return round(x.total_seconds())

    def calendar(self, *modules):
        pass

    def rand_one(self, k, l, h):
        return self.rand_int(l, h) if k == 'i' else self.rand_real(l, h)

    def const_array(self, data, dtype = None):
        return np.array(data, dtype = dtype)

    # ---- logic
    def assume(self, *xs):
        for x in xs:
            if not np.all(x):
                raise Reject()

    def check(self, label, *xs):
        self.checks.append(label)
        for x in xs:
            if not np.all(x):
                raise Failed(label, 'does not hold')

    def And(self, *xs):
        return all(bool(np.all(x)) for x in xs)

    def Or(self, *xs):
        return any(bool(np.all(x)) for x in xs)

    def Not(self, x):
        return not bool(np.all(x))

    def b(self, x):
        return bool(np.all(x))

    def Implies(self, a, b):
        if not np.all(a):
            return True
        if callable(b):
            b = b()
        return bool(np.all(b))

    def Iff(self, a, b):
        return bool(np.all(a)) == bool(np.all(b))

    def ite(self, p, a, b):
        return a if p else b

    def is_true(self, x):
        return bool(x)

    def forall(self, shape, fn):
        shape = (shape,) if not isinstance(shape, (tuple, list)) else tuple(shape)
        return all(bool(np.all(fn(*i))) for i in np.ndindex(*[max(0, int(x)) for x in shape]))

    def exists(self, shape, fn):
        return not self.forall(shape, lambda *i: not np.all(fn(*i)))

    def sum(self, n, fn):
        r = 0
        for k in range(n):
            r = r + fn(k)
        return r

    # ---- values
    def check_text(self, label, s, parts):
        self.check(label, s == ''.join(str(p) for p in parts))

    def apart(self, *xs):
        for x in xs:
            for v in np.asarray(x, dtype = float).flatten():
                if 0.0 < abs(v) < 1.0e-5 * max(1.0, self.scale):
                    raise Reject()

    def sc(self, x):
        return x.item() if isinstance(x, (np.ndarray, np.generic)) and np.size(x) == 1 else x

    def eq(self, a, b, tol = None):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return a == b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y, tol) for x, y in zip(a, b))
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in 'biu' and y.dtype.kind in 'biu':
            return bool(np.array_equal(x, y))
        if x.dtype.kind == 'O' or y.dtype.kind == 'O':
            return bool(np.all(x == y))
        x, y = x.astype(float), y.astype(float)
        t = 1.0e-6 if tol is None else tol
        if not x.size:
            return True
        fin = np.concatenate((np.abs(x[np.isfinite(x)]), np.abs(y[np.isfinite(y)]), [1.0]))
        sc = max(1.0, float(np.max(fin)), self.scale)
        return bool(np.all((np.abs(x - y) <= t * sc) | (np.isnan(x) & np.isnan(y)) | (x == y)))

    def le(self, a, b, tol = 1.0e-6):
        a, b = self.sc(a), self.sc(b)
        if isinstance(a, int) and isinstance(b, int):
            return a <= b
        if tol is None:
            tol = 1.0e-6
        return a <= b + tol * max(1.0, abs(a), abs(b), self.scale)

    def lt(self, a, b):
        a, b = self.sc(a), self.sc(b)
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        return self.le(a, b)

    def strict_lt(self, a, b):
        return self.sc(a) < self.sc(b)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0.0 else math.nan

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def acos(self, x):
        return math.acos(max(-1.0, min(1.0, x)))

    def atan2(self, y, x):
        return math.atan2(y, x)

    pi = math.pi

    def isnan(self, x):
        return bool(np.isnan(self.sc(x)))

    def to_int(self, x):
        return int(self.sc(x))

    def length(self, x):
        return len(x)

    def min(self, *xs):
        return min(*xs)

    def max(self, *xs):
        return max(*xs)

    def abs(self, x):
        return abs(self.sc(x))

    def type_kind(self, x):
        x = self.sc(x)
        return 'b' if isinstance(x, (bool, np.bool_)) else 'i' if isinstance(x, (int, np.integer)) else \
            'f' if isinstance(x, (float, np.floating)) else 'o'

    # ---- modularity: the real callees are used unless the stub is part of the environment (e.g. storage)
    def stub(self, owner, name, f, both = False):
        if both:
            self.replace(owner, name, f)

    def replace(self, owner, name, f):
        if isinstance(owner, str):
            try:
                owner = importlib.import_module(owner)
            except ModuleNotFoundError:
                owner = self.fn(owner)
        if name not in owner.__dict__:
            raise self.mismatch(f'{owner} has no {name}')
        self.restore.append((owner, name, owner.__dict__[name]))
        setattr(owner, name, f)

    def close(self):
        for o, n, v in reversed(self.restore):
            setattr(o, n, v)
        self.restore = []
        self.tidy()

    def note(self, s):
        pass

    def opaque(self, name, kinds, fn, kind = 'b'):
        return fn


def run_concrete(h, values = None, seed = 0, size = 4):
    """('ok' | 'reject' | 'fail' | 'mismatch', detail, inputs, checks)"""
    c = ConcC(values, seed, size)
    try:
        with np.errstate(all = 'ignore'):
            h.fn(c)
        return ('ok' if c.checks else 'reject'), None, c.used, c.checks
    except Reject:
        return 'reject', None, c.used, c.checks
    except Failed as e:
        return 'fail', str(e), c.used, c.checks
    except Mismatch as e:
        return 'mismatch', str(e), c.used, c.checks
    except Exception as e:
        if c.bare_attribute_error(e):
            return 'mismatch', repr(e), c.used, c.checks
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        fr = tb[-1]
        return 'fail', f'no {type(e).__name__} escapes: {type(e).__name__}: {str(e)[:300]} at {fr.filename}:{fr.lineno} {fr.name}', c.used, c.checks
    finally:
        c.close()
