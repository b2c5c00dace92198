"""vcpy.linear: unsatisfiability shown by linear arithmetic over canonical monomials.

Every comparison of reals is rewritten to a linear form whose variables stand for the distinct monomials, quotients and
function applications in it (polynomials being expanded, so that formulae which differ only in how a polynomial is written
become the same); what is unsatisfiable with the variables free is unsatisfiable.  Facts with quantifiers are left out.
"""

import z3
from fractions import Fraction

from vcpy import ring

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
OPS = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '=='}
MAX_TERMS = 3000


class Forms:

    def __init__(self):
        self.keep = []
        self.polys = {}  # term id -> polynomial over atom numbers
        self.ids = {}  # canonical key -> atom number
        self.bools = {}
        self.vars = {}  # monomial -> z3 variable
        self.side = []
        self.quant = {}

    # ---- polynomials
    def atom(self, key):
        if key not in self.ids:
            self.ids[key] = len(self.ids)
        return {((self.ids[key], 1),): Fraction(1)}

    def key(self, t):
        """canonical key of any term, as an argument of a function"""
        if t.sort() in (R, I):
            return frozenset(self.poly(t).items())
        u = self.form(t) if t.sort() == B else t
        self.keep.append(u)
        return ('id', u.get_id())

    def poly(self, t):
        k = t.get_id()
        p = self.polys.get(k)
        if p is None:
            self.keep.append(t)
            p = self.polys[k] = self.poly1(t)
            if len(p) > MAX_TERMS:
                raise ring.TooBig()
        return p

    def poly1(self, t):
        if z3.is_rational_value(t):
            return ring.p_const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return ring.p_const(t.as_long())
        if not z3.is_app(t):
            self.keep.append(t)
            return self.atom(('id', t.get_id()))
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_ADD:
            p = {}
            for x in ch:
                p = ring.p_add(p, self.poly(x))
            return p
        if kd == z3.Z3_OP_SUB:
            p = self.poly(ch[0])
            for x in ch[1:]:
                p = ring.p_add(p, self.poly(x), -1)
            return p
        if kd == z3.Z3_OP_UMINUS:
            return ring.p_scale(self.poly(ch[0]), -1)
        if kd == z3.Z3_OP_MUL:
            p = ring.p_const(1)
            for x in ch:
                p = ring.p_mul(p, self.poly(x))
            return p
        if kd == z3.Z3_OP_TO_REAL:
            return self.poly(ch[0])
        if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and \
                0 <= ch[1].numerator_as_long() < 10:
            return ring.p_pow(self.poly(ch[0]), ch[1].numerator_as_long())
        if kd == z3.Z3_OP_DIV:
            n, d = self.poly(ch[0]), self.poly(ch[1])
            if len(d) == 1 and () in d:
                return ring.p_scale(n, 1 / d[()])
            return self.atom(('/', frozenset(n.items()), frozenset(d.items())))
        if kd == z3.Z3_OP_ITE:
            cond = self.form(ch[0])
            a, b = self.poly(ch[1]), self.poly(ch[2])
            self.keep.append(cond)
            key = ('ite', cond.get_id(), frozenset(a.items()), frozenset(b.items()))
            new = key not in self.ids
            p = self.atom(key)
            if new:
                self.side.append(z3.Implies(cond, self.compare('==', ring.p_add(p, a, -1))))
                self.side.append(z3.Implies(z3.Not(cond), self.compare('==', ring.p_add(p, b, -1))))
            return p
        if ch:
            d = t.decl()
            self.keep.append(d)
            return self.atom((d.get_id(),) + tuple(self.key(x) for x in ch))
        return self.atom(('id', t.get_id()))

    def compare(self, op, p):
        """p op 0"""
        k = p.get((), 0)
        rest = sorted((m, c) for m, c in p.items() if m)
        if not rest:
            return z3.BoolVal({'==': k == 0, '<=': k <= 0, '<': k < 0, '>=': k >= 0, '>': k > 0}[op])
        lead = rest[0][1]
        xs = []
        for m, c in rest:
            v = self.vars.get(m)
            if v is None:
                v = self.vars[m] = z3.Real(f'mono!{len(self.vars)}')
            c = c / lead
            xs.append(v if c == 1 else z3.RealVal(str(c)) * v)
        s = xs[0] if len(xs) == 1 else z3.Sum(*xs)
        c0 = z3.RealVal(str(-k / lead))
        if lead < 0:
            op = {'<=': '>=', '<': '>', '>=': '<=', '>': '<'}.get(op, op)
        return {'==': lambda: s == c0, '<=': lambda: s <= c0, '<': lambda: s < c0, '>=': lambda: s >= c0,
                '>': lambda: s > c0}[op]()

    # ---- formulae
    def form(self, t):
        k = t.get_id()
        r = self.bools.get(k)
        if r is None:
            self.keep.append(t)
            r = self.form1(t)
            self.keep.append(r)
            self.bools[k] = r
        return r

    def form1(self, t):
        kd = t.decl().kind()
        ch = t.children()
        if z3.is_and(t):
            return z3.And(*[self.form(x) for x in ch])
        if z3.is_or(t):
            return z3.Or(*[self.form(x) for x in ch])
        if kd in (z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or \
                kd in (z3.Z3_OP_ITE, z3.Z3_OP_EQ) and ch[-1].sort() == B:
            f = [self.form(x) for x in ch]
            return {z3.Z3_OP_NOT: lambda a: z3.Not(a), z3.Z3_OP_IMPLIES: lambda a, b: z3.Implies(a, b),
                    z3.Z3_OP_XOR: lambda a, b: z3.Xor(a, b), z3.Z3_OP_ITE: lambda a, b, d: z3.If(a, b, d),
                    z3.Z3_OP_EQ: lambda a, b: a == b}[kd](*f)
        if kd in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return t
        if kd in OPS and ch[0].sort() == R:
            return self.compare(OPS[kd], ring.p_add(self.poly(ch[0]), self.poly(ch[1]), -1))
        if kd in OPS and ch[0].sort() == I:
            # integers: strict comparisons are made weak
            op, p = OPS[kd], ring.p_add(self.poly(ch[0]), self.poly(ch[1]), -1)
            if all(c.denominator == 1 for c in p.values()):
                if op == '<':
                    op, p = '<=', ring.p_add(p, ring.p_const(1))
                elif op == '>':
                    op, p = '>=', ring.p_add(p, ring.p_const(1), -1)
            return self.compare(op, p)
        if kd == z3.Z3_OP_DISTINCT and len(ch) == 2 and ch[0].sort() in (R, I):
            return z3.Not(self.compare('==', ring.p_add(self.poly(ch[0]), self.poly(ch[1]), -1)))
        if ch and kd == z3.Z3_OP_UNINTERPRETED:
            d = t.decl()
            self.keep.append(d)
            key = (d.get_id(),) + tuple(self.key(x) for x in ch)
            if key not in self.ids:
                self.ids[key] = len(self.ids)
            return z3.Bool(f'atom!{self.ids[key]}')
        return z3.Bool(f'term!{t.get_id()}')

    def quantified(self, t):
        k = t.get_id()
        if k not in self.quant:
            self.keep.append(t)
            self.quant[k] = z3.is_quantifier(t) or any(self.quantified(x) for x in t.children())
        return self.quant[k]


class Prover:
    """follows the path condition of a context"""

    def __init__(self):
        self.forms = Forms()
        self.solver = z3.Solver()
        self.n = 0
        self.nside = 0

    def unsat(self, pc, t, timeout = 2000):
        """is the path condition (which only grows) together with t unsatisfiable"""
        fm, s = self.forms, self.solver
        try:
            if fm.quantified(t):
                return False
            f = fm.form(t)
        except ring.TooBig:
            return False
        while self.n < len(pc):
            a = pc[self.n]
            self.n += 1
            try:
                if not fm.quantified(a):
                    s.add(fm.form(a))
            except ring.TooBig:
                pass
        while self.nside < len(fm.side):
            s.add(fm.side[self.nside])
            self.nside += 1
        s.push()
        s.set('timeout', timeout)
        try:
            s.add(f)
            return s.check() == z3.unsat
        finally:
            s.pop()
