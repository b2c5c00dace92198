"""vcpy.ring: normal forms of polynomial / rational expressions over z3 terms.

Used as a decision back end for equalities: an equality between rational functions is discharged if, after cross
multiplication, the difference reduces to the zero polynomial under the rewriting rules sqrt(x)^2 -> x and
cos(x)^2 -> 1 - sin(x)^2.  The caller must establish that the denominators are non-zero.
"""

from fractions import Fraction
import z3


class TooBig(Exception):
    pass


MAX_TERMS = 20000

_atoms = {}


def _atom(t):
    k = t.get_id()
    if k not in _atoms:
        _atoms[k] = t  # keeps a reference, so the id stays valid
    return k


def p_const(c):
    return {(): Fraction(c)} if c != 0 else {}


def p_add(a, b, s = 1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, s):
    return {m: c * s for m, c in a.items()} if s != 0 else {}


def _mono_mul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > MAX_TERMS * 10:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    if len(r) > MAX_TERMS:
        raise TooBig()
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


class Rules:
    """square rewriting rules: atom id -> polynomial which the square of the atom is replaced by"""

    def __init__(self):
        self.sq = {}

    def reduce(self, p):
        if not self.sq:
            return p
        for _ in range(40):
            hit = False
            r = {}
            for m, c in p.items():
                for a, e in m:
                    if e >= 2 and a in self.sq:
                        rest = tuple(x for x in m if x[0] != a)
                        if e % 2:
                            rest = tuple(sorted(rest + ((a, 1),)))
                        q = p_mul({rest: c}, p_pow(self.sq[a], e // 2))
                        r = p_add(r, q)
                        hit = True
                        break
                else:
                    v = r.get(m, 0) + c
                    if v == 0:
                        r.pop(m, None)
                    else:
                        r[m] = v
            p = r
            if not hit:
                return p
            if len(p) > MAX_TERMS:
                raise TooBig()
        return p


def _num_den(t, cache, dens, sub):
    """returns (num, den) polynomials"""
    k = t.get_id()
    if k in cache:
        return cache[k]
    r = None
    if sub is not None and k in sub:
        r = _num_den(sub[k], cache, dens, sub)
    elif z3.is_rational_value(t):
        r = p_const(Fraction(t.numerator_as_long(), t.denominator_as_long())), p_const(1)
    elif z3.is_int_value(t):
        r = p_const(t.as_long()), p_const(1)
    elif z3.is_app(t):
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_ADD:
            n, d = p_const(0), p_const(1)
            for x in ch:
                n2, d2 = _num_den(x, cache, dens, sub)
                n, d = _add(n, d, n2, d2, 1)
            r = n, d
        elif kd == z3.Z3_OP_SUB:
            n, d = _num_den(ch[0], cache, dens, sub)
            for x in ch[1:]:
                n2, d2 = _num_den(x, cache, dens, sub)
                n, d = _add(n, d, n2, d2, -1)
            r = n, d
        elif kd == z3.Z3_OP_UMINUS:
            n, d = _num_den(ch[0], cache, dens, sub)
            r = p_scale(n, -1), d
        elif kd == z3.Z3_OP_MUL:
            n, d = p_const(1), p_const(1)
            for x in ch:
                n2, d2 = _num_den(x, cache, dens, sub)
                n, d = p_mul(n, n2), (p_mul(d, d2) if d2 != {(): 1} else d)
            r = n, d
        elif kd == z3.Z3_OP_DIV:
            n, d = _num_den(ch[0], cache, dens, sub)
            n2, d2 = _num_den(ch[1], cache, dens, sub)
            if not (len(n2) == 1 and () in n2):
                dens.append(ch[1])
            r = p_mul(n, d2), p_mul(d, n2)
            if not r[1]:
                raise TooBig()
            if len(r[1]) == 1 and () in r[1]:
                r = p_scale(r[0], 1 / r[1][()]), p_const(1)
        elif kd == z3.Z3_OP_TO_REAL:
            r = _num_den(ch[0], cache, dens, sub)
        elif kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and \
                0 <= ch[1].numerator_as_long() < 20:
            n, d = _num_den(ch[0], cache, dens, sub)
            e = ch[1].numerator_as_long()
            r = p_pow(n, e), p_pow(d, e)
    if r is None:
        r = {((_atom(t), 1),): Fraction(1)}, p_const(1)
    cache[k] = r
    return r


def _add(n, d, n2, d2, s):
    if d == d2:
        return p_add(n, n2, s), d
    if d2 == {(): 1}:
        return p_add(n, p_mul(n2, d), s), d
    if d == {(): 1}:
        return p_add(p_mul(n, d2), n2, s), d2
    return p_add(p_mul(n, d2), p_mul(n2, d), s), p_mul(d, d2)


def rules_for(ctx):
    rules = Rules()
    cache, dens = {}, []
    for s, c, t in ctx.trig_defs:
        rules.sq[_atom(c)] = {(): Fraction(1), ((_atom(s), 2),): Fraction(-1)}
    for s, t in ctx.sqrt_defs:
        n, d = _num_den(t, cache, dens, None)
        if d == {(): 1} and ctx.known(t >= 0):
            rules.sq[_atom(s)] = n
    return rules


def equal(a, b, ctx, rules = None):
    """tries to show a == b; returns list of denominators which must be non-zero, or None if not shown"""
    try:
        cache, dens = {}, []
        n1, d1 = _num_den(a, cache, dens, None)
        n2, d2 = _num_den(b, cache, dens, None)
        n, d = _add(n1, d1, n2, d2, -1)
        if n and ctx is not None:
            n = (rules or rules_for(ctx)).reduce(n)
        if n:
            return None
        return dens
    except TooBig:
        return None


def poly(t):
    """polynomial of a division free term"""
    n, d = _num_den(t, {}, [], None)
    return n if d == {(): 1} else None


def same_int(a, b):
    """are two int terms (or python ints) equal as polynomials"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta = a if isinstance(a, z3.ExprRef) else (z3.IntVal(a) if isinstance(a, int) else a.t)
    tb = b if isinstance(b, z3.ExprRef) else (z3.IntVal(b) if isinstance(b, int) else b.t)
    if ta.eq(tb):
        return True
    try:
        return not p_add(poly(ta), poly(tb), -1)
    except TooBig:
        return False


def to_term(p, sort = z3.IntSort()):
    ts = []
    for m, c in p.items():
        x = z3.IntVal(int(c)) if sort == z3.IntSort() else z3.RealVal(str(c))
        fs = [] if (c == 1 and m) else [x]
        for a, e in m:
            v = _atoms[a]
            fs += [z3.ToReal(v) if sort != z3.IntSort() and v.sort() == z3.IntSort() else v] * e
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        ts.append(t)
    if not ts:
        return z3.IntVal(0) if sort == z3.IntSort() else z3.RealVal(0)
    t = ts[0]
    for x in ts[1:]:
        t = t + x
    return t


def poly_div_hint(a, b):
    """for int terms a, b tries to write a as q * b + r, by polynomial division with b a single monomial"""
    try:
        pa, pb = poly(a), poly(b)
    except TooBig:
        return None
    if pa is None or pb is None:
        return None
    if len(pb) == 1:
        (mb, cb), = pb.items()
        if cb != 1 or not mb:
            return None
        q, r = {}, {}
        for m, c in pa.items():
            d = dict(m)
            if all(d.get(x, 0) >= e for x, e in mb) and c.denominator == 1:
                for x, e in mb:
                    d[x] -= e
                q[tuple(sorted((x, e) for x, e in d.items() if e))] = c
            else:
                r[m] = c
        if not q:
            return None
        return to_term(q), to_term(r)
    # sum divisor, e.g. (n + 1): leading monomial division
    lead = max(pb.items(), key = lambda mc: (sum(e for _, e in mc[0]), mc[0]))
    mb, cb = lead
    if cb != 1:
        return None
    q, r = {}, dict(pa)
    for _ in range(50):
        for m, c in sorted(r.items(), key = lambda mc: (-sum(e for _, e in mc[0]), mc[0])):
            d = dict(m)
            if all(d.get(x, 0) >= e for x, e in mb) and c.denominator == 1:
                for x, e in mb:
                    d[x] -= e
                mq = tuple(sorted((x, e) for x, e in d.items() if e))
                q = p_add(q, {mq: c})
                r = p_add(r, p_mul({mq: c}, pb), -1)
                break
        else:
            break
    if not q:
        return None
    return to_term(q), to_term(r)


def leading_negative(t):
    """canonical sign choice for odd/even functions"""
    try:
        n, d = _num_den(t, {}, [], None)
    except TooBig:
        return False
    if not n:
        return False
    keyed = sorted(n.items(), key = lambda mc: [(str(_atoms[a]), e) for a, e in mc[0]])
    return keyed[0][1] < 0


def pi_multiple(t):
    """if t is q * PI, returns the fraction q"""
    from vcpy.core import PI
    try:
        n, d = _num_den(t, {}, [], None)
    except TooBig:
        return None
    if d != {(): 1}:
        return None
    if not n:
        return Fraction(0)
    k = ((_atom(PI), 1),)
    if set(n) == {k}:
        return n[k]
    return None


def angle_parts(t, max_parts = 4):
    """writes an angle as (q, [(coefficient sign, term with positive leading coefficient)...]): a multiple q of PI plus a sum;
    whole turns (PI times an even integer times an integer valued term) are dropped; None if not of a form dealt with"""
    from vcpy.core import PI
    try:
        n, d = _num_den(t, {}, [], None)
    except TooBig:
        return None
    pi = _atom(PI)
    if d != {(): 1}:
        # cancel a power of PI
        if len(d) != 1:
            return None
        (m, c), = d.items()
        if len(m) != 1 or m[0][0] != pi:
            return None
        e = m[0][1]
        r = {}
        for mm, cc in n.items():
            dd = dict(mm)
            if dd.get(pi, 0) < e:
                return None
            dd[pi] -= e
            r[tuple(sorted((x, y) for x, y in dd.items() if y))] = cc / c
        n = r
    q = Fraction(0)
    parts = []
    for m, c in n.items():
        if m == ((pi, 1),):
            q += c
            continue
        dd = dict(m)
        if dd.get(pi, 0) == 1 and c.denominator == 1 and c % 2 == 0:
            rest = [x for x in dd if x != pi]
            if all(_atoms[x].sort() == z3.IntSort() for x in rest):
                continue  # whole turns
        parts.append((m, c))
    parts.sort(key = lambda mc: [(str(_atoms[a]), e) for a, e in mc[0]])
    if len(parts) > max_parts:
        return None
    return q, [(1 if c > 0 else -1, to_term({m: abs(c)}, z3.RealSort())) for m, c in parts]


def sum_of_squares(t):
    """is t a polynomial with positive coefficients and even powers only"""
    try:
        n, d = _num_den(t, {}, [], None)
    except TooBig:
        return False
    return d == {(): 1} and all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in n.items())
