"""vcpy.prover: discharging obligations, exploring paths, extracting counterexamples."""

import os
import re
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction

import z3

from vcpy import core, ring
from vcpy.core import (Ctx, Obligation, Unsupported, PathDone, Infeasible, Restart, Budget, SBool, SInt, SReal, bool_term)

DUMP = os.environ.get('VC_DUMP')


class Explorer:
    """enumerates the paths of a harness and discharges its obligations"""

    def __init__(self, name, api, budget_s = 240.0, max_paths = 4000, max_unroll = 12, timeout_ms = 20000,
                 branch_timeout_ms = 2000, max_enum = 0):
        self.name, self.api = name, api
        self.deadline = time.time() + budget_s
        self.max_paths, self.max_unroll = max_paths, max_unroll
        self.timeout_ms, self.branch_timeout_ms = timeout_ms, branch_timeout_ms
        self.max_enum, self.allow_enum = max_enum, max_enum > 0
        self.use_invariants = True
        self.frames = {}
        self.notes = []
        self.restarts = 0
        self.reset()

    def reset(self):
        self.work = [[]]
        self.obligations = []
        self.paths = self.infeasible = self.completed_iterations = 0
        self.unrolled = 0
        self.branch_time = 0.0
        self.linear_time = 0.0
        self.branch_queries = 0
        self.failures = []
        self.unsupported = []
        self.raised = {}
        self.checks_reached = set()

    def push(self, prefix):
        self.work.append(prefix)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def note_unroll(self):
        self.unrolled += 1

    # ---- exploration
    def run(self, fn):
        self.reset()
        while self.work:
            prefix = self.work.pop()
            mark = len(self.work), len(self.obligations), len(self.failures), self.completed_iterations, self.unrolled
            if self.paths >= self.max_paths:
                self.unsupported.append(f'more than {self.max_paths} paths')
                return
            self.paths += 1
            c = Ctx(prefix, self)
            core.set_ctx(c)
            self.api.new_path(c)
            try:
                fn(self.api)
            except PathDone:
                pass
            except Infeasible:
                self.infeasible += 1
            except Unsupported as e:
                self.unsupported.append(f'{e} [{where(e)}]')
                if len(self.unsupported) > 3:
                    return
            except Budget as e:
                self.unsupported.append(str(e))
                return
            except Restart:
                # the frame of a loop was found to be larger: this path starts again
                self.restarts += 1
                if self.restarts > 2000:
                    self.unsupported.append('loop frames do not stabilise')
                    return
                del self.work[mark[0]:], self.obligations[mark[1]:], self.failures[mark[2]:]
                self.completed_iterations, self.unrolled = mark[3:]
                self.paths -= 1
                self.work.append(prefix)
            except RecursionError as e:
                self.unsupported.append(f'recursion [{where(e)}]')
                return
            except Exception as e:
                try:
                    self.escaped(c, e)
                except Budget as b:
                    self.unsupported.append(str(b))
                    return
            finally:
                core.set_ctx(None)
                self.api.end_path(c)

    def escaped(self, c, e):
        """an exception which the contract does not allow was raised on this path"""
        if c.bound:
            c.bound.clear()
        if self.api.bare_attribute_error(e):
            self.unsupported.append(f'harness does not fit the code: {e!r} [{where(e)}]')
            return
        if isinstance(e, TypeError) and ARGS.search(str(e)) or \
                isinstance(e, AttributeError) and type(getattr(e, 'obj', None)).__module__.startswith('vcpy') or \
                isinstance(e, (NotImplementedError, NameError)) and not isinstance(e, UnboundLocalError) and in_vcpy(e):
            self.unsupported.append(f'outside the subset handled: {e!r} [{where(e)}]')
            return
        label = f'no {type(e).__name__} escapes'
        t0 = time.time()
        r = c.solver.check() if not c.pc else self.final_check(c, core._true)
        if str(r) == 'unsat':
            self.infeasible += 1
            return
        tb = where(e)
        detail = f'{type(e).__name__}: {str(e)[:300]} at {tb}'
        model = None
        if str(r) == 'sat':
            model = self.extract(c, [])
        ob = Obligation(label, 'failed', 'z3', time.time() - t0, detail, model, list(c.trace))
        self.obligations.append(ob)
        self.failures.append(ob)

    def final_check(self, c, t):
        c.solver.push()
        c.solver.set('timeout', 10000)
        c.solver.add(t)
        r = c.solver.check()
        c.solver.pop()
        c.solver.set('timeout', self.branch_timeout_ms)
        return r

    # ---- obligations
    def prove(self, c, label, x):
        if c.bound:
            raise Unsupported('obligation inside quantified expression')
        t = bool_term(x)
        self.checks_reached.add(label)
        parts = split(t)
        for k, p in enumerate(parts):
            self.prove1(c, label, p)

    def prove1(self, c, label, t):
        c.check_time()
        t0 = time.time()
        res, backend, model = self.discharge(c, t)
        dt = time.time() - t0
        if DUMP and dt > 1:
            print(f'    {self.name} {label} {res} {backend} {dt:.1f}s', flush = True)
        ob = Obligation(label, res, backend, dt, None, model, list(c.trace))
        self.obligations.append(ob)
        if res == 'proved':
            if not z3.is_true(t):
                c.pc.append(t)
                c.solver.add(t)
        else:
            ob.detail = f'{res}: {str(t)[:600]}'
            self.failures.append(ob)
            if len(self.failures) > 6:
                raise Budget('too many failed obligations')

    def discharge(self, c, t):
        """returns (proved | failed | unknown, backend, model)"""
        s = z3.simplify(t)
        if z3.is_true(s):
            return 'proved', 'simplifier', None
        if z3.is_eq(t) and t.arg(0).sort() in (core.R, core.I):
            dens = ring.equal(t.arg(0), t.arg(1), c)
            if dens is not None and all(c.known(d != 0) for d in dens):
                return 'proved', 'ring', None
        if z3.is_eq(t) and t.arg(0).sort() == core.R and first_condition(t) is not None:
            if self.by_cases(c, t):
                return 'proved', 'cases', None
        neg = z3.Not(t)
        if c.linear_unsat(neg):
            return 'proved', 'z3-linear', None
        c.solver.push()
        try:
            c.solver.set('timeout', min(self.timeout_ms, 400 if nonlinear_reals(t) else 2000))
            c.solver.add(neg)
            r = str(c.solver.check())
            if r == 'unsat':
                return 'proved', 'z3', None
            if r == 'sat':
                return 'failed', 'z3', self.extract(c, [neg])
        finally:
            c.solver.pop()
            c.solver.set('timeout', self.branch_timeout_ms)
        return self.discharge_hard(c, t, neg)

    def by_cases(self, c, t, budget = None, depth = 0, subs = ()):
        """proof by cases on the conditions of the if-then-else terms in t; leaves by the ring back end or z3"""
        budget = budget if budget is not None else [64, time.time() + 30]
        budget[0] -= 1
        if budget[0] < 0 or depth > 12 or time.time() > budget[1]:
            return False
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        eqs = [x for x in (t.children() if z3.is_or(t) else [t]) if z3.is_eq(x) and x.arg(0).sort() == core.R]
        cond = first_condition(t)
        if cond is None:
            for e in eqs:
                dens = ring.equal(e.arg(0), e.arg(1), c)
                if dens is not None and all(c.known(d != 0) for d in dens):
                    return True
            if c.sat_with(z3.Not(t), 1000) == 'unsat':
                return True
            return bool(eqs) and self.by_real_algebra(c, z3.Not(t), subs)
        depth_of = len(c.cases)
        for v in (True, False):
            k = cond if v else z3.Not(cond)
            c.solver.push()
            keep, c.known_cache = c.known_cache, {}
            try:
                if c.sat_with(k, 300, True) == 'unsat':
                    continue
                c.solver.add(k)
                c.cases.append(k)
                if not self.by_cases(c, z3.substitute(t, (cond, z3.BoolVal(v))), budget, depth + 1,
                                     subs + ((cond, z3.BoolVal(v)),)):
                    return False
            finally:
                c.solver.pop()
                c.known_cache = keep
                del c.cases[depth_of:]
        return True

    def by_real_algebra(self, c, neg, subs = ()):
        """unsatisfiability shown from the relevant quantifier free facts about reals alone, every function application being
        replaced by a variable"""
        ab = RealAbstraction()
        n = ab.convert(neg)
        if n is None:
            return False
        goal = ab.atoms_of(neg)
        facts = []
        for a in c.pc:
            for p in split(a):
                if subs:
                    p0 = p
                    for cond, v in subs:
                        p = z3.substitute(p, (cond, v))
                    if not p.eq(p0):
                        p = z3.simplify(p)
                q = ab.convert(p)
                if q is not None:
                    facts.append((q, ab.atoms_of(p)))
        near = [q for q, at in facts if at & goal]
        tries = [([q for q, at in facts if at <= goal], 3000), (near, 8000)]
        if len(near) < len(facts):
            tries.append(([q for q, at in facts], 8000))
        if subs:
            for cond, v in subs:
                q = ab.convert(cond)
                if q is not None:
                    for f in tries:
                        f[0].append(q if z3.is_true(v) else z3.Not(q))
        for fs, tm in tries:
            c.check_time()
            s = z3.Then('simplify', 'propagate-values', 'purify-arith', 'elim-term-ite', 'simplify', 'propagate-values',
                        'solve-eqs', 'tseitin-cnf', 'qfnra-nlsat').solver()
            s.set('timeout', tm)
            for f in fs:
                s.add(f)
            s.add(n)
            try:
                r = str(s.check())
                if DUMP and DUMP != '1':
                    print('nlsat', len(fs), r, s.reason_unknown() if r == 'unknown' else '')
                if r == 'unsat':
                    return True
            except z3.Z3Exception as e:
                if DUMP:
                    print('nlsat', e)
        return False

    def discharge_hard(self, c, t, neg):
        pc = list(c.pc)
        model = None
        if first_condition(t) is not None and self.by_cases(c, t):
            return 'proved', 'cases', None
        # disjunction / implication: equalities may follow by ring under the antecedent
        if self.by_real_algebra(c, neg):
            return 'proved', 'z3-nlsat', None
        for mk, tm in strategies(self.timeout_ms):
            c.check_time()
            s = mk()
            s.set('timeout', tm)
            for a in pc:
                s.add(a)
            s.add(neg)
            try:
                r = str(s.check())
            except z3.Z3Exception:
                continue
            if r == 'unsat':
                return 'proved', 'z3', None
            if r == 'sat':
                return 'failed', 'z3', self.extract(c, [neg])
        r = run_cvc5(pc + [neg], self.timeout_ms)
        if r == 'unsat':
            return 'proved', 'cvc5', None
        if r == 'sat':
            return 'failed', 'cvc5', None
        # try to find a candidate counterexample without the quantified facts
        s = z3.Solver()
        s.set('timeout', 3000)
        for a in pc:
            if not has_quant(a):
                s.add(a)
        s.add(neg)
        if str(s.check()) == 'sat':
            return 'unknown', 'z3+cvc5', self.model_inputs(c, s.model())
        return 'unknown', 'z3+cvc5', None

    # ---- counterexamples
    def extract(self, c, extra):
        """values of the declared inputs in a (preferably small) model of the path condition and extra"""
        ints = [s['t'] for s in c.inputs.values() if s['kind'] == 'int']
        reals = [s['t'] for s in c.inputs.values() if s['kind'] == 'real']
        elems = []
        for s in c.inputs.values():
            if s['kind'] == 'array':
                elems += s['elems']
        relems = [e for e in elems if z3.is_real(e)]
        ielems = [e for e in elems if z3.is_int(e)]
        tries = []
        for b in (3, 6, 20):
            tries.append([z3.And(x >= -b, x <= b) for x in ints + ielems] + [z3.And(z3.IsInt(x), x >= -8, x <= 8)
                                                                          for x in reals + relems])
            tries.append([z3.And(x >= -b, x <= b) for x in ints + ielems] + [z3.And(x >= -50, x <= 50)
                                                                          for x in reals + relems])
        tries.append([z3.And(x >= -20, x <= 20) for x in ints])
        tries.append([])
        for tr in tries:
            s = z3.Solver()
            s.set('timeout', 3000)
            for a in c.pc:
                s.add(a)
            for a in extra + tr:
                s.add(a)
            try:
                if str(s.check()) == 'sat':
                    return self.model_inputs(c, s.model())
            except z3.Z3Exception:
                pass
        return None

    def model_inputs(self, c, m):
        out = {}
        val = lambda t: value_of(m, t)
        for name, s in c.inputs.items():
            if s['kind'] == 'choice':
                out[name] = s['value']
            elif s['kind'] == 'array':
                shape = [x if isinstance(x, int) else val(x.t) for x in s['shape']]
                n = 1
                for x in shape:
                    n *= max(0, x)
                if n > 100000:
                    return None
                import numpy as np
                data = []
                for idx in np.ndindex(*[max(0, x) for x in shape]):
                    data.append(val(s['at'](idx)))
                nans = None
                if s.get('nan_at'):
                    nans = [val(s['nan_at'](idx)) for idx in np.ndindex(*[max(0, x) for x in shape])]
                    data = [float('nan') if b else v for v, b in zip(data, nans)]
                out[name] = {'shape': shape, 'data': [jval(v) for v in data], 'dtype': s['dtype']}
            else:
                v = val(s['t'])
                if s.get('nan') is not None and val(s['nan']):
                    v = float('nan')
                out[name] = jval(v)
        return out


def jval(v):
    if isinstance(v, Fraction):
        return float(v)
    return v


def value_of(m, t):
    v = m.eval(t, model_completion = True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    return 0


class RealAbstraction:
    """rewrites a quantifier free formula over reals and booleans, maximal applications of uninterpreted functions becoming
    variables; None for anything else"""
    ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER, z3.Z3_OP_LE,
             z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT,
             z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_ANUM}

    def __init__(self):
        self.var = {}
        self.keep = []
        self.memo = {}
        self.memo_atoms = {}

    def convert(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(t)
        r = None
        if z3.is_app(t):
            kd = t.decl().kind()
            if kd in self.ARITH:
                ch = [self.convert(x) for x in t.children()]
                if all(x is not None for x in ch):
                    r = t.decl()(*ch) if ch and not z3.is_and(t) and not z3.is_or(t) and kd not in (
                        z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (t if not ch else z3.And(*ch) if z3.is_and(t) else z3.Or(*ch)
                                                          if z3.is_or(t) else z3.Sum(*ch) if kd == z3.Z3_OP_ADD else
                                                          z3.Product(*ch))
            elif t.sort() in (core.R, core.B) and (kd == z3.Z3_OP_UNINTERPRETED or kd == z3.Z3_OP_TO_REAL):
                self.var[k] = r = z3.Const(f'nra!{k}', t.sort())
        self.memo[k] = r
        return r

    def atoms_of(self, t):
        k = t.get_id()
        if k not in self.memo_atoms:
            self.keep.append(t)
            if k in self.var:
                self.memo_atoms[k] = frozenset([k])
            else:
                r = frozenset()
                for ch in t.children():
                    r = r | self.atoms_of(ch)
                self.memo_atoms[k] = r
        return self.memo_atoms[k]


def first_condition(t):
    """an innermost condition of an if-then-else term within t (not under a quantifier), or None"""
    seen = set()

    def go(u):
        if u.get_id() in seen or not z3.is_app(u):
            return None
        seen.add(u.get_id())
        if u.decl().kind() == z3.Z3_OP_ITE:
            r = go(u.arg(0))
            return r if r is not None else u.arg(0)
        for ch in u.children():
            r = go(ch)
            if r is not None:
                return r
        return None

    return go(t)


def nonlinear_reals(t):
    """is t about reals, with products or quotients of them"""
    seen = set()

    def go(u):
        if u.get_id() in seen:
            return False
        seen.add(u.get_id())
        if z3.is_app(u) and u.sort() == core.R and u.decl().kind() in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and \
                sum(1 for x in u.children() if not z3.is_rational_value(x)) > 1:
            return True
        return any(go(x) for x in u.children())

    return go(t)


def split(t):
    if z3.is_and(t):
        out = []
        for ch in t.children():
            out += split(ch)
        return out
    return [t]


def has_quant(t, seen = None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return True
    return any(has_quant(ch, seen) for ch in t.children())


def strategies(timeout_ms):

    def plain():
        s = z3.Solver()
        s.set('random_seed', 7)
        return s

    def old_arith():
        s = z3.SimpleSolver()
        s.set('arith.solver', 2)
        return s

    def nl():
        return z3.Then('simplify', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'smt').solver()

    def nlsat():
        return z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'solve-eqs', 'qfnra-nlsat').solver()

    def ematch():
        s = z3.Solver()
        s.set('smt.mbqi', False)
        s.set('smt.random_seed', 3)
        return s

    yield ematch, timeout_ms // 2
    yield plain, timeout_ms
    yield nlsat, timeout_ms // 2
    yield old_arith, timeout_ms // 2


def run_cvc5(assertions, timeout_ms):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix = '.smt2')
    with os.fdopen(fd, 'w') as fp:
        fp.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit', str(timeout_ms), path], capture_output = True, text = True,
                           timeout = timeout_ms / 1000 + 10)
        out = p.stdout.strip().split('\n')[0]
        return out if out in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(path)


ARGS = re.compile('unexpected keyword argument|positional argument|required keyword|vcpy|SArr|SReal|SInt|SBool|DArr|LArr')


def in_vcpy(e):
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and '/vcpy/' in tb[-1].filename


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/vcpy/' not in f.filename]
    if not fr:
        fr = tb
    f = fr[-1]
    return f'{f.filename}:{f.lineno} {f.name}'
