"""vcpy.loader: executes the real repository source under instrumentation.

The source text of each resqpy module is read from the repository on every run, parsed, mechanically rewritten and
executed.  The rewriting changes no statement of the code apart from the following:
  - `import numpy`, `import math`, `from numba import ...` bind the stand-ins of vcpy (njit is dropped, prange is range)
  - `import h5py`, `import zipfile`, `from lxml.etree import ...` bind the stand-ins of vcpy.persist
  - calls int(..), float(..), bool(..), str(..) and f-strings go to functions which accept symbolic values
  - `and`, `or`, `not`, chained comparisons and conditional expressions are evaluated by helper functions, so that a
    symbolic condition need not fork; the order of evaluation and short circuiting are kept
  - loops of functions which have a registered invariant are followed by the invariant rule for symbolic iteration
Module global names len, range, min, max, sum, any, all, round, divmod, isinstance and type are the vcpy versions.
"""

import ast
import importlib.abc
import importlib.machinery
import os
import sys

from vcpy import pyshim, npshim, loops, persist

PKG = 'resqpy'
REPO = os.environ.get('VERIF_REPO', '/repo')
SOURCES = {}  # module name -> path

PURE_CALLS = {'len', 'abs', 'min', 'max', 'isinstance', 'float', 'int', 'bool', 'round', '_vc_int', '_vc_float',
              '_vc_bool', '_vc_not', '_vc_and', '_vc_or', '_vc_chain', '_vc_ifexp', 'divmod'}
PURE_MODULES = {'np', 'maths', 'math', 'numpy'}


def is_pure(e):
    """syntactic check: evaluation has no side effects (it may raise)"""
    for n in ast.walk(e):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in PURE_CALLS:
                continue
            if isinstance(f, ast.Attribute):
                b = f.value
                if isinstance(b, ast.Name) and b.id in PURE_MODULES:
                    continue
                if f.attr in ('any', 'all', 'sum', 'min', 'max', 'upper', 'lower', 'startswith', 'endswith'):
                    continue
            return False
    return True


def call(name, args):
    return ast.Call(func = ast.Name(id = name, ctx = ast.Load()), args = args, keywords = [])


def lam(e):
    return ast.Lambda(args = ast.arguments(posonlyargs = [], args = [], kwonlyargs = [], kw_defaults = [], defaults = []),
                      body = e)


class Rewriter(ast.NodeTransformer):

    def __init__(self, modname, tree):
        self.modname = modname
        self.stack = []
        self.in_func = 0
        self.njit = False
        self.in_class_body = [False]
        assigned = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                assigned.add(n.id)
            if isinstance(n, ast.arg):
                assigned.add(n.arg)
            if isinstance(n, ast.FunctionDef):
                assigned.add(n.name)
        self.shadowed = assigned & {'int', 'float', 'bool', 'str'}
        self.loop_count = {}

    # ---- scopes
    def qual(self):
        return '.'.join(self.stack)

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.in_func += 1
        outer, self.njit = self.njit, self.njit or any('jit' in ast.dump(d) for d in node.decorator_list)
        # decorators and defaults are left alone except for njit which is rebound
        node.body = self.visit_body(node.body)
        self.njit = outer
        self.in_func -= 1
        self.stack.pop()
        return node

    def visit_body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self.visit_body(node.body)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Lambda(self, node):
        node.body = self.visit(node.body)
        return node

    # ---- imports
    def visit_Import(self, node):
        out = []
        for a in node.names:
            top = a.name.split('.')[0]
            if a.name in ('numpy', 'math', 'numba', 'h5py', 'zipfile') or (a.name == 'numpy.ma' and a.asname):
                tgt = {'numpy': '_vc_np', 'math': '_vc_maths', 'numba': '_vc_numba', 'numpy.ma': '_vc_ma', 'h5py': '_vc_h5py',
                       'zipfile': '_vc_zf'}[a.name]
                out.append(ast.Assign(targets = [ast.Name(id = a.asname or a.name, ctx = ast.Store())],
                                      value = ast.Name(id = tgt, ctx = ast.Load())))
            else:
                out.append(ast.Import(names = [a]))
        return [ast.copy_location(ast.fix_missing_locations(o), node) for o in out]

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module == 'numba':
            out = []
            for a in node.names:
                if a.name in ('njit', 'jit', 'prange'):
                    out.append(ast.Assign(targets = [ast.Name(id = a.asname or a.name, ctx = ast.Store())],
                                          value = ast.Attribute(value = ast.Name(id = '_vc_numba', ctx = ast.Load()),
                                                                attr = a.name, ctx = ast.Load())))
                else:
                    out.append(ast.ImportFrom(module = 'numba', names = [a], level = 0))
            return [ast.copy_location(ast.fix_missing_locations(o), node) for o in out]
        if node.level == 0 and node.module == 'lxml.etree':
            return [ast.copy_location(ast.Assign(targets = [ast.Name(id = a.asname or a.name, ctx = ast.Store())],
                                                 value = ast.Attribute(value = ast.Name(id = '_vc_etree', ctx = ast.Load()),
                                                                       attr = a.name, ctx = ast.Load())), node)
                    for a in node.names]
        if node.level == 0 and node.module == 'math':
            return [ast.copy_location(ast.Assign(targets = [ast.Name(id = a.asname or a.name, ctx = ast.Store())],
                                                 value = ast.Attribute(value = ast.Name(id = '_vc_maths', ctx = ast.Load()),
                                                                       attr = a.name, ctx = ast.Load())), node)
                    for a in node.names]
        return node

    # ---- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if self.in_func and isinstance(node.func, ast.Name) and node.func.id in ('int', 'float', 'bool', 'str', 'list') and \
                node.func.id not in self.shadowed:
            node.func = ast.copy_location(ast.Name(id = '_vc_' + node.func.id, ctx = ast.Load()), node.func)
        f = node.func
        if self.in_func and isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and \
                isinstance(f.value.value, str):
            node.func = ast.copy_location(ast.Name(id = '_vc_format', ctx = ast.Load()), f)
            node.args.insert(0, f.value)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.in_func and isinstance(node.op, ast.Not):
            return ast.copy_location(call('_vc_not', [node.operand]), node)
        return node

    def visit_BoolOp(self, node):
        pure = [is_pure(v) for v in node.values]
        self.generic_visit(node)
        if not self.in_func or any(isinstance(n, ast.NamedExpr) for n in ast.walk(node)):
            return node
        args = [ast.Tuple(elts = [ast.Constant(value = p), lam(v)], ctx = ast.Load())
                for p, v in zip(pure, node.values)]
        return ast.copy_location(call('_vc_and' if isinstance(node.op, ast.And) else '_vc_or', args), node)

    def visit_Compare(self, node):
        pure = all(is_pure(c) for c in node.comparators[1:])
        self.generic_visit(node)
        sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
        if self.in_func and len(node.ops) > 1 and all(type(o) in sym for o in node.ops) and pure:
            ops = ast.Tuple(elts = [ast.Constant(value = sym[type(o)]) for o in node.ops], ctx = ast.Load())
            return ast.copy_location(call('_vc_chain', [ops, node.left] + node.comparators), node)
        if self.in_func and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = node.comparators[0]
            if isinstance(r, ast.Constant) and isinstance(r.value, bool):  # by value in compiled code
                e = call('_vc_is', [node.left, r, ast.Constant(value = self.njit)])
                if isinstance(node.ops[0], ast.IsNot):
                    e = call('_vc_not', [e])
                return ast.copy_location(e, node)
        return node

    def visit_IfExp(self, node):
        pa, pb = is_pure(node.body), is_pure(node.orelse)
        self.generic_visit(node)
        if not self.in_func:
            return node
        return ast.copy_location(
            call('_vc_ifexp', [node.test, ast.Constant(value = pa), lam(node.body), ast.Constant(value = pb),
                                lam(node.orelse)]), node)

    def visit_JoinedStr(self, node):
        if not self.in_func:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant(value = None)
                if v.format_spec is not None:
                    spec = v.format_spec if all(isinstance(x, ast.Constant) for x in v.format_spec.values) else \
                        self.visit_JoinedStr(v.format_spec)
                parts.append(ast.Tuple(elts = [val, ast.Constant(value = v.conversion), spec], ctx = ast.Load()))
        return ast.copy_location(call('_vc_fstr', parts), node)

    # ---- loops
    def visit_For(self, node):
        return self.loop(node)

    def visit_While(self, node):
        return self.loop(node)

    def loop(self, node):
        q = self.qual()
        key = (self.modname, q)
        if not self.in_func or not loops.has_invariants(self.modname, q):
            self.generic_visit(node)
            return node
        k = self.loop_count.get(q, 0)
        self.loop_count[q] = k + 1
        names = sorted(stored_names(node))
        muts = sorted(mutated_names(node) - set(names))
        tnames = sorted(stored_in(node.target)) if isinstance(node, ast.For) else []
        import copy
        plain = copy.deepcopy(node)
        # the copy keeps the ordinals of nested loops: visit with a saved counter
        saved = dict(self.loop_count)
        self.generic_visit(plain)
        self.loop_count = saved
        sym = node
        self.generic_visit(sym)
        is_for = isinstance(node, ast.For)
        L, IT, BR = f'_vc_L{k}', f'_vc_it{k}', f'_vc_brk{k}'
        nm = lambda i, c = ast.Load(): ast.Name(id = i, ctx = c)
        loc = call('locals', [])
        meth = lambda m, args = (): ast.Call(func = ast.Attribute(value = nm(L), attr = m, ctx = ast.Load()),
                                             args = list(args), keywords = [])
        strs = lambda xs: ast.Tuple(elts = [ast.Constant(value = x) for x in xs], ctx = ast.Load())
        out = []
        if is_for:
            out.append(ast.Assign(targets = [nm(IT, ast.Store())], value = sym.iter))
            plain.iter = nm(IT)
        out.append(
            ast.Assign(targets = [nm(L, ast.Store())],
                       value = call('_vc_loop', [ast.Constant(value = self.modname), ast.Constant(value = q),
                                                  ast.Constant(value = k), nm(IT) if is_for else ast.Constant(value = None),
                                                  ast.Constant(value = 'for' if is_for else 'while'), strs(tnames),
                                                  strs(names + ['~' + m for m in muts]), loc])))
        body = BreakRewriter(BR).rewrite(sym.body)
        one = ast.For(target = nm(f'_vc_one{k}', ast.Store()), iter = ast.Tuple(elts = [ast.Constant(value = 0)], ctx = ast.Load()),
                      body = body, orelse = [])
        symb = []
        if names or muts:
            symb.append(
                ast.Assign(targets = [ast.Tuple(elts = [nm(n, ast.Store()) for n in names + muts], ctx = ast.Store())],
                           value = meth('havoc', [loc])))
        else:
            symb.append(ast.Expr(value = meth('havoc', [loc])))
        symb.append(ast.Expr(value = meth('assume', [loc])))
        inner = []
        if is_for:
            inner.append(ast.Assign(targets = [sym.target], value = meth('item')))
        inner.append(ast.Assign(targets = [nm(BR, ast.Store())], value = ast.Constant(value = False)))
        inner.append(one)
        inner.append(ast.If(test = ast.UnaryOp(op = ast.Not(), operand = nm(BR)),
                            body = [ast.Expr(value = meth('end', [loc]))], orelse = []))
        test = meth('iterate') if is_for else sym.test
        orelse = [ast.Expr(value = meth('exit'))] + (sym.orelse or [])
        symb.append(ast.If(test = test, body = inner, orelse = orelse))
        symb.append(ast.Expr(value = meth('done')))
        out.append(ast.If(test = ast.Compare(left = nm(L), ops = [ast.Is()], comparators = [ast.Constant(value = None)]),
                          body = [plain], orelse = symb))
        return [ast.copy_location(ast.fix_missing_locations(o), node) for o in out]


class BreakRewriter:
    """break -> flag = True; break, for the breaks belonging to this loop"""

    def __init__(self, flag):
        self.flag = flag

    def rewrite(self, body):
        out = []
        for s in body:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        if isinstance(s, ast.Break):
            return [ast.copy_location(ast.Assign(targets = [ast.Name(id = self.flag, ctx = ast.Store())],
                                                 value = ast.Constant(value = True)), s), s]
        if isinstance(s, (ast.For, ast.While)):
            s.orelse = self.rewrite(s.orelse)
            return [s]
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return [s]
        for f in ('body', 'orelse', 'finalbody'):
            if hasattr(s, f) and isinstance(getattr(s, f), list):
                setattr(s, f, self.rewrite(getattr(s, f)))
        if isinstance(s, ast.Try):
            for h in s.handlers:
                h.body = self.rewrite(h.body)
        return [s]


def stored_in(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def stored_names(node):
    """names assigned in the body of a loop (not within nested functions or comprehensions)"""
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        for ch in ast.iter_child_nodes(n):
            go(ch)

    go(node)
    return {n for n in out if not n.startswith('_vc_')}


def mutated_names(node):
    """names of variables on which a list mutating method is called in the body of a loop"""
    return {n.func.value.id for n in ast.walk(node)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and
            n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove')}


def transform(src, modname, path):
    tree = ast.parse(src, path)
    tree = Rewriter(modname, tree).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Loader(importlib.abc.Loader):

    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding = 'utf-8') as fp:
            src = fp.read()
        SOURCES[self.name] = self.path
        d = module.__dict__
        d['__builtins__'] = pyshim.BUILTINS
        d['_vc_np'] = npshim
        d['_vc_ma'] = npshim.ma
        d['_vc_etree'], d['_vc_h5py'], d['_vc_zf'] = persist.etree, persist.h5py, persist.zf
        d['_vc_maths'] = pyshim.maths
        d['_vc_numba'] = pyshim.numba
        d['_vc_loop'] = loops.begin
        d.update(pyshim.HELPERS)
        d['__file__'] = self.path
        exec(transform(src, self.name, self.path), d)


class Finder(importlib.abc.MetaPathFinder):

    def find_spec(self, name, path = None, target = None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        rel = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            p = os.path.join(rel, '__init__.py')
            return importlib.machinery.ModuleSpec(name, Loader(name, p), origin = p, is_package = True)
        if os.path.exists(rel + '.py'):
            p = rel + '.py'
            spec = importlib.machinery.ModuleSpec(name, Loader(name, p), origin = p)
            return spec
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        for m in list(sys.modules):
            if m == PKG or m.startswith(PKG + '.'):
                raise RuntimeError('resqpy imported before instrumentation')
        sys.meta_path.insert(0, Finder())
