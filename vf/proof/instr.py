"""Mechanical instrumentation of /repo/dustmaker (done afresh on every run) and the run-time of the instrumented code.

What the instrumentation changes, exactly:
 * every call f(...) becomes vf__call(f, ...), which calls f unless an argument is symbolic and f is a builtin with
   a symbolic counterpart (table SHIMS), or f is replaced by its contract (engine stubs);
 * `for` loops get their iterable wrapped and, only when it is a symbolic sequence, are cut (Loop below);
 * comprehensions and generator expressions get their first iterable wrapped likewise;
 * list/dict displays in functions become TList/TDict (list/dict subclasses that journal mutations in cut loops);
 * functools.lru_cache is dropped; nothing else is.
The package is loaded under the name `vdust`, next to the untouched `dustmaker`."""
import ast
import builtins
import copy
import enum
import fractions
import importlib.abc
import importlib.machinery
import io
import itertools
import math
import os
import sys
import types
import zlib

import z3

from . import engine as E
from . import vals as V
from .engine import B, I, Poison, PathEnd, Rl, SBool, SInt, SReal, Sym, Unsupported, boo, num, run, simp
from .vals import SGen, SRange, SSeq, SText, TDict, TList, as_seq, mkbytes, mktext

UNBOUND = object()


# ------------------------------------------------------------------------------------------------ AST
class Names(ast.NodeVisitor):
    """names (re)bound in a loop body, not descending into nested scopes"""

    def __init__(self):
        self.n = []

    def add(self, x):
        if x not in self.n:
            self.n.append(x)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def _comp(self, node):
        for x in ast.walk(node):
            if isinstance(x, ast.NamedExpr):
                self.add(x.target.id)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


class Instr(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.n = 0

    def name(self, s):
        return ast.Name(id=s, ctx=ast.Load())

    def visit_FunctionDef(self, node):
        node.decorator_list = [d for d in node.decorator_list if "lru_cache" not in ast.dump(d) and "'cache'" not in ast.dump(d)]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs + [x for x in (node.args.vararg, node.args.kwarg) if x]:
            a.annotation = None
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self.depth += 1
        outer = getattr(self, "outer", None)
        self.outer = node
        node.body = self.block(node.body)
        names = [x for s in node.body if isinstance(s, (ast.Nonlocal, ast.Global)) for x in s.names]
        if names:
            i = max(j for j, s in enumerate(node.body) if isinstance(s, (ast.Nonlocal, ast.Global))) + 1
            node.body.insert(i, ast.copy_location(ast.Expr(ast.Call(func=self.name("vf__shared"), args=[ast.Constant(tuple(names))], keywords=[])), node.body[0]))
        self.outer = outer
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d = self.depth
        self.depth = 0
        node.body = self.block(node.body)
        self.depth = d
        return node

    def visit_AnnAssign(self, node):
        if self.depth and node.value is None:
            return ast.copy_location(ast.Pass(), node)
        if self.depth:
            return ast.copy_location(ast.Assign(targets=[self.visit(node.target)], value=self.visit(node.value)), node)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals"):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=self.name("vf__call"), args=[node.func] + node.args, keywords=node.keywords), node)

    def thunk(self, n):
        return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=self.name(n))

    def shared(self):
        """variables of the current function that functions nested in it may assign"""
        own, decl = Names(), []
        for s in self.outer.body:
            own.visit(s)
            if isinstance(s, ast.Nonlocal):
                own.n += s.names
        mine = set(own.n) | {a.arg for a in self.outer.args.args + self.outer.args.kwonlyargs + self.outer.args.posonlyargs}
        for f in ast.walk(self.outer):
            if isinstance(f, ast.FunctionDef) and f is not self.outer:
                for s in ast.walk(f):
                    if isinstance(s, ast.Nonlocal):
                        decl += [x for x in s.names if x in mine and x not in decl]
        return decl

    def visit_Expr(self, node):
        if isinstance(node.value, ast.YieldFrom) and self.depth:
            self.n += 1
            y = "vf__y%d" % self.n
            loop = ast.For(target=ast.Name(id=y, ctx=ast.Store()), iter=node.value.value, body=[ast.Expr(ast.Yield(self.name(y)))], orelse=[])
            return self.visit_For(ast.fix_missing_locations(ast.copy_location(loop, node)))
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        if not self.depth:
            self.generic_visit(node)
            return node
        nm = Names()
        for s in node.body:
            nm.visit(s)
        tn = Names()
        tn.visit(node.target)
        body_names = [x for x in nm.n if not x.startswith("vf__")]
        body_names += [x for x in self.shared() if x not in body_names and x not in tn.n]
        all_names = body_names + [x for x in tn.n if x not in body_names]
        count = counters(node.body)
        self.n += 1
        lv = "vf__l%d" % self.n
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        pre = ast.Assign(targets=[ast.Name(id=lv, ctx=ast.Store())], value=ast.Call(func=self.name("vf__loop"), args=[node.iter, ast.Constant(self.outer.name), ast.Constant(count)], keywords=[]))

        def hook(meth, names):
            if not names:
                val = ast.Expr(ast.Call(func=ast.Attribute(value=self.name(lv), attr=meth, ctx=ast.Load()), args=[], keywords=[]))
            else:
                val = ast.Assign(
                    targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())],
                    value=ast.Call(func=ast.Attribute(value=self.name(lv), attr=meth, ctx=ast.Load()), args=[ast.Tuple(elts=[ast.Tuple(elts=[ast.Constant(x), self.thunk(x)], ctx=ast.Load()) for x in names], ctx=ast.Load())], keywords=[]))
            return ast.If(test=ast.Attribute(value=self.name(lv), attr="generic", ctx=ast.Load()), body=[val], orelse=[])

        node.iter = self.name(lv)
        node.body = [hook("havoc", [x for x in body_names if x not in tn.n])] + node.body
        post = hook("after", all_names)
        res = [pre, node, post]
        for r in res:
            ast.copy_location(r, node)
        return res

    def _first(self, node, fn, kind):
        """(iterable, lambda it: (generator))"""
        gens = node.generators
        it = self.visit(gens[0].iter)
        gens[0].iter = self.name("vf__it")
        for i, g in enumerate(gens):
            if i:
                g.iter = self.visit(g.iter)
                if kind == "dict":
                    g.iter = ast.copy_location(ast.Call(func=self.name("vf__inner"), args=[g.iter], keywords=[]), node)
            g.ifs = [self.visit(c) for c in g.ifs]
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="vf__it")], kwonlyargs=[], kw_defaults=[], defaults=[]), body=fn(gens))
        return it, lam

    def _wrap(self, node, kind, fn):
        walrus = any(isinstance(x, ast.NamedExpr) for x in ast.walk(node))
        it, lam = self._first(node, fn, kind)
        if walrus:  # the target is a variable of the function: outside the fragment when the loop is cut
            kind = "assigning " + kind
        return ast.copy_location(ast.Call(func=self.name("vf__comp"), args=[ast.Constant(kind), it, lam], keywords=[]), node)

    def visit_ListComp(self, node):
        e = self.visit(node.elt)
        return self._wrap(node, "list", lambda g: ast.GeneratorExp(elt=e, generators=g))

    def visit_SetComp(self, node):
        e = self.visit(node.elt)
        return self._wrap(node, "set", lambda g: ast.GeneratorExp(elt=e, generators=g))

    def visit_GeneratorExp(self, node):
        e = self.visit(node.elt)
        return self._wrap(node, "gen", lambda g: ast.GeneratorExp(elt=e, generators=g))

    def visit_DictComp(self, node):
        k, v = self.visit(node.key), self.visit(node.value)
        return self._wrap(node, "dict", lambda g: ast.GeneratorExp(elt=ast.Tuple(elts=[k, v], ctx=ast.Load()), generators=g))

    def visit_Starred(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            node.value = ast.copy_location(ast.Call(func=self.name("vf__star"), args=[node.value], keywords=[]), node)
        return node

    def visit_Tuple(self, node):
        star = isinstance(node.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in node.elts)
        self.generic_visit(node)
        if star and self.depth:
            return ast.copy_location(ast.Call(func=self.name("vf__packed"), args=[node], keywords=[]), node)
        return node

    def visit_List(self, node):
        star = isinstance(node.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in node.elts)
        self.generic_visit(node)
        if star and self.depth:
            node = ast.copy_location(ast.Call(func=self.name("vf__packed"), args=[node], keywords=[]), node)
            return ast.copy_location(ast.Call(func=self.name("vf__list"), args=[node], keywords=[]), node)
        if isinstance(node.ctx, ast.Load) and self.depth:
            return ast.copy_location(ast.Call(func=self.name("vf__list"), args=[node], keywords=[]), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.depth:
            return ast.copy_location(ast.Call(func=self.name("vf__dict"), args=[node], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=self.name("vf__in"), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.Call(func=self.name("vf__not"), args=[c], keywords=[])
            return ast.copy_location(c, node)
        if self.depth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            c = ast.Call(func=self.name("vf__eq" if isinstance(node.ops[0], ast.Eq) else "vf__ne"), args=[node.left, node.comparators[0]], keywords=[])
            return ast.copy_location(c, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load) and not any(isinstance(n, (ast.Slice, ast.Starred)) for n in ast.walk(node.slice)):
            return ast.copy_location(ast.Call(func=self.name("vf__get"), args=[node.value, node.slice], keywords=[]), node)
        return node

    def counting(self, test, body):
        """(counters, thunk of the counter, thunk of the bound) of `while i < n`, where i steps through the passes"""
        count = counters(body)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and count:
            a, b, op = test.left, test.comparators[0], test.ops[0]
            if isinstance(op, ast.Gt):
                a, b, op = b, a, ast.Lt()
            up = [x for x in count if x[1] > 0]
            if isinstance(op, ast.Lt) and isinstance(a, ast.Name) and a.id in dict(up):
                nm = Names()
                for s in body:
                    nm.visit(s)
                if not any(isinstance(x, ast.Name) and x.id in nm.n for x in ast.walk(b)):
                    return count, a.id, b
        return None

    def visit_While(self, node):
        over = self.counting(node.test, node.body) if self.depth else None
        if over is not None:
            over = (over[0], over[1], self.visit(copy.deepcopy(over[2])))
        self.generic_visit_while(node)
        if not self.depth:
            return node
        nm = Names()
        for s in [node.test] + node.body:
            nm.visit(s)
        names = [x for x in nm.n if not x.startswith("vf__")]
        names += [x for x in self.shared() if x not in names]
        self.n += 1
        lv = "vf__w%d" % self.n
        # while TEST: BODY  ->  w = vf__while(fn); while w.head(thunks) [assign] and TEST: BODY ; w.after
        pre = ast.Assign(targets=[ast.Name(id=lv, ctx=ast.Store())], value=ast.Call(func=self.name("vf__while"), args=[ast.Constant(self.outer.name)] + ([] if over is None else [ast.Constant(over[0]), ast.Constant(over[1]), self.thunk(over[1]), ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=over[2])]), keywords=[]))
        th = ast.Tuple(elts=[ast.Tuple(elts=[ast.Constant(x), self.thunk(x)], ctx=ast.Load()) for x in names], ctx=ast.Load())

        def assign(meth):
            c = ast.Call(func=ast.Attribute(value=self.name(lv), attr=meth, ctx=ast.Load()), args=[th], keywords=[])
            if not names:
                return ast.Expr(c)
            return ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=x, ctx=ast.Store()) for x in names], ctx=ast.Store())], value=c)

        head = ast.If(test=ast.Attribute(value=self.name(lv), attr="generic", ctx=ast.Load()), body=[assign("head")], orelse=[])
        test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=[ast.Break()], orelse=[])
        if node.orelse:
            return node
        loop = ast.While(test=ast.Constant(True), body=[head, test] + node.body, orelse=[])
        post = ast.If(test=ast.Attribute(value=self.name(lv), attr="generic", ctx=ast.Load()), body=[ast.Expr(ast.Call(func=ast.Attribute(value=self.name(lv), attr="after", ctx=ast.Load()), args=[], keywords=[]))], orelse=[])
        res = [pre, loop, post]
        for r in res:
            ast.copy_location(r, node)
        return res

    def generic_visit_while(self, node):
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)

    SIMPLE = (ast.Constant, ast.Name, ast.BinOp, ast.UnaryOp, ast.Subscript, ast.Attribute, ast.operator, ast.unaryop, ast.expr_context, ast.Tuple)

    def simple(self, e):
        return all(isinstance(n, self.SIMPLE) for n in ast.walk(e))

    def visit_IfExp(self, node):
        """a if c else b with side-effect free arms: merged into one value when c is symbolic"""
        ok = self.simple(node.body) and self.simple(node.orelse)
        self.generic_visit(node)
        if not ok or not self.depth:
            return node
        lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
        return ast.copy_location(ast.Call(func=self.name("vf__ite"), args=[node.test, lam(node.body), lam(node.orelse)], keywords=[]), node)

    def visit_If(self, node):
        if self.depth and not node.orelse and len(node.body) == 1:
            st = node.body[0]
            tgt = None
            if isinstance(st, ast.AugAssign) and self.simple(st.value):
                tgt, new = st.target, lambda: ast.BinOp(left=self.load(st.target), op=st.op, right=st.value)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and self.simple(st.value) and not isinstance(st.value, ast.Tuple):
                tgt, new = st.targets[0], lambda: st.value
            if tgt is not None and isinstance(tgt, (ast.Name, ast.Subscript)) and self.simple(tgt):
                self.n += 1
                cv = "vf__c%d" % self.n
                test = self.visit(node.test)
                lam = lambda e: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)
                merged = ast.Assign(targets=[tgt], value=ast.Call(func=self.name("vf__ite"), args=[self.name(cv), lam(new()), lam(self.load(tgt))], keywords=[]))
                res = [ast.Assign(targets=[ast.Name(id=cv, ctx=ast.Store())], value=test),
                       ast.If(test=ast.Call(func=self.name("vf__mergeable"), args=[self.name(cv), lam(new()), lam(self.load(tgt))], keywords=[]), body=[merged],
                              orelse=[ast.If(test=self.name(cv), body=[copy.deepcopy(st)], orelse=[])])]
                for r in res:
                    ast.copy_location(r, node)
                return res
        node.test = self.visit(node.test)
        node.body = self.block(node.body)
        node.orelse = self.block(node.orelse)
        return node

    def load(self, t):
        t = copy.deepcopy(t)
        t.ctx = ast.Load()
        return t

    def visit_With(self, node):
        for it in node.items:
            it.context_expr = ast.copy_location(ast.Call(func=self.name("vf__cm"), args=[self.visit(it.context_expr)], keywords=[]), it.context_expr)
        node.body = self.block(node.body)
        return node

    def visit_Try(self, node):
        node.body = self.block(node.body)
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.block(h.body)
        node.orelse = self.block(node.orelse)
        node.finalbody = self.block(node.finalbody)
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node


# ------------------------------------------------------------------------------------------------ loops
class Managed:
    """a context manager; the end of an analysed path is not an exception the code could see"""
    __slots__ = ("cm",)

    def __init__(self, cm):
        self.cm = cm

    def __enter__(self):
        return type(self.cm).__enter__(self.cm)

    def __exit__(self, t, e, tb):
        if t is not None and issubclass(t, (PathEnd, Unsupported, E.Budget)):
            return False
        return type(self.cm).__exit__(self.cm, t, e, tb)


class Plain:
    generic = False
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def cutting(r):
    if r.data.get("raw"):
        raise Unsupported("a generator with a cut loop is consumed outside a loop")
    r.data["cuts"] = r.data.get("cuts", 0) + 1


class VGen:
    """a generator made by instrumented code.  Its own loops may be cut, so what it yields is complete only when it is
    consumed by an instrumented loop or by drain(); any other consumer must not meet a cut loop."""
    __slots__ = ("g",)

    def __init__(self, g):
        self.g = g

    def __iter__(self):
        return self

    def __next__(self):
        r = E.cur
        if r is None:
            return next(self.g)
        r.data["raw"] = r.data.get("raw", 0) + 1
        try:
            return next(self.g)
        finally:
            r.data["raw"] -= 1

    def close(self):
        self.g.close()


def direct(it):
    return it.g if isinstance(it, VGen) else it


def regen(it, f):
    """f(iterator), consumed the way it is"""
    return VGen(iter(f(it.g))) if isinstance(it, VGen) else f(it)


def drain(g):
    """list of what a generator yields; the list is made first, so loops cut inside collect their contributions in it"""
    t = tlist([])
    for x in direct(g):
        t.append(x)
    return t


class GenLoop:
    """a loop over a generator: while a loop of the generator is cut, the consumer's variables are those of an arbitrary
    iteration"""
    generic = True
    counters = {}

    def __init__(self, it, fn):
        self.g, self.fn = it.g, fn

    def __iter__(self):
        self.r = run()
        self.depth = len(self.r.loops)
        self.cuts = self.r.data.get("cuts", 0)
        return self

    def __next__(self):
        return next(self.g)

    def havoc(self, thunks=()):
        out = []
        cut = self.r.data.get("cuts", 0) != self.cuts
        for n, t in thunks:
            try:
                v = t()
            except (NameError, UnboundLocalError):
                v = UNBOUND
            out.append(Poison("value of %s from an earlier iteration" % n) if cut or v is UNBOUND else v)
        return out

    def after(self, thunks=()):
        if len(self.r.loops) != self.depth:
            raise Unsupported("break out of a generic loop (%s)" % self.fn)
        cut = self.r.data.get("cuts", 0) != self.cuts
        out = []
        for n, t in thunks:
            try:
                v = t()
            except (NameError, UnboundLocalError):
                v = UNBOUND
            out.append(Poison("value of %s after a generic loop" % n) if cut or v is UNBOUND else v)
        return out


def counters(body):
    """((name, step), ...): locals whose only assignment in the loop is an unconditional step - candidates for the
    invariant 'initial value + step * iterations', which the loop body is then checked against"""
    def own(stmts):
        for s in stmts:
            yield s
            if not isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
                for f in ("body", "orelse", "finalbody"):
                    yield from own(getattr(s, f, []))
                for h in getattr(s, "handlers", []):
                    yield from own(h.body)
    if any(isinstance(s, ast.Continue) for s in own(body)):
        return ()
    out = []
    for s in body:
        name = step = None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
            name, step = s.target.id, s.value
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add):
            a, b = s.value.left, s.value.right
            if isinstance(b, ast.Name):
                a, b = b, a
            if isinstance(a, ast.Name) and a.id == s.targets[0].id:
                name, step = a.id, b
        if name is None or not isinstance(step, ast.Constant) or type(step.value) is not int:
            continue
        stores = [x for y in body for x in ast.walk(y) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del))]
        if len(stores) == 1:
            out.append((name, step.value))
    return tuple(out)


class LoopInfo:
    def __init__(self):
        self.tails = 0
        self.cands = {}  # accumulator name -> surviving candidate names
        self.unchanged = {}  # non-accumulator name -> True while unchanged
        self.flags = {}  # name -> surviving flag summaries
        self.muts = {}  # birth -> list of surviving list descriptors (names)
        self.reads = set()
        self.folds = {}
        self.cells = {}  # (birth of a list of counters, index) -> surviving candidate names
        self.hookdata = {}


class Loop:
    """cut of a loop over a symbolic sequence"""
    generic = True
    counters = {}  # locals proposed as counters of the iterations: name -> step
    direct = frozenset()  # births of outer lists that a pass may change in place (their state is part of the cut)

    over = None  # the sequence as the program sees it

    def __init__(self, seq, fn):
        self.over = seq
        self.out = None
        if isinstance(seq, V.Via):
            seq, self.out = seq.base, seq.out
        self.seq = seq
        self.fn = fn
        self.started = False
        self.mode = None

    def __iter__(self):
        r = run()
        self.r = r
        cutting(r)
        self.sums = dict(self.seq.info.get("sums", {}))  # name -> (fn(elem,k) -> value, total value)
        self.lists = dict(self.seq.info.get("lists", {}))  # name -> (fn(elem,k) -> [appended], SSeq of all)
        self.folds = dict(self.seq.info.get("folds", {}))  # name -> object with init(value), at(k), step(value, k)
        self.flags = dict(self.seq.info.get("flags", {}))  # name -> (fn(elem,k) -> formula, formula: holds for some k)
        key = ("loop", r.key())
        self.info = r.ex.memo.setdefault(key, LoopInfo())
        for h in r.hooks:
            h.loop_init(self)
        first = self.info.hookdata.setdefault("problems", len(r.ex.problems))
        if r.choose(2) == 0:
            self.mode = "iter"
            k = z3.Int(r.fresh("k"))
            self.k = k
            r.assume(z3.And(k >= 0, k < self.seq.length))
            if not r.feasible():
                raise PathEnd("no iteration")
            r.loops.append(self)
            self.clock = r.tick()
            self.effects = []
            self.cells = {}
            self.thunks = ()
            for h in r.hooks:
                h.loop_enter(self)
            return self
        self.mode = "exit"
        if len(r.ex.problems) != first:
            raise PathEnd("the loop body could not be analysed: what holds after it is not known")
        for h in r.hooks:
            h.loop_exit(self)
        self.apply_effects()
        return self

    def __next__(self):
        if self.mode == "exit":
            raise StopIteration
        if not self.started:
            self.started = True
            if self.seq.mutated:
                raise Unsupported("second iteration over a modified sequence")
            self.elem = self.seq.elem(self.k)
            self.shown = self.elem if self.out is None else self.out(self.elem, self.k)
            return self.shown
        self.tail()
        raise PathEnd("end of the generic iteration")

    # -- state
    def havoc(self, thunks=()):
        self.thunks = thunks
        out = []
        self.entry = {}
        for n, t in thunks:
            try:
                v = t()
            except (NameError, UnboundLocalError):
                v = UNBOUND
            if v is not UNBOUND and any(f.init(v) for f in self.folds.values()):
                fn = next(x for x, f in self.folds.items() if f.init(v))
                h = self.folds[fn].at(self.k)
                self.entry[n] = ("fold", v, h, fn)
                out.append(h)
            elif n in self.counters and self.isacc(v):
                h = num(I(v) + self.counters[n] * self.k)
                self.entry[n] = ("count", v, h)
                out.append(h)
            elif self.isacc(v):
                h = SInt(z3.Int(self.r.fresh("h_" + n)))
                self.entry[n] = ("acc", v, h)
                out.append(h)
                for hk in self.r.hooks:
                    hk.havoc_int(self, n, v, h)
            else:
                p = Poison("value of %s from an earlier iteration" % n)
                self.entry[n] = ("other", v, p)
                out.append(p)
        return out

    @staticmethod
    def isacc(v):
        return type(v) is int or (isinstance(v, SInt) and not isinstance(v, SBool) and v.enum is None)

    def counted(self, n, h, f):
        """the invariant 'n = initial value + step * iterations' must be kept by the body"""
        if not (isinstance(f, (int, SInt)) and not isinstance(f, (bool, SBool)) and self.r.entails(I(f) == I(h) + self.counters[n])):
            raise Unsupported("%s does not count the iterations" % n)

    def tail(self):
        unwind(self)
        inf = self.info
        inf.tails += 1
        for n, t in self.thunks:
            kind, v, h, *fold = self.entry[n]
            f = t()
            if kind == "fold":
                # a value carried from iteration to iteration: what the next one sees must be the next value of the fold
                if not self.r.hint("value of %s carried through the loop" % n, self.folds[fold[0]].step(f, self.k)):
                    raise Unsupported("the value of %s does not follow the expected fold" % n)
                inf.folds[n] = fold[0]
                continue
            if kind == "count":
                self.counted(n, h, f)
                continue
            if kind == "acc":
                ok = set()
                if isinstance(f, (int, SInt)) and not isinstance(f, (bool, SBool)):
                    d = num(I(f) - I(h))
                    for cn, (cf, *_tot) in list(self.sums.items()) + [("#0", (lambda e, k: 0, 0))]:
                        if self.r.entails(I(d) == I(cf(self.elem, num(self.k)))):
                            ok.add(cn)
                    if not ok and len(self.sums) == 1:
                        cn, (cf, *_tot) = next(iter(self.sums.items()))
                        self.r.hint("accumulator %s of the loop over %s" % (n, cn), I(d) == I(cf(self.elem, num(self.k))))
                inf.cands[n] = ok if n not in inf.cands else inf.cands[n] & ok
            else:
                same = f is h
                inf.unchanged[n] = same and inf.unchanged.get(n, True)
                if v is False and (same or f is True):
                    # a flag raised in some iterations
                    ok = {fn for fn, (ff, _t) in self.flags.items() if self.r.entails(B(ff(self.elem, num(self.k))) == (not same))}
                else:
                    ok = set()
                inf.flags[n] = ok if n not in inf.flags else inf.flags[n] & ok
        # counters kept in a list
        zero = {cn for cn, (cf, *_t) in self.sums.items() if self.r.entails(I(cf(self.elem, num(self.k))) == 0)} | {"#0"}
        for key in set(self.cells) | set(inf.cells):
            if key in self.cells:
                _o, h, f = self.cells[key]
                d = I(f) - I(h) if isinstance(f, (int, SInt)) and not isinstance(f, (bool, SBool)) else None
                ok = {cn for cn, (cf, *_t) in list(self.sums.items()) + [("#0", (lambda e, k: 0, 0))] if d is not None and self.r.entails(d == I(cf(self.elem, num(self.k))))}
            else:
                ok = zero
            inf.cells[key] = ok & inf.cells.get(key, inf.hookdata.get("zero_ok", ok))
        inf.hookdata["zero_ok"] = zero & inf.hookdata.get("zero_ok", zero)
        # list effects
        by = {}
        for obj, kind, args in self.effects:
            by.setdefault(obj.birth, (obj, []))[1].append((kind, args))
        for b, (obj, effs) in by.items():
            inf.muts.setdefault(b, None)
        for b in list(inf.muts) + [x for x in by if x not in inf.muts]:
            effs = by.get(b, (None, []))[1]
            app = []
            for kind, args in effs:
                if kind == "append":
                    app.append(args[0])
                elif kind == "set":
                    app.append((args[0], args[1]))
                elif kind == "extend":
                    app.append(args[0])
                else:
                    app = None
                    break
            ok = set()
            if app is not None:
                for ln, (lf, _seq) in self.lists.items():
                    want = lf(self.elem, num(self.k))
                    if len(want) == len(app) and all(self.r.entails(value_eq(x, y)) for x, y in zip(app, want)):
                        ok.add(ln)
                    elif len(self.lists) == 1 and len(want) == len(app):
                        self.r.hint("collected elements of the loop over %s" % ln, z3.And(*[B(value_eq(x, y)) for x, y in zip(app, want)]))
                    elif len(self.lists) == 1:
                        self.r.hint("collected elements of the loop over %s" % ln, False)
            prev = inf.muts.get(b)
            # a list that an earlier tail did not touch counts as 'appended nothing' there
            if prev is None:
                prev = ok if not inf.hookdata.get("tails_before") else ok & inf.hookdata.get("empty_ok", set())
                inf.muts[b] = prev
            else:
                inf.muts[b] = prev & ok
        # descriptors satisfied by appending nothing, over all tails so far
        e_ok = {ln for ln, (lf, _s) in self.lists.items() if len(lf(self.elem, num(self.k))) == 0}
        inf.hookdata["empty_ok"] = e_ok if not inf.hookdata.get("tails_before") else inf.hookdata["empty_ok"] & e_ok
        inf.hookdata["tails_before"] = True
        for h in self.r.hooks:
            h.loop_tail(self)
        self.r.loops.pop()

    def apply_effects(self):
        inf = self.info
        if inf.reads & set(inf.muts):
            raise Unsupported("a collection is read and modified in the same generic loop")
        self.pending = dict(inf.muts)
        for (b, i), cands in inf.cells.items():
            obj = find_birth(self.r, b)
            if obj is None or b in inf.muts:
                raise Unsupported("modified collection not found")
            c = sorted(cands)
            if "#0" not in c:
                list.__setitem__(obj, i, list.__getitem__(obj, i) + self.sums[c[0]][1] if c else Poison("a counter after a generic loop"))
        for b, cands in inf.muts.items():
            if b == -1:
                continue  # the result of a comprehension, made by comp_list
            obj = find_birth(self.r, b)
            if obj is None:
                raise Unsupported("modified collection not found")
            if isinstance(obj, TList):
                c = sorted(cands or ())
                obj.abstract(self.lists[c[0]][1] if c else UnknownSeq("an unsummarised list"))
            else:
                c = sorted(cands or ())
                if self.r.loops and obj.birth < self.r.loops[-1].clock:
                    # what the inner loop adds is one contribution of the iteration of the outer loop
                    self.r.loops[-1].effect(obj, "extend", (self.lists[c[0]][1] if c else UnknownSeq("an unsummarised dict"),))
                    continue
                if dict.__len__(obj) or obj.eff is not None:
                    raise Unsupported("a loop adds to a dict that is not empty")
                obj.eff = self.lists[c[0]][1] if c else UnknownSeq("an unsummarised dict")

    def after(self, thunks=()):
        if self.mode == "iter":
            raise Unsupported("break out of a generic loop (%s)" % self.fn)
        out = []
        inf = self.info
        for n, t in thunks:
            try:
                v = t()
            except (NameError, UnboundLocalError):
                v = UNBOUND
            isacc = self.isacc(v)
            if n in self.counters and isacc:
                out.append(num(I(v) + self.counters[n] * I(self.seq.slen())))
            elif n in inf.folds:
                out.append(self.folds[inf.folds[n]].at(self.seq.length))
            elif isacc and inf.tails == 0:
                out.append(v)
            elif isacc and inf.cands.get(n):
                c = sorted(inf.cands[n])
                out.append(v if "#0" in c else v + self.sums[c[0]][1])
            elif not isacc and v is not UNBOUND and inf.unchanged.get(n, False):
                out.append(v)
            elif v is False and inf.flags.get(n):
                out.append(boo(self.flags[sorted(inf.flags[n])[0]][1]))
            else:
                out.append(Poison("value of %s after a generic loop" % n))
        return out

    def effect(self, obj, kind, args):
        self.effects.append((obj, kind, args))

    def reading(self, obj):
        self.info.reads.add(obj.birth)

    def cell(self, obj, i):
        """counter obj[i] in an arbitrary iteration: [list, value at its start, current value]"""
        i = E.concretize(i) if isinstance(i, SInt) else i
        n = list.__len__(obj)
        if not -n <= i < n:
            raise IndexError("list index out of range")
        i %= n
        if (obj.birth, i) not in self.cells:
            h = SInt(z3.Int(self.r.fresh("cell")))
            self.cells[obj.birth, i] = [obj, h, h]
        return self.cells[obj.birth, i]


class UnknownSeq(SSeq):
    """result of a loop without a summary: any use is outside the supported fragment"""

    def __init__(self, what):
        self.what = what
        self.name, self.info, self.mutated = "unknown", {}, False

    def no(self, *a):
        raise Unsupported("use of " + self.what)

    length = property(no)
    elem = slen = __bool__ = __getitem__ = __iter__ = as_seq = no


def unwind(lp):
    """cut loops inside lp that were left by return: their effects belong to this iteration of lp"""
    r = lp.r
    while r.loops and r.loops[-1] is not lp:
        x = r.loops.pop()
        if not isinstance(x, CutLoop):
            raise Unsupported("a generic loop is left early")
        lp.effects.extend(x.effects)


def find_birth(r, b):
    for o in r.tracked:
        if o.birth == b:
            return o
    return None


def value_eq(a, b):
    """equality as z3 formula / bool for obligations (no forking for numbers and texts of known shape)"""
    if hasattr(type(b), "matches"):
        return b.matches(a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[B(value_eq(x, y)) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
    if a is b:
        return z3.BoolVal(True)
    try:
        r = a == b
    except Unsupported:  # values of different kinds: nothing is known of their equality
        if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b):
            raise
        return z3.BoolVal(False)
    if r is NotImplemented:
        return z3.BoolVal(False)
    return B(r)


def mergeable(c, f, g):
    """may `if c: t = f()` be replaced by t = ite(c, f(), t)?  only numbers, and only if evaluating f is harmless"""
    if not isinstance(c, (SInt, SReal)):
        return False
    r = E.cur
    if r is None:
        return False
    try:
        a, b = f(), g()
    except Exception:
        return False
    return both_num(a, b)


def both_num(a, b):
    ok = (int, bool, SInt, SReal, float)
    if type(a) not in ok and not isinstance(a, (SInt, SReal)) or type(b) not in ok and not isinstance(b, (SInt, SReal)):
        return False
    ba, bb = isinstance(a, (bool, SBool)), isinstance(b, (bool, SBool))
    if ba != bb or E.isreal(a) != E.isreal(b):
        return False
    if getattr(a, "enum", None) is not getattr(b, "enum", None):
        return False
    return not (isinstance(a, Poison) or isinstance(b, Poison))


def vf_ite(c, f, g):
    if isinstance(c, (SInt, SReal)) and E.cur is not None:
        try:
            a, b = f(), g()
            ok = both_num(a, b)
        except Exception:
            ok = False
        if ok:
            cc = B(c)
            if isinstance(a, (bool, SBool)):
                return boo(z3.If(cc, B(a), B(b)))
            if E.isreal(a):
                return num(z3.If(cc, Rl(a), Rl(b)))
            x = num(z3.If(cc, I(a), I(b)))
            if getattr(a, "enum", None) is not None and isinstance(x, SInt):
                x.enum = a.enum
            return x
    return f() if c else g()


class CutLoop(Loop):
    """cut of a loop over a few known elements: an arbitrary one of them with the other iterations' effects unknown,
    or the code after the loop.  The subclass supplies what an iteration assumes (before), must establish (done) and
    what holds after the loop (finish).  Leaving the loop early goes on from that iteration."""

    def __init__(self, items, fn):
        Loop.__init__(self, SSeq("few", len(items), None), fn)
        self.items = list(items)

    def before(self, i):
        pass

    def done(self, i):
        pass

    def finish(self):
        pass

    def __iter__(self):
        r = self.r = run()
        cutting(r)
        self.sums, self.lists, self.flags, self.folds = {}, {}, {}, {}
        self.info = r.ex.memo.setdefault(("loop", r.key()), LoopInfo())
        first = self.info.hookdata.setdefault("problems", len(r.ex.problems))
        i = r.choose(len(self.items) + 1)
        if i < len(self.items):
            self.mode, self.i = "iter", i
            self.k = z3.IntVal(i)
            r.loops.append(self)
            self.clock = r.tick()
            self.effects = []
            self.thunks = ()
            self.before(i)
            return self
        self.mode = "exit"
        if len(r.ex.problems) != first:
            raise PathEnd("the loop body could not be analysed: what holds after it is not known")
        self.finish()
        return self

    def __next__(self):
        if self.mode == "exit":
            raise StopIteration
        if not self.started:
            self.started = True
            self.elem = self.items[self.i]
            return self.elem
        unwind(self)
        self.locals_tail()
        self.done(self.i)
        self.r.loops.pop()
        raise PathEnd("end of the generic iteration")

    def locals_tail(self):
        inf = self.info
        inf.tails += 1
        for n, t in self.thunks:
            kind, v, h = self.entry[n]
            f = t()
            if kind == "count":
                self.counted(n, h, f)
            elif kind == "acc":
                ok = {"#0"} if isinstance(f, (int, SInt)) and not isinstance(f, (bool, SBool)) and self.r.entails(I(f) == I(h)) else set()
                inf.cands[n] = ok if n not in inf.cands else inf.cands[n] & ok
            else:
                inf.unchanged[n] = f is h and inf.unchanged.get(n, True)

    def after(self, thunks=()):
        if self.mode == "exit":
            return Loop.after(self, thunks)
        # left by break: the iteration's own values; its effects on outer collections cannot be summarised
        if self.effects:
            raise Unsupported("a collection is modified in a loop that is left early (%s)" % self.fn)
        if self in self.r.loops:
            self.r.loops.remove(self)
        out = []
        for n, t in thunks:
            try:
                out.append(t())
            except (NameError, UnboundLocalError):
                out.append(Poison("%s is not bound" % n))
        return out


class PlainWhile:
    generic = False


class WhileLoop(Loop):
    """cut of a while loop that consumes a repetition: an arbitrary pass over one element, or everything after the
    last element (where the body may run once more and leave by break, or the condition becomes false)"""

    def __init__(self, seq, fn):
        Loop.__init__(self, seq, fn)
        self.passes = 0

    def head(self, thunks):
        if self.mode is None:
            iter(self)
            if self.mode == "iter":
                self.started = True
                self.elem = self.seq.elem(self.k)
                vals = self.havoc(thunks)
                self.guess = {}
                pre = {n: x for n, x in self.sums.items() if len(x) > 2}
                for n, (kind, v, h) in self.entry.items():
                    if kind == "acc" and len(pre) == 1:
                        name, x = next(iter(pre.items()))
                        self.guess[n] = name
                        self.r.assume(I(h) == I(v) + I(x[2](self.k)))
                return vals
            return Loop.after(self, thunks)
        if self.mode == "iter":
            self.thunks = thunks
            self.tail()
            for n, c in self.guess.items():
                if c not in self.info.cands.get(n, ()):
                    raise Unsupported("loop variable %s does not follow the data" % n)
            raise PathEnd("end of the generic iteration")
        self.passes += 1
        raise Unsupported("the loop continues after the data")

    def after(self, thunks=()):
        if self.mode == "iter" and self.r.feasible():
            raise Unsupported("the loop is left in the middle of the data (%s)" % self.fn)
        if self.mode == "iter":
            raise PathEnd("infeasible")


class WhileOver:
    """`while i < n` with a counter i as a loop over the values of i"""
    generic = True

    def __init__(self, lp, bound, first):
        self.lp, self.bound, self.first = lp, bound, first
        self.begun = False

    def head(self, thunks):
        lp = self.lp
        if not self.begun:
            self.begun = True
            iter(lp)
            if lp.mode == "iter":
                next(lp)
                return lp.havoc(thunks)
            return lp.after(thunks)
        if lp.mode == "iter":
            b = self.bound()
            if b is not self.first and not lp.r.entails(value_eq(b, self.first)):
                raise Unsupported("the bound of a loop changes")
            lp.thunks = thunks
            next(lp)
        raise Unsupported("the loop continues after its bound")

    def after(self, thunks=()):
        if self.lp.mode == "iter":
            self.lp.after(())


def vf_while(fn, count=(), name=None, start=None, bound=None):
    r = E.cur
    if r is not None and name is not None:
        lo, hi = start(), bound()
        num_ = lambda x: isinstance(x, (int, SInt)) and not isinstance(x, (bool, SBool)) and getattr(x, "enum", None) is None
        if num_(lo) and num_(hi):
            lp = vf_loop(sh_range(lo, hi, dict(count)[name]), fn, count)
            if isinstance(lp, Loop):
                return WhileOver(lp, bound, hi)
    if r is not None:
        for h in r.hooks:
            w = h.make_while(fn)
            if w is not None:
                return w
    return PlainWhile


def vf_in(x, c):
    if E.cur is None or not deep_sym(x):
        return x in c
    if isinstance(c, (tuple, list, set, frozenset)) and type(c) in (tuple, list, set, frozenset):
        t = False
        for y in c:
            q = x == y
            if q is NotImplemented or q is False:
                continue
            if q is True:
                return True
            t = q if t is False else boo(z3.Or(B(t), B(q)))
        return t
    if hasattr(type(x), "lookup") and type(c) is dict:
        return x.among(c)
    if isinstance(c, (str, bytes)) and isinstance(x, SText) and x.kind == V.kind_of(c) and x.slen() == 1:
        k = I(x.at(0))
        return boo(z3.Or(*[k == (ord(y) if isinstance(y, str) else y) for y in c])) if c else False
    return x in c


def vf_not(x):
    return boo(z3.Not(B(x))) if isinstance(x, Sym) else not x


def vf_eq(a, b):
    """a == b; tuples with symbolic entries are compared without forking"""
    if type(a) is tuple and type(b) is tuple and E.cur is not None and (deep_sym(a) or deep_sym(b)):
        if len(a) != len(b):
            return False
        t = []
        for x, y in zip(a, b):
            q = True if x is y else vf_eq(x, y)
            if q is False or q is NotImplemented:
                return False
            if q is not True:
                t.append(B(q))
        return boo(z3.And(*t)) if t else True
    return a == b


def vf_ne(a, b):
    if type(a) is tuple and type(b) is tuple:
        return vf_not(vf_eq(a, b))
    return a != b


def merge_rows(rows, i):
    """rows[i] for a symbolic index within bounds, as one value; None if the rows have no common form"""
    t = type(rows[0])
    if any(type(x) is not t for x in rows):
        return None
    if t is tuple:
        n = len(rows[0])
        if any(len(x) != n for x in rows):
            return None
        out = [merge_rows([x[c] for x in rows], i) for c in range(n)]
        return None if any(x is None for x in out) else tuple(out)
    if t is int or t is bool or issubclass(t, enum.IntEnum):
        by = {}
        for k, x in enumerate(rows):
            by.setdefault(int(x), []).append(k)
        vs = sorted(by, key=lambda v: -len(by[v]))
        if len(vs) == 1:
            return rows[0]
        e = z3.IntVal(vs[0])
        for v in vs[1:]:
            e = z3.If(z3.Or(*[i == k for k in by[v]]), z3.IntVal(v), e)
        if t is bool:
            return boo(e == 1)
        return SInt(simp(e), None if t is int else t)
    return None


def vf_get(o, i):
    if E.cur is not None and isinstance(i, Sym) and hasattr(type(i), "lookup") and type(o) is dict:
        return i.lookup(o)
    if isinstance(i, SInt) and E.cur is not None and type(o) in (tuple, list, TList):
        if type(o) is TList and o._cells() is not None:
            return o[i]
        if type(o) is TList and o._read():
            return o[i]
        rows = list(o)
        e = simp(I(i))
        if rows and not z3.is_int_value(e) and run().entails(z3.And(e >= 0, e < len(rows))):
            m = merge_rows(rows, e)
            if m is not None:
                return m
    return o[i]


def vf_shared(names):
    """a function that assigns variables of an enclosing function starts: running loops must know about them"""
    r = E.cur
    if r is not None:
        for lp in r.loops:
            if any(n not in getattr(lp, "entry", ()) for n in names):
                raise Unsupported("a variable of an enclosing function is assigned in a loop")


def vf_loop(it, fn, count=()):
    if E.cur is not None:
        for h in E.cur.hooks:
            it, lp = h.cut(it, fn)
            if lp is not None:
                lp.counters = dict(count)
                return lp
    s = as_seq(it)
    if s is None:
        if isinstance(it, SGen):
            raise Unsupported("loop over a symbolic generator")
        return GenLoop(it, fn) if isinstance(it, VGen) else Plain(it)
    lp = Loop(s, fn)
    lp.counters = dict(count)
    return lp


def comp_list(seq, mk):
    """[e for x in seq] over a symbolic sequence: cut when effects are possible, else lazy map"""
    r = run()
    lp = Loop(seq, "<comprehension>")
    it = iter(lp)
    if lp.mode == "iter":
        x = next(it)
        lp.havoc(())
        got = list(mk(iter([x])))
        res = TList.__new__(TList)
        list.__init__(res)
        res.segs = None
        res.birth = -1
        for g in got:
            lp.effects.append((res, "append", (g,)))
        lp.tail()
        raise PathEnd("end of the generic iteration")
    out = tlist([])
    c = lp.info.muts.get(-1)
    if lp.info.tails == 0:
        return out
    if c:
        out.abstract(lp.lists[sorted(c)[0]][1])
    elif -1 not in lp.info.muts:
        pass  # no iteration contributes an element
    else:
        out.abstract(UnknownSeq("an unsummarised comprehension"))
    return out


def tlist(x=()):
    t = TList(x)
    if E.cur is not None:
        E.cur.tracked.append(t)
    return t


def tdict(x=()):
    t = TDict(x)
    if E.cur is not None:
        E.cur.tracked.append(t)
    return t


class Started:
    """a loop that has been entered"""

    def __init__(self, lp):
        self.lp = iter(lp)

    def __iter__(self):
        return self

    def __next__(self):
        return self.lp.__next__()


def vf_inner(it):
    """iterable of an inner clause of a dict comprehension"""
    s = as_seq(it)
    return it if s is None else Started(Loop(s, "<inner comprehension>"))


def vf_comp(kind, it, mk):
    s = as_seq(it)
    if kind.startswith("assigning "):
        raise Unsupported("assignment in a comprehension")
    if s is None:
        g = mk(iter(direct(it)))
        if kind == "gen":
            return VGen(g) if isinstance(it, VGen) else g
        if kind == "list":
            return drain(g)
        if kind == "dict" and isinstance(it, VGen):
            return sh_dict(VGen(g))
        if isinstance(it, VGen):
            g = VGen(g)
        if kind == "set":
            return set(g)
        return tdict(g)
    if kind == "gen":
        return SGen(s, mk)
    if kind == "list":
        f = s.info.get("pure")
        if f:
            return SSeq("[..]", s.length, lambda k: one(mk(iter([s.elem(k)]))))
        return comp_list(s, mk)
    if kind == "dict":
        t = tdict({})
        for k, v in mk(Started(Loop(s, "<comprehension>"))):
            t[k] = v
        return t
    raise Unsupported("symbolic %s comprehension" % kind)


def one(g):
    x = list(g)
    if len(x) != 1:
        raise Unsupported("filtered comprehension")
    return x[0]


# ------------------------------------------------------------------------------------------------ shims
def anysym(a, k):
    for x in a:
        if isinstance(x, Sym):
            return True
    for x in k.values():
        if isinstance(x, Sym):
            return True
    return False


def deep_sym(x):
    return isinstance(x, Sym) or (isinstance(x, (tuple, list)) and any(deep_sym(y) for y in (x if not isinstance(x, TList) else list.__iter__(x))))


def sh_len(x):
    f = getattr(type(x), "slen", None)
    if f is None:
        return len(x)
    n = f(x)
    if isinstance(n, SInt) and isinstance(x, (SSeq, TList)):
        n = SInt(n.e)
        n.of = x  # a loop over range(len(x)) is a loop over x
    return n


def sh_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for q in ts:
            flat += list(q) if isinstance(q, tuple) else [q]
        if isinstance(x, Poison):
            x.bad()
        if hasattr(type(x), "isinst"):
            return x.isinst(flat)
        en = getattr(x, "enum", None)
        pt = ((en,) if en is not None else ()) + tuple(x.pytypes)
        if not pt or object in pt:
            if object in flat:
                return True
            raise Unsupported("type of an abstract %s" % type(x).__name__)
        return any(isinstance(p, type) and isinstance(q, type) and issubclass(p, q) for p in pt for q in flat)
    return isinstance(x, t)


def sh_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        en = getattr(a[0], "enum", None)
        pt = (en,) if en is not None else tuple(a[0].pytypes)
        if not pt or pt[0] is object:
            raise Unsupported("type of an abstract %s" % type(a[0]).__name__)
        return pt[0]
    return type(*a)


def sh_int(x=0, *a):
    if isinstance(x, Sym):
        if a:
            raise Unsupported("int(text, base)")
        return E.sint(x)
    return int(x, *a)


def sh_float(x=0.0):
    if isinstance(x, SReal):
        return x
    if isinstance(x, SInt):
        return SReal(z3.ToReal(I(x)))
    if isinstance(x, Sym):
        raise Unsupported("float()")
    return float(x)


def sh_bool(x=False):
    if isinstance(x, (SInt, SReal)):
        return boo(B(x))
    if isinstance(x, (SText, SSeq)):
        return boo(I(x.slen()) != 0)
    return bool(x)


def sh_round(x, n=None):
    if isinstance(x, Sym):
        return E.sround(x, n)
    return round(x) if n is None else round(x, n)


def sh_abs(x):
    if isinstance(x, SInt):
        e = I(x)
        return num(z3.If(e < 0, -e, e))
    if isinstance(x, SReal):
        return num(z3.If(x.e < 0, -x.e, x.e))
    return abs(x)


def sh_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    a0, b, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    of = getattr(b, "of", None)
    if of is not None and type(a0) is int and a0 == 0 and type(st) is int and st == 1:
        s = as_seq(of)
        if s is not None and s.length.eq(I(b)) and not z3.is_int_value(simp(s.length)) and not isinstance(s, SRange):
            return V.Via(s, lambda e, k: num(k), "indices of " + s.name)
    r = SRange(a0, b, st)
    if z3.is_int_value(simp(r.length)):
        n = simp(r.length).as_long()
        return [num(I(a0) + i * st) for i in range(n)]
    r.info["pure"] = False
    return r


def sh_bytes(x=b"", *a):
    if isinstance(x, (SText, V.IntBytes)):
        return x
    if isinstance(x, SGen):
        got = comp_list(x.seq, x.mk)
        s = got.as_seq()
        if s is None:
            return mkbytes(got)
        return seq_text("bytes", s)
    if isinstance(x, Sym):
        s = as_seq(x)
        if s is not None:
            return seq_text("bytes", s)
        raise Unsupported("bytes() of a symbolic value")
    if isinstance(x, (bytes, bytearray, int, str, memoryview)):
        return bytes(x, *a)
    s = as_seq(x)
    if s is not None:
        return seq_text("bytes", s)
    items = list(x)
    if any(isinstance(v, Sym) for v in items):
        return mkbytes(items)
    return bytes(items)


def seq_text(kind, s):
    """text whose codes / one-character pieces are the elements of a symbolic sequence"""
    t = s.info.get("text")
    if t is not None:
        return t
    if "segs" in s.info:
        out = []
        for x in s.info["segs"]:
            if isinstance(x, list):
                out += [mkbytes([y]) if kind == "bytes" and isinstance(y, (int, SInt)) else y for y in x]
            else:
                out.append(seq_text(kind, x))
        return V.join_texts(kind, out)
    raise Unsupported("text from an unknown symbolic sequence")


def sh_chr(x):
    if isinstance(x, SInt):
        if x < 0 or x > 0x10FFFF:
            raise ValueError("chr() arg not in range(0x110000)")
        return mktext("str", [("v", [x])])
    return chr(x)


def sh_ord(x):
    if isinstance(x, SText):
        n = x.slen()
        if not isinstance(n, int):
            n = E.concretize(n)
        if n != 1:
            raise TypeError("ord() expected a character")
        return x.at(0)
    return ord(x)


def sh_list(x=()):
    if isinstance(x, SGen):
        return comp_list(x.seq, x.mk)
    s = as_seq(x)
    if s is not None:
        t = tlist([])
        t.abstract(s)
        return t
    return drain(x) if isinstance(x, (VGen, types.GeneratorType)) and E.cur is not None else tlist(x)


def sh_tuple(x=()):
    if isinstance(x, SGen):
        raise Unsupported("tuple of a symbolic generator")
    if hasattr(type(x), "as_tuple"):
        return x.as_tuple()
    s = as_seq(x)
    if s is not None:
        return s
    return tuple(x)


def sh_dict(*a, **k):
    if a and isinstance(a[0], Sym):
        if hasattr(a[0], "copy_map"):
            return a[0].copy_map()
        raise Unsupported("dict() of a symbolic value")
    if a and isinstance(a[0], TDict) and a[0].eff is not None and not k:
        t = tdict()
        t.eff = a[0].eff
        return t
    if a and isinstance(a[0], (VGen, types.GeneratorType)) and E.cur is not None:
        t = tdict()  # made first: loops inside the generator are cut, their contributions are collected in t
        for x, y in direct(a[0]):
            t[x] = y
        for x, y in k.items():
            t[x] = y
        return t
    return tdict(dict(*a, **k))


def sh_enumerate(x, start=0):
    s = as_seq(x)
    if s is None:
        return regen(x, lambda g: enumerate(g, start))
    return V.Via(s, lambda e, k: (num(k + start), e), "enumerate")


def sh_zip(*xs):
    ss = [as_seq(x) for x in xs]
    if all(s is None for s in ss):
        return zip(*xs)
    raise Unsupported("zip of symbolic sequences")


def sh_sorted(x, **k):
    if isinstance(x, SGen):
        raise Unsupported("sorted of a symbolic generator")
    s = as_seq(x)
    if s is None:
        return tlist(sorted(x, **k))
    f = s.info.get("sorted")
    if f is None:
        raise Unsupported("sorted of a symbolic sequence")
    return f(k.get("key"), k.get("reverse", False))


def sh_reversed(x):
    s = as_seq(x)
    if s is None:
        return reversed(x)
    return SSeq("reversed", s.length, lambda k: s.elem(simp(s.length - 1 - k)))


class StarSeq(Sym):
    """*x in a call or display, x a symbolic sequence"""

    def __init__(self, seq):
        self.seq = seq


def vf_star(x):
    if E.cur is not None and isinstance(x, (Sym, TList, TDict)):
        s = as_seq(x)
        if s is not None:
            return (StarSeq(s),)
    return x


def vf_packed(t):
    """a tuple or list display some of whose parts are symbolic sequences"""
    if not any(isinstance(x, StarSeq) for x in t):
        return t
    segs = []
    for x in t:
        if isinstance(x, StarSeq):
            segs.append(x.seq)
        elif segs and isinstance(segs[-1], list):
            segs[-1].append(x)
        else:
            segs.append([x])
    return V.concat_seq(segs)


def extreme(name, x, default=UNBOUND, key=None):
    """max/min over symbolic sequences of numbers: a bound of every element that is one of them (or the default)"""
    if key is not None or isinstance(x, SGen):
        raise Unsupported("%s over a symbolic sequence" % name)
    r = run()
    segs, todo = [], [x]
    while todo:
        y = todo.pop(0)
        if isinstance(y, SSeq) and y.info.get("segs"):
            todo = list(y.info["segs"]) + todo
        else:
            segs.append(y)
    segs = [y for y in segs if not (isinstance(y, list) and not y)]
    if not any(isinstance(y, list) for y in segs):
        if not E.fork(z3.Or(*[y.length > 0 for y in segs])):
            if default is UNBOUND:
                raise ValueError("%s() arg is an empty sequence" % name)
            return default
    up = name == "max"
    bounds, is_one, real = [], [], False
    for y in segs:
        if isinstance(y, list):
            for e in y:
                if isinstance(e, SReal) or isinstance(e, float):
                    raise Unsupported("%s of reals over a symbolic sequence" % name)
                bounds.append(("c", I(e)))
        else:
            k = z3.Int(r.fresh("k"))
            n = len(r.pc)
            e = y.elem(k)
            if not isinstance(e, SInt) or len(r.pc) != n:
                raise Unsupported("%s over a symbolic sequence" % name)
            bounds.append(("q", k, y.length, I(e)))
    m = z3.Int(r.fresh(name))
    for b in bounds:
        if b[0] == "c":
            r.assume(m >= b[1] if up else m <= b[1])
            is_one.append(m == b[1])
        else:
            _, k, n, e = b
            r.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), m >= e if up else m <= e)))
            w = z3.Int(r.fresh("w"))
            is_one.append(z3.And(w >= 0, w < n, m == z3.substitute(e, (k, w))))
    r.assume(z3.Or(*is_one))
    return num(m)


def agg(name):
    f = getattr(builtins, name)

    def sh(*a, **k):
        if any(isinstance(v, StarSeq) for v in a):
            a = (vf_packed(a),)
        if len(a) == 1 and name in ("set", "frozenset") and hasattr(type(a[0]), "as_set"):
            return a[0].as_set()
        if len(a) == 1 and (isinstance(a[0], SGen) or as_seq(a[0]) is not None):
            x = a[0]
            if name in ("any", "all"):
                return quant(name, x)
            h = x.seq.info.get(name) if isinstance(x, SGen) else as_seq(x).info.get(name)
            if h is not None:
                return h(x, **k)
            if name in ("max", "min"):
                return extreme(name, x if isinstance(x, SGen) else as_seq(x), **k)
            raise Unsupported("%s over a symbolic sequence" % name)
        return f(*a, **k)

    return sh


def quant(name, x):
    """any/all over a symbolic sequence: a fresh boolean with a witness"""
    r = run()
    seq, mk = (x.seq, x.mk) if isinstance(x, SGen) else (as_seq(x), lambda it: it)
    c = r.choose(2)
    if c == 0:  # some element decides
        k = z3.Int(r.fresh("w"))
        r.assume(z3.And(k >= 0, k < seq.length))
        for v in mk(iter([seq.elem(k)])):
            t = bool(v)
            if t == (name == "any"):
                return name == "any"
        raise PathEnd("not a witness")
    # no element decides: a universal fact, instantiated by scripts that need it
    r.univ.append((name, seq, mk))
    return name == "all"


def square(x):
    """e with x = e*e or x = |e*e| (i.e. |-e*e|), read off the form of x"""
    e = simp(x.e)
    w = E.int_valued(e) if z3.is_real(e) else None
    if w is not None:
        e = simp(w)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        for c in (e.arg(1), e.arg(2)):
            a = square(SInt(c) if z3.is_int(c) else SReal(c))
            if a is not None and simp(e.arg(1) + e.arg(2)).eq(simp(Rl(0) if z3.is_real(c) else I(0))) and run().entails(e >= 0):
                return a
        return None
    if z3.is_to_real(e):
        e = e.arg(0)
    if e.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() == 2:
        return e.arg(0)
    if z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1)):
        return e.arg(0)
    return None


def sh_sqrt(x):
    if isinstance(x, Sym):
        if x < 0:
            raise ValueError("math domain error")
        r = run()
        a = square(x)
        if a is not None:
            return num(z3.If(a < 0, -Rl(num(a)), Rl(num(a))))
        v = z3.Real(r.fresh("sqrt"))
        r.assume(z3.And(v >= 0, v * v == Rl(x)))
        return SReal(v)
    return math.sqrt(x)


def sh_atan2(y, x):
    """exact on the axes, opaque elsewhere"""
    if not isinstance(y, Sym) and not isinstance(x, Sym):
        return math.atan2(y, x)
    if y == 0:
        if x > 0:
            return 0.0
        if x < 0:
            return math.pi
        return 0.0
    if x == 0:
        if y > 0:
            return math.pi / 2
        return -math.pi / 2
    if isinstance(y, (int, SInt)) and isinstance(x, (int, SInt)):
        return math.atan2(E.concretize(y), E.concretize(x))
    return Poison("atan2 off the axes")


def sh_floor(x):
    if isinstance(x, Sym):
        return x.__floor__()
    return math.floor(x)


def sh_ceil(x):
    if isinstance(x, Sym):
        return x.__ceil__()
    return math.ceil(x)


def sh_from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, V.IntBytes):
        if signed or byteorder != "little":
            raise Unsupported("from_bytes in another byte order")
        return num(b.value())
    if isinstance(b, SText):
        n = b.slen()
        if not isinstance(n, int):
            raise Unsupported("from_bytes of unknown length")
        cs = [b.at(i) for i in range(n)]
        if byteorder == "big":
            cs.reverse()
        t = 0
        for i, c in enumerate(cs):
            t = t + c * (1 << 8 * i)
        if signed:
            if t >= 1 << (8 * n - 1):
                t = t - (1 << 8 * n)
        return t
    return int.from_bytes(b, byteorder, signed=signed)


def deepcopy(x, memo=None):
    return clone(x, {})


def clone(x, memo):
    if isinstance(x, (int, float, str, bytes, bool, type(None), enum.Enum, type, types.FunctionType)):
        return x
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, Sym):
        f = getattr(x, "clone", None)
        y = f(memo) if f is not None else x
        memo[id(x)] = y
        return y
    if isinstance(x, tuple) and type(x) is tuple:
        y = tuple(clone(v, memo) for v in x)
        memo[id(x)] = y
        return y
    if isinstance(x, list):
        if isinstance(x, TList) and x._read():
            raise Unsupported("deepcopy of an abstract list")
        y = tlist([])
        memo[id(x)] = y
        for v in list.__iter__(x):
            list.append(y, clone(v, memo))
        return y
    if isinstance(x, dict):
        if isinstance(x, TDict):
            x._read()
        y = tdict({})
        memo[id(x)] = y
        for k, v in dict.items(x):
            dict.__setitem__(y, clone(k, memo), clone(v, memo))
        return y
    if type(x).__module__.startswith("vdust"):
        dc = getattr(type(x), "__deepcopy__", None)
        if dc is not None:
            return dc(x, memo)
        if isinstance(x, tuple):
            y = tuple.__new__(type(x), [clone(v, memo) for v in x])
            memo[id(x)] = y
            return y
        y = object.__new__(type(x))
        memo[id(x)] = y
        note_born(y)
        for k, v in vars(x).items():
            object.__setattr__(y, k, clone(v, memo))
        return y
    return copy.deepcopy(x, memo)


def shallow(x):
    if isinstance(x, TList):
        return x.copy()
    return copy.copy(x)


def sh_getattr(o, n, *d):
    if isinstance(n, SText):
        raise Unsupported("getattr with a symbolic name")
    if isinstance(o, Sym) and not hasattr(o, n):
        raise Unsupported("attribute %s of an abstract %s" % (n, type(o).__name__))
    return getattr(o, n, *d)


def sh_hasattr(o, n):
    if isinstance(n, SText) or isinstance(o, Sym) and not hasattr(o, n):
        raise Unsupported("attribute of an abstract value")
    return hasattr(o, n)


def sh_hash(x):
    """hash(): built-in hashes are uninterpreted functions of the value hashed (equal values, equal hashes)"""
    r = E.cur
    if r is None:
        return hash(x)
    if not r.data.get("hash"):
        if deep_sym(x):
            raise Unsupported("hash of a symbolic value")
        return hash(x)
    i, re = z3.IntSort(), z3.RealSort()
    if isinstance(x, Poison):
        x.bad()
    en = getattr(x, "enum", None) if isinstance(x, SInt) else type(x) if isinstance(x, enum.Enum) else None
    if en is not None:
        return SInt(z3.Function("hash_enum_" + en.__name__, i, i)(I(x)))
    if E.isnum(x):
        return SInt(z3.Function("hash_number", re, i)(Rl(x)))
    if type(x) is tuple:
        t = [I(sh_hash(y)) for y in x]
        return SInt(z3.Function("hash_tuple%d" % len(t), *[i] * (len(t) + 1))(*t)) if t else hash(())
    f = getattr(type(x), "hash_term", None)
    if f is not None:
        return f(x)
    if isinstance(x, Sym):
        raise Unsupported("hash of a symbolic value")
    if type(x).__module__.startswith("vdust") and not isinstance(x, type):
        h = type(x).__hash__
        if h is None:
            raise TypeError("unhashable type: %r" % type(x).__name__)
        return h(x)
    if isinstance(x, (frozenset, TList, TDict)):
        raise Unsupported("hash of a collection")
    return hash(x)


def g_hash(x):
    return sh_hash(x)


def sh_str(*a):
    if len(a) == 1 and isinstance(a[0], SText) and a[0].kind == "str":
        return a[0]
    if a and isinstance(a[0], Sym):
        raise Unsupported("str() of a symbolic value")
    return str(*a)


def sh_chain(*xs):
    xs = [x for x in xs]
    if any(isinstance(x, StarSeq) for x in xs):
        raise Unsupported("chain of a symbolic sequence of iterables")
    if any(isinstance(x, V.IntBytes) for x in xs):
        out = V.IntBytes([])
        for x in xs:
            out = out + (x if isinstance(x, (V.IntBytes, bytes, SText)) else mkbytes(list(x)))
        return out
    ss = [as_seq(x) for x in xs]
    if all(s is None for s in ss):
        return itertools.chain(*xs)
    segs = []
    for x, s in zip(xs, ss):
        segs.append(s if s is not None else list(x))
    segs = [s for s in segs if not (isinstance(s, list) and not s)]
    return V.concat_seq(segs)


def sh_islice(x, *a):
    if isinstance(x, V.IntBytes):
        return x[slice(*a) if len(a) > 1 else slice(None, *a)]
    s = as_seq(x)
    a = list(a)
    if s is None and not any(isinstance(v, Sym) for v in a):
        if isinstance(x, SText):
            x = list(x)
        return itertools.islice(x, *a)
    if len(a) == 1 and isinstance(x, SText):
        return SlicedText(x, a[0])
    if len(a) == 1 and s is not None:
        n = a[0] if a[0] <= s.slen() else s.slen()
        return s.sub(0, n)
    raise Unsupported("islice")


class SlicedText(Sym):
    def __init__(self, t, n):
        self.t, self.n = t, n

    def as_seq(self):
        n = self.t.slen()
        m = self.n if self.n <= n else n
        return self.t.sub(0, m).as_seq()


def sh_super_setattr(*a):
    return object.__setattr__(*a)


class ShimModule(types.ModuleType):
    def __init__(self, real, **over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__.update({k: v for k, v in vars(real).items() if not k.startswith("__")})
        self.__dict__.update(over)


def lru_identity(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


import functools  # noqa: E402

SHIM_MODULES = {
    "copy": ShimModule(copy, deepcopy=deepcopy, copy=shallow),
    "functools": ShimModule(functools, lru_cache=lru_identity, cache=lru_identity),
}

SHIMS = {}


def reg(f, s):
    SHIMS[id(f)] = s


for _f, _s in [(len, sh_len), (isinstance, sh_isinstance), (type, sh_type), (int, sh_int), (float, sh_float), (bool, sh_bool), (round, sh_round), (abs, sh_abs),
               (range, sh_range), (bytes, sh_bytes), (chr, sh_chr), (ord, sh_ord), (list, sh_list), (tuple, sh_tuple), (dict, sh_dict), (enumerate, sh_enumerate),
               (zip, sh_zip), (sorted, sh_sorted), (reversed, sh_reversed), (math.sqrt, sh_sqrt), (math.atan2, sh_atan2), (math.floor, sh_floor), (math.ceil, sh_ceil),
               (getattr, sh_getattr), (hasattr, sh_hasattr), (hash, sh_hash), (str, sh_str), (itertools.chain, sh_chain), (itertools.islice, sh_islice)] + [(getattr(builtins, _n), agg(_n)) for _n in ("any", "all", "sum", "min", "max", "set", "frozenset")]:
    reg(_f, _s)
_KEEP = [len, isinstance, math.sqrt, math.atan2, math.floor, math.ceil]

_builtin_method = type("".join)
STUBS = {}  # id(function object of vdust) -> contract stub


def vf_call(f, *a, **k):
    r = E.cur
    if r is None:
        return f(*a, **k)
    st = r.stub_for(f)
    if st is not None:
        return st(*a, **k)
    s = SHIMS.get(id(f))
    if s is not None:
        return s(*a, **k)
    if any(type(x) is StarSeq for x in a):
        raise Unsupported("call with a symbolic number of arguments")
    if type(f) is enum.EnumMeta or isinstance(f, enum.EnumMeta):
        if a and isinstance(a[0], SInt):
            return enum_of(f, a[0])
        if a and isinstance(a[0], Sym):
            raise Unsupported("enum of a symbolic value")
        return f(*a, **k)
    if isinstance(f, _builtin_method):
        return call_method(f, a, k)
    if isinstance(f, type) and f.__module__.startswith("vdust"):
        return construct(f, a, k)
    x = f(*a, **k)
    return VGen(x) if type(x) is types.GeneratorType else x


def construct(cls, a, k):
    o = cls(*a, **k)
    for n, f in getattr(cls, "__dataclass_fields__", {}).items():
        # lists and dicts made by a default factory are tracked like any made by the code
        x = o.__dict__.get(n)
        if f.default_factory is list and type(x) is list and not x:
            object.__setattr__(o, n, tlist())
        elif f.default_factory is dict and type(x) is dict and not x:
            object.__setattr__(o, n, tdict())
    return o


def enum_of(cls, x):
    if x.enum is cls:
        return x
    if issubclass(cls, enum.IntFlag):
        return SInt(I(x), cls)  # keeps unknown bits: every integer is a value
    vals = sorted({int(m.value) for m in cls})
    lo, hi = vals[0], vals[-1]
    if vals == list(range(lo, hi + 1)):
        c = z3.And(I(x) >= lo, I(x) <= hi)
    else:
        c = z3.Or(*[I(x) == v for v in vals])
    if E.fork(c):
        e = simp(I(x))
        if z3.is_int_value(e):
            return cls(e.as_long())
        return SInt(e, cls)
    raise ValueError("<sym> is not a valid %s" % cls.__name__)


def call_method(f, a, k):
    s = getattr(f, "__self__", None)
    n = f.__name__
    if isinstance(s, (str, bytes)) and not isinstance(s, type):
        if n == "join":
            x = a[0]
            if isinstance(x, SGen):
                x = comp_list(x.seq, x.mk)
            q = as_seq(x)
            if q is not None:
                if s:
                    raise Unsupported("join with a separator")
                return seq_text("bytes" if isinstance(s, bytes) else "str", q)
            items = list(x)
            if any(isinstance(v, Sym) for v in items):
                kind = "bytes" if isinstance(s, bytes) else "str"
                out = []
                for i, v in enumerate(items):
                    if i and s:
                        out.append(s)
                    out.append(v)
                return V.join_texts(kind, out)
            return f(items)
        if anysym(a, k):
            if n == "format":
                return f(*a, **k)
            if n in ("find", "index") and len(a) == 1 and not k and isinstance(a[0], SText) and a[0].kind == V.kind_of(s) and a[0].slen() == 1:
                c, e = I(a[0].at(0)), z3.IntVal(-1)
                for i in range(len(s) - 1, -1, -1):
                    e = z3.If(c == (ord(s[i]) if isinstance(s, str) else s[i]), z3.IntVal(i), e)
                e = num(e)
                if n == "index" and e < 0:
                    raise ValueError("substring not found")
                return e
            raise Unsupported("%s.%s with a symbolic argument" % (type(s).__name__, n))
        return f(*a, **k)
    if s is int and n == "from_bytes":
        return sh_from_bytes(*a, **k)
    if isinstance(s, dict) and a and hasattr(type(a[0]), "lookup") and n == "get":
        return a[0].lookup(s, *(a[1:] or (None,)))
    if isinstance(s, dict) and a and deep_sym(a[0]):
        raise Unsupported("dict.%s with a symbolic key" % n)
    if s is itertools.chain and n == "from_iterable":
        return f(*a)
    return f(*a, **k)


# ------------------------------------------------------------------------------------------------ object births
def note_born(o):
    r = E.cur
    if r is not None:
        r.born[id(o)] = r.tick()
        r.keep.append(o)


def patched_setattr(orig):
    def __setattr__(self, name, value):
        r = E.cur
        if r is not None and r.loops:
            lp = r.loops[-1]
            if r.born.get(id(self), 0) < lp.clock:
                lp.attr_effect(self, name, value)
        orig(self, name, value)

    return __setattr__


def patched_init(orig):
    @functools.wraps(orig)
    def __init__(self, *a, **k):
        r = E.cur
        if r is not None and id(self) not in r.born:
            note_born(self)
        return orig(self, *a, **k)

    return __init__


def attr_effect(self, obj, name, value):
    for h in self.r.hooks:
        if h.attr_effect(self, obj, name, value):
            return
    raise Unsupported("attribute %s.%s of an outer object assigned in a generic loop" % (type(obj).__name__, name))


Loop.attr_effect = attr_effect


# ------------------------------------------------------------------------------------------------ loader
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root
        self.functions = []

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "vdust" and not fullname.startswith("vdust."):
            return None
        rel = fullname.split(".")[1:]
        p = os.path.join(self.root, "dustmaker", *rel)
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            spec = importlib.machinery.ModuleSpec(fullname, self, origin=f, is_package=True)
            spec.submodule_search_locations = [p]
            return spec
        if os.path.isfile(p + ".py"):
            return importlib.machinery.ModuleSpec(fullname, self, origin=p + ".py")
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        f = module.__spec__.origin
        src = open(f, encoding="utf-8").read()
        tree = ast.parse(src, f)
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.level == 0 and n.module and (n.module == "dustmaker" or n.module.startswith("dustmaker.")):
                n.module = "vdust" + n.module[len("dustmaker"):]
            if isinstance(n, ast.Import):
                for al in n.names:
                    if al.name == "dustmaker" or al.name.startswith("dustmaker."):
                        if al.asname is None and "." not in al.name:
                            al.asname = "dustmaker"
                        al.name = "vdust" + al.name[len("dustmaker"):]
        for x in ast.walk(tree):
            if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                E.STORED.add(x.attr)
            elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                E.STORED.add(x.target.id)
        tree = Instr().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, "vdust:" + os.path.relpath(f, os.path.join(self.root, "dustmaker")), "exec")
        g = module.__dict__
        real_import = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and name in SHIM_MODULES:
                return SHIM_MODULES[name]
            return real_import(name, globals, locals, fromlist, level)

        b = dict(vars(builtins))
        b["__import__"] = imp
        b["hash"] = g_hash  # also used by the code dataclasses generate
        g["__builtins__"] = b
        g["__file__"] = f
        g["vf__call"] = vf_call
        g["vf__loop"] = vf_loop
        g["vf__shared"] = vf_shared
        g["vf__cm"] = Managed
        g["vf__while"] = vf_while
        g["vf__comp"] = vf_comp
        g["vf__inner"] = vf_inner
        g["vf__ite"] = vf_ite
        g["vf__in"] = vf_in
        g["vf__not"] = vf_not
        g["vf__eq"] = vf_eq
        g["vf__ne"] = vf_ne
        g["vf__get"] = vf_get
        g["vf__mergeable"] = mergeable
        g["vf__star"] = vf_star
        g["vf__packed"] = vf_packed
        g["vf__list"] = lambda x: x if E.cur is None else sh_list(x) if isinstance(x, Sym) else tlist(x)
        g["vf__dict"] = lambda x: tdict(x) if E.cur is not None else x
        exec(code, g)
        for n, o in list(g.items()):
            if isinstance(o, type) and o.__module__ == module.__name__:
                if issubclass(o, (tuple, enum.Enum, BaseException)):
                    continue
                try:
                    o.__setattr__ = patched_setattr(o.__setattr__)
                    if "__init__" in vars(o):
                        o.__init__ = patched_init(vars(o)["__init__"])
                except TypeError:
                    pass


_loaded = {}


def load(repo=None):
    """import the instrumented package; returns the vdust package with all submodules loaded"""
    repo = repo or os.environ.get("VERIF_REPO", "/repo")
    if repo in _loaded:
        return _loaded[repo]
    fnd = Finder(repo)
    sys.meta_path.insert(0, fnd)
    import vdust  # noqa

    for m in ("bitio", "dfreader", "dfwriter", "entity", "exceptions", "level", "prop", "replay", "tile", "transform", "variable"):
        importlib.import_module("vdust." + m)
    _loaded[repo] = vdust
    return vdust
