"""C18: variables to JSON and back.

Schemas are a datatype (a name, an empty list, a one-element list, a mapping known by its keys and values).  The
recursive functions are proved level by level: a recursive call is replaced by the contract for the smaller value.
LE(a, b) "a schema b decodes everything a schema a decodes" and lub/conf (what merging gives, when it is refused) are
defined one level at a time; their general laws are proved by structural induction in the lemma groups."""
import importlib

import z3

from . import engine as E
from . import instr
from . import vals as V
from .c23 import CLS, KINDS
from .common import ENGINE
from .engine import B, Hook, I, SInt, Sym, Unsupported, boo, num
from .vals import AMap, SSeq, SText, TDict, TList

FUNCTIONS = ["cmd.variables.merge_schema", "cmd.variables.variables_to_json", "cmd.variables.json_to_variables", "variable.VariableStruct.__init__", "variable.VariableArray.__init__", "variable.Variable.__init__"]
ASSUMPTIONS = ["json.loads(json.dumps(x)) gives back x for strings, integers, truth values, finite floats, lists and dicts with string keys (tuples come back as lists)",
               "structural induction on the nesting depth of variables and schemas: recursive calls meet the contract", "latin1 decodes every byte string and encodes the result back to it",
               "floats are reals (no NaN or infinity)"]
TRUSTED = ENGINE + ["contracts of json, bytes.decode and str.encode for latin1, dict copying and iteration order"]

NAMES = ("bool", "int", "uint", "float", "string", "vec2")
Key, Map, Var = z3.DeclareSort("SKey"), z3.DeclareSort("SMap"), z3.DeclareSort("SVar")
_d = z3.Datatype("Schema")
_d.declare("Str", ("code", z3.IntSort()))
_d.declare("Empty")
_d.declare("Wrap", ("sub", _d))
_d.declare("Dict", ("map", Map))
D = _d.create()
Bo, In = z3.BoolSort(), z3.IntSort()
HAS, VAL = z3.Function("s_has", Map, Key, Bo), z3.Function("s_val", Map, Key, D)
NK, KEY = z3.Function("s_nkeys", Map, In), z3.Function("s_key", Map, In, Key)
LUB, CONF, LE = z3.Function("s_lub", D, D, D), z3.Function("s_conf", D, D, Bo), z3.Function("s_le", D, D, Bo)
S, BAD, KIND = z3.Function("s_schema", Var, D), z3.Function("s_bad", Var, Bo), z3.Function("s_kind", Var, In)
NONE = z3.Const("s_emptymap", Map)


def init(et):
    """schema of the elements of an empty array"""
    return {"array": D.Empty, "struct": D.Dict(NONE)}.get(et) if et in ("array", "struct") else D.Str(z3.IntVal(NAMES.index(et)))


class Kx(Sym):
    """a key (string)"""
    pytypes = (str,)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, Kx):
            return boo(self.e == o.e)
        raise Unsupported("comparison of a key")

    def __ne__(self, o):
        return instr.vf_not(self == o)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return E.fork(z3.Function("s_keytrue", Key, Bo)(self.e))


def term(x):
    """schema term of a value of the code"""
    if isinstance(x, Sch):
        return x.e
    if type(x) is str:
        return D.Str(z3.IntVal(NAMES.index(x) if x in NAMES else 1000 + sum(map(ord, x))))
    if isinstance(x, MDict):
        return x.merged()
    if isinstance(x, list):
        if isinstance(x, TList) and x.segs is not None:
            raise Unsupported("schema list of unknown length")
        n = list.__len__(x)
        if n == 0:
            return D.Empty
        if n == 1:
            return D.Wrap(term(list.__getitem__(x, 0)))
    if isinstance(x, dict) and (not isinstance(x, TDict) or x.eff is None) and len(x) == 0:
        return D.Dict(NONE)
    raise Unsupported("not a schema: %s" % type(x).__name__)


def of(e):
    """value of the code for a schema term"""
    r = E.run()
    e = z3.simplify(e)
    for i, n in enumerate(NAMES):
        if r.entails(e == D.Str(i)):
            return n
    return Sch(e)


class Sch(Sym):
    """a schema"""

    def __init__(self, e):
        self.e = e

    def kind(self):
        e = self.e
        return E.concretize(num(z3.If(D.is_Str(e), 0, z3.If(D.is_Dict(e), 1, z3.If(D.is_Empty(e), 2, 3)))))

    @property
    def pytypes(self):
        return ((str,), (dict,), (list,), (list,))[self.kind()]

    def __eq__(self, o):
        if isinstance(o, (str, list, dict, Sch)):
            return boo(self.e == term(o))
        return False

    def __ne__(self, o):
        return instr.vf_not(self == o)

    __hash__ = Sym.__hash__

    def __format__(self, spec):
        return "<schema>"

    def __str__(self):
        return "<schema>"

    def slen(self):
        k = self.kind()
        if k == 0:
            raise Unsupported("length of a schema name")
        return num(NK(D.map(self.e))) if k == 1 else k - 2

    def __len__(self):
        n = self.slen()
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a schema")

    def __bool__(self):
        k = self.kind()
        return E.fork(NK(D.map(self.e)) != 0) if k == 1 else k != 2

    def need_map(self):
        if self.kind() != 1:
            raise AttributeError("not a dict")
        return D.map(self.e)

    def has(self, k):
        m = self.need_map()
        if not isinstance(k, Kx):
            raise Unsupported("lookup in a schema")
        E.run().assume(z3.Not(HAS(NONE, k.e)))
        return HAS(m, k.e)

    def __contains__(self, k):
        if self.kind() != 1:
            raise Unsupported("in on a schema list")
        return boo(self.has(k))

    def __getitem__(self, i):
        k = self.kind()
        if k == 1:
            if not E.fork(self.has(i)):
                raise KeyError("key")
            return of(VAL(D.map(self.e), i.e))
        if k == 0:
            raise Unsupported("index of a schema name")
        if isinstance(i, (int, SInt)):
            if k == 3 and (i == 0 or i == -1):
                return of(D.sub(self.e))
            raise IndexError("list index out of range")
        raise Unsupported("slice of a schema")

    def get(self, k, d=None):
        self.need_map()
        return of(VAL(D.map(self.e), k.e)) if E.fork(self.has(k)) else d

    def items(self):
        m = self.need_map()
        r = E.run()
        r.assume(NK(m) >= 0)

        def elem(k):
            r.assume(HAS(m, KEY(m, k)))
            return (Kx(KEY(m, k)), of(VAL(m, KEY(m, k))))

        return SSeq("schema items", NK(m), elem, lists=r.data.get("schema_lists", lambda m: {})(m), of=m)

    def keys(self):
        return self.items().pick(0)

    def values(self):
        return self.items().pick(1)

    def as_seq(self):
        k = self.kind()
        return self.keys() if k == 1 else None

    def __iter__(self):
        k = self.kind()
        if k >= 2:
            return iter([of(D.sub(self.e))][:k - 2])
        raise Unsupported("iteration over a schema")

    def copy_map(self):
        self.need_map()
        t = MDict(self)
        E.run().tracked.append(t)
        return t


class MDict(TDict):
    """a copy of a schema mapping that a loop over another mapping's items overwrites, each iteration at its own key"""
    __slots__ = ("base",)

    def __init__(self, base):
        TDict.__init__(self)
        self.base = base

    def where(self, k):
        r = E.cur
        if self.eff is not None:
            raise Unsupported("use of a merged mapping")
        if r.loops and self.birth < r.loops[-1].clock:
            lp = r.loops[-1]
            key = lp.elem[0] if isinstance(lp.elem, tuple) else lp.elem
            if not isinstance(key, Kx) or not isinstance(k, Kx) or not r.entails(key.e == k.e) or any(o is self for o, _k, _a in lp.effects):
                raise Unsupported("read of a mapping that other iterations may have changed")
        return k

    def get(self, k, d=None):
        return self.base.get(self.where(k), d)

    def __contains__(self, k):
        return bool(self.base.__contains__(self.where(k)))

    def __getitem__(self, k):
        return self.base[self.where(k)]

    def __setitem__(self, k, v):
        if not self._mut("set", k, v):
            raise Unsupported("assignment to a schema mapping")

    def _other(self, *a, **k):
        raise Unsupported("use of a schema mapping")

    items = keys = values = __iter__ = __len__ = __bool__ = slen = as_seq = update = setdefault = __eq__ = _other
    __hash__ = None

    def merged(self):
        if self.eff is None:
            return self.base.e
        m = self.eff.info.get("merged")
        if m is None:
            raise Unsupported("a mapping that was changed in an unknown way")
        return m(self.base.e)


# ------------------------------------------------------------------------------------------------ definitions, one level
def conf_def(a, b, keys=()):
    """facts about CONF(a, b): what makes it true (mappings: for the given keys)"""
    f = [z3.Implies(z3.And(D.is_Str(a), D.is_Str(b)), CONF(a, b) == (D.code(a) != D.code(b))),
         z3.Implies(z3.And(D.is_Wrap(a), D.is_Wrap(b)), CONF(a, b) == CONF(D.sub(a), D.sub(b))),
         z3.Implies(z3.And(z3.Or(D.is_Empty(a), D.is_Wrap(a)), z3.Or(D.is_Empty(b), D.is_Wrap(b)), z3.Or(D.is_Empty(a), D.is_Empty(b))), z3.Not(CONF(a, b)))]
    cls = lambda x: z3.If(D.is_Str(x), 0, z3.If(D.is_Dict(x), 1, 2))
    f.append(z3.Implies(cls(a) != cls(b), CONF(a, b)))
    ma, mb = D.map(a), D.map(b)
    for k in keys:
        f.append(z3.Implies(z3.And(D.is_Dict(a), D.is_Dict(b), HAS(ma, k), HAS(mb, k), CONF(VAL(ma, k), VAL(mb, k))), CONF(a, b)))
    return z3.And(*f)


def at_key(a, b, k):
    """value of the merged mapping at a key of b"""
    ma, mb = D.map(a), D.map(b)
    return z3.If(HAS(ma, k), LUB(VAL(ma, k), VAL(mb, k)), VAL(mb, k))


def lub_def(a, b, keys=()):
    """facts about LUB(a, b) when there is no conflict"""
    l = LUB(a, b)
    f = [z3.Implies(z3.And(D.is_Str(a), D.is_Str(b)), l == a), z3.Implies(z3.And(D.is_Wrap(a), D.is_Wrap(b)), l == D.Wrap(LUB(D.sub(a), D.sub(b)))),
         z3.Implies(D.is_Empty(a), l == b), z3.Implies(z3.And(D.is_Empty(b), z3.Not(D.is_Empty(a))), l == a)]
    ma, mb, ml = D.map(a), D.map(b), D.map(l)
    both = z3.And(D.is_Dict(a), D.is_Dict(b))
    f.append(z3.Implies(both, D.is_Dict(l)))
    for k in keys:
        f.append(z3.Implies(both, z3.And(HAS(ml, k) == z3.Or(HAS(ma, k), HAS(mb, k)), z3.Implies(HAS(mb, k), VAL(ml, k) == at_key(a, b, k)), z3.Implies(z3.And(HAS(ma, k), z3.Not(HAS(mb, k))), VAL(ml, k) == VAL(ma, k)))))
    return z3.Implies(z3.Not(CONF(a, b)), z3.And(*f))


def no_conf(a, b, keys):
    return [z3.Implies(z3.And(z3.Not(CONF(a, b)), D.is_Dict(a), D.is_Dict(b), HAS(D.map(a), k), HAS(D.map(b), k)), z3.Not(CONF(VAL(D.map(a), k), VAL(D.map(b), k)))) for k in keys]


def le_elim(a, b, keys=()):
    """what LE(a, b) means, as consequences"""
    ma, mb = D.map(a), D.map(b)
    f = [z3.Implies(D.is_Str(a), b == a), z3.Implies(D.is_Empty(a), z3.Or(D.is_Empty(b), D.is_Wrap(b))), z3.Implies(D.is_Wrap(a), z3.And(D.is_Wrap(b), LE(D.sub(a), D.sub(b)))), z3.Implies(D.is_Dict(a), D.is_Dict(b))]
    for k in keys:
        f.append(z3.Implies(z3.And(D.is_Dict(a), HAS(ma, k)), z3.And(HAS(mb, k), LE(VAL(ma, k), VAL(mb, k)))))
    return z3.Implies(LE(a, b), z3.And(*f))


def le_intro(a, b, key):
    """LE(a, b) holds when this does, for an arbitrary key"""
    ma, mb = D.map(a), D.map(b)
    return z3.Or(z3.And(D.is_Str(a), b == a), z3.And(D.is_Empty(a), z3.Or(D.is_Empty(b), D.is_Wrap(b))), z3.And(D.is_Wrap(a), D.is_Wrap(b), LE(D.sub(a), D.sub(b))),
                 z3.And(D.is_Dict(a), D.is_Dict(b), z3.Implies(HAS(ma, key), z3.And(HAS(mb, key), LE(VAL(ma, key), VAL(mb, key))))))


# ------------------------------------------------------------------------------------------------ lemmas
def lemmas(r, v):
    a, b, c = z3.Consts("a b c", D)
    k = z3.Const("k", Key)
    subs = lambda *ts: [(lambda x: D.sub(x)), (lambda x: VAL(D.map(x), k))]
    # the induction hypothesis holds for the sub-schemas
    which = r.choose(4)
    if which == 0:
        for f in subs():
            r.assume(LE(f(a), f(a)))
        r.oblige("every schema decodes what it describes", le_intro(a, a, k))
    elif which == 1:
        for f in subs():
            r.assume(z3.Implies(z3.And(LE(f(a), f(b)), LE(f(b), f(c))), LE(f(a), f(c))))
        r.assume(z3.And(LE(a, b), LE(b, c), le_elim(a, b, [k]), le_elim(b, c, [k])))
        r.oblige("more general schemas compose", le_intro(a, c, k))
    elif which == 2:
        # merging in the other order: the same schema (mappings are equal when they have the same values at every key)
        for f in subs():
            x, y = f(a), f(b)
            r.assume(z3.And(CONF(x, y) == CONF(y, x), z3.Implies(z3.Not(CONF(x, y)), LUB(x, y) == LUB(y, x))))
        r.assume(z3.And(conf_def(a, b, [k]), conf_def(b, a, [k]), lub_def(a, b, [k]), lub_def(b, a, [k])))
        r.oblige("conflicts do not depend on the order", z3.Or(z3.And(D.is_Dict(a), D.is_Dict(b)), CONF(a, b) == CONF(b, a)))
        r.oblige("mappings conflict at a key in either order", z3.Implies(z3.And(D.is_Dict(a), D.is_Dict(b)), CONF(VAL(D.map(a), k), VAL(D.map(b), k)) == CONF(VAL(D.map(b), k), VAL(D.map(a), k))))
        r.assume(z3.And(z3.Not(CONF(a, b)), z3.Not(CONF(b, a)), *no_conf(a, b, [k])))
        m, w = D.map(LUB(a, b)), D.map(LUB(b, a))
        r.oblige("merging does not depend on the order", z3.Or(LUB(a, b) == LUB(b, a), z3.And(D.is_Dict(LUB(a, b)), D.is_Dict(LUB(b, a)), HAS(m, k) == HAS(w, k), z3.Implies(HAS(m, k), VAL(m, k) == VAL(w, k)))))
    else:
        r.assume(z3.Not(CONF(a, b)))
        r.assume(z3.And(conf_def(a, b, [k]), lub_def(a, b, [k]), *no_conf(a, b, [k])))
        for f in subs():
            r.assume(z3.Implies(z3.Not(CONF(f(a), f(b))), z3.And(LE(f(a), LUB(f(a), f(b))), LE(f(b), LUB(f(a), f(b))))))
            for x in (a, b):
                r.assume(LE(f(x), f(x)))
        r.assume(z3.And(LE(b, b), LE(a, a)))
        l = LUB(a, b)
        i = r.choose(2)
        r.oblige("merging gives a schema that decodes both", le_intro((a, b)[i], l, k))


def fold_lemma(r, v):
    """the schema of an array decodes each of its elements; so does every more general one"""
    T = z3.Function("s_fold", In, D)
    SE = z3.Function("s_elem", In, D)
    k, n = z3.Ints("k n")
    tr = lambda x, y, z: z3.Implies(z3.And(LE(x, y), LE(y, z)), LE(x, z))
    i = r.choose(3)
    j = z3.Int("j")
    r.assume(z3.And(k >= 0, j >= 0))
    # T(k+1) = LUB(T(k), SE(k)) without conflict, hence LE(T(k), T(k+1)) and LE(SE(k), T(k+1)) by the lemmas above
    r.assume(z3.And(LE(T(k), T(k + 1)), LE(SE(k), T(k + 1)), tr(SE(j), T(k), T(k + 1)), tr(T(0), T(k), T(k + 1)), LE(T(0), T(0))))
    if i == 0:
        r.assume(z3.Implies(j < k, LE(SE(j), T(k))))
        r.assume(j < k + 1)
        r.oblige("each element seen so far is decoded by the schema so far", LE(SE(j), T(k + 1)))
    elif i == 1:
        r.assume(LE(T(0), T(k)))
        r.oblige("the declared element type is kept by the schema so far", LE(T(0), T(k + 1)))
    else:
        w = z3.Const("w", D)
        r.assume(z3.And(LE(D.Wrap(T(n)), w), le_elim(D.Wrap(T(n)), w), 0 <= j, j < n, LE(SE(j), T(n)), LE(T(0), T(n)), tr(SE(j), T(n), D.sub(w)), tr(T(0), T(n), D.sub(w))))
        r.oblige("a more general array schema decodes the elements", z3.And(D.is_Wrap(w), LE(SE(j), D.sub(w)), LE(T(0), D.sub(w))))


# ------------------------------------------------------------------------------------------------ code
def mod():
    return importlib.import_module("vdust.cmd.variables")


class NoSkip(Hook):
    """an iteration that completes has met no conflict; so after the loop there is none"""

    def __init__(self, name, applies, clash, none):
        self.name, self.applies, self.clash, self.none = name, applies, clash, none

    def loop_tail(self, lp):
        if self.applies(lp.seq):
            E.run().oblige(self.name, z3.Not(self.clash(lp.k)))

    def loop_exit(self, lp):
        if self.applies(lp.seq):
            E.run().assume(z3.Not(self.none))


def stub_merge(r, m):
    def merge(lhs, rhs):
        a, b = term(lhs), term(rhs)
        r.assume(z3.And(conf_def(a, b), lub_def(a, b), CONF(a, b) == CONF(b, a), z3.Implies(z3.Not(CONF(a, b)), LUB(a, b) == LUB(b, a))))
        if r.entails(z3.And(D.is_Wrap(a), D.is_Wrap(b))):
            x, y = D.sub(a), D.sub(b)
            r.assume(z3.And(CONF(x, y) == CONF(y, x), z3.Implies(z3.Not(CONF(x, y)), LUB(x, y) == LUB(y, x))))
        if E.fork(CONF(a, b)):
            raise ValueError("conflict")
        return of(LUB(a, b))

    r.stub(m.merge_schema, merge)


A1 = ["array", ["int", [["int", 1]]]]
E1 = ["array", ["int", []]]
MIX = ["array", ["struct", [["struct", [["a", E1], ["b", ["bool", True]]]], ["struct", [["c", ["string", "\xff"]], ["a", A1]]], ["struct", []]]]]
AA = lambda *e: ["array", ["array", list(e)]]
NEST = ["struct", [["x", AA(AA(), AA(E1, A1), AA(A1))], ["y", AA(AA(A1), AA())], ["z", MIX], ["w", AA()]]]
BADS = ["array", ["struct", [["struct", [["a", ["int", 1]]]], ["struct", [["a", ["uint", 1]]]]]]]
BADA = AA(A1, ["array", ["bool", [["bool", True]]]])
ALL = "".join(map(chr, range(256)))


def merging(ka, kb):
    def fn(r, v):
        m = mod()
        a, b = z3.Consts("a b", D)
        tag = [D.is_Str, D.is_Dict, D.is_Empty, D.is_Wrap]
        r.assume(z3.And(tag[ka](a), tag[kb](b)))
        r.data["case"] = lambda vals: {"v": (BADS if ka == 1 and kb == 1 else BADA) if r.data.get("clash") else NEST}
        key = lambda k: KEY(D.map(b), k)
        full = SSeq("merged items", NK(D.map(b)), lambda k: (Kx(key(k)), of(at_key(a, b, key(k)))), merged=lambda base: LUB(a, b))
        r.data["schema_lists"] = lambda mp: {"merged": (lambda e, k: [(Kx(key(I(k))), of(at_key(a, b, key(I(k)))))], full)} if mp.eq(D.map(b)) or r.entails(mp == D.map(b)) else {}
        stub_merge(r, m)
        at = lambda k: z3.And(HAS(D.map(a), key(k)), CONF(VAL(D.map(a), key(k)), VAL(D.map(b), key(k))))
        r.hooks.append(NoSkip("a conflict at a key is refused", lambda s: s.info.get("of") is not None, at, CONF(a, b)))
        lhs, rhs = of(a), of(b)
        if ka == 1 and kb == 1:
            def enter(self, lp):
                if lp.seq.info.get("of") is not None:
                    r.assume(conf_def(a, b, [key(lp.k)]))
            h = Hook()
            h.loop_enter = lambda lp: enter(h, lp)
            r.hooks.append(h)
        try:
            got = m.merge_schema(lhs, rhs)
        except ValueError:
            r.data["clash"] = False
            r.assume(conf_def(a, b))
            r.oblige("only conflicting schemas are refused", CONF(a, b))
            return
        r.data["clash"] = True
        r.assume(conf_def(a, b))
        if ka == 1 and kb == 1 and not isinstance(got, (MDict, Sch)):
            raise Unsupported("merged mapping in another form")
        r.oblige("conflicting schemas are refused", z3.Not(CONF(a, b)))
        r.data["clash"] = False
        r.assume(lub_def(a, b))
        if isinstance(got, MDict):
            r.oblige("the merged mapping has the keys of both, merged", got.base.e.eq(a) and got.eff is full)
        else:
            r.oblige("the merged schema", term(got) == LUB(a, b))

    return fn


class Vx(Sym):
    """a variable"""

    def __init__(self, v, e):
        self.v, self.e = v, e

    def kind(self):
        r = E.run()
        r.assume(z3.And(KIND(self.e) >= 0, KIND(self.e) < 8))
        return E.concretize(num(KIND(self.e)))

    def isinst(self, ts):
        if self.v.variable.Variable in ts:
            return True
        if not any(isinstance(t, type) and issubclass(t, self.v.variable.Variable) for t in ts):
            return False
        return issubclass(getattr(self.v.variable, CLS[self.kind()]), tuple(ts))

    @property
    def pytypes(self):
        return (getattr(self.v.variable, CLS[self.kind()]),)

    def _assert_types(self):
        pass

    assert_types = _assert_types

    def __eq__(self, o):
        if isinstance(o, (str, bytes, int, float, tuple, list, dict)) or o is None:
            return False  # a variable equals variables only
        return boo(self.e == o.e) if isinstance(o, Vx) else self.differs(o)

    def __ne__(self, o):
        return instr.vf_not(self == o)

    __hash__ = Sym.__hash__

    @property
    def value(self):
        raise Unsupported("value of an element variable")


class Jx(Sym):
    """the JSON value of a variable"""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return boo(self.e == o.e) if isinstance(o, Jx) else self.differs(o)

    def __ne__(self, o):
        return instr.vf_not(self == o)

    __hash__ = Sym.__hash__

    @property
    def pytypes(self):
        raise Unsupported("type of an element's JSON value")


def jsonify(r, x):
    """x after writing it as JSON text and reading it back"""
    if isinstance(x, (tuple, list)):
        return instr.tlist([jsonify(r, y) for y in x]) if not (isinstance(x, TList) and x.segs is not None) else x
    if isinstance(x, SText):
        if x.kind != "str":
            r.fail("the value can be written as JSON", "bytes")
        return x
    if isinstance(x, bytes) or x is None and False:
        r.fail("the value can be written as JSON", "bytes")
    if isinstance(x, (str, int, float, E.SInt, E.SReal)):
        return x
    raise Unsupported("JSON value of type %s" % type(x).__name__)


LEAF_CASE = {"bool": True, "int": -5, "uint": 4000000000, "float": 0.1, "string": ALL, "vec2": [0.5, -0.1]}


LEAF2 = {"bool": False, "int": 7, "uint": 0, "float": -2.5, "string": "z", "vec2": [1.5, 3.25]}


def leaf_case(kind, vals):
    x = LEAF_CASE[kind]
    if kind in ("bool", "int", "uint") and "x" in vals:
        x = vals["x"]
    return {"v": ["struct", [["a", [kind, x]], ["b", ["array", [kind, [[kind, x], [kind, x]]]]]]]}


def leaf_value(r, kind):
    if kind == "bool":
        return r.bool("x")
    if kind == "int":
        return r.int("x", -2**31, 2**31 - 1)
    if kind == "uint":
        return r.int("x", 0, 2**32 - 1)
    if kind == "float":
        return r.real("x")
    if kind == "vec2":
        return (r.real("x"), r.real("y"))
    return SText.opaque("x", "bytes")


def same_value(kind, a, b):
    if kind == "vec2":
        return type(b) is tuple and len(b) == 2 and z3.And(*[E.Rl(p) == E.Rl(q) for p, q in zip(a, b)])
    if kind == "string":
        return V.kind_of(b) == "bytes" and B(V.text_eq(a, b))
    if kind == "bool":
        return isinstance(b, (bool, E.SBool)) and B(a) == B(b)
    if kind == "float":
        return isinstance(b, (float, E.SReal)) and a.e == E.Rl(b)
    return isinstance(b, (int, E.SInt)) and not isinstance(b, (bool, E.SBool)) and I(a) == I(b)


def leaf(kind):
    def fn(r, v):
        m = mod()
        c = getattr(v.variable, CLS[KINDS.index(kind)])
        x = leaf_value(r, kind)
        o = c(x)
        r.data["case"] = lambda vals: leaf_case(kind, vals)
        got = m.variables_to_json(o)
        r.oblige("a schema and a value", isinstance(got, tuple) and len(got) == 2)
        r.oblige("the schema names the type", type(got[0]) is str and got[0] == kind)
        r.oblige("the variable is unchanged", o.value is x)
        j = jsonify(r, got[1])
        back = m.json_to_variables(got[0], j)
        r.oblige("the type comes back", type(back) is c)
        r.oblige("the value comes back", same_value(kind, x, back.value))

    return fn


def stub_to_json(r, m, lists_of=None):
    def conv(x):
        if not isinstance(x, Vx):
            raise Unsupported("conversion of another object")
        if E.fork(BAD(x.e)):
            raise ValueError("conflicting shapes inside")
        return of(S(x.e)), Jx(x.e)

    r.stub(m.variables_to_json, conv)


def stub_from_json(r, m, v):
    def conv(schema, j):
        if not isinstance(j, Jx):
            raise Unsupported("conversion of another value")
        r.oblige("the schema passed on describes the value passed on", LE(S(j.e), term(schema)))
        return Vx(v, j.e)

    r.stub(m.json_to_variables, conv)


def struct_out(r, v):
    m = mod()
    el, ke, n = z3.Function("s_elemvar", In, Var), z3.Function("s_elemkey", In, Key), z3.Int("n")
    r.assume(n >= 0)
    seq = lambda name, f: SSeq(name, n, lambda k: (Kx(ke(k)), f(el(k))))
    whole = {"schemas": seq("schemas", lambda e: of(S(e))), "values": seq("values", lambda e: Jx(e))}
    lists = {nm: ((lambda f: lambda e, k: [f(I(k))])(s.elem), s) for nm, s in whole.items()}
    amap = AMap(SSeq("struct", n, lambda k: (Kx(ke(k)), Vx(v, el(k))), lists=lists, struct=True))
    o = v.variable.VariableStruct.__new__(v.variable.VariableStruct)
    o.value = amap
    r.data["case"] = lambda vals: {"v": NEST}
    stub_to_json(r, m)
    some = z3.Bool("some element is refused")
    h = NoSkip("a refused element is not skipped", lambda s: s.info.get("struct"), lambda k: BAD(el(k)), some)
    h.loop_enter = lambda lp: r.assume(z3.Implies(BAD(el(lp.k)), some)) if lp.seq.info.get("struct") else None
    r.hooks.append(h)
    try:
        got = m.variables_to_json(o)
    except ValueError:
        r.oblige("only a struct with a refused element is refused", some)
        return
    r.oblige("a struct with a refused element is refused", z3.Not(some))
    r.oblige("the variable is unchanged", o.value is amap)
    r.oblige("a schema and a value", isinstance(got, tuple) and len(got) == 2)
    for x, nm in zip(got, ("schemas", "values")):
        if not isinstance(x, TDict):
            raise Unsupported("a struct's JSON in another form")
        r.hint("keys and %s of a struct" % nm, x.eff is whole[nm])


def struct_in(r, v):
    m = mod()
    el, ke, n = z3.Function("s_elemvar", In, Var), z3.Function("s_elemkey", In, Key), z3.Int("n")
    r.assume(n >= 0)
    sch = z3.Const("schema", D)
    r.assume(D.is_Dict(sch))
    whole = SSeq("vars", n, lambda k: (Kx(ke(k)), Vx(v, el(k))))

    def elem(k):
        r.assume(z3.And(HAS(D.map(sch), ke(k)), LE(S(el(k)), VAL(D.map(sch), ke(k)))))
        return (Kx(ke(k)), Jx(el(k)))

    j = AMap(SSeq("values", n, elem, lists={"vars": (lambda e, k: [(Kx(ke(I(k))), Vx(v, el(I(k))))], whole)}))
    r.data["case"] = lambda vals: {"v": NEST}
    stub_from_json(r, m, v)
    got = m.json_to_variables(Sch(sch), j)
    r.oblige("a struct comes back", type(got) is v.variable.VariableStruct)
    if not isinstance(got.value, TDict):
        raise Unsupported("a struct's value in another form")
    if got.value.eff is None and r.entails(n == 0):
        r.oblige("an empty struct comes back", dict.__len__(got.value) == 0)
        return
    r.hint("keys and elements of a struct", got.value.eff is whole)


class Fold:
    """the schema of an array, built up element by element: [T(k)] before element k"""

    def __init__(self, r, el):
        self.r, self.el, self.t = r, el, z3.Function("s_fold", In, D)

    def init(self, x):
        try:
            return self.r.entails(term(x) == D.Wrap(self.t(0)))
        except Unsupported:
            return False

    def at(self, k):
        return Sch(D.Wrap(self.t(k)))

    def step(self, x, k):
        return term(x) == D.Wrap(LUB(self.t(k), S(self.el(k))))


def array_out(et):
    def fn(r, v):
        m = mod()
        el, n = z3.Function("s_elemvar", In, Var), z3.Int("n")
        r.assume(n >= 0)
        f = Fold(r, el)
        r.assume(f.t(0) == init(et))
        whole = SSeq("values", n, lambda k: Jx(el(k)))

        def elem(k):
            r.assume(KIND(el(k)) == KINDS.index(et))
            return Vx(v, el(k))

        seq = SSeq("array", n, elem, lists={"values": (lambda e, k: [Jx(el(I(k)))], whole)}, folds={"schema": f}, array=True)
        c = v.variable.VariableArray
        o = c.__new__(c)
        val = o.value = (getattr(v.variable, CLS[KINDS.index(et)]), instr.sh_list(seq))
        r.data["case"] = lambda vals: {"v": {"array": BADA, "struct": BADS}.get(et, NEST) if r.data.get("clash") else {"array": NEST, "struct": MIX}.get(et) or ["struct", [["a", ["array", [et, []]]], ["b", ["array", [et, [[et, LEAF_CASE[et]], [et, LEAF2[et]]]]]]]]}
        stub_to_json(r, m)
        stub_merge(r, m)
        some = z3.Bool("some element conflicts")
        wr = lambda k: (D.Wrap(f.t(k)), D.Wrap(S(el(k))))
        bad = lambda k: z3.Or(BAD(el(k)), CONF(f.t(k), S(el(k))))
        h = NoSkip("a conflicting element is not skipped", lambda s: s.info.get("array"), bad, some)

        def enter(lp):
            if lp.seq.info.get("array"):
                r.data["clash"] = True
                r.assume(z3.Implies(bad(lp.k), some))
                r.assume(z3.And(conf_def(*wr(lp.k)), lub_def(*wr(lp.k))))

        h.loop_enter = enter
        r.hooks.append(h)
        r.data["clash"] = False
        try:
            got = m.variables_to_json(o)
        except ValueError:
            r.data["clash"] = False
            r.oblige("only an array with conflicting elements is refused", some)
            return
        r.data["clash"] = True
        r.oblige("an array with conflicting elements is refused", z3.Not(some))
        r.data["clash"] = False
        r.oblige("the variable is unchanged", o.value is val)
        r.oblige("a schema and a value", isinstance(got, tuple) and len(got) == 2)
        r.oblige("the schema is the elements' schemas merged", term(got[0]) == D.Wrap(f.t(n)))
        s = V.as_seq(got[1]) if isinstance(got[1], TList) else None
        if s is None:
            if isinstance(got[1], list) and r.entails(n == 0):
                r.oblige("the values in order", len(got[1]) == 0)
                return
            raise Unsupported("an array's JSON in another form")
        r.hint("the values in order", s is whole)

    return fn


def array_in(et):
    def fn(r, v):
        m = mod()
        el, n = z3.Function("s_elemvar", In, Var), z3.Int("n")
        r.assume(n >= 0)
        sch = z3.Const("schema", D)
        sub = D.sub(sch)
        r.assume(z3.And(D.is_Wrap(sch), LE(init(et), sub)))
        r.assume(le_elim(init(et), sub))
        whole = SSeq("vars", n, lambda k: Vx(v, el(k)))

        def elem(k):
            r.assume(z3.And(LE(S(el(k)), sub), KIND(el(k)) == KINDS.index(et)))
            return Jx(el(k))

        def var(k):
            r.assume(KIND(el(k)) == KINDS.index(et))
            return Vx(v, el(k))

        whole.elem = var
        j = instr.sh_list(SSeq("values", n, elem, lists={"vars": (lambda e, k: [Vx(v, el(I(k)))], whole)}))
        r.data["case"] = lambda vals: {"v": {"array": NEST, "struct": MIX}.get(et) or ["struct", [["a", ["array", [et, []]]], ["b", ["array", [et, [[et, LEAF_CASE[et]], [et, LEAF2[et]]]]]]]]}
        stub_from_json(r, m, v)
        got = m.json_to_variables(Sch(sch), j)
        r.oblige("an array comes back", type(got) is v.variable.VariableArray)
        r.oblige("the element type comes back", got.value[0] is getattr(v.variable, CLS[KINDS.index(et)]))
        x = got.value[1]
        s = V.as_seq(x) if isinstance(x, TList) else None
        if s is None:
            if isinstance(x, list) and r.entails(n == 0):
                r.oblige("the elements in order", len(x) == 0)
                return
            raise Unsupported("an array's value in another form")
        r.hint("the elements in order", s is whole)

    return fn


def groups(tier):
    instr.load()
    mod()
    yield {"name": "lemmas: schemas", "functions": "", "fn": lemmas}
    yield {"name": "lemmas: schemas of arrays", "functions": "", "fn": fold_lemma}
    kn = ("name", "mapping", "empty list", "list")
    for a in range(4):
        for b in range(4):
            yield {"name": "merge_schema: %s and %s" % (kn[a], kn[b]), "functions": "merge_schema", "fn": merging(a, b)}
    for k in NAMES:
        yield {"name": "leaf: %s" % k, "functions": "variables_to_json, json_to_variables, Variable.__init__", "fn": leaf(k)}
    yield {"name": "variables_to_json: struct", "functions": "variables_to_json", "fn": struct_out}
    yield {"name": "json_to_variables: struct", "functions": "json_to_variables, VariableStruct.__init__", "fn": struct_in}
    for k in KINDS:
        yield {"name": "variables_to_json: array of %s" % k, "functions": "variables_to_json, merge_schema", "fn": array_out(k)}
        yield {"name": "json_to_variables: array of %s" % k, "functions": "json_to_variables, VariableArray.__init__", "fn": array_in(k)}
