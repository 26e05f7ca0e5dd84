"""C20: typed accessors, array views, variable constructors, fog index.

The variables of a level or entity are an abstract mapping of which only the accessor's key is known (absent, or
holding an arbitrary variable of any type); reads of other keys are outside the contract, writes to them fail it.
The element list of an array is an abstract list of any length whose operations have the documented list semantics."""
import collections.abc

import z3

from ..refcodec import FILTH_BY_TYPE
from ..rt.c20 import ACC
from . import engine as E
from .c23 import CLS, KINDS, AVal, sym_var
from .common import ENGINE, ieq
from .engine import B, I, Rl, SInt, SReal, Sym, Unsupported, boo, num
from .instr import Loop, cutting, unwind
from .segment import born_obj
from .vals import AMap, SSeq

FUNCTIONS = ["entity.bind_prop._get", "entity.bind_prop._set", "entity.bind_prop._del", "entity.bind_prop_arr", "level.PlayerPosition", "level.Level.start_position", "level._LateBoundDescriptor",
             "variable.Variable*.__init__", "variable.Variable*._assert_types", "variable.VariableArray.__getitem__", "variable.VariableArray.__setitem__", "variable.VariableArray.__delitem__",
             "variable.VariableArray.__len__", "variable.VariableArray.insert", "variable.VariableArray._box", "entity.FogTrigger.get_layer_index", "entity.FogTrigger.normalize"]
ASSUMPTIONS = ["list operations of the built-in list type", "the mixin methods of collections.abc.MutableSequence implement list behaviour on top of the five primitive operations (they are library code, not in /repo)",
               "nested variables satisfy the constructor contract (induction on nesting)"]
TRUSTED = ENGINE + ["built-in dict and list operations, collections.abc.MutableSequence"]
ABSENT = object()


class VarMap(Sym):
    """mapping of which one key is known"""
    pytypes = (dict,)

    def __init__(self, key, cur=ABSENT):
        self.key, self.cur, self.log = key, cur, []

    def own(self, k, what):
        if k == self.key:
            return True
        if what == "read":
            raise Unsupported("reads another key")
        E.run().oblige("no other key is touched", z3.BoolVal(False))

    def get(self, k, d=None):
        self.own(k, "read")
        return d if self.cur is ABSENT else self.cur

    def __getitem__(self, k):
        self.own(k, "read")
        if self.cur is ABSENT:
            raise KeyError(k)
        return self.cur

    def __contains__(self, k):
        self.own(k, "read")
        return self.cur is not ABSENT

    def __setitem__(self, k, v):
        self.own(k, "write")
        self.cur = v

    def setdefault(self, k, d=None):
        self.own(k, "write")
        if self.cur is ABSENT:
            self.cur = d
        return self.cur

    def pop(self, k, *d):
        self.own(k, "write")
        if self.cur is ABSENT:
            if d:
                return d[0]
            raise KeyError(k)
        v, self.cur = self.cur, ABSENT
        return v

    def __delitem__(self, k):
        self.pop(k)

    def _no(self, *a, **k):
        raise Unsupported("whole-mapping operation")

    __iter__ = __len__ = __bool__ = items = keys = values = update = clear = popitem = copy = __eq__ = _no
    __hash__ = Sym.__hash__


def same_val(r, name, a, b):
    """two plain values are the same"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        r.oblige(name, len(a) == len(b))
        for x, y in zip(a, b):
            same_val(r, name, x, y)
        return
    if E.isnum(a) and E.isnum(b):
        r.oblige(name, isinstance(a, (bool, E.SBool)) == isinstance(b, (bool, E.SBool)) and E.isreal(a) == E.isreal(b))
        r.oblige(name, Rl(a) == Rl(b))
        return
    if isinstance(a, type) or isinstance(b, type) or type(a) in (bytes, list) and type(a) is type(b):
        r.oblige(name, a == b)
        return
    q = a == b
    r.oblige(name, q if q is not NotImplemented else False)


def cls_of(v, kind):
    return getattr(v.variable, CLS[KINDS.index(kind)])


def accessor(t, a, key, kind, default, make):
    """every state of the key, every operation"""
    base = kind.split(":")[0]

    def case(vals):
        import random

        from ..gen import Gen
        from ..rt.c20 import _pv

        g = Gen(random.Random(1), pool=((), ()))
        if t == "start":
            return {"start": int(key[1]), "a": a, "vals": [5, -7, 0]}
        return {"t": t, "a": a, "pre": [["zz", ["int", 1]]], "vals": [_pv(g, kind) for _ in range(3)], "wrong": 0}

    def fn(r, v):
        T = cls_of(v, base)
        r.data["case"] = case
        o = make(v)
        # state of the key before: absent, the documented type, another type
        st = r.choose(len(KINDS) + 1)
        m = VarMap(key)
        old = None
        if st < len(KINDS):
            old = sym_var(r, v, KINDS[st], "old", kind[6:] if kind.startswith("array:") else "int")[0]
            m.cur = old
        oldval = old.value if old is not None else None
        o.variables = m
        own = st < len(KINDS) and KINDS[st] == base
        op = r.choose(3)
        if op == 0:
            try:
                x = getattr(o, a)
            except ValueError:
                r.oblige("reading fails only for another type", st < len(KINDS) and not own)
                r.oblige("a failing read changes nothing", m.cur is old)
                return
            r.oblige("a stored variable of another type makes reading fail", st == len(KINDS) or own)
            if own:
                if base == "array":
                    r.oblige("reading gives the stored array", x is old)
                else:
                    same_val(r, "reading gives the stored value", x, oldval)
                r.oblige("reading changes nothing", m.cur is old and old.value is oldval)
            elif base == "array":
                r.oblige("default array", type(x) is T and x.value[0] is cls_of(v, kind[6:]) and type(x.value[1]).__mro__[-2] is list and len(x.value[1]) == 0)
                r.oblige("the default array is the stored one", m.cur is x)
            else:
                r.oblige("default value", x == default and isinstance(x, bool) == isinstance(default, bool) and isinstance(x, bytes) == isinstance(default, bytes))
                r.oblige("reading a default stores nothing", m.cur is ABSENT)
        elif op == 1:
            new = sym_var(r, v, base, "new", kind[6:] if kind.startswith("array:") else "int")[0]
            val = new if base == "array" else new.value
            setattr(o, a, val)
            r.oblige("a variable of the documented type is stored", m.cur is not ABSENT and type(m.cur) is T)
            if base == "array":
                r.oblige("the array is stored", m.cur is val or (m.cur.value[0] is val.value[0] and m.cur.value[1] is val.value[1]))
            else:
                same_val(r, "the value is stored", m.cur.value, val)
        else:
            delattr(o, a)
            r.oblige("deleting removes the variable", m.cur is ABSENT)

    return fn


HIT_OTHERS = ["dust_girl", "dust_kid", "dust_worth", "dust_wraith", "leaf_sprite", "trash_king", "slime_boss"]


def all_accessors():
    for t, d in ACC.items():
        for a, (key, kind, default) in d.items():
            yield t, a, key, kind, default
    for t in list(FILTH_BY_TYPE) + ["enemy_door"] + HIT_OTHERS:
        if t not in ACC:
            yield t, "scale", "dm_scale", "float", 1.0


def maker(t):
    def make(v):
        if t == "":
            return v.level.Level()
        return v.entity.Entity._known_types[t]()

    return make


def group_of(t):
    acc = [x for x in all_accessors() if x[0] == t]

    def fn(r, v):
        tt, a, key, kind, default = acc[r.choose(len(acc))] if len(acc) > 1 else acc[0]
        accessor(tt, a, key, kind, default, maker(tt))(r, v)

    return fn


def starts(r, v):
    p, a = 1 + r.choose(4), "xy"[r.choose(2)]
    lv = v.level.Level()

    class Holder:
        """start_position(p).<a> of one level"""

        def __setattr__(self, n, x):
            if n == "variables":
                lv.variables = x
            else:
                setattr(lv.start_position(p), n, x)

        def __getattr__(self, n):
            return getattr(lv.start_position(p) if p != 1 else lv.start_position(), n)

        def __delattr__(self, n):
            delattr(lv.start_position(p), n)

    accessor("start", a, "p%d_%s" % (p, a), "int", 0, lambda v: Holder())(r, v)


# ---------------------------------------------------------------------------------------------- constructors
def scalars(kind):
    def fn(r, v):
        T = cls_of(v, kind)
        f = r.choose(9)
        r.data["case"] = None
        if f == 0:
            x, ok = r.bool("x"), {"bool": True, "int": None, "uint": None}.get(kind, False)
        elif f == 1:
            x = r.int("x")
            ok = {"int": z3.And(x.e >= -2**31, x.e < 2**31), "uint": z3.And(x.e >= 0, x.e < 2**32)}.get(kind, False)
        elif f == 2:
            x, ok = r.real("x"), kind == "float"
        elif f == 3:
            x, ok = AVal("bytes", z3.Const("x", z3.DeclareSort("Bytes")), (bytes,)), kind == "string"
        elif f == 4:
            x, ok = AVal("str", z3.Const("x", z3.DeclareSort("Str")), (str,)), False
        elif f == 5:
            x, ok = None, False
        elif f == 6:
            x, ok = (r.real("x"), r.real("y")), kind == "vec2"
        elif f == 7:
            x = [(r.real("x"),), (r.real("x"), r.real("y"), r.real("z")), (r.int("x"), r.real("y")), (r.real("x"), r.int("y")), ()][r.choose(5)]
            ok = False
        else:
            x, ok = [r.real("x"), r.real("y")], False
        r.data["case"] = lambda vals: replay_ctor(kind, f, vals)
        try:
            y = T(x)
        except (AssertionError, ValueError, TypeError) as e:
            if isinstance(e, (TypeError, ValueError)) and ok is not False:
                raise
            if ok is not None:
                r.oblige("a valid value is accepted", z3.Not(B(ok)))
            return
        if ok is not None:
            r.oblige("a value of the wrong type or range is refused", B(ok))
        same_val(r, "the value is kept", y.value, x)

    return fn


def replay_ctor(kind, f, vals):
    if kind not in ("int", "uint") or f != 1:
        return None
    return {"arr": [kind, []], "ops": [["append", 0, [kind, vals["x"]], 0, 1]]}


class Elem(Sym):
    """value of a nested variable: valid or not, as the constructor contract says"""

    def __init__(self, ok):
        self.ok = ok


def containers(kind):
    """arrays of every element type and structs of any size, one arbitrary element of which may be bad"""

    def fn(r, v):
        r.data["case"] = lambda vals: {"badarr": 1}
        V = v.variable
        for c in V.Variable._TYPES.values():
            real = c._assert_types

            def st(self, real=real):
                val = getattr(self, "value", None)
                if isinstance(val, Elem):
                    if not val.ok:
                        raise AssertionError("bad nested variable")
                    return None
                return real(self)

            r.stub(real, st)
        et = KINDS[r.choose(8)] if kind == "array" else None
        n = r.int("n", 0)
        state = {}

        def obj(cls, ok=True):
            o = object.__new__(cls)
            object.__setattr__(o, "value", Elem(ok))
            return o

        def elem(k):
            """arbitrary element: a variable of some class, valid or not, or something that is no variable"""
            c = r.choose(10)
            if c < 8:
                x, ok = obj(cls_of(v, KINDS[c])), kind == "struct" or KINDS[c] == et
            elif c == 8:
                x, ok = obj(cls_of(v, et or "int"), False), False
            else:
                x, ok = 5, False
            state["ok"] = ok
            if kind == "array":
                return x
            kk = r.choose(2)
            if kk:
                state["ok"] = False
            return (AVal("str", z3.Const("key", z3.DeclareSort("Str")), (str,)) if not kk else 5), x

        class Good(E.Hook):
            def loop_tail(self, lp):
                r.oblige("an invalid element is refused", bool(state.get("ok", False)))

        r.hooks.append(Good())
        seq = SSeq("elems", n.e, elem)
        arg = seq if kind == "array" else AMap(seq)
        try:
            y = V.VariableArray(cls_of(v, et), arg) if kind == "array" else V.VariableStruct(arg)
        except AssertionError:
            r.oblige("valid elements are accepted", not state.get("ok", True))
            return
        if kind == "array":
            r.oblige("the element type is kept", y.value[0] is cls_of(v, et) and y.element_type is cls_of(v, et))

    return fn


def bad_element_type(r, v):
    r.data["case"] = lambda vals: {"badarr": 1}
    x = [int, None, 5, "x", v.tile.Tile, v.variable.VariableInt(1)][r.choose(6)]
    try:
        v.variable.VariableArray(x, [])
    except (AssertionError, TypeError):
        r.oblige("an element type that is no variable type is refused", True)
        return
    r.oblige("an element type that is no variable type is refused", False)


def recheck(r, v):
    """assert_types turns a failing check into a value error and does nothing else"""
    V = v.variable
    i = r.choose(8)
    o, _ = sym_var(r, v, KINDS[i], "a", "int")
    ok = r.choose(2)
    r.stub(type(o)._assert_types, lambda self: None if ok else (_ for _ in ()).throw(AssertionError()))
    r.data["case"] = lambda vals: {"badarr": 1}
    try:
        o.assert_types()
    except ValueError:
        r.oblige("assert_types fails exactly for a bad value", not ok)
        return
    r.oblige("assert_types fails exactly for a bad value", bool(ok))


# ---------------------------------------------------------------------------------------------- array views
class AList(Sym):
    """list of any length; contents as a term over the position"""
    pytypes = (list,)

    def __init__(self, r, mk):
        self.r, self.mk = r, mk
        self.n = r.int("n", 0).e
        self.base = z3.Function("elem", z3.IntSort(), z3.IntSort())
        self.objs = []
        self.at = lambda k: self.base(k)
        self.known = {}

    def token(self, o):
        for i, x in enumerate(self.objs):
            if x is o:
                return z3.IntVal(-1 - i)
        for t, x in self.known.values():
            if x is o:
                return t
        self.objs.append(o)
        return z3.IntVal(-len(self.objs))

    def norm(self, i, what):
        if isinstance(i, slice):
            raise Unsupported("slice")
        if not isinstance(i, (int, SInt)):
            raise TypeError("list indices must be integers or slices")
        e = I(i)
        if not E.fork(z3.And(e >= -self.n, e < self.n)):
            raise IndexError("list %s out of range" % what)
        return z3.If(e < 0, e + self.n, e)

    def __getitem__(self, i):
        e = E.simp(self.at(self.norm(i, "index")))
        if z3.is_int_value(e):
            return self.objs[-1 - e.as_long()]
        if e.get_id() not in self.known:
            self.known[e.get_id()] = (e, self.mk(e))
        return self.known[e.get_id()][1]

    def __setitem__(self, i, x):
        p, old, t = self.norm(i, "assignment index"), self.at, self.token(x)
        self.at = lambda k: z3.If(k == p, t, old(k))

    def __delitem__(self, i):
        p, old = self.norm(i, "assignment index"), self.at
        self.at = lambda k: z3.If(k < p, old(k), old(k + 1))
        self.n = self.n - 1

    def insert(self, i, x):
        if not isinstance(i, (int, SInt)):
            raise TypeError("index")
        e, old, t = I(i), self.at, self.token(x)
        p = z3.If(e < 0, z3.If(e + self.n < 0, z3.IntVal(0), e + self.n), z3.If(e > self.n, self.n, e))
        self.at = lambda k: z3.If(k < p, old(k), z3.If(k == p, t, old(k - 1)))
        self.n = self.n + 1

    def append(self, x):
        self.insert(num(self.n), x)

    def pop(self, i=-1):
        x = self[i]
        del self[i]
        return x

    def slen(self):
        return num(E.simp(self.n))

    def __bool__(self):
        return E.fork(self.n > 0)

    def _no(self, *a, **k):
        raise Unsupported("list operation")

    __iter__ = __len__ = extend = remove = reverse = sort = clear = index = count = copy = __eq__ = __ne__ = __add__ = __contains__ = __iadd__ = _no
    __hash__ = Sym.__hash__


def array_op(op, kind):
    """one operation on an arbitrary array, against the same operation on an ideal list"""

    def fn(r, v):
        V = v.variable
        T = cls_of(v, kind)
        vals = {}

        def mk(e):
            """the stored element with identity e: a boxed variable with its own value"""
            o = object.__new__(T)
            object.__setattr__(o, "value", AVal("plain", z3.Const("plain_%s" % e.sexpr().replace(" ", "_").replace("(", "").replace(")", ""), z3.DeclareSort("Plain")), ()))
            return o

        def replay(vals):
            n = max(0, min(int(vals.get("n", 0)), 12))
            i = max(-20, min(20, int(vals.get("i", 0))))
            two = __import__("vf.proof.c23", fromlist=["TWO"]).TWO[kind]
            return {"arr": [kind, [[kind, two[j % 2]] for j in range(n)]], "ops": [[{"getitem": "get", "setitem": "set", "delitem": "del"}.get(op, op), i, [kind, two[1]], 0, 1]] * 2}

        r.data["case"] = replay
        lst = AList(r, mk)
        arr = object.__new__(V.VariableArray)
        tup = (T, lst)
        object.__setattr__(arr, "value", tup)
        i = r.int("i")
        n0, at0 = lst.n, lst.at
        new = sym_var(r, v, kind, "new", "int")[0]
        val = new.value
        if kind == "array":
            val = (val[0], [])
        if kind == "struct":
            val = {}
        C = V.VariableArray
        inr = z3.And(i.e >= -n0, i.e < n0)
        pos = z3.If(i.e < 0, i.e + n0, i.e)
        res = err = None
        try:
            if op == "getitem":
                res = C.__getitem__(arr, i)
            elif op == "setitem":
                C.__setitem__(arr, i, val)
            elif op == "delitem":
                C.__delitem__(arr, i)
            elif op == "len":
                res = C.__len__(arr)
            elif op == "insert":
                C.insert(arr, i, val)
            elif op == "append":
                C.append(arr, val)
            elif op == "pop":
                res = C.pop(arr)
        except IndexError as e:
            err = e
        k = z3.Int("k")
        r.inputs["k"] = k
        r.oblige("the element type stays", arr.value[0] is T)
        l1 = arr.value[1]
        if l1 is not lst:
            raise Unsupported("another list")
        if op in ("getitem", "setitem", "delitem"):
            r.oblige("index errors as for a list", z3.Not(inr) if err is not None else inr)
        elif op == "pop":
            r.oblige("index errors as for a list", (n0 == 0) if err is not None else (n0 > 0))
        else:
            r.oblige("no index error", err is None)
        want_n, want = n0, lambda k: at0(k)
        added = None
        if err is None and op in ("setitem", "insert", "append"):
            if len(lst.objs) != 1:
                r.oblige("exactly one element is stored", False)
            added = lst.objs[0]
            r.oblige("the stored element is boxed", type(added) is T)
            if kind == "array":
                r.oblige("the stored value", added.value[0] is val[0] and len(added.value[1]) == 0)
            elif kind == "struct":
                r.oblige("the stored value", len(added.value) == 0)
            else:
                same_val(r, "the stored value", added.value, val)
            tok = z3.IntVal(-1)
            if op == "setitem":
                want = lambda k: z3.If(k == pos, tok, at0(k))
            else:
                p = n0 if op == "append" else z3.If(i.e < 0, z3.If(i.e + n0 < 0, z3.IntVal(0), i.e + n0), z3.If(i.e > n0, n0, i.e))
                want = lambda k: z3.If(k < p, at0(k), z3.If(k == p, tok, at0(k - 1)))
                want_n = n0 + 1
        if err is None and op == "delitem":
            want = lambda k: z3.If(k < pos, at0(k), at0(k + 1))
            want_n = n0 - 1
        if err is None and op == "pop":
            want_n = n0 - 1
        r.oblige("length afterwards", lst.n == want_n)
        r.oblige("contents afterwards", z3.Implies(z3.And(k >= 0, k < want_n), lst.at(k) == want(k)))
        if err is None and op in ("getitem", "pop"):
            src = at0(pos) if op == "getitem" else at0(n0 - 1)
            hit = [(e, o) for e, o in lst.known.values() if res is o.value]
            r.oblige("the plain value of that element is returned", z3.Or(*[e == src for e, o in hit]) if hit else False)
        if op == "len":
            r.oblige("length", ieq(res, num(n0)))

    return fn


MIXIN = ("append", "clear", "reverse", "extend", "pop", "remove", "__iadd__", "__contains__", "__iter__", "__reversed__", "index", "count")


def mixins(r, v):
    """the remaining list operations are those of collections.abc.MutableSequence"""
    C = v.variable.VariableArray
    r.oblige("arrays are mutable sequences", issubclass(C, collections.abc.MutableSequence))
    for n in MIXIN:
        if getattr(C, n) is not getattr(collections.abc.MutableSequence, n):
            raise Unsupported("VariableArray.%s is not the library's" % n)


def fog(r, v):
    F = v.entity.FogTrigger
    r.data["case"] = lambda vals: {"fog": 1}
    l = r.int("layer", 0, 20)
    if r.choose(2):
        s = r.int("sublayer", 0, 24)
        r.oblige("index of a sublayer", ieq(F.get_layer_index(l, s), num((s.e + 1) * 21 + l.e)))
    else:
        r.oblige("index of a layer", ieq(F.get_layer_index(l), l))
        r.oblige("index of a layer", ieq(F.get_layer_index(l, None), l))


class Fixed(dict):
    """variables of which none is assigned"""

    def _no(self, *a, **k):
        raise Unsupported("the variables of the trigger are replaced")

    __setitem__ = __delitem__ = pop = popitem = update = clear = _no


def fog_array(v, r, name, real, default, want):
    """an array variable by the contract of arrays (proved above): a list of plain values, of any length"""
    C = v.variable.VariableArray

    def no(self, *a, **k):
        raise Unsupported("operation on a fog array")

    class Arr(C):
        def slen(self):
            return num(E.simp(self.st.n))

        def append(self, x):
            st, e = self.st, (Rl(x) if real else I(x))
            n, old = st.n, st.at
            st.at = lambda k: z3.If(k == n, e, old(k))
            st.n = n + 1

        def pop(self, i=-1):
            st = self.st
            if type(i) is not int or i != -1:
                raise Unsupported("pop of an element inside")
            if not E.fork(st.n > 0):
                raise IndexError("pop from empty list")
            st.n = st.n - 1
            return (SReal if real else SInt)(st.at(st.n))

        __getitem__ = __setitem__ = __delitem__ = __iter__ = __len__ = insert = extend = clear = remove = reverse = __iadd__ = __contains__ = index = count = no
        value = property(no)

    class St:
        n = r.int("length of " + name, 0).e
        base = z3.Function(name, z3.IntSort(), z3.RealSort() if real else z3.IntSort())

        def at(self, k):
            return self.base(k)

        def spec(self, k):
            return z3.If(k < self.n0, self.base(k), z3.RealVal(default) if real else z3.IntVal(default))

        def holds(self):
            k = z3.Int(r.fresh("index"))
            lo, hi = z3.If(self.n0 < want, self.n0, want), z3.If(self.n0 < want, want, self.n0)
            return z3.And(self.n >= lo, self.n <= hi, z3.Implies(z3.And(k >= 0, k < self.n), self.at(k) == self.spec(k)))

        def off(self):
            return z3.If(self.n < want, want - self.n, self.n - want)

    st = St()
    st.n0, st.name, st.want = st.n, name, want
    a = object.__new__(Arr)
    object.__setattr__(a, "st", st)
    return a, st


class FitLoop(Loop):
    """invariant of the loops that bring arrays to their length: each is on its way from where the loop met it to that
    length, holds the elements it had and then defaults; every pass brings some array closer and none further away"""

    def __init__(self, sts, fn):
        Loop.__init__(self, SSeq("passes", 0, None), fn)
        self.sts = sts

    def must(self, name, f):
        if not self.r.hint(name, f):
            raise Unsupported(name)

    def head(self, thunks):
        if not self.started:
            self.started = True
            r = self.r = E.run()
            cutting(r)
            r.loops.append(self)
            self.clock, self.effects, self.cells = r.tick(), [], {}
            for st in self.sts:
                # where the loop meets it must be on the way; from there on it only gets closer
                self.must("normalize: the elements of %s before a loop" % st.name, st.holds())
                m, n = z3.Int(r.fresh("length of " + st.name)), st.n
                r.assume(z3.And(m >= z3.If(n < st.want, n, st.want), m <= z3.If(n < st.want, st.want, n)))
                st.n, st.at = m, st.spec
            self.before = sum(st.off() for st in self.sts)
            return [E.Poison("%s in a loop" % n) for n, _t in thunks]
        unwind(self)
        if self.effects:
            raise Unsupported("another collection is modified")
        r = self.r
        for st in self.sts:
            self.must("normalize: the elements of %s during a loop" % st.name, st.holds())
        self.must("normalize: every pass makes progress", sum(st.off() for st in self.sts) < self.before)
        raise E.PathEnd("end of the pass")

    def after(self, thunks=()):
        unwind(self)
        if self.effects:
            raise Unsupported("another collection is modified")
        self.r.loops.remove(self)


class FitHook(E.Hook):
    def __init__(self, sts):
        self.sts = sts

    def make_while(self, fn):
        return FitLoop(self.sts, fn)


def fit(r, v):
    F = v.entity.FogTrigger
    sub = r.bool("sub") if r.choose(2) else None
    want = z3.If(sub.e, z3.IntVal(546), z3.IntVal(21)) if sub is not None else z3.IntVal(21)
    vs, sts = Fixed(), []
    if sub is not None:
        b = object.__new__(v.variable.VariableBool)
        object.__setattr__(b, "value", sub)
        dict.__setitem__(vs, "has_sub_layers", b)
    for key, real, default, w in (("fog_colour", False, 0x111118, want), ("fog_per", True, 0, want), ("gradient", False, 0, z3.IntVal(3))):
        a, st = fog_array(v, r, key, real, default, w)
        dict.__setitem__(vs, key, a)
        sts.append(st)
    r.data["case"] = lambda vals: {"fog": [min(900, max(0, vals.get("length of " + st.name, 0))) for st in sts], "sub": bool(vals.get("sub", False))}
    r.hooks.append(FitHook(sts))
    f = born_obj(F, variables=vs)
    F.normalize(f)
    k = z3.Int("k")
    for st in sts:
        r.oblige("normalize: length of %s" % st.name, st.n == st.want)
        r.oblige("normalize: elements of %s" % st.name, z3.Implies(z3.And(k >= 0, k < st.n), st.at(k) == st.spec(k)))


def groups(tier):
    for t in dict.fromkeys(x[0] for x in all_accessors()):
        yield {"name": "accessors of %s" % (t or "levels"), "functions": "bind_prop, bind_prop_arr", "fn": group_of(t)}
    yield {"name": "player starts", "functions": "Level.start_position, PlayerPosition", "fn": starts}
    for k in KINDS[:6]:
        yield {"name": "construction: %s" % k, "functions": CLS[KINDS.index(k)] + ".__init__, _assert_types", "fn": scalars(k)}
    for k in ("array", "struct"):
        yield {"name": "construction: %s" % k, "functions": CLS[KINDS.index(k)] + ".__init__, _assert_types", "fn": containers(k)}
    yield {"name": "construction: element types", "functions": "VariableArray._assert_types", "fn": bad_element_type}
    yield {"name": "assert_types", "functions": "Variable.assert_types", "fn": recheck}
    for op in ("getitem", "setitem", "delitem", "len", "insert"):
        def fn(r, v, op=op):
            array_op(op, KINDS[r.choose(8)])(r, v)

        yield {"name": "VariableArray %s" % op, "functions": "VariableArray", "fn": fn}
    yield {"name": "VariableArray as a mutable sequence", "functions": "VariableArray", "fn": mixins}
    yield {"name": "fog index", "functions": "FogTrigger.get_layer_index", "fn": fog}
    yield {"name": "fog arrays", "functions": "FogTrigger.normalize", "fn": fit}
