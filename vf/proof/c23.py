"""C23: equality and hashing of tiles and variables.

Values of unbounded size (byte strings, the element list of an array, the mapping of a struct) are represented by
what they denote: two such values of one kind are equal exactly when their denotations are.  That is the contract of
the built-in list, dict and bytes equality together with the induction hypothesis for the elements (which are
variables of smaller depth).  Built-in hashes are uninterpreted functions of the denotation."""
import z3

from . import engine as E
from .common import ENGINE, edge_vals, ieq, sym_tile, tile_model
from .engine import B, I, Rl, SInt, SReal, Sym, Unsupported, boo

FUNCTIONS = ["tile.Tile.__eq__", "tile.Tile.__hash__", "tile.Tile._vals", "tile.TileEdgeData.__eq__", "tile.TileEdgeData.__hash__", "variable.Variable.__eq__", "variable.Variable.__hash__",
             "variable.VariableStruct.__hash__", "variable.VariableArray.__hash__"]
ASSUMPTIONS = ["built-in equality of lists, dicts and tuples is element-wise, and built-in hashes respect it; floats are reals (no NaN)",
               "structural induction on the nesting depth of variables: elements satisfy the property"]
TRUSTED = ENGINE + ["contracts of the built-in ==, hash, tuple, frozenset on collections"]


class AVal(Sym):
    """value of a kind, known by its denotation only"""

    def __init__(self, kind, e, pyt=()):
        self.kind, self.e, self.pytypes = kind, e, pyt

    def __eq__(self, o):
        if isinstance(o, AVal):
            return boo(self.e == o.e) if o.kind == self.kind else False
        if isinstance(o, Sym) or not self.pytypes or isinstance(o, self.pytypes):
            raise Unsupported("comparison of an abstract value")
        return False

    def __ne__(self, o):
        q = self == o
        return (not q) if isinstance(q, bool) else boo(z3.Not(B(q)))

    def hash_term(self):
        if self.kind in ("list", "dict", "items"):
            raise TypeError("unhashable type")
        return SInt(z3.Function("hash_" + self.kind, self.e.sort(), z3.IntSort())(self.e))

    __hash__ = Sym.__hash__

    def as_tuple(self):
        return AVal({"list": "tuple", "items": "tuple_items"}[self.kind], self.e, (tuple,)) if self.kind == "list" else self.bad()

    def bad(self):
        raise Unsupported("use of an abstract value")

    def as_set(self):
        return AVal("itemset", self.e, (frozenset,)) if self.kind == "items" else self.bad()

    def items(self):
        return AVal("items", self.e) if self.kind == "dict" else self.bad()

    def __bool__(self):
        self.bad()

    __iter__ = __len__ = __getitem__ = lambda self, *a: self.bad()


class Foreign(Sym):
    """an arbitrary object that is neither a tile nor a variable; comparing it yields NotImplemented"""

    def isinst(self, ts):
        return object in ts

    def __eq__(self, o):
        return NotImplemented

    def __ne__(self, o):
        return NotImplemented

    __hash__ = Sym.__hash__

    def __bool__(self):
        raise Unsupported("truth value of a foreign object")


KINDS = ("bool", "int", "uint", "float", "string", "vec2", "array", "struct")
CLS = ("VariableBool", "VariableInt", "VariableUInt", "VariableFloat", "VariableString", "VariableVec2", "VariableArray", "VariableStruct")


def sym_var(r, v, kind, n, et=None):
    """a variable of the given kind with an arbitrary value; returns (object, components of its denotation)"""
    c = getattr(v.variable, CLS[KINDS.index(kind)])
    o = c.__new__(c)
    if kind == "bool":
        val = r.bool(n)
        den = [B(val)]
    elif kind in ("int", "uint"):
        val = r.int(n, *((-2**31, 2**31 - 1) if kind == "int" else (0, 2**32 - 1)))
        den = [val.e]
    elif kind == "float":
        val = r.real(n)
        den = [val.e]
    elif kind == "vec2":
        val = (r.real(n + "x"), r.real(n + "y"))
        den = [val[0].e, val[1].e]
    elif kind == "string":
        a = z3.Const(n, z3.DeclareSort("Bytes"))
        val, den = AVal("bytes", a, (bytes,)), [a]
    elif kind == "struct":
        a = z3.Const(n, z3.DeclareSort("Mapping"))
        val, den = AVal("dict", a, (dict,)), [a]
    else:
        a = z3.Const(n, z3.DeclareSort("Elements"))
        val, den = (getattr(v.variable, CLS[KINDS.index(et)]), AVal("list", a, (list,))), [z3.IntVal(KINDS.index(et)), a]
    if len(den) == 1 or kind == "array":
        r.inputs[n] = den[-1]
    o.value = val
    return o, den


TWO = {"bool": [True, False], "int": [1, -1], "uint": [1, 2], "float": [0.5, 1.0], "string": ["a", "b"], "vec2": [[0.5, 1.0], [1.0, 0.5]], "array": [["int", []], ["int", [["int", 1]]]], "struct": [[], [["a", ["int", 1]]]]}


def model(kind, n, et, vals):
    x = vals.get(n)
    if kind in ("bool", "int", "uint", "float"):
        return [kind, x]
    if kind == "vec2":
        return [kind, [vals[n + "x"], vals[n + "y"]]]
    i = sum(map(ord, str(x))) % 2
    if kind == "string":
        return [kind, "ab"[i]]
    if kind == "struct":
        return [kind, [["k", ["int", i]], ["l", ["int", 2]]]]
    return ["array", [et, [[et, TWO[et][i]]]]]


def call_eq(a, b):
    """a == b the way the interpreter does it: the class's own method first"""
    q = type(a).__eq__(a, b)
    if q is NotImplemented:
        q = type(b).__eq__(b, a)
        if q is NotImplemented:
            q = a is b
    return q


def same(r, name, got, want):
    r.oblige(name + " gives a truth value", isinstance(got, bool) or isinstance(got, E.SBool))
    r.oblige(name, B(got) == want)


def variables(k1):
    def fn(r, v):
        r.data["hash"] = True
        k2 = KINDS[r.choose(8)]
        e1 = KINDS[r.choose(8)] if k1 == "array" else None
        e2 = KINDS[r.choose(8)] if k2 == "array" else None
        a, d1 = sym_var(r, v, k1, "a", e1)
        b, d2 = sym_var(r, v, k2, "b", e2)
        r.data["case"] = lambda vals: {"vars": [model(k1, "a", e1, vals), model(k2, "b", e2, vals)]}
        want = z3.And(*[x == y for x, y in zip(d1, d2)]) if k1 == k2 else z3.BoolVal(False)
        va, vb = a.value, b.value
        q = call_eq(a, b)
        same(r, "equal exactly when type and value are equal", q, want)
        n = type(a).__ne__(a, b)
        same(r, "unequal exactly when not equal", n, z3.Not(want))
        r.oblige("comparing changes nothing", a.value is va and b.value is vb)
        if k1 == k2:
            r.assume(want)
            h1, h2 = type(a).__hash__(a), type(b).__hash__(b)
            r.oblige("equal variables have equal hashes", I(h1) == I(h2))
            r.oblige("hashing changes nothing", a.value is va and b.value is vb)

    return fn


def foreign(r, v):
    i = r.choose(len(KINDS) + 1)
    if i == len(KINDS):
        t = sym_tile(r, v, v.tile.TileShape(0))
        r.data["case"] = lambda vals: {"tiles": [tile_model(vals, 0)]}
        others = [Foreign(), sym_var(r, v, "int", "b")[0]]
    else:
        t = sym_var(r, v, KINDS[i], "a", "int")[0]
        r.data["case"] = lambda vals: {"vars": [model(KINDS[i], "a", "int", vals)]}
        others = [Foreign(), sym_tile(r, v, v.tile.TileShape(0))]
    for o in others:
        same(r, "never equal to an object of another kind", call_eq(t, o), z3.BoolVal(False))


def tiles(r, v):
    r.data["hash"] = True
    S = v.tile.TileShape
    s, t = [sym_tile(r, v, SInt(r.int(n + "_shape", 0, 20).e, S), n) for n in "st"]
    r.data["case"] = lambda vals: {"tiles": [tile_model(vals, vals.get("s_shape", 0), "s"), tile_model(vals, vals.get("t_shape", 0), "t")]}
    want = z3.And(ieq(s.shape, t.shape), ieq(s.tile_flags, t.tile_flags), ieq(s.sprite_set, t.sprite_set), ieq(s.sprite_tile, t.sprite_tile), ieq(s.sprite_palette, t.sprite_palette),
                  *[ieq(x, y) for e, f in zip(s.edge_data, t.edge_data) for x, y in zip(edge_vals(e), edge_vals(f))])
    q = call_eq(s, t)
    same(r, "equal exactly when shape, flags, sprite and edges are equal", q, want)
    n = type(s).__ne__(s, t)
    same(r, "unequal exactly when not equal", n, z3.Not(want))
    if B(q) is not None and r.entails(want):
        h1, h2 = type(s).__hash__(s), type(t).__hash__(t)
        r.oblige("equal tiles have equal hashes", I(h1) == I(h2))


def groups(tier):
    for k in KINDS:
        yield {"name": "Variable.__eq__ and __hash__: %s" % k, "functions": "Variable.__eq__, Variable.__hash__, VariableStruct.__hash__, VariableArray.__hash__", "fn": variables(k)}
    yield {"name": "objects of another kind", "functions": "Variable.__eq__, Tile.__eq__", "fn": foreign}
    yield {"name": "Tile.__eq__ and __hash__", "functions": "Tile.__eq__, Tile.__hash__, Tile._vals", "fn": tiles}
