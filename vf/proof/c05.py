"""C05: write_variable / read_variable, by structural induction: sub-variables are written and read through the
same contract; arrays, structs and strings are of arbitrary size."""
import z3

from . import engine as E
from .common import ENGINE
from .engine import B, I, SInt, SReal, Sym, Unsupported, boo, num, simp
from .instr import value_eq
from .vals import AMap, SSeq, Src, SText, text_eq
from .wire import Call, Check, F, Lazy, Rep, T, Wire, install, make, wire_of

FUNCTIONS = ["dfwriter.DFWriter.write_variable", "dfreader.DFReader.read_variable", "dfreader.DFReader.read_variable_map", "variable.Variable*.__init__/_assert_types"]
ASSUMPTIONS = ["induction hypothesis: the recursive calls on sub-variables satisfy the contract being proved (well-founded: a variable contains its parts)",
               "write_float/read_float, write_6bit_str/read_6bit_str and the bit layer are used through their contracts (C01-C04)", "the keys of a dict are distinct and iterate in insertion order"]
TRUSTED = ENGINE
M = 65535
NAMES = ("BOOL", "INT", "UINT", "FLOAT", "STRING", "VEC2", "STRUCT", "ARRAY")


class SVal(Sym):
    """the value of the k-th sub-variable"""
    pytypes = (object,)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if isinstance(o, SVal):
            return boo(self.k == o.k)
        return self.differs(o)

    __hash__ = Sym.__hash__


class Key(Sym):
    """the k-th key of a struct"""
    pytypes = (str,)

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        if isinstance(o, Key):
            return boo(self.k == o.k)
        return self.differs(o)

    __hash__ = Sym.__hash__


def stubs(r, v):
    install(r, v)
    W, R, V = v.dfwriter.DFWriter, v.dfreader.DFReader, v.variable
    r.stub(W.write_float, lambda self, i, f, x: wire_of(self).call("float", i, f, x))
    r.stub(R.read_float, lambda self, i, f: wire_of(self).call("float", i, f))
    r.stub(W.write_6bit_str, lambda self, t: wire_of(self).call("str6", t))
    r.stub(R.read_6bit_str, lambda self: wire_of(self).call("str6"))
    r.stub(W.write_variable, lambda self, var: wire_of(self).call("variable", var))
    r.stub(R.read_variable, lambda self, vt: wire_of(self).call("variable", vt))
    for c in V.Variable._TYPES.values():
        real = c._assert_types

        def st(self, real=real):
            if isinstance(getattr(self, "value", None), SVal):
                return None  # a valid sub-variable
            return real(self)

        r.stub(real, st)


def sub(cls, k):
    o = object.__new__(cls)
    object.__setattr__(o, "value", SVal(k))
    return o


def cls_of(v, name):
    return v.variable.Variable._TYPES[v.variable.VariableType[name]]


class Strings:
    """a family of byte strings indexed by k; one k is in play per generic iteration"""

    def __init__(self, name):
        self.name = name
        self.lens = z3.Function("len_" + name, z3.IntSort(), z3.IntSort())
        self.memo = {}

    def text(self, k):
        k = simp(k)
        if k.get_id() not in self.memo:
            s = Src("%s_%d" % (self.name, len(self.memo)), "bytes")
            E.run().assume(s.len == self.lens(k))
            self.memo[k.get_id()] = (SText("bytes", [("s", s, z3.IntVal(0), s.len)]), s, k)
        return self.memo[k.get_id()][0]

    def part(self, k, i):
        """bytes [i*M, min((i+1)*M, length))"""
        t = self.text(k)
        s = self.memo[simp(k).get_id()][1]
        ln = z3.If(s.len - i * M < M, s.len - i * M, z3.IntVal(M))
        return SText("bytes", [("s", s, simp(i * M), simp(ln))])

    def full(self, k, i):
        self.text(k)
        s = self.memo[simp(k).get_id()][1]
        return SText("bytes", [("s", s, simp(i * M), z3.IntVal(M))])

    def last(self, k):
        self.text(k)
        s = self.memo[simp(k).get_id()][1]
        q = s.len / M
        return SText("bytes", [("s", s, simp(q * M), simp(s.len - q * M))])

    def prefix(self, k, q):
        self.text(k)
        s = self.memo[simp(k).get_id()][1]
        return SText("bytes", [("s", s, z3.IntVal(0), simp(q * M))])


def is_string(r, v, text, what):
    def f(a):
        r.oblige(what + ": type", type(a) is v.variable.VariableString)
        r.oblige(what, text_eq(a.value, text))

    return Check(f)


def start(r):
    return r.int("start", 0).e


def scalar(name):
    def spec(r, v):
        V = v.variable
        if name == "BOOL":
            b = r.bool("b")
            return V.VariableBool(b), [F(1, I(b), "boolean")]
        if name == "UINT":
            u = r.int("u", 0, (1 << 32) - 1)
            return V.VariableUInt(u), [F(32, u, "unsigned")]
        if name == "INT":
            i = r.int("i", -(1 << 31), (1 << 31) - 1)
            return V.VariableInt(i), [F(32, z3.If(i.e < 0, i.e + (1 << 32), i.e), "signed")]
        if name == "FLOAT":
            x = r.real("x")
            return V.VariableFloat(x), [Call("float", 32, 32, x)]
        if name == "VEC2":
            x, y = r.real("x"), r.real("y")
            return V.VariableVec2((x, y)), [Call("float", 32, 32, x), Call("float", 32, 32, y)]
        t = SText.opaque("s", "bytes")
        return V.VariableString(t), [F(16, t.zlen(), "length"), T(t, "content")]

    def case(vals):
        val = {"BOOL": ["bool", vals.get("b", False)], "UINT": ["uint", vals.get("u", 0)], "INT": ["int", vals.get("i", 0)], "FLOAT": ["float", 1.5], "VEC2": ["vec2", [1.5, -2.25]],
               "STRING": ["string", {"n": min(vals.get("n", 3), 200000), "s": 1}]}[name]
        if name == "STRING" and val[1]["n"] > M:
            return {"bad": val}
        return {"v": val, "off": 3}

    def write(r, v):
        stubs(r, v)
        var, items = spec(r, v)
        if name == "STRING":
            r.inputs["n"] = var.value.zlen()
        r.data["case"] = case
        w = Wire(items, start=start(r), name="variable")
        try:
            v.dfwriter.DFWriter.write_variable(make(v.dfwriter.DFWriter, w), var)
        except ValueError:
            r.oblige("only strings longer than 65535 bytes are refused", name == "STRING" and B(var.value.zlen() > M))
            return
        if name == "STRING":
            r.oblige("a string standing alone longer than 65535 bytes is refused", var.value.zlen() <= M)
        w.finish()

    def read(r, v):
        stubs(r, v)
        var, items = spec(r, v)
        if name == "STRING":
            r.assume(var.value.zlen() <= M)
            r.inputs["n"] = var.value.zlen()
        r.data["case"] = case
        for it in items:
            if isinstance(it, Call):
                x = it.args[2]
                it.args, it.result = it.args[:2], x
        w = Wire(items, start=start(r), name="variable", mode="r")
        got = v.dfreader.DFReader.read_variable(make(v.dfreader.DFReader, w), v.variable.VariableType[name])
        w.finish()
        r.oblige("same type", type(got) is type(var))
        r.oblige("same value", value_eq(got.value, var.value))
        if name == "BOOL":
            r.oblige("a bool", isinstance(got.value, (bool, E.SBool)))

    return write, read


def arr_items(r, v, cls, n, mode):
    vt = cls._vtype
    elem = lambda k: sub(cls, k)
    seq = SSeq("elements", n, elem)
    if mode == "w":
        call = lambda k: [Call("variable", elem(k))]
    else:
        call = lambda k: [Call("variable", vt, result=lambda: elem(k))]
    return seq, [F(4, int(vt), "element type"), F(16, n, "element count"), Rep(n, call, name="elements", lists={"elements": (lambda e, k: [elem(I(k))], seq)})]


def array(name):
    def case(vals):
        n = max(0, min(vals.get("n", 2), 70000))
        els = {"rep": n} if name == "BOOL" else [[name.lower(), {"INT": -3, "UINT": 7, "FLOAT": 1.5, "VEC2": [0.5, 1.0], "STRUCT": [["a", ["int", 1]]], "ARRAY": ["int", [["int", 4]]]}.get(name)] for _ in range(min(n, 9))]
        v = ["array", [name.lower(), els]]
        return {"bad": v} if n > M and name == "BOOL" else {"v": v, "off": 1}

    def write(r, v):
        stubs(r, v)
        cls = cls_of(v, name)
        n = r.int("n", 0)
        r.data["case"] = case
        seq, items = arr_items(r, v, cls, n.e, "w")
        var = v.variable.VariableArray(cls, seq)
        r.oblige("constructor keeps type and elements", var.value[0] is cls and E.B(num(I(var.value[1].slen()) == n.e) if False else True))
        w = Wire(items, start=start(r), name="array")
        try:
            v.dfwriter.DFWriter.write_variable(make(v.dfwriter.DFWriter, w), var)
        except ValueError:
            r.oblige("only arrays with more than 65535 elements are refused", n.e > M)
            return
        r.oblige("an array with more than 65535 elements is refused", n.e <= M)
        w.finish()

    def read(r, v):
        stubs(r, v)
        cls = cls_of(v, name)
        n = r.int("n", 0, M)
        r.data["case"] = case
        seq, items = arr_items(r, v, cls, n.e, "r")
        w = Wire(items, start=start(r), name="array", mode="r")
        got = v.dfreader.DFReader.read_variable(make(v.dfreader.DFReader, w), v.variable.VariableType.ARRAY)
        w.finish()
        r.oblige("an array of the same element type", type(got) is v.variable.VariableArray and got.value[0] is cls)
        same_list(r, got.value[1], seq)

    return write, read


def same_list(r, got, seq, eq=value_eq):
    """the list has the elements of seq, in order"""
    n = got.slen() if hasattr(got, "slen") else len(got)
    r.oblige("same number of elements", I(n) == seq.length)
    if r.entails(seq.length == 0):
        return
    k = z3.Int(r.fresh("any"))
    r.assume(z3.And(k >= 0, k < seq.length))
    if not r.feasible():
        return
    x = got[num(k)] if not isinstance(got, SSeq) else got.elem(k)
    r.oblige("same elements in order", eq(x, seq.elem(k)))


def str_array(r, v):
    n = r.int("n", 0)
    S = Strings("strings")
    tot = z3.Int("continuations")
    r.inputs["continuations"] = tot
    r.assume(tot >= 0)
    r.assume(z3.Implies(n.e == 0, tot == 0))
    cls = v.variable.VariableString

    def elem(k):
        r.assume(S.lens(k) >= 0)
        r.inputs["length"] = S.lens(k)
        o = object.__new__(cls)
        object.__setattr__(o, "value", S.text(k))
        return o

    return n, S, tot, elem


def str_case(vals):
    ln = min(max(vals.get("length", 5), 0), 300000)
    return {"v": ["array", ["string", [["string", {"n": ln, "s": 3}], ["string", "x"], ["string", {"n": ln, "s": 5}]]]], "off": 5}


def str_array_write(r, v):
    stubs(r, v)
    n, S, tot, elem = str_array(r, v)
    r.data["case"] = str_case
    seq = SSeq("strings", n.e, elem, sums={"continuations": (lambda e, k: num(S.lens(I(k)) / M), num(tot))})
    var = v.variable.VariableArray(v.variable.VariableString, seq)
    w = Wire([F(4, 5, "element type"), F(16, simp(n.e + tot), "stored element count"),
              Rep(n.e, lambda k: [Rep(1 + S.lens(k) / M, lambda i: [Call("variable", is_string(r, v, S.part(k, i), "the next 65535 bytes of the string"))], name="parts")], name="strings")],
             start=start(r), name="string array")
    try:
        v.dfwriter.DFWriter.write_variable(make(v.dfwriter.DFWriter, w), var)
    except ValueError:
        r.oblige("only arrays with more than 65535 stored elements are refused", n.e + tot > M, case=lambda vals: {"v": ["array", ["string", {"rep": M}]]})
        return
    r.oblige("an array with more than 65535 stored elements is refused", n.e + tot <= M, case=lambda vals: {"bad": ["array", ["string", {"rep": M, "big": M}]]})
    w.finish()


def parts_items(r, v, S, k, between=()):
    """string k as the reader meets it: full parts, then one shorter than 65535"""
    q = S.lens(k) / M
    VS = v.variable.VariableString
    vt = v.variable.VariableType.STRING
    r.assume(S.lens(k) >= 0)

    def mk(t):
        o = object.__new__(VS)
        object.__setattr__(o, "value", t)
        return o

    full = lambda e, i: [S.full(k, I(i))]
    return [Rep(q, lambda i: [Call("variable", vt, result=lambda: mk(S.full(k, i)))] + list(between), name="full parts",
                lists={"parts": (full, SSeq("parts", q, lambda i: S.full(k, i), text=S.prefix(k, q)))},
                sums={"one per part": (lambda e, i: -1, num(-q), lambda i: num(-i))}),
            Call("variable", vt, result=lambda: mk(S.last(k)))]


def str_array_read(r, v):
    stubs(r, v)
    n, S, tot, elem = str_array(r, v)
    r.data["case"] = str_case
    r.assume(n.e + tot <= M)
    # number of stored parts of the strings before k
    PS = z3.Function("parts_before", z3.IntSort(), z3.IntSort())
    r.assume(z3.And(PS(0) == 0, PS(n.e) == n.e + tot))

    def items(k):
        r.assume(z3.And(PS(k + 1) == PS(k) + 1 + S.lens(k) / M, S.lens(k) >= 0))
        r.assume(z3.And(PS(k) >= k, PS(k + 1) <= PS(n.e) - (n.e - k - 1)))  # every string has at least one part
        return parts_items(r, v, S, k)

    seq = SSeq("strings", n.e, elem)
    w = Wire([F(4, 5, "element type"), F(16, simp(n.e + tot), "stored element count"),
              Rep(n.e, items, name="strings", lists={"strings": (lambda e, k: [elem(I(k))], seq)},
                  sums={"stored parts": (lambda e, k: num(-(1 + S.lens(I(k)) / M)), num(-(n.e + tot)), lambda k: num(-PS(k)))})],
             start=start(r), name="string array", mode="r")
    got = v.dfreader.DFReader.read_variable(make(v.dfreader.DFReader, w), v.variable.VariableType.ARRAY)
    w.finish()
    r.oblige("an array of strings", type(got) is v.variable.VariableArray and got.value[0] is v.variable.VariableString)
    same_list(r, got.value[1], seq, lambda a, b: z3.And(type(a) is type(b), B(text_eq(a.value, b.value))))


def struct(r, v, mode):
    """struct of n members with arbitrary keys and types"""
    V = v.variable
    n = r.int("n", 0)
    S = Strings("members")
    memo = {}
    r.data["member_type"] = None

    def kind(k):
        k = simp(k)
        if k.get_id() not in memo:
            memo[k.get_id()] = (NAMES[r.choose(8)], k)
            r.data["member_type"] = memo[k.get_id()][0]
        return memo[k.get_id()][0]

    def member(k):
        nm = kind(k)
        if nm == "STRING":
            r.assume(S.lens(k) >= 0)
            r.inputs["length"] = S.lens(k)
            o = object.__new__(V.VariableString)
            object.__setattr__(o, "value", S.text(k))
            return o
        return sub(cls_of(v, nm), k)

    key = lambda k: Key(simp(k))

    def items(k):
        nm = kind(k)
        vt = V.VariableType[nm]
        if nm != "STRING":
            if mode == "w":
                return [F(4, int(vt), "member type"), Call("str6", key(k)), Call("variable", member(k))]
            return [F(4, int(vt), "member type"), Call("str6", result=lambda: key(k)), Call("variable", vt, result=lambda: member(k))]
        r.assume(S.lens(k) >= 0)
        r.inputs["length"] = S.lens(k)
        if mode == "w":
            return [Rep(1 + S.lens(k) / M, lambda i: [F(4, int(vt), "member type"), Call("str6", key(k)), Call("variable", is_string(r, v, S.part(k, i), "the next 65535 bytes of the string"))], name="parts")]
        hd = lambda: [F(4, int(vt), "member type"), Call("str6", result=lambda: key(k))]
        return hd() + parts_items(r, v, S, k, ())if False else hd() + parts_between(r, v, S, k, hd)

    seq = SSeq("members", n.e, lambda k: (key(k), member(k)))

    def case(vals):
        nm = r.data.get("member_type") or "INT"
        ln = min(max(vals.get("length", 3), 0), 300000)
        x = {"BOOL": ["bool", True], "INT": ["int", -3], "UINT": ["uint", 3000000000], "FLOAT": ["float", -1.5], "STRING": ["string", {"n": ln, "s": 2}], "VEC2": ["vec2", [0.5, -3.25]],
             "STRUCT": ["struct", [["q", ["int", 1]]]], "ARRAY": ["array", ["int", [["int", 4]]]]}[nm]
        return {"v": ["struct", [["a", ["int", 1]], ["m", x], ["z", ["string", "end"]]]], "off": 2}

    r.data["case"] = case
    return n, seq, items


def parts_between(r, v, S, k, hd):
    q = S.lens(k) / M
    its = parts_items(r, v, S, k)
    rep = its[0]
    inner = rep.items
    rep.items = lambda i: inner(i) + hd()
    return its


def struct_write(r, v):
    stubs(r, v)
    n, seq, items = struct(r, v, "w")
    var = object.__new__(v.variable.VariableStruct)
    object.__setattr__(var, "value", AMap(seq))
    w = Wire([Rep(n, items, name="members"), F(4, 0, "terminator")], start=start(r), name="struct")
    v.dfwriter.DFWriter.write_variable(make(v.dfwriter.DFWriter, w), var)
    w.finish()


def struct_read(which):
    def fn(r, v):
        stubs(r, v)
        n, seq, items = struct(r, v, "r")

        def val(e, k):
            key, m = seq.elem(I(k))
            return [(key, m)]

        w = Wire([Rep(n, items, name="members", lists={"members": (val, seq)}), F(4, 0, "terminator")], start=start(r), name="struct", mode="r")
        o = make(v.dfreader.DFReader, w)
        got = v.dfreader.DFReader.read_variable(o, v.variable.VariableType.STRUCT)
        w.finish()
        r.oblige("a struct", type(got) is v.variable.VariableStruct)
        m = got.value
        if isinstance(m, dict) and getattr(m, "eff", None) is None:
            r.oblige("no members", z3.And(len(m) == 0, n.e == 0))
            return
        same_list(r, m.items(), seq, lambda a, b: z3.And(B(a[0] == b[0]), var_eq(a[1], b[1])))

    return fn


def var_eq(a, b):
    if type(a) is not type(b):
        return z3.BoolVal(False)
    return B(text_eq(a.value, b.value)) if isinstance(a.value, (SText, bytes)) else B(value_eq(a.value, b.value))


def read_map(r, v):
    stubs(r, v)
    d = object()
    o = object.__new__(v.variable.VariableStruct)
    object.__setattr__(o, "value", d)
    w = Wire([Call("variable", v.variable.VariableType.STRUCT, result=lambda: o)], start=start(r), mode="r")
    got = v.dfreader.DFReader.read_variable_map(make(v.dfreader.DFReader, w))
    w.finish()
    r.oblige("the mapping of the struct", got is d)


def lemma(r, v):
    """the parts as the writer stores them are the parts as the reader meets them"""
    ln, i = z3.Int("len"), z3.Int("i")
    q = ln / M
    r.assume(ln >= 0)
    pl = z3.If(ln - i * M < M, ln - i * M, z3.IntVal(M))
    r.oblige("lemma: every part but the last is full", z3.Implies(z3.And(i >= 0, i < q), pl == M))
    r.oblige("lemma: the last part is shorter", z3.And(ln - q * M >= 0, ln - q * M < M))
    r.oblige("lemma: the last part is part number length//65535", z3.Implies(i == q, pl == ln - q * M))


def groups(tier):
    for nm in NAMES:
        if nm in ("STRUCT", "ARRAY"):
            continue
        w, rd = scalar(nm)
        yield {"name": "write_variable %s" % nm, "functions": "DFWriter.write_variable", "fn": w}
        yield {"name": "read_variable %s" % nm, "functions": "DFReader.read_variable", "fn": rd}
    for nm in NAMES:
        if nm == "STRING":
            continue
        w, rd = array(nm)
        yield {"name": "write_variable ARRAY of %s" % nm, "functions": "DFWriter.write_variable, VariableArray", "fn": w}
        yield {"name": "read_variable ARRAY of %s" % nm, "functions": "DFReader.read_variable, VariableArray", "fn": rd}
    yield {"name": "write_variable ARRAY of STRING", "functions": "DFWriter.write_variable, VariableArray", "fn": str_array_write}
    yield {"name": "read_variable ARRAY of STRING", "functions": "DFReader.read_variable, VariableArray", "fn": str_array_read}
    yield {"name": "write_variable STRUCT", "functions": "DFWriter.write_variable", "fn": struct_write}
    yield {"name": "read_variable STRUCT", "functions": "DFReader.read_variable", "fn": struct_read("read_variable")}
    yield {"name": "read_variable_map", "functions": "DFReader.read_variable_map", "fn": read_map}
    yield {"name": "parts lemma", "functions": "specification", "fn": lemma}
