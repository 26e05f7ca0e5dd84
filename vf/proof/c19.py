"""C19: save conversion, for any list of scores and any other variables.

Level names are represented by their rank: the 64 known names are 0..63 in sorted order, other names are other
numbers; that is all the conversion may look at (equality, membership, and order among the known ones)."""
import importlib

import z3

from ..rt.c19 import COPY, FIELDS, LEVELS
from . import engine as E
from . import instr
from .cli import IO, Args, Stream, Token
from .common import ENGINE
from .engine import B, I, SInt, SReal, Sym, Unsupported, boo, num
from .vals import SSeq, TDict, TList, as_seq

FUNCTIONS = ["cmd.save_convert.migrate_stats", "cmd.save_convert.LEVEL_KEYS", "cmd.save_convert.SaveConvert.main", "variable.VariableArray.__init__", "variable.VariableStruct.__init__"]
ASSUMPTIONS = ["the save is well formed: score is an array of structs that have the six score fields with their types, red_used is an integer; at most 65535 scores (the format's array limit)",
               "iteration over an array variable yields its elements' values (C20); writing and reading the file are used through C22", "list.sort is a stable sort by the key"]
TRUSTED = ENGINE + ["contracts of list.sort, open and the with statement"]
SORTED = sorted(LEVELS)
TIER = {SORTED.index(n): i // 4 % 4 for i, n in enumerate(LEVELS)}
NAME, COMBO, TIME, THOR, BEST, OVER = [z3.Function("sc_" + n, z3.IntSort(), s) for n, s in zip(FIELDS, (z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.IntSort()))]


def known(c):
    return z3.And(c >= 0, c < 64)


def tier(c):
    e = z3.IntVal(0)
    for t in (1, 2, 3):
        e = z3.If(z3.Or(*[c == k for k in range(64) if TIER[k] == t]), z3.IntVal(t), e)
    return e


def rank(b):
    """rank of a concrete name"""
    s = b.decode("latin1") if isinstance(b, bytes) else None
    if s in SORTED:
        return z3.IntVal(SORTED.index(s))
    c = z3.Int("other_name_%r" % (b,))
    E.run().assume(z3.Not(known(c)))
    return c


class Name(Sym):
    """a level name"""
    pytypes = (bytes,)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, Name):
            return boo(self.e == o.e)
        return boo(self.e == rank(o)) if isinstance(o, bytes) else False

    def __ne__(self, o):
        return instr.vf_not(self == o)

    def _lt(self, o, f):
        r = E.run()
        a, b = self.e, o.e if isinstance(o, Name) else rank(o)
        if not r.entails(z3.And(known(a), known(b))):
            raise Unsupported("order of unknown level names")
        return boo(f(a, b))

    __lt__ = lambda s, o: s._lt(o, lambda a, b: a < b)
    __gt__ = lambda s, o: s._lt(o, lambda a, b: a > b)
    __le__ = lambda s, o: s._lt(o, lambda a, b: a <= b)
    __ge__ = lambda s, o: s._lt(o, lambda a, b: a >= b)
    __hash__ = Sym.__hash__

    def among(self, d):
        ks = list(dict.keys(d)) if isinstance(d, dict) else list(d)
        return boo(z3.Or(*[self.e == rank(k) for k in ks]) if ks else z3.BoolVal(False))

    def lookup(self, d, *default):
        items = list(dict.items(d))
        if default and type(default[0]) is int:
            out = z3.IntVal(default[0])
        else:
            if not E.fork(B(self.among(d))):
                if default:
                    return default[0]
                raise KeyError("level name")
            out = None
        if all(type(x) is int for _k, x in items):
            by = {}
            for k, x in items:
                by.setdefault(x, []).append(self.e == rank(k))
            for x, cs in by.items():
                out = z3.IntVal(x) if out is None else z3.If(z3.Or(*cs), z3.IntVal(x), out)
            return num(out)
        raise Unsupported("lookup of a level name in another table")


class Fields(Sym):
    """the mapping of field names to variables of score k"""
    pytypes = (dict,)

    def __init__(self, v, k):
        self.v, self.k = v, k

    def __getitem__(self, f):
        V, k, r = self.v.variable, self.k, E.run()
        r.assume(z3.And(COMBO(k) >= -2**31, COMBO(k) < 2**31, OVER(k) >= -2**31, OVER(k) < 2**31))
        mk = {"file_name": lambda: V.VariableString(Name(NAME(k))), "combo": lambda: V.VariableInt(SInt(COMBO(k))), "time": lambda: V.VariableFloat(SReal(TIME(k))),
              "thorough": lambda: V.VariableFloat(SReal(THOR(k))), "best_time": lambda: V.VariableFloat(SReal(BEST(k))), "overall": lambda: V.VariableInt(SInt(OVER(k)))}.get(f)
        if mk is None:
            raise Unsupported("score field %r" % (f,))
        return mk()

    def get(self, f, d=None):
        return self[f]


class Struct(Sym):
    """the struct variable of score k"""

    def __init__(self, v, k):
        self.value, self.pytypes = Fields(v, k), (v.variable.VariableStruct,)


class Scores(Sym):
    """the array variable of the scores"""

    def __init__(self, v, n, **info):
        self.v, self.n, self.info, self.pytypes = v, n, info, (v.variable.VariableArray,)
        self.element_type = v.variable.VariableStruct

    def as_seq(self):
        return SSeq("scores", self.n, lambda k: Fields(self.v, k), **self.info)

    @property
    def value(self):
        return (self.element_type, instr.sh_list(SSeq("scores", self.n, lambda k: Struct(self.v, k), **self.info)))

    def slen(self):
        return num(self.n)

    def __bool__(self):
        return E.fork(self.n != 0)

    def __getitem__(self, i):
        return self.as_seq()[i]


class Rec(Sym):
    """record k of the converted save"""

    def __init__(self, v, k):
        self.v, self.k, self.pytypes = v, k, (v.variable.VariableStruct,)

    def fields(self):
        k, V = self.k, self.v.variable
        t = tier(NAME(k))
        return {"file_name": (V.VariableString, Name(NAME(k))), "combo": (V.VariableInt, SInt(COMBO(k))), "time": (V.VariableFloat, SReal(TIME(k))), "thorough": (V.VariableFloat, SReal(THOR(k))),
                "best_time": (V.VariableFloat, SReal(BEST(k))), "overall": (V.VariableInt, SInt(OVER(k))), "key_type": (V.VariableInt, num(z3.If(t == 0, 4, t)))}

    def matches(self, o):
        if type(o) is not self.v.variable.VariableStruct or not isinstance(o.value, TDict) or o.value.eff is not None:
            return z3.BoolVal(False)
        c = []
        for f, (t, x) in self.fields().items():
            y = dict.get(o.value, f)
            if type(y) is not t:
                return z3.BoolVal(False)
            c.append(B(instr.value_eq(y.value, x)) if not isinstance(x, SReal) else E.Rl(y.value) == x.e)
        return z3.And(*c)

    @property
    def value(self):
        k = self.k
        E.run().assume(z3.And(COMBO(k) >= -2**31, COMBO(k) < 2**31, OVER(k) >= -2**31, OVER(k) < 2**31))
        return {f: t(x) for f, (t, x) in self.fields().items()}

    def _assert_types(self):
        pass


class SKey(Sym):
    """a key of the save's mapping"""
    pytypes = (str,)

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        if isinstance(o, SKey):
            return boo(self.e == o.e)
        return boo(self.e == skey(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return instr.vf_not(self == o)

    __hash__ = Sym.__hash__

    def among(self, d):
        return boo(z3.Or(*[self.e == skey(k) for k in d]))

    def lookup(self, d, *a):
        raise Unsupported("lookup of a save key")


KEYS = {}


def skey(s):
    return z3.IntVal(KEYS.setdefault(s, len(KEYS)))


def sk(k):
    return z3.Function("save_key", z3.IntSort(), z3.IntSort())(k)


class SVal(Sym):
    """a value of the save's mapping"""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return boo(self.e == o.e) if isinstance(o, SVal) else self.differs(o)

    __hash__ = Sym.__hash__


AT = z3.Function("save_value", z3.IntSort(), z3.IntSort())


class Save(Sym):
    """the save's mapping"""
    pytypes = (dict,)

    def __init__(self, r, v, scores, red, n, **info):
        self.r, self.v, self.n, self.info = r, v, n, info
        self.special = {"score": scores, "red_used": red}

    def has(self, k):
        if not isinstance(k, str):
            raise Unsupported("save key")
        return z3.Bool("has_" + k)

    def __contains__(self, k):
        return E.fork(self.has(k))

    def get(self, k, d=None):
        return self.at(k) if E.fork(self.has(k)) else d

    def at(self, k):
        return self.special[k] if k in self.special else SVal(AT(skey(k)))

    def __getitem__(self, k):
        if not E.fork(self.has(k)):
            raise KeyError(k)
        return self.at(k)

    def items(self):
        return SSeq("save", self.n, lambda k: (SKey(sk(k)), SVal(AT(sk(k)))), **self.info)


def copied(k):
    return z3.Or(*[k == skey(c) for c in COPY])


def mod():
    return importlib.import_module("vdust.cmd.save_convert")


def score(name, i):
    return ["struct", [["file_name", ["string", name]], ["combo", ["int", i - 3]], ["time", ["float", 10.5 * i]], ["thorough", ["float", 0.25 * i]], ["best_time", ["float", 3.0 + i]], ["overall", ["int", i]]]]


def case(vals):
    """the model's number of scores of each kind (and, as a second case, every level once)"""
    every = ["unknown", "dome", "Downhill"] + LEVELS[::-1] + ["dome", "abyss", ""]
    cap = lambda k: min(max(int(vals.get(k, 0)), 0), 1500)
    tots = [cap("total%d" % t) for t in (1, 2, 3)]
    names = []
    for t, m in enumerate([max(cap("nkept") - sum(tots), 0)] + tots):
        of = [l for i, l in enumerate(SORTED) if TIER[i] == t]
        names += [of[(i * 7 + m) % len(of)] for i in range(m)]
    names += ["unknown%d" % i for i in range(max(cap("n") - len(names), 0))]
    return {"cases": [_case(vals, ns) for ns in ([names, every] if names else [every])]}


def _case(vals, names):
    vs = [["other", ["int", 3]], ["citybook2", ["bool", True]]] + [[c, ["int", i]] for i, c in enumerate(COPY)]
    if vals.get("has_score", True):
        vs.append(["score", ["array", ["struct", [score(n, i) for i, n in enumerate(names)]]]])
    if vals.get("has_red_used", True):
        vs.append(["red_used", ["int", int(vals.get("red", 5))]])
    return {"vars": vs}


def migrate(r, v):
    m = mod()
    r.data["case"] = case
    r.data["cells"] = True
    for k in ("score", "red_used"):
        r.inputs["has_" + k] = z3.Bool("has_" + k)
    n, nk, nc, ns = z3.Ints("n nkept ncopied nsave")
    r.assume(z3.And(n >= 0, n <= 65535, nk >= 0, nk <= n, nc >= 0, ns >= 0))
    tot = [z3.Int("total%d" % t) for t in (1, 2, 3)]
    for t in tot:
        r.assume(z3.And(t >= 0, t <= nk))
    r.assume(z3.Sum(tot) <= nk)
    for x in [n, nk] + tot:
        r.inputs["nkept" if x is nk else str(x)] = x
    src, srt = z3.Function("kept_score", z3.IntSort(), z3.IntSort()), z3.Function("sorted_score", z3.IntSort(), z3.IntSort())

    def rec(f):
        def elem(k):
            r.assume(z3.And(f(k) >= 0, f(k) < n, known(NAME(f(k)))))
            return Rec(v, f(k))
        return elem

    ordered = SSeq("kept scores in order of their names", nk, rec(srt))

    def sorting(key, reverse):
        if not E.fork(nk > 0):
            return ordered
        k = z3.Int(r.fresh("any"))
        r.assume(z3.And(k >= 0, k < nk))
        if key is None:
            raise Unsupported("order of structs")
        x = key(kept.elem(k))
        r.hint("records are sorted by level name", z3.BoolVal(reverse is False) if isinstance(x, Name) and x.e.eq(NAME(src(k))) else z3.BoolVal(False))
        return ordered

    kept = SSeq("kept scores", nk, rec(src), sorted=sorting)
    ordered.info["sorted"] = lambda key, reverse: sorting(key, reverse)

    def keep(e, k):
        c = NAME(I(k))
        if r.entails(known(c)):
            return [Rec(v, I(k))]
        return [] if r.entails(z3.Not(known(c))) else [None, None]

    sums = {"tier %d" % t: ((lambda t: lambda e, k: num(z3.If(z3.And(known(NAME(I(k))), tier(NAME(I(k))) == t), 1, 0)))(t), num(tot[t - 1])) for t in (1, 2, 3)}
    scores = Scores(v, n, lists={"kept": (keep, kept)}, sums=sums)
    red = v.variable.VariableInt(r.int("red", -2**31, 2**31 - 1))
    books = SSeq("book entries", nc, lambda k: None, overlay=True)

    def book(e, k):
        c = sk(I(k))
        if r.entails(copied(c)):
            return [(SKey(c), SVal(AT(c)))]
        return [] if r.entails(z3.Not(copied(c))) else [None, None]

    save = Save(r, v, scores, red, ns, lists={"books": (book, books)})
    got = m.migrate_stats(save)
    if not isinstance(got, TDict):
        raise Unsupported("the result in another form")
    r.oblige("the save's own variables are unchanged", isinstance(red.value, SInt) and z3.is_const(red.value.e) and str(red.value.e) == "red")
    extra = dict(dict.items(got))
    if got.eff is not None:
        r.hint("book entries are copied", got.eff is books)
    else:
        for c in COPY:
            x = extra.pop(c, None)
            r.oblige("book entries are copied", z3.Not(save.has(c)) if x is None else z3.And(save.has(c), B(x == SVal(AT(skey(c)))) if isinstance(x, SVal) else z3.BoolVal(False)))
    r.oblige("nothing else is added", all(isinstance(k, str) and k.startswith("k_") for k in extra))
    V = v.variable
    has = z3.Bool("has_score")
    want = [z3.If(has, t, 0) for t in tot] + [z3.If(z3.Bool("has_red_used"), z3.Int("red"), 0)]
    for nm, w in zip(("k_wood_used", "k_silver_used", "k_gold_used", "k_red_used"), want):
        a = extra.get(nm)
        ok = type(a) is V.VariableArray and a.value[0] is V.VariableInt and isinstance(a.value[1], list) and len(a.value[1]) == 1 and type(a.value[1][0]) is V.VariableInt
        r.oblige(nm + " is an array of one integer", ok)
        x = a.value[1][0].value
        r.oblige(nm, I(x) == w)
    a = extra.get("k_score")
    r.oblige("the records are an array of structs", type(a) is V.VariableArray and a.value[0] is V.VariableStruct)
    x = a.value[1]
    s = as_seq(x)
    if s is None:
        r.oblige("no records", z3.And(z3.Or(z3.Not(has), nk == 0), z3.BoolVal(len(x) == 0)))
        return
    r.hint("one record per known score, sorted by level name", s is ordered)
    r.oblige("there is a list of scores", has)


class Reader(Stream):
    def read_var_file(self, header):
        self.need_open()
        self.r.oblige("the save's header is expected", header == b"DF_STA")
        self.io.log.append(("read", self.f.path))
        return Token("mapping of %s" % self.f.path, dict, path=self.f.path)


class Writer(Stream):
    def write_var_file(self, header, x):
        self.need_open()
        self.io.log.append(("write", self.f.path, header, x))


def main(r, v):
    m = mod()
    r.data["case"] = lambda vals: case({})
    io = IO(r, v, Reader, Writer)

    def migrate(stats):
        r.oblige("the vanilla save is converted", isinstance(stats, Token) and stats.path == "in")
        return Token("converted", dict, made=True, path=None)

    r.stub(m.migrate_stats, migrate)
    rc = m.SaveConvert().main(Args(stats0="in", stats1="out"))
    r.oblige("exit code 0", rc == 0)
    w = [x for x in io.log if x[0] in ("write", "bytes")]
    r.oblige("the new save is written once", len(w) == 1 and w[0][0] == "write" and w[0][1] == "out")
    r.oblige("the new save has the header and the converted mapping", w[0][2] == b"DF_STA" and isinstance(w[0][3], Token) and getattr(w[0][3], "made", False))
    r.oblige("only the new save is created", all(x[1] == "out" for x in io.log if x[0] == "create"))
    r.oblige("the new save is closed", io.all_closed())


def groups(tier):
    instr.load()
    mod()
    yield {"name": "migrate_stats", "functions": "migrate_stats, LEVEL_KEYS, VariableArray.__init__, VariableStruct.__init__", "fn": migrate}
    yield {"name": "SaveConvert.main", "functions": "SaveConvert.main", "fn": main}
