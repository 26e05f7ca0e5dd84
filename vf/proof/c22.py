"""C22: write_var_file / read_var_file over the stream contracts; any header, any mapping, any aligned position."""
import z3

from . import engine as E
from .c05 import Key, stubs, sub
from .common import ENGINE
from .engine import B, I, num, simp
from .vals import AMap, SSeq, SText, text_eq
from .wire import Align, Call, Check, F, T, Wire, make

FUNCTIONS = ["dfwriter.DFWriter.write_var_file", "dfreader.DFReader.read_var_file", "dfreader.DFReader.read_expect", "dfreader.DFReader.read_variable_map", "variable.VariableStruct.__init__"]
ASSUMPTIONS = ["write_variable/read_variable and the bit layer are used through their contracts (C01, C02, C05)", "the file is smaller than 2^32 bytes (its size field has 32 bits)",
               "reading with another header is proved for headers of the same length; shorter or longer ones are covered by the run-time contract only"]
TRUSTED = ENGINE
M32 = 1 << 32


def any_map(r, v, name="members"):
    """a variable mapping of any size"""
    n = r.int("n_" + name, 0)
    seq = SSeq(name, n.e, lambda k: (Key(simp(k)), sub(v.variable.VariableInt, k)))
    return AMap(seq)


def holds_map(r, v, m, what="the variables"):
    """argument of write_variable: a struct of exactly this mapping"""

    def f(a):
        r.oblige(what + " are written as a struct", type(a) is v.variable.VariableStruct)
        x = a.value
        if isinstance(x, AMap):
            r.oblige(what + " are written", x.seq is m.seq)
        elif isinstance(x, dict) and len(x) == 0 and getattr(x, "eff", None) is None:
            r.oblige(what + " are written", m.seq.length == 0)
        else:
            raise E.Unsupported("another mapping")

    return Check(f)


def struct_of(v, m):
    o = object.__new__(v.variable.VariableStruct)
    object.__setattr__(o, "value", m)
    return o


def case(vals):
    n = max(0, min(vals.get("header length", 6), 400))
    return {"h": "H" * n, "h2": "H" * (n - 1) + "G" if n >= 6 else "DF_CFG", "vars": [["b", ["bool", True]]] * (1 if vals.get("n_members", 1) else 0), "pre": vals.get("start", 0) // 8 % 50, "post": 2}


def setup(r, v):
    stubs(r, v)
    r.data["case"] = case
    h = SText.opaque("header", "bytes")
    r.inputs["header length"] = h.zlen()
    m = any_map(r, v)
    p0 = r.int("start", 0).e
    r.assume(p0 % 8 == 0)
    bits = z3.Int("bits_of_variables")
    r.assume(bits >= 0)
    size = simp(h.zlen() + 6 + (bits + 7) / 8)
    r.assume(size < M32)
    return h, m, p0, bits, size


def write(r, v):
    h, m, p0, bits, size = setup(r, v)
    w = Wire([T(h, "header"), F(16, 1, "version"), F(32, size, "size of the file"), Call("variable", holds_map(r, v, m), bits=bits), Align()], start=p0, name="variable file")
    v.dfwriter.DFWriter.write_var_file(make(v.dfwriter.DFWriter, w), h, m)
    w.finish()


def read(r, v):
    h, m, p0, bits, size = setup(r, v)
    w = Wire([T(h, "header"), F(16, 1, "version"), F(32, size, "size of the file"), Call("variable", v.variable.VariableType.STRUCT, bits=bits, result=lambda: struct_of(v, m))], start=p0, name="variable file", mode="r")
    h2 = SText.opaque("other", "bytes")
    same = r.choose(2)
    if same:
        h2 = h
    else:
        r.assume(h2.zlen() == h.zlen())
    try:
        got = v.dfreader.DFReader.read_var_file(make(v.dfreader.DFReader, w), h2)
    except v.exceptions.LevelParseException:
        r.oblige("the right header is accepted", z3.Not(B(text_eq(h, h2))))
        return
    r.oblige("another header is refused", B(text_eq(h, h2)))
    w.finish()
    r.oblige("the same mapping", got is m or (isinstance(got, AMap) and got.seq is m.seq))


def groups(tier):
    yield {"name": "write_var_file", "functions": "DFWriter.write_var_file", "fn": write}
    yield {"name": "read_var_file", "functions": "DFReader.read_var_file, read_expect, read_variable_map", "fn": read}
