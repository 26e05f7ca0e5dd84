"""C04: fixed-point floats, for every number of integer and fractional bits."""
import z3

from . import engine as E
from .common import ENGINE
from .engine import I, Rl, SInt, SReal, num, pow2
from .wire import F, Wire, install, make

FUNCTIONS = ["dfwriter.DFWriter.write_float", "dfreader.DFReader.read_float"]
ASSUMPTIONS = ["floats are exact reals in this proof; on the grid every intermediate value of the library's computation is exactly representable whenever the value itself is",
               "BitIOWriter.write / BitIOReader.read are used through their contract (property C01)"]
TRUSTED = ENGINE


def setup(r, v):
    r.data["pow2"] = True
    ib, fb = r.int("ib", 2), r.int("fb", 1)
    install(r, v)
    return ib, fb, I(pow2(ib - 1)), I(pow2(fb - 1)), I(pow2(fb))


def fields(val, P):
    x = Rl(val)
    fl = z3.ToInt(x)
    return z3.If(x < 0, 1, 0), z3.If(fl < 0, -fl, fl), z3.ToInt((x - z3.ToReal(fl)) * z3.ToReal(P))


def write(grid, kind):
    def fn(r, v):
        ib, fb, IB, P, P2 = setup(r, v)
        r.data["case"] = case_any
        if kind == "int":
            x = r.int("x")
        else:
            x = r.real("x")
        s, ip, fp = fields(x, P)
        r.assume(ip < IB)
        spec = [F(1, s, "sign"), F(ib - 1, ip, "integer part"), F(fb, fp, "fraction")]
        w = Wire(spec, name="float")
        # the specification's own fields are in range
        r.oblige("the fraction fits", z3.And(fp >= 0, fp < P2))
        v.dfwriter.DFWriter.write_float(make(v.dfwriter.DFWriter, w), ib, fb, x)
        w.finish()

    return fn


def case_any(vals):
    return {"ib": min(max(vals["ib"], 2), 40), "fb": min(max(vals["fb"], 1), 40), "v": float(vals.get("x", 0)), "off": 3}


def read(r, v):
    ib, fb, IB, P, P2 = setup(r, v)
    s, ip, fp = r.int("s", 0, 1), r.int("i", 0), r.int("f", 0)
    r.assume(z3.And(ip.e < IB, fp.e < P2))
    r.data["case"] = lambda vals: {"ib": min(vals["ib"], 40), "fb": min(vals["fb"], 40), "v": (1 - 2 * vals["s"]) * vals["i"] + vals["f"] / 2.0 ** (vals["fb"] - 1), "off": 5}
    w = Wire([F(1, s, "sign"), F(ib - 1, ip, "integer part"), F(fb, fp, "fraction")], mode="r", name="float")
    x = v.dfreader.DFReader.read_float(make(v.dfreader.DFReader, w), ib, fb)
    w.finish()
    r.oblige("value of the stored fields", Rl(x) == z3.ToReal((1 - 2 * s.e) * ip.e) + z3.ToReal(fp.e) / z3.ToReal(P))
    r.oblige("the value is a float", E.isreal(x))


def lemma(r, v):
    """reading what write_float's specification stores: exact on the grid, else within one step"""
    x = z3.Real("x")
    r.inputs["x"] = x
    P = z3.Int("P")
    r.assume(P >= 1)
    s, ip, fp = fields(SReal(x), P)
    y = z3.ToReal((1 - 2 * s) * ip) + z3.ToReal(fp) / z3.ToReal(P)
    fl = z3.ToInt(x)
    r.oblige("lemma: sign and magnitude give the value rounded down", (1 - 2 * s) * ip == fl)
    m = z3.ToInt((x - z3.ToReal(fl)) * z3.ToReal(P))
    e = (x - z3.ToReal(fl)) * z3.ToReal(P) - z3.ToReal(m)
    r.oblige("lemma: rest", z3.And(e >= 0, e < 1))
    u = z3.Real("u")
    r.assume(u == (x - z3.ToReal(fl)) * z3.ToReal(P))
    Y = z3.Real("Y")
    r.assume(Y == z3.ToReal(m) / z3.ToReal(P))
    r.oblige("lemma: scaled", Y * z3.ToReal(P) == z3.ToReal(m))
    # |x - y| * P = u - m in [0, 1)
    d = x - z3.ToReal(fl) - Y
    r.oblige("lemma: scaled error", d * z3.ToReal(P) == u - z3.ToReal(m))
    r.oblige("lemma: error below one step", z3.And(d * z3.ToReal(P) >= 0, d * z3.ToReal(P) < 1))
    g = z3.Int("g")
    r.assume(x * z3.ToReal(P) == z3.ToReal(g))
    r.oblige("lemma: on the grid the scaled fraction is an integer", u == z3.ToReal(g - fl * P))
    r.oblige("lemma: on the grid nothing is cut off", m == g - fl * P)
    r.oblige("lemma: on the grid the error is zero", d * z3.ToReal(P) == 0)


def groups(tier):
    yield {"name": "DFWriter.write_float", "functions": "DFWriter.write_float", "fn": write(True, "float")}
    yield {"name": "DFWriter.write_float of whole numbers", "functions": "DFWriter.write_float", "fn": write(True, "int")}
    yield {"name": "DFReader.read_float", "functions": "DFReader.read_float", "fn": read}
    yield {"name": "round-trip lemma", "functions": "specification", "fn": lemma}
