"""C03: 6-bit strings of every length and content."""
import z3

from . import engine as E
from .common import ENGINE
from .engine import Hook, I, num
from .vals import SSeq, Src, SText, mktext, text_eq
from .wire import F, Rep, Wire, install, make

FUNCTIONS = ["dfwriter.DFWriter.write_6bit_str", "dfreader.DFReader.read_6bit_str"]
ASSUMPTIONS = ["the bit layer is used through its contract (properties C01, C02)"]
TRUSTED = ENGINE


def valid(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 95, c == 123)


def code(c):
    """6-bit code of a character code"""
    return z3.If(c <= 57, c - 48, z3.If(c <= 90, c - 55, z3.If(c == 95, 36, z3.If(c == 123, 63, c - 60))))


def char(k):
    """character code of a 6-bit code"""
    return z3.If(k < 10, k + 48, z3.If(k < 36, k + 55, z3.If(k == 36, 95, z3.If(k < 63, k + 60, 123))))


class Refusal(Hook):
    """an iteration that completes had a character of the alphabet"""

    def __init__(self, r, text):
        self.r, self.text = r, text

    def loop_tail(self, lp):
        self.r.oblige("a character outside the alphabet is refused", valid(I(self.text.at(num(lp.k)))))


def write(r, v):
    install(r, v)
    text = SText.opaque("text", "str")
    n = text.zlen()
    r.inputs["n"] = n
    c0 = I(text.at(0))
    r.data["case"] = lambda vals: case(vals)
    w = Wire([F(6, n, "length"), Rep(n, lambda k: [F(6, code(I(text.at(num(k)))), "character")], name="characters", elem_bits=6)], start=r.int("start", 0).e, name="6-bit string")
    # the wire must be the last hook: its tail obligations assume the refusal
    r.hooks.insert(0, Refusal(r, text))
    try:
        v.dfwriter.DFWriter.write_6bit_str(make(v.dfwriter.DFWriter, w), text)
    except ValueError:
        if r.loops:
            r.inputs["c"] = I(text.at(num(r.loops[-1].k)))
            r.oblige("only characters outside the alphabet are refused", z3.Or(n > 63, z3.Not(valid(r.inputs["c"]))))
        else:
            r.oblige("only strings longer than 63 are refused", n > 63)
        return
    r.oblige("a longer string is refused", n <= 63)
    w.finish()


def case(vals):
    n = min(vals["n"], 70)
    s = chr(vals["c"]) if "c" in vals else "a"
    t = s * max(n, 1) if n else ""
    from ..refcodec import ALPHA

    return {"s": t, "off": 0} if len(t) <= 63 and all(c in ALPHA for c in t) else {"bad": t}


class Decoded(Src):
    """characters given by 6-bit codes"""

    def code(self, i):
        return num(char(self.codes(i)))


def read(r, v):
    install(r, v)
    n = r.int("n", 0, 63)
    codes = z3.Function("codes", z3.IntSort(), z3.IntSort())
    src = Decoded("decoded", "str")
    src.codes = codes
    r.assume(src.len == n.e)
    res = SText("str", [("s", src, z3.IntVal(0), src.len)])

    def item(k):
        r.assume(z3.And(codes(k) >= 0, codes(k) < 64))
        r.inputs["c"] = codes(k)
        return [F(6, codes(k), "character")]

    ch = lambda e, k: [mktext("str", [("v", [num(char(codes(I(k))))])])]
    w = Wire([F(6, n, "length"), Rep(n, item, name="characters", elem_bits=6, lists={"characters": (ch, SSeq("characters", n.e, lambda k: ch(None, num(k))[0], text=res))})],
             start=r.int("start", 0).e, mode="r", name="6-bit string")
    from ..refcodec import ALPHA

    r.data["case"] = lambda vals: {"s": "".join(ALPHA[(vals.get("c", 0)) % 64] for _ in range(max(1, vals["n"]))), "off": 0}
    got = v.dfreader.DFReader.read_6bit_str(make(v.dfreader.DFReader, w))
    w.finish()
    r.oblige("the characters of the codes, in order", text_eq(got, res))


def lemma(r, v):
    c, k = z3.Int("c"), z3.Int("k")
    r.oblige("lemma: every character has a 6-bit code that decodes to it", z3.Implies(valid(c), z3.And(code(c) >= 0, code(c) < 64, char(code(c)) == c)))
    r.oblige("lemma: every 6-bit code is the code of its character", z3.Implies(z3.And(k >= 0, k < 64), z3.And(valid(char(k)), code(char(k)) == k)))


def groups(tier):
    yield {"name": "DFWriter.write_6bit_str", "functions": "DFWriter.write_6bit_str", "fn": write}
    yield {"name": "DFReader.read_6bit_str", "functions": "DFReader.read_6bit_str", "fn": read}
    yield {"name": "alphabet lemma", "functions": "specification", "fn": lemma}
