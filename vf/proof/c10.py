"""C10: write_replay / read_replay.

The body of an input stream is judged by what it means to a reader, not by how it is produced: a machine follows the
counts and values written and every count is an obligation about the frames it covers (any frame, any list length,
runs of any length).  Loops over players, entities, frames, list values and runs are cut with invariants."""
import io
import zlib

import z3

from . import engine as E, instr
from .c05 import Key
from .common import ENGINE
from .engine import B, I, PathEnd, Poison, Rl, SInt, SReal, Sym, Unsupported, boo, fork, num, run, simp
from .instr import CutLoop, Loop, LoopInfo, UNBOUND, find_birth, value_eq
from .levelio import sub_stream
from .vals import AMap, SSeq, SText, TDict, TList, text_eq
from .wire import Align, F, Item, Lazy, Rep, T, Wire, install, make, wire_of, zi

FUNCTIONS = ["dfwriter.DFWriter.write_replay", "dfreader.DFReader.read_replay", "dfreader.DFReader.read_expect", "replay._INTENT_META (the conversions of all 11 streams)", "replay.PlayerData.get_intent_value",
             "replay.Replay.get_player_entity_data", "replay.Replay.get_camera_entity_data"]
ASSUMPTIONS = ["the bit layer is used through its contracts (C01, C02)", "zlib: decompress(compress(x)) = x, and a decompressor fed byte by byte reaches its end exactly at the end of the compressed data",
               "floating point numbers are exact reals", "uncompressed replay data and every stream are smaller than 2^32 bytes; at most 65535 players, 2^32-1 entities and frames per entity",
               "input values fit the field their stream has in the format (x, y: -1..2; jump, dash, fall: 0..3; light, heavy, taunt: 0..15; mouse 0..65535/32767; mouse state 0..255)",
               "entity ids are distinct; a stream body consists of counts below 255, each but the last followed by a value, and ends with 255",
               "termination of the two stream loops is shown by progress obligations; reading truncated data is outside the contract"]
TRUSTED = ENGINE
M32 = 1 << 32

# bits, first version, neutral value -- the format
FORMAT = [(2, 1, 0), (2, 1, 0), (2, 1, 0), (2, 1, 0), (2, 1, 0), (4, 1, 0), (4, 1, 0), (4, 3, 0), (16, 4, 0.0), (16, 4, 0.0), (8, 4, 0)]
MOUSE = (8, 9)


def nstreams(version):
    return sum(1 for f in FORMAT if f[1] <= version)


def rel(i, x, b):
    """field value b stands for the input value x (z3 expressions) in stream i"""
    if i < 2:
        return b == x + 1
    if i in MOUSE:
        d = x * 32767 - z3.ToReal(b)
        return z3.And(d <= z3.Q(1, 2), d >= -z3.Q(1, 2))
    return b == x


NEUTRAL = [1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]  # field value of the neutral input


def dec(i, b, v):
    """the value a reader gets for field value b"""
    b = b if z3.is_expr(b) else I(b)
    if i < 2:
        return num(b - 1)
    if i in MOUSE:
        return SReal(simp(z3.ToReal(b) / 32767))
    if i == 10:
        return SInt(simp(b), v.replay.MouseState)
    return num(b)


# ------------------------------------------------------------------------------------------- lists of values
class Vals:
    """the input values of one player and stream: n of them"""

    def __init__(self, r, i, tag):
        self.r, self.i = r, i
        self.n = z3.Int("n_values_" + tag)
        r.assume(self.n >= 0)
        sort = z3.RealSort() if i in MOUSE else z3.IntSort()
        self.f = z3.Function("value_" + tag, z3.IntSort(), sort)
        self.RC = z3.Function("run_" + tag, z3.IntSort(), z3.IntSort())  # length of the run that ends before k
        self.S = z3.Function("start_" + tag, z3.IntSort(), z3.IntSort())
        self.BT = z3.Function("bits_" + tag, z3.IntSort(), z3.IntSort())
        self.M = z3.Int("n_runs_" + tag)
        self.seq = SSeq("values", self.n, self.elem, vals=self)

    def valid(self, k):
        x = self.f(k)
        i = self.i
        if i in MOUSE:
            self.r.assume(z3.And(x >= 0, x * 32767 <= 65535))
        else:
            lo = -1 if i < 2 else 0
            self.r.assume(z3.And(x >= lo, x < lo + (1 << FORMAT[i][0])))

    def elem(self, k):
        self.valid(k)
        return SReal(self.f(k)) if self.i in MOUSE else SInt(self.f(k))

    def W(self, k):
        """the k-th value of [neutral] + values"""
        k = zi(k)
        x = self.f(simp(k - 1))
        return z3.If(k == 0, z3.RealVal(0) if self.i in MOUSE else z3.IntVal(0), x)

    def val(self, f):
        """value in effect on frame f"""
        return z3.If(f < self.n, self.f(f), z3.RealVal(0) if self.i in MOUSE else z3.IntVal(0))

    # -- runs: RC(0) = 1, RC(k+1) = 1 if the k-th value differs from what was before it, else RC(k) + 1
    def rc(self, k):
        """RC(k) with its proved bounds (lemma 'run lengths')"""
        self.r.assume(z3.And(self.RC(k) >= 1, self.RC(k) <= k + 1))
        self.r.assume(z3.Implies(k == 0, self.RC(k) == 1))
        return self.RC(k)

    def run_fact(self, i, j):
        """lemma 'runs': the i-th run covers [S(i), S(i+1)), where all of [neutral] + values are equal"""
        r = self.r
        r.assume(z3.Implies(z3.And(self.S(i) <= j, j < self.S(i + 1)), self.W(j) == self.W(self.S(i))))

    def run_at(self, i):
        r = self.r
        r.assume(z3.And(self.M >= 1, self.S(0) == 0, self.S(self.M) == self.n + 1))
        r.assume(z3.And(self.S(i) >= 0, self.S(i) < self.S(i + 1), self.S(i + 1) <= self.n + 1))
        r.assume(z3.Implies(i < self.M - 1, self.S(i + 1) < self.n + 1))
        self.valid(simp(self.S(i) - 1))
        r.assume(rel(self.i, self.W(self.S(i)), self.BT(i)))
        r.assume(z3.And(self.BT(i) >= 0, self.BT(i) < (1 << FORMAT[self.i][0])))
        return (num(self.S(i + 1) - self.S(i)), num(self.BT(i)))


class Bits:
    """expected: a field value for x"""

    def __init__(self, i, x):
        self.i, self.x = i, x

    def matches(self, a):
        if isinstance(a, bool) or not isinstance(a, (int, SInt)):
            return z3.BoolVal(False)
        return rel(self.i, self.x, I(a))


class Value:
    """expected: what a reader makes of field value s"""

    def __init__(self, i, s, v):
        self.i, self.s, self.v = i, s, v

    def matches(self, a):
        if self.i == 10 and not isinstance(a, self.v.replay.MouseState) and getattr(a, "enum", None) is not self.v.replay.MouseState:
            return z3.BoolVal(False)
        return value_eq(a, dec(self.i, self.s, self.v))


class Never:
    def matches(self, a):
        return z3.BoolVal(False)


class RunSeq(SSeq):
    """runs lo..hi-1, in order or backwards"""

    def __init__(self, vals, lo, hi, back=False):
        self.vals, self.lo, self.hi, self.back = vals, simp(zi(lo)), simp(zi(hi)), back
        SSeq.__init__(self, "runs", simp(self.hi - self.lo), self.at)

    def at(self, k):
        return self.vals.run_at(simp(self.hi - 1 - k if self.back else self.lo + k))

    def sub(self, a, ln):
        a, ln = I(a), I(ln)
        if self.back:
            return RunSeq(self.vals, self.hi - a - ln, self.hi - a, True)
        return RunSeq(self.vals, self.lo + a, self.lo + a + ln)

    def rev(self):
        return RunSeq(self.vals, self.lo, self.hi, not self.back)


class FoldValue:
    """what an iteration has seen last"""

    def __init__(self, vals):
        self.v = vals

    def init(self, x):
        return isinstance(x, (int, float)) and not isinstance(x, bool) and x == 0

    def at(self, k):
        if self.v.r.entails(k == self.v.n + 1):
            return None
        self.v.valid(simp(k - 1))
        x = self.v.W(k)
        return SReal(x) if self.v.i in MOUSE else SInt(x)

    def step(self, x, k):
        if x is None:
            return k == self.v.n
        if not isinstance(x, (int, float, SInt, SReal)) or isinstance(x, bool):
            return z3.BoolVal(False)
        return z3.And(k < self.v.n, (Rl(x) if self.v.i in MOUSE else I(x)) == self.v.f(k))


class FoldCount:
    def __init__(self, vals):
        self.v = vals

    def init(self, x):
        return type(x) is int and x == 1

    def at(self, k):
        return num(self.v.rc(k))

    def step(self, x, k):
        if not isinstance(x, (int, SInt)) or isinstance(x, bool):
            return z3.BoolVal(False)
        v = self.v
        v.r.assume(v.RC(k + 1) == z3.If(z3.Or(k == v.n, v.f(k) != v.W(k)), z3.IntVal(1), v.RC(k) + 1))  # definition
        return I(x) == v.RC(k + 1)


def boundary(vals):
    def fn(elem, k):
        r = vals.r
        k = I(k)
        pair = [(num(vals.rc(k)), Bits(vals.i, vals.W(k)))]
        if elem is None:
            return pair
        c = vals.f(k) != vals.W(k)
        if r.entails(c):
            return pair
        if r.entails(z3.Not(c)):
            return []
        return [Never()]

    return fn


# ------------------------------------------------------------------------------------------- stream body
class Body(Item):
    """the body of one input stream: count {value count} 255.  A count covers the next frames with the value before
    it (the neutral one at the start): as many as it says for the first one, one more for the others."""
    name = "input stream"

    def __init__(self, i, vals=None, entries=None):
        self.i, self.vals = i, vals
        self.width = FORMAT[i][0]
        self.entries = entries
        self.p, self.s, self.first, self.phase = z3.IntVal(0), z3.IntVal(NEUTRAL[i]), True, "count"
        self.ended = False
        self.part = None
        self.facts = []  # functions of a frame that assume what is known about it
        self.j = z3.IntVal(0)
        self._bits = None

    def bits(self):
        if self._bits is None:
            r = run()
            self._bits = z3.Int(r.fresh("bits_stream"))
            r.assume(z3.And(self._bits >= 0, self._bits < 8 * (M32 - 1)))
        return self._bits

    def want(self):
        return 8 if self.phase == "count" else self.width

    def span(self, c):
        return simp(c if self.first else c + 1)

    def feed(self, x):
        """writer: the next count or value"""
        r = run()
        if self.phase == "value":
            self.s, self.phase = x, "count"
            return
        f = z3.Int(r.fresh("frame"))
        r.assume(f >= 0)
        if fork(x == 255):
            for a in self.facts:
                a(f)
            r.oblige("stream %d: every frame after the last run has the neutral value" % self.i, z3.Implies(f >= self.p, rel(self.i, self.vals.val(f), z3.IntVal(NEUTRAL[self.i]))))
            self.ended = True
            return
        q = simp(self.p + self.span(x))
        for a in self.facts:
            a(f)
        r.oblige("stream %d: the frames covered by a run have its value" % self.i, z3.Implies(z3.And(f >= self.p, f < q), rel(self.i, self.vals.val(f), self.s)))
        self.p, self.first, self.phase = q, False, "value"

    def give(self):
        """reader: the next count or value"""
        e = self.entries
        if self.phase == "value":
            self.s = e.value(self.j)
            self.j = simp(self.j + 1)
            self.phase = "count"
            return self.s
        if fork(self.j == e.n):
            self.ended = True
            return z3.IntVal(255)
        c = e.count(self.j)
        self.p, self.first, self.phase = simp(self.p + self.span(c)), False, "value"
        return c


class Entries:
    """what a stream contains: n counts, each followed by a value"""

    def __init__(self, r, i, tag):
        self.r, self.i = r, i
        self.n = z3.Int("n_entries_" + tag)
        r.assume(self.n >= 0)
        self.c = z3.Function("count_" + tag, z3.IntSort(), z3.IntSort())
        self.x = z3.Function("stored_" + tag, z3.IntSort(), z3.IntSort())
        self.P = z3.Function("covered_" + tag, z3.IntSort(), z3.IntSort())  # frames before the j-th entry
        r.assume(self.P(0) == 0)
        self.D = z3.Function("in_effect_" + tag, z3.IntSort(), z3.IntSort())  # field value in effect on a frame

    def count(self, j):
        self.r.assume(z3.And(self.c(j) >= 0, self.c(j) < 255))
        self.r.assume(self.P(j + 1) == self.P(j) + z3.If(j == 0, self.c(j), self.c(j) + 1))
        return self.c(j)

    def value(self, j):
        self.r.assume(z3.And(self.x(j) >= 0, self.x(j) < (1 << FORMAT[self.i][0])))
        return self.x(j)

    def pending(self, j):
        """field value in effect for the j-th entry"""
        return simp(z3.If(j == 0, z3.IntVal(NEUTRAL[self.i]), self.value(simp(j - 1))))


class Few(Item):
    """the streams of one player"""
    name = "input streams"

    def __init__(self, n, items, bits=None):
        self.n, self.items = n, items
        self._bits = bits

    def bits(self):
        if self._bits is None:
            r = run()
            self._bits = z3.Int(r.fresh("bits_streams"))
            r.assume(z3.And(self._bits >= 0, self._bits % 8 == 0))
        return self._bits


class Near(F):
    """a signed field that holds the integer nearest to a real"""

    def __init__(self, width, real, name):
        F.__init__(self, width, 0, name)
        self.real = real


class RWire(Wire):
    """a stream with input stream bodies"""

    def field(self, bits, val=None):
        r = self.r
        w = val is not None
        b = simp(I(bits)) if isinstance(bits, SInt) else bits
        if isinstance(b, int) or z3.is_int_value(b):
            bits = b if isinstance(b, int) else b.as_long()
        it = self.peek(w)
        if isinstance(it, Near) and w and bits == it.width and self.rest is None:
            x = I(val)
            r.oblige("%s: a value fits its field" % self.name, z3.And(x < (1 << bits), x >= -(1 << (bits - 1))))
            d = it.real - z3.ToReal(simp(z3.If(x >= (1 << (bits - 1)), x - (1 << bits), x)))
            it.conds = [("%s: field %s" % (self.name, it.name), z3.And(d <= z3.Q(1, 2), d >= -z3.Q(1, 2)))]
            self.pos = simp(self.pos + bits)
            self.adv()
            return x
        if not isinstance(it, Body):
            return Wire.field(self, bits, val)
        if not isinstance(bits, int):
            raise Unsupported("field of symbolic width in a stream")
        if it.done:
            raise Unsupported("a stream is written twice")
        left, shift, out = bits, 0, z3.IntVal(0)
        if w:
            x = I(val)
            r.oblige("%s: a value fits its field" % self.name, z3.And(x < (1 << bits), x >= -(1 << (bits - 1))))
            x = simp(z3.If(x < 0, x + (1 << bits), x))
        while left:
            if it.ended:
                if w:
                    self.mismatch("%d bits after the end of a stream" % left)
                raise Unsupported("reading past the end of a stream")
            need = it.want()
            have, acc = it.part or (0, z3.IntVal(0))
            if w:
                n = min(left, need - have)
                acc = simp(acc + (x if n == left else x % (1 << n)) * (1 << have))
                x = simp(x / (1 << n))
                have += n
                it.part = (have, acc)
                if have == need:
                    it.part = None
                    it.feed(acc)
            else:
                if not it.part:
                    acc = it.give()
                    have = need
                n = min(left, have)
                out = simp(out + (acc if n == have else acc % (1 << n)) * (1 << shift))
                it.part = (have - n, simp(acc / (1 << n))) if n < have else None
            left -= n
            shift += n
            self.pos = simp(self.pos + n)
            if it.ended and not it.part:
                self.fill(self.cur)
                if it._bits is None:
                    it.bits()
                if w:
                    r.assume(it._bits == self.pos - self.starts[self.cur])  # defines the size of the body
                else:
                    r.assume(it._bits == self.pos - self.starts[self.cur])
                self.adv()
                if left:
                    return simp(out) if not w and False else self.rest_field(left, shift, x if w else None, out, w)
        return simp(out)

    def seek(self, p, unaligned=False):
        Wire.seek(self, p, unaligned)
        if self.mode == "r":
            for x in self.items[: self.cur]:
                if isinstance(x, Align):
                    x.done = True

    def rest_field(self, left, shift, x, out, w):
        if w:
            Wire.field(self, left, num(x))
            return out
        return simp(out + Wire.field(self, left) * (1 << shift))

    # -- loops
    def cut(self, it, fn):
        if self.parked:
            return it, None
        few = self.peek()
        if not isinstance(few, Few) or few.done or self.rest is not None:
            return it, None
        if not isinstance(it, (enumerate, zip, tuple, list, range, dict)) or isinstance(it, TList) and it.segs is not None:
            return it, None
        items = list(it)
        if len(items) < few.n:
            return iter(items) if isinstance(it, (enumerate, zip)) else it, None
        return items, FewLoop(self, few, items, fn)

    def make_while(self, fn):
        if self.parked or self.closed:
            return None
        it = self.peek()
        if isinstance(it, Body):
            if self.mode == "w":
                st = [o for o in self.r.tracked if isinstance(o, TList) and o.segs and any(isinstance(s, RunSeq) and s.vals is it.vals for s in o.segs)]
                return RunsWhile(self, it, st[0], fn) if len(st) == 1 else None
            return EntriesWhile(self, it, fn)
        if isinstance(it, T) and self.rest is None and getattr(it, "by_byte", None):
            return BytesWhile(self, it, fn)
        return None

    def loop_init(self, lp):
        Wire.loop_init(self, lp)
        segs = lp.seq.info.get("segs")
        if segs and len(segs) == 2 and isinstance(segs[0], SSeq) and "vals" in segs[0].info and isinstance(segs[1], list) and len(segs[1]) == 1 and segs[1][0] is None:
            vals = segs[0].info["vals"]
            lp.folds["value"] = FoldValue(vals)
            lp.folds["count"] = FoldCount(vals)
            lp.lists["runs"] = (boundary(vals), RunSeq(vals, 0, vals.M))
            self.r.assume(vals.M >= 1)
        it = None if self.parked else self.peek()
        if self.mode == "r" and isinstance(it, Body):
            s = it.prev
            lp.lists["repeated value"] = (lambda e, k: [Value(it.i, s, self.v)], SSeq("repeated", lp.seq.length, lambda k: dec(it.i, s, self.v), repeats=s))


class FewLoop(CutLoop):
    """one stream of one player: the i-th of the table, or what follows"""

    def __init__(self, wire, few, items, fn):
        CutLoop.__init__(self, items, fn)
        self.wire, self.few = wire, few

    def before(self, i):
        w, r = self.wire, self.r
        r.data["stream"] = i
        r.data.get("on_stream", lambda i: None)(i)
        self.outer = (w.items, w.starts, w.cur, w.pos)
        base = z3.Int(r.fresh("pos"))
        r.assume(z3.And(base >= 0, base % 8 == 0))
        w.items, w.starts, w.cur, w.pos, w.rest = (list(self.few.items(i)) if i < self.few.n else []), [base], 0, base, None

    def settle(self):
        """True if this iteration accessed the stream (completely)"""
        w = self.wire
        touched = w.cur > 0 or w.rest is not None or any(x.done for x in w.items)
        if touched:
            w.finish(inner=True)
            self.r.oblige("%s: streams end on byte boundaries" % w.name, w.pos % 8 == 0)
        elif w.pos is not w.starts[0]:
            raise Unsupported("the stream was moved")
        w.items, w.starts, w.cur, w.pos = self.outer
        w.rest = None
        return touched

    def note(self, i, t):
        if i >= self.few.n:
            return
        h = self.info.hookdata
        if h.setdefault("touched", t) != t:
            self.wire.mismatch("some streams are accessed and some are not")

    def done(self, i):
        if self.effects:
            raise Unsupported("a collection is modified by the loop over the streams")
        self.note(i, self.settle())
        self.r.data.get("off_stream", lambda i: None)(i)

    def advance(self):
        w = self.wire
        if not self.info.hookdata.get("touched"):
            return
        w.pos = simp(w.pos + w.items[w.cur].bits())
        w.adv()

    def finish(self):
        self.advance()

    def after(self, thunks=()):
        if self.mode == "iter":
            t = self.settle()
            self.r.data.get("off_stream", lambda i: None)(self.i)
            self.note(self.i, t)
            if self.i + (1 if t else 0) < self.few.n:
                self.wire.mismatch("the loop over the streams ends too early")
            self.advance()
        return CutLoop.after(self, thunks)


class CutWhile(Loop):
    """a while loop cut at its head: the first pass from the state before the loop, an arbitrary later pass, or
    what follows the loop.  Truth values are carried if they are the same before every later pass."""

    def __init__(self, wire, body, fn):
        Loop.__init__(self, SSeq("passes", z3.IntVal(0), None), fn)
        self.wire, self.body = wire, body

    def head(self, thunks):
        if self.mode is None:
            r = self.r = run()
            self.info = r.ex.memo.setdefault(("loop", r.key()), LoopInfo())
            self.first_problem = self.info.hookdata.setdefault("problems", len(r.ex.problems))
            self.open()
            m = r.choose(3)
            if m == 2:
                self.mode = "exit"
                if len(r.ex.problems) != self.first_problem:
                    raise PathEnd("the loop body could not be analysed: what holds after it is not known")
                self.to_exit()
                return [self.carried(n, t) for n, t in thunks]
            self.mode = "first" if m == 0 else "later"
            if m == 1 and (len(r.ex.problems) != self.first_problem or "locals" not in self.info.hookdata):
                raise PathEnd("no later pass")
            r.loops.append(self)
            self.clock = r.tick()
            self.effects, self.cells, self.k = [], {}, z3.IntVal(0)
            self.start()
            if m == 0:
                out = []
                for n, t in thunks:
                    try:
                        out.append(t())
                    except (NameError, UnboundLocalError):
                        out.append(Poison("%s is not bound" % n))
                return out
            return [self.carried(n, t) for n, t in thunks]
        if self.mode == "exit":
            raise Unsupported("the loop continues after the data")
        if self.r.loops[-1] is not self:
            raise Unsupported("loops out of order")
        self.end()
        st = {n: self.kind(t()) for n, t in thunks}
        old = self.info.hookdata.get("locals")
        if old is None:
            self.info.hookdata["locals"] = st
        else:
            for n in st:
                if old[n] != st[n] and old[n] is not None:
                    raise Unsupported("the value of %s before a later pass is not known" % n)
        self.r.loops.pop()
        raise PathEnd("end of a pass")

    def kind(self, x):
        if isinstance(x, bool):
            return ("bool", x)
        return self.more(x)

    def more(self, x):
        return None

    def value_of(self, k):
        raise NotImplementedError

    def carried(self, n, t):
        k = self.info.hookdata.get("locals", {}).get(n)
        if k is None:
            return Poison("value of %s from an earlier pass" % n)
        return k[1] if k[0] == "bool" else self.value_of(k)

    def after(self, thunks=()):
        if self.mode != "exit":
            if self.r.feasible():
                raise Unsupported("the loop is left in the middle of the data (%s)" % self.fn)
            raise PathEnd("infeasible")

    def anywhere(self):
        w, r = self.wire, self.r
        base = z3.Int(r.fresh("pos"))
        w.fill(w.cur)
        r.assume(base >= w.starts[w.cur])
        w.pos = base


class RunsWhile(CutWhile):
    """the loop that writes the runs on a stack: before every later pass the stack holds what is left of run i on top
    of the runs after it, and the frames before that have been written"""

    def __init__(self, wire, body, stack, fn):
        CutWhile.__init__(self, wire, body, fn)
        self.stack = stack

    def open(self):
        b, st = self.body, self.stack
        if b.phase != "count" or not b.first or b.part:
            raise Unsupported("the loop starts inside a stream")
        st.segs = [s for s in st.segs if not isinstance(s, list) or s]
        if len(st.segs) != 1 or not st.segs[0].back or not self.r.entails(st.segs[0].lo == 0):
            raise Unsupported("the runs are not a stack")
        if not self.r.entails(st.segs[0].length >= 1):
            raise Unsupported("perhaps no runs")
        self.hi = st.segs[0].hi
        self.vals = b.vals

    def state(self, i, rem):
        """frames covered when rem elements of run i are left"""
        return simp(self.vals.S(i + 1) - rem - 1)

    def start(self):
        b, r, v = self.body, self.r, self.vals
        self.direct = frozenset([self.stack.birth])
        if self.mode == "first":
            self.i = z3.IntVal(0)
            v.run_at(self.i)
            self.rem = simp(v.S(1) - v.S(0))
            self.p0 = z3.IntVal(-1)
        else:
            self.i = z3.Int(r.fresh("run"))
            self.rem = z3.Int(r.fresh("left"))
            r.inputs["left of the run"] = self.rem
            r.assume(z3.And(self.i >= 0, self.i < self.hi, self.hi <= v.M))
            c, x = v.run_at(self.i)
            r.assume(z3.And(self.rem >= 1, self.rem <= I(c)))
            self.stack.segs = [RunSeq(v, self.i + 1, self.hi, True), [(num(self.rem), x)]]
            b.p = self.state(self.i, self.rem)
            r.assume(b.p >= 0)
            self.p0 = b.p
            self.loose()
            self.anywhere()
        i = self.i
        b.facts = [lambda f: v.run_fact(i, simp(f + 1))]

    def loose(self):
        b, r = self.body, self.r
        b.first, b.phase, b.part = False, "value", None
        b.s = z3.Int(r.fresh("pending"))

    def end(self):
        b, r, v = self.body, self.r, self.vals
        if self.effects:
            raise Unsupported("a collection is modified by the loop over the runs")
        if b.phase != "value" or b.part or b.ended or self.wire.peek() is not b:
            raise Unsupported("a pass does not write complete runs")
        segs = [s for s in self.stack.segs if not (isinstance(s, list) and not s)]
        rest = segs[0] if segs else None
        if rest is not None and (not isinstance(rest, RunSeq) or not rest.back or not r.entails(z3.And(rest.lo == self.i + 1, rest.hi == self.hi))):
            if rest is not None and isinstance(rest, list) and r.entails(self.i + 1 == self.hi):
                segs = [None] + segs
            else:
                raise Unsupported("the stack of runs has another shape")
        if len(segs) <= 1:
            ok = b.p == self.state(self.i, 0)
        elif len(segs) == 2 and len(segs[1]) == 1 and isinstance(segs[1][0], tuple) and len(segs[1][0]) == 2:
            c, x = segs[1][0]
            ok = z3.And(I(x) == v.BT(self.i), I(c) >= 1, I(c) <= v.S(self.i + 1) - v.S(self.i), b.p == self.state(self.i, I(c)))
        else:
            raise Unsupported("the stack of runs has another shape")
        if not r.hint("what is left on the stack are the frames not yet written", ok):
            raise Unsupported("the stack does not follow the stream")
        r.oblige("every pass over the runs makes progress", b.p > self.p0)

    def to_exit(self):
        b, v = self.body, self.vals
        v.run_at(simp(self.hi - 1))
        self.stack.segs = []
        b.p = simp(v.S(self.hi) - 1)
        self.loose()
        self.anywhere()
        hi = self.hi
        b.facts = [lambda f: v.run_fact(hi, simp(f + 1))] if not self.r.entails(hi == v.M) else []


class EntriesWhile(CutWhile):
    """the loop that reads a stream: entry j extends the list with the value before it"""

    def open(self):
        b = self.body
        if b.phase != "count" or not b.first or b.part:
            raise Unsupported("the loop starts inside a stream")
        self.e = b.entries

    def start(self):
        b, r, e = self.body, self.r, self.e
        if self.mode == "first":
            r.assume(e.n >= 1)
        else:
            self.at(z3.Int(r.fresh("entry")))
            r.assume(z3.And(b.j >= 1, b.j < e.n))
        if not r.feasible():
            raise PathEnd("no such pass")
        b.prev = self.prev = e.pending(b.j)
        self.j0, self.p0 = b.j, b.p

    def at(self, j):
        b, r = self.body, self.r
        b.j, b.p, b.first, b.phase, b.part = j, self.e.P(j), False, "count", None
        r.assume(b.p >= 0)
        b.s = self.e.pending(j)
        self.anywhere()

    def end(self):
        b, r = self.body, self.r
        if b.phase != "count" or b.part or b.ended or self.wire.peek() is not b:
            raise Unsupported("a pass does not read complete entries")
        if not r.entails(b.j == self.j0 + 1):
            raise Unsupported("a pass reads several entries")
        sink = r.data["sink"]()
        tot = z3.IntVal(0)
        for o, kind, a in self.effects:
            if o is not sink:
                raise Unsupported("another collection is modified by the loop over the entries")
            if kind == "append":
                r.oblige("stream %d: the value of the frames of a run" % b.i, value_eq(a[0], Value(b.i, self.prev, self.wire.v)))
                tot = tot + 1
            elif kind == "extend" and isinstance(a[0], SSeq) and "repeats" in a[0].info:
                r.oblige("stream %d: the value of the frames of a run" % b.i, a[0].info["repeats"] == self.prev)
                tot = tot + a[0].length
            else:
                raise Unsupported("the list of values is changed in another way")
        r.oblige("stream %d: the number of frames of a run" % b.i, tot == b.p - self.p0)

    def more(self, x):
        b = self.body
        try:
            if self.r.entails(value_eq(x, dec(b.i, b.s, self.wire.v))):
                return ("state",)
        except (Unsupported, TypeError):
            pass
        return None

    def value_of(self, k):
        return dec(self.body.i, self.body.s, self.wire.v)

    def carried(self, n, t):
        if self.mode == "exit" and self.fresh:
            return t()
        return CutWhile.carried(self, n, t)

    def to_exit(self):
        b, r, e = self.body, self.r, self.e
        self.fresh = r.choose(2) == 0
        if self.fresh:
            r.assume(e.n == 0)
            if not r.feasible():
                raise PathEnd("not empty")
            return
        r.assume(e.n >= 1)
        if "locals" not in self.info.hookdata:
            raise PathEnd("no later pass")
        self.at(e.n)
        b.prev = b.s
        r.assume(e.P(e.n) >= 0)
        sink = r.data["sink"]()
        sink.abstract(SSeq("inputs", e.P(e.n), lambda f: dec(b.i, e.D(f), self.wire.v), entries=e))


class BytesWhile(CutWhile):
    """feeding a decompressor byte by byte"""

    def open(self):
        self.n = simp(zi(self.body.bits()) / 8)

    def start(self):
        w, r = self.wire, self.r
        d = r.data["decomp"]()
        self.k0 = z3.IntVal(0) if self.mode == "first" else z3.Int(r.fresh("byte"))
        r.assume(z3.And(self.k0 >= (0 if self.mode == "first" else 1), self.k0 < self.n))
        d.at, d.end = self.k0, False
        self.outer = (w.items, w.starts, w.cur, w.pos)
        base = simp(w.pos + 8 * self.k0)
        w.items, w.starts, w.cur, w.pos, w.rest = [T(self.body.text.sub(num(self.k0), num(self.k0 + 1)), "a compressed byte")], [base], 0, base, None

    def end(self):
        w, r = self.wire, self.r
        d = r.data["decomp"]()
        if self.effects or w.peek() is not None:
            raise Unsupported("a pass does not read one byte")
        if not r.entails(d.at == self.k0 + 1):
            raise Unsupported("a pass does not feed one byte")
        w.items, w.starts, w.cur, w.pos = self.outer
        w.rest = None

    def more(self, x):
        d = self.r.data["decomp"]()
        if isinstance(x, Plain) and self.r.entails(x.k == d.at):
            return ("data",)
        return None

    def value_of(self, k):
        return Plain(self.r.data["decomp"]().at)

    def to_exit(self):
        w, r = self.wire, self.r
        d = r.data["decomp"]()
        if "locals" not in self.info.hookdata:
            raise PathEnd("no pass")
        d.at, d.end = self.n, True
        w.pos = simp(w.pos + 8 * self.n)
        w.adv()


class Plain(Sym):
    """what a decompressor returned for the first k compressed bytes"""
    pytypes = (bytearray,)

    def __init__(self, k):
        self.k = k

    def join(self, o):
        if isinstance(o, Piece) and run().entails(self.k == o.k):
            return Plain(simp(o.k + 1))
        raise Unsupported("decompressed pieces out of order")

    __add__ = __iadd__ = join


class Piece(Sym):
    """what it returned for the k-th byte"""
    pytypes = (bytes,)

    def __init__(self, k):
        self.k = k

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)) and not o:
            return Plain(z3.IntVal(0)).join(self)
        raise Unsupported("decompressed pieces out of order")


class Decomp(Sym):
    def __init__(self):
        self.at, self.end = z3.IntVal(0), False
        run().data["decomp"] = lambda: self

    @property
    def eof(self):
        return self.end

    def decompress(self, data, *a):
        if a:
            raise Unsupported("arguments of decompress")
        r = run()
        t = r.data["comp"]
        r.oblige("the next compressed byte is decompressed", B(text_eq(data, t.sub(num(self.at), num(self.at + 1)))))
        p = Piece(self.at)
        self.at = simp(self.at + 1)
        return p


# ------------------------------------------------------------------------------------------- replays
class Ent(Sym):
    """desync data of the k-th entity (model)"""


class Rep10:
    """an arbitrary replay of a version"""

    def __init__(self, r, v, version, header):
        self.r, self.v, self.version = r, v, version
        self.user = SText.opaque("username", "bytes", 255) if False else SText.opaque("username", "bytes")
        r.assume(self.user.zlen() <= 65535)
        self.level = SText.opaque("level", "bytes")
        r.assume(self.level.zlen() <= 255)
        r.inputs["user length"], r.inputs["level length"] = self.user.zlen(), self.level.zlen()
        self.frames = r.int("frames", 0, M32 - 1)
        self.np = r.int("players", 0, 65535).e if version >= 3 else z3.IntVal(1)
        self.ne = r.int("entities", 0, M32 - 1).e
        z = z3.IntSort()
        self.ch = z3.Function("character", z, z)
        self.uid = z3.Function("uid", z, z)
        self.nf = z3.Function("entity_frames", z, z)
        self.plain = SText.opaque("plain", "bytes")
        self.comp = SText.opaque("compressed", "bytes")
        r.assume(z3.And(self.plain.zlen() < M32, self.comp.zlen() >= 1))
        r.data["comp"] = self.comp
        self.ns = nstreams(version)
        self.inputs = z3.Int("bits_inputs")
        r.assume(z3.And(self.inputs >= 0, self.inputs % 8 == 0, self.inputs < 8 * M32, z3.Implies(self.np == 0, self.inputs == 0)))
        self.cur = None

    def character(self, k):
        self.r.assume(z3.And(self.ch(k) >= 0, self.ch(k) < 8))
        return self.ch(k)

    def entity(self, k):
        self.r.assume(z3.And(self.uid(k) >= 0, self.uid(k) < M32, self.nf(k) >= 0, self.nf(k) < M32))
        return self.uid(k)

    def per_player(self, items, **k):
        if self.version < 3:
            return [Lazy(lambda: items(z3.IntVal(0)))]
        return [Rep(self.np, items, **k)]

    def head(self, named, comp):
        out = []
        if named:
            out += [T(b"DF_RPL2", "user name header"), F(16, self.user.zlen(), "length of the user name"), T(self.user, "user name")]
        out += [T(b"DF_RPL", "header"), F(8, 48 + self.version, "version"), F(16, self.np, "number of players"), F(32, self.plain.zlen(), "uncompressed size"), F(32, self.frames, "frame count"),
                *self.per_player(lambda k: [F(8, self.character(k), "character")], name="characters", elem_bits=8), F(8, self.level.zlen(), "length of the level name"), T(self.level, "level name"), comp]
        return out

    def body(self, stream, frame, players=None, entities=None, frames=None):
        def pl(k):
            return [Few(self.ns, lambda i: stream(k, i), self.inputs if self.version < 3 else None)]

        def ent(k):
            self.entity(k)
            return [F(32, self.uid(k), "entity id"), F(32, k, "number of the entity"), F(32, self.nf(k), "number of frames"),
                    Rep(self.nf(k), lambda j: frame(k, j), name="entity frames", elem_bits=160, **({"lists": frames(k)} if frames else {}))]

        return [F(32, self.inputs / 8, "size of the inputs"), *self.per_player(pl, name="players", bits=self.inputs, aligned=True),
                F(32, self.ne, "number of entities"), Rep(self.ne, ent, name="entities", aligned=True, **({"lists": entities} if entities else {}))]


def sized(body):
    return [F(32, lambda: (body.bits() + 7) / 8, "size of a stream"), body, Align()]


class Intents(Sym):
    """the input lists of a player that is written"""
    pytypes = (dict,)

    def __init__(self, g, k):
        self.g, self.k, self.have = g, k, {}

    def find(self, key):
        i = int(key)
        if i not in self.have:
            r = run()
            self.have[i] = r.choose(2) == 0
            vals = Vals(r, i, "s%d" % i)
            if not self.have[i]:
                r.assume(vals.n == 0)
            self.g.vals[i] = vals
            b = self.g.bodies.get(i)
            if b is not None:
                b.vals = vals
        return self.g.vals[i].seq if self.have[i] else None

    def get(self, key, d=None):
        x = self.find(key)
        return d if x is None else x

    def __getitem__(self, key):
        x = self.find(key)
        if x is None:
            raise KeyError(key)
        return x

    def __contains__(self, key):
        return self.find(key) is not None


def born(cls, **kw):
    o = object.__new__(cls)
    for k, x in kw.items():
        object.__setattr__(o, k, x)
    return o


def case_of(version, named, force):
    def case(vals):
        left = max(1, min(int(vals.get("left of the run", 3) or 3), 1500))
        st = vals.get("stream", 0)
        one = lambda i: 1 if i not in MOUSE else 0.25
        k = run().data.get("stream", 0)
        neutral = 0.0 if k in MOUSE else 0
        c = lambda n, lo=0, hi=40: max(lo, min(int(vals.get(n, lo) or 0), hi))
        np = 1 if version == 1 else c("players", 0, 3)
        streams = {str(k): [neutral] * (left % 7) + [one(k)] * left + [neutral] * (left % 3) + [one(k)]} if k < 11 else {}
        return {"version": version, "username": "u" * (c("user length", 1, 300) if named and not force else 0), "level": "l" * c("level length", 0, 255), "frames": c("frames", 0, M32 - 1),
                "players": [{"character": (3 + j) % 8, "intents": streams} for j in range(np)], "entities": [[5, [[1, -2.5, 7.25, 0.75, -8.0], [9, 1.0, 2.0, -3.0, 4.0]]], [3, []]][: c("entities", 0, 2)],
                "force": bool(force), "pre": 0}

    return case


def write(version):
    def fn(r, v):
        install(r, v)
        W = v.dfwriter.DFWriter
        named = r.choose(3)  # no name; name; no name but a header
        force = named == 2
        g = Rep10(r, v, version, named)
        r.data["case"] = case_of(version, named, force)
        r.assume(g.user.zlen() >= 1 if named == 1 else g.user.zlen() == 0)
        g.vals, g.bodies = {}, {}
        p0 = r.int("start", 0).e
        r.assume(p0 % 8 == 0)
        w = RWire(g.head(named, T(g.comp, "compressed data")), start=p0, name="replay")
        w.v = v

        def stream(k, i):
            g.bodies[i] = b = Body(i)
            b.vals = g.vals.get(i)
            return sized(b)

        z, q = z3.IntSort(), z3.RealSort()
        fr = {n: z3.Function(n, z, z, q) for n in ("x_pos", "y_pos", "x_speed", "y_speed")}
        fno = z3.Function("frame_no", z, z, z)

        def frame(k, j):
            r.assume(z3.And(fno(k, j) >= 0, fno(k, j) < M32))
            out = [F(32, fno(k, j), "frame number")]
            for n, s in (("x_pos", 10), ("y_pos", 10), ("x_speed", 100), ("y_speed", 100)):
                x = fr[n](k, j) * s
                r.assume(z3.And(x <= (1 << 31) - 1, x >= -(1 << 31)))
                out.append(Near(32, x, n))
            return out

        def mk(buf):
            sw = RWire(g.body(stream, frame), name="replay data")
            sw.v = v

            def value():
                r.oblige("all data are written", z3.BoolVal(sw.peek() is None))
                r.oblige("the data are flushed", sw.pos % 8 == 0)
                r.assume(sw.end() == 8 * g.plain.zlen())
                sw.finish()
                return g.plain

            buf.value = value
            return make(W, sw, buf)

        sub_stream(r, W, mk)

        def compress(data, *a, **k):
            r.oblige("the data are compressed", B(text_eq(data, g.plain)))
            return g.comp

        r.stub(zlib.compress, compress)
        R = v.replay

        def player(k):
            return born(R.PlayerData, character=SInt(g.character(k), R.Character), intents=Intents(g, k))

        def frames_of(k):
            def one(j):
                r.assume(z3.And(fno(k, j) >= 0, fno(k, j) < M32))
                return born(R.EntityFrame, frame=SInt(fno(k, j)), **{n: SReal(f(k, j)) for n, f in fr.items()})

            return SSeq("entity frames", g.nf(k), one)

        def entity(k):
            g.entity(k)
            return (SInt(g.uid(k)), born(R.EntityData, frames=frames_of(k)))

        rep = born(R.Replay, version=version, username=g.user if named == 1 else b"", level=g.level, frames=g.frames, players=SSeq("players", g.np, player) if version >= 3 else [player(z3.IntVal(0))], entities=AMap(SSeq("entities", g.ne, entity)))
        kw = {"force_username": True} if force else {}
        W.write_replay(make(W, w), rep, **kw)
        w.finish()

    return fn


def refuse_write(r, v):
    install(r, v)
    W, R = v.dfwriter.DFWriter, v.replay
    kind = r.choose(2)
    n = r.int("players", 0, 65535)
    if kind:
        ver = 1
        r.assume(n.e != 1)
    else:
        ver = r.int("version", 0, 9)
        r.assume(z3.And(ver.e != 1, ver.e != 3, ver.e != 4))
    r.data["case"] = lambda vals: {"bad": {"version": vals.get("version", 1) if not kind else 1, "username": "", "level": "l", "frames": 1, "players": [{"character": 0, "intents": {}}] * min(vals.get("players", 1), 3), "entities": [], "force": False, "pre": 0}}
    named = r.choose(2)
    user = SText.opaque("username", "bytes")
    r.assume(z3.And(user.zlen() >= 1, user.zlen() <= 65535))

    class Out(Wire):
        def field(self, bits, val=None):
            return z3.IntVal(0)

        def put_bytes(self, b):
            pass

        def peek(self, *a):
            return None

        def seek(self, *a):
            pass

    w = Out([], name="refused replay")
    rep = born(R.Replay, version=ver, username=user if named else b"", level=b"l", frames=1, players=SSeq("players", n.e, lambda k: born(R.PlayerData, character=R.Character(0), intents={})), entities={})
    try:
        W.write_replay(make(W, w), rep)
    except v.exceptions.LevelParseException:
        r.oblige("refused with an error", True)
        return
    r.oblige("refused with an error", False)


class WantPlayer:
    """expected: fresh player data for the k-th character"""

    def __init__(self, g, k):
        self.g, self.k = g, k

    def matches(self, a):
        R = self.g.v.replay
        if type(a) is not R.PlayerData or not isinstance(a.intents, dict) or len(a.intents):
            return z3.BoolVal(False)
        c = a.character
        if not (isinstance(c, SInt) and c.enum is R.Character or isinstance(c, R.Character)):
            return z3.BoolVal(False)
        return I(c) == self.g.character(self.k)


class Filled(Sym):
    """the input lists of a player that is read"""
    pytypes = (dict,)

    def __init__(self, g, k):
        self.g, self.k, self.d = g, k, {}

    def setdefault(self, key, d=None):
        if key not in self.d:
            self.d[key] = d
        return self.d[key]

    def __setitem__(self, key, x):
        self.d[key] = x

    def __getitem__(self, key):
        return self.d[key]

    def get(self, key, d=None):
        return self.d.get(key, d)

    def __contains__(self, key):
        return key in self.d


class WantFrame:
    def __init__(self, R, no, vals):
        self.R, self.no, self.vals = R, no, vals

    def matches(self, a):
        if type(a) is not self.R.EntityFrame:
            return z3.BoolVal(False)
        cs = [I(a.frame) == self.no]
        for n, (x, s) in self.vals.items():
            cs.append(Rl(getattr(a, n)) * s == z3.ToReal(x))
        return z3.And(*cs)


class EntData(Sym):
    """the entity data of the k-th entity that is read: fresh, then filled by the loop over its frames"""

    def __init__(self, g, k):
        self.g, self.k = g, k


def read(version, known):
    def fn(r, v):
        install(r, v)
        RD, R = v.dfreader.DFReader, v.replay
        named = r.choose(2)
        g = Rep10(r, v, version, named)
        r.data["case"] = case_of(version, named, False)
        np_field = z3.IntVal(1) if version >= 3 else r.int("player field", 0, 65535).e
        p0 = r.int("start", 0).e
        r.assume(p0 % 8 == 0)
        comp = T(g.comp, "compressed data")
        comp.by_byte = True
        items = g.head(named, comp)
        players = SSeq("players", g.np, lambda k: born(R.PlayerData, character=SInt(g.character(k), R.Character), intents=Filled(g, k)), origin=g)
        for it in items:
            if it.name == "characters":
                it.lists["players"] = (lambda e, k: [WantPlayer(g, I(k))], players)
            if it.name == "number of players" and version < 3:
                it._value = np_field  # version 1: not meaningful
        w = RWire(items, start=p0, name="replay", mode="r")
        w.v = v
        got = {}

        def sink():
            return got["sink"]

        r.data["sink"] = sink
        bodies = {}

        def stream(k, i):
            bodies[i] = b = Body(i, entries=Entries(r, i, "s%d" % i))
            b.prev = z3.IntVal(NEUTRAL[i])
            return sized(b)

        z = z3.IntSort()
        raw = {n: z3.Function("stored_" + n, z, z, z) for n in ("x_pos", "y_pos", "x_speed", "y_speed")}
        fno = z3.Function("frame_no", z, z, z)
        scale = {"x_pos": 10, "y_pos": 10, "x_speed": 100, "y_speed": 100}

        def signed(x):
            return z3.If(x >= (1 << 31), x - M32, x)

        def frame(k, j):
            r.assume(z3.And(fno(k, j) >= 0, fno(k, j) < M32))
            out = [F(32, fno(k, j), "frame number")]
            for n in scale:
                x = raw[n](k, j)
                r.assume(z3.And(x >= 0, x < M32))
                out.append(F(32, x, n))
            return out

        def frames(k):
            def want(e, j):
                return [WantFrame(R, fno(k, I(j)), {n: (signed(raw[n](k, I(j))), scale[n]) for n in scale})]

            return {"frames": (want, SSeq("frames read", g.nf(k), lambda j: None, of=k))}

        class WantEntity:
            def __init__(self, k):
                self.k = k

            def matches(self, a):
                if type(a) is not R.EntityData or not isinstance(a.frames, TList):
                    return z3.BoolVal(False)
                s = a.frames.segs
                if s is None:
                    return z3.And(z3.BoolVal(list.__len__(a.frames) == 0), g.nf(self.k) == 0)
                s = [x for x in s if not isinstance(x, list) or x]
                if len(s) == 1 and isinstance(s[0], SSeq) and "of" in s[0].info:
                    return s[0].info["of"] == self.k
                return z3.BoolVal(False)

        ents = {"entities": (lambda e, k: [(num(g.entity(I(k))), WantEntity(I(k)))], SSeq("entities read", g.ne, lambda k: None, origin=g))}

        def mk(buf):
            c = buf.content
            if isinstance(c, Plain):
                r.oblige("all data are decompressed", c.k == g.comp.zlen())
            else:
                r.oblige("the decompressed data are read", B(text_eq(c, g.plain)))
            sw = RWire(g.body(stream, frame, entities=ents, frames=frames), name="replay data", mode="r")
            sw.v = v
            got["sub"] = sw
            return make(RD, sw, buf)

        sub_stream(r, RD, mk)

        def decompress(data, *a, **k):
            r.oblige("the compressed data are decompressed", B(text_eq(data, g.comp)))
            return g.plain

        r.stub(zlib.decompress, decompress)
        r.stub(zlib.decompressobj, lambda *a, **k: Decomp())

        # one stream: where the values of the current player go
        def on_stream(i):
            pass

        cur = {}
        real_elem = players.elem

        def elem(k):
            o = real_elem(k)
            cur["p"] = o
            return o

        players.elem = elem

        def the_sink():
            d = cur["p"].intents.d
            key = R.IntentStream(r.data["stream"])
            if key not in d or not isinstance(d[key], TList):
                raise Unsupported("the values are collected elsewhere")
            return d[key]

        got_sink = the_sink
        r.data["sink"] = the_sink

        def off_stream(i):
            d = cur["p"].intents.d
            if i >= g.ns:
                r.oblige("no list for streams the version does not have", not d)
                return
            key = R.IntentStream(i)
            b = bodies[i]
            e = b.entries
            if not b.ended:
                raise Unsupported("the end of the stream was not read")
            r.oblige("stream %d: the list belongs to it" % i, list(d) == [key])
            x = d[key]
            if not isinstance(x, TList):
                raise Unsupported("the values are not a list")
            s = x.segs
            if s is None:
                r.oblige("stream %d: all frames are in the list" % i, z3.And(e.n == 0, z3.BoolVal(list.__len__(x) == 0)))
                return
            s = [y for y in s if not isinstance(y, list) or y]
            r.oblige("stream %d: all frames are in the list" % i, len(s) == 1 and isinstance(s[0], SSeq) and s[0].info.get("entries") is e)

        r.data["off_stream"] = off_stream

        class Ents(TDict):
            """ids are distinct: an id that comes up is a new one"""

            def setdefault(self, key, d=None):
                self[key] = d
                return d

            def get(self, key, d=None):
                return d

            def __contains__(self, key):
                return False

        def mkrep(*a, **k):
            o = R.Replay(*a, **k)
            if type(o.entities) is dict:
                e = Ents()
                r.tracked.append(e)
                object.__setattr__(o, "entities", e)
            if type(o.players) is list:
                object.__setattr__(o, "players", instr.tlist(o.players))
            return o

        r.stub(R.Replay, mkrep)

        def mkplayer(character=R.Character.DUSTMAN, intents=None):
            if intents is not None:
                raise Unsupported("a player with inputs")
            o = born(R.PlayerData, character=character, intents=Filled(g, z3.IntVal(0)))
            cur["p"] = o
            return o

        if version < 3:
            r.stub(R.PlayerData, mkplayer)
        kl = num((w.end() - p0) / 8)
        kw = {"known_length": kl} if known else {}
        out = RD.read_replay(make(RD, w), **kw)
        r.oblige("the data are read", "sub" in got)
        got["sub"].finish()
        w.finish()
        r.oblige("version", value_eq(out.version, version))
        r.oblige("user name", B(text_eq(out.username, g.user)) if named else B(text_eq(out.username, b"")))
        r.oblige("level name", B(text_eq(out.level, g.level)))
        r.oblige("frame count", value_eq(out.frames, g.frames))
        pl = out.players
        s = pl.seq() if isinstance(pl, TList) and pl.segs is not None else pl
        if isinstance(s, SSeq) and s.info.get("origin") is g:
            r.oblige("the players in their order", True)
        elif version < 3 and isinstance(pl, list):
            if len(pl) != 1:
                r.oblige("one player", False)
            r.oblige("the players in their order", pl[0] is cur.get("p"))
            r.oblige("the character of the player", value_eq(pl[0].character, SInt(g.character(z3.IntVal(0)), R.Character)))
        elif isinstance(pl, list) and getattr(pl, "segs", None) is None:
            r.oblige("the players in their order", z3.And(z3.BoolVal(len(pl) == 0), g.np == 0))
        else:
            raise Unsupported("another list of players")
        en = out.entities
        s = en.eff if getattr(en, "eff", None) is not None else None
        if s is None:
            r.oblige("the entities in their order", z3.And(g.ne == 0, z3.BoolVal(isinstance(en, dict) and dict.__len__(en) == 0)))
        else:
            r.oblige("the entities in their order", s.info.get("origin") is g)

    return fn


def refuse_read(r, v):
    install(r, v)
    RD = v.dfreader.DFReader
    b = r.int("version byte", 0, 255)
    named = r.choose(2)
    for x in (1, 3, 4) + (() if named else (2,)):
        r.assume(b.e != 48 + x)
    user = SText.opaque("username", "bytes")
    r.assume(z3.And(user.zlen() >= 0, user.zlen() <= 65535))
    r.data["case"] = lambda vals: {"bad": {"version": max(0, vals.get("version byte", 53) - 48), "username": "u" if named else "", "level": "l", "frames": 1, "players": [{"character": 0, "intents": {}}], "entities": [], "force": False, "pre": 0}}
    items = [T(b"DF_RPL2"), F(16, user.zlen(), "length of the user name"), T(user, "user name")] if named else []
    w = Wire(items + [T(b"DF_RPL", "header"), F(8, b, "version")], name="replay of another version", mode="r")
    try:
        RD.read_replay(make(RD, w))
    except v.exceptions.LevelParseException:
        r.oblige("refused with an error", True)
        return
    except Unsupported:
        r.oblige("refused with an error", False)
    r.oblige("refused with an error", False)


def intent_value(r, v):
    """get_intent_value: the list entry, or the neutral value outside the list"""
    R = v.replay
    i = r.choose(11)
    key = R.IntentStream(i)
    n = r.int("n", 0)
    f = r.int("frame")
    have = r.choose(2)
    X = z3.Function("X", z3.IntSort(), z3.RealSort() if i in MOUSE else z3.IntSort())
    seq = SSeq("values", n.e, lambda k: SReal(X(k)) if i in MOUSE else SInt(X(k), R.MouseState if i == 10 else None))
    p = born(R.PlayerData, character=R.Character.DUSTMAN, intents={key: seq} if have else {})
    r.data["case"] = lambda vals: {"version": 4, "username": "", "level": "l", "frames": 3, "players": [{"character": 0, "intents": {str(i): [1] * max(0, min(vals.get("n", 1), 50))}}], "entities": [], "force": False, "pre": 0}
    got = p.get_intent_value(key, f)
    inside = z3.And(f.e >= 0, f.e < n.e) if have else z3.BoolVal(False)
    if not isinstance(got, (int, float, SInt, SReal)):
        r.oblige("a value of the stream", False)
    x = Rl(got) if i in MOUSE else I(got)
    zero = z3.RealVal(0) if i in MOUSE else z3.IntVal(0)
    r.oblige("the value in effect on a frame", x == z3.If(inside, X(f.e), zero))
    if i == 10:
        r.oblige("mouse states are MouseState", isinstance(got, R.MouseState) or getattr(got, "enum", None) is R.MouseState)


def accessors(r, v):
    R = v.replay
    p = r.int("player", 0)

    class Map(Sym):
        pytypes = (dict,)

        def get(self, k, d=None):
            asked.append(k)
            return d

        def __contains__(self, k):
            asked.append(k)
            return False

    for name, off in (("get_player_entity_data", 0), ("get_camera_entity_data", 1)):
        asked = []
        rep = born(R.Replay, entities=Map())
        x = getattr(R.Replay, name)(rep, p)
        r.oblige("%s: nothing recorded" % name, x is None)
        r.oblige("%s: the id it looks up" % name, z3.And(*[I(k) == 2 * p.e + off for k in asked]) if asked else False)


# ------------------------------------------------------------------------------------------- lemmas
def lemma_runs(i):
    def fn(r, v):
        """by induction over the loop: RC(k) is the length of a run of equal values that ends at k"""
        q = Vals(r, i, "x")
        k, j = z3.Int("k"), z3.Int("j")
        ih = lambda k, j: z3.And(q.RC(k) >= 1, q.RC(k) <= k + 1, z3.Implies(z3.And(j >= k + 1 - q.RC(k), j <= k), q.W(j) == q.W(k)))
        which = r.choose(3)
        if which == 0:
            r.assume(q.RC(0) == 1)
            r.oblige("run lengths: start", ih(z3.IntVal(0), j))
            return
        r.assume(z3.And(k >= 0, k <= q.n))
        r.assume(ih(k, j))
        r.assume(q.RC(k + 1) == z3.If(z3.Or(k == q.n, q.f(k) != q.W(k)), z3.IntVal(1), q.RC(k) + 1))
        if which == 1:
            r.assume(k < q.n)
            r.oblige("run lengths: step", ih(k + 1, j))
            return
        # collected runs: after k values the runs collected cover the first k + 1 - RC(k) elements of [neutral] + values
        m = z3.Int("m")
        r.assume(m >= 0)
        r.assume(z3.Or(k + 1 - q.RC(k) == q.S(m)))
        b = z3.Or(k == q.n, q.f(k) != q.W(k))
        r.assume(z3.Implies(b, q.S(m + 1) == q.S(m) + q.RC(k)))  # a run is collected
        m2 = z3.If(b, m + 1, m)
        r.oblige("runs: what is collected and the run in progress cover everything so far", k + 2 - q.RC(k + 1) == q.S(m2))
        r.oblige("runs: a collected run is not empty and its elements are equal", z3.Implies(b, z3.And(q.S(m) < q.S(m + 1), z3.Implies(z3.And(j >= q.S(m), j < q.S(m + 1)), q.W(j) == q.W(q.S(m))))), soft=False) if False else None
        r.assume(ih(k, q.S(m)))
        r.oblige("runs: a collected run is not empty and its elements are equal", z3.Implies(b, z3.And(q.S(m) < q.S(m + 1), z3.Implies(z3.And(j >= q.S(m), j < q.S(m + 1)), q.W(j) == q.W(q.S(m))))))
        r.oblige("runs: after the last value everything is covered", z3.Implies(k == q.n, q.S(m2) == q.n + 1))
        r.oblige("runs: there is at least one, and only the last reaches the end", z3.And(z3.Implies(k == q.n, m2 >= 1), z3.Implies(z3.And(b, k < q.n), q.S(m + 1) < q.n + 1)))

    return fn


def lemma_values(i):
    def fn(r, v):
        """what is read back for a field value that stands for x"""
        b = r.int("b", 0, (1 << FORMAT[i][0]) - 1)
        x = r.real("x").e if i in MOUSE else r.int("x").e
        r.assume(rel(i, x, b.e))
        d = dec(i, b.e, v)
        if i in MOUSE:
            r.oblige("mouse coordinates come back as the nearest multiple of 1/32767", z3.And(Rl(d) * 32767 == z3.ToReal(b.e), Rl(d) - x <= z3.Q(1, 65534), x - Rl(d) <= z3.Q(1, 65534)))
        else:
            r.oblige("inputs come back unchanged", I(d) == x)
        m = v.replay._INTENT_META[i]
        r.oblige("the neutral value of the table", value_eq(m.default, 0))

    return fn


def groups(tier):
    for ver in (1, 3, 4):
        yield {"name": "write_replay: version %d" % ver, "functions": "DFWriter.write_replay", "fn": write(ver)}
        yield {"name": "read_replay: version %d" % ver, "functions": "DFReader.read_replay, read_expect", "fn": read(ver, False)}
        yield {"name": "read_replay: version %d, length known" % ver, "functions": "DFReader.read_replay, read_expect", "fn": read(ver, True)}
    yield {"name": "write_replay refuses", "functions": "DFWriter.write_replay", "fn": refuse_write}
    yield {"name": "read_replay refuses", "functions": "DFReader.read_replay", "fn": refuse_read}
    yield {"name": "get_intent_value", "functions": "PlayerData.get_intent_value", "fn": intent_value}
    yield {"name": "entity data accessors", "functions": "Replay.get_player_entity_data, get_camera_entity_data", "fn": accessors}
    for i in (0, 2, 8):
        yield {"name": "lemma: runs (%s)" % ("real" if i in MOUSE else "integer, stream %d" % i), "functions": "", "fn": lemma_runs(i)}
    for i in range(11):
        yield {"name": "lemma: values of stream %d" % i, "functions": "_IntentMetadata", "fn": lemma_values(i)}
