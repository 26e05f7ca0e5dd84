"""Symbolic texts (str/bytes), sequences and the tracked containers of the instrumented code."""
import z3

from . import engine as E
from .engine import B, I, Poison, SBool, SInt, Sym, Unsupported, boo, num, run, simp


class Src:
    """an opaque text: unknown length, unknown content (code is an uninterpreted function of the index)"""

    def __init__(self, name, kind, lo=0, hi=None):
        self.name = name
        self.kind = kind
        self.len = z3.Int("len_" + name)
        self.fn = z3.Function("at_" + name, z3.IntSort(), z3.IntSort())
        self.hi = hi if hi is not None else (255 if kind == "bytes" else 0x10FFFF)
        run().assume(self.len >= 0)

    def code(self, i):
        """code at index i (a z3 expression), with its range assumed"""
        e = self.fn(i)
        r = run()
        r.assume(z3.And(e >= 0, e <= self.hi))
        return num(e)


class SText(Sym):
    """parts: ('v', [codes]) | ('s', Src, start, length)   (start, length: z3 int expressions)"""

    def __init__(self, kind, parts):
        self.kind = kind
        self.parts = norm_parts(parts)

    @property
    def pytypes(self):
        return (bytes,) if self.kind == "bytes" else (str,)

    @staticmethod
    def opaque(name, kind, hi=None):
        s = Src(name, kind, hi=hi)
        return SText(kind, [("s", s, z3.IntVal(0), s.len)])

    def zlen(self):
        t = z3.IntVal(0)
        for p in self.parts:
            t = t + (len(p[1]) if p[0] == "v" else p[3])
        return simp(t)

    def slen(self):
        return num(self.zlen())

    def concrete(self):
        """python value if fully known"""
        out = []
        for p in self.parts:
            if p[0] == "s":
                if E.simp(p[3]).eq(z3.IntVal(0)):
                    continue
                return None
            out += p[1]
        if any(E.is_sym(c) for c in out):
            return None
        return bytes(out) if self.kind == "bytes" else "".join(map(chr, out))

    def at(self, i):
        """code at index i (int or SInt, known to be within bounds and non-negative)"""
        ie = I(i)
        off = z3.IntVal(0)
        r = run()
        for p in self.parts:
            ln = z3.IntVal(len(p[1])) if p[0] == "v" else p[3]
            if p is self.parts[-1] or E.fork(ie < off + ln):
                if p[0] == "v":
                    return p[1][E.concretize(num(ie - off))]
                return p[1].code(simp(p[2] + ie - off))
            off = off + ln
        raise IndexError("index out of range")

    def __len__(self):
        n = self.slen()
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic text outside instrumented code")

    def __bool__(self):
        return E.fork(self.zlen() != 0)

    def __getitem__(self, ix):
        n = self.slen()
        if isinstance(ix, slice):
            if ix.step not in (None, 1):
                if ix.step == -1 and ix.start is None and ix.stop is None and len(self.parts) == 1 and self.parts[0][0] == "v":
                    return mktext(self.kind, [("v", self.parts[0][1][::-1])])
                raise Unsupported("slice step")

            def clamp(v, d):
                if v is None:
                    return d
                if v < 0:
                    v = v + n
                    if v < 0:
                        v = 0
                if v > n:
                    return n
                return v

            a, b = clamp(ix.start, 0), clamp(ix.stop, n)
            if b <= a:
                return mktext(self.kind, [])
            return self.sub(a, b)
        if ix < 0:
            ix = ix + n
        if ix < 0 or ix >= n:
            raise IndexError("index out of range")
        c = self.at(ix)
        return c if self.kind == "bytes" else mktext("str", [("v", [c])])

    def sub(self, a, b):
        """text between indices a <= b within bounds"""
        out = []
        off = 0
        for p in self.parts:
            ln = len(p[1]) if p[0] == "v" else num(p[3])
            end = num(I(off) + I(ln))
            lo = a if a > off else off
            hi = b if b < end else end
            if lo < hi:
                if p[0] == "v":
                    x, y = lo - off, hi - off
                    x = x if isinstance(x, int) else E.concretize(x)
                    y = y if isinstance(y, int) else E.concretize(y)
                    out.append(("v", p[1][x:y]))
                else:
                    out.append(("s", p[1], simp(p[2] + I(lo) - I(off)), simp(I(hi) - I(lo))))
            off = end
        return mktext(self.kind, out)

    def __add__(self, o):
        if isinstance(o, IntBytes):
            return o.__radd__(self)
        return join_texts(self.kind, [self, o])

    def __radd__(self, o):
        return join_texts(self.kind, [o, self])

    def __eq__(self, o):
        return text_eq(self, o)

    def __ne__(self, o):
        r = text_eq(self, o)
        return (not r) if isinstance(r, bool) else boo(z3.Not(B(r)))

    __hash__ = Sym.__hash__

    def _cmp(self, o, f):
        """order of two single characters"""
        if (isinstance(o, SText) or kind_of(o) == self.kind) and self.slen() == 1 and (o.slen() if isinstance(o, SText) else len(o)) == 1:
            y = o.at(0) if isinstance(o, SText) else ord(o) if self.kind == "str" else o[0]
            return boo(f(I(self.at(0)), I(y)))
        raise Unsupported("ordering of symbolic texts")

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def startswith(self, pre):
        if isinstance(pre, tuple):
            return any(self.startswith(p) for p in pre)
        n = len(pre)
        if self.slen() < n:
            return False
        return text_eq(self.sub(0, n), pre)

    def endswith(self, pre):
        n = len(pre)
        if self.slen() < n:
            return False
        return text_eq(self.sub(self.slen() - n, self.slen()), pre)

    def __contains__(self, c):
        raise Unsupported("in on a symbolic text")

    def decode(self, enc="utf-8", *a):
        if self.kind != "bytes":
            raise AttributeError("'str' object has no attribute 'decode'")
        if enc.lower().replace("-", "").replace("_", "") not in ("latin1", "iso88591"):
            raise Unsupported("decoding with %s" % enc)
        return SText("str", self.parts)

    def encode(self, enc="utf-8", *a):
        if self.kind != "str":
            raise AttributeError("'bytes' object has no attribute 'encode'")
        if enc.lower().replace("-", "").replace("_", "") not in ("latin1", "iso88591") or any(p[0] != "s" or p[1].hi > 255 for p in self.parts):
            raise Unsupported("encoding with %s" % enc)
        return SText("bytes", self.parts)

    def __iter__(self):
        n = self.slen()
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over a symbolic text outside a loop")

    def as_seq(self):
        n = self.slen()
        if isinstance(n, int):
            return None
        return SSeq("chars", I(n), lambda k: (lambda c: c if self.kind == "bytes" else mktext("str", [("v", [c])]))(self.at(num(k))), text=self)

    def __repr__(self):
        return "SText(%s)" % (self.parts,)


class IntBytes(Sym):
    """bytes known as little-endian integers: parts [(number of bytes, value)], each 0 <= value < 256^n"""
    pytypes = (bytes,)

    def __init__(self, parts):
        self.parts = [(simp(n), simp(x)) for n, x in parts]

    def zlen(self):
        t = z3.IntVal(0)
        for n, _x in self.parts:
            t = t + n
        return simp(t)

    def slen(self):
        return num(self.zlen())

    def value(self):
        t, off = z3.IntVal(0), z3.IntVal(0)
        for n, x in self.parts:
            t = t + x * I(E.pow2(num(8 * off)))
            off = simp(off + n)
        return simp(t)

    def split(self, k):
        """(first k bytes, the rest); 0 <= k <= length"""
        k = simp(I(k))
        a, b = [], []
        for i, (n, x) in enumerate(self.parts):
            r = run()
            if b or r.entails(k == 0):
                b.append((n, x))
            elif r.entails(k >= n):
                a.append((n, x))
                k = simp(k - n)
            elif r.entails(z3.And(k > 0, k < n)):
                q, m = E.divpow(x, I(E.pow2(num(8 * k))))
                r.oblige("auxiliary: high bytes are in range", z3.And(q >= 0, q < I(E.pow2(num(8 * (n - k))))))
                a.append((k, m))
                b.append((simp(n - k), q))
            else:
                raise Unsupported("bytes split at an undetermined place")
        return IntBytes(a), IntBytes(b)

    def __getitem__(self, ix):
        n = self.slen()
        if isinstance(ix, slice):
            if ix.step not in (None, 1):
                raise Unsupported("slice step")
            out = self

            def norm(v):
                v = v + n if v < 0 else v
                return 0 if v < 0 else n if v > n else v

            a = 0 if ix.start is None else norm(ix.start)
            b = n if ix.stop is None else norm(ix.stop)
            if b <= a:
                return IntBytes([])
            return self.split(b)[0].split(a)[1]
        if ix < 0:
            ix = ix + n
        if ix < 0 or ix >= n:
            raise IndexError("index out of range")
        one = self.split(ix)[1].split(1)[0]
        return num(one.parts[0][1])

    def __add__(self, o):
        return IntBytes(self.parts + int_bytes(o).parts)

    def __radd__(self, o):
        return IntBytes(int_bytes(o).parts + self.parts)

    def __bool__(self):
        return E.fork(self.zlen() != 0)

    def __iter__(self):
        n = self.slen()
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("iteration over symbolic bytes")


def int_bytes(x):
    if isinstance(x, IntBytes):
        return x
    if isinstance(x, (bytes, bytearray)):
        return IntBytes([(z3.IntVal(1), z3.IntVal(c)) for c in x])
    if isinstance(x, SText) and len(x.parts) <= 1 and (not x.parts or x.parts[0][0] == "v"):
        return IntBytes([(z3.IntVal(1), I(c)) for c in (x.parts[0][1] if x.parts else [])])
    raise Unsupported("bytes without a known integer value: %s" % type(x).__name__)


def norm_parts(parts):
    out = []
    for p in parts:
        if p[0] == "v":
            if not p[1]:
                continue
            if out and out[-1][0] == "v":
                out[-1] = ("v", list(out[-1][1]) + list(p[1]))
            else:
                out.append(("v", list(p[1])))
        else:
            if z3.is_int_value(simp(p[3])) and simp(p[3]).as_long() == 0:
                continue
            if out and out[-1][0] == "s" and out[-1][1] is p[1]:
                q = out[-1]
                if simp(q[2] + q[3] - p[2]).eq(z3.IntVal(0)) or (E.cur is not None and E.cur.entails(q[2] + q[3] == p[2])):
                    out[-1] = ("s", q[1], q[2], simp(q[3] + p[3]))
                    continue
            out.append(p)
    return out


def mktext(kind, parts):
    t = SText(kind, parts)
    c = t.concrete()
    return t if c is None else c


def mkbytes(vals):
    vals = list(vals)
    for v in vals:
        if not isinstance(v, (int, SInt)):
            raise TypeError("an integer is required")
        if v < 0 or v > 255:
            raise ValueError("bytes must be in range(0, 256)")
    return mktext("bytes", [("v", [int(v) if isinstance(v, int) else v for v in vals])])


def parts_of(x):
    if isinstance(x, SText):
        return x.parts
    if isinstance(x, (bytes, bytearray)):
        return [("v", list(x))] if x else []
    if isinstance(x, str):
        return [("v", [ord(c) for c in x])] if x else []
    raise TypeError("not a text: %s" % type(x).__name__)


def kind_of(x):
    if isinstance(x, SText):
        return x.kind
    if isinstance(x, (bytes, bytearray)):
        return "bytes"
    if isinstance(x, str):
        return "str"
    return None


def join_texts(kind, xs):
    parts = []
    for x in xs:
        if kind_of(x) != kind:
            if isinstance(x, (Poison,)):
                x.bad()
            raise TypeError("can't concat %s" % type(x).__name__)
        parts += parts_of(x)
    return mktext(kind, parts)


def text_eq(a, b):
    """exact equality of texts, as a (possibly symbolic) truth value"""
    if kind_of(a) is None or kind_of(a) != kind_of(b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("comparison with an unknown value")
        return False
    pa, pb = [list(p) for p in parts_of(a)], [list(p) for p in parts_of(b)]
    la = SText(kind_of(a), [tuple(p) for p in pa]).zlen()
    lb = SText(kind_of(b), [tuple(p) for p in pb]).zlen()
    r = run()
    conj = []
    if not simp(la == lb).eq(z3.BoolVal(True)):
        if not r.entails(la == lb):
            if not E.fork(la == lb):
                return False
    i = j = 0
    while i < len(pa) and j < len(pb):
        x, y = pa[i], pb[j]
        if x[0] == "v" and y[0] == "v":
            n = min(len(x[1]), len(y[1]))
            conj += [I(u) == I(v) for u, v in zip(x[1][:n], y[1][:n])]
            x[1], y[1] = x[1][n:], y[1][n:]
            if not x[1]:
                i += 1
            if not y[1]:
                j += 1
            continue
        if x[0] == "s" and y[0] == "s":
            if x[1] is y[1] and r.entails(x[2] == y[2]):
                if r.entails(x[3] == y[3]):
                    i += 1
                    j += 1
                    continue
                if r.entails(x[3] < y[3]):
                    y[2], y[3] = simp(y[2] + x[3]), simp(y[3] - x[3])
                    i += 1
                    continue
                if r.entails(y[3] < x[3]):
                    x[2], x[3] = simp(x[2] + y[3]), simp(x[3] - y[3])
                    j += 1
                    continue
            if r.entails(x[3] == 0):
                i += 1
                continue
            if r.entails(y[3] == 0):
                j += 1
                continue
            if i == len(pa) - 1 and j == len(pb) - 1 and r.entails(x[3] == y[3]):
                k = z3.Int(r.fresh("k"))
                conj.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x[3]), x[1].fn(x[2] + k) == y[1].fn(y[2] + k))))
                i += 1
                j += 1
                continue
            raise Unsupported("equality of different symbolic texts")
        # value list against slice
        v, s, vi = (x, y, True) if x[0] == "v" else (y, x, False)
        n = len(v[1])
        take = None
        if r.entails(s[3] >= n):
            take = n
        else:
            for t in range(n):
                if r.entails(s[3] == t):
                    take = t
                    break
        if take is None:
            take = E.concretize(num(s[3]))
            take = min(take, n)
        for t in range(take):
            conj.append(I(s[1].code(simp(s[2] + t))) == I(v[1][t]))
        v[1] = v[1][take:]
        s[2], s[3] = simp(s[2] + take), simp(s[3] - take)
        if not v[1]:
            if vi:
                i += 1
            else:
                j += 1
        if r.entails(s[3] == 0):
            if vi:
                j += 1
            else:
                i += 1
    if not conj:
        return True
    return boo(z3.And(*conj))


# ------------------------------------------------------------------------------------------------ sequences
class SSeq(Sym):
    """sequence of unknown length; elem(k) gives the element at a z3 index expression k"""
    pytypes = (list,)

    def __init__(self, name, length, elem, **info):
        self.name = name
        self.length = length if z3.is_expr(length) else z3.IntVal(length)
        self.elem = elem
        self.info = info
        self.mutated = False

    def slen(self):
        return num(self.length)

    def __bool__(self):
        return E.fork(self.length != 0)

    def __iter__(self):
        raise Unsupported("iteration over symbolic sequence %s outside an instrumented loop" % self.name)

    def __len__(self):
        n = self.slen()
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic sequence outside instrumented code")

    def __getitem__(self, i):
        n = self.slen()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice step of a symbolic sequence")
            a, b = i.start, i.stop
            if a is None:
                a = 0
            elif a < 0:
                a = n + a
                a = a if a >= 0 else 0
            if b is None:
                b = n
            elif b < 0:
                b = n + b
                b = b if b >= 0 else 0
            a = a if a <= n else n
            b = b if b <= n else n
            ln = b - a if b >= a else 0
            return self.sub(a, ln)
        e = self.current(i)
        if e is not None:
            return e[0]
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError("list index out of range")
        return self.elem(I(i))

    def current(self, i):
        """[element] if i is the index of the iteration of a running loop over this sequence"""
        r = E.cur
        if r is not None and isinstance(i, SInt):
            for lp in r.loops[::-1]:
                if lp.over is not None and lp.started and (lp.over is self or lp.seq is self) and simp(I(i)).eq(simp(lp.k)):
                    return [lp.elem if lp.seq is self else lp.shown]
        return None

    def sub(self, a, ln):
        ae = I(a)
        return SSeq(self.name + "[:]", I(ln), lambda k: self.elem(simp(k + ae)), base=self, start=ae)

    def rev(self):
        return SSeq(self.name + " reversed", self.length, lambda k: self.elem(simp(self.length - 1 - k)))

    def map(self, f, name=None, **info):
        return SSeq(name or self.name + "'", self.length, lambda k: f(self.elem(k)), **info)

    def pick(self, i):
        """the i-th parts of the elements; a loop over them is a loop over this sequence"""
        return Via(self, lambda e, k: e[i], self.name + ".%d" % i)

    def value_at(self, key):
        """[value] if this sequence of (key, value) pairs is being iterated over and key is the current key"""
        r = E.cur
        if r is not None:
            for lp in r.loops[::-1]:
                if lp.over is not None and lp.started and lp.seq is self and type(lp.elem) is tuple and len(lp.elem) == 2 and lp.elem[0] is key:
                    return [lp.elem[1]]
        return None

    def as_seq(self):
        return self

    def __repr__(self):
        return "SSeq(%s)" % self.name


class Via(SSeq):
    """another presentation of the elements of a sequence (their keys, their indices, ...)"""

    def __init__(self, base, out, name, **info):
        f = out
        while isinstance(base, Via):
            b = base
            out = lambda e, k, f=out, g=b.out: f(g(e, k), k)
            base = b.base
        self.base, self.out = base, out
        SSeq.__init__(self, name, base.length, lambda k: out(base.elem(k), k), **info)


class SRange(SSeq):
    pytypes = (range,)

    def __init__(self, a, b, step):
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        if E.is_sym(step) or step < 0:
            raise Unsupported("symbolic range with this step")
        if b > a:
            n = (b - a + (step - 1)) // step
        else:
            n = 0
        SSeq.__init__(self, "range", I(n), lambda k: num(I(a) + k * step))
        self.a, self.b, self.step = a, b, step

    def __contains__(self, x):
        if self.step == 1:
            return boo(z3.And(I(x) >= I(self.a), I(x) < I(self.b)))
        raise Unsupported("in range")


def as_seq(x):
    """SSeq view of a value, or None if it can be iterated concretely"""
    f = getattr(type(x), "as_seq", None)
    return f(x) if f is not None else None


class SGen(Sym):
    """a generator expression over a symbolic iterable; mk(iterable) -> python generator"""

    def __init__(self, seq, mk):
        self.seq = seq
        self.mk = mk

    def as_seq(self):
        raise Unsupported("loop over a symbolic generator")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic generator")


# ------------------------------------------------------------------------------------------------ tracked containers
class TList(list):
    """list made by instrumented code.  tail: None, or an SSeq that follows the concrete items (`abs` lists)"""
    __slots__ = ("birth", "segs")

    def __init__(self, *a):
        list.__init__(self, *a)
        self.segs = None  # abstract: list of SSeq / [items] segments
        self.birth = E.cur.tick() if E.cur is not None else 0

    # -- loop tracking
    def _mut(self, kind, *args):
        """True if the mutation must be deferred to the loop summary"""
        r = E.cur
        if r is None or not r.loops:
            return False
        if self.birth < r.loops[-1].clock and self.birth not in r.loops[-1].direct:
            r.loops[-1].effect(self, kind, args)
            return True
        return False

    def _read(self):
        r = E.cur
        if r is not None and r.loops and self.birth < r.loops[-1].clock and self.birth not in r.loops[-1].direct:
            r.loops[-1].reading(self)
        if self.segs is not None:
            return True
        return False

    def _last(self):
        """make the last element of an abstract list a known one; False if the list is empty"""
        while self.segs:
            s = self.segs[-1]
            if isinstance(s, list):
                if s:
                    return True
                self.segs.pop()
                continue
            if not E.fork(s.length > 0):
                self.segs.pop()
                continue
            n = simp(s.length - 1)
            self.segs[-1:] = [s.sub(0, num(n)), [s.elem(n)]]
        return False

    def as_seq(self):
        if not self._read():
            return None
        return self.seq()

    def seq(self):
        segs = [s for s in self.segs if not (isinstance(s, list) and not s)]
        if len(segs) == 1:
            if isinstance(segs[0], SSeq):
                return segs[0]
            return None
        return concat_seq(segs)

    def slen(self):
        if not self._read():
            return list.__len__(self)
        t = 0
        for s in self.segs:
            t = t + (len(s) if isinstance(s, list) else s.slen())
        return t

    def abstract(self, seg):
        """append an abstract segment"""
        if self._mut("extend", seg):
            return
        if self.segs is None:
            self.segs = [list(list.__iter__(self))] if list.__len__(self) else []
            list.clear(self)
        self.segs.append(seg)

    def __len__(self):
        if self._read():
            n = self.slen()
            if isinstance(n, int):
                return n
            raise Unsupported("len of an abstract list outside instrumented code")
        return list.__len__(self)

    def __bool__(self):
        if self._read():
            n = self.slen()
            return bool(n) if isinstance(n, int) else E.fork(I(n) != 0)
        return list.__len__(self) != 0

    def __iter__(self):
        if self._read():
            s = self.seq()
            if s is not None or len(self.segs) > 1:
                raise Unsupported("iteration over an abstract list")
            return iter(self.segs[0] if self.segs else [])
        return list.__iter__(self)

    def _cells(self):
        """the generic loop in which this list is a set of counters"""
        r = E.cur
        if r is None or not r.loops or not r.data.get("cells") or self.segs is not None or self.birth >= r.loops[-1].clock or not 0 < list.__len__(self) <= 16:
            return None
        if any(not isinstance(x, (int, SInt)) or isinstance(x, (bool, SBool)) for x in list.__iter__(self)):
            return None
        if len(r.loops) > 1 and self.birth < r.loops[-2].clock:
            raise Unsupported("counters in nested loops")
        return r.loops[-1]

    def __getitem__(self, i):
        lp = self._cells()
        if lp is not None and not isinstance(i, slice):
            return lp.cell(self, i)[2]
        if self._read():
            if isinstance(i, int) and i == -1 and self.segs and isinstance(self.segs[-1], list) and self.segs[-1]:
                return self.segs[-1][-1]
            s = self.seq()
            if s is None:
                return (self.segs[0] if self.segs else [])[i]
            return s[i]
        if isinstance(i, slice):
            return TList(list.__getitem__(self, i))
        return list.__getitem__(self, i)

    def __setitem__(self, i, v):
        lp = self._cells()
        if lp is not None and not isinstance(i, slice):
            lp.cell(self, i)[2] = v
            return
        if self._mut("setitem", i, v):
            return
        if self.segs is not None:
            if isinstance(i, int) and i == -1:
                if not self._last():
                    raise IndexError("list assignment index out of range")
                self.segs[-1][-1] = v
                return
            raise Unsupported("item assignment on an abstract list")
        list.__setitem__(self, i, v)

    def __delitem__(self, i):
        if self._mut("delitem", i):
            return
        if self.segs is not None:
            raise Unsupported("del on an abstract list")
        list.__delitem__(self, i)

    def append(self, x):
        if self._mut("append", x):
            return
        if self.segs is not None:
            if self.segs and isinstance(self.segs[-1], list):
                self.segs[-1].append(x)
            else:
                self.segs.append([x])
            return
        list.append(self, x)

    def extend(self, xs):
        from . import instr

        s = as_seq(xs) if not isinstance(xs, SGen) else None
        if s is None and not isinstance(xs, SGen):
            for x in instr.direct(xs):
                self.append(x)
            return
        if isinstance(xs, SGen):
            got = instr.comp_list(xs.seq, xs.mk)
            s = got.seq() if isinstance(got, TList) else got
            if s is None:
                for x in got:
                    self.append(x)
                return
        if self._mut("extend", s):
            return
        self.abstract(s)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def insert(self, i, x):
        if self._mut("insert", i, x):
            return
        if self.segs is not None:
            raise Unsupported("insert on an abstract list")
        list.insert(self, i, x)

    def pop(self, i=-1):
        if self._mut("pop", i):
            return Poison("popped in a loop")
        if self.segs is not None:
            if isinstance(i, int) and i == -1:
                if not self._last():
                    raise IndexError("pop from empty list")
                return self.segs[-1].pop()
            raise Unsupported("pop on an abstract list")
        return list.pop(self, i)

    def _no(self, *a, **k):
        if self.segs is not None or (E.cur is not None and E.cur.loops and self.birth < E.cur.loops[-1].clock):
            raise Unsupported("list operation in a generic loop or on an abstract list")

    def reverse(self):
        if self.segs is not None and not (E.cur.loops and self.birth < E.cur.loops[-1].clock):
            self.segs = [s[::-1] if isinstance(s, list) else s.rev() for s in self.segs[::-1]]
            return
        self._no()
        list.reverse(self)

    def sort(self, **k):
        if self.segs is not None and not (E.cur.loops and self.birth < E.cur.loops[-1].clock):
            s = self.seq()
            f = s.info.get("sorted") if s is not None else None
            if f is not None:
                self.segs = [as_seq(f(k.get("key"), k.get("reverse", False)))]
                return
        self._no()
        list.sort(self, **k)

    def remove(self, x):
        self._no()
        list.remove(self, x)

    def clear(self):
        self._no()
        list.clear(self)

    def __add__(self, o):
        self._no()
        return TList(list(self) + list(o))

    def __eq__(self, o):
        if self._read():
            raise Unsupported("comparison of an abstract list")
        return list.__eq__(self, o)

    def __ne__(self, o):
        if self._read():
            raise Unsupported("comparison of an abstract list")
        return list.__ne__(self, o)

    __hash__ = None

    def __deepcopy__(self, memo):
        import copy

        if self.segs is not None:
            raise Unsupported("deepcopy of an abstract list")
        out = TList()
        memo[id(self)] = out
        for x in list.__iter__(self):
            list.append(out, copy.deepcopy(x, memo))
        return out

    def __copy__(self):
        self._no()
        return TList(list.__iter__(self))

    def copy(self):
        return self.__copy__()


def concat_seq(segs):
    lens = [z3.IntVal(len(s)) if isinstance(s, list) else s.length for s in segs]
    tot = z3.IntVal(0)
    for l in lens:
        tot = tot + l

    def elem(k):
        off = z3.IntVal(0)
        for s, l in zip(segs, lens):
            if s is segs[-1] or E.fork(k < off + l):
                if isinstance(s, list):
                    return s[E.concretize(num(k - off))]
                return s.elem(simp(k - off))
            off = off + l
        raise Unsupported("empty concatenation")

    return SSeq("concat", simp(tot), elem, segs=segs)


class AMap(Sym):
    """a dict of unknown size, known as a sequence of (key, value) pairs in order"""
    pytypes = (dict,)

    def __init__(self, seq):
        self.seq = seq

    def items(self):
        return self.seq

    def keys(self):
        return self.seq.pick(0)

    def values(self):
        return self.seq.pick(1)

    def __getitem__(self, k):
        v = self.seq.value_at(k)
        if v is None:
            raise Unsupported("lookup in an abstract dict")
        return v[0]

    def get(self, k, d=None):
        return self[k]

    def __contains__(self, k):
        return self[k] is not None or True

    def as_seq(self):
        return self.keys()

    def slen(self):
        return self.seq.slen()

    def __bool__(self):
        return bool(self.seq)

    def copy_map(self):
        return AMap(self.seq)


class TDict(dict):
    """dict made by instrumented code; string/int/tuple keys stay concrete; mutations in generic loops are deferred"""
    __slots__ = ("birth", "eff")

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.birth = E.cur.tick() if E.cur is not None else 0
        self.eff = None

    def _mut(self, kind, *args):
        r = E.cur
        if r is None or not r.loops:
            return False
        if self.birth < r.loops[-1].clock:
            r.loops[-1].effect(self, kind, args)
            return True
        return False

    def _read(self):
        r = E.cur
        if r is not None and r.loops and self.birth < r.loops[-1].clock:
            r.loops[-1].reading(self)
        if self.eff is not None:
            raise Unsupported("use of an abstract dict")

    def view(self):
        """the abstract map that describes the contents, once a loop has filled this dict"""
        return self.eff.info.get("view") if self.eff is not None else None

    def as_seq(self):
        return self.eff.pick(0) if self.eff is not None else None

    def slen(self):
        if self.eff is not None:
            return self.eff.slen()
        return len(self)

    def __bool__(self):
        if self.eff is not None:
            return bool(self.eff)
        return len(self) != 0

    def __setitem__(self, k, v):
        if self._mut("set", k, v):
            return
        if self.eff is not None and self.eff.info.get("overlay"):
            # entries on top of abstract contents: kept apart
            return dict.__setitem__(self, k, v)
        self._read()
        dict.__setitem__(self, k, v)

    def __getitem__(self, k):
        if hasattr(type(k), "lookup") and self.eff is None:
            self._read()
            return k.lookup(self)
        w = self.view()
        if w is not None:
            return w[k]
        if self.eff is not None and not dict.__len__(self):
            v = self.eff.value_at(k)
            if v is not None:
                return v[0]
        self._read()
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        w = self.view()
        if w is not None:
            return w.has(k)
        self._read()
        if hasattr(type(k), "lookup"):
            return k.among(self)
        return dict.__contains__(self, k)

    def get(self, k, d=None):
        w = self.view()
        if w is not None:
            return w.get(k, d)
        self._read()
        if hasattr(type(k), "lookup"):
            return k.lookup(self, d)
        return dict.get(self, k, d)

    def __iter__(self):
        self._read()
        return dict.__iter__(self)

    def items(self):
        if self.eff is not None:
            return self.eff
        self._read()
        return dict.items(self)

    def keys(self):
        if self.eff is not None:
            return self.eff.pick(0)
        self._read()
        return dict.keys(self)

    def values(self):
        if self.eff is not None:
            return self.eff.pick(1)
        self._read()
        return dict.values(self)

    def __len__(self):
        self._read()
        return dict.__len__(self)

    def pop(self, *a):
        if self._mut("pop", *a):
            return Poison("popped in a loop")
        self._read()
        return dict.pop(self, *a)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, *a, **k):
        for m in a:
            s = as_seq(m)
            if s is not None:
                raise Unsupported("update from a symbolic map")
            for x, v in (m.items() if hasattr(m, "items") else m):
                self[x] = v
        for x, v in k.items():
            self[x] = v

    def __delitem__(self, k):
        if self._mut("del", k):
            return
        self._read()
        dict.__delitem__(self, k)

    def __eq__(self, o):
        self._read()
        return dict.__eq__(self, o)

    __hash__ = None

    def __deepcopy__(self, memo):
        import copy

        self._read()
        out = TDict()
        memo[id(self)] = out
        for k, v in dict.items(self):
            dict.__setitem__(out, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
        return out

    def copy(self):
        self._read()
        return TDict(dict.items(self))
