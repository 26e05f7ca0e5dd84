"""Contracts of the bit stream layer (proved under C01/C02) used when verifying its callers.

A specification is a list of items in stream order:
  F(width, value)      an unsigned field of that many bits, least significant bit first
  T(text)              bytes
  Call(kind, *args)    what a function under its own contract writes/reads
  Align()              zero bits up to the next byte boundary
  Rep(length, items)   for k in range(length): items(k)
  Lazy(fn)             fn() -> items (evaluated when reached; may depend on the path)
A Wire checks a writer against the specification, or supplies a reader with it."""
import z3

from . import engine as E
from .engine import B, Hook, I, SBool, SInt, Unsupported, boo, fork, num, run, simp
from .instr import value_eq
from .vals import SText, kind_of, mkbytes, mktext, parts_of, text_eq


class Item:
    done = False
    mine = True  # False: belongs to another property; its values are not checked here
    conds = ()  # what has to hold of the values written last: (obligation, formula)


class F(Item):
    def __init__(self, width, value, name="", zero=False):
        self.zero = zero  # zero bits that need not be written (fresh output)
        self.width = width if isinstance(width, int) or z3.is_expr(width) else I(width)
        self._value = value if callable(value) and not isinstance(value, SInt) else I(value) if not z3.is_expr(value) else value
        self.name = name

    @property
    def value(self):
        """may be given as a function of the layout, evaluated when first used"""
        if not z3.is_expr(self._value):
            x = self._value() if not isinstance(self._value, SInt) else self._value
            self._value = x if z3.is_expr(x) else I(x)
        return self._value

    def bits(self):
        return self.width


class T(Item):
    def __init__(self, text, name=""):
        self.text = text
        self.name = name or "bytes"

    def bits(self):
        n = len(self.text) if isinstance(self.text, (bytes, bytearray)) else self.text.zlen()
        return 8 * n if isinstance(n, int) else simp(8 * n)


class Call(Item):
    def __init__(self, kind, *args, result=None, bits=None):
        self.kind, self.args, self.result = kind, args, result
        self.name = kind
        self._bits = bits

    def bits(self):
        if self._bits is None:
            r = run()
            self._bits = z3.Int(r.fresh("bits_" + self.kind))
            r.assume(self._bits >= 0)
        return self._bits


class Align(Item):
    name = "padding"

    def bits(self):
        raise Unsupported("position dependent width")


class Rep(Item):
    def __init__(self, length, items, name="", lists=None, sums=None, bits=None, aligned=False, elem_bits=None, flags=None, pos=None):
        self.pos = pos  # k -> bits before the k-th element
        self.length = I(length) if not z3.is_expr(length) else length
        self.items = items
        self.name = name or "repetition"
        self.lists, self.sums, self.flags = lists or {}, sums or {}, flags or {}
        self._bits = bits
        self.aligned = aligned
        self.elem_bits = elem_bits

    def bits(self):
        if self._bits is None:
            r = run()
            if self.elem_bits is not None:
                self._bits = simp(self.length * self.elem_bits)
            elif self.pos is not None:
                self._bits = simp(self.pos(self.length))
                r.assume(self._bits >= 0)
                r.assume(z3.Implies(self.length == 0, self._bits == 0))
            else:
                self._bits = z3.Int(r.fresh("bits_rep"))
                r.assume(self._bits >= 0)
                r.assume(z3.Implies(self.length == 0, self._bits == 0))
                if self.aligned:
                    r.assume(self._bits % 8 == 0)
        return self._bits


class Lazy(Item):
    name = "section"

    def __init__(self, fn):
        self.fn = fn


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class Wire(Hook):
    """one stream: spec items with their start positions"""

    def __init__(self, items, start=0, name="stream", mode="w"):
        r = run()
        self.r = r
        self.name = name
        self.mode = mode
        self.start = zi(start) if isinstance(start, int) or z3.is_expr(start) else I(start)
        self.pos = self.start
        self.items = list(items)
        self.starts = [self.start]  # known start positions, parallel to items (extended lazily)
        self.cur = 0
        self.rest = None  # partially consumed F or T at cur
        self.stack = []
        self.closed = False
        self.parked = False  # after a seek to a place outside the format
        self.risk = None  # bit position of an unaligned seek behind data
        self.final_known = False
        r.hooks.append(self)

    # -- layout
    def fill(self, i):
        """make starts[i] known (i <= len(items))"""
        while len(self.starts) <= i:
            j = len(self.starts) - 1
            if j >= len(self.items):
                return  # sections turned out to be empty
            it = self.items[j]
            if isinstance(it, Lazy):
                self.items[j:j + 1] = it.fn()
                continue
            s = self.starts[j]
            if isinstance(it, Align):
                b = (-s) % 8
            else:
                b = it.bits()
            self.starts.append(simp(s + zi(b)))

    def end(self):
        """position after the last item"""
        while len(self.starts) <= len(self.items):
            self.fill(len(self.items))
        return self.starts[len(self.items)]

    def expand(self):
        """Lazy items at the cursor become real ones"""
        while self.cur < len(self.items) and isinstance(self.items[self.cur], Lazy):
            self.items[self.cur:self.cur + 1] = self.items[self.cur].fn()

    def peek(self, writing=False):
        if self.parked:
            raise Unsupported("access outside the format")
        if writing and self.risk is not None:
            p, self.risk = self.risk, None
            self.r.oblige("%s: writing after an unaligned seek keeps the data before it" % self.name, p % 8 == 0)
        while True:
            self.expand()
            if self.cur >= len(self.items):
                return None
            it = self.items[self.cur]
            if isinstance(it, Rep) and self.r.entails(it.length == 0):
                it.done = True
                self.adv()
                continue
            if isinstance(it, F) and it.width == 0:
                it.done = True
                self.adv()
                continue
            if isinstance(it, T) and self.rest is None:
                n = it.bits()
                if (isinstance(n, int) and n == 0) or (not isinstance(n, int) and self.r.entails(n == 0)):
                    it.done = True
                    self.adv()
                    continue
            if it.done and self.mode == "w":
                return it
            return it

    def adv(self):
        self.fill(self.cur + 1)
        self.items[self.cur].done = True
        self.cur += 1
        self.rest = None

    def mismatch(self, what):
        self.r.fail("%s follows the format" % self.name, what)

    # -- fields
    def field(self, bits, val=None):
        """write (val given) or read a field of `bits` bits; returns the value read (z3)"""
        r = self.r
        if isinstance(bits, SInt):
            b = simp(I(bits))
            bits = b.as_long() if z3.is_int_value(b) else SInt(b)
        w = val is not None
        out = z3.IntVal(0)
        shift = 0
        if not isinstance(bits, int):
            it = self.peek()
            if self.risk is not None:
                raise Unsupported("field of symbolic width after an unaligned seek")
            if not isinstance(it, F) or self.rest is not None:
                raise Unsupported("field of symbolic width over something else")
            if not r.entails(zi(it.width) == bits.e):
                raise Unsupported("symbolic field width does not match")
            if w:
                it.conds = [("%s: field %s" % (self.name, it.name), I(val) == it.value)]
            v = it.value
            self.pos = simp(self.pos + bits.e)
            self.adv()
            return v
        if bits == 0:
            return out
        if w:
            v = I(val)
            it = self.peek(True)
            if it is None or it.mine:
                r.oblige("%s: a value fits its field" % self.name, z3.And(v < (1 << bits), v >= -(1 << (bits - 1))))
            v = simp(z3.If(v < 0, v + (1 << bits), v))
        left = bits
        while left > 0:
            it = self.peek()
            if it is None:
                self.mismatch("%s of %d bits past the end" % ("write" if w else "read", left))
            if w and it.done and not isinstance(it, (F, T)):
                raise Unsupported("written twice: %s" % it.name)
            if w and self.rest is None:
                it.conds = []  # a later write replaces an earlier one
            if isinstance(it, T):
                if self.rest is None:
                    self.rest = self.text_fields(it)
                wid, x = self.rest[0]
            elif isinstance(it, F):
                if not isinstance(it.width, int):
                    raise Unsupported("fixed field over a symbolic width")
                wid, x = self.rest if self.rest is not None else (it.width, it.value)
            elif isinstance(it, Align) and not w:
                n = E.concretize(num(simp((-self.pos) % 8)))
                if n == 0:
                    self.adv()
                    continue
                wid, x = n, z3.IntVal(0)
                if left < wid:
                    raise Unsupported("reading part of the padding")
                left -= wid
                shift += wid
                self.pos = simp(self.pos + wid)
                self.adv()
                continue
            else:
                if isinstance(it, Align):
                    n = E.concretize(num(simp((-self.pos) % 8)))
                    if n == 0:
                        self.adv()
                        continue
                self.mismatch("a %d bit field where %s is expected" % (left, it.name)) if isinstance(it, Align) else None
                raise Unsupported("raw field access where %s is expected" % it.name)
            n = min(wid, left)
            part = x if n == wid else x % (1 << n)
            if w:
                pv = v if n == left else v % (1 << n)
                it.conds.append(("%s: field %s" % (self.name, it.name), pv == part))
                v = simp(v / (1 << n)) if n < left else v
            else:
                out = out + part * (1 << shift)
            shift += n
            left -= n
            self.pos = simp(self.pos + n)
            if n < wid:
                rem = (wid - n, simp(x / (1 << n)))
                if isinstance(it, T):
                    self.rest[0] = rem
                else:
                    self.rest = rem
            elif isinstance(it, T):
                self.rest.pop(0)
                if not self.rest:
                    self.rest = None
                    self.adv()
            else:
                self.adv()
        return simp(out)

    def text_fields(self, it):
        t = it.text
        if isinstance(t, (bytes, bytearray)):
            return [(8, z3.IntVal(c)) for c in t]
        n = t.slen()
        if not isinstance(n, int):
            raise Unsupported("bit access to bytes of unknown length")
        return [(8, I(t.at(i))) for i in range(n)]

    def put_bytes(self, buf):
        r = self.r
        if kind_of(buf) != "bytes":
            raise TypeError("a bytes-like object is required")
        n = len(buf) if isinstance(buf, (bytes, bytearray)) else buf.slen()
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int) and r.entails(I(n) == 0):
            return
        it = self.peek(True)
        if it is None:
            self.mismatch("bytes written past the end")
        if isinstance(it, T) and self.rest is None:
            ln = it.bits()
            if r.entails(zi(ln) == 8 * I(n)):
                it.conds = [("%s: bytes %s" % (self.name, it.name), B(text_eq(buf, it.text)))]
                self.pos = simp(self.pos + 8 * I(n))
                self.adv()
                return
        if isinstance(n, int):
            for i in range(n):
                self.field(8, buf[i])
            return
        if isinstance(it, T):
            # the spec may give the bytes in several parts
            if r.entails(8 * I(n) > zi(it.bits())) and not it.done and self.rest is None:
                k = num(zi(it.bits()) / 8)
                self.put_bytes(buf.sub(0, k))
                self.put_bytes(buf.sub(k, n))
                return
            if it.mine:
                r.oblige("%s: length of bytes %s" % (self.name, it.name), zi(it.bits()) == 8 * I(n))
        raise Unsupported("bytes of unknown length where %s is expected" % it.name)

    def get_bytes(self, n):
        r = self.r
        if not isinstance(n, int):
            n = num(I(n))
        if isinstance(n, int) and n == 0 or not isinstance(n, int) and r.entails(I(n) == 0):
            return b""
        it = self.peek()
        if it is None:
            self.mismatch("bytes read past the end")
        if isinstance(it, T) and self.rest is None:
            if r.entails(zi(it.bits()) == 8 * I(n)):
                self.pos = simp(self.pos + 8 * I(n))
                t = it.text
                self.adv()
                return t
        if isinstance(n, int):
            cs = []
            for i in range(n):
                cs.append(num(self.field(8)))
            return mktext("bytes", [("v", cs)])
        r.oblige("%s: number of bytes read for %s" % (self.name, it.name), (zi(it.bits()) if isinstance(it, T) else z3.IntVal(-1)) == 8 * I(n))
        raise Unsupported("bytes of unknown length where %s is expected" % it.name)

    def call(self, kind, *args):
        """write: the item must be this call with equal arguments; read: returns the item's result"""
        it = self.peek(self.mode == "w")
        r = self.r
        if it is None:
            self.mismatch("%s past the end" % kind)
        if not isinstance(it, Call) or it.kind != kind:
            if isinstance(it, (Call, F, T)):
                if isinstance(it, (F, T)):
                    raise Unsupported("%s where the field %s is expected" % (kind, it.name))
                self.mismatch("%s where %s is expected" % (kind, it.name))
            raise Unsupported("%s where %s is expected" % (kind, it.name))
        if len(args) != len(it.args):
            raise Unsupported("arguments of %s" % kind)
        for a, b in zip(args, it.args):
            if not it.mine:
                continue
            if isinstance(b, Check):
                b.fn(a)
            else:
                r.oblige("%s: argument of %s" % (self.name, kind), value_eq(a, b))
        self.pos = simp(self.pos + zi(it.bits()))
        self.adv()
        return it.result() if callable(it.result) else it.result

    # -- positions
    def tell(self):
        return num(self.pos)

    def align(self):
        r = self.r
        it = self.peek()
        if r.entails(self.pos % 8 == 0):
            if isinstance(it, Align):
                self.adv()
            return
        if it is None:
            self.pos = simp(self.pos + (-self.pos) % 8)
            return
        if isinstance(it, Align):
            self.pos = simp(self.pos + (-self.pos) % 8)
            self.adv()
            return
        # maybe already aligned on this path
        if fork(self.pos % 8 == 0):
            return
        if self.mode == "r":
            self.mismatch("alignment inside the data")
        self.mismatch("padding where %s is expected" % it.name)

    def seek(self, p, unaligned=False):
        r = self.r
        p = I(p)
        if self.mode == "w":
            if not self.parked and self.risk is None and not r.entails(self.pos % 8 == 0):
                it = self.peek()
                if isinstance(it, F) and it.zero and self.rest is None:
                    pass  # the flush fills up with zero bits
                elif not (it is None or isinstance(it, Align)):
                    if not r.entails(self.pos % 8 == 0):
                        self.align()
                else:
                    self.align()
            if not unaligned:
                r.oblige("%s: the writer seeks to byte boundaries" % self.name, p % 8 == 0)
        self.parked, self.risk = False, None
        # candidate positions
        for i in range(0, len(self.items) + 1):
            self.fill(i)
            if i >= len(self.starts):
                break
            if simp(self.starts[i] == p).eq(z3.BoolVal(True)) or r.entails(self.starts[i] == p):
                # zero-length items: take the first not yet done for writers
                j = i
                while self.mode == "w" and j < len(self.items) and self.items[j].done and self.zero(j):
                    j += 1
                self.cur, self.rest, self.pos = j, None, simp(p)
                if self.mode == "w" and unaligned and not (i > 0 and isinstance(self.items[i - 1], F) and self.items[i - 1].zero) and not r.entails(p % 8 == 0):
                    self.risk = self.pos
                return
        if self.mode == "w" and unaligned:
            self.parked, self.pos = True, simp(p)
            return
        raise Unsupported("seek to a position that is not a boundary of the format")

    def zero(self, j):
        self.fill(j + 1)
        return self.r.entails(self.starts[j] == self.starts[j + 1])

    def finish(self, at_end=True, inner=False):
        """everything written / read, and the stream stands at the end"""
        r = self.r
        while True:
            it = self.peek()
            if isinstance(it, Align) and r.entails(self.pos % 8 == 0):
                self.adv()
                continue
            break
        if self.stack and not inner:
            raise Unsupported("finish inside a loop")
        i = 0
        while i < len(self.items):
            it = self.items[i]
            if isinstance(it, Lazy):
                self.items[i:i + 1] = it.fn()
                continue
            if it.mine:
                for nm, c in it.conds:
                    r.oblige(nm, c)
            it.conds = ()
            if not it.done:
                z = isinstance(it, Rep) and r.entails(it.length == 0)
                if isinstance(it, T) and r.entails(zi(it.bits()) == 0):
                    z = True
                if isinstance(it, F) and it.zero and self.mode == "w":
                    z = True
                if isinstance(it, Align):
                    self.fill(i)
                    z = r.entails(self.starts[i] % 8 == 0)
                if not z:
                    r.fail("%s is complete" % self.name, "%s was not %s" % (it.name, "written" if self.mode == "w" else "read"))
            i += 1
        end = self.end()
        if at_end:
            r.oblige("%s ends at the end of the data" % self.name, self.pos == end)
        r.oblige("%s is complete" % self.name, True)

    # -- loops
    def make_while(self, fn):
        from .instr import WhileLoop
        from .vals import SSeq

        it = self.peek()
        if isinstance(it, Rep) and not it.done and self.rest is None:
            return WhileLoop(SSeq(it.name, it.length, lambda k: num(k)), fn)
        return None

    def matches(self, lp):
        if self.parked:
            return False
        it = self.peek()
        return isinstance(it, Rep) and not it.done and self.rest is None and self.r.entails(it.length == lp.seq.length)

    def loop_init(self, lp):
        lp.wires = getattr(lp, "wires", {})
        if self.matches(lp):
            rep = self.items[self.cur]
            lp.wires[id(self)] = rep
            for n, x in rep.lists.items():
                lp.lists[n] = x
            for n, x in rep.sums.items():
                lp.sums[n] = x
            for n, x in rep.flags.items():
                lp.flags[n] = x

    def loop_enter(self, lp):
        rep = lp.wires.get(id(self))
        if rep is None:
            # unrelated loop: any access to this stream inside is caught by the snapshot at the tail
            lp.wires[("pos", id(self))] = (self.cur, self.rest, self.pos)
            return
        if rep.aligned:
            self.r.oblige("%s: %s starts on a byte boundary" % (self.name, rep.name), self.pos % 8 == 0)
        self.stack.append((self.items, self.starts, self.cur, self.pos))
        base = z3.Int(self.r.fresh("pos"))
        self.r.assume(base >= 0)
        if rep.elem_bits is not None:
            self.r.assume(base == self.pos + lp.k * rep.elem_bits)
        if rep.pos is not None:
            self.r.assume(base == self.pos + rep.pos(lp.k))
            self.r.assume(z3.Implies(lp.k == 0, rep.pos(lp.k) == 0))
            self.r.assume(z3.And(rep.pos(lp.k) >= 0, rep.pos(lp.k) <= rep.pos(rep.length)))
        if rep.aligned:
            self.r.assume(base % 8 == 0)
        self.items = list(rep.items(lp.k))
        self.starts = [base]
        self.cur, self.pos, self.rest = 0, base, None

    def loop_tail(self, lp):
        rep = lp.wires.get(id(self))
        if rep is None:
            c = lp.wires[("pos", id(self))]
            if c[0] != self.cur or c[2] is not self.pos or c[1] is not self.rest:
                raise Unsupported("a loop over something else accesses the stream")
            return
        key = ("wire", self.name, len(self.stack))
        first = self.peek()
        if first is not None and self.cur == 0 and self.rest is None and not any(i.done for i in self.items):
            touched = False
        else:
            touched = True if any(i.done for i in self.items) else None
            if touched:
                self.finish(inner=True)
                if rep.aligned:
                    self.r.oblige("%s: %s ends on a byte boundary" % (self.name, rep.name), self.pos % 8 == 0)
                if rep.pos is not None:
                    self.r.assume(self.pos == self.starts[0] - rep.pos(lp.k) + rep.pos(lp.k + 1))  # defines where the next one starts
                if rep.elem_bits is not None:
                    self.r.oblige("%s: size of one %s" % (self.name, rep.name), self.pos - self.starts[0] == rep.elem_bits)
        prev = lp.info.hookdata.get(key)
        if touched is not None and prev is not None and prev != touched:
            self.mismatch("some iterations access the stream and some do not")
        if touched is not None:
            lp.info.hookdata[key] = touched
        self.items, self.starts, self.cur, self.pos = self.stack.pop()
        self.rest = None

    def loop_exit(self, lp):
        rep = lp.wires.get(id(self))
        if rep is None:
            return
        key = ("wire", self.name, len(self.stack) + 1)
        t = lp.info.hookdata.get(key)
        if t is False:
            return
        self.pos = simp(self.pos + zi(rep.bits()))
        self.adv()


class Check:
    """argument of a Call judged by a function"""

    def __init__(self, fn):
        self.fn = fn


class SBuf(E.Sym):
    """memory stream (io.BytesIO) of a contract-checked writer or reader"""
    pytypes = (object,)

    def __init__(self, content=b""):
        self.content = content
        self.wire = None

    def getvalue(self):
        if self.wire is None:
            return self.content
        return self.value_of(self.wire)

    value_of = None

    def close(self):
        pass

    def tell(self):
        raise Unsupported("tell of a stubbed stream")


def wire_of(o):
    w = run().data.setdefault("wires", {}).get(id(o))
    if w is None:
        raise Unsupported("stream object without a contract")
    return w[1]


def attach(o, w):
    run().data.setdefault("wires", {})[id(o)] = (o, w)
    return o


def make(cls, w, data=None):
    """an instance of a reader/writer class whose stream is the wire w"""
    o = object.__new__(cls)
    attach(o, w)
    if data is not None:
        object.__setattr__(o, "data", data)
    return o


def sbits(bits):
    return bits


def install(r, v):
    """replace the methods of the bit layer by their contracts"""
    b = v.bitio

    def write(self, bits, val):
        if isinstance(val, (bool, SBool)):
            val = num(I(val))
        if not isinstance(val, (int, SInt)):
            if isinstance(val, E.Poison):
                val.bad()
            raise TypeError("integer expected")
        wire_of(self).field(bits, val)

    def read(self, bits, signed=False):
        x = wire_of(self).field(bits)
        if signed:
            if not isinstance(bits, int):
                raise Unsupported("signed read of symbolic width")
            x = z3.If(x >= (1 << (bits - 1)), x - (1 << bits), x)
        return num(x)

    def write_bytes(self, buf):
        wire_of(self).put_bytes(buf)

    def read_bytes(self, num):
        return wire_of(self).get_bytes(num)

    def seek_w(self, pos, *, allow_unaligned=False):
        wire_of(self).seek(pos, allow_unaligned)

    def seek_r(self, pos):
        wire_of(self).seek(pos)

    def skip(self, bits):
        w = wire_of(self)
        w.seek(num(w.pos + I(bits)))

    def aligned(self):
        return boo(wire_of(self).pos % 8 == 0)

    def close(self):
        w = wire_of(self)
        if w.mode == "w":
            w.align()
        w.closed = True

    r.stub(b.BitIOWriter.write, write)
    r.stub(b.BitIOReader.read, read)
    r.stub(b.BitIOWriter.write_bytes, write_bytes)
    r.stub(b.BitIOReader.read_bytes, read_bytes)
    r.stub(b.BitIOWriter.bit_seek, seek_w)
    r.stub(b.BitIO.bit_seek, seek_r)
    r.stub(b.BitIO.skip, skip)
    r.stub(b.BitIO.bit_tell, lambda self: wire_of(self).tell())
    r.stub(b.BitIO.aligned, aligned)
    r.stub(b.BitIO.align, lambda self: wire_of(self).align())
    r.stub(b.BitIOWriter.align, lambda self: wire_of(self).align())
    r.stub(b.BitIOWriter.flush, lambda self: wire_of(self).align())
    r.stub(b.BitIO.close, close)
    r.stub(b.BitIOWriter.close, close)
    r.stub(b.BitIO.release, lambda self: None)
