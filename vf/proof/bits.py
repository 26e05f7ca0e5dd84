"""The bit layer itself: symbolic states of BitIO objects and the contract of the wrapped binary stream."""
import io

import z3

from . import engine as E
from .engine import I, SInt, Unsupported, num, run, simp
from .vals import IntBytes, SText, int_bytes


class Stream(E.Sym):
    """contract of the wrapped BinaryIO: a position, an integer view of what follows it (little-endian), and a log
    of what was written.  read(n) returns exactly n bytes (the caller stays inside the data)."""
    pytypes = (io.BufferedIOBase,)

    def __init__(self, r, pos=None):
        self.pos = pos if pos is not None else I(r.int("stream_pos", 0))
        self.X = z3.Int(r.fresh("content"))  # everything from pos on
        r.assume(self.X >= 0)
        self.out = []  # IntBytes written, in order
        self.log = []
        self.closed = False

    def tell(self):
        self.log.append(("tell",))
        return num(self.pos)

    def read(self, n=-1):
        r = run()
        self.log.append(("read",))
        if n < 0:
            raise Unsupported("read to the end")
        if self.X is None:
            raise Unsupported("read after a write")
        lo = z3.Int(r.fresh("bytes"))
        hi = z3.Int(r.fresh("content"))
        P = I(E.pow2(num(8 * I(n))))
        r.assume(z3.And(self.X == lo + hi * P, lo >= 0, lo < P, hi >= 0))
        self.X = hi
        self.pos = simp(self.pos + I(n))
        return IntBytes([(I(n), lo)])

    def write(self, b):
        b = int_bytes(b)
        self.log.append(("write", simp(self.pos), b))
        self.out.append(b)
        self.pos = simp(self.pos + b.zlen())
        self.X = None
        return num(b.zlen())

    def seek(self, off, whence=0):
        if whence == 0:
            self.pos = I(off)
        elif whence == 1:
            self.pos = simp(self.pos + I(off))
        else:
            raise Unsupported("seek from the end")
        if self.pos is not None and isinstance(whence, int):
            run().oblige("the stream is never moved before its start", self.pos >= 0)
        self.X = z3.Int(run().fresh("content"))
        self.log.append(("seek", simp(self.pos)))
        return num(self.pos)

    def flush(self):
        pass

    def close(self):
        self.closed = True
        self.log.append(("close",))

    def written(self):
        """everything written, as one IntBytes; consecutive writes only"""
        out = IntBytes([])
        for b in self.out:
            out = out + b
        return out


def state(r, v, cls, bl, kind, stream=None):
    """an object of class cls in an arbitrary state satisfying the class invariant.
    bl: concrete number of bits left in the current byte; kind: 'bits' (lead byte loaded/pending) or 'seek'
    (positioned inside a byte by a seek, lead byte not loaded)"""
    E.needs("data", "_tell", "_bits", "_bits_left", "_noclose")
    st = Stream(r) if stream is None else stream
    o = object.__new__(cls)
    st.X0 = st.X
    n = z3.Int("bitpos")
    if kind == "seek":
        pos = simp(8 * st.pos + 8 - bl)
        bits = -1
    else:
        pos = simp(8 * st.pos - bl) if cls_reader(v, cls) else simp(8 * st.pos + (8 - bl) % 8)
        if bl == 0:
            bits = 0
        else:
            hi = (1 << bl) - 1 if cls_reader(v, cls) else (1 << (8 - bl)) - 1
            bits = r.int("pending", 0, hi)
            if cls_reader(v, cls):
                r.assume(st.pos >= 1)
    for k, x in (("data", st), ("_tell", num(pos)), ("_bits", bits), ("_bits_left", bl), ("_noclose", r.bool("noclose"))):
        object.__setattr__(o, k, x)
    st.log.clear()
    return o, st, pos, bits


def cls_reader(v, cls):
    return issubclass(cls, v.bitio.BitIOReader)


def unread(bits, bl, X):
    """the integer made of all unread bits of a reader, given its fields and what follows in the stream"""
    if isinstance(bits, int) and bits == -1:
        return simp((X % 256) / (1 << (8 - bl)) + (X / 256) * (1 << bl))
    return simp(I(bits) + X * (1 << bl))


def bit_width(r):
    """an arbitrary width >= 1: 1..23 concretely, else 8q + c with symbolic q >= 3"""
    c = r.choose(31)
    r.data.update(pow2=True, intbytes=True, pow2_semantic=True)
    if c < 23:
        return c + 1
    q = r.int("q", 3)
    base = E.pow2(q * 8 - 8)  # every exponent in the code is this one plus a constant
    r.assume(I(base) >= 1 << 16)
    b = q * 8 + (c - 23)
    r.assume(b.e >= 24)
    return b
