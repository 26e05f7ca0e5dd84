"""C02: seek, skip, align, flush and close from every state of readers and writers (read itself after a seek: see C01's groups, repeated here)."""
import z3

from . import c01
from . import engine as E
from .bits import Stream, bit_width, state, unread
from .common import ENGINE
from .engine import I, num, pow2, simp

FUNCTIONS = ["bitio.BitIO.bit_seek", "bitio.BitIO.skip", "bitio.BitIO.align", "bitio.BitIO.release", "bitio.BitIO.close", "bitio.BitIO.__enter__", "bitio.BitIO.__exit__",
             "bitio.BitIOReader.read", "bitio.BitIOWriter.write", "bitio.BitIOWriter.flush", "bitio.BitIOWriter.align", "bitio.BitIOWriter.bit_seek", "bitio.BitIOWriter.close"]
ASSUMPTIONS = c01.ASSUMPTIONS
TRUSTED = ENGINE


def any_state(r, v, cls):
    bl = r.choose(8)
    kind = "seek" if bl and r.choose(2) else "bits"
    return (bl, kind) + state(r, v, cls, bl, kind)


def coherent_reader(r, o, st, pos, what):
    """class invariant of a reader at bit position pos"""
    t = I(o._tell)
    r.oblige("%s: position" % what, t == pos)
    bl = o._bits_left
    bl = bl if isinstance(bl, int) else E.concretize(bl)
    r.oblige("%s: bits left" % what, z3.And(bl >= 0, (t + bl) % 8 == 0) if 0 <= bl < 8 else False)
    bits = o._bits
    if isinstance(bits, int) and bits == -1 or not isinstance(bits, int) and E.fork(I(bits) == -1):
        r.oblige("%s: the lead byte is next in the stream" % what, z3.And(bl > 0, 8 * st.pos == t + bl - 8))
        return "seek"
    r.oblige("%s: the stream is at the next byte" % what, 8 * st.pos == t + bl)
    if bl == 0:
        r.oblige("%s: no stale bits" % what, I(bits) == 0)
        return "bits"
    raise E.Unsupported("another representation of a position inside a byte")


def events(st, *kinds):
    return [e for e in st.log if e[0] in kinds]


def reader_seek(how):
    def fn(r, v):
        cls = v.bitio.BitIOReader
        bl, kind, o, st, pos, have = any_state(r, v, cls)
        if how == "seek":
            p = r.int("to", 0)
            cls.bit_seek(o, p)
            want = p.e
        elif how == "skip":
            d = r.int("by")
            r.assume(pos + d.e >= 0)
            cls.skip(o, d)
            want = pos + d.e
        else:
            cls.align(o)
            want = pos + bl
            if bl == 0 or kind == "bits":
                r.oblige("aligning an aligned or loaded reader does not move the stream", not events(st, "seek", "read", "write"))
        coherent_reader(r, o, st, want, how)
        r.oblige("%s: stream not closed" % how, not st.closed)

    return fn


def pending(st, bl, kind, pend):
    """number of bytes a flush must store"""
    return 1 if bl and kind == "bits" else 0


def flushed(r, st, bl, kind, pend, pos0, what):
    ws = events(st, "write")
    out = st.written()
    n = pending(st, bl, kind, pend)
    r.oblige("%s: pending bits are stored exactly once" % what, out.zlen() == n)
    if n:
        r.oblige("%s: zero padded" % what, out.value() == I(pend))
        r.oblige("%s: at their own byte" % what, ws[0][1] == pos0)
        r.oblige("%s: before moving" % what, st.log[0][0] == "write")


def writer_op(how):
    def fn(r, v):
        cls = v.bitio.BitIOWriter
        bl, kind, o, st, pos, pend = any_state(r, v, cls)
        p0 = st.pos
        nc = o._noclose
        if how in ("seek", "seek unaligned", "skip"):
            p = r.int("to", 0)
            refused = False
            try:
                if how == "seek":
                    cls.bit_seek(o, p)
                elif how == "skip":
                    cls.skip(o, num(p.e - pos))
                else:
                    cls.bit_seek(o, p, allow_unaligned=True)
            except RuntimeError:
                refused = True
            if refused:
                r.oblige("only a position inside a byte is refused", p.e % 8 != 0)
                r.oblige("unaligned seeks are accepted when allowed", how != "seek unaligned")
                r.oblige("a refused seek changes nothing", z3.And(not st.log, I(o._tell) == pos, I(o._bits) == I(pend), I(o._bits_left) == bl))
                return
            if how != "seek unaligned":
                r.oblige("a position inside a byte is refused", p.e % 8 == 0)
            flushed(r, st, bl, kind, pend, p0, how)
            r.oblige("%s: position" % how, I(o._tell) == p.e)
            nbl = o._bits_left
            nbl = nbl if isinstance(nbl, int) else E.concretize(nbl)
            r.oblige("%s: bits left" % how, z3.And((p.e + nbl) % 8 == 0) if 0 <= nbl < 8 else False)
            r.oblige("%s: stream at the byte of the position" % how, st.pos == p.e / 8)
            r.oblige("%s: nothing pending" % how, I(o._bits) == (0 if nbl == 0 else -1))
        elif how == "flush":
            cls.flush(o)
            flushed(r, st, bl, kind, pend, p0, how)
            r.oblige("flush only writes", not events(st, "seek", "read", "close"))
            if bl and kind == "bits":
                r.oblige("flush: position", z3.And(I(o._tell) == pos + bl, I(o._bits) == 0, I(o._bits_left) == 0))
            else:
                r.oblige("flush: nothing to do", z3.And(I(o._tell) == pos, I(o._bits) == I(pend), I(o._bits_left) == bl))
            r.oblige("flush: class invariant", st.pos == I(o._tell) / 8)
        elif how == "align":
            cls.align(o)
            flushed(r, st, bl, kind, pend, p0, how)
            r.oblige("align: position", z3.And(I(o._tell) == pos + bl, I(o._bits) == 0, I(o._bits_left) == 0))
            r.oblige("align: stream position", 8 * st.pos == pos + bl)
            if kind == "bits":
                r.oblige("align needs no seek", not events(st, "seek"))
        else:
            if how == "release and close":
                cls.release(o)
                nc = True
                cls.close(o)
            elif how == "with":
                with o:
                    pass
            else:
                cls.close(o)
            flushed(r, st, bl, kind, pend, p0, how)
            r.oblige("%s: the stream is closed unless asked to leave it open" % how, E.B(st.closed) == z3.Not(E.B(nc)))
            if st.closed:
                r.oblige("%s: closed last" % how, st.log[-1] == ("close",) and len(events(st, "close")) == 1)

    return fn


def reader_close(r, v):
    cls = v.bitio.BitIOReader
    bl, kind, o, st, pos, have = any_state(r, v, cls)
    nc = o._noclose
    c = r.choose(3)
    if c == 0:
        cls.close(o)
    elif c == 1:
        cls.release(o)
        nc = True
        cls.close(o)
    else:
        with o as x:
            r.oblige("the context manager gives the object itself", x is o)
    r.oblige("reader: the stream is closed unless asked to leave it open", E.B(st.closed) == z3.Not(E.B(nc)))
    r.oblige("reader: closing writes nothing", not events(st, "write"))


class Failing(Stream):
    def write(self, b):
        raise OSError("disk full")


def close_fails(r, v):
    """closing with a failing stream still closes it"""
    bl = r.choose(7) + 1
    st = Failing(r)
    o, st, pos, pend = state(r, v, v.bitio.BitIOWriter, bl, "bits", st)
    o._noclose = False
    try:
        v.bitio.BitIOWriter.close(o)
    except OSError:
        pass
    r.oblige("the stream is closed even if the last byte cannot be written", st.closed)


def write_after_seek(bl):
    """a write into a position inside a byte zeroes the earlier bits of that byte"""

    def fn(r, v):
        neg = r.choose(2)
        bits = bit_width(r)
        o, st, pos, _m = state(r, v, v.bitio.BitIOWriter, bl, "seek")
        P = pow2(bits)
        val = r.int("val")
        r.assume(z3.And(val.e < 0, 2 * val.e >= -I(P)) if neg else z3.And(val.e >= 0, val.e < I(P)))
        u = simp(val.e + I(P)) if neg else val.e
        v.bitio.BitIOWriter.write(o, bits, val)
        c01.check_written(r, o, st, pos, z3.IntVal(0), bl, bits, u)

    return fn


def groups(tier):
    for how in ("seek", "skip", "align"):
        yield {"name": "BitIOReader %s" % how, "functions": "BitIO.bit_seek, BitIO.skip, BitIO.align", "fn": reader_seek(how)}
    for how in ("seek", "seek unaligned", "skip", "flush", "align", "close", "release and close", "with"):
        yield {"name": "BitIOWriter %s" % how, "functions": "BitIOWriter.bit_seek, BitIOWriter.flush, BitIOWriter.align, BitIOWriter.close, BitIO.release", "fn": writer_op(how)}
    yield {"name": "BitIOReader close", "functions": "BitIO.close, BitIO.release, BitIO.__exit__", "fn": reader_close}
    yield {"name": "BitIOWriter close on a failing stream", "functions": "BitIOWriter.close", "fn": close_fails}
    for bl in range(1, 8):
        yield {"name": "BitIOWriter.write after a seek to bit %d of a byte" % (8 - bl), "functions": "BitIOWriter.write", "fn": write_after_seek(bl)}
        yield {"name": "BitIOReader.read after a seek to bit %d of a byte" % (8 - bl), "functions": "BitIOReader.read", "fn": c01.read(bl, "seek")}
