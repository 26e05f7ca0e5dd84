"""C01: BitIOWriter.write/write_bytes and BitIOReader.read/read_bytes for every width, alignment and value."""
import z3

from . import engine as E
from .bits import Stream, bit_width, state, unread
from .common import ENGINE
from .engine import I, SInt, num, pow2, simp
from .vals import IntBytes, SSeq, SText
from .wire import F, Rep, Wire, attach, install

FUNCTIONS = ["bitio.BitIO.__init__", "bitio.BitIO.aligned", "bitio.BitIO.bit_tell", "bitio.BitIOWriter.__init__", "bitio.BitIOWriter.write", "bitio.BitIOWriter.write_bytes",
             "bitio.BitIOReader.read", "bitio.BitIOReader.read_bytes", "bitio.BitIOWriter.flush", "bitio.BitIOWriter.close", "bitio.BitIO.close"]
ASSUMPTIONS = ["the wrapped stream obeys io.BufferedIOBase: read(n) returns the next n bytes, write(b) stores all of b, tell is the position (assumed contract of the standard library)",
               "int.to_bytes / int.from_bytes are the little-endian base 256 digits"]
TRUSTED = ENGINE


def write_case(bl, neg):
    def case(vals):
        bits = vals["_bits"]
        ops = ([["w", (8 - bl) % 8, vals.get("pending", 0)]] if bl else []) + [["w", bits, vals["val"]], ["w", 3, 5]]
        return {"ops": ops, "prefix": 0}

    return case


def write(bl):
    def fn(r, v):
        neg = r.choose(2)
        bits = bit_width(r)
        o, st, pos, pend = state(r, v, v.bitio.BitIOWriter, bl, "bits")
        r.inputs["_bits"] = I(bits)
        r.data["case"] = write_case(bl, neg)
        P = pow2(bits)
        val = r.int("val")
        if neg:
            r.assume(z3.And(val.e < 0, 2 * val.e >= -I(P)))
            u = simp(val.e + I(P))
        else:
            r.assume(z3.And(val.e >= 0, val.e < I(P)))
            u = val.e
        r.oblige("the stored value is in range", z3.And(u >= 0, u < I(P)))
        v.bitio.BitIOWriter.write(o, bits, val)
        check_written(r, o, st, pos, I(pend), bl, bits, u)

    return fn


def check_written(r, o, st, pos, pend, bl, bits, u):
    out = st.written()
    if any(e[0] != "write" for e in st.log):
        raise E.Unsupported("the stream is moved while writing")
    p = (8 - bl) % 8
    nbl = o._bits_left
    nbl = nbl if isinstance(nbl, int) else E.concretize(nbl)
    r.oblige("class invariant: bits left", 0 <= nbl < 8)
    np_ = (8 - nbl) % 8
    npend = I(o._bits)
    r.oblige("class invariant: pending bits", z3.And(npend >= 0, npend < (1 << np_)))
    n = simp(out.zlen())
    r.oblige("number of bytes written", 8 * n + np_ == p + I(bits))
    # pend + u*2^p  ==  bytes + pend' * 256^n
    r.oblige("bits are packed least significant first, back to back", pend + u * (1 << p) == out.value() + npend * I(pow2(num(8 * n))))
    r.oblige("bit_tell counts the bits", I(o._tell) == pos + I(bits))
    r.oblige("class invariant: stream position", 8 * st.pos + np_ == I(o._tell))


def read(bl, kind):
    def fn(r, v):
        signed = bool(r.choose(2))
        bits = bit_width(r)
        o, st, pos, have = state(r, v, v.bitio.BitIOReader, bl, kind)
        r.inputs["_bits"] = I(bits)
        P = I(pow2(bits))
        U = unread(have, bl, st.X)
        got = v.bitio.BitIOReader.read(o, bits, signed)
        nbl = o._bits_left
        nbl = nbl if isinstance(nbl, int) else E.concretize(nbl)
        nb = I(o._bits)
        r.oblige("class invariant: bits left", 0 <= nbl < 8)
        r.oblige("class invariant: loaded bits", z3.And(nb >= 0, nb < (1 << nbl)))
        res = I(got)
        if signed:
            r.oblige("result range", z3.And(2 * res >= -P, 2 * res < P))
            res = simp(z3.If(res < 0, res + P, res))
        r.oblige("result range, as unsigned", z3.And(res >= 0, res < P))
        r.oblige("the result is the next bits and the rest stays unread", U == res + (nb + st.X * (1 << nbl)) * P)
        r.oblige("bit_tell counts the bits", I(o._tell) == pos + I(bits))
        r.oblige("class invariant: stream position", 8 * st.pos - nbl == I(o._tell))

    return fn


def lemma(r, v):
    """what the two contracts give together: S is the integer of the bits written so far"""
    S, u, rest, P, T = [z3.Int(x) for x in ("S", "u", "rest", "P", "T")]
    r.assume(z3.And(P >= 2, T >= 1, S >= 0, S < T, u >= 0, u < P, rest >= 0))
    U = z3.Int("U")
    whole = S + u * T + rest * T * P
    r.oblige("lemma: dropping what was read before", z3.And(whole == S + (u + rest * P) * T))
    q, m = z3.Int("q"), z3.Int("m")
    r.assume(z3.And(u + rest * P == m + q * P, m >= 0, m < P))
    r.oblige("lemma: quotient", (rest - q) * P == m - u)
    r.oblige("lemma: the value read is the value written", z3.And(m == u, q == rest))
    val = z3.Int("val")
    H = z3.Int("H")
    r.assume(z3.And(P == 2 * H, val < 0, val >= -H, u == val + P))
    r.oblige("lemma: a negative value comes back from a signed read", z3.And(u >= H, u - P == val))


def bytes_write(r, v):
    bl = r.choose(8)
    o, st, pos, pend = state(r, v, v.bitio.BitIOWriter, bl, "bits")
    buf = SText.opaque("buf", "bytes")
    n = buf.zlen()
    r.data["case"] = lambda vals: {"ops": ([["w", (8 - bl) % 8, vals.get("pending", 0)]] if bl else []) + [["b", "abcd"], ["w", 3, 5]], "prefix": 0}
    install(r, v)
    if bl == 0:
        w = Wire([], mode="w")
        got = []
        r.stub_obj = got
        st.write = None
        o.data = Sink(got)
        attach(o, w)
        v.bitio.BitIOWriter.write_bytes(o, buf)
        if len(got) != 1:
            raise E.Unsupported("several writes")
        from .vals import text_eq

        r.oblige("aligned: the bytes themselves are written", text_eq(got[0], buf))
        r.oblige("bit_tell counts the bits", I(o._tell) == pos + 8 * n)
        r.oblige("aligned: still aligned", z3.And(I(o._bits_left) == 0, I(o._bits) == 0))
    else:
        w = Wire([Rep(n, lambda k: [F(8, I(buf.at(num(k))), "byte")], name="bytes", elem_bits=8)], start=pos, name="write_bytes")
        attach(o, w)
        v.bitio.BitIOWriter.write_bytes(o, buf)
        w.finish()


class Sink(E.Sym):
    def __init__(self, got):
        self.got = got

    def write(self, b):
        self.got.append(b)
        return None


class Source(E.Sym):
    def __init__(self, text):
        self.text = text
        self.reads = []

    def read(self, n):
        self.reads.append(n)
        return self.text.sub(0, n)


def bytes_read(r, v):
    bl = r.choose(8)
    o, st, pos, pend = state(r, v, v.bitio.BitIOReader, bl, "bits" if bl == 0 or r.choose(2) else "seek")
    buf = SText.opaque("buf", "bytes")
    n = buf.zlen()
    install(r, v)
    from .vals import text_eq

    if bl == 0:
        o.data = Source(buf)
        attach(o, Wire([], mode="r"))
        got = v.bitio.BitIOReader.read_bytes(o, num(n))
        if len(o.data.reads) != 1:
            raise E.Unsupported("several reads")
        r.oblige("aligned: the next bytes of the stream", text_eq(got, buf))
        r.oblige("bit_tell counts the bits", I(o._tell) == pos + 8 * n)
        r.oblige("aligned: still aligned", z3.And(I(o._bits_left) == 0, I(o._bits) == 0))
    else:
        code = lambda e, k: [buf.at(k)]
        seq = SSeq("octets", n, lambda k: buf.at(num(k)), text=buf)
        w = Wire([Rep(n, lambda k: [F(8, I(buf.at(num(k))), "byte")], name="bytes", elem_bits=8, lists={"octets": (code, seq)})], start=pos, mode="r", name="read_bytes")
        attach(o, w)
        got = v.bitio.BitIOReader.read_bytes(o, num(n))
        w.finish()
        r.oblige("unaligned: the octets from the current bit on", text_eq(got, buf))


def init(r, v):
    c = r.choose(2)
    B = v.bitio
    cls = (B.BitIOReader, B.BitIOWriter)[c]
    st = Stream(r)
    nc = r.bool("nc")
    o = cls(st, noclose=nc)
    r.oblige("starts at the stream's position", I(o.bit_tell()) == 8 * st.pos)
    r.oblige("starts aligned", o.aligned() is True or o.aligned())
    E.needs("_bits", "_bits_left")
    r.oblige("initial state", z3.And(I(o._bits) == 0, I(o._bits_left) == 0))
    r.oblige("stream kept", o.data is st)
    r.oblige("noclose kept", E.B(o._noclose) == nc.e)


def observers(r, v):
    c = r.choose(2)
    bl = r.choose(8)
    kind = "seek" if bl and r.choose(2) else "bits"
    cls = (v.bitio.BitIOReader, v.bitio.BitIOWriter)[c]
    o, st, pos, have = state(r, v, cls, bl, kind)
    r.oblige("bit_tell is the position", I(cls.bit_tell(o)) == pos)
    r.oblige("aligned tells whether the position is a multiple of 8", E.B(cls.aligned(o)) == (pos % 8 == 0))
    r.oblige("observers do not touch the stream", not st.log)


def close(r, v):
    bl = r.choose(8)
    o, st, pos, pend = state(r, v, v.bitio.BitIOWriter, bl, "bits")
    nc = o._noclose
    v.bitio.BitIOWriter.close(o)
    ws = [e for e in st.log if e[0] == "write"]
    if bl == 0:
        r.oblige("closing an aligned writer writes nothing", E.B(num(st.written().zlen()) == 0))
    else:
        out = st.written()
        r.oblige("closing writes the pending byte", out.zlen() == 1)
        r.oblige("the pending byte is zero padded", out.value() == I(pend))
        r.oblige("at the current byte", ws[0][1] == st.pos - 1)
    r.oblige("the stream is closed unless asked not to", E.B(st.closed) == z3.Not(E.B(nc)))
    if st.closed:
        r.oblige("nothing is written after closing", st.log[-1] == ("close",))


def groups(tier):
    for bl in range(8):
        yield {"name": "BitIOWriter.write with %d bits left in the byte" % bl, "functions": "BitIOWriter.write", "fn": write(bl)}
        yield {"name": "BitIOReader.read with %d bits left in the byte" % bl, "functions": "BitIOReader.read", "fn": read(bl, "bits")}
        if bl:
            yield {"name": "BitIOReader.read after a seek to bit %d of a byte" % (8 - bl), "functions": "BitIOReader.read", "fn": read(bl, "seek")}
    yield {"name": "BitIOWriter.write_bytes", "functions": "BitIOWriter.write_bytes", "fn": bytes_write}
    yield {"name": "BitIOReader.read_bytes", "functions": "BitIOReader.read_bytes", "fn": bytes_read}
    yield {"name": "constructors", "functions": "BitIO.__init__, BitIOWriter.__init__", "fn": init}
    yield {"name": "bit_tell and aligned", "functions": "BitIO.bit_tell, BitIO.aligned", "fn": observers}
    yield {"name": "BitIOWriter.close", "functions": "BitIOWriter.close, BitIOWriter.flush, BitIO.close", "fn": close}
    yield {"name": "round-trip lemma", "functions": "specification", "fn": lemma}
