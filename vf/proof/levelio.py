"""Level files above the chunk level: the region map, regions and the level header.  Chunks (segments) and regions are
written and read through their contracts (segment.py, and the region groups here)."""
import io
import zlib

import z3

from . import engine as E
from .c05 import stubs
from .cli import Token
from .c22 import any_map, holds_map, struct_of
from .engine import B, Hook, I, Rl, SBool, SInt, SReal, Sym, Unsupported, boo, num, simp
from .instr import value_eq
from .segment import FI, FR, born_obj
from .vals import AMap, SSeq, SText, TList, text_eq
from .wire import Align, Call, Check, F, Lazy, Rep, T, Wire, make, wire_of

M16 = 1 << 16


class Tok(Sym):
    """an object of which only the identity matters"""
    pytypes = (object,)

    def __init__(self, kind, *k):
        self.kind, self.k = kind, tuple(simp(x) if z3.is_expr(x) else x for x in k)

    def __eq__(self, o):
        if not isinstance(o, Tok):
            return self.differs(o)
        if o.kind != self.kind:
            return False
        return boo(z3.And([z3.BoolVal(True)] + [a == b for a, b in zip(self.k, o.k)]))

    def __ne__(self, o):
        return boo(z3.Not(B(self == o)))

    __hash__ = Sym.__hash__


# ------------------------------------------------------------------------------------------- region map
class Sink(Sym):
    """a list of a chunk while the map is built: only additions are followed"""
    pytypes = (list,)

    def __init__(self, world, seg, kind, layer=None):
        self.world, self.seg, self.kind, self.layer = world, seg, kind, layer

    def append(self, rec):
        self.world.log.append((self.seg, self.kind, self.layer, rec))


class LayerSinks(Sym):
    pytypes = (list,)

    def __init__(self, world, seg):
        self.world, self.seg = world, seg

    def __getitem__(self, layer):
        if not isinstance(layer, (int, SInt)):
            raise Unsupported("slice of the layers")
        e = I(layer)
        if not self.world.r.entails(z3.And(e >= 0, e < 256)):
            raise Unsupported("layer out of range")
        return Sink(self.world, self.seg, "tile", layer)


class Store(Sym):
    """region_map / segment_map at an arbitrary moment: any key may or may not be there; what is there under a key is
    the region / chunk of that key"""
    pytypes = (dict,)

    def __init__(self, world, make, fresh):
        self.world, self.make, self.fresh = world, make, fresh
        self.known = []  # (key, object or None)

    def find(self, key):
        if not (isinstance(key, tuple) and len(key) == 2):
            raise Unsupported("another form of key")
        r = self.world.r
        for i, (k2, o) in enumerate(self.known):
            same = z3.And(I(k2[0]) == I(key[0]), I(k2[1]) == I(key[1]))
            if E.fork(same):
                return i
        o = None
        if not self.fresh and E.fork(z3.Bool(r.fresh("present"))):
            o = self.make(self, key)
        self.known.append((key, o))
        return len(self.known) - 1

    def get(self, key, d=None):
        o = self.known[self.find(key)][1]
        return d if o is None else o

    def __getitem__(self, key):
        o = self.known[self.find(key)][1]
        if o is None:
            raise KeyError(key)
        return o

    def __contains__(self, key):
        return self.known[self.find(key)][1] is not None

    def __setitem__(self, key, o):
        i = self.find(key)
        old = self.known[i][1]
        if old is not None and old is not o:
            self.world.r.fail("nothing already collected is dropped", "a region or chunk is replaced")
        w = self.world.homes.get(id(o))
        if w is None:
            raise Unsupported("another object is stored")
        if w[0] is not None and w[0] is not self:
            raise Unsupported("an object is stored twice")
        self.world.homes[id(o)] = (self, key, o)
        self.known[i] = (key, o)

    def setdefault(self, key, o):
        i = self.find(key)
        if self.known[i][1] is None:
            self[key] = o
        return self.known[i][1]


class World(Hook):
    """the region map under construction"""

    def __init__(self, r, v):
        self.r, self.v = r, v
        self.log, self.homes, self.backs, self.keep = [], {}, {}, []
        self.loops = []
        D = v.dfwriter
        r.hooks.append(self)
        self.rmaps = []
        r.stub(D._LevelSegment, lambda: self.new_segment())
        r.stub(D._LevelRegion, lambda: self.new_region())
        r.stub(D._RegionMap, lambda: self.new_map())

    def empty(self, d, what):
        if not (isinstance(d, dict) and len(d) == 0):
            raise Unsupported(what + " starts differently")

    def dress(self, s):
        for a in ("tiles", "entities", "props"):
            getattr(s, a)
        object.__setattr__(s, "tiles", LayerSinks(self, s))
        object.__setattr__(s, "entities", Sink(self, s, "entity"))
        object.__setattr__(s, "props", Sink(self, s, "prop"))
        self.homes[id(s)] = (None, None, s)
        return s

    def new_segment(self):
        D = self.v.dfwriter
        s = object.__new__(D._LevelSegment)
        D._LevelSegment.__init__(s)
        for a in ("entities", "props"):
            if len(getattr(s, a)) != 0:
                raise Unsupported("a new chunk is not empty")
        if len(s.tiles) != 256 or any(len(x) for x in s.tiles):
            raise Unsupported("a new chunk has other layers")
        return self.dress(s)

    def new_region(self):
        D = self.v.dfwriter
        o = object.__new__(D._LevelRegion)
        D._LevelRegion.__init__(o)
        self.empty(o.segment_map, "segment_map")
        object.__setattr__(o, "segment_map", self.segs(o, True))
        self.homes[id(o)] = (None, None, o)
        self.backs[id(o.backdrop)] = (o, o.backdrop)
        return o

    def segs(self, region, fresh):
        st = Store(self, lambda st, key: self.old_segment(st, key), fresh)
        st.region = region
        return st

    def old_segment(self, st, key):
        s = self.dress(born_obj(self.v.dfwriter._LevelSegment, tiles=None, entities=None, props=None, present=True))
        self.homes[id(s)] = (st, key, s)
        return s

    def old_region(self, st, key):
        o = born_obj(self.v.dfwriter._LevelRegion)
        object.__setattr__(o, "segment_map", self.segs(o, False))
        b = self.dress(born_obj(self.v.dfwriter._LevelSegment, tiles=None, entities=None, props=None, present=SBool(z3.Bool(self.r.fresh("backdrop_present")))))
        object.__setattr__(o, "backdrop", b)
        self.backs[id(b)] = (o, b)
        self.homes[id(o)] = (st, key, o)
        return o

    def new_map(self):
        D = self.v.dfwriter
        o = object.__new__(D._RegionMap)
        D._RegionMap.__init__(o)
        self.empty(o.region_map, "region_map")
        object.__setattr__(o, "region_map", Store(self, lambda st, key: self.old_region(st, key), False))
        self.rmaps.append(o)
        return o

    def home(self, seg):
        """(region key, chunk key or None for the backdrop)"""
        r = self.r
        if id(seg) in self.backs:
            region, key = self.backs[id(seg)][0], None
        else:
            st, key, _o = self.homes[id(seg)]
            r.oblige("the chunk that gets an object is part of the map", st is not None)
            region = st.region
        st, rk, _o = self.homes[id(region)]
        r.oblige("the region that gets an object is part of the map", st is not None and st is self.rmaps[0].region_map)
        return rk, key

    def loop_tail(self, lp):
        r = self.r
        name = getattr(lp.seq, "tag", None)
        log, self.log = self.log, []
        if name is None:
            r.oblige("objects are collected only from the level", not log)
            return
        r.oblige("every %s is put into exactly one chunk" % name, len(log) == 1)
        seg, kind, layer, rec = log[0]
        (rx, ry), key = self.home(seg)
        what, want = lp.seq.want(lp.k)
        r.oblige("a %s is put into the list of %ss" % (name, what), kind == what)
        back = name.startswith("backdrop")
        if back:
            r.oblige("backdrop objects go to the backdrop", key is None)
            r.oblige("the backdrop is marked present", seg.present is True)
        else:
            r.oblige("level objects do not go to the backdrop", key is not None)
            r.oblige("chunk coordinates are 0 to 15", z3.And(I(key[0]) >= 0, I(key[0]) < 16, I(key[1]) >= 0, I(key[1]) < 16))
        r.oblige("region coordinates fit 16 bits", z3.And(*[z3.And(I(c) >= -(1 << 15), I(c) < (1 << 15)) for c in (rx, ry)]))
        if not isinstance(rec, tuple):
            raise Unsupported("records of another form")
        if what == "tile":
            (l, x, y), t = want
            r.oblige("tiles are kept by layer", I(layer) == l)
            lx, ly, tile = rec
            r.oblige("local coordinates are 0 to 15", z3.And(I(lx) >= 0, I(lx) < 16, I(ly) >= 0, I(ly) < 16))
            r.oblige("the tile object", B(value_eq(tile, t)))
            for c, p, rr, ll, i in (("x", x, rx, lx, 0), ("y", y, ry, ly, 1)):
                e = I(rr) * 16 + I(ll) if back else I(rr) * 256 + I(key[i]) * 16 + I(ll)
                r.oblige("region, chunk and local coordinate give the %s coordinate" % c, e == p)
        else:
            r.oblige("the stored record of a %s" % name, len(rec) == len(want) and B(value_eq(rec, want)))

    def attr_effect(self, lp, obj, name, value):
        return name == "present" and value is True and (id(obj) in self.homes or id(obj) in self.backs)

    def loop_exit(self, lp):
        name = getattr(lp.seq, "tag", None)
        if name is not None:
            self.loops.append(name)


def tagged(seq, name, want):
    seq.tag, seq.want = name, want
    seq.info["sorted"] = lambda key, rev: seq
    return AMap(seq)


def level_content(r, v, back):
    """level.tiles / props / entities of a level (or its backdrop) of any size"""
    nm = "backdrop " if back else ""
    L, X, Y = FI(nm + "layer"), FI(nm + "x"), FI(nm + "y")
    lim = 1 << (19 if back else 23)

    def tile(k):
        r.assume(z3.And(L(k) >= 0, L(k) <= 20, X(k) >= -lim, X(k) < lim, Y(k) >= -lim, Y(k) < lim))
        return (SInt(L(k)), SInt(X(k)), SInt(Y(k))), Tok(nm + "tile", k)

    tiles = tagged(SSeq(nm + "tiles", r.int("n " + nm + "tiles", 0).e, tile), nm + "tile", lambda k: ("tile", ((L(k), X(k), Y(k)), Tok(nm + "tile", k))))
    PI, PX, PY, PL = FI(nm + "prop id"), FI(nm + "prop x"), FI(nm + "prop y"), FI(nm + "prop layer")

    def prop(k):
        q = 1 << 27
        r.assume(z3.And(PX(k) > -q, PX(k) < q, PY(k) > -q, PY(k) < q))
        return (SInt(PI(k)), (SInt(PL(k)), SReal(z3.ToReal(PX(k))), SReal(z3.ToReal(PY(k))), Tok(nm + "prop", k)))

    props = tagged(SSeq(nm + "props", r.int("n " + nm + "props", 0).e, prop), nm + "prop",
                   lambda k: ("prop", (SInt(PI(k)), SInt(PL(k)), SReal(z3.ToReal(PX(k))), SReal(z3.ToReal(PY(k))), Tok(nm + "prop", k))))
    EI, EX, EY = FI(nm + "entity id"), FR(nm + "entity x"), FR(nm + "entity y")

    def ent(k):
        q = 4 * 10 ** 8
        r.assume(z3.And(EX(k) > -q, EX(k) < q, EY(k) > -q, EY(k) < q))
        return (SInt(EI(k)), (SReal(EX(k)), SReal(EY(k)), Tok("entity", k)))

    ents = tagged(SSeq("entities", r.int("n " + nm + "entities", 0).e, ent), "entity", lambda k: ("entity", (SInt(EI(k)), SReal(EX(k)), SReal(EY(k)), Tok("entity", k))))
    return tiles, props, ents


def case(vals):
    """a level file (C09): replayed on the real code"""
    return {"m": places(vals), "pre": 3, "post": 2, "vars": [["n", ["int", 5]]], "sshot": "xyz", "split": 2, "warm": 1}


def places(vals):
    """a level with content around every region and chunk border"""
    from random import Random

    from ..gen import Gen

    g = Gen(Random(3))
    pts = [(-1, -1), (0, 0), (15, 16), (17, 255), (256, -256), (-257, 300), (-16, 16), (4095, -4096), ((1 << 23) - 1, -(1 << 23))]
    t = [[ly, x, y, g.tile(ly == 19)] for ly in (0, 19, 20) for x, y in pts]
    bp = [(x, y) if abs(x) < 1 << 19 and abs(y) < 1 << 19 else ((1 << 19) - 1, -(1 << 19)) for x, y in pts]
    b = [[ly, x, y, g.tile(False)] for ly in (3, 11) for x, y in bp]
    p = [[200 + i, i % 20, float(x % (1 << 26)), float(-(y % (1 << 26))), g.prop()] for i, (x, y) in enumerate(pts)]
    e = [[300 + i, min(max(48.0 * x, -3.9e8), 3.9e8), min(max(48.0 * y - 0.5, -3.9e8), 3.9e8), dict(g.ent(["AI_controller", "entity", "z_thing", "foo"], 1))] for i, (x, y) in enumerate(pts)]
    return {"sshot": "ab", "vars": [["q", ["bool", True]]], "tiles": t, "props": p, "entities": e, "backdrop": {"tiles": b, "props": [[600 + i] + x[1:] for i, x in enumerate(p)]}}


def region_map(what):
    def fn(r, v):
        r.data["case"] = places
        W = World(r, v)
        t, p, e = level_content(r, v, False)
        lv = born_obj(v.level.Level, tiles=t, props=p, entities=e, parent=None, backdrop=None)
        hasb = r.choose(2)
        if hasb:
            t2, p2, e2 = level_content(r, v, True)
            object.__setattr__(lv, "backdrop", born_obj(v.level.Level, tiles=t2, props=p2, entities=AMap(SSeq("none", 0, None)), parent=lv, backdrop=None))
        got = v.dfwriter._compute_region_map(lv)
        r.oblige("the map that was filled is returned", len(W.rmaps) == 1 and got is W.rmaps[0])
        for n in ("tile", "prop", "entity") + (("backdrop tile", "backdrop prop") if hasb else ()):
            r.oblige("every %s is collected once" % n, W.loops.count(n) == 1)

    return fn


def region_keys(r, v):
    """the order of the regions"""
    r.data["case"] = case
    X, Y = FI("region x"), FI("region y")
    n = r.int("regions", 0).e
    seq = SSeq("region keys", n, lambda k: (SInt(X(k)), SInt(Y(k))))
    out = SSeq("sorted region keys", n, lambda k: (SInt(X(k)), SInt(Y(k))))

    def by(key, rev):
        (a, b), (c, d) = [(r.int("x%d" % i, -(1 << 15), (1 << 15) - 1), r.int("y%d" % i, -(1 << 15), (1 << 15) - 1)) for i in (1, 2)]
        if rev or key is None:
            f, g = (a, b), (c, d)
        else:
            f, g = key((a, b)), key((c, d))
        if not (isinstance(f, tuple) and isinstance(g, tuple) and len(f) == len(g)):
            f, g = (f,), (g,)
        lt = z3.BoolVal(False)
        for x, y in reversed(list(zip(f, g))):
            lt = z3.Or(I(x) < I(y), z3.And(I(x) == I(y), lt))
        if rev:
            lt = z3.And(z3.Not(lt), z3.Or(*[I(x) != I(y) for x, y in zip(f, g)]))
        u = [I(x) % M16 for x in (a, b, c, d)]
        want = z3.Or(u[0] < u[2], z3.And(u[0] == u[2], u[1] < u[3]))
        r.oblige("regions are ordered by unsigned 16 bit coordinates, x first", lt == want)
        return out

    seq.info["sorted"] = by
    m = AMap(seq.map(lambda k: (k, None)))
    m.as_seq = None
    rm = born_obj(v.dfwriter._RegionMap, region_map=KeyMap(seq))
    got = v.dfwriter._RegionMap.get_region_keys(rm)
    got = got.as_seq() if hasattr(got, "as_seq") else got
    r.oblige("the sorted keys are returned", got is out)


class KeyMap(Sym):
    pytypes = (dict,)

    def __init__(self, seq):
        self.seq = seq

    def as_seq(self):
        return self.seq

    def keys(self):
        return self.seq

    def slen(self):
        return self.seq.slen()


# ------------------------------------------------------------------------------------------- regions
class Region:
    """a region of any content: n chunks at distinct places and maybe a backdrop chunk"""

    def __init__(self, r, v):
        self.r, self.v = r, v
        self.rx, self.ry = r.int("rx", -(1 << 15), (1 << 15) - 1), r.int("ry", -(1 << 15), (1 << 15) - 1)
        self.n = r.int("chunks", 0, 256).e
        self.sx, self.sy = FI("sx"), FI("sy")
        self.back = z3.Bool("backdrop_present")
        self.comp, self.plain = SText.opaque("compressed", "bytes"), SText.opaque("chunk_data", "bytes")
        self.size = simp(17 + self.comp.zlen())
        r.assume(z3.And(self.size < (1 << 32), self.plain.zlen() < (1 << 32)))
        self.cbits, self.bbits = FI("bits_of_chunk"), z3.Int("bits_of_backdrop")
        r.assume(z3.And(self.bbits > 0, self.bbits % 8 == 0))
        self.sub = None

    def chunk_bits(self, k):
        self.r.assume(z3.And(self.cbits(k) > 0, self.cbits(k) % 8 == 0))
        return self.cbits(k)

    def inner(self, chunk, back, mode, start=0):
        def bd():
            return [back()] if E.fork(self.back) else []

        self.sub = Wire([Rep(self.n, lambda k: [chunk(k)], name="chunks", aligned=True), Lazy(bd)], start=start, name="region data", mode=mode)
        return self.sub

    def layout(self):
        return [F(32, self.size, "region size"), F(32, self.plain.zlen(), "uncompressed size"), F(16, self.rx.e % M16, "region x"), F(16, self.ry.e % M16, "region y"), F(16, 14, "region version"),
                F(16, self.n, "number of chunks"), F(8, z3.If(self.back, 1, 0), "backdrop flag"), T(self.comp, "compressed data")]


def sub_stream(r, cls, on_make):
    """io.BytesIO and a reader / writer on it"""

    class Buf(Sym):
        pytypes = (io.BytesIO,)
        content = None
        wire = None
        value = None

        def getvalue(self):
            return self.value()

        def close(self):
            pass

    def mkbuf(content=b""):
        b = Buf()
        b.content = content
        return b

    def mk(data, noclose=False):
        if not isinstance(data, Buf):
            raise Unsupported("a stream on something else")
        return on_make(data)

    r.stub(io.BytesIO, mkbuf)
    r.stub(cls, mk)


def write_region(r, v):
    stubs(r, v)
    r.data["case"] = places
    g = Region(r, v)
    p0 = r.int("start", 0).e
    r.assume(p0 % 8 == 0)
    w = Wire(g.layout(), start=p0, name="region")
    W = v.dfwriter.DFWriter

    def seg(self, x, y, s):
        q = wire_of(self)
        r.oblige("chunks start on byte boundaries", q.pos % 8 == 0)
        q.call("segment", x, y, s)

    r.stub(W._write_segment, seg)

    def mk(buf):
        sw = g.inner(lambda k: Call("segment", SInt(g.sx(k)), SInt(g.sy(k)), Tok("chunk", k), bits=g.chunk_bits(k)), lambda: Call("segment", 0, 0, bk, bits=g.bbits), "w")

        def value():
            r.oblige("all chunks are in the data", z3.BoolVal(sw.peek() is None))
            r.oblige("the data are flushed", sw.pos % 8 == 0)
            r.assume(sw.end() == 8 * g.plain.zlen())
            sw.finish()
            return g.plain

        buf.value = value
        return make(W, sw, buf)

    sub_stream(r, W, mk)

    def compress(data, *a, **k):
        r.oblige("the chunk data are compressed", B(text_eq(data, g.plain)))
        return g.comp

    r.stub(zlib.compress, compress)
    chunks = SSeq("chunks", g.n, lambda k: ((SInt(g.sx(k)), SInt(g.sy(k))), Tok("chunk", k)))
    chunks.info["sorted"] = lambda key, rev: chunks
    bk = born_obj(v.dfwriter._LevelSegment, present=SBool(g.back))
    reg = born_obj(v.dfwriter._LevelRegion, segment_map=AMap(chunks), backdrop=bk)
    W._write_region(make(W, w), g.rx, g.ry, reg)
    w.finish()


def read_region(r, v):
    stubs(r, v)
    r.data["case"] = places
    g = Region(r, v)
    p0 = r.int("start", 0).e
    r.assume(p0 % 8 == 0)
    w = Wire(g.layout(), start=p0, name="region", mode="r")
    R = v.dfreader.DFReader
    lv = born_obj(v.level.Level, parent=None)
    back = born_obj(v.level.Level, parent=lv, backdrop=None)
    object.__setattr__(lv, "backdrop", back)

    def seg(self, level, xo, yo):
        q = wire_of(self)
        r.oblige("chunks are read from byte boundaries", q.pos % 8 == 0)
        q.call("segment", level, xo, yo)

    r.stub(R.read_segment, seg)

    def at(o, s):
        same = lambda lvl: Check(lambda a: r.oblige("the level that is filled", a is lvl))
        return [same(o), num(g.rx.e * s), num(g.ry.e * s)]

    def mk(buf):
        r.oblige("the decompressed data are read", B(text_eq(buf.content, g.plain)))
        return make(R, g.inner(lambda k: Call("segment", *at(lv, 256), bits=g.chunk_bits(k)), lambda: Call("segment", *at(back, 16), bits=g.bbits), "r"), buf)

    sub_stream(r, R, mk)

    def decompress(data, *a, **k):
        r.oblige("the compressed data are decompressed", B(text_eq(data, g.comp)))
        return g.plain

    r.stub(zlib.decompress, decompress)
    R.read_region(make(R, w), lv)
    r.oblige("the region data are read", g.sub is not None)
    g.sub.finish()
    w.finish()


# ------------------------------------------------------------------------------------------- level files
class File:
    """a level file: thumbnail, variables, n regions"""

    def __init__(self, r, v):
        self.r, self.v = r, v
        self.p0 = r.int("start", 0).e
        r.assume(self.p0 % 8 == 0)
        self.sshot = SText.opaque("thumbnail", "bytes")
        r.inputs["thumbnail length"] = self.sshot.zlen()
        self.map = any_map(r, v)
        self.vbits = z3.Int("bits_of_variables")
        r.assume(self.vbits >= 0)
        self.n = r.int("regions", 0).e
        self.off = FI("region_offset")  # bytes from the start of the map data
        self.X, self.Y = FI("region x"), FI("region y")
        self.next = r.int("next id", 0, (1 << 32) - 1)
        r.assume(self.off(0) == 0)
        self.size = z3.Int("file_size")

    def at(self, k):
        self.r.assume(z3.And(self.off(k) >= 0, self.off(k) <= self.off(self.n)))
        return simp(8 * self.off(k))

    def offsets(self, extra=False):
        n = simp(self.n + 1) if extra else self.n
        return SSeq("region offsets", n, lambda k: (self.at(k), SInt(self.off(k)))[1])

    def bits_of_region(self, k):
        b = simp(8 * (self.off(k + 1) - self.off(k)))
        self.r.assume(self.off(k + 1) > self.off(k))
        return b

    def header(self, w):
        v = self.v
        un = lambda n: [setattr(f, "mine", False) or f for f in (F(32, 0, "unused") for _ in range(n))]
        var = Call("variable", holds_map(self.r, v, self.map), bits=self.vbits) if w else Call("variable", v.variable.VariableType.STRUCT, bits=self.vbits, result=lambda: struct_of(v, self.map))
        return ([T(b"DF_LVL", "magic"), F(16, 44, "version"), F(32, self.size, "file size"), F(32, self.n, "number of regions"), T(b"DF_MTD", "metadata magic"), F(16, 4, "metadata version")] + un(1)
                + [F(32, self.next, "next id")] + un(3) + [F(32, self.sshot.zlen(), "thumbnail length"), T(self.sshot, "thumbnail"), var])

    def wire(self, items, mode):
        w = Wire(items, start=self.p0, name="level file", mode=mode)
        self.r.assume(self.size < (1 << 32))
        self.r.assume(self.size == (w.end() - self.p0) / 8)
        return w

    def regions(self, call, lists=None):
        return Rep(self.n, lambda k: [call(k)], name="regions", aligned=True, pos=self.at, lists=lists)


def lvl(f, **kw):
    o = born_obj(f.v.level.Level, sshot=f.sshot, variables=f.map, parent=None, backdrop=None)
    for k, x in kw.items():
        object.__setattr__(o, k, x)
    return o


def max_id_stub(r, v, f, level):
    def mx(self, reset=True):
        r.oblige("the ids of this level are counted", self is level)
        return num(f.next.e - 1)

    r.stub(v.level.Level.calculate_max_id, mx)


def write_level(r, v):
    stubs(r, v)
    r.data["case"] = case
    f = File(r, v)
    W = v.dfwriter.DFWriter
    level = lvl(f)
    max_id_stub(r, v, f, level)

    def directory():
        if not E.fork(f.n > 0):
            return []
        return [F(32, 0, "first directory entry", zero=True), Rep(f.n - 1, lambda k: [F(32, f.off(k + 1), "directory entry")], name="directory", elem_bits=32)]

    reg = lambda k: Call("region", SInt(f.X(k)), SInt(f.Y(k)), Tok("region", k), bits=f.bits_of_region(k))
    w = f.wire(f.header(True) + [Lazy(directory), Align(), f.regions(reg, lists={"offsets": (lambda e, k: [SInt(f.off(I(k)))], f.offsets())})], "w")
    r.assume(z3.And(f.off(f.n) < (1 << 32)))
    keys = SSeq("region keys", f.n, lambda k: RKey(f, k))

    class RMap(Sym):
        pytypes = (dict,)

        def slen(self):
            return num(f.n)

        def __getitem__(self, key):
            if not isinstance(key, tuple) or len(key) != 2 or not hasattr(key[0], "rk"):
                raise Unsupported("region looked up otherwise")
            k = key[0].rk
            r.oblige("regions are looked up by their own key", z3.And(I(key[0]) == f.X(k), I(key[1]) == f.Y(k)))
            return Tok("region", k)

        def as_seq(self):
            raise Unsupported("regions in another order")

    rm = born_obj(v.dfwriter._RegionMap, region_map=RMap())

    def compute(lv):
        r.oblige("the regions of this level are written", lv is level)
        return rm

    r.stub(v.dfwriter._compute_region_map, compute)
    r.stub(v.dfwriter._RegionMap.get_region_keys, lambda self: keys)

    def region(self, x, y, o):
        q = wire_of(self)
        r.oblige("regions start on byte boundaries", q.pos % 8 == 0)
        q.call("region", x, y, o)

    r.stub(W._write_region, region)
    W.write_level(make(W, w), level)
    w.finish()


def RKey(f, k):
    x, y = SInt(f.X(k)), SInt(f.Y(k))
    x.rk = k
    return (x, y)


def write_raw(chunked):
    def fn(r, v):
        stubs(r, v)
        r.data["case"] = case
        f = File(r, v)
        W = v.dfwriter.DFWriter
        level = lvl(f)
        max_id_stub(r, v, f, level)
        data = SText.opaque("region_data", "bytes")
        if chunked:
            from .c05 import Strings

            pieces = Strings("piece")
            total, c = z3.Int("bytes of the pieces"), r.int("pieces", 0).e
            r.assume(z3.And(total >= 0, z3.Implies(c == 0, total == 0)))
            body = Rep(c, lambda k: [T(pieces.text(k), "map data")], name="map data", bits=simp(8 * total), aligned=True)
            arg = SSeq("pieces", c, lambda k: pieces.text(k))
        else:
            total, body, arg = data.zlen(), T(data, "map data"), data
        last = f.off(f.n)
        w = f.wire(f.header(True) + [Rep(f.n, lambda k: [F(32, f.off(k), "directory entry")], name="directory", elem_bits=32), Align(), body], "w")
        r.assume(z3.And(total < (1 << 32), last >= 0, last < (1 << 32)))
        seq = f.offsets(True)
        tl = TList()
        tl.abstract(seq)
        r.tracked.append(tl)
        try:
            W.write_level_ex(make(W, w), level, tl, arg)
        except v.exceptions.LevelParseException:
            r.oblige("map data of the announced size are accepted", total != last)
            return
        r.oblige("map data of another size are refused", total == last)
        w.finish()

    return fn


def read_level(mode):
    def fn(r, v):
        stubs(r, v)
        r.data["case"] = case
        f = File(r, v)
        R = v.dfreader.DFReader

        def into(a):
            r.oblige("regions are read into the new level", isinstance(a, v.level.Level) and a.parent is None and id(a) in r.born)
            r.ex.memo.setdefault("filled", set()).add(r.born[id(a)])

        reg = lambda k: Call("region", Check(into), bits=f.bits_of_region(k))
        dirc = Rep(f.n, lambda k: [F(32, f.off(k), "directory entry")], name="directory", elem_bits=32, lists={"offsets": (lambda e, k: [SInt(f.off(I(k)))], f.offsets())})
        w = f.wire(f.header(False) + [dirc, Align(), f.regions(reg)], "r")
        r.assume(f.off(f.n) < (1 << 32))
        r.stub(R.read_region, lambda self, level: wire_of(self).call("region", level))
        rd = make(R, w)
        if mode == "ex":
            level, offs = R.read_level_ex(rd)
            r.oblige("the reader stops at the start of the map data", w.pos == w.end() - 8 * f.off(f.n))
            n = offs.slen() if isinstance(offs, TList) else len(offs)
            r.oblige("one offset per region and the end", I(n) == f.n + 1)
            k = r.int("k", 0)
            r.assume(k.e < f.n)
            if r.choose(2):
                r.oblige("the offset of a region", I(offs[k]) == f.off(k.e))
            else:
                return last_offset(r, f, offs)
        else:
            level = R.read_level(rd, metadata_only=(mode == "meta"))
            if mode == "full":
                w.finish()
                r.oblige("the level that was filled is returned", r.ex.memo.get("filled", set()) <= {r.born.get(id(level))})
        r.oblige("a level is returned", isinstance(level, v.level.Level))
        m = level.variables
        r.oblige("the variables", m is f.map or (isinstance(m, AMap) and m.seq is f.map.seq))
        r.oblige("the thumbnail", B(text_eq(level.sshot, f.sshot)))
        E.needs("_next_id")
        r.oblige("the next free id", I(level._next_id) == f.next.e)
        r.oblige("the new level has a backdrop of its own", level.backdrop is not None and level.backdrop.parent is level)
        if mode != "full":
            r.oblige("a new level has no objects yet", not level.tiles and not level.props and not level.entities)

    return fn


def last_offset(r, f, offs):
    r.oblige("the last offset is the end of the map data", I(offs[-1]) == f.off(f.n))



# ---------------------------------------------------------------------------------------------- convenience functions
class Buffer(io.BufferedIOBase):
    """io.BytesIO holding opaque contents"""

    def __init__(self, *a):
        self.parts = list(a)
        self.gone = False

    def write(self, b):
        if self.gone:
            raise ValueError("I/O operation on closed file.")
        self.parts.append(b)

    def getvalue(self):
        if self.gone:
            raise ValueError("I/O operation on closed file.")
        if len(self.parts) != 1:
            return Token("%d pieces" % len(self.parts), bytes)
        return self.parts[0]

    def getbuffer(self):
        return self.getvalue()

    def tell(self):
        return 0

    def flush(self):
        pass

    def close(self):
        self.gone = True


def convenience(r, v):
    """read_level(data) and write_level(level) of the modules are DFReader.read_level and DFWriter.write_level on a
    buffer of their own"""
    r.stub(io.BytesIO, Buffer)
    data, level = Token("bytes of the level", bytes), Token("level")
    log = []

    def write(w, lv, *a, **k):
        r.oblige("write_level writes to an empty buffer, once", isinstance(w.data, Buffer) and not w.data.parts and not w.data.gone and not log)
        r.oblige("write_level writes the level it was given, as it is", lv is level and not a and not k)
        log.append("w")
        w.data.write(data)

    def read(w, *a, **k):
        r.oblige("read_level reads the data it was given, completely", isinstance(w.data, Buffer) and w.data.parts == [data] and not w.data.gone and not a and not any(k.values()))
        log.append("r")
        return level

    r.stub(v.dfwriter.DFWriter.write_level, write)
    r.stub(v.dfreader.DFReader.read_level, read)
    if r.choose(2):
        r.oblige("write_level returns the bytes of the level", v.dfwriter.write_level(level) is data and log == ["w"])
    else:
        r.oblige("read_level returns the level", v.dfreader.read_level(data) is level and log == ["r"])
