"""Map chunks (segments): one abstract chunk of any content, its stored form, and the groups that verify
DFWriter._write_segment and DFReader.read_segment against it.  Used by C07 (tiles), C08 (props, entities), C21 (totals).

A chunk has m non-empty tile layers L(0..m-1), layer l holding n(l) tiles; d of the tiles of layer 19 carry filth; p
props and e entities.  All attributes are uninterpreted functions of the indices."""
import io

import z3

from . import engine as E
from .c05 import Key, stubs, sub
from .c22 import holds_map, struct_of
from .engine import B, Hook, I, Rl, SBool, SInt, SReal, Sym, Unsupported, boo, num, simp
from .instr import value_eq
from .vals import AMap, SSeq, Src, SText, text_eq
from .wire import Align, Call, Check, F, Lazy, Rep, T, Wire, attach, make, wire_of

FI = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort())
FII = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort())
FR = lambda n: z3.Function(n, z3.IntSort(), z3.RealSort())
FB = lambda n: z3.Function(n, z3.IntSort(), z3.BoolSort())
FIIB = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
FIII = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
COL = 19
LOG50 = 3.912023005428146


class EName(Sym):
    """type name of the k-th entity"""
    pytypes = (str,)

    def __init__(self, seg, k):
        self.seg, self.k = seg, k

    def startswith(self, s):
        if s == "z_":
            return boo(self.seg.isz(self.k))
        raise Unsupported("prefix of an abstract name")

    def __eq__(self, o):
        if isinstance(o, EName):
            return boo(self.k == o.k)
        if o == "entity":
            return boo(self.seg.isent(self.k))
        return self.differs(o)

    def __ne__(self, o):
        q = self == o
        return boo(z3.Not(B(q)))

    __hash__ = Sym.__hash__


class Scale(Sym):
    """50 to the power e (e real)"""
    pytypes = (float,)

    def __init__(self, e):
        self.e50 = e

    def _no(self, *a):
        raise Unsupported("arithmetic on an abstract scale")

    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = __bool__ = _no

    def __eq__(self, o):
        if isinstance(o, Scale):
            return boo(self.e50 == o.e50)
        self._no()

    __hash__ = Sym.__hash__


def math_stubs(r):
    """logarithm and power base 50 as exact inverse functions on the storable scales"""
    import builtins
    import math

    def log(x, *b):
        if isinstance(x, Scale):
            if b:
                raise Unsupported("log with a base")
            return SReal(simp(x.e50 * z3.RealVal(LOG50.as_integer_ratio()[0]) / z3.RealVal(LOG50.as_integer_ratio()[1])))
        if E.is_sym(x):
            raise Unsupported("log of a symbolic number")
        return math.log(x, *b)

    def power(a, b, *m):
        if isinstance(b, SReal) and not m and a == 50.0:
            return Scale(simp(b.e))
        if E.is_sym(a) or E.is_sym(b):
            raise Unsupported("power of a symbolic number")
        return builtins.pow(a, b, *m)

    r.stub(math.log, log)
    r.stub(builtins.pow, power)
    r.stub(math.pow, power)


def born_obj(cls, **kw):
    E.needs(*[k for k in kw if k == "_next_id"])
    o = object.__new__(cls)
    for k, x in kw.items():
        object.__setattr__(o, k, x)
    return o


class Seg:
    """abstract chunk; which: the sections that may be present"""

    def __init__(self, r, v, which="tpe", mine="tpeh"):
        self.r, self.v, self.which, self.mine = r, v, which, mine
        self.m = r.int("layers", 0, 21).e if "t" in which else z3.IntVal(0)
        self.L, self.n = FI("layer"), FI("tiles_in_layer")
        self.x, self.y, self.shape, self.flags = FII("tx"), FII("ty"), FII("shape"), FII("tflags")
        self.sprite = {a: FII(a) for a in ("set", "tile", "pal")}
        self.eb = {a: FIIB("edge_" + a) for a in ("solid", "visible", "spike")}
        self.ef = FIII("edge_filth")
        self.d = r.int("dusts", 0, 256).e if "t" in which else z3.IntVal(0)
        self.D = FI("dust_tile")
        self.p = r.int("props", 0, 65535).e if "p" in which else z3.IntVal(0)
        self.P = {a: FI("prop_" + a) for a in ("id", "layer", "sub", "scale", "x", "y", "rot", "set", "group", "index", "pal")}
        self.Pb = {a: FB("prop_" + a) for a in ("fx", "fy")}
        self.e = r.int("entities", 0, 65535).e if "e" in which else z3.IntVal(0)
        self.EI = {a: FI("ent_" + a) for a in ("id", "rot", "layer", "filth")}
        self.EB = {a: FB("ent_" + a) for a in ("fx", "fy", "vis")}
        self.EX = {a: FR("ent_" + a) for a in ("x", "y")}
        self.isz, self.isent = FB("name_z"), FB("name_entity")
        self.anyext = z3.Bool("some_extended_name")
        self.memo = {}
        # totals
        for a in ("dust", "surface", "block", "enemy"):
            t = z3.Int("total_" + a)
            setattr(self, a, t)
            r.assume(z3.And(t >= 0, t < 65536))
        if "t" in which:
            r.assume(z3.Implies(self.n(COL) == 0, z3.And(self.dust == 0, self.surface == 0, self.block == 0, self.d == 0)))
            r.assume(z3.And(self.n(COL) >= 0, self.n(COL) <= 256, z3.Implies(self.m == 0, self.n(COL) == 0)))
        else:
            r.assume(z3.And(self.dust == 0, self.surface == 0, self.block == 0))
        r.assume(z3.Implies(self.e == 0, z3.And(self.enemy == 0, z3.Not(self.anyext))))
        self.names_bits = z3.Int("bits_of_names")
        r.assume(z3.And(self.names_bits >= 0, z3.Implies(z3.Not(self.anyext), self.names_bits == 0)))
        nl = (self.names_bits + 7) / 8
        s = Src("extended_names", "bytes")
        r.assume(s.len == nl)
        self.names = SText("bytes", [("s", s, z3.IntVal(0), s.len)])

    # -- elements
    def mem(self, kind, ks, fn):
        key = (kind,) + tuple(simp(k).get_id() for k in ks)
        if key not in self.memo:
            self.memo[key] = (fn(), ks)
        return self.memo[key][0]

    def text12(self, what, l, k):
        def mk():
            s = Src("%s_%d" % (what, len(self.memo)), "bytes")
            self.r.assume(s.len == 12)
            return SText("bytes", [("s", s, z3.IntVal(0), s.len)])

        return self.mem(what, (l, k), mk)

    def layer_facts(self, j):
        r = self.r
        r.assume(z3.And(self.L(j) >= 0, self.L(j) <= 20, self.n(self.L(j)) >= 1, self.n(self.L(j)) <= 256))

    def tile(self, l, k):
        def mk():
            r, v = self.r, self.v
            for f, hi in ((self.x, 15), (self.y, 15), (self.shape, 20), (self.flags, 7), (self.sprite["set"], 7), (self.sprite["tile"], 255), (self.sprite["pal"], 255)):
                r.assume(z3.And(f(l, k) >= 0, f(l, k) <= hi))
            return born_obj(v.tile.Tile, shape=SInt(self.shape(l, k), v.tile.TileShape), tile_flags=SInt(self.flags(l, k)), sprite_set=SInt(self.sprite["set"](l, k), v.tile.TileSpriteSet),
                            sprite_tile=SInt(self.sprite["tile"](l, k)), sprite_palette=SInt(self.sprite["pal"](l, k)), edge_data=self.edges(l, k), _spec=(l, k))

        return self.mem("tile", (l, k), mk)

    def edge(self, l, k, s):
        v = self.v
        self.r.assume(z3.And(self.ef(l, k, s) >= 0, self.ef(l, k, s) <= 15))
        if "s" in self.mine:
            self.r.assume(z3.Implies(self.ef(l, k, s) == 0, z3.Not(self.eb["spike"](l, k, s))))
        return born_obj(v.tile.TileEdgeData, solid=SBool(self.eb["solid"](l, k, s)), visible=SBool(self.eb["visible"](l, k, s)), filth_spike=SBool(self.eb["spike"](l, k, s)),
                        filth_sprite_set=SInt(self.ef(l, k, s), v.tile.TileSpriteSet))

    def e_dust(self, l, k, s):
        return z3.If(z3.And(z3.Not(self.eb["spike"](l, k, s)), self.ef(l, k, s) != 0), 1, 0)

    def e_surf(self, l, k, s):
        return z3.If(z3.And(z3.Not(self.eb["spike"](l, k, s)), self.eb["solid"](l, k, s), self.eb["visible"](l, k, s)), 1, 0)

    def t_dust(self, l, k):
        return z3.Sum([self.e_dust(l, k, z3.IntVal(s)) for s in range(4)])

    def t_surf(self, l, k):
        return z3.Sum([self.e_surf(l, k, z3.IntVal(s)) for s in range(4)])

    def edges(self, l, k):
        return SSeq("edges", z3.IntVal(4), lambda s: self.edge(l, k, s),
                    sums={"dust": (lambda e, s: num(self.e_dust(l, k, I(s))), num(self.t_dust(l, k))), "surface": (lambda e, s: num(self.e_surf(l, k, I(s))), num(self.t_surf(l, k)))})

    def has_filth(self, l, k):
        return z3.Or([self.ef(l, k, z3.IntVal(s)) != 0 for s in range(4)])

    def is_block(self, l, k):
        return z3.Function("is_dustblock", z3.IntSort(), z3.IntSort(), z3.BoolSort())(l, k)

    def record(self, l, k):
        t = self.tile(l, k)
        return (SInt(self.x(l, k)), SInt(self.y(l, k)), t)

    def col(self, l, e):
        return z3.If(l == COL, e, z3.IntVal(0))

    def tile_seq(self, l):
        """the tiles of layer l; sorting only renumbers them"""

        def mk():
            s = SSeq("tiles", self.n(l), lambda k: self.record(l, k), layer=l)
            s.info["sorted"] = lambda key, rev: s
            return s

        return self.mem("tiles", (l,), mk)

    def dust_seq(self):
        if not hasattr(self, "_dusts"):
            def elem(j):
                k = self.dust_index(j)
                return self.record(z3.IntVal(COL), k)

            self._dusts = SSeq("dusts", self.d, elem)
        return self._dusts

    def dust_index(self, j):
        k = self.D(j)
        self.r.assume(z3.And(k >= 0, k < self.n(COL)))
        return k

    def prop(self, k):
        def mk():
            r = self.r
            for a, hi in (("id", (1 << 31) - 1), ("layer", 255), ("sub", 255), ("scale", 55), ("rot", 65535), ("set", 255), ("group", 4095), ("index", 4095), ("pal", 255)):
                r.assume(z3.And(self.P[a](k) >= 0, self.P[a](k) <= hi))
            for a in "xy":
                r.assume(z3.And(self.P[a](k) > -(1 << 27), self.P[a](k) < (1 << 27)))
            g = lambda a: SInt(self.P[a](k))
            return born_obj(self.v.prop.Prop, layer_sub=g("sub"), rotation=g("rot"), flip_x=SBool(self.Pb["fx"](k)), flip_y=SBool(self.Pb["fy"](k)), scale=self.scale(k), prop_set=g("set"),
                            prop_group=g("group"), prop_index=g("index"), palette=g("pal"))

        return self.mem("prop", (k,), mk)

    def scale(self, k):
        return Scale(simp((z3.ToReal(self.P["scale"](k)) - 32) / 24))

    def prop_rec(self, k):
        p = self.prop(k)
        return (SInt(self.P["id"](k)), SInt(self.P["layer"](k)), SReal(z3.ToReal(self.P["x"](k))), SReal(z3.ToReal(self.P["y"](k))), p)

    def ext(self, k):
        return z3.Or(self.isz(k), self.isent(k))

    def vars(self, k):
        def mk():
            n = FI("ent_vars")(k)
            self.r.assume(n >= 0)
            return AMap(SSeq("variables", n, lambda i: (Key(simp(i)), sub(self.v.variable.VariableInt, i))))

        return self.mem("vars", (k,), mk)

    def ent_facts(self, k):
        r = self.r
        for a, hi in (("id", (1 << 31) - 1), ("rot", 65535), ("layer", 255), ("filth", 65535)):
            r.assume(z3.And(self.EI[a](k) >= 0, self.EI[a](k) <= hi))
        r.assume(z3.Not(z3.And(self.isz(k), self.isent(k))))
        r.assume(z3.Implies(self.ext(k), self.anyext))

    def entity(self, k):
        def mk():
            self.ent_facts(k)
            cls = self.enemy_class(k)
            return born_obj(cls, etype=EName(self, k), rotation=SInt(self.EI["rot"](k)), layer=SInt(self.EI["layer"](k)), flip_x=SBool(self.EB["fx"](k)),
                            flip_y=SBool(self.EB["fy"](k)), visible=SBool(self.EB["vis"](k)), variables=self.vars(k))

        return self.mem("entity", (k,), mk)

    def enemy_class(self, k):
        """a class of entity with the filth value of the k-th, or one without filth value"""
        E_ = self.v.entity.Entity
        if "s" in self.mine and not E.fork(FB("is_enemy")(k)):
            self.r.assume(self.EI["filth"](k) == 0)
            return E_
        known = dict(E_._known_types)
        c = type("AnyEnemy", (self.v.entity.Enemy,), {"FILTH": SInt(self.EI["filth"](k))})
        E_._known_types.clear()
        E_._known_types.update(known)
        return c

    def ent_rec(self, k):
        e = self.entity(k)
        return (SInt(self.EI["id"](k)), SReal(self.EX["x"](k)), SReal(self.EX["y"](k)), e)

    # -- stored form
    def own(self, items, tag):
        for it in items:
            if tag not in self.mine:
                it.mine = False
        return items

    def layout(self, mode, sx, sy):
        r, v = self.r, self.v
        w = mode == "w"
        hdr = self.own([F(32, lambda: self.size(), "chunk size"), F(16, 8, "chunk version"), F(8, sx, "chunk x"), F(8, sy, "chunk y")], "h")
        hdr += self.own([F(8, 16, "chunk width"), F(32, 0, "level uid")], "?")
        hdr += self.own([F(16, self.dust, "dust total"), F(16, self.enemy, "enemy total"), F(16, self.surface, "surface total"), F(16, self.block, "dust block total")], "s")
        self.flag_value = z3.If(self.m > 0, 1, 0) + z3.If(self.d > 0, 2, 0) + z3.If(self.e > 0, 4, 0) + z3.If(self.p > 0, 8, 0)
        fl = F(32, self.flag_value, "section flags")
        hdr += [fl]

        def tiles():
            if not E.fork(self.m > 0):
                return []
            return self.own([F(8, self.m, "number of layers"), Rep(self.m, lambda j: layer(j), name="layers", sums=self.layer_sums(), lists={"dusts": (self.layer_dusts, self.dust_seq())} if w else None)], "t")

        def layer(j):
            self.layer_facts(j)
            l = simp(self.L(j))
            return self.own([F(8, l, "layer"), F(10, self.n(l), "number of tiles"),
                             Rep(self.n(l), lambda k: tile(l, k), name="tiles", sums=self.tile_sums(l), lists={"dusts": (lambda e, k: self.tile_dusts(l, I(k)), self.dusts_of(l))} if w else None)], "t")

        def tile(l, k):
            self.tile(l, k)
            return self.own([F(5, self.x(l, k), "tile x"), F(5, self.y(l, k), "tile y"), F(5, self.shape(l, k), "shape"), F(3, self.flags(l, k), "tile flags"), T(self.text12("tile_data", l, k), "tile data")], "t")

        def dusts():
            if not E.fork(self.d > 0):
                return []
            return self.own([F(10, self.d, "number of dust records"), Rep(self.d, dust, name="dusts")], "t")

        def dust(j):
            k = self.dust_index(j)
            c = z3.IntVal(COL)
            self.tile(c, k)
            return self.own([F(5, self.x(c, k), "dust x"), F(5, self.y(c, k), "dust y"), T(self.text12("dust_data", c, k), "dust data")], "t")

        def props():
            if not E.fork(self.p > 0):
                return []
            return self.own([F(16, self.p, "number of props"), Rep(self.p, prop, name="props")], "p")

        def prop(k):
            self.prop(k)
            g = lambda a: self.P[a](k)
            neg = lambda a: z3.If(g(a) < 0, 1, 0)
            ab = lambda a: z3.If(g(a) < 0, -g(a), g(a))
            flip4 = lambda e: z3.If(e < 4, e + 4, e - 4)
            return self.own([F(32, g("id"), "prop id"), F(8, g("layer"), "prop layer"), F(8, g("sub"), "prop sublayer"), F(1, neg("x"), "prop x sign"), F(27, ab("x"), "prop x"),
                             F(4, flip4(g("scale") / 7), "prop scale (high)"), F(1, neg("y"), "prop y sign"), F(27, ab("y"), "prop y"), F(4, flip4(g("scale") % 7), "prop scale (low)"),
                             F(16, g("rot"), "prop rotation"), F(1, z3.If(self.Pb["fx"](k), 1, 0), "prop flip x"), F(1, z3.If(self.Pb["fy"](k), 1, 0), "prop flip y"), F(8, g("set"), "prop set"),
                             F(12, g("group"), "prop group"), F(12, g("index"), "prop index"), F(8, g("pal"), "prop palette")], "p")

        def ents():
            if not E.fork(self.e > 0):
                return []
            self.names_at = None
            out = [F(16, self.e, "number of entities"),
                   Rep(self.e, ent, name="entities", sums={"filth": (lambda e, k: num(self.EI["filth"](I(k))), num(self.enemy))}, flags={"extended names": (lambda e, k: self.ext(I(k)), self.anyext)},
                       lists={"entities": (lambda e, k: [self.raw(I(k))], SSeq("stored entities", self.e, lambda k: self.raw(k)))} if not w else None)]
            if w:
                out += [T(self.names, "extended names"), Align(), F(32, lambda: self.tail_size(), "position of the names")]
            else:
                out += [Rep(self.e, name, name="names", bits=self.names_bits), Gap(simp(8 * ((self.names_bits + 7) / 8) - self.names_bits)), Align(), F(32, lambda: self.tail_size(), "position of the names")]
            return self.own(out, "e")

        def ent(k):
            self.entity(k)
            nm = Check(lambda a: r.oblige("entity type name as stored", B(value_eq(a, "entity")) if self.forked(self.ext(k)) else isinstance(a, EName) and B(a == EName(self, k))))
            st = lambda: "entity" if self.forked(self.ext(k)) else EName(self, k)
            fl = lambda a, z: z3.If(self.EB[a](k), 1 - z, z)
            x, y = SReal(self.EX["x"](k)), SReal(self.EX["y"](k))
            return self.own([F(32, self.EI["id"](k), "entity id"), Call("str6", nm) if w else Call("str6", result=st)]
                            + ([Call("float", 32, 8, x), Call("float", 32, 8, y)] if w else [Call("float", 32, 8, result=x), Call("float", 32, 8, result=y)])
                            + [F(16, self.EI["rot"](k), "entity rotation"), F(8, self.EI["layer"](k), "entity layer"), F(1, fl("fx", 1), "entity flip x"), F(1, fl("fy", 1), "entity flip y"), F(1, fl("vis", 0), "visible"),
                               Call("variable", holds_map(r, v, self.vars(k))) if w else Call("variable", v.variable.VariableType.STRUCT, result=lambda: struct_of(v, self.vars(k)))], "e")

        def name(k):
            self.ent_facts(k)
            if self.forked(self.ext(k)):
                return self.own([Call("str6", result=EName(self, k))], "e")
            return []

        return hdr + [Lazy(tiles), Lazy(dusts), Lazy(props), Lazy(ents), Align()]

    def forked(self, c):
        return E.fork(c)

    def raw(self, k):
        """an entity as the reader collects it before naming it"""
        self.ent_facts(k)
        nm = "entity" if self.forked(self.ext(k)) else EName(self, k)
        return (nm, SReal(self.EX["x"](k)), SReal(self.EX["y"](k)), (self.vars(k), SInt(self.EI["rot"](k)), SInt(self.EI["layer"](k)), SBool(self.EB["fx"](k)), SBool(self.EB["fy"](k)), SBool(self.EB["vis"](k))),
                SInt(self.EI["id"](k)))

    def tile_sums(self, l):
        c = lambda e: num(self.col(l, e))
        return {"dust": (lambda e, k: c(self.t_dust(l, I(k))), c(self.dust)), "surface": (lambda e, k: c(self.t_surf(l, I(k))), c(self.surface)),
                "block": (lambda e, k: c(z3.If(self.is_block(l, I(k)), 1, 0)), c(self.block))}

    def layer_sums(self):
        return {a: (lambda e, j, a=a: num(self.col(self.L(I(j)), getattr(self, a))), num(getattr(self, a))) for a in ("dust", "surface", "block")}

    def tile_dusts(self, l, k):
        if E.fork(z3.And(l == COL, self.has_filth(l, k))):
            return [self.record(l, k)]
        return []

    def layer_dusts(self, e, j):
        l = self.L(I(j))
        return [self.dusts_of(simp(l))]

    def dusts_of(self, l):
        """the filth tiles found in layer l"""

        def mk():
            def elem(j):
                k = self.dust_index(j)
                return self.record(z3.IntVal(COL), k)

            return SSeq("dusts of a layer", z3.If(l == COL, self.d, 0), elem)

        return self.mem("dusts", (l,), mk)

    def size(self):
        w = self.wire
        return simp((w.end() - w.start) / 8)

    def tail_size(self):
        """distance from the extended names to the field that holds it"""
        w = self.wire
        i = next(i for i, it in enumerate(w.items) if it.name == "position of the names")
        w.fill(i)
        j = next(j for j, it in enumerate(w.items) if it.name in ("extended names", "names"))
        return simp(w.starts[i] - w.starts[j])

    # -- replay
    def case(self, vals):
        from random import Random

        from ..gen import Gen

        g = Gen(Random(vals.get("layers", 0) * 7 + vals.get("entities", 0)))
        t = [[ly, x, y, g.tile(ly == 19)] for ly in (3, 19, 20) for x in range(-2, 20) for y in (-1, 0, 15)]
        p = [[200 + i, i % 20, float(1000 * i - 3000), float(17 * i), g.prop()] for i in range(8)]
        e = [[300 + i, 48.5 * i, -7.25 * i, dict(g.ent(["AI_controller", "entity", "z_thing", "foo"], 1))] for i in range(8)]
        return {"sshot": "", "vars": [], "tiles": t if "t" in self.which else [], "props": p if "p" in self.which else [], "entities": e if "e" in self.which else [], "backdrop": {"tiles": t[:9], "props": []}}


class Gap(F):
    """bits that carry nothing"""

    def __init__(self, n):
        F.__init__(self, n, 0, "padding")

    def bits(self):
        return self.width


class Layers(Sym):
    """segment.tiles: one list per layer (lists above the last layer are empty)"""
    pytypes = (list,)

    def __init__(self, seg):
        self.seg = seg

    def __getitem__(self, i):
        if not isinstance(i, (int, SInt)):
            raise Unsupported("slice of the layers")
        return self.seg.tile_seq(simp(I(i)))

    def slen(self):
        return 256

    def as_seq(self):
        seg = self.seg
        return SSeq("layer lists", z3.IntVal(256), lambda k: (seg.num_facts(k), seg.tile_seq(simp(k)))[1], lists=seg.picks())

    def __iter__(self):
        raise Unsupported("iteration over the layers")


def segment_obj(seg):
    """the segment as the writer gets it"""
    v = seg.v
    s = born_obj(v.dfwriter._LevelSegment)
    props = SSeq("props", seg.p, seg.prop_rec)
    ents = SSeq("entities", seg.e, seg.ent_rec)
    for q in (props, ents):
        q.info["sorted"] = lambda key, rev, q=q: q
    for a, x in (("tiles", Layers(seg)), ("props", props), ("entities", ents), ("present", True)):
        object.__setattr__(s, a, x)
    return s


def tile_stubs(r, v, seg):
    Tl = v.tile.Tile

    def spec(t):
        s = getattr(t, "_spec", None)
        if s is None:
            raise Unsupported("tile of another origin")
        return s

    r.stub(Tl._pack_tile_data, lambda t: seg.text12("tile_data", *spec(t)))
    r.stub(Tl._pack_dust_data, lambda t: seg.text12("dust_data", *spec(t)))
    r.stub(Tl.has_filth, lambda t: boo(seg.has_filth(*spec(t))))
    r.stub(Tl.is_dustblock, lambda t: boo(seg.is_block(*spec(t))))


def names_writer(r, v, seg):
    """the separate stream of extended names"""

    class Buf(Sym):
        pytypes = (object,)

        def getvalue(self):
            w = self.wire
            r.oblige("the extended names are complete", w.cur >= len(w.items))
            r.oblige("the extended names are flushed", w.pos % 8 == 0)
            return seg.names

        def close(self):
            pass

    def names(k):
        seg.ent_facts(k)
        if seg.forked(seg.ext(k)):
            return [Call("str6", Check(lambda a: r.oblige("extended entity name", isinstance(a, EName) and B(a == EName(seg, k)))))]
        return []

    r.stub(io.BytesIO, lambda *a: Buf())

    def writer(data, noclose=False):
        if not isinstance(data, Buf):
            raise Unsupported("a writer on something else")
        data.wire = Wire([Rep(seg.e, names, name="extended names", bits=seg.names_bits)], start=0, name="extended names")
        return make(v.dfwriter.DFWriter, data.wire, data)

    r.stub(v.dfwriter.DFWriter, writer)


def write_group(which, mine, extra=""):
    def fn(r, v):
        stubs(r, v)
        math_stubs(r)
        seg = Seg(r, v, which, mine + "h")
        r.data["case"] = seg.case
        tile_stubs(r, v, seg)
        names_writer(r, v, seg)
        r.stub(range, seg_range(seg))
        sx, sy = r.int("sx", 0, 15), r.int("sy", 0, 15)
        p0 = r.int("start", 0).e
        r.assume(p0 % 8 == 0)
        w = seg.wire = Wire(seg.layout("w", sx.e, sy.e), start=p0, name="chunk")
        r.assume(seg.size() < (1 << 29))
        v.dfwriter.DFWriter._write_segment(make(v.dfwriter.DFWriter, w), sx, sy, segment_obj(seg))
        w.finish()

    return fn


def seg_range(seg):
    """range over the layer numbers: a sequence of 21 (or more) numbers from which non-empty layers are picked"""
    from .instr import sh_range

    def f(*a):
        hi = a[0] if len(a) == 1 else a[1] if len(a) == 2 and a[0] == 0 else None
        if type(hi) is int and hi > 8:
            return SSeq("layer numbers", z3.IntVal(hi), lambda k: (seg.num_facts(k), SInt(k))[1], lists=seg.picks() if hi >= 21 else {})
        return sh_range(*a)

    return f


def num_facts(self, k):
    self.r.assume(z3.Implies(k > 20, self.n(k) == 0))
    self.r.assume(z3.And(self.n(k) >= 0, self.n(k) <= 256))
    self.r.assume(z3.Implies(self.m == 0, self.n(k) == 0))


def picks(self):
    """what a loop over the layers that keeps the non-empty ones collects, in ascending order"""
    picked = SSeq("layers", self.m, lambda j: (SInt(self.L(j)), self.tile_seq(simp(self.L(j)))))
    return {"layers": (lambda e, k: self.pick(I(k)), picked)}


def pick(self, k):
    if E.fork(self.n(k) > 0):
        return [(SInt(k), self.tile_seq(simp(k)))]
    return []


Seg.pick, Seg.picks, Seg.num_facts = pick, picks, num_facts


# ---------------------------------------------------------------------------------------------- reader
class Sink(Sym, Hook):
    """level.tiles while a chunk is read: records what each record of the chunk adds"""
    pytypes = (dict,)

    def __init__(self, seg, xo, yo):
        self.seg, self.xo, self.yo = seg, xo, yo
        self.log, self.dust = [], []
        self.done = set()
        seg.r.hooks.append(self)

    def __setitem__(self, key, t):
        self.log.append((key, t))

    def setdefault(self, *a):
        raise Unsupported("setdefault on the tiles")

    def get(self, key, d=None):
        r, seg = self.seg.r, self.seg
        for lp in reversed(r.loops):
            rep = lp.wires.get(id(seg.wire)) if hasattr(lp, "wires") else None
            if rep is not None and rep.name == "dusts":
                k = seg.dust_index(lp.k)
                c = z3.IntVal(COL)
                want = z3.And(I(key[0]) == COL, I(key[1]) == self.xo + seg.x(c, k), I(key[2]) == self.yo + seg.y(c, k))
                if "t" in seg.mine:
                    r.oblige("a dust record belongs to the tile at its position", want)
                t = born_obj(seg.v.tile.Tile, _dust=k)
                return t
        raise Unsupported("lookup of a tile")

    def __getitem__(self, key):
        return self.get(key)

    def __contains__(self, key):
        self.get(key)
        return True

    def loop_tail(self, lp):
        r, seg = self.seg.r, self.seg
        rep = lp.wires.get(id(seg.wire)) if hasattr(lp, "wires") else None
        if rep is not None and rep.name == "tiles" and "t" in seg.mine:
            up = [x for x in r.loops if x is not lp and getattr(x, "wires", {}).get(id(seg.wire)) is not None]
            l = simp(seg.L(up[-1].k))
            r.oblige("every tile record adds exactly one tile", len(self.log) == 1)
            (key, t), = self.log
            if not (isinstance(key, tuple) and len(key) == 3):
                raise Unsupported("another form of key")
            r.oblige("a tile is put on its layer", I(key[0]) == l)
            r.oblige("a tile is put at its position", z3.And(I(key[1]) == self.xo + seg.x(l, lp.k), I(key[2]) == self.yo + seg.y(l, lp.k)))
            r.oblige("shape of a tile", I(t.shape) == seg.shape(l, lp.k))
            r.oblige("flags of a tile", I(t.tile_flags) == seg.flags(l, lp.k))
            r.oblige("the shape is a tile shape", isinstance(t.shape, seg.v.tile.TileShape) or getattr(t.shape, "enum", None) is seg.v.tile.TileShape)
            r.oblige("surface data of a tile", text_eq(getattr(t, "_packed", b""), seg.text12("tile_data", l, lp.k)))
        elif rep is not None and rep.name == "tiles":
            pass
        elif "t" in seg.mine:
            r.oblige("only tile records add tiles", not self.log)
        if rep is not None and rep.name == "dusts" and "t" in seg.mine:
            r.oblige("every dust record is unpacked into its tile", len(self.dust) == 1)
            (t, data), = self.dust
            k = seg.dust_index(lp.k)
            r.oblige("dust goes to the tile of its record", getattr(t, "_dust", None) is not None and B(t._dust == k))
            r.oblige("dust data", text_eq(data, seg.text12("dust_data", z3.IntVal(COL), k)))
        elif "t" in seg.mine:
            r.oblige("only dust records add dust", not self.dust)
        self.log, self.dust = [], []

    def loop_exit(self, lp):
        rep = lp.wires.get(id(self.seg.wire)) if hasattr(lp, "wires") else None
        if rep is not None:
            self.done.add(rep.name)


class Store(Sym):
    """level.props / level.entities while a chunk is read"""
    pytypes = (dict,)

    def __init__(self, name):
        self.name, self.popped = name, []

    def pop(self, k, *d):
        self.popped.append(k)
        return d[0] if d else None

    def __contains__(self, k):
        return False

    def __setitem__(self, k, x):
        raise Unsupported("direct insertion")


class Adds(Hook):
    """what add_prop / add_entity are called with"""

    def __init__(self, seg, level, props, ents):
        self.seg, self.level, self.props, self.ents = seg, level, props, ents
        self.log = []
        self.order = []
        seg.r.hooks.append(self)

    def loop_tail(self, lp):
        r, seg = self.seg.r, self.seg
        rep = lp.wires.get(id(seg.wire)) if hasattr(lp, "wires") else None
        nm = rep.name if rep is not None else getattr(lp.seq, "name", "")
        k = lp.k
        if nm == "props" and "p" in seg.mine:
            r.oblige("every prop record adds exactly one prop", len(self.log) == 1 and self.log[0][0] == "prop")
            _, args = self.log[0]
            layer, x, y, p, idn = args
            want = seg.prop_rec(k)
            r.oblige("prop id", I(idn) == I(want[0]))
            r.oblige("prop layer", I(layer) == I(want[1]))
            r.oblige("prop position", z3.And(Rl(x) == Rl(want[2]), Rl(y) == Rl(want[3])))
            q = want[4]
            for a in ("layer_sub", "rotation", "prop_set", "prop_group", "prop_index", "palette"):
                r.oblige("prop " + a, I(getattr(p, a)) == I(getattr(q, a)))
            for a in ("flip_x", "flip_y"):
                r.oblige("prop " + a, B(getattr(p, a)) == B(getattr(q, a)))
            if not isinstance(p.scale, Scale):
                raise Unsupported("scale of another form")
            r.oblige("prop scale", p.scale.e50 == q.scale.e50)
            for i in self.props.popped:
                r.oblige("no other prop is removed", I(i) == I(want[0]))
        elif nm in ("stored entities", "names") and "e" in seg.mine and not self.log:
            d = lp.info.hookdata
            if d.get("adds entities"):
                r.oblige("no stored entity is skipped", False)
            elif r.feasible():
                d["silent"] = True
        elif nm in ("stored entities", "names") and "e" in seg.mine:
            r.oblige("no stored entity is skipped", not lp.info.hookdata.get("silent"))
            r.oblige("every stored entity is added exactly once", len(self.log) == 1 and self.log[0][0] == "entity")
            _, args = self.log[0]
            x, y, e, idn = args
            r.oblige("entity id", I(idn) == seg.EI["id"](k))
            r.oblige("entity position", z3.And(Rl(x) == seg.EX["x"](k), Rl(y) == seg.EX["y"](k)))
            if not isinstance(e, EntRec):
                raise Unsupported("entity made otherwise")
            if E.fork(seg.isent(k)):
                r.oblige("entity type name", value_eq(e.etype, "entity") if isinstance(e.etype, str) else B(e.etype == EName(seg, k)))
            else:
                r.oblige("entity type name", isinstance(e.etype, EName) and B(e.etype == EName(seg, k)))
            va, rot, layer, fx, fy, vis = e.args
            r.oblige("entity variables", isinstance(va, AMap) and va.seq is seg.vars(k).seq)
            r.oblige("entity rotation and layer", z3.And(I(rot) == seg.EI["rot"](k), I(layer) == seg.EI["layer"](k)))
            r.oblige("entity flips and visibility", z3.And(B(fx) == seg.EB["fx"](k), B(fy) == seg.EB["fy"](k), B(vis) == seg.EB["vis"](k)))
            for i in self.ents.popped:
                r.oblige("no other entity is removed", I(i) == seg.EI["id"](k))
            lp.info.hookdata["adds entities"] = True
        elif "p" in seg.mine or "e" in seg.mine:
            if (nm != "props" or "p" in seg.mine) and nm not in ("stored entities", "names"):
                r.oblige("nothing else adds props or entities", not self.log)
        if nm == "entities":
            pass
        self.log = []
        self.props.popped, self.ents.popped = [], []

    def loop_exit(self, lp):
        rep = lp.wires.get(id(self.seg.wire)) if hasattr(lp, "wires") else None
        if lp.info.hookdata.get("adds entities"):
            self.order.append("entities")
        if rep is not None and rep.name == "props":
            self.order.append("props")


class EntRec(Sym):
    """an entity made by Entity._from_raw"""

    def __init__(self, etype, args):
        self.etype, self.args = etype, args


def read_group(which, mine):
    def fn(r, v):
        stubs(r, v)
        math_stubs(r)
        seg = Seg(r, v, which, mine + "h")
        r.data["case"] = seg.case
        Tl = v.tile.Tile
        xo, yo = r.int("xoffset"), r.int("yoffset")
        sx, sy = r.int("sx", 0, 15), r.int("sy", 0, 15)
        p0 = r.int("start", 0).e
        r.assume(p0 % 8 == 0)
        w = seg.wire = Wire(seg.layout("r", sx.e, sy.e), start=p0, name="chunk", mode="r")
        r.assume(z3.And(seg.size() < (1 << 29)))
        sink = Sink(seg, simp(xo.e + 16 * sx.e), simp(yo.e + 16 * sy.e))
        props, ents = Store("props"), Store("entities")
        level = born_obj(v.level.Level)
        for a, x in (("tiles", sink), ("props", props), ("entities", ents), ("variables", {}), ("_next_id", 100), ("parent", None), ("backdrop", None)):
            object.__setattr__(level, a, x)
        adds = Adds(seg, level, props, ents)

        def unpack_tile(t, data):
            object.__setattr__(t, "_packed", data)

        def unpack_dust(t, data):
            sink.dust.append((t, data))

        def add_prop(lv, layer, x, y, p, id_num=None):
            if lv is not level:
                raise Unsupported("another level")
            adds.log.append(("prop", (layer, x, y, p, id_num)))
            return id_num

        def add_entity(lv, x, y, e, id_num=None):
            if lv is not level:
                raise Unsupported("another level")
            adds.log.append(("entity", (x, y, e, id_num)))
            return id_num

        r.stub(Tl._unpack_tile_data, unpack_tile)
        r.stub(Tl._unpack_dust_data, unpack_dust)
        r.stub(v.level.Level.add_prop, add_prop)
        r.stub(v.level.Level.add_entity, add_entity)
        r.stub(v.entity.Entity._from_raw, lambda cls, etype, *a: EntRec(etype, a))
        v.dfreader.DFReader.read_segment(make(v.dfreader.DFReader, w), level, xo, yo)
        if "t" in mine:
            r.oblige("all tile records are read", z3.Or(self_done(sink, "layers"), seg.m == 0))
            r.oblige("all dust records are read", z3.Or(self_done(sink, "dusts"), seg.d == 0))
        if "p" in mine:
            r.oblige("all props are read", z3.Or(z3.BoolVal("props" in adds.order), seg.p == 0))
        if "e" in mine:
            r.oblige("all entities are read", z3.Or(z3.BoolVal("entities" in adds.order), seg.e == 0))
            r.oblige("entities are added once", adds.order.count("entities") <= 1)
        r.oblige("the reader ends at the end of the chunk", w.pos == w.end())

    return fn


def self_done(sink, name):
    return z3.BoolVal(name in sink.done)
