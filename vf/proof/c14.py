"""C14: level transforms.  Prop.transform, Entity.transform and its overrides for every symmetry, scale and translation; Level.transform and Level.upscale for any contents; the shorthands."""
import z3

from ..geom import SYM, ap, det, mul
from ..refcodec import blank_edge
from ..rt.c14 import H, HITTABLE, POSITION_KEYS, R, V
from . import engine as E
from .common import ENGINE
from .engine import B, Hook, I, Poison, Rl, SBool, SInt, SReal, Sym, Unsupported, boo, num, simp
from .segment import born_obj
from .vals import SSeq, TDict, as_seq

FUNCTIONS = ["prop.Prop.transform", "entity.Entity.transform and its six overrides", "level.Level.transform", "level.Level.upscale", "level.Level.flip_horizontal", "level.Level.flip_vertical", "level.Level.rotate", "level.Level.translate",
             "transform.TxMatrix.sample/angle/flipped/scale/__mul__/translate"]
ASSUMPTIONS = ["floats are exact reals; math.atan2 is exact on the axes, math.sqrt on squares", "scale factors are positive integers, translations of tiles whole tiles",
               "entity and start-position accessors behave as plain attributes and lists (C20)", "Tile.transform by its contract (C12), Tile.upscale by its contract (C13)",
               "dicts have distinct keys and visit every key once (CPython)", "a tile, prop or entity object is in the level once"]
TRUSTED = ENGINE


# ------------------------------------------------------------------------------------------------ matrices and cases
def matrix(r, v, gi, flt, tile=True):
    """n * g followed by the translation (48a, 48b) (whole tiles) or any (reals)"""
    g = SYM[gi]
    n = r.int("n", 1)
    if tile:
        a, b = r.int("a"), r.int("b")
        d = (48 * a, 48 * b)
    else:
        a = b = None
        d = (r.real("dx"), r.real("dy"))
    k = SReal(Rl(n)) if flt else n
    if flt and tile:
        d = (SReal(Rl(d[0])), SReal(Rl(d[1])))
    m = v.transform.TxMatrix(((g[0] * k, g[1] * k, d[0]), (g[2] * k, g[3] * k, d[1]), (0, 0, 1)))
    return m, n, a, b, d


def point(gi, n, d, p, offset=True):
    """image of the point p (z3 reals)"""
    g = SYM[gi]
    N, x, y = Rl(n), Rl(p[0]), Rl(p[1])
    u, w = [N * (x if c == 1 else -x) if c else N * (y if e == 1 else -y) for c, e in ((g[0], g[1]), (g[2], g[3]))]
    return (u + Rl(d[0]), w + Rl(d[1])) if offset else (u, w)


def tile_at(gi, n, a, b, x, y):
    """top left tile of the image block"""
    g = SYM[gi]
    out = []
    for (c, e), t in (((g[0], g[1]), a), ((g[2], g[3]), b)):
        z = x if c else y
        s = c or e
        out.append(I(n) * (z if s == 1 else -z - 1) + I(t))
    return out


def small(x, lim):
    return max(-lim, min(lim, int(x)))


def model_tile():
    e = blank_edge()
    f = dict(e, solid=True, visible=True, caps=[True, False], angles=[5, -7])
    return {"shape": 1, "flags": 4, "set": 1, "tile": 2, "pal": 3, "edges": [dict(f), dict(e), dict(f, angles=[1, 2]), dict(e)]}


def a_prop(rot=0x1000, fx=False, fy=True):
    return {"layer_sub": 3, "rot": rot, "fx": fx, "fy": fy, "scale": 1.0, "set": 1, "group": 2, "index": 3, "pal": 4}


def an_ent(t, vs, rot=0x1000, fx=False, fy=True):
    return {"etype": t, "vars": vs, "rot": rot, "layer": 18, "fx": fx, "fy": fy, "vis": True}


def all_vars(t):
    vec = lambda x, y: ["vec2", [x, y]]
    if t in ("AI_controller", "check_point", "level_end_prox"):
        return [[POSITION_KEYS[t][0], ["array", ["vec2", [vec(10.0, 20.5), vec(-96.0, 48.0), vec(0.0, 7.0)]]]]]
    if t in ("kill_box", "entity_emitter", "base_trigger"):
        return [["width", ["int", 30]], ["height", ["int", 70]]]
    if t == "camera_node":
        return [["zoom_h", ["int", 1001]], ["width", ["int", 333]]]
    if t == "enemy_key":
        return [["lastKnowX", ["float", 12.0]], ["lastKnowY", ["float", -7.5]], ["dm_scale", ["float", 1.5]]]
    if t in HITTABLE:
        return [["dm_scale", ["float", 1.5]]]
    return [["width", ["int", 9]]]


def level_model(vals, ents=(), prop=None):
    x, y = small(vals.get("tx", 2), 3000), small(vals.get("ty", -3), 3000)
    f = lambda k, z: float(int(vals.get(k, z))) if abs(vals.get(k, z)) < 1e6 else float(z)
    return {"sshot": "abc", "vars": [["p1_x", ["int", 11]], ["p1_y", ["int", -24]], ["p2_x", ["int", 5]], ["p3_y", ["int", 7]], ["p4_x", ["int", 3]], ["keep", ["string", "me"]]],
            "tiles": [[19, x, y, model_tile()], [19, x + 1, y, model_tile()], [18, x, y + 1, model_tile()], [0, x, y, model_tile()], [20, x, y, model_tile()], [7, x, y, model_tile()], [19, -x, 0, model_tile()]],
            "entities": [[7 + i, f("ex", 10), f("ey", -20), e] for i, e in enumerate(ents)] or [[7, f("ex", 10), f("ey", -20), an_ent("some_thing", [])]],
            "props": [[3, 17, f("px", 33), f("py", -41), prop or a_prop()]],
            "backdrop": {"tiles": [[19, 1, -2, model_tile()]], "props": [[50, 2, 8.0, 9.0, a_prop()]]}}


def ops_for(vals, gi, flt):
    n, a, b = small(vals.get("n", 1), 3), small(vals.get("a", 0), 400), small(vals.get("b", 0), 400)
    n = max(1, n)
    if n == 1:
        return [["m", gi, 48 * a, 48 * b, flt]]
    return [["um", n, gi, 48 * a, 48 * b]]


# ------------------------------------------------------------------------------------------------ orientation
def oriented(r, gi, old, new):
    g = SYM[gi]
    ox, oy, o = old
    nx, ny, q = new
    r.oblige("rotation is an integer from 0 to 65535", isinstance(q, (int, SInt)) and z3.And(I(q) >= 0, I(q) < 0x10000))
    fx = boo(B(nx) != B(ox))
    fy = boo(B(ny) != B(oy))
    if det(g) > 0:
        r.oblige("a rotation keeps the flip flags", z3.And(z3.Not(B(fx)), z3.Not(B(fy))))
        r.oblige("a quarter turn adds a quarter turn", (I(q) - I(o) - 0x4000 * R.index(g)) % 0x10000 == 0)
    else:
        r.oblige("a reflection toggles exactly one flip flag", B(fx) != B(fy))
        r.oblige("a reflection reverses the sense of rotation", (I(q) + I(o) - (0 if g in (H, V) else 0x4000)) % 0x8000 == 0)


def norm(o):
    fx, fy, q = o
    return B(fx) != B(fy), (I(q) + z3.If(B(fx), z3.IntVal(0x8000), z3.IntVal(0))) % 0x10000


PROP = ("layer_sub", "scale", "prop_set", "prop_group", "prop_index", "palette")


def mk_prop(r, v, rot, fx, fy):
    return v.prop.Prop(r.int("sub", 0, 255), rot, fx, fy, r.real("scale"), r.int("set", 0, 15), r.int("group", 0, 15), r.int("index", 0, 255), r.int("palette", 0, 255))


def mk_ent(r, v, rot, fx, fy, cls=None, etype="some_thing", **kw):
    return born_obj(cls or v.entity.Entity, variables=Poison("variables"), etype=etype, rotation=rot, layer=r.int("entity layer", 0, 255), flip_x=fx, flip_y=fy, visible=r.bool("visible"), **kw)


def state(o):
    return o.flip_x, o.flip_y, o.rotation


def start(r):
    return r.bool("fx"), r.bool("fy"), r.int("rot", 0, 0xFFFF)


def ocase(gi, flt, etype=None):
    def f(vals):
        q, fx, fy = vals.get("rot", 0), bool(vals.get("fx", False)), bool(vals.get("fy", False))
        e = an_ent(etype or "some_thing", all_vars(etype) if etype else [], q, fx, fy)
        return {"m": level_model(vals, [e], a_prop(q, fx, fy)), "ops": ops_for(vals, gi, flt), "order": 0}

    return f


def prop_orient(r, v):
    gi, flt = r.choose(8), bool(r.choose(2))
    r.data["case"] = ocase(gi, flt)
    m, n, a, b, d = matrix(r, v, gi, flt)
    fx, fy, q = start(r)
    p = mk_prop(r, v, q, fx, fy)
    old = [getattr(p, k) for k in PROP]
    p.transform(m)
    oriented(r, gi, (fx, fy, q), state(p))
    for k, x in zip(PROP, old):
        r.oblige("other attributes of a prop are kept", getattr(p, k) is x or Rl(getattr(p, k)) == Rl(x))


def compose(what):
    def fn(r, v):
        gi, hi = divmod(r.choose(64), 8)
        hg = SYM.index(mul(SYM[hi], SYM[gi]))
        fx, fy, q = start(r)
        mk = mk_prop if what == "prop" else mk_ent
        A, B_ = mk(r, v, q, fx, fy), mk(r, v, q, fx, fy)
        T = v.transform.TxMatrix
        n1, n2 = r.int("n"), r.int("n2")
        r.assume(z3.And(n1.e >= 1, n2.e >= 1))
        M = lambda i, n: T(((SYM[i][0] * n, SYM[i][1] * n, 0), (SYM[i][2] * n, SYM[i][3] * n, 0), (0, 0, 1)))
        r.data["case"] = lambda vals: {"m": level_model(vals, [an_ent("some_thing", [], vals.get("rot", 0), bool(vals.get("fx", False)), bool(vals.get("fy", False)))], a_prop(vals.get("rot", 0), bool(vals.get("fx", False)), bool(vals.get("fy", False)))),
                                       "ops": [["m", gi, 0, 0, False], ["m", hi, 0, 0, False]], "order": 0}
        A.transform(M(gi, n1))
        A.transform(M(hi, n2))
        B_.transform(M(hg, n1))
        x, y = norm(state(A)), norm(state(B_))
        r.oblige("transforming twice turns a %s as the composition does" % what, z3.And(x[0] == y[0], x[1] == y[1]))

    return fn


# ------------------------------------------------------------------------------------------------ data of entities
class Points(Sym, Hook):
    """the list of points a bound array accessor gives (contract: C20)"""
    pytypes = (list,)

    def __init__(self, r, image):
        self.r, self.image = r, image
        self.n = r.int("points", 0).e
        self.x, self.y = [z3.Function("point " + c, z3.IntSort(), z3.RealSort()) for c in "xy"]
        self.sets, self.done, self.written = [], 0, False
        r.hooks.append(self)

    def at(self, k):
        return SReal(self.x(k)), SReal(self.y(k))

    def want(self, k):
        a, b = self.image(self.at(k))
        return num(a), num(b)

    def as_seq(self):
        if self.written:
            raise Unsupported("points read after they were written")
        s = SSeq("points", self.n, self.at)
        s.info["lists"] = {"moved": (lambda e, k: [self.want(I(k))], SSeq("moved points", self.n, self.want))}
        return s

    def slen(self):
        return num(self.n)

    def __bool__(self):
        return E.fork(self.n > 0)

    def __getitem__(self, i):
        if isinstance(i, slice) or self.written:
            raise Unsupported("points read otherwise")
        if not self.r.entails(z3.And(I(i) >= 0, I(i) < self.n)):
            raise Unsupported("index")
        for j, _v in self.sets:
            if not self.r.entails(j != I(i)):
                raise Unsupported("a moved point is read")
        return self.at(I(i))

    def __setitem__(self, i, x):
        if not self.r.loops or isinstance(i, slice):
            raise Unsupported("points written otherwise")
        self.sets.append((I(i), x))

    def same(self, x, k):
        w = self.want(k)
        if not isinstance(x, (tuple, list)) or len(x) != 2:
            return False
        return z3.And(Rl(x[0]) == Rl(w[0]), Rl(x[1]) == Rl(w[1]))

    def loop_tail(self, lp):
        d = lp.info.hookdata
        if self.sets or d.get("points"):
            d["points"] = True
            self.r.oblige("each point is moved once", len(self.sets) == 1)
            i, x = self.sets[0]
            self.r.oblige("every point stays in its place in the list", i == lp.k)
            self.r.oblige("a point goes to its image", self.same(x, lp.k))
        else:
            d["points skipped"] = True
        self.sets = []

    def loop_exit(self, lp):
        d = lp.info.hookdata
        if d.get("points"):
            self.r.oblige("no point is skipped", not d.get("points skipped"))
            self.r.oblige("all points are visited", lp.seq.length == self.n)
            self.done += 1
            self.written = True

    def final(self, cur):
        r = self.r
        if cur is self:
            r.oblige("the points are moved once", z3.Or(z3.BoolVal(self.done == 1), self.n == 0) if self.done <= 1 else False)
            return
        s = as_seq(cur)
        if s is None:
            if not isinstance(cur, list):
                raise Unsupported("points of another form")
            r.oblige("no point is lost", self.n == len(cur))
            for i, x in enumerate(cur):
                r.oblige("a point goes to its image", self.same(x, z3.IntVal(i)))
            return
        r.oblige("no point is lost", s.length == self.n)
        k = r.int("any point", 0).e
        r.assume(k < self.n)
        r.oblige("a point goes to its image", self.same(s.elem(k), k))


def classes(v):
    """(class, etype, representative of its kind)"""
    Ent = v.entity.Entity
    seen = {}
    for c in vars(v.entity).values():
        if isinstance(c, type) and issubclass(c, Ent):
            t = vars(c).get("TYPE_IDENTIFIER") or ("some_thing" if c is Ent else None)
            if t is None:
                continue
            rule = t if t in POSITION_KEYS else "hittable" if t in HITTABLE else ""
            seen.setdefault((c.transform, rule), (c, t, rule))
    return list(seen.values())


def rules(r, v):
    """every known type has the rule of its kind: each class is an instance of one that is proved"""
    Ent = v.entity.Entity
    ts = {t: c for c in vars(v.entity).values() if isinstance(c, type) and issubclass(c, Ent) for t in [vars(c).get("TYPE_IDENTIFIER")] if t}
    for t in list(POSITION_KEYS) + HITTABLE:
        r.data["case"] = lambda vals, t=t: {"m": level_model(vals, [an_ent(t, all_vars(t))]), "ops": [["um", 2, 1, 48, 96]], "order": 0}
        r.oblige("the type %s has a class" % t, t in ts)
    r.oblige("known types", True)


def entity(r, v):
    cs = classes(v)
    cls, t, rule = cs[r.choose(len(cs))]
    gi, flt = r.choose(8), bool(r.choose(2))
    r.data["case"] = ocase(gi, flt, t)
    m, n, a, b, d = matrix(r, v, gi, flt)
    g = SYM[gi]
    kw = {}
    pts = None
    if rule in ("check_point", "level_end_prox"):
        pts = "trigger_areas", Points(r, lambda p: point(gi, n, d, p, False))
    elif rule == "AI_controller":
        pts = "nodes", Points(r, lambda p: point(gi, n, d, p))
    elif rule == "kill_box":
        kw = {"width": r.int("width", 0), "height": r.int("height", 0)}
    elif rule == "camera_node":
        kw = {"zoom": r.int("zoom"), "width": r.int("width")}
    if rule == "enemy_key":
        kw = {"lastX": r.real("lastX"), "lastY": r.real("lastY")}
    if rule in ("enemy_key", "hittable"):
        kw["scale"] = r.real("dm_scale")
    if pts:
        kw[pts[0]] = pts[1]
    Ent = v.entity.Entity
    known = dict(Ent._known_types)
    for k in kw:
        r.oblige("%s has %s" % (t, k), hasattr(cls, k))
    sub = type("Any" + cls.__name__, (cls,), {k: None for k in kw})
    Ent._known_types.clear()
    Ent._known_types.update(known)
    fx, fy, q = start(r)
    e = mk_ent(r, v, q, fx, fy, sub, t, **kw)
    keep = {k: getattr(e, k) for k in ("variables", "etype", "layer", "visible")}
    e.transform(m)
    oriented(r, gi, (fx, fy, q), state(e))
    for k, x in keep.items():
        r.oblige("%s of an entity is kept" % k, getattr(e, k) is x)
    if pts:
        pts[1].final(getattr(e, pts[0]))
    if rule == "kill_box":
        w, h = (kw["width"], kw["height"]) if g[0] else (kw["height"], kw["width"])
        r.oblige("the size of a death zone is turned and enlarged", z3.And(Rl(e.width) == Rl(n) * Rl(w), Rl(e.height) == Rl(n) * Rl(h)))
        r.oblige("the size of a death zone is an integer", isinstance(e.width, (int, SInt)) and isinstance(e.height, (int, SInt)))
    if rule == "camera_node":
        r.oblige("the size of a camera is enlarged", z3.And(Rl(e.zoom) == Rl(n) * Rl(kw["zoom"]), Rl(e.width) == Rl(n) * Rl(kw["width"])))
        r.oblige("the size of a camera is an integer", isinstance(e.zoom, (int, SInt)) and isinstance(e.width, (int, SInt)))
    if rule == "enemy_key":
        w = point(gi, n, d, (kw["lastX"], kw["lastY"]))
        r.oblige("the last known position of a key goes to its image", z3.And(Rl(e.lastX) == w[0], Rl(e.lastY) == w[1]))
    if rule in ("enemy_key", "hittable"):
        r.oblige("the scale of a hittable entity is enlarged", Rl(e.scale) == Rl(n) * Rl(kw["scale"]))


# ------------------------------------------------------------------------------------------------ levels
class Thing(Sym):
    """k-th tile, prop or entity"""
    pytypes = (object,)

    def __init__(self, log, what, k):
        self.log, self.what, self.k = log, what, k

    def transform(self, mat):
        self.log.calls.append((self.what, self.k, mat))

    def upscale(self, n):
        return self.log.block(self, n)

    def __eq__(self, o):
        if not isinstance(o, Thing):
            return self.differs(o)
        return boo(z3.And(z3.BoolVal(self.what == o.what), self.k == o.k))

    __hash__ = Sym.__hash__


class Moves(Hook):
    """.transform of every object is called once, with the matrix of the level"""

    def __init__(self, r, m):
        self.r, self.m = r, m
        self.calls, self.done = [], []
        r.hooks.append(self)

    def loop_tail(self, lp):
        d = lp.info.hookdata
        if self.calls or d.get("moves"):
            d["moves"] = True
            self.r.oblige("each object of a level is transformed once", len(self.calls) == 1)
            w, k, m = self.calls[0]
            self.r.oblige("the object of the iteration is transformed", z3.And(z3.BoolVal(d.setdefault("moves of", w) == w), k == lp.k))
            self.r.oblige("the objects of a level are transformed by its matrix", same_matrix(m, self.m))
        else:
            d["moves skipped"] = True
        self.calls = []

    def loop_exit(self, lp):
        d = lp.info.hookdata
        if d.get("moves"):
            self.r.oblige("no object of a level is skipped", not d.get("moves skipped"))
            self.done.append((d["moves of"], lp.seq.length))


def same_matrix(a, b, rows=2, cols=3):
    if not isinstance(a, tuple) or len(a) != 3:
        return False
    return z3.And(*[Rl(a[i][j]) == Rl(b[i][j]) for i in range(rows) for j in range(cols)])


def product(ms):
    """the composition of matrices applied one after the other; composing transforms equals transforming by the composition (lemmas)"""
    out = ((1, 0, 0), (0, 1, 0))
    for m in ms:
        out = tuple(tuple(m[i][0] * out[0][j] + m[i][1] * out[1][j] + (m[i][2] if j == 2 else 0) for j in range(3)) for i in range(2))
    return out + ((0, 0, 1),)


class Dict_(Sym):
    """a dict known as a sequence of pairs"""
    pytypes = (dict,)

    def __init__(self, name, n, elem, lists):
        self.n = n
        self.seq = SSeq(name, n, elem, lists=lists)

    def items(self):
        return self.seq

    def as_seq(self):
        return self.seq.pick(0)

    keys = as_seq

    def values(self):
        return self.seq.pick(1)

    def __getitem__(self, k):
        v = self.seq.value_at(k)
        if v is None:
            raise Unsupported("lookup in an abstract dict")
        return v[0]

    def slen(self):
        return num(self.n)

    def __bool__(self):
        return E.fork(self.n > 0)


FI = lambda n, s=z3.IntSort: z3.Function(n, z3.IntSort(), s())


def filled(r, what, cur, old, want):
    """cur: the dict after; it must be filled with exactly the pairs of want"""
    if isinstance(cur, TDict) and cur.eff is None and dict.__len__(cur) == 0:
        r.oblige("no %s is lost" % what, old.n == 0)
    elif cur is old:
        r.oblige("every %s is moved" % what, old.n == 0)
    elif isinstance(cur, TDict) and cur.eff is want:
        r.oblige("every %s is at its image" % what, True)
    else:
        raise Unsupported("%s of another form" % what)


class Start:
    """what start_position gives (contract: C20)"""

    def __init__(self, x, y):
        object.__setattr__(self, "x", x)
        object.__setattr__(self, "y", y)
        object.__setattr__(self, "sets", 0)

    def __setattr__(self, n, x):
        if n not in ("x", "y"):
            raise AttributeError(n)
        object.__setattr__(self, "sets", self.sets + 1)
        object.__setattr__(self, n, x)


def level(kind):
    def fn(r, v):
        gi, flt = r.choose(8), bool(r.choose(2))
        g = SYM[gi]
        m, n, a, b, d = matrix(r, v, gi, flt)
        r.data["case"] = lambda vals: {"m": level_model(vals), "ops": ops_for(vals, gi, flt), "order": 0}
        Lv = v.level.Level
        log = Moves(r, m)
        ly, tx, ty = FI("tile layer"), FI("tile x"), FI("tile y")
        nt, np_, ne = [r.int(w, 0).e for w in ("tiles", "props", "entities")]
        k0 = z3.Int("k!any")
        RS = z3.RealSort
        pid, play, px, py = FI("prop id"), FI("prop layer"), FI("prop x", RS), FI("prop y", RS)
        eid, ex, ey = FI("entity id"), FI("entity x", RS), FI("entity y", RS)
        T = lambda k: Thing(log, "tile", k)
        at = lambda k: [SInt(x) for x in tile_at(gi, n, a, b, tx(k), ty(k))]
        tpair = lambda k: ((SInt(ly(k)), *at(k)), T(k))
        twant = SSeq("moved tiles", nt, tpair)
        ppair = lambda k: (SInt(pid(k)), (SInt(play(k)), *[num(z) for z in point(gi, n, d, (SReal(px(k)), SReal(py(k))))], Thing(log, "prop", k)))
        pwant = SSeq("moved props", np_, ppair)
        epair = lambda k: (SInt(eid(k)), (*[num(z) for z in point(gi, n, d, (SReal(ex(k)), SReal(ey(k))))], Thing(log, "entity", k)))
        ewant = SSeq("moved entities", ne, epair)
        tiles = Dict_("tiles", nt, lambda k: ((SInt(ly(k)), SInt(tx(k)), SInt(ty(k))), T(k)), {"moved": (lambda e, k: [tpair(I(k))], twant)})
        props = Dict_("props", np_, lambda k: (SInt(pid(k)), (SInt(play(k)), SReal(px(k)), SReal(py(k)), Thing(log, "prop", k))), {"moved": (lambda e, k: [ppair(I(k))], pwant)})
        ents = Dict_("entities", ne, lambda k: (SInt(eid(k)), (SReal(ex(k)), SReal(ey(k)), Thing(log, "entity", k))), {"moved": (lambda e, k: [epair(I(k))], ewant)})
        var, shot = Poison("variables"), Poison("thumbnail")
        lv = born_obj(Lv, tiles=tiles, props=props, entities=ents, variables=var, sshot=shot, parent=None, backdrop=None, _next_id=r.int("next id", 1))
        back = []
        bd = None
        if kind == "with a backdrop":
            bd = born_obj(Lv, tiles=Poison("backdrop tiles"), props=Poison("backdrop props"), entities=Poison("backdrop entities"), variables=Poison("variables"), sshot=Poison("thumbnail"), parent=lv, backdrop=None, _next_id=0)
            object.__setattr__(lv, "backdrop", bd)
        if kind == "of a backdrop":
            object.__setattr__(lv, "parent", born_obj(Lv, backdrop=lv, parent=None))

        def tr(self, mat):
            r.oblige("only the backdrop is transformed in turn", bd is not None and self is bd)
            back.append(mat)

        pos = {}
        old = {}

        def sp(self, player=1):
            p = E.concretize(player) if isinstance(player, Sym) else player
            if self is not lv or p not in (1, 2, 3, 4):
                raise Unsupported("another start position")
            if p not in pos:
                old[p] = (r.int("start %d x" % p), r.int("start %d y" % p))
                pos[p] = Start(*old[p])
            return pos[p]

        r.stub(Lv.transform, tr)
        r.stub(Lv.start_position, sp)
        Lv.transform(lv, m)
        filled(r, "tile", lv.tiles, tiles, twant)
        filled(r, "prop", lv.props, props, pwant)
        filled(r, "entity", lv.entities, ents, ewant)
        for w, nn in (("tile", nt), ("prop", np_), ("entity", ne)):
            got = [l for x, l in log.done if x == w]
            r.oblige("every %s is transformed, once" % w, z3.Or(nn == 0, z3.And(z3.BoolVal(len(got) == 1), *[l == nn for l in got])) if len(got) <= 1 else False)
        if kind != "of a backdrop":
            r.oblige("the start positions of four players are moved", set(pos) == {1, 2, 3, 4})
        for p, s in pos.items():
            w = point(gi, n, d, old[p])
            r.oblige("the start position of player %d goes to its image" % p, z3.And(Rl(s.x) == w[0], Rl(s.y) == w[1]))
            r.oblige("the start position of player %d is an integer" % p, isinstance(s.x, (int, SInt)) and isinstance(s.y, (int, SInt)))
        r.oblige("variables and thumbnail are kept", lv.variables is var and lv.sshot is shot)
        if bd is not None:
            r.oblige("the backdrop is transformed once", len(back) == 1)
            r.oblige("the backdrop is turned and scaled like the level", same_matrix(back[0], m, 2, 2))
            z = z3.And(*[z3.And(I(a) == 0, I(b) == 0)])
            r.oblige("without a translation the backdrop is not moved", z3.Implies(z, z3.And(Rl(back[0][0][2]) == 0, Rl(back[0][1][2]) == 0)))
            r.oblige("the backdrop stays the backdrop", lv.backdrop is bd)

    return fn


def squares(r, v):
    """over the specification: the pixel square of a tile goes to the square of the image block; distinct tiles have distinct images, blocks do not overlap; positions compose"""
    gi = r.choose(8)
    g = SYM[gi]
    n = r.int("n", 1)
    a, b, x, y = [r.int(c).e for c in ("a", "b", "tx", "ty")]
    u, w = tile_at(gi, n, SInt(a), SInt(b), x, y)
    # a point of the square of the tile, and its image
    px, py = z3.Reals("qx qy")
    r.assume(z3.And(px >= 48 * z3.ToReal(x), px <= 48 * z3.ToReal(x) + 48, py >= 48 * z3.ToReal(y), py <= 48 * z3.ToReal(y) + 48))
    # work with the offsets in the square: linear
    sx, sy = px - 48 * z3.ToReal(x), py - 48 * z3.ToReal(y)
    off = [z3.ToReal(z3.IntVal(0)) + (s if c == 1 else 48 - s) for s, c in (((sx, g[0]) if g[0] else (sy, g[1])), ((sx, g[2]) if g[2] else (sy, g[3])))]
    ix, iy = point(gi, SInt(n.e), (SReal(48 * z3.ToReal(a)), SReal(48 * z3.ToReal(b))), (SReal(px), SReal(py)))
    r.oblige("lemma: the image of a point of the square lies at n times its place in the square", z3.And(ix == 48 * z3.ToReal(u) + z3.ToReal(n.e) * off[0], iy == 48 * z3.ToReal(w) + z3.ToReal(n.e) * off[1]))
    r.oblige("lemma: places in the square stay in the square", z3.And(off[0] >= 0, off[0] <= 48, off[1] >= 0, off[1] <= 48))
    x2, y2 = r.int("tx2").e, r.int("ty2").e
    u2, w2 = tile_at(gi, n, SInt(a), SInt(b), x2, y2)
    dx, dy, ex, ey = [r.int(c, 0).e for c in ("dx", "dy", "ex", "ey")]
    for c in (dx, dy, ex, ey):
        r.assume(c < n.e)
    # n*s + d = n*t + e with 0 <= d, e < n forces s = t
    s, t, e1, e2 = z3.Ints("s t e1 e2")
    r.oblige("lemma: blocks of distinct tiles do not overlap", z3.Implies(z3.And(e1 >= 0, e1 < n.e, e2 >= 0, e2 < n.e, n.e * (s - t) == e2 - e1), s == t))
    gx = lambda c, e, p, q: (p if c == 1 else -p - 1) if c else (q if e == 1 else -q - 1)
    same = z3.And(gx(g[0], g[1], x, y) == gx(g[0], g[1], x2, y2), gx(g[2], g[3], x, y) == gx(g[2], g[3], x2, y2))
    r.oblige("lemma: distinct tiles have distinct images", z3.Implies(same, z3.And(x == x2, y == y2)))


def composed(r, v):
    """over the specification: tile places compose (scale 1)"""
    gi, hi = divmod(r.choose(64), 8)
    hg = SYM.index(mul(SYM[hi], SYM[gi]))
    a, b, c, d, x, y = [r.int(z).e for z in ("a", "b", "a2", "b2", "tx", "ty")]
    one = z3.IntVal(1)
    u, w = tile_at(gi, 1, SInt(a), SInt(b), x, y)
    u2, w2 = tile_at(hi, 1, SInt(c), SInt(d), u, w)
    h = SYM[hi]
    ta, tb = [(p * a + q * b) + s for p, q, s in ((h[0], h[1], c), (h[2], h[3], d))]
    u3, w3 = tile_at(hg, 1, SInt(ta), SInt(tb), x, y)
    r.oblige("lemma: places of tiles compose", z3.And(u2 == u3, w2 == w3))


# ------------------------------------------------------------------------------------------------ upscaling and shorthands
class Blocks(Hook):
    def __init__(self, r, n):
        self.r, self.n = r, n
        self.cells = FI("cells")
        self.dx, self.dy = [z3.Function(c, z3.IntSort(), z3.IntSort(), z3.IntSort()) for c in ("cell x", "cell y")]
        self.memo = {}
        self.places = {}

    def block(self, t, n):
        self.r.oblige("tiles are enlarged by the factor of the level", Rl(n) == Rl(self.n))
        return self.seq(t.what, t.k)[0]

    def seq(self, what, k):
        key = (what, simp(k).get_id())
        if key not in self.memo:
            ly, x, y = self.places[what](k)
            cell = lambda j: Cell(what, k, j)
            want = SSeq("block", self.cells(k), lambda j: ((ly, num(I(x) + self.dx(k, j)), num(I(y) + self.dy(k, j))), cell(j)))
            src = SSeq("pieces", self.cells(k), lambda j: (SInt(self.dx(k, j)), SInt(self.dy(k, j)), cell(j)), lists={"block": (lambda e, j: [want.elem(I(j))], want)})
            self.memo[key] = (src, want, k)
        return self.memo[key]


class Cell(Sym):
    pytypes = (object,)

    def __init__(self, what, k, j):
        self.what, self.k, self.j = what, k, j

    def __eq__(self, o):
        if not isinstance(o, Cell):
            return self.differs(o)
        return boo(z3.And(z3.BoolVal(self.what == o.what), self.k == o.k, self.j == o.j))

    __hash__ = Sym.__hash__


def upscale(kind, given):
    def fn(r, v):
        Lv = v.level.Level
        gi = r.choose(8) if given else SYM.index(R[0])
        r.data["case"] = lambda vals: {"m": level_model(vals), "ops": [["um", max(2, small(vals.get("factor", 2), 3)), gi, 48 * small(vals.get("a", 1), 40), 48 * small(vals.get("b", 2), 40)] if given else ["u", max(2, small(vals.get("factor", 2), 3))]], "order": 0}
        f = r.int("factor", 1)
        if given:
            g = SYM[gi]
            a, b = r.int("a"), r.int("b")
            m = v.transform.TxMatrix(((g[0], g[1], 48 * a), (g[2], g[3], 48 * b), (0, 0, 1)))
            want = [[g[0] * f, g[1] * f, 48 * a * f], [g[2] * f, g[3] * f, 48 * b * f]]
        else:
            m, want = None, [[f, 0, 0], [0, f, 0]]
        bl = Blocks(r, f)
        keep = dict(props=Poison("props"), entities=Poison("entities"), variables=Poison("variables"), sshot=Poison("thumbnail"))
        lv = born_obj(Lv, tiles=Poison("tiles before"), parent=None, backdrop=None, _next_id=1, **keep)
        parts = [("tile", lv)]
        if kind == "with a backdrop":
            bd = born_obj(Lv, tiles=Poison("tiles before"), parent=lv, backdrop=None, _next_id=0, **{k: Poison(k) for k in keep})
            object.__setattr__(lv, "backdrop", bd)
            parts.append(("backdrop tile", bd))
        calls = []
        maps = {}

        def tr(self, mat):
            r.oblige("only the level is transformed", self is lv)
            calls.append(mat)
            for what, o in parts:
                n = r.int("count of " + what, 0).e
                ly, x, y = [FI("%s %s %d" % (what, c, len(calls))) for c in ("layer", "x", "y")]
                bl.places[what] = lambda k, ly=ly, x=x, y=y: (SInt(ly(k)), SInt(x(k)), SInt(y(k)))
                res = SSeq("all blocks of " + what, n, lambda k: Poison("a cell"))
                maps[what] = (Dict_(what, n, lambda k, what=what: (bl.places[what](k), Thing(bl, what, k)), {"blocks": (lambda e, k, what=what: [bl.seq(what, I(k))[1]], res)}), res)
                object.__setattr__(o, "tiles", maps[what][0])

        r.stub(Lv.transform, tr)
        if given:
            Lv.upscale(lv, f, mat=m)
        else:
            Lv.upscale(lv, f)
        r.oblige("the level is transformed by the matrix times the factor", same_matrix(product(calls), want))
        for what, o in parts:
            if what in maps:
                filled(r, what, o.tiles, *maps[what])
        r.oblige("nothing else of the level is changed", all(getattr(lv, k) is x for k, x in keep.items()) and (kind != "with a backdrop" or lv.backdrop is bd))

    return fn


def short(name):
    def fn(r, v):
        Lv = v.level.Level
        lv = born_obj(Lv, tiles=Poison("tiles"), props=Poison("props"), entities=Poison("entities"), variables=Poison("variables"), sshot=Poison("thumbnail"), parent=None, backdrop=None, _next_id=1)
        if r.choose(2):
            object.__setattr__(lv, "backdrop", born_obj(Lv, parent=lv, backdrop=None, tiles=Poison("tiles"), props=Poison("props"), entities=Poison("entities"), variables=Poison("variables")))
        calls = []

        def tr(self, mat):
            r.oblige("the level is transformed", self is lv)
            calls.append(mat)

        r.stub(Lv.transform, tr)
        x, y = r.real("x"), r.real("y")
        if name == "flip_horizontal":
            op, want = (lambda vals: ["h"]), ((-1, 0, 0), (0, 1, 0))
            lv.flip_horizontal()
        elif name == "flip_vertical":
            op, want = (lambda vals: ["v"]), ((1, 0, 0), (0, -1, 0))
            lv.flip_vertical()
        elif name == "translate":
            flt = r.choose(2)
            if not flt:
                x, y = r.int("a") * 48, r.int("b") * 48
            op, want = (lambda vals: ["t", 48 * small(vals.get("a", 3), 400), 48 * small(vals.get("b", 5), 400)]), ((1, 0, x), (0, 1, y))
            r.data["case"] = lambda vals: {"m": level_model(vals), "ops": [op(vals)], "order": 0}
            lv.translate(x, y)
        else:
            t = r.int("times")
            op = lambda vals: ["r", small(vals.get("times", 1), 1000)]
            r.data["case"] = lambda vals: {"m": level_model(vals), "ops": [op(vals)], "order": 0}
            q = r.choose(4)
            r.assume((t.e - q) % 4 == 0)
            if r.choose(2):
                r.assume(t.e == 1)
                if not r.feasible():
                    raise E.PathEnd("not one turn")
                lv.rotate()
            else:
                lv.rotate(t)
            want = [(R[q][0], R[q][1], 0), (R[q][2], R[q][3], 0)]
        r.data["case"] = lambda vals: {"m": level_model(vals), "ops": [op(vals)], "order": 0}
        r.oblige("%s transforms by its matrix" % name, same_matrix(product(calls), want))

    return fn


def groups(tier):
    yield {"name": "orientation of props", "functions": "Prop.transform", "fn": prop_orient}
    yield {"name": "entities: orientation and data", "functions": "Entity.transform and its overrides", "fn": entity}
    yield {"name": "types with data that is moved", "functions": "classes of dustmaker.entity", "fn": rules}
    for w in ("prop", "entity"):
        yield {"name": "composition: orientation of a " + w, "functions": "Prop.transform" if w == "prop" else "Entity.transform", "fn": compose(w)}
    for k in ("with a backdrop", "without backdrop", "of a backdrop"):
        yield {"name": "Level.transform " + k, "functions": "Level.transform", "fn": level(k)}
    for k in ("with a backdrop", "without backdrop"):
        for m in (True, False):
            yield {"name": "Level.upscale %s, %s" % (k, "matrix given" if m else "default"), "functions": "Level.upscale", "fn": upscale(k, m)}
    for s in ("flip_horizontal", "flip_vertical", "rotate", "translate"):
        yield {"name": "Level." + s, "functions": "Level." + s, "fn": short(s)}
    yield {"name": "lemma: squares of tiles", "functions": "specification", "fn": squares}
    yield {"name": "lemma: composition of places", "functions": "specification", "fn": composed}
