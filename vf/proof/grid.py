"""A level's tile map of unknown size and content, for loops that visit every tile and look at its neighbours.

An arbitrary tile is visited; the tiles around it (at constant offsets) are symbolic and may have been visited before or
not.  Loops over the four sides, the two ends and the neighbour offsets inside a visit are cut (instr.CutLoop)."""
import z3

from . import engine as E
from .common import edge_vals, sym_edge, sym_tile, tile_model
from .engine import B, I, Hook, PathEnd, Poison, SBool, SInt, Sym, Unsupported, boo, num, run, simp
from .instr import CutLoop
from .vals import SSeq, TList

LIM = 1 << 23
FIELDS = ("solid", "visible", "caps", "angles", "filth_sprite_set", "filth_spike", "filth_caps", "filth_angles")


def tag(d):
    return "n%s_%s" % tuple(str(x).replace("-", "m") for x in d)


class Grid(Sym):
    """dict (layer, x, y) -> Tile"""
    pytypes = (dict,)

    def __init__(self, r, v, shape, neighbour_edge):
        self.r, self.v, self.shape, self.neighbour_edge = r, v, shape, neighbour_edge
        self.layer, self.x, self.y = r.int("layer", 0, 20), r.int("x", -LIM + 1, LIM - 2), r.int("y", -LIM + 1, LIM - 2)
        self.n = z3.Int("tiles")
        r.assume(self.n >= 0)
        self.cur = None
        self.slots = {}
        self.visits = 0
        self.seq = SSeq("tiles", self.n, self.item, grid=self)

    def item(self, k):
        if self.cur is None:
            self.cur = self.make()
        return (self.layer, self.x, self.y), self.cur

    def make(self):
        t = sym_tile(self.r, self.v, self.v.tile.TileShape(self.shape))
        self.before = [edge_vals(e) for e in t.edge_data]
        self.fixed = (t.shape, t.tile_flags, t.sprite_set, t.sprite_tile, t.sprite_palette)
        self.edges = list(t.edge_data)
        return t

    def slot(self, d):
        """the variables of the neighbour at offset d"""
        if d not in self.slots:
            r, n = self.r, tag(d)
            self.slots[d] = {"p": r.bool(n + "_present"), "shape": SInt(r.int(n + "_shape", 0, 20).e, self.v.tile.TileShape), "set": SInt(r.int(n + "_set", 0, 7).e, self.v.tile.TileSpriteSet),
                             "tile": r.int(n + "_tile", 0, 255), "pal": r.int(n + "_pal", 0, 15), "obj": None,
                             "vis": [r.bool("%s_e%d_visible" % (n, s)) for s in range(4)], "fset": [SInt(r.int("%s_e%d_fset" % (n, s), 0, 7).e, self.v.tile.TileSpriteSet) for s in range(4)],
                             "spike": [r.bool("%s_e%d_fspike" % (n, s)) for s in range(4)]}
        return self.slots[d]

    def offset(self, key):
        if not isinstance(key, tuple) or len(key) != 3:
            raise Unsupported("tile lookup with an unusual key")
        out = []
        for a, b in zip(key, (self.layer, self.x, self.y)):
            d = simp(I(a) - I(b))
            if not z3.is_int_value(d):
                raise Unsupported("tile lookup at an undetermined offset")
            out.append(d.as_long())
        return tuple(out)

    def find(self, key):
        """the tile at key or None"""
        if self.cur is None:
            raise Unsupported("tile lookup outside a visit")
        dl, dx, dy = self.offset(key)
        if (dl, dx, dy) == (0, 0, 0):
            return self.cur
        if dl:
            raise Unsupported("tile lookup on another layer")
        s = self.slot((dx, dy))
        if not s["p"]:
            return None
        if s["obj"] is None:
            t = self.v.tile.Tile(s["shape"])
            t.tile_flags = Poison("flags of a neighbour")
            t.sprite_set, t.sprite_tile, t.sprite_palette = s["set"], s["tile"], s["pal"]
            t.edge_data = [self.neighbour_edge(self, s, q) for q in range(4)]
            s["obj"] = t
            s["snap"] = (t.shape, t.tile_flags, t.sprite_set, t.sprite_tile, t.sprite_palette, list(t.edge_data), [dict(vars(e)) for e in t.edge_data])
        return s["obj"]

    def get(self, key, default=None):
        t = self.find(key)
        return default if t is None else t

    def __getitem__(self, key):
        t = self.find(key)
        if t is None:
            raise KeyError("tile")
        return t

    def __contains__(self, key):
        return self.find(key) is not None

    def items(self):
        return self.seq

    def keys(self):
        return SSeq("tile keys", self.n, lambda k: self.item(k)[0], grid=self)

    def values(self):
        return SSeq("tile values", self.n, lambda k: self.item(k)[1], grid=self)

    def as_seq(self):
        return self.keys()

    def slen(self):
        return num(self.n)

    def __bool__(self):
        return E.fork(self.n != 0)

    def __setitem__(self, k, t):
        raise Unsupported("the tile map is modified")

    __delitem__ = __setitem__

    # -- specification helpers
    def same_sprite(self, s):
        t = self.fixed
        return z3.And(I(t[2]) == I(s["set"]), I(t[3]) == I(s["tile"]), I(t[4]) == I(s["pal"]))

    def case(self, vals):
        """tile list of a replay case"""
        g = lambda n, d=0: vals.get(n, d)
        out = [[g("layer"), g("x"), g("y"), tile_model(vals, self.shape)]]
        for (dx, dy), s in self.slots.items():
            n = tag((dx, dy))
            if g(n + "_present", False):
                out.append([g("layer"), g("x") + dx, g("y") + dy, tile_model(vals, g(n + "_shape"), n)])
        return out


def unknown_edge(v, why):
    e = v.tile.TileEdgeData()
    for f in FIELDS:
        e.__dict__[f] = Poison(why)
    return e


class Visit(Hook):
    """obligations of a loop visiting every tile.  spec(r, g, side, edge) states what must hold for that side"""

    def __init__(self, r, v, g, spec, ends=None, joins=None):
        self.r, self.v, self.g, self.spec, self.ends, self.joins = r, v, g, spec, ends, joins
        self.done = 0
        self.side = None
        self.cut_sides = False
        self.end = None

    # tile loop
    def loop_init(self, lp):
        if lp.seq.info.get("grid") is not self.g:
            return
        if self.done:
            raise Unsupported("the tiles are visited twice")
        self.lp = lp

    def loop_tail(self, lp):
        if lp.seq.info.get("grid") is not self.g:
            return
        g = self.g
        self.frame()
        if not self.cut_sides:
            for s in range(4):
                self.spec(self.r, g, s, g.cur.edge_data[s])

    def loop_exit(self, lp):
        if lp.seq.info.get("grid") is self.g:
            self.done += 1
            g = self.g
            if g.cur is not None:
                raise Unsupported("a tile is used after the loop")

    def frame(self):
        """nothing but the edges of the visited tile changes"""
        g = self.g
        t = g.cur
        now = (t.shape, t.tile_flags, t.sprite_set, t.sprite_tile, t.sprite_palette)
        self.r.oblige("shape, flags and sprite of the tile stay", z3.And(*[I(a) == I(b) for a, b in zip(now, g.fixed)]))
        self.r.oblige("four edges", isinstance(t.edge_data, list) and len(t.edge_data) == 4)
        for d, s in g.slots.items():
            if s["obj"] is None:
                continue
            o, snap = s["obj"], s["snap"]
            ok = all(a is b for a, b in zip((o.shape, o.tile_flags, o.sprite_set, o.sprite_tile, o.sprite_palette), snap[:5])) and len(o.edge_data) == 4
            ok = ok and all(a is b for a, b in zip(o.edge_data, snap[5])) and all(all(vars(e).get(k) is w for k, w in old.items()) for e, old in zip(o.edge_data, snap[6]))
            self.r.oblige("the neighbours stay as they are", bool(ok))

    def attr_effect(self, lp, obj, name, value):
        g = self.g
        if g.cur is None:
            return False
        if self.side is not None and obj is g.cur.edge_data[self.side]:
            return True
        if self.side is None and any(obj is e for e in g.cur.edge_data):
            return True
        return False

    # inner loops
    def cut(self, it, fn):
        g = self.g
        if g.cur is None or isinstance(it, Sym):
            return it, None
        try:
            els = list(it)
        except TypeError:
            return it, None
        if self.side is None and self.is_sides(els):
            return els, SideLoop(els, fn, self)
        if self.side is not None and self.end is None and self.ends is not None and [x for x in els if type(x) is int] == [0, 1] == els:
            return els, EndLoop(els, fn, self)
        if self.end is not None and self.joins is not None and len(els) >= 2 and all(isinstance(x, tuple) and len(x) == 2 and all(type(q) is int and -1 <= q <= 1 for q in x) for x in els):
            return els, SearchLoop(els, fn, self)
        return els, None

    def is_sides(self, els):
        if len(els) != 4:
            return False
        for i, x in enumerate(els):
            parts = x if isinstance(x, tuple) else (x,)
            nums = [p for p in parts if isinstance(p, int) and not isinstance(p, bool)]
            edges = [p for p in parts if isinstance(p, self.v.tile.TileEdgeData)]
            if not nums and not edges:
                return False
            if any(n != i for n in nums) or any(e is not self.g.cur.edge_data[i] for e in edges) or len(nums) + len(edges) != len(parts):
                return False
        return True


class SideLoop(CutLoop):
    """one side at a time; what the other iterations do to the other sides is unknown here"""

    def __init__(self, els, fn, vis):
        CutLoop.__init__(self, els, fn)
        self.vis = vis

    def before(self, i):
        g = self.vis.g
        self.vis.side = i
        self.others = {}
        for s in range(4):
            if s != i:
                e = g.cur.edge_data[s]
                saved = {f: Poison("edge data of side %d while side %d is handled" % (s, i)) for f in FIELDS}
                e.__dict__.update(saved)
                self.others[s] = (e, saved)

    def done(self, i):
        g = self.vis.g
        if self.effects:
            raise Unsupported("a loop over the sides modifies an outer collection")
        self.vis.frame()
        for s, (e, saved) in self.others.items():
            self.r.oblige("side %d is not touched while side %d is handled" % (s, i), g.cur.edge_data[s] is e and all(vars(e).get(f) is x for f, x in saved.items()))
        self.vis.spec(self.r, g, i, g.cur.edge_data[i])
        self.vis.side = None

    def finish(self):
        # every side handled, as proved in the iterations; their data is not used any further
        g = self.vis.g
        self.vis.cut_sides = True
        for s in range(4):
            g.cur.edge_data[s] = unknown_edge(self.vis.v, "edge data after the loop over the sides")


class EndLoop(CutLoop):
    """one end of the edge at a time; lists indexed by the end collect the results"""

    def __init__(self, els, fn, vis):
        CutLoop.__init__(self, els, fn)
        self.vis = vis

    def before(self, i):
        self.vis.end = i

    def lists2(self):
        return [o for o in self.r.tracked if isinstance(o, TList) and o.segs is None and list.__len__(o) == 2 and o.birth < self.clock]

    def done(self, i):
        want = self.vis.ends(self.r, self.vis.g, self.vis.side, i)
        got = {}
        for obj, kind, args in self.effects:
            if kind != "setitem" or not isinstance(obj, TList):
                raise Unsupported("unusual effect in the loop over the ends")
            if args[0] != i:
                raise Unsupported("the loop over the ends writes another end")
            got[obj.birth] = args[1]
        inf = self.info.hookdata
        for o in self.lists2():
            x = got.get(o.birth, list.__getitem__(o, i))
            ok = set()
            isb = isinstance(x, (bool, SBool))
            for name, w in want.items():
                if isinstance(x, (int, SInt)) and isb == isinstance(w, (bool, SBool)) and self.r.entails(I(x) == I(w)):
                    ok.add(name)
            prev = inf.get(o.birth)
            now = ok if prev is None else prev & ok
            if not now and (prev or prev is None) and o.birth in got and isinstance(x, (int, SInt)):
                for name in sorted(prev if prev is not None else want):
                    if isb == isinstance(want[name], (bool, SBool)):
                        self.r.hint("%s of end %d of side %d" % (name, i, self.vis.side), I(x) == I(want[name]))
            inf[o.birth] = now
            if o.birth in got:
                inf.setdefault("written", set()).add(o.birth)
        self.vis.end = None

    def finish(self):
        self.clock = self.r.tick()
        inf = self.info.hookdata
        want = [self.vis.ends(self.r, self.vis.g, self.vis.side, i) for i in range(2)]
        for o in self.lists2():
            if o.birth not in inf.get("written", ()):
                continue
            names = sorted(inf.get(o.birth) or ())
            for i in range(2):
                list.__setitem__(o, i, want[i][names[0]] if names else Poison("unsummarised result of the loop over the ends"))


class SearchLoop(CutLoop):
    """search for the joining neighbour: the earlier offsets do not join"""

    def __init__(self, els, fn, vis):
        CutLoop.__init__(self, els, fn)
        self.vis = vis

    def inv(self, j):
        v = self.vis
        return z3.Not(B(v.joins(self.r, v.g, v.side, v.end, self.items[j])))

    def before(self, i):
        for j in range(i):
            self.r.assume(self.inv(j))
        if not self.r.feasible():
            raise PathEnd("infeasible")

    def done(self, i):
        if self.effects:
            raise Unsupported("a neighbour search modifies a collection")
        self.r.hint("neighbour %s is passed over only if it does not join" % (self.items[i],), self.inv(i))
        if not self.r.entails(self.inv(i)):
            raise Unsupported("the neighbour loop is not a search for the joining edge")

    def finish(self):
        for j in range(len(self.items)):
            self.r.assume(self.inv(j))
