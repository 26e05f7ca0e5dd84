"""C16: Level.calculate_edge_caps for an arbitrary tile of an arbitrary level."""
import math

import z3

from ..geom import CORNERS, edge, exists, half_turn_degrees
from . import engine as E
from .common import ENGINE, edge_vals, ieq
from .engine import B, I, Poison, SBool, SInt, Unsupported, boo, num
from .grid import Grid, Visit, unknown_edge

FUNCTIONS = ["level.Level.calculate_edge_caps", "tile.Tile.get_sprite_tuple"]
ASSUMPTIONS = ["edges a shape does not have are not visible (the state calculate_edge_visibility leaves)", "tiles are not aliased (no Tile or TileEdgeData object is stored twice)"]
TRUSTED = ENGINE


def oriented(shape, side, end):
    a, b = edge(shape, side)
    return (a, b) if end == 1 else (b, a)


def joiners(shape, side, end):
    """[(score, offset, neighbour shape, half angle)], furthest away from the tile first; None: no cap at this end"""
    a, b = oriented(shape, side, end)
    if b not in CORNERS:
        return None
    d0 = (b[0] - a[0], b[1] - a[1])
    out = []
    for dx in (-1, 0, 1):
        for dy in (-1, 0, 1):
            if (dx, dy) == (0, 0):
                continue
            for ns in range(21):
                if not exists(ns, side):
                    continue
                na, nb = oriented(ns, side, end)
                if (na[0] + 2 * dx, na[1] + 2 * dy) != b:
                    continue
                d1 = (nb[0] - na[0], nb[1] - na[1])
                turn = math.atan2(d0[0] * d1[1] - d0[1] * d1[0], d0[0] * d1[0] + d0[1] * d1[1])
                out.append((turn if end == 1 else -turn, (dx, dy), ns, half_turn_degrees(d0, d1)))
    out.sort(key=lambda t: t[0])
    for p, q in zip(out, out[1:]):
        # equally bent joining edges at different places would leave the choice open
        assert abs(p[0] - q[0]) > 1e-9 or p[1] == q[1], (shape, side, end, p, q)
    return out


class NeighbourEdge:
    """edge data of a neighbour that may have been visited: caps and angles are unknown, filth is kept while visible"""


def neighbour_edge(v):
    base = v.tile.TileEdgeData

    class NEdge(base):
        pass

    def make(g, s, q):
        e = base()
        for f in ("solid", "caps", "angles", "filth_caps", "filth_angles"):
            e.__dict__[f] = Poison("data of a neighbour that may or may not have been visited")
        e.__dict__["visible"] = s["vis"][q]
        n = NEdge()
        n.__dict__.clear()
        n.__dict__.update(e.__dict__)
        n.__dict__["_fset"], n.__dict__["_spike"] = s["fset"][q], s["spike"][q]
        del n.__dict__["_fset"], n.__dict__["_spike"]
        store[id(n)] = (n, s["vis"][q], s["fset"][q], s["spike"][q])
        return n

    store = {}

    def prop(i, name):
        def get(self):
            _n, vis, *vals = store[id(self)]
            if not E.run().entails(B(vis)):
                raise Unsupported("filth of a neighbour that may be invisible")
            return vals[i]

        def put(self, val):
            if id(self) in store:
                raise Unsupported("filth of a neighbour is changed")

        return property(get, put)

    NEdge.filth_sprite_set = prop(0, "filth_sprite_set")
    NEdge.filth_spike = prop(1, "filth_spike")
    return make


def caps(sh, sides):
    table = {(s, e): joiners(sh, s, e) for s in range(4) if exists(sh, s) for e in range(2)}

    def fn(r, v):
        lv = v.level.Level()
        g = Grid(r, v, sh, neighbour_edge(v))
        lv.tiles = g

        def ready():
            """preconditions on the visited tile and its neighbours"""
            for s in range(4):
                if not exists(sh, s):
                    r.assume(z3.Not(B(g.before[s][1])))

        make = g.make

        def make_ready():
            t = make()
            ready()
            return t

        g.make = make_ready
        slot = g.slot

        def slot_ready(d):
            new = d not in g.slots
            s = slot(d)
            if new:
                for q in range(4):
                    r.assume(z3.Implies(B(s["vis"][q]), z3.Or(*[I(s["shape"]) == k for k in range(21) if exists(k, q)])))
            return s

        g.slot = slot_ready

        def joins(r, g, side, end, d):
            """the neighbour at offset d has a joining edge"""
            if not exists(sh, side) or table[side, end] is None or d == (0, 0):
                return z3.BoolVal(False)
            shapes = [x[2] for x in table[side, end] if x[1] == d]
            if not shapes:
                return z3.BoolVal(False)
            s = g.slot(d)
            return z3.And(B(s["p"]), g.same_sprite(s), B(s["vis"][side]), z3.Or(*[I(s["shape"]) == k for k in shapes]))

        def ends(r, g, side, end):
            j = table.get((side, end))
            if j is None:
                return {"cap": False, "angle": 0, "filth cap": False, "filth angle": 0}
            _so, _vi, _c0, _c1, _a0, _a1, fset, spike = g.before[side][:8]
            filth = I(fset) != 0
            cap, ang, fcap, fang = z3.BoolVal(True), z3.IntVal(0), filth, z3.IntVal(0)
            for _score, d, ns, a in reversed(j):
                s = g.slot(d)
                c = z3.And(B(s["p"]), g.same_sprite(s), B(s["vis"][side]), I(s["shape"]) == ns)
                same = z3.And(I(s["fset"][side]) == I(fset), B(s["spike"][side]) == B(spike))
                cap, ang = z3.If(c, False, cap), z3.If(c, a, ang)
                fcap = z3.If(c, z3.And(filth, z3.Not(same)), fcap)
                fang = z3.If(c, z3.If(z3.And(filth, same), a, 0), fang)
            return {"cap": SBool(cap), "angle": SInt(ang), "filth cap": SBool(fcap), "filth angle": SInt(fang)}

        def spec(r, g, s, e):
            got, old = edge_vals(e), g.before[s]
            r.oblige("an edge is a TileEdgeData", isinstance(e, v.tile.TileEdgeData))
            r.oblige("side %d: solid and visible stay" % s, z3.And(ieq(got[0], old[0]), ieq(got[1], old[1])))
            r.oblige("side %d: corner data are pairs" % s, all(type(x) is tuple and len(x) == 2 for x in (e.caps, e.angles, e.filth_caps, e.filth_angles)))
            r.oblige("filth set type", getattr(e.filth_sprite_set, "enum", type(e.filth_sprite_set)) is v.tile.TileSpriteSet)
            if r.entails(z3.Not(B(old[1]))):
                r.oblige("side %d: caps, angles and filth of an invisible edge are cleared" % s, z3.And(*[ieq(x, 0) for x in got[2:]]))
                return
            vis = B(old[1])
            r.oblige("side %d: caps, angles and filth of an invisible edge are cleared" % s, z3.Implies(z3.Not(vis), z3.And(*[ieq(x, 0) for x in got[2:]])))
            r.oblige("side %d: filth of a visible edge stays" % s, z3.Implies(vis, z3.And(ieq(got[6], old[6]), ieq(got[7], old[7]))))
            if not exists(sh, s):
                return
            for q in range(2):
                w = ends(r, g, s, q)
                for name, i in (("cap", 2), ("angle", 4), ("filth cap", 8), ("filth angle", 10)):
                    r.oblige("side %d end %d: %s" % (s, q, name), z3.Implies(vis, ieq(got[i + q], w[name])))

        h = Visit(r, v, g, spec, ends=ends, joins=joins)
        r.hooks.append(h)
        r.data["case"] = lambda vals: {"tiles": g.case(vals), "perm": 1}
        lv.calculate_edge_caps()
        r.oblige("every tile is visited", h.done == 1)
        r.oblige("the level keeps its tile map", lv.tiles is g)

    return fn


def groups(tier):
    for sh in range(21):
        yield {"name": "calculate_edge_caps, shape %d" % sh, "functions": "Level.calculate_edge_caps", "fn": caps(sh, None)}
