"""C15: Level.calculate_edge_visibility for an arbitrary tile of an arbitrary level."""
import z3

from ..geom import DIR, OPP, exists, flush
from . import engine as E
from .common import BLANK, ENGINE, edge_vals, ieq
from .engine import B, I, Poison, SBool, SInt, Unsupported
from .grid import Grid, Visit, unknown_edge

FUNCTIONS = ["level.Level.calculate_edge_visibility"]
ASSUMPTIONS = ["the callback is a function of its arguments returning a truth value", "functools.lru_cache does not change results", "tiles are not aliased (no Tile or TileEdgeData object is stored twice)"]
TRUSTED = ENGINE


def visibility(cb, shapes):
    def fn(r, v):
        sh = shapes[r.choose(len(shapes))]
        lv = v.level.Level()
        g = Grid(r, v, sh, lambda g, s, q: unknown_edge(v, "edge data of a neighbour that may or may not have been visited"))
        lv.tiles = g
        cbv = [r.bool("cb%d" % s) for s in range(4)]
        calls = []

        def callback(x, y, side, tile, ntile):
            if not isinstance(side, v.tile.TileSide):
                r.fail("the callback gets the side", "as a TileSide")
            n = g.slots.get(DIR[side])
            r.oblige("the callback gets position, tile and neighbour", z3.And(ieq(x, g.x), ieq(y, g.y), z3.BoolVal(tile is g.cur), z3.BoolVal(n is not None and ntile is n["obj"])))
            calls.append(side)
            return cbv[side]

        def spec(r, g, s, e):
            got = edge_vals(e)
            r.oblige("an edge is a TileEdgeData", isinstance(e, v.tile.TileEdgeData))
            if not exists(sh, s):
                r.oblige("side %d: a side the shape does not have is reset" % s, z3.And(*[ieq(a, b) for a, b in zip(got, BLANK)]))
                return
            r.oblige("side %d: caps, angles and filth are left alone" % s, z3.And(*[ieq(a, b) for a, b in zip(got[2:], g.before[s][2:])]))
            if not flush(sh, s):
                r.oblige("side %d: an edge off the border is solid and visible" % s, z3.And(B(got[0]), B(got[1])))
                return
            n = g.slot(DIR[s])
            covered = z3.And(B(n["p"]), z3.Or(*[I(n["shape"]) == q for q in range(21) if flush(q, OPP[s])]))
            r.oblige("side %d: solid exactly when no flush edge faces it" % s, B(got[0]) == z3.Not(covered))
            say = B(cbv[s]) if cb else z3.BoolVal(s in (1, 3))
            r.oblige("side %d: visible when solid or by sprite and callback" % s, B(got[1]) == z3.If(covered, z3.And(z3.Not(g.same_sprite(n)), say), True))

        h = Visit(r, v, g, spec)
        r.hooks.append(h)
        r.data["case"] = lambda vals: {"tiles": g.case(vals), "cb": "none" if not cb else "true" if any(vals.get("cb%d" % s) for s in range(4)) else "false", "perm": 1}
        if cb:
            lv.calculate_edge_visibility(visible_callback=callback)
        else:
            lv.calculate_edge_visibility()
        r.oblige("every tile is visited", h.done == 1)
        r.oblige("the level keeps its tile map", lv.tiles is g)

    return fn


SPLIT = [[0], list(range(1, 6)), list(range(6, 11)), list(range(11, 16)), list(range(16, 21))]


def groups(tier):
    for cb in (False, True):
        for part in SPLIT:
            yield {"name": "calculate_edge_visibility, %s, shapes %d-%d" % ("callback" if cb else "default", part[0], part[-1]), "functions": "Level.calculate_edge_visibility", "fn": visibility(cb, part)}
