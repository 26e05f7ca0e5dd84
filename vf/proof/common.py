"""Symbolic tiles and edges, comparison helpers shared by the property scripts."""
import z3

from . import engine as E
from .engine import B, I, SBool, SInt, boo, num

EDGE_FIELDS = ("solid", "visible", "caps", "angles", "filth_sprite_set", "filth_spike", "filth_caps", "filth_angles")


def sym_edge(r, v, n, ang=(-128, 127)):
    """a TileEdgeData with every field symbolic, within its documented range; inputs are named <n>_<field>"""
    e = v.tile.TileEdgeData()
    S = v.tile.TileSpriteSet
    b = lambda k: r.bool("%s_%s" % (n, k))
    a = lambda k: r.int("%s_%s" % (n, k), *ang)
    e.solid, e.visible = b("solid"), b("visible")
    e.caps = (b("cap0"), b("cap1"))
    e.angles = (a("ang0"), a("ang1"))
    e.filth_sprite_set = SInt(r.int("%s_fset" % n, 0, 7).e, S)
    e.filth_spike = b("fspike")
    e.filth_caps = (b("fcap0"), b("fcap1"))
    e.filth_angles = (a("fang0"), a("fang1"))
    return e


def edge_model(vals, n, ang=(-128, 127)):
    g = lambda k, d: vals.get("%s_%s" % (n, k), d)
    return {"solid": g("solid", False), "visible": g("visible", False), "caps": [g("cap0", False), g("cap1", False)], "angles": [g("ang0", 0), g("ang1", 0)],
            "fset": g("fset", 0), "fspike": g("fspike", False), "fcaps": [g("fcap0", False), g("fcap1", False)], "fangles": [g("fang0", 0), g("fang1", 0)]}


def edge_vals(e):
    """flat tuple of the observable fields"""
    return (e.solid, e.visible, e.caps[0], e.caps[1], e.angles[0], e.angles[1], e.filth_sprite_set, e.filth_spike, e.filth_caps[0], e.filth_caps[1], e.filth_angles[0], e.filth_angles[1])


EDGE_NAMES = ("solid", "visible", "first cap", "second cap", "first angle", "second angle", "filth set", "spike", "first filth cap", "second filth cap", "first filth angle", "second filth angle")


def ieq(a, b):
    """z3 equality of two python/symbolic integers or truth values"""
    if not isinstance(a, (int, SInt)) or not isinstance(b, (int, SInt)):
        raise E.Unsupported("value of type %s/%s where a number is expected" % (type(a).__name__, type(b).__name__))
    return I(a) == I(b)


def oblige_edge(r, name, got, want):
    """every field of the edge equals the expected flat tuple"""
    gv = edge_vals(got) if not isinstance(got, tuple) else got
    r.oblige(name, z3.And(*[ieq(g, w) for g, w in zip(gv, want)]))


def sym_tile(r, v, shape, n="t", ang=(-128, 127)):
    """tile with concrete or symbolic shape and everything else symbolic"""
    T = v.tile
    t = T.Tile(shape)
    t.tile_flags = r.int(n + "_flags", 0, 7)
    t.sprite_set = SInt(r.int(n + "_set", 0, 7).e, T.TileSpriteSet)
    t.sprite_tile = r.int(n + "_tile", 0, 255)
    t.sprite_palette = r.int(n + "_pal", 0, 15)
    t.edge_data = [sym_edge(r, v, "%s_e%d" % (n, s), ang) for s in range(4)]
    return t


def tile_model(vals, shape, n="t"):
    return {"shape": shape, "flags": vals.get(n + "_flags", 4), "set": vals.get(n + "_set", 0), "tile": vals.get(n + "_tile", 0), "pal": vals.get(n + "_pal", 0),
            "edges": [edge_model(vals, "%s_e%d" % (n, s)) for s in range(4)]}


def snapshot(t):
    """observable fields of a tile as a structure of values"""
    return {"shape": t.shape, "flags": t.tile_flags, "set": t.sprite_set, "tile": t.sprite_tile, "pal": t.sprite_palette, "edges": [edge_vals(e) for e in t.edge_data]}


BLANK = (False, False, False, False, 0, 0, 0, False, False, False, 0, 0)
ENGINE = ["z3 4.15 and cvc5 1.1.2", "the engine and instrumentation in /verif/vf/proof (self-tests: vf/selftest.py)", "CPython 3.12"]
