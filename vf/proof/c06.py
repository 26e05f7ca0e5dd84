"""C06: the 12-byte surface and dust records, for every tile and every record."""
import z3

from . import engine as E
from .common import ENGINE, edge_model, edge_vals, ieq, sym_tile, tile_model
from .engine import B, I, SInt, num

FUNCTIONS = ["tile.Tile._pack_tile_data", "tile.Tile._unpack_tile_data", "tile.Tile._pack_dust_data", "tile.Tile._unpack_dust_data", "tile.Tile.__init__"]
ASSUMPTIONS = []
TRUSTED = ENGINE
LB = (1, 2)  # bottom, left: corner pairs are swapped in the records


def bit(x, i):
    return (I(x) / (1 << i)) % 2


def z(b):
    return z3.If(B(b), z3.IntVal(1), z3.IntVal(0))


def sw(s, p):
    return (p[1], p[0]) if s in LB else p


def surface_spec(t):
    """expected bytes as z3 integers"""
    d = [z3.IntVal(0)] * 12
    for s, e in enumerate(t.edge_data):
        c, a = sw(s, e.caps), sw(s, e.angles)
        d[0] = d[0] + z(e.solid) * (1 << s) + z(e.visible) * (1 << (4 + s))
        d[1] = d[1] + z(c[0]) * (1 << (2 * s)) + z(c[1]) * (1 << (2 * s + 1))
        d[2 + 2 * s] = I(a[0]) % 256
        d[3 + 2 * s] = I(a[1]) % 256
    d[10] = I(t.sprite_set) + 16 * I(t.sprite_palette)
    d[11] = I(t.sprite_tile)
    return d


def dust_spec(t):
    d = [z3.IntVal(0)] * 12
    for s, e in enumerate(t.edge_data):
        c, a = sw(s, e.filth_caps), sw(s, e.filth_angles)
        d[s // 2] = d[s // 2] + (I(e.filth_sprite_set) + 8 * z(e.filth_spike)) * (16 if s % 2 else 1)
        d[2 + 2 * s] = I(a[0]) % 256
        d[3 + 2 * s] = I(a[1]) % 256
        d[10] = d[10] + z(c[0]) * (1 << (2 * s)) + z(c[1]) * (1 << (2 * s + 1))
    return d


def codes(x):
    if isinstance(x, bytes):
        return list(x)
    return [x.at(i) for i in range(len(x))]


def case(r):
    r.data["case"] = lambda v: {"tiles": [tile_model(v, v.get("t_shape", 0))]}


def pack(kind):
    def fn(r, v):
        t = sym_tile(r, v, SInt(r.int("t_shape", 0, 20).e, v.tile.TileShape))
        case(r)
        want = surface_spec(t) if kind == "tile" else dust_spec(t)
        before = [edge_vals(e) for e in t.edge_data]
        if kind == "dust":
            # dust records are written for tiles with filth only
            r.assume(z3.Or(*[I(e.filth_sprite_set) != 0 for e in t.edge_data]))
        got = t._pack_tile_data() if kind == "tile" else t._pack_dust_data()
        r.oblige("the record has 12 bytes", len(got) == 12)
        for i, (g, w) in enumerate(zip(codes(got), want)):
            if kind == "dust" and i == 11:
                continue  # the last byte of a dust record carries nothing
            r.oblige("byte %d of the %s record" % (i, kind), I(g) == w)
        for e, b in zip(t.edge_data, before):
            r.oblige("packing changes nothing", z3.And(*[ieq(x, y) for x, y in zip(edge_vals(e), b)]))

    return fn


def s8(x):
    return z3.If(I(x) >= 128, I(x) - 256, I(x))


def rec(r, kind):
    from .vals import mkbytes

    return [r.int("byte%d" % i, 0, 255) for i in range(12)], None


def unpack_case(kind):
    def f(vals):
        d = [vals.get("byte%d" % i, 0) for i in range(12)]
        from ..refcodec import blank_tile, dec_dust_rec, dec_tile_rec

        t = blank_tile()
        t["shape"] = 0
        (dec_tile_rec if kind == "tile" else dec_dust_rec)(bytes(d), t)
        return {"tiles": [t]}

    return f


def unpack(kind):
    def fn(r, v):
        from .vals import mkbytes

        d = [r.int("byte%d" % i, 0, 255) for i in range(12)]
        r.data["case"] = unpack_case(kind)
        if kind == "tile":
            r.assume(I(d[10]) % 16 <= 7)  # a sprite set the format knows
        data = mkbytes(d)
        S = v.tile.TileSpriteSet
        sh = v.tile.TileShape.FULL
        fl = r.int("t_flags", 0, 7)
        if kind == "tile":
            t = v.tile.Tile(sh, tile_flags=fl, _tile_data=data)
        else:
            t = v.tile.Tile(sh, tile_flags=fl)
            sprite = (t.sprite_set, t.sprite_tile, t.sprite_palette)
            from .common import sym_edge

            for s in range(4):
                t.edge_data[s] = sym_edge(r, v, "t_e%d" % s)
            old = [edge_vals(e) for e in t.edge_data]
            t._unpack_dust_data(data)
        r.oblige("shape and flags are kept", z3.And(ieq(t.shape, 0), ieq(t.tile_flags, fl)))
        r.oblige("four edges", len(t.edge_data) == 4)
        for s, e in enumerate(t.edge_data):
            if kind == "tile":
                r.oblige("solid flag of side %d" % s, z(e.solid) == bit(d[0], s))
                r.oblige("visible flag of side %d" % s, z(e.visible) == bit(d[0], 4 + s))
                c, a = sw(s, e.caps), sw(s, e.angles)
                r.oblige("caps of side %d" % s, z3.And(z(c[0]) == bit(d[1], 2 * s), z(c[1]) == bit(d[1], 2 * s + 1)))
                r.oblige("angles of side %d" % s, z3.And(I(a[0]) == s8(d[2 + 2 * s]), I(a[1]) == s8(d[3 + 2 * s])))
                ev = edge_vals(e)
                r.oblige("no filth comes from the surface record", z3.And(*[ieq(x, 0) for x in ev[6:]]))
            else:
                nib = (I(d[s // 2]) / (16 if s % 2 else 1)) % 16
                r.oblige("filth set of side %d" % s, ieq(e.filth_sprite_set, num(nib % 8)))
                r.oblige("filth set type", getattr(e.filth_sprite_set, "enum", type(e.filth_sprite_set)) is S)
                r.oblige("spike flag of side %d" % s, z(e.filth_spike) == nib / 8)
                c, a = sw(s, e.filth_caps), sw(s, e.filth_angles)
                r.oblige("filth caps of side %d" % s, z3.And(z(c[0]) == bit(d[10], 2 * s), z(c[1]) == bit(d[10], 2 * s + 1)))
                r.oblige("filth angles of side %d" % s, z3.And(I(a[0]) == s8(d[2 + 2 * s]), I(a[1]) == s8(d[3 + 2 * s])))
                r.oblige("the surface data stays", z3.And(*[ieq(x, y) for x, y in zip(edge_vals(e)[:6], old[s][:6])]))
        if kind == "tile":
            r.oblige("sprite set", ieq(t.sprite_set, num(I(d[10]) % 16)))
            r.oblige("sprite set type", getattr(t.sprite_set, "enum", type(t.sprite_set)) is S)
            r.oblige("palette", ieq(t.sprite_palette, num(I(d[10]) / 16)))
            r.oblige("tile index", ieq(t.sprite_tile, d[11]))
        else:
            r.oblige("sprite stays", t.sprite_set == sprite[0] and t.sprite_tile == sprite[1] and t.sprite_palette == sprite[2])

    return fn


def groups(tier):
    yield {"name": "Tile._pack_tile_data", "functions": "Tile._pack_tile_data", "fn": pack("tile")}
    yield {"name": "Tile._pack_dust_data", "functions": "Tile._pack_dust_data", "fn": pack("dust")}
    yield {"name": "Tile._unpack_tile_data", "functions": "Tile._unpack_tile_data", "fn": unpack("tile")}
    yield {"name": "Tile._unpack_dust_data", "functions": "Tile._unpack_dust_data", "fn": unpack("dust")}
