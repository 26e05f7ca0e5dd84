from ..adapt import diff, mk_tile, un_tile
from ..refcodec import blank_edge, blank_tile, dec_level, enc_level, has_filth
from .base import Bad, eq, need, reader, write_with


def grid(tiles):
    return [[19, (i % 200) - 100, (i // 200) * 3 - 40, t] for i, t in enumerate(tiles)]


def gen(g):
    # one-hot sweep of every flag/angle bit of every edge
    tl = []
    for s in range(4):
        for k, v in (("solid", True), ("visible", True), ("caps", [True, False]), ("caps", [False, True]), ("fspike", True),
                     ("fcaps", [True, False]), ("fcaps", [False, True])):
            t = blank_tile()
            t["edges"][s][k] = v
            if k.startswith("f"):
                t["edges"][(s + 1) % 4]["fset"] = 3
            tl.append(t)
        for a in (-128, -127, -90, -45, -1, 1, 2, 45, 89, 126, 127):
            for c in (0, 1):
                for key in ("angles", "fangles"):
                    t = blank_tile()
                    t["edges"][s][key][c] = a
                    if key == "fangles":
                        t["edges"][s]["fset"] = 1 + (a & 3)
                    tl.append(t)
        for f in range(1, 8):
            for sp in (False, True):
                t = blank_tile()
                t["edges"][s]["fset"] = f
                t["edges"][s]["fspike"] = sp
                tl.append(t)
    for st in range(8):
        for pal in range(16):
            t = blank_tile()
            t.update(set=st, pal=pal, tile=(st * 16 + pal) * 2 + 1)
            tl.append(t)
    for n in range(256):
        t = blank_tile()
        t["tile"] = n
        tl.append(t)
    yield {"tiles": tl}
    while True:
        yield {"tiles": [g.tile(filth=g.chance(0.7)) for _ in range(40)]}


def check(dm, case):
    tl = grid(case["tiles"])
    lv = dm.level.Level()
    for ly, x, y, t in tl:
        lv.tiles[(ly, x, y)] = mk_tile(dm, t)
    want = {(a, b, c): t for a, b, c, t in tl}
    for t in want.values():
        if not has_filth(t):
            for e in t["edges"]:
                b = blank_edge()
                for k in ("fset", "fspike", "fcaps", "fangles"):
                    e[k] = b[k]
    out = write_with(dm, lambda w: w.write_level(lv))
    try:
        d = dec_level(out)
    except ValueError as e:
        raise Bad("written records undecodable: %s" % e)
    need(diff(want, d["tiles"]) is None, "packed records: %s", diff(want, d["tiles"]))
    m = {"sshot": "", "vars": [], "tiles": tl, "props": [], "entities": [], "backdrop": None}
    lv2 = reader(dm, enc_level(m)).read_level()
    got = {tuple(k): un_tile(t) for k, t in lv2.tiles.items()}
    need(diff(want, got) is None, "unpacked records: %s", diff(want, got))
    out2 = write_with(dm, lambda w: w.write_level(lv2))
    need(diff(want, dec_level(out2)["tiles"]) is None, "repacked records differ")
    for ty in (dm.tile.TileSpriteSet,):
        need(all(isinstance(t.sprite_set, ty) and all(isinstance(e.filth_sprite_set, ty) for e in t.edge_data) for t in lv2.tiles.values()), "sprite sets are not TileSpriteSet")
