from ..adapt import diff, mk_tile, un_tile
from ..geom import visibility_spec
from ..refcodec import blank_edge
from .base import Bad, eq, need

CB = ["none", "true", "false", "top", "sprite", "coord"]


def callback(name):
    return {"none": lambda x, y, s, t, n: s in (1, 3), "true": lambda x, y, s, t, n: True, "false": lambda x, y, s, t, n: False,
            "top": lambda x, y, s, t, n: s in (0, 2), "sprite": lambda x, y, s, t, n: (t["set"], t["tile"], t["pal"]) < (n["set"], n["tile"], n["pal"]),
            "coord": lambda x, y, s, t, n: (x + 3 * y + s + t["shape"] - n["shape"]) % 2 == 0}[name]


def rtile(g, shape=None):
    t = g.tile(True)
    if shape is not None:
        t["shape"] = shape
    t["set"], t["tile"], t["pal"] = g.r.choice([(5, 1, 0), (5, 1, 0), (5, 1, 1), (5, 2, 0), (2, 1, 0)])
    return t


def gen(g):
    n = 0
    # all shape pairs, 4 directions, packed far apart in one level
    for same in (True, False):
        for side, (dx, dy) in enumerate(((0, -1), (0, 1), (-1, 0), (1, 0))):
            tl = []
            for a in range(21):
                for b in range(21):
                    x, y = 5 * a - 50, 5 * b - 50
                    ta, tb = rtile(g, a), rtile(g, b)
                    if same:
                        tb.update({k: ta[k] for k in ("set", "tile", "pal")})
                    else:
                        k = g.r.choice(["set", "tile", "pal"])
                        tb.update({q: ta[q] for q in ("set", "tile", "pal")})
                        tb[k] += 1
                    tl += [[19, x, y, ta], [19, x + dx, y + dy, tb]]
            yield {"tiles": tl, "cb": "none" if same else g.r.choice(CB), "perm": side}
            if not same:
                yield {"tiles": tl, "cb": "none", "perm": 0}
    while True:
        w = g.r.randint(1, 5)
        x0, y0 = g.r.choice([(0, 0), (-2, -2), (g.coord(1 << 23), g.coord(1 << 23))])
        ks = {(g.r.choice([19, 19, 18, 0, 20]), max(-(1 << 23), min((1 << 23) - 1, x0 + g.r.randint(0, w))), max(-(1 << 23), min((1 << 23) - 1, y0 + g.r.randint(0, w)))) for _ in range(g.r.randint(1, 25))}
        yield {"tiles": [[a, b, c, rtile(g)] for a, b, c in ks], "cb": g.r.choice(CB), "perm": g.r.randrange(1000)}


def build(dm, tiles, perm):
    import random

    items = list(tiles)
    if perm:
        random.Random(perm).shuffle(items)
    lv = dm.level.Level()
    for a, b, c, t in items:
        lv.tiles[(a, b, c)] = mk_tile(dm, t)
    return lv


def check(dm, case):
    model = {(a, b, c): t for a, b, c, t in case["tiles"]}
    cb = callback(case["cb"])
    outs = []
    for perm in (0, case["perm"] + 1):
        lv = build(dm, case["tiles"], perm)

        def call(x, y, side, tile, nt):
            need(isinstance(side, dm.tile.TileSide), "callback side is %r", side)
            return cb(x, y, int(side), un_tile(tile), un_tile(nt))

        if case["cb"] == "none":
            lv.calculate_edge_visibility()
        else:
            lv.calculate_edge_visibility(visible_callback=call)
        outs.append({tuple(k): un_tile(t) for k, t in lv.tiles.items()})
        need(all(type(e.solid) is bool and type(e.visible) is bool for t in lv.tiles.values() for e in t.edge_data), "solid/visible are not booleans")
    want = {}
    for k, t in model.items():
        want[k] = dict(t, edges=[visibility_spec(lambda a, b, c: model.get((a, b, c)), k, t, s, t["edges"][s], blank_edge, cb) for s in range(4)])
    for o in outs:
        d = diff(want, o)
        need(d is None, "%s", d)
