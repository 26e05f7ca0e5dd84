from ..adapt import diff, un_tile
from ..geom import caps_spec, exists
from ..refcodec import blank_edge
from .base import Bad, eq, need
from .c15 import build, rtile


def fix(g, t, pv=0.8):
    for s in range(4):
        if not exists(t["shape"], s):
            t["edges"][s] = g.edge(True) if g.chance(0.3) else blank_edge()
            t["edges"][s]["visible"] = False
        else:
            e = t["edges"][s]
            e["visible"] = g.chance(pv)
            e["fset"] = g.r.choice([0, 1, 1, 2])
            e["fspike"] = g.chance(0.3)
    return t


NB = [(-1, -1), (0, -1), (1, -1), (-1, 0), (1, 0), (-1, 1), (0, 1), (1, 1)]


def gen(g):
    # all shape pairs at the 8 neighbour offsets
    for dx, dy in NB:
        for fil in range(2):
            tl = []
            for a in range(21):
                for b in range(21):
                    x, y = 6 * a - 60, 6 * b - 60
                    ta, tb = fix(g, rtile(g, a), 1.0), fix(g, rtile(g, b), 1.0)
                    tb.update({k: ta[k] for k in ("set", "tile", "pal")})
                    tl += [[19, x, y, ta], [19, x + dx, y + dy, tb]]
            yield {"tiles": tl, "perm": fil}
    while True:
        w = g.r.randint(1, 4)
        x0, y0 = g.r.choice([(0, 0), (-2, -2), (g.coord(1 << 20), g.coord(1 << 20))])
        dense = g.bool()
        ks = {(g.r.choice([19, 19, 19, 18]) if not dense else 19, x0 + g.r.randint(0, w), y0 + g.r.randint(0, w)) for _ in range(g.r.randint(1, 25 if not dense else 60))}
        tl = []
        sp = g.chance(0.6)
        for a, b, c in ks:
            t = fix(g, rtile(g), g.r.choice([0.5, 1.0, 1.0]))
            if sp:
                t.update(set=5, tile=1, pal=0)
            if g.chance(0.5):
                t["shape"] = g.r.choice([0, 17, 18, 19, 20])
                t = fix(g, t, 1.0)
            tl.append([a, b, c, t])
        yield {"tiles": tl, "perm": g.r.randrange(1000)}


def check(dm, case):
    model = {(a, b, c): t for a, b, c, t in case["tiles"]}
    want = {}
    for k, t in model.items():
        want[k] = dict(t, edges=[caps_spec(lambda a, b, c: model.get((a, b, c)), k, t, s, t["edges"][s], blank_edge) for s in range(4)])
    for perm in (0, case["perm"] + 1):
        lv = build(dm, case["tiles"], perm)
        lv.calculate_edge_caps()
        got = {tuple(k): un_tile(t) for k, t in lv.tiles.items()}
        d = diff(want, got)
        need(d is None, "%s", d)
        for t in lv.tiles.values():
            for e in t.edge_data:
                need(isinstance(e.filth_sprite_set, dm.tile.TileSpriteSet), "filth sprite set type")
                for pr in (e.caps, e.angles, e.filth_caps, e.filth_angles):
                    need(type(pr) is tuple and len(pr) == 2, "corner pairs must be tuples")
