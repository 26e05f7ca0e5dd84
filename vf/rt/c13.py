from ..adapt import diff, mk_tile, un_tile
from ..geom import exists, upscale_edge_spec, upscale_spec
from ..refcodec import blank_edge
from .base import Bad, eq, need
from .c12 import tagged


def gen(g):
    for n in range(1, 7):
        for sh in range(21):
            yield {"t": tagged(sh), "n": n}
    for n in (7, 8, 9, 10, 13, 16, 17):
        for sh in range(21):
            yield {"t": tagged(sh), "n": n}
    while True:
        t = g.tile(True)
        for s in range(4):
            t["edges"][s] = g.edge(True) if exists(t["shape"], s) else blank_edge()
            for k in ("angles", "fangles"):
                t["edges"][s][k] = [max(-127, a) for a in t["edges"][s][k]]
        yield {"t": t, "n": g.r.choice([1, 2, 3, 4, 5, 6, g.r.randint(1, 14)])}


def check(dm, case):
    t, n = case["t"], case["n"]
    tl = mk_tile(dm, t)
    res = list(tl.upscale(n))
    x = diff(t, un_tile(tl))
    need(x is None, "upscaling changed the tile: %s", x)
    subs = [(dx, dy, un_tile(s)) for dx, dy, s in res]
    need(all(s is not tl for _, _, s in res), "upscale returned the tile itself")
    x = upscale_spec(t["shape"], n)([(dx, dy, s["shape"]) for dx, dy, s in subs])
    need(x is None, "shape %d, factor %d: %s", t["shape"], n, x)
    ids = set()
    for _, _, s in res:
        for e in s.edge_data:
            need(id(e) not in ids, "sub-tiles share edge data objects")
            ids.add(id(e))
    for dx, dy, s in subs:
        eq((s["set"], s["tile"], s["pal"]), (t["set"], t["tile"], t["pal"]), "sprite at %r", (dx, dy))
        for side in range(4):
            if not exists(s["shape"], side):
                continue
            w = upscale_edge_spec(t["shape"], t["edges"], n, dx, dy, s["shape"], side, blank_edge)
            need(w is not None, "piece at %r lies on another side", (dx, dy))
            x = diff(w, s["edges"][side])
            need(x is None, "shape %d factor %d piece %r side %d: %s", t["shape"], n, (dx, dy), side, x)
