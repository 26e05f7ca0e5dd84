from ..adapt import diff, mk_tile, un_tile
from ..geom import SYM, ap, exists, image_edge, image_shape, image_side, mul
from ..refcodec import blank_edge, blank_tile
from .base import Bad, eq, need


def tagged(shape, base=0):
    t = blank_tile()
    t.update(shape=shape, flags=5, set=3, tile=77, pal=9)
    for s in range(4):
        e = t["edges"][s]
        k = base + s
        e.update(solid=bool(k & 1), visible=bool(k & 2), caps=[bool(k & 1), not k & 1], angles=[10 + s, -20 - s], fset=1 + s, fspike=bool(s & 1),
                 fcaps=[not k & 2, bool(k & 2)], fangles=[30 + s, -40 - s])
        if not exists(shape, s):
            t["edges"][s] = blank_edge()
    return t


def gen(g):
    for sh in range(21):
        for gi in range(8):
            yield {"t": tagged(sh, gi), "g": gi, "k": 1, "d": [0, 0], "h": 0}
    for sh in range(21):
        for gi in range(8):
            for h in range(8):
                yield {"t": tagged(sh), "g": gi, "k": 1, "d": [0, 0], "h": h}
    for sh in range(21):
        for gi in range(8):
            for k, d in ((2, [5, -7]), (0.5, [0, 0]), (3, [48.0, -0.5]), (1, [1e7, -1e7]), (0.001, [3, 3]), (1e6, [1, 2])):
                yield {"t": tagged(sh), "g": gi, "k": k, "d": d, "h": 0}
    while True:
        t = g.tile(True)
        for s in range(4):
            t["edges"][s] = g.edge(True) if exists(t["shape"], s) else blank_edge()
            t["edges"][s]["angles"] = [max(-127, a) for a in t["edges"][s]["angles"]]
            t["edges"][s]["fangles"] = [max(-127, a) for a in t["edges"][s]["fangles"]]
        yield {"t": t, "g": g.r.randrange(8), "k": g.r.choice([1, 1, 2, 0.25, g.r.random() * 10 + 0.01, g.r.randint(1, 100)]), "d": [g.int(-100000, 100000), g.int(-100000, 100000) / 2], "h": g.r.randrange(8)}


def image(gm, t):
    ns = image_shape(gm, t["shape"])
    out = dict(t, shape=ns, edges=[blank_edge() for _ in range(4)])
    for s in range(4):
        if exists(t["shape"], s):
            out["edges"][image_side(gm, t["shape"], s)] = image_edge(gm, t["edges"][s])
    return out


def cmp_tiles(want, got):
    """compare; edges the shape does not have are ignored"""
    got = dict(got, edges=[e if exists(want["shape"], s) else blank_edge() for s, e in enumerate(got["edges"])])
    return diff(want, got)


def check(dm, case):
    T = dm.transform.TxMatrix
    a = SYM[case["g"]]
    k, d = case["k"], case["d"]
    m = T(((a[0] * k, a[1] * k, d[0]), (a[2] * k, a[3] * k, d[1]), (0, 0, 1)))
    tl = mk_tile(dm, case["t"])
    tl.transform(m)
    want = image(a, case["t"])
    x = cmp_tiles(want, un_tile(tl))
    need(x is None, "shape %d under %r: %s", case["t"]["shape"], a, x)
    need(isinstance(tl.shape, dm.tile.TileShape), "shape is not a TileShape")
    b = SYM[case["h"]]
    tl.transform(T(((b[0], b[1], 0), (b[2], b[3], 0), (0, 0, 1))))
    want2 = image(mul(b, a), case["t"])
    x = cmp_tiles(want2, un_tile(tl))
    need(x is None, "shape %d under %r then %r: %s", case["t"]["shape"], a, b, x)
