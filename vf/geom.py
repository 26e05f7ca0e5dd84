"""Geometry specification of tiles (independent of /repo's tables).

Coordinates are half-tile units, y grows downwards.  OUT[shape] lists the
outline corners top-left, top-right, bottom-right, bottom-left; side s runs
clockwise from corner CW[s] to corner CW[s]+1 (sides: 0 top 1 bottom 2 left 3 right)."""
import math
from fractions import Fraction

OUT = (
    ((0, 0), (2, 0), (2, 2), (0, 2)),
    ((0, 0), (2, 1), (2, 2), (0, 2)), ((0, 1), (2, 2), (2, 2), (0, 2)),
    ((0, 0), (2, 0), (1, 2), (0, 2)), ((0, 0), (1, 0), (0, 2), (0, 2)),
    ((0, 0), (2, 0), (2, 2), (0, 1)), ((0, 0), (2, 0), (2, 1), (0, 0)),
    ((1, 0), (2, 0), (2, 2), (0, 2)), ((2, 0), (2, 0), (2, 2), (1, 2)),
    ((0, 1), (2, 0), (2, 2), (0, 2)), ((0, 2), (2, 1), (2, 2), (0, 2)),
    ((0, 0), (2, 0), (2, 2), (1, 2)), ((1, 0), (2, 0), (2, 2), (2, 2)),
    ((0, 0), (2, 0), (2, 1), (0, 2)), ((0, 0), (2, 0), (2, 0), (0, 1)),
    ((0, 0), (1, 0), (2, 2), (0, 2)), ((0, 0), (0, 0), (1, 2), (0, 2)),
    ((0, 0), (2, 2), (2, 2), (0, 2)), ((0, 0), (2, 0), (2, 0), (0, 2)),
    ((0, 0), (2, 0), (2, 2), (0, 0)), ((0, 2), (2, 0), (2, 2), (0, 2)),
)
CW = (0, 2, 3, 1)
DIR = ((0, -1), (0, 1), (-1, 0), (1, 0))
OPP = (1, 0, 3, 2)


def edge(shape, side):
    """directed (clockwise) segment of a side"""
    v = OUT[shape]
    return v[CW[side]], v[(CW[side] + 1) % 4]


def exists(shape, side):
    (ax, ay), (bx, by) = edge(shape, side)
    return abs(ax - bx) + abs(ay - by) > 1


def flush(shape, side):
    """existing edge that lies on the tile border"""
    if not exists(shape, side):
        return False
    (ax, ay), (bx, by) = edge(shape, side)
    return ax == bx or ay == by


def outline(shape):
    return frozenset(OUT[shape])


# the eight symmetries of the square as 2x2 integer matrices (screen coords)
SYM = tuple((a, b, c, d) for (a, b, c, d) in
            ((1, 0, 0, 1), (0, -1, 1, 0), (-1, 0, 0, -1), (0, 1, -1, 0),
             (-1, 0, 0, 1), (1, 0, 0, -1), (0, 1, 1, 0), (0, -1, -1, 0)))


def det(g):
    return g[0] * g[3] - g[1] * g[2]


def ap(g, v):
    return (g[0] * v[0] + g[1] * v[1], g[2] * v[0] + g[3] * v[1])


def mul(g, h):
    return (g[0] * h[0] + g[1] * h[2], g[0] * h[1] + g[1] * h[3], g[2] * h[0] + g[3] * h[2], g[2] * h[1] + g[3] * h[3])


def apc(g, v, c=1):
    """apply about the tile centre (c, c)"""
    x, y = ap(g, (v[0] - c, v[1] - c))
    return (x + c, y + c)


def image_shape(g, shape):
    want = frozenset(apc(g, v) for v in OUT[shape])
    r = [s for s in range(21) if outline(s) == want]
    assert len(r) == 1, (g, shape, r)
    return r[0]


def image_side(g, shape, side):
    """side of image_shape carrying the image of an existing side"""
    a, b = edge(shape, side)
    a, b = apc(g, a), apc(g, b)
    if det(g) < 0:
        a, b = b, a
    ns = image_shape(g, shape)
    r = [s for s in range(4) if exists(ns, s) and edge(ns, s) == (a, b)]
    assert len(r) == 1, (g, shape, side, r)
    return r[0]


def image_edge(g, e):
    """edge data model under symmetry g"""
    if det(g) > 0:
        return dict(e)
    d = dict(e)
    d["caps"] = [e["caps"][1], e["caps"][0]]
    d["fcaps"] = [e["fcaps"][1], e["fcaps"][0]]
    d["angles"] = [-e["angles"][1], -e["angles"][0]]
    d["fangles"] = [-e["fangles"][1], -e["fangles"][0]]
    return d


def area2(poly):
    """twice the signed area"""
    return sum(x0 * y1 - x1 * y0 for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]))


def inside(poly, p):
    """p inside or on the clockwise (screen) convex polygon, degenerate sides ignored"""
    for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1]):
        if (x1 - x0) * (p[1] - y0) - (y1 - y0) * (p[0] - x0) < 0:
            return False
    return True


def on_segment(p, a, b):
    return ((b[0] - a[0]) * (p[1] - a[1]) == (b[1] - a[1]) * (p[0] - a[0])
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def half_turn_degrees(d0, d1):
    """half the signed turn from direction d0 to d1, degrees, clockwise (screen) positive, truncated"""
    t = math.degrees(math.atan2(d1[1], d1[0]) - math.atan2(d0[1], d0[0]))
    while t > 180 + 1e-9:
        t -= 360
    while t <= -180 + 1e-9:
        t += 360
    h = t / 2
    return int(math.copysign(math.floor(abs(h) + 1e-7), h)) if abs(h) > 1e-7 else 0


CORNERS = ((0, 0), (2, 0), (2, 2), (0, 2))


def caps_spec(get, key, tile, side, e, blank):
    """expected edge model after cap calculation (docstring rules).

    get(layer, x, y) -> tile model or None; tile/e: models before the call."""
    out = dict(e)
    if not e["visible"]:
        b = blank()
        b["solid"], b["visible"] = e["solid"], e["visible"]
        return b
    layer, x, y = key
    caps, angles, fcaps, fangles = [False, False], [0, 0], [False, False], [0, 0]
    for end in range(2):
        a, b = edge(tile["shape"], side)
        if end == 0:  # traverse counter-clockwise towards the first corner
            a, b = b, a
        if b not in CORNERS:
            continue
        d0 = (b[0] - a[0], b[1] - a[1])
        best = None
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                if (dx, dy) == (0, 0):
                    continue
                nt = get(layer, x + dx, y + dy)
                if nt is None or (nt["set"], nt["tile"], nt["pal"]) != (tile["set"], tile["tile"], tile["pal"]):
                    continue
                ne = nt["edges"][side]
                if not ne["visible"] or not exists(nt["shape"], side):
                    continue
                na, nb = edge(nt["shape"], side)
                if end == 0:
                    na, nb = nb, na
                if (na[0] + 2 * dx, na[1] + 2 * dy) != b:
                    continue
                d1 = (nb[0] - na[0], nb[1] - na[1])
                turn = math.atan2(d0[0] * d1[1] - d0[1] * d1[0], d0[0] * d1[0] + d0[1] * d1[1])
                # furthest away from the tile: counter-clockwise when traversing clockwise
                score = turn if end == 1 else -turn
                if best is None or score < best[0] - 1e-9:
                    best = (score, half_turn_degrees(d0, d1), ne)
        if best is None:
            caps[end] = True
            fcaps[end] = e["fset"] != 0
            continue
        angles[end] = best[1]
        if e["fset"]:
            if (best[2]["fset"], bool(best[2]["fspike"])) == (e["fset"], bool(e["fspike"])):
                fangles[end] = best[1]
            else:
                fcaps[end] = True
    out.update(caps=caps, angles=angles, fcaps=fcaps, fangles=fangles)
    return out


def visibility_spec(get, key, tile, side, e, blank, callback):
    layer, x, y = key
    sh = tile["shape"]
    if not exists(sh, side):
        return blank()
    out = dict(e)
    nt = get(layer, x + DIR[side][0], y + DIR[side][1])
    if not flush(sh, side) or nt is None or not flush(nt["shape"], OPP[side]):
        out["solid"] = out["visible"] = True
        return out
    out["solid"] = False
    same = (tile["set"], tile["tile"], tile["pal"]) == (nt["set"], nt["tile"], nt["pal"])
    out["visible"] = (not same) and bool(callback(x, y, side, tile, nt))
    return out


def upscale_spec(shape, n):
    """-> function (placed list [(dx,dy,subshape)]) -> None or complaint about coverage"""
    big = tuple((x * n, y * n) for x, y in OUT[shape])

    def check(placed):
        if len({(dx, dy) for dx, dy, _ in placed}) != len(placed):
            return "two tiles at one position"
        tot = 0
        for dx, dy, s in placed:
            if not (0 <= dx < n and 0 <= dy < n):
                return "tile outside the square at %r" % ((dx, dy),)
            poly = tuple((x + 2 * dx, y + 2 * dy) for x, y in OUT[s])
            for p in poly:
                if not inside(big, p):
                    return "tile at %r sticks out of the enlarged outline" % ((dx, dy),)
            tot += area2(poly)
        if tot != area2(big):
            return "area %s, expected %s" % (Fraction(tot, 8), Fraction(area2(big), 8))
        return None

    return check


def upscale_edge_spec(shape, edges, n, dx, dy, sub, side, blank):
    """expected edge data of one placed sub-tile (sides that exist on it)"""
    a, b = edge(sub, side)
    a, b = (a[0] + 2 * dx, a[1] + 2 * dy), (b[0] + 2 * dx, b[1] + 2 * dy)
    for s in range(4):
        if not exists(shape, s):
            continue
        A, Bv = edge(shape, s)
        A, Bv = (A[0] * n, A[1] * n), (Bv[0] * n, Bv[1] * n)
        if on_segment(a, A, Bv) and on_segment(b, A, Bv):
            if s != side:
                return None
            e = dict(edges[s])
            keep = (a == A, b == Bv)
            for key, zero in (("caps", False), ("angles", 0), ("fcaps", False), ("fangles", 0)):
                e[key] = [v if k else zero for v, k in zip(e[key], keep)]
            return e
    return blank()
