"""C12: Tile.transform for every shape, symmetry, scale, translation and every edge content."""
import z3

from ..geom import SYM, det, exists, image_edge, image_shape, image_side, mul
from . import engine as E
from .common import BLANK, ENGINE, edge_vals, ieq, snapshot, sym_tile, tile_model
from .engine import B, I, SInt

FUNCTIONS = ["tile.Tile.transform", "transform.TxMatrix.flipped", "transform.TxMatrix.determinant", "transform.TxMatrix.__new__"]
ASSUMPTIONS = ["matrix entries are exact reals; math.atan2 is exact on the axes"]
TRUSTED = ENGINE


def image_vals(g, ev):
    """expected flat edge tuple under symmetry g"""
    if det(g) > 0:
        return ev
    so, vi, c0, c1, a0, a1, fs, sp, fc0, fc1, fa0, fa1 = ev
    return (so, vi, c1, c0, -a1, -a0, fs, sp, fc1, fc0, -fa1, -fa0)


def tr(sh, gi):
    def fn(r, v):
        g = SYM[gi]
        k = r.real("k")
        r.assume(k.e > 0)
        dx, dy = r.real("dx"), r.real("dy")
        T = v.tile
        t = sym_tile(r, v, T.TileShape(sh), ang=(-127, 127))
        r.data["case"] = lambda vals: {"t": dict(tile_model(vals, sh)), "g": gi, "k": vals["k"], "d": [vals["dx"], vals["dy"]], "h": 0}
        old = snapshot(t)
        m = v.transform.TxMatrix(((g[0] * k, g[1] * k, dx), (g[2] * k, g[3] * k, dy), (0, 0, 1)))
        t.transform(m)
        new = snapshot(t)
        ns = image_shape(g, sh)
        r.oblige("shape is the image shape", ieq(new["shape"], ns))
        r.oblige("shape is a TileShape", getattr(new["shape"], "enum", type(new["shape"])) is T.TileShape)
        r.oblige("flags and sprite unchanged", z3.And(*[ieq(new[x], old[x]) for x in ("flags", "set", "tile", "pal")]))
        r.oblige("four edges", len(new["edges"]) == 4)
        for s in range(4):
            if exists(sh, s):
                q = image_side(g, sh, s)
                want = image_vals(g, old["edges"][s])
                r.oblige("edge data of side %d moves to side %d" % (s, q), z3.And(*[ieq(x, y) for x, y in zip(new["edges"][q], want)]))

    return fn


def lemma(r, v):
    """over the specification: transforming by A then by B equals transforming by B*A (finite)"""
    e = {"caps": [1, 2], "angles": [3, 4], "fcaps": [5, 6], "fangles": [7, 8]}
    for s in range(21):
        for g in SYM:
            for h in SYM:
                hg = mul(h, g)
                r.oblige("lemma: shapes compose", image_shape(h, image_shape(g, s)) == image_shape(hg, s))
                r.oblige("lemma: edge data composes", image_edge(h, image_edge(g, e)) == image_edge(hg, e))
                for d in range(4):
                    if exists(s, d):
                        r.oblige("lemma: sides compose", image_side(h, image_shape(g, s), image_side(g, s, d)) == image_side(hg, s, d))


def groups(tier):
    for gi in range(8):
        def fn(r, v, gi=gi):
            tr(r.choose(21), gi)(r, v)

        yield {"name": "Tile.transform by symmetry %d (all 21 shapes)" % gi, "functions": "Tile.transform", "fn": fn}
    yield {"name": "composition lemma", "functions": "specification", "fn": lemma}
