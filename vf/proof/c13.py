"""C13: Tile.upscale for every shape, every factor n >= 1 and every edge content.

The generator is executed with a symbolic factor; its loops are cut.  Every yield site met on a path gives a
record (path condition, position as a function of the loop indices); what is yielded for an arbitrary iteration is
checked on the spot, then over all records: no two iterations yield the same position, and every cell of the n x n
square that meets the interior of the enlarged outline is yielded."""
import z3

from ..geom import CW, OUT, edge, exists
from . import engine as E
from .common import ENGINE, edge_model, edge_vals, ieq, snapshot, sym_tile, tile_model
from .engine import B, I, Rl, SInt, num

FUNCTIONS = ["tile.Tile.upscale", "tile.Tile.transform", "tile.Tile.set_sprite_tuple", "tile.Tile.get_sprite_tuple", "transform.TxMatrix.translate", "transform.TxMatrix.sample", "transform.TxMatrix.__mul__"]
ASSUMPTIONS = ["edges the shape does not have carry no data", "edge join angles within -127..127", "matrix entries are exact; math.atan2 is exact on the axes"]
TRUSTED = ENGINE


def planes(shape):
    """half-planes a*x + b*y + c >= 0 of the outline (half-tile units)"""
    v = OUT[shape]
    out = []
    for i in range(4):
        (x0, y0), (x1, y1) = v[i], v[(i + 1) % 4]
        if (x0, y0) != (x1, y1):
            out.append((-(y1 - y0), x1 - x0, -(x1 - x0) * y0 + (y1 - y0) * x0))
    return out


def inside(shape, n, x, y, strict=False):
    """(x, y) in the outline enlarged n times"""
    f = (lambda e: e > 0) if strict else (lambda e: e >= 0)
    return z3.And(*[f(a * x + b * y + c * n) for a, b, c in planes(shape)])


def consts(*es):
    seen, out = set(), []

    def go(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(e)
        for c in e.children():
            go(c)

    for e in es:
        go(e)
    return out


def case(vals, sh):
    if vals["n"] > 40:
        return None
    t = dict(tile_model(vals, sh), flags=4)
    t["edges"] = [e if exists(sh, s) else edge_model({}, "") for s, e in enumerate(t["edges"])]
    return {"t": t, "n": vals["n"]}


def up(sh):
    def fn(r, v):
        T = v.tile
        n = r.int("n", 1)
        t = sym_tile(r, v, T.TileShape(sh), ang=(-127, 127))
        t.tile_flags = 4
        for s in range(4):
            if not exists(sh, s):
                t.edge_data[s] = T.TileEdgeData()
        r.data["case"] = lambda vals: case(vals, sh)
        r.data["prefer"] = n.e <= 12
        old = snapshot(t)
        objs = list(t.edge_data)
        recs = r.ex.memo.setdefault("records", {})
        order = 0
        for item in t.upscale(n):
            r.oblige("a triple is yielded", type(item) is tuple and len(item) == 3)
            dx, dy, st = item
            r.oblige("positions are whole numbers", isinstance(dx, (int, SInt)) and isinstance(dy, (int, SInt)) and not isinstance(dx, bool))
            r.oblige("a tile is yielded", isinstance(st, T.Tile) and st is not t)
            N, X, Y = n.e, I(dx), I(dy)
            r.oblige("position inside the square", z3.And(X >= 0, X < N, Y >= 0, Y < N))
            key = (r.key(), order)
            order += 1
            if key not in recs:
                fresh = [c for c in consts(*r.pc, X, Y) if str(c) not in r.inputs]
                mine = (z3.And(*r.pc) if r.pc else z3.BoolVal(True), X, Y, fresh)
                for k, other in recs.items():
                    distinct(r, mine, other)
                distinct(r, mine, mine)
                recs[key] = mine
            r.oblige("sprite of the original", z3.And(ieq(st.sprite_set, old["set"]), ieq(st.sprite_tile, old["tile"]), ieq(st.sprite_palette, old["pal"])))
            r.oblige("four edges", len(st.edge_data) == 4)
            r.oblige("edge data is not shared", len({id(e) for e in st.edge_data}) == 4 and not any(e is o for e in st.edge_data for o in objs))
            sub = int(st.shape)
            r.oblige("shape is a TileShape", getattr(st.shape, "enum", type(st.shape)) is T.TileShape)
            u, w = z3.Real("u"), z3.Real("w")
            r.inputs["u"], r.inputs["w"] = u, w
            NR = z3.ToReal(N)
            gx, gy = 2 * z3.ToReal(X) + u, 2 * z3.ToReal(Y) + w
            r.oblige("the tile covers exactly its part of the enlarged outline",
                     z3.Implies(z3.And(u >= 0, u <= 2, w >= 0, w <= 2), inside(sh, NR, gx, gy) == inside(sub, z3.RealVal(1), u, w)))
            for s in range(4):
                if not exists(sub, s):
                    continue
                a, b = edge(sub, s)
                a, b = (2 * X + a[0], 2 * Y + a[1]), (2 * X + b[0], 2 * Y + b[1])
                ev = edge_vals(st.edge_data[s])
                on_any = z3.BoolVal(False)
                for q in range(4):
                    if not exists(sh, q):
                        continue
                    A, Bq = edge(sh, q)
                    A, Bq = (A[0] * N, A[1] * N), (Bq[0] * N, Bq[1] * N)
                    on = z3.And(onseg(a, A, Bq, edge(sh, q)), onseg(b, A, Bq, edge(sh, q)))
                    if q != s:
                        r.oblige("a piece of side %d is on that side of its tile" % q, z3.Not(on))
                        continue
                    on_any = on
                    k0 = z3.And(a[0] == A[0], a[1] == A[1])
                    k1 = z3.And(b[0] == Bq[0], b[1] == Bq[1])
                    o = old["edges"][s]
                    want = [I(o[0]), I(o[1])] + [None] * 4 + [I(o[6]), I(o[7])] + [None] * 4
                    for i in (2, 4, 8, 10):
                        want[i] = z3.If(k0, I(o[i]), z3.IntVal(0))
                        want[i + 1] = z3.If(k1, I(o[i + 1]), z3.IntVal(0))
                    r.oblige("edge data of a piece of side %d" % s, z3.Implies(on, z3.And(*[I(g) == x for g, x in zip(ev, want)])))
                r.oblige("interior boundaries carry no data", z3.Implies(z3.Not(on_any), z3.And(*[I(g) == 0 for g in ev])))
        # the end: every cell meeting the interior of the enlarged outline was yielded
        x, y = z3.Int("cell_x"), z3.Int("cell_y")
        u, w = z3.Real("u"), z3.Real("w")
        r.inputs.update(cell_x=x, cell_y=y, u=u, w=w)
        N = n.e
        pre = z3.And(x >= 0, x < N, y >= 0, y < N, u > 0, u < 2, w > 0, w < 2, inside(sh, z3.ToReal(N), 2 * z3.ToReal(x) + u, 2 * z3.ToReal(y) + w, True))
        some = []
        for pc, X, Y, fresh in recs.values():
            some.append(solve(pc, [(X, x), (Y, y)], fresh))
        r.oblige("every cell of the enlarged outline is covered", z3.Implies(pre, z3.Or(*some)))
        now = snapshot(t)
        r.oblige("the tile itself is unchanged", z3.And(*[ieq(now[k], old[k]) for k in ("shape", "flags", "set", "tile", "pal")], *[ieq(g, o) for a, b in zip(now["edges"], old["edges"]) for g, o in zip(a, b)]))

    return fn


def onseg(p, A, Bq, e):
    """p on the directed segment A-Bq whose direction is that of the constant segment e"""
    dx, dy = e[1][0] - e[0][0], e[1][1] - e[0][1]
    c = [dx * (p[1] - A[1]) == dy * (p[0] - A[0])]
    for i, d in ((0, dx), (1, dy)):
        if d > 0:
            c += [p[i] >= A[i], p[i] <= Bq[i]]
        elif d < 0:
            c += [p[i] <= A[i], p[i] >= Bq[i]]
    return z3.And(*c)


def solve(pc, eqs, fresh):
    """exists fresh. pc and eqs; the equations that are linear in one of the variables with slope 1 or -1 are solved"""
    eqs, todo = list(eqs), list(fresh)
    out = []
    while eqs:
        lhs, rhs = eqs.pop(0)
        d = z3.simplify(lhs - rhs)
        for k in todo:
            at = [z3.simplify(z3.substitute(d, (k, z3.IntVal(i)))) for i in (0, 1, 2)] if z3.is_int(k) else []
            sl = [z3.simplify(b - a) for a, b in zip(at, at[1:])]
            if sl and z3.is_int_value(sl[0]) and sl[0].as_long() in (1, -1) and z3.is_true(z3.simplify(d == at[0] + sl[0].as_long() * k)):
                t = -sl[0].as_long() * at[0]
                pc = z3.substitute(pc, (k, t))
                eqs = [(z3.substitute(l, (k, t)), q) for l, q in eqs]
                todo.remove(k)
                break
        else:
            out.append(lhs == rhs)
    e = z3.And(pc, *out)
    todo = [k for k in todo if any(k.eq(c) for c in consts(e))]
    return z3.Exists(todo, e) if todo else e


def distinct(r, one, two):
    pc1, X1, Y1, f1 = one
    pc2, X2, Y2, f2 = two
    sub = [(c, z3.Const(str(c) + "'", c.sort())) for c in f2]
    pc2, X2, Y2 = [z3.substitute(e, *sub) for e in (pc2, X2, Y2)]
    same = z3.And(*[a == b for a, b in sub]) if one is two else z3.BoolVal(False)
    r.oblige("no position is yielded twice", z3.Implies(z3.And(pc1, pc2, X1 == X2, Y1 == Y2), same))


def groups(tier):
    for sh in range(21):
        yield {"name": "Tile.upscale of shape %d" % sh, "functions": "Tile.upscale", "fn": up(sh)}
