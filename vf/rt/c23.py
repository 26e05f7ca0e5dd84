import copy

from ..adapt import mk_tile, mk_var
from ..refcodec import blank_tile, norm_var
from .base import Bad, eq, need

EDGE = {"solid": [False, True], "visible": [False, True], "caps": [[False, False], [True, False], [False, True]], "angles": [[0, 0], [1, 0], [0, 1], [-1, 0]], "fset": [0, 1, 7],
        "fspike": [False, True], "fcaps": [[False, False], [True, False], [False, True]], "fangles": [[0, 0], [5, 0], [0, 5]]}
TILE = {"shape": [0, 1, 20], "flags": [4, 0, 7], "set": [5, 0, 1], "tile": [1, 0, 255], "pal": [0, 1, 15]}


def gen(g):
    b = blank_tile()
    for k, vs in TILE.items():
        for v in vs:
            yield {"tiles": [b, dict(b, **{k: v}), dict(b)]}
    for s in range(4):
        for k, vs in EDGE.items():
            for v in vs:
                t = copy.deepcopy(b)
                t["edges"][s][k] = v
                yield {"tiles": [b, t, copy.deepcopy(t)]}
    for k in g.KINDS:
        for k2 in g.KINDS:
            yield {"vars": [g.var(2, k), g.var(2, k2)]}
    Z = [["bool", False], ["int", 0], ["uint", 0], ["float", 0.0], ["float", -0.0], ["string", ""], ["vec2", [0.0, 0.0]], ["array", ["int", []]], ["array", ["uint", []]], ["struct", []],
         ["bool", True], ["int", 1], ["uint", 1], ["float", 1.0], ["array", ["int", [["int", 1]]]], ["array", ["uint", [["uint", 1]]]], ["struct", [["a", ["int", 1]], ["b", ["int", 2]]]],
         ["struct", [["b", ["int", 2]], ["a", ["int", 1]]]], ["struct", [["a", ["uint", 1]]]], ["array", ["float", [["float", 0.0]]]], ["array", ["float", [["float", -0.0]]]],
         ["array", ["struct", [["struct", []]]]], ["array", ["array", [["array", ["int", []]]]]]]
    yield {"vars": Z}
    while True:
        if g.bool():
            t = g.tile(True)
            u = copy.deepcopy(t)
            c = g.r.randrange(4)
            if c == 1:
                u["edges"][g.r.randrange(4)] = g.edge(True)
            elif c == 2:
                k = g.r.choice(list(TILE))
                u[k] = g.r.choice(TILE[k])
            elif c == 3:
                u = g.tile(True)
            yield {"tiles": [t, u, copy.deepcopy(t)]}
        else:
            v = g.var(3)
            yield {"vars": [v, copy.deepcopy(v), g.var(3, v[0]), g.var(3)]}


def key(v):
    """canonical value: equal iff types and values are equal"""
    k, p = v
    if k == "struct":
        return (k, frozenset((a, key(b)) for a, b in p))
    if k == "array":
        return (k, p[0], tuple(key(e) for e in p[1]))
    if k == "vec2":
        return (k, p[0] + 0.0, p[1] + 0.0)
    if k == "float":
        return (k, p + 0.0)
    return (k, p)


def check(dm, case):
    if "tiles" in case:
        objs = [mk_tile(dm, t) for t in case["tiles"]]
        objs2 = [mk_tile(dm, t) for t in case["tiles"]]
        same = lambda i, j: case["tiles"][i] == case["tiles"][j]  # noqa
    else:
        objs = [mk_var(dm, v) for v in case["vars"]]
        objs2 = [mk_var(dm, v) for v in case["vars"]]
        ks = [key(norm_var(v)) for v in case["vars"]]
        same = lambda i, j: ks[i] == ks[j]  # noqa
    n = len(objs)
    for i in range(n):
        a = objs[i]
        for j in range(n):
            for b in (objs[j], objs2[j]):
                w = same(i, j)
                eq(a == b, w, "equality of %d and %d", i, j)
                eq(b == a, w, "equality of %d and %d (swapped)", j, i)
                eq(a != b, not w, "inequality of %d and %d", i, j)
                if w:
                    eq(hash(a), hash(b), "hash of equal objects %d and %d", i, j)
                    need(b in {a} and {a: 1}.get(b) == 1, "equal objects are not interchangeable as keys")
                else:
                    need(b not in {a} and {a: 1}.get(b) is None, "unequal objects interchangeable as keys")
        for other in (None, 0, 1, "x", b"", (), object(), 0.0, False, [], {}):
            need(not (a == other) and a != other, "%r equals %r", a, other)
        if "vars" in case:
            need(not (a == a.value) or isinstance(a.value, type(a)), "variable equals its raw value")
            need(not (a == dm.tile.Tile()), "variable equals a tile")
        else:
            need(not (a == dm.variable.VariableInt(0)), "tile equals a variable")
    cp = copy.deepcopy(objs)
    for a, b in zip(objs, cp):
        need(a == b and hash(a) == hash(b), "deep copy not equal")
    # mutation is reflected
    if "tiles" in case:
        t = objs2[0]
        t.edge_data[2].caps = (not t.edge_data[2].caps[0], t.edge_data[2].caps[1])
        need(t != mk_tile(dm, case["tiles"][0]), "changed tile still equal")
