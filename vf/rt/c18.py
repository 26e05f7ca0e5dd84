import json

from ..adapt import diff, mk_var, un_var
from ..refcodec import norm_var
from .base import Bad, eq, need, raises

ANY = "?"


class Conflict(Exception):
    pass


def merge(a, b):
    if a == ANY:
        return b
    if b == ANY:
        return a
    if isinstance(a, dict) and isinstance(b, dict):
        r = dict(a)
        for k, v in b.items():
            r[k] = merge(r[k], v) if k in r else v
        return r
    if isinstance(a, list) and isinstance(b, list):
        return [merge(a[0], b[0])]
    if isinstance(a, str) and a == b:
        return a
    raise Conflict


def shape(v):
    k, p = v
    if k == "struct":
        return {a: shape(b) for a, b in p}
    if k == "array":
        s = {"array": [ANY], "struct": {}}.get(p[0], p[0])
        for e in p[1]:
            s = merge(s, shape(e))
        return [s]
    return k


def gen(g):
    for k in g.KINDS:
        for n in range(3):
            yield {"v": ["array", [k, [g.var(1, k) for _ in range(n)]]]}
            yield {"v": ["struct", [["a", ["array", [k, []]]], ["b", g.var(1, k)]]]}
            for k2 in g.KINDS:
                yield {"v": ["array", ["array", [["array", [k, []]]] * (n % 2) + [["array", [k, [g.var(1, k) for _ in range(n)]]], ["array", [k2, []]]]]]}
    A = lambda *e: ["array", ["array", list(e)]]  # noqa
    I = lambda *e: ["array", ["int", [["int", x] for x in e]]]  # noqa
    for v in (A(), A(I()), A(I(1), I()), A(A(), A(I(1))), A(A(I(1)), A()), A(A(A()), A(A(I(2))), A()), A(I(1), ["array", ["bool", []]]),
              ["array", ["struct", [["struct", [["a", ["int", 1]]]], ["struct", []], ["struct", [["b", ["bool", True]], ["a", ["int", 2]]]]]]],
              ["array", ["struct", [["struct", [["a", ["int", 1]]]], ["struct", [["a", ["uint", 1]]]]]]],
              ["array", ["struct", [["struct", [["a", A()]]], ["struct", [["a", A(I(1))]]], ["struct", [["a", A(I())]]]]]],
              ["string", "".join(map(chr, range(256)))], ["struct", [["", ["string", ""]], ["string", ["int", 1]], ["x y", ["float", -0.0]]]]):
        yield {"v": v}
    while True:
        yield {"v": g.var(g.r.choice([1, 2, 3, 4]), g.r.choice([None, "struct", "array", "array"]))}


def check(dm, case):
    mod = dm.cmd("variables")
    v = case["v"]
    var = mk_var(dm, v)
    try:
        shape(v)
    except Conflict:
        raises(ValueError, lambda: mod.variables_to_json(var), "array with conflicting element shapes")
        return
    schema, jv = mod.variables_to_json(var)
    d = diff(norm_var(v), un_var(dm, var))
    need(d is None, "conversion changed the variable: %s", d)
    text = json.dumps({"schema": schema, "vars": jv})
    back = json.loads(text)
    got = mod.json_to_variables(back["schema"], back["vars"])
    d = diff(norm_var(v), un_var(dm, got))
    need(d is None, "%s (schema %s)", d, json.dumps(schema)[:200])
    need(got == var, "converted variable does not compare equal")
