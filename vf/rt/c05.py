from ..adapt import diff, mk_var, un_var
from ..refcodec import VT, BitBuf, BitSrc, dec_var, enc_var, norm_var
from .base import Bad, eq, need, raises, reader, write_with

S = "string"


def gen(g):
    M = 65535
    L = [0, 1, M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 1, 3 * M]
    for n in L:
        s = [S, {"n": n, "s": n & 255}]
        yield {"v": ["struct", [["a", s], ["b", ["int", -5]]]]}
        yield {"v": ["array", [S, [s, [S, "x"], s, [S, ""]]]]}
        yield {"v": ["struct", [["k", ["array", [S, [s]]]], ["z", s], ["w", [S, ""]]]]}
        if n <= M:
            yield {"v": s}
        else:
            yield {"bad": s}
    yield {"bad": ["array", ["bool", {"rep": 65536}]]}
    yield {"v": ["array", ["bool", {"rep": 65535}]]}
    yield {"bad": ["array", [S, {"rep": 65536}]]}
    yield {"v": ["array", [S, {"rep": 65535}]]}
    yield {"bad": ["array", [S, {"rep": 65535, "big": 65535}]]}
    yield {"v": ["array", [S, {"rep": 65534, "big": 65535}]]}
    for k in g.KINDS:
        yield {"v": ["array", [k, []]]}
        for k2 in g.KINDS:
            yield {"v": ["array", ["array", [["array", [k, [g.var(1, k) for _ in range(2)]]], ["array", [k2, []]], ["array", [k2, [g.var(1, k2)]]]]]]}
    n = 0
    while True:
        n += 1
        big = n % 40 == 0
        yield {"v": g.var(g.r.choice([1, 2, 3, 4, 5]), g.r.choice(["struct", "array"] if big else [None, "struct", "array"]), big=big), "off": g.r.randrange(8)}


def expand(v):
    if v[0] == "array" and isinstance(v[1][1], dict):
        k, d = v[1]
        els = [["bool", i % 3 == 0] if k == "bool" else [S, ""] for i in range(d["rep"])]
        if "big" in d:
            els[d["rep"] // 2] = [S, {"n": d["big"], "s": 1}]
        return ["array", [k, els]]
    return v


def check(dm, case):
    if "bad" in case:
        v = expand(case["bad"])
        var = mk_var(dm, v)
        raises(ValueError, lambda: write_with(dm, lambda w: w.write_variable(var)), "oversized variable")
        return
    v = expand(case["v"])
    off = case.get("off", 3)
    ref = BitBuf()
    if off:
        ref.f(off, 0)
    enc_var(ref, v)
    end = ref.tell()
    ref.f(11, 1365)
    var = mk_var(dm, v)
    want = norm_var(v)

    def run(w):
        if off:
            w.write(off, 0)
        w.write_variable(var)
        eq(w.bit_tell(), end, "bits used")
        w.write(11, 1365)

    out = write_with(dm, run)
    if out != ref.bytes():
        src = BitSrc(out, off)
        try:
            got = dec_var(src, v[0])
        except Exception as e:  # noqa
            raise Bad("stored bits undecodable: %s" % e)
        raise Bad("stored bits differ: %s" % (diff(want, got) or "layout"))
    eq(diff(want, un_var(dm, var)), None, "writing changed the variable")
    r = reader(dm, ref.bytes())
    if off:
        r.read(off)
    if v[0] == "struct" and case.get("off", 0) % 2 == 0:
        got = r.read_variable_map()
        from ..adapt import un_vars

        d = diff(want[1], un_vars(dm, got))
    else:
        got = r.read_variable(dm.variable.VariableType(VT[v[0]]))
        d = diff(want, un_var(dm, got))
        need(d is not None or (got == var and not got != var), "read variable is not equal to the written one")
    need(d is None, "read back differs: %s", d)
    eq(r.bit_tell(), end, "reader position")
    eq(r.read(11), 1365, "following field")
