import math

from .base import Bad, eq, need, raises


def gen(g):
    C = [0, 1, -1, 2, 0.5, -3.25, 48, 1e6]

    def num():
        return g.r.choice([g.r.choice(C), g.r.randint(-20, 20), g.r.randint(-1000, 1000) / 8.0, g.int(-100000, 100000)])

    def mat():
        return [num() for _ in range(6)]

    for i in range(6):
        a = [0] * 6
        a[i] = 1
        for j in range(6):
            b = [0] * 6
            b[j] = 3
            yield {"a": a, "b": b, "p": [5, 7], "t": [11, 13], "k": 2}
    good = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    bads = [good[:2], good + [[0, 0, 1]], [[1, 0], [0, 1], [0, 1]], [r + [0] for r in good], [[1, 0, 0], [0, 1], [0, 0, 1]], [], [[], [], []],
            [[1, 0, 0], [0, 1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 1, 0], [0, 0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1, 0]]]
    for lr in ([0, 0, 0], [0, 0, 2], [1, 0, 1], [0, 1, 1], [0, 0, -1], [1, 0, 0], [0.5, 0, 1], [0, 0, 1.5]):
        bads.append(good[:2] + [lr])
    for b in bads:
        yield {"bad": b}
    for i in range(3):
        for j in range(3):
            b = [list(r) for r in good]
            b[i][j] = "1"
            yield {"bad": b}
            b = [list(r) for r in good]
            b[i][j] = None
            yield {"bad": b}
    yield {"const": 1}
    while True:
        yield {"a": mat(), "b": mat(), "p": [num(), num()], "t": [num(), num()], "k": g.r.choice([num(), 1, 2, 3, 0.5])}


def ap(m, p):
    return (m[0] * p[0] + m[1] * p[1] + m[2], m[3] * p[0] + m[4] * p[1] + m[5])


def close(a, b, msg, *x):
    for u, v in zip(a, b):
        if not math.isclose(u, v, rel_tol=1e-9, abs_tol=1e-6):
            raise Bad("%s: got %r, expected %r" % (msg % x if x else msg, tuple(a), tuple(b)))


def check(dm, case):
    T = dm.transform.TxMatrix
    if "bad" in case:
        try:
            T(case["bad"])
        except Exception:  # noqa
            return
        raise Bad("accepted %r" % (case["bad"],))
    pts = [(0, 0), (1, 0), (0, 1), (3, -7)]
    if "const" in case:
        for p in pts:
            eq(T.IDENTITY.sample(*p), p, "IDENTITY")
            eq(T.HFLIP.sample(*p), (-p[0], p[1]), "HFLIP")
            eq(T.VFLIP.sample(*p), (p[0], -p[1]), "VFLIP")
            q = p
            for i in range(4):
                eq(T.ROTATE[i].sample(*p), q, "ROTATE[%d]", i)
                q = (-q[1], q[0])
        eq(len(T.ROTATE), 4, "ROTATE")
        eq([T.HFLIP.flipped, T.VFLIP.flipped, T.IDENTITY.flipped] + [r.flipped for r in T.ROTATE], [True, True] + [False] * 5, "flip flags")
        for i in range(4):
            close([T.ROTATE[i].angle % (2 * math.pi)], [(-i * math.pi / 2) % (2 * math.pi)], "angle of ROTATE[%d]", i) if i else close([math.cos(T.ROTATE[0].angle)], [1.0], "angle of identity")
        return
    a, b, p, t, k = case["a"], case["b"], case["p"], case["t"], case["k"]
    A = T((a[:3], a[3:], (0, 0, 1)))
    Bm = T([b[:3], b[3:], [0, 0, 1]])
    need(isinstance(A * Bm, T) and isinstance(A * k, T) and isinstance(A.translate(*t), T), "result is not a TxMatrix")
    for q in pts + [tuple(p)]:
        close(A.sample(*q), ap(a, q), "sample%r", q)
        close((A * Bm).sample(*q), ap(a, ap(b, q)), "(A*B).sample%r", q)
        s = ap(a, q)
        close((A * k).sample(*q), (s[0] * k, s[1] * k), "(A*%r).sample%r", k, q)
        close((k * A).sample(*q), (s[0] * k, s[1] * k), "(%r*A).sample%r", k, q)
        close(A.translate(*t).sample(*q), (s[0] + t[0], s[1] + t[1]), "translate.sample%r", q)
        close(A.sample(*q, with_offset=False), (s[0] - a[2], s[1] - a[5]), "sample without offset")
    d = a[0] * a[4] - a[1] * a[3]
    close([A.determinant], [d], "determinant")
    eq(bool(A.flipped), d < 0, "flipped")
    close([A.scale], [math.sqrt(abs(d))], "scale")
    eq([tuple(r) for r in A], [tuple(a[:3]), tuple(a[3:]), (0, 0, 1)], "operand changed")
