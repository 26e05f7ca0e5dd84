"""C11: TxMatrix - every method against the affine-map specification, over the reals."""
import itertools

import z3

from . import engine as E
from .engine import B, Rl, SReal

FUNCTIONS = ["transform.TxMatrix.__new__", "transform.TxMatrix.__mul__", "transform.TxMatrix.__rmul__", "transform.TxMatrix.translate", "transform.TxMatrix.sample",
             "transform.TxMatrix.determinant", "transform.TxMatrix.flipped", "transform.TxMatrix.scale", "transform.TxMatrix.angle (axis directions)", "transform constants"]
ASSUMPTIONS = ["machine floating point is treated as exact real arithmetic in the matrix proofs",
               "math.sqrt is assumed to return the non-negative root, math.atan2 its exact value on the axes (elsewhere opaque)"]
TRUSTED = ["z3 4.x / cvc5", "vf/proof engine and instrumentation", "CPython"]


def mat(r, T, n):
    v = [r.real("%s%d" % (n, i)) for i in range(6)]
    return v, T(((v[0], v[1], v[2]), (v[3], v[4], v[5]), (0, 0, 1)))


def ap(m, p):
    return (m[0] * p[0] + m[1] * p[1] + m[2], m[3] * p[0] + m[4] * p[1] + m[5])


def same(r, name, got, want):
    r.oblige(name + " has two coordinates", isinstance(got, tuple) and len(got) == 2)
    for i, (g, w) in enumerate(zip(got, want)):
        r.oblige(name, Rl(g) == Rl(w))


def is_matrix(r, T, name, m):
    r.oblige(name + " is an affine matrix", isinstance(m, T) and len(m) == 3 and all(len(x) == 3 for x in m) and m[2] == (0, 0, 1))


def case(r, extra=None):
    def f(v):
        g = lambda n: [v.get("%s%d" % (n, i), 0) for i in range(6)]
        return {"a": g("a"), "b": g("b"), "p": [v.get("px", 0), v.get("py", 0)], "t": [v.get("tx", 0), v.get("ty", 0)], "k": v.get("k", 2)}

    r.data["case"] = f


def algebra(what):
    def fn(r, v):
        T = v.transform.TxMatrix
        case(r)
        a, A = mat(r, T, "a")
        p = (r.real("px"), r.real("py"))
        if what == "mul":
            b, Bm = mat(r, T, "b")
            M = A * Bm
            is_matrix(r, T, "A*B", M)
            same(r, "(A*B)(p) = A(B(p))", M.sample(*p), ap(a, ap(b, p)))
        if what == "scalar":
            for k in (r.real("k"), r.int("ki")):
                for M in (A * k, k * A, A.__rmul__(k)):
                    is_matrix(r, T, "A*k", M)
                    s = ap(a, p)
                    same(r, "(A*k)(p) = k*A(p)", M.sample(*p), (s[0] * k, s[1] * k))
        if what == "translate":
            t = (r.real("tx"), r.real("ty"))
            M = A.translate(*t)
            is_matrix(r, T, "A.translate", M)
            s = ap(a, p)
            same(r, "A.translate(t)(p) = A(p)+t", M.sample(*p), (s[0] + t[0], s[1] + t[1]))
        if what == "sample":
            same(r, "sample(p) = A(p)", A.sample(*p), ap(a, p))
            s = ap(a, p)
            same(r, "sample without offset", A.sample(*p, with_offset=False), (s[0] - a[2], s[1] - a[5]))
        if what == "det":
            d = a[0] * a[4] - a[1] * a[3]
            r.oblige("determinant", Rl(A.determinant) == Rl(d))
            f = A.flipped
            r.oblige("flipped iff determinant < 0", B(f) == B(d < 0))
            s = A.scale
            r.oblige("scale >= 0", Rl(s) >= 0)
            dd = Rl(d)
            r.oblige("scale^2 = |determinant|", Rl(s) * Rl(s) == z3.If(dd < 0, -dd, dd))
        # operands are not modified
        for i in range(2):
            for j in range(3):
                r.oblige("operand unchanged", Rl(A[i][j]) == Rl(a[3 * i + j]))

    return fn


def consts(r, v):
    T = v.transform.TxMatrix
    r.data["case"] = lambda _v: {"const": 1}
    x, y = r.real("px"), r.real("py")
    p = (x, y)
    for n, M, want in [("IDENTITY", T.IDENTITY, p), ("HFLIP", T.HFLIP, (-x, y)), ("VFLIP", T.VFLIP, (x, -y))]:
        same(r, n, M.sample(*p), want)
    r.oblige("four rotations", len(T.ROTATE) == 4)
    q = p
    for i in range(4):
        same(r, "ROTATE[%d]" % i, T.ROTATE[i].sample(*p), q)
        r.oblige("ROTATE[%d] is not flipped" % i, not T.ROTATE[i].flipped)
        q = (-q[1], q[0])
    r.oblige("flips are flipped", bool(T.HFLIP.flipped) and bool(T.VFLIP.flipped) and not T.IDENTITY.flipped)


def reject(dims):
    """dims: row lengths; accepted iff (3,3,3) and last row 0,0,1"""
    def fn(r, v):
        T = v.transform.TxMatrix
        rows = []
        names = []
        for i, n in enumerate(dims):
            rows.append(tuple(r.real("m%d_%d" % (i, j)) for j in range(n)))
        def cs(vals):
            return {"bad": [[vals["m%d_%d" % (i, j)] for j in range(n)] for i, n in enumerate(dims)]}
        r.data["case"] = cs
        try:
            m = T(rows)
        except Exception:  # rejected
            if dims == (3, 3, 3):
                c = z3.And(*[Rl(x) == y for x, y in zip(rows[2], (0, 0, 1))])
                r.oblige("only matrices whose last row is not 0,0,1 are refused", z3.Not(c), case=lambda vals: {"a": [vals["m%d_%d" % (i, j)] for i in range(2) for j in range(3)], "b": [1, 0, 0, 0, 1, 0], "p": [0, 0], "t": [0, 0], "k": 1})
            else:
                r.oblige("a matrix of the wrong shape is refused", True)
            return
        r.oblige("accepted only if 3x3", dims == (3, 3, 3))
        r.oblige("accepted only if the last row is 0,0,1", z3.And(*[Rl(x) == y for x, y in zip(rows[2], (0, 0, 1))]))
        r.oblige("the elements are kept", z3.And(*[Rl(m[i][j]) == Rl(rows[i][j]) for i in range(2) for j in range(3)]))

    return fn


def badelem(r, v):
    T = v.transform.TxMatrix
    for i in range(3):
        for j in range(3):
            for bad in ("1", None, b"1", (1,), [1], 1j):
                rows = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
                rows[i][j] = bad
                try:
                    T(rows)
                except Exception:  # noqa
                    r.oblige("a non-numeric element is refused", True)
                    continue
                r.oblige("a non-numeric element is refused", False, case=lambda vals: {"bad": rows} if not isinstance(bad, (bytes, complex)) else None)


def sources(r, v):
    """the rows and the matrix may be any iterables"""
    T = v.transform.TxMatrix
    case(r)
    ks = [tuple, list, iter, lambda x: (y for y in x)]
    outer, inner = ks[r.choose(len(ks))], ks[r.choose(len(ks))]
    a = [r.real("a%d" % i) for i in range(6)]
    M = T(outer([inner([a[0], a[1], a[2]]), inner([a[3], a[4], a[5]]), inner([0, 0, 1])]))
    is_matrix(r, T, "a matrix made from an iterable", M)
    r.oblige("the elements are kept", z3.And(*[Rl(M[i][j]) == Rl(a[3 * i + j]) for i in range(2) for j in range(3)]))
    r.oblige("a matrix is made of tuples", all(isinstance(x, tuple) for x in M))


def groups(tier):
    fs = {"mul": "TxMatrix.__mul__", "scalar": "TxMatrix.__mul__ (number)", "translate": "TxMatrix.translate", "sample": "TxMatrix.sample", "det": "TxMatrix.determinant/flipped/scale"}
    for w, f in fs.items():
        yield {"name": f, "functions": f, "fn": algebra(w)}
    yield {"name": "constants", "functions": "TxMatrix.IDENTITY/HFLIP/VFLIP/ROTATE", "fn": consts}
    yield {"name": "TxMatrix.__new__ element types", "functions": "TxMatrix.__new__", "fn": badelem}

    yield {"name": "TxMatrix.__new__ from any iterable", "functions": "TxMatrix.__new__", "fn": sources}

    def allrej(r, v):
        ds = [(3, 3, 3)] + [d for n in range(0, 6) for d in itertools.product(range(0, 5), repeat=n) if n != 3 and len(set(d)) <= 1] + \
            [d for d in itertools.product(range(0, 6), repeat=3) if d != (3, 3, 3)]
        reject(ds[r.choose(len(ds))])(r, v)

    yield {"name": "TxMatrix.__new__ rejects (row and column counts up to 5)", "functions": "TxMatrix.__new__", "fn": allrej}
