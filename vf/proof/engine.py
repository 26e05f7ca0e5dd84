"""Symbolic execution engine of the verifier.

The functions of /repo are executed by CPython itself, on the values below, after the mechanical
instrumentation of instr.py.  Branches on symbolic conditions fork (depth-first, by re-execution), loops over
symbolic collections are cut: one run proves the body for an arbitrary element (the iteration branch), another
continues after the loop with the effects proved there (the exit branch).  `oblige` states a proof obligation
under the current path condition; z3 (then cvc5) discharges it.

Anything outside the supported fragment raises Unsupported: the obligation group is then reported undecided,
never proved and never failed."""
import fractions
import itertools
import os
import subprocess
import sys
import tempfile
import time

import types

import z3

Z3_MS = 8000


class Unsupported(BaseException):
    pass


class PathEnd(BaseException):
    """this path is finished (infeasible, or the end of a generic iteration)"""


class Budget(BaseException):
    pass


cur = None  # the Run in progress


def run():
    if cur is None:
        raise Unsupported("symbolic value used outside a run")
    return cur


# ------------------------------------------------------------------------------------------------ values
NUMERIC = (bool, int, float)
STORED = set()  # attribute names the verified modules store or declare


def needs(*names):
    """the contract speaks about private state by these names: if the code keeps it elsewhere the contract does not apply"""
    for n in names:
        if n not in STORED:
            raise Unsupported("the code has no attribute %s" % n)


class Sym:
    """base of symbolic values"""
    pytypes = ()

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __eq__(self, o):
        if self is o:
            return True
        return self.differs(o)

    def __bool__(self):
        raise Unsupported("truth value of an abstract %s" % type(self).__name__)

    def __getattr__(self, name):
        """an attribute the abstraction does not have: not known, rather than absent, when the verified code asks"""
        if not name.startswith("__") and sys._getframe(1).f_globals.get("__name__", "").startswith("vdust"):
            raise Unsupported("attribute %s of an abstract %s" % (name, type(self).__name__))
        raise AttributeError("%s object has no attribute %r" % (type(self).__name__, name))

    def differs(self, o):
        """False (not equal) when o is certainly another object, else not decidable: an abstract value may equal any other"""
        if o is None:
            return False
        pt = self.pytypes
        if pt and object not in pt and isinstance(o, (bool, int, float, str, bytes, tuple, list, dict)) and not any(isinstance(o, p) or p in NUMERIC and isinstance(o, NUMERIC) for p in pt):
            return False
        raise Unsupported("comparison of an abstract %s" % type(self).__name__)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic value")


def is_sym(x):
    return isinstance(x, Sym)


def simp(e):
    return z3.simplify(e)


def int_valued(e, depth=6):
    """the integer expression a real expression is the image of, if its form shows one"""
    if z3.is_to_real(e):
        return e.arg(0)
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if depth and (z3.is_add(e) or z3.is_mul(e) or z3.is_sub(e)):
        xs = [int_valued(c, depth - 1) for c in e.children()]
        if any(x is None for x in xs):
            return None
        out = xs[0]
        for x in xs[1:]:
            out = out + x if z3.is_add(e) else out * x if z3.is_mul(e) else out - x
        return out
    if depth and z3.is_app_of(e, z3.Z3_OP_UMINUS):
        x = int_valued(e.arg(0), depth - 1)
        return None if x is None else -x
    if depth and z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = int_valued(e.arg(1), depth - 1), int_valued(e.arg(2), depth - 1)
        return None if a is None or b is None else z3.If(e.arg(0), a, b)
    return None


def num(e):
    """z3 arithmetic expression -> python number if it is a numeral, else symbolic value"""
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
        fl = float(f)
        if fractions.Fraction(fl) == f:
            return fl
        return SReal(e)
    if z3.is_int(e):
        return SInt(e)
    if not z3.is_to_real(e):
        x = int_valued(e)
        if x is not None:
            return SReal(z3.ToReal(simp(x)))
    return SReal(e)


def boo(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def I(x):
    """-> z3 Int expression"""
    if isinstance(x, SBool):
        return z3.If(x.b, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, int):
        return z3.IntVal(int(x))
    raise Unsupported("not an integer: %s" % type(x).__name__)


def Rl(x):
    """-> z3 Real expression"""
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, (SInt, SBool)):
        return z3.ToReal(I(x))
    if isinstance(x, int):
        return z3.RealVal(int(x))
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        f = fractions.Fraction(x)
        return z3.RealVal(f.numerator) / z3.RealVal(f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    if isinstance(x, fractions.Fraction):
        return z3.Q(x.numerator, x.denominator)
    raise Unsupported("not a number: %s" % type(x).__name__)


def B(x):
    """-> z3 Bool expression of a truth value"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SInt):
        return x.e != 0
    if isinstance(x, SReal):
        return x.e != 0
    if z3.is_expr(x):
        return x
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    raise Unsupported("truth value of %s" % type(x).__name__)


def isreal(x):
    return isinstance(x, (SReal, float))


def isnum(x):
    return isinstance(x, (SInt, SReal, SBool, int, float))


def mask_runs(m):
    """constant mask -> [(lowbit, length)]"""
    out, i = [], 0
    while m:
        if m & 1:
            j = i
            while m & 1:
                m >>= 1
                i += 1
            out.append((j, i - j))
        else:
            m >>= 1
            i += 1
    return out


class SNum(Sym):
    def _bin(self, o, f, rev=False):
        if not isnum(o):
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if isreal(a) or isreal(b):
            return num(f(Rl(a), Rl(b)))
        return num(f(I(a), I(b)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self + 0

    def __abs__(self):
        return -self if self < 0 else self + 0

    def __truediv__(self, o):
        if not isnum(o):
            return NotImplemented
        if is_sym(o):
            if o == 0:
                raise ZeroDivisionError("division by zero")
        elif o == 0:
            raise ZeroDivisionError("division by zero")
        return num(Rl(self) / Rl(o))

    def __rtruediv__(self, o):
        if not isnum(o):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("division by zero")
        return num(Rl(o) / Rl(self))

    def _cmp(self, o, f):
        if not isnum(o):
            return NotImplemented
        if isreal(self) or isreal(o):
            return boo(f(Rl(self), Rl(o)))
        return boo(f(I(self), I(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    __hash__ = Sym.__hash__

    def _floordiv(self, a, b):
        """python floor division on ints; z3's div is Euclidean: equal for positive divisors"""
        if isreal(a) or isreal(b):
            if b == 0:
                raise ZeroDivisionError("float floor division by zero")
            return z3.ToReal(z3.ToInt(Rl(a) / Rl(b)))
        if is_sym(b):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if b < 0:
                raise Unsupported("division by a negative symbolic value")
        elif b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        elif b < 0:
            return I(0 - a) / I(-b) if not is_sym(a) else (-I(a)) / z3.IntVal(-b)
        return I(a) / I(b)

    def __floordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        return num(self._floordiv(self, o))

    def __rfloordiv__(self, o):
        if not isnum(o):
            return NotImplemented
        return num(self._floordiv(o, self))

    def __mod__(self, o):
        if not isnum(o):
            return NotImplemented
        if isreal(self) or isreal(o):
            if is_sym(o) or not o > 0:
                raise Unsupported("float modulo")
            q = z3.ToInt(Rl(self) / Rl(o))
            return num(Rl(self) - z3.ToReal(q) * Rl(o))
        return num(I(self) - self._floordiv(self, o) * I(o))

    def __rmod__(self, o):
        if not isnum(o):
            return NotImplemented
        if isreal(self) or isreal(o):
            raise Unsupported("float modulo")
        return num(I(o) - self._floordiv(o, self) * I(self))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if m is None and type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported("power")


class SReal(SNum):
    pytypes = (float,)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return fork(self.e != 0)

    def __int__(self):
        raise Unsupported("int() outside instrumented code")

    def __float__(self):
        raise Unsupported("float() outside instrumented code")

    def is_integer(self):
        return boo(z3.IsInt(self.e))

    def __round__(self, n=None):
        return sround(self, n)

    def __trunc__(self):
        return sint(self)

    def __floor__(self):
        return num(z3.ToInt(self.e))

    def __ceil__(self):
        return num(-z3.ToInt(-self.e))

    def __repr__(self):
        return "SReal(%s)" % self.e


class SInt(SNum):
    pytypes = (int,)
    enum = None

    def __init__(self, e, enum=None):
        self.e = e
        if enum is not None:
            self.enum = enum

    def __bool__(self):
        return fork(self.e != 0)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        raise Unsupported("float() outside instrumented code")

    def __round__(self, n=None):
        return num(self.e)

    def __floor__(self):
        return num(self.e)

    __ceil__ = __trunc__ = __floor__

    # bit operations (two's complement on mathematical integers)
    def __lshift__(self, o):
        if is_sym(o):
            if run().data.get("pow2"):
                if o < 0:
                    raise ValueError("negative shift count")
                return self * pow2(o)
            o = concretize(o)
        if o < 0:
            raise ValueError("negative shift count")
        return num(self.e * (1 << o))

    def __rshift__(self, o):
        if is_sym(o):
            if run().data.get("pow2"):
                if o < 0:
                    raise ValueError("negative shift count")
                return num(divpow(self.e, I(pow2(o)))[0])
            o = concretize(o)
        if o < 0:
            raise ValueError("negative shift count")
        return num(self.e / z3.IntVal(1 << o))

    def __rlshift__(self, o):
        if run().data.get("pow2"):
            if self < 0:
                raise ValueError("negative shift count")
            return o * pow2(self)
        k = concretize(self)
        if k < 0:
            raise ValueError("negative shift count")
        return o << k

    def __rrshift__(self, o):
        k = concretize(self)
        if k < 0:
            raise ValueError("negative shift count")
        return o >> k

    def _andc(self, m):
        if m >= 0:
            t = z3.IntVal(0)
            for lo, ln in mask_runs(m):
                t = t + ((self.e / z3.IntVal(1 << lo)) % z3.IntVal(1 << ln)) * (1 << lo)
            return t
        # negative mask: clear the bits of ~m
        return self.e - self._andc(~m)

    def __and__(self, o):
        if isinstance(o, SBool):
            o = num(I(o))
        if isinstance(o, SInt):
            return bitop(self, o, "&")
        if not isinstance(o, int):
            return NotImplemented
        return num(self._andc(int(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            o = num(I(o))
        if isinstance(o, SInt):
            return bitop(self, o, "|")
        if not isinstance(o, int):
            return NotImplemented
        return num(self.e + int(o) - self._andc(int(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SBool):
            o = num(I(o))
        if isinstance(o, SInt):
            return bitop(self, o, "^")
        if not isinstance(o, int):
            return NotImplemented
        return num(self.e + int(o) - 2 * self._andc(int(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return num(-self.e - 1)

    def __rpow__(self, o):
        if o == 2 and type(o) in (int, float) and run().data.get("pow2"):
            if self < 0:
                raise Unsupported("negative power")
            p = pow2(self)
            return p if type(o) is int else p * 1.0
        k = concretize(self)
        return o ** k

    def bit_length(self):
        raise Unsupported("bit_length")

    @property
    def real(self):
        return self

    @property
    def value(self):
        if self.enum is None:
            raise AttributeError("value")
        return SInt(self.e)

    @property
    def name(self):
        if self.enum is None:
            raise AttributeError("name")
        return self.enum(concretize(self)).name

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if run().data.get("intbytes") and not signed and byteorder == "little":
            from .vals import IntBytes

            if self < 0 or self >= pow2(length * 8):
                raise OverflowError("int too big to convert")
            return IntBytes([(I(length), I(self))])
        n = length if not is_sym(length) else concretize(length)
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
        if not (lo <= self) or not (self <= hi):
            raise OverflowError("int too big to convert")
        bs = [num((self.e / z3.IntVal(1 << 8 * i)) % 256) for i in range(n)]
        if byteorder == "big":
            bs.reverse()
        from .vals import mkbytes

        return mkbytes(bs)

    def __repr__(self):
        return "SInt(%s)" % self.e


POW2 = z3.Function("pow2", z3.IntSort(), z3.IntSort())


def pow2(k):
    """2**k for a symbolic k >= 0, with the facts relating it to the other exponents in use"""
    r = run()
    e = simp(I(k))
    if z3.is_int_value(e):
        return 1 << e.as_long()
    t = POW2(e)
    seen = r.data.setdefault("pow2_seen", [])
    memo = r.data.setdefault("pow2_memo", {})
    if e.get_id() in memo:
        return num(memo[e.get_id()][1])
    n = const_diff(e, z3.IntVal(0))
    if n is not None:
        memo[e.get_id()] = (e, z3.IntVal(1 << n))
        return 1 << n
    for x in seen:
        n = const_diff(e, x)
        if n is None:
            continue
        o = POW2(x)
        if n >= 0:
            t = simp((1 << n) * o)
            memo[e.get_id()] = (e, t)
            return SInt(t)
        r.assume((1 << -n) * t == o)
    r.assume(t >= 1)
    seen.append(e)
    memo[e.get_id()] = (e, t)
    return SInt(t)


def const_diff(a, b):
    """a - b if it is the same constant on this whole path"""
    d = simp(a - b)
    if z3.is_int_value(d):
        return d.as_long()
    r = run()
    if not r.data.get("pow2_semantic") or r._check() != z3.sat:
        return None
    n = r.solver.model().eval(d, model_completion=True).as_long()
    return n if r.entails(d == n) else None


def is_pow2(e):
    """e is syntactically 2^k for some k >= 0"""
    e = simp(e)
    if z3.is_int_value(e):
        n = e.as_long()
        return n > 0 and n & (n - 1) == 0
    if z3.is_app(e) and e.decl().eq(POW2):
        return True
    return z3.is_mul(e) and all(is_pow2(c) for c in e.children())


def divpow(x, P):
    """floor quotient and remainder by a power of two, named so that equal divisions share them"""
    r = run()
    x, P = simp(x), simp(P)
    if z3.is_int_value(P):
        return simp(x / P), simp(x % P)
    memo = r.data.setdefault("divpow", {})
    k = (x.get_id(), P.get_id())
    if k not in memo:
        q, m = z3.Int(r.fresh("q")), z3.Int(r.fresh("m"))
        r.assume(z3.And(x == q * P + m, m >= 0, m < P))
        r.assume(z3.And(z3.Implies(x >= 0, q >= 0), z3.Implies(x < 0, q < 0), z3.Implies(z3.And(x >= 0, x < P), q == 0)))
        memo[k] = (q, m, x, P)
    return memo[k][:2]


def mask_op(a, b):
    """a & b where b is 2^k - 1 or 2^k, symbolic k; None if it has another form"""
    if not run().data.get("pow2"):
        return None
    for x, y in ((a, b), (b, a)):
        if is_pow2(y.e + 1):
            return num(divpow(x.e, simp(y.e + 1))[1])
        if is_pow2(y.e):
            q = divpow(x.e, y.e)[0]
            return num(z3.If(q % 2 == 1, y.e, 0))
    return None


def bitop(a, b, op):
    """two symbolic operands: decide by finding k with one < 2^k and the other a multiple of 2^k, else by bits"""
    r = run()
    if op == "&":
        m = mask_op(a, b)
        if m is not None:
            return m
    for x, y in ((a, b), (b, a)):
        for k in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32):
            if r.entails(z3.And(x.e >= 0, x.e < (1 << k), y.e % (1 << k) == 0)):
                return 0 if op == "&" else num(a.e + b.e)
    for w in (1, 4, 8, 16):
        if r.entails(z3.And(a.e >= 0, a.e < (1 << w), b.e >= 0, b.e < (1 << w))):
            t = z3.IntVal(0)
            for i in range(w):
                x, y = (a.e / (1 << i)) % 2, (b.e / (1 << i)) % 2
                bit = {"&": z3.And(x == 1, y == 1), "|": z3.Or(x == 1, y == 1), "^": x != y}[op]
                t = t + z3.If(bit, 1 << i, 0)
            return num(t)
    raise Unsupported("bit operation on two unbounded symbolic values")


class SBool(SInt):
    pytypes = (bool, int)

    def __init__(self, e):
        self.b = e

    @property
    def e(self):  # noqa - as boolean expression for forks; integer use goes through I()
        return self.b

    def __bool__(self):
        return fork(self.b)

    def __index__(self):
        return 1 if fork(self.b) else 0

    __int__ = __index__

    def _i(self):
        return num(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return boo(z3.And(self.b, B(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return boo(z3.Or(self.b, B(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return boo(z3.Xor(self.b, B(o)))
        return self._i() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self._i()

    def __lshift__(self, o):
        return self._i() << o

    def __rshift__(self, o):
        return self._i() >> o

    def __neg__(self):
        return -self._i()

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return boo(self.b == B(o))
        return SNum.__eq__(self, o)

    def __ne__(self, o):
        if isinstance(o, (bool, SBool)):
            return boo(z3.Xor(self.b, B(o)))
        return SNum.__ne__(self, o)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "SBool(%s)" % self.b


class Atom(Sym):
    """opaque value: supports identity comparison only (uninterpreted constant)"""

    def __init__(self, name):
        self.atom = name

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Atom):
            return run().atom_eq(self, o)
        return self.differs(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else boo(z3.Not(r.e))

    __hash__ = Sym.__hash__

    def __repr__(self):
        return "Atom(%s)" % self.atom


class Poison(Sym):
    """a value the engine does not know; any use is unsupported"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def bad(self):
        raise Unsupported("use of unknown value: " + object.__getattribute__(self, "_why"))

    def _no(self, *a, **k):
        raise Unsupported("use of unknown value: " + object.__getattribute__(self, "_why"))

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self._no()

    __setattr__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = __index__ = __int__ = __float__ = __iter__ = __len__ = _no
    __getitem__ = __setitem__ = __contains__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __or__ = __xor__ = _no


def sint(x):
    """int(x)"""
    if isinstance(x, SBool):
        return x._i()
    if isinstance(x, SInt):
        return num(x.e)
    if isinstance(x, SReal):
        w = int_valued(x.e)
        if w is not None:
            return num(w)
        if x >= 0:
            return num(z3.ToInt(x.e))
        return num(-z3.ToInt(-x.e))
    raise Unsupported("int() of %s" % type(x).__name__)


def sround(x, n=None):
    if n is not None:
        if type(n) is not int:
            raise Unsupported("round digits")
        if isinstance(x, SInt):
            return num(I(x))
        sc = 10 ** n
        return num(z3.ToReal(I(sround(num(Rl(x) * sc)))) / sc)
    if isinstance(x, SInt):
        return num(I(x))
    w = int_valued(x.e)
    if w is not None:
        return num(w)
    fl = z3.ToInt(x.e)
    d = x.e - z3.ToReal(fl)
    half = z3.Q(1, 2)
    return num(z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))


# ------------------------------------------------------------------------------------------------ solving
STATS = {"solver_s": 0.0, "queries": 0, "z3": 0, "cvc5": 0, "simplifier": 0}


def cvc5_check(assertions, seconds=20):
    s = z3.Solver()
    s.add(*assertions)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        p = subprocess.run(["cvc5", "--tlimit=%d" % (seconds * 1000), "--nl-ext-tplanes", path], capture_output=True, text=True, timeout=seconds + 10)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(path)


class Run:
    """one path"""

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.z3_ms)
        self.fresh_n = itertools.count()
        self.clock = 0
        self.journal = []
        self.loops = []
        self.born = {}
        self.keep = []
        self.inputs = {}
        self.atoms = {}
        self.labels = []
        self.data = {}
        self.hooks = []
        self.tracked = []
        self.univ = []
        self.stubs = {}
        self.stub_names = {}

    # -- contract stubs: a call to f is replaced by its contract
    def stub(self, f, contract):
        self.stubs[id(getattr(f, "__func__", f))] = (f, contract)

    def stub_for(self, f):
        if not self.stubs:
            return None
        fn = getattr(f, "__func__", f)
        t = self.stubs.get(id(fn))
        if t is None:
            return None
        slf = getattr(f, "__self__", None)
        if slf is not None and not isinstance(slf, types.ModuleType):
            return lambda *a, **k: t[1](slf, *a, **k)
        return t[1]

    # -- names
    def fresh(self, base):
        return "%s!%d" % (base, next(self.fresh_n))

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return SInt(v)

    def real(self, name):
        v = z3.Real(name)
        self.inputs[name] = v
        return SReal(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SBool(v)

    def atom_eq(self, a, b):
        if a.atom == b.atom:
            return True
        s = z3.DeclareSort("Atom")
        return boo(z3.Const("atom_" + a.atom, s) == z3.Const("atom_" + b.atom, s))

    # -- solver
    def _check(self, extra=()):
        t = time.time()
        if t > self.ex.deadline:
            raise Budget("time")
        r = self.solver.check(*extra)
        STATS["solver_s"] += time.time() - t
        STATS["queries"] += 1
        return r

    def assume(self, c):
        c = B(c)
        c = simp(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c):
            raise PathEnd("assumption is false")

    def feasible(self):
        return self._check() != z3.unsat

    def entails(self, c):
        c = simp(B(c))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return not self.feasible()
        return self._check([z3.Not(c)]) == z3.unsat

    def fork(self, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v, forced = self.prefix[i]
        else:
            a = self._check([c])
            if a == z3.unsat:
                v, forced = False, True
            else:
                b = self._check([z3.Not(c)])
                if b == z3.unsat:
                    v, forced = True, True
                else:
                    v, forced = True, False
                    self.ex.push(self.trace + [(False, False)])
        self.trace.append((v, forced))
        if not forced:
            k = c if v else z3.Not(c)
            self.pc.append(k)
            self.solver.add(k)
        if self.pos > self.ex.max_decisions:
            raise Unsupported("path too long")
        return v

    def choose(self, n):
        """nondeterministic choice among n options, all explored, in order"""
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            v = self.prefix[i][0]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                self.ex.push(self.trace + [(k, False)])
        self.trace.append((v, False))
        return v

    def key(self):
        return tuple(v for v, _f in self.trace[:self.pos])

    # -- obligations
    def oblige(self, name, c, case=None, soft=False):
        """prove c on this path, then assume it"""
        c = simp(B(c))
        full = name
        if z3.is_true(c):
            self.ex.record(full, "discharged", "simplifier")
            self.ex.witness(full, self)
            STATS["simplifier"] += 1
            return True
        t = time.time()
        r = self._check([z3.Not(c)])
        by = "z3"
        if r == z3.unknown:
            q = cvc5_check(self.pc + [z3.Not(c)], self.ex.cvc5_s)
            STATS["solver_s"] += time.time() - t
            if q == "unsat":
                r, by = z3.unsat, "cvc5"
        if r == z3.unsat:
            STATS[by] += 1
            self.ex.record(full, "discharged", by, t=time.time() - t)
            self.ex.witness(full, self)
            self.assume(c)
            return True
        if r == z3.unknown:
            self.ex.record(full, "unknown", by, detail="solver gave no answer")
            self.assume(c)
            return False
        if self.data.get("prefer") is not None and self._check([z3.Not(c), self.data["prefer"]]) != z3.sat:
            self._check([z3.Not(c)])
        vals, cs = self.counterexample(case)
        self.ex.record(full, "failed", by, detail={"formula": str(c)[:600], "model": {k: v for k, v in sorted(vals.items(), key=lambda kv: kv[0])[:80]},
                                                    "path": [str(p)[:120] for p in self.pc[-12:]]}, case=cs)
        # stop this path: one failure per path is enough
        raise PathEnd("failed obligation")

    def counterexample(self, case=None):
        """values of the inputs in the model just found, and the replay case they give"""
        m = self.solver.model()
        vals = {}
        for k, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x):
                vals[k] = x.as_long()
            elif z3.is_rational_value(x):
                vals[k] = float(x.numerator_as_long()) / float(x.denominator_as_long())
            elif z3.is_true(x) or z3.is_false(x):
                vals[k] = z3.is_true(x)
            else:
                vals[k] = str(x)
        cs = None
        f = case or self.data.get("case")
        if f is not None:
            try:
                cs = f(vals)
            except Exception as e:  # no replay possible
                vals["_case_error"] = repr(e)
        return vals, cs

    def hint(self, name, c, case=None):
        """c is expected but not required: if it can be false, remember an input that shows it (to be tried on the
        real code) and count the obligation as undecided"""
        if self.entails(c):
            return True
        if self._check([z3.Not(B(c))]) == z3.sat:
            vals, cs = self.counterexample(case)
            self.ex.record(name, "unknown", "z3", detail={"formula": str(simp(B(c)))[:600], "model": vals}, case=cs)
        else:
            self.ex.record(name, "unknown", "z3", detail="solver gave no answer")
        return False

    def fail(self, name, why, case=None):
        """an obligation that is false on this (feasible) path"""
        if not self.feasible():
            raise PathEnd("infeasible")
        return self.oblige(name + ": " + why, z3.BoolVal(False), case)

    # -- heap journal
    def tick(self):
        self.clock += 1
        return self.clock

    def log(self, obj, kind, *args):
        if self.loops:
            self.journal.append((obj, kind, args))


class Hook:
    """observer of generic loops (contract stubs derive from it)"""

    def loop_init(self, lp):
        pass

    def loop_enter(self, lp):
        pass

    def loop_tail(self, lp):
        pass

    def loop_exit(self, lp):
        pass

    def havoc_int(self, lp, name, entry, fresh):
        pass

    def attr_effect(self, lp, obj, name, value):
        return False

    def make_while(self, fn):
        return None

    def cut(self, it, fn):
        """(iterable, loop object or None): a hook may cut a loop over known elements"""
        return it, None


def fork(c):
    return run().fork(c)


def concretize(x, limit=80):
    """case split on the value of a symbolic integer (must have few values on this path)"""
    r = run()
    e = I(x)
    s = simp(e)
    if z3.is_int_value(s):
        return s.as_long()
    # candidate values by the solver, remembered by the exploration node so that re-execution agrees
    key = ("conc", r.key(), s.sexpr())
    vals = r.ex.memo.get(key)
    if vals is None:
        vals = []
        sol = z3.Solver()
        sol.set("timeout", r.ex.z3_ms)
        sol.add(*r.pc)
        while True:
            q = sol.check()
            if q == z3.unsat:
                break
            if q == z3.unknown or len(vals) >= limit:
                raise Unsupported("too many values to enumerate")
            v = sol.model().eval(e, model_completion=True).as_long()
            vals.append(v)
            sol.add(e != v)
        vals.sort()
        r.ex.memo[key] = vals
    if not vals:
        raise PathEnd("infeasible")
    k = r.choose(len(vals)) if len(vals) > 1 else 0
    r.assume(e == vals[k])
    return vals[k]


class Explorer:
    """explores every path of fn(run)"""

    def __init__(self, name, deadline, z3_ms=Z3_MS, cvc5_s=20, max_paths=20000, max_decisions=400):
        self.name = name
        self.deadline = deadline
        self.z3_ms = z3_ms
        self.cvc5_s = cvc5_s
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.stack = []
        self.memo = {}
        self.obl = {}
        self.paths = 0
        self.ended = 0
        self.completed = 0
        self.problems = []

    def push(self, prefix):
        self.stack.append(list(prefix))

    def record(self, name, status, by, detail=None, case=None, t=0.0):
        o = self.obl.setdefault(name, {"name": name, "status": "discharged", "vcs": 0, "by": {}, "t": 0.0})
        o["vcs"] += 1
        o["by"][by] = o["by"].get(by, 0) + 1
        o["t"] += t
        rank = {"discharged": 0, "unknown": 1, "failed": 2}
        if rank[status] > rank[o["status"]]:
            o.update(status=status, detail=detail)
        if case is not None and "case" not in o:
            o["case"] = case

    def witness(self, name, r):
        """remember whether the obligation was met on some path that can happen (else its proof is vacuous)"""
        o = self.obl[name]
        if not o.get("live"):
            o["live"] = r.feasible()

    def explore(self, fn):
        global cur
        self.stack = [[]]
        while self.stack:
            if self.paths >= self.max_paths:
                self.problems.append("too many paths")
                break
            if time.time() > self.deadline:
                self.problems.append("out of time")
                break
            prefix = self.stack.pop()
            self.paths += 1
            r = Run(self, prefix)
            cur = r
            try:
                fn(r)
                if r.feasible():
                    self.completed += 1
                else:
                    self.ended += 1
            except PathEnd:
                self.ended += 1
            except Unsupported as e:
                self.problems.append("unsupported: %s" % where(e))
            except Budget:
                self.problems.append("out of time")
                break
            except z3.Z3Exception as e:
                self.problems.append("z3: %s" % where(e))
            except RecursionError:
                self.problems.append("recursion limit")
            except Exception as e:  # an exception of the code under proof that the contract did not expect
                self.unexpected(r, e)
            finally:
                cur = None
            if len(self.problems) > 5:
                break
        return self

    def unexpected(self, r, e):
        global cur
        cur = r
        soft = (TypeError, AttributeError, NotImplementedError, KeyError) if not isinstance(e, AssertionError) else ()
        try:
            if not r.feasible():
                self.ended += 1
                return
            if isinstance(e, soft):
                self.problems.append("exception %s" % where(e))
                return
            r.fail("no exception", "%s" % where(e))
        except PathEnd:
            pass
        except (Budget, Unsupported) as x:
            self.problems.append(str(x))


def where(e):
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    loc = [f for f in tb if "vdust:" in f.filename or "/dustmaker/" in f.filename]
    f = (loc or tb)[-1]
    return "%s: %s (%s:%s %s)" % (type(e).__name__, str(e)[:160], f.filename.split("/")[-1], f.lineno, f.name)
