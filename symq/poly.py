"""Exact polynomial terms of the symbolic executor.

A scalar in the symbolic run is a polynomial over Q(i) in *atoms*.  An atom is a
real unknown (self-conjugate) or one of a pair (z, conj z).  A monomial is the
sorted tuple of its atom ids.  No relation between atoms is applied here: facts
such as c*c+s*s = 1 or U*S*V^H = A are handed to the solver (smt.py).
"""
from fractions import Fraction
import math

PI = math.pi
HALF = Fraction(1, 2)


class Unsupported(Exception):
    """The encoding cannot express this operation: the item is inconclusive."""


class Atoms:
    """Registry of atoms.  Deterministic names, so re-execution is stable."""

    def __init__(self):
        self.names = []
        self.conj = []
        self.by_name = {}
        self.info = []

    def real(self, name, **info):
        if name in self.by_name:
            return self.by_name[name]
        i = len(self.names)
        self.names.append(name)
        self.conj.append(i)
        self.info.append(info)
        self.by_name[name] = i
        return i

    def cplx(self, name, **info):
        if name in self.by_name:
            return self.by_name[name]
        i = len(self.names)
        self.names += [name, name + "~"]
        self.conj += [i + 1, i]
        self.info += [info, info]
        self.by_name[name] = i
        self.by_name[name + "~"] = i + 1
        return i


ATOMS = Atoms()


def reset_atoms():
    global ATOMS
    ATOMS.__init__()


def norm_num(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


class P:
    """Polynomial: dict monomial -> (re, im) with int/Fraction parts."""
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    # ---- construction
    @staticmethod
    def const(re, im=0):
        if re == 0 and im == 0:
            return ZERO
        return P({(): (re, im)})

    @staticmethod
    def atom(i):
        return P({(i,): (1, 0)})

    # ---- queries
    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const_value(self):
        return self.d.get((), (0, 0))

    def is_zero(self):
        return not self.d

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.d.items()))
        return self._h

    def __hash__(self):
        return hash(self.key())

    def same(self, o):
        return self.d == o.d

    def is_real(self):
        return self.same(self.conj())

    # ---- arithmetic
    def __neg__(self):
        return P({m: (-a, -b) for m, (a, b) in self.d.items()})

    def __add__(self, o):
        if not isinstance(o, P):
            o = to_poly(o)
        if not self.d:
            return o
        if not o.d:
            return self
        a, b = (self.d, o.d) if len(self.d) >= len(o.d) else (o.d, self.d)
        r = dict(a)
        for m, (x, y) in b.items():
            c = r.get(m)
            if c is None:
                r[m] = (x, y)
            else:
                x = c[0] + x
                y = c[1] + y
                if x == 0 and y == 0:
                    del r[m]
                else:
                    r[m] = (x, y)
        return P(r)

    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, P):
            o = to_poly(o)
        return self + (-o)

    def __rsub__(self, o):
        return to_poly(o) - self

    def __mul__(self, o):
        if not isinstance(o, P):
            o = to_poly(o)
        r = {}
        mul_into(r, self.d, o.d)
        return P(r)

    __rmul__ = __mul__

    def scale(self, q):
        return P({m: (norm_num(a * q), norm_num(b * q)) for m, (a, b) in self.d.items()}) if q else ZERO

    def conj(self):
        cj = ATOMS.conj
        r = {}
        for m, (a, b) in self.d.items():
            if m:
                m = tuple(sorted(cj[i] for i in m))
            r[m] = (a, -b)
        return P(r)

    conjugate = conj

    def real(self):
        cj = ATOMS.conj
        r = {}
        rest = {}
        for m, (a, b) in self.d.items():
            if all(cj[i] == i for i in m):
                if a:
                    r[m] = (a, 0)
            else:
                rest[m] = (a, b)
        if not rest:
            return P(r)
        q = P(rest)
        return P(r) + (q + q.conj()).scale(HALF)

    def imag(self):
        cj = ATOMS.conj
        r = {}
        rest = {}
        for m, (a, b) in self.d.items():
            if all(cj[i] == i for i in m):
                if b:
                    r[m] = (b, 0)
            else:
                rest[m] = (a, b)
        if not rest:
            return P(r)
        q = P(rest)
        return P(r) + (q - q.conj()) * P({(): (0, -HALF)})

    def __pow__(self, n):
        r = ONE
        for _ in range(int(n)):
            r = r * self
        return r

    def subs(self, table):
        """table: atom id -> P"""
        r = ZERO
        for m, c in self.d.items():
            t = P({(): c})
            for i in m:
                t = t * (table[i] if i in table else P.atom(i))
            r = r + t
        return r

    def evalf(self, val):
        """val: callable atom id -> complex"""
        s = 0j
        for m, (a, b) in self.d.items():
            t = complex(float(a), float(b))
            for i in m:
                t *= val(i)
            s += t
        return s

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, (a, b) in sorted(self.d.items())[:12]:
            c = str(a) if b == 0 else "(%s%+sj)" % (a, b)
            out.append("*".join([c] + [ATOMS.names[i] for i in m]))
        return " + ".join(out) + (" + ...[%d terms]" % len(self.d) if len(self.d) > 12 else "")


def mul_into(r, da, db):
    """r += da*db (dicts)."""
    if len(da) > len(db):
        da, db = db, da
    for m1, (a, b) in da.items():
        for m2, (c, e) in db.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                m = tuple(sorted(m1 + m2))
            if b == 0:
                if e == 0:
                    x, y = a * c, 0
                else:
                    x, y = a * c, a * e
            elif e == 0:
                x, y = a * c, b * c
            else:
                x, y = a * c - b * e, a * e + b * c
            o = r.get(m)
            if o is not None:
                x += o[0]
                y += o[1]
                if x == 0 and y == 0:
                    del r[m]
                    continue
            r[m] = (x, y)


ZERO = P({})
ONE = P({(): (1, 0)})
I_UNIT = P({(): (0, 1)})


def pi_poly():
    from . import engine
    return engine.ENGINE.pi()


def sqrt_int(n):
    """sqrt of a squarefree positive integer, as n times the atom 1/sqrt(n)."""
    from . import engine
    return engine.ENGINE.sqrt_int(n)


def snap_float(x):
    """Exact meaning of a Python float written in the code (see DESIGN: constants)."""
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite constant %r" % x)
    if x == int(x) and abs(x) < 1e15:
        return P.const(int(x))
    # rational multiples of pi with a small denominator
    q = Fraction(x / PI).limit_denominator(96)
    if q != 0 and abs(float(q) * PI - x) <= 4e-16 * max(1.0, abs(x)) * 4:
        return pi_poly().scale(norm_num(q))
    dec = Fraction(repr(x))
    if dec.denominator <= 10 ** 9:
        return P.const(norm_num(dec))
    sq = Fraction(x * x).limit_denominator(64)
    if sq > 0 and abs(math.sqrt(sq) - abs(x)) <= 4e-16 * abs(x):
        r = sqrt_rational(sq)
        return r if x > 0 else -r
    small = Fraction(x).limit_denominator(1000)
    if abs(float(small) - x) <= 4e-16 * abs(x):
        return P.const(norm_num(small))
    # r + s*sqrt(n) with small denominators
    if abs(x) < 16:
        for n in (2, 3, 5):
            for k in range(-48, 49):
                if k:
                    s = Fraction(k, 16)
                    r = Fraction(x - float(s) * math.sqrt(n)).limit_denominator(16)
                    if r and abs(float(r) + float(s) * math.sqrt(n) - x) <= 4e-16 * max(abs(x), abs(float(r))):
                        return P.const(norm_num(r)) + sqrt_int(n).scale(norm_num(s))
    return P.const(norm_num(dec))


def snap_float32(x):
    """A value that already went through float32 (should be rare)."""
    if x == int(x) and abs(x) < 1e15:
        return P.const(int(x))
    for den in (64, 1000, 10 ** 5):
        f = Fraction(x).limit_denominator(den)
        if f != 0 and abs(float(f) - x) <= 6e-8 * abs(x):
            return P.const(norm_num(f))
    q = Fraction(x / PI).limit_denominator(48)
    if q != 0 and abs(float(q) * PI - x) <= 1.2e-7 * abs(x):
        return pi_poly().scale(norm_num(q))
    sq = Fraction(x * x).limit_denominator(16)
    if sq > 0 and abs(math.sqrt(sq) - abs(x)) <= 1.2e-7 * abs(x):
        r = sqrt_rational(sq)
        return r if x > 0 else -r
    return P.const(norm_num(Fraction(x)))


def sqrt_rational(q):
    q = Fraction(q)
    n = q.numerator * q.denominator  # sqrt(p/q) = sqrt(p*q)/q
    k = 1
    f = 2
    while f * f <= n:
        while n % (f * f) == 0:
            n //= f * f
            k *= f
        f += 1
    c = norm_num(Fraction(k, q.denominator))
    if n == 1:
        return P.const(c)
    return sqrt_int(n).scale(c)


def to_poly(x):
    if isinstance(x, P):
        return x
    if hasattr(type(x), "to_poly"):
        return x.to_poly()
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return P.const(x)
    if isinstance(x, Fraction):
        return P.const(norm_num(x))
    if isinstance(x, float):
        return snap_float(x)
    if isinstance(x, complex):
        if x.imag == 0:
            return snap_float(x.real)
        return snap_float(x.real) + snap_float(x.imag) * I_UNIT
    import numpy as np
    if isinstance(x, np.generic):
        if x.dtype == np.float32:
            return snap_float32(float(x))
        if x.dtype == np.complex64:
            return snap_float32(float(x.real)) + snap_float32(float(x.imag)) * I_UNIT
        return to_poly(x.item())
    raise Unsupported("cannot make a term of %r" % type(x))
