"""Path exploration, derived atoms (trig, roots, SVD contract) and assumptions."""
import math
import cmath
from fractions import Fraction

from . import poly
from .poly import P, ATOMS, ZERO, ONE, I_UNIT, Unsupported, to_poly, norm_num
from .boolx import B, cmp, neg, conj, disj


class Refine(BaseException):
    """A smaller trigonometric base unit is needed: restart the item."""


class Infeasible(BaseException):
    """This path cannot be taken."""


class Budget(BaseException):
    """Path or step budget of the item exhausted."""


class Engine:
    def __init__(self):
        self.units = {}        # angle monomial (names) -> base unit (Fraction)
        self.solver = None
        self.stats = {"branch_queries": 0}
        self.max_paths = 4000
        self.svd_budget = 1
        self.reset_path([])

    # ------------------------------------------------------------ paths
    def new_item(self):
        self.units = {}
        self.pending = [[]]

    def reset_path(self, prefix):
        poly.reset_atoms()
        self.prefix = list(prefix)
        self.trace = []        # decisions: (index taken, n alternatives)
        self.alts = []         # prefixes to explore
        self.pc = []           # B's
        self.rels = []         # (lead monomial, P) meaning P == 0
        self.bounds = {}       # atom -> list of B always valid for it
        self.cache = {}
        self.reversed = []     # SVD equations read from the decomposed side
        self.recips = []       # (atoms, P): a * 1/a - 1
        self.squares = {}      # sqrt / abs atom -> its square
        self.inputs = {}       # name -> dict
        self.svd_dev = 0
        self.nsvd = 0
        self.nbranch = 0
        self.values = {}       # derived atom id -> callable(env) numeric
        self.notes = []
        self.choices = {}

    def decide(self, n, feasible):
        """choose among n alternatives; feasible(i)->bool is asked lazily."""
        k = len(self.trace)
        if k < len(self.prefix):
            i = self.prefix[k]
            self.trace.append(i)
            return i
        ok = [i for i in range(n) if feasible(i)]
        if not ok:
            raise Infeasible()
        base = list(self.trace)
        for i in ok[1:]:
            self.alts.append(base + [i])
        self.trace.append(ok[0])
        return ok[0]

    def branch(self, b):
        for x in self.pc:
            if same_formula(x, b):
                return True
        nb = neg(b)
        if not isinstance(nb, B):
            return not nb
        for x in self.pc:
            if same_formula(x, nb):
                return False
        self.nbranch += 1
        k = len(self.trace)
        if k < len(self.prefix):
            i = self.prefix[k]
        else:
            self.stats["branch_queries"] += 1
            ok = self.solver.sides(self, b, nb)
            if not ok:
                raise Infeasible()
            i = ok[0]
            if len(ok) > 1:
                self.alts.append(list(self.trace) + [1])
        self.trace.append(i)
        self.assume(b if i == 0 else nb)
        return i == 0

    def choose(self, name, options):
        options = list(options)
        i = self.decide(len(options), lambda i: True)
        self.choices[name] = i
        return options[i]

    def assume(self, b):
        if not isinstance(b, B):
            if not b:
                raise Infeasible()
            return
        self.pc.append(b)
        if b.t == "cmp" and b.a[0] == "==":
            self.angle_fixed(b.a[1])

    def angle_fixed(self, p):
        """an equation a*theta + const*pi + c == 0 fixes the trig atoms of theta"""
        ids = [m for m in p.d if m]
        if len(ids) != 1 or len(ids[0]) != 1:
            return
        m = ids[0]
        name = ATOMS.names[m[0]]
        key = (name,)
        if p.d.get((), (0, 0)) == (0, 0) and key in self.units:
            c, s = self.trig_atoms(m, self.units[key])
            self.add_rel(c, P.atom(c) - ONE)
            self.add_rel(s, P.atom(s))

    # ------------------------------------------------------------ relations
    def add_rel(self, lead, p):
        if isinstance(lead, int):
            lead = (lead,)
        self.rels.append((tuple(sorted(lead)), p))

    def add_bound(self, atom, b):
        if isinstance(b, B):
            self.bounds.setdefault(atom, []).append(b)

    def const_atom(self, name, val, **info):
        i = ATOMS.real(name, kind="const", val=val, **info)
        return i

    def sqrt_int(self, n):
        nm = "irt%d" % n
        if nm in ATOMS.by_name:
            return P.atom(ATOMS.by_name[nm]).scale(n)
        v = 1 / math.sqrt(n)
        i = self.const_atom(nm, v)
        self.add_rel((i, i), (P.atom(i) * P.atom(i)).scale(n) - ONE)
        lo = Fraction(int(v * 10 ** 9), 10 ** 9)
        self.add_bound(i, B("cmp", (">", P.atom(i) - P.const(lo))))
        self.add_bound(i, B("cmp", (">", P.const(lo + Fraction(1, 10 ** 9)) - P.atom(i))))
        return P.atom(i).scale(n)

    def pi(self):
        nm = "pi"
        if nm in ATOMS.by_name:
            i = ATOMS.by_name[nm]
        else:
            i = self.const_atom(nm, math.pi)
            lo = Fraction(3141592653, 10 ** 9)
            self.add_bound(i, B("cmp", (">", P.atom(i) - P.const(lo))))
            self.add_bound(i, B("cmp", (">", P.const(lo + Fraction(1, 10 ** 9)) - P.atom(i))))
        return P.atom(i)

    def const_sign(self, p):
        """sign of a constant polynomial, None if it is not constant."""
        if not p.d:
            return 0
        for m in p.d:
            for i in m:
                if ATOMS.info[i].get("kind") != "const":
                    return None
        if p.is_const():
            a, b = p.const_value()
            if b != 0:
                return 2
            return 1 if a > 0 else -1
        v = p.evalf(lambda i: ATOMS.info[i]["val"])
        if abs(v) < 1e-12:
            return None if not self.const_zero(p) else 0
        if abs(v.imag) > 1e-12:
            return 2
        return 1 if v.real > 0 else -1

    def const_zero(self, p):
        # reduce rt_n**2
        from .smt import reduce_poly
        return not reduce_poly(p, self.rels).d

    # ------------------------------------------------------------ functions
    def trig_atoms(self, mono, unit):
        nm = "*".join(ATOMS.names[i] for i in mono) or "1"
        cn, sn = "cos[%s.%s]" % (unit, nm), "sin[%s.%s]" % (unit, nm)
        if cn in ATOMS.by_name:
            return ATOMS.by_name[cn], ATOMS.by_name[sn]
        isconst = all(ATOMS.info[i].get("kind") == "const" for i in mono)
        if isconst:
            v = float(unit)
            for i in mono:
                v *= ATOMS.info[i]["val"]
            c = self.const_atom(cn, math.cos(v))
            s = self.const_atom(sn, math.sin(v))
            for a, val in ((c, math.cos(v)), (s, math.sin(v))):
                lo = Fraction(math.floor(val * 10 ** 9), 10 ** 9)
                self.add_bound(a, B("cmp", (">=", P.atom(a) - P.const(lo))))
                self.add_bound(a, B("cmp", (">=", P.const(lo + Fraction(1, 10 ** 9)) - P.atom(a))))
        else:
            c = ATOMS.real(cn, kind="cos", mono=mono, unit=unit)
            s = ATOMS.real(sn, kind="sin", mono=mono, unit=unit)
            u = float(unit)

            def ang(env, mono=mono, u=u):
                v = u
                for i in mono:
                    v *= env(i)
                return v
            self.values[c] = lambda env: cmath.cos(ang(env))
            self.values[s] = lambda env: cmath.sin(ang(env))
            for a in (c, s):
                self.add_bound(a, B("cmp", (">=", ONE - P.atom(a))))
                self.add_bound(a, B("cmp", (">=", ONE + P.atom(a))))
        self.add_rel((s, s), P.atom(s) * P.atom(s) + P.atom(c) * P.atom(c) - ONE)
        return c, s

    def cossin(self, p):
        """(cos p, sin p) for a real polynomial p (an angle)."""
        p = to_poly(p)
        k = ("cossin", p.key())
        if k in self.cache:
            return self.cache[k]
        if not p.is_real() or any(b for _, b in p.d.values()):
            raise Unsupported("cos/sin of a complex value")
        C, S = ONE, ZERO
        for m, (a, b) in sorted(p.d.items()):
            q = Fraction(a)
            names = tuple(ATOMS.names[i] for i in m)
            if names == ("pi",):
                e = self.pi_angle(q)
                if e is not None:
                    c2, s2 = e
                    C, S = C * c2 - S * s2, S * c2 + C * s2
                    continue
            u = self.units.get(names)
            if u is None:
                u = Fraction(1, 2)
                if names == ("pi",):
                    u = Fraction(1, q.denominator)
                elif not names:
                    u = Fraction(1, q.denominator)
                if q % u != 0:
                    u = fgcd(u, q)
                self.units[names] = u
            if q % u != 0:
                self.units[names] = fgcd(u, q)
                raise Refine()
            n = int(q / u)
            c, s = self.trig_atoms(m, u)
            e = ONE
            base = P.atom(c) + (P.atom(s) if n > 0 else -P.atom(s)) * I_UNIT
            for _ in range(abs(n)):
                e = e * base
            c2, s2 = e.real(), e.imag()
            C, S = C * c2 - S * s2, S * c2 + C * s2
        self.cache[k] = (C, S)
        return C, S

    def pi_angle(self, q):
        q = q % 2
        n = q * 12
        if n.denominator != 1:
            return None
        n = int(n)
        if n % 3 and n % 2:
            return None

        def cosk(n):
            n %= 24
            if n > 12:
                n = 24 - n
            if n > 6:
                return -cosk(12 - n)
            h = Fraction(1, 2)
            return {0: lambda: ONE, 2: lambda: self.sqrt_int(3).scale(h), 3: lambda: self.sqrt_int(2).scale(h),
                    4: lambda: P.const(h), 6: lambda: ZERO}[n]()
        return cosk(n), cosk(n - 6)

    def exp(self, p):
        if not p.d:
            return ONE
        re, im = p.real(), p.imag()
        if re.d:
            i = ATOMS.real("exp%d" % len(self.cache), kind="exp")
            k = ("exp", re.key())
            if k not in self.cache:
                self.cache[k] = i
                self.values[i] = lambda env, re=re: cmath.exp(re.evalf(env))
                self.add_bound(i, B("cmp", (">", P.atom(i))))
            e = P.atom(self.cache[k])
        else:
            e = ONE
        if im.d:
            c, s = self.cossin(im)
            e = e * (c + s * I_UNIT)
        return e

    def desquare(self, p):
        """squares of the square roots and absolute values in p replaced by what they stand for"""
        for _ in range(50):
            hit = None
            for m in p.d:
                for a, b in zip(m, m[1:]):
                    if a == b and a in self.squares:
                        hit = (m, a)
                        break
                if hit:
                    break
            if hit is None:
                return p
            m, a = hit
            rest = list(m)
            rest.remove(a)
            rest.remove(a)
            c = p.d[m]
            p = p - P({m: c}) + P({tuple(rest): c}) * self.squares[a]
        return p

    def sqrt(self, p):
        p = self.desquare(to_poly(p))
        if not p.d:
            return ZERO
        if p.is_const():
            a, b = p.const_value()
            if b == 0 and a > 0:
                return poly.sqrt_rational(a)
            raise Unsupported("sqrt of a negative constant")
        k = ("sqrt", p.key())
        if k in self.cache:
            return self.cache[k]
        if not p.is_real():
            raise Unsupported("sqrt of a complex value")
        i = ATOMS.real("sqrt%d" % len(self.cache), kind="sqrt")
        a = P.atom(i)
        self.cache[k] = a
        self.cache[("sqrtarg", i)] = p
        self.add_rel((i, i), a * a - p)
        self.squares[i] = p
        self.add_bound(i, B("cmp", (">=", a)))
        self.values[i] = lambda env, p=p: cmath.sqrt(p.evalf(env))
        return a

    def abs(self, p):
        p = to_poly(p)
        v = self.const_sign(p)
        if v is not None and v != 2:
            return p if v >= 0 else -p
        if p.is_real():
            # |a| for a single non-negative atom
            if len(p.d) == 1:
                (m, (c, _)), = p.d.items()
                if all(ATOMS.info[i].get("nonneg") or ATOMS.info[i].get("kind") == "sqrt" for i in m):
                    return p if c > 0 else -p
            k = ("abs", p.key())
            if k in self.cache:
                return self.cache[k]
            k2 = ("sqrt", self.desquare(p * p).key())
            if k2 in self.cache:
                return self.cache[k2]
            k2 = ("abs", (-p).key())
            if k2 in self.cache:
                return self.cache[k2]
            i = ATOMS.real("abs%d" % len(self.cache), kind="abs")
            a = P.atom(i)
            self.add_rel((i, i), a * a - p * p)
            self.squares[i] = p * p
            self.cache[("sqrt", self.desquare(p * p).key())] = a
            self.add_bound(i, B("cmp", (">=", a)))
            self.add_bound(i, B("or", (B("cmp", ("==", a - p)), B("cmp", ("==", a + p)))))
            self.values[i] = lambda env, p=p: abs(p.evalf(env))
            self.cache[k] = a
            return a
        return self.sqrt(p * p.conj())

    def recip(self, p):
        p = self.desquare(to_poly(p))
        if p.is_const():
            a, b = p.const_value()
            n = a * a + b * b
            if n == 0:
                raise Unsupported("division by zero")
            return P.const(norm_num(Fraction(a) / n), norm_num(-Fraction(b) / n))
        k = ("recip", p.key())
        if k in self.cache:
            return self.cache[k]
        real = p.is_real()
        nm = "inv%d" % len(self.cache)
        i = ATOMS.real(nm, kind="recip") if real else ATOMS.cplx(nm, kind="recip")
        a = P.atom(i)
        self.cache[k] = a
        lead = max(p.d, key=lambda m: (len(m), m))
        self.add_rel((i,) + lead, a * p - ONE)
        self.recips.append((i, a * p - ONE))
        if not real:
            self.add_rel((i + 1,) + max(p.conj().d, key=lambda m: (len(m), m)), (a * p - ONE).conj())
        self.values[i] = lambda env, p=p: 1.0 / p.evalf(env)
        if not real:
            self.values[i + 1] = lambda env, p=p: (1.0 / p.evalf(env)).conjugate()
        # 1/(c*sqrt(q)): also inv^2 * c^2 q = 1
        if real and len(p.d) == 1:
            (m, (c, _)), = p.d.items()
            if len(m) == 1 and ATOMS.info[m[0]].get("kind") in ("sqrt", "abs"):
                q = self.squares[m[0]].scale(c * c)
                ql = max(q.d, key=lambda m: (len(m), m))
                self.add_rel((i, i) + ql, a * a * q - ONE)
            if all(ATOMS.info[j].get("nonneg") or ATOMS.info[j].get("kind") == "sqrt" for j in m) and c > 0:
                self.add_bound(i, B("cmp", (">", a)))
        return a

    def div(self, a, b):
        b = to_poly(b)
        return to_poly(a) * self.recip(b)

    def floor(self, p):
        """the integer part of a symbolic value, one path per integer within the window
        (bound: larger values are outside what was explored)"""
        p = to_poly(p)
        if not p.is_real():
            raise Unsupported("rounding of a complex value")
        v = self.const_sign(p)
        if v is not None:
            return P.const(math.floor(p.evalf(lambda i: ATOMS.info[i]["val"]).real + 1e-15))
        for q, n in self.cache.get("floors", ()):
            d = p - q
            if d.is_const() and Fraction(d.const_value()[0]).denominator == 1:
                return n + d
        fl = self.cache.setdefault("floors", [])
        window = (0, -1, 1, -2, 2) if len(fl) < 2 else (0, -1, 1)
        for n in window:
            c = conj([cmp(">=", p - P.const(n)), cmp(">", P.const(n + 1) - p)])
            if bool(c) if not isinstance(c, B) else self.branch(c):
                fl.append((p, P.const(n)))
                return P.const(n)
        self.notes.append("integer parts outside -2..2")
        raise Infeasible()

    def trunc(self, p):
        p = to_poly(p)
        if p.is_const():
            return P.const(math.trunc(p.const_value()[0]))
        return self.floor(p) if bool(cmp(">=", p)) else -self.floor(-p)

    def round(self, p):
        """to the nearest; ties go up, which differs from round-half-even on a null set"""
        p = to_poly(p)
        if p.is_const():
            return P.const(round(p.const_value()[0]))
        return self.floor(p + P.const(Fraction(1, 2)))

    def floordiv(self, a, b, mode="floor"):
        a, b = to_poly(a), to_poly(b)
        if a.is_const() and b.is_const():
            q = Fraction(a.const_value()[0]) / Fraction(b.const_value()[0])
            return P.const(math.floor(q) if mode == "floor" else math.trunc(q))
        q = self.div(a, b)
        return self.floor(q) if mode == "floor" else self.trunc(q)

    # ------------------------------------------------------------ SVD contract
    def svd(self, A, cplx):
        """A: 2-D object array. Returns U (m,K), S (K,), Vh (K,n) of fresh atoms
        constrained by U diag(S) Vh = A, orthonormality and ordering.  The number
        of non-zero singular values is an enumerated choice."""
        import numpy as np
        m, n = A.shape
        K = min(m, n)
        t = self.nsvd
        self.nsvd += 1
        zero = all(not x.d for x in A.flat)
        if zero:
            D = 0
        else:
            opts = [K]
            if self.svd_dev < self.svd_budget:
                opts += list(range(K - 1, 0, -1))
            D = self.choose("svd%d" % t, opts)
            if D != K:
                self.svd_dev += 1
        mk = (lambda nm, **kw: ATOMS.cplx(nm, **kw)) if cplx else (lambda nm, **kw: ATOMS.real(nm, **kw))
        U = np.empty((m, K), object)
        S = np.empty((K,), object)
        V = np.empty((K, n), object)
        for k in range(K):
            for r in range(m):
                U[r, k] = P.atom(mk("U%d_%d_%d" % (t, r, k), kind="svd"))
        for k in range(K):
            if k < D:
                i = ATOMS.real("S%d_%d" % (t, k), kind="svd", nonneg=True)
                S[k] = P.atom(i)
                self.add_bound(i, B("cmp", (">=", S[k] - P.const(Fraction(1, 10 ** 6)))))
                if k:
                    self.add_bound(i, B("cmp", (">=", S[k - 1] - S[k])))
            else:
                S[k] = ZERO
        for k in range(K):
            for c in range(n):
                if n == 1:
                    # LAPACK leaves a 1x1 right factor real (+1 or -1)
                    V[k, c] = P.atom(ATOMS.real("V%d_%d_%d" % (t, k, c), kind="svd"))
                else:
                    V[k, c] = P.atom(mk("V%d_%d_%d" % (t, k, c), kind="svd"))
        g = lambda x: next(iter(x.d))[0]
        for r in range(m):
            for c in range(n):
                s = ZERO
                for k in range(D):
                    s = s + U[r, k] * S[k] * V[k, c]
                p = s - A[r, c]
                if D:
                    lead = (g(U[r, 0]), g(S[0]), g(V[0, c]))
                    self.add_rel(lead, p)
                    rev = max(A[r, c].d, key=lambda m: (len(m), m)) if A[r, c].d else None
                    if rev:
                        self.reversed.append((tuple(sorted(rev)), p))
                    if cplx:
                        cj = ATOMS.conj
                        self.add_rel([cj[i] for i in lead], p.conj())
                        if rev:
                            self.reversed.append((tuple(sorted(cj[i] for i in rev)), p.conj()))
                elif p.d:
                    self.assume(B("cmp", ("==", p)))
        cj = ATOMS.conj
        for i in range(K):
            for j in range(K):
                if not cplx and j < i:
                    continue
                s = -ONE if i == j else ZERO
                for r in range(m):
                    s = s + U[r, i].conj() * U[r, j]
                self.add_rel((cj[g(U[0, i])], g(U[0, j])), s)
                s = -ONE if i == j else ZERO
                for c in range(n):
                    s = s + V[i, c] * V[j, c].conj()
                self.add_rel((g(V[i, 0]), cj[g(V[j, 0])]), s)
        return U, S, V

    # ------------------------------------------------------------ numeric env
    def numeric_env(self, assign):
        """assign: atom id -> value for input atoms; returns env(atom)->complex"""
        memo = dict(assign)

        def env(i):
            if i in memo:
                return memo[i]
            if ATOMS.info[i].get("kind") == "const":
                v = ATOMS.info[i]["val"]
            elif i in self.values:
                v = self.values[i](env)
            elif ATOMS.conj[i] != i and ATOMS.conj[i] in memo:
                v = memo[ATOMS.conj[i]].conjugate()
            else:
                raise KeyError(ATOMS.names[i])
            memo[i] = v
            return v
        return env


def fgcd(a, b):
    a, b = Fraction(a), Fraction(abs(b))
    den = a.denominator * b.denominator
    x = math.gcd(int(a * den), int(b * den))
    return Fraction(x, den)


def same_formula(a, b):
    if a is b:
        return True
    if not (isinstance(a, B) and isinstance(b, B)) or a.t != b.t:
        return False
    if a.t == "cmp":
        return a.a[0] == b.a[0] and a.a[1].same(b.a[1])
    return len(a.a) == len(b.a) and all(same_formula(x, y) for x, y in zip(a.a, b.a))


ENGINE = Engine()
