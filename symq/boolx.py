"""Symbolic booleans: comparisons of real polynomials and their combinations."""
from .poly import P, to_poly, Unsupported


class B:
    """('cmp', op, p) with op in > >= == != meaning p op 0, or and/or/not nodes."""
    __slots__ = ("t", "a")

    def __init__(self, t, a):
        self.t = t
        self.a = a

    def __bool__(self):
        from . import engine
        return engine.ENGINE.branch(self)

    def __repr__(self):
        if self.t == "cmp":
            return "(%r %s 0)" % (self.a[1], self.a[0])
        return "(%s %s)" % (self.t, " ".join(map(repr, self.a)))

    def polys(self):
        if self.t == "cmp":
            return [self.a[1]]
        out = []
        for x in self.a:
            if isinstance(x, B):
                out += x.polys()
        return out


def cmp(op, p):
    """p op 0 as bool or B."""
    from . import engine
    p = to_poly(p)
    if op == "<":
        return cmp(">", -p)
    if op == "<=":
        return cmp(">=", -p)
    v = engine.ENGINE.const_sign(p)
    if v is not None:
        if op == ">":
            return v > 0
        if op == ">=":
            return v >= 0
        if op == "==":
            return v == 0
        return v != 0
    if op in (">", ">=") and not p.is_real():
        raise Unsupported("ordering of a complex value")
    return B("cmp", (op, p))


def neg(b):
    if not isinstance(b, B):
        return not b
    if b.t == "cmp":
        op, p = b.a
        return {">": lambda: cmp(">=", -p), ">=": lambda: cmp(">", -p),
                "==": lambda: cmp("!=", p), "!=": lambda: cmp("==", p)}[op]()
    if b.t == "not":
        return b.a[0]
    if b.t == "and":
        return disj([neg(x) for x in b.a])
    if b.t == "or":
        return conj([neg(x) for x in b.a])
    raise AssertionError(b.t)


def conj(bs):
    r = []
    for b in bs:
        if not isinstance(b, B):
            if not b:
                return False
            continue
        r.append(b)
    if not r:
        return True
    return r[0] if len(r) == 1 else B("and", tuple(r))


def disj(bs):
    r = []
    for b in bs:
        if not isinstance(b, B):
            if b:
                return True
            continue
        r.append(b)
    if not r:
        return False
    return r[0] if len(r) == 1 else B("or", tuple(r))


def as_bool(x):
    """value used as a truth value -> bool or B"""
    if isinstance(x, (bool, B)):
        return x
    return cmp("!=", to_poly(x))
