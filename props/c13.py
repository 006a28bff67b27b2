"""C13: the predicates accept exactly what they are named after."""
from .common import *

LOW, HIGH = 1e-7, 1e-5
BOUNDS = "arbitrary complex matrices of size 1-3 (hermitian: 1-4, vectors: 1-6) (the code's tolerance 1e-6 is allowed to be anything between 1e-7 and 1e-5); the operators of every gate " \
         "on 1-2 wires for all parameter values; the deviation of a single entry of any size (sizes 1-5), a row mixed into another, a plane rotation and a shear at any " \
         "two rows (sizes 2-4; selected pairs of 5 and 8)"


def off(c, x, tol):
    return c.gt(c.abs(x), tol)


def defects(c, a):
    """entries of a a^dagger - 1 (upper part)"""
    n = a.shape[0]
    out = []
    for i in range(n):
        for k in range(i, n):
            s = sum((a[i, j] * a[k, j].conjugate() for j in range(1, n)), a[i, 0] * a[k, 0].conjugate())
            out.append(s - c.one if i == k else s)
    return out


def verdict(c, r, devs):
    if r:
        for k, d in enumerate(devs):
            c.true("accepted_only_if_true_%d" % k, neg_(c, off(c, d, HIGH)))
    else:
        c.true("refused_only_if_false", c.any([off(c, d, LOW) for d in devs]))


def neg_(c, b):
    from symq.boolx import neg
    return neg(b)


def unitary(c, n):
    m = c.cplx("m", (n, n))
    verdict(c, qm.IsUnitary(m), defects(c, c.sv(m)))


def hermitian(c, n):
    m = c.cplx("m", (n, n))
    a = c.sv(m)
    verdict(c, qm.IsHermitian(m), [a[i, j] - a[j, i].conjugate() for i in range(n) for j in range(i, n)])


def normalized(c, n, real):
    v = c.real("v", (n,)) if real else c.cplx("v", (n,))
    a = c.sv(v)
    verdict(c, qm.IsNormalized(v), [sum((x * x.conjugate() for x in a[1:]), a[0] * a[0].conjugate()) - c.one])


def gate_unitary(c, g, N, wl):
    w = c.choose("wires", wl)
    o = g.build(N, list(w), g.params(c, "t", w))
    c.true("unitary", qm.IsUnitary(o.U_expand()))


def hermitian_family(c, n):
    """a + a^dagger is accepted, and so is any a with real diagonal and conjugate pairs"""
    m = c.cplx("m", (n, n))
    c.true("accepted", qm.IsHermitian(m + qm.dag(m)))


def one_entry_off(c, what, n):
    """a single entry away by any amount above the tolerance is noticed, wherever it is"""
    i = c.choose("row", list(range(n)))
    j = c.choose("col", list(range(n)))
    e = c.real("e")
    x = c.sv(e)[()]
    c.assume(c.any([c.gt(x, 0.001), c.gt(-x, 0.001)]) if what != "unitary" else c.gt(x, 0.001))
    if what == "hermitian":
        a = c.sv(c.cplx("m", (n, n)))
        for p in range(n):
            for q in range(p):
                a[p, q] = a[q, p].conjugate()
            a[p, p] = a[p, p] + a[p, p].conjugate()
        a[i, j] = a[i, j] + x * c.I
        c.true("noticed", not qm.IsHermitian(c.tensor(a)))
    else:
        a = c.eye(n)
        a[i, j] = a[i, j] + x
        c.true("noticed", not qm.IsUnitary(c.tensor(a)))


def mixed_rows(c, n, pairs, amount):
    """a unit matrix with an amount of one row mixed into another (any distance) is not unitary"""
    i, k = c.choose("rows", pairs)
    x = c.real("e") if amount == "real" else c.cplx("e", (1,))
    v = c.sv(x).reshape(-1)[0]
    c.assume(c.gt(c.abs(v), 0.001))
    a = c.eye(n)
    a[i, k] = a[i, k] + v
    c.true("noticed", not qm.IsUnitary(c.tensor(a)))


def plane(c, n, pairs, which):
    """a rotation (accepted) or a shear/rescaled rotation (refused) in one plane"""
    i, k = c.choose("rows", pairs)
    t = c.angle("t")
    x = c.sv(t)[()]
    a = c.eye(n)
    a[i, i], a[i, k], a[k, i], a[k, k] = c.cos(x), -c.sin(x), c.sin(x), c.cos(x)
    if which == "rotation":
        c.true("accepted", qm.IsUnitary(c.tensor(a)))
    elif which == "phase":
        ph = c.exp_i(x)
        for j in range(n):
            a[i, j] = a[i, j] * ph
        c.true("accepted", qm.IsUnitary(c.tensor(a)))
    else:
        # one column's sign lost: rows i and k stop being orthogonal unless sin or cos vanishes
        a[i, k] = c.sin(x)
        c.assume(c.gt(c.abs(c.sin(x) * c.cos(x)), 0.001))
        c.true("noticed", not qm.IsUnitary(c.tensor(a)))


def equal_rows(c, n, pairs):
    """two equal unit rows"""
    i, k = c.choose("rows", pairs)
    a = c.eye(n)
    a[k, :] = a[i, :]
    c.true("noticed", not qm.IsUnitary(c.tensor(a)))


def shapes(c, n):
    m = c.cplx("m", (n, n + 1))
    c.raises("unitary_not_square", lambda: qm.IsUnitary(m))
    c.raises("hermitian_not_square", lambda: qm.IsHermitian(m))
    c.raises("normalized_matrix", lambda: qm.IsNormalized(m))
    c.raises("dag_vector", lambda: qm.dag(m[0]))


def adjoint(c, a, b):
    m = c.cplx("m", (a, b))
    x = c.sv(m)
    c.eq("conjugate_transpose", qm.dag(m), np.array([[x[i, j].conjugate() for i in range(a)] for j in range(b)], dtype=object))
    c.eq("twice", qm.dag(qm.dag(m)), x)


def kron_(c, shapes_):
    ms = [c.cplx("m%d" % k, s) for k, s in enumerate(shapes_)]
    c.eq("product", qm.multi_kron(ms), kron(*[c.sv(m) for m in ms]))


def items(tier):
    deep = tier != "quick"
    out = []
    for n in (1, 2, 3) + ((4,) if deep else ()):
        out.append(Item("unitary.%d" % n, unitary, (n,)))
    for n in (1, 2, 3, 4):
        out.append(Item("hermitian.%d" % n, hermitian, (n,)))
        out.append(Item("hermitian_family.%d" % n, hermitian_family, (n,)))
        out.append(Item("shapes.%d" % n, shapes, (n,)))
    for n in range(1, 7):
        for real in (True, False):
            out.append(Item("normalized.%d.%s" % (n, "real" if real else "complex"), normalized, (n, real)))
    for g in GATES.values():
        for N in range(g.nw, 3 if g.nw < 3 else 4):
            out.append(Item("gate.%s.N%d" % (g.name, N), gate_unitary, (g, N, wire_lists(N, g.nw))))
    for n in (1, 2, 3, 4, 5):
        for w in ("unitary", "hermitian"):
            out.append(Item("off.%s.%d" % (w, n), one_entry_off, (w, n)))
    for n in (2, 3, 4, 5, 8):
        pr = [[i, k] for i in range(n) for k in range(n) if i != k]
        if n > 4:
            pr = [p for p in pr if p in ([0, n - 1], [n - 1, 0], [1, n - 2], [n - 2, 1], [0, 2], [3, 1], [n // 2, 0])]
        for am in ("real", "complex"):
            out.append(Item("mixed.%d.%s" % (n, am), mixed_rows, (n, pr, am)))
        for wh in ("rotation", "phase", "shear"):
            out.append(Item("plane.%d.%s" % (n, wh), plane, (n, pr, wh)))
        out.append(Item("equal.%d" % n, equal_rows, (n, pr)))
    for a, b in ((1, 1), (2, 2), (2, 3), (4, 1), (4, 4)):
        out.append(Item("dag.%d%d" % (a, b), adjoint, (a, b)))
    for k, s in enumerate([[(2, 2)], [(2, 2), (2, 2)], [(1, 2), (2, 1), (2, 2)], [(2, 2)] * 3, [(1, 3), (2, 2)], [(2, 2)] * 4]):
        out.append(Item("kron.%d" % k, kron_, (s,)))
    return out
