"""Textbook specification used by the property modules: written from the definitions of
the gates, with index arithmetic that shares nothing with the code under test.
Wire 0 is the most significant bit; matrices are object arrays (terms or complex)."""
from itertools import permutations, combinations, product
import numpy as np
import torch

import deepquantum as dq
from deepquantum.gates import qoperator as op
from deepquantum.gates import qmath as qm
from deepquantum.gates import qtensornetwork as tn
from deepquantum.gates import qcircuit as qc
from deepquantum.layers import qlayers as ql
from symq.harness import Item, P, Unsupported


def half(x):
    from fractions import Fraction
    return x.scale(Fraction(1, 2)) if isinstance(x, P) else x / 2


def mat(c, rows):
    a = np.empty((len(rows), len(rows[0])), object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = c.num(v)
    return a


def I2(c): return mat(c, [[1, 0], [0, 1]])
def X(c): return mat(c, [[0, 1], [1, 0]])
def Y(c): return mat(c, [[0, -1j], [1j, 0]])
def Z(c): return mat(c, [[1, 0], [0, -1]])


def Hm(c):
    r = c.sqrt(c.num(0.5))
    return mat(c, [[1, 1], [1, -1]]) * r


def mm(*ms):
    r = ms[-1]
    for m in reversed(ms[:-1]):
        r = matmul(m, r)
    return r


def matmul(a, b):
    if a.size and isinstance(a.flat[0], P):
        from symq.symtensor import matmul2
        if b.ndim == 1:
            return matmul2(a, b.reshape(-1, 1)).reshape(-1)
        return matmul2(a, b)
    return a.astype(complex).dot(b.astype(complex)).astype(object)


def dag(a):
    return np.conj(a).T


def kron(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = np.kron(r, m)
    return r


def rot(c, p, a):
    """exp(-i a/2 p) for an involution p"""
    n = p.shape[0]
    cc, ss = c.cos(half(a)), c.sin(half(a))
    out = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            out[i, j] = (cc if i == j else c.zero) - p[i, j] * (c.I * ss)
    return out


def rx(c, a): return rot(c, X(c), a)
def ry(c, a): return rot(c, Y(c), a)
def rz(c, a): return rot(c, Z(c), a)


def u1(c, a):
    return mat(c, [[1, 0], [0, c.exp_i(a)]])


def u3(c, t, p, l):
    """Rz(p) Ry(t) Rz(l)  (= Rz(p) Rx(-pi/2) Rz(t) Rx(pi/2) Rz(l))"""
    return mm(rz(c, p), ry(c, t), rz(c, l))


def ctrl(c, m, k=1):
    """k controls (most significant) on m"""
    d = m.shape[0]
    n = d * 2 ** k
    out = c.eye(n)
    out[n - d:, n - d:] = m
    return out


def swap(c):
    return mat(c, [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])


def bits(i, N):
    return [(i >> (N - 1 - k)) & 1 for k in range(N)]


def embed(c, m, N, wires):
    """the operator on N wires acting as m on the listed wires (in that order)"""
    d = 2 ** N
    w = list(wires)
    out = np.empty((d, d), object)
    for i in range(d):
        bi = bits(i, N)
        for j in range(d):
            bj = bits(j, N)
            if any(bi[k] != bj[k] for k in range(N) if k not in w):
                out[i, j] = c.zero
            else:
                a = sum(bi[q] << (len(w) - 1 - t) for t, q in enumerate(w))
                b = sum(bj[q] << (len(w) - 1 - t) for t, q in enumerate(w))
                out[i, j] = m[a, b]
    return out


def apply(c, m, N, wires, v):
    """embed(m) @ v for a vector v, without building the matrix"""
    w = list(wires)
    k = len(w)
    out = np.empty(2 ** N, object)
    for i in range(2 ** N):
        bi = bits(i, N)
        a = sum(bi[q] << (k - 1 - t) for t, q in enumerate(w))
        s = c.zero
        for b in range(2 ** k):
            x = m[a, b]
            if (isinstance(x, P) and not x.d) or (not isinstance(x, P) and x == 0):
                continue
            bj = list(bi)
            for t, q in enumerate(w):
                bj[q] = (b >> (k - 1 - t)) & 1
            j = sum(v_ << (N - 1 - t) for t, v_ in enumerate(bj))
            s = s + x * v[j]
        out[i] = s
    return out


def prog_matrix(c, prog, N):
    """prog: list of (matrix, wires) applied in order -> 2^N x 2^N"""
    d = 2 ** N
    cols = []
    for j in range(d):
        v = np.empty(d, object)
        for i in range(d):
            v[i] = c.one if i == j else c.zero
        for m, w in prog:
            v = apply(c, m, N, w, v)
        cols.append(v)
    return np.stack(cols, axis=1)


def prog_apply(c, prog, N, v):
    for m, w in prog:
        v = apply(c, m, N, w, v)
    return v


def inner(a, b):
    """<a|b>"""
    s = None
    for x, y in zip(a, b):
        t = np.conj(x) * y if not isinstance(x, P) else x.conj() * y
        s = t if s is None else s + t
    return s


def expect(c, v, m):
    return inner(v, matmul(m, v))


# ------------------------------------------------------------------ catalogue
class G:
    """one kind of gate or layer.  build(N, wires, params) -> object; prog(c, wires, a) -> textbook
    program on those wires; a: list of parameter values."""

    def __init__(self, name, nw, npar, build, prog, add, tn=True, dagger=True, contract=True):
        self.name, self.nw, self.npar, self.build, self.prog, self.add = name, nw, npar, build, prog, add
        self.tn, self.dagger, self.contract = tn, dagger, contract

    def np_(self, wires):
        return self.npar(len(wires)) if callable(self.npar) else self.npar

    def params(self, c, name, wires, grad=False):
        n = self.np_(wires)
        if n == 0:
            return None
        if self.npar == 1:
            return c.angle(name, grad)
        return c.angles(name, n, grad)

    def vals(self, c, p):
        if p is None:
            return []
        return list(c.sv(p).reshape(-1))

    def spec(self, c, wires, p):
        return self.prog(c, list(wires), self.vals(c, p))


def one(f):
    return lambda c, w, a: [(f(c, *a), w)]


def wi(w):
    return w[0] if isinstance(w, (list, tuple)) else w


ONE = {
    "Hadamard": G("Hadamard", 1, 0, lambda N, w, p: op.Hadamard(N, wi(w)), one(Hm), lambda q, w, p: q.Hadamard(wi(w))),
    "PauliX": G("PauliX", 1, 0, lambda N, w, p: op.PauliX(N, wi(w)), one(X), lambda q, w, p: q.PauliX(wi(w))),
    "PauliY": G("PauliY", 1, 0, lambda N, w, p: op.PauliY(N, wi(w)), one(Y), lambda q, w, p: q.PauliY(wi(w))),
    "PauliZ": G("PauliZ", 1, 0, lambda N, w, p: op.PauliZ(N, wi(w)), one(Z), lambda q, w, p: q.PauliZ(wi(w))),
    "rx": G("rx", 1, 1, lambda N, w, p: op.rx(p, N, wi(w)), one(rx), lambda q, w, p: q.rx(p, wi(w))),
    "ry": G("ry", 1, 1, lambda N, w, p: op.ry(p, N, wi(w)), one(ry), lambda q, w, p: q.ry(p, wi(w))),
    "rz": G("rz", 1, 1, lambda N, w, p: op.rz(p, N, wi(w)), one(rz), lambda q, w, p: q.rz(p, wi(w))),
    "u1": G("u1", 1, 1, lambda N, w, p: op.u1(p, N, wi(w)), one(u1), lambda q, w, p: q.u1(p, wi(w))),
    "u3": G("u3", 1, 3, lambda N, w, p: op.u3(p, N, wi(w)), one(u3), lambda q, w, p: q.u3(p, wi(w))),
}
TWO = {
    "rxx": G("rxx", 2, 1, lambda N, w, p: op.rxx(p, N, w), one(lambda c, a: rot(c, kron(X(c), X(c)), a)), lambda q, w, p: q.rxx(p, w)),
    "ryy": G("ryy", 2, 1, lambda N, w, p: op.ryy(p, N, w), one(lambda c, a: rot(c, kron(Y(c), Y(c)), a)), lambda q, w, p: q.ryy(p, w)),
    "rzz": G("rzz", 2, 1, lambda N, w, p: op.rzz(p, N, w), one(lambda c, a: rot(c, kron(Z(c), Z(c)), a)), lambda q, w, p: q.rzz(p, w)),
    "cnot": G("cnot", 2, 0, lambda N, w, p: op.cnot(N, w), one(lambda c: ctrl(c, X(c))), lambda q, w, p: q.cnot(w)),
    "cz": G("cz", 2, 0, lambda N, w, p: op.cz(N, w), one(lambda c: ctrl(c, Z(c))), lambda q, w, p: q.cz(w)),
    "cphase": G("cphase", 2, 1, lambda N, w, p: op.cphase(p, N, w), one(lambda c, a: ctrl(c, u1(c, a))), lambda q, w, p: q.cphase(p, w)),
    "cu3": G("cu3", 2, 3, lambda N, w, p: op.cu3(p, N, w), one(lambda c, t, p, l: ctrl(c, u3(c, t, p, l))), lambda q, w, p: q.cu3(p, w)),
    "SWAP": G("SWAP", 2, 0, lambda N, w, p: op.SWAP(N, w), one(swap), lambda q, w, p: q.SWAP(w)),
}
THREE = {
    "toffoli": G("toffoli", 3, 0, lambda N, w, p: op.toffoli(N, w), one(lambda c: ctrl(c, X(c), 2)), lambda q, w, p: q.toffoli(w)),
}
MULTI = {
    "multi_control_cnot": G("multi_control_cnot", None, 0, lambda N, w, p: op.multi_control_cnot(N, w),
                            lambda c, w, a: [(ctrl(c, X(c), len(w) - 1), w)], lambda q, w, p: q.multi_control_cnot(w),
                            tn=False, contract=False),
}


def rots(fs):
    k = len(fs)
    return lambda c, w, a: [(mm(*[f(c, a[k * i + t]) for t, f in reversed(list(enumerate(fs)))]), [q]) for i, q in enumerate(w)]


def layer(cls, fs):
    nm = cls.__name__
    return G(nm, None, (lambda n: len(fs) * n), lambda N, w, p: cls(N, w, p), rots(fs),
             lambda q, w, p: getattr(q, nm)(w, p))


LAYERS = {
    "XYZLayer": layer(ql.XYZLayer, [rx, ry, rz]),
    "ZYXLayer": layer(ql.ZYXLayer, [rz, ry, rx]),
    "YZYLayer": layer(ql.YZYLayer, [ry, rz, ry]),
    "XZXLayer": layer(ql.XZXLayer, [rx, rz, rx]),
    "XZLayer": layer(ql.XZLayer, [rx, rz]),
    "ZXLayer": layer(ql.ZXLayer, [rz, rx]),
    "HLayer": G("HLayer", None, 0, lambda N, w, p: ql.HLayer(N, w), lambda c, w, a: [(Hm(c), [q]) for q in w],
                lambda q, w, p: q.Hadamard(w)),
}


def ring(step):
    def f(c, w, a):
        L = len(w)
        if L == 2:
            return [(ctrl(c, X(c)), [w[0], w[1]])]
        return [(ctrl(c, X(c)), [w[i], w[(i + step) % L]]) for i in range(L)]
    return f


def ring_dagger(c, w, a):
    return list(reversed(ring(1)(c, w, a)))


def basic(rep):
    def f(c, w, a):
        out = []
        k = 3 * len(w)
        for r in range(rep):
            out += rots([ry, rz, ry])(c, w, a[r * k:(r + 1) * k])
            out += ring(1)(c, w, [])
        return out
    return f


RINGS = {
    "ring_of_cnot": G("ring_of_cnot", None, 0, lambda N, w, p: ql.ring_of_cnot(N, w), ring(1), lambda q, w, p: q.ring_of_cnot(w)),
    "ring_of_cnot_dagger": G("ring_of_cnot_dagger", None, 0, lambda N, w, p: ql.ring_of_cnot_dagger(N, w), ring_dagger,
                             lambda q, w, p: q.add(ql.ring_of_cnot_dagger(q.nqubits, w))),
    "ring_of_cnot2": G("ring_of_cnot2", None, 0, lambda N, w, p: ql.ring_of_cnot2(N, w), ring(2),
                       lambda q, w, p: q.ring_of_cnot2(w), tn=False, dagger=False, contract=False),
}


def basic_g(rep):
    return G("BasicEntangleLayer", None, (lambda n: 3 * n * rep), lambda N, w, p: ql.BasicEntangleLayer(N, w, p, rep), basic(rep),
             lambda q, w, p: q.BasicEntangleLayer(w, p, rep), tn=False, dagger=False, contract=False)


BASIC = {"BasicEntangleLayer": basic_g(1), "BasicEntangleLayer_r2": basic_g(2)}
GATES = {**ONE, **TWO, **THREE}


def wire_lists(N, k):
    return [list(p) for p in permutations(range(N), k)]


def subsets(N, lo=1, hi=None):
    """all ordered selections of wires, small ones"""
    out = []
    for k in range(lo, (hi or N) + 1):
        out += wire_lists(N, k)
    return out


# ------------------------------------------------------------------ matrix-product states
def mps(c, name, bonds):
    """arbitrary site tensors [2, b_{i-1}, b_i]; bonds: the N-1 inner dimensions"""
    b = [1] + list(bonds) + [1]
    return [c.cplx("%s%d" % (name, i), (2, b[i], b[i + 1])) for i in range(len(b) - 1)]


def mps_vec(c, ts):
    """the amplitudes a list of site tensors stands for (own contraction)"""
    arrs = [c.sv(t) for t in ts]
    N = len(arrs)
    out = np.empty(2 ** N, object)
    for i in range(2 ** N):
        bi = bits(i, N)
        row = [arrs[0][bi[0]][0, k] for k in range(arrs[0].shape[2])]
        for k in range(1, N):
            m = arrs[k][bi[k]]
            row = [sum((row[a] * m[a, b] for a in range(1, m.shape[0])), row[0] * m[0, b]) for b in range(m.shape[1])]
        out[i] = row[0]
    return out


def well_formed(ts):
    """neighbouring bonds match and the outer ones have dimension 1"""
    sh = [tuple(t.shape) for t in ts]
    return all(len(s) == 3 and s[0] == 2 for s in sh) and sh[0][1] == 1 and sh[-1][2] == 1 and \
        all(a[2] == b[1] for a, b in zip(sh, sh[1:]))


# ------------------------------------------------------------------ circuits
def build_circuit(c, cat, N, names, grad=False, pre="t"):
    """-> circuit, list of (kind, wires, parameter tensor, input names)"""
    cir = dq.Circuit(N)
    parts = []
    for k, (nm, w) in enumerate(names):
        g = cat[nm]
        nme = "%s%d" % (pre, k)
        p = g.params(c, nme, w, grad)
        g.add(cir, list(w), p)
        n = g.np_(w)
        parts.append((g, list(w), p, [] if not n else ([nme] if g.npar == 1 else ["%s_%d" % (nme, i) for i in range(n)])))
    return cir, parts


def values(c, parts):
    return [v for g, w, p, _ in parts for v in g.vals(c, p)]


def program(c, parts, vals):
    out, k = [], 0
    for g, w, p, nm in parts:
        out += g.prog(c, w, vals[k:k + len(nm)])
        k += len(nm)
    return out


def gradient(c, f, vals, names):
    """partial derivatives of f(vals): formal on terms, central differences on numbers"""
    if c.sym:
        p = f(vals)
        return [c.diff(p, n) for n in names]
    h = 1e-5
    out = []
    for k in range(len(names)):
        up, dn = list(vals), list(vals)
        up[k] = up[k] + h
        dn[k] = dn[k] - h
        out.append((f(up) - f(dn)) / (2 * h))
    return out


def real_part(x):
    return x.real() if isinstance(x, P) else x.real


def zero_state(c, N):
    return np.array([c.one] + [c.zero] * (2 ** N - 1), dtype=object)


def pauli(c, s):
    return kron(*[{"I": I2, "X": X, "Y": Y, "Z": Z}[ch](c) for ch in s])


def hermitian(c, name, d):
    """an arbitrary hermitian matrix (as terms)"""
    a = c.sv(c.cplx(name, (d, d)))
    return np.array([[a[i, j] + a[j, i].conjugate() for j in range(d)] for i in range(d)], dtype=object)
