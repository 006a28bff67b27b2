"""C23: the layer functions return the operator their description says."""
from .common import *
from deepquantum.layers import qlayer as fl

BOUNDS = "every layer function on 1-3 wires (wire-pair layers 2-5, fixed layers up to 6), both directions, every kind of single-wire gates, all parameter values as " \
         "tensors; parameter counts from 0 to 3 more than fits and registers of -1 to 1 wires for refusals"

ROTS = {"XYZLayer": [rx, ry, rz], "YZYLayer": [ry, rz, ry], "XZXLayer": [rx, rz, rx], "XZLayer": [rx, rz]}
KIND = {"YZY": "YZYLayer", "XZX": "XZXLayer", "XYZ": "XYZLayer", "XZ": "XZLayer"}
PAIRS = {"RxxLayer": "XX", "RyyLayer": "YY", "RzzLayer": "ZZ"}


def ring_prog(c, m, N, step, down=False):
    if N == 2:
        return [(m, [1, 0] if down else [0, 1])]
    if down:
        return [(m, [i, (i - step) % N]) for i in reversed(range(N))]
    return [(m, [i, (i + step) % N]) for i in range(N)]


def near(c, m, N, down):
    if down:
        return [(m, [i, i - 1]) for s in (N - 1, N - 2) for i in range(s, 0, -2)]
    return [(m, [i, i + 1]) for s in (0, 1) for i in range(s, N - 1, 2)]


def every(c, m, N, down):
    o = list(range(N))
    if N == 2:
        return [(m, [1, 0] if down else [0, 1])]
    if down:
        o.reverse()
    return [(m, [i, j]) for i in o for j in o if i != j]


def pairs(c, s, N, a):
    first = [(i, i + 1) for i in range(0, N - 1, 2)]
    second = [(i, i + 1) for i in range(1, N - 1, 2)]
    return [(rot(c, pauli(c, s), x), list(w)) for x, w in zip(a, first + second)]


FIXED = {
    "ring_of_cnot": lambda c, N, d: ring_prog(c, ctrl(c, X(c)), N, 1, d),
    "ring_of_cnot2": lambda c, N, d: ring_prog(c, ctrl(c, X(c)), N, 2, d),
    "ring_of_cz": lambda c, N, d: ring_prog(c, ctrl(c, Z(c)), N, 1, d),
    "nearest_neighbor_cnot": lambda c, N, d: near(c, ctrl(c, X(c)), N, d),
    "nearest_neighbor_cz": lambda c, N, d: near(c, ctrl(c, Z(c)), N, d),
    "all2all_cnot": lambda c, N, d: every(c, ctrl(c, X(c)), N, d),
}


def params(c, n, form):
    t = c.angles("t", n)
    return (c.pylist(t) if form == "numbers" else t), list(c.sv(t))


def rot_layer(c, nm, N, form):
    p, a = params(c, len(ROTS[nm]) * N, form)
    c.eq("operator", getattr(fl, nm)(N, p), prog_matrix(c, rots(ROTS[nm])(c, list(range(N)), a), N))


def h_layer(c, N):
    c.eq("operator", fl.HLayer(N), prog_matrix(c, [(Hm(c), [k]) for k in range(N)], N))


def fixed(c, nm, N):
    d = c.choose("down", [None, False, True])
    f = getattr(fl, nm)
    c.eq("operator", f(N) if d is None else f(N, up2down=not d), prog_matrix(c, FIXED[nm](c, N, bool(d)), N))


def basic_prog(c, N, k, a):
    return rots(ROTS[KIND[k]])(c, list(range(N)), a) + ring_prog(c, ctrl(c, X(c)), N, 1)


def composed(c, nm, N, k, free=None):
    per = len(k) * N
    n = per if nm == "basic_entangle_layer" else 2 * per
    if free is None:
        p, a = params(c, n, "tensor")
    else:
        # some of the parameters vary, the rest is zero
        t = c.angles("t", len(free))
        p = torch.zeros(n)
        a = [c.zero] * n
        for j, i in enumerate(free):
            p[i] = t[j]
            a[i] = c.sv(t)[j]
    kw = c.choose("default", [True, False]) if k == "YZY" else False
    f = getattr(fl, nm)
    got = f(N, p) if kw else f(N, p, k)
    if nm == "basic_entangle_layer":
        pr = basic_prog(c, N, k, a)
    elif nm == "basic_entangle_layer2":
        pr = basic_prog(c, N, k, a[:per]) + basic_prog(c, N, k, a[per:])
    else:
        pr = basic_prog(c, N, k, a[:per]) + rots(ROTS[KIND[k]])(c, list(range(N)), a[per:]) + ring_prog(c, ctrl(c, X(c)), N, 2)
    c.eq("operator", got, prog_matrix(c, pr, N))


def pair_layer(c, nm, N, form):
    p, a = params(c, N - 1, form)
    c.eq("operator", getattr(fl, nm)(N, p), prog_matrix(c, pairs(c, PAIRS[nm], N, a), N))


def bad_count(c, nm, N):
    if nm in ROTS:
        ok = len(ROTS[nm]) * N
        f = lambda p: getattr(fl, nm)(N, p)
    elif nm in PAIRS:
        ok = N - 1
        f = lambda p: getattr(fl, nm)(N, p)
    else:
        k = c.choose("kind", list(KIND))
        ok = len(k) * N * (1 if nm == "basic_entangle_layer" else 2)
        f = lambda p: getattr(fl, nm)(N, p, k)
    n = c.choose("count", [i for i in range(0, ok + 4) if i != ok])
    c.raises("refused", lambda: f(c.angles("t", n)))


def bad_size(c, nm):
    N = c.choose("N", [0, -1] if nm in ROTS or nm == "HLayer" else [1, 0, -1])
    f = getattr(fl, nm)
    c.raises("refused", lambda: f(N, c.angles("t", max(0, 3 * N if nm in ROTS else N - 1))) if nm in ROTS or nm in PAIRS else f(N))


def bad_kind(c, nm):
    k = c.choose("kind", ["YYY", "ZX", "", "yzy", "ZYX"])
    n = 2 * len(k) * (1 if nm == "basic_entangle_layer" else 2)
    c.raises("refused", lambda: getattr(fl, nm)(2, c.angles("t", n), k))


def items(tier):
    deep = tier != "quick"
    out = []
    for nm in ROTS:
        for N in (1, 2, 3):
            for form in ("tensor", "numbers"):
                if N == 3 and form == "numbers":
                    continue
                out.append(Item("rotations.%s.N%d.%s" % (nm, N, form), rot_layer, (nm, N, form), timeout=200))
        for N in (1, 2):
            out.append(Item("count.%s.N%d" % (nm, N), bad_count, (nm, N)))
    for N in (1, 2, 3, 4, 5, 6):
        out.append(Item("hadamard.N%d" % N, h_layer, (N,)))
    for nm in FIXED:
        for N in (2, 3, 4, 5, 6):
            out.append(Item("fixed.%s.N%d" % (nm, N), fixed, (nm, N)))
    for nm in PAIRS:
        for N in (2, 3, 4, 5):
            out.append(Item("pairs.%s.N%d" % (nm, N), pair_layer, (nm, N, "tensor"), timeout=200))
        out.append(Item("pairs.%s.numbers" % nm, pair_layer, (nm, 3, "numbers")))
        for N in (2, 3, 4):
            out.append(Item("count.%s.N%d" % (nm, N), bad_count, (nm, N)))
    for nm in ("basic_entangle_layer", "basic_entangle_layer2", "strong_entangle_layer"):
        one_ = nm == "basic_entangle_layer"
        for k in KIND:
            n = len(k) * 2 * (1 if one_ else 2)
            if one_ or deep and len(k) == 2:
                out.append(Item("composed.%s.%s.N2" % (nm, k), composed, (nm, 2, k), timeout=300))
            else:
                for j in range(0, n, 3):
                    out.append(Item("composed.%s.%s.N2.%d" % (nm, k, j), composed, (nm, 2, k, [i % n for i in (j, j + 1, j + 2, j + n // 2, j + n // 2 + 1)]), timeout=300))
            n = len(k) * 3 * (1 if one_ else 2)
            for j in range(0, n, 3):
                if deep or j % 2 == 0:
                    out.append(Item("composed.%s.%s.N3.%d" % (nm, k, j), composed, (nm, 3, k, [i % n for i in (j, j + 1, j + n // 2)]), timeout=300))
        out.append(Item("count.%s" % nm, bad_count, (nm, 2)))
        out.append(Item("kind.%s" % nm, bad_kind, (nm,)))
    for nm in list(ROTS) + list(PAIRS) + list(FIXED) + ["HLayer"]:
        out.append(Item("size.%s" % nm, bad_size, (nm,)))
    return out
