"""C15: updating parameters is the same as building the operation anew with them."""
from .common import *

BOUNDS = "every parametrised gate, layer and entangling block (1-3 repetitions) on 1-3 wires, every ordered choice of wires (layers: up to 2 of 3; selected choices up to 5 wires), all old and " \
         "new parameter values, given as tensors, plain numbers and lists; 1-3 successive updates; arbitrary states for the contraction and " \
         "matrix-product routes, at most 1 (thorough 2) rank-deficient decompositions"

CAT = {k: g for k, g in {**GATES, **LAYERS}.items() if g.npar != 0}


def rename(g, c, w):
    return g.params(c, "old", w), g.params(c, "new", w)


def matrix(c, g, N, wl, times=1):
    w = c.choose("wires", wl)
    p, q = rename(g, c, w)
    o = g.build(N, list(w), p)
    n0 = o.num_params
    if times > 1:
        o.params_update(g.params(c, "mid", w))
        o.U_expand()
    o.params_update(q)
    want = prog_matrix(c, g.spec(c, w, q), N)
    c.eq("operator", o.U_expand(), want)
    c.true("count", o.num_params == n0)
    c.eq("params", c.sv(o.params).reshape(-1), np.array(g.vals(c, q), dtype=object))
    if hasattr(o, "matrix"):
        c.eq("bare_matrix", o.matrix, prog_matrix(c, g.spec(c, list(range(len(w))), q), len(w)))
    if g.dagger:
        c.eq("adjoint", o.operation_dagger().U_expand(), dag(want))


def plain(c, g, N, w):
    """numbers and lists instead of tensors"""
    p, q = rename(g, c, w)
    new = c.pyfloat(q) if g.npar == 1 else c.pylist(q)
    o = g.build(N, list(w), p)
    o.params_update(new)
    c.eq("operator", o.U_expand(), prog_matrix(c, g.spec(c, w, q), N))
    c.eq("params", c.sv(o.params).reshape(-1), np.array(g.vals(c, q), dtype=object))


def contract(c, g, N, wl):
    w = c.choose("wires", wl)
    p, q = rename(g, c, w)
    psi = c.state("z", N)
    o = g.build(N, list(w), p)
    o.TN_contract(psi.view([2] * N))
    o.params_update(q)
    r = o.TN_contract(psi.view([2] * N))
    c.eq("state", c.sv(r).reshape(-1), prog_apply(c, g.spec(c, w, q), N, c.sv(psi).reshape(-1)))


def mpsr(c, g, N, wl):
    w = c.choose("wires", wl)
    p, q = rename(g, c, w)
    psi = c.state("z", N)
    o = g.build(N, list(w), p)
    o.params_update(q)
    r = o.TN_operation(tn.StateVec2MPS(psi, N))
    c.eq("state", c.sv(tn.MPS2StateVec(r)).reshape(-1), prog_apply(c, g.spec(c, w, q), N, c.sv(psi).reshape(-1)))


def shared(c, g, N, w):
    """two operations built from one parameter tensor stay independent, and the caller's tensors are not written"""
    p, q = rename(g, c, w)
    p0, q0 = c.sv(p), c.sv(q)
    a, b = g.build(N, list(w), p), g.build(N, list(w), p)
    a.params_update(q)
    c.eq("updated", a.U_expand(), prog_matrix(c, g.spec(c, w, q), N))
    c.eq("other", b.U_expand(), prog_matrix(c, g.prog(c, list(w), list(p0.reshape(-1))), N))
    c.eq("old_kept", p, p0)
    c.eq("new_kept", q, q0)


def in_circuit(c, N, names, which):
    cir, parts = build_circuit(c, {**CAT, **GATES, **RINGS, "Basic": basic_g(1)}, N, names)
    for k in which:
        g, w, p, nm = parts[k]
        q = g.params(c, "new%d" % k, w)
        cir.gate[k].params_update(q)
        parts[k] = (g, w, q, nm)
    c.eq("operator", cir.U(), prog_matrix(c, program(c, parts, values(c, parts)), N))
    c.true("count", cir.cir_num_params == len(values(c, parts)))


def items(tier):
    deep = tier != "quick"
    bud = 2 if deep else 1
    out = []
    for nm, g in CAT.items():
        for N in (1, 2, 3) + ((4,) if deep and g.nw else ()):
            if g.nw and N < g.nw:
                continue
            wl = wire_lists(N, g.nw) if g.nw else subsets(N, 1, 2)
            for k in range(0, len(wl), 6):
                out.append(Item("matrix.%s.N%d.%d" % (nm, N, k), matrix, (g, N, wl[k:k + 6])))
            if N < 3 or g.nw:
                for k in range(0, len(wl), 6):
                    out.append(Item("contract.%s.N%d.%d" % (nm, N, k), contract, (g, N, wl[k:k + 6])))
            if N < 3 or (deep and N == 3):
                for k in range(0, len(wl), 2):
                    out.append(Item("mps.%s.N%d.%d" % (nm, N, k), mpsr, (g, N, wl[k:k + 2]), svd_budget=bud))
        w = {1: [1], 2: [1, 0], None: [1, 0]}[g.nw]
        out.append(Item("twice.%s" % nm, matrix, (g, 2, [w], 2)))
        out.append(Item("plain.%s" % nm, plain, (g, 2, w)))
        out.append(Item("shared.%s" % nm, shared, (g, 2, w)))
    for r in (1, 2):
        g = basic_g(r)
        for w in ([0, 1], [1, 0]):
            out.append(Item("matrix.Basic%d.%d%d" % (r, *w), matrix, (g, 2, [w]), timeout=150))
        out.append(Item("plain.Basic%d" % r, plain, (g, 2, [0, 1]), timeout=150))
        out.append(Item("shared.Basic%d" % r, shared, (g, 2, [1, 0]), timeout=150))
    for r, N, w in ((1, 3, [0, 1]), (1, 3, [2, 0]), (2, 3, [2, 0]), (2, 3, [0, 1]), (2, 3, [1, 2]), (3, 2, [1, 0]), (1, 3, [0, 1, 2]), (1, 3, [2, 0, 1]), (1, 4, [3, 1]),
                    (3, 3, [0, 2]), (2, 4, [2, 0]), (2, 3, [0, 2, 1])):
        out.append(Item("matrix.Basic%d.N%d.%s" % (r, N, "".join(map(str, w))), matrix, (basic_g(r), N, [w]), timeout=250))
    for r, N, w in ((2, 3, [2, 0]), (1, 3, [1, 0, 2])):
        out.append(Item("plain.Basic%d.N%d" % (r, N), plain, (basic_g(r), N, w), timeout=250))
        out.append(Item("shared.Basic%d.N%d" % (r, N), shared, (basic_g(r), N, w), timeout=250))
    for nm, g in CAT.items():
        if g.nw == 1:
            out.append(Item("far.%s.N5" % nm, matrix, (g, 5, [[0], [3], [4]])))
            out.append(Item("farc.%s.N4" % nm, contract, (g, 4, [[3], [0]])))
        elif g.nw == 2:
            out.append(Item("far.%s.N4" % nm, matrix, (g, 4, [[0, 3], [3, 0], [3, 1]])))
            out.append(Item("farc.%s.N4" % nm, contract, (g, 4, [[0, 3], [3, 1]])))
            out.append(Item("farm.%s.N3" % nm, mpsr, (g, 3, [[0, 2], [2, 0]]), svd_budget=0))
        else:
            out.append(Item("far.%s.N4" % nm, matrix, (g, 4, [[3, 0], [1, 3]])))
            out.append(Item("all.%s.N3" % nm, matrix, (g, 3, [[0, 1, 2], [2, 0, 1]]), timeout=150))
            out.append(Item("farc.%s.N3" % nm, contract, (g, 3, [[2, 0], [0, 1, 2]])))
            out.append(Item("farm.%s.N3" % nm, mpsr, (g, 3, [[2, 0]]), svd_budget=0))
    out.append(Item("twice.Basic", matrix, (basic_g(1), 3, [[2, 0]], 2), timeout=150))
    for k, (N, s, which) in enumerate([(2, [("rx", [0]), ("cphase", [0, 1]), ("ry", [1])], [1]), (2, [("u3", [1]), ("cu3", [1, 0])], [1, 0]),
                                       (3, [("XZLayer", [2, 0]), ("ring_of_cnot", [0, 1, 2]), ("rzz", [0, 2])], [0, 2]),
                                       (2, [("Basic", [0, 1]), ("u1", [0])], [0, 1]), (2, [("rxx", [0, 1]), ("Hadamard", [0]), ("ryy", [1, 0])], [0])]):
        out.append(Item("circuit.%d" % k, in_circuit, (N, s, which)))
    return out
