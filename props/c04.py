"""C04: evolution preserves the norm: every operator is unitary and every route keeps <psi|psi>."""
from .common import *

BOUNDS = "every gate, layer and ring on up to 3 wires (operators), circuits of 3-5 operations on 2 wires and 3 operations on 3 wires, " \
         "all parameter values, as built and after an update, arbitrary complex states on 2-3 wires for the contraction route, one operation on 2-5 wires for the matrix-product route (at most 1 rank-deficient " \
         "decomposition up to 3 wires, none above)"


def unitary(c, g, N, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    U = g.build(N, list(w), p).U_expand()
    c.eq("U_Udag", U @ U.conj().permute(1, 0), c.eye(2 ** N))
    c.eq("Udag_U", U.conj().permute(1, 0) @ U, c.eye(2 ** N))


def updated(c, g, N, wl, route):
    """after an update of the parameters the operation is unitary / keeps the norm just the same"""
    w = c.choose("wires", wl)
    o = g.build(N, list(w), g.params(c, "old", w))
    q = g.params(c, "t", w)
    o.params_update(q)
    if route == "operator":
        U = o.U_expand()
        c.eq("U_Udag", U @ U.conj().permute(1, 0), c.eye(2 ** N))
        if hasattr(o, "matrix"):
            m = o.matrix
            c.eq("matrix", m @ m.conj().permute(1, 0), c.eye(m.shape[0]))
        if g.dagger:
            U = o.operation_dagger().U_expand()
            c.eq("adjoint", U @ U.conj().permute(1, 0), c.eye(2 ** N))
        return
    psi = c.state("z", N)
    v = c.sv(psi).reshape(-1)
    if route == "contract":
        r = c.sv(o.TN_contract(psi.view([2] * N))).reshape(-1)
    else:
        r = c.sv(tn.MPS2StateVec(o.TN_operation(tn.StateVec2MPS(psi, N)))).reshape(-1)
    if c.sym and N > 1:
        want = prog_apply(c, g.spec(c, w, q), N, v)
        if c.holds(r, want):
            r = want
    c.eq("norm", inner(r, r), inner(v, v))


def circ(c, N, names):
    cir = dq.Circuit(N)
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
    U = cir.U()
    c.eq("U_Udag", U @ U.conj().permute(1, 0), c.eye(2 ** N))


def norm_contract(c, N, names):
    """<psi|psi> is unchanged by the contraction route"""
    cir = dq.Circuit(N)
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
    psi = c.state("z", N)
    v = c.sv(psi).reshape(-1)
    out = cir.TN_contract_evolution(psi.view([2] * N))
    o = c.sv(out).reshape(-1)
    c.eq("norm", inner(o, o), inner(v, v))


def norm_mps(c, N, names):
    cir = dq.Circuit(N)
    ps = []
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        p = g.params(c, "t%d" % k, w)
        ps.append(p)
        g.add(cir, list(w), p)
    psi = c.state("z", N)
    v = c.sv(psi).reshape(-1)
    m = cir.TN_evolution(tn.StateVec2MPS(psi, N))
    o = c.sv(tn.MPS2StateVec(m)).reshape(-1)
    if c.sym and N > 2:
        # lemma: where the amplitudes are the textbook ones, their norm is decided on those
        want = prog_apply(c, [x for k, (nm, w) in enumerate(names) for x in CAT[nm].spec(c, w, ps[k])], N, v)
        if c.holds(o, want):
            o = want
    c.eq("norm", inner(o, o), inner(v, v))


CAT = {**GATES, **LAYERS, **RINGS, "mcx": MULTI["multi_control_cnot"], "Basic": basic_g(1)}
C2 = [[("u3", [0]), ("cu3", [1, 0]), ("rxx", [0, 1])], [("XZLayer", [0, 1]), ("cphase", [0, 1]), ("ry", [1]), ("SWAP", [0, 1])],
      [("Basic", [1, 0]), ("u1", [0])], [("Hadamard", [0]), ("ryy", [1, 0]), ("rzz", [0, 1]), ("PauliY", [1]), ("rz", [0])],
      [("HLayer", [0, 1]), ("ring_of_cnot", [0, 1]), ("ZXLayer", [1, 0])]]
C3 = [[("rx", [2]), ("cnot", [2, 0]), ("cphase", [0, 1])], [("u1", [0]), ("toffoli", [2, 0, 1]), ("ry", [1])],
      [("rz", [1]), ("ring_of_cnot", [0, 1, 2]), ("rxx", [2, 0])], [("Hadamard", [1]), ("cz", [1, 2]), ("rzz", [0, 2]), ("mcx", [0, 2, 1])]]
T2 = [[("rx", [0]), ("cnot", [1, 0]), ("ry", [1])], [("XZLayer", [1, 0]), ("cphase", [0, 1])], [("u3", [0]), ("cz", [0, 1])],
      [("cu3", [1, 0])], [("Hadamard", [0]), ("SWAP", [0, 1]), ("u1", [1])], [("rxx", [0, 1]), ("ryy", [1, 0]), ("rzz", [0, 1])]]
T3 = [[("rx", [0]), ("cnot", [2, 0])], [("u1", [1]), ("toffoli", [0, 2, 1])], [("Hadamard", [2]), ("ring_of_cnot", [0, 1, 2])],
      [("rzz", [0, 2])], [("SWAP", [0, 2]), ("ry", [1])]]
M2 = [[("rx", [0]), ("cnot", [1, 0])], [("cphase", [0, 1])], [("SWAP", [0, 1]), ("u1", [1])], [("cz", [1, 0]), ("rzz", [0, 1])]]


def items(tier):
    out = []
    deep = tier != "quick"
    for g in list(GATES.values()):
        for N in range(g.nw, 4):
            out.append(Item("gate.%s.N%d" % (g.name, N), unitary, (g, N, wire_lists(N, g.nw))))
    for g in list(LAYERS.values()):
        out.append(Item("layer.%s.N1" % g.name, unitary, (g, 1, [[0]])))
        out.append(Item("layer.%s.N2" % g.name, unitary, (g, 2, subsets(2))))
        out.append(Item("layer.%s.N3" % g.name, unitary, (g, 3, subsets(3, 1, 2 if deep else 1))))
    for g in list(RINGS.values()) + [MULTI["multi_control_cnot"]]:
        for N in (2, 3, 4):
            out.append(Item("ring.%s.N%d" % (g.name, N), unitary, (g, N, subsets(N, 2, N)[:40])))
    out.append(Item("basic.N2", unitary, (basic_g(1), 2, wire_lists(2, 2))))
    for g in list(GATES.values()) + list(LAYERS.values()) + [basic_g(1)]:
        if g.npar == 0:
            continue
        for N in range(g.nw or (2 if g.name[:5] == "Basic" else 1), 4):
            wl = wire_lists(N, g.nw) if g.nw else wire_lists(N, 2)[:3] if N > 1 else [[0]]
            out.append(Item("updated.%s.N%d" % (g.name, N), updated, (g, N, wl, "operator"), timeout=150))
            if g.contract and N < 3:
                out.append(Item("updated_c.%s.N%d" % (g.name, N), updated, (g, N, wl, "contract"), timeout=150))
            if g.tn and N < 3:
                out.append(Item("updated_m.%s.N%d" % (g.name, N), updated, (g, N, wl[:2], "mps"), timeout=150, svd_budget=1))
    for k, s in enumerate(C2):
        out.append(Item("circuit2.%d" % k, circ, (2, s)))
    for k, s in enumerate(C3):
        out.append(Item("circuit3.%d" % k, circ, (3, s)))
    for k, s in enumerate(T2):
        out.append(Item("contract2.%d" % k, norm_contract, (2, s)))
    for k, s in enumerate(T3):
        out.append(Item("contract3.%d" % k, norm_contract, (3, s)))
    for k, s in enumerate(M2):
        out.append(Item("mps2.%d" % k, norm_mps, (2, s)))
    for N, w in ((3, [2, 0]), (4, [1, 3]), (4, [3, 0]), (5, [4, 2])):
        for nm in ("cnot", "cphase", "SWAP"):
            if N < 5 or nm == "cnot":
                out.append(Item("mps%d.%s.%s" % (N, nm, "".join(map(str, w))), norm_mps, (N, [(nm, w)]), svd_budget=1 if N < 4 else 0))
    for N in (3, 5, 6):
        out.append(Item("mps%d.none" % N, norm_mps, (N, []), svd_budget=0, timeout=200))
    for N in (4, 5):
        for g in (TWO["rxx"], TWO["cu3"], ONE["u3"], RINGS["ring_of_cnot"], RINGS["ring_of_cnot2"], MULTI["multi_control_cnot"]):
            w = [list(range(N))] if g.nw is None else [[N - 1, 0]] if g.nw == 2 else [[N - 1]]
            out.append(Item("big.%s.N%d" % (g.name, N), unitary, (g, N, w)))
    return out
