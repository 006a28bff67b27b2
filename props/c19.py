"""C19: operations that make no sense are refused, not silently given some operator."""
from .common import *
from deepquantum.embeddings import qembedding as qe

BOUNDS = "one- and two-wire gates and the controlled gates on registers of 1-3 wires, any integer wire outside the register (every integer, no bound), " \
         "equal wires, target among the controls; layers: every parameter count from 0 to 3 more than fits, one wire too many, every too small " \
         "ring; states and matrices: every shape up to 2^N+1 in each direction and ranks 1-3; repeated controls and wire lists of layers outside the register are outside the claim"


def outside(c, w, N):
    c.assume(c.any([w < 0, w > N - 1]))


def one_wire(c, g, N, how):
    w = c.integer("w")
    outside(c, w, N)
    p = g.params(c, "t", [0])

    def f():
        if how == "gate":
            return g.build(N, w, p).U_expand()
        cir = dq.Circuit(N)
        g.add(cir, w, p)
        return cir.U()
    c.raises("refused", f)


def two_wire(c, g, N, how):
    good = c.choose("good", list(range(N)))
    pos = c.choose("position", [0, 1])
    w = c.integer("w")
    outside(c, w, N)
    ws = [good, w] if pos else [w, good]
    p = g.params(c, "t", [0, 1])

    def f():
        if how == "gate":
            return g.build(N, ws, p).U_expand()
        cir = dq.Circuit(N)
        g.add(cir, ws, p)
        return cir.U()
    c.raises("refused", f)


def same_wire(c, g, N):
    w = c.choose("wire", list(range(N)))
    p = g.params(c, "t", [0, 1])
    c.raises("refused", lambda: g.build(N, [w, w], p).U_expand())


def ctrl_wire(c, g, N, k):
    """k wires, one of them outside"""
    pos = c.choose("position", list(range(k)))
    w = c.integer("w")
    outside(c, w, N)
    ws = list(range(k))
    ws[pos] = w
    c.raises("refused", lambda: g.build(N, ws, None).U_expand())


def ctrl_same(c, g, N, k):
    pos = c.choose("position", list(range(k - 1)))
    ws = list(range(k))
    ws[-1] = ws[pos]
    c.raises("refused", lambda: g.build(N, ws, None).U_expand())


def tof_count(c):
    ws = c.choose("wires", [[0, 1], [0, 1, 2, 3], [0]])
    c.raises("refused", lambda: op.toffoli(4, ws).U_expand())


def unset(c, g):
    """a gate without register or wires has no operator on a register"""
    p = g.params(c, "t", [0, 1][:g.nw])
    ctor = getattr(op, g.name)
    a = [] if p is None else [p]
    c.raises("no_wires", lambda: ctor(*a).U_expand())
    N = c.choose("N", [g.nw, g.nw + 1])
    c.raises("only_register", lambda: ctor(*a, N).U_expand())


def lay_count(c, name, N, k):
    """wrong number of parameters / too many wires"""
    per = {"XZLayer": 2, "ZXLayer": 2}.get(name, 3)
    n = c.choose("count", [i for i in range(0, per * k + 4) if i != per * k])
    g = LAYERS[name] if name != "Basic" else basic_g(1)
    c.raises("refused", lambda: g.build(N, list(range(k)), c.angles("t", n)))


def lay_wires(c, name, N):
    per = {"XZLayer": 2, "ZXLayer": 2, "HLayer": 0}.get(name, 3)
    g = LAYERS.get(name) or RINGS.get(name) or basic_g(1)
    if name in RINGS:
        per = 0
    k = c.choose("extra", [1, 2])
    p = c.angles("t", per * (N + k)) if per else None
    c.raises("too_many_wires", lambda: g.build(N, list(range(N + k)), p))


def few_wires(c, name, N):
    g = RINGS.get(name) or basic_g(1)
    k = c.choose("count", [0, 1])
    p = c.angles("t", 3 * k) if name not in RINGS else None
    c.raises("too_few_wires", lambda: g.build(N, list(range(k)), p))


def repeat0(c):
    r = c.choose("repeat", [0, -1])
    c.raises("refused", lambda: ql.BasicEntangleLayer(2, [0, 1], c.angles("t", 0), r))


def shapes(c, N):
    """state vectors and circuits of different size"""
    d = 2 ** N
    s = c.choose("shape", [x for x in [(d,), (1, d, 1), (d, 1), (2, d), (1, d + 1), (1, d - 1), (1, 2 * d), (2, d // 2)] if x != (1, d)])
    z = c.cplx("z", s)
    cir = dq.Circuit(N)
    cir.rx(c.angle("t"), 0)
    M = c.tensor(c.eye(d))
    c.raises("to_mps", lambda: tn.StateVec2MPS(z, N))
    c.raises("to_tensor", lambda: tn.MatrixProductState(z, N))
    if len(s) == 2:
        c.raises("expectation", lambda: cir.cir_expectation(z, M))
        c.raises("expectation_matrix", lambda: cir.cir_expectation(z, M, TN=False))


def sizes(c, N):
    """matrix-product lists and tensors for a register of another size"""
    k = c.choose("sites", [i for i in range(1, N + 3) if i != N])
    cir = dq.Circuit(N)
    cir.Hadamard(0)
    ts = mps(c, "a", [1] * (k - 1))
    c.raises("evolution", lambda: cir.TN_evolution(ts))
    z = c.state("z", k)
    c.raises("contract", lambda: cir.TN_contract_evolution(z.view([2] * k)))
    c.raises("contract_batch", lambda: cir.TN_contract_evolution(z.view([1] + [2] * k), batch_mod=True))


def unsupported(c, N, names, who):
    """a circuit with a part that has no tensor route says so instead of skipping it"""
    cir, parts = build_circuit(c, {**GATES, **LAYERS, **RINGS, **MULTI, "Basic": basic_g(1)}, N, names)
    psi = c.state("z", N)
    c.true("check", cir.TN_check() is False)
    c.raises("evolution", lambda: cir.TN_evolution(tn.StateVec2MPS(psi, N)))
    c.raises("contract", lambda: cir.TN_contract_evolution(psi.view([2] * N)))


def matrices(c, n, m):
    a = c.cplx("m", (n, m))
    c.raises("unitary", lambda: qm.IsUnitary(a))
    c.raises("hermitian", lambda: qm.IsHermitian(a))
    c.raises("normalized", lambda: qm.IsNormalized(a))
    v = c.cplx("v", (n,))
    c.raises("dag_vector", lambda: qm.dag(v))
    t = c.cplx("t", (n, m, 1))
    c.raises("dag_tensor", lambda: qm.dag(t))


def traces(c, N):
    d = 2 ** N
    a = c.sv(c.cplx("r", (d, d)))
    a[d - 1, d - 1] = c.one - sum((a[i, i] for i in range(1, d - 1)), a[0, 0])
    r = c.tensor(a)
    q = c.choose("wire", [N, N + 1])
    old = c.choose("which", [False, True])
    f = qm.partial_trace_old if old else qm.partial_trace
    c.raises("wire", lambda: f(r, N, [q]))
    k = c.choose("register", [N + 1, N + 2] + ([N - 1] if N > 1 else []))
    c.raises("register", lambda: f(r, k, [0]))


def items(tier):
    out = []
    for nm, g in ONE.items():
        for N in (1, 2, 3):
            for how in ("gate", "circuit"):
                out.append(Item("wire.%s.N%d.%s" % (nm, N, how), one_wire, (g, N, how), trials=6))
    for nm, g in TWO.items():
        for N in (2, 3):
            for how in ("gate", "circuit"):
                out.append(Item("wires.%s.N%d.%s" % (nm, N, how), two_wire, (g, N, how), trials=6))
            out.append(Item("same.%s.N%d" % (nm, N), same_wire, (g, N)))
    for g in (THREE["toffoli"], MULTI["multi_control_cnot"]):
        for N in (3, 4):
            out.append(Item("wires.%s.N%d" % (g.name, N), ctrl_wire, (g, N, 3)))
            out.append(Item("target.%s.N%d" % (g.name, N), ctrl_same, (g, N, 3)))
    out.append(Item("wires.mcx2", ctrl_wire, (MULTI["multi_control_cnot"], 2, 2)))
    out.append(Item("target.mcx2", ctrl_same, (MULTI["multi_control_cnot"], 2, 2)))
    out.append(Item("toffoli.count", tof_count))
    for nm, g in {**ONE, **TWO}.items():
        out.append(Item("unset.%s" % nm, unset, (g,)))
    for nm in ["XYZLayer", "ZYXLayer", "YZYLayer", "XZXLayer", "XZLayer", "ZXLayer"]:
        for N, k in ((1, 1), (2, 2), (3, 2)):
            out.append(Item("count.%s.N%d" % (nm, N), lay_count, (nm, N, k)))
    for nm in list(LAYERS) + list(RINGS) + ["Basic"]:
        for N in (1, 2, 3):
            if nm not in LAYERS and N == 1:
                continue
            out.append(Item("toomany.%s.N%d" % (nm, N), lay_wires, (nm, N)))
        if nm not in LAYERS:
            out.append(Item("toofew.%s" % nm, few_wires, (nm, 3)))
    for N, k in ((2, 2), (3, 2), (3, 3)):
        out.append(Item("count.Basic.N%d.%d" % (N, k), lay_count, ("Basic", N, k)))
    out.append(Item("repeat", repeat0))
    for N in (1, 2, 3):
        out.append(Item("shapes.N%d" % N, shapes, (N,)))
        out.append(Item("sizes.N%d" % N, sizes, (N,)))
    for k, (N, s) in enumerate([(2, [("multi_control_cnot", [0, 1])]), (2, [("rx", [0]), ("Basic", [0, 1])]), (3, [("Hadamard", [1]), ("multi_control_cnot", [0, 1, 2]), ("ry", [0])]),
                                (3, [("cnot", [0, 1]), ("ring_of_cnot2", [0, 1, 2])])]):
        out.append(Item("unsupported.%d" % k, unsupported, (N, s, k)))
    for n, m in ((1, 2), (2, 3), (3, 2), (4, 1)):
        out.append(Item("matrices.%d.%d" % (n, m), matrices, (n, m)))
    for N in (1, 2, 3):
        out.append(Item("trace.N%d" % N, traces, (N,)))
    return out
