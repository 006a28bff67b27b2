"""C14: parameter-shift gradients are the derivatives of the expectation value."""
from .common import *

BOUNDS = "every parametrised gate and layer alone and circuits of 2-4 operations with 1-9 parameters on 1-2 wires (selected ones with Pauli observables on 3), all parameter " \
         "values; matrix route: arbitrary complex start vectors and Hermitian observables; matrix-product route: arbitrary start vectors (1 wire) " \
         "or the zero state and one-parameter start states (2 wires) and Pauli observables; at most 1 rank-deficient decomposition per run (thorough 2)"

CAT = {**GATES, **LAYERS, **RINGS, "Basic": basic_g(1), "mcx": MULTI["multi_control_cnot"]}


def check(c, cir, parts, psi, v0, M):
    N = cir.nqubits
    vals = values(c, parts)
    names = [n for *_, nm in parts for n in nm]
    g = qc.parameter_shift(cir, psi, c.tensor(M)).cal_params_grad()
    c.true("count", tuple(g.shape) == (len(names),))

    def f(x):
        v = prog_apply(c, program(c, parts, x), N, v0)
        return real_part(expect(c, v, M))
    c.eq("gradient", g, np.array(gradient(c, f, vals, names), dtype=object))
    c.eq("parameters_restored", np.array([x for gt in cir.gate if gt.num_params for x in c.sv(gt.params).reshape(-1)], dtype=object),
         np.array(vals, dtype=object))
    c.eq("circuit_restored", cir.U(), prog_matrix(c, program(c, parts, vals), N))


def matrix_route(c, N, names):
    """a part without matrix-product support sends the whole circuit through matrices"""
    cir, parts = build_circuit(c, CAT, N, names)
    psi = c.state("z", N)
    check(c, cir, parts, psi, c.sv(psi).reshape(-1), hermitian(c, "m", 2 ** N))


def matrix_pauli(c, N, names, strings):
    cir, parts = build_circuit(c, CAT, N, names)
    psi = c.state("z", N)
    check(c, cir, parts, psi, c.sv(psi).reshape(-1), pauli(c, c.choose("observable", strings)))


def mps_route(c, N, names, obs, start):
    cir, parts = build_circuit(c, CAT, N, names)
    if start == "any":
        psi = c.state("z", N)
        v0 = c.sv(psi).reshape(-1)
    elif start == "zero":
        psi = cir.state_init().view(1, -1)
        v0 = zero_state(c, N)
    else:
        a = c.sv(c.angle("s"))[()]
        v0 = prog_apply(c, [(ry(c, a), [0]), (Hm(c), [N - 1])], N, zero_state(c, N))
        psi = c.tensor(v0.reshape(1, -1))
    check(c, cir, parts, psi, v0, pauli(c, obs) if isinstance(obs, str) else hermitian(c, "m", 2 ** N))


def after_update(c, N, names, which):
    """after a parameter update the gradient is the one at the new parameters"""
    cir, parts = build_circuit(c, CAT, N, names)
    g, w, p, nm = parts[which]
    q = g.params(c, "new", w)
    cir.gate[which].params_update(q)
    parts[which] = (g, w, q, [n.replace(n.split("_")[0], "new", 1) for n in nm])
    psi = c.state("z", N)
    check(c, cir, parts, psi, c.sv(psi).reshape(-1), hermitian(c, "m", 2 ** N))


def twice(c, N, names):
    """asking twice gives the same answer"""
    cir, parts = build_circuit(c, CAT, N, names)
    psi = c.state("z", N)
    M = c.tensor(hermitian(c, "m", 2 ** N))
    ps = qc.parameter_shift(cir, psi, M)
    a = ps.cal_params_grad()
    b = ps.cal_params_grad()
    c.eq("same", b, c.sv(a))


X2 = ("mcx", [0, 1])
ONEW = [[("rx", [0])], [("ry", [0])], [("rz", [0])], [("u1", [0])], [("u3", [0])], [("XYZLayer", [0])], [("ZYXLayer", [0])], [("YZYLayer", [0])],
        [("XZXLayer", [0])], [("XZLayer", [0])], [("ZXLayer", [0])], [("Hadamard", [0]), ("u1", [0]), ("rx", [0])], [("u3", [0]), ("PauliY", [0]), ("rz", [0])]]
MAT = [[("rx", [0]), X2], [X2, ("u1", [1]), ("ry", [0])], [("rxx", [0, 1]), X2], [("ryy", [1, 0]), X2], [("rzz", [0, 1]), X2, ("ry", [1])],
       [("cphase", [0, 1]), X2], [("cphase", [1, 0]), X2, ("Hadamard", [0])], [("cu3", [0, 1]), X2], [("cu3", [1, 0]), X2], [("u3", [1]), X2, ("rz", [0])], [("XZLayer", [1, 0]), X2],
       [("XYZLayer", [0]), X2, ("cphase", [0, 1])], [X2, ("ring_of_cnot", [0, 1]), ("ZYXLayer", [1])]]
MPS2 = [([("rx", [0]), ("cnot", [0, 1])], "ZI", "any"), ([("u1", [1]), ("Hadamard", [1]), ("cz", [0, 1])], "IX", "one"), ([("cphase", [0, 1])], "YX", "one"),
        ([("rxx", [0, 1])], "ZZ", "zero"), ([("ryy", [0, 1])], "IZ", "zero"), ([("rzz", [1, 0])], "XY", "one"), 
        ([("XZLayer", [0]), ("rz", [1])], "ZY", "zero"), ([("ry", [1]), ("SWAP", [0, 1])], "XI", "zero"), ([("ry", [0]), ("ring_of_cnot", [0, 1])], "ZZ", "zero")]
MPS2_DEEP = [([("cu3", [0, 1])], "XZ", "one"), ([("XZLayer", [0, 1])], "ZY", "zero"), ([("u3", [0]), ("ring_of_cnot", [0, 1])], "ZZ", "zero")]


def items(tier):
    deep = tier != "quick"
    out = []
    for k, s in enumerate(ONEW):
        out.append(Item("one.%d" % k, mps_route, (1, s, None, "any")))
    for k, s in enumerate(MAT):
        out.append(Item("matrix.%d" % k, matrix_route, (2, s)))
    for k, s in enumerate([[("rx", [2]), ("mcx", [2, 0, 1])], [("mcx", [0, 2]), ("rzz", [2, 0]), ("ry", [1])], [("cphase", [2, 0]), ("mcx", [1, 0, 2])], [("XZLayer", [2, 0]), ("ring_of_cnot2", [0, 1, 2])],
                           [("u3", [1]), ("mcx", [0, 1, 2]), ("u1", [0])], [("rxx", [0, 2]), ("mcx", [2, 1])], [("cu3", [2, 1]), ("mcx", [0, 1])]]):
        out.append(Item("matrix3.%d" % k, matrix_pauli, (3, s, ["ZIX", "YZY"]), timeout=200))
    for k, (s, o, st_) in enumerate([([("rz", [2]), ("cz", [0, 2])], "XIX", "one"), ([("ry", [1]), ("SWAP", [1, 2])], "IXZ", "zero"), ([("rz", [0]), ("Hadamard", [0])], "ZII", "one")]):
        out.append(Item("mps3.%d" % k, mps_route, (3, s, o, st_), svd_budget=0, timeout=400))
    for k, (w, o, st_) in enumerate([([0, 1], "ZI", "zero"), ([1, 0], "XY", "one"), ([0, 1], "YZ", "zero")]):
        out.append(Item("block.%d" % k, mps_route, (2, [("Basic", w)], o, st_)))
    for k, (s, o, st_) in enumerate(MPS2 + (MPS2_DEEP if deep else [])):
        out.append(Item("mps.%d" % k, mps_route, (2, s, o, st_), svd_budget=2 if deep else 1, timeout=400))
    for k, (N, s, i) in enumerate([(1, [("rx", [0]), ("ry", [0])], 0), (1, [("u3", [0])], 0), (1, [("u1", [0]), ("XZLayer", [0])], 1), (2, [("cphase", [0, 1]), X2], 0),
                                   (2, [("cu3", [1, 0]), X2], 0), (2, [("rx", [0]), X2, ("rzz", [0, 1])], 2)]):
        out.append(Item("updated.%d" % k, after_update, (N, s, i)))
    for k, (N, s) in enumerate([(1, [("rx", [0]), ("XZLayer", [0])]), (2, [("cu3", [0, 1]), X2])]):
        out.append(Item("twice.%d" % k, twice, (N, s)))
    return out
