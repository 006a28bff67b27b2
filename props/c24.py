"""C24: gradients from stored forward and backward states are the derivatives of the expectation value."""
from .common import *

BOUNDS = "every parametrised operation with a matrix-product route and an adjoint, alone and in circuits of 2-4 operations with 1-6 parameters on 1-2 wires (selected circuits: 3), all " \
         "parameter values; Pauli X, Y, Z on any one wire; arbitrary start vectors (1 wire, and selected 2-wire circuits), else the zero state or one-parameter start " \
         "states; at most 1 rank-deficient decomposition per run (thorough 2)"

CAT = {**GATES, **LAYERS, **{k: RINGS[k] for k in ("ring_of_cnot", "ring_of_cnot_dagger")}}
OBS = {"X": op.PauliX, "Y": op.PauliY, "Z": op.PauliZ}


def adjoint(c, N, names, start, obs):
    cir, parts = build_circuit(c, CAT, N, names)
    vals = values(c, parts)
    nm = [n for *_, ns in parts for n in ns]
    if start == "any":
        psi = c.state("z", N)
        v0 = c.sv(psi).reshape(-1)
    elif start == "zero":
        psi = cir.state_init().view(1, -1)
        v0 = zero_state(c, N)
    else:
        a = c.sv(c.angle("s"))[()]
        v0 = prog_apply(c, [(ry(c, a), [0]), (Hm(c), [N - 1])], N, zero_state(c, N))
        psi = c.tensor(v0.reshape(1, -1))
    which, wire = obs if obs else (c.choose("observable", list("XYZ")), c.choose("wire", list(range(N))))
    M = embed(c, {"X": X, "Y": Y, "Z": Z}[which](c), N, [wire])
    ps = qc.parameter_shift(cir, psi, c.tensor(M))
    saved, final = ps.save_mid_MPS(OBS[which](N, wire))
    c.eq("final_state", c.sv(final).reshape(-1), prog_apply(c, program(c, parts, vals), N, v0))
    g = ps.cal_params_grad2(saved)
    c.true("count", tuple(g.shape) == (len(nm),))

    def f(x):
        return real_part(expect(c, prog_apply(c, program(c, parts, x), N, v0), M))
    c.eq("gradient", g, np.array(gradient(c, f, vals, nm), dtype=object))
    c.eq("parameters_restored", np.array([x for gt in cir.gate if gt.num_params for x in c.sv(gt.params).reshape(-1)], dtype=object),
         np.array(vals, dtype=object))
    c.eq("circuit_restored", cir.U(), prog_matrix(c, program(c, parts, vals), N))
    if N == 1:
        c.eq("again", ps.cal_params_grad2(ps.save_mid_MPS(OBS[which](N, wire))[0]), c.sv(g))


ONEW = [[("rx", [0])], [("ry", [0])], [("rz", [0])], [("u1", [0])], [("u3", [0])], [("XYZLayer", [0])], [("ZYXLayer", [0])], [("YZYLayer", [0])],
        [("XZXLayer", [0])], [("XZLayer", [0])], [("ZXLayer", [0])], [("Hadamard", [0]), ("u1", [0]), ("rx", [0])], [("u3", [0]), ("PauliY", [0]), ("rz", [0])],
        [("rx", [0]), ("ry", [0]), ("rz", [0]), ("HLayer", [0])], [("HLayer", [0]), ("XZLayer", [0]), ("u1", [0])]]
TWOW = [([("rx", [0]), ("cnot", [0, 1])], "zero", ("Z", 1)), ([("ry", [1]), ("cz", [1, 0])], "one", ("X", 0)), ([("u1", [0]), ("Hadamard", [0])], "one", ("Y", 0)),
        ([("cphase", [0, 1])], "one", ("X", 0)), ([("cphase", [1, 0])], "one", ("Y", 0)), ([("rxx", [0, 1])], "zero", ("Z", 0)), ([("ryy", [0, 1])], "zero", ("Z", 1)),
        ([("rzz", [0, 1])], "one", ("Y", 1)), ([("rxx", [1, 0])], "zero", ("Y", 1)), ([("ry", [0]), ("SWAP", [0, 1])], "zero", ("X", 1)), ([("XZLayer", [0])], "one", ("Z", 0)),
        ([("rx", [0]), ("rz", [1])], "zero", ("Z", 0)), ([("ry", [0]), ("ring_of_cnot", [0, 1])], "zero", ("Z", 1)), ([("HLayer", [0, 1]), ("rz", [1])], "zero", ("X", 1))]
DEEP = [([("cu3", [0, 1])], "one", ("X", 1)), ([("cu3", [1, 0])], "zero", ("Z", 0)), ([("rx", [0]), ("cnot", [0, 1]), ("ry", [1])], "zero", ("X", 1)),
        ([("XZLayer", [0, 1])], "zero", ("Y", 1)), ([("ry", [0]), ("rxx", [0, 1])], "zero", ("Z", 0)), ([("u3", [1]), ("cnot", [1, 0])], "zero", ("X", 0))]


THREEW = [([("rx", [0]), ("ring_of_cnot", [0, 1, 2])], "zero", ("Z", 2)), ([("ry", [1]), ("ring_of_cnot", [0, 1, 2]), ("rz", [0])], "zero", ("Y", 0)),
          ([("ry", [2]), ("ring_of_cnot_dagger", [0, 1, 2])], "zero", ("Z", 0)), ([("rx", [2]), ("cnot", [2, 0])], "zero", ("Z", 0)),
          ([("ry", [0]), ("cphase", [0, 2])], "zero", ("X", 2)), ([("rxx", [2, 0])], "zero", ("Z", 2)), ([("ry", [1]), ("SWAP", [1, 2])], "zero", ("X", 2)),
          ([("ry", [0]), ("ry", [1]), ("toffoli", [0, 1, 2])], "zero", ("Z", 2)), ([("HLayer", [0]), ("XZLayer", [2])], "zero", ("Y", 2)),
          ([("ry", [1]), ("toffoli", [2, 1, 0])], "zero", ("Z", 1))]


def items(tier):
    deep = tier != "quick"
    out = []
    for k, s in enumerate(ONEW):
        out.append(Item("one.%d" % k, adjoint, (1, s, "any", None)))
    for k, (s, st_, o) in enumerate(TWOW + (DEEP if deep else [])):
        out.append(Item("two.%d" % k, adjoint, (2, s, st_, o), timeout=300, svd_budget=2 if deep else 1))
    for k, (s, st_, o) in enumerate(THREEW):
        out.append(Item("three.%d" % k, adjoint, (3, s, st_, o), timeout=300, svd_budget=0))
    for k, (s, o) in enumerate([([("rx", [0])], ("Z", 0)), ([("cphase", [0, 1])], ("X", 1))]):
        if deep or k == 0:
            out.append(Item("any.%d" % k, adjoint, (2, s, "any", o), timeout=300))
    return out
