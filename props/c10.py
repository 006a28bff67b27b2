"""C10: expectation values agree with the textbook formula on every route."""
from .common import *

BOUNDS = "circuits of 0-4 operations on 1-3 wires with arbitrary parameters, arbitrary state vectors (no normalisation) and arbitrary complex " \
         "2^N x 2^N observables on the matrix route (N <= 2, two circuits on 3) and Pauli products on 3-5 wires and on the matrix-product route; local observables: arbitrary " \
         "complex 2x2 matrices on 1-3 distinct or repeated wires of 1-5; inner products: site tensors with bonds 1-3 on 1-6 wires; at most 1 (thorough 2) rank-deficient decompositions"

CAT = {**GATES, **LAYERS, **RINGS, "Basic": basic_g(1), "mcx": MULTI["multi_control_cnot"]}


def build(c, N, names):
    cir = dq.Circuit(N)
    prog = []
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
        prog += g.spec(c, w, p)
    return cir, prog


def re_(x):
    return x.real() if isinstance(x, P) else x.real


def pauli(c, s):
    return kron(*[{"I": I2, "X": X, "Y": Y, "Z": Z}[ch](c) for ch in s])


def dense(c, N, names, route):
    """any observable"""
    cir, prog = build(c, N, names)
    psi = c.state("z", N)
    M = c.cplx("m", (2 ** N, 2 ** N))
    v = prog_apply(c, prog, N, c.sv(psi).reshape(-1))
    e = cir.cir_expectation(psi, M, **({} if route is None else {"TN": route}))
    c.true("scalar", tuple(e.shape) == ())
    c.eq("expectation", c.sv(e), np.array(re_(expect(c, v, c.sv(M))), dtype=object))


def paulis(c, N, names, strings, route):
    cir, prog = build(c, N, names)
    psi = c.state("z", N)
    s = c.choose("observable", strings)
    M = pauli(c, s)
    v = prog_apply(c, prog, N, c.sv(psi).reshape(-1))
    e = cir.cir_expectation(psi, c.tensor(M), **({} if route is None else {"TN": route}))
    c.eq("expectation", c.sv(e), np.array(re_(expect(c, v, M)), dtype=object))


def default_state(c, N, names, strings):
    cir, prog = build(c, N, names)
    s = c.choose("observable", strings)
    M = pauli(c, s)
    init = np.array([c.one] + [c.zero] * (2 ** N - 1), dtype=object)
    v = prog_apply(c, prog, N, init)
    e = cir.cir_expectation(cir.state_init().view(1, -1), c.tensor(M), TN=False)
    c.eq("expectation", c.sv(e), np.array(re_(expect(c, v, M)), dtype=object))


def local(c, bonds, wires):
    ts = mps(c, "A", bonds)
    N = len(ts)
    ms = [c.cplx("m%d" % k, (2, 2)) for k in range(len(wires))]
    v = mps_vec(c, ts)
    w = v
    for q, m in zip(wires, ms):
        w = apply(c, c.sv(m), N, [q], w)
    e = tn.MPS_expec(list(ts), list(wires), ms)
    c.true("scalar", tuple(e.shape) == ())
    c.eq("expectation", c.sv(e), np.array(re_(inner(v, w)), dtype=object))


def local_unchanged(c, bonds, wires):
    """the caller's state, list of wires and observables stay as they were"""
    ts = mps(c, "A", bonds)
    ms = [c.cplx("m%d" % k, (2, 2)) for k in range(len(wires))]
    keep = [c.sv(t) for t in ts]
    lst = list(ts)
    ws = list(wires)
    e1 = tn.MPS_expec(lst, ws, ms)
    c.true("same_tensors", len(lst) == len(ts) and all(a is b for a, b in zip(lst, ts)) and ws == list(wires))
    for k, (t, a) in enumerate(zip(lst, keep)):
        c.eq("tensor_%d" % k, c.sv(t), a)
    e2 = tn.MPS_expec(lst, ws, ms)
    c.eq("repeatable", c.sv(e2), c.sv(e1))


def inner_product(c, ba, bb):
    ket, bra = mps(c, "A", ba), mps(c, "B", bb)
    r = tn.MPS_inner_product(list(ket), list(bra))
    c.eq("inner", c.sv(r).reshape(-1), np.array([inner(mps_vec(c, bra), mps_vec(c, ket))], dtype=object))


def rejects(c, N):
    cir = dq.Circuit(N)
    cir.rx(c.angle("t"), 0)
    kind = c.choose("kind", ["rows", "columns", "observable"])
    if kind == "rows":
        psi, M = c.cplx("z", (2, 2 ** N)), c.cplx("m", (2 ** N, 2 ** N))
    elif kind == "columns":
        psi, M = c.cplx("z", (1, 2 ** N + 1)), c.cplx("m", (2 ** N + 1, 2 ** N + 1))
    else:
        psi, M = c.cplx("z", (1, 2 ** N)), c.cplx("m", (2 ** N, 2 ** N + 1))
    c.raises("refused", lambda: cir.cir_expectation(psi, M))


C1 = [[], [("rx", [0])], [("u3", [0]), ("Hadamard", [0])], [("XYZLayer", [0])]]
C2 = [[("rx", [0]), ("cnot", [0, 1])], [("u3", [1]), ("cphase", [1, 0])], [("ry", [0]), ("SWAP", [0, 1])], [("XZLayer", [0, 1])], [("Hadamard", [0]), ("cu3", [1, 0])],
      [("rxx", [0, 1]), ("u1", [1])], [("PauliY", [1]), ("ryy", [1, 0])], [("rzz", [0, 1]), ("rz", [0])], [("ring_of_cnot", [0, 1]), ("ry", [1])]]
CM = [[("Basic", [0, 1])], [("mcx", [1, 0]), ("rx", [1])], [("ring_of_cnot2", [0, 1]), ("u1", [0])]]
C3 = [[("rx", [2]), ("cnot", [2, 0])], [("ry", [1]), ("toffoli", [0, 2, 1])], [("HLayer", [0, 1]), ("cphase", [2, 0])], [("Hadamard", [0]), ("rzz", [0, 2]), ("u3", [1])]]
TN2 = [[("rx", [0]), ("cnot", [0, 1])], [("cphase", [1, 0])], [("u1", [0]), ("SWAP", [0, 1])], [("Hadamard", [1]), ("cz", [1, 0])], [("XZLayer", [0, 1])], [("rxx", [0, 1])]]
S1 = list("XYZ")
S2 = ["".join(p) for p in product("IXYZ", repeat=2)]
S3 = ["ZII", "IZI", "IIZ", "XYZ", "YIX", "ZZI", "IXY"]


def items(tier):
    deep = tier != "quick"
    bud = 2 if deep else 1
    out = []
    for k, s in enumerate(C1):
        for r in (None, True, False):
            out.append(Item("dense.N1.%d.%s" % (k, r), dense, (1, s, r)))
    for k, s in enumerate(C2 + CM):
        out.append(Item("dense.N2.%d.False" % k, dense, (2, s, False)))
    for k, s in enumerate(CM):
        out.append(Item("dense.N2.unsupported.%d" % k, dense, (2, s, True)))
        out.append(Item("dense.N2.unsupported_default.%d" % k, dense, (2, s, None)))
    for k, s in enumerate(C3):
        out.append(Item("pauli.N3.%d.False" % k, paulis, (3, s, S3, False)))
    for k, s in enumerate(C2):
        out.append(Item("zero_state.N2.%d" % k, default_state, (2, s, S2)))
    for k, s in enumerate(TN2):
        for r in (True, None):
            out.append(Item("pauli.N2.%d.%s" % (k, r), paulis, (2, s, ["ZI", "XY"] if not deep else S2[1:], r), svd_budget=bud))
    for b, ws in [([], [0]), ([1], [0]), ([2], [1]), ([2], [0, 1]), ([2], [1, 0]), ([2], [0, 0]), ([2, 2], [1]), ([2, 1], [2, 0]), ([1, 2], [0, 1, 2]), ([2, 2], [2, 1]), ([1, 1, 1], [3, 1]), ([2, 2, 2], [0, 3]), ([2, 2, 2], [2]), ([2, 3, 2], [3, 0, 1]), ([1, 1, 1, 1], [4, 0]), ([2, 2, 2, 2], [1]), ([2, 2, 2], [1, 1]),
                  ([2, 2, 2, 2], [3, 0])]:
        out.append(Item("local.%s.%s" % ("".join(map(str, b)) or "one", "".join(map(str, ws))), local, (b, ws)))
        out.append(Item("unchanged.%s.%s" % ("".join(map(str, b)) or "one", "".join(map(str, ws))), local_unchanged, (b, ws)))
    for ba, bb in [([], []), ([1], [1]), ([2], [2]), ([2], [1]), ([1], [2]), ([1, 1], [1, 1]), ([2, 2], [1, 1]), ([1, 2], [2, 1]), ([2, 2], [2, 2]), ([1, 1, 1], [1, 1, 1]), ([2, 1, 2], [1, 2, 1])] + [([3], [3]), ([2, 2, 2], [1, 1, 1]), ([1, 1, 1, 1], [1, 1, 1, 1]), ([2, 2, 2, 2], [1, 1, 1, 1]), ([1, 2, 2, 1], [2, 1, 1, 2]), ([1, 1, 1, 1, 1], [1, 2, 2, 2, 1])] + ([([2, 2, 2], [2, 2, 2])] if deep else []):
        out.append(Item("inner.%s.%s" % ("".join(map(str, ba)) or "one", "".join(map(str, bb)) or "one"), inner_product, (ba, bb)))
    for k, s in enumerate(C3[:2]):
        out.append(Item("dense.N3.%d" % k, dense, (3, s, False)))
    for k, (N, s, st_) in enumerate([(4, [("ry", [3]), ("cnot", [3, 0])], ["ZIIX", "IYZI"]), (4, [("toffoli", [3, 0, 1]), ("rx", [2])], ["ZXIY"]), (5, [("cphase", [4, 0]), ("u3", [2])], ["IZIXY"])]):
        out.append(Item("pauli.N%d.%d" % (N, k), paulis, (N, s, st_, False)))
    for N in (1, 2, 3):
        out.append(Item("rejects.N%d" % N, rejects, (N,)))
    return out
