"""C08: applying an operation to a matrix-product state gives the state its matrix gives."""
from .common import *

BOUNDS = "every operation that reports matrix-product support, every ordered choice of wires on 1-3 wires (selected ones on 4, 5 and 6), all parameter " \
         "values; arbitrary site tensors with bond dimensions 1 and 2 and arbitrary state vectors; at most 1 (thorough 2) decompositions " \
         "per run are taken rank-deficient; singular values up to 1e-8 count as zero"


def from_tensors(c, g, N, bonds, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    ts = mps(c, "A", bonds)
    v = mps_vec(c, ts)
    r = g.build(N, list(w), p).TN_operation(list(ts))
    c.true("well_formed", len(r) == N and well_formed(r))
    c.eq("state", mps_vec(c, r), prog_apply(c, g.spec(c, w, p), N, v))


def from_state(c, g, N, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    psi = c.state("z", N)
    v = c.sv(psi).reshape(-1)
    r = g.build(N, list(w), p).TN_operation(tn.StateVec2MPS(psi, N))
    c.true("well_formed", len(r) == N and well_formed(r))
    c.eq("state", mps_vec(c, r), prog_apply(c, g.spec(c, w, p), N, v))


def circuit(c, N, names, bonds):
    cir = dq.Circuit(N)
    prog = []
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
        prog += g.spec(c, w, p)
    c.true("supported", cir.TN_check() == True)
    ts = mps(c, "A", bonds)
    v = mps_vec(c, ts)
    r = cir.TN_evolution(list(ts))
    c.true("well_formed", len(r) == N and well_formed(r))
    c.eq("state", mps_vec(c, r), prog_apply(c, prog, N, v))


def support(c, names):
    """what an operation reports is what it does: a supported one runs, an unsupported one is refused"""
    N = 3
    nm = c.choose("op", names)
    g = ALL[nm]
    w = {1: [1], 2: [2, 0], 3: [2, 0, 1], None: [0, 1, 2]}[g.nw]
    o = g.build(N, w, g.params(c, "t", w))
    c.true("reports", bool(o.supportTN) == g.tn)
    cir = dq.Circuit(N)
    cir.add(o)
    c.true("check", cir.TN_check() == g.tn)
    ts = mps(c, "A", [1, 1])
    if not g.tn:
        c.raises("refused", lambda: cir.TN_evolution(ts))
    else:
        c.true("runs", len(cir.TN_evolution(ts)) == N)


CAT = {**GATES, **LAYERS, **{k: v for k, v in RINGS.items() if v.tn}}
ALL = {**CAT, **RINGS, "Basic": basic_g(1), "mcx": MULTI["multi_control_cnot"]}
CIRCUITS = [
    (2, [("u3", [0]), ("cnot", [1, 0])], [2]), (2, [("XZLayer", [1, 0]), ("cphase", [1, 0])], [2]),
    (2, [("Hadamard", [0]), ("rxx", [0, 1]), ("u1", [1])], [2]), (2, [("SWAP", [1, 0]), ("cu3", [0, 1])], [1]),
    (2, [("ring_of_cnot", [0, 1]), ("ryy", [1, 0])], [1]), (2, [("cz", [1, 0]), ("rzz", [0, 1])], [2]),
    (3, [("rx", [1]), ("cnot", [0, 1]), ("rz", [2])], [1, 1]), (3, [("HLayer", [0, 2]), ("cphase", [2, 1])], [2, 2]),
    (3, [("ry", [0]), ("cz", [0, 2])], [1, 1]), (3, [("toffoli", [0, 1, 2]), ("u3", [1])], [1, 1]),
    (3, [("ZYXLayer", [1]), ("SWAP", [1, 2]), ("PauliY", [0])], [2, 1]),
]


def items(tier):
    out = []
    deep = tier != "quick"
    bud = 2 if deep else 1
    for nm, g in CAT.items():
        for N in (1, 2, 3):
            if nm in RINGS:
                wl = [list(range(N))] if N > 1 else []
            elif g.nw:
                wl = wire_lists(N, g.nw)
            else:
                wl = subsets(N, 1, N if N < 3 or deep else 2)
            if not wl:
                continue
            for bonds in {1: [[]], 2: [[1], [2]] + ([[3]] if deep else []), 3: [[1, 1], [2, 2], [2, 1]]}[N]:
                local = g.nw == 1 or nm in LAYERS
                step = 20 if local else 2
                for k in range(0, len(wl), step):
                    out.append(Item("mps.%s.N%d.b%s.%d" % (nm, N, "".join(map(str, bonds)), k), from_tensors, (g, N, bonds, wl[k:k + step]), svd_budget=bud))
            if N > 1:
                for k in range(0, len(wl), 2):
                    out.append(Item("state.%s.N%d.%d" % (nm, N, k), from_state, (g, N, wl[k:k + 2]), svd_budget=bud))
    four = [("rx", [2]), ("u3", [0]), ("cnot", [1, 2]), ("cnot", [3, 2]), ("cz", [0, 1]), ("cphase", [2, 1]), ("SWAP", [1, 2]), ("cu3", [2, 3]),
            ("rxx", [1, 2]), ("XZLayer", [3, 1]), ("cnot", [0, 3]), ("cnot", [3, 0]), ("cz", [3, 0]), ("cphase", [0, 3]), ("cu3", [3, 0]),
            ("rxx", [0, 3]), ("ryy", [3, 0]), ("rzz", [0, 3]), ("SWAP", [0, 3]), ("toffoli", [0, 3, 1]), ("toffoli", [3, 0, 2])]
    if deep:
        four += [("cnot", [0, 2]), ("cnot", [3, 1]), ("cphase", [0, 3]), ("toffoli", [1, 2, 3]), ("toffoli", [2, 1, 0]), ("SWAP", [0, 2])]
    for nm, w in four:
        out.append(Item("mps.%s.N4.%s" % (nm, "".join(map(str, w))), from_tensors, (CAT[nm], 4, [1, 1, 1] if nm in TWO or nm in THREE else [2, 2, 2], [w]), svd_budget=bud))
    for nm, w in [("cnot", [0, 3]), ("cnot", [3, 1]), ("cz", [2, 0]), ("cphase", [1, 3]), ("SWAP", [0, 2]), ("toffoli", [3, 1, 0]), ("rxx", [0, 3]),
                  ("ryy", [2, 0]), ("rzz", [1, 3]), ("cu3", [0, 2])]:
        for b in ([2, 2, 2], [2, 3, 2], [1, 2, 1]):
            out.append(Item("mps.%s.N4.%s.b%s" % (nm, "".join(map(str, w)), "".join(map(str, b))), from_tensors, (CAT[nm], 4, b, [w]), svd_budget=bud))
    for nm in RINGS:
        if RINGS[nm].tn:
            out.append(Item("mps.%s.N4.b222" % nm, from_tensors, (CAT[nm], 4, [2, 2, 2], [[0, 1, 2, 3]]), svd_budget=0))
            out.append(Item("state.%s.N4" % nm, from_state, (CAT[nm], 4, [[0, 1, 2, 3]]), svd_budget=0))
            out.append(Item("mps.%s.N4" % nm, from_tensors, (CAT[nm], 4, [1, 1, 1], [[0, 1, 2, 3]]), svd_budget=0))
    for nm, w in [("u3", [3]), ("cnot", [0, 4]), ("cnot", [3, 1]), ("cz", [4, 0]), ("cphase", [1, 4]), ("SWAP", [4, 1]), ("toffoli", [0, 2, 4]),
                  ("toffoli", [4, 2, 0]), ("toffoli", [0, 4, 2]), ("toffoli", [1, 2, 4]),
                  ("toffoli", [0, 1, 4]), ("toffoli", [4, 0, 3]), ("toffoli", [1, 0, 4]), ("cnot", [4, 0]), ("SWAP", [0, 4]), ("rxx", [0, 4]),
                  ("ryy", [1, 4]), ("cu3", [3, 0]), ("rzz", [4, 0])]:
        out.append(Item("mps.%s.N5.%s" % (nm, "".join(map(str, w))), from_tensors, (CAT[nm], 5, [1, 1, 1, 1], [w]), svd_budget=0))
    for nm, w in [("SWAP", [0, 5]), ("SWAP", [5, 1]), ("cnot", [0, 5]), ("cnot", [5, 0]), ("cz", [1, 5]), ("cphase", [5, 0]), ("rxx", [0, 5]), ("ryy", [5, 2]),
                  ("rzz", [0, 4]), ("cu3", [5, 1]), ("toffoli", [0, 5, 2]), ("toffoli", [3, 1, 5]), ("u3", [5]), ("XZLayer", [5, 0])]:
        out.append(Item("mps.%s.N6.%s" % (nm, "".join(map(str, w))), from_tensors, (CAT[nm], 6, [1] * 5, [w]), svd_budget=0))
    for nm in RINGS:
        if RINGS[nm].tn:
            out.append(Item("mps.%s.N5" % nm, from_tensors, (CAT[nm], 5, [1] * 4, [[0, 1, 2, 3, 4]]), svd_budget=0))
    for k, (N, s, b) in enumerate(CIRCUITS):
        out.append(Item("circuit.%d" % k, circuit, (N, s, b), svd_budget=bud))
    for nm in ALL:
        out.append(Item("support.%s" % nm, support, ([nm],), svd_budget=0))
    return out
