"""C05: the adjoint an operation offers undoes it, on every evolution route."""
from .common import *

BOUNDS = "every gate, layer and ring that offers an adjoint, 1-4 wires (layers on at most 2 of 4; selected wires on 5), every ordered choice of wires, all parameter " \
         "values; arbitrary states for the contraction and matrix-product routes on 2-3 wires (selected ones up to 5, batches of 2), at most 1 (thorough 2) rank-deficient decomposition; " \
         "circuits of 2-3 operations against their adjoints in reverse order"

CAT = {**GATES, **LAYERS, **{k: v for k, v in RINGS.items() if v.dagger}, "mcx": MULTI["multi_control_cnot"]}


def op_adj(c, g, N, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    o = g.build(N, list(w), p)
    d = o.operation_dagger()
    c.eq("adjoint_matrix", d.U_expand(), dag(prog_matrix(c, g.spec(c, w, p), N)))
    U = o.U_expand()
    c.eq("original_unchanged", U, prog_matrix(c, g.spec(c, w, p), N))
    if p is not None:
        c.eq("parameters_unchanged", o.params, c.sv(p))


def twice(c, g, N, w):
    p = g.params(c, "t", w)
    d = g.build(N, list(w), p).operation_dagger().operation_dagger()
    c.eq("double_adjoint", d.U_expand(), prog_matrix(c, g.spec(c, w, p), N))


def contract(c, g, N, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    psi = c.state("z", N)
    o = g.build(N, list(w), p)
    r = o.operation_dagger().TN_contract(o.TN_contract(psi.view([2] * N)))
    c.eq("state_restored", c.sv(r).reshape(-1), c.sv(psi).reshape(-1))


def mps_adj(c, g, N, wl):
    """the adjoint on the matrix-product route is the adjoint operator"""
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    psi = c.state("z", N)
    d = g.build(N, list(w), p).operation_dagger()
    r = d.TN_operation(tn.StateVec2MPS(psi, N))
    inv = [(dag(m), x) for m, x in reversed(g.spec(c, w, p))]
    c.eq("adjoint_mps", c.sv(tn.MPS2StateVec(r)).reshape(-1), prog_apply(c, inv, N, c.sv(psi).reshape(-1)))


def mps_far(c, g, N, bonds, wl):
    """an adjoint applied to site tensors is the adjoint operator"""
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    ts = mps(c, "A", bonds)
    v = mps_vec(c, ts)
    r = g.build(N, list(w), p).operation_dagger().TN_operation(list(ts))
    c.true("well_formed", len(r) == N and well_formed(r))
    inv = [(dag(m), x) for m, x in reversed(g.spec(c, w, p))]
    c.eq("adjoint_mps", mps_vec(c, r), prog_apply(c, inv, N, v))


def batch(c, g, N, wl, B):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    psi = c.state("z", N, batch=B)
    o = g.build(N, list(w), p)
    t = psi.view([B] + [2] * N)
    r = o.operation_dagger().TN_contract(o.TN_contract(t, batch_mod=True), batch_mod=True)
    c.eq("state_restored", c.sv(r).reshape(B, -1), c.sv(psi).reshape(B, -1))


def undone(c, N, names):
    """the adjoints of a circuit's operations in reverse order undo the circuit"""
    cir, parts = build_circuit(c, CAT, N, names)
    back = dq.Circuit(N)
    for g in reversed(cir.gate):
        back.add(g.operation_dagger())
    c.eq("identity", back.U() @ cir.U(), c.eye(2 ** N))
    want = prog_matrix(c, program(c, parts, values(c, parts)), N)
    c.eq("adjoint", back.U(), dag(want))
    psi = c.state("z", N)
    if all(g.contract for g, *_ in parts):
        r = back.TN_contract_evolution(cir.TN_contract_evolution(psi.view([2] * N)))
        c.eq("state_restored", c.sv(r).reshape(-1), c.sv(psi).reshape(-1))
    c.true("count", back.cir_num_params == cir.cir_num_params)


UNDO = [(1, [("u3", [0]), ("rx", [0]), ("PauliY", [0])]), (2, [("rx", [1]), ("cphase", [1, 0]), ("u1", [0])]), (2, [("cu3", [0, 1]), ("SWAP", [0, 1])]),
        (2, [("XYZLayer", [1, 0]), ("rxx", [0, 1])]), (3, [("ring_of_cnot", [0, 1, 2]), ("rz", [1]), ("toffoli", [2, 0, 1])]), (3, [("ryy", [2, 0]), ("Hadamard", [1]), ("cz", [0, 1])]),
        (3, [("mcx", [2, 1, 0]), ("u1", [2])]), (4, [("ry", [3]), ("rzz", [3, 0]), ("cnot", [1, 3])]), (3, [("ring_of_cnot_dagger", [0, 1, 2]), ("XZLayer", [2])])]
FARW = {1: [[4], [0]], 2: [[4, 0], [1, 4], [0, 3]], 3: [[4, 0, 2], [1, 4, 3]], None: [[4, 1], [0, 3]]}


def items(tier):
    out = []
    deep = tier != "quick"
    bud = 2 if deep else 1
    for nm, g in CAT.items():
        for N in range(g.nw or 1, 5):
            if g.nw:
                wl = wire_lists(N, g.nw)
            else:
                wl = subsets(N, 2 if nm in RINGS or nm == "mcx" else 1, N if nm in RINGS or nm == "mcx" or N < 4 else 2)
            if not wl:
                continue
            for k in range(0, len(wl), 12):
                out.append(Item("matrix.%s.N%d.%d" % (nm, N, k), op_adj, (g, N, wl[k:k + 12])))
        fw = [list(range(5)), [4, 2, 0], [1, 4]] if nm in RINGS or nm == "mcx" else FARW[g.nw]
        out.append(Item("far.%s.N5" % nm, op_adj, (g, 5, fw)))
        if g.contract:
            out.append(Item("contract.%s.N5" % nm, contract, (g, 5, fw[:1] if nm in RINGS else fw)))
            out.append(Item("batch.%s" % nm, batch, (g, 3, {1: [[1]], 2: [[2, 0], [0, 1]], 3: [[2, 0, 1]], None: [[0, 1, 2]] if nm in RINGS else [[2, 0]]}[g.nw], 2)))
        if g.tn:
            for N, b, fw in ((4, [2, 2, 2], {1: [[3]], 2: [[1, 2], [3, 2]], 3: [], None: [[0, 1, 2, 3]] if nm in RINGS else [[3, 1]]}[g.nw]),
                             (4, [1, 1, 1], {1: [[0]], 2: [[3, 0], [1, 3]], 3: [[3, 0, 1], [0, 3, 2]], None: [[0, 1, 2, 3]] if nm in RINGS else [[2]]}[g.nw]),
                             (5, [1] * 4, {1: [[4]], 2: [[0, 4]], 3: [[4, 1, 2]], None: [] if nm in RINGS else [[0, 4]]}[g.nw])):
                for w in fw:
                    out.append(Item("sites.%s.N%d.b%s.%s" % (nm, N, "".join(map(str, b)), "".join(map(str, w))), mps_far, (g, N, b, [w]), svd_budget=0))
        N = 3 if g.nw == 3 or not g.nw else 2
        w = {1: [1], 2: [1, 0], 3: [2, 0, 1], None: [1, 2] if nm in LAYERS else [0, 1, 2]}[g.nw]
        out.append(Item("twice.%s" % nm, twice, (g, N, w)))
        if g.contract:
            for N in (1, 2, 3):
                if nm in RINGS:
                    wl = [list(range(N))] if N > 1 else []
                elif g.nw:
                    wl = wire_lists(N, g.nw)
                else:
                    wl = subsets(N, 1, 2 if N < 3 or deep else 1)
                if wl:
                    out.append(Item("contract.%s.N%d" % (nm, N), contract, (g, N, wl)))
        if g.tn:
            for N in (1, 2, 3):
                if nm in RINGS:
                    wl = [list(range(N))] if N > 1 else []
                elif g.nw:
                    wl = wire_lists(N, g.nw)
                else:
                    wl = subsets(N, 1, 2)
                for k in range(0, len(wl), 2):
                    out.append(Item("mps.%s.N%d.%d" % (nm, N, k), mps_adj, (g, N, wl[k:k + 2]), svd_budget=bud))
    for k, (N, s) in enumerate(UNDO):
        out.append(Item("undone.%d" % k, undone, (N, s)))
    return out
