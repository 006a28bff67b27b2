"""C22: simulating, measuring and differentiating leave inputs and circuit as they were."""
from .common import *
from .c11 import rho_in

BOUNDS = "every operation alone on 1-3 wires and circuits of 2-4 operations on 1-3 wires, arbitrary complex states, matrices and parameters; every public " \
         "function on states of 1-3 wires; at most 1 rank-deficient decomposition per run; the list handed to a matrix-product evolution is the one it works in " \
         "(its tensors are not changed) and is outside"

CAT = {**GATES, **LAYERS, **RINGS, "Basic": basic_g(1), "mcx": MULTI["multi_control_cnot"]}


class Watch:
    """values before; the same objects must have them afterwards"""

    def __init__(self, c, **ts):
        self.c, self.ts = c, ts
        self.before = {k: c.sv(t).copy() for k, t in ts.items()}
        self.lists = {}

    def also(self, **ls):
        for k, l in ls.items():
            self.lists[k] = (l, list(l))
        return self

    def check(self, tag=""):
        for k, t in self.ts.items():
            self.c.eq(tag + k + "_unchanged", t, self.before[k])
        for k, (l, b) in self.lists.items():
            self.c.true(tag + k + "_unchanged", len(l) == len(b) and all(x is y or x == y for x, y in zip(l, b)))


def op_alone(c, g, N, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    mine = list(w)
    psi = c.state("z", N)
    W = Watch(c, **({"state": psi, "parameters": p} if p is not None else {"state": psi})).also(wires=mine)
    o = g.build(N, mine, p)
    u = c.sv(o.U_expand())
    if g.contract:
        a = c.sv(o.TN_contract(psi.view([2] * N)))
        b = c.sv(o.TN_contract(psi.view([1] + [2] * N), batch_mod=True))
    if g.dagger:
        o.operation_dagger().U_expand()
    o.info()
    W.check()
    c.eq("operator_again", o.U_expand(), u)
    if g.contract:
        c.eq("contraction_again", o.TN_contract(psi.view([2] * N)), a)
        c.eq("batch_again", o.TN_contract(psi.view([1] + [2] * N), batch_mod=True), b)
    W.check("later_")


def op_mps(c, g, N, wl, bond):
    """the tensors of a matrix-product state survive the operation"""
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    mine = list(w)
    ts = mps(c, "a", [bond] * (N - 1))
    W = Watch(c, **{"site%d" % k: t for k, t in enumerate(ts)}).also(wires=mine)
    if p is not None:
        W.ts["parameters"] = p
        W.before["parameters"] = c.sv(p).copy()
    o = g.build(N, mine, p)
    r1 = mps_vec(c, o.TN_operation(list(ts)))
    W.check()
    r2 = mps_vec(c, o.TN_operation(list(ts)))
    c.eq("again", r2, r1)
    W.check("later_")
    # what the operation is has not changed through being used
    prog = g.spec(c, w, p)
    psi = c.state("z", N)
    if g.contract:
        c.eq("contraction_after", c.sv(o.TN_contract(psi.view([2] * N))).reshape(-1), prog_apply(c, prog, N, c.sv(psi).reshape(-1)))
    c.eq("operator_after", o.U_expand(), prog_matrix(c, prog, N))
    if g.dagger:
        c.eq("adjoint_after", o.operation_dagger().U_expand(), dag(prog_matrix(c, prog, N)))


def circuit(c, N, names, tn_ok):
    cir, parts = build_circuit(c, CAT, N, names)
    psi = c.state("z", N)
    M = c.cplx("m", (2 ** N, 2 ** N))
    W = Watch(c, state=psi, observable=M, **{"parameters%d" % k: p for k, (g, w, p, n) in enumerate(parts) if p is not None})
    ops = list(cir.gate)
    u = c.sv(cir.U())
    want = prog_matrix(c, program(c, parts, values(c, parts)), N)
    e = c.sv(cir.cir_expectation(psi, M, TN=False))
    if tn_ok:
        r = c.sv(cir.TN_contract_evolution(psi.view([2] * N)))
        c.eq("contraction_again", cir.TN_contract_evolution(psi.view([2] * N)), r)
    c.eq("expectation_again", cir.cir_expectation(psi, M, TN=False), e)
    c.eq("operator_again", cir.U(), u)
    c.eq("operator", cir.U(), want)
    c.true("operations", len(cir.gate) == len(ops) and all(a is b for a, b in zip(cir.gate, ops)))
    c.true("count", cir.cir_num_params == sum(len(n) for *_, n in parts))
    s = cir.state_init()
    c.eq("start", s, zero_state(c, N))
    W.check()


def evolve(c, N, names, start):
    """the same state through the same circuit twice, as matrix-product state and in full"""
    cir, parts = build_circuit(c, CAT, N, names)
    if start == "any":
        psi = c.state("z", N)
    else:
        psi = cir.state_init().view(1, -1)
    W = Watch(c, state=psi)
    a = mps_vec(c, cir.TN_evolution(tn.StateVec2MPS(psi, N)))
    W.check()
    b = mps_vec(c, cir.TN_evolution(tn.StateVec2MPS(psi, N)))
    c.eq("again", b, a)
    c.eq("operator_after", cir.U(), prog_matrix(c, program(c, parts, values(c, parts)), N))
    W.check("later_")


def shared(c, N):
    """two circuits over the same parameter tensor do not disturb each other"""
    p = c.angle("t")
    q = c.angle("s")
    a, b = dq.Circuit(N), dq.Circuit(N)
    a.rx(p, 0)
    b.rx(p, 0)
    b.rz(p, 0)
    ub = prog_matrix(c, [(rx(c, c.sv(p)[()]), [0]), (rz(c, c.sv(p)[()]), [0])], N)
    a.gate[0].params_update(q)
    c.eq("updated", a.U(), prog_matrix(c, [(rx(c, c.sv(q)[()]), [0])], N))
    c.eq("other", b.U(), ub)
    a.clear()
    c.eq("cleared", a.U(), c.eye(2 ** N))
    c.eq("other_still", b.U(), ub)
    c.true("fresh", len(dq.Circuit(N).gate) == 0 and dq.Circuit(N).cir_num_params == 0)


def shared_layer(c, name):
    """updating one layer does not disturb another one built on the same tensor"""
    g = CAT[name]
    N = 2
    w = [0, 1]
    p, q = g.params(c, "t", w), g.params(c, "s", w)
    W = Watch(c, first=p, second=q)
    a, b = g.build(N, w, p), g.build(N, w, p)
    ad = a.operation_dagger() if g.dagger else None
    a.params_update(q)
    c.eq("updated", a.U_expand(), prog_matrix(c, g.spec(c, w, q), N))
    c.eq("other", b.U_expand(), prog_matrix(c, g.spec(c, w, p), N))
    if ad is not None:
        c.eq("adjoint", ad.U_expand(), dag(prog_matrix(c, g.spec(c, w, p), N)))
    W.check()


def functions_mps(c, N, bonds, which):
    ts, us = mps(c, "a", bonds), mps(c, "b", bonds)
    la, lb = list(ts), list(us)
    W = Watch(c, **{"a%d" % k: t for k, t in enumerate(ts)}, **{"b%d" % k: t for k, t in enumerate(us)}).also(first=la, second=lb)
    if which == "inner":
        f = lambda: tn.MPS_inner_product(la, lb)
    elif which == "vector":
        f = lambda: tn.MPS2StateVec(la)
    elif which == "tensor":
        f = lambda: tn.MPS2StateVec(la, return_sv=False)
    else:
        ob = [c.cplx("o", (2, 2)), c.cplx("p", (2, 2))][:min(N, 2)]
        ws = [N - 1, 0][:len(ob)]
        W.also(observables=ob, wires=ws)
        f = lambda: tn.MPS_expec(la, ws, ob)
    x = c.sv(f())
    W.check()
    c.eq("again", f(), x)


def functions_rho(c, N, which):
    r, a = rho_in(c, N)
    W = Watch(c, matrix=r)
    if which in ("new", "old"):
        l = list(c.choose("wires", [[0], list(reversed(range(N)))] + ([[N - 1, 0]] if N == 3 else [])))
        W.also(wires=l)
        f = lambda: (qm.partial_trace if which == "new" else qm.partial_trace_old)(r, N, l)
    elif which == "measure":
        l = list(reversed(range(N)))
        W.also(wires=l)
        f = lambda: qm.measure(N, r, ith=l)
    elif which == "expval":
        M = c.cplx("m", (2 ** N, 2 ** N))
        W.ts["observable"] = M
        W.before["observable"] = c.sv(M)
        f = lambda: qm.expval(r, M, rho=True)
    elif which == "ptrace":
        f = lambda: qm.ptrace(r, 1, N - 1)
    elif which == "dag":
        f = lambda: qm.dag(r)
    else:
        f = lambda: tn.MatrixProductDensityOperator(r, N)
    x = c.sv(f())
    W.check()
    c.eq("again", f(), x)


def functions_state(c, N, which):
    psi = c.state("z", N)
    W = Watch(c, state=psi)
    if which == "measure":
        l = list(reversed(range(N)))
        W.also(wires=l)
        f = lambda: qm.measure(N, psi, ith=l)
    elif which == "kron":
        l = [c.cplx("k%d" % k, (2, 2)) for k in range(3)]
        W.also(factors=l)
        f = lambda: qm.multi_kron(l)
    else:
        f = lambda: tn.MatrixProductState(psi, N)
    x = c.sv(f())
    W.check()
    c.eq("again", f(), x)


def shift(c, N, names):
    cir, parts = build_circuit(c, CAT, N, names)
    psi = c.state("z", N)
    M = c.tensor(hermitian(c, "m", 2 ** N))
    W = Watch(c, state=psi, observable=M, **{"parameters%d" % k: p for k, (g, w, p, n) in enumerate(parts) if p is not None})
    table = dict(cir.cir_params)
    qc.parameter_shift(cir, psi, M).cal_params_grad()
    W.check()
    for k, (g, w, p, n) in enumerate(parts):
        if p is not None:
            c.eq("gate_parameters%d" % k, c.sv(cir.gate[k].params).reshape(-1), c.sv(p).reshape(-1))
    c.true("table", list(cir.cir_params) == list(table) and all((cir.cir_params[k] is None) == (table[k] is None) for k in table))
    for k in table:
        if table[k] is not None:
            c.eq("table%d" % k, cir.cir_params[k], c.sv(table[k]))
    c.eq("operator", cir.U(), prog_matrix(c, program(c, parts, values(c, parts)), N))


def chunks_(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def items(tier):
    deep = tier != "quick"
    out = []
    for nm, g in CAT.items():
        k = g.nw or (1 if g.name in LAYERS else 2)
        for N in (k, k + 1) if k < 3 else (3, 4):
            wl = wire_lists(N, g.nw) if g.nw else subsets(N, k, 2 if not deep else N)
            if nm in ("ring_of_cnot", "ring_of_cnot_dagger"):
                wl = [list(range(N))]
            if nm == "Basic" and N == 3 and not deep:
                wl = wl[:1]
            for i, ch in enumerate(chunks_(wl, 3)):
                out.append(Item("operation.%s.N%d.%d" % (nm, N, i), op_alone, (g, N, ch)))
        if g.tn and nm != "toffoli" and not nm.startswith("ring"):
            out.append(Item("sites.%s" % nm, op_mps, (g, 2, (wire_lists(2, g.nw) if g.nw else [[0, 1]])[:2], 1), timeout=200))
            if k == 1:
                out.append(Item("sites3.%s" % nm, op_mps, (g, 3, [[1]], 2), timeout=200))
            if g.nw == 2:
                out.append(Item("sites3.%s" % nm, op_mps, (g, 3, [[0, 2], [2, 1]], 1), timeout=200, svd_budget=0))
        if nm == "toffoli":
            for w in wire_lists(3, 3):
                out.append(Item("sites.toffoli.%d%d%d" % tuple(w), op_mps, (g, 3, [w], 1), timeout=200, svd_budget=0))
            out.append(Item("sites4.toffoli", op_mps, (g, 4, [[3, 0, 2]], 1), timeout=200, svd_budget=0))
        if nm in ("ring_of_cnot", "ring_of_cnot_dagger"):
            out.append(Item("sites.%s" % nm, op_mps, (g, 2, [[0, 1]], 1), timeout=200, svd_budget=0))
            out.append(Item("sites3.%s" % nm, op_mps, (g, 3, [[0, 1, 2]], 1), timeout=200, svd_budget=0))
        if g.npar != 0 and not g.nw:
            out.append(Item("shared.%s" % nm, shared_layer, (nm,)))
    X2 = ("mcx", [0, 1])
    for k, (N, s, t) in enumerate([(1, [("rx", [0]), ("Hadamard", [0]), ("u3", [0])], True), (2, [("ry", [1]), ("cnot", [1, 0]), ("cphase", [0, 1])], True),
                                   (2, [X2, ("rxx", [1, 0]), ("XZLayer", [1])], False), (2, [("Basic", [1, 0])], False),
                                   (3, [("toffoli", [2, 0, 1]), ("SWAP", [0, 2]), ("u1", [1])], True), (3, [("ring_of_cnot", [0, 1, 2]), ("rz", [2]), ("HLayer", [0, 2])], True)]):
        out.append(Item("circuit.%d" % k, circuit, (N, s, t)))
    for k, (N, s, st_) in enumerate([(1, [("rx", [0]), ("u1", [0])], "any"), (2, [("ry", [0]), ("cnot", [0, 1])], "any"), (2, [("rx", [1]), ("cz", [1, 0]), ("HLayer", [0, 1])], "zero"),
                                     (3, [("ry", [2]), ("SWAP", [0, 2])], "zero")]):
        out.append(Item("evolve.%d" % k, evolve, (N, s, st_), timeout=300))
    for N in (1, 2):
        out.append(Item("shared.N%d" % N, shared, (N,)))
    for N, b in ((1, []), (2, [1]), (2, [2]), (3, [2, 2])):
        for wh in ("inner", "vector", "tensor", "local"):
            if N == 3 and wh == "inner" and not deep:
                continue
            out.append(Item("mps.%s.N%d.%s" % (wh, N, "x".join(map(str, b))), functions_mps, (N, b, wh)))
    for N in (1, 2, 3):
        for wh in ("new", "old", "measure", "expval", "ptrace", "dag", "tensor"):
            out.append(Item("matrix.%s.N%d" % (wh, N), functions_rho, (N, wh)))
        for wh in ("measure", "kron", "tensor"):
            out.append(Item("state.%s.N%d" % (wh, N), functions_state, (N, wh)))
    for k, (N, s) in enumerate([(1, [("rx", [0]), ("XZLayer", [0])]), (1, [("u3", [0])]), (2, [("cphase", [0, 1]), X2]), (2, [("cu3", [1, 0]), X2])]):
        out.append(Item("shift.%d" % k, shift, (N, s)))
    return out
