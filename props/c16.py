"""C16: automatic differentiation through the simulator gives the exact derivatives."""
from .common import *
from .c12 import zvec
from .c11 import rho_in

BOUNDS = "every parametrised operation on 1-2 wires (entangling block and selected operations 3), all parameter values; arbitrary complex weights " \
         "on operator entries, arbitrary complex states on the contraction route (batches of 1-3), arbitrary complex observables on 1-2 wires; circuits of 2-4 operations, one parameter "\
         "used up to twice; states, observables, matrices, factors and matrix-product states depending on one angle on 1-3 wires; every entry of states, matrices and observables of 1-3 wires; " \
         "the derivative through singular value decompositions is outside"

CAT = {**GATES, **LAYERS, **{k: v for k, v in RINGS.items()}, "Basic": basic_g(1), "mcx": MULTI["multi_control_cnot"]}
PAR = {k: g for k, g in CAT.items() if g.npar != 0}


def leaf(c, g, name, w):
    return g.params(c, name, w, grad=True)


def names_of(g, name, w):
    return [name] if g.npar == 1 else ["%s_%d" % (name, i) for i in range(g.np_(w))]


def lin(c, ws, us):
    """Re sum w u  (spec)"""
    s = None
    for a, b in zip(ws, us):
        t = a * b
        s = t if s is None else s + t
    return real_part(s)


def claim(c, label, got, f, vals, names):
    """got: gradient tensors in the order of the parameters"""
    want = np.array(gradient(c, f, vals, names), dtype=object)
    if any(g is None for g in got):
        c.true(label + "_reached", False)
        return
    flat = [x for g in got for x in c.sv(g).reshape(-1)]
    c.eq(label, np.array(flat, dtype=object), want)


def grads(L, ps):
    """gradient of the scalar L; a parameter L does not depend on has gradient zero"""
    if not L.requires_grad:
        return [None] * len(ps)
    return list(torch.autograd.grad(L, ps, allow_unused=True))


def operator(c, g, N, wl, how):
    """d/dparam of a weighted sum of the operator's entries"""
    w = c.choose("wires", wl)
    p = leaf(c, g, "t", w)
    W = c.cplx("m", (2 ** N, 2 ** N))
    if how == "updated":
        q = g.params(c, "old", w)
        o = g.build(N, list(w), q)
        o.params_update(p)
    else:
        o = g.build(N, list(w), p)
        if how == "adjoint":
            o = o.operation_dagger()
        if how == "doubled":
            o = o.operation_dagger().operation_dagger()
    L = (W * o.U_expand()).sum().real
    ws = c.sv(W).reshape(-1)

    def f(x):
        m = prog_matrix(c, g.prog(c, list(w), list(x)), N)
        if how == "adjoint":
            m = dag(m)
        return lin(c, ws, m.reshape(-1))
    claim(c, "gradient", grads(L, [p]), f, g.vals(c, p), names_of(g, "t", w))


def contracted(c, g, N, wl, B=None):
    w = c.choose("wires", wl)
    p = leaf(c, g, "t", w)
    o = g.build(N, list(w), p)
    psi = c.state("z", N, batch=B)
    vs = c.sv(psi).reshape(-1, 2 ** N)
    W = c.cplx("m", vs.shape)
    if B is None:
        r = o.TN_contract(psi.view([2] * N)).reshape(1, -1)
    else:
        r = o.TN_contract(psi.view([B] + [2] * N), batch_mod=True).reshape(B, -1)
    L = (W * r).sum().real
    ws = c.sv(W)

    def f(x):
        pr = g.prog(c, list(w), list(x))
        s = None
        for k in range(len(vs)):
            t = lin(c, ws[k], prog_apply(c, pr, N, vs[k]))
            s = t if s is None else s + t
        return s
    claim(c, "gradient", grads(L, [p]), f, g.vals(c, p), names_of(g, "t", w))


def circ(c, N, names, route):
    cir, parts = build_circuit(c, CAT, N, names, grad=True)
    vals = values(c, parts)
    nm = [n for *_, ns in parts for n in ns]
    ps = [p for g, w, p, ns in parts if p is not None]
    psi = c.state("z", N)
    v0 = c.sv(psi).reshape(-1)
    if route == "expectation":
        M = c.tensor(hermitian(c, "m", 2 ** N)) if N == 1 else c.tensor(pauli(c, "ZXY"[:N]))
        L = cir.cir_expectation(psi, M, TN=False)
        Ms = c.sv(M)
        f = lambda x: real_part(expect(c, prog_apply(c, program(c, parts, x), N, v0), Ms))
        claim(c, "gradient", grads(L, ps), f, vals, nm)
    elif route == "measure":
        out = qm.measure(N, (cir.U() @ psi.view(-1, 1)).view(1, -1))
        for q in range(N):
            f = lambda x: zvec(c, N, q, prog_apply(c, program(c, parts, x), N, v0))
            claim(c, "wire%d" % q, grads_keep(out[q], ps), f, vals, nm)
    elif route == "contract":
        r = cir.TN_contract_evolution(psi.view([2] * N)).reshape(1, -1)
        L = qm.expval(r, c.tensor(pauli(c, "XZY"[:N])))
        f = lambda x: real_part(expect(c, prog_apply(c, program(c, parts, x), N, v0), pauli(c, "XZY"[:N])))
        claim(c, "gradient", grads(L, ps), f, vals, nm)


def grads_keep(L, ps):
    if not L.requires_grad:
        return [None] * len(ps)
    return list(torch.autograd.grad(L, ps, allow_unused=True, retain_graph=True))


def reduced(c, names, N, keep_out, old):
    """through the partial trace"""
    cir, parts = build_circuit(c, CAT, N, names, grad=True)
    vals = values(c, parts)
    nm = [n for *_, ns in parts for n in ns]
    ps = [p for g, w, p, ns in parts if p is not None]
    psi = cir.U() @ cir.state_init()
    rho = psi.view(-1, 1) @ psi.view(1, -1).conj()
    d = 2 ** (N - len(keep_out))
    W = c.cplx("m", (d, d))
    r = (qm.partial_trace_old if old else qm.partial_trace)(rho, N, list(keep_out))
    L = (W * r).sum().real
    ws = c.sv(W)
    kept = [q for q in range(N) if q not in keep_out]

    def f(x):
        v = prog_apply(c, program(c, parts, x), N, zero_state(c, N))
        s = None
        for i in range(2 ** N):
            for j in range(2 ** N):
                bi, bj = bits(i, N), bits(j, N)
                if any(bi[q] != bj[q] for q in keep_out):
                    continue
                a = sum(bi[q] << (len(kept) - 1 - k) for k, q in enumerate(kept))
                b = sum(bj[q] << (len(kept) - 1 - k) for k, q in enumerate(kept))
                t = ws[a, b] * v[i] * v[j].conjugate()
                s = t if s is None else s + t
        return real_part(s)
    claim(c, "gradient", grads(L, ps), f, vals, nm)


def matrix_side(c, N, out, old):
    """with respect to the matrix given to the partial trace, every wire included: the derivative of
    Re sum W tr_out(rho) with respect to rho is conj(W) on the entries that are summed"""
    r, _ = rho_in(c, N)
    d = 2 ** (N - len(out))
    W = c.cplx("w", (d, d))
    r = r.detach().clone().requires_grad_(True)
    t = (qm.partial_trace_old if old else qm.partial_trace)(r, N, list(out))
    L = (W * t.reshape(d, d)).sum().real
    g, = grads(L, [r])
    if g is None:
        c.true("gradient_reached", False)
        return
    ws = c.sv(W)
    kept = [q for q in range(N) if q not in out]
    want = np.empty((2 ** N, 2 ** N), object)
    for i in range(2 ** N):
        for j in range(2 ** N):
            bi, bj = bits(i, N), bits(j, N)
            a = sum(bi[q] << (len(kept) - 1 - k) for k, q in enumerate(kept))
            b = sum(bj[q] << (len(kept) - 1 - k) for k, q in enumerate(kept))
            want[i, j] = c.zero if any(bi[q] != bj[q] for q in out) else ws[a, b].conjugate()
    c.eq("gradient", g, want)


def leaf_side(c, N, what):
    """with respect to every entry of a state or observable (torch's convention: the derivative by the real
    part plus i times the one by the imaginary part)"""
    d = 2 ** N
    psi = c.state("z", N).detach().clone().requires_grad_(True)
    v = c.sv(psi).reshape(-1)
    M = c.cplx("m", (d, d)).detach().clone().requires_grad_(True)
    m = c.sv(M)
    if what == "expval":
        g, h = grads(qm.expval(psi, M).reshape(-1)[0], [psi, M])
        want = [matmul(m, v) + matmul(dag(m), v), np.array([[v[i] * v[j].conjugate() for j in range(d)] for i in range(d)], dtype=object)]
    elif what == "rho":
        a = rho_in(c, N)
        r = a[0].detach().clone().requires_grad_(True)
        g, h = grads(qm.expval(r, M, rho=True).reshape(-1)[0], [r, M])
        want = [dag(m), dag(a[1])]
    elif what == "measure":
        x = qm.measure(N, psi)
        w = c.real("w", (N,))
        g, = grads((w * x.reshape(-1)).sum(), [psi])
        ws = c.sv(w)
        z = [sum((-ws[q] if bits(i, N)[q] else ws[q] for q in range(1, N)), -ws[0] if bits(i, N)[0] else ws[0]) for i in range(d)]
        h, want = None, [np.array([(z[i] + z[i]) * v[i] for i in range(d)], dtype=object)]
    for k, (x, y) in enumerate(zip([g, h], want)):
        if x is None:
            c.true("gradient%d_reached" % k, False)
        else:
            c.eq("gradient%d" % k, c.sv(x).reshape(-1), y.reshape(-1))


def input_side(c, N, what):
    """derivatives with respect to a linear function's own input: they are the coefficients
    (a real factor on the state's or matrix's entries)"""
    a = c.angle("s", grad=True)
    nm = ["s"]
    v = c.sv(a)[()]
    psi = c.state("z", N)
    vs = c.sv(psi).reshape(-1)
    M = c.cplx("m", (2 ** N, 2 ** N))
    Ms = c.sv(M)
    rot_ = op.ry(a, N, N - 1).U_expand()
    rs = lambda x: prog_apply(c, [(ry(c, x), [N - 1])], N, vs)
    st_ = (rot_ @ psi.view(-1, 1)).view(1, -1)
    if what == "expval":
        L = qm.expval(st_, M)
        f = lambda x: real_part(expect(c, rs(x[0]), Ms))
    elif what == "observable":
        H = op.rx(a, N, 0).U_expand()
        L = qm.expval(psi, H)
        f = lambda x: real_part(expect(c, vs, prog_matrix(c, [(rx(c, x[0]), [0])], N)))
    elif what == "contract":
        o = op.cnot(N, [N - 1, 0]) if N > 1 else op.Hadamard(1, 0)
        W = c.cplx("w", (1, 2 ** N))
        L = (W * o.TN_contract(st_.view([2] * N)).reshape(1, -1)).sum().real
        ws = c.sv(W).reshape(-1)
        m, wr = (ctrl(c, X(c)), [N - 1, 0]) if N > 1 else (Hm(c), [0])
        f = lambda x: lin(c, ws, prog_apply(c, [(m, wr)], N, rs(x[0])))
    elif what == "dag":
        L = (M * qm.dag(rot_)).sum().real
        f = lambda x: lin(c, Ms.reshape(-1), dag(prog_matrix(c, [(ry(c, x[0]), [N - 1])], N)).reshape(-1))
    elif what == "kron":
        fac = [op.rx(a, 1, 0).U_expand()] + [op.Hadamard(1, 0).U_expand()] * (N - 2) + ([op.rz(a, 1, 0).U_expand()] if N > 1 else [])
        L = (M * qm.multi_kron(fac)).sum().real
        f = lambda x: lin(c, Ms.reshape(-1), kron(*([rx(c, x[0])] + [Hm(c)] * (N - 2) + ([rz(c, x[0])] if N > 1 else []))).reshape(-1))
    elif what == "inner":
        ts = mps(c, "A", [2] * (N - 1))
        us = mps(c, "B", [1] * (N - 1))
        u1_ = op.ry(a, N, 0).TN_operation(list(us))
        L = torch.real(tn.MPS_inner_product(u1_, ts))
        va, vb = mps_vec(c, us), mps_vec(c, ts)
        pick = lambda x: prog_apply(c, [(ry(c, x[0]), [0])], N, va)
        f = lambda x: real_part(inner(pick(x), vb))
    claim(c, "gradient", grads(L.reshape(-1)[0], [a]), f, [v], nm)


def repeated(c, N, names, times):
    """one parameter tensor used by several operations: its derivative is the sum over the uses"""
    p = c.angle("t", grad=True)
    cir = dq.Circuit(N)
    for nm, w in names:
        g = CAT[nm]
        g.add(cir, list(w), p if g.npar else None)
    psi = c.state("z", N)
    vs = c.sv(psi).reshape(-1)
    W = c.cplx("w", (2 ** N, 1))
    L = (W * (cir.U() @ psi.view(-1, 1))).sum().real
    ws = c.sv(W).reshape(-1)

    def f(x):
        prog = []
        for nm, w in names:
            g = CAT[nm]
            prog += g.prog(c, list(w), [x[0]] if g.npar else [])
        return lin(c, ws, prog_apply(c, prog, N, vs))
    for k in range(times):
        claim(c, "gradient%d" % k, grads_keep(L, [p]), f, [c.sv(p)[()]], ["t"])


def state_side(c, N, names):
    """with respect to the prepared state's own angle"""
    a = c.angle("s", grad=True)
    cir, parts = build_circuit(c, CAT, N, names)
    enc = dq.Circuit(N)
    enc.ry(a, N - 1)
    out = qm.measure(N, cir.U() @ enc.U() @ cir.state_init())
    vals = values(c, parts)
    for q in range(N):
        def f(x):
            return zvec(c, N, q, prog_apply(c, [(ry(c, x[0]), [N - 1])] + program(c, parts, vals), N, zero_state(c, N)))
        g = grads_keep(out[q], [a])
        claim(c, "wire%d" % q, g, f, [c.sv(a)[()]], ["s"])


C1 = [[("rx", [0]), ("rz", [0])], [("u3", [0])], [("Hadamard", [0]), ("u1", [0]), ("ry", [0])], [("XZLayer", [0])], [("YZYLayer", [0])]]
C2 = [[("rx", [0]), ("cnot", [0, 1])], [("ry", [0]), ("cphase", [1, 0]), ("Hadamard", [0])], [("rxx", [0, 1]), ("rz", [1])], [("XZLayer", [1, 0]), ("cz", [0, 1])],
      [("cu3", [1, 0])], [("ry", [1]), ("SWAP", [0, 1]), ("ring_of_cnot", [0, 1])], [("ryy", [1, 0]), ("rzz", [0, 1])]]
C2M = [[("Basic", [0, 1])], [("rx", [0]), ("mcx", [0, 1]), ("u1", [1])]]


def items(tier):
    deep = tier != "quick"
    out = []
    for nm, g in PAR.items():
        k = g.nw or (2 if nm == "Basic" else 1)
        for N in sorted({k, 2}) + ([3] if deep else []):
            wl = wire_lists(N, g.nw) if g.nw else (wire_lists(2, 2) if nm == "Basic" else subsets(N, 1, 2 if N < 3 else 1))
            if N == 3 and nm == "Basic":
                continue
            hows = ["built", "updated"] + (["adjoint", "doubled"] if g.dagger else [])
            for h in hows:
                if h == "doubled" and N == 2 and not g.nw:
                    continue
                for i in range(0, len(wl), 2):
                    out.append(Item("operator.%s.N%d.%s.%d" % (nm, N, h, i), operator, (g, N, wl[i:i + 2], h), timeout=150))
            if g.contract:
                for i in range(0, len(wl), 2):
                    out.append(Item("contract.%s.N%d.%d" % (nm, N, i), contracted, (g, N, wl[i:i + 2]), timeout=150))
                for B in (1, 2, 3):
                    out.append(Item("batch%d.%s.N%d" % (B, nm, N), contracted, (g, N, wl[-2:] if B == 1 else wl[:2], B), timeout=150))
    for k, s in enumerate(C1):
        for r in ("expectation", "measure", "contract"):
            out.append(Item("circuit1.%d.%s" % (k, r), circ, (1, s, r)))
    for k, s in enumerate(C2):
        for r in ("expectation", "measure", "contract"):
            out.append(Item("circuit2.%d.%s" % (k, r), circ, (2, s, r), timeout=200))
    for k, s in enumerate(C2M):
        for r in ("expectation", "measure"):
            out.append(Item("circuit2m.%d.%s" % (k, r), circ, (2, s, r), timeout=200))
    for k, (s, N, t) in enumerate([([("ry", [0]), ("cnot", [0, 1])], 2, [0]), ([("ry", [0]), ("cnot", [0, 1])], 2, [1]), ([("rx", [0]), ("rxx", [0, 1])], 2, [1]),
                                   ([("u3", [1]), ("cnot", [1, 0])], 2, [0]), ([("ry", [2]), ("cnot", [2, 0]), ("rx", [1])], 3, [1, 0])]):
        for old in (False, True):
            out.append(Item("reduced.%d.%s" % (k, "old" if old else "new"), reduced, (s, N, t, old)))
    for N in (1, 2, 3):
        for w in [[q] for q in range(N)] + ([list(range(N)), [1, 0]] if N > 1 else []) + ([[2, 0], [1, 2], [2, 0, 1]] if N > 2 else []):
            for old in (False, True):
                out.append(Item("matrix.N%d.%s.%s" % (N, "".join(map(str, w)), "old" if old else "new"), matrix_side, (N, w, old)))
        for wh in ("expval", "rho", "measure"):
            out.append(Item("leaf.%s.N%d" % (wh, N), leaf_side, (N, wh)))
    for N in (1, 2, 3):
        for wh in ("expval", "observable", "contract", "dag", "kron", "inner"):
            out.append(Item("input.%s.N%d" % (wh, N), input_side, (N, wh)))
    for k, (N, s) in enumerate([(1, [("rx", [0]), ("rz", [0]), ("rx", [0])]), (2, [("ry", [0]), ("cnot", [0, 1]), ("ry", [1])]), (2, [("cphase", [0, 1]), ("Hadamard", [0]), ("rxx", [1, 0])]),
                                (3, [("rx", [2]), ("cnot", [2, 0]), ("rx", [0])])]):
        out.append(Item("repeated.%d" % k, repeated, (N, s, 2)))
    three = [("rx", [2]), ("u3", [0]), ("cphase", [2, 0]), ("rxx", [0, 2]), ("rzz", [2, 1]), ("cu3", [0, 2]), ("XZLayer", [2, 0]), ("YZYLayer", [1])]
    for nm, w in three:
        g = CAT[nm]
        for h in ("built", "updated"):
            out.append(Item("operator3.%s.%s" % (nm, h), operator, (g, 3, [w], h), timeout=150))
        out.append(Item("contract3.%s" % nm, contracted, (g, 3, [w]), timeout=150))
        for B in (1, 2):
            out.append(Item("batch3.%s.B%d" % (nm, B), contracted, (g, 3, [w], B), timeout=150))
    for k, (N, s) in enumerate([(1, [("rx", [0])]), (2, [("cnot", [1, 0]), ("rx", [0])]), (2, [("cphase", [0, 1]), ("Hadamard", [1])])]):
        out.append(Item("data.%d" % k, state_side, (N, s)))
    return out
