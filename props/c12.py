"""C12: measured expectation values are those of the state given."""
from .common import *

BOUNDS = "arbitrary complex state vectors and arbitrary complex trace-1 matrices on 1-4 wires (vectors: 5), arbitrary complex 2^N x 2^N " \
         "observables for N <= 3, Pauli-Z on every wire, every single wire and every ordered selection of wires (4 wires: up to 2 of them; 5: selected ones); traces away from 1 by more than 2e-4 in either direction"
from .c11 import rho_in


def re_(x):
    return x.real() if isinstance(x, P) else x.real


def trace(a):
    return sum((a[i, i] for i in range(1, a.shape[0])), a[0, 0])


def zvec(c, N, q, v):
    s = None
    for i in range(2 ** N):
        t = inner([v[i]], [v[i]])
        t = -t if bits(i, N)[q] else t
        s = t if s is None else s + t
    return s


def zrho(c, N, q, a):
    s = None
    for i in range(2 ** N):
        t = -a[i, i] if bits(i, N)[q] else a[i, i]
        s = t if s is None else s + t
    return re_(s)


def ex_vec(c, N, shape):
    psi = c.state("z", N)
    M = c.cplx("m", (2 ** N, 2 ** N))
    x = psi.view(-1) if shape == "flat" else (psi if shape == "row" else psi.view(-1, 1))
    e = qm.expval(x, M)
    c.eq("value", c.sv(e).reshape(-1), np.array([re_(expect(c, c.sv(psi).reshape(-1), c.sv(M)))], dtype=object))


def ex_rho(c, N):
    r, a = rho_in(c, N)
    M = c.cplx("m", (2 ** N, 2 ** N))
    e = qm.expval(r, M, rho=True)
    c.eq("value", c.sv(e).reshape(-1), np.array([re_(trace(matmul(a, c.sv(M))))], dtype=object))


def pure_agrees(c, N):
    """a state vector and its density matrix give the same value"""
    psi = c.state("z", N, normalized=True) if N == 1 else unit_state(c, N)
    v = c.sv(psi).reshape(-1)
    M = c.cplx("m", (2 ** N, 2 ** N))
    d = 2 ** N
    a = np.empty((d, d), object)
    for i in range(d):
        for j in range(d):
            a[i, j] = v[i] * (v[j].conjugate())
    c.eq("agree", c.sv(qm.expval(psi, M)).reshape(-1), c.sv(qm.expval(c.tensor(a), M, rho=True)).reshape(-1))


def unit_state(c, N):
    return c.state("z", N, normalized=True)


def sel(c, N, choices):
    s = c.choose("wires", choices)
    return s, (list(range(N)) if s is None else [s] if isinstance(s, int) else list(s))


def me_vec(c, N, choices, shape):
    psi = c.state("z", N)
    v = c.sv(psi).reshape(-1)
    s, ws = sel(c, N, choices)
    x = psi.view(-1) if shape == "flat" else psi
    r = qm.measure(N, x, **({} if s is None else {"ith": s}))
    c.true("count", tuple(r.shape) == (len(ws),))
    c.eq("values", r, np.array([zvec(c, N, q, v) for q in ws], dtype=object))


def me_rho(c, N, choices):
    r_, a = rho_in(c, N)
    s, ws = sel(c, N, choices)
    r = qm.measure(N, r_, **({} if s is None else {"ith": s}))
    c.true("count", tuple(r.shape) == (len(ws),))
    c.eq("values", r, np.array([zrho(c, N, q, a) for q in ws], dtype=object))
    c.eq("input_unchanged", c.sv(r_), a)


def bounded(c, N):
    """for a normalised state every value lies in [-1, 1]"""
    psi = c.state("z", N, normalized=True)
    r = c.sv(qm.measure(N, psi))
    for q in range(N):
        c.ge0("upper_%d" % q, c.one - r[q])
        c.ge0("lower_%d" % q, c.one + r[q])


def after_circuit(c, N, names):
    """the values of the state a circuit prepares"""
    cir = dq.Circuit(N)
    prog = []
    for k, (nm, w) in enumerate(names):
        g = GATES[nm]
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
        prog += g.spec(c, w, p)
    st_ = cir.U() @ cir.state_init()
    v = prog_apply(c, prog, N, np.array([c.one] + [c.zero] * (2 ** N - 1), dtype=object))
    c.eq("values", qm.measure(N, st_), np.array([zvec(c, N, q, v) for q in range(N)], dtype=object))


def rejects(c, N):
    x = c.real("x")
    d = 2 ** N
    a = np.empty((d, d), object)
    for i in range(d):
        for j in range(d):
            a[i, j] = c.zero
    a[0, 0] = c.sv(x)[()]
    r = c.tensor(a)
    side = c.choose("side", ["high", "low"])
    dev = a[0, 0] - c.one
    c.assume(c.gt(dev if side == "high" else -dev, 0.0002))
    M = c.cplx("m", (d, d))
    c.raises("refused", lambda: qm.expval(r, M, rho=True))
    c.raises("refused_measure", lambda: qm.measure(N, r))


def rejects_any(c, N, part, sign):
    """arbitrary complex entries with a trace away from 1 in one direction"""
    r = c.cplx("r", (2 ** N, 2 ** N))
    t = trace(c.sv(r)) - c.one
    d = re_(t) if part == "real" else re_(-t * c.I)
    c.assume(c.gt(d if sign > 0 else -d, 0.0002))
    M = c.cplx("m", (2 ** N, 2 ** N))
    c.raises("refused", lambda: qm.expval(r, M, rho=True))
    c.raises("refused_measure", lambda: qm.measure(N, r))


def items(tier):
    out = []
    deep = tier != "quick"
    for N in (1, 2, 3):
        for part in ("real", "imag"):
            for sg in (1, -1):
                out.append(Item("rejects_any.N%d.%s.%s" % (N, part, "above" if sg > 0 else "below"), rejects_any, (N, part, sg)))
    for N in (4, 5):
        out.append(Item("measure.vector.N%d.far" % N, me_vec, (N, [N - 1, 0, [N - 1, 0], [1, N - 1]], "row")))
    for N in (1, 2, 3):
        for sh in ("flat", "row", "column"):
            out.append(Item("expval.vector.N%d.%s" % (N, sh), ex_vec, (N, sh)))
        out.append(Item("expval.rho.N%d" % N, ex_rho, (N,)))
        if N < 3:
            out.append(Item("pure.N%d" % N, pure_agrees, (N,)))
        out.append(Item("rejects.N%d" % N, rejects, (N,)))
    for N in (1, 2, 3, 4):
        ch = [None] + list(range(N)) + [list(p) for p in subsets(N, 1, N if N < 4 else 2)]
        for sh in ("flat", "row"):
            out.append(Item("measure.vector.N%d.%s" % (N, sh), me_vec, (N, ch, sh)))
        out.append(Item("measure.rho.N%d" % N, me_rho, (N, ch)))
    out.append(Item("bounded.N1", bounded, (1,)))
    out.append(Item("bounded.N2", bounded, (2,)))
    for k, (N, s) in enumerate([(1, [("rx", [0]), ("rz", [0])]), (2, [("ry", [0]), ("cnot", [0, 1])]), (2, [("u3", [1]), ("cphase", [1, 0])]),
                                (3, [("rx", [2]), ("cnot", [2, 0]), ("ry", [1])])]):
        out.append(Item("circuit.%d" % k, after_circuit, (N, s)))
    return out
