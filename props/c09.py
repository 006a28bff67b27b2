"""C09: converting between a state vector, its matrix-product form and its tensor form loses nothing."""
from .common import *

BOUNDS = "arbitrary complex state vectors of 1-6 wires (tensor form: 7; no normalisation), arbitrary site tensors with bond dimensions 1-4 on 1-7 wires, " \
         "arbitrary two- and three-site tensors with outer bonds 1-3; at most 2 (4 wires: 1, thorough 3; above: 0) rank-deficient decompositions " \
         "per run; singular values up to 1e-8 count as zero"


def to_mps(c, N):
    psi = c.state("z", N)
    v = c.sv(psi).reshape(-1)
    ts = tn.StateVec2MPS(psi, N)
    c.true("well_formed", len(ts) == N and well_formed(ts))
    c.true("bonds_bounded", all(ts[i].shape[2] <= min(2 ** (i + 1), 2 ** (N - 1 - i)) for i in range(N - 1)))
    c.eq("state", mps_vec(c, ts), v)
    c.eq("input_unchanged", c.sv(psi).reshape(-1), v)


def round_trip(c, N):
    psi = c.state("z", N)
    r = tn.MPS2StateVec(tn.StateVec2MPS(psi, N))
    c.eq("state", c.sv(r), c.sv(psi))


def from_mps(c, bonds):
    ts = mps(c, "A", bonds)
    N = len(ts)
    v = mps_vec(c, ts)
    r = tn.MPS2StateVec(ts)
    c.true("row", tuple(r.shape) == (1, 2 ** N))
    c.eq("amplitudes", c.sv(r).reshape(-1), v)
    c.eq("amplitudes_flag", c.sv(tn.MPS2StateVec(ts, True)).reshape(-1), v)
    t = tn.MPS2StateVec(ts, return_sv=False)
    c.true("tensor_rank", tuple(t.shape) == (2,) * N)
    c.eq("tensor", c.sv(t).reshape(-1), v)


def as_tensor(c, N):
    psi = c.state("z", N)
    t = tn.MatrixProductState(psi, N)
    a = c.sv(t)
    v = c.sv(psi).reshape(-1)
    c.true("rank", tuple(t.shape) == (2,) * N)
    for i in range(2 ** N):
        c.eq("amplitude", a[tuple(bits(i, N))], v[i])


def two(c, l, r):
    t = c.cplx("T", (2, 2, l, r))
    a, b = tn.TensorDecompAfterTwoQbitGate(t)
    A, B, T = c.sv(a), c.sv(b), c.sv(t)
    c.true("shape", A.shape[:2] == (2, l) and B.shape[::2] == (2, r) and A.shape[2] == B.shape[1] and A.shape[2] <= 2 * min(l, r))
    got = np.empty((2, 2, l, r), object)
    for i in range(2):
        for j in range(2):
            got[i, j] = matmul(A[i], B[j])
    c.eq("recomposed", got, T)


def three(c, l, r):
    t = c.cplx("T", (2, 2, 2, l, r))
    p = tn.TensorDecompAfterThreeQbitGate(t)
    c.true("pieces", len(p) == 3)
    A, B, C = [c.sv(x) for x in p]
    c.true("shape", A.shape[:2] == (2, l) and A.shape[2] == B.shape[1] and B.shape[2] == C.shape[1] and C.shape[::2] == (2, r))
    got = np.empty((2, 2, 2, l, r), object)
    for i in range(2):
        for j in range(2):
            for k in range(2):
                got[i, j, k] = mm(A[i], B[j], C[k])
    c.eq("recomposed", got, c.sv(t))


def rejects(c, N):
    """a state of the wrong shape is refused"""
    good = c.cplx("z", (1, 2 ** N))
    bad = c.choose("shape", [(2 ** N,), (2 ** N, 1), (1, 2 ** N + 1), (1, 2 ** N - 1), (2, 2 ** N), (1, 1, 2 ** N)])
    if bad == (2 ** N,):
        x = good.reshape(-1)
    else:
        x = c.cplx("y", bad)
    c.raises("statevec2mps", lambda: tn.StateVec2MPS(x, N))
    c.raises("tensor_form", lambda: tn.MatrixProductState(x, N))


def items(tier):
    deep = tier != "quick"
    out = []
    for N in (5, 6):
        out.append(Item("to_mps.N%d" % N, to_mps, (N,), svd_budget=0, timeout=300))
    for N in (1, 2, 3, 4):
        bud = {1: 0, 2: 1, 3: 2, 4: 3 if deep else 1}[N]
        out.append(Item("to_mps.N%d" % N, to_mps, (N,), svd_budget=bud))
        out.append(Item("round_trip.N%d" % N, round_trip, (N,), svd_budget=bud))
        out.append(Item("tensor_form.N%d" % N, as_tensor, (N,)))
        out.append(Item("rejects.N%d" % N, rejects, (N,)))
    for N in (5, 6, 7):
        out.append(Item("tensor_form.N%d" % N, as_tensor, (N,)))
    for N in (5, 6):
        out.append(Item("round_trip.N%d" % N, round_trip, (N,), svd_budget=0, timeout=300))
    for b in [[], [1], [2], [3], [1, 1], [2, 1], [1, 2], [2, 2], [3, 2], [2, 3], [1, 1, 1], [2, 2, 2], [1, 2, 1], [2, 1, 2], [2, 3, 2], [2, 2, 2, 2], [3, 3], [1, 2, 3, 2], [2, 4, 2], [2, 2, 2, 2, 2], [1, 1, 2, 1, 1], [2] * 6]:
        out.append(Item("from_mps.%s" % ("".join(map(str, b)) or "one"), from_mps, (b,)))
    for l in (1, 2, 3):
        for r in (1, 2, 3):
            if l * r <= 9:
                out.append(Item("two_sites.%d%d" % (l, r), two, (l, r), svd_budget=1))
    for l in (1, 2, 3):
        for r in (1, 2, 3):
            out.append(Item("three_sites.%d%d" % (l, r), three, (l, r), svd_budget=2 if l * r < 4 else 1))
    return out
