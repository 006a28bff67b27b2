"""C18: a density matrix survives its matrix-product form and tensor form."""
from .common import *
from .c11 import rho_in

BOUNDS = "arbitrary complex matrices of trace 1 on 1-2 wires, rank-one matrices of arbitrary unit vectors on 1-2 wires and products " \
         "of arbitrary one-wire matrices on 2 wires through the matrix-product form; arbitrary complex matrices on 1-4 wires through the tensor form; at most 1 (thorough 2) " \
         "rank-deficient decompositions per run; singular values up to 1e-8 count as zero"


def tensor_form(c, N):
    m = c.cplx("m", (2 ** N, 2 ** N))
    a = c.sv(m)
    t = tn.MatrixProductDensityOperator(m, N)
    c.true("shape", tuple(t.shape) == (2,) * (2 * N))
    o = c.sv(t)
    want = np.empty((2,) * (2 * N), object)
    for i in range(2 ** N):
        for j in range(2 ** N):
            want[tuple(bits(i, N) + bits(j, N))] = a[i, j]
    c.eq("entries", o, want)


def refused(c, N):
    m = c.cplx("m", (2 ** N, 2 ** N + 1))
    c.raises("mpdo_shape", lambda: tn.MatrixProductDensityOperator(m, N))
    c.raises("rho_shape", lambda: tn.Rho2MPS(m, N))
    v = c.cplx("v", (2 ** N,))
    c.raises("mpdo_rank", lambda: tn.MatrixProductDensityOperator(v, N))
    c.raises("rho_rank", lambda: tn.Rho2MPS(v, N))


def back(c, m, N):
    ts = tn.Rho2MPS(m, N)
    c.true("sites", len(ts) == N and all(tuple(t.shape[:2]) == (2, 2) for t in ts) and ts[0].shape[2] == 1 and ts[-1].shape[3] == 1
           and all(x.shape[3] == y.shape[2] for x, y in zip(ts, ts[1:])))
    return tn.MPS2Rho(ts)


def any_matrix(c, N):
    r, a = rho_in(c, N)
    c.eq("restored", back(c, r, N), a)


def pure(c, N):
    z = c.sv(c.state("z", N, normalized=True)).reshape(-1)
    d = 2 ** N
    a = np.empty((d, d), object)
    for i in range(d):
        for j in range(d):
            a[i, j] = z[i] * z[j].conjugate()
    c.eq("restored", back(c, c.tensor(a), N), a)


def prod(c, N):
    ms = [rho_in(c, 1, "r%d" % k)[1] for k in range(N)]
    a = kron(*ms)
    c.eq("restored", back(c, c.tensor(a), N), a)


def items(tier):
    deep = tier != "quick"
    out = []
    for N in (1, 2, 3, 4):
        out.append(Item("tensor.N%d" % N, tensor_form, (N,)))
        out.append(Item("refused.N%d" % N, refused, (N,)))
    out.append(Item("any.N1", any_matrix, (1,), svd_budget=2 if deep else 1))
    out.append(Item("pure.N1", pure, (1,), svd_budget=2 if deep else 1))
    out.append(Item("any.N2", any_matrix, (2,), svd_budget=2 if deep else 1))
    out.append(Item("pure.N2", pure, (2,), svd_budget=1))
    out.append(Item("prod.N2", prod, (2,), svd_budget=1))
    return out
