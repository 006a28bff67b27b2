"""Plain numpy reference used by the demonstrations (independent of the code under test)."""
import sys
import numpy as np
import torch
import deepquantum as dq

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]])
Z = np.diag([1, -1]).astype(complex)
H = np.array([[1, 1], [1, -1]]) / np.sqrt(2) + 0j
RX = lambda t: np.cos(t / 2) * I2 - 1j * np.sin(t / 2) * X
RY = lambda t: np.cos(t / 2) * I2 - 1j * np.sin(t / 2) * Y
RZ = lambda t: np.cos(t / 2) * I2 - 1j * np.sin(t / 2) * Z
U1 = lambda t: np.diag([1, np.exp(1j * t)])
U3 = lambda a, b, c: RZ(b) @ RX(-np.pi / 2) @ RZ(a) @ RX(np.pi / 2) @ RZ(c)
SW = np.eye(4)[[0, 2, 1, 3]] + 0j


def ctrl(u, k=1):
    n = u.shape[0]
    m = np.eye(n * 2 ** k, dtype=complex)
    m[-n:, -n:] = u
    return m


def on(m, wires, N):
    """operator m on the given wires (first one most significant) of N"""
    k = len(wires)
    rest = [w for w in range(N) if w not in wires]
    t = np.kron(m, np.eye(2 ** (N - k))).reshape([2] * (2 * N))
    order = list(wires) + rest
    inv = [order.index(w) for w in range(N)]
    return t.transpose(inv + [N + i for i in inv]).reshape(2 ** N, 2 ** N)


def ring(wires, N, step=1):
    L = len(wires)
    u = np.eye(2 ** N, dtype=complex)
    if L == 2:
        return on(ctrl(X), wires, N)
    for i in range(L):
        u = on(ctrl(X), [wires[i], wires[(i + step) % L]], N) @ u
    return u


def state(N, seed=0, B=None):
    g = np.random.default_rng(seed)
    v = g.normal(size=(B or 1, 2 ** N)) + 1j * g.normal(size=(B or 1, 2 ** N))
    v /= np.linalg.norm(v, axis=1, keepdims=True)
    return torch.tensor(v, dtype=torch.complex64), v


def rho(N, seed=0):
    g = np.random.default_rng(seed)
    a = g.normal(size=(2 ** N, 2 ** N)) + 1j * g.normal(size=(2 ** N, 2 ** N))
    r = a @ a.conj().T
    r /= np.trace(r)
    return torch.tensor(r, dtype=torch.complex64), r


def npy(t):
    return t.detach().numpy() if isinstance(t, torch.Tensor) else np.asarray(t)


def same(got, want, what, tol=2e-4):
    got, want = npy(got), npy(want)
    if got.shape != want.shape:
        got = got.reshape(want.shape) if got.size == want.size else got
    if got.shape != want.shape or not np.allclose(got, want, atol=tol):
        print("DIFFERENT:", what)
        print(got)
        print(want)
        sys.exit(1)


def check(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)


def refused(f, what):
    try:
        f()
    except Exception:
        return
    print("NOT REFUSED:", what)
    sys.exit(1)


def T(*v):
    return torch.tensor([float(x) for x in v])


def F(x, **k):
    return torch.tensor(float(x), **k)
