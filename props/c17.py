"""C17: classical data is encoded into the state or operator the encoding promises."""
from .common import *
from deepquantum.embeddings import qembedding as qe
from deepquantum.embeddings import qstate as qs

BOUNDS = "angle encoding: 1-3 wires (selected ones on 4 and 5), every ordered choice of 1-3 wires, 1-4 data values reused cyclically, all three axes, arbitrary states on its " \
         "other routes; amplitude encoding: 1-2^N arbitrary real or complex values (at least one of them away from 0) on 1-3 wires and 1-16 on 4; prepared vectors and " \
         "density matrices: 1-8 arbitrary values; gram encoding: 1 x 1-4 arbitrary real values with norm between 0.01 and 100 (trace: up to 2 values)"

ROT = {"X": rx, "Y": ry, "Z": rz}


def angle(c, N, k, wl, ax):
    w = c.choose("wires", wl)
    x = c.angles("x", k)
    v = c.sv(x)
    e = qe.PauliEncoding(N, x, list(w), ax)
    prog = [(ROT[ax](c, v[i % k]), [q]) for i, q in enumerate(w)]
    c.eq("operator", e.U_expand(), prog_matrix(c, prog, N))
    c.eq("data_kept", x, v)


def angle_default(c, N, w):
    x = c.angles("x", len(w))
    v = c.sv(x)
    c.eq("operator", qe.PauliEncoding(N, x, list(w)).U_expand(), prog_matrix(c, [(rx(c, v[i]), [q]) for i, q in enumerate(w)], N))


def angle_routes(c, N, k, w, ax):
    x = c.angles("x", k)
    v = c.sv(x)
    e = qe.PauliEncoding(N, x, list(w), ax)
    prog = [(ROT[ax](c, v[i % k]), [q]) for i, q in enumerate(w)]
    psi = c.state("z", N)
    want = prog_apply(c, prog, N, c.sv(psi).reshape(-1))
    c.eq("contract", c.sv(e.TN_contract(psi.view([2] * N))).reshape(-1), want)
    ts = mps(c, "a", [2] * (N - 1))
    v0 = mps_vec(c, ts)
    c.eq("mps", mps_vec(c, e.TN_operation(ts)), prog_apply(c, prog, N, v0))


def refused(c, N):
    x = c.angles("x", N + 1)
    c.raises("too_many_angles", lambda: qe.PauliEncoding(N, x, list(range(N))))
    y = c.real("y", (2 ** N + 1,))
    c.raises("too_many_amplitudes", lambda: qe.AmplitudeEncoding(N, y))
    z = c.angles("u", 1)
    c.raises("unknown_axis", lambda: qe.PauliEncoding(N, z, [0], "W").U_expand())


def norm2(c, v):
    s = None
    for a in v:
        t = a * a.conjugate()
        s = t if s is None else s + t
    return real_part(s)


def amplitude(c, N, k, cplx):
    x = c.cplx("x", (k,)) if cplx else c.real("x", (k,))
    v = c.sv(x)
    n2 = norm2(c, v)
    c.assume(c.gt(n2, 0.01))
    s = qe.AmplitudeEncoding(N, x).encoded_state()
    c.true("size", tuple(s.shape) == (2 ** N,) and s.is_complex())
    o = c.sv(s)
    r = c.sqrt(n2)
    c.eq("values", np.array([o[i] * r for i in range(k)], dtype=object), v)
    c.eq("padding", o[k:], np.array([c.zero] * (2 ** N - k), dtype=object))
    c.eq("unit", np.array([norm2(c, o)], dtype=object), np.array([c.one], dtype=object))
    c.eq("data_kept", x, v)


def start(c, N):
    e = qe.AmplitudeEncoding(N, c.real("x", (1,)))
    z = zero_state(c, N)
    c.eq("state0", e.state0, z)
    m = np.empty((2 ** N, 2 ** N), object)
    for i in range(2 ** N):
        for j in range(2 ** N):
            m[i, j] = z[i] * z[j]
    c.eq("rho0", e.rho0, m)


def prepared(c, k, cplx):
    x = c.cplx("x", (k,)) if cplx else c.real("x", (k,))
    v = c.sv(x)
    s = qs.PrepareState(c.pylist(x))
    c.eq("state", s, v)
    c.true("complex", s.is_complex())
    r = qs.PrepareRho(c.pylist(x))
    want = np.empty((k, k), object)
    for i in range(k):
        for j in range(k):
            want[i, j] = v[i] * v[j].conjugate()
    c.eq("density", r, want)


def gram(c, k):
    x = c.real("x", (1, k))
    v = c.sv(x)[0]
    n2 = norm2(c, v)
    c.assume(c.gt(n2, 0.0001))
    c.assume(c.gt(c.num(10000), n2))
    g = qe.gram_encoding(x)
    c.true("size", tuple(g.shape) == (k, k) and g.is_complex())
    o = c.sv(g)
    for i in range(k):
        for j in range(i, k):
            c.eq("hermitian_%d_%d" % (i, j), np.array([o[i, j]], dtype=object), np.array([o[j, i].conjugate()], dtype=object))
            c.eq("rank_one_%d_%d" % (i, j), np.array([o[i, j] * o[j, i]], dtype=object), np.array([o[i, i] * o[j, j]], dtype=object))
            c.eq("proportional_%d_%d" % (i, j), np.array([o[i, i] * v[j] * v[j]], dtype=object), np.array([o[j, j] * v[i] * v[i]], dtype=object))
    if k > 2:
        return
    tr = real_part(sum((o[i, i] for i in range(1, k)), o[0, 0]))
    c.ge0("trace_not_above_1", c.num(1.000001) - tr)
    c.ge0("trace_not_below_1", tr - c.num(0.999999))


def items(tier):
    deep = tier != "quick"
    out = []
    for ax in "XYZ":
        for N in (1, 2, 3):
            for k in range(1, N + 1):
                wl = subsets(N)
                for i in range(0, len(wl), 6):
                    out.append(Item("angle.%s.N%d.k%d.%d" % (ax, N, k, i), angle, (N, k, wl[i:i + 6], ax)))
        for k, (N, n, w) in enumerate([(1, 1, [0]), (2, 2, [1, 0]), (2, 1, [0, 1]), (3, 2, [2, 0, 1])]):
            out.append(Item("routes.%s.%d" % (ax, k), angle_routes, (N, n, w, ax)))
        for N, n, w in ((4, 4, [3, 1, 0, 2]), (4, 3, [3, 0]), (5, 2, [4, 0, 2]), (4, 2, [0, 1, 2, 3])):
            out.append(Item("angle.%s.N%d.%s" % (ax, N, "".join(map(str, w))), angle, (N, n, [w], ax)))
    for N in (1, 2, 3, 4):
        out.append(Item("default.N%d" % N, angle_default, (N, list(range(N)))))
        out.append(Item("refused.N%d" % N, refused, (N,)))
        out.append(Item("start.N%d" % N, start, (N,)))
        for k in range(1, 2 ** N + 1):
            for cp in (False, True):
                out.append(Item("amplitude.N%d.k%d.%s" % (N, k, "complex" if cp else "real"), amplitude, (N, k, cp)))
    for k in (1, 2, 4, 8):
        for cp in (False, True):
            out.append(Item("prepared.k%d.%s" % (k, "complex" if cp else "real"), prepared, (k, cp)))
    for k in (1, 2, 3) + ((4,) if deep else ()):
        out.append(Item("gram.k%d" % k, gram, (k,)))
    return out
