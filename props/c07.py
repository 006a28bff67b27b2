"""C07: evolving a batch of states gives, for each sample, what evolving it alone gives."""
from .common import *

BOUNDS = "every operation with a contraction route, every ordered choice of wires, 1-3 wires (4 for gates on 2 wires), 4-5 wires selected; " \
         "batches of 1-5 arbitrary complex states and of as many as there are amplitudes or wires, all parameter values; circuits of 3-5 operations"


def pack(c, N, B):
    """B independent states as one tensor [B,2,...,2]"""
    psi = c.state("z", N, batch=B)
    return psi, c.sv(psi).reshape(B, -1)


def single(c, g, N, wl, Bs):
    w = c.choose("wires", wl)
    B = c.choose("batch", Bs)
    p = g.params(c, "t", w)
    psi, v = pack(c, N, B)
    o = g.build(N, list(w), p)
    r = o.TN_contract(psi.view([B] + [2] * N), batch_mod=True)
    c.true("shape", tuple(r.shape) == (B,) + (2,) * N)
    prog = g.spec(c, w, p)
    want = np.stack([prog_apply(c, prog, N, v[b]) for b in range(B)])
    c.eq("states", c.sv(r).reshape(B, -1), want)


def against_single(c, g, N, w, B):
    p = g.params(c, "t", w)
    psi, v = pack(c, N, B)
    o = g.build(N, list(w), p)
    r = c.sv(o.TN_contract(psi.view([B] + [2] * N), batch_mod=True)).reshape(B, -1)
    for b in range(B):
        one = o.TN_contract(psi[b].view([2] * N))
        c.eq("sample_%d" % b, r[b], c.sv(one).reshape(-1))


def circuit(c, N, names, B):
    cir = dq.Circuit(N)
    prog = []
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
        prog += g.spec(c, w, p)
    psi, v = pack(c, N, B)
    r = cir.TN_contract_evolution(psi.view([B] + [2] * N), batch_mod=True)
    c.eq("states", c.sv(r).reshape(B, -1), np.stack([prog_apply(c, prog, N, v[b]) for b in range(B)]))


def wrong_rank(c, N, names):
    """a batched tensor without the batch flag (or the other way round) is refused"""
    cir = dq.Circuit(N)
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        g.add(cir, list(w), g.params(c, "t%d" % k, w))
    psi, v = pack(c, N, 2)
    one = c.state("y", N)
    c.raises("batched_without_flag", lambda: cir.TN_contract_evolution(psi.view([2] + [2] * N)))
    c.raises("single_with_flag", lambda: cir.TN_contract_evolution(one.view([2] * N), batch_mod=True))


CAT = {**GATES, **LAYERS, **{k: v for k, v in RINGS.items() if v.contract}}
CIRCUITS = [
    (1, [("u3", [0]), ("rz", [0])]),
    (2, [("u3", [0]), ("cu3", [1, 0]), ("rxx", [0, 1]), ("u1", [1])]),
    (2, [("XYZLayer", [1, 0]), ("cphase", [1, 0]), ("SWAP", [1, 0])]),
    (3, [("Hadamard", [2]), ("cnot", [2, 0]), ("ryy", [1, 2]), ("rz", [0]), ("cz", [1, 0])]),
    (3, [("rx", [0]), ("toffoli", [2, 0, 1]), ("cphase", [0, 2]), ("ry", [1]), ("rzz", [2, 1])]),
    (3, [("HLayer", [2, 0]), ("ring_of_cnot", [0, 1, 2]), ("XZLayer", [1])]),
    (3, [("PauliY", [1]), ("ring_of_cnot_dagger", [0, 1, 2]), ("ZXLayer", [2, 0])]),
]


def items(tier):
    out = []
    deep = tier != "quick"
    Bs = [1, 2, 3, 4] if deep else [1, 2, 3]
    for nm, g in CAT.items():
        if nm in RINGS:
            out.append(Item("big.%s.N2" % nm, single, (g, 2, [[0, 1]], [4, 5])))
            out.append(Item("big.%s.N3" % nm, single, (g, 3, [[0, 1, 2]], [4, 8])))
            out.append(Item("far.%s.N5" % nm, single, (g, 5, [list(range(5))], [2, 5])))
            continue
        lo = g.nw or 1
        if lo == 1:
            out.append(Item("big.%s.N1" % nm, single, (g, 1, [[0]], [4, 5])))
        if lo < 3:
            out.append(Item("big.%s.N2" % nm, single, (g, 2, {1: [[1]], 2: [[0, 1], [1, 0]], None: [[1, 0]]}[g.nw], [4, 5])))
        out.append(Item("big.%s.N3" % nm, single, (g, 3, {1: [[1]], 2: [[2, 0]], 3: [[2, 0, 1]], None: [[2, 0]]}[g.nw], [4, 8])))
        out.append(Item("far.%s.N4" % nm, single, (g, 4, {1: [[3]], 2: [[3, 0]], 3: [[3, 0, 2]], None: [[3, 1]]}[g.nw], [3, 4])))
        out.append(Item("far.%s.N5" % nm, single, (g, 5, {1: [[4], [0]], 2: [[4, 1], [0, 4]], 3: [[4, 0, 2]], None: [[3, 1]]}[g.nw], [2])))
    for nm, g in CAT.items():
        top = 4 if nm in RINGS or g.nw in (2, 3) else 3
        for N in range(g.nw or (2 if nm in RINGS else 1), top + 1):
            if nm in RINGS:
                wl = [list(range(N))]
            elif g.nw:
                wl = wire_lists(N, g.nw)
            else:
                wl = subsets(N, 1, 3 if N < 3 or deep else 2)
            bs = Bs if N < 4 else [2]
            step = 4 if N < 4 else 8
            for k in range(0, len(wl), step):
                out.append(Item("op.%s.N%d.%d" % (nm, N, k), single, (g, N, wl[k:k + step], bs)))
        N = 3 if g.nw == 3 or not g.nw else 2
        w = {1: [1], 2: [1, 0], 3: [2, 0, 1], None: [1, 2] if nm in LAYERS else [0, 1, 2]}[g.nw]
        out.append(Item("samples.%s" % nm, against_single, (g, N, w, 2)))
    for k, (N, s) in enumerate(CIRCUITS):
        for B in ((1, 2, 3, 4) if N < 3 or deep else (2, 4)):
            out.append(Item("circuit.%d.B%d" % (k, B), circuit, (N, s, B)))
    for k in (1, 3):
        out.append(Item("rank.%d" % k, wrong_rank, CIRCUITS[k]))
    return out
