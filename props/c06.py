"""C06: contracting an operation into a state tensor gives the same state as its matrix."""
from .common import *

BOUNDS = "every operation with a contraction route, every ordered choice of wires, 1-4 wires (thorough 5 for gates; selected wires on 5 and 6), all parameter values and " \
         "arbitrary complex states (no normalisation assumed); circuits of 3-6 operations on 2-4 wires"


def single(c, g, N, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    psi = c.state("z", N)
    o = g.build(N, list(w), p)
    r = o.TN_contract(psi.view([2] * N))
    c.true("rank", tuple(r.shape) == (2,) * N)
    c.eq("state", c.sv(r).reshape(-1), prog_apply(c, g.spec(c, w, p), N, c.sv(psi).reshape(-1)))


def agree(c, g, N, wl):
    """the two routes of the code agree with each other (no specification involved)"""
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    psi = c.state("z", N)
    o = g.build(N, list(w), p)
    r = o.TN_contract(psi.view([2] * N)).reshape(-1)
    u = o.U_expand() @ psi.view(-1, 1)
    c.eq("same_state", c.sv(r).reshape(-1), c.sv(u).reshape(-1))


def circuit(c, N, names):
    cir = dq.Circuit(N)
    prog = []
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
        prog += g.spec(c, w, p)
    psi = c.state("z", N)
    before = c.sv(psi).reshape(-1)
    r = cir.TN_contract_evolution(psi.view([2] * N))
    c.eq("state", c.sv(r).reshape(-1), prog_apply(c, prog, N, before))
    c.eq("input_state_unchanged", c.sv(psi).reshape(-1), before)


def twice(c, N, names):
    """running the same circuit on two states, one after the other"""
    cir = dq.Circuit(N)
    prog = []
    for k, (nm, w) in enumerate(names):
        g = CAT[nm]
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
        prog += g.spec(c, w, p)
    for s in ("z", "y"):
        psi = c.state(s, N)
        r = cir.TN_contract_evolution(psi.view([2] * N))
        c.eq("state_" + s, c.sv(r).reshape(-1), prog_apply(c, prog, N, c.sv(psi).reshape(-1)))


def refuses(c, names):
    """a circuit with a part that has no contraction route is refused, not silently skipped"""
    N = 3
    cir = dq.Circuit(N)
    for k, (nm, w) in enumerate(names):
        g = ALL[nm]
        g.add(cir, list(w), g.params(c, "t%d" % k, w))
    psi = c.state("z", N)
    c.raises("refused", lambda: cir.TN_contract_evolution(psi.view([2] * N)))
    c.true("check_says_no", cir.TN_check() == False)


CAT = {**GATES, **LAYERS, **{k: v for k, v in RINGS.items() if v.contract}}
ALL = {**CAT, **RINGS, "Basic": basic_g(1), "mcx": MULTI["multi_control_cnot"]}
CIRCUITS = [
    (2, [("u3", [0]), ("cu3", [1, 0]), ("rxx", [0, 1]), ("u1", [1])]),
    (2, [("XYZLayer", [1, 0]), ("cphase", [1, 0]), ("SWAP", [1, 0])]),
    (3, [("Hadamard", [2]), ("cnot", [2, 0]), ("ryy", [1, 2]), ("rz", [0]), ("cz", [1, 0])]),
    (3, [("rx", [0]), ("toffoli", [2, 0, 1]), ("cphase", [0, 2]), ("ry", [1]), ("rzz", [2, 1])]),
    (3, [("HLayer", [2, 0]), ("ring_of_cnot", [0, 1, 2]), ("XZLayer", [1]), ("SWAP", [0, 2])]),
    (3, [("PauliY", [1]), ("ring_of_cnot_dagger", [0, 1, 2]), ("u3", [2]), ("PauliZ", [0]), ("PauliX", [2])]),
    (4, [("ry", [3]), ("cnot", [3, 1]), ("rxx", [0, 2]), ("cphase", [2, 1])]),
    (4, [("ZXLayer", [3, 1]), ("toffoli", [3, 0, 2]), ("SWAP", [1, 3])]),
    (4, [("rx", [2]), ("ring_of_cnot", [0, 1, 2, 3]), ("cz", [3, 0]), ("u1", [1])]),
]


FAR = {1: [[0], [4], [2]], 2: [[0, 4], [4, 0], [3, 1], [1, 2]], 3: [[4, 0, 2], [0, 2, 4], [2, 4, 1]], None: [[4, 1], [0, 3, 2]]}
FAR6 = {1: [[5]], 2: [[5, 0], [1, 4]], 3: [[5, 2, 0]], None: [[5, 0]]}


def items(tier):
    out = []
    deep = tier != "quick"
    for nm, g in CAT.items():
        if nm in RINGS:
            out.append(Item("far.%s.N5" % nm, single, (g, 5, [list(range(5))])))
            out.append(Item("far.%s.N6" % nm, single, (g, 6, [list(range(6))])))
        else:
            out.append(Item("far.%s.N5" % nm, single, (g, 5, FAR[g.nw])))
            out.append(Item("far.%s.N6" % nm, single, (g, 6, FAR6[g.nw])))
    for nm, g in CAT.items():
        for N in range(g.nw or (2 if nm in RINGS else 1), 6 if deep and g.nw else 5):
            if nm in RINGS:
                wl = [list(range(N))]
            elif g.nw:
                wl = wire_lists(N, g.nw)
            else:
                wl = subsets(N, 1, 3 if N < 4 else (2 if deep else 1))
            for k in range(0, len(wl), 6):
                out.append(Item("op.%s.N%d.%d" % (nm, N, k), single, (g, N, wl[k:k + 6])))
            if N in (2, 3):
                for k in range(0, len(wl), 6):
                    out.append(Item("agree.%s.N%d.%d" % (nm, N, k), agree, (g, N, wl[k:k + 6])))
    for k, (N, s) in enumerate(CIRCUITS):
        out.append(Item("circuit.%d" % k, circuit, (N, s)))
    for k in (1, 2, 4):
        out.append(Item("twice.%d" % k, twice, CIRCUITS[k]))
    for k, s in enumerate([[("Basic", [0, 1]), ("rx", [0])], [("rx", [2]), ("mcx", [0, 1, 2])], [("Hadamard", [0]), ("ring_of_cnot2", [0, 1, 2])]]):
        out.append(Item("refuse.%d" % k, refuses, (s,)))
    return out
