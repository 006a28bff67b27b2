"""C01: every gate's operator is its textbook unitary on the chosen wires."""
from .common import *

BOUNDS = "registers of 1-4 wires (thorough 5) with every ordered choice of distinct wires, 5 and 6 wires with selected ones, all " \
         "parameter values, each given as a tensor, as a Python number and as a list; multi-controlled NOT with up to 5 controls"


def gate(c, g, N, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    o = g.build(N, list(w), p)
    c.eq("operator", o.U_expand(), prog_matrix(c, g.spec(c, w, p), N))
    if hasattr(o, "matrix") and g.nw is not None:
        m = g.spec(c, list(range(g.nw)), p)
        c.eq("matrix", o.matrix, prog_matrix(c, m, g.nw))


def forms(c, g, N, w):
    """the parameters given as Python numbers, one-element tensors, lists and trainable tensors"""
    n = g.np_(w)
    p = c.angles("t", n)
    a = list(c.sv(p))
    want = prog_matrix(c, g.prog(c, list(w), a), N)
    if n == 1:
        kinds = [("number", c.pylist(p)[0]), ("scalar", p[0]), ("vector", p), ("trainable", c.angles("s", 1, grad=True)[0])]
    else:
        kinds = [("list", c.pylist(p)), ("tuple_of_tensors", [x for x in p]), ("trainable", c.angles("s", n, grad=True))]
    nm, q = c.choose("form", kinds)
    if nm == "trainable":
        want = prog_matrix(c, g.prog(c, list(w), list(c.sv(q).reshape(-1))), N)
    o = g.build(N, list(w), q)
    c.eq("operator", o.U_expand(), want)
    c.eq("again", o.U_expand(), want)


FAR = {1: {5: [[0], [2], [4]], 6: [[0], [3], [5]]}, 2: {5: [[0, 4], [4, 0], [1, 3], [3, 2]], 6: [[5, 0], [1, 4]]},
       3: {5: [[0, 2, 4], [4, 1, 0], [3, 4, 1]], 6: [[5, 0, 3]]}}


def items(tier):
    top = 4 if tier == "quick" else 5
    out = []
    for g in GATES.values():
        for N in range(g.nw, top + 1):
            wl = wire_lists(N, g.nw)
            for k in range(0, len(wl), 20):
                out.append(Item("%s.N%d%s" % (g.name, N, "" if len(wl) <= 20 else ".%d" % k), gate, (g, N, wl[k:k + 20])))
    g = MULTI["multi_control_cnot"]
    for N in range(2, top + 1):
        for k in range(2, N + 1):
            wl = wire_lists(N, k)
            if tier == "quick":
                wl = wl[:24]
            for j in range(0, len(wl), 24):
                out.append(Item("mcx.N%d.k%d.%d" % (N, k, j), gate, (g, N, wl[j:j + 24])))
    if tier == "quick":
        out.append(Item("mcx.N5", gate, (g, 5, [[0, 4], [3, 1, 4], [4, 0, 2, 1], [0, 1, 2, 3, 4], [4, 2, 0, 3, 1], [1, 3, 4, 0, 2]])))
    out.append(Item("mcx.N6", gate, (g, 6, [[0, 2, 5, 3, 1], [5, 4, 3, 2, 1, 0], [2, 0, 4, 1, 5, 3]])))
    for g in GATES.values():
        for N in (5, 6) if tier == "quick" else (6,):
            out.append(Item("far.%s.N%d" % (g.name, N), gate, (g, N, FAR[g.nw][N])))
        if g.npar:
            out.append(Item("forms.%s" % g.name, forms, (g, 2, {1: [1], 2: [1, 0]}[g.nw])))
    return out
