"""C02: rotation layers, entangling rings and the entangling block have the operator their
definition gives, for any wires and parameters."""
from .common import *

BOUNDS = "registers of 1-3 wires (4 with at most 2 selected rotation wires, rings on all of 4; thorough: rings on 5, layers on 4 of 4 " \
         "with 2 angles), selected wires on 5 and 6, every ordered selection of wires, all parameter values; entangling block repeated 1-2 times (thorough 3), 3-4 times with the angles of one repetition arbitrary and 0 in the others"


def lay(c, g, N, wl):
    w = c.choose("wires", wl)
    p = g.params(c, "t", w)
    o = g.build(N, list(w), p)
    c.eq("operator", o.U_expand(), prog_matrix(c, g.spec(c, w, p), N))


def lay_list(c, g, N, w):
    """parameters given as a plain list of numbers"""
    p = c.angles("t", g.np_(w))
    a = c.sv(p)
    o = g.build(N, list(w), c.pylist(p))
    c.eq("operator", o.U_expand(), prog_matrix(c, g.prog(c, list(w), list(a)), N))


def slices(c, rep, N, w):
    """the entangling block repeated several times, the angles of one repetition (any one) arbitrary, the others 0"""
    k = 3 * len(w)
    r = c.choose("repetition", range(rep))
    t = c.angles("t", k)
    z = c.tensor([0] * k, torch.float32)
    p = torch.cat([t if i == r else z for i in range(rep)])
    a = [c.zero] * (k * r) + list(c.sv(t)) + [c.zero] * (k * (rep - r - 1))
    o = ql.BasicEntangleLayer(N, list(w), p, rep)
    c.eq("operator", o.U_expand(), prog_matrix(c, basic(rep)(c, list(w), a), N))


def mk(out, tag, g, N, wl, step=12, **kw):
    for k in range(0, len(wl), step):
        out.append(Item("%s.N%d.%s%s" % (g.name if not tag.startswith("r") else "Basic", N, tag, "" if len(wl) <= step else "_%d" % k), lay, (g, N, wl[k:k + step]), **kw))


def items(tier):
    out = []
    deep = tier != "quick"
    for g in LAYERS.values():
        for N in (1, 2):
            mk(out, "all", g, N, subsets(N))
        mk(out, "k12", g, 3, subsets(3, 1, 2), 5)
        for w in wire_lists(3, 3):
            out.append(Item("%s.N3.%s" % (g.name, "".join(map(str, w))), lay, (g, 3, [w])))
        mk(out, "k12", g, 4, subsets(4, 1, 1) + (wire_lists(4, 2) if deep else [[0, 3], [3, 1], [2, 1]]), 4)
        if deep and g.name in ("XZLayer", "ZXLayer", "HLayer"):
            mk(out, "k34", g, 4, [[0, 1, 2, 3], [3, 1, 0, 2], [2, 0, 3], [1, 3, 0]], 1)
    for g in LAYERS.values():
        if g.npar != 0:
            out.append(Item("%s.list" % g.name, lay_list, (g, 2, [1, 0])))
    for g in RINGS.values():
        for N in (2, 3, 4) + ((5,) if deep else ()):
            wl = subsets(N, 2, N)
            if N == 5:
                wl = [w for w in wl if len(w) == 2 or w[0] == 0][:200]
            mk(out, "all", g, N, wl, 20)
    for g in LAYERS.values():
        mk(out, "far", g, 5, [[4], [1, 3], [4, 0]], 3)
    for g in RINGS.values():
        mk(out, "five", g, 5, [[0, 1, 2, 3, 4], [4, 2, 0], [3, 0, 4, 1], [2, 4, 1, 0, 3]], 4)
        mk(out, "six", g, 6, [[0, 1, 2, 3, 4, 5], [5, 3, 1], [0, 2, 5, 4, 3, 1]], 4)
    for r in (3, 4):
        out.append(Item("Basic.slices%d.N2" % r, slices, (r, 2, [1, 0])))
        out.append(Item("Basic.slices%d.N3" % r, slices, (r, 3, [2, 0])))
    for r in (1, 2) + ((3,) if deep else ()):
        g = basic_g(r)
        mk(out, "r%d" % r, g, 2, wire_lists(2, 2) if r < 3 else [[0, 1]], 1, timeout=150)
    mk(out, "r1", basic_g(1), 3, subsets(3, 2, 2) + [[0, 1, 2], [2, 0, 1]] + (wire_lists(3, 3)[1:] if deep else []), 1, timeout=150)
    mk(out, "r2", basic_g(2), 3, [[0, 2], [2, 1]], 1, timeout=150)
    mk(out, "r1", basic_g(1), 4, [[3, 1], [0, 2]], 1, timeout=150)
    return out
