"""C20: the legacy full-matrix circuit implements the same gates and measurements."""
from .common import *
from .c12 import zrho
from .c11 import rho_in
from deepquantum.gates import qgate

BOUNDS = "every gate of the legacy circuit on 1-4 wires (selected ones 5), every wire choice (multi-controlled on 4: every fifth), all angles as tensors and four Python numbers; circuits of " \
         "up to 5 gates; arbitrary complex trace-1 matrices on 1-5 wires for measurements; wires from -N-1 to 2N+1 for refusals"

SIMPLE = {"H": ("Hadamard", Hm), "X": ("x_gate", X), "Y": ("y_gate", Y), "Z": ("z_gate", Z)}
ROT = {"rx": rx, "ry": ry, "rz": rz}
PP = {"rxx": "XX", "ryy": "YY", "rzz": "ZZ"}
CT = {"cnot": X, "cz": Z}


def put(c, cir, nm, w, a=None):
    """-> (matrix, wires)"""
    if nm in SIMPLE:
        getattr(cir, SIMPLE[nm][0])(w[0])
        return SIMPLE[nm][1](c), w
    if nm in ROT:
        getattr(cir, nm)(w[0], a)
        return ROT[nm](c, val(c, a)), w
    if nm in PP:
        getattr(cir, nm)(w[0], w[1], a)
        return rot(c, pauli(c, PP[nm]), val(c, a)), w
    if nm in CT:
        getattr(cir, nm)(w[0], w[1])
        return ctrl(c, CT[nm](c)), w
    cir.multi_control_cnot(list(w[:-1]), w[-1])
    return ctrl(c, X(c), len(w) - 1), w


def val(c, a):
    return c.num(a) if isinstance(a, (int, float)) else c.sv(a).reshape(-1)[0]


def nw(nm):
    return 1 if nm in SIMPLE or nm in ROT else 2


def single(c, nm, N, wl, number=False):
    w = c.choose("wires", wl)
    a = None
    if nm in ROT or nm in PP:
        a = c.choose("angle", [0, 1, -3, 0.5, 7.25]) if number else c.angle("t")
    cir = qgate.Circuit(N)
    m, ws = put(c, cir, nm, list(w), a)
    c.eq("operator", cir.U(), prog_matrix(c, [(m, ws)], N))
    if nm != "mcx":
        g = cir.gate_list
        c.true("recorded", len(g) == 1 and g[0]["gate"] == nm and g[0]["which_qubit"] == (ws[0] if nw(nm) == 1 else ws) and
               (g[0]["theta"] is a))


def neighbour(c, nm, N):
    w = c.choose("wire", list(range(N - 1)))
    a = c.angle("t")
    cir = qgate.Circuit(N)
    getattr(cir, nm)(w, None, a)
    c.eq("operator", cir.U(), prog_matrix(c, [(rot(c, pauli(c, PP[nm]), val(c, a)), [w, w + 1])], N))


def neighbour_refused(c, nm, N):
    """the second wire left out on the last wire (or beyond): there is no neighbour"""
    w = c.choose("wire", [N - 1, N, -1])
    a = c.angle("t")
    cir = qgate.Circuit(N)
    c.raises("refused", lambda: (getattr(cir, nm)(w, None, a), cir.U()))


def sequence(c, N, names):
    cir = qgate.Circuit(N)
    prog = []
    for k, (nm, w) in enumerate(names):
        prog.append(put(c, cir, nm, list(w), c.angle("t%d" % k) if nm in ROT or nm in PP else None))
    want = prog_matrix(c, prog, N)
    c.eq("operator", cir.U(), want)
    c.eq("again", cir.U(), want)
    cir.x_gate(N - 1)
    prog.append((X(c), [N - 1]))
    c.eq("extended", cir.U(), prog_matrix(c, prog, N))
    c.true("record", [g["gate"] for g in cir.gate_list] == [n for n, _ in names if n != "mcx"] + ["X"])


def same_as_current(c, N, names):
    """the legacy and the current circuit agree gate for gate"""
    old = qgate.Circuit(N)
    new = dq.Circuit(N)
    for k, (nm, w) in enumerate(names):
        a = c.angle("t%d" % k) if nm in ROT or nm in PP else None
        put(c, old, nm, list(w), a)
        if nm in SIMPLE:
            getattr(new, {"H": "Hadamard", "X": "PauliX", "Y": "PauliY", "Z": "PauliZ"}[nm])(w[0])
        elif nm in ROT:
            getattr(new, nm)(a, w[0])
        elif nm in PP:
            getattr(new, nm)(a, list(w))
        elif nm in CT:
            getattr(new, nm)(list(w))
        else:
            new.multi_control_cnot(list(w))
    c.eq("agree", old.U(), c.sv(new.U()))


def measured(c, N):
    r, a = rho_in(c, N)
    cir = qgate.Circuit(N)
    q = c.choose("wire", list(range(N)))
    c.eq("value", c.sv(cir.expecval_ZI(r, N, q)).reshape(-1), np.array([zrho(c, N, q, a)], dtype=object))


def measured_all(c, N):
    r, a = rho_in(c, N)
    m = qgate.Circuit(N).measure(r, N)
    c.true("shape", tuple(m.shape) == (N, 1))
    c.eq("values", c.sv(m).reshape(-1), np.array([zrho(c, N, q, a) for q in range(N)], dtype=object))


def refused(c, nm, N):
    bad = c.choose("bad", list(range(-N - 1, 0)) + list(range(N, 2 * N + 2)) + [None if nm not in PP else 0.5, 1.0, "0"])
    a = c.angle("t")
    cir = qgate.Circuit(N)
    if nw(nm) == 1:
        w = [bad]
    else:
        good = c.choose("good", list(range(N)))
        w = [good, bad] if c.choose("second", [True, False]) else [bad, good]
    c.raises("refused", lambda: (put(c, cir, nm, w, a), cir.U()))


def equal(c, nm, N):
    w = c.choose("wire", list(range(N)))
    a = c.angle("t")
    cir = qgate.Circuit(N)
    c.raises("refused", lambda: put(c, cir, nm, [w, w], a))


def mcx_refused(c, N):
    w = c.choose("wires", [[0, 0], [0, 1, 1], [1, 0, 1], [0, N], [N, 0], [-1, 0], [0, -1], [0, 1, N], [N, 1, 0], [0, -N, 1]])
    cir = qgate.Circuit(N)
    c.raises("refused", lambda: put(c, cir, "mcx", w))


SEQ = [(1, [("H", [0]), ("rx", [0]), ("Z", [0]), ("rz", [0]), ("Y", [0])]),
       (2, [("H", [0]), ("cnot", [0, 1]), ("ry", [1]), ("cz", [1, 0])]),
       (2, [("rxx", [0, 1]), ("Y", [1]), ("ryy", [1, 0])]),
       (3, [("rzz", [2, 0]), ("cnot", [2, 1]), ("rx", [0]), ("mcx", [0, 2, 1])]),
       (3, [("H", [1]), ("mcx", [1, 0]), ("cz", [0, 2]), ("rz", [2]), ("X", [0])]),
       (4, [("ry", [3]), ("cnot", [3, 0]), ("rzz", [1, 3]), ("mcx", [3, 1, 2])]), (4, [("H", [2]), ("rxx", [2, 0]), ("cz", [3, 1])])]


def items(tier):
    deep = tier != "quick"
    out = []
    for nm in list(SIMPLE) + list(ROT) + list(PP) + list(CT):
        for N in (1, 2, 3, 4):
            k = nw(nm)
            if N < k:
                continue
            wl = wire_lists(N, k)
            for i in range(0, len(wl), 3):
                out.append(Item("gate.%s.N%d.%d" % (nm, N, i), single, (nm, N, wl[i:i + 3])))
            if (nm in ROT or nm in PP) and N < 3:
                out.append(Item("number.%s.N%d" % (nm, N), single, (nm, N, wl[:2], True)))
            if nm in PP and N < 4:
                out.append(Item("neighbour.%s.N%d" % (nm, N), neighbour, (nm, N)))
            if nm in PP:
                out.append(Item("neighbour_refused.%s.N%d" % (nm, N), neighbour_refused, (nm, N)))
            if N < 4:
                out.append(Item("refused.%s.N%d" % (nm, N), refused, (nm, N)))
                if k == 2:
                    out.append(Item("equal.%s.N%d" % (nm, N), equal, (nm, N)))
    for nm, N, w in (("H", 5, [4]), ("X", 5, [2]), ("Y", 5, [3]), ("Z", 5, [0]), ("rx", 5, [4]), ("ry", 5, [1]), ("rz", 5, [3]), ("rxx", 5, [4, 0]), ("ryy", 5, [1, 4]),
                     ("rzz", 5, [3, 1]), ("cnot", 5, [4, 0]), ("cz", 5, [0, 4]), ("cnot", 5, [1, 3]), ("mcx", 5, [0, 2, 4, 1])):
        out.append(Item("far.%s.N5.%s" % (nm, "".join(map(str, w))), single, (nm, N, [w])))
    for N in (2, 3, 4):
        wl = subsets(N, 2)
        if N == 4 and not deep:
            wl = [w for w in wl if len(w) > 2][::5]
        for i in range(0, len(wl), 6):
            out.append(Item("mcx.N%d.%d" % (N, i), single, ("mcx", N, wl[i:i + 6])))
        out.append(Item("mcx.refused.N%d" % N, mcx_refused, (N,)))
    for k, (N, s) in enumerate(SEQ):
        out.append(Item("sequence.%d" % k, sequence, (N, s)))
        out.append(Item("agree.%d" % k, same_as_current, (N, s)))
    for N in (1, 2, 3, 4, 5):
        out.append(Item("expectation.N%d" % N, measured, (N,)))
        out.append(Item("measure.N%d" % N, measured_all, (N,)))
    return out
