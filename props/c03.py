"""C03: a circuit's overall operator is the ordered product of its operations, whatever the
history of additions, and its bookkeeping stays in step."""
from .common import *

BOUNDS = "circuits of 2-3 operations over the whole catalogue on 3 wires (thorough: every ordered pair and 4-operation circuits), " \
         "all parameter values; histories of up to 6 additions and resets, every history of 3 steps from an alphabet of 14 and of 4 (thorough 5) steps from " \
         "one of 8 (operations, an object added again, clear) on 2 wires, of 3 from 9 on 3 wires; 1-4 wires for the initial state"

ALL = {**GATES, **LAYERS, **{k: v for k, v in RINGS.items()}, "Basic": basic_g(1), "mcx": MULTI["multi_control_cnot"]}
W = {1: [[0], [1], [2]], 2: [[0, 2], [2, 1], [1, 0]], 3: [[0, 2, 1], [2, 0, 1], [1, 2, 0]]}


def wires_for(g, k):
    nw = g.nw or (2 if g.name != "multi_control_cnot" else 3)
    return W[nw][k % 3]


def params_lists(g, c, name, w):
    return g.params(c, name, w)


def seq(c, gs, N=3, alt=None):
    """build through the circuit's methods; compare U, the reversed product and the tables"""
    if alt:
        gs = list(gs) + [c.choose("last", alt)]
    cir = dq.Circuit(N)
    prog, ps, spans = [], [], []
    for k, (nm, sh) in enumerate(gs):
        g = ALL[nm]
        w = wires_for(g, sh)
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
        spans.append(g.spec(c, w, p))
        prog += spans[-1]
        ps.append((g, w, p))
    c.eq("product", cir.U(), prog_matrix(c, prog, N))
    rev = [x for s in reversed(spans) for x in s]
    c.eq("right_to_left", cir.U(left_to_right=False), prog_matrix(c, rev, N))
    c.true("length", len(cir.gate) == len(gs))
    c.true("parameter_count", cir.cir_num_params == sum(g.np_(w) for g, w, p in ps))
    c.true("table_keys", sorted(cir.cir_params) == list(range(len(gs))))
    for k, (g, w, p) in enumerate(ps):
        if p is None:
            c.true("table_none%d" % k, cir.cir_params[k] is None)
        else:
            c.eq("table_params%d" % k, cir.cir_params[k], c.sv(p))


def add_vs_method(c, nm, sh):
    """adding an object and using the builder method give the same circuit"""
    g = ALL[nm]
    w = wires_for(g, sh)
    p = g.params(c, "t", w)
    a, b = dq.Circuit(3), dq.Circuit(3)
    a.add(g.build(3, list(w), p))
    g.add(b, list(w), p)
    c.eq("same_operator", a.U(), c.sv(b.U()))
    c.true("same_count", a.cir_num_params == b.cir_num_params and len(a.gate) == len(b.gate))
    c.true("kind", type(a.gate[0]).__name__ == type(b.gate[0]).__name__)
    i = a.gate[0].info()
    c.true("described_wires", sorted(list(i["contral_lst"]) + list(i["target_lst"]) if nm not in ("ring_of_cnot", "ring_of_cnot_dagger", "ring_of_cnot2")
                                     else list(w)) == sorted(w))
    if p is not None:
        c.eq("described_params", i["params"], c.sv(p))
    else:
        c.true("described_no_params", i["params"] is None)


def init_state(c, N):
    v = dq.Circuit(N).state_init()
    w = [c.one if i == 0 else c.zero for i in range(2 ** N)]
    c.eq("ground_state", v, np.array([c.num(x) for x in w], dtype=object))


def empty(c, N):
    cir = dq.Circuit(N)
    c.eq("identity", cir.U(), c.eye(2 ** N))
    c.true("no_params", cir.cir_num_params == 0)


def history(c, N, script):
    """additions, clear and re-use: the tables describe the gates present now"""
    cir = dq.Circuit(N)
    live = []
    for k, step in enumerate(script):
        if step == "clear":
            cir.clear()
            live = []
            continue
        if step == "U":
            cir.U()
            continue
        g = ALL[step]
        w = [x % N for x in wires_for(g, k)] if g.nw == 1 else wires_for(g, k)
        p = g.params(c, "t%d" % k, w)
        g.add(cir, list(w), p)
        live.append((g, w, p))
    prog = []
    for g, w, p in live:
        prog += g.spec(c, w, p)
    c.eq("product", cir.U(), prog_matrix(c, prog, N))
    c.true("parameter_count", cir.cir_num_params == sum(g.np_(w) for g, w, p in live))
    c.true("table_keys", sorted(cir.cir_params) == list(range(len(live))))


STEPS = [("rx", [0]), ("rz", [1]), ("cnot", [0, 1]), ("cnot", [1, 0]), ("cz", [0, 1]), ("SWAP", [1, 0]), ("Hadamard", [0]),
         ("ZXLayer", [1, 0]), ("ring_of_cnot", [0, 1]), ("HLayer", [0, 1]), ("cphase", [1, 0]), ("again", 0), ("again", 1), ("clear", None)]


def script(c, first, length, steps, N=2, via=None):
    """any sequence of `length` further steps from a small alphabet (an operation on given wires, an object added
    before added once more, clear): the operator and the tables describe what is there now"""
    cir = dq.Circuit(N)
    live = []
    for k in range(length + 1):
        nm, w = first if k == 0 else c.choose("step%d" % k, steps)
        if nm == "clear":
            cir.clear()
            live = []
        elif nm == "again":
            if len(live) > w:
                o = live[-1 - w]
                cir.add(o[3])
                live.append(o)
        else:
            g = ALL[nm]
            p = g.params(c, "t%d" % k, w)
            o = g.build(N, list(w), p)
            cir.add(o)
            live.append((g, w, p, o))
    prog = []
    for g, w, p, o in live:
        prog += g.spec(c, w, p)
    if via == "state":
        psi = c.state("z", N)
        r = cir.TN_contract_evolution(psi.view([2] * N))
        c.eq("state", c.sv(r).reshape(-1), prog_apply(c, prog, N, c.sv(psi).reshape(-1)))
        return
    c.eq("product", cir.U(), prog_matrix(c, prog, N))
    c.true("length", len(cir.gate) == len(live))
    c.true("parameter_count", cir.cir_num_params == sum(g.np_(w) for g, w, p, o in live))
    c.true("table_keys", sorted(cir.cir_params) == list(range(len(live))))
    for k, (g, w, p, o) in enumerate(live):
        if p is None:
            c.true("table_none", cir.cir_params[k] is None)
        else:
            c.eq("table_params", cir.cir_params[k], c.sv(p))


def two_circuits(c):
    """two circuits built side by side do not influence each other"""
    a, b = dq.Circuit(2), dq.Circuit(2)
    t = c.angles("t", 4)
    s = list(c.sv(t))
    a.rx(t[0], 0)
    b.ry(t[1], 1)
    a.cnot([0, 1])
    b.cz([1, 0])
    a.rz(t[2], 1)
    b.u1(t[3], 0)
    c.eq("first", a.U(), prog_matrix(c, [(rx(c, s[0]), [0]), (ctrl(c, X(c)), [0, 1]), (rz(c, s[2]), [1])], 2))
    c.eq("second", b.U(), prog_matrix(c, [(ry(c, s[1]), [1]), (ctrl(c, Z(c)), [1, 0]), (u1(c, s[3]), [0])], 2))
    c.true("counts", a.cir_num_params == 2 and b.cir_num_params == 2 and len(a.cir_params) == 3 and len(b.cir_params) == 3)


HIST = [["rx", "cnot", "clear", "ry", "cphase"], ["clear", "XZLayer", "clear", "clear", "u3", "toffoli"],
        ["cu3", "U", "rz", "U", "clear", "HLayer", "YZYLayer"], ["Hadamard", "clear"], ["rxx", "clear", "U", "rzz", "SWAP"]]


def items(tier):
    out = []
    deep = tier != "quick"
    names = list(ALL)
    for k, nm in enumerate(names):
        for sh in range(3 if deep else 2):
            out.append(Item("method.%s.%d" % (nm, sh), add_vs_method, (nm, sh + k)))
    small = [n for n in names if n not in ("XYZLayer", "ZYXLayer", "XZXLayer", "Basic", "YZYLayer")]
    for k, nm in enumerate(names):
        if deep:
            alt = [(x, j + k) for j, x in enumerate(names)]
        else:
            alt = [(x, j + k) for j, x in enumerate(names) if (j + k) % 3 == 0]
        for j in range(0, len(alt), 5):
            out.append(Item("pair.%s.%d" % (nm, j), seq, ([(nm, k)],), alt=alt[j:j + 5]))
    for k in range(0, len(small)):
        a, b, d = small[k], small[(k * 5 + 3) % len(small)], small[(k * 7 + 4) % len(small)]
        out.append(Item("triple.%d" % k, seq, ([(a, k), (b, k + 1), (d, k + 2)],)))
        if deep:
            e = small[(k * 11 + 2) % len(small)]
            out.append(Item("quad.%d" % k, seq, ([(d, k), (a, k + 2), (e, k + 1), (b, k)],), timeout=300))
    for N in (1, 2, 3, 4):
        out.append(Item("init.N%d" % N, init_state, (N,)))
        out.append(Item("empty.N%d" % N, empty, (N,)))
    for k, s in enumerate(STEPS[:-3]):
        out.append(Item("script2.%d" % k, script, (s, 2, STEPS), max_paths=400))
    short = [s for s in STEPS if s[0] in ("rx", "cnot", "SWAP", "Hadamard", "again", "clear")]
    for k, s in enumerate(short[:-3]):
        if deep:
            out.append(Item("script4.%d" % k, script, (s, 4, short), max_paths=6000, timeout=600))
        else:
            out.append(Item("script3.%d" % k, script, (s, 3, short), max_paths=600))
    three = [("cz", [2, 0]), ("toffoli", [0, 1, 2]), ("toffoli", [0, 2, 1]), ("mcx", [2, 1, 0]), ("ring_of_cnot", [0, 1, 2]),
             ("ring_of_cnot_dagger", [0, 1, 2]), ("cnot", [0, 2]), ("rxx", [0, 2]), ("again", 0)]
    for k, s in enumerate(three[:-1]):
        out.append(Item("script_three.%d" % k, script, (s, 2, three), N=3, max_paths=200))
    for k, h in enumerate(HIST):
        out.append(Item("history.%d" % k, history, (3, h)))
    out.append(Item("two_circuits", two_circuits))
    return out
