"""C11: tracing out wires gives the textbook reduced density matrix."""
from .common import *

BOUNDS = "arbitrary complex matrices of trace 1 (not only states) on 1-4 wires (5: single wires and selected subsets), every subset of wires in every order up to " \
         "3 wires and every subset on 4; the block form on every split of 1-4 wires; trace deviations of any size"


def rho_in(c, N, name="r", unit=True):
    d = 2 ** N
    a = c.sv(c.cplx(name, (d, d)))
    if unit:
        a[d - 1, d - 1] = c.one - sum((a[i, i] for i in range(1, d - 1)), a[0, 0])
    return c.tensor(a), a


def reduced(c, a, N, traced):
    keep = [q for q in range(N) if q not in traced]
    k = len(keep)
    out = np.empty((2 ** k, 2 ** k), object)
    for i in range(2 ** k):
        for j in range(2 ** k):
            s = None
            for t in range(2 ** len(traced)):
                bi, bj, bt = [0] * N, [0] * N, bits(t, len(traced)) if traced else []
                for x, q in enumerate(keep):
                    bi[q], bj[q] = bits(i, k)[x], bits(j, k)[x]
                for x, q in enumerate(traced):
                    bi[q] = bj[q] = bt[x]
                v = a[int("".join(map(str, bi)), 2), int("".join(map(str, bj)), 2)]
                s = v if s is None else s + v
            out[i, j] = s
    return out


def trace_out(c, N, lists, which):
    f = {"new": qm.partial_trace, "old": qm.partial_trace_old}[which]
    lst = c.choose("traced", lists)
    r, a = rho_in(c, N)
    given = list(lst)
    out = f(r, N, given)
    c.eq("reduced", out, reduced(c, a, N, list(lst)))
    c.true("caller_list_unchanged", given == list(lst))
    c.eq("input_unchanged", c.sv(r), a)


def both(c, N, lst):
    r, a = rho_in(c, N)
    c.eq("same", qm.partial_trace(r, N, list(lst)), c.sv(qm.partial_trace_old(r, N, list(lst))))


def in_steps(c, N, first, second):
    """tracing wires one after the other is tracing them together"""
    r, a = rho_in(c, N)
    one = qm.partial_trace(qm.partial_trace(r, N, list(first)), N - len(first), list(second))
    left = [q for q in range(N) if q not in first]
    c.eq("steps", one, reduced(c, a, N, sorted(list(first) + [left[q] for q in second])))


def block(c, dA, dB):
    d = 2 ** (dA + dB)
    r = c.cplx("r", (d, d))
    c.eq("reduced", qm.ptrace(r, dA, dB), reduced(c, c.sv(r), dA + dB, list(range(dA, dA + dB))))


def trace_check(c, N, which):
    """a matrix is refused exactly when its trace is off by more than 1e-4"""
    f = {"new": qm.partial_trace, "old": qm.partial_trace_old}[which]
    x = c.real("x")
    d = 2 ** N
    a = np.empty((d, d), object)
    for i in range(d):
        for j in range(d):
            a[i, j] = c.zero
    a[0, 0] = c.sv(x)[()]
    r = c.tensor(a)
    side = c.choose("side", ["high", "low", "near"])
    dev = a[0, 0] - c.one
    if side == "high":
        c.assume(c.gt(dev, 0.0002))
    elif side == "low":
        c.assume(c.gt(-dev, 0.0002))
    else:
        c.assume(c.gt(dev, -0.00005))
        c.assume(c.gt(-dev, -0.00005))
    if side == "near":
        c.eq("accepted", f(r, N, [0]), reduced(c, a, N, [0]))
    else:
        c.raises("refused", lambda: f(r, N, [0]))


def rejects(c, N, which):
    f = {"new": qm.partial_trace, "old": qm.partial_trace_old}[which]
    r, a = rho_in(c, N)
    bad = c.choose("bad", ["size_small", "size_large", "wire", "wire_large"])
    if bad == "size_small":
        c.raises("refused", lambda: f(r, N - 1, [0]))
    elif bad == "size_large":
        c.raises("refused", lambda: f(r, N + 1, [0]))
    elif bad == "wire":
        c.raises("refused", lambda: f(r, N, [0, N] if N > 1 else [N]))
    else:
        c.raises("refused", lambda: f(r, N, [N + 3]))


def items(tier):
    deep = tier != "quick"
    out = []
    for which in ("new", "old"):
        for N in (1, 2, 3, 4) + (5,):
            if N < 4:
                wl = [[]] + subsets(N, 1, N)
            elif N == 4:
                wl = [[]] + [list(s) for k in range(1, 5) for s in combinations(range(4), k)] + [[3, 1], [2, 0, 3], [3, 2, 1, 0]]
            else:
                wl = [[q] for q in range(5)] + [[4, 0], [1, 3], [0, 1, 2, 3], [4, 2, 1, 3], [3, 1, 4]] + ([[4, 3, 2, 1, 0]] if deep else [])
            step = 16 if N < 3 else (5 if N == 3 else 2)
            for k in range(0, len(wl), step):
                out.append(Item("%s.N%d.%d" % (which, N, k), trace_out, (N, wl[k:k + step], which)))
        for N in (1, 2, 3):
            out.append(Item("trace_check.%s.N%d" % (which, N), trace_check, (N, which)))
            out.append(Item("rejects.%s.N%d" % (which, N), rejects, (N, which)))
    for N, l in ((2, [1]), (3, [0, 2]), (3, [1])):
        out.append(Item("both.N%d.%s" % (N, "".join(map(str, l))), both, (N, l)))
    for N, a, b in ((2, [0], [0]), (3, [1], [1]), (3, [2], [0]), (3, [0], [0, 1]), (4, [1, 3], [1])):
        out.append(Item("steps.N%d.%s.%s" % (N, "".join(map(str, a)), "".join(map(str, b))), in_steps, (N, a, b)))
    for n in range(1, 5):
        for dB in range(0, n + 1):
            out.append(Item("block.%d.%d" % (n - dB, dB), block, (n - dB, dB)))
    return out
