"""Items, the two execution contexts (symbolic and concrete) and the path loop.

An item is a function fn(ctx) that obtains its inputs from ctx, calls the code under
test and states claims through ctx.  The same function runs
  * symbolically: inputs are solver unknowns, every path is explored, every claim is
    decided by the SMT solver;
  * concretely on the unmodified torch: to replay a counterexample and to compare the
    encoding with the real code.
"""
import cmath
import hashlib
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import torch

from . import engine as _e
from . import poly, smt
from . import symtensor as st
from .poly import P, ATOMS, ZERO, ONE, I_UNIT, Unsupported, to_poly
from .boolx import B, cmp, as_bool

ENGINE = _e.ENGINE
CONTROL = (_e.Refine, _e.Infeasible, _e.Budget)


class Skip(Exception):
    """concrete run: the chosen input is outside the item's domain"""


class Item:
    def __init__(self, name, fn, args=(), svd_budget=1, max_paths=300, timeout=None, trials=3, tol=2e-4,
                 style=None, **kw):
        self.name = name
        self.fn = fn
        self.args = args
        self.kw = kw
        self.svd_budget = svd_budget
        self.max_paths = max_paths
        self.timeout = timeout
        self.trials = trials
        self.tol = tol
        self.style = style

    def run(self, ctx):
        return self.fn(ctx, *self.args, **self.kw)


class Violation:
    def __init__(self, label, got=None, want=None, exc=None, assign=None, choices=None, trial=None, seed=None,
                 style=None):
        self.style = style
        self.label = label
        self.got = got
        self.want = want
        self.exc = exc
        self.assign = assign
        self.choices = choices
        self.trial = trial
        self.seed = seed

    def as_dict(self):
        return dict(label=self.label, got=self.got, want=self.want, exc=self.exc, choices=self.choices,
                    trial=self.trial, seed=self.seed, style=self.style,
                    assign={k: ([v.real, v.imag] if isinstance(v, complex) else v) for k, v in (self.assign or {}).items()})


def obj(x):
    return np.asarray(x, dtype=object)


class Ctx:
    """operations common to both contexts; specification arithmetic is generic over P and complex"""
    sym = False

    def angle(self, name, grad=False):
        return self._input(name, (), "angle", torch.float32, grad)

    def angles(self, name, n, grad=False):
        sh = (n,) if isinstance(n, int) else tuple(n)
        return self._input(name, sh, "angle", torch.float32, grad)

    def real(self, name, shape=(), grad=False, kind="real"):
        return self._input(name, tuple(shape), kind, torch.float32, grad)

    def cplx(self, name, shape, kind="cplx", grad=False):
        return self._input(name, tuple(shape), kind, torch.complex64, grad)

    def state(self, name, n, batch=None, normalized=False):
        """row vector(s) of 2^n amplitudes: (1,2^n) or (batch,1,2^n)"""
        sh = (1, 2 ** n) if batch is None else (batch, 1, 2 ** n)
        t = self.cplx(name, sh, kind="state")
        if normalized:
            a = self.sv(t).reshape(-1, 2 ** n)
            for r in a:
                self.relation(sum((x * x.conjugate() for x in r[1:]), r[0] * r[0].conjugate()) - 1, r[0], "n")
        return t

    def integer(self, name):
        """an arbitrary Python integer"""
        return self.pyint(self._input(name, (), "int", torch.float32, False))

    def pylist(self, t):
        """the elements as plain Python numbers"""
        return [self.pyfloat(x) for x in t]

    # -------------------------------------------------------- specification maths
    def exp_i(self, x):
        return self.cos(x) + self.sin(x) * self.I

    def arr(self, rows):
        a = np.array([[self.num(v) for v in r] for r in rows], dtype=object)
        return a

    def eye(self, n):
        z = np.empty((n, n), object)
        for i in range(n):
            for j in range(n):
                z[i, j] = self.one if i == j else self.zero
        return z


class SymCtx(Ctx):
    sym = True

    def __init__(self, item, solver):
        self.item = item
        self.solver = solver
        self.failed = []          # (label, note)
        self.undecided = []
        self.proved = 0
        self.entries = 0
        self.samples = {}
        self.one, self.zero, self.I = ONE, ZERO, I_UNIT
        self.nclaims = 0

    # ---- inputs
    def _input(self, name, shape, kind, dtype, grad):
        pl = np.empty(shape, object)
        for ix in np.ndindex(*shape):
            nm = name + "".join("_%d" % i for i in ix)
            if dtype.is_complex:
                i = ATOMS.cplx(nm, kind="input", sort=kind)
            else:
                i = ATOMS.real(nm, kind="input", sort=kind)
            ENGINE.inputs[nm] = dict(atom=i, kind=kind, cplx=dtype.is_complex)
            pl[ix] = P.atom(i)
        if not shape:
            a = np.empty((), object)
            a[()] = P.atom(ATOMS.real(name, kind="input", sort=kind)) if not dtype.is_complex else P.atom(ATOMS.cplx(name, kind="input", sort=kind))
            ENGINE.inputs[name] = dict(atom=ATOMS.by_name[name], kind=kind, cplx=dtype.is_complex)
            pl = a
        return st.make(pl, dtype, requires_grad=grad)

    def pyfloat(self, t):
        return st.SymScalar(t.payload.reshape(-1)[0], t.dtype)

    def pyint(self, t):
        return st.SymScalar(t.payload.reshape(-1)[0], torch.int64)

    def relation(self, p, pivot=None, how=None):
        """assume p == 0 (inputs restricted to a variety)"""
        if how == "n":
            a = next(iter(pivot.d))[0]
            ENGINE.add_rel((a, ATOMS.conj[a]), p)
        else:
            self.assume(cmp("==", p))

    def tensor(self, arr, dtype=torch.complex64, grad=False):
        """a tensor with the given (specification) entries"""
        a = np.asarray(arr, dtype=object)
        out = np.empty(a.shape, object)
        for ix in np.ndindex(*a.shape):
            out[ix] = to_poly(a[ix])
        return st.make(out, dtype, requires_grad=grad)

    def assume(self, b):
        ENGINE.assume(b)

    def gt(self, a, b=0):
        return cmp(">", to_poly(a) - to_poly(b))

    def choose(self, name, options):
        return ENGINE.choose(name, options)

    # ---- maths
    def num(self, v):
        return to_poly(v)

    def cos(self, x):
        return ENGINE.cossin(to_poly(x))[0]

    def sin(self, x):
        return ENGINE.cossin(to_poly(x))[1]

    def sqrt(self, x):
        return ENGINE.sqrt(to_poly(x))

    def div(self, a, b):
        return ENGINE.div(to_poly(a), to_poly(b))

    def abs(self, x):
        return ENGINE.abs(to_poly(x))

    def all(self, bs):
        return combine("and", bs)

    def any(self, bs):
        return combine("or", bs)

    @property
    def pi(self):
        return ENGINE.pi()

    def sv(self, t):
        """value of a result as an object array of terms"""
        if isinstance(t, st.SymTensor):
            a = t.payload
            out = np.empty(a.shape, object)
            for ix in np.ndindex(*a.shape):
                out[ix] = st.P_(a[ix])
            if t.is_conj():
                out = np.conj(out)
            return out
        if isinstance(t, st.SymScalar):
            return obj(t.p)
        if isinstance(t, torch.Tensor):
            return st.emap(st.P_, st.from_real(t))
        a = np.asarray(t, dtype=object)
        out = np.empty(a.shape, object)
        for ix in np.ndindex(*a.shape):
            v = a[ix]
            out[ix] = self.sv(v)[()] if isinstance(v, torch.Tensor) else to_poly(v)
        return out

    def diff(self, p, name):
        """partial derivative of a term w.r.t. the input `name` (formal, exact)"""
        return formal_diff(to_poly(p), ENGINE.inputs[name]["atom"])

    # ---- claims
    def eq(self, label, got, want, tol=None):
        self.nclaims += 1
        g, w = self.sv(got), self.sv(want)
        if g.shape != w.shape:
            self.failed.append((label, "shape %s instead of %s" % (g.shape, w.shape)))
            return
        gs, ws = list(g.flat), list(w.flat)
        self.entries += len(gs)
        if label not in self.samples:
            self.samples[label] = gs[:16]
        same = [(a, b) for a, b in zip(gs, ws) if a.same(b)]
        rest = [(a, b) for a, b in zip(gs, ws) if not a.same(b)]
        for group, trivial in ((same, True), (rest, False)):
            for chunk in chunks(group):
                if trivial:
                    r = self.solver.prove_identical(chunk)
                else:
                    r = self.solver.prove_equal(ENGINE, chunk)
                if r == "unsat":
                    self.proved += 1
                elif r == "unknown" and len(chunk) > 1:
                    for pr in chunk:
                        r = self.solver.prove_equal(ENGINE, [pr])
                        if r == "sat":
                            self.failed.append((label, "sat", pr))
                            return
                        if r == "unknown":
                            self.undecided.append((label, "solver returned unknown"))
                            return
                    self.proved += 1
                elif r == "sat":
                    bad = None
                    if len(chunk) > 1:
                        for pr in chunk:
                            if self.solver.prove_equal(ENGINE, [pr]) == "sat":
                                bad = pr
                                break
                    self.failed.append((label, "sat", bad or chunk[0]))
                    return
                else:
                    self.undecided.append((label, "solver returned unknown"))
                    return

    def holds(self, got, want):
        """a lemma: True if the solver shows got == want on this path (a failure is not a violation)"""
        g, w = list(self.sv(got).flat), list(self.sv(want).flat)
        if len(g) != len(w):
            return False
        rest = [(a, b) for a, b in zip(g, w) if not a.same(b)]
        return all(self.solver.prove_equal(ENGINE, ch) == "unsat" for ch in chunks(rest))

    def ge0(self, label, x, tol=None):
        self.nclaims += 1
        p = to_poly(self.sv(x)[()]) if not isinstance(x, P) else x
        self.true_(label, cmp(">=", p))

    def true(self, label, b):
        """b: bool or B or symbolic tensor"""
        self.nclaims += 1
        if isinstance(b, torch.Tensor):
            b = as_bool(self.sv(b).reshape(-1)[0])
        self.true_(label, b if isinstance(b, B) else bool(b))

    def true_(self, label, b):
        self.entries += 1
        r = self.solver.prove_true(ENGINE, b)
        if r == "unsat":
            self.proved += 1
        elif r == "sat":
            self.failed.append((label, "sat", b))
        else:
            self.undecided.append((label, "solver returned unknown"))

    def raises(self, label, f, exc=Exception):
        self.nclaims += 1
        self.entries += 1
        try:
            f()
        except Unsupported:
            raise
        except exc:
            self.proved += 1
            return
        self.failed.append((label, "accepted instead of being rejected"))


class NumCtx(Ctx):
    """concrete run on the real torch"""

    def __init__(self, item, assign=None, choices=None, seed=0, trial=0, style="random"):
        self.item = item
        self.assign = dict(assign or {})
        self.choices = dict(choices or {})
        self.rnd = random.Random("%s/%s/%s" % (seed, trial, item.name))
        self.style = style
        self.used = {}
        self.bad = []
        self.samples = {}
        self.one, self.zero, self.I = 1.0, 0.0, 1j
        self.tol = item.tol
        self.nclaims = 0
        self.seed, self.trial = seed, trial
        self.size = {"tiny": 1e-5, "tiny2": 2e-6, "tiny3": 1e-4, "tinylow": 1e-5}.get(style, 1)

    def _gen(self, nm, kind):
        r = self.rnd
        if kind == "angle":
            return {0: lambda: r.uniform(-3, 3), 1: lambda: r.uniform(-6.5, 6.5)}[self.trial % 2]()
        if kind == "pos":
            return r.uniform(0.2, 2)
        if kind == "int":
            return float(r.randint(-6, 6))
        return r.uniform(-1, 1)

    def _input(self, name, shape, kind, dtype, grad):
        a = np.empty(shape, complex if dtype.is_complex else float)
        cells = list(np.ndindex(*shape)) if shape else [()]
        base = None
        if kind == "state":
            n = int(round(math.log2(shape[-1])))
            rows = int(np.prod(shape[:-1]))
            sub = self.style if self.style != "tinylow" else self.rnd.choice(["product", "partial", "partial", "ghz"])
            sub = "partial" if sub == "lowrank" else sub
            base = np.array([state_hint(self.rnd, n, sub) for _ in range(rows)]).reshape(shape) * self.size
        if base is None and self.style in ("lowrank", "tinylow") and kind == "cplx" and sum(k > 1 for k in shape) > 1:
            base = lowrank(self.rnd, shape) * self.size
        for ix in cells:
            nm = name + "".join("_%d" % i for i in ix)
            if nm in self.assign:
                v = self.assign[nm]
            elif base is not None:
                v = complex(base[ix])
            elif dtype.is_complex:
                v = complex(self._gen(nm, kind), self._gen(nm, kind)) * (self.size if kind == "cplx" else 1)
            else:
                v = self._gen(nm, kind)
            a[ix] = v
        t = torch.tensor(a.astype(np.complex64 if dtype.is_complex else np.float32), dtype=dtype)
        for ix in cells:
            nm = name + "".join("_%d" % i for i in ix)
            self.used[nm] = t[ix].item() if shape else t.item()
        if grad:
            t.requires_grad_(True)
        return t

    def pyfloat(self, t):
        return t.item()

    def pyint(self, t):
        v = t.item()
        if v != round(v):
            raise Skip()
        return int(v)

    def relation(self, p, pivot=None, how=None):
        if how == "n":
            # renormalisation is the generator's job; states are generated with norm 1
            if abs(p) > 1e-3:
                raise Skip()
        elif abs(p) > 1e-4:
            raise Skip()

    def tensor(self, arr, dtype=torch.complex64, grad=False):
        a = np.asarray(arr, dtype=object)
        c = a.astype(complex)
        if not dtype.is_complex:
            c = c.real
        t = torch.tensor(c, dtype=dtype)
        if grad:
            t.requires_grad_(True)
        return t

    def assume(self, b):
        if not b:
            raise Skip()

    def gt(self, a, b=0):
        return (a - b).real > 1e-6

    def choose(self, name, options):
        options = list(options)
        if name in self.choices:
            return options[self.choices[name] % len(options)]
        i = self.rnd.randrange(len(options))
        self.choices[name] = i
        return options[i]

    def num(self, v):
        return v if isinstance(v, (int, float, complex)) else complex(v)

    def cos(self, x):
        return cmath.cos(x) if isinstance(x, complex) else math.cos(x)

    def sin(self, x):
        return cmath.sin(x) if isinstance(x, complex) else math.sin(x)

    def sqrt(self, x):
        return cmath.sqrt(x).real

    def div(self, a, b):
        if b == 0:
            raise Skip()
        return a / b

    def abs(self, x):
        return abs(x)

    def all(self, bs):
        return all(bs)

    def any(self, bs):
        return any(bs)

    pi = math.pi

    def sv(self, t):
        if isinstance(t, torch.Tensor):
            t = t.detach().resolve_conj().resolve_neg()
            c = t.to(torch.complex128).numpy()
            return c.astype(object)
        a = np.asarray(t, dtype=object)
        out = np.empty(a.shape, object)
        for ix in np.ndindex(*a.shape):
            v = a[ix]
            out[ix] = self.sv(v)[()] if isinstance(v, torch.Tensor) else complex(v)
        return out

    def eq(self, label, got, want, tol=None):
        self.nclaims += 1
        g, w = self.sv(got), self.sv(want)
        if g.shape != w.shape:
            self.bad.append((label, "shape %s" % (g.shape,), "shape %s" % (w.shape,)))
            return
        self.samples.setdefault(label, [complex(x) for x in list(g.flat)[:16]])
        tol = tol or self.tol
        scale = 1.0
        if self.style.startswith("tiny"):
            # inputs far below 1: compare relative to the largest expected entry
            scale, tol = max([abs(complex(x)) for x in w.flat] + [0.0]), 1e-2
            if scale == 0:
                return
        for k, (a, b) in enumerate(zip(g.flat, w.flat)):
            a, b = complex(a), complex(b)
            if not (abs(a - b) <= tol * max(scale, abs(b))):
                self.bad.append((label, "entry %d: %r" % (k, a), "%r" % b))
                return

    def ge0(self, label, x, tol=None):
        self.nclaims += 1
        v = complex(self.sv(x)[()])
        if not v.real >= -(tol or self.tol):
            self.bad.append((label, repr(v), ">= 0"))

    def true(self, label, b):
        self.nclaims += 1
        if not bool(b):
            self.bad.append((label, "False", "True"))

    def raises(self, label, f, exc=Exception):
        self.nclaims += 1
        try:
            f()
        except exc:
            return
        self.bad.append((label, "accepted", "rejected with an error"))


def combine(t, bs):
    short = t == "or"
    keep = []
    for b in bs:
        if isinstance(b, B):
            keep.append(b)
        elif bool(b) == short:
            return short
    if not keep:
        return not short
    return keep[0] if len(keep) == 1 else B(t, tuple(keep))


def state_hint(r, n, style):
    """amplitudes of a normalised n-qubit state"""
    d = 2 ** n

    def rv(k):
        v = np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(k)])
        return v / np.linalg.norm(v)
    if style == "basis":
        v = np.zeros(d, complex)
        v[r.randrange(d)] = 1
    elif style == "product":
        v = np.ones(1, complex)
        for _ in range(n):
            v = np.kron(v, rv(2))
    elif style == "ghz":
        v = np.zeros(d, complex)
        v[0], v[-1] = 0.6, 0.8j
    elif style == "partial":
        k = r.randrange(1, n) if n > 1 else 1
        v = np.kron(rv(2 ** k), rv(2 ** (n - k))) if n > 1 else rv(2)
    elif style == "weak":
        p = np.ones(1, complex)
        for _ in range(n):
            p = np.kron(p, rv(2))
        v = p + 1e-3 * rv(d)
        v /= np.linalg.norm(v)
    elif style == "weak2":
        p = np.ones(1, complex)
        for _ in range(n):
            p = np.kron(p, rv(2))
        v = p + 1e-2 * rv(d)
        v /= np.linalg.norm(v)
    else:
        v = rv(d)
    return v


STYLES = ["random", "product", "partial", "basis", "ghz", "weak"]
REPLAY = STYLES + ["weak2", "tiny", "tiny2", "tiny3", "lowrank", "lowrank", "tinylow", "tinylow", "tinylow", "tinylow"]


def lowrank(r, shape):
    """outer product of a random tensor on some of the axes and one on the others"""
    ax = [i for i, s in enumerate(shape) if s > 1]
    left = [i for i in ax if r.random() < 0.5] or ax[:1]
    if len(left) == len(ax):
        left = left[:-1]
    a = np.zeros(shape, complex)
    g = lambda: complex(r.gauss(0, 1), r.gauss(0, 1))
    u, v = {}, {}
    for ix in np.ndindex(*shape):
        k, l = tuple(ix[i] for i in left), tuple(ix[i] for i in ax if i not in left)
        a[ix] = u.setdefault(k, g()) * v.setdefault(l, g())
    return a


def chunks(pairs, nmax=256, tmax=30000):
    cur, t = [], 0
    for a, b in pairs:
        k = len(a.d) + len(b.d)
        if cur and (len(cur) >= nmax or t + k > tmax):
            yield cur
            cur, t = [], 0
        cur.append((a, b))
        t += k
    if cur:
        yield cur


def formal_diff(p, atom):
    """d p / d atom, through the trig atoms (c' = -u s, s' = u c) and 1/x, sqrt"""
    r = ZERO
    for m, c in p.d.items():
        for k, i in enumerate(m):
            d = atom_diff(i, atom)
            if d.d:
                r = r + P({m[:k] + m[k + 1:]: c}) * d
    return r


def atom_diff(i, atom):
    if i == atom:
        return ONE
    inf = ATOMS.info[i]
    k = inf.get("kind")
    if k in ("cos", "sin"):
        mono = inf["mono"]
        d = formal_diff(P({mono: (1, 0)}), atom)
        if not d.d:
            return ZERO
        c, s = ENGINE.trig_atoms(mono, inf["unit"])
        f = (-P.atom(s) if k == "cos" else P.atom(c)).scale(inf["unit"])
        return d * f
    if k == "sqrt":
        arg = ENGINE.cache[("sqrtarg", i)]
        d = formal_diff(arg, atom)
        if not d.d:
            return ZERO
        return d * ENGINE.recip(P.atom(i).scale(2))
    if k == "recip":
        for key, a in ENGINE.cache.items():
            if key[0] == "recip" and isinstance(a, P) and i in next(iter(a.d)):
                arg = P(dict(key[1]))
                d = formal_diff(arg, atom)
                return -(d * a * a) if d.d else ZERO
        return ZERO
    if k in ("svd", "abs", "exp"):
        raise Unsupported("derivative of a %s term" % k)
    return ZERO


# ------------------------------------------------------------------ functions seen
class FunctionLog:
    """names of the functions of the code under test that ran symbolically"""

    def __init__(self, root):
        self.root = root
        self.seen = set()

    def __enter__(self):
        m = sys.monitoring
        self.tool = 3
        try:
            m.use_tool_id(self.tool, "symq")
        except ValueError:
            self.tool = None
            return self

        def start(code, off):
            if code.co_filename.startswith(self.root):
                self.seen.add("%s:%s" % (os.path.relpath(code.co_filename, self.root), code.co_qualname))
            return m.DISABLE
        m.register_callback(self.tool, m.events.PY_START, start)
        m.set_events(self.tool, m.events.PY_START)
        m.restart_events()
        return self

    def __exit__(self, *e):
        if self.tool is not None:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.free_tool_id(self.tool)
        return False


# ------------------------------------------------------------------ running an item
def run_symbolic(item, solver, deadline, seed=0):
    """explore every path of the item.  Returns a result dict."""
    t0 = time.time()
    res = dict(paths=0, branches=0, claims=0, entries=0, proved=0, failed=[], undecided=[], unsupported=None,
               vacuous=0, refinements=0, svds=0, enc_checked=0, enc_bad=[], enc_tries=0, decisions=0)
    ENGINE.solver = solver
    ENGINE.svd_budget = item.svd_budget
    ENGINE.new_item()
    pending = [[]]
    while pending:
        if res["paths"] >= item.max_paths or time.time() > deadline:
            res["unsupported"] = "path or time budget exhausted after %d paths" % res["paths"]
            break
        prefix = pending.pop()
        ENGINE.reset_path(prefix)
        ctx = SymCtx(item, solver)
        exc = None
        try:
            with st.symbolic():
                item.run(ctx)
        except _e.Refine:
            res["refinements"] += 1
            if res["refinements"] > 60:
                res["unsupported"] = "no common trigonometric base"
                break
            keep = dict(res, paths=0, branches=0, claims=0, entries=0, proved=0, failed=[], undecided=[], vacuous=0, svds=0, enc_checked=0, enc_bad=[], enc_tries=0)
            res = keep
            pending = [[]]
            continue
        except _e.Infeasible:
            pending += ENGINE.alts
            continue
        except (_e.Budget, Unsupported) as e:
            res["unsupported"] = "%s: %s" % (type(e).__name__, e)
            pending += ENGINE.alts
            res["paths"] += 1
            res["claims"] += ctx.nclaims
            res["proved"] += ctx.proved
            for f in ctx.failed:
                res["failed"].append(make_fail(f, ENGINE, solver, item))
            if os.environ.get("SYMQ_DEBUG"):
                traceback.print_exc()
            break
        except Exception as e:
            exc = e
            if os.environ.get("SYMQ_DEBUG"):
                traceback.print_exc()
        pending += ENGINE.alts
        res["paths"] += 1
        res["branches"] += ENGINE.nbranch
        res["decisions"] += len(ENGINE.trace)
        res["svds"] += ENGINE.nsvd
        res["claims"] += ctx.nclaims
        res["entries"] += ctx.entries
        res["proved"] += ctx.proved
        r = solver.pc_sat(ENGINE)
        if r == "unsat":
            res["vacuous"] += 1
            continue
        for f in ctx.failed:
            res["failed"].append(make_fail(f, ENGINE, solver, item))
        if exc is not None:
            res["failed"].append(make_fail(("raises", "%s: %s" % (type(exc).__name__, str(exc)[:300])), ENGINE, solver, item))
        for u in ctx.undecided:
            res["undecided"].append((u[0], str(u[1])))
        if res["enc_checked"] == 0 and res["enc_tries"] < 4 and ctx.samples and not ENGINE.nsvd:
            res["enc_tries"] += 1
            n, bad = compare_encoding(ctx, item, seed)
            res["enc_checked"] += n
            res["enc_bad"] += bad[:3]
        if len(res["failed"]) > 12:
            break
    res["time"] = time.time() - t0
    return res


def make_fail(f, eng, solver, item):
    """the failing claim with candidate inputs: models of path condition and negated claim"""
    label, note = f[0], f[1]
    plans = []
    try:
        fs = list(eng.pc)
        claim = None
        if len(f) > 2:
            if isinstance(f[2], B):
                from .boolx import neg
                claim = neg(f[2])
            elif isinstance(f[2], tuple):
                claim = cmp("!=", f[2][0] - f[2][1])
        model = None
        if isinstance(claim, B) and sum(len(p.d) for p in claim.polys()) < 60:
            model = solver.model(eng, fs + [claim], 4)
        if model is None and fs:
            model = solver.model(eng, fs, 4)
        if model:
            plans += model_inputs(eng, model)
        if fs:
            plans += spread(eng, solver, fs, item)
    except Unsupported:
        pass
    uniq = []
    for p in plans:
        if p and p not in uniq:
            uniq.append(p)
    return dict(label=label, note=str(note), plans=uniq, choices=dict(eng.choices), npc=len(eng.pc))


def spread(eng, solver, fs, item, n=6):
    """further models of the path condition, pushed to different places"""
    byatom = {v["atom"]: k for k, v in eng.inputs.items()}
    used = sorted({a for b in fs for p in b.polys() for m in p.d for a in m if a in byatom and ATOMS.conj[a] == a})
    r = random.Random(item.name)
    out = []
    if not used or sum(len(p.d) for b in fs for p in b.polys()) > 200:
        return out
    for k in range(n):
        extra = []
        for a in used[:4]:
            v = Fraction(r.randint(-90, 90), r.choice([7, 11, 13, 30]))
            p = P.atom(a) - P.const(v)
            extra.append(cmp(">", p) if r.random() < 0.5 else cmp(">", -p))
        model = solver.model(eng, fs + extra, 2)
        if model:
            out.append({byatom[a]: v for a, v in model.items() if a in byatom})
    return out


def model_inputs(eng, model):
    """input values from values of atoms; an angle known only through its cosine and
    sine is recovered from them, one known both ways is tried both ways"""
    out = {}
    byatom = {v["atom"]: n for n, v in eng.inputs.items()}
    for a, v in model.items():
        if a in byatom:
            out.setdefault(byatom[a], v)
        elif ATOMS.conj[a] in byatom and ATOMS.conj[a] != a:
            out.setdefault(byatom[ATOMS.conj[a]], v.conjugate() if isinstance(v, complex) else v)
    near, angle = dict(out), dict(out)
    for a, v in model.items():
        inf = ATOMS.info[a]
        if inf.get("kind") == "cos" and len(inf["mono"]) == 1 and inf["mono"][0] in byatom:
            s = ATOMS.by_name.get(ATOMS.names[a].replace("cos[", "sin[", 1))
            if s in model:
                nm, u = byatom[inf["mono"][0]], float(inf["unit"])
                th = math.atan2(model[s].real, v.real) / u
                angle[nm] = th
                if nm in out:
                    per = 2 * math.pi / u
                    th += per * round((complex(out[nm]).real - th) / per)
                near[nm] = th
    return [near, angle, out]


def run_concrete(item, assign=None, choices=None, seed=0, trial=0, style=None):
    """one concrete run. -> (NumCtx, list of violations)"""
    style = style or item.style or STYLES[trial % len(STYLES)]
    ctx = NumCtx(item, assign, choices, seed, trial, style)
    torch.manual_seed(seed * 1000 + trial)
    out = []
    try:
        item.run(ctx)
    except Skip:
        return ctx, None
    except Exception as e:
        if os.environ.get("SYMQ_DEBUG"):
            traceback.print_exc()
        ctx.bad.append(("raises", "%s: %s" % (type(e).__name__, str(e)[:300]), "no error"))
    for label, g, w in ctx.bad:
        out.append(Violation(label, g, w, None, dict(ctx.used), dict(ctx.choices), trial, seed, style))
    return ctx, out


def holds_at(b, env):
    if not isinstance(b, B):
        return bool(b)
    if b.t == "and":
        return all(holds_at(x, env) for x in b.a)
    if b.t == "or":
        return any(holds_at(x, env) for x in b.a)
    if b.t == "not":
        return not holds_at(b.a[0], env)
    op, p = b.a
    v = p.evalf(env)
    return {">": v.real > 1e-7, ">=": v.real >= -1e-9, "==": abs(v) < 1e-9, "!=": abs(v) > 1e-7}[op]


def compare_encoding(sctx, item, seed):
    """evaluate the symbolic results of the path just finished at a concrete input and
    compare them with what the real code computes there.  (entries compared, mismatches)"""
    nctx, vs = run_concrete(item, {}, dict(ENGINE.choices), seed, 0)
    if vs is None or any(v.label == "raises" for v in vs):
        return 0, []
    assign = {}
    for n, v in nctx.used.items():
        i = ATOMS.by_name.get(n)
        if i is not None:
            assign[i] = complex(v)
    env = ENGINE.numeric_env(assign)
    n, bad = 0, []
    try:
        if not all(holds_at(b, env) for b in ENGINE.pc):
            return 0, []
    except (KeyError, ZeroDivisionError):
        return 0, []
    for label, ps in sctx.samples.items():
        got = nctx.samples.get(label)
        if got is None or len(got) != len(ps):
            continue
        for a, b in zip(ps, got):
            try:
                v = a.evalf(env)
            except (KeyError, ZeroDivisionError):
                continue
            n += 1
            if not abs(v - b) <= 2e-3 * max(1, abs(b)):
                bad.append((label, str(v), str(b)))
    return n, bad


def run_item(item, seed, timeout, root, concrete_trials):
    """full treatment of one item in this process. -> dict"""
    t0 = time.time()
    solver = smt.Solver(timeout=min(60, timeout))
    if os.environ.get("SYMQ_CROSS"):
        solver.second = smt.Second()
    out = dict(item=item.name, violations=[], inconclusive=None, enc_checked=0, enc_bad=[], concrete_runs=0)
    flog = FunctionLog(root)
    try:
        with flog:
            res = run_symbolic(item, solver, t0 + timeout, seed)
        out.update(res)
        found = {}
        # replay the solver's counterexamples
        for f in res["failed"]:
            if f["label"] in found:
                continue
            hit = None
            plans = f["plans"] + [{}]
            for assign in plans:
                for trial in range(len(REPLAY) if not assign else 3):
                    ctx, vs = run_concrete(item, assign, f["choices"], seed, trial, None if item.style else REPLAY[trial])
                    out["concrete_runs"] += 1
                    for v in vs or []:
                        if v.label == f["label"]:
                            hit = v
                            break
                    if hit:
                        break
                if hit:
                    break
            if hit:
                found[f["label"]] = hit
            else:
                out["inconclusive"] = "solver counterexample for '%s' (%s) did not reproduce on the real code" % (f["label"], f["note"][:200])
        # the encoding against the real code, and the claims on the same points
        for trial in range(concrete_trials):
            ctx, vs = run_concrete(item, {}, {}, seed, trial)
            out["concrete_runs"] += 1
            if vs is None:
                continue
            for v in vs:
                found.setdefault(v.label, v)
        out["violations"] = [v.as_dict() for v in found.values()]
        if out["inconclusive"] is None:
            if res["unsupported"]:
                out["inconclusive"] = res["unsupported"]
            elif res["undecided"]:
                out["inconclusive"] = "undecided: %s (%s)" % res["undecided"][0]
            elif res["paths"] - res["vacuous"] <= 0:
                out["inconclusive"] = "no feasible path"
            elif out["enc_bad"]:
                out["inconclusive"] = "encoding disagrees with the real code: %s" % (out["enc_bad"][0],)
    finally:
        out["functions"] = sorted(flog.seen)
        out["solver"] = dict(solver.stats)
        if solver.second is not None:
            out["cross"] = solver.second.close()
        solver.z.close()
        out["wall"] = time.time() - t0
    return out
