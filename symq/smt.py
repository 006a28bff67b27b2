"""SMT back end.

Equality obligations over polynomials are encoded as linear real arithmetic over
monomial variables.  The defining relations of the atoms (c^2+s^2=1, the SVD
contract, sqrt, 1/x, abs) are instantiated for every monomial of the obligation
(relation times cofactor monomial), so that `unsat` of the negated claim is a
proof of the claim for all values of the inputs.  `sat` is only a candidate: the
caller replays it on the real code.  Order obligations are tried linearly first
and then as non-linear real arithmetic.
"""
import subprocess
import time
import os
import selectors
from fractions import Fraction

from .poly import P, ATOMS, ZERO, ONE, Unsupported
from .boolx import B, neg, conj as bconj


class SolverError(Exception):
    pass


class Proc:
    """A persistent SMT-LIB process."""

    def __init__(self, argv=("z3-new", "-in")):
        self.argv = list(argv)
        self.p = None
        self.n = 0
        self.time = 0.0
        self.queries = 0
        self.log = None

    def start(self):
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, bufsize=1 << 20)
        self.n = 0

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None

    def run(self, text, timeout):
        """send text (must end in commands printing something); returns output lines"""
        t0 = time.time()
        if self.p is None or self.p.poll() is not None or self.n > 400:
            self.close()
            self.start()
        self.n += 1
        self.queries += 1
        mark = "done-%d" % self.n
        try:
            self.p.stdin.write("(set-option :timeout %d)\n" % int(timeout * 1000))
            self.p.stdin.write(text)
            self.p.stdin.write('\n(echo "%s")\n' % mark)
            self.p.stdin.flush()
        except BrokenPipeError:
            self.close()
            raise SolverError("solver died")
        out = []
        sel = selectors.DefaultSelector()
        fd = self.p.stdout.fileno()
        sel.register(fd, selectors.EVENT_READ)
        buf = ""
        deadline = t0 + timeout + 10
        try:
            while True:
                left = deadline - time.time()
                if left <= 0 or not sel.select(left):
                    self.close()
                    self.time += time.time() - t0
                    return ["timeout"]
                chunk = os.read(fd, 1 << 16).decode()
                if not chunk:
                    self.close()
                    self.time += time.time() - t0
                    return ["timeout"]
                buf += chunk
                while "\n" in buf:
                    line, buf = buf.split("\n", 1)
                    if line.strip().strip('"') == mark:
                        self.time += time.time() - t0
                        for l in out:
                            if "(error" in l:
                                raise SolverError(l)
                        return out
                    out.append(line)
        finally:
            sel.close()


def num(q):
    q = Fraction(q)
    n, d = q.numerator, q.denominator
    s = str(abs(n)) if d == 1 else "(/ %d %d)" % (abs(n), d)
    return s if n >= 0 else "(- %s)" % s


def conj_mono(m):
    cj = ATOMS.conj
    return tuple(sorted(cj[i] for i in m))


def divides(lead, m):
    """cofactor of m by lead (sorted tuples) or None"""
    i = 0
    out = []
    L = len(lead)
    for a in m:
        if i < L and lead[i] == a:
            i += 1
        else:
            out.append(a)
    return tuple(out) if i == L else None


class RelIndex:
    def __init__(self, rels):
        self.by = {}
        for k, (lead, p) in enumerate(rels):
            self.by.setdefault(lead[-1], []).append((k, lead, p))

    def matches(self, m):
        seen = None
        for a in m:
            if a == seen:
                continue
            seen = a
            for k, lead, p in self.by.get(a, ()):
                co = divides(lead, m)
                if co is not None:
                    yield k, lead, p, co


def reduce_poly(p, rels, limit=20000):
    """normal form by the relations (used only for constants)"""
    idx = RelIndex(rels)
    for _ in range(limit):
        for m in p.d:
            hit = next(iter(sorted(idx.matches(m), key=lambda x: -x[0])), None)
            if hit:
                k, lead, rp, co = hit
                c = p.d[m]
                lc = rp.d[lead]
                q = P({co: c}) * rp
                # p - c/lc * co * rp
                n = lc[0] * lc[0] + lc[1] * lc[1]
                f = P({(): (Fraction(lc[0]) / n, -Fraction(lc[1]) / n)})
                p = p - q * f
                break
        else:
            return p
    return p


class Linear:
    """Linearisation context of one query."""

    def __init__(self, rels, all_rels=False, cap=60000, recips=()):
        self.recips = list(recips)
        self.recip_atoms = {i for i, _ in recips}
        self.nrecip = 0
        self.idx = RelIndex(rels)
        self.vars = {}
        self.decl = []
        self.work = []
        self.lines = []
        self.all_rels = all_rels
        self.cap = cap
        self.instances = 0
        self.atoms = set()

    def var(self, m):
        """-> (re var, im var or None, sign of im)"""
        v = self.vars.get(m)
        if v is not None:
            return v
        c = conj_mono(m)
        k = len(self.decl)
        if c == m:
            v = ("x%d" % k, None, 1)
            self.decl.append(v[0])
            self.vars[m] = v
        else:
            a, b = (m, c) if m < c else (c, m)
            r, i = "x%d" % k, "y%d" % k
            self.decl.append(r)
            self.decl.append(i)
            self.vars[a] = (r, i, 1)
            self.vars[b] = (r, i, -1)
            v = self.vars[m]
        self.work.append(m)
        self.atoms.update(m)
        self.atoms.update(c)
        return v

    def lin(self, p):
        """P -> (re terms, im terms) as dict var->coef (None: constant)"""
        re, im = {}, {}
        for m, (a, b) in p.d.items():
            if not m:
                if a:
                    re[None] = re.get(None, 0) + a
                if b:
                    im[None] = im.get(None, 0) + b
                continue
            r, i, s = self.var(m)
            if a:
                re[r] = re.get(r, 0) + a
            if b:
                im[r] = im.get(r, 0) + b
            if i is not None:
                if b:
                    re[i] = re.get(i, 0) - s * b
                if a:
                    im[i] = im.get(i, 0) + s * a
        return re, im

    @staticmethod
    def text(t):
        items = []
        for v, c in t.items():
            if c == 0:
                continue
            if v is None:
                items.append(num(c))
            elif c == 1:
                items.append(v)
            elif c == -1:
                items.append("(- %s)" % v)
            else:
                items.append("(* %s %s)" % (num(c), v))
        if not items:
            return "0"
        if len(items) == 1:
            return items[0]
        return "(+ %s)" % " ".join(items)

    def formula(self, b):
        if not isinstance(b, B):
            return "true" if b else "false"
        if b.t == "cmp":
            op, p = b.a
            re, im = self.lin(p)
            r = self.text(re)
            if op in (">", ">="):
                return "(%s %s 0)" % (op, r)
            i = self.text(im)
            eq = "(= %s 0)" % r if i == "0" else "(and (= %s 0) (= %s 0))" % (r, i)
            return eq if op == "==" else "(not %s)" % eq
        if b.t == "not":
            return "(not %s)" % self.formula(b.a[0])
        return "(%s %s)" % (b.t, " ".join(self.formula(x) for x in b.a))

    def differ(self, lhs, rhs):
        """formula: lhs != rhs (complex)"""
        r1, i1 = self.lin(lhs)
        r2, i2 = self.lin(rhs)
        out = []
        for a, b in ((r1, r2), (i1, i2)):
            ta, tb = self.text(a), self.text(b)
            if ta == "0" and tb == "0":
                continue
            out.append("(not (= %s %s))" % (ta, tb))
        if not out:
            return "(not (= 0 0))"
        return out[0] if len(out) == 1 else "(or %s)" % " ".join(out)

    def close(self):
        """instantiate the relations for all monomials reached"""
        while self.work:
            m = self.work.pop()
            if self.recips and self.nrecip < 400 and m and not any(i in self.recip_atoms for i in m):
                for i, p in self.recips:
                    self.nrecip += 1
                    self.add_instance(P({m: (1, 0)}) * p)
            for mm in {m, conj_mono(m)}:
                hits = list(self.idx.matches(mm))
                if not hits:
                    continue
                if not self.all_rels:
                    hits = [max(hits, key=lambda h: h[0])]
                for k, lead, p, co in hits:
                    self.add_instance(P({co: (1, 0)}) * p if co else p)
                if not self.all_rels:
                    break

    def add_instance(self, q):
        """the equation q == 0, an instance of a relation"""
        self.instances += 1
        if self.instances > self.cap:
            raise SolverError("relation closure too large")
        re, im = self.lin(q)
        a, b = self.text(re), self.text(im)
        if a != "0":
            self.lines.append("(assert (= %s 0))" % a)
        if b != "0":
            self.lines.append("(assert (= %s 0))" % b)

    def script(self, formulas):
        d = ["(declare-const %s Real)" % v for v in self.decl]
        return "(push)\n" + "\n".join(d + self.lines + ["(assert %s)" % f for f in formulas])


class Split:
    """Polynomials over real unknowns only (for non-linear queries)."""

    def __init__(self):
        self.names = {}
        self.order = []
        self.powers = {}

    def atom(self, i):
        """P over ids in a private space: ids are indices of real unknowns"""
        if i in self.names:
            return self.names[i]
        c = ATOMS.conj[i]
        if c == i:
            k = len(self.order)
            self.order.append((i, None))
            r = P({(k,): (1, 0)})
            self.names[i] = r
        else:
            k = len(self.order)
            self.order.append((min(i, c), "re"))
            self.order.append((min(i, c), "im"))
            lo = P({(k,): (1, 0), (k + 1,): (0, 1)})
            hi = P({(k,): (1, 0), (k + 1,): (0, -1)})
            self.names[min(i, c)] = lo
            self.names[max(i, c)] = hi
            r = self.names[i]
        return r

    def expand(self, p):
        r = ZERO
        for m, c in p.d.items():
            t = P({(): c})
            for i in m:
                t = t * self.atom(i)
            r = r + t
        re = {m: c[0] for m, c in r.d.items() if c[0]}
        im = {m: c[1] for m, c in r.d.items() if c[1]}
        return re, im

    @staticmethod
    def text(t):
        out = []
        for m, c in t.items():
            if not m:
                out.append(num(c))
            else:
                out.append("(* %s %s)" % (num(c), " ".join("v%d" % k for k in m)))
        if not out:
            return "0"
        return out[0] if len(out) == 1 else "(+ %s)" % " ".join(out)

    def formula(self, b):
        if not isinstance(b, B):
            return "true" if b else "false"
        if b.t == "cmp":
            op, p = b.a
            re, im = self.expand(p)
            r, i = self.text(re), self.text(im)
            if op in (">", ">="):
                return "(%s %s 0)" % (op, r)
            eq = "(= %s 0)" % r if i == "0" else "(and (= %s 0) (= %s 0))" % (r, i)
            return eq if op == "==" else "(not %s)" % eq
        if b.t == "not":
            return "(not %s)" % self.formula(b.a[0])
        return "(%s %s)" % (b.t, " ".join(self.formula(x) for x in b.a))


class Solver:
    def __init__(self, timeout=60):
        self.z = Proc()
        self.timeout = timeout
        self.stats = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "instances": 0, "max_vars": 0}
        self.second = None      # optional second solver (cross-check)
        self.cross = 0
        self.dumps = []

    def _check(self, text, timeout=None):
        t0 = time.time()
        out = self.z.run(text + "\n(check-sat)\n(pop)\n", timeout or self.timeout)
        self.stats["queries"] += 1
        self.stats["time"] += time.time() - t0
        r = "unknown"
        for l in out:
            if l.strip() in ("sat", "unsat", "unknown", "timeout"):
                r = l.strip()
                break
        if r == "timeout":
            r = "unknown"
        self.stats[r] += 1
        if self.second is not None and r == "unsat" and len(text) < 400000:
            self.second.maybe(text)
        return r

    # -------------------------------------------------------------- queries
    def bounds_of(self, eng, atoms):
        out = []
        seen = set()
        work = list(atoms)
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            for b in eng.bounds.get(a, ()):
                out.append(b)
                for p in b.polys():
                    for m in p.d:
                        work.extend(m)
        return out

    def lin_query(self, eng, fs, differs=(), bounds=True, all_rels=False, pc=True, deep=False):
        L = Linear(eng.rels + eng.reversed, all_rels=True, recips=eng.recips) if deep else Linear(eng.rels, all_rels=all_rels)
        out = []
        if pc:
            out += [L.formula(b) for b in eng.pc]
        out += [L.formula(b) for b in fs]
        ds = [L.differ(a, b) for a, b in differs]
        if ds:
            out.append(ds[0] if len(ds) == 1 else "(or %s)" % " ".join(ds))
        done = set()
        while True:
            L.close()
            if not bounds:
                break
            new = [a for a in L.atoms if a not in done]
            if not new:
                break
            done.update(new)
            for a in new:
                for b in eng.bounds.get(a, ()):
                    out.append(L.formula(b))
        self.stats["instances"] += L.instances
        self.stats["max_vars"] = max(self.stats["max_vars"], len(L.decl))
        return L.script(out)

    def sides(self, eng, b, nb):
        """which of b (0) and nb (1) can hold under the path condition.  Dropping a
        side needs an unsat verdict; keeping both is always sound."""
        r = []
        for i, f in ((0, b), (1, nb)):
            try:
                v = self._check(self.lin_query(eng, [f]), 10)
            except SolverError:
                v = "unknown"
            if v == "unsat":
                return [1 - i]
            r.append(i)
        fs = eng.pc + [f]
        if sum(len(p.d) for x in fs for p in x.polys()) < 200 and not self.hard_atoms(eng, fs):
            for i, f in ((0, b), (1, nb)):
                try:
                    if self.nl_check(eng, eng.pc + [f], 2) == "unsat":
                        return [1 - i]
                except SolverError:
                    pass
        return r

    @staticmethod
    def hard_atoms(eng, fs):
        return any(ATOMS.info[a].get("kind") == "svd" for f in fs for p in f.polys() for m in p.d for a in m)

    def nl_script(self, eng, fs):
        """non-linear query with the relations of the atoms involved"""
        S = Split()
        body = []
        done_rel = set()
        done_b = set()
        fs = list(fs)
        for b in fs:
            body.append(S.formula(b))
        used = set()

        def atoms_in(bs):
            for b in bs:
                for p in b.polys():
                    for m in p.d:
                        used.update(m)
        atoms_in([b for b in fs if isinstance(b, B)])
        changed = True
        while changed:
            changed = False
            for k, (lead, p) in enumerate(eng.rels):
                if k in done_rel:
                    continue
                if any(a in used for a in lead):
                    done_rel.add(k)
                    changed = True
                    body.append(S.formula(B("cmp", ("==", p))))
                    for m in p.d:
                        used.update(m)
            for a in list(used):
                if a in done_b:
                    continue
                done_b.add(a)
                for b in eng.bounds.get(a, ()):
                    changed = True
                    body.append(S.formula(b))
                    atoms_in([b])
        d = ["(declare-const v%d Real)" % k for k in range(len(S.order))]
        return S, "(push)\n" + "\n".join(d + ["(assert %s)" % f for f in body])

    def nl_check(self, eng, fs, timeout):
        S, text = self.nl_script(eng, fs)
        return self._check(text, timeout)

    def nl_model(self, eng, fs, timeout):
        """returns (result, {atom: float or complex})"""
        S, text = self.nl_script(eng, fs)
        t0 = time.time()
        vs = " ".join("v%d" % k for k in range(len(S.order)))
        out = self.z.run(text + "\n(check-sat)\n(get-value (%s))\n(pop)\n" % vs if vs else text + "\n(check-sat)\n(pop)\n",
                         timeout) if True else []
        self.stats["queries"] += 1
        self.stats["time"] += time.time() - t0
        return out, S

    def model(self, eng, fs, timeout=10):
        """values of the real unknowns satisfying fs, or None"""
        S, text = self.nl_script(eng, fs)
        if not S.order:
            return {}
        vs = " ".join("v%d" % k for k in range(len(S.order)))
        t0 = time.time()
        self.stats["queries"] += 1
        try:
            out = self.z.run("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 17)\n" + text +
                             "\n(check-sat)\n", timeout)
            if "sat" not in [l.strip() for l in out]:
                self.z.run("(pop)", 5)
                self.stats["unknown"] += 1
                return None
            self.stats["sat"] += 1
            out = self.z.run("(get-value (%s))\n(pop)\n" % vs, timeout)
        except SolverError:
            self.z.close()
            return None
        finally:
            self.stats["time"] += time.time() - t0
        vals = parse_values(" ".join(out))
        res = {}
        for k, (a, part) in enumerate(S.order):
            v = vals.get("v%d" % k)
            if v is None:
                continue
            if part is None:
                res[a] = v
            elif part == "re":
                res[a] = complex(v, res.get(a, 0j).imag if a in res else 0.0)
            else:
                c = res.get(a, 0j)
                res[a] = complex(c.real, v)
        return res

    def prove_equal(self, eng, pairs, timeout=None):
        """pairs: list of (lhs, rhs). -> 'unsat' (equal), 'sat', 'unknown'"""
        try:
            r = self._check(self.lin_query(eng, [], pairs, bounds=False, pc=False), timeout)
            if r == "unsat":
                return r
            if eng.pc:
                r = self._check(self.lin_query(eng, [], pairs, bounds=True, pc=True), timeout)
                if r == "unsat":
                    return r
            r2 = self._check(self.lin_query(eng, [], pairs, bounds=True, pc=True, all_rels=True), timeout)
            if r2 != "unsat" and eng.recips and eng.reversed:
                r3 = self._check(self.lin_query(eng, [], pairs, bounds=True, pc=True, deep=True), timeout)
                if r3 == "unsat":
                    return r3
            return r2
        except SolverError as e:
            self.stats["unknown"] += 1
            return "unknown"

    def prove_identical(self, pairs):
        """pairs of syntactically equal terms: the solver confirms without relations"""
        L = Linear([])
        ds = [L.differ(a, b) for a, b in pairs]
        return self._check(L.script([ds[0] if len(ds) == 1 else "(or %s)" % " ".join(ds)]))

    def prove_true(self, eng, b, timeout=None):
        """claim b under pc -> 'unsat' (holds) / 'sat' / 'unknown'"""
        if not isinstance(b, B):
            return "unsat" if b else "sat"
        nb = neg(b)
        try:
            r = self._check(self.lin_query(eng, [nb]), timeout)
            if r == "unsat":
                return r
        except SolverError:
            pass
        try:
            return self.nl_check(eng, eng.pc + [nb], timeout or 20)
        except SolverError:
            return "unknown"

    def pc_sat(self, eng):
        """reachability witness: the assumptions of the path are consistent"""
        if not eng.pc and not eng.rels:
            return "sat"
        try:
            r = self._check(self.lin_query(eng, []), 20)
        except SolverError:
            r = "unknown"
        return r


def parse_values(s):
    import re
    out = {}
    for m in re.finditer(r"\((v\d+) (\(- [^()]*\)|\(/ [^()]*\)|\(- \(/ [^()]*\)\)|[^()\s]+)\)", s):
        t = m.group(2)
        sign = 1
        if t.startswith("(- "):
            sign = -1
            t = t[3:-1]
        if t.startswith("(/ "):
            a, b = t[3:-1].split()
            v = float(a.rstrip("?")) / float(b.rstrip("?"))
        else:
            v = float(t.rstrip("?"))
        out[m.group(1)] = sign * v
    return out


class Second:
    """cross-check of a few unsat verdicts with cvc5"""

    def __init__(self, limit=3):
        self.limit = limit
        self.texts = []

    def maybe(self, text):
        if len(self.texts) < self.limit:
            self.texts.append(text)

    def close(self):
        r = {"agree": 0, "disagree": 0, "unknown": 0}
        for t in self.texts:
            body = "(set-logic ALL)\n" + t.replace("(push)", "", 1) + "\n(check-sat)\n"
            try:
                p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000"], input=body, text=True,
                                   capture_output=True, timeout=30)
                o = p.stdout.strip().split("\n")[-1]
            except subprocess.TimeoutExpired:
                o = "unknown"
            r["agree" if o == "unsat" else "disagree" if o == "sat" else "unknown"] += 1
        return r
