"""Symbolic tensors: the real code runs under the real torch front end (argument
parsing, broadcasting rules, views, autograd); every ATen kernel that would have
touched numbers is replaced by an exact interpretation over polynomials.

A SymTensor carries a numpy object array (payload; views share memory exactly as
the torch views do) and a meta-device tensor on which the same ATen call is made,
so that shapes, strides, dtypes and genuine errors come from torch itself.
"""
import math
import numbers
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.overrides import TorchFunctionMode

from . import engine as _e
from .poly import P, ZERO, ONE, I_UNIT, Unsupported, to_poly, snap_float, snap_float32
from .boolx import B, cmp, neg, conj as bconj, disj as bdisj, as_bool

ENGINE = _e.ENGINE
aten = torch.ops.aten
CPU = torch.device("cpu")


from torch.utils._python_dispatch import _disable_current_modes


def meta_empty(shape, dtype, stride=None):
    """a meta tensor, created outside the symbolic modes"""
    with _disable_current_modes(), torch._C.DisableTorchFunction():
        if stride is None:
            return torch.empty(tuple(shape), dtype=dtype, device="meta")
        return torch.empty_strided(tuple(shape), stride, dtype=dtype, device="meta")


def lift_scalar(x, dt):
    if dt == torch.bool:
        return bool(x)
    if dt in (torch.float32, torch.complex64, torch.float16, torch.bfloat16):
        if isinstance(x, complex):
            return snap_float32(x.real) + snap_float32(x.imag) * I_UNIT
        return snap_float32(float(x))
    return to_poly(x)


def from_real(t):
    """payload of an ordinary tensor (constant)"""
    t = t.detach()
    if t.is_conj() or t.is_neg():
        t = t.resolve_conj().resolve_neg()
    a = t.cpu().numpy()
    out = np.empty(a.shape, object)
    cache = {}
    fo = out.reshape(-1) if out.ndim else out
    flat = a.reshape(-1).tolist()
    for k, v in enumerate(flat):
        key = (type(v), v)
        if key not in cache:
            cache[key] = lift_scalar(v, t.dtype)
        if out.ndim:
            fo[k] = cache[key]
        else:
            out[()] = cache[key]
    return out


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, payload, meta, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, meta.shape, strides=meta.stride(), storage_offset=meta.storage_offset(),
            dtype=meta.dtype, layout=torch.strided, device=CPU, requires_grad=requires_grad)
        r.payload = payload
        r.meta = meta
        return r

    def __init__(self, *a, **k):
        pass

    __torch_function__ = torch._C._disabled_torch_function_impl

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    def __repr__(self, **kw):
        return "SymTensor(%s, %s)" % (tuple(self.shape), self.dtype)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return deepcopy_sym(self, memo)

    def __reduce_ex__(self, proto):
        raise Unsupported("pickling a symbolic tensor")


def deepcopy_sym(t, memo):
    if id(t) in memo:
        return memo[id(t)]
    if not t.is_leaf:
        raise RuntimeError("Only Tensors created explicitly by the user (graph leaves) support the "
                           "deepcopy protocol at the moment.")
    m = meta_empty(t.meta.shape, t.meta.dtype, t.meta.stride())
    pl = np.empty_like(t.payload)
    pl[...] = t.payload
    r = SymTensor(pl, m, requires_grad=t.requires_grad)
    if isinstance(t, torch.nn.Parameter):
        pass
    memo[id(t)] = r
    return r


def make(payload, dtype, requires_grad=False):
    payload = np.asarray(payload, dtype=object)
    m = meta_empty(payload.shape, dtype)
    return SymTensor(payload, m, requires_grad)


class SymScalar:
    """A Python number that is symbolic (what tensor.item() yields)."""

    def __init__(self, p, dtype):
        self.p = p
        self.dtype = dtype

    def to_poly(self):
        return self.p

    @property
    def __class__(self):
        """isinstance(x, float) and the like answer as they would for the number it stands for"""
        return complex if self.dtype.is_complex else float if self.dtype.is_floating_point else int

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        return NotImplemented

    def _b(self, o, f):
        if isinstance(o, torch.Tensor):
            return NotImplemented
        try:
            dt = o.dtype if isinstance(o, SymScalar) else torch.complex64 if isinstance(o, complex) else self.dtype
            return SymScalar(f(self.p, to_poly(o)), torch.promote_types(self.dtype, dt))
        except Unsupported:
            return NotImplemented

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._b(o, ENGINE.div)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: ENGINE.div(b, a))
    def __floordiv__(self, o): return self._b(o, ENGINE.floordiv)
    def __rfloordiv__(self, o): return self._b(o, lambda a, b: ENGINE.floordiv(b, a))
    def __mod__(self, o): return self._b(o, lambda a, b: a - ENGINE.floordiv(a, b) * b)
    def __rmod__(self, o): return self._b(o, lambda a, b: b - ENGINE.floordiv(b, a) * a)
    def __divmod__(self, o): return self // o, self % o
    def __floor__(self): return SymScalar(ENGINE.floor(self.p), torch.int64)
    def __ceil__(self): return SymScalar(-ENGINE.floor(-self.p), torch.int64)
    def __trunc__(self): return SymScalar(ENGINE.trunc(self.p), torch.int64)

    def __round__(self, n=None):
        if not n:
            return SymScalar(ENGINE.round(self.p), torch.int64 if n is None else self.dtype)
        k = P.const(10 ** n)
        return SymScalar(ENGINE.div(ENGINE.round(self.p * k), k), self.dtype)

    def __neg__(self): return SymScalar(-self.p, self.dtype)
    def __pos__(self): return self
    def __abs__(self): return SymScalar(ENGINE.abs(self.p), self.dtype)

    def __pow__(self, n):
        if type(n) is int:
            return SymScalar(self.p ** n if n >= 0 else ENGINE.recip(self.p ** -n), self.dtype)
        if n == 0.5:
            return SymScalar(ENGINE.sqrt(self.p), self.dtype)
        raise Unsupported("symbolic power")

    def __lt__(self, o): return cmp(">", to_poly(o) - self.p)
    def __gt__(self, o): return cmp(">", self.p - to_poly(o))
    def __le__(self, o): return cmp(">=", to_poly(o) - self.p)
    def __ge__(self, o): return cmp(">=", self.p - to_poly(o))
    def __eq__(self, o): return cmp("==", self.p - to_poly(o))
    def __ne__(self, o): return cmp("!=", self.p - to_poly(o))
    __hash__ = None

    @property
    def real(self): return SymScalar(self.p.real(), self.dtype)
    @property
    def imag(self): return SymScalar(self.p.imag(), self.dtype)
    def conjugate(self): return SymScalar(self.p.conj(), self.dtype)
    def item(self): return self

    def __bool__(self):
        return bool(as_bool(self.p))

    def _num(self):
        if ENGINE.const_sign(self.p) is None:
            raise Unsupported("a symbolic value is turned into a Python number")
        return self.p.evalf(lambda i: ENGINE_CONST(i))

    def __float__(self):
        return float(self._num().real)

    def __complex__(self):
        return complex(self._num())

    def __int__(self):
        return int(ENGINE.trunc(self.p).const_value()[0])

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "<sym>"


def ENGINE_CONST(i):
    from .poly import ATOMS
    return ATOMS.info[i]["val"]


def is_const_arr(a):
    return all((not isinstance(x, B)) and (isinstance(x, bool) or x.is_const()) for x in a.flat)


def py_number(x, dtype):
    """element -> Python number (constants) or SymScalar"""
    if isinstance(x, (bool,)):
        return x
    if isinstance(x, B):
        return bool(x)
    if x.is_const():
        a, b = x.const_value()
        if dtype.is_complex:
            return complex(float(a), float(b))
        if dtype.is_floating_point:
            return float(a)
        if dtype == torch.bool:
            return bool(a)
        return int(a)
    return SymScalar(x, dtype)


# ---------------------------------------------------------------- elementwise
def P_(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, B):
        return ONE if bool(x) else ZERO
    return to_poly(x)


def emap(f, *arrs):
    bs = np.broadcast_arrays(*[np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in arrs])
    out = np.empty(bs[0].shape, object)
    if out.ndim == 0:
        out[()] = f(*[b[()] for b in bs])
        return out
    fo = out.reshape(-1)
    for k, xs in enumerate(zip(*[b.flat for b in bs])):
        fo[k] = f(*xs)
    return out


def arr0(x):
    a = np.empty((), object)
    a[()] = x
    return a


def matmul2(A, B_):
    n, k = A.shape
    k2, m = B_.shape
    out = np.empty((n, m), object)
    from .poly import mul_into
    rows = [[(t, A[i, t].d) for t in range(k) if A[i, t].d] for i in range(n)]
    cols = [{t: B_[t, j].d for t in range(k) if B_[t, j].d} for j in range(m)]
    for i in range(n):
        for j in range(m):
            r = {}
            cj = cols[j]
            for t, d in rows[i]:
                e = cj.get(t)
                if e is not None:
                    mul_into(r, d, e)
            out[i, j] = P(r) if r else ZERO
    return out


class Arg:
    """a tensor argument as seen by a handler"""
    __slots__ = ("a", "meta", "dtype")

    def __init__(self, a, meta):
        self.a = a
        self.meta = meta
        self.dtype = meta.dtype


def as_arg(t):
    if isinstance(t, SymTensor):
        return Arg(t.payload, t.meta)
    if isinstance(t, torch.Tensor):
        if t.device.type == "meta":
            raise Unsupported("meta tensor in the code under test")
        return Arg(from_real(t), meta_empty(t.shape, t.dtype, t.stride()))
    raise Unsupported("tensor argument %r" % type(t))


def val(x):
    """operand: Arg -> array, python number / SymScalar -> 0-d array of P"""
    if isinstance(x, Arg):
        return x.a
    if isinstance(x, SymScalar):
        return arr0(x.p)
    return arr0(to_poly(x) if not isinstance(x, bool) else x)


H = {}


def h(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


def binop(f):
    return lambda out, x, y, **k: emap(lambda a, b: f(P_(a), P_(b)), val(x), val(y))


H["mul"] = binop(lambda a, b: a * b)
H["maximum"] = binop(lambda a, b: a if bool(cmp(">=", a - b)) else b)
H["minimum"] = binop(lambda a, b: b if bool(cmp(">=", a - b)) else a)


@h("add")
def _(out, x, y, alpha=1):
    if out.dtype == torch.bool:
        return emap(lambda a, b: bdisj([as_bool(a), as_bool(b)]), val(x), val(y))
    al = to_poly(alpha)
    if alpha == 1:
        return emap(lambda a, b: P_(a) + P_(b), val(x), val(y))
    return emap(lambda a, b: P_(a) + P_(b) * al, val(x), val(y))


@h("sub")
def _(out, x, y, alpha=1):
    al = to_poly(alpha)
    return emap(lambda a, b: P_(a) - P_(b) * al, val(x), val(y))


@h("rsub")
def _(out, x, y, alpha=1):
    al = to_poly(alpha)
    return emap(lambda a, b: P_(b) - P_(a) * al, val(x), val(y))


def floordiv_c(a, b, mode):
    return ENGINE.floordiv(a, b, mode)


@h("div")
def _(out, x, y, rounding_mode=None):
    if rounding_mode is not None:
        return emap(lambda a, b: floordiv_c(P_(a), P_(b), rounding_mode), val(x), val(y))
    return emap(lambda a, b: ENGINE.div(P_(a), P_(b)), val(x), val(y))


H["true_divide"] = H["div"]
H["floor_divide"] = lambda out, x, y: emap(lambda a, b: floordiv_c(P_(a), P_(b), "floor"), val(x), val(y))


@h("remainder")
def _(out, x, y):
    return emap(lambda a, b: P_(a) - floordiv_c(P_(a), P_(b), "floor") * P_(b), val(x), val(y))


@h("fmod")
def _(out, x, y):
    return emap(lambda a, b: P_(a) - floordiv_c(P_(a), P_(b), "trunc") * P_(b), val(x), val(y))


@h("frac")
def _(out, x):
    return emap(lambda a: P_(a) - ENGINE.trunc(a), val(x))


def unop(f):
    return lambda out, x, **k: emap(lambda a: f(P_(a)), val(x))


H["neg"] = unop(lambda a: -a)
H["reciprocal"] = unop(lambda a: ENGINE.recip(a))
H["sqrt"] = unop(lambda a: ENGINE.sqrt(a))
H["rsqrt"] = unop(lambda a: ENGINE.recip(ENGINE.sqrt(a)))
H["cos"] = unop(lambda a: ENGINE.cossin(a)[0])
H["sin"] = unop(lambda a: ENGINE.cossin(a)[1])
H["tan"] = unop(lambda a: ENGINE.div(ENGINE.cossin(a)[1], ENGINE.cossin(a)[0]))
H["exp"] = unop(lambda a: ENGINE.exp(a))
H["abs"] = unop(lambda a: ENGINE.abs(a))
H["square"] = unop(lambda a: a * a)
H["conj_physical"] = unop(lambda a: a.conj())
H["_conj_physical"] = H["conj_physical"]
H["_neg_view"] = unop(lambda a: -a)
H["relu"] = unop(lambda a: a if bool(cmp(">", a)) else ZERO)
H["sgn"] = unop(lambda a: ENGINE.div(a, ENGINE.abs(a)) if ENGINE.const_sign(a) != 0 else ZERO)
H["sign"] = unop(lambda a: ZERO if ENGINE.const_sign(a) == 0 else (ONE if bool(cmp(">", a)) else (
    ZERO if bool(cmp("==", a)) else -ONE)))
H["positive"] = unop(lambda a: a)
H["deg2rad"] = unop(lambda a: a * ENGINE.pi() * to_poly(_e.Fraction(1, 180)))


@h("_conj")
def _(out, x):
    return emap(lambda a: P_(a).conj(), x.a)


H["resolve_conj"] = lambda out, x: x.a
H["resolve_neg"] = lambda out, x: x.a


@h("pow")
def _(out, x, y):
    def f(a, b):
        a, b = P_(a), P_(b)
        if not b.is_const():
            if a.is_const() and a.const_value() == (1, 0):
                return ONE
            raise Unsupported("symbolic exponent")
        q, im = b.const_value()
        if im != 0:
            raise Unsupported("complex exponent")
        q = _e.Fraction(q)
        if q.denominator == 1:
            n = int(q)
            return a ** n if n >= 0 else ENGINE.recip(a ** (-n))
        if q.denominator == 2:
            s = ENGINE.sqrt(a)
            n = int(q * 2)
            return s ** n if n >= 0 else ENGINE.recip(s ** (-n))
        raise Unsupported("power %s" % q)
    return emap(f, val(x), val(y))


for _n, _op in (("gt", ">"), ("ge", ">="), ("lt", "<"), ("le", "<=")):
    H[_n] = (lambda op: lambda out, x, y: emap(lambda a, b: cmp(op, P_(a) - P_(b)), val(x), val(y)))(_op)


def eq_el(a, b):
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        a, b = as_bool(a), as_bool(b)
        return bdisj([bconj([a, b]), bconj([neg(a), neg(b)])])
    return cmp("==", P_(a) - P_(b))


H["eq"] = lambda out, x, y: emap(eq_el, val(x), val(y))
H["ne"] = lambda out, x, y: emap(lambda a, b: neg(eq_el(a, b)), val(x), val(y))
H["logical_not"] = lambda out, x: emap(lambda a: neg(as_bool(a)), val(x))
H["bitwise_not"] = H["logical_not"]
H["logical_and"] = lambda out, x, y: emap(lambda a, b: bconj([as_bool(a), as_bool(b)]), val(x), val(y))
H["logical_or"] = lambda out, x, y: emap(lambda a, b: bdisj([as_bool(a), as_bool(b)]), val(x), val(y))


def bool_only(name):
    f = H[name]

    def g(out, x, y):
        if out.dtype != torch.bool:
            raise Unsupported("bitwise op on integers")
        return f(out, x, y)
    return g


H["bitwise_and"] = bool_only("logical_and")
H["bitwise_or"] = bool_only("logical_or")
H["isnan"] = lambda out, x: emap(lambda a: False, val(x))
H["isinf"] = H["isnan"]
H["isfinite"] = lambda out, x: emap(lambda a: True, val(x))
H["is_nonzero"] = None
del H["is_nonzero"]


@h("where")
def _(out, c, x=None, y=None):
    return emap(lambda k, a, b: a if bool(as_bool(k)) else b, val(c), val(x), val(y))


@h("masked_fill")
def _(out, x, m, v):
    return emap(lambda a, k, b: b if bool(as_bool(k)) else a, val(x), val(m), val(v))


@h("clamp", "clamp_min", "clamp_max")
def _(out, x, lo=None, hi=None, min=None, max=None):
    lo = lo if lo is not None else min
    hi = hi if hi is not None else max

    def f(a):
        a = P_(a)
        if lo is not None and not bool(cmp(">=", a - to_poly(lo))):
            a = to_poly(lo)
        if hi is not None and bool(cmp(">", a - to_poly(hi))):
            a = to_poly(hi)
        return a
    return emap(f, val(x))


@h("complex")
def _(out, x, y):
    return emap(lambda a, b: P_(a) + P_(b) * I_UNIT, val(x), val(y))


@h("polar")
def _(out, x, y):
    def f(a, b):
        c, s = ENGINE.cossin(P_(b))
        return P_(a) * (c + s * I_UNIT)
    return emap(f, val(x), val(y))


@h("lerp")
def _(out, a, b, w):
    return emap(lambda p, q, t: P_(p) + P_(t) * (P_(q) - P_(p)), val(a), val(b), val(w))


@h("addcmul")
def _(out, a, b, c, value=1):
    return emap(lambda p, q, t: P_(p) + P_(q) * P_(t) * to_poly(value), val(a), val(b), val(c))


# ---------------------------------------------------------------- products
H["mm"] = lambda out, x, y, *r: matmul2(x.a, y.a)
H["mv"] = lambda out, x, y: matmul2(x.a, y.a.reshape(-1, 1)).reshape(-1)
H["dot"] = lambda out, x, y: matmul2(x.a.reshape(1, -1), y.a.reshape(-1, 1)).reshape(())
H["vdot"] = lambda out, x, y: matmul2(emap(lambda a: P_(a).conj(), x.a).reshape(1, -1), y.a.reshape(-1, 1)).reshape(())
H["ger"] = lambda out, x, y: matmul2(x.a.reshape(-1, 1), y.a.reshape(1, -1))
H["outer"] = H["ger"]


@h("bmm")
def _(out, x, y, *r):
    o = np.empty((x.a.shape[0], x.a.shape[1], y.a.shape[2]), object)
    for b in range(o.shape[0]):
        o[b] = matmul2(x.a[b], y.a[b])
    return o


def scl(arr, c):
    if type(c) in (int, float) and c == 1:
        return arr
    c = to_poly(c)
    return emap(lambda a: a * c, arr)


@h("addmm")
def _(out, s, x, y, beta=1, alpha=1):
    return emap(lambda a, b: P_(a) + b, scl(s.a, beta), scl(matmul2(x.a, y.a), alpha))


@h("addmv")
def _(out, s, x, y, beta=1, alpha=1):
    return emap(lambda a, b: P_(a) + b, scl(s.a, beta), scl(matmul2(x.a, y.a.reshape(-1, 1)).reshape(-1), alpha))


@h("baddbmm")
def _(out, s, x, y, beta=1, alpha=1):
    return emap(lambda a, b: P_(a) + b, scl(s.a, beta), scl(H["bmm"](None, x, y), alpha))


@h("kron")
def _(out, x, y):
    a, b = x.a, y.a
    nd = max(a.ndim, b.ndim)
    a = a.reshape((1,) * (nd - a.ndim) + a.shape)
    b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    sa = [s for t in a.shape for s in (t, 1)]
    sb = [s for t in b.shape for s in (1, t)]
    o = emap(lambda p, q: P_(p) * P_(q), a.reshape(sa), b.reshape(sb))
    return o.reshape([s * t for s, t in zip(a.shape, b.shape)])


# ---------------------------------------------------------------- reductions
def psum(xs):
    from .poly import mul_into
    r = {}
    one = ONE.d
    for x in xs:
        x = P_(x)
        if x.d:
            mul_into(r, one, x.d) if len(x.d) > 1 else mul_into(r, x.d, one)
    return P(r) if r else ZERO


def reduce_dims(a, dims, keep, f):
    nd = a.ndim
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    dims = sorted({d % nd if nd else 0 for d in dims}) if nd else []
    keepd = [d for d in range(nd) if d not in dims]
    t = np.transpose(a, keepd + dims)
    sh = [a.shape[d] for d in keepd]
    o = np.empty(sh, object)
    t = t.reshape(sh + [-1]) if a.size else np.empty(sh + [0], object)
    for ix in np.ndindex(*sh):
        o[ix] = f(list(t[ix]))
    if keep:
        o = o.reshape([1 if d in dims else a.shape[d] for d in range(nd)])
    return o


@h("sum")
def _(out, x, dim=None, keepdim=False, dtype=None):
    return reduce_dims(x.a, dim, keepdim, psum)


@h("mean")
def _(out, x, dim=None, keepdim=False, dtype=None):
    return reduce_dims(x.a, dim, keepdim, lambda xs: psum(xs).scale(_e.Fraction(1, len(xs))))


def pprod(xs):
    r = ONE
    for x in xs:
        r = r * P_(x)
    return r


@h("prod")
def _(out, x, dim=None, keepdim=False, dtype=None):
    return reduce_dims(x.a, dim, keepdim, pprod)


@h("cumsum")
def _(out, x, dim, dtype=None):
    o = np.empty(x.a.shape, object)
    src = np.moveaxis(x.a, dim, -1) if x.a.ndim else x.a.reshape(1)
    dst = np.moveaxis(o, dim, -1) if o.ndim else o.reshape(1)
    for ix in np.ndindex(*src.shape[:-1]):
        s = ZERO
        for k in range(src.shape[-1]):
            s = s + P_(src[ix + (k,)])
            dst[ix + (k,)] = s
    return o


@h("cumprod")
def _(out, x, dim, dtype=None):
    o = np.empty(x.a.shape, object)
    src = np.moveaxis(x.a, dim, -1) if x.a.ndim else x.a.reshape(1)
    dst = np.moveaxis(o, dim, -1) if o.ndim else o.reshape(1)
    for ix in np.ndindex(*src.shape[:-1]):
        s = ONE
        for k in range(src.shape[-1]):
            s = s * P_(src[ix + (k,)])
            dst[ix + (k,)] = s
    return o


@h("trace")
def _(out, x):
    return arr0(psum([x.a[i, i] for i in range(min(x.a.shape))]))


def norm2(xs):
    xs = [P_(x) for x in xs]
    s = psum([x * x.conj() for x in xs])
    if len(xs) == 1:
        return ENGINE.abs(xs[0])
    return ENGINE.sqrt(s)


@h("linalg_vector_norm")
def _(out, x, ord=2, dim=None, keepdim=False, dtype=None):
    if ord == 2:
        f = norm2
    elif ord == 1:
        f = lambda xs: psum([ENGINE.abs(P_(v)) for v in xs])
    elif ord == math.inf:
        f = lambda xs: pmax([ENGINE.abs(P_(v)) for v in xs])
    else:
        raise Unsupported("norm order %r" % ord)
    return reduce_dims(x.a, dim, keepdim, f)


@h("norm")
def _(out, x, p=2, dim=None, keepdim=False, dtype=None):
    return H["linalg_vector_norm"](out, x, 2 if p is None else p, dim, keepdim)


@h("_linalg_det")
def _(out, x):
    raise Unsupported("determinant")


def pmax(xs, sgn=1):
    b = P_(xs[0])
    for x in xs[1:]:
        x = P_(x)
        if bool(cmp(">", (x - b) if sgn > 0 else (b - x))):
            b = x
    return b


@h("max", "amax")
def _(out, x, dim=None, keepdim=False):
    if isinstance(dim, int) and isinstance(out, (tuple, list)):
        return [reduce_dims(x.a, dim, keepdim, lambda xs: xs[argm(xs, 1)]),
                reduce_dims(x.a, dim, keepdim, lambda xs: P.const(argm(xs, 1)))]
    if isinstance(dim, Arg):
        return H["maximum"](out, x, dim)
    return reduce_dims(x.a, dim, keepdim, pmax)


@h("min", "amin")
def _(out, x, dim=None, keepdim=False):
    if isinstance(dim, int) and isinstance(out, (tuple, list)):
        return [reduce_dims(x.a, dim, keepdim, lambda xs: xs[argm(xs, -1)]),
                reduce_dims(x.a, dim, keepdim, lambda xs: P.const(argm(xs, -1)))]
    if isinstance(dim, Arg):
        return H["minimum"](out, x, dim)
    return reduce_dims(x.a, dim, keepdim, lambda xs: pmax(xs, -1))


def argm(xs, sgn):
    k = 0
    for i in range(1, len(xs)):
        d = P_(xs[i]) - P_(xs[k])
        if bool(cmp(">", d if sgn > 0 else -d)):
            k = i
    return k


H["argmax"] = lambda out, x, dim=None, keepdim=False: reduce_dims(x.a, dim, keepdim, lambda xs: P.const(argm(xs, 1)))
H["argmin"] = lambda out, x, dim=None, keepdim=False: reduce_dims(x.a, dim, keepdim, lambda xs: P.const(argm(xs, -1)))
H["any"] = lambda out, x, dim=None, keepdim=False: reduce_dims(x.a, dim, keepdim, lambda xs: bdisj([as_bool(v) for v in xs]))
H["all"] = lambda out, x, dim=None, keepdim=False: reduce_dims(x.a, dim, keepdim, lambda xs: bconj([as_bool(v) for v in xs]))


# ---------------------------------------------------------------- views
def _shape(out):
    return tuple(out.shape)


for _n in ("view", "_unsafe_view", "reshape", "_reshape_alias", "unsqueeze", "squeeze", "flatten", "view_as",
           "_reshape_copy", "view_copy", "unflatten"):
    H[_n] = lambda out, x, *r, **k: x.a.reshape(_shape(out))
for _n in ("alias", "detach", "lift_fresh", "lift", "_to_copy_view", "view_as_complex_id"):
    H[_n] = lambda out, x, *r, **k: x.a


@h("permute")
def _(out, x, dims):
    return np.transpose(x.a, [d % x.a.ndim for d in dims] if x.a.ndim else [])


@h("transpose", "swapaxes")
def _(out, x, a, b):
    return np.swapaxes(x.a, a, b) if x.a.ndim else x.a


@h("movedim")
def _(out, x, a, b):
    return np.moveaxis(x.a, a, b)


@h("t", "numpy_T")
def _(out, x):
    return x.a.T


@h("mT")
def _(out, x):
    return np.swapaxes(x.a, -1, -2)


@h("expand", "expand_as")
def _(out, x, *r, **k):
    return np.broadcast_to(x.a, _shape(out))


@h("select")
def _(out, x, dim, index):
    ix = [slice(None)] * x.a.ndim
    ix[dim] = int(index)
    r = x.a[tuple(ix)]
    if not isinstance(r, np.ndarray):
        # keep aliasing for scalars
        ix[dim] = slice(int(index) % x.a.shape[dim], int(index) % x.a.shape[dim] + 1)
        r = x.a[tuple(ix)].reshape(_shape(out))
    return r


@h("slice")
def _(out, x, dim=0, start=None, end=None, step=1):
    ix = [slice(None)] * x.a.ndim
    n = x.a.shape[dim]
    s = 0 if start is None else start
    e = n if end is None else end
    s = max(s + n, 0) if s < 0 else min(s, n)
    e = max(e + n, 0) if e < 0 else min(e, n)
    ix[dim] = slice(s, max(e, s), step)
    return x.a[tuple(ix)]


@h("narrow")
def _(out, x, dim, start, length):
    return H["slice"](out, x, dim, start, start + length)


@h("diagonal")
def _(out, x, offset=0, dim1=0, dim2=1):
    r = np.diagonal(x.a, offset, dim1, dim2)
    r.flags.writeable = True if r.base is None else r.flags.writeable
    return r


H["diagonal_copy"] = lambda out, x, offset=0, dim1=0, dim2=1: np.array(np.diagonal(x.a, offset, dim1, dim2))


@h("diag")
def _(out, x, k=0):
    return np.array(np.diagonal(x.a, k)) if x.a.ndim == 2 else H["diag_embed"](out, x, k)


@h("diag_embed")
def _(out, x, offset=0, dim1=-2, dim2=-1):
    o = np.empty(_shape(out), object)
    o[...] = ZERO
    v = np.moveaxis(o, (dim1, dim2), (-2, -1))
    n = x.a.shape[-1]
    for k in range(n):
        i, j = (k, k + offset) if offset >= 0 else (k - offset, k)
        v[..., i, j] = x.a[..., k]
    return o


@h("view_as_real", "view_as_real_copy")
def _(out, x):
    o = np.empty(_shape(out), object)
    for ix in np.ndindex(*x.a.shape):
        p = P_(x.a[ix])
        o[ix + (0,)] = p.real()
        o[ix + (1,)] = p.imag()
    return o


@h("view_as_complex", "view_as_complex_copy")
def _(out, x):
    return emap(lambda a, b: P_(a) + P_(b) * I_UNIT, x.a[..., 0], x.a[..., 1])


H["real"] = lambda out, x: emap(lambda a: P_(a).real(), x.a)
H["imag"] = lambda out, x: emap(lambda a: P_(a).imag(), x.a)


@h("split", "split_with_sizes", "chunk", "tensor_split", "unsafe_split", "unsafe_chunk", "split_copy",
   "split_with_sizes_copy")
def _(out, x, size, dim=0):
    res, s = [], 0
    for o in out:
        n = o.shape[dim]
        res.append(H["slice"](None, x, dim, s, s + n))
        s += n
    return res


@h("unbind", "unbind_copy")
def _(out, x, dim=0):
    return [H["select"](o, x, dim, k) for k, o in enumerate(out)]


@h("cat", "concat", "concatenate")
def _(out, xs, dim=0):
    nd = len(out.shape)
    xs = [x.a for x in xs if not (x.a.ndim == 1 and x.a.size == 0 and nd != 1)]
    return np.concatenate(xs, axis=dim)


@h("stack")
def _(out, xs, dim=0):
    return np.stack([x.a for x in xs], axis=dim)


@h("repeat")
def _(out, x, reps):
    a = x.a.reshape((1,) * (len(reps) - x.a.ndim) + x.a.shape)
    return np.tile(a, reps)


H["tile"] = H["repeat"]


@h("repeat_interleave")
def _(out, x, n, dim=None, output_size=None):
    if not isinstance(n, int):
        raise Unsupported("repeat_interleave")
    return np.repeat(x.a.reshape(-1) if dim is None else x.a, n, axis=0 if dim is None else dim)


@h("roll")
def _(out, x, shifts, dims=()):
    if not dims:
        return np.roll(x.a.reshape(-1), shifts).reshape(x.a.shape)
    return np.roll(x.a, shifts, dims)


@h("flip")
def _(out, x, dims):
    return np.array(np.flip(x.a, dims))


@h("rot90")
def _(out, x, k=1, dims=(0, 1)):
    return np.array(np.rot90(x.a, k, dims))


@h("tril")
def _(out, x, k=0):
    return tri(x, lambda i, j: j - i <= k)


@h("triu")
def _(out, x, k=0):
    return tri(x, lambda i, j: j - i >= k)


def tri(x, f):
    o = np.array(x.a)
    for i in range(o.shape[-2]):
        for j in range(o.shape[-1]):
            if not f(i, j):
                o[..., i, j] = ZERO
    return o


def idx_list(t):
    return [int_of(v) for v in t.a.reshape(-1)]


def int_of(v):
    if isinstance(v, bool):
        return int(v)
    if not isinstance(v, P) or not v.is_const():
        raise Unsupported("symbolic index")
    return int(v.const_value()[0])


@h("index_select")
def _(out, x, dim, index):
    if x.a.ndim == 0:
        return x.a.copy()
    ix = idx_list(index)
    n = x.a.shape[dim]
    for i in ix:
        if not 0 <= i < n:
            raise IndexError("index out of range in self")
    return np.take(x.a, np.array(ix, dtype=np.int64), axis=dim)


@h("gather")
def _(out, x, dim, index, sparse_grad=False):
    ix = np.vectorize(int_of, otypes=[np.int64])(index.a) if index.a.size else index.a.astype(np.int64)
    return np.take_along_axis(x.a, ix, dim)


def np_index(x, indices):
    key = []
    for t in indices:
        if t is None:
            key.append(slice(None))
        elif t.dtype in (torch.bool, torch.uint8):
            m = np.empty(t.a.shape, bool)
            for ix in np.ndindex(*t.a.shape):
                m[ix] = bool(as_bool(t.a[ix]))
            if m.shape != x.a.shape[len(key):len(key) + m.ndim]:
                raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
            key.extend(np.nonzero(m) if m.ndim else (m,))
        else:
            k = np.empty(t.a.shape, np.int64)
            for ix in np.ndindex(*t.a.shape):
                k[ix] = int_of(t.a[ix])
            key.append(k)
    for d, k in enumerate(key):
        if isinstance(k, np.ndarray) and k.dtype == np.int64 and k.size:
            if k.max() >= x.a.shape[d] or k.min() < -x.a.shape[d]:
                raise IndexError("index out of range")
    return tuple(key)


def h_index(x, indices):
    r = x.a[np_index(x, indices)]
    if not isinstance(r, np.ndarray):
        r = arr0(r)
    return r


@h("index_put")
def _(out, x, indices, values, accumulate=False):
    o = np.array(x.a)
    k = np_index(x, indices)
    if accumulate:
        v = np.broadcast_to(val(values), o[k].shape if isinstance(o[k], np.ndarray) else ())
        flat = np.arange(o.size).reshape(o.shape)[k]
        of = o.reshape(-1)
        for i, w in zip(np.ravel(flat), v.flat):
            of[i] = P_(of[i]) + P_(w)
        return of.reshape(o.shape)
    v = val(values)
    o[k] = v if v.ndim else v[()]
    return o


H["_index_put_impl"] = lambda out, x, i, v, accumulate=False, unsafe=False: H["index_put"](out, x, i, v, accumulate)


@h("index_add")
def _(out, x, dim, index, src, alpha=1):
    o = np.array(x.a)
    ov = np.moveaxis(o, dim, 0) if o.ndim else o.reshape(1)
    sv = np.moveaxis(src.a, dim, 0) if src.a.ndim else src.a.reshape(1)
    al = to_poly(alpha)
    for k, i in enumerate(idx_list(index)):
        ov[i] = emap(lambda a, b: P_(a) + P_(b) * al, ov[i], sv[k]) if o.ndim > 1 else P_(ov[i]) + P_(sv[k]) * al
    return o


@h("index_copy")
def _(out, x, dim, index, src):
    o = np.array(x.a)
    ov = np.moveaxis(o, dim, 0)
    sv = np.moveaxis(src.a, dim, 0)
    for k, i in enumerate(idx_list(index)):
        ov[i] = sv[k]
    return o


@h("index_fill")
def _(out, x, dim, index, v):
    o = np.array(x.a)
    ov = np.moveaxis(o, dim, 0)
    for i in idx_list(index):
        ov[i] = val(v)[()]
    return o


@h("scatter", "scatter_add")
def _(out, x, dim, index, src, **k):
    raise Unsupported("scatter")


@h("select_backward")
def _(out, g, sizes, dim, index):
    o = np.empty(tuple(sizes), object)
    o[...] = ZERO
    ix = [slice(None)] * len(sizes)
    ix[dim] = int(index)
    o[tuple(ix)] = g.a if g.a.ndim else g.a[()]
    return o


@h("slice_backward")
def _(out, g, sizes, dim, start, end, step):
    o = np.empty(tuple(sizes), object)
    o[...] = ZERO
    w = H["slice"](None, Arg(o, meta_empty((0,), torch.float32)), dim, start, end, step)
    w[...] = g.a
    return o


@h("diagonal_backward")
def _(out, g, sizes, offset, d1, d2):
    o = np.empty(tuple(sizes), object)
    o[...] = ZERO
    v = np.moveaxis(o, (d1, d2), (-2, -1))
    for k in range(g.a.shape[-1]):
        i, j = (k, k + offset) if offset >= 0 else (k - offset, k)
        v[..., i, j] = g.a[..., k]
    return o


@h("constant_pad_nd")
def _(out, x, pad, value=0):
    o = np.empty(_shape(out), object)
    o[...] = to_poly(value)
    ix = [slice(None)] * x.a.ndim
    for k in range(len(pad) // 2):
        d = x.a.ndim - 1 - k
        if pad[2 * k] < 0 or pad[2 * k + 1] < 0:
            raise Unsupported("negative padding")
        ix[d] = slice(pad[2 * k], pad[2 * k] + x.a.shape[d])
    o[tuple(ix)] = x.a
    return o


@h("unfold")
def _(out, x, dim, size, step):
    n = (x.a.shape[dim] - size) // step + 1 if x.a.ndim else 1
    parts = [np.moveaxis(np.take(x.a, range(i * step, i * step + size), axis=dim), dim, -1) for i in range(n)]
    return np.stack(parts, axis=dim)


# ---------------------------------------------------------------- copies, factories
for _n in ("clone", "contiguous", "lift_fresh_copy", "detach_copy", "alias_copy"):
    H[_n] = lambda out, x, *r, **k: np.array(x.a) if x.a.ndim else x.a.copy()


def cast(a, src, dst):
    if src == dst:
        return np.array(a) if a.ndim else a.copy()
    if dst == torch.bool:
        return emap(as_bool, a)
    if src.is_complex and not dst.is_complex:
        a = emap(lambda v: P_(v).real(), a)
    if not dst.is_floating_point and not dst.is_complex and (src.is_floating_point or src.is_complex):
        def f(v):
            return ENGINE.trunc(P_(v))
        return emap(f, a)
    return emap(P_, a)


@h("_to_copy", "to")
def _(out, x, *r, **k):
    return cast(x.a, x.dtype, out.dtype)


def full(out, v):
    o = np.empty(_shape(out), object)
    v = bool(v) if out.dtype == torch.bool and not isinstance(v, SymScalar) else (v.p if isinstance(v, SymScalar) else to_poly(v))
    o[...] = v
    return o


for _n in ("zeros", "zeros_like", "new_zeros", "empty", "empty_like", "new_empty", "empty_strided", "empty_permuted",
           "new_empty_strided", "_efficientzerotensor"):
    H[_n] = lambda out, *r, **k: full(out, 0)
for _n in ("ones", "ones_like", "new_ones"):
    H[_n] = lambda out, *r, **k: full(out, 1)
H["full"] = lambda out, size, v, **k: full(out, v)
H["full_like"] = lambda out, x, v, **k: full(out, v)
H["new_full"] = lambda out, x, size, v, **k: full(out, v)
H["scalar_tensor"] = lambda out, v, **k: full(out, v)


@h("eye")
def _(out, n, m=None, **k):
    o = full(out, 0)
    for i in range(min(o.shape)):
        o[i, i] = ONE if out.dtype != torch.bool else True
    return o


@h("arange")
def _(out, *a, **k):
    a = [x for x in a]
    start, end, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    o = np.empty(_shape(out), object)
    for i in range(o.shape[0]):
        o[i] = to_poly(start) + to_poly(step).scale(i)
    return o


@h("linspace")
def _(out, s, e, steps, **k):
    o = np.empty(_shape(out), object)
    for i in range(steps):
        o[i] = to_poly(s) + (to_poly(e) - to_poly(s)).scale(_e.Fraction(i, max(steps - 1, 1)))
    return o


def random_payload(out):
    """an arbitrary real value for every element (uniform/normal draws)"""
    o = np.empty(_shape(out), object)
    ENGINE.nrand = getattr(ENGINE, "nrand", 0) + 1
    from .poly import ATOMS
    for k, ix in enumerate(np.ndindex(*o.shape)):
        i = ATOMS.real("rnd%d_%d" % (ENGINE.nrand, k), kind="input")
        ENGINE.cache[("rnd", i)] = True
        ENGINE.values[i] = lambda env, i=i: 0.1 + 0.37 * ((i * 7919) % 17) / 17
        o[ix] = P.atom(i)
    return o


for _n in ("rand", "randn", "rand_like", "randn_like", "uniform", "normal", "normal_", "bernoulli"):
    H[_n] = lambda out, *r, **k: random_payload(out)

H["fill"] = lambda out, x, v: full(out, v) if not isinstance(v, Arg) else np.broadcast_to(v.a, _shape(out)).copy()
H["zero"] = lambda out, x: full(out, 0)
H["copy"] = lambda out, x, y, non_blocking=False: cast(np.broadcast_to(y.a, x.a.shape), y.dtype, x.dtype)


@h("_linalg_svd")
def _(out, A, full_matrices=False, compute_uv=True, driver=None):
    if full_matrices and A.a.shape[-1] != A.a.shape[-2]:
        raise Unsupported("full SVD")
    if A.a.ndim == 2:
        return list(ENGINE.svd(emap(P_, A.a), A.dtype.is_complex))
    bs = A.a.shape[:-2]
    o = [np.empty(_shape(t), object) for t in out]
    for ix in np.ndindex(*bs):
        r = ENGINE.svd(emap(P_, A.a[ix]), A.dtype.is_complex)
        for t, v in zip(o, r):
            t[ix] = v
    return o


@h("linalg_cross", "linalg_eigh", "_linalg_eigh", "linalg_qr", "linalg_eig", "linalg_inv_ex", "_linalg_solve_ex",
   "linalg_matrix_exp", "logdet", "inverse", "sort", "topk", "log", "log2", "atan", "atan2", "angle", "acos", "asin",
   "tanh", "sigmoid", "erf", "_fft_c2c", "_fft_r2c", "multinomial", "randint",
   "randperm", "cdist_forward", "_softmax", "_log_softmax")
def _unsup(out, *a, **k):
    raise Unsupported("operation outside the encoding")


H["floor"] = unop(lambda a: ENGINE.floor(a))
H["ceil"] = unop(lambda a: -ENGINE.floor(-a))
H["trunc"] = unop(lambda a: ENGINE.trunc(a))


@h("round")
def _(out, x, decimals=0):
    k = P.const(10 ** decimals)
    return emap(lambda a: ENGINE.div(ENGINE.round(P_(a) * k), k) if decimals else ENGINE.round(P_(a)), val(x))


@h("nonzero")
def _nonzero(x):
    m = np.empty(x.a.shape, bool)
    for ix in np.ndindex(*m.shape):
        m[ix] = bool(as_bool(x.a[ix]))
    r = np.argwhere(m)
    o = np.empty(r.shape, object)
    for ix in np.ndindex(*r.shape):
        o[ix] = P.const(int(r[ix]))
    return o


# ---------------------------------------------------------------- dispatch
FACTORY = {"empty", "zeros", "ones", "full", "eye", "arange", "rand", "randn", "linspace", "scalar_tensor", "empty_strided",
           "empty_permuted", "_efficientzerotensor"}
OPS_SEEN = {}
DEPTH = 0


def to_meta(x):
    if isinstance(x, Arg):
        return x.meta
    if isinstance(x, (list, tuple)):
        return type(x)(to_meta(y) for y in x)
    if isinstance(x, SymScalar):
        return 1.5 if not x.dtype.is_complex else 1.5 + 0.5j
    if isinstance(x, torch.device):
        return torch.device("meta")
    return x


def conv(x):
    if isinstance(x, torch.Tensor):
        return as_arg(x)
    if isinstance(x, (list, tuple)):
        return [conv(y) for y in x]
    return x


def wrap(payload, meta):
    if payload.dtype != object:
        payload = payload.astype(object)
    if tuple(payload.shape) != tuple(meta.shape):
        raise Unsupported("shape mismatch %s vs %s" % (payload.shape, tuple(meta.shape)))
    return SymTensor(payload, meta)


def dispatch(func, args, kwargs):
    name = func._schema.name.split("::")[-1]
    ns = func._schema.name.split("::")[0]
    OPS_SEEN[name] = OPS_SEEN.get(name, 0) + 1
    if ns == "prim":
        return CPU if name == "device" else func(*args, **kwargs)
    over = func._overloadname
    a = [conv(x) for x in args]
    if len(a) == 1 and isinstance(a[0], (int, float, complex, SymScalar)) and str(func._schema.arguments[0].type) == "Tensor":
        # a Python number the front end had wrapped as a tensor
        dt = a[0].dtype if isinstance(a[0], SymScalar) else torch.complex64 if isinstance(a[0], complex) else \
            torch.float32 if isinstance(a[0], float) else torch.int64
        a[0] = Arg(val(a[0]), meta_empty((), dt))
    k = {n: conv(x) for n, x in kwargs.items()}
    # data dependent results
    if name == "_local_scalar_dense":
        return py_number(a[0].a.reshape(-1)[0], a[0].dtype)
    if name == "is_nonzero":
        return bool(as_bool(a[0].a.reshape(-1)[0]))
    if name == "equal":
        if tuple(a[0].a.shape) != tuple(a[1].a.shape):
            return False
        return bool(bconj([eq_el(p, q) for p, q in zip(a[0].a.flat, a[1].a.flat)]))
    if name == "item":
        return py_number(a[0].a.reshape(-1)[0], a[0].dtype)
    if name == "allclose":
        rt = k.get("rtol", a[2] if len(a) > 2 else 1e-5)
        at = k.get("atol", a[3] if len(a) > 3 else 1e-8)
        bs = []
        for p, q in zip(*[t.flat for t in np.broadcast_arrays(a[0].a, a[1].a)]):
            p, q = P_(p), P_(q)
            bs.append(cmp(">=", to_poly(at) + to_poly(rt) * ENGINE.abs(q) - ENGINE.abs(p - q)))
        return bool(bconj(bs))
    if name == "nonzero":
        p = H["nonzero"](a[0])
        return wrap(p, meta_empty(p.shape, torch.int64))
    if name == "index":
        p = h_index(a[0], a[1])
        return wrap(p, meta_empty(p.shape, a[0].dtype))
    if name == "masked_select":
        x, m = np.broadcast_arrays(a[0].a, a[1].a)
        sel = [v for v, c in zip(x.flat, m.flat) if bool(as_bool(c))]
        p = np.empty((len(sel),), object)
        for i, v in enumerate(sel):
            p[i] = v
        return wrap(p, meta_empty(p.shape, a[0].dtype))
    if name == "record_stream" or name == "_assert_async":
        return None
    inplace = name.endswith("_") and not name.startswith("__") and name != "_"
    base = name[:-1] if inplace else name
    if not (H.get(name) or H.get(base)) or base in INT_NATIVE:
        r = concrete_ints(func, args, a, k, inplace)
        if r is not None:
            return r
    outkw = "out" in k
    if outkw:
        raise Unsupported("out= argument")
    hd = H.get(name) or H.get(base)
    if hd is None:
        return fallback(func, args, kwargs, name)
    mk = {n: to_meta(x) for n, x in k.items()}
    if name in FACTORY or "device" in mk or name in ("rand_like", "zeros_like", "ones_like", "full_like", "empty_like"):
        if name in FACTORY or "device" in mk:
            mk["device"] = torch.device("meta")
        mk.pop("pin_memory", None)
    hk = {n: v for n, v in k.items() if n not in ("device", "layout", "pin_memory", "memory_format", "generator", "dtype", "implicit", "non_blocking")}
    ma = [to_meta(x) for x in a]
    if name in ("lift_fresh", "lift"):
        t = a[0]
        return wrap(t.a, t.meta)
    if name.startswith("view_as_real"):
        ma[0] = ma[0].resolve_conj()
    out = func(*ma, **mk)
    if inplace:
        x = a[0]
        if not x.a.flags.writeable:
            raise Unsupported("write to a broadcast view")
        r = hd(x.meta, *a, **hk)
        r = cast(r, out_dtype(func, a, x), x.dtype)
        x.a[...] = r if r.ndim else r[()]
        if isinstance(args[0], SymTensor):
            return args[0]
        raise Unsupported("in-place update of a constant tensor")
    r = hd(out, *a, **hk)
    if isinstance(out, (tuple, list)):
        return type(out)(wrap(p, m) for p, m in zip(r, out)) if isinstance(out, list) else tuple(wrap(p, m) for p, m in zip(r, out))
    return wrap(r, out)


INT_NATIVE = {"bitwise_not", "bitwise_and", "bitwise_or", "bitwise_xor", "remainder", "fmod", "floor_divide", "cumsum", "scatter", "scatter_add",
              "repeat_interleave", "sort", "argsort", "where_self"}


def concrete_int(x, dtype):
    """the Python value of a constant integer or truth value, or None"""
    if isinstance(x, (bool, int)):
        return x
    if isinstance(x, P) and x.is_const():
        re, im = x.const_value()
        if im != 0:
            return None
        return bool(re) if dtype == torch.bool else int(re) if re == int(re) else None
    return None


def concrete_ints(func, args, a, k, inplace):
    """an operation whose tensor operands are all constant integers or truth values
    (index arithmetic) has one result, the one torch computes: exact, so it is taken as it is"""
    def conc(x):
        if isinstance(x, Arg):
            if x.dtype.is_floating_point or x.dtype.is_complex:
                raise LookupError
            vals = [concrete_int(v, x.dtype) for v in x.a.reshape(-1)]
            if any(v is None for v in vals):
                raise LookupError
            return torch.from_numpy(np.array(vals, dtype=bool if x.dtype == torch.bool else np.int64).reshape(x.a.shape)).to(x.dtype)
        if isinstance(x, (SymScalar, P)):
            raise LookupError
        if isinstance(x, (list, tuple)):
            return [conc(y) for y in x]
        return x
    if "out" in k or not any(isinstance(x, Arg) or isinstance(x, (list, tuple)) and any(isinstance(y, Arg) for y in x) for x in a):
        return None
    try:
        ra = [conc(x) for x in a]
        rk = {n: conc(x) for n, x in k.items()}
    except LookupError:
        return None
    out = func(*ra, **rk)
    if inplace:
        if not isinstance(args[0], SymTensor) or not a[0].a.flags.writeable:
            return None
        r = from_real(out)
        a[0].a[...] = r if r.ndim else r[()]
        return args[0]

    def back(o):
        if isinstance(o, torch.Tensor):
            return wrap(from_real(o), meta_empty(o.shape, o.dtype))
        if isinstance(o, (list, tuple)):
            return type(o)(back(y) for y in o) if type(o) in (list, tuple) else tuple(back(y) for y in o)
        return o
    if any(isinstance(o, torch.Tensor) and (o.dtype.is_floating_point or o.dtype.is_complex) for o in (out if isinstance(out, (list, tuple)) else [out])):
        return None
    return back(out)


def out_dtype(func, a, x):
    # the handlers compute exactly; only a complex value written to a real tensor
    # needs a cast, which torch itself rejects for in-place arithmetic
    return x.dtype


def fallback(func, args, kwargs, name):
    global DEPTH
    if DEPTH > 6:
        raise Unsupported("operation aten::%s" % name)
    DEPTH += 1
    try:
        try:
            r = func.decompose(*args, **kwargs)
            if r is not NotImplemented:
                return r
        except (Unsupported, _e.Refine, _e.Infeasible, _e.Budget):
            raise
        from torch._decomp import decomposition_table
        d = decomposition_table.get(func)
        if d is None:
            raise Unsupported("operation aten::%s.%s" % (name, func._overloadname))
        return d(*args, **kwargs)
    finally:
        DEPTH -= 1


class DMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


# ---------------------------------------------------------------- python level
def has_sym(x):
    if isinstance(x, (SymTensor, SymScalar)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return isinstance(x, P)


def nested(data):
    """nested list with symbolic leaves -> (array, dtype)"""
    if isinstance(data, (list, tuple)):
        if not data:
            return np.empty((0,), object), None
        parts = [nested(d) for d in data]
        sh = {p[0].shape for p in parts}
        if len(sh) != 1:
            raise ValueError("expected sequence of equal length")
        a = np.empty((len(parts),) + parts[0][0].shape, object)
        dt = None
        for i, (p, d) in enumerate(parts):
            a[i] = p if p.ndim else p[()]
            dt = d if dt is None else torch.promote_types(dt, d)
        return a, dt
    if isinstance(data, SymTensor):
        return np.array(data.payload) if data.payload.ndim else data.payload.copy(), data.dtype
    if isinstance(data, torch.Tensor):
        return from_real(data), data.dtype
    if isinstance(data, SymScalar):
        return arr0(data.p), data.dtype
    if isinstance(data, bool):
        return arr0(data), torch.bool
    if isinstance(data, int):
        return arr0(to_poly(data)), torch.int64
    if isinstance(data, complex):
        return arr0(to_poly(data)), torch.complex64
    if isinstance(data, float):
        return arr0(to_poly(data)), torch.float32
    if isinstance(data, np.ndarray):
        return nested(data.tolist())
    if isinstance(data, np.generic):
        return nested(data.item())
    if isinstance(data, numbers.Integral) or hasattr(data, "__index__"):
        return arr0(to_poly(int(data))), torch.int64
    raise TypeError("cannot convert %r to a tensor" % type(data))


def sym_tensor(data, dtype=None, device=None, requires_grad=False, pin_memory=False):
    a, dt = nested(data)
    dt0 = dt or torch.float32
    if dtype is not None:
        a = cast(a, dt0, dtype)
        dt0 = dtype
    elif dt0 != torch.bool:
        a = emap(P_, a) if a.size else a
    m = meta_empty(a.shape, dt0)
    return SymTensor(a, m, requires_grad=requires_grad)


def tolist(t):
    p = t.payload
    if p.ndim == 0:
        return py_number(p[()], t.dtype)

    def rec(a):
        if isinstance(a, np.ndarray):
            return [rec(x) for x in a]
        return py_number(a, t.dtype)
    return rec(p)


class FMode(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        try:
            return self.call(func, types, args, kwargs)
        except (Unsupported, _e.Refine, _e.Infeasible, _e.Budget):
            raise

    def call(self, func, types, args, kwargs):
        nm = getattr(func, "__name__", "")
        if func in (torch.tensor, torch.as_tensor, torch.scalar_tensor):
            data = args[0] if args else kwargs.pop("data")
            if isinstance(data, SymTensor) and func is torch.as_tensor:
                return data
            if isinstance(data, (int, float, complex, bool, list, tuple, SymTensor, SymScalar, np.ndarray, np.generic)):
                with torch.no_grad():
                    return sym_tensor(data, **kwargs)
        if args and isinstance(args[0], SymTensor):
            t = args[0]
            if func is torch.Tensor.__bool__:
                if t.payload.size != 1:
                    raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
                return bool(as_bool(t.payload.reshape(-1)[0]))
            if func is torch.Tensor.item:
                if t.payload.size != 1:
                    raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % t.payload.size)
                return py_number(t.payload.reshape(-1)[0], t.dtype)
            if func in (torch.Tensor.__float__, torch.Tensor.__int__, torch.Tensor.__complex__, torch.Tensor.__index__):
                v = py_number(t.payload.reshape(-1)[0], t.dtype)
                if isinstance(v, SymScalar):
                    v = v._num()
                    if func is not torch.Tensor.__complex__:
                        v = v.real
                return {torch.Tensor.__float__: float, torch.Tensor.__int__: int, torch.Tensor.__complex__: complex,
                        torch.Tensor.__index__: int}[func](v)
            if func is torch.Tensor.tolist:
                return tolist(t)
            if func is torch.Tensor.__deepcopy__:
                return deepcopy_sym(t, args[1] if len(args) > 1 else {})
            if func is torch.Tensor.__repr__ or func is torch.Tensor.__format__:
                return "SymTensor(%s)" % (tuple(t.shape),)
            if func is torch.Tensor.numpy:
                if t.requires_grad:
                    raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
                o = np.empty(t.payload.shape, object)
                for ix in np.ndindex(*o.shape):
                    o[ix] = py_number(t.payload[ix], t.dtype)
                return o
            if func is torch.Tensor.data_ptr:
                return id(t.payload)
        # symbolic Python scalars become 0-d tensors
        if any(isinstance(x, SymScalar) for x in args) or any(isinstance(x, SymScalar) for x in kwargs.values()):
            args = tuple(make(arr0(x.p), x.dtype) if isinstance(x, SymScalar) else x for x in args)
            kwargs = {n: make(arr0(x.p), x.dtype) if isinstance(x, SymScalar) else x for n, x in kwargs.items()}
        return func(*args, **kwargs)


class symbolic:
    """context: run the code under test symbolically"""

    def __enter__(self):
        ENGINE.nrand = 0
        self.f = FMode()
        self.d = DMode()
        self.f.__enter__()
        self.d.__enter__()
        return self

    def __exit__(self, *e):
        self.d.__exit__(*e)
        self.f.__exit__(*e)
        return False
