"""C21: the quanvolution layer slides the documented circuit over the image."""
from .common import *
from deepquantum.nn.modules import quanv

BOUNDS = "4-qubit kernels (2x2), strides 1-3, images 2x2 to 4x5, batches of 1-2, 1-2 input channels; all pixel values; of the 12 weights all three of one " \
         "wire, or one to three of several wires (thorough: four), at a time, all values, the rest 0; with and without weight scaling; 3x3 kernels and larger are outside"


def module(c, free, stride=1, grad=False, **kw):
    q = quanv.QuanConv2D(4, stride, 2, **kw)
    c.true("weights", tuple(q.weight.shape) == (12,))
    t = c.real("w", (len(free),), grad=grad)
    w = torch.zeros(12)
    for k, i in enumerate(free):
        w[i] = t[k]
    del q._parameters["weight"]
    q.weight = w
    a = [c.zero] * 12
    tv = c.sv(t)
    for k, i in enumerate(free):
        a[i] = tv[k] * c.num(q.w_mul)
    return q, t, a


def amplitudes(c, xs, a):
    prog = [(ry(c, x * c.pi), [k]) for k, x in enumerate(xs)]
    for k in range(4):
        prog += [(rx(c, a[3 * k]), [k]), (rz(c, a[3 * k + 1]), [k]), (rx(c, a[3 * k + 2]), [k])]
    prog += [(ctrl(c, X(c)), [k, (k + 1) % 4]) for k in range(4)]
    return prog_apply(c, prog, 4, zero_state(c, 4))


def zs(c, v):
    out = []
    for q in range(4):
        s = None
        for i in range(16):
            t = inner([v[i]], [v[i]])
            t = -t if bits(i, 4)[q] else t
            s = t if s is None else s + t
        out.append(s)
    return out


def scale(c, kw):
    q = quanv.QuanConv2D(4, 1, 2, **kw)
    l = kw.get("lrmul", 1)
    g = kw.get("gain", 2 ** 0.5)
    want = g * 5 ** -0.5 * l if kw.get("use_wscale", True) else l
    c.true("factor", abs(float(q.w_mul) - want) < 1e-6)


def window(c, free, kw):
    """one window"""
    q, t, a = module(c, free, **kw)
    x = c.real("x", (1, 1, 2, 2))
    out = q(x)
    c.true("shape", tuple(out.shape) == (1, 4, 1, 1))
    xs = list(c.sv(x).reshape(-1))
    c.eq("value", c.sv(out).reshape(-1), np.array(zs(c, amplitudes(c, xs, a)), dtype=object))


def image(c, B, ch, h, w, stride, free):
    q, t, a = module(c, free, stride)
    x = c.real("x", (B, ch, h, w))
    out = q(x)
    oh, ow = (h - 2) // stride + 1, (w - 2) // stride + 1
    c.true("shape", tuple(out.shape) == (B, 4, oh, ow))
    xv = c.sv(x)
    want = np.empty((B, 4, oh, ow), object)
    for b in range(B):
        for i in range(oh):
            for j in range(ow):
                y, z = i * stride, j * stride
                v = zs(c, amplitudes(c, [xv[b, 0, y, z], xv[b, 0, y, z + 1], xv[b, 0, y + 1, z], xv[b, 0, y + 1, z + 1]], a))
                for k in range(4):
                    want[b, k, i, j] = v[k]
    c.eq("values", out, want)


def size(c):
    n, k = c.choose("sizes", [(4, 1), (4, 3), (2, 2), (3, 2), (9, 2), (1, 2)])
    c.raises("refused", lambda: quanv.QuanConv2D(n, 1, k))


def repeat(c, free):
    q, t, a = module(c, free)
    x = c.real("x", (1, 1, 2, 2))
    x0 = c.sv(x)
    o1 = q(x)
    s1 = c.sv(o1)
    o2 = q(x)
    c.eq("same", o2, s1)
    c.eq("first", o1, s1)
    c.eq("image", x, x0)
    c.eq("weights", q.weight, c.sv(q.weight))


def trained(c, free, wrt):
    """derivatives with respect to weights and pixels"""
    q, t, a = module(c, free, grad=True)
    x = c.real("x", (1, 1, 2, 2), grad=True)
    k = c.choose("channel", [0, 1, 2, 3])
    out = q(x)[0, k, 0, 0]
    xs = list(c.sv(x).reshape(-1))
    tv = list(c.sv(t))
    m = c.num(q.w_mul)

    def f(vals):
        b = [c.zero] * 12
        for i, v in zip(free, vals[:len(free)]):
            b[i] = v * m
        return real_part(zs(c, amplitudes(c, vals[len(free):], b))[k])
    names = ["w_%d" % i for i in range(len(free))] + ["x_0_0_%d_%d" % (i, j) for i in (0, 1) for j in (0, 1)]
    g = torch.autograd.grad(out, [t, x])
    want = np.array(gradient(c, f, tv + xs, names), dtype=object)
    c.eq("weights", c.sv(g[0]).reshape(-1), want[:len(free)])
    c.eq("pixels", c.sv(g[1]).reshape(-1), want[len(free):])


def items(tier):
    deep = tier != "quick"
    out = [Item("size", size)]
    for k, kw in enumerate([{}, {"use_wscale": False}, {"lrmul": 0.5}, {"use_wscale": False, "lrmul": 0.25}, {"gain": 1.0}]):
        out.append(Item("scale.%d" % k, scale, (kw,)))
    wire = [[3 * k, 3 * k + 1, 3 * k + 2] for k in range(4)]
    pos = [[k, 3 + k, 6 + k, 9 + k] for k in range(3)]
    for f in wire + [[0, 4], [2, 6], [1, 11], [7, 8]] + (pos[:1] + pos[2:] + [[0, 4, 8], [2, 3, 9], [1, 2, 7]] if deep else []):
        out.append(Item("window." + "_".join(map(str, f)), window, (f, {}), timeout=300))
    for k, kw in enumerate([{"use_wscale": False}, {"lrmul": 0.5}]):
        out.append(Item("scaled.%d" % k, window, ([1, 5], kw), timeout=300))
    for a in [(1, 1, 3, 3, 1, [4]), (2, 1, 2, 2, 1, [0]), (1, 2, 2, 2, 2, [8]), (1, 1, 3, 4, 2, []), (1, 1, 4, 3, 2, [2]), (1, 1, 2, 5, 3, [])] + \
            ([(2, 2, 3, 3, 1, []), (1, 1, 4, 5, 2, [5]), (1, 1, 5, 5, 3, [7])] if deep else []):
        out.append(Item("image.B%d.c%d.%dx%d.s%d" % a[:5], image, a, timeout=300))
    out.append(Item("repeat", repeat, ([1, 5],)))
    for f in [[0], [4, 11]]:
        out.append(Item("gradient." + "_".join(map(str, f)), trained, (f, None), timeout=300))
    return out
