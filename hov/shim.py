"""Shims for torch, torch.nn, math, random, numpy and builtins over symbolic values.

These are the assumed contracts on dependencies: each function states the
mathematical meaning of the corresponding library function on real numbers.
"""
import types, math as _math, builtins as _bi, functools, typing, abc, logging as _logging, collections
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover as PR
from .core import *
from .core import E, Unsupported
from . import core as C
from .tensor import *
from . import tensor as TN


class FakeModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(f"{self.__name__}.{k}")


class MissingMeta(type):
    pass


class Missing:
    """Stand-in for an API the shim does not model: using it is a tool limit."""

    def __init__(self, name="?", *a, **k):
        self.__dict__["_name"] = name

    def __call__(self, *a, **k):
        raise Unsupported(f"unmodelled {self._name}")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(f"{self._name}.{k}")

    @property
    def k(self):
        raise Unsupported(f"unmodelled element type {self._name}")

    wrap = k

    def __mro_entries__(self, bases):
        return (Module,)

    def __or__(self, o):
        return typing.Any

    __ror__ = __or__


torch = FakeModule("torch")
nn = FakeModule("torch.nn")
F = FakeModule("torch.nn.functional")
init = FakeModule("torch.nn.init")
optim = FakeModule("torch.optim")
torch.nn = nn
torch.optim = optim
nn.functional = F
nn.init = init
nn.parameter = FakeModule("torch.nn.parameter")
nn.modules = FakeModule("torch.nn.modules")
torch.autograd = FakeModule("torch.autograd")
torch.autograd.Variable = lambda x, **k: x
torch.utils = FakeModule("torch.utils")
optim.optimizer = FakeModule("torch.optim.optimizer")

def dtk(dt):
    if dt.wrap is not None:
        raise Unsupported(f"tensor of {dt}")
    return dt.k


torch.pi = Sc(PI, "f")
torch.float32 = torch.float = DTYPES["f"]
torch.float64 = torch.double = DTYPES["double"]
torch.int64 = torch.long = DTYPES["i"]
torch.int32 = torch.int = DTYPES["int32"]
torch.int16 = torch.short = DTYPES["int16"]
torch.int8 = DTYPES["int8"]
torch.bool = DTYPES["b"]
torch.uint8 = DTYPES["uint8"]
torch.inf = float("inf")
torch.strided = None
torch.device = lambda *a, **k: "cpu"
torch.Size = Size
torch.dtype = Dt
torch.get_default_dtype = lambda: DTYPES["f"]
torch.is_tensor = lambda x: isinstance(x, Tensor)
torch.cuda = FakeModule("torch.cuda")
torch.cuda.is_available = lambda: False


class TensorMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Tensor)

    def __getattr__(cls, k):
        return getattr(Tensor, k)


class TensorT(metaclass=TensorMeta):
    """torch.Tensor: the type, and the uninitialised constructor."""

    def __new__(cls, *s):
        if len(s) == 1 and isinstance(s[0], (list, SymList)):
            return as_tensor(s[0], DTYPES["f"])
        return random_tensor(norm_shape(s), "any")


torch.Tensor = TensorT
torch.FloatTensor = TensorT


class NoGrad:
    def __init__(self, *a):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


torch.no_grad = torch.enable_grad = torch.inference_mode = NoGrad
torch.set_grad_enabled = NoGrad
torch.is_grad_enabled = lambda: C.Sb(bapp("grad_mode", ()))


def _tensor(v, dtype=None, device=None, requires_grad=False):
    return as_tensor(v, dtype)


torch.tensor = torch.as_tensor = _tensor
torch.from_numpy = lambda x: x


def _shape_args(a, k):
    if "size" in k:
        a = (k["size"],)
    return norm_shape(a)


def _filled(p):
    def f(*a, **k):
        dt = k.get("dtype")
        return full(_shape_args(a, k), p, dtk(dt) if dt is not None else "f")
    return f


torch.zeros = _filled(ZERO)
torch.ones = _filled(ONE)
torch.empty = lambda *a, **k: random_tensor(_shape_args(a, k), "any")
torch.rand = lambda *a, **k: random_tensor(_shape_args(a, k), "U01")
torch.randn = lambda *a, **k: random_tensor(_shape_args(a, k), "N01")


def _full(size, v, **k):
    return full(norm_shape((size,)), num(v), kind_of(v) if k.get("dtype") is None else dtk(k["dtype"]))


torch.full = _full


def _like(p):
    def f(t, dtype=None, **k):
        dt = dtk(dtype) if dtype is not None else t.dt
        if dt == "b":
            b = TRUE if p == ONE else FALSE
            return new(t._shape, lambda idx: b, "b")
        return full(t._shape, p, dt)
    return f


torch.zeros_like = _like(ZERO)
torch.ones_like = _like(ONE)
torch.full_like = lambda t, v, **k: full(t._shape, num(v), t.dt)
torch.empty_like = lambda t, **k: random_tensor(t._shape, "any")
torch.rand_like = lambda t, **k: random_tensor(t._shape, "U01")
torch.randn_like = lambda t, **k: random_tensor(t._shape, "N01")


def _arange(*a, dtype=None, device=None, **k):
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e, st = a
    kk = "f" if "f" in (kind_of(s), kind_of(e), kind_of(st)) else "i"
    s, e, st = num(s), num(e), num(st)
    n = e - s if st == ONE else -floor(div(-(e - s), st))
    if n.is_const() and n.const() < 0:
        raise RuntimeError("upper bound and larger bound inconsistent with step sign")
    if not is_int(n):
        n = -floor(-n)
    return new((dim(n),), lambda idx: s + st * idx[0], dtk(dtype) if dtype is not None else kk)


torch.arange = _arange


def _linspace(a, b, steps, **k):
    a, b, n = num(a), num(b), num(steps)
    if n == ONE:
        return full((ONE,), a, "f")
    if E.ctx.entails(bnot(eq(n, ONE))) or not E.decide(eq(n, ONE)):
        return new((dim(n),), lambda idx: a + (b - a) * div(idx[0], n - 1), "f")
    return full((ONE,), a, "f")


torch.linspace = _linspace
torch.eye = lambda n, m=None, **k: new((dim(num(n)), dim(num(m if m is not None else n))), lambda idx: ite(eq(idx[0], idx[1]), ONE, ZERO), "f")


def _meshgrid(*ts, indexing="ij"):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = tuple(ts[0])
    shape = tuple(t._shape[0] for t in ts)
    snaps = [t.snap() for t in ts]
    out = []
    for k, (t, c) in enumerate(zip(ts, snaps)):
        out.append(new(shape, (lambda k, c: lambda idx: c((idx[k],)))(k, c), t.dt))
    if indexing == "xy" and len(ts) >= 2:
        out = [o.transpose(0, 1) for o in out]
    return TList(out)


torch.meshgrid = _meshgrid
torch.stack = lambda ts, dim=0, **k: TN.stack(ts, dim)
torch.cat = torch.concat = torch.concatenate = lambda ts, dim=0, axis=None, **k: TN.cat(ts, dim if axis is None else axis)
torch.hstack = lambda ts: TN.cat(ts, 0 if len(list(ts)[0]._shape) == 1 else 1)
torch.einsum = TN.einsum
torch.where = TN.where
torch.matmul = torch.bmm = torch.mm = TN.matmul
torch.gather = lambda t, dim, index, **k: TN.gather(t, dim, index)
torch.reshape = lambda t, s: t.reshape(s)
torch.div = torch.true_divide = torch.divide = lambda a, b, rounding_mode=None: TN.tdiv(a, b, rounding_mode)
torch.floor_divide = lambda a, b: TN.tdiv(a, b, "floor")
torch.outer = lambda a, b: a.unsqueeze(1) * b.unsqueeze(0)


def _dims(t, d):
    return d % len(t._shape)


def _tensordot(a, b, dims=2, **k):
    na, nb = len(a._shape), len(b._shape)
    if isinstance(dims, (list, tuple)):
        da, db = [[x] if is_num(x) else list(x) for x in dims]
    else:
        r = int(num(dims).const())
        da, db = list(range(na - r, na)), list(range(r))
    da, db = [int(x) % na for x in da], [int(x) % nb for x in db]
    L = "abcdefghijklmnopqrstuvwxyz"
    sa = list(L[:na])
    sb = list(L[na:na + nb])
    for x, y in zip(da, db):
        sb[y] = sa[x]
    out = [c for i, c in enumerate(sa) if i not in da] + [c for i, c in enumerate(sb) if i not in db]
    return TN.einsum("".join(sa) + "," + "".join(sb) + "->" + "".join(out), a, b)


def _cumprod(t, dim, **k):
    d = _dims(t, dim)
    c = t.snap()

    def f(idx):
        v = fresh("cp")
        return binder("prod", v, idx[d] + 1, c(idx[:d] + (poly(v),) + idx[d + 1:]))
    return new(t._shape, f, t.dt)


def _diff(t, n=1, dim=-1, **k):
    if n != 1 or k:
        raise Unsupported("diff")
    d = _dims(t, dim)
    pre = (slice(None),) * d
    return t[pre + (slice(1, None),)] - t[pre + (slice(None, -1),)]


def _roll(t, shifts, dims=None):
    if dims is None:
        return _roll(t.reshape(-1), shifts, 0).reshape(*t._shape)
    if isinstance(shifts, (list, tuple)):
        for a, b in zip(shifts, dims):
            t = _roll(t, a, b)
        return t
    d = _dims(t, dims if not isinstance(dims, (list, tuple)) else dims[0])
    sh = num(shifts)
    n = t._shape[d]
    c = t.snap()

    def f(idx):
        j = idx[d] - sh
        return c(idx[:d] + (j - n * floor(div(j, n)),) + idx[d + 1:])
    return new(t._shape, f, t.dt)


def _tri(lower):
    def f(t, diagonal=0):
        c = t.snap()
        k = num(diagonal)

        def g(idx):
            keep = ge0(k - idx[-1] + idx[-2]) if lower else ge0(idx[-1] - idx[-2] - k)
            v = c(idx)
            return band(keep, v) if isinstance(v, B) else ite(keep, v, ZERO)
        return new(t._shape, g, t.dt)
    return f


def _one_hot(t, num_classes=-1):
    if num_classes == -1:
        raise Unsupported("one_hot without num_classes")
    n = num(num_classes)
    c = t.snap()
    return new(t._shape + (dim(n),), lambda idx: ite(eq(c(idx[:-1]), idx[-1]), ONE, ZERO), "i")


def _bucketize(t, e, right=False, **k):
    if len(e._shape) != 1:
        raise Unsupported("searchsorted with batched boundaries")
    t = t if isinstance(t, Tensor) else wrap(t)
    c, b, n = t.snap(), e.snap(), e._shape[0]

    def f(idx):
        v = fresh("bk")
        x, y = c(idx), b((poly(v),))
        return binder("sum", v, n, ite(le(y, x) if right else lt(y, x), ONE, ZERO))
    return new(t._shape, f, "i")


torch.tensordot = _tensordot
torch.cumprod, torch.diff, torch.roll = _cumprod, _diff, _roll
torch.tril, torch.triu = _tri(True), _tri(False)
torch.bucketize = _bucketize
torch.searchsorted = lambda e, t, right=False, side=None, **k: _bucketize(t, e, right or side == "right")
torch.vstack = lambda ts: TN.cat([t if len(t._shape) > 1 else t.unsqueeze(0) for t in ts], 0)
torch.dot = torch.vdot = lambda a, b: (a * b).sum()
torch.inner = lambda a, b: _tensordot(a, b, ([-1], [-1]))
torch.take_along_dim = lambda t, index, dim: TN.gather(t, dim, index)
torch.moveaxis = lambda t, a, b: t.movedim(a, b)
torch.swapdims = lambda t, a, b: t.transpose(a, b)
torch.rsub = lambda a, b, alpha=1: b - a * alpha
torch.positive = lambda t: t
torch.nan_to_num = lambda t, *a, **k: t.clone()          # no NaN or infinity in the model
torch.fmod = lambda a, b: TN.where(a < 0, -torch.remainder(-a, abs(b)), torch.remainder(a, abs(b)))
torch.hypot = lambda a, b: (a * a + b * b).sqrt()
torch.baddbmm = lambda b, x, y, beta=1, alpha=1: b * beta + matmul(x, y) * alpha
torch.heaviside = lambda a, b: TN.where(a == 0, b, (a > 0).float())
torch.atleast_1d = lambda t: t if t._shape else t.unsqueeze(0)
torch.atleast_2d = lambda t: t if len(t._shape) > 1 else torch.atleast_1d(t).unsqueeze(0)
torch.count_nonzero = lambda t, dim=None: (t != 0).sum() if dim is None else (t != 0).sum(dim=dim)
torch.mv = TN.matmul
torch.logsumexp = lambda t, dim, keepdim=False: t.exp().sum(dim=dim, keepdim=keepdim).log()
torch.log_softmax = lambda t, dim=-1, **k: t - torch.logsumexp(t, dim, True)
for _n in "cumprod diff roll tril triu dot inner take_along_dim moveaxis swapdims positive nan_to_num fmod count_nonzero logsumexp log_softmax hypot baddbmm heaviside mv".split():
    if not hasattr(Tensor, _n):
        setattr(Tensor, _n, getattr(torch, _n))


Tensor.nan_to_num_ = lambda t, *a, **k: t


def _method(name):
    def f(t, *a, **k):
        if not isinstance(t, Tensor):
            if "input" in k:
                t = k.pop("input")
            else:
                t = wrap(t)
        return getattr(t, name)(*a, **k)
    return f


for _n in ("cos sin exp log sqrt tanh sigmoid abs sign floor ceil trunc square neg sum prod mean max min amax amin "
           "flatten permute transpose unsqueeze squeeze remainder clamp clip add sub mul pow all any norm argmax softmax "
           "cumsum unbind flip repeat_interleave movedim swapaxes chunk split index_select relu masked_fill lerp tile "
           "reciprocal rsqrt logical_not logical_and logical_or eq ne lt le gt ge numel clone detach narrow select t aminmax "
           "diagonal unflatten ravel scatter clamp_min clamp_max addcmul broadcast_to masked_select absolute").split():
    setattr(torch, _n, _method(_n))
torch.multiply = torch.mul
torch.subtract = torch.sub
torch.negative = torch.neg
torch.flatten = lambda t, start_dim=0, end_dim=-1: t.flatten(start_dim, end_dim)


def _add(*a, alpha=1, **k):
    if len(a) != 2:
        raise TypeError(f"add() received an invalid combination of arguments - got {len(a)} positional arguments")
    x, y = a
    return x + (y if is_num(alpha) and alpha == 1 else y * alpha)


torch.add = _add
torch.maximum = lambda a, b: binop(a, b, lambda x, y: ite(le(y, x), x, y))
torch.minimum = lambda a, b: binop(a, b, lambda x, y: ite(le(x, y), x, y))


def _tmax(t, *a, **k):
    if a and isinstance(a[0], Tensor):
        return torch.maximum(t, a[0])
    return t.max(*a, **k)


def _tmin(t, *a, **k):
    if a and isinstance(a[0], Tensor):
        return torch.minimum(t, a[0])
    return t.min(*a, **k)


torch.max, torch.min = _tmax, _tmin
torch.fmod = lambda a, b: binop(a, b, lambda x, y: x - y * ptrunc(div(x, y)))
torch.bitwise_not = lambda a: ~a
torch.broadcast_tensors = lambda *ts: tuple(t.expand(*broadcast([x._shape for x in ts])) for t in ts)
torch.numel = lambda t: t.numel()
torch.manual_seed = lambda s: None


def _normfn(t, p=2, dim=None, keepdim=False, **k):
    return t.norm(p, dim, keepdim)


torch.norm = _normfn
torch.linalg = FakeModule("torch.linalg")
torch.linalg.norm = lambda t, ord=2, dim=None, keepdim=False: t.norm(ord if ord is not None else 2, dim, keepdim)
torch.linalg.vector_norm = torch.linalg.norm


def _vmap(*a, **k):
    raise Unsupported("vmap")


torch.vmap = _vmap
torch.addmm = lambda b, x, y, **k: b + matmul(x, y)
torch.allclose = Missing("torch.allclose")
torch.scalar_tensor = lambda v, **k: wrap(v)

# ------------------------------------------------------------------ functional
F.softmax = lambda t, dim=None, **k: TN.softmax(t, dim if dim is not None else (1 if len(t._shape) in (2,) else -1))
F.relu = torch.relu
F.log_softmax = torch.log_softmax
F.one_hot = _one_hot
F.tanh = torch.tanh
F.sigmoid = torch.sigmoid
F.linear = lambda x, w, b=None: _linear(x, w, b)


def _linear(x, w, b):
    r = matmul(x, w.transpose(0, 1))
    return r if b is None else r + b


def _mse(a, b, reduction="mean", **k):
    d = (a - b).square()
    return d.mean() if reduction == "mean" else (d.sum() if reduction == "sum" else d)


F.mse_loss = _mse


def _layer_norm(x, shape, weight=None, bias=None, eps=1e-5):
    nm = "layer_norm"
    k = len(shape)
    if k != 1:
        raise Unsupported("layer_norm over several dims")
    mu = x.mean(-1, keepdim=True)
    va = (x - mu).square().mean(-1, keepdim=True)
    CHECK = TN.CHECK_DIV[0]
    TN.CHECK_DIV[0] = False
    try:
        r = (x - mu) / (va + eps).sqrt()
    finally:
        TN.CHECK_DIV[0] = CHECK
    if weight is not None:
        r = r * weight
    if bias is not None:
        r = r + bias
    return r


F.layer_norm = _layer_norm


def _normalize(x, p=2.0, dim=1, eps=1e-12):
    n = x.norm(p, dim, keepdim=True)
    return x / n.clamp(min=eps)


F.normalize = _normalize


def _pad(x, pad, mode="constant", value=0.0):
    if mode != "constant":
        raise Unsupported("pad mode")
    pad = [num(p) for p in pad]
    v = num(value if value is not None else 0)
    k = len(pad) // 2
    sh = list(x._shape)
    lows = {}
    for j in range(k):
        d = len(sh) - 1 - j
        lows[d] = (pad[2 * j], sh[d])
        sh[d] = dim(sh[d] + pad[2 * j] + pad[2 * j + 1])
    c = x.snap()

    def f(idx):
        conds, ii = [], list(idx)
        for d, (lo, n) in lows.items():
            ii[d] = idx[d] - lo
            conds += [ge0(ii[d]), ge0(n - 1 - ii[d])]
        return ite(band(*conds), c(tuple(ii)), v)
    return new(tuple(sh), f, x.dt)


F.pad = _pad


def conv_nd(x, w, bias, stride, padding, dilation, groups, nd):
    if len(x._shape) == nd + 1:
        return conv_nd(x.unsqueeze(0), w, bias, stride, padding, dilation, groups, nd).squeeze(0)
    if len(x._shape) != nd + 2:
        raise RuntimeError(f"Expected {nd+1}D (unbatched) or {nd+2}D (batched) input to conv{nd}d")
    if not (is_num(groups) and groups == 1):
        raise Unsupported("grouped convolution")
    st, pd, dl = [_tup(v, nd) for v in (stride, padding, dilation)]
    ci = w._shape[1]
    if not same_dim(x._shape[1], ci):
        raise RuntimeError(f"Given groups=1, weight expected input to have {ci} channels, but got {x._shape[1]} channels instead")
    ks = w._shape[2:]
    outs = []
    for k in range(nd):
        L = x._shape[2 + k] + pd[k] * 2 - dl[k] * (ks[k] - 1) - 1
        outs.append(dim(floor(div(expand_dims(L), st[k])) + 1))
    cx, cw = x.snap(), w.snap()
    cb = bias.snap() if bias is not None else None

    def f(idx):
        b, o, sp = idx[0], idx[1], idx[2:]
        c = fresh("ci")
        kv = [fresh("kk") for _ in range(nd)]
        conds, pos = [], []
        for k in range(nd):
            q = sp[k] * st[k] + poly(kv[k]) * dl[k] - pd[k]
            pos.append(q)
            if pd[k] != ZERO:
                conds += [ge0(q), ge0(x._shape[2 + k] - 1 - q)]
        t = cw((o, poly(c)) + tuple(poly(v) for v in kv)) * ite(band(*conds), cx((b, poly(c)) + tuple(pos)), ZERO)
        for k in reversed(range(nd)):
            t = binder("sum", kv[k], ks[k], t)
        t = binder("sum", c, ci, t)
        if cb is not None:
            t = t + cb((o,))
        return t
    return new((x._shape[0], w._shape[0]) + tuple(outs), f, "f")


def conv_transpose_nd(x, w, bias, stride, padding, output_padding, groups, dilation, nd):
    if len(x._shape) != nd + 2:
        raise RuntimeError(f"Expected {nd+2}D input to conv_transpose{nd}d")
    if not (is_num(groups) and groups == 1):
        raise Unsupported("grouped convolution")
    st, pd, dl, op = [_tup(v, nd) for v in (stride, padding, dilation, output_padding)]
    if not same_dim(x._shape[1], w._shape[0]):
        raise RuntimeError("Given transposed=1, weight channel mismatch")
    ks = w._shape[2:]
    outs = []
    for k in range(nd):
        outs.append(dim(expand_dims((x._shape[2 + k] - 1) * st[k] - pd[k] * 2 + dl[k] * (ks[k] - 1) + op[k] + 1)))
    cx, cw = x.snap(), w.snap()
    cb = bias.snap() if bias is not None else None

    def f(idx):
        b, o, sp = idx[0], idx[1], idx[2:]
        c = fresh("ci")
        iv = [fresh("ii") for _ in range(nd)]
        conds, kp = [], []
        for k in range(nd):
            # output = i*stride - pad + kk*dil
            r = sp[k] + pd[k] - poly(iv[k]) * st[k]
            if dl[k] == ONE:
                kk = r
            else:
                kk = floor(div(r, dl[k]))
                conds.append(eq(r, kk * dl[k]))
            conds += [ge0(kk), ge0(ks[k] - 1 - kk)]
            kp.append(kk)
        t = ite(band(*conds), cx((b, poly(c)) + tuple(poly(v) for v in iv)) * cw((poly(c), o) + tuple(kp)), ZERO)
        for k in reversed(range(nd)):
            t = binder("sum", iv[k], x._shape[2 + k], t)
        t = binder("sum", c, w._shape[0], t)
        if cb is not None:
            t = t + cb((o,))
        return t
    return new((x._shape[0], w._shape[1]) + tuple(outs), f, "f")


def _tup(v, nd):
    if isinstance(v, str):
        raise Unsupported("padding mode string")
    if isinstance(v, (tuple, list)):
        return [num(x) for x in v]
    return [num(v)] * nd


F.conv1d = lambda x, w, bias=None, stride=1, padding=0, dilation=1, groups=1: conv_nd(x, w, bias, stride, padding, dilation, groups, 1)
F.conv2d = lambda x, w, bias=None, stride=1, padding=0, dilation=1, groups=1: conv_nd(x, w, bias, stride, padding, dilation, groups, 2)
F.conv_transpose2d = lambda x, w, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1: conv_transpose_nd(x, w, bias, stride, padding, output_padding, groups, dilation, 2)
torch.conv1d, torch.conv2d = F.conv1d, F.conv2d


def _dropout(x, p=0.5, training=True, inplace=False):
    if (is_num(p) and p == 0):
        return x
    if training:
        raise Unsupported("active dropout")
    return x


F.dropout = _dropout


# -------------------------------------------------------------------- nn
def setattr_j(o, k, v):
    """Journalled attribute assignment."""
    if isinstance(v, list) and not isinstance(v, TList):
        v = TList(v)
    d = getattr(o, "__dict__", None)
    cls = type(o)
    p = getattr(cls, k, None)
    if isinstance(p, property):
        p.__set__(o, v)
        return
    if d is None:
        object.__setattr__(o, k, v)
        return
    if C.LOOP_REC:
        st = d.get("_stamp_")
        if st is not None and st < C.LOOP_REC[-1].stamp:
            raise Unsupported(f"attribute {k} assigned inside a generic loop")
    if isinstance(o, Module):
        o._set(k, v)
        return
    if isinstance(o, type):
        type.__setattr__(o, k, v)
        return
    had, old = k in d, d.get(k)

    def undo():
        if had:
            d[k] = old
        else:
            d.pop(k, None)
    E.log(undo)
    if hasattr(cls, "__setattr__") and cls.__setattr__ is not object.__setattr__:
        setattr(o, k, v)
    else:
        d[k] = v


class Parameter(Tensor):
    def __new__(cls, data=None, requires_grad=True):
        return object.__new__(cls)

    def __init__(self, data=None, requires_grad=True):
        if data is None:
            data = full((ZERO,), ZERO, "f")
        Tensor.__init__(self, data.st, data._shape, data.imap, data.dt, data.contig)
        self.requires_grad = requires_grad
        if requires_grad and data.dt != "f":
            raise RuntimeError("Only Tensors of floating point and complex dtype can require gradients")
        self._is_param = True

    def to(self, *a, **k):
        return self


class Module:
    """training is symbolic (both modes are verified) unless train()/eval() was called"""
    _version_guard = None

    @property
    def training(self):
        v = self.__dict__.get("_training_")
        return C.Sb(bapp("training_mode", ())) if v is None else v

    @training.setter
    def training(self, v):
        d = self.__dict__
        old = d.get("_training_")

        def undo():
            d["_training_"] = old
        E.log(undo)
        d["_training_"] = v

    def __init__(self, *a, **k):
        d = self.__dict__
        d.setdefault("_parameters", {})
        d.setdefault("_modules", {})
        d.setdefault("_buffers", {})
        d["_stamp_"] = E.tick()

    def _set(self, k, v):
        d = self.__dict__
        if "_parameters" not in d:
            if isinstance(v, (Parameter, Module)):
                raise AttributeError("cannot assign module/parameters before Module.__init__() call")
            d[k] = v
            return
        snap = (dict(d["_parameters"]), dict(d["_modules"]), dict(d["_buffers"]), k in d, d.get(k))

        def undo():
            d["_parameters"].clear(); d["_parameters"].update(snap[0])
            d["_modules"].clear(); d["_modules"].update(snap[1])
            d["_buffers"].clear(); d["_buffers"].update(snap[2])
            if snap[3]:
                d[k] = snap[4]
            else:
                d.pop(k, None)
        E.log(undo)
        if isinstance(v, Parameter):
            d.pop(k, None)
            d["_modules"].pop(k, None)
            d["_buffers"].pop(k, None)
            d["_parameters"][k] = v
        elif isinstance(v, Module):
            d.pop(k, None)
            d["_parameters"].pop(k, None)
            d["_buffers"].pop(k, None)
            d["_modules"][k] = v
        elif k in d["_parameters"]:
            if v is not None:
                raise TypeError(f"cannot assign as parameter '{k}' (torch.nn.Parameter or None expected)")
            d["_parameters"][k] = None
        elif k in d["_modules"]:
            if v is not None:
                raise TypeError(f"cannot assign as child module '{k}'")
            d["_modules"][k] = None
        elif k in d["_buffers"]:
            d["_buffers"][k] = v
        else:
            d[k] = v

    def __setattr__(self, k, v):
        setattr_j(self, k, v)

    def __getattr__(self, k):
        d = self.__dict__
        for s in ("_parameters", "_modules", "_buffers"):
            if s in d and k in d[s]:
                return d[s][k]
        raise AttributeError(f"'{type(self).__name__}' object has no attribute '{k}'")

    def __delattr__(self, k):
        d = self.__dict__
        for s in ("_parameters", "_modules", "_buffers"):
            if k in d[s]:
                del d[s][k]
                return
        del d[k]

    def register_parameter(self, k, v):
        self._parameters[k] = v

    def register_buffer(self, k, v, persistent=True):
        self._buffers[k] = v

    def add_module(self, k, m):
        self._modules[k] = m

    register_module = add_module

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def children(self):
        return iter([m for m in self._modules.values() if m is not None])

    def named_children(self):
        return iter([(k, m) for k, m in self._modules.items() if m is not None])

    def named_modules(self, memo=None, prefix="", remove_duplicate=True):
        memo = set() if memo is None else memo
        if id(self) in memo:
            return
        memo.add(id(self))
        yield prefix, self
        for k, m in self._modules.items():
            if m is None:
                continue
            yield from m.named_modules(memo, prefix + ("." if prefix else "") + k)

    def modules(self):
        for _, m in self.named_modules():
            yield m

    def named_parameters(self, prefix="", recurse=True, **kw):
        seen = set()
        ms = self.named_modules(prefix=prefix) if recurse else [(prefix, self)]
        for pre, m in ms:
            for k, p in m._parameters.items():
                if p is None or id(p) in seen:
                    continue
                seen.add(id(p))
                yield pre + ("." if pre else "") + k, p

    def parameters(self, recurse=True):
        for _, p in self.named_parameters(recurse=recurse):
            yield p

    def buffers(self, recurse=True):
        for m in self.modules():
            yield from m._buffers.values()

    def state_dict(self, *a, **k):
        r = dict(self.named_parameters())
        for pre, m in self.named_modules():
            for kk, b in m._buffers.items():
                if b is not None:
                    r[pre + ("." if pre else "") + kk] = b
        return r

    def train(self, mode=True):
        for m in self.modules():
            m.training = mode
        return self

    def eval(self):
        return self.train(False)

    def apply(self, f):
        for c in self.children():
            c.apply(f)
        f(self)
        return self

    def to(self, *a, **k):
        return self

    cpu = float = double = cuda = to

    def requires_grad_(self, f=True):
        for p in self.parameters():
            p.requires_grad = f
        return self

    def extra_repr(self):
        return ""

    def save_hyperparameters(self, *a, **k):
        pass

    def log(self, *a, **k):
        pass

    def log_dict(self, *a, **k):
        pass

    @property
    def device(self):
        return "cpu"

    @device.setter
    def device(self, v):
        pass


# `device` must behave as a plain attribute for the layers that set it
del Module.device


class ModuleList(Module):
    def __init__(self, ms=None):
        super().__init__()
        if ms is not None:
            ms = fwd(ms) if isinstance(ms, list) else ms
            if as_symiter(ms) is not None:
                raise Unsupported("module list of symbolic length")
            for k, m in enumerate(ms):
                self._modules[str(k)] = m

    def append(self, m):
        k = str(len(self._modules))
        E.log(lambda: self._modules.pop(k, None))
        self._modules[k] = m
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def insert(self, i, m):
        l = list(self._modules.values())
        l.insert(i, m)
        self._modules.clear()
        self._modules.update({str(k): x for k, x in enumerate(l)})

    def __iter__(self):
        return iter(list(self._modules.values()))

    def __len__(self):
        return len(self._modules)

    def __getitem__(self, i):
        l = list(self._modules.values())
        if isinstance(i, slice):
            return type(self)(l[conc_slice(i)]) if type(self) is ModuleList else Sequential(*l[conc_slice(i)])
        return l[conc_slice(i)]

    def __setitem__(self, i, m):
        k = list(self._modules)[i]
        self._modules[k] = m

    def __add__(self, o):
        return ModuleList(list(self) + list(o))

    def __contains__(self, m):
        return m in list(self._modules.values())

    def forward(self, *a):
        raise NotImplementedError


class Sequential(ModuleList):
    def __init__(self, *ms):
        Module.__init__(self)
        if len(ms) == 1 and isinstance(ms[0], dict):
            self._modules.update(ms[0])
        else:
            for k, m in enumerate(ms):
                if not isinstance(m, Module):
                    raise TypeError(f"{type(m).__name__} is not a Module subclass")
                self._modules[str(k)] = m

    def forward(self, x):
        for m in self._modules.values():
            x = m(x)
        return x


class ModuleDict(Module):
    def __init__(self, d=None):
        super().__init__()
        if d:
            self._modules.update(d)

    def __getitem__(self, k):
        return self._modules[k]

    def __setitem__(self, k, v):
        self._modules[k] = v

    def keys(self):
        return self._modules.keys()

    def items(self):
        return self._modules.items()

    def values(self):
        return self._modules.values()

    def __len__(self):
        return len(self._modules)

    def __contains__(self, k):
        return k in self._modules


class ParameterList(Module):
    def __init__(self, ps=None):
        super().__init__()
        for k, p in enumerate(ps or []):
            self._parameters[str(k)] = p

    def append(self, p):
        self._parameters[str(len(self._parameters))] = p
        return self

    def __iter__(self):
        return iter(self._parameters.values())

    def __getitem__(self, i):
        return list(self._parameters.values())[i]

    def __len__(self):
        return len(self._parameters)


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        self.weight = Parameter(random_tensor(norm_shape((out_features, in_features)), "any"))
        if bias:
            self.bias = Parameter(random_tensor(norm_shape((out_features,)), "any"))
        else:
            self.register_parameter("bias", None)

    def forward(self, x):
        return _linear(x, self.weight, self.bias)


class LazyLinear(Module):
    def __init__(self, out_features, bias=True, **k):
        super().__init__()
        self.out_features, self._b = out_features, bias
        self.weight = None

    def forward(self, x):
        raise Unsupported("LazyLinear")


class _Conv(Module):
    nd = 2

    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode="zeros", device=None, dtype=None):
        super().__init__()
        self.in_channels, self.out_channels = in_channels, out_channels
        tup = lambda v: tuple(v) if isinstance(v, (tuple, list)) else (v,) * self.nd
        self.kernel_size, self.stride, self.dilation = tup(kernel_size), tup(stride), tup(dilation)
        self.padding = padding if isinstance(padding, str) else tup(padding)
        self.groups, self.padding_mode = groups, padding_mode
        if padding_mode != "zeros":
            raise Unsupported("padding_mode")
        if not (is_num(groups) and groups == 1):
            raise Unsupported("groups")
        self.weight = Parameter(random_tensor(norm_shape(self._wshape()), "any"))
        if bias:
            self.bias = Parameter(random_tensor(norm_shape((out_channels,)), "any"))
        else:
            self.register_parameter("bias", None)

    def _wshape(self):
        return (self.out_channels, self.in_channels) + self.kernel_size

    def forward(self, x):
        return conv_nd(x, self.weight, self.bias, self.stride, self.padding, self.dilation, self.groups, self.nd)


class Conv1d(_Conv):
    nd = 1


class Conv2d(_Conv):
    nd = 2


class Conv3d(_Conv):
    nd = 3


class _ConvT(_Conv):
    def __init__(self, in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode="zeros", device=None, dtype=None):
        _Conv.__init__(self, in_channels, out_channels, kernel_size, stride, padding, dilation, groups, bias, padding_mode)
        self.output_padding = output_padding

    def _wshape(self):
        return (self.in_channels, self.out_channels) + self.kernel_size

    def forward(self, x):
        return conv_transpose_nd(x, self.weight, self.bias, self.stride, self.padding, self.output_padding, self.groups, self.dilation, self.nd)


class ConvTranspose1d(_ConvT):
    nd = 1


class ConvTranspose2d(_ConvT):
    nd = 2


class ConvTranspose3d(_ConvT):
    nd = 3


def _act(name):
    class A(Module):
        def __init__(self, *a, **k):
            super().__init__()

        def forward(self, x):
            return getattr(x, name)()
    A.__name__ = name
    return A


class Identity(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        return x


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        super().__init__()
        self.p = p

    def forward(self, x):
        return _dropout(x, self.p, self.training)


class Flatten(Module):
    def __init__(self, start_dim=1, end_dim=-1):
        super().__init__()
        self.s, self.e = start_dim, end_dim

    def forward(self, x):
        return x.flatten(self.s, self.e)


class Softmax(Module):
    def __init__(self, dim=None):
        super().__init__()
        self.d = dim

    def forward(self, x):
        return softmax(x, self.d)


class LayerNorm(Module):
    def __init__(self, shape, eps=1e-5, **k):
        super().__init__()
        self.shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        self.eps = eps
        self.weight = Parameter(full(norm_shape(self.shape), ONE, "f"))
        self.bias = Parameter(full(norm_shape(self.shape), ZERO, "f"))

    def forward(self, x):
        return _layer_norm(x, self.shape, self.weight, self.bias, self.eps)


class AvgPool(Module):
    def __init__(self, *a, **k):
        super().__init__()
        self.a, self.k = a, k

    def forward(self, x):
        raise Unsupported("pooling")


class CrossEntropyLoss(Module):
    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, *a):
        raise Unsupported("cross entropy")


for _c in (Module, ModuleList, Sequential, ModuleDict, ParameterList, Parameter, Linear, LazyLinear, Conv1d, Conv2d, Conv3d,
           ConvTranspose1d, ConvTranspose2d, ConvTranspose3d, Identity, Dropout, Flatten, Softmax, LayerNorm, CrossEntropyLoss):
    setattr(nn, _c.__name__, _c)
nn.ReLU, nn.Tanh, nn.Sigmoid = _act("relu"), _act("tanh"), _act("sigmoid")
nn.AvgPool1d = nn.AvgPool2d = nn.MaxPool2d = nn.MaxPool1d = AvgPool


def _adaptive(nd):
    class AdaptiveAvgPool(Module):
        def __init__(self, output_size):
            super().__init__()
            self.output_size = output_size

        def forward(self, x):
            o = self.output_size
            o = tuple(o) if isinstance(o, (tuple, list)) else (o,) * nd
            if any(not isinstance(z, int) or z != 1 for z in o) or len(o) != nd:
                raise Unsupported("adaptive pooling to more than one value")
            if len(x._shape) not in (nd + 1, nd + 2):
                raise RuntimeError("adaptive pooling: wrong rank")
            return x.mean(tuple(range(-nd, 0)), keepdim=True)
    return AdaptiveAvgPool


nn.AdaptiveAvgPool1d, nn.AdaptiveAvgPool2d, nn.AdaptiveAvgPool3d = _adaptive(1), _adaptive(2), _adaptive(3)


class BatchNorm(Module):
    """Opaque."""

    def __init__(self, *a, **k):
        super().__init__()

    def forward(self, x):
        raise Unsupported("batch norm")


nn.BatchNorm1d = nn.BatchNorm2d = BatchNorm
nn.parameter.Parameter = Parameter
nn.MSELoss = lambda *a, **k: _mse

init.xavier_uniform_ = lambda t, *a, **k: t.copy_(random_tensor(t._shape, "any"))
init.kaiming_uniform_ = init.xavier_normal_ = init.kaiming_normal_ = init.xavier_uniform_
init.uniform_ = lambda t, a=0.0, b=1.0: t.uniform_(a, b)
init.normal_ = lambda t, mean=0.0, std=1.0: t.normal_(mean, std)
init.zeros_ = lambda t: t.zero_()
init.ones_ = lambda t: t.fill_(1)
init.constant_ = lambda t, v: t.fill_(v)


def _fans(t):
    s = t.shape
    rf = 1
    for d in s[2:]:
        rf = rf * d
    return s[1] * rf, s[0] * rf


init._calculate_fan_in_and_fan_out = _fans


# ------------------------------------------------------------------ optimisers
class Optimizer:
    def __init__(self, params, defaults):
        self.defaults = defaults
        self.state = StateDict()
        params = list(params)
        if params and not isinstance(params[0], dict):
            params = [{"params": params}]
        self.param_groups = TList()
        for g in params:
            g = dict(g)
            g["params"] = [g["params"]] if isinstance(g["params"], Tensor) else list(g["params"])
            for k, v in defaults.items():
                g.setdefault(k, v)
            list.append(self.param_groups, g)

    def zero_grad(self, set_to_none=True):
        for g in self.param_groups:
            for p in g["params"]:
                p.grad = None

    def add_param_group(self, g):
        raise Unsupported("add_param_group")


STATE_ENTRIES = {}


class StateDict(dict):
    def __missing__(self, k):
        self[k] = {}
        STATE_ENTRIES[id(self[k])] = self[k]
        return self[k]


optim.Optimizer = optim.optimizer.Optimizer = Optimizer

# ------------------------------------------------------------------ math etc.
math = FakeModule("math")
math.pi = Sc(PI, "f")
math.inf = float("inf")
math.e = Sc(fn("exp", 1), "f")
math.nan = float("nan")


def _m1(name):
    def f(x):
        if isinstance(x, Tensor):
            return Sc(getattr(x, name)()._scalar(), "f")
        return Sc(fn(name, num(x)), "f")
    return f


for _n in ("cos", "sin", "exp", "sqrt", "tanh"):
    setattr(math, _n, _m1(_n))


def _mlog(x, base=None):
    r = fn("log", num(x))
    return Sc(r if base is None else div(r, fn("log", num(base))), "f")


math.log = _mlog
math.log2 = lambda x: _mlog(x, 2)
math.log10 = lambda x: _mlog(x, 10)
math.floor = lambda x: mks(floor(num(x)), "i")
math.ceil = lambda x: mks(-floor(-num(x)), "i")
math.trunc = lambda x: mks(ptrunc(num(x)), "i")
math.fabs = lambda x: Sc(pabs(num(x)), "f")


def _isqrt(x):
    p = num(x)
    if p.is_const():
        return _math.isqrt(int(p.const()))
    return mks(floor(fn("sqrt", p)), "i")


math.isqrt = _isqrt


def _mpow(a, b):
    r = (Sc(num(a), kind_of(a)) ** b)
    return Sc(num(r), "f")


math.pow = _mpow
math.copysign = Missing("math.copysign")


def _mprod(xs, start=1):
    xs = fwd(xs) if isinstance(xs, list) else xs
    s = as_symiter(xs)
    if s is not None:
        v = fresh("mp")
        return mks(num(start) * binder("prod", v, s.length(), num(s.get(poly(v)))), "i")
    r = start
    for x in xs:
        r = r * x
    return r


math.prod = _mprod
math.comb = lambda a, b: _math.comb(a, b)
math.gcd = lambda a, b: _math.gcd(int(a), int(b))
math.hypot = lambda a, b: Sc(fn("sqrt", num(a) * num(a) + num(b) * num(b)), "f")
math.isclose = Missing("math.isclose")

random = FakeModule("random")
random.random = lambda: random_scalar("U01")


def _uniform(a, b):
    a, b = num(a), num(b)
    return Sc(a + (b - a) * random_scalar("U01").p, "f")


random.uniform = _uniform
random.seed = lambda *a: None

numpy = FakeModule("numpy")
numpy.pi = Sc(PI, "f")
numpy.array = as_tensor
numpy.asarray = as_tensor
for _n in ("cos", "sin", "exp", "sqrt", "tanh", "abs"):
    setattr(numpy, _n, (lambda n: lambda x: getattr(x, n)() if isinstance(x, Tensor) else Sc(fn(n, num(x)), "f"))(_n))
numpy.arange = _arange
numpy.prod = lambda xs, **k: _mprod(xs) if not isinstance(xs, Tensor) else xs.prod()
numpy.ndarray = Missing("numpy.ndarray")
numpy.linspace = lambda a, b, num=50, **k: _linspace(a, b, num)
numpy.cos = lambda x: x.cos() if isinstance(x, Tensor) else math.cos(x)
numpy.sin = lambda x: x.sin() if isinstance(x, Tensor) else math.sin(x)
numpy.sqrt = lambda x: x.sqrt() if isinstance(x, Tensor) else math.sqrt(x)
numpy.exp = lambda x: x.exp() if isinstance(x, Tensor) else math.exp(x)
numpy.power = lambda a, b: a ** b
numpy.sum = lambda x, **k: x.sum() if isinstance(x, Tensor) else b_sum(x)
numpy.log = lambda x: x.log() if isinstance(x, Tensor) else _mlog(x)
numpy.ceil = lambda x: math.ceil(x)
numpy.floor = lambda x: math.floor(x)

logging = FakeModule("logging")


class _Logger:
    def __getattr__(self, k):
        return lambda *a, **k2: None


logging.getLogger = lambda *a, **k: _Logger()
for _n in ("info", "warning", "debug", "error"):
    setattr(logging, _n, lambda *a, **k: None)

pytorch_lightning = FakeModule("pytorch_lightning")


class LightningModule(Module):
    @property
    def device(self):
        return "cpu"


pytorch_lightning.LightningModule = LightningModule
pytorch_lightning.Callback = object
lightning = FakeModule("lightning")
omegaconf = FakeModule("omegaconf")
omegaconf.DictConfig = dict
omegaconf.OmegaConf = Missing("OmegaConf")
torchmetrics = FakeModule("torchmetrics")
torchmetrics.Accuracy = lambda *a, **k: Missing("accuracy")
torchmetrics.functional = FakeModule("torchmetrics.functional")
lion_pytorch = FakeModule("lion_pytorch")

MODULES = {
    "torch": torch, "torch.nn": nn, "torch.nn.functional": F, "torch.nn.init": init, "torch.optim": optim,
    "torch.nn.parameter": nn.parameter, "torch.optim.optimizer": optim.optimizer, "torch.autograd": torch.autograd,
    "math": math, "random": random, "numpy": numpy, "logging": logging, "pytorch_lightning": pytorch_lightning,
    "omegaconf": omegaconf, "torchmetrics": torchmetrics, "torchmetrics.functional": torchmetrics.functional,
    "lion_pytorch": lion_pytorch, "torch.linalg": torch.linalg, "torch.utils": torch.utils,
}
REAL_OK = {"typing", "functools", "abc", "collections", "dataclasses", "enum", "itertools", "operator", "warnings", "copy", "sys", "os", "re", "__future__", "types", "inspect", "contextlib", "collections.abc", "time", "string"}


# ------------------------------------------------------------------ builtins
def b_range(*a):
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e, st = a
    for x in (s, e, st):
        if isinstance(x, float) or isinstance(x, Sc) and x.k == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in (s, e, st)):
        return _bi.range(s, e, st)
    s, e, st = [PR.simp(E.ctx, num(x)) for x in (s, e, st)]
    if s.is_const() and e.is_const() and st.is_const():
        return _bi.range(int(s.const()), int(e.const()), int(st.const()))
    return SymRange(s, e, st)


def b_len(x):
    x = fwd(x) if isinstance(x, list) else x
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return _bi.len(x)


def b_isinstance(o, c):
    if isinstance(c, tuple):
        return any(b_isinstance(o, k) for k in c)
    if isinstance(c, types.UnionType) or typing.get_origin(c) is typing.Union:
        return any(b_isinstance(o, k) for k in typing.get_args(c))
    if typing.get_origin(c) is not None:
        c = typing.get_origin(c)
    c = BUILTIN_TYPES.get(c, c) if isinstance(c, collections.abc.Hashable) else c
    if isinstance(o, Sc):
        return (c is int and o.k == "i") or (c is float and o.k == "f") or c in (object, Sc)
    if isinstance(o, Sb):
        return c in (bool, object)
    if isinstance(o, SymList):
        return c in (list, object)
    if isinstance(o, Size):
        return c in (tuple, object, Size)
    if isinstance(c, Missing):
        return False
    if c is TensorT:
        return isinstance(o, Tensor)
    if isinstance(o, bool) and c is int:
        return True
    return _bi.isinstance(o, c)


def b_float(x=0.0):
    if isinstance(x, Sc):
        return Sc(x.p, "f")
    if isinstance(x, Tensor):
        return Sc(x._scalar(), "f")
    if isinstance(x, str):
        return _bi.float(x)
    if isinstance(x, bool):
        return Sc(const(int(x)), "f")
    if isinstance(x, int):
        return Sc(const(x), "f")
    return x


def b_int(x=0, *a):
    if isinstance(x, Sc):
        return mks(ptrunc(x.p), "i")
    if isinstance(x, Tensor):
        return mks(ptrunc(x._scalar()), "i")
    if isinstance(x, Sb):
        return mks(num(x), "i")
    return _bi.int(x, *a)


def b_bool(x=False):
    if isinstance(x, Sb):
        return x
    if isinstance(x, Sc):
        return mkb(bnot(eq0(x.p)))
    return _bi.bool(x)


def _mm(a, k, kind):
    default = k.get("default")
    if "key" in k:
        raise Unsupported("max with key")
    if len(a) == 1:
        xs = fwd(a[0]) if isinstance(a[0], list) else a[0]
        if isinstance(xs, Tensor):
            return xs.max() if kind == "max" else xs.min()
        s = as_symiter(xs)
        if s is not None:
            v = fresh("mx")
            return mks(binder(kind, v, s.length(), num(s.get(poly(v)))), "f")
        xs = list(xs)
    else:
        xs = list(a)
    if all(isinstance(x, (int, float)) for x in xs):
        return (_bi.max if kind == "max" else _bi.min)(xs)
    r = xs[0]
    for x in xs[1:]:
        if isinstance(x, Tensor) or isinstance(r, Tensor):
            c = (x > r) if kind == "max" else (x < r)
            r = x if bool(c) else r
            continue
        p, q = num(r), num(x)
        c = lt(p, q) if kind == "max" else lt(q, p)
        c = PR.simp(E.ctx, c)
        if c is FALSE or E.ctx.entails(bnot(c)):
            continue
        if c is TRUE or E.ctx.entails(c):
            r = x
            continue
        r = mks(ite(c, q, p), jk(kind_of(r), kind_of(x)))
    return r


def b_sum(xs, start=0):
    xs = fwd(xs) if isinstance(xs, list) else xs
    s = as_symiter(xs)
    if s is None:
        r = start
        for x in xs:
            r = r + x
        return r
    n = s.length()
    v = fresh("bs")
    c0 = E.ctx
    E.ctx = c0.extend(ge0(poly(v)), ge0(n - 1 - poly(v)))
    try:
        x = s.get(poly(v))
    finally:
        E.ctx = c0
    if isinstance(x, Tensor):
        c = x.snap()
        t = new(x._shape, lambda idx: binder("sum", v, n, c(idx)), x.dt)
        return t + start if not (is_num(start) and start == 0) else t
    return mks(num(start) + binder("sum", v, n, num(x)), kind_of(x))


def b_abs(x):
    return abs(x)


def b_enumerate(x, start=0):
    x = fwd(x) if isinstance(x, list) else x
    s = as_symiter(x)
    if s is None:
        return _bi.enumerate(x, start)
    st = num(start)
    return SymIter(s.length(), lambda i: (mks(poly(i) + st, "i"), s.get(i)))


def b_zip(*xs, strict=False):
    xs = [fwd(x) if isinstance(x, list) else x for x in xs]
    ss = [as_symiter(x) for x in xs]
    if all(s is None for s in ss):
        return _bi.zip(*xs)
    n = None
    for s, x in zip(ss, xs):
        if s is None:
            if isinstance(x, SYMS):
                m = PR.simp(E.ctx, x.length())
            else:
                raise Unsupported("zip of symbolic and concrete iterables")
        else:
            m = s.length()
        if n is None or m == n or E.ctx.entails(eq(m, n)):
            n = m if n is None else n
        elif E.ctx.entails(le(m, n)):
            n = m
        elif not E.ctx.entails(le(n, m)):
            raise Unsupported("zip of different symbolic lengths")
    return SymIter(n, lambda i: tuple((x if s is None else s).get(i) for s, x in zip(ss, xs)))


def b_reversed(x):
    x = fwd(x) if isinstance(x, list) else x
    s = as_symiter(x)
    if s is None:
        if isinstance(x, SYMS):
            return _bi.reversed(list(x))
        return _bi.reversed(list(x) if isinstance(x, ModuleList) else x)
    n = s.length()
    return SymIter(n, lambda i: s.get(n - 1 - poly(i)))


def b_list(x=()):
    x = fwd(x) if isinstance(x, list) else x
    s = as_symiter(x)
    if s is None:
        return TList(x)
    if isinstance(s, SymList):
        return SymList(list(s.parts))
    v = fresh("ls")
    n = s.length()
    c0 = E.ctx
    E.ctx = c0.extend(ge0(poly(v)), ge0(n - 1 - poly(v)))
    try:
        return SymList([Seg(n, v, [s.get(poly(v))])])
    finally:
        E.ctx = c0


def b_tuple(x=()):
    s = as_symiter(fwd(x) if isinstance(x, list) else x)
    return b_list(x) if s is not None else tuple(x)


def b_map(f, *xs):
    if len(xs) == 1:
        x = fwd(xs[0]) if isinstance(xs[0], list) else xs[0]
        if as_symiter(x) is not None:
            return run_comp(x, f)
    return _bi.map(f, *xs)


def b_filter(f, xs):
    return _bi.filter((lambda x: x) if f is None else f, xs)


def b_all(xs):
    xs = fwd(xs) if isinstance(xs, list) else xs
    r = TRUE
    for x in xs:
        b = tob(x) if not isinstance(x, (Sc,)) else bnot(eq0(x.p))
        if b is None:
            b = TRUE if x else FALSE
        r = band(r, b)
    return mkb(r)


def b_any(xs):
    r = FALSE
    for x in xs:
        b = tob(x)
        if b is None:
            b = TRUE if x else FALSE
        r = bor(r, b)
    return mkb(r)


def b_round(x, nd=None):
    if isinstance(x, Sc):
        if x.k == "i":
            return x
        if x.p.is_const() and nd is None:
            return _bi.round(x.p.const())
        raise Unsupported("round")
    return _bi.round(x) if nd is None else _bi.round(x, nd)


def b_pow(a, b, *m):
    return a ** b


def b_divmod(a, b):
    return a // b, a % b


def b_print(*a, **k):
    pass


def b_setattr(o, k, v):
    setattr_j(o, k, v)


def b_dict(*a, **k):
    return dict(*a, **k)


def b_type(x, *a):
    if a:
        return _bi.type(x, *a)
    if isinstance(x, Sc):
        return int if x.k == "i" else float
    if isinstance(x, Sb):
        return bool
    if isinstance(x, (SymList, TList)):
        return list
    if isinstance(x, Tensor) and not isinstance(x, Parameter):
        return TensorT
    return _bi.type(x)


def b_sorted(xs, **k):
    return TList(_bi.sorted(list(xs), **k))


def b_next(it, *d):
    return _bi.next(it, *d)


def b_iter(x):
    x = fwd(x) if isinstance(x, list) else x
    if as_symiter(x) is not None:
        raise Unsupported("iter() over a symbolic iterable")
    return _bi.iter(x)


class ConvMeta(type):
    pass


BUILTIN_TYPES = {}


class IntLike:
    pass


def make_builtins(importer):
    d = dict(vars(_bi))
    d.update(range=b_range, len=b_len, isinstance=b_isinstance, max=lambda *a, **k: _mm(a, k, "max"), min=lambda *a, **k: _mm(a, k, "min"),
             sum=b_sum, enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, map=b_map, filter=b_filter, all=b_all, any=b_any,
             round=b_round, pow=b_pow, divmod=b_divmod, print=b_print, setattr=b_setattr, sorted=b_sorted, iter=b_iter)
    for name, f, t in (("float", b_float, float), ("int", b_int, int), ("bool", b_bool, bool), ("list", b_list, list), ("tuple", b_tuple, tuple), ("type", b_type, type)):
        d[name] = ctype(name, f, t)
        BUILTIN_TYPES[d[name]] = t
    d["__import__"] = importer
    return d


def ctype(name, f, t):
    """A stand-in usable both as conversion function and as type."""
    class M(type):
        def __call__(cls, *a, **k):
            return f(*a, **k)

        def __instancecheck__(cls, o):
            return b_isinstance(o, t)

        def __getitem__(cls, k):
            return t

        def __or__(cls, o):
            return typing.Any

        __ror__ = __or__

        def __eq__(cls, o):
            return o is cls or o is t

        def __hash__(cls):
            return hash(t)

        def __getattr__(cls, k):
            return getattr(t, k)
    return M(name, (), {})
