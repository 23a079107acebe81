"""Small functions, each exercising library operations; run both on real torch and on the modelled library."""
import math
import torch
import torch.nn as nn
import torch.nn.functional as F
import numpy as np
from torch import Tensor

# x, y: (a, b) floats; z: (a, b, c); w: (b, c); q: (a, b, c, c); m: (a, b) bool; i: (a, b) ints in [0, b)
P = {}


def p(f):
    P[f.__name__] = f
    return f


@p
def arith(x, y, z, w, q, m, i):
    return x + y, x - y, x * y, x / (y * y + 1), -x, x * 2 + 1, 1 - x, 2 / (x * x + 1), x ** 2, x.square(), torch.pow(x, 3), abs(x), x.abs(), torch.abs(y)


@p
def broadcast(x, y, z, w, q, m, i):
    return z + w, z * x.unsqueeze(-1), x[:, None, :] * w.t()[None], x.unsqueeze(0) + y.unsqueeze(1), x[..., None] * w


@p
def compare(x, y, z, w, q, m, i):
    return (x < y), (x <= y), x > 0, x != 0, x == y, (x > 0) & m, (x > 0) | m, ~m, torch.logical_and(m, x < y), torch.logical_not(m), x.gt(y), x.le(0)


@p
def where_(x, y, z, w, q, m, i):
    return torch.where(m, x, y), torch.where(x > 0, x, torch.zeros_like(x)), x.masked_fill(m, -2.0), torch.where(x < 0, 0.0, x), x.where(m, y)


@p
def minmax(x, y, z, w, q, m, i):
    return torch.maximum(x, y), torch.minimum(x, y), x.clamp(-0.5, 0.7), torch.clamp(x, min=0), x.clamp(max=0.3), torch.relu(x), F.relu(x), x.clamp_min(0.1)


@p
def reduce_(x, y, z, w, q, m, i):
    return x.sum(), x.sum(0), x.sum(dim=1), z.sum(dim=(0, 2)), x.sum(dim=1, keepdim=True), z.mean(dim=1), x.mean(), torch.sum(z, dim=-1), x.prod(dim=1), torch.prod(x, 0), z.sum(-2)


@p
def extrema(x, y, z, w, q, m, i):
    return x.max(), x.min(), x.max(dim=1)[0], x.max(dim=1, keepdim=True).values, x.amax(dim=0), x.amin(dim=1, keepdim=True), torch.max(z, dim=2).values, torch.amax(z, dim=(1, 2)), x.abs().max(dim=1, keepdim=True)[0]


@p
def norms(x, y, z, w, q, m, i):
    return x.norm(dim=1), torch.linalg.norm(x, dim=1, keepdim=True), x.norm(), torch.norm(x, p=2, dim=1, keepdim=True), torch.sqrt((x * x).sum(1)), F.normalize(x, dim=1), torch.linalg.vector_norm(x, dim=1)


@p
def shape_ops(x, y, z, w, q, m, i):
    return z.permute(2, 0, 1), z.transpose(1, 2), x.t(), x.T, z.unsqueeze(1), z.unsqueeze(-1).squeeze(-1), z.movedim(0, 2), torch.swapaxes(z, 0, 1), z.transpose(-1, -2), torch.permute(z, (1, 2, 0))


@p
def reshape_(x, y, z, w, q, m, i):
    a, b, c = z.shape
    return z.reshape(a * b, c), z.reshape(a, b * c), z.view(a, -1), z.flatten(), z.flatten(1), z.flatten(0, 1), z.reshape(a, b, c, 1), z.reshape(-1), z.permute(0, 2, 1).reshape(a, c * b), z.view(a, b, c).reshape(a * b * c), torch.flatten(z, start_dim=1), z.reshape(a * b, c).unflatten(0, (a, b))


@p
def expand_(x, y, z, w, q, m, i):
    a, b = x.shape
    return x.unsqueeze(-1).expand(-1, -1, 3), x.unsqueeze(0).expand(2, a, b), x.repeat(2, 3), x.repeat(2, 1, 1), x.repeat_interleave(3, dim=1), x.repeat_interleave(2, dim=0), torch.tile(x, (2, 1)), x.unsqueeze(1).expand(a, 4, b), torch.broadcast_to(x, (2, a, b)), torch.repeat_interleave(x, 2, dim=-1)


@p
def cat_(x, y, z, w, q, m, i):
    return torch.cat([x, y], dim=0), torch.cat([x, y], dim=1), torch.cat([x, y, x], -1), torch.stack([x, y]), torch.stack([x, y, x], dim=-1), torch.stack([x, y], 1), torch.concat((x, y)), torch.hstack([x, y]), torch.vstack([x, y])


@p
def index_(x, y, z, w, q, m, i):
    return x[0], x[:, 0], x[..., -1], z[:, :, 1:], z[:, 1:, :-1], z[0, :, 0], x[:, None], z[..., 0, :], z[:, -1], x[:1], z[:, ::2], z.select(1, 0), z.narrow(2, 1, 2), q[:, :, 0, 1:]


@p
def gather_(x, y, z, w, q, m, i):
    a, b = x.shape
    r = torch.arange(a)
    return torch.gather(x, 1, i), x.gather(dim=1, index=i), w[i], w[i[:, 0]], x[r, i[:, 0]], x[r[:, None], i], torch.index_select(x, 1, i[0]), torch.take_along_dim(x, i, dim=1), w.index_select(0, i[0])


@p
def einsum_(x, y, z, w, q, m, i):
    return torch.einsum("ab,bc->ac", x, w), torch.einsum("ab,ab->a", x, y), torch.einsum("abc,bc->ab", z, w), torch.einsum("abc,bd->acd", z, w), torch.einsum("ij,kj->ik", x, y), torch.einsum("abc,ab->ac", z, x), torch.einsum("...c,c->...", z, w[0])


@p
def matmul_(x, y, z, w, q, m, i):
    return x @ w, torch.matmul(x, w), torch.mm(x, w), torch.bmm(z, z.transpose(1, 2)), z @ w.t(), x @ w[:, 0], torch.matmul(q, q), (x.unsqueeze(1) @ y.unsqueeze(2)).squeeze(-1), torch.outer(x[0], w[0]), torch.dot(x[0], y[0])


@p
def trans(x, y, z, w, q, m, i):
    return x.sin(), torch.cos(x), torch.exp(x), x.exp(), torch.tanh(x), torch.sigmoid(x), x.sign(), torch.sqrt(x * x + 1), torch.rsqrt(x * x + 1), torch.log(x * x + 1), torch.reciprocal(x * x + 1)


@p
def softmax_(x, y, z, w, q, m, i):
    return F.softmax(x, dim=1), torch.softmax(z, dim=-1), x.softmax(0), torch.exp(F.log_softmax(x, dim=1)) if hasattr(F, "log_softmax") else x


@p
def floor_(x, y, z, w, q, m, i):
    return torch.floor(x * 3), (x * 3).floor(), torch.ceil(x), x.long(), (x * 3).to(torch.int64), torch.trunc(x * 2), torch.div(x, 0.5, rounding_mode="floor"), x // 0.5, torch.remainder(x, 0.75), x % 0.75, torch.fmod(x, 0.75), torch.floor_divide(i, 2), i // 2, i % 2, torch.frac(x) if False else x


@p
def ctor(x, y, z, w, q, m, i):
    a, b = x.shape
    return torch.zeros(a, b), torch.ones((b, a)), torch.full((a, 2), 3.0), torch.arange(b), torch.arange(1, b + 1), torch.linspace(-1, 1, 5), torch.zeros_like(x), torch.ones_like(x), torch.full_like(x, 0.5), torch.eye(3), torch.tensor([1.0, 2.0]), x.new_zeros(a), x.new_ones(2, b), torch.arange(0, b), torch.arange(b, dtype=torch.float32) / b, torch.linspace(0, 1, b + 1)


@p
def cum(x, y, z, w, q, m, i):
    return torch.cumsum(x, dim=1), x.cumsum(0), torch.flip(x, [1]), x.flip(0), torch.roll(x, 1, dims=1) if hasattr(torch, "roll") else x, x.chunk(1, dim=1)[0], torch.tril(w @ w.t()) if hasattr(torch, "tril") else x


@p
def splits(x, y, z, w, q, m, i):
    a, b, c = z.shape
    u = torch.cat([x, y], 1)
    l, r = u.chunk(2, dim=1)
    s, t = torch.split(u, [b, b], dim=1)
    v = u.split(b, dim=-1)
    return l, r, s, t, v[0], v[1], torch.unbind(torch.stack([x, y]))[1]


@p
def inplace(x, y, z, w, q, m, i):
    u = x.clone()
    u[:, 0] = 7
    v = x.clone()
    v.add_(y).mul_(2)
    s = torch.zeros_like(x)
    s[m] = x[m] * 2
    t = z.clone()
    t[:, 0, :] = t[:, 0, :] + 1
    r = x.clone()
    r[:, 1:] += y[:, 1:]
    n = x.clone()
    n.masked_fill_(m, 0)
    o = torch.empty_like(x)
    o.copy_(y)
    e = x.clone()
    e[..., -1].zero_()
    f = x.clone()
    f.data[0] = y[0]
    return u, v, s, t, r, n, o, e, f


@p
def aliasing(x, y, z, w, q, m, i):
    u = x.clone()
    v = u.t()
    u[0, :] = 5
    s = u.view(-1)
    s[1] = 9
    d = u.detach()
    d[1, 1] = -4
    c = u.clone()
    c[0, 0] = 100
    return u, v, s, d, c


@p
def scatter_(x, y, z, w, q, m, i):
    u = torch.zeros_like(x)
    j = torch.arange(x.shape[1]).unsqueeze(0).expand(x.shape[0], -1)
    u = u.scatter(1, j.flip(1), x)
    return (u,)


@p
def conv(x, y, z, w, q, m, i):
    k = w.t().unsqueeze(1)[:, :, :2]
    k1 = z[:1, :, :2]
    return F.conv1d(x.unsqueeze(1), k), F.conv1d(z, k1), F.conv1d(z, k1, stride=2), F.conv1d(z, k1, padding=1), F.conv1d(z, k1, padding=2, stride=3)


@p
def conv2(x, y, z, w, q, m, i):
    k = q[:, :, :2, :2]
    return F.conv2d(q, k), F.conv2d(q, k, stride=2, padding=1), F.conv2d(q, k, padding=1), F.conv_transpose2d(q, k.transpose(0, 1)), F.conv_transpose2d(q, k.transpose(0, 1), stride=2), F.conv_transpose2d(q, k.transpose(0, 1), stride=2, padding=1), F.conv2d(q, k, dilation=2)


@p
def pads(x, y, z, w, q, m, i):
    return F.pad(x, (1, 2)), F.pad(z, (0, 1, 2, 0)), F.pad(x, (1, 1), value=3.0), x.unfold(1, 2, 1), F.pad(q, (1, 0, 0, 1))


@p
def losses(x, y, z, w, q, m, i):
    return F.mse_loss(x, y), F.layer_norm(x, x.shape[-1:]), F.linear(x, w.t()), F.linear(x, w.t(), w[0]), torch.lerp(x, y, 0.25), torch.addcmul(x, x, y, value=0.5)


@p
def pool(x, y, z, w, q, m, i):
    return F.avg_pool1d(z, 2) if hasattr(F, "avg_pool1d") else x, nn.AdaptiveAvgPool1d(1)(z), nn.AvgPool1d(2)(z), nn.AdaptiveAvgPool2d(1)(q)


@p
def dtypes(x, y, z, w, q, m, i):
    return m.float(), m.to(x.dtype), m.long(), i.float() * x, m.sum(), m.any(dim=1), m.all(dim=1), m.float().mean(), x.int() if hasattr(x, "int") else x, (x > 0).sum(dim=1)


@p
def mesh(x, y, z, w, q, m, i):
    a, b = x.shape
    g, h = torch.meshgrid(torch.arange(a), torch.arange(b), indexing="ij")
    g2, h2 = torch.meshgrid(torch.linspace(-1, 1, a), torch.linspace(-1, 1, b), indexing="xy")
    return g, h, g2, h2


@p
def sizes(x, y, z, w, q, m, i):
    return torch.zeros(x.shape[0] + z.size(2)), torch.ones(x.numel()), torch.zeros(z.ndim), torch.ones(x.shape[-1] * 2), torch.full((2,), float(z.dim())), torch.full((1,), x.shape[1] / 2), torch.full((1,), float(len(x)))


@p
def loops(x, y, z, w, q, m, i):
    out = []
    for j in range(x.shape[1]):
        out.append(x[:, j] * (j + 1))
    tot = 0
    for j in range(x.shape[1]):
        tot = tot + x[:, j] * y[:, j]
    pr = 1
    for j in range(x.shape[1]):
        pr = pr * (1 + x[:, j])
    res = torch.zeros_like(x)
    for j in range(x.shape[1]):
        res[:, j] = y[:, j] + j
    lc = torch.stack([x[:, j] - j for j in range(x.shape[1])], dim=1)
    lg = torch.cat([x[:, j:j + 1] * 2 for j in range(x.shape[1])], dim=1)
    k = 0
    acc = x[:, 0] * 0
    while k < 3:
        acc = acc + x[:, 0] * k
        k += 1
    return torch.stack(out), torch.stack(out, dim=-1), tot, pr, res, lc, lg, acc


@p
def loops2(x, y, z, w, q, m, i):
    a = sum(x[:, j] for j in range(x.shape[1]))
    res = torch.empty_like(z)
    for j, r in enumerate(w):
        res[:, j] = z[:, j] * r
    rows = [u * v for u, v in zip(x, y)]
    b = torch.stack(rows)
    c = torch.zeros_like(x)
    for j in range(x.shape[0]):
        for k in range(x.shape[1]):
            c[j, k] = x[j, k] * 2 + j - k
    d = []
    for j in range(x.shape[1]):
        d += [x[:, j], y[:, j]]
    e = torch.zeros_like(x[:, 0])
    for row in x.t():
        e += row
    return a, res, b, c, torch.stack(d, 1), e


@p
def numpy_(x, y, z, w, q, m, i):
    k = np.arange(4)
    s = np.linspace(-1, 1, 5)
    return torch.tensor([math.cos(j * math.pi / 4) for j in range(5)]), torch.tensor(np.cos(s)).float() if False else torch.ones(1) * float(np.pi), torch.ones(1) * math.sqrt(3), torch.ones(1) * math.exp(0.5), torch.ones(1) * math.floor(2.7), torch.ones(2) * int(np.prod([2, 3]))


@p
def modules(x, y, z, w, q, m, i):
    l = nn.LayerNorm(x.shape[-1], elementwise_affine=False) if False else nn.Identity()
    s = nn.Sequential(nn.ReLU(), nn.Tanh())
    return l(x), s(x), nn.Softmax(dim=1)(x), nn.Sigmoid()(x), nn.Flatten()(z), nn.Flatten(0)(z), nn.Dropout(0.5).eval()(x)


@p
def triple(x, y, z, w, q, m, i):
    return torch.triu(w @ w.t()) if hasattr(torch, "triu") else x, torch.diagonal(w @ w.t()), torch.nan_to_num(x) if hasattr(torch, "nan_to_num") else x, x.roll(1, 0), torch.roll(x, (1, 1), dims=(0, 1)), torch.dot(x[0], y[0]), torch.log_softmax(x, 1), torch.logsumexp(x, dim=1), torch.mv(x, y[0])


@p
def bucket(x, y, z, w, q, m, i):
    e = torch.linspace(-1, 1, 5)
    return torch.bucketize(x, e), torch.searchsorted(e, x), torch.bucketize(x, e, right=True)


@p
def onehot(x, y, z, w, q, m, i):
    return F.one_hot(i, num_classes=x.shape[1]), torch.count_nonzero(x, dim=1), torch.cdist(x, y) if False else x, torch.kron(x[0], y[0]) if False else x


@p
def tensordot(x, y, z, w, q, m, i):
    return torch.tensordot(x, w, dims=1), torch.tensordot(x, w, dims=([1], [0])), torch.inner(x[0], y[0]), torch.cumprod(x, dim=1), torch.diff(x, dim=1), torch.hypot(x, y), torch.square(x), torch.neg(x), torch.addmm(x @ w, x, w), torch.baddbmm(z @ z.transpose(1, 2), z, z.transpose(1, 2)), torch.numel(x) * torch.ones(1), torch.heaviside(x, torch.zeros(())) 


@p
def functional(x, y, z, w, q, m, i):
    return torch.add(x, y, alpha=2), torch.sub(x, y), torch.mul(x, y), torch.true_divide(x, y * y + 1), torch.rsub(x, y), x.add(y, alpha=-1), x.sub(1), x.div(2), x.mul(y), x.neg(), x.pow(2), torch.clip(x, -0.5, 0.5), x.clip(0, 1), torch.clamp_min(x, 0), torch.positive(x), x.expand_as(z[:, :, 0]), x.reshape_as(y), torch.atleast_2d(x), torch.ravel(x), torch.squeeze(x[:, :1], 1), torch.select(x, 1, 0), torch.narrow(x, 1, 0, 2), torch.full((2, 2), 1.5), torch.movedim(z, 0, -1), torch.ones(2).expand(3, 2), torch.moveaxis(z, 0, 1)
