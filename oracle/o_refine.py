"""C11-C13: refinement and initialisation on the real code."""
from base import *
from o_fc import ten, r32
from high_order_layers_torch.layers import high_order_fc_layers, high_order_convolution_layers
from high_order_layers_torch.networks import *
from high_order_layers_torch.PolynomialLayers import *


def state(m):
    return {k: v.clone() for k, v in m.state_dict().items()}


def frozen(R, m, st, what):
    for k, v in m.state_dict().items():
        R.same(f"{what}: {k}", v, st[k])


def points(R, B, I, s, s2, L, p, wide):
    x = R.rng.uniform(-L / 2 * wide, L / 2 * wide, (B, I))
    x[0] = np.linspace(-L / 2, L / 2, I + 2)[1:-1] + 0.017 * L
    x = off_edges(x, s, L, p)
    return off_edges(x, s2, L, p)


def wide_of(n):
    return {1: 1.6, 2: 1.6, 3: 1.3}.get(n, 1.0)


def same_fn(R, a, b, x, tol=1e-3):
    with torch.no_grad():
        ya, yb = to_np(a(ten(x))), b(ten(x))
    R.close("refined target computes the source's function", yb, ya, np.abs(ya) + 1, tol=tol, input=x)


def tries(R, ks=6):
    for h in R.hints:
        d = {}
        for a, b in (("n", "n"), ("p", "p"), ("m", "m"), ("s", "s"), ("c", "c"), ("I", "I"), ("O", "O"), ("L", "L"), ("P", "P")):
            if a in h:
                d[b] = h[a]
        yield d
    for _ in range(ks * (4 if R.thorough else 1)):
        yield {}


def pick(R, d, k, lo, hi):
    v = d.get(k)
    r = int(R.rng.integers(lo, hi + 1))
    return r if v is None else int(min(max(int(v), lo), hi))


@oracle("C11")
def c11(R):
    def one(kind, n, m, s, I, O, L, p):
        kw = dict(in_features=I, out_features=O, segments=s, length=L)
        if p:
            kw["periodicity"] = p
        a, b = high_order_fc_layers(kind, n=n, **kw), high_order_fc_layers(kind, n=m, **kw)
        R.randomize(a)
        R.randomize(b)
        st = state(a)
        a.interpolate(b)
        frozen(R, a, st, "source unchanged")
        same_fn(R, a, b, points(R, 6, I, s, s, L, p, wide_of(n) if not p else 3.0))

    def refuse(kind, n, m, s, t):
        a, b = high_order_fc_layers(kind, n=n, in_features=2, out_features=2, segments=s), high_order_fc_layers(kind, n=m, in_features=2, out_features=2, segments=t)
        R.randomize(a)
        R.randomize(b)
        sa, sb = state(a), state(b)
        try:
            a.interpolate(b)
            R.fail("different segment counts are refused")
        except ValueError:
            R.checked += 1
        frozen(R, a, sa, "source unchanged")
        frozen(R, b, sb, "target unchanged by a refused interpolation")

    def switch(kind, n, m, s, f):
        a, b = (high_order_fc_layers(kind, n=z, in_features=3, out_features=2, segments=s, num_input_layers=f) for z in (n, m))
        R.randomize(a)
        R.randomize(b)
        st = state(a)
        a.interpolate(b)
        frozen(R, a, st, "source unchanged")
        same_fn(R, a, b, points(R, 6, 3, s, s, 2.0, None, 1.0), 3e-3)

    def net(kind, n, m, s, hl, res, p, wi=2, wo=3, wh=4):
        mk = lambda z: HighOrderMLP(kind, z[1], wi, wo, hl, wh, n_in=z[0], n_hidden=z[1], n_out=z[2], in_segments=s[0], hidden_segments=s[1], out_segments=s[2], resnet=res, periodicity=p)
        a, b = mk(n), mk(m)
        R.randomize(a)
        R.randomize(b)
        with torch.no_grad():
            for q in a.parameters():
                q.mul_(0.2)
        st = state(a)
        interpolate_high_order_mlp(a, b)
        frozen(R, a, st, "source unchanged")
        if "disc" in kind:
            # rounding may flip the segment of an inner value: compare layer by layer
            la, lb = ([l for l in z.modules() if isinstance(l, (PiecewiseDiscontinuous,))] for z in (a.model, b.model))
            R.true("same number of layers", len(la) == len(lb))
            for u, v in zip(la, lb):
                sg = dict((x * y, y) for x, y in zip(n, s))[u.w.shape[-1]]
                same_fn(R, u, v, points(R, 5, u.w.shape[1], sg, sg, 2.0, p if "switch" not in kind else None, 1.0))
        else:
            same_fn(R, a, b, points(R, 6, wi, s[0], s[0], 2.0, p, 0.9), 3e-3)
    for d in tries(R, 3):
        for kind in ("continuous", "discontinuous"):
            n = pick(R, d, "n", 1, 4) if "p" not in d else int(min(max(d["p"], 0), 3)) + 1
            m = max(n, pick(R, d, "m", 1, 6))
            for p in (None, 1.7):
                R.guarded(one, kind=kind, n=n, m=m, s=pick(R, d, "s", 1, 5), I=pick(R, d, "I", 1, 3), O=pick(R, d, "O", 1, 3), L=float(R.rng.choice([2.0, 1.0, 3.0])), p=p)
    for kind in ("continuous", "discontinuous"):
        R.guarded(refuse, kind=kind, n=2, m=3, s=2, t=3)
        R.guarded(refuse, kind=kind, n=3, m=3, s=4, t=2)
        R.guarded(refuse, kind=kind, n=2, m=2, s=1, t=3)
        for f in (1, 2, 3):
            R.guarded(switch, kind="switch_" + kind, n=2 + f % 2, m=4, s=1 + f, f=f)
        for hl, res in ((0, False), (1, False), (2, True)):
            for k in (kind, "switch_" + kind):
                R.guarded(net, kind=k, n=[2, 3, 2], m=[3, 3, 4], s=[2, 3, 1], hl=hl, res=res, p=None if hl or "switch" in k else 1.5)
                R.guarded(net, kind=k, n=[2, 3, 2], m=[3, 3, 4], s=[2, 3, 1], hl=hl, res=res, p=None, **((dict(wi=1), dict(wh=1), dict(wo=1))[hl]))


@oracle("C12")
def c12(R):
    def one(n, m, s, c, I, O, L, p):
        mk = lambda z, t: high_order_fc_layers("continuous", n=z, in_features=I, out_features=O, segments=t, length=L, **({"periodicity": p} if p else {}))
        a, b = mk(n, s), mk(m, s * c)
        R.randomize(a)
        R.randomize(b)
        st = state(a)
        a.refine(b)
        frozen(R, a, st, "source unchanged")
        same_fn(R, a, b, points(R, 8, I, s, s * c, L, p, wide_of(n) if not p else 3.0))

    def switch(n, m, s, c, f):
        mk = lambda z, t: high_order_fc_layers("switch_continuous", n=z, in_features=3, out_features=2, segments=t, num_input_layers=f)
        a, b = mk(n, s), mk(m, s * c)
        R.randomize(a)
        R.randomize(b)
        st = state(a)
        a.refine(b)
        frozen(R, a, st, "source unchanged")
        same_fn(R, a, b, points(R, 6, 3, s, s * c, 2.0, None, 1.0), 3e-3)

    def net(kind, n, m, s, c, hl, res, p, wi=2, wo=3, wh=4):
        mk = lambda z, t: HighOrderMLP(kind, z[1], wi, wo, hl, wh, n_in=z[0], n_hidden=z[1], n_out=z[2], in_segments=t[0], hidden_segments=t[1], out_segments=t[2], resnet=res, periodicity=p)
        a, b = mk(n, s), mk(m, [x * y for x, y in zip(s, c)])
        R.randomize(a)
        R.randomize(b)
        with torch.no_grad():
            for q in a.parameters():
                q.mul_(0.2)
        st = state(a)
        hp_refine_high_order_mlp(a, b)
        frozen(R, a, st, "source unchanged")
        same_fn(R, a, b, points(R, 6, wi, s[0], s[0] * c[0], 2.0, p, 0.9), 3e-3)
    for d in tries(R, 4):
        n = pick(R, d, "n", 1, 4) if "p" not in d else int(min(max(d["p"], 0), 3)) + 1
        m = max(n, pick(R, d, "m", 1, 5))
        for p in (None, 1.2):
            R.guarded(one, n=n, m=m, s=pick(R, d, "s", 1, 4), c=pick(R, d, "c", 1, 4), I=pick(R, d, "I", 1, 3), O=pick(R, d, "O", 1, 3), L=float(R.rng.choice([2.0, 1.0, 3.0])), p=p)
    for f in (1, 2, 3):
        R.guarded(switch, n=2 + f % 2, m=4, s=1 + f, c=f, f=f)
    for kind in ("continuous", "switch_continuous"):
        for hl, res in ((0, False), (1, False), (2, True)):
            R.guarded(net, kind=kind, n=[2, 3, 2], m=[3, 3, 4], s=[2, 3, 1], c=[2, 1, 3], hl=hl, res=res, p=None if hl or "switch" in kind else 1.5)
            R.guarded(net, kind=kind, n=[2, 3, 2], m=[3, 3, 4], s=[2, 3, 1], c=[2, 1, 3], hl=hl, res=res, p=None, **((dict(wi=1), dict(wh=1), dict(wo=1))[hl]))


def line_of(R, w, n, s, L, disc, slope, offset):
    w = to_np(w)
    X = np.array([[(2 * g + 1 + t) / s - 1 for t in nodes(n)] for g in range(s)]) * L / 2
    st = n if disc else n - 1
    b = (w[..., 0] + w[..., -1]) / 2
    a = (w[..., -1] - w[..., 0]) / L
    for g in range(s):
        for q in range(n):
            R.close("every weight lies on the line of its link", w[..., g * st + q], a * X[g, q] + b, np.abs(a) * L + np.abs(b), segment=g, node=q)
    R.true("slope bounded", bool((np.abs(a) <= slope * (1 + 1e-4) + 1e-6).all()), got=float(np.abs(a).max()), bound=slope)
    R.true("offset bounded", bool((np.abs(b) <= offset * (1 + 1e-4) + 1e-5).all()), got=float(np.abs(b).max()), bound=offset)
    return a, b


@oracle("C13")
def c13(R):
    def const(kind, n, s, I, O, L, M):
        kw = dict(n=n, in_features=I, out_features=O, length=L)
        if "continuous" in kind:
            kw["segments"] = s
        if M is not None:
            kw["weight_magnitude"] = M
        lay = high_order_fc_layers(kind, **kw)
        w = to_np(lay.w)
        R.close("all weights of a link are equal", lay.w, np.broadcast_to(w[..., :1], w.shape), tol=0)
        M = M or 1.0
        R.true("between zero and weight magnitude / inputs", bool((w >= 0).all() and (w <= M / I * (1 + 1e-5)).all()), low=float(w.min()), high=float(w.max()), bound=M / I)
        if "prod" not in kind:
            x = R.rng.uniform(-L / 2, L / 2, (4, I))
            R.close("constant link functions", lay(ten(x)), np.broadcast_to(w[..., 0].sum(1), (4, O)), 1.0)

    def conv(kind, n, s, C, O, K, M):
        kw = dict(n=n, in_channels=C, out_channels=O, kernel_size=K)
        if "continuous" in kind:
            kw["segments"] = s
        if M is not None:
            kw["weight_magnitude"] = M
        lay = high_order_convolution_layers(kind + "2d", **kw)
        w = to_np(lay.conv.weight).reshape(O, C, -1, K, K)
        R.close("all weights of a tap are equal", lay.conv.weight.reshape(O, C, -1, K, K), np.broadcast_to(w[:, :, :1], w.shape), tol=0)
        M = M or 1.0
        R.true("between zero and weight magnitude / inputs", bool((w >= 0).all() and (w <= M / (C * K * K) * (1 + 1e-5)).all()), low=float(w.min()), high=float(w.max()), bound=M / (C * K * K))
        x = R.rng.uniform(-1, 1, (2, C, K + 1, K + 1))
        R.close("constant link functions", lay(ten(x)), np.broadcast_to(w[:, :, 0].sum((1, 2, 3))[None, :, None, None], (2, O, 2, 2)), 1.0)

    def lin(kind, n, s, I, O, L, A, C):
        lay = high_order_fc_layers(kind, n=n, in_features=I, out_features=O, segments=s, length=L)
        R.randomize(lay)
        initialize_polynomial_layer(lay, max_slope=A, max_offset=C)
        a, b = line_of(R, lay.w, n, s, L, "disc" in kind, A, C)
        x = off_edges(R.rng.uniform(-L / 2, L / 2, (5, I)), s, L)
        R.close("the layer is the sum of its lines", lay(ten(x)), np.einsum("oi,bi->bo", a, r32(x)) + b.sum(1), 1 + A * I)

    def net(kind, n, s, hl, scaled):
        m = HighOrderMLP(kind, n[1], 3, 2, hl, 5, n_in=n[0], n_hidden=n[1], n_out=n[2], in_segments=s[0], hidden_segments=s[1], out_segments=s[2], non_linearity=torch.nn.ReLU() if hl else None)
        R.randomize(m)
        initialize_network_polynomial_layers(m, max_slope=1.5, max_offset=0.5, **(dict(scale_slope=lambda z: 1.0 / z) if scaled else {}))
        ls = [l for l in m.model.modules() if isinstance(l, (Piecewise, PiecewiseDiscontinuous))]
        R.true("number of piecewise layers", len(ls) == (hl + 2) * (2 if "switch" in kind else 1), got=len(ls))
        per = 2 if "switch" in kind else 1
        want = [(0, 3)] * per + [(1, 5)] * per * hl + [(2, 5)] * per
        for l, (c, inp) in zip(ls, want):
            line_of(R, l.w, n[c], s[c], 2.0, "disc" in kind, 1.5 / inp if scaled else 1.5, 0.5)
    for d in tries(R, 2):
        for kind in ("polynomial", "continuous", "discontinuous", "polynomial_prod", "continuous_prod", "discontinuous_prod"):
            R.guarded(const, kind=kind, n=pick(R, d, "n", 1, 5), s=pick(R, d, "s", 1, 4), I=pick(R, d, "I", 1, 4), O=pick(R, d, "O", 1, 3), L=float(R.rng.choice([2.0, 1.0, 3.0])), M=[None, 2.5][int(R.rng.integers(0, 2))])
        for kind in ("polynomial", "continuous", "discontinuous"):
            R.guarded(conv, kind=kind, n=pick(R, d, "n", 1, 4), s=pick(R, d, "s", 1, 3), C=pick(R, d, "C", 1, 3), O=pick(R, d, "O", 1, 3), K=pick(R, d, "K", 1, 3), M=[None, 2.5][int(R.rng.integers(0, 2))])
        for kind in ("continuous", "discontinuous"):
            R.guarded(lin, kind=kind, n=max(2, pick(R, d, "n", 2, 5)), s=pick(R, d, "s", 1, 4), I=pick(R, d, "I", 1, 3), O=pick(R, d, "O", 1, 3), L=float(R.rng.choice([2.0, 1.0, 3.0])), A=1.5, C=[0.0, 0.7][int(R.rng.integers(0, 2))])
    for kind in ("continuous", "discontinuous", "switch_continuous", "switch_discontinuous"):
        R.guarded(net, kind=kind, n=[2, 3, 4], s=[2, 1, 3], hl=1, scaled=True)
        R.guarded(net, kind=kind, n=[3, 2, 2], s=[1, 2, 2], hl=0, scaled=False)
