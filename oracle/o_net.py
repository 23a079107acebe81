"""C18 attention, C19 networks, C20 tail focus on the real code."""
from base import *
from o_fc import ten, r32
from high_order_layers_torch import attentions as AT, networks as NW, layers as LY
from high_order_layers_torch.layers import high_order_fc_layers
from high_order_layers_torch.PolynomialLayers import *


def soft(s, mask=None):
    e = np.exp(s - s.max(-1, keepdims=True))
    if mask is not None:
        e = np.where(mask, 0.0, e)
    return e / e.sum(-1, keepdims=True)


def sigm(s):
    e = 1 / (1 + np.exp(-s))
    return e / e.sum(-1, keepdims=True)


def lin(l, x):
    y = x @ to_np(l.weight).T
    return y + to_np(l.bias) if l.bias is not None else y


def conv3(c, x):
    """x[b, cin, k] -> [b, cout, k], kernel 3, padding 1"""
    W, b = to_np(c.weight), to_np(c.bias)
    xp = np.pad(x, ((0, 0), (0, 0), (1, 1)))
    K = x.shape[2]
    return sum(np.einsum("oc,bck->bok", W[:, :, t], xp[:, :, t:t + K]) for t in range(3)) + b[None, :, None]


def rand_mask(R, *shape):
    m = R.rng.uniform(0, 1, shape) < 0.4
    m[..., 0] = m[..., 0] & ~m.all(-1)      # never everything
    m = np.where(m.all(-1, keepdims=True), False, m)
    return m


@oracle("C18")
def c18(R):
    def scaled(B, Q, K, D, V, masked, low=0):
        a = AT.ScaledDotProductAttention(D)
        q, k, v = R.t(B, Q, D, lo=-3, hi=3), R.t(B, K, D), R.t(B, K, V)
        if low:                                 # all scores close to -low, exact in float32 for D = 4
            q, k = torch.ones(B, Q, D), torch.floor(2 * k + 2) - low // 2
        m = rand_mask(R, B, Q, K) if masked else None
        ctx, at = a(q, k, v, torch.tensor(m)) if masked else a(q, k, v)
        w = soft(np.einsum("bqd,bkd->bqk", to_np(q), to_np(k)) / math.sqrt(D), m)
        R.close("weights", at, w)
        R.close("context", ctx, np.einsum("bqk,bkd->bqd", w, to_np(v)))

    def dot(B, Q, K, D):
        a = AT.DotProductAttention(D)
        q, v = R.t(B, Q, D), R.t(B, K, D)
        ctx, at = a(q, v)
        w = soft(np.einsum("bqd,bkd->bqk", to_np(q), to_np(v)))
        R.close("weights", at, w)
        R.close("context", ctx, w @ to_np(v))

    def additive(B, Q, K, D, V):
        a = AT.AdditiveAttention(D)
        R.randomize(a)
        q, k, v = R.t(B, Q, D), R.t(B, K, D), R.t(B, K, V)
        ctx, at = a(q, k, v)
        s = lin(a.score_proj, np.tanh(lin(a.key_proj, to_np(k)) + lin(a.query_proj, to_np(q)) + to_np(a.bias)))[..., 0]
        w = soft(s)
        R.close("weights", at, w)
        R.close("context", ctx, np.einsum("bk,bkd->bd", w, to_np(v))[:, None])

    def location(B, K, D, smoothing, last):
        a = AT.LocationAwareAttention(D) if smoothing is None else AT.LocationAwareAttention(D, smoothing=smoothing)
        R.randomize(a)
        q, v = R.t(B, 1, D), R.t(B, K, D)
        la = R.t(B, K) if last else None
        ctx, at = a(q, v, la)
        loc = conv3(a.conv1d, to_np(la)[:, None] if last else np.zeros((B, 1, K))).transpose(0, 2, 1)
        s = lin(a.score_proj, np.tanh(lin(a.query_proj, to_np(q)) + lin(a.value_proj, to_np(v)) + loc + to_np(a.bias)))[..., 0]
        w = soft(s) if smoothing is False else sigm(s)
        R.close("weights", at, w)
        R.close("context", ctx, np.einsum("bk,bkd->bd", w, to_np(v)))

    def heads(x, N):
        b, k, hd = x.shape
        return x.reshape(b, k, N, hd // N).transpose(0, 2, 1, 3)      # b h k d

    def unheads(c):
        b, h, q, d = c.shape
        return c.transpose(0, 2, 1, 3).reshape(b, q, h * d)

    def mhloc(B, K, D, N, C, last):
        a = AT.MultiHeadLocationAwareAttention(D * N, num_heads=N, conv_out_channel=C)
        R.randomize(a)
        q, v = R.t(B, 1, D * N), R.t(B, K, D * N)
        la = R.t(B, N, K) if last else None
        ctx, at = a(q, v, la)
        loc = np.tanh(lin(a.loc_proj, conv3(a.conv1d, to_np(la) if last else np.zeros((B, N, K))).transpose(0, 2, 1)))     # b k d
        pv, pq = heads(lin(a.value_proj, to_np(v)), N), heads(lin(a.query_proj, to_np(q)), N)
        s = lin(a.score_proj, np.tanh(pv + pq + loc[:, None] + to_np(a.bias)))[..., 0]
        w = soft(s)
        R.close("weights", at, w)
        R.close("context", ctx, unheads(np.einsum("bhk,bhkd->bhd", w, pv)[:, :, None]))

    def mha(B, Q, K, D, N, masked):
        a = AT.MultiHeadAttention(D * N, N)
        R.randomize(a)
        q, k, v = R.t(B, Q, D * N), R.t(B, K, D * N), R.t(B, K, D * N)
        m = rand_mask(R, B, Q, K) if masked else None
        ctx, at = a(q, k, v, torch.tensor(m)) if masked else a(q, k, v)
        pq, pk, pv = (heads(lin(l, to_np(x)), N) for l, x in ((a.query_proj, q), (a.key_proj, k), (a.value_proj, v)))
        w = soft(np.einsum("bhqd,bhkd->bhqk", pq, pk) / math.sqrt(D), None if m is None else m[:, None])
        R.close("weights", at, w.transpose(1, 0, 2, 3).reshape(N * B, Q, K), tol=1e-3)
        R.close("context", ctx, unheads(np.einsum("bhqk,bhkd->bhqd", w, pv)), tol=2e-3)

    def shift(p):
        b, h, q, k = p.shape
        z = np.concatenate([np.zeros((b, h, q, 1)), p], -1).reshape(b, h, k + 1, q)
        return z[:, :, 1:].reshape(b, h, q, k)

    def rel(B, Q, K, D, N, mask):
        a = AT.RelativeMultiHeadAttention(D * N, N)
        a.eval()
        R.randomize(a)
        q, k, v, pe = R.t(B, Q, D * N), R.t(B, K, D * N), R.t(B, K, D * N), R.t(B, K, D * N)
        m = None if mask is None else rand_mask(R, B, 1 if mask == "row" else Q, K)
        out = a(q, k, v, pe) if m is None else a(q, k, v, pe, torch.tensor(m))
        pq, pk, pv, pp = (heads(lin(l, to_np(x)), N) for l, x in ((a.query_proj, q), (a.key_proj, k), (a.value_proj, v), (a.pos_proj, pe)))
        u, vb = to_np(a.u_bias)[None, :, None], to_np(a.v_bias)[None, :, None]
        s = (np.einsum("bhqd,bhkd->bhqk", pq + u, pk) + shift(np.einsum("bhqd,bhkd->bhqk", pq + vb, pp))) / math.sqrt(D * N)
        w = soft(s, None if m is None else m[:, None])
        R.close("projected context", out, lin(a.out_proj, unheads(np.einsum("bhqk,bhkd->bhqd", w, pv))), 4.0, tol=1e-3)

    def custom(B, Q, K, D, N, C, last):
        a = AT.CustomizingAttention(D * N, num_heads=N, conv_out_channel=C)
        R.randomize(a)
        q, v = R.t(B, Q, D * N), R.t(B, K, D * N)
        la = R.t(N * B, K) if last else None
        ctx, at = a(q, v, la)
        cv = conv3(a.conv1d, to_np(la)[:, None] if last else np.zeros((N * B, 1, K))).transpose(0, 2, 1)
        loc = lin(a.loc_proj, cv).reshape(N, B, K, D).transpose(1, 0, 2, 3)
        pq = heads(lin(a.query_proj, to_np(q)), N)
        pv = heads(lin(a.value_proj, to_np(v)) + to_np(a.bias), N) + loc
        w = soft(np.einsum("bhqd,bhkd->bhqk", pq, pv) / math.sqrt(D))
        ww = w.transpose(1, 0, 2, 3).reshape(N * B, Q, K)
        R.close("weights", at, ww[:, 0] if Q == 1 else ww, tol=1e-3)
        R.close("context", ctx, unheads(np.einsum("bhqk,bhkd->bhqd", w, pv)), 4.0, tol=1e-3)
    for B, Q, K in ((1, 1, 1), (2, 3, 4), (3, 1, 5), (2, 5, 2), (4, 4, 4)):
        for masked in (False, True):
            R.guarded(scaled, B=B, Q=Q, K=K, D=3, V=2, masked=masked)
            R.guarded(scaled, B=B, Q=Q, K=K, D=4, V=2, masked=masked, low=20000)
            R.guarded(scaled, B=B, Q=Q, K=K, D=4, V=2, masked=masked, low=2000000)
            for N in (1, 2, 3):
                R.guarded(mha, B=B, Q=Q, K=K, D=2, N=N, masked=masked)
        R.guarded(dot, B=B, Q=Q, K=K, D=3)
        R.guarded(additive, B=B, Q=1, K=K, D=3, V=2)
        R.guarded(additive, B=B, Q=K, K=K, D=2, V=3)
        for mask in (None, "row", "query"):
            R.guarded(rel, B=B, Q=Q, K=K, D=2, N=1 + Q % 3, mask=mask)
        for last in (False, True):
            for sm in (True, False, None):
                R.guarded(location, B=B, K=K, D=3, smoothing=sm, last=last)
            for N in (1, 2, 3):
                R.guarded(mhloc, B=B, K=K, D=2, N=N, C=3, last=last)
                if K >= 2 and B * N >= 2:
                    R.guarded(custom, B=B, Q=Q, K=K, D=2, N=N, C=3, last=last)


# ------------------------------------------------------------------ C19
class Tag(torch.nn.Module):
    """A normalisation or non-linearity with a number of its own."""

    def __init__(self, log, kind):
        super().__init__()
        self.kind = kind
        self.num = len(log)
        log.append(self)

    def forward(self, x):
        return torch.tanh(x * (0.5 + 0.1 * self.num)) if self.kind == "norm" else torch.sin(x + 0.2)


def traced(net, x, classes):
    """Layers of the given classes in the order in which the network first applies them."""
    order, hs = [], []
    for m in net.modules():
        if isinstance(m, classes):
            hs.append(m.register_forward_pre_hook(lambda mod, inp: order.append(mod) if all(mod is not o for o in order) else None))
    y = net(x)
    for h in hs:
        h.remove()
    return y, order


HO = (Piecewise, PiecewiseDiscontinuous, Polynomial)


def tame(R, net):
    R.randomize(net)
    with torch.no_grad():
        for p in net.parameters():
            p.mul_(0.3)


@oracle("C19")
def c19(R):
    def compose(fcs, norms, act, res, x, drop=False):
        elems, ni = [fcs[0]], 0
        for i, f in enumerate(fcs[1:]):
            if norms:
                elems.append(norms[ni])
                ni += 1
            if act is not None:
                elems.append(act)
            if drop:
                elems.append(lambda t: t)
            if res and i < len(fcs) - 2 and i > 0:
                elems.append(lambda t, f=f, p=elems[-1]: f(t) + p(t))
            else:
                elems.append(f)
        for e in elems:
            x = e(x)
        return x

    def registered(net, x):
        """every weight that influences the output is a parameter, saved, and gets a gradient"""
        sd = net.state_dict()
        ids = {p.data_ptr() for p in net.parameters()}
        net.zero_grad()
        net(x).pow(2).sum().backward()
        for m in net.modules():
            for k, v in vars(m).items():
                for t in (v if isinstance(v, (list, tuple)) else v.values() if isinstance(v, dict) and k not in ("_parameters", "_buffers", "_modules") else [v]):
                    if isinstance(t, torch.nn.Module):
                        for p in t.parameters():
                            R.true("weights of a nested layer are registered", p.data_ptr() in ids, where=f"{type(m).__name__}.{k}")
                    elif isinstance(t, torch.Tensor) and t.requires_grad and t.grad_fn is None:
                        R.true("trainable tensor is registered", t.data_ptr() in ids, where=f"{type(m).__name__}.{k}")
        R.true("all parameters are saved", {v.data_ptr() for v in sd.values()} >= ids)
        R.true("all parameters are trainable", all(p.requires_grad for p in net.parameters()))

    def shapes(fcs, widths, ns, ss, disc):
        R.true("number of layers applied", len(fcs) == len(widths) - 1, got=len(fcs), expected=len(widths) - 1)
        for q, f in enumerate(fcs):
            if hasattr(f, "w"):
                want = [widths[q + 1], widths[q], ns[q] * ss[q] if disc else (ns[q] - 1) * ss[q] + 1]
            else:
                want = None
            R.true(f"layer {q} has the configured shape", want is None or list(f.w.shape) == want, got=list(f.w.shape) if want else None, expected=want)

    def mlp(kind, hl, norm, act, res, p, drop, nin=2, nhid=3, nout=4, wi=2, wo=3, wh=4):
        log = []
        nf = (lambda: Tag(log, "norm")) if norm else None
        a = Tag([], "nl") if act else None
        net = NW.HighOrderMLP(kind, 3, wi, wo, hl, wh, n_in=nin, n_hidden=nhid, n_out=nout, in_segments=2, hidden_segments=3, out_segments=1, periodicity=p, non_linearity=a, normalization=nf, resnet=res, dropout=drop)
        tame(R, net)
        net.eval()
        x = R.t(5, wi)
        y, fcs = traced(net, x, HO)
        shapes(fcs, [wi] + [wh] * (hl + 1) + [wo], [nin or 3] + [nhid or 3] * hl + [nout or 3], [2] + [3] * hl + [1], "disc" in kind)
        R.true("normalisations", len(log) == (hl + 1 if norm else 0), got=len(log))
        R.close("composition of the layers", y, to_np(compose(fcs, log, a, res, x, drop > 0)), 5.0, tol=1e-3)
        if p:
            for f in fcs:
                z = R.t(4, f.w.shape[1])
                R.close("layer has the configured period", f(z + 2 * p), to_np(f(z)), 2.0, tol=2e-3)
        registered(net, x)

    def low(hl, norm, act):
        log = []
        a = Tag([], "nl") if act else None
        net = NW.LowOrderMLP(2, 3, hl, 4, non_linearity=a, normalization=(lambda: Tag(log, "norm")) if norm else None)
        tame(R, net)
        x = R.t(5, 2)
        y, fcs = traced(net, x, (torch.nn.Linear,))
        R.true("number of layers applied", len(fcs) == hl + 2, got=len(fcs))
        R.close("composition of the layers", y, to_np(compose(fcs, log, a, False, x)), 5.0, tol=1e-3)
        R.true("offsets", all(f.bias is not None for f in fcs))
        registered(net, x)

    def lst(depth, norm, act):
        kinds = ["continuous", "discontinuous", "polynomial", "continuous"][:depth]
        ws, ns, ss = [2, 3, 4, 2, 3][:depth + 1], [3, 2, 4, 2][:depth], [2, 3, 1, 2][:depth]
        log = []
        nf = [(lambda: Tag(log, "norm")) if q != 2 else None for q in range(depth)] if norm else None
        acts = [Tag([], "nl") if q != 1 else None for q in range(depth)] if act else None
        net = NW.HighOrderMLPList(kinds, ns, ws, ss, non_linearity=acts, normalization=nf)
        tame(R, net)
        x = R.t(5, 2)
        y, fcs = traced(net, x, HO)
        R.true("number of layers applied", len(fcs) == depth, got=len(fcs))
        t, ni = fcs[0](x), 0
        for q in range(1, depth):
            if norm and nf[q] is not None:
                t = log[ni](t)
                ni += 1
            if act and acts[q] is not None:
                t = acts[q](t)
            t = fcs[q](t)
        R.close("composition of the layers", y, to_np(t), 5.0, tol=1e-3)
        for q, f in enumerate(fcs):
            want = [ws[q + 1], ws[q], ns[q] if kinds[q] == "polynomial" else ns[q] * ss[q] if "disc" in kinds[q] else (ns[q] - 1) * ss[q] + 1]
            R.true(f"layer {q} has the configured shape", list(f.w.shape) == want, got=list(f.w.shape), expected=want)
        registered(net, x)

    def multi(reps, hl, norm, act, res):
        log = []
        a = Tag([], "nl") if act else None
        net = NW.HighOrderMultiMLP("continuous", 3, reps, 2, 3, hl, 4, n_in=2, n_hidden=3, n_out=4, in_segments=2, hidden_segments=3, out_segments=1, non_linearity=a,
                                   normalization=(lambda: Tag(log, "norm")) if norm else None, resnet=res)
        tame(R, net)
        x = R.t(5, 2)
        y, fcs = traced(net, x, HO)
        N = 2 + reps * (hl + 2)
        R.true("number of layers applied", len(fcs) == N, got=len(fcs), expected=N)
        if len(fcs) != N:
            return
        _, nm = traced(net, x, (Tag,))
        nm = [t for t in nm if t.kind == "norm"]
        t = fcs[0](x)
        t = nm[0](t) if norm else t
        t = a(t) if act else t
        tot = 0
        for r in range(reps):
            tot = tot + compose(fcs[1 + r * (hl + 2):1 + (r + 1) * (hl + 2)], nm[1 + r * (hl + 1):1 + (r + 1) * (hl + 1)], a, res, t)
        tot = nm[-1](tot) if norm else tot
        tot = a(tot) if act else tot
        R.close("composition with replicas added", y, to_np(fcs[-1](tot)), 5.0, tol=1e-3)
        registered(net, x)

    def conv(nd, depth, norm, scalar, deconv, stride, pad=1, size=7):
        log = []
        cyc = lambda *z: [z[q % len(z)] for q in range(depth)]
        ch = [2] + cyc(3, 1, 2)
        ns, ss, ks = [3] * depth if scalar else cyc(2, 3, 2), [2] * depth if scalar else cyc(1, 2, 3), cyc(2, 3, 2)
        st = None if not stride else ([2] * depth if scalar or deconv else cyc(1, 2, 1))
        nf = (lambda c: Tag(log, "norm")) if norm else None
        one = scalar and not deconv
        args = (f"continuous{nd}d" if scalar else [f"continuous{nd}d"] * depth, ns[0] if one else ns, ch, ss[0] if one else ss, ks)
        kw = dict(normalization=nf, padding=pad, rescale_output=True)
        if stride:
            kw["stride"] = st[0] if one else st
        if deconv:
            net = NW.HighOrderFullyDeconvolutionalNetwork(*args, **kw)
        else:
            net = NW.HighOrderFullyConvolutionalNetwork(*args, pooling=f"{nd}d", **kw)
        tame(R, net)
        x = R.t(2, ch[0], *([size] * nd))
        base = torch.nn.modules.conv._ConvNd
        names = [m for m in net.modules() if hasattr(m, "forward") and type(m).__module__.startswith("high_order_layers_torch.FunctionalConvolution")]
        y, cs = traced(net, x, tuple({type(m) for m in names}) or (base,))
        outer = [c for c in cs if not any(c is not d and any(c is e for e in d.modules()) for d in cs)]
        R.true("number of layers applied", len(outer) == depth, got=len(outer), expected=depth)
        t, cur = x, size
        for q, c in enumerate(outer[:depth]):
            t = c(t)
            s = 1 if st is None else st[q]
            cur = (cur - 1) * s - 2 * pad + ks[q] if deconv else (cur + 2 * pad - ks[q]) // s + 1
            R.true("size after a layer with the configured kernel, stride and padding", list(t.shape[2:]) == [cur] * nd, layer=q, got=list(t.shape), expected=cur)
            R.true("channels", t.shape[1] == ch[q + 1], got=t.shape[1], expected=ch[q + 1])
            if norm:
                t = log[q](t)
        if not deconv:
            t = t.mean(dim=tuple(range(2, 2 + nd)))
        R.close("composition of the layers", y, to_np(t), 5.0, tol=1e-3)
        if deconv:
            R.true("result size", list(y.shape[2:]) == [cur] * nd, got=list(y.shape), expected=cur)
        registered(net, x)

    def switch(kind, f, norm):
        st = Tag([], "norm") if norm else None
        lay = LY.fc_layers[kind](n=3, in_features=2, out_features=3, segments=2, normalization=st, **({} if f is None else dict(num_input_layers=f)))
        tame(R, lay)
        x = R.t(4, 2)
        y, fcs = traced(lay, x, HO)
        R.true("number of sub-layers", len(fcs) == (f or 2), got=len(fcs))
        t = 1.0
        for g in fcs:
            t = t * g(x)
        R.close("product of the sub-layers", y, to_np(st(t) if norm else t), 5.0, tol=1e-3)
        registered(lay, x)

    def transform(low_, norm):
        log = []
        nf = (lambda: Tag(log, "norm")) if norm else None
        fixed, width = LY.fixed_rotation_layer(n=3, rotations=3)
        a = torch.nn.ReLU() if low_ else None
        if low_:
            net = NW.transform_low_mlp(3, 4, 2, 1, a, nf, 3)
        else:
            net = NW.transform_mlp("continuous", 3, 4, 2, 2, 2, 3, 4, 2, 3, 1, 1, 3, normalization=nf)
        x = R.t(4, 3)
        y, fcs = traced(net, x, (torch.nn.Linear,) if low_ else HO)
        if low_:
            fcs = [f for f in fcs if f.weight.requires_grad]
        R.true("number of layers applied", len(fcs) == 3, got=len(fcs))
        R.close("rotation followed by the network", y, to_np(compose(fcs, log, a, False, fixed(x))), 3.0, tol=1e-3)
    for kind in ("continuous", "discontinuous"):
        for hl in (0, 1, 2, 4):
            for norm, act in ((False, False), (True, False), (False, True), (True, True)):
                for res in (False, True):
                    R.guarded(mlp, kind=kind, hl=hl, norm=norm, act=act, res=res, p=1.3 if norm and kind == "continuous" else None, drop=0.5 if act and hl == 2 else 0.0)
                    R.guarded(mlp, kind=kind, hl=hl, norm=norm, act=act, res=res, p=None, drop=0.0, **{k: None for k in (("nin",), ("nhid",), ("nout",), ("nin", "nout"))[int(R.rng.integers(4))]})
                if kind == "continuous":
                    R.guarded(low, hl=hl, norm=norm, act=act)
    for depth in (1, 2, 3, 4):
        for norm, act in ((False, False), (True, True), (False, True), (True, False)):
            R.guarded(lst, depth=depth, norm=norm, act=act)
    for reps, hl, norm, act, res in ((1, 0, False, False, False), (2, 1, True, True, False), (3, 2, False, True, True), (2, 2, True, False, True)):
        R.guarded(multi, reps=reps, hl=hl, norm=norm, act=act, res=res)
    for nd, depth, norm, scalar, deconv, stride in ((1, 1, False, True, False, False), (2, 2, True, False, False, True), (1, 3, True, True, False, False), (2, 1, False, False, True, False), (2, 3, True, False, True, True),
                                                    (2, 2, False, True, True, False), (1, 2, True, True, False, True)):
        for pad in (1, 0, 2):
            R.guarded(conv, nd=nd, depth=depth, norm=norm, scalar=scalar, deconv=deconv, stride=stride, pad=pad, size=13 if pad == 0 else 7)
    for kind in ("switch_continuous", "switch_discontinuous"):
        for f, norm in ((None, False), (3, True), (1, False)):
            R.guarded(switch, kind=kind, f=f, norm=norm)
    for low_ in (False, True):
        for norm in (False, True):
            R.guarded(transform, low_=low_, norm=norm)


# ------------------------------------------------------------------ C20
@oracle("C20")
def c20(R):
    def one(depth, norm, scalar, ks, st, pad, focus, W):
        cyc = lambda *z: [z[q % len(z)] for q in range(depth)]
        ch = [2] + cyc(3, 1, 4, 2)
        log = []
        nf = (lambda c: Tag(log, "norm")) if norm else None
        kw = dict(normalization=nf, focus=focus[0] if scalar else focus, padding=pad)
        if st is not None:
            kw["stride"] = st[0] if scalar else st
        ns, ss = [3] * depth if scalar else cyc(2, 3, 2, 3), [2] * depth if scalar else cyc(1, 2, 3, 1)
        net = NW.HighOrderTailFocusNetwork("continuous1d" if scalar else ["continuous1d"] * depth, ns[0] if scalar else ns, ch, ss[0] if scalar else ss, ks, **kw)
        tame(R, net)
        x = R.t(2, ch[0], W)
        stages, y = [x], None
        t = x
        ms = [m for m in net.modules() if type(m).__module__.startswith("high_order_layers_torch.FunctionalConvolution")]
        y, cs = traced(net, x, tuple({type(m) for m in ms}))
        outer = [c for c in cs if not any(c is not d and any(c is e for e in d.modules()) for d in cs)]
        R.true("number of layers applied", len(outer) == depth, got=len(outer))
        for q, c in enumerate(outer):
            t = c(t)
            if norm:
                t = log[q](t)
            stages.append(t)
        cur = W
        widths = [W]
        for q in range(depth):
            cur = (cur + 2 * pad - ks[q]) // (1 if st is None else st[q]) + 1
            widths.append(cur)
        R.true("stage widths", [s.shape[2] for s in stages] == widths, got=[s.shape[2] for s in stages], expected=widths)
        pieces = [s[:, :, s.shape[2] - f:].flatten(1) for s, f in zip(stages, focus)] + [stages[-1].flatten(1)]
        R.close("tails and last stage", y, to_np(torch.cat(pieces, 1)), 5.0, tol=1e-3)
        w, o = net.compute_sizes(W)
        R.true("predicted widths", [int(z) for z in w] == widths, got=[int(z) for z in w], expected=widths)
        R.true("predicted sizes", [int(z) for z in o] == [p.shape[1] for p in pieces], got=[int(z) for z in o], expected=[p.shape[1] for p in pieces])
    for it in range(14 * (4 if R.thorough else 1)):
        depth = int(R.rng.integers(1, 5)) if it % 7 else 12
        scalar = bool(it % 3 == 0)
        ks = [int(z) for z in R.rng.integers(1, 5, depth)]
        pad = int(R.rng.integers(0, 3))
        st = None if it % 4 == 0 else [int(R.rng.integers(1, 4))] * depth if scalar else [int(z) for z in R.rng.integers(1, 4, depth)]
        W = int(R.rng.integers(6, 25)) + (40 if depth > 5 else 0)
        if depth > 5:
            st = None
        cur, widths = W, []
        ok = True
        for q in range(depth):
            widths.append(cur)
            if cur + 2 * pad < ks[q]:
                ok = False
                break
            cur = (cur + 2 * pad - ks[q]) // (1 if st is None else st[q]) + 1
        if not ok:
            continue
        focus = [int(R.rng.integers(1, min(widths) + 1))] * depth if scalar else [int(R.rng.integers(1, w + 1)) for w in widths]
        R.guarded(one, depth=depth, norm=bool(it % 2), scalar=scalar, ks=ks, st=st, pad=pad, focus=focus, W=W)
