"""C14-C17, C21, C22 on the real code."""
from base import *
from o_fc import ten, r32
from o_refine import state, frozen, tries, pick
from high_order_layers_torch import layers as LY, utils as UT, networks as NW
from high_order_layers_torch.layers import high_order_fc_layers, fixed_rotation_layer
from high_order_layers_torch.PolynomialLayers import *
from high_order_layers_torch.positional_embeddings import *
from high_order_layers_torch.sparse_optimizers.sparse_lion import SparseLion


# ------------------------------------------------------------------ C14
def smooth_ref(w, n, s, f):
    v = w.copy()
    for g in range(s - 1):
        a, b = w[..., g * n + n - 1], w[..., (g + 1) * n]
        v[..., g * n + n - 1] = a + f / 2 * (b - a)
        v[..., (g + 1) * n] = b + f / 2 * (a - b)
    return v


@oracle("C14")
def c14(R):
    def one(kind, n, s, I, O, f, again, frozen=False):
        lay = high_order_fc_layers(kind, n=n, in_features=I, out_features=O, segments=s)
        R.randomize(lay)
        if frozen:
            lay.requires_grad_(False)
        w = to_np(lay.w).copy()
        for _ in range(again):
            smooth_discontinuous_layer(lay, f)
            w = smooth_ref(w, n, s, f)
        R.close("smoothed weights", lay.w, w)
        if f == 0:
            R.same("factor 0 changes nothing", lay.w, w)

    def net(kind, n, s, hl, res, f):
        m = NW.HighOrderMLP(kind, n[1], 2, 3, hl, 4, n_in=n[0], n_hidden=n[1], n_out=n[2], in_segments=s[0], hidden_segments=s[1], out_segments=s[2], resnet=res)
        R.randomize(m)
        ls = [l for l in m.modules() if isinstance(l, PiecewiseDiscontinuous)]
        ws = [to_np(l.w).copy() for l in ls]
        NW.smooth_discontinuous_network(m, f)
        cfg = {a * b: (a, b) for a, b in zip(n, s)}
        for l, w in zip(ls, ws):
            R.close("each layer is smoothed once", l.w, smooth_ref(w, *cfg[w.shape[-1]], f))

    def mixed(f):
        m = NW.HighOrderMLPList(["continuous", "discontinuous", "polynomial", "discontinuous_prod"], [3, 2, 3, 3], [2, 3, 2, 4, 1], [2, 3, 1, 2])
        R.randomize(m)
        ls = list(m.model)
        ws = [to_np(l.w).copy() for l in ls]
        NW.smooth_discontinuous_network(m, f)
        R.same("continuous layer untouched", ls[0].w, ws[0])
        R.same("polynomial layer untouched", ls[2].w, ws[2])
        R.close("discontinuous layer", ls[1].w, smooth_ref(ws[1], 2, 3, f))
        R.close("discontinuous product layer", ls[3].w, smooth_ref(ws[3], 3, 2, f))
    for d in tries(R, 4):
        for kind in ("discontinuous", "discontinuous_prod"):
            R.guarded(one, kind=kind, n=pick(R, d, "n", 2, 5), s=pick(R, d, "s", 1, 6), I=pick(R, d, "I", 1, 3), O=pick(R, d, "O", 1, 3), f=float(R.rng.choice([0.0, 0.3, 1.0, 0.8, 1.6, -0.4])), again=int(R.rng.integers(1, 4)))
    R.guarded(one, kind="discontinuous", n=3, s=3, I=2, O=2, f=0.4, again=1, frozen=True)
    for kind in ("discontinuous", "switch_discontinuous"):
        for hl, res in ((0, False), (1, False), (3, True)):
            R.guarded(net, kind=kind, n=[2, 3, 4], s=[2, 3, 2], hl=hl, res=res, f=0.4)
            R.guarded(net, kind=kind, n=[3, 2, 2], s=[1, 6, 2], hl=hl + 3, res=res, f=1.3)
    R.guarded(mixed, f=0.7)


# ------------------------------------------------------------------ C15
def norm_ref(kind, x, axes, eps):
    if kind == "abs":
        return x / (np.abs(x).max(axis=axes, keepdims=True) + eps)
    if kind == "cen":
        hi, lo = x.max(axis=axes, keepdims=True), x.min(axis=axes, keepdims=True)
        return (x - (hi + lo) / 2) / ((hi - lo) / 2 + eps)
    return x / (np.sqrt((x * x).sum(axis=axes, keepdims=True)) + eps)


@oracle("C15")
def c15(R):
    calls = []
    for fn, cl, kind in (("max_abs_normalization", "MaxAbsNormalization", "abs"), ("max_center_normalization", "MaxCenterNormalization", "cen")):
        f = getattr(UT, fn)
        calls += [(fn, kind, 1, lambda x, e, f=f: f(x, **e)), (cl, kind, 1, lambda x, e, c=cl: getattr(LY, c)(**e)(x)),
                  (fn + " dim 2", kind, 2, lambda x, e, f=f: f(x, dim=2, **e)), (fn + " dim -1", kind, -1, lambda x, e, f=f: f(x, dim=-1, **e)),
                  (fn + "_last", kind, -1, lambda x, e, f=fn: getattr(UT, f + "_last")(x, **e)), (cl + "Last", kind, -1, lambda x, e, c=cl: getattr(LY, c + "Last")(**e)(x)),
                  (fn + "_nd", kind, "nd", lambda x, e, f=fn: getattr(UT, f + "_nd")(x, **e)), (cl + "ND", kind, "nd", lambda x, e, c=cl: getattr(LY, c + "ND")(**e)(x))]
    calls += [("MaxAbsNormalization dim 2", "abs", 2, lambda x, e: LY.MaxAbsNormalization(dim=2, **e)(x))]
    for d in (0, 3, 4, -1, -2):
        calls += [(f"MaxAbsNormalization dim {d}", "abs", d, lambda x, e, d=d: LY.MaxAbsNormalization(dim=d, **e)(x))]
        for fn, kind in (("max_abs_normalization", "abs"), ("max_center_normalization", "cen")):
            calls += [(f"{fn} dim {d} ", kind, d, lambda x, e, d=d, f=fn: getattr(UT, f)(x, dim=d, **e))]
    calls += [("l2_normalization", "l2", 1, lambda x, e: UT.l2_normalization(x, **e)), ("L2Normalization", "l2", 1, lambda x, e: LY.L2Normalization(**e)(x))]
    for k, kind in (("max_abs", "abs"), ("max_center", "cen"), ("l2", "l2")):
        calls.append(("normalization_layers " + k, kind, 1, lambda x, e, k=k: LY.normalization_layers[k](**e)(x)))
    for k, kind in (("max_abs", "abs"), ("l2", "l2")):
        calls.append(("norm_type " + k, kind, 1, lambda x, e, k=k: UT.norm_type[k](x, **e)))

    def one(name, shape, eps, scale, zero):
        kind, ax, call = next((b, c, f) for a, b, c, f in calls if a == name)
        x = R.t(*shape) * scale
        if zero:
            x[0] = 0.0
        xc = x.clone()
        y = call(x, {} if eps is None else dict(eps=eps))
        axes = tuple(range(1, len(shape))) if ax == "nd" else ax
        e = 1e-6 if eps is None else eps
        xn = to_np(x)
        den = (xn.max(axis=axes, keepdims=True) - xn.min(axis=axes, keepdims=True)) / 2 + e
        R.close(name, y, norm_ref(kind, xn, axes, e), 0.01 * np.abs(xn).max() / den if kind == "cen" else None, tol=1e-4, input=x)
        R.same("input unchanged", x, xc)
        R.true("finite and within [-1, 1]", bool(torch.isfinite(y).all()) and float(y.abs().max()) <= 1 + 1e-5, input=x)
    for name, kind, ax, _ in calls:
        for shape in ((3, 4), (2, 3, 5), (2, 1, 3, 2), (1, 1, 1), (4, 2, 3), (2, 3, 1, 2, 2), (2, 2, 1, 2, 1, 3)):
            if isinstance(ax, int) and len(shape) <= ax:
                continue
            R.guarded(one, name=name, shape=list(shape), eps=None, scale=1.0, zero=False)
            R.guarded(one, name=name, shape=list(shape), eps=0.05, scale=0.01, zero=True)
            R.guarded(one, name=name, shape=list(shape), eps=None, scale=300.0, zero=True)


# ------------------------------------------------------------------ C16
@oracle("C16")
def c16(R):
    def one(shapes, steps, lr, wd, b1, b2, groups, closure, sched, gscale=1.0):
        ps = [torch.nn.Parameter(R.t(*s)) for s in shapes]
        if groups:
            hyp = [(lr, wd, b1, b2)] + [(lr * 2, wd / 2, b2, b1)] * (len(ps) - 1)
            opt = SparseLion([{"params": [ps[0]]}, {"params": ps[1:], "lr": lr * 2, "weight_decay": wd / 2, "betas": (b2, b1)}], lr=lr, betas=(b1, b2), weight_decay=wd)
        else:
            hyp = [(lr, wd, b1, b2)] * len(ps)
            opt = SparseLion(ps, lr=lr, betas=(b1, b2), weight_decay=wd)
        P = [to_np(p).copy() for p in ps]
        M = [np.zeros_like(p) for p in P]
        seen = [False] * len(ps)
        for t in range(steps):
            if sched and t == 2:
                for g in opt.param_groups:
                    g["lr"] *= 0.5
                hyp = [(h[0] * 0.5,) + h[1:] for h in hyp]
            gs = []
            for p in ps:
                if R.rng.uniform() < 0.25:
                    gs.append(None)
                else:
                    g = R.t(*p.shape) * gscale
                    g = torch.where(R.t(*p.shape) < 0, torch.zeros(()), g)
                    gs.append(g)

            def assign():
                for p, g in zip(ps, gs):
                    p.grad = None if g is None else g.clone()
                return torch.tensor(3.0)
            if closure:
                R.true("closure result returned", float(opt.step(assign)) == 3.0)
            else:
                assign()
                opt.step()
            for i, (p, g) in enumerate(zip(ps, gs)):
                if g is not None:
                    seen[i] = True
                    l, w, c1, c2 = hyp[i]
                    gn = to_np(g)
                    u = c1 * M[i] + (1 - c1) * gn
                    sg = np.where((np.abs(u) <= 1e-5 * (np.abs(c1 * M[i]) + np.abs((1 - c1) * gn))) | (np.abs(u) < 1e-37), np.nan, np.sign(u))
                    nz = gn != 0
                    new = np.where(nz, P[i] * (1 - l * w) - l * sg, P[i])
                    amb = np.isnan(new)
                    new = np.where(amb, to_np(p), new)
                    R.same("entries with zero gradient keep their value exactly", np.where(nz, 0, to_np(p)), np.where(nz, 0, P[i]), step=t, gradient=g)
                    oldm = M[i]
                    M[i] = np.where(nz, c2 * M[i] + (1 - c2) * gn, M[i])
                    P[i] = new
                    R.close("gradient unchanged", p.grad, gn, tol=0)
                R.close("value after step", p, P[i], tol=1e-5, step=t, gradient=g, parameter=i)
                if seen[i]:
                    R.close("momentum after step", opt.state[p]["exp_avg"], M[i], tol=1e-5 * max(1.0, gscale), step=t, parameter=i)
                P[i] = to_np(p).copy()
                if seen[i]:
                    M[i] = to_np(opt.state[p]["exp_avg"]).copy()
    for steps in (1, 3, 6):
        for groups in (False, True):
            for wd in (0.0, 0.3):
                R.guarded(one, shapes=[[3], [2, 4], [2, 1, 3]], steps=steps, lr=0.05, wd=wd, b1=0.9, b2=0.7, groups=groups, closure=groups and wd > 0, sched=steps > 3)
    for gscale in (1e-4, 40.0, 1e3):
        for lr in (1e-3, 0.7):
            R.guarded(one, shapes=[[6], [2, 4]], steps=10, lr=lr, wd=0.2, b1=0.9, b2=0.6, groups=False, closure=False, sched=False, gscale=gscale)
    R.guarded(one, shapes=[[1], [5]], steps=8, lr=0.3, wd=0.1, b1=0.0, b2=1.0, groups=False, closure=True, sched=True)
    R.guarded(one, shapes=[[1], [5]], steps=8, lr=0.3, wd=0.1, b1=1.0, b2=0.0, groups=True, closure=False, sched=False)

    def defaults():
        p = torch.nn.Parameter(R.t(4))
        o = SparseLion([p])
        w = to_np(p).copy()
        p.grad = R.t(4)
        g = to_np(p.grad)
        o.step()
        R.close("default learning rate", p, w - 1e-4 * np.sign(g), tol=1e-7)
        R.close("default beta2", o.state[p]["exp_avg"], 0.01 * g, tol=1e-7)
    R.guarded(defaults)

    def many(G, m):
        ps = [[torch.nn.Parameter(R.t(m)) for _ in range(1 + g % 3)] for g in range(G)]
        opt = SparseLion([dict(params=q, lr=0.01 * (g + 1), weight_decay=0.1 * g) for g, q in enumerate(ps)])
        w = [[to_np(p).copy() for p in q] for q in ps]
        for q in ps:
            for p in q:
                p.grad = torch.where(R.t(m) < -0.3, torch.zeros(()), R.t(m))
        opt.step()
        for g, q in enumerate(ps):
            for p, v in zip(q, w[g]):
                gn = to_np(p.grad)
                R.close("value after a step, group by group", p, np.where(gn != 0, v * (1 - 0.01 * (g + 1) * 0.1 * g) - 0.01 * (g + 1) * np.sign(gn), v), tol=1e-5, group=g)
    for G in (1, 5, 12, 33):
        R.guarded(many, G=G, m=3)


# ------------------------------------------------------------------ C17
@oracle("C17")
def c17(R):
    def one(n, r, normalize):
        lay, width = fixed_rotation_layer(n=n, rotations=r, **({} if normalize is None else dict(normalize=normalize)))
        rows = []
        for i in range(n):
            rows.append(np.eye(n)[i])
            for j in range(i + 1, n):
                for k in range(1, r):
                    t = k * (math.pi / 2) / r
                    d = abs(math.cos(t)) + abs(math.sin(t)) if normalize is not False else 1.0
                    rows.append((math.cos(t) * np.eye(n)[i] + math.sin(t) * np.eye(n)[j]) / d)
                    rows.append((math.sin(t) * np.eye(n)[i] - math.cos(t) * np.eye(n)[j]) / d)
        W = np.array(rows)
        R.true("reported width", int(width) == len(rows) == n + n * (n - 1) * (r - 1), got=int(width))
        x = R.t(3, n)
        R.close("rotated values", lay(x), to_np(x) @ W.T, tol=1e-5)
        R.true("weights are not trained", not any(p.requires_grad for p in lay.parameters()))
    for n in (1, 2, 3, 4):
        for r in (1, 2, 3, 5):
            for nz in (None, True, False):
                R.guarded(one, n=n, r=r, normalize=nz)
    for n, r in ((5, 4), (6, 9), (9, 2), (12, 3), (17, 2), (2, 17), (3, 33), (20, 2)):
        for nz in (None, True, False):
            R.guarded(one, n=n, r=r, normalize=nz)

    def refuse(r):
        try:
            fixed_rotation_layer(n=2, rotations=r)
            R.fail("fewer than one rotation is refused")
        except ValueError:
            R.checked += 1
    for r in (0, -1, -5):
        R.guarded(refuse, r=r)


# ------------------------------------------------------------------ C21
class Enc(torch.nn.Module):
    def __init__(self, F):
        super().__init__()
        self.output_size = F

    def forward(self, x):
        v = x.flatten(1)
        return torch.stack([torch.tanh((v * (0.3 + 0.1 * i)).sum(1) + 0.2 * i) for i in range(self.output_size)], 1)


class Dec(torch.nn.Module):
    def __init__(self, C, shape):
        super().__init__()
        self.in_channels = C
        self.shape = shape
        self.seen = None

    def forward(self, z):
        self.seen = z.detach().clone()
        return torch.sin(z.sum((1, 2, 3), keepdim=True) + torch.arange(int(np.prod(self.shape))).reshape(1, *self.shape))


@oracle("C21")
def c21(R):
    def one(F, Z, C, shape, B, w, train=True):
        enc, dec = Enc(F), Dec(C, shape)
        v = NW.VanillaVAE(latent_dim=Z, encoder=enc, decoder=dec)
        R.randomize(v)
        v.train(train)
        x = R.t(B, *shape)
        xc = x.clone()
        torch.manual_seed(5)
        rec, inp, mu, lv = v(x)
        e = to_np(enc(x))
        R.same("input unchanged and returned", inp, xc)
        L = lambda l, a: a @ to_np(l.weight).T + to_np(l.bias)
        m, g = L(v.fc_mu, e), L(v.fc_var, e)
        R.close("mean", mu, m, tol=1e-4)
        R.close("log-variance", lv, g, tol=1e-4)
        R.true("decoder sees one sample per input", list(dec.seen.shape) == [B, C, 1, 1], got=list(dec.seen.shape))
        R.close("reconstruction is the decoder output", rec, to_np(dec(dec.seen)), tol=1e-5)
        d = v.loss_function(rec, inp, mu, lv, M_N=w)
        rn, mn, ln = to_np(rec), to_np(mu), to_np(lv)
        mse = ((rn - to_np(x)) ** 2).mean()
        kl = np.mean(-0.5 * np.sum(1 + ln - mn ** 2 - np.exp(ln), axis=1))
        sc = mse + abs(kl)
        R.close("reconstruction loss", d["Reconstruction_Loss"], mse, sc, tol=1e-4)
        R.close("KLD entry", d["KLD"], -kl, sc, tol=1e-4)
        R.close("loss", d["loss"], mse + w * kl, sc * (1 + abs(w)), tol=1e-4)
        R.true("divergence never negative", kl >= -1e-6)
        # sampling: the latent code is mean + exp(logvar/2) * standard normal noise
        N = 4000
        M0, V0 = torch.tensor([[0.7, -1.2]]).repeat(N, 1), torch.tensor([[0.8, -1.0]]).repeat(N, 1)
        z = to_np(v.reparameterize(M0, V0))
        R.close("mean of latent samples", z.mean(0), [0.7, -1.2], tol=0.08)
        R.close("standard deviation of latent samples", z.std(0), np.exp(np.array([0.8, -1.0]) / 2), tol=0.08)
        R.true("noise differs between entries", len(np.unique(np.round((z - to_np(M0)) / np.exp(to_np(V0) / 2), 6))) > N)
        for c in (0.0, -3.0, 30.0, 60.0, -20.0):
            torch.manual_seed(11)
            e0 = to_np(v.reparameterize(M0[:5], torch.zeros(5, 2))) - to_np(M0[:5])
            torch.manual_seed(11)
            e1 = (to_np(v.reparameterize(M0[:5] * 0, torch.full((5, 2), c)))) / np.exp(c / 2)
            R.close("noise is scaled by exp(logvar / 2)", e1, e0, np.abs(e0) + 2, tol=1e-3, logvar=c)
        R.close("no spread for log-variance -60", v.reparameterize(M0, torch.full_like(V0, -60.0)), to_np(M0), tol=1e-5)
        y = v.sample(3)
        R.true("sample decodes the requested number of codes", list(y.shape) == [3] + list(shape) and list(dec.seen.shape) == [3, C, 1, 1])
        R.true("samples are drawn independently", len(np.unique(np.round(to_np(dec.seen).reshape(3, -1)[:, 0], 5))) == 3, codes=dec.seen)
        R.true("generate returns the reconstruction only", list(v.generate(x).shape) == [B] + list(shape))
    for q in range(4):
        R.guarded(one, F=int(R.rng.integers(1, 5)), Z=int(R.rng.integers(1, 4)), C=int(R.rng.integers(1, 5)), shape=[int(z) for z in R.rng.integers(1, 4, 3)], B=int(R.rng.integers(1, 5)), w=float(R.rng.choice([0.0, 0.25, 1.0, 3.0])), train=q % 2 == 0)
    R.guarded(one, F=3, Z=1, C=2, shape=[1, 2, 2], B=1, w=0.5)


# ------------------------------------------------------------------ C22
@oracle("C22")
def c22(R):
    def emb(d, shape):
        e = ClassicSinusoidalEmbedding(d)
        x = R.t(*shape, lo=-3, hi=9)
        h = d // 2
        fr = np.array([10000.0 ** (-i / max(h - 1, 1)) for i in range(h)])
        a = to_np(x)[..., None] * fr
        R.close("sines then cosines", e(x), np.concatenate([np.sin(a), np.cos(a)], -1), tol=1e-4)
    for d in (2, 4, 6, 10):
        for shape in ([3], [1], [2, 3]):
            R.guarded(emb, d=d, shape=shape)

    def odd(d):
        try:
            ClassicSinusoidalEmbedding(d)
            R.fail("odd size is refused")
        except ValueError:
            R.checked += 1
    for d in (1, 3, 7):
        R.guarded(odd, d=d)

    def mesh(w, h, r, normalize):
        ms = UT.positions_from_mesh(w, h, rotations=r, device="cpu", **({} if normalize is None else dict(normalize=normalize)))
        R.true("two meshes per rotation", len(ms) == 2 * r, got=len(ms))
        X, Y = np.meshgrid(np.arange(w), np.arange(h), indexing="ij")
        m = max(w, h)
        lo, hi = (-1, 1) if normalize else (-m / 2, m / 2)
        for k in range(r):
            t = (math.pi / 2) * k / r
            for g, u in enumerate((math.cos(t) * X + math.sin(t) * Y, math.cos(t) * Y - math.sin(t) * X)):
                R.close("axis" if g == 0 else "orthogonal axis", ms[2 * k + g], lo + (u - u.min()) / (u.max() - u.min()) * (hi - lo), m, tol=1e-5, rotation=k)
    for w, h in ((2, 2), (5, 3), (3, 7), (2, 9)):
        for r in (1, 2, 3, 5):
            for nz in (None, True, False):
                R.guarded(mesh, w=w, h=h, r=r, normalize=nz)
