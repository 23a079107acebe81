import copy
from base import *
from high_order_layers_torch.layers import high_order_fc_layers
from high_order_layers_torch.utils import make_periodic
from high_order_layers_torch.LagrangePolynomial import FourierExpand


def cfgs(R, base, names):
    """base configurations plus those suggested by countermodels."""
    out = []
    for h in R.hints:
        c = dict(base[0])
        for k, v in h.items():
            if k in names and k in c:
                if k in ("L", "alpha", "p"):
                    c[k] = float(v) if v else c[k]
                else:
                    c[k] = int(min(max(v, 1), 600 if k == "B" else 40))
        if np.prod([float(v) for k, v in c.items() if isinstance(v, int)]) > 40000:
            c = {k: min(v, 7) if isinstance(v, int) else v for k, v in c.items()}
        out.append(c)
    return out + base


def grid(R, n=(1, 2, 3, 4, 5, 7), L=(2.0, 1.0, 3.5), s=(None,), extra=6):
    out = []
    for i, a in enumerate(n):
        for j, sg in enumerate(s):
            c = dict(n=a, L=L[(i + j) % len(L)], I=1 + (i + j) % 3, O=1 + (i * 2 + j) % 3, B=1 + (i + 2 * j) % 4)
            if sg is not None:
                c["s"] = sg
            out.append(c)
    for _ in range(extra * (4 if R.thorough else 1)):
        c = dict(n=int(R.rng.integers(1, 8)), L=float(R.rng.choice([0.5, 1.0, 2.0, 2.5, 4.0, 10.0])), I=int(R.rng.integers(1, 5)), O=int(R.rng.integers(1, 5)), B=int(R.rng.integers(1, 6)))
        if s[0] is not None:
            c["s"] = int(R.rng.integers(1, 8))
        out.append(c)
    return out


def inputs(R, B, I, L, wide=1.2):
    """inside, at the ends, and outside the domain"""
    x = R.rng.uniform(-L / 2 * wide, L / 2 * wide, (B, I))
    return x


def spread(R, B, I, L):
    xs = [inputs(R, B, I, L)]
    e = np.tile(np.linspace(-L / 2, L / 2, 9)[:, None], (1, I)) + 0.013 * L
    xs.append(e)
    o = R.rng.uniform(0.52 * L, 0.9 * L, (B, I)) * R.rng.choice([-1.0, 1.0], (B, I))
    xs.append(o)
    return xs


def ten(x):
    return torch.tensor(np.asarray(x), dtype=torch.float32)


def r32(x):
    return np.asarray(torch.tensor(np.asarray(x), dtype=torch.float32).double())


def frame(R, lay, f, x):
    """f(x) leaves layer state and input alone; returns the result"""
    st = {k: v.clone() for k, v in lay.state_dict().items()}
    xc = x.clone()
    y = f(x)
    for k, v in lay.state_dict().items():
        R.same(f"state {k} unchanged by evaluation", v, st[k])
    R.same("input unchanged by evaluation", x, xc)
    # same function without gradients, in evaluation mode, for strided inputs, and when a
    # buffer is reused for other values
    ref, sc = to_np(y), 10 + np.abs(to_np(y))
    with torch.no_grad():
        R.close("without gradients", f(x), ref, sc)
        buf = x.clone()
        f(buf)
        buf.mul_(-0.7).add_(0.0517)
        z = f(buf)
        R.close("reused input buffer", f(buf.clone()), to_np(z), 10 + np.abs(to_np(z)))
    if hasattr(lay, "eval"):
        tr = lay.training
        lay.eval()
        R.close("evaluation mode", f(x), ref, sc)
        lay.train(tr)
    R.close("strided input", f(torch.stack([x, -x], -1)[..., 0]), ref, sc)
    R.close("grad input", f(x.clone().requires_grad_(True)), ref, sc)
    if isinstance(lay, torch.nn.Module):
        # between the backward pass and the optimizer step
        ps = [p for p in lay.parameters() if p.requires_grad]
        for p in ps:
            p.grad = torch.ones_like(p)
        R.close("with gradients present", f(x), ref, sc)
        for p in ps:
            p.grad = None
        for k, v in lay.state_dict().items():
            R.same(f"state {k} unchanged by evaluation with gradients present", v, st[k])
        R.same("input unchanged by evaluation", x, xc)
        if f is lay:
            try:
                d = copy.deepcopy(lay).double()(x.double())
            except RuntimeError:
                d = None
            if d is not None:
                R.close("double precision", d, ref, sc)
    return y


# ------------------------------------------------------------------ C01
@oracle("C01")
def c01(R):
    def one(n, L, I, O, B, default=False):
        kw = {} if default else dict(length=L)
        if default:
            L = 2.0
        lay = high_order_fc_layers("polynomial", n=n, in_features=I, out_features=O, **kw)
        R.randomize(lay)
        w = to_np(lay.w)
        R.true("weights per link", w.shape == (O, I, n), got=w.shape)
        for x in spread(R, B, I, L):
            x = r32(x)
            ph = lag(n, L, x)
            y = frame(R, lay, lay, ten(x))
            R.close("polynomial layer", y, np.einsum("bij,oij->bo", ph, w), np.einsum("bij,oij->bo", abs(ph), abs(w)), x=x)
            y2 = lay(ten(x))
            R.same("second evaluation", y, y2)
            for b in sorted(set(range(min(6, x.shape[0]))) | {x.shape[0] - 1}):
                R.close("sample alone", lay(ten(x[b:b + 1])), to_np(y)[b:b + 1], np.einsum("bij,oij->bo", abs(ph), abs(w))[b:b + 1], x=x[b])
        # values at the nodes
        X = nodes(n) * L / 2
        if I == 1:
            R.close("weights at the nodes", lay(ten(X[:, None])), w[:, 0, :].T)
    for c in cfgs(R, grid(R), ("n", "L", "I", "O", "B")):
        R.guarded(one, **c)
    R.guarded(one, n=3, L=2.0, I=2, O=2, B=3, default=True)
    R.guarded(one, n=1, L=2.0, I=2, O=2, B=3, default=True)


# ------------------------------------------------------------------ C02 C03 C04
def pw_ref(x, w, n, s, L, disc):
    ph = phi_pw(x, n, s, L, disc)
    return np.einsum("bij,oij->bo", ph, w), np.einsum("bij,oij->bo", abs(ph), abs(w))


def pw_oracle(R, kind, disc):
    def one(n, s, L, I, O, B, default=False):
        kw = {} if default else dict(length=L)
        if default:
            L = 2.0
        lay = high_order_fc_layers(kind, n=n, in_features=I, out_features=O, segments=s, **kw)
        R.randomize(lay)
        w = to_np(lay.w)
        R.true("weights per link", w.shape == (O, I, n * s if disc else (n - 1) * s + 1), got=w.shape)
        for x in spread(R, B, I, L):
            x = r32(off_edges(x, s, L))
            y = frame(R, lay, lay, ten(x))
            e, sc = pw_ref(x, w, n, s, L, disc)
            R.close(kind + " layer", y, e, sc, x=x)
            for b in range(min(3, x.shape[0])):
                R.close("sample alone", lay(ten(x[b:b + 1])), e[b:b + 1], sc[b:b + 1], x=x[b])
        # per segment, interior of every segment and both outsides
        xs = r32((np.arange(-1, s + 1) + 0.5 - s / 2) * L / s)
        xx = np.tile(xs[:, None], (1, I))
        e, sc = pw_ref(xx, w, n, s, L, disc)
        R.close("one value per segment", lay(ten(xx)), e, sc)
        R.true("which_segment", np.array_equal(to_np(lay.which_segment(ten(xx))), np.tile(seg_of(xs, s, L)[:, None], (1, I))), x=xs)
        if not disc and n >= 2 and I == 1:
            # nodal values: exact at the nodes of every segment (edges included)
            for k in range(s):
                X = (k + (nodes(n) + 1) / 2) * L / s - L / 2
                R.close("weight values at nodes", lay(ten(X[:, None])), w[:, 0, k * (n - 1):k * (n - 1) + n].T, 1 + n * s)
        if not disc:
            # continuity across interior edges
            for k in range(1, s):
                ed = k * L / s - L / 2
                a = lay(ten(np.full((1, I), ed - 1e-5 * L)))
                b = lay(ten(np.full((1, I), ed + 1e-5 * L)))
                R.close("continuous at edge", a, to_np(b), 20 * np.abs(w).sum(), edge=ed)
        else:
            # exactly representable edges belong to the right segment, the last end to the last segment
            if L in (2.0, 4.0, 1.0) and s in (1, 2, 4):
                for k in range(s + 1):
                    ed = k * L / s - L / 2
                    xx = np.full((1, I), ed)
                    e, sc = pw_ref(xx, w, n, s, L, disc)
                    R.close("value on the edge", lay(ten(xx)), e, sc, edge=ed)
        # histories: other batch sizes before
        x = r32(off_edges(inputs(R, 5, I, L), s, L))
        lay(ten(inputs(R, 2, I, L)))
        e, sc = pw_ref(x, w, n, s, L, disc)
        R.close("after other batches", lay(ten(x)), e, sc)
        R.close("repeated", lay(ten(x)), e, sc)
        j = s - 1
        xl = lay.x_local(ten(x), j)
        R.close("x_local", xl, local(x, j, s, L), 10 * s * L)
        R.close("x_global", lay.x_global(xl, j), x, 10 * s * L)
    base_ = grid(R, n=(1, 2, 3, 4, 5), s=(1, 2, 3, 4, 5), extra=4)
    for c in cfgs(R, base_, ("n", "s", "L", "I", "O", "B")):
        R.guarded(one, **c)
    R.guarded(one, n=3, s=3, L=2.0, I=2, O=2, B=3, default=True)


@oracle("C02")
def c02(R):
    pw_oracle(R, "continuous", False)


@oracle("C03")
def c03(R):
    pw_oracle(R, "discontinuous", True)


@oracle("C04")
def c04(R):
    def one(kind, n, s, L, I, O, B):
        disc = kind.startswith("disc")
        lay = high_order_fc_layers(kind, n=n, in_features=I, out_features=O, segments=s, length=L)
        R.randomize(lay)
        x = r32(off_edges(inputs(R, B, I, L, 1.4), s, L))
        y = frame(R, lay, lay, ten(x))
        st = n if disc else n - 1
        k = seg_of(x, s, L)
        for b in range(min(B, 3)):
            # gradient
            lay.zero_grad()
            xb = ten(x)
            out = lay(xb)[b].sum()
            out.backward()
            g = to_np(lay.w.grad)
            m = np.zeros(g.shape, bool)
            for i in range(I):
                m[:, i, k[b, i] * st:k[b, i] * st + n] = True
            R.true("gradient zero outside the segment", not np.any(g[~m] != 0), x=x[b])
            # change all other weights and other samples
            w0 = lay.w.detach().clone()
            with torch.no_grad():
                lay.w.copy_(torch.where(torch.tensor(m), w0, R.t(*w0.shape, lo=-50, hi=50)))
            x2 = r32(inputs(R, B, I, L, 1.4))
            x2[b] = x[b]
            y2 = lay(ten(x2))
            R.close("other weights and samples do not matter", y2[b], to_np(y[b]), 50, x=x[b], segment=k[b])
            with torch.no_grad():
                lay.w.copy_(w0)
    for kind in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod"):
        for c in cfgs(R, [dict(n=2, s=3, L=2.0, I=2, O=2, B=3), dict(n=3, s=4, L=1.0, I=3, O=1, B=4), dict(n=4, s=1, L=2.0, I=1, O=2, B=2), dict(n=1, s=3, L=3.0, I=2, O=2, B=2), dict(n=5, s=5, L=4.0, I=2, O=3, B=1)], ("n", "s", "L", "I", "O", "B")):
            R.guarded(one, kind=kind, **c)

    def periodic(kind, n, s, L, p, I, O, B):
        lay = high_order_fc_layers(kind, n=n, in_features=I, out_features=O, segments=s, length=L, periodicity=p)
        R.randomize(lay)
        frame(R, lay, lay, ten(off_edges(R.rng.uniform(-3 * p, 3 * p, (B, I)), s, L, p)))
    for kind in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod"):
        R.guarded(periodic, kind=kind, n=3, s=2, L=2.0, p=1.5, I=2, O=2, B=4)
        R.guarded(periodic, kind=kind, n=1, s=4, L=2.0, p=2.0, I=3, O=1, B=3)


# ------------------------------------------------------------------ C05
def prod_ref(f, alpha):
    """f: [b, o, i] link values"""
    return np.prod(1 + f, -1) - 1 - (1 - alpha) * f.sum(-1)


@oracle("C05")
def c05(R):
    def plain(I, O, B, alpha, bias):
        kw = {}
        if alpha is not None:
            kw["alpha"] = alpha
        if bias is not None:
            kw["bias"] = bias
        lay = high_order_fc_layers("product", in_features=I, out_features=O, **kw)
        R.randomize(lay)
        x = r32(R.rng.uniform(-2, 2, (B, I)))
        w = to_np(lay.weight)
        f = x[:, None, :] * w[None]
        e = prod_ref(f, 1.0 if alpha is None else alpha)
        if bias is not False:
            e = e + to_np(lay.bias)[None]
        y = frame(R, lay, lay, ten(x))
        R.close("product layer", y, e, np.prod(1 + abs(f), -1), x=x)
        R.close("product layer again", lay(ten(x)), e, np.prod(1 + abs(f), -1), x=x)
    for I in (1, 2, 3, 6):
        for al in (None, 0.0, 1.0, 0.3, -1.5):
            for bias in (None, True, False):
                R.guarded(plain, I=I, O=1 + I % 3, B=1 + I % 4, alpha=al, bias=bias)
    for h in R.hints:
        R.guarded(plain, I=int(min(max(h.get("I", 2), 1), 6)), O=int(min(max(h.get("O", 2), 1), 6)), B=int(min(max(h.get("B", 2), 1), 6)), alpha=float(h.get("alpha", 0.5)), bias=None)

    def poly(kind, n, s, L, I, O, B, alpha):
        kw = {} if alpha is None else dict(alpha=alpha)
        if kind != "polynomial_prod":
            kw["segments"] = s
        lay = high_order_fc_layers(kind, n=n, in_features=I, out_features=O, length=L, **kw)
        R.randomize(lay)
        w = to_np(lay.w)
        for x in spread(R, B, I, L):
            x = r32(off_edges(x, s, L)) if kind != "polynomial_prod" else r32(x)
            ph = lag(n, L, x) if kind == "polynomial_prod" else phi_pw(x, n, s, L, kind.startswith("disc"))
            f = np.einsum("bij,oij->boi", ph, w)
            sc = np.prod(1 + np.einsum("bij,oij->boi", abs(ph), abs(w)), -1)
            y = frame(R, lay, lay, ten(x))
            R.close(kind, y, prod_ref(f, 1.0 if alpha is None else alpha), sc, x=x)
            R.close(kind + " again", lay(ten(x)), prod_ref(f, 1.0 if alpha is None else alpha), sc, x=x)
    for kind in ("polynomial_prod", "continuous_prod", "discontinuous_prod"):
        for i, c in enumerate(cfgs(R, [dict(n=2, s=2, L=2.0, I=3, O=2, B=3, alpha=0.0), dict(n=3, s=4, L=2.0, I=2, O=2, B=2, alpha=1.0), dict(n=3, s=1, L=1.0, I=1, O=3, B=2, alpha=0.4),
                                       dict(n=1, s=3, L=2.0, I=2, O=1, B=4, alpha=-0.7), dict(n=4, s=3, L=3.0, I=4, O=2, B=1, alpha=None)], ("n", "s", "L", "I", "O", "B", "alpha"))):
            R.guarded(poly, kind=kind, **c)


# ------------------------------------------------------------------ C06
@oracle("C06")
def c06(R):
    def one(n, L, I, O, B, default=False):
        kw = {} if default else dict(length=L)
        if default:
            L = 2.0
        lay = high_order_fc_layers("fourier", n=n, in_features=I, out_features=O, **kw)
        R.randomize(lay)
        w = to_np(lay.w)
        R.true("weights per link", w.shape == (O, I, n), got=w.shape)
        for x in spread(R, B, I, L):
            x = r32(x)
            ph = phi_fourier(x, n, L)
            e, sc = np.einsum("bij,oij->bo", ph, w), np.abs(w).sum()
            y = frame(R, lay, lay, ten(x))
            R.close("fourier layer", y, e, sc, x=x)
            R.close("period", lay(ten(x + 3 * L)), e, sc * (1 + n), tol=5e-4, x=x)
    for c in cfgs(R, grid(R, n=(1, 2, 3, 4, 5, 6, 7), extra=6), ("n", "L", "I", "O", "B")):
        R.guarded(one, **c)
    R.guarded(one, n=3, L=2.0, I=2, O=2, B=3, default=True)

    def expand(n, L, shape):
        x = r32(R.rng.uniform(-L, L, shape))
        t = ten(x)
        R.close("basis functions of every entry", FourierExpand(n, L)(t), np.moveaxis(phi_fourier(x, n, L), -1, 0), 2)
        R.same("input unchanged", t, ten(x))
    for n in (1, 2, 3, 6):
        for shape in ([4], [2, 3], [2, 3, 2], [2, 1, 3, 2], [1, 2, 1, 2, 2]):
            R.guarded(expand, n=n, L=1.5, shape=shape)


# ------------------------------------------------------------------ C07
@oracle("C07")
def c07(R):
    def tens(ns, L, x):
        """x [..., d] -> [..., prod ns]"""
        out = np.ones(x.shape[:-1] + (1,))
        for t, n in enumerate(ns):
            out = (out[..., :, None] * lag(n, L, x[..., t])[..., None, :]).reshape(x.shape[:-1] + (-1,))
        return out

    def poly(ns, as_int, L, I, O, B):
        d = len(ns)
        lay = high_order_fc_layers(f"polynomial_{d}d", n=ns[0] if as_int else list(ns), in_features=I, out_features=O, length=L)
        R.randomize(lay)
        w = to_np(lay.w)
        x = r32(R.rng.uniform(-0.6 * L, 0.6 * L, (B, I, d)))
        ph = tens(ns, L, x)
        y = frame(R, lay, lay, ten(x))
        R.close("nd polynomial", y, np.einsum("bik,oik->bo", ph, w), np.einsum("bik,oik->bo", abs(ph), abs(w)), x=x)
        # node by node
        if I == 1 and d <= 3:
            X = np.array(np.meshgrid(*[nodes(n) * L / 2 for n in ns], indexing="ij")).reshape(d, -1).T[:, None, :]
            R.close("weights at grid nodes", lay(ten(X)), w[:, 0, :].T, 3)
    for ns, as_int in (((2, 2), True), ((3, 2), False), ((1, 3), False), ((3, 3, 3), True), ((2, 3, 4), False), ((1, 1, 2), False), ((2, 2, 2, 2), True), ((2, 2, 2, 2, 2), True), ((1, 2, 3, 2), False), ((4, 4), True), ((2, 1, 2, 1, 3), False)):
        for L in (2.0, 3.0):
            R.guarded(poly, ns=ns, as_int=as_int, L=L, I=1 + len(ns) % 2, O=2, B=3)
            R.guarded(poly, ns=ns, as_int=as_int, L=L, I=1, O=1 + len(ns) % 3, B=1)
            R.guarded(poly, ns=ns, as_int=as_int, L=L, I=3, O=2, B=2)

    def pw(ns, ss, as_int, L, I, O, B):
        d = len(ns)
        if as_int:
            lay = high_order_fc_layers("continuous_nd", n=ns[0], in_features=I, out_features=O, segments=ss[0], dimensions=d, length=L)
        else:
            lay = high_order_fc_layers("continuous_nd", n=list(ns), in_features=I, out_features=O, segments=list(ss), length=L)
        R.randomize(lay)
        x = R.rng.uniform(-0.65 * L, 0.65 * L, (B, I, d))
        for t in range(d):
            x[..., t] = off_edges(x[..., t], ss[t], L)
        x = r32(x)
        k = np.stack([seg_of(x[..., t], ss[t], L) for t in range(d)], -1)
        xl = np.stack([local(x[..., t], k[..., t], ss[t], L) for t in range(d)], -1)
        ph = tens(ns, L, xl)
        el = np.zeros(k.shape[:-1], int)
        for t in range(d):
            el = el * ss[t] + k[..., t]
        tot = int(np.prod(ns))
        ne = int(np.prod(ss))
        W = to_np(lay.w)
        # any layout that gives every (link, element) its own grid: identify by perturbation below, default [I, O, elements*grid]
        W = W.reshape(I, O, ne, tot)
        e = np.zeros((B, O))
        sc = np.zeros((B, O))
        for b in range(B):
            for i in range(I):
                e[b] += W[i, :, el[b, i]] @ ph[b, i]
                sc[b] += abs(W[i, :, el[b, i]]) @ abs(ph[b, i])
        y = frame(R, lay, lay, ten(x))
        R.close("piecewise nd", y, e, sc, x=x)
        R.close("piecewise nd again", lay(ten(x)), e, sc, x=x)
    for ns, ss, ai in (((2,), (3,), True), ((3, 3), (2, 2), True), ((2, 3), (3, 2), False), ((2, 2, 2), (2, 2, 2), True), ((1, 2), (2, 3), False), ((2, 2), (1, 1), True), ((2, 1, 3), (2, 3, 1), False), ((2, 2, 2, 2), (2, 1, 2, 2), False), ((2,) * 4, (2,) * 4, True), ((2,) * 5, (2,) * 5, True), ((1, 2, 2, 1, 2), (1, 2, 1, 3, 2), False), ((2,) * 6, (2,) * 6, True), ((2,) * 9, (1, 2) * 4 + (1,), False)):
        for L in (2.0, 1.0):
            R.guarded(pw, ns=ns, ss=ss, as_int=ai, L=L, I=1, O=1, B=4)
            R.guarded(pw, ns=ns, ss=ss, as_int=ai, L=L, I=2, O=3, B=3)


# ------------------------------------------------------------------ C08
@oracle("C08")
def c08(R):
    def law(p, m):
        x = r32(R.rng.uniform(-8 * p, 8 * p, m))
        y = make_periodic(ten(x), p)
        R.close("fold", y, fold(x, p), 10 * p, x=x)
        R.true("range", bool((to_np(y) >= -p / 2 - 1e-4 * p).all() and (to_np(y) <= p / 2 + 1e-4 * p).all()), x=x)
        z = r32(np.linspace(-p / 2, p / 2, 21))
        R.close("identity on the base interval", make_periodic(ten(z), p), z, p)
        R.close("period", make_periodic(ten(x + 2 * p), p), to_np(y), 10 * p, x=x)
        R.close("mirror", make_periodic(ten(p - x), p), to_np(y), 10 * p, x=x)
        R.close("mirror", make_periodic(ten(-p - x), p), to_np(y), 10 * p, x=x)
    for p in (1.0, 2.0, 0.5, 3.0, 7.25):
        R.guarded(law, p=p, m=200)

    def shapes(p, shape):
        x = r32(R.rng.uniform(-8 * p, 8 * p, shape))
        t = ten(x)
        R.close("fold", make_periodic(t, p), fold(x, p), 10 * p, x=x)
        R.same("input unchanged", t, ten(x))
    for shape in ([], [3], [2, 3], [2, 3, 2], [2, 1, 3, 2], [1, 2, 1, 2, 2]):
        R.guarded(shapes, p=1.5, shape=shape)

    def layer(kind, n, s, L, p, I, O, B):
        kw = dict(in_features=I, out_features=O)
        if kind != "product":
            kw.update(n=n, length=L)
        if "continuous" in kind:
            kw.update(segments=s)
        a = high_order_fc_layers(kind, periodicity=p, **kw)
        b = high_order_fc_layers(kind, **kw)
        R.randomize(a)
        b.load_state_dict(a.state_dict())
        x = r32(R.rng.uniform(-4 * p, 4 * p, (B, I)))
        if "continuous" in kind:
            x = r32(off_edges(x, s, L, p))
        y = frame(R, a, a, ten(x))
        e = b(ten(fold(x, p)))
        R.close("periodic layer is the plain layer on the folded input", y, to_np(e), 20 + np.abs(to_np(e)), tol=1e-3, x=x)
        x2 = r32(np.linspace(-p / 2, p / 2, 7))[:, None] * np.ones((1, I)) * 0.97
        R.close("inside the base interval", a(ten(x2)), to_np(b(ten(x2))), 20, tol=1e-3)
    for kind in ("polynomial", "polynomial_prod", "continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "product"):
        for c in cfgs(R, [dict(n=3, s=3, L=2.0, p=2.0, I=2, O=2, B=4), dict(n=2, s=4, L=2.0, p=1.0, I=1, O=3, B=3), dict(n=4, s=2, L=3.0, p=3.0, I=3, O=1, B=2), dict(n=2, s=1, L=1.0, p=0.7, I=2, O=2, B=1)], ("n", "s", "L", "p", "I", "O", "B")):
            R.guarded(layer, kind=kind, **c)
