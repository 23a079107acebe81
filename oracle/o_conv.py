from base import *
from o_fc import ten, r32, frame, cfgs
from high_order_layers_torch.layers import high_order_convolution_layers, high_order_convolution_transpose_layers


def phi(kind, x, n, s, L):
    if kind.startswith("polynomial"):
        return phi_poly(x, n, L)
    if kind.startswith("fourier"):
        return phi_fourier(x, n, L)
    return phi_pw(x, n, s, L, kind.startswith("disc"))


def image(R, kind, shape, n, s, L):
    x = R.rng.uniform(-0.6 * L, 0.6 * L, shape)
    far = R.rng.uniform(0.5 * L, 1.5 * L, shape) * R.rng.choice([-1.0, 1.0], shape)
    x = np.where(R.rng.uniform(0, 1, shape) < 0.25, far, x)
    if "continuous" in kind:
        x = off_edges(x, s, L)
    return r32(x)


def conv_ref(ph, W, nd, K, st, pad):
    """ph[b,c,*pos,v], W[o,c,v,*taps]"""
    D = ph.shape[2:2 + nd]
    out = [(d + 2 * pad - K) // st + 1 for d in D]
    y = np.zeros((ph.shape[0], W.shape[0]) + tuple(out))
    for p in np.ndindex(*out):
        for t in np.ndindex(*([K] * nd)):
            q = [p[i] * st + t[i] - pad for i in range(nd)]
            if all(0 <= q[i] < D[i] for i in range(nd)):
                y[(slice(None), slice(None)) + p] += np.einsum("bcv,ocv->bo", ph[(slice(None), slice(None)) + tuple(q)], W[(slice(None), slice(None), slice(None)) + t])
    return y


def mk(kind, nd, n, s, L, C, O, K, st, pad, rescale, default, transpose=False, **extra):
    kw = dict(n=n, in_channels=C, out_channels=O, kernel_size=K, **extra)
    if not default:
        kw["length"] = L
    if "continuous" in kind:
        kw["segments"] = s
    if st != 1:
        kw["stride"] = st
    if pad:
        kw["padding"] = pad
    if rescale:
        kw["rescale_output"] = True
    f = high_order_convolution_transpose_layers if transpose else high_order_convolution_layers
    return f(f"{kind}{nd}d", **kw)


@oracle("C09")
def c09(R):
    def one(kind, nd, n, s, L, C, O, B, K, st, pad, W, rescale=False, default=False):
        if default:
            L = 2.0
        W = max(W, K - 2 * pad, 1)
        lay = mk(kind, nd, n, s, L, C, O, K, st, pad, rescale, default)
        R.randomize(lay)
        D = [W + i for i in range(nd)]
        x = image(R, kind, (B, C) + tuple(D), n, s, L)
        ph = phi(kind, x, n, s, L)
        nb = ph.shape[-1]
        w = to_np(lay.conv.weight)
        if not R.true("weight layout", w.shape == (O, C * nb) + (K,) * nd, got=w.shape):
            return
        w = w.reshape((O, C, nb) + (K,) * nd)
        y = frame(R, lay, lay, ten(x))
        e, sc = conv_ref(ph, w, nd, K, st, pad), conv_ref(abs(ph), abs(w), nd, K, st, pad)
        if rescale:
            e, sc = e / (C * K ** nd), sc / (C * K ** nd)
        R.close(f"{kind}{nd}d convolution", y, e, sc, x=x)
        R.same("second evaluation", y, lay(ten(x)))
    base = [dict(n=3, s=2, L=2.0, C=2, O=2, B=2, K=2, st=1, pad=0, W=4),
            dict(n=2, s=3, L=1.0, C=3, O=1, B=1, K=3, st=2, pad=1, W=5),
            dict(n=4, s=1, L=3.0, C=1, O=3, B=2, K=1, st=1, pad=0, W=3),
            dict(n=1, s=2, L=2.0, C=2, O=2, B=1, K=2, st=3, pad=2, W=4),
            dict(n=5, s=4, L=4.0, C=2, O=1, B=1, K=3, st=1, pad=2, W=4)]
    for _ in range(12 if R.thorough else 2):
        base.append(dict(n=int(R.rng.integers(1, 6)), s=int(R.rng.integers(1, 6)), L=float(R.rng.choice([0.5, 1, 2, 5])), C=int(R.rng.integers(1, 4)), O=int(R.rng.integers(1, 4)), B=int(R.rng.integers(1, 4)), K=int(R.rng.integers(1, 5)), st=int(R.rng.integers(1, 4)), pad=int(R.rng.integers(0, 3)), W=int(R.rng.integers(2, 7))))
    for kind in ("polynomial", "continuous", "discontinuous", "fourier"):
        for nd in (1, 2):
            for c in cfgs(R, base, ("n", "s", "L", "C", "O", "B", "K")):
                R.guarded(one, kind=kind, nd=nd, **c)
            R.guarded(one, kind=kind, nd=nd, rescale=True, **base[0])
            R.guarded(one, kind=kind, nd=nd, rescale=True, **base[1])
            R.guarded(one, kind=kind, nd=nd, default=True, **base[0])


@oracle("C10")
def c10(R):
    def one(n, s, L, C, O, B, K, st, pad, W, rescale=False, default=False):
        if default:
            L = 2.0
        D = [W, W + 1]
        if (W - 1) * st - 2 * pad + K < 1:
            pad = 0
        lay = mk("continuous", 2, n, s, L, C, O, K, st, pad, rescale, default, True)
        R.randomize(lay)
        x = image(R, "continuous", (B, C) + tuple(D), n, s, L)
        ph = phi_pw(x, n, s, L, False)
        nb = ph.shape[-1]
        w = to_np(lay.conv.weight)
        if not R.true("weight layout", w.shape == (C * nb, O, K, K), got=w.shape):
            return
        w = w.reshape(C, nb, O, K, K)
        y = frame(R, lay, lay, ten(x))

        def ref(ph, w):
            out = [(d - 1) * st - 2 * pad + K for d in D]
            e = np.zeros((B, O) + tuple(out))
            for q in np.ndindex(*D):
                for t in np.ndindex(K, K):
                    p = [q[i] * st + t[i] - pad for i in range(2)]
                    if all(0 <= p[i] < out[i] for i in range(2)):
                        e[:, :, p[0], p[1]] += np.einsum("bcv,cvo->bo", ph[:, :, q[0], q[1]], w[..., t[0], t[1]])
            return e / (C * K * K) if rescale else e
        R.close("transposed convolution", y, ref(ph, w), ref(abs(ph), abs(w)), x=x)
        R.same("second evaluation", y, lay(ten(x)))
    base = [dict(n=3, s=2, L=2.0, C=2, O=2, B=2, K=2, st=1, pad=0, W=3),
            dict(n=2, s=3, L=1.0, C=3, O=1, B=1, K=3, st=2, pad=1, W=3),
            dict(n=4, s=1, L=3.0, C=1, O=3, B=2, K=1, st=2, pad=0, W=2),
            dict(n=1, s=2, L=2.0, C=2, O=2, B=1, K=2, st=3, pad=1, W=2),
            dict(n=5, s=4, L=4.0, C=2, O=1, B=1, K=4, st=2, pad=2, W=3)]
    for _ in range(12 if R.thorough else 2):
        base.append(dict(n=int(R.rng.integers(1, 6)), s=int(R.rng.integers(1, 6)), L=float(R.rng.choice([0.5, 1, 2, 5])), C=int(R.rng.integers(1, 4)), O=int(R.rng.integers(1, 4)), B=int(R.rng.integers(1, 4)), K=int(R.rng.integers(1, 5)), st=int(R.rng.integers(1, 4)), pad=int(R.rng.integers(0, 2)), W=int(R.rng.integers(2, 5))))
    for c in cfgs(R, base, ("n", "s", "L", "C", "O", "B", "K")):
        R.guarded(one, **c)
    for c in base[:4]:
        R.guarded(one, rescale=True, **c)
        R.guarded(one, default=True, **c)


@oracle("C08")
def c08_conv(R):
    def one(kind, nd, n, s, L, p, C, O, B, K, W, transpose=False):
        a = mk(kind, nd, n, s, L, C, O, K, 1, 0, False, False, transpose, periodicity=p)
        b = mk(kind, nd, n, s, L, C, O, K, 1, 0, False, False, transpose)
        R.randomize(a)
        b.load_state_dict(a.state_dict())
        x = R.rng.uniform(-4 * p, 4 * p, (B, C) + (W,) * nd)
        if "continuous" in kind:
            x = off_edges(x, s, L, p)
        x = r32(x)
        y = frame(R, a, a, ten(x))
        e = b(ten(fold(x, p)))
        R.close("periodic convolution is the plain one on the folded input", y, to_np(e), 20 + np.abs(to_np(e)), tol=1e-3, x=x)
    for nd in (1, 2):
        for kind in ("polynomial", "continuous", "discontinuous"):
            for c in (dict(n=3, s=3, L=2.0, p=2.0, C=2, O=2, B=2, K=2, W=4), dict(n=2, s=2, L=2.0, p=1.0, C=1, O=1, B=1, K=3, W=3), dict(n=4, s=2, L=3.0, p=3.0, C=2, O=1, B=2, K=1, W=2)):
                R.guarded(one, kind=kind, nd=nd, **c)
    R.guarded(one, kind="continuous", nd=2, n=3, s=3, L=2.0, p=2.0, C=2, O=2, B=2, K=2, W=3, transpose=True)
    R.guarded(one, kind="continuous", nd=2, n=2, s=2, L=2.0, p=1.3, C=1, O=2, B=1, K=3, W=3, transpose=True)
