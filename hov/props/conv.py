"""C09, C10: high-order convolutions."""
from ..harness import *
from ..spec import *
from . import prop
from .fc import fbasis


def nbasis(kind, n, s):
    if kind.startswith("discontinuous"):
        return n * s
    if kind.startswith("continuous"):
        return (n - 1) * s + 1
    return n


def tap(kind, w, n, s, L, base, x, seg=seg):
    """Link function of one tap: w(v) with v counted from 0 inside the tap's weights."""
    if kind.startswith("polynomial"):
        return Sum(n, lambda j: w(base + j) * Lag(n, L, j, x))
    if kind.startswith("fourier"):
        return Sum(n, lambda j: w(base + j) * fbasis(j, x, L))
    st = n if kind.startswith("disc") else n - 1
    sg = seg(x, s, L)
    return Sum(n, lambda j: w(base + sg * st + j) * Lag(n, L, j, xloc(x, sg, s, L)))


def out_len(W, K, st, pad):
    return floor(div(W + pad * 2 - K, st)) + 1


def conv_case(H, kind, nd, opts, nm, default_len=False, rescale=False, periodic=False):
    SEG = Seg if H.use_contracts else seg

    def body(k):
        n, C, O, B = k.ints("n C O B")
        s = k.int("s")
        K = k.int("K")
        D = [k.int(f"W{i}") for i in range(nd)]
        L = Sc(const(2), "f") if default_len else k.real("L", pos=True)
        st = k.int("stride") if "stride" in opts else Sc(ONE, "i")
        pad = k.int("pad", lo=0) if "padding" in opts else Sc(ZERO, "i")
        for d in D:
            k.assume(ge0(d.p + pad.p * 2 - K.p))
        kw = dict(n=n, in_channels=C, out_channels=O, kernel_size=K)
        if not default_len:
            kw["length"] = L
        if "ontinuous" in kind:
            kw["segments"] = s
        if "stride" in opts:
            kw["stride"] = st
        if "padding" in opts:
            kw["padding"] = pad
        if rescale:
            kw["rescale_output"] = True
        lay = H.api("layers:high_order_convolution_layers")(f"{kind}{nd}d", **kw)
        nb = nbasis(kind, n.p, s.p)
        k.shape(lay.conv.weight, (O, Sc(C.p * nb, "i")) + (K,) * nd, "weight layout")
        k.fact(lay.conv.bias is None, "no separate bias")
        w = k.havoc(lay.conv.weight, "w")
        x = k.tensor("x", B, C, *D)
        sn = k.snapshot(lay, x)
        y = lay(x)

        def spec(b, o, *p):
            def at(c, t):
                q = [p[i] * st.p + t[i] - pad.p for i in range(nd)]
                ok = band(*[band(ge0(q[i]), lt(q[i], D[i].p)) for i in range(nd)])
                return ite(ok, tap(kind, lambda v: w(o, v, *t), n.p, s.p, L.p, c * nb, x.at(b, c, *q), SEG), ZERO)
            if nd == 1:
                r = Sum(C.p, lambda c: Sum(K.p, lambda t: at(c, [t])))
            else:
                r = Sum(C.p, lambda c: Sum(K.p, lambda t: Sum(K.p, lambda u: at(c, [t, u]))))
            if rescale:
                r = div(r, C.p * (K.p if nd == 1 else K.p * K.p))
            return r
        shp = (B, O) + tuple(Sc(out_len(d.p, K.p, st.p, pad.p), "i") for d in D)
        k.equal(y, spec, "sum over channels and taps of link functions", shape=shp)
        k.unchanged(sn)
    H.case(f"{kind}{nd}d {nm}", body)


@prop("C09", contracts=("lag", "fold", "expand"))
def c09(H):
    for nd in (1, 2):
        for kind in ("polynomial", "continuous", "discontinuous", "fourier"):
            conv_case(H, kind, nd, ("stride", "padding"), "stride and padding")
            conv_case(H, kind, nd, (), "rescaled", rescale=True)
            conv_case(H, kind, nd, (), "default length", default_len=True)


def tconv_case(H, opts, nm, default_len=False, rescale=False):
    SEG = Seg if H.use_contracts else seg

    def body(k):
        n, C, O, B = k.ints("n C O B")
        s = k.int("s")
        K = k.int("K")
        D = [k.int(f"W{i}") for i in range(2)]
        L = Sc(const(2), "f") if default_len else k.real("L", pos=True)
        st = k.int("stride") if "stride" in opts else Sc(ONE, "i")
        pad = k.int("pad", lo=0) if "padding" in opts else Sc(ZERO, "i")
        outs = [(d.p - 1) * st.p - pad.p * 2 + K.p for d in D]
        for o in outs:
            k.assume(ge0(o - 1))
        kw = dict(n=n, in_channels=C, out_channels=O, kernel_size=K, segments=s)
        if not default_len:
            kw["length"] = L
        if "stride" in opts:
            kw["stride"] = st
        if "padding" in opts:
            kw["padding"] = pad
        if rescale:
            kw["rescale_output"] = True
        lay = H.api("layers:high_order_convolution_transpose_layers")("continuous2d", **kw)
        nb = nbasis("continuous", n.p, s.p)
        k.shape(lay.conv.weight, (Sc(C.p * nb, "i"), O, K, K), "weight layout")
        k.fact(lay.conv.bias is None, "no separate bias")
        w = k.havoc(lay.conv.weight, "w")
        x = k.tensor("x", B, C, *D)
        sn = k.snapshot(lay, x)
        y = lay(x)

        def spec(b, o, *p):
            def at(c, q):
                t = [p[i] + pad.p - q[i] * st.p for i in range(2)]
                ok = band(*[band(ge0(t[i]), lt(t[i], K.p)) for i in range(2)])
                return ite(ok, tap("continuous", lambda v: w(v, o, *t), n.p, s.p, L.p, c * nb, x.at(b, c, *q), SEG), ZERO)
            r = Sum(C.p, lambda c: Sum(D[0].p, lambda t: Sum(D[1].p, lambda u: at(c, [t, u]))))
            if rescale:
                r = div(r, C.p * K.p * K.p)
            return r
        k.equal(y, spec, "every input value scattered through its link functions", shape=(B, O) + tuple(Sc(o, "i") for o in outs))
        k.unchanged(sn)
    H.case(f"transposed continuous2d {nm}", body)


@prop("C10", contracts=("lag", "fold", "expand"))
def c10(H):
    tconv_case(H, ("stride", "padding"), "stride and padding")
    tconv_case(H, (), "plain")
    tconv_case(H, ("stride",), "rescaled", rescale=True)
    tconv_case(H, (), "default length", default_len=True)


@prop("C08", contracts=("lag", "fold", "expand"))
def c08_conv(H):
    FOLD = Fold if H.use_contracts else fold

    def case(kind, nd, transpose=False):
        def body(k):
            n, C, O, B, s, K = k.ints("n C O B s K")
            D = [k.int(f"W{i}") for i in range(nd)]
            L, p = k.real("L", pos=True), k.real("p", pos=True)
            for d in D:
                k.assume(ge0(d.p - K.p))
            kw = dict(n=n, in_channels=C, out_channels=O, kernel_size=K, length=L)
            if "continuous" in kind:
                kw["segments"] = s
            mk = H.api("layers:high_order_convolution_transpose_layers" if transpose else "layers:high_order_convolution_layers")
            a = mk(f"{kind}{nd}d", periodicity=p, **kw)
            b = mk(f"{kind}{nd}d", **kw)
            k.havoc(a.conv.weight, "w")
            k.havoc(b.conv.weight, "w")
            x = k.tensor("x", B, C, *D)
            xc = x.snap()
            xf = TN.new(x._shape, lambda ix: FOLD(xc(ix), p.p), "f")
            ya, yb = a(x), b(xf)
            k.equal(ya, lambda *ix: yb.at(*ix), "periodic convolution = plain convolution of the folded input", shape=yb._shape)
        H.case(f"{'transposed ' if transpose else ''}{kind}{nd}d periodic", body)
    for nd in (1, 2):
        for kind in ("polynomial", "continuous", "discontinuous"):
            case(kind, nd)
    case("continuous", 2, True)
