"""C11, C12, C13: refinement and initialisation."""
from ..harness import *
from ..spec import *
from . import prop
from .fc import fc, seg_link


def pref(w, n, n2, s, o, i, disc, k, q):
    """Weight at place q of segment k after interpolation from order n: the source's piece at the new node."""
    st = n if disc else n - 1
    return Sum(n, lambda j: w(o, i, k * st + j) * Lag(n, const(2), j, node(n2, q)))


def orders(k, disc, n1):
    if disc:
        n = Sc(ONE, "i") if n1 else k.int("n", 2)
        n2 = k.int("m", 1 if n1 else 2)
    else:
        n = Sc(ONE, "i") if n1 else k.int("p", 1) + 1
        n2 = k.int("m", 0 if n1 else 1) + 1
    k.assume(ge0(n2.p - n.p))
    return n, n2


def p_layer(H, kind, disc, n1, per=False):
    def body(k):
        I, O, s = k.ints("I O s")
        n, n2 = orders(k, disc, n1)
        L = k.real("L", pos=True)
        kw = dict(periodicity=k.real("P", pos=True)) if per else {}
        a = fc(H, kind, n=n, in_features=I, out_features=O, segments=s, length=L, **kw)
        b = fc(H, kind, n=n2, in_features=I, out_features=O, segments=s, length=L, **kw)
        w = k.havoc(a.w, "w")
        k.havoc(b.w, "w2")
        sn = k.snapshot(a)
        H.body("PolynomialLayers:interpolate_polynomial_layer")(a, b)
        st2 = n2.p if disc else n2.p - 1
        want = lambda o, i, g, q: pref(w, n.p, n2.p, s.p, o, i, disc, g, q)
        if disc:
            k.at(b.w, (O, I, s, n2), lambda o, i, g, q: (o, i, g * st2 + q), want, "weights are the source's values at the new nodes")
        else:
            k.at(b.w, (O, I, s, n2 - 1), lambda o, i, g, q: (o, i, g * st2 + q), want, "weights are the source's values at the new nodes")
            k.at(b.w, (O, I), lambda o, i: (o, i, s.p * st2), lambda o, i: Sum(n.p, lambda j: w(o, i, (s.p - 1) * (n.p - 1) + j) * Lag(n.p, const(2), j, ONE)), "last weight is the source's value at the end")
        k.unchanged(sn, "source unchanged")
        B = k.int("B")
        x = k.tensor("x", B, I)
        y, z = a(x), b(x)
        k.equal(z, lambda bb, o: y.at(bb, o), "same function", shape=(B, O))
    H.case(f"contract interpolate_polynomial_layer {kind} {'n=1' if n1 else 'n>=2'}{' periodic' if per else ''}", body, contract="interpolate_polynomial_layer", final=True)


@prop("C11", contracts=("lag", "fold", "pw", "interp"))
def c11(H):
    def method(kind, disc, n1, per):
        def body(k):
            I, O, s = k.ints("I O s")
            n, n2 = orders(k, disc, n1)
            L = k.real("L", pos=True)
            kw = dict(periodicity=k.real("P", pos=True)) if per else {}
            a = fc(H, kind, n=n, in_features=I, out_features=O, segments=s, length=L, **kw)
            b = fc(H, kind, n=n2, in_features=I, out_features=O, segments=s, length=L, **kw)
            k.havoc(a.w, "w")
            k.havoc(b.w, "w2")
            sn = k.snapshot(a)
            a.interpolate(b)
            k.unchanged(sn, "source unchanged")
            B = k.int("B")
            x = k.tensor("x", B, I)
            y, z = a(x), b(x)
            k.equal(z, lambda bb, o: y.at(bb, o), "same function", shape=(B, O))
        H.case(f"{kind} interpolate {'n=1' if n1 else 'n>=2'}{' periodic' if per else ''}", body)

    def refuse(kind, disc):
        def body(k):
            I, O, s, t, n = k.ints("I O s t n")
            n2 = k.int("m")
            k.assume(ge0(n2.p - n.p))
            k.assume(bnot(eq(s.p, t.p)))
            a = fc(H, kind, n=n, in_features=I, out_features=O, segments=s)
            b = fc(H, kind, n=n2, in_features=I, out_features=O, segments=t)
            k.havoc(a.w, "w")
            k.havoc(b.w, "w2")
            sn, sb = k.snapshot(a), k.snapshot(b)
            k.raises(lambda: a.interpolate(b), (ValueError,), "different segment counts are refused")
            k.unchanged(sn, "source unchanged")
            k.unchanged(sb, "target unchanged")
        H.case(f"{kind} refusal", body)
    for kind, disc in (("discontinuous", True), ("continuous", False)):
        for per in (False, True):
            for n1 in (True, False):
                method(kind, disc, n1, per)
        refuse(kind, disc)
    for kind in ("switch_continuous", "switch_discontinuous"):
        for n1 in (True, False):
            switch(H, kind, n1, "interpolate")
    for kind in ("continuous", "discontinuous", "switch_continuous", "switch_discontinuous"):
        for hl, res, per in ((0, False, False), (1, False, True), (3, True, False)):
            net(H, kind, hl, res, per, "interpolate_high_order_mlp", False)


def switch(H, kind, n1, meth, h=False, L=None):
    disc = "disc" in kind

    def body(k):
        I, O, s = k.ints("I O s")
        n, n2 = orders(k, disc, n1)
        s2 = s * k.int("c") if h else s
        a = fc(H, kind, n=n, in_features=I, out_features=O, segments=s, num_input_layers=3)
        b = fc(H, kind, n=n2, in_features=I, out_features=O, segments=s2, num_input_layers=3)
        for q, l in enumerate(leaves(H, a)):
            k.havoc(l.w, f"w{q}")
        for q, l in enumerate(leaves(H, b)):
            k.havoc(l.w, f"v{q}")
        sn = k.snapshot(a)
        getattr(a, meth)(b)
        k.unchanged(sn, "source unchanged")
        B = k.int("B")
        x = k.tensor("x", B, I)
        y, z = a(x), b(x)
        k.equal(z, lambda bb, o: y.at(bb, o), "same function", shape=(B, O))
    H.case(f"{kind} {meth} {'n=1' if n1 else 'n>=2'}", body, bounded="number of factors of the switch layer = 3")


def leaves(H, m):
    P = H.api("PolynomialLayers:Piecewise"), H.api("PolynomialLayers:PiecewiseDiscontinuous")
    return [l for l in m.modules() if isinstance(l, P)]


def net(H, kind, hl, res, per, fn, h):
    disc = "disc" in kind

    def body(k):
        I, O, W = k.ints("I O W")
        ns, ms, ss, ts = [], [], [], []
        for q in ("i", "h", "o"):
            if disc:
                n, m = k.int("n" + q, 2), k.int("m" + q, 2)
            else:
                n, m = k.int("p" + q, 1) + 1, k.int("q" + q, 1) + 1
            k.assume(ge0(m.p - n.p))
            s = k.int("s" + q)
            ns.append(n), ms.append(m), ss.append(s), ts.append(s * k.int("c" + q) if h else s)
        kw = dict(periodicity=k.real("P", pos=True)) if per else {}
        mk = lambda n, s: H.api("networks:HighOrderMLP")(kind, n[1], I, O, hl, W, n_in=n[0], n_hidden=n[1], n_out=n[2], in_segments=s[0], hidden_segments=s[1], out_segments=s[2], resnet=res, **kw)
        a, b = mk(ns, ss), mk(ms, ts)
        for q, l in enumerate(leaves(H, a)):
            k.havoc(l.w, f"w{q}")
        for q, l in enumerate(leaves(H, b)):
            k.havoc(l.w, f"v{q}")
        sn = k.snapshot(a)
        H.api("networks:" + fn)(a, b)
        k.unchanged(sn, "source unchanged")
        B = k.int("B")
        x = k.tensor("x", B, I)
        y, z = a(x), b(x)
        k.equal(z, lambda bb, o: y.at(bb, o), "same function", shape=(B, O))
    H.case(f"{fn} {kind} hidden={hl}{' resnet' if res else ''}{' periodic' if per else ''}", body, bounded=f"hidden_layers = {hl} in the network case; orders, segments, widths and batch are unbounded")


def h_layer(H, per, n1=False):
    """refine_polynomial_layer for continuous layers, segments s -> c*s."""
    def body(k):
        I, O, s, c = k.ints("I O s c")
        n = Sc(ONE, "i") if n1 else k.int("p", 1) + 1
        n2 = k.int("m", 0 if n1 else 1) + 1
        k.assume(ge0(n2.p - n.p))
        L = k.real("L", pos=True)
        kw = dict(periodicity=k.real("P", pos=True)) if per else {}
        a = fc(H, "continuous", n=n, in_features=I, out_features=O, segments=s, length=L, **kw)
        b = fc(H, "continuous", n=n2, in_features=I, out_features=O, segments=s * c, length=L, **kw)
        w = k.havoc(a.w, "w")
        k.havoc(b.w, "w2")
        sn = k.snapshot(a)
        H.body("PolynomialLayers:refine_polynomial_layer")(a, b)
        # segment g*c + r of the target lies in segment g of the source
        M = n2.p - 1
        F = lambda o, i, g, r, nd: Sum(n.p, lambda j: w(o, i, g * (n.p - 1) + j) * Lag(n.p, const(2), j, div(2 * r + 1 + nd, c.p) - 1))
        nm = "target weight is the source's value at the new node: "
        k.at(b.w, (O, I, s, c, n2 - 1), lambda o, i, g, r, q: (o, i, (g * c.p + r) * M + q), lambda o, i, g, r, q: F(o, i, g, r, node(n2.p, q)), nm + "all but the last node of a segment")
        k.at(b.w, (O, I, s, c - 1), lambda o, i, g, r: (o, i, (g * c.p + r + 1) * M), lambda o, i, g, r: F(o, i, g, r, ONE), nm + "last node of a segment inside a source segment")
        k.at(b.w, (O, I, s - 1), lambda o, i, g: (o, i, (g + 1) * c.p * M), lambda o, i, g: F(o, i, g, c.p - 1, ONE), nm + "last node of a segment at a source edge")
        k.at(b.w, (O, I), lambda o, i: (o, i, s.p * c.p * M), lambda o, i: F(o, i, s.p - 1, c.p - 1, ONE), nm + "last node of the last segment")
        k.unchanged(sn, "source unchanged")
        B = k.int("B")
        x = k.tensor("x", B, I)
        y, z = a(x), b(x)
        w2 = b.w.snap()
        X = (lambda bb, i: Fold(x.at(bb, i), kw["periodicity"].p)) if per else (lambda bb, i: x.at(bb, i))
        seg_split(s.p, c.p)
        G = lambda xv: app("Seg", [div(xv, L.p), s.p], "I")
        R = lambda xv: app("SegR", [div(xv, L.p), s.p, c.p], "I")
        bas = lambda xv, q: Lag(n2.p, L.p, q, xloc(xv, c.p * G(xv) + R(xv), s.p * c.p, L.p))
        k.equal(z, lambda bb, o: Sum(I.p, lambda i: Sum(n2.p, lambda q: w2((o, i, (c.p * G(X(bb, i)) + R(X(bb, i))) * M + q)) * bas(X(bb, i), q))), "target reads the weights of segment c*g + r", shape=(B, O))
        k.equal(y, lambda bb, o: Sum(I.p, lambda i: Sum(n2.p, lambda q: F(o, i, G(X(bb, i)), R(X(bb, i)), node(n2.p, q)) * bas(X(bb, i), q))), "the source's values at those nodes interpolate the source", shape=(B, O))
    H.case(f"contract refine_polynomial_layer{' periodic' if per else ''}{' n=1' if n1 else ''}", body, contract="refine_polynomial_layer", final=True)


@prop("C12", contracts=("lag", "fold", "pw", "refine"))
def c12(H):
    def method(per, n1=False):
        def body(k):
            I, O, s, c = k.ints("I O s c")
            n = Sc(ONE, "i") if n1 else k.int("p", 1) + 1
            n2 = k.int("m", 0 if n1 else 1) + 1
            k.assume(ge0(n2.p - n.p))
            L = k.real("L", pos=True)
            kw = dict(periodicity=k.real("P", pos=True)) if per else {}
            a = fc(H, "continuous", n=n, in_features=I, out_features=O, segments=s, length=L, **kw)
            b = fc(H, "continuous", n=n2, in_features=I, out_features=O, segments=s * c, length=L, **kw)
            k.havoc(a.w, "w")
            k.havoc(b.w, "w2")
            sn = k.snapshot(a)
            a.refine(b)
            k.unchanged(sn, "source unchanged")
            B = k.int("B")
            x = k.tensor("x", B, I)
            y, z = a(x), b(x)
            k.equal(z, lambda bb, o: y.at(bb, o), "same function", shape=(B, O))
        H.case(f"continuous refine{' periodic' if per else ''}{' n=1' if n1 else ''}", body)
    method(False)
    method(True)
    method(False, True)
    method(True, True)
    switch(H, "switch_continuous", False, "refine", True)
    for kind in ("continuous", "switch_continuous"):
        for hl, res, per in ((0, False, False), (1, False, True), (3, True, False)):
            net(H, kind, hl, res, per, "hp_refine_high_order_mlp", True)


# ------------------------------------------------------------------ C13
def is_line(k, lay, n, s, L, slope, offset, disc, tag=""):
    """Every link of lay is one line a*x + b over all nodes of all segments, |a| <= slope, |b| <= offset."""
    O, I, N = lay.w._shape
    w = lay.w.snap()
    st = n - 1 if not disc else n
    first, last = lambda o, i: w((o, i, ZERO)), lambda o, i: w((o, i, poly(num(N)) - 1))
    a = lambda o, i: div(last(o, i) - first(o, i), L)
    b = lambda o, i: (last(o, i) + first(o, i)) * HALF
    X = lambda g, q: (div(g * 2 + 1 + node(n, q), s) - 1) * L * HALF
    k.at(lay.w, (O, I, s, st), lambda o, i, g, q: (o, i, g * st + q), lambda o, i, g, q: a(o, i) * X(g, q) + b(o, i), tag + "every weight lies on the line of its link")
    ix, ctx = k.idx((O, I))
    c0 = E.ctx
    E.ctx = ctx
    try:
        k.holds(band(ge0(slope - a(*ix)), ge0(slope + a(*ix))), tag + "slope bounded")
        k.holds(band(ge0(offset - b(*ix)), ge0(offset + b(*ix))), tag + "offset bounded")
    finally:
        E.ctx = c0
    return a, b


@prop("C13", contracts=("lag", "fold", "expand", "pw"))
def c13(H):
    def const_fc(kind, piece, disc, dflt):
        def body(k):
            n, I, O, s, B = k.ints("n I O s B")
            L = k.real("L", pos=True)
            M = Sc(ONE, "f") if dflt else k.real("M", pos=True)
            kw = {} if dflt else dict(weight_magnitude=M)
            if piece:
                kw["segments"] = s
            lay = fc(H, kind, n=n, in_features=I, out_features=O, length=L, **kw)
            N = n.p if not piece else n.p * s.p if disc else (n.p - 1) * s.p + 1
            k.shape(lay.w, (O, I, Sc(N, "i")), "weights per link")
            k.equal(lay.w, lambda o, i, j: lay.w.at(o, i, ZERO), "all weights of a link are equal")
            ix, ctx = k.idx((O, I, Sc(N, "i")))
            c0 = E.ctx
            E.ctx = ctx
            v = lay.w.at(*ix)
            k.holds(band(ge0(v), ge0(div(M.p, I.p) - v)), "between zero and weight magnitude / inputs")
            E.ctx = c0
            if "prod" not in kind:
                x = k.tensor("x", B, I)
                w = lay.w.snap()
                y = lay(x)
                k.equal(y, lambda b, o: Sum(I.p, lambda i: w((o, i, ZERO))), "constant link functions", shape=(B, O))
        H.case(f"constant initialisation {kind}{' default' if dflt else ''}", body)
    for kind, piece, disc in (("polynomial", 0, 0), ("continuous", 1, 0), ("discontinuous", 1, 1), ("polynomial_prod", 0, 0), ("continuous_prod", 1, 0), ("discontinuous_prod", 1, 1)):
        for dflt in (False, True):
            const_fc(kind, piece, disc, dflt)

    def lin(kind, disc, dflt):
        def body(k):
            n = k.int("n", 2) if disc else k.int("p", 1) + 1
            I, O, s, B = k.ints("I O s B")
            L = k.real("L", pos=True)
            lay = fc(H, kind, n=n, in_features=I, out_features=O, segments=s, length=L)
            k.havoc(lay.w, "w")
            A, C = (Sc(ONE, "f"), Sc(ZERO, "f")) if dflt else (k.real("A", pos=True), k.real("C", pos=True))
            H.api("PolynomialLayers:initialize_polynomial_layer")(lay, **({} if dflt else dict(max_slope=A, max_offset=C)))
            a, b = is_line(k, lay, n.p, s.p, L.p, A.p, C.p, disc)
            x = k.tensor("x", B, I)
            y = lay(x)
            w = lay.w.snap()
            st = n.p if disc else n.p - 1
            SG = Seg if H.use_contracts else seg
            sg = lambda xv: SG(xv, s.p, L.p)
            bas = lambda xv, q: Lag(n.p, L.p, q, xloc(xv, sg(xv), s.p, L.p))
            k.equal(y, lambda bb, o: Sum(I.p, lambda i: Sum(n.p, lambda q: w((o, i, sg(x.at(bb, i)) * st + q)) * bas(x.at(bb, i), q))), "the layer interpolates the nodes of the segment", shape=(B, O))
            aa, bb_ = lambda o, i: app("a", [o, i]), lambda o, i: app("b", [o, i])
            X = lambda g, q: (div(g * 2 + 1 + node(n.p, q), s.p) - 1) * L.p * HALF
            k.equal(y, lambda bb, o: Sum(I.p, lambda i: aa(o, i) * x.at(bb, i) + bb_(o, i)) + y.at(bb, o)
                    - Sum(I.p, lambda i: Sum(n.p, lambda q: (aa(o, i) * X(sg(x.at(bb, i)), q) + bb_(o, i)) * bas(x.at(bb, i), q))), "a line through the nodes is interpolated by itself", shape=(B, O))
        H.case(f"linear initialisation {kind}{' default' if dflt else ''}", body)
    for dflt in (False, True):
        lin("continuous", False, dflt)
        lin("discontinuous", True, dflt)

    def const_conv(kind, dflt):
        SEG = Seg if H.use_contracts else seg

        def body(k):
            n, C, O, s, K = k.ints("n C O s K")
            L = k.real("L", pos=True)
            M = Sc(ONE, "f") if dflt else k.real("M", pos=True)
            kw = {} if dflt else dict(weight_magnitude=M)
            if kind != "polynomial":
                kw["segments"] = s
            lay = H.api("layers:high_order_convolution_layers")(kind + "2d", n=n, in_channels=C, out_channels=O, kernel_size=K, length=L, **kw)
            nb = nbasis(kind, n.p, s.p)
            W = lay.conv.weight
            k.shape(W, (O, Sc(C.p * nb, "i"), K, K), "weight layout")
            k.at(W, (O, C, Sc(nb, "i"), K, K), lambda o, c, v, t, u: (o, c * nb + v, t, u), lambda o, c, v, t, u: W.at(o, c * nb, t, u), "all weights of a tap are equal")
            ix, ctx = k.idx((O, C, Sc(nb, "i"), K, K))
            c0 = E.ctx
            E.ctx = ctx
            o, c, v, t, u = ix
            z = W.at(o, c * nb + v, t, u)
            k.holds(band(ge0(z), ge0(div(M.p, C.p * K.p * K.p) - z)), "between zero and weight magnitude / inputs")
            E.ctx = c0
            B, P, Q = k.ints("B P Q")
            k.assume(ge0(P.p - K.p), ge0(Q.p - K.p))
            x = k.tensor("x", B, C, P, Q)
            w = W.snap()
            y = lay(x)
            k.equal(y, lambda b, o, p, q: Sum(C.p, lambda c: Sum(K.p, lambda t: Sum(K.p, lambda u: w((o, c * nb, t, u))))), "constant link functions",
                    shape=(B, O, Sc(P.p - K.p + 1, "i"), Sc(Q.p - K.p + 1, "i")))
        H.case(f"constant initialisation {kind}2d{' default' if dflt else ''}", body)
    from .conv import nbasis
    for kind in ("polynomial", "continuous", "discontinuous"):
        for dflt in (False, True):
            const_conv(kind, dflt)

    def netlin(kind, hl, scaled):
        disc = "disc" in kind

        def body(k):
            I, O, W = k.ints("I O W")
            ns = [k.int("n" + q, 2) if disc else k.int("p" + q, 1) + 1 for q in "iho"]
            ss = [k.int("s" + q) for q in "iho"]
            net = H.api("networks:HighOrderMLP")(kind, ns[1], I, O, hl, W, n_in=ns[0], n_hidden=ns[1], n_out=ns[2], in_segments=ss[0], hidden_segments=ss[1], out_segments=ss[2],
                                                 non_linearity=S.nn.ReLU() if hl else None)
            A, C = k.real("A", pos=True), k.real("C", pos=True)
            for q, l in enumerate(leaves(H, net)):
                k.havoc(l.w, f"w{q}")
            kw = dict(scale_slope=lambda z: 1 / z) if scaled else {}
            H.api("networks:initialize_network_polynomial_layers")(net, max_slope=A, max_offset=C, **kw)
            per = 2 if "switch" in kind else 1
            want = ([(0, I)] * per + [(1, W)] * per * hl + [(2, W)] * per)
            ls = leaves(H, net.model)
            k.fact(len(ls) == len(want), "number of piecewise layers", f"{len(ls)} instead of {len(want)}")
            for q, (l, (c, inp)) in enumerate(zip(ls, want)):
                is_line(k, l, ns[c].p, ss[c].p, const(2), div(A.p, inp.p) if scaled else A.p, C.p, disc, f"layer {q}: ")
        H.case(f"network linear initialisation {kind} hidden={hl}{' scaled' if scaled else ''}", body, bounded=f"hidden_layers = {hl} in the network case")
    for kind in ("continuous", "discontinuous", "switch_continuous", "switch_discontinuous"):
        netlin(kind, 1, True)
        netlin(kind, 0, False)
