"""C01-C08: fully connected layers."""
from fractions import Fraction
from ..harness import *
from ..spec import *
from . import prop


def fc(H, kind, **kw):
    return H.api("layers:high_order_fc_layers")(kind, **kw)


def poly_link(w, n, L, o, i, x):
    return Sum(n, lambda j: w(o, i, j) * Lag(n, L, j, x))


def seg_link(w, n, s, L, o, i, x, disc):
    st = n if disc else n - 1
    sg = seg(x, s, L)
    return Sum(n, lambda j: w(o, i, sg * st + j) * Lag(n, L, j, xloc(x, sg, s, L)))


# ------------------------------------------------------------------ C01
def poly_case(H, k, length=True, **kw):
    n, I, O, B = k.ints("n I O B")
    L = k.real("L", pos=True) if length else Sc(const(2), "f")
    if length:
        kw["length"] = L
    lay = fc(H, "polynomial", n=n, in_features=I, out_features=O, **kw)
    w = k.havoc(lay.w, "w")
    x = k.tensor("x", B, I)
    return n, I, O, B, L, lay, w, x


@prop("C01")
def c01(H):
    def body(k):
        n, I, O, B, L, lay, w, x = poly_case(H, k)
        k.shape(lay.w, (O, I, n), "one weight per node of every link")
        sn = k.snapshot(lay, x)
        y = lay(x)
        k.equal(y, lambda b, o: Sum(I.p, lambda i: poly_link(w, n.p, L.p, o, i, x.at(b, i))), "output is the sum of interpolating polynomials", shape=(B, O))
        y2 = lay(x)
        k.equal(y2, lambda b, o: y.at(b, o), "second evaluation gives the same result")
        k.unchanged(sn)
    H.case("polynomial", body)

    def default(k):
        n, I, O, B, L, lay, w, x = poly_case(H, k, length=False)
        y = lay(x)
        k.equal(y, lambda b, o: Sum(I.p, lambda i: poly_link(w, n.p, const(2), o, i, x.at(b, i))), "default length 2", shape=(B, O))
    H.case("polynomial default length", default)

    def nodes(k):
        n = k.int("n")
        X = H.api("LagrangePolynomial:chebyshevLobatto")(n)
        k.equal(X, lambda j: node(n.p, j), "Chebyshev-Lobatto points in increasing order", shape=(n,))
    H.case("nodes", nodes)


# ------------------------------------------------------------------ C02 / C03
def pw_setup(H, k, kind, length=True, names="n I O B s", **kw):
    n, I, O, B, s = k.ints(names)
    L = k.real("L", pos=True) if length else Sc(const(2), "f")
    if length:
        kw["length"] = L
    lay = fc(H, kind, n=n, in_features=I, out_features=O, segments=s, **kw)
    w = k.havoc(lay.w, "w")
    x = k.tensor("x", B, I)
    return n, I, O, B, s, L, lay, w, x


def pw(H, kind, disc):
    def body(k):
        n, I, O, B, s, L, lay, w, x = pw_setup(H, k, kind)
        k.shape(lay.w, (O, I, n * s if disc else (n - 1) * s + 1), "weights per link")
        sn = k.snapshot(lay, x)
        y = lay(x)
        k.equal(y, lambda b, o: Sum(I.p, lambda i: seg_link(w, n.p, s.p, L.p, o, i, x.at(b, i), disc)), "output is the sum of segment polynomials", shape=(B, O))
        k.unchanged(sn)
    H.case(kind, body)

    def history(k):
        """A call before with another batch does not influence the next call."""
        n, I, O, B, s, L, lay, w, x = pw_setup(H, k, kind)
        B2 = k.int("B2")
        x2 = k.tensor("x2", B2, I)
        lay(x2)
        y = lay(x)
        k.equal(y, lambda b, o: Sum(I.p, lambda i: seg_link(w, n.p, s.p, L.p, o, i, x.at(b, i), disc)), "result after an earlier call with another batch", shape=(B, O))
    H.case(kind + " history", history)

    def default(k):
        n, I, O, B, s, L, lay, w, x = pw_setup(H, k, kind, length=False)
        y = lay(x)
        k.equal(y, lambda b, o: Sum(I.p, lambda i: seg_link(w, n.p, s.p, const(2), o, i, x.at(b, i), disc)), "default length 2", shape=(B, O))
    H.case(kind + " default length", default)

    def helpers(k):
        n, I, O, B, s, L, lay, w, x = pw_setup(H, k, kind)
        ws = lay.which_segment(x)
        k.equal(ws, lambda b, i: seg(x.at(b, i), s.p, L.p), "which_segment", shape=(B, I))
        j = k.int("j", 0)
        k.assume(lt(j.p, s.p))
        xl = lay.x_local(x, j)
        k.equal(xl, lambda b, i: xloc(x.at(b, i), j.p, s.p, L.p), "x_local", shape=(B, I))
        xg = lay.x_global(xl, j)
        k.equal(xg, lambda b, i: x.at(b, i), "x_global inverts x_local", shape=(B, I))
    H.case(kind + " coordinates", helpers)


@prop("C02")
def c02(H):
    pw(H, "continuous", False)

    def cont(k):
        """Continuity at interior edges: both neighbouring polynomials take the shared weight."""
        n, s, q = k.int("n", 2), k.int("s", 2), k.int("q", 1)
        L = k.real("L", pos=True)
        k.assume(lt(q.p, s.p))
        edge = div(q.p * L.p, s.p) - L.p * HALF
        k.eq(xloc(edge, q.p, s.p, L.p), node(n.p, ZERO) * L.p * HALF, "edge is the first node of the right segment")
        k.eq(xloc(edge, q.p - 1, s.p, L.p), node(n.p, n.p - 1) * L.p * HALF, "edge is the last node of the left segment")
        k.eq((q.p - 1) * (n.p - 1) + (n.p - 1), q.p * (n.p - 1), "both sides use the same weight")
    H.case("continuity lemma", cont)


@prop("C03")
def c03(H):
    pw(H, "discontinuous", True)


# ------------------------------------------------------------------ C04
def local(H, kind, disc, length=True):
    def body(k):
        n, I, O, B, s, L, lay, w, x = pw_setup(H, k, kind)
        y1 = lay(x)
        b0 = k.int("b0", 0)
        k.assume(lt(b0.p, B.p))
        st = n.p if disc else n.p - 1
        # other weights and other samples are replaced by arbitrary values
        xc = x.snap()
        wc = lay.w.snap()

        def nx(ix):
            return ite(eq(ix[0], b0.p), xc(ix), app("xother", ix))

        def nw(ix):
            o, i, q = ix
            lo = seg(xc((b0.p, i)), s.p, L.p) * st
            return ite(band(ge0(q - lo), lt(q - lo, n.p)), wc(ix), app("wother", ix))
        x2 = TN.new(x._shape, nx, "f")
        lay.w.st.set_content(TN.Content(nw))
        sn = k.snapshot(lay, x2)
        y2 = lay(x2)
        k.shape(y2, (B, O))
        ix, ctx = k.idx((O,))
        c0 = E.ctx
        E.ctx = ctx
        k.eq(y2.at(b0.p, ix[0]), y1.at(b0.p, ix[0]), "other weights and other samples do not matter")
        E.ctx = c0
        k.unchanged(sn)
    H.case(kind + " locality", body)


@prop("C04")
def c04(H):
    local(H, "continuous", False)
    local(H, "discontinuous", True)
    local(H, "continuous_prod", False)
    local(H, "discontinuous_prod", True)

    def frame(kind):
        """Evaluating a periodic layer writes neither to its weights nor to its input."""
        def body(k):
            n, I, O, B, s, L, lay, w, x = pw_setup(H, k, kind, periodicity=k.real("p", pos=True))
            sn = k.snapshot(lay, x)
            y = lay(x)
            k.shape(y, (B, O))
            y2 = lay(x)
            k.equal(y2, lambda b, o: y.at(b, o), "second evaluation gives the same result")
            k.unchanged(sn)
        H.case(kind + " periodic frame", body)
    for kind in ("continuous", "discontinuous", "continuous_prod", "discontinuous_prod"):
        frame(kind)


# ------------------------------------------------------------------ C05
def prod_spec(I, alpha, f):
    return Prod(I, lambda i: ONE + f(i)) - 1 - (ONE - alpha) * Sum(I, f)


@prop("C05")
def c05(H):
    def mk(bias, alpha):
        def body(k):
            I, O, B = k.ints("I O B")
            a = k.real("alpha")
            kw = {}
            if alpha:
                kw["alpha"] = a
            if bias is not None:
                kw["bias"] = bias
            lay = fc(H, "product", in_features=I, out_features=O, **kw)
            w = k.havoc(lay.weight, "w")
            if bias is not False:
                k.shape(lay.bias, (O,), "one bias per output")
                bb = k.havoc(lay.bias, "bias")
            x = k.tensor("x", B, I)
            sn = k.snapshot(lay, x)
            y = lay(x)
            al = a.p if alpha else ONE
            k.equal(y, lambda b, o: prod_spec(I.p, al, lambda i: w(o, i) * x.at(b, i)) + (bb(o) if bias is not False else ZERO), "product neuron", shape=(B, O))
            k.unchanged(sn)
        H.case(f"product bias={bias} alpha={'given' if alpha else 'default'}", body)
    for bias in (None, True, False):
        mk(bias, True)
    mk(None, False)

    def pp(alpha):
        def body(k):
            n, I, O, B = k.ints("n I O B")
            L, a = k.real("L", pos=True), k.real("alpha")
            kw = dict(alpha=a) if alpha else {}
            lay = fc(H, "polynomial_prod", n=n, in_features=I, out_features=O, length=L, **kw)
            w = k.havoc(lay.w, "w")
            x = k.tensor("x", B, I)
            sn = k.snapshot(lay, x)
            y = lay(x)
            k.equal(y, lambda b, o: prod_spec(I.p, a.p if alpha else ONE, lambda i: poly_link(w, n.p, L.p, o, i, x.at(b, i))), "product of interpolating polynomials", shape=(B, O))
            k.unchanged(sn)
        H.case(f"polynomial_prod alpha={'given' if alpha else 'default'}", body)
    pp(True)
    pp(False)

    def sp(kind, disc, alpha):
        def body(k):
            a = k.real("alpha")
            kw = dict(alpha=a) if alpha else {}
            n, I, O, B, s, L, lay, w, x = pw_setup(H, k, kind, **kw)
            sn = k.snapshot(lay, x)
            y = lay(x)
            k.equal(y, lambda b, o: prod_spec(I.p, a.p if alpha else ONE, lambda i: seg_link(w, n.p, s.p, L.p, o, i, x.at(b, i), disc)), "product of segment polynomials", shape=(B, O))
            k.unchanged(sn)
        H.case(f"{kind} alpha={'given' if alpha else 'default'}", body)
    for alpha in (True, False):
        sp("continuous_prod", False, alpha)
        sp("discontinuous_prod", True, alpha)


# ------------------------------------------------------------------ C06
def fbasis(j, x, L):
    i = floor(div(j + 1, const(2)))
    a = div(PI * 2 * i * x, L)
    return ite(eq(j, ZERO), const(HALF), ite(eq(mod(j, const(2)), ZERO), fn("cos", a), fn("sin", a)))


@prop("C06", contracts=())
def c06(H):
    def setup(k, length=True):
        n, I, O, B = k.ints("n I O B")
        L = k.real("L", pos=True) if length else Sc(const(2), "f")
        kw = dict(length=L) if length else {}
        lay = fc(H, "fourier", n=n, in_features=I, out_features=O, **kw)
        w = k.havoc(lay.w, "w")
        x = k.tensor("x", B, I)
        return n, I, O, B, L, lay, w, x

    def body(k):
        n, I, O, B, L, lay, w, x = setup(k)
        k.shape(lay.w, (O, I, n), "n weights per link")
        sn = k.snapshot(lay, x)
        y = lay(x)
        k.equal(y, lambda b, o: Sum(I.p, lambda i: Sum(n.p, lambda j: w(o, i, j) * fbasis(j, x.at(b, i), L.p))), "truncated Fourier series", shape=(B, O))
        k.unchanged(sn)
    H.case("fourier", body)

    def default(k):
        n, I, O, B, L, lay, w, x = setup(k, False)
        y = lay(x)
        k.equal(y, lambda b, o: Sum(I.p, lambda i: Sum(n.p, lambda j: w(o, i, j) * fbasis(j, x.at(b, i), const(2)))), "default length 2", shape=(B, O))
    H.case("fourier default length", default)

    def period(k):
        n, I, O, B, L, lay, w, x = setup(k)
        y = lay(x)
        xc = x.snap()
        x2 = TN.new(x._shape, lambda ix: xc(ix) + L.p * app("turns", ix, "I"), "f")
        y2 = lay(x2)
        k.equal(y2, lambda b, o: y.at(b, o), "shifting inputs by whole periods changes nothing")
    H.case("fourier periodic", period)

    def expand(rank):
        def body(k):
            n = k.int("n")
            sh = k.ints("A B C D E"[:2 * rank - 1])
            L = k.real("L", pos=True)
            x = k.tensor("x", *sh)
            sn = k.snapshot(x)
            y = H.api("LagrangePolynomial:FourierExpand")(n, L)(x)
            k.equal(y, lambda j, *ix: fbasis(j, x.at(*ix), L.p), "basis functions of every entry", shape=(n,) + tuple(sh))
            k.unchanged(sn)
        H.case(f"basis expansion rank {rank}", body)
    for rank in (1, 2, 3, 4, 5):
        expand(rank)


# ------------------------------------------------------------------ C07
def nd_pts(n, dims):
    return n


@prop("C07", contracts=("nd",))
def c07(H):
    def polynd(d, same):
        def body(k):
            I, O, B = k.ints("I O B")
            L = k.real("L", pos=True)
            if same:
                n = k.int("n")
                ns = [n] * d
            else:
                ns = [k.int(f"n{t}") for t in range(d)]
                n = TList(ns)
            lay = fc(H, f"polynomial_{d}d", n=n, in_features=I, out_features=O, length=L)
            w = k.havoc(lay.w, "w")
            tot = ONE
            for m in ns:
                tot = tot * m.p
            k.shape(lay.w, (O, I, Sc(tot, "i")), "one weight per grid node")
            x = k.tensor("x", B, I, d)
            sn = k.snapshot(lay, x)
            y = lay(x)

            def link(o, i, b):
                def rec(t, off, acc):
                    if t == d:
                        return w(o, i, off) * acc
                    return Sum(ns[t].p, lambda j: rec(t + 1, off * ns[t].p + j, acc * Lag(ns[t].p, L.p, j, x.at(b, i, const(t)))))
                return rec(0, ZERO, ONE)
            k.equal(y, lambda b, o: Sum(I.p, lambda i: link(o, i, b)), "tensor-product interpolant", shape=(B, O))
            k.unchanged(sn)
        H.case(f"polynomial_{d}d {'same n' if same else 'n per dimension'}", body, bounded=f"dimension {d} (dimensions 2..5 enumerated: the library offers no others)")
    for d in (2, 3, 4, 5):
        polynd(d, True)
    for d in (2, 3):
        polynd(d, False)

    def pwnd(d, same, fixed=None):
        def body(k):
            I, O, B = k.ints("I O B")
            L = k.real("L", pos=True)
            if same:
                n, s = (k.int("n"), k.int("s")) if fixed is None else (Sc(const(z), "i") for z in fixed)
                ns, ss = [n] * d, [s] * d
                lay = fc(H, "continuous_nd", n=n, in_features=I, out_features=O, segments=s, dimensions=d, length=L)
            else:
                ns = [k.int(f"n{t}") for t in range(d)]
                ss = [k.int(f"s{t}") for t in range(d)]
                lay = fc(H, "continuous_nd", n=TList(ns), in_features=I, out_features=O, segments=TList(ss), length=L)
            w = k.havoc(lay.w, "w")
            x = k.tensor("x", B, I, d)
            sn = k.snapshot(lay, x)
            y = lay(x)

            def link(o, i, b):
                sg = [seg(x.at(b, i, const(t)), ss[t].p, L.p) for t in range(d)]
                el = ZERO
                for t in range(d):
                    el = el * ss[t].p + sg[t]

                def rec(t, off, acc):
                    if t == d:
                        return w(i, o, off) * acc
                    return Sum(ns[t].p, lambda j: rec(t + 1, off * ns[t].p + j, acc * Lag(ns[t].p, L.p, j, xloc(x.at(b, i, const(t)), sg[t], ss[t].p, L.p))))
                return rec(0, el, ONE)
            k.equal(y, lambda b, o: Sum(I.p, lambda i: link(o, i, b)), "tensor-product interpolant of the element's own weights", shape=(B, O))
            k.unchanged(sn)
        H.case(f"continuous_nd d={d} {'same' if same else 'per dimension'}{' n=%d s=%d' % fixed if fixed else ''}", body,
               bounded=f"number of dimensions = {d} (1..3 enumerated; more sampled by the bounded oracle)", thorough=d == 3 and not same)
    for d in (1, 2, 3):
        pwnd(d, True)
        pwnd(d, False)


# ------------------------------------------------------------------ C08
@prop("C08")
def c08(H):
    mp = lambda: H.body("utils:make_periodic")
    FOLD = Fold if H.use_contracts else fold

    def fold_(k):
        m = k.int("m")
        p = k.real("p", pos=True)
        x = k.tensor("x", m)
        y = mp()(x, p)
        k.equal(y, lambda i: fold(x.at(i), p.p), "mirror fold", shape=(m,))
    H.case("make_periodic", fold_)

    def fold_nd(rank):
        def body(k):
            sh = k.ints("A B C D E"[:2 * rank - 1])
            p = k.real("p", pos=True)
            x = k.tensor("x", *sh)
            sn = k.snapshot(x)
            y = mp()(x, p)
            k.equal(y, lambda *ix: fold(x.at(*ix), p.p), "mirror fold", shape=tuple(sh))
            k.unchanged(sn)
        H.case(f"make_periodic rank {rank}", body)
    for rank in (0, 2, 3, 4, 5):
        fold_nd(rank)

    def laws(k):
        p = k.real("p", pos=True)
        u, v = k.real("u"), k.real("v")
        q = Sc(poly(var("q")), "i")
        f = lambda t: num(mp()(TN.as_tensor(Sc(t, "f")), p).item())
        fu, fv = f(u.p), f(v.p)
        h = p.p * HALF
        k.holds(band(ge0(fu + h), ge0(h - fu)), "result lies in [-p/2, p/2]")
        k.holds(eq(fu, u.p), "identity on [-p/2, p/2]", pre=(ge0(u.p + h), ge0(h - u.p)))
        k.eq(f(u.p + p.p * 2), fu, "period 2p")
        k.eq(f(u.p - p.p * 2), fu, "period -2p")
        k.eq(f(p.p - u.p), fu, "mirror about p/2")
        k.eq(f(-p.p - u.p), fu, "mirror about -p/2")
    H.case("fold laws", laws)

    def lip(k):
        p = k.real("p", pos=True)
        u, v = k.real("u"), k.real("v")
        f = lambda t: num(mp()(TN.as_tensor(Sc(t, "f")), p).item())
        k.holds(bor(band(ge0(v.p - u.p - (f(v.p) - f(u.p))), ge0(v.p - u.p + (f(v.p) - f(u.p)))), lt(v.p, u.p)), "never moves values apart")
    H.case("non-expansive", lip)

    def layer(kind, **fix):
        def body(k):
            n, I, O, B, s = k.ints("n I O B s")
            L, p = k.real("L", pos=True), k.real("p", pos=True)
            kw = dict(in_features=I, out_features=O)
            if kind != "product":
                kw.update(n=n, length=L)
            if "continuous" in kind:
                kw.update(segments=s)
            a = fc(H, kind, periodicity=p, **kw)
            b = fc(H, kind, **kw)
            wn = "weight" if kind == "product" else "w"
            k.havoc(getattr(a, wn), "w")
            k.havoc(getattr(b, wn), "w")
            if kind == "product":
                k.havoc(a.bias, "bias")
                k.havoc(b.bias, "bias")
            x = k.tensor("x", B, I)
            xc = x.snap()
            xf = TN.new(x._shape, lambda ix: FOLD(xc(ix), p.p), "f")
            ya, yb = a(x), b(xf)
            k.shape(ya, (B, O))
            k.equal(ya, lambda i, o: yb.at(i, o), "periodic layer = plain layer on folded input")
            if hasattr(a, "which_segment"):
                sa, sb = a.which_segment(x), b.which_segment(xf)
                k.equal(sa, lambda i, o: sb.at(i, o), "which_segment folds too")
        H.case(f"{kind} periodic", body)
    for kind in ("polynomial", "polynomial_prod", "continuous", "discontinuous", "continuous_prod", "discontinuous_prod", "product"):
        layer(kind)
