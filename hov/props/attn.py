"""C18: attention layers."""
from ..harness import *
from ..spec import *
from . import prop


def lin(W, n, at, b=None):
    """Entry o of the linear map W (and offset b) of the vector at(.) of length n."""
    def f(o):
        r = Sum(n, lambda i: W(o, i) * at(i))
        return r + b(o) if b is not None else r
    return f


def dist(score, K, mask=None, kind="softmax"):
    """Weights over K keys from scores: softmax, or sigmoid divided by its sum; masked keys get none."""
    g = "exp" if kind == "softmax" else "sigmoid"

    def e(j):
        v = fn(g, score(j))
        return v if mask is None else ite(mask(j), ZERO, v)
    return lambda j: div(e(j), Sum(K, e))


def conv3(W, b, cin, K, at):
    """1d convolution, kernel 3, padding 1: entry (o, j)."""
    def f(o, j):
        def term(c, q):
            i = j + q - 1
            return W(o, c, q) * ite(band(ge0(i), lt(i, K)), at(c, i), ZERO)
        return Sum(cin, lambda c: Sum(const(3), lambda q: term(c, q))) + b(o)
    return f


@prop("C18", contracts=("rel",))
def c18(H):
    A = lambda nm: H.api("attentions:" + nm)

    # ------------------------------------------------------------ scaled dot product
    def scaled(masked):
        def body(k):
            B, Q, K, D, V = k.ints("B Q K D V")
            a = A("ScaledDotProductAttention")(D)
            q, ky, v = k.tensor("q", B, Q, D), k.tensor("k", B, K, D), k.tensor("v", B, K, V)
            m = k.tensor("m", B, Q, K, dt="b") if masked else None
            sn = k.snapshot(a, q, ky, v, *([m] if masked else []))
            ctx, at = a(q, ky, v, m) if masked else a(q, ky, v)
            w = lambda b, i: dist(lambda j: div(Sum(D.p, lambda d: q.at(b, i, d) * ky.at(b, j, d)), fn("sqrt", D.p)), K.p,
                                  (lambda j: m.at(b, i, j)) if masked else None)
            k.equal(at, lambda b, i, j: w(b, i)(j), "weights", shape=(B, Q, K))
            k.equal(ctx, lambda b, i, d: Sum(K.p, lambda j: w(b, i)(j) * v.at(b, j, d)), "context", shape=(B, Q, V))
            k.unchanged(sn, "arguments unchanged")
        H.case(f"scaled dot product{' masked' if masked else ''}", body)
    scaled(False)
    scaled(True)

    def dot(k):
        B, Q, K, D = k.ints("B Q K D")
        a = A("DotProductAttention")(D)
        q, v = k.tensor("q", B, Q, D), k.tensor("v", B, K, D)
        sn = k.snapshot(a, q, v)
        ctx, at = a(q, v)
        w = lambda b, i: dist(lambda j: Sum(D.p, lambda d: q.at(b, i, d) * v.at(b, j, d)), K.p)
        k.equal(at, lambda b, i, j: w(b, i)(j), "weights", shape=(B, Q, K))
        k.equal(ctx, lambda b, i, d: Sum(K.p, lambda j: w(b, i)(j) * v.at(b, j, d)), "context", shape=(B, Q, D))
        k.unchanged(sn, "arguments unchanged")
    H.case("dot product", dot)

    def additive(qone):
        def body(k):
            B, K, D, V = k.ints("B K D V")
            a = A("AdditiveAttention")(D)
            Wq, Wk, bb = k.havoc(a.query_proj.weight, "Wq"), k.havoc(a.key_proj.weight, "Wk"), k.havoc(a.bias, "bb")
            Ws, bs = k.havoc(a.score_proj.weight, "Ws"), k.havoc(a.score_proj.bias, "bs")
            q, ky, v = k.tensor("q", B, 1 if qone else K, D), k.tensor("k", B, K, D), k.tensor("v", B, K, V)
            sn = k.snapshot(a, q, ky, v)
            ctx, at = a(q, ky, v)

            def score(b):
                def f(j):
                    qi = ZERO if qone else j
                    return Sum(D.p, lambda d: Ws(ZERO, d) * fn("tanh", lin(Wk, D.p, lambda e: ky.at(b, j, e))(d) + lin(Wq, D.p, lambda e: q.at(b, qi, e))(d) + bb(d))) + bs(ZERO)
                return f
            w = lambda b: dist(score(b), K.p)
            k.equal(at, lambda b, j: w(b)(j), "weights", shape=(B, K))
            k.equal(ctx, lambda b, _, d: Sum(K.p, lambda j: w(b)(j) * v.at(b, j, d)), "context", shape=(B, 1, V))
            k.unchanged(sn, "layer and arguments unchanged")
        H.case(f"additive {'one query' if qone else 'query per key'}", body)
    additive(True)
    additive(False)

    def location(smoothing, last):
        def body(k):
            B, K, D = k.ints("B K D")
            a = A("LocationAwareAttention")(D) if smoothing is None else A("LocationAwareAttention")(D, smoothing=smoothing)
            Wq, Wv, bb = k.havoc(a.query_proj.weight, "Wq"), k.havoc(a.value_proj.weight, "Wv"), k.havoc(a.bias, "bb")
            Ws, bs = k.havoc(a.score_proj.weight, "Ws"), k.havoc(a.score_proj.bias, "bs")
            Wc, bc = k.havoc(a.conv1d.weight, "Wc"), k.havoc(a.conv1d.bias, "bc")
            q, v = k.tensor("q", B, 1, D), k.tensor("v", B, K, D)
            la = k.tensor("la", B, K) if last else None
            sn = k.snapshot(a, q, v, *([la] if last else []))
            ctx, at = a(q, v, la)

            def score(b):
                def f(j):
                    lo = lambda d: conv3(Wc, bc, ONE, K.p, lambda c, i: la.at(b, i) if last else ZERO)(d, j)
                    return Sum(D.p, lambda d: Ws(ZERO, d) * fn("tanh", lin(Wq, D.p, lambda e: q.at(b, ZERO, e))(d) + lin(Wv, D.p, lambda e: v.at(b, j, e))(d) + lo(d) + bb(d))) + bs(ZERO)
                return f
            w = lambda b: dist(score(b), K.p, kind="softmax" if smoothing is False else "sigmoid")
            k.equal(at, lambda b, j: w(b)(j), "weights", shape=(B, K))
            k.equal(ctx, lambda b, d: Sum(K.p, lambda j: w(b)(j) * v.at(b, j, d)), "context", shape=(B, D))
            k.unchanged(sn, "layer and arguments unchanged")
        H.case(f"location aware smoothing={smoothing}{' with last weights' if last else ''}", body)
    for sm in (True, False, None):
        for last in (False, True):
            location(sm, last)

    def mhloc(last):
        def body(k):
            B, K, D, N, C = k.ints("B K D N C")
            HD = D * N
            a = A("MultiHeadLocationAwareAttention")(HD, num_heads=N, conv_out_channel=C)
            Wq, Wv, bb = k.havoc(a.query_proj.weight, "Wq"), k.havoc(a.value_proj.weight, "Wv"), k.havoc(a.bias, "bb")
            Ws, bs = k.havoc(a.score_proj.weight, "Ws"), k.havoc(a.score_proj.bias, "bs")
            Wc, bc, Wl = k.havoc(a.conv1d.weight, "Wc"), k.havoc(a.conv1d.bias, "bc"), k.havoc(a.loc_proj.weight, "Wl")
            q, v = k.tensor("q", B, 1, HD), k.tensor("v", B, K, HD)
            la = k.tensor("la", B, N, K) if last else None
            sn = k.snapshot(a, q, v, *([la] if last else []))
            ctx, at = a(q, v, la)
            pv = lambda b, h, j, d: lin(Wv, HD.p, lambda e: v.at(b, j, e))(h * D.p + d)

            def score(b, h):
                def f(j):
                    cv = conv3(Wc, bc, N.p, K.p, lambda c, i: la.at(b, c, i) if last else ZERO)
                    loc = lambda d: fn("tanh", Sum(C.p, lambda c: Wl(d, c) * cv(c, j)))
                    return Sum(D.p, lambda d: Ws(ZERO, d) * fn("tanh", pv(b, h, j, d) + lin(Wq, HD.p, lambda e: q.at(b, ZERO, e))(h * D.p + d) + loc(d) + bb(d))) + bs(ZERO)
                return f
            w = lambda b, h: dist(score(b, h), K.p)
            k.equal(at, lambda b, h, j: w(b, h)(j), "weights", shape=(B, N, K))
            k.shape(ctx, (B, 1, HD), "context shape")
            (b, h, d), cx = k.idx((B, N, D))
            c0 = E.ctx
            E.ctx = cx
            try:
                k.eq(ctx.at(b, ZERO, h * D.p + d), Sum(K.p, lambda j: w(b, h)(j) * pv(b, h, j, d)), "context")
            finally:
                E.ctx = c0
            k.unchanged(sn, "layer and arguments unchanged")
        H.case(f"multi head location aware{' with last weights' if last else ''}", body)
    mhloc(False)
    mhloc(True)

    def mha(masked):
        def body(k):
            B, Q, K, D, N = k.ints("B Q K D N")
            HD = D * N
            a = A("MultiHeadAttention")(HD, N)
            W = {}
            for nm in ("query", "key", "value"):
                l = getattr(a, nm + "_proj")
                W[nm] = k.havoc(l.weight, "W" + nm[0]), k.havoc(l.bias, "b" + nm[0])
            q, ky, v = k.tensor("q", B, Q, HD), k.tensor("k", B, K, HD), k.tensor("v", B, K, HD)
            m = k.tensor("m", B, Q, K, dt="b") if masked else None
            sn = k.snapshot(a, q, ky, v, *([m] if masked else []))
            ctx, at = a(q, ky, v, m) if masked else a(q, ky, v)
            pr = lambda nm, x: lambda b, i, h, d: lin(W[nm][0], HD.p, lambda e: x.at(b, i, e), W[nm][1])(h * D.p + d)
            pq, pk, pv = pr("query", q), pr("key", ky), pr("value", v)
            w = lambda b, h, i: dist(lambda j: div(Sum(D.p, lambda d: pq(b, i, h, d) * pk(b, j, h, d)), fn("sqrt", D.p)), K.p,
                                     (lambda j: m.at(b, i, j)) if masked else None)
            k.shape(at, (N * B, Q, K), "weights shape")
            k.shape(ctx, (B, Q, HD), "context shape")
            (b, h, i, j, d), cx = k.idx((B, N, Q, K, D))
            c0 = E.ctx
            E.ctx = cx
            try:
                k.eq(at.at(h * B.p + b, i, j), w(b, h, i)(j), "weights")
                k.eq(ctx.at(b, i, h * D.p + d), Sum(K.p, lambda j: w(b, h, i)(j) * pv(b, j, h, d)), "context")
            finally:
                E.ctx = c0
            k.unchanged(sn, "layer and arguments unchanged")
        H.case(f"multi head{' masked' if masked else ''}", body)
    mha(False)
    mha(True)

    def rel(mask, evalm=False):
        def body(k):
            B, Q, K, D, N = k.ints("B Q K D N")
            HD = D * N
            a = A("RelativeMultiHeadAttention")(HD, N) if evalm else A("RelativeMultiHeadAttention")(HD, N, dropout_p=0.0)
            if evalm:
                a.eval()
            W = {}
            for nm in ("query", "key", "value", "out"):
                l = getattr(a, nm + "_proj")
                W[nm] = k.havoc(l.weight, "W" + nm[0]), k.havoc(l.bias, "b" + nm[0])
            Wp = k.havoc(a.pos_proj.weight, "Wp")
            u, vb = k.havoc(a.u_bias, "u"), k.havoc(a.v_bias, "vb")
            q, ky, v, pe = k.tensor("q", B, Q, HD), k.tensor("k", B, K, HD), k.tensor("v", B, K, HD), k.tensor("pe", B, K, HD)
            m = None if mask is None else k.tensor("m", B, 1 if mask == "row" else Q, K, dt="b")
            sn = k.snapshot(a, q, ky, v, pe, *([m] if mask else []))
            H.ghosts.rel = ()
            out = a(q, ky, v, pe, m) if mask else a(q, ky, v, pe)
            pr = lambda nm, x: lambda b, i, h, d: lin(W[nm][0], HD.p, lambda e: x.at(b, i, e), W[nm][1])(h * D.p + d)
            pq, pk, pv = pr("query", q), pr("key", ky), pr("value", v)
            pp = lambda b, i, h, d: lin(Wp, HD.p, lambda e: pe.at(b, i, e))(h * D.p + d)

            raw = lambda b, h, i, j: Sum(D.p, lambda d: (pq(b, i, h, d) + vb(h, d)) * pp(b, j, h, d))
            rel = H.ghosts.rel
            if len(rel) == 1:
                nm, shp, con = rel[0]
                k.equal(TN.new(shp, con, "f"), raw, "relative position scores", shape=(B, N, Q, K))
                pos = lambda b, h, i, j: app(nm, (b, h, i, j))
            else:
                pos = lambda b, h, i, j: rel_entry(lambda r, c: raw(b, h, r, c), Q.p, K.p, i, j)
            mk = None if mask is None else (lambda b, i: (lambda j: m.at(b, ZERO if mask == "row" else i, j)))
            w = lambda b, h, i: dist(lambda j: div(Sum(D.p, lambda d: (pq(b, i, h, d) + u(h, d)) * pk(b, j, h, d)) + pos(b, h, i, j), fn("sqrt", HD.p)), K.p,
                                     mk(b, i) if mk else None)

            def head(b, i, e):
                h, d = floor(div(e, D.p)), mod(e, D.p)
                return Sum(K.p, lambda j: w(b, h, i)(j) * pv(b, j, h, d))
            k.equal(out, lambda b, i, o: lin(W["out"][0], HD.p, lambda e: head(b, i, e), W["out"][1])(o), "projected context", shape=(B, Q, HD))
            k.unchanged(sn, "layer and arguments unchanged")
        H.case(f"relative multi head{'' if mask is None else ' mask per ' + mask}{' evaluation mode' if evalm else ''}", body)
    for mm in (None, "row", "query"):
        rel(mm)
    rel("query", True)

    def custom(last, q1):
        def body(k):
            B, K, D, N, C = k.ints("B K D N C")
            Q = Sc(ONE, "i") if q1 else k.int("Q", 2)
            k.assume(ge0(K.p - 2), ge0(B.p * N.p - 2))
            HD = D * N
            a = A("CustomizingAttention")(HD, num_heads=N, conv_out_channel=C)
            Wq, bq = k.havoc(a.query_proj.weight, "Wq"), k.havoc(a.query_proj.bias, "bq")
            Wv, bb = k.havoc(a.value_proj.weight, "Wv"), k.havoc(a.bias, "bb")
            Wc, bc, Wl = k.havoc(a.conv1d.weight, "Wc"), k.havoc(a.conv1d.bias, "bc"), k.havoc(a.loc_proj.weight, "Wl")
            q, v = k.tensor("q", B, Q, HD), k.tensor("v", B, K, HD)
            la = k.tensor("la", N * B, K) if last else None
            sn = k.snapshot(a, q, v, *([la] if last else []))
            ctx, at = a(q, v, la)
            pq = lambda b, i, h, d: lin(Wq, HD.p, lambda e: q.at(b, i, e), bq)(h * D.p + d)

            def pv(b, j, h, d):
                cv = conv3(Wc, bc, ONE, K.p, lambda c, i: la.at(h * B.p + b, i) if last else ZERO)
                return lin(Wv, HD.p, lambda e: v.at(b, j, e))(h * D.p + d) + Sum(C.p, lambda c: Wl(d, c) * cv(c, j)) + bb(h * D.p + d)
            w = lambda b, h, i: dist(lambda j: div(Sum(D.p, lambda d: pq(b, i, h, d) * pv(b, j, h, d)), fn("sqrt", D.p)), K.p)
            k.shape(at, (N * B, K) if q1 else (N * B, Q, K), "weights shape")
            k.shape(ctx, (B, Q, HD), "context shape")
            (b, h, i, j, d), cx = k.idx((B, N, Q, K, D))
            c0 = E.ctx
            E.ctx = cx
            try:
                k.eq(at.at(h * B.p + b, j) if q1 else at.at(h * B.p + b, i, j), w(b, h, i)(j), "weights")
                k.eq(ctx.at(b, i, h * D.p + d), Sum(K.p, lambda j: w(b, h, i)(j) * pv(b, j, h, d)), "context")
            finally:
                E.ctx = c0
            k.unchanged(sn, "layer and arguments unchanged")
        H.case(f"customizing {'one query' if q1 else 'several queries'}{' with last weights' if last else ''}", body)
    for last in (False, True):
        for q1 in (True, False):
            custom(last, q1)

    # ------------------------------------------------------------ consequences of the formulas
    def lemma(k):
        K = k.int("K")
        e = lambda j: app("e", [j])
        j = k.int("j", 0)
        k.assume(lt(j.p, K.p), ge0(e(j.p)), gt0(Sum(K.p, e)))
        k.holds(ge0(div(e(j.p), Sum(K.p, e))), "weights are never negative")
        k.eq(Sum(K.p, lambda i: div(e(i), Sum(K.p, e))), ONE, "weights sum to one")
    H.case("distribution lemma", lemma)
