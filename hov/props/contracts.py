"""Verification of the internal contracts: the real bodies meet the summaries that
callers are checked against.  A contract whose body is gone, renamed or no longer meets
its summary is switched off and the callers are verified with the body inlined."""
from ..harness import *
from ..spec import *
from .. import tensor as TN
from .. import prover as PR


def verify_lag(H):
    def mk(r):
        def body(k):
            n = k.int("n")
            L = k.real("L", pos=True)
            sh = k.ints(" ".join("pqrst"[:r]))
            bs = H.api("LagrangePolynomial:LagrangeBasis")(n, length=L)
            x = k.tensor("x", *sh)
            j = k.int("j", 0)
            k.assume(lt(j.p, n.p))
            sn = k.snapshot(bs, x)
            y = H.body("LagrangePolynomial:LagrangeBasis.__call__")(bs, x, j)
            k.equal(y, lambda *i: Lag(n.p, L.p, j.p, x.at(*i)), "value", shape=sh)
            k.unchanged(sn)
        H.case(f"contract LagrangeBasis.__call__ rank {r}", body, contract="LagrangeBasis.__call__")
    for r in (1, 2, 3, 4):
        mk(r)


def verify_fold(H):
    def mk(r):
        def body(k):
            sh = k.ints(" ".join("qrstu"[:r])) if r else []
            p = k.real("p", pos=True)
            x = k.tensor("x", *sh)
            sn = k.snapshot(x)
            y = H.body("utils:make_periodic")(x, p)
            k.equal(y, lambda *i: fold(x.at(*i), p.p), "value", shape=sh)
            k.unchanged(sn)
        H.case(f"contract make_periodic rank {r}", body, contract="make_periodic")
    for r in (0, 1, 2, 3, 4):
        mk(r)


def verify_nd(H, dims=(1, 2, 3, 4, 5)):
    def mk(d):
        def body(k):
            ns = [k.int(f"n{t}") for t in range(d)]
            L = k.real("L", pos=True)
            q, B, I = k.ints("q B I")
            bs = H.api("LagrangePolynomial:LagrangeBasisND")(TList(ns), length=L)
            x = k.tensor("x", B, I, d)
            ind = TN.new((q.p, const(d)), lambda ix: app("ind", ix, "I"), "i")

            def rng(args):
                hi = ns[d - 1].p - 1
                for t in range(d - 1):
                    hi = ite(eq(args[1], t), ns[t].p - 1, hi)
                return ZERO, hi
            PR.UF_RANGE["ind"] = rng
            sn = k.snapshot(bs, x)
            y = H.body("LagrangePolynomial:LagrangeBasisND._compute_basis")(bs, x, ind)

            def spec(a, b, i):
                r = ONE
                for t in range(d):
                    r = r * Lag(ns[t].p, L.p, app("ind", (a, const(t)), "I"), x.at(b, i, const(t)))
                return r
            k.equal(y, spec, "value", shape=(q, B, I))
            k.unchanged(sn)
        H.case(f"contract LagrangeBasisND._compute_basis d={d}", body, contract="LagrangeBasisND._compute_basis", bounded=f"number of dimensions = {d}")
    for d in dims:
        mk(d)


def verify_expand(H):
    def mk(cls, sub, rank, disc):
        nm = f"{cls}.__call__"

        def body(k):
            n, s = k.int("n"), k.int("s")
            L = k.real("L", pos=True)
            sh = k.ints(" ".join("BCVW"[:rank]))
            e = H.api(f"LagrangePolynomial:{sub}")(n=n, segments=s, length=L)
            x = k.tensor("x", *sh)
            sn = k.snapshot(e, x)
            y = H.body(f"Basis:{nm}")(e, x)
            nb = n.p * s.p if disc else (n.p - 1) * s.p + 1
            k.equal(y, lambda v, *i: pw_basis(x.at(*i), v, n.p, s.p, L.p, disc, seg), "value", shape=(Sc(nb, "i"),) + tuple(sh))
            k.unchanged(sn)
        H.case(f"contract {nm}", body, contract=nm)
    mk("PiecewiseExpand", "PiecewisePolynomialExpand", 4, False)
    mk("PiecewiseExpand1d", "PiecewisePolynomialExpand1d", 3, False)
    mk("PiecewiseDiscontinuousExpand", "PiecewiseDiscontinuousPolynomialExpand", 4, True)
    mk("PiecewiseDiscontinuousExpand1d", "PiecewiseDiscontinuousPolynomialExpand1d", 3, True)


def verify_rel(H):
    nm = "RelativeMultiHeadAttention._compute_relative_positional_encoding"

    def body(k):
        B, N, Q, K = k.ints("B N Q K")
        a = H.api("attentions:RelativeMultiHeadAttention")(2, 1)
        p = k.tensor("p", B, N, Q, K)
        sn = k.snapshot(a, p)
        y = H.body("attentions:" + nm)(a, p)
        k.equal(y, lambda b, h, i, j: rel_entry(lambda r, c: p.at(b, h, r, c), Q.p, K.p, i, j), "value", shape=(B, N, Q, K))
        k.unchanged(sn)
    H.case(f"contract {nm}", body, contract=nm)


def verify_pw(H):
    from .fc import fc, seg_link

    def mk(kind, disc, cls, per):
        nm = cls + ".forward"

        def body(k):
            n, I, O, B, s = k.ints("n I O B s")
            L = k.real("L", pos=True)
            p = k.real("p", pos=True) if per else None
            lay = fc(H, kind, n=n, in_features=I, out_features=O, segments=s, length=L, periodicity=p)
            f = (lambda v: Fold(v, p.p)) if per else (lambda v: v)
            w = k.havoc(lay.w, "w")
            x = k.tensor("x", B, I)
            k.shape(lay.w, (O, I, n * s if disc else (n - 1) * s + 1), "weights per link")
            sn = k.snapshot(lay, x)
            y = H.body("PolynomialLayers:" + nm)(lay, x)
            k.equal(y, lambda b, o: Sum(I.p, lambda i: seg_link(w, n.p, s.p, L.p, o, i, f(x.at(b, i)), disc)), "value", shape=(B, O))
            k.unchanged(sn)
        H.case(f"contract {nm}{' periodic' if per else ''}", body, contract=nm)
    for per in (False, True):
        mk("continuous", False, "Piecewise", per)
        mk("discontinuous", True, "PiecewiseDiscontinuous", per)


def verify_interp(H):
    from .refine import p_layer
    for per in (False, True):
        for n1 in (True, False):
            p_layer(H, "discontinuous", True, n1, per)
            p_layer(H, "continuous", False, n1, per)


def verify_refine(H):
    from .refine import h_layer
    for n1 in (True, False):
        h_layer(H, False, n1)
        h_layer(H, True, n1)


VERIFY = {"refine": verify_refine, "interp": verify_interp, "pw": verify_pw, "rel": verify_rel, "expand": verify_expand, "lag": verify_lag, "fold": verify_fold, "nd": verify_nd}
