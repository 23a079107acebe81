"""Contracts of internal functions, used at call sites instead of their bodies.

Each contract has a precondition/summary used by callers and a verification routine
(`verify`) that proves the summary against the real body.  If the body no longer meets
its contract the callers are re-verified with the contract switched off (inlined)."""
from .terms import *
from . import prover as PR
from . import core as C
from . import terms as T
from .core import *
from .core import E
from . import tensor as TN
from .tensor import Tensor
from .spec import *


def ghost_state(o):
    """Values the contract's frame relies on: nobody may change the object after construction."""
    out = {}
    for kk, v in o.__dict__.items():
        if isinstance(v, Tensor):
            out[kk] = (v, v.st.content)
        elif isinstance(v, (list, tuple)):
            out[kk] = (v, tuple((id(z), z.st.content if isinstance(z, Tensor) else None) for z in v))
        else:
            out[kk] = (v, None)
    return out


def ghost_ok(o, st):
    for kk, (v, con) in st.items():
        w = o.__dict__.get(kk)
        if w is not v:
            return False
        if isinstance(v, Tensor):
            if v.st.content is not con:
                return False
        elif isinstance(v, (list, tuple)):
            if tuple((id(z), z.st.content if isinstance(z, Tensor) else None) for z in v) != con:
                return False
    return True


def deep_state(o, depth=0):
    """Identity fingerprint of an object and everything it reaches (tensors by contents)."""
    if depth > 5:
        return id(o)
    if isinstance(o, Tensor):
        return (id(o), id(o.st.content))
    if isinstance(o, (list, tuple)):
        return tuple(deep_state(z, depth + 1) for z in o)
    if hasattr(o, "__dict__") and not callable_(o):
        return (id(o),) + tuple((k, deep_state(v, depth + 1)) for k, v in sorted(o.__dict__.items()) if k not in ("__ghost__", "_stamp_"))
    return id(o) if not isinstance(o, (int, float, str, bool, type(None))) else o


def callable_(o):
    import types
    return isinstance(o, (type, types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType))


def same_attrs(o, st):
    for kk, v in st.items():
        if kk in ("training", "_stamp_", "device", "wrange"):
            continue
        w = o.__dict__.get(kk)
        if w is v or isinstance(v, (int, float, str, bool)) and type(v) is type(w) and v == w:
            continue
        if isinstance(v, Sc) and isinstance(w, Sc) and v.p == w.p:
            continue
        if isinstance(v, dict) and isinstance(w, dict):
            continue
        return False
    return True


def multiple(a, b):
    q = div(a, b)
    return is_int(q) and E.ctx.entails(ge0(q - 1))


class Ghosts:
    def __init__(self, H):
        self.H = H

    rel = ()

    # RelativeMultiHeadAttention._compute_relative_positional_encoding(p): ensures
    # result[b, h, i, j] == rel_entry(p, b, h, i, j) and p unchanged.  At the call site the result is an
    # uninterpreted table; the caller's obligations name the argument it stands for.
    def rel_shift(self, f):
        g = self

        def _compute_relative_positional_encoding(self, pos_score, *a, **k):
            if a or k or not isinstance(pos_score, Tensor) or pos_score.dt != "f" or len(pos_score._shape) != 4:
                return f(self, pos_score, *a, **k)
            g.use("RelativeMultiHeadAttention._compute_relative_positional_encoding")
            nm = E.fresh_name("RelShift")
            g.rel = tuple(g.rel) + ((nm, pos_score._shape, pos_score.snap()),)
            return TN.new(pos_score._shape, lambda ix: app(nm, ix), "f")
        return _compute_relative_positional_encoding

    def use(self, nm):
        self.H.contract_uses[nm] = self.H.contract_uses.get(nm, 0) + 1

    def registry(self, keys):
        """Contracts in force: those whose bodies the property's check verifies."""
        P, B, L = "PolynomialLayers:", "Basis:", "LagrangePolynomial:"
        reg = {
            "lag": {L + "LagrangeBasis.__init__": self.lag_init, L + "LagrangeBasis.__call__": self.lag_call},
            "nd": {L + "LagrangeBasisND.__init__": self.nd_init, L + "LagrangeBasisND._compute_basis": self.nd_basis},
            "fold": {"utils:make_periodic": self.make_periodic},
            "rel": {"attentions:RelativeMultiHeadAttention._compute_relative_positional_encoding": self.rel_shift},
            "expand": {
                L + "PiecewisePolynomialExpand.__init__": self.exp_init(False),
                L + "PiecewisePolynomialExpand1d.__init__": self.exp_init(False),
                L + "PiecewiseDiscontinuousPolynomialExpand.__init__": self.exp_init(True),
                L + "PiecewiseDiscontinuousPolynomialExpand1d.__init__": self.exp_init(True),
                B + "PiecewiseExpand.__call__": self.exp_call(4, "PiecewiseExpand.__call__"),
                B + "PiecewiseExpand1d.__call__": self.exp_call(3, "PiecewiseExpand1d.__call__"),
                B + "PiecewiseDiscontinuousExpand.__call__": self.exp_call(4, "PiecewiseDiscontinuousExpand.__call__"),
                B + "PiecewiseDiscontinuousExpand1d.__call__": self.exp_call(3, "PiecewiseDiscontinuousExpand1d.__call__"),
            },
            "pw": {
                P + "PiecewisePolynomial.__init__": self.pw_init(False),
                P + "PiecewiseDiscontinuousPolynomial.__init__": self.pw_init(True),
                P + "Piecewise.forward": self.pw_forward("Piecewise.forward"),
                P + "PiecewiseDiscontinuous.forward": self.pw_forward("PiecewiseDiscontinuous.forward"),
            },
        }
        reg["interp"] = {P + "interpolate_polynomial_layer": self.refine_fn("interpolate_polynomial_layer", True)}
        reg["refine"] = {P + "refine_polynomial_layer": self.refine_fn("refine_polynomial_layer", False)}
        out = {}
        for k in keys:
            out.update(reg.get(k, {}))
        return out

    # PiecewisePolynomial / PiecewiseDiscontinuousPolynomial(n, I, O, s, length).forward(x), no periodicity:
    # requires n, s >= 1, length > 0, x of shape (B, I); ensures
    # result[b, o] == sum_i sum_j w[o, i, Seg(x[b, i])*stride + j] * Lag(n, length, j, xloc(x[b, i])), w and x unchanged
    def pw_init(self, disc):
        def wrap(f):
            def __init__(self, n, in_features, out_features, segments, length=2.0, *a, **k):
                f(self, n, in_features, out_features, segments, length, *a, **k)
                st = {kk: v for kk, v in self.__dict__.items() if kk not in ("w",)}
                po = self.__dict__.get("_poly")
                self.__dict__["__ghost__"] = (num(n), num(in_features), num(out_features), num(segments), num(length), disc, st, po, deep_state(po))
            return __init__
        return wrap

    def pw_forward(self, nm):
        g = self

        def wrap(f):
            def forward(self, x, *a, **k):
                gh = self.__dict__.get("__ghost__")
                ok = gh is not None and not a and not k and isinstance(x, Tensor) and x.dt == "f" and len(x._shape) == 2
                if ok:
                    n, I, O, s, L, disc, st, po, ds = gh
                    per = self.__dict__.get("periodicity", 0)
                    ok = (per is None or (is_num(per) or isinstance(per, Sc)) and E.ctx.entails(gt0(num(per)))) and deep_state(po) == ds and same_attrs(self, st) \
                        and isinstance(self.w, Tensor) and tuple(self.w._shape) == (dim(O), dim(I), dim(n * s if disc else (n - 1) * s + 1)) \
                        and TN.same_dim(x._shape[1], dim(I)) and E.ctx.entails(ge0(n - 1)) and E.ctx.entails(ge0(s - 1)) and E.ctx.entails(gt0(L))
                if not ok:
                    return f(self, x, *a, **k)
                g.use(nm)
                c, wc = x.snap(), self.w.snap()
                rf = self.__dict__.get("__refined__")
                if rf is not None and self.w is rf[2] and self.w.st.content is rf[3]:
                    (n, _, _, s, L, _, _, _, _), wc = rf[:2]
                st_ = n if disc else n - 1

                def val(ix):
                    b, o = ix

                    def link(i):
                        xv = c((b, i))
                        if per is not None:
                            xv = Fold(xv, num(per))
                        sg = Seg(xv, s, L)
                        return Sum(n, lambda j: wc((o, i, sg * st_ + j)) * Lag(n, L, j, xloc(xv, sg, s, L)))
                    return Sum(I, link)
                return TN.new((x._shape[0], dim(O)), val, "f")
            return forward
        return wrap

    # interpolate_polynomial_layer(a, b) requires layers of one kind with equal widths, length and segments and
    # order(b) >= order(a); refine_polynomial_layer(a, b) requires continuous layers, order(b) >= order(a) and
    # segments(b) a multiple of segments(a).  Both ensure that b computes, for every input, the function a
    # computes at the call, and that a is unchanged.
    def refine_fn(self, nm, same):
        g = self

        def wrap(f):
            def refine(layer_in, layer_out, *r, **k):
                a, b = getattr(layer_in, "__dict__", {}).get("__ghost__"), getattr(layer_out, "__dict__", {}).get("__ghost__")
                ok = a is not None and b is not None and not r and not k and layer_in is not layer_out and layer_in.w is not layer_out.w
                if ok:
                    ok = a[5] == b[5] and a[1] == b[1] and a[2] == b[2] and a[4] == b[4] and (same or not a[5])
                if ok:
                    ok = (a[3] == b[3] if same else multiple(b[3], a[3])) and E.ctx.entails(ge0(b[0] - a[0])) and E.ctx.entails(ge0(a[3] - 1)) \
                        and E.ctx.entails(ge0(a[0] - 1)) and E.ctx.entails(gt0(a[4]))
                    for l, q in ((layer_in, a), (layer_out, b)):
                        ok = ok and deep_state(q[7]) == q[8] and same_attrs(l, q[6])
                if not ok:
                    return f(layer_in, layer_out, *r, **k)
                g.use(nm)
                wc = layer_in.w.snap()
                rf = layer_in.__dict__.get("__refined__")
                src = a
                if rf is not None and layer_in.w is rf[2] and layer_in.w.st.content is rf[3]:
                    src, wc = rf[0], rf[1]
                t = TN.tensor_var(E.fresh_name("wref"), layer_out.w._shape, "f")
                layer_out.w.st.set_content(TN.Content(t.snap()))
                layer_out.__dict__["__refined__"] = (src, wc, layer_out.w, layer_out.w.st.content)
            refine.__name__ = nm
            return refine
        return wrap

    # Piecewise*PolynomialExpand*(n, segments, length).__call__(x) requires n, segments >= 1, length > 0;
    # ensures result[v, b, c, ...] == pw_basis(x[b, c, ...], v), shape (number of weights per link,) + x.shape
    def exp_init(self, disc):
        def wrap(f):
            def __init__(self, n, segments, length=2.0, *a, **k):
                f(self, n, segments, length, *a, **k)
                if not a and not k:
                    self.__dict__["__ghost__"] = (num(n), num(segments), num(length), disc, ghost_state(self))
            return __init__
        return wrap

    def exp_call(self, rank, nm):
        g = self

        def wrap(f):
            def __call__(self, x, *a, **k):
                gh = self.__dict__.get("__ghost__")
                ok = gh is not None and not a and not k and isinstance(x, Tensor) and x.dt == "f" and len(x._shape) == rank and ghost_ok(self, gh[4])
                if ok:
                    n, s, L, disc, _ = gh
                    ok = E.ctx.entails(ge0(n - 1)) and E.ctx.entails(ge0(s - 1)) and E.ctx.entails(gt0(L))
                if not ok:
                    return f(self, x, *a, **k)
                g.use(nm)
                c = x.snap()
                nb = n * s if disc else (n - 1) * s + 1
                return TN.new((dim(nb),) + tuple(x._shape), lambda ix: pw_basis(c(ix[1:]), ix[0], n, s, L, disc), "f")
            return __call__
        return wrap

    # make_periodic(x, p) requires p > 0; ensures result[ix] == Fold(x[ix], p), x unchanged
    def make_periodic(self, f):
        g = self

        def make_periodic(x, periodicity, *a, **k):
            if a or k or not isinstance(x, Tensor) or x.dt != "f" or not (is_num(periodicity) or isinstance(periodicity, Sc)):
                return f(x, periodicity, *a, **k)
            p = num(periodicity)
            if not E.ctx.entails(gt0(p)):
                return f(x, periodicity)
            g.use("make_periodic")
            c = x.snap()
            return TN.new(x._shape, lambda ix: Fold(c(ix), p), "f")
        return make_periodic

    # LagrangeBasisND._compute_basis(x, indexes): requires 0 <= indexes[:, d] < n[d];
    # ensures result[q, b, i] == prod_d Lag(n[d], L, indexes[q, d], x[b, i, d])
    def nd_init(self, f):
        def __init__(self, n, length=2.0, *a, **k):
            f(self, n, length, *a, **k)
            ns = self.__dict__.get("n")
            if isinstance(ns, (list, tuple)) and self.__dict__.get("dimensions") == len(ns):
                self.__dict__["__ghost__"] = ([num(z) for z in ns], num(length), ghost_state(self))
        return __init__

    def nd_basis(self, f):
        g = self

        def _compute_basis(self, x, indexes, *a, **k):
            gh = self.__dict__.get("__ghost__")
            ok = gh is not None and ghost_ok(self, gh[2]) and not a and not k and isinstance(x, Tensor) and isinstance(indexes, Tensor) \
                and x.dt == "f" and indexes.dt == "i" and len(x._shape) == 3 and len(indexes._shape) == 2
            if ok:
                ns, L, _ = gh
                D = len(ns)
                ok = expand_dims(x._shape[2]) == const(D) and expand_dims(indexes._shape[1]) == const(D)
            if ok:
                v = poly(T.fresh("q"))
                c0 = E.ctx
                c1 = c0.extend(ge0(v), ge0(indexes._shape[0] - 1 - v))
                try:
                    E.ctx = c1
                    for d in range(D):
                        t = indexes.at(v, const(d))
                        b = band(ge0(t), lt(t, ns[d]))
                        if not (c1.entails(b) or PR.prove_split(c1, b)):
                            ok = False
                finally:
                    E.ctx = c0
            if not ok:
                return f(self, x, indexes, *a, **k)
            g.use("LagrangeBasisND._compute_basis")
            xc, ic = x.snap(), indexes.snap()

            def val(ix):
                q, b, i = ix
                r = ONE
                for d in range(D):
                    r = r * Lag(ns[d], L, ic((q, const(d))), xc((b, i, const(d))))
                return r
            return TN.new((indexes._shape[0], x._shape[0], x._shape[1]), val, "f")
        return _compute_basis

    def lag_init(self, f):
        g = self

        def __init__(self, n, length=2, *a, **k):
            f(self, n, length, *a, **k)
            self.__dict__["__ghost__"] = (num(n), num(length), {kk: (v, v.st.content if isinstance(v, Tensor) else None) for kk, v in self.__dict__.items()})
        return __init__

    def lag_call(self, f):
        g = self

        def __call__(self, x, j, *a, **k):
            gh = self.__dict__.get("__ghost__")
            ok = gh is not None and isinstance(x, Tensor) and x.dt == "f" and not a and not k and (is_num(j) or isinstance(j, Sc))
            if ok:
                for kk, (v, con) in gh[2].items():
                    w = self.__dict__.get(kk)
                    if w is not v or (con is not None and v.st.content is not con):
                        ok = False
            if ok:
                jj = num(j)
                ok = E.ctx.entails(band(ge0(jj), lt(jj, gh[0])))
            if not ok:
                return f(self, x, j, *a, **k)
            g.use("LagrangeBasis.__call__")
            c = x.snap()
            n, L = gh[0], gh[1]
            return TN.new(x._shape, lambda ix: Lag(n, L, jj, c(ix)), "f")
        return __call__
