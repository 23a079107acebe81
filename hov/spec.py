"""Specification vocabulary: mathematical functions the contracts talk about.

Facts used about them (proved in /verif/lean, see DESIGN.md):
  node injectivity, Lagrange exactness (rule lag_compose), partition of unity and
  reproduction of straight lines.
"""
from fractions import Fraction
from functools import lru_cache
from .terms import *
from . import prover as PR

HALF = Fraction(1, 2)


def node(n, k):
    """k-th Chebyshev-Lobatto point of n on [-1, 1] (0 for n = 1)."""
    n, k = poly(n), poly(k)
    if n == ONE:
        return ZERO
    return app("node", [n, k])


def node_def(n, k):
    return ite(eq(n, ONE), ZERO, -fn("cos", PI * div(k, n - 1)))


@lru_cache(None)
def node_ev(n, k):
    n = int(n)
    if n < 1:
        raise PR.EvalError("node")
    return Fraction(0) if n == 1 else -PR.mpmath.cos(PR.mpmath.pi * PR.mp_(k) / (n - 1))


SMART["node"] = lambda n, k: ZERO if n == ONE else None
def _lag_smart(n, j, t):
    """Nodal values at the end points (Lean: lag_node): Lag(n, j, -1) = [j = 0], Lag(n, j, 1) = [j = n-1]."""
    if n == ONE:
        return ONE
    if t == -ONE:
        return ite(eq(j, ZERO), ONE, ZERO)
    if t == ONE:
        return ite(eq(j, n - 1), ONE, ZERO)
    return None


SMART["Lag"] = _lag_smart
PR.DEFS["node"] = node_def
PR.EVAL_SPECIAL["node"] = node_ev


def Lag(n, L, j, x):
    """j-th Lagrange cardinal polynomial on the nodes node(n,.)*L/2, at x.

    Stored in scale-free form Lag(n, j, t) with t = 2x/L (nodes on [-1, 1]): cardinal
    polynomials are invariant under scaling nodes and argument together."""
    n, L, j, x = map(poly, (n, L, j, x))
    if n == ONE:
        return ONE
    return app("Lag", [n, j, div(x * 2, L)])


def lag_def(n, j, t):
    X = lambda m: node(n, m)
    return Prod(n, lambda m: ite(eq(m, j), ONE, div(t - X(m), X(j) - X(m))))


PR.DEFS["Lag"] = lag_def


@lru_cache(200000)
def lag_ev(n, j, t):
    n, j = int(n), int(j)
    t = PR.mp_(t)
    X = [PR.mp_(node_ev(n, m)) for m in range(n)]
    r = PR.mpf(1)
    if not 0 <= j < n:
        raise PR.EvalError("Lag index")
    for m in range(n):
        if m != j:
            r *= (t - X[m]) / (X[j] - X[m])
    return r


PR.EVAL_SPECIAL["Lag"] = lag_ev


def lag_refold(ctx, c2, v, n, body):
    """prod over v<n of ite(v == j, 1, (t - X_v)/(X_j - X_v))  ->  Lag(n, j, t)."""
    a = body.single_atom()
    if a is None or a.kind != "ite":
        return None
    cnd, p, q = a.data
    if p != ONE or cnd.kind != "eq":
        return None
    lc = PR.lin_coef(cnd.data[0], v)
    if lc is None or lc[0] not in (ONE, -ONE):
        return None
    j = -lc[1] if lc[0] == ONE else lc[1]
    cv = fn("cos", PI * div(poly(v), n - 1))
    cj = fn("cos", PR.simp(ctx, PI * div(j, n - 1)))
    e = cv - cj
    for x in (0, 1):
        D = inv(e).t
        if len(D) != 1:
            return None
        (m0, s0), = D
        if len(m0) != 1 or m0[0][0].kind != "inv":
            return None
        d = m0[0][0]
        # q = s0 * d * (t + cv)
        co = ZERO
        ok = True
        for m, c in q.t:
            dm = dict(m)
            if dm.get(d, 0) != 1:
                ok = False
                break
            co = co + of_mono(tuple(z for z in m if z[0] is not d), c / s0)
        if not ok:
            return None
        t = co - cv
        if v in t.free:
            return None
        return app("Lag", [n, j, t])


PR.PROD_RULES.append(lag_refold)


def _node_atom(a, N, v):
    """sign s with s*a == node(N, v) for N >= 2, else None."""
    if a.kind != "app":
        return None
    if a.data[0] == "node" and a.data[1] == N and a.data[2] == poly(v):
        return 1
    if a.data[0] == "@cos" and v in a.free:
        g = PI * div(poly(v), N - 1)
        if a.data[1] == g or a.data[1] == -g:
            return -1
    return None


def lag_exact(ctx, c2, v, N, m, c):
    """sum over v<N of g(X_v) * Lag(N, v, t)  ->  g(t) for a polynomial g of degree < N
    (exactness of interpolation; Lean: lag_exact)."""
    la = [a for a, e in m if a.kind == "app" and a.data[0] == "Lag" and e == 1 and a.data[1] == N and a.data[2] == poly(v) and v not in a.data[3].free]
    if len(la) != 1:
        return lag_swap(ctx, c2, v, N, m, c)
    t = la[0].data[3]
    deg = ZERO
    out = const(c)
    for a, e in m:
        if a is la[0]:
            continue
        if v not in a.free:
            out = out * of_mono(((a, e),))
            continue
        if e < 0:
            return None
        s = _node_atom(a, N, v)
        if s is not None:
            out = out * power(t * s, e)
            deg = deg + e
            continue
        if a.kind == "app" and a.data[0] == "Lag" and v not in a.data[1].free and v not in a.data[2].free:
            u = a.data[3]
            at = [b for b in u.atoms() if v in b.free]
            if len(at) != 1:
                return None
            s = _node_atom(at[0], N, v)
            if s is None:
                return None
            u2 = ZERO
            for mm, cc in u.t:
                ee = dict(mm).get(at[0], 0)
                if ee not in (0, 1):
                    return None
                u2 = u2 + of_mono(tuple(z for z in mm if z[0] is not at[0]), cc) * (t * s if ee else ONE)
            out = out * power(app("Lag", [a.data[1], a.data[2], u2]), e)
            deg = deg + (a.data[1] - 1) * e
            continue
        return None
    if not ctx.entails(ge0(N - 1 - deg)):
        return None
    return PR.simp(ctx, out)


def lag_swap(ctx, c2, v, N, m, c):
    """Exchange sums: sum_v sum_i f -> sum_i sum_v f when f has a factor Lag(N, v, t(i))."""
    hit = None
    for a, e in m:
        if a.kind == "sum" and e == 1 and v in a.free and v not in a.data[1].free:
            for b in all_atoms(a.data[2], into_binders=True):
                if b.kind == "app" and b.data[0] == "Lag" and b.data[1] == N and b.data[2] == poly(v) and a.data[0] in b.free:
                    hit = a
                    break
    if hit is None:
        return None
    rest = of_mono(tuple(z for z in m if z[0] is not hit), c)
    w = fresh("sw")
    inner = subst(hit.data[2], {hit.data[0]: poly(w)})
    return PR.simp(ctx, binder("sum", w, hit.data[1], binder("sum", v, N, rest * inner)))


PR.SUM_RULES.append(lag_exact)
_EDGE = [0]


def edge_rule(ctx, c2, v, N, m, c):
    """sum over v<N whose terms contain floor(v/(N-1)) (0 except 1 at the last term): use the form valid for
    v<N-1 everywhere if it also gives the last term (a value shared by neighbouring segments)."""
    t = of_mono(m, c)
    hit = False
    for a in all_atoms(t, into_binders=True):
        if a.kind == "floor" and v in a.free:
            lc = PR.lin_coef(a.data[0], v)
            if lc is not None and expand_dims(lc[0] * (N - 1)) == ONE or lc is None and any(_node_atom(b, N, v) for b in a.data[0].atoms()):
                hit = True
                break
    if not hit or _EDGE[0] or not ctx.entails(ge0(N - 2)):
        return None
    _EDGE[0] += 1
    try:
        c3 = c2.extend(ge0(N - 2 - poly(v)))
        t2 = PR.simp(c3, t)
        if t2 == t:
            return None
        last = {v: N - 1}
        r = PR.prove_eq(ctx.extend(ge0(N - 2)), subst(t, last), subst(t2, last))
        if not r:
            return None
    finally:
        _EDGE[0] -= 1
    return PR.simp(ctx, binder("sum", v, N, t2))


PR.SUM_RULES.append(edge_rule)


def seg(x, s, L):
    """Segment index of x: floor clipped to [0, s-1]."""
    x, s, L = map(poly, (x, s, L))
    t = floor(div((x + L * HALF) * s, L))
    return ite(lt(t, ZERO), ZERO, ite(lt(s - 1, t), s - 1, t))


def Seg(x, s, L):
    """Opaque name of seg(x, s, L): segment index of x."""
    x, s, L = map(poly, (x, s, L))
    return app("Seg", [div(x, L), s], "I")


def seg_norm(t, s):
    f = floor((t + const(HALF)) * s)
    return ite(lt(f, ZERO), ZERO, ite(lt(s - 1, f), s - 1, f))


SEG_SPLIT = {}


def seg_split(s, c):
    """Lemma seg_refine (Lean): the segment of x among s*c is c * (its segment among s) + r with 0 <= r < c."""
    SEG_SPLIT[poly(s) * poly(c)] = (poly(s), poly(c))


def _seg_smart(t, s):
    if s == ONE:
        return ZERO
    if s in SEG_SPLIT:
        a, c = SEG_SPLIT[s]
        return c * app("Seg", [t, a], "I") + app("SegR", [t, a, c], "I")
    return None


SMART["Seg"] = _seg_smart
PR.CORNER_RANGE["SegR"] = lambda args: (ZERO, args[2] - 1)
PR.CORNER_RANGE["Seg"] = lambda args: (ZERO, args[1] - 1)
PR.FACTS["SegR"] = lambda args: [bor(le(args[1], ZERO), le(args[2], ZERO), band(ge0(app("SegR", args, "I")), ge0(args[2] - 1 - app("SegR", args, "I"))))]
PR.DEFS["SegR"] = lambda t, a, c: seg_norm(t, a * c) - c * seg_norm(t, a)
PR.DEFS["Seg"] = seg_norm
PR.FACTS["Seg"] = lambda args: [bor(le(args[1], ZERO), band(ge0(app("Seg", args, "I")), ge0(args[1] - 1 - app("Seg", args, "I"))))]


def pw_basis(x, v, n, s, L, disc, sg=None):
    """Value at x of the basis function of weight v of a piecewise link."""
    x, v, n, s, L = map(poly, (x, v, n, s, L))
    sg = Seg(x, s, L) if sg is None else sg(x, s, L)
    j = v - sg * (n if disc else n - 1)
    return ite(band(ge0(j), ge0(n - 1 - j)), Lag(n, L, j, xloc(x, sg, s, L)), ZERO)


def xloc(x, k, s, L):
    """Local coordinate (in [-L/2, L/2]) of x in segment k of s."""
    x, k, s, L = map(poly, (x, k, s, L))
    lo = div(k * L, s) - L * HALF
    return (x - lo) * s - L * HALF


def Fold(x, p):
    """Opaque name of fold(x, p): contract of make_periodic."""
    return app("Fold", [poly(x), poly(p)])


PR.DEFS["Fold"] = lambda x, p: fold(x, p)
PR.FACTS["Fold"] = lambda args: [bor(le(args[1], ZERO), band(ge0(app("Fold", args) + args[1] * HALF), ge0(args[1] * HALF - app("Fold", args))))]


def fold(x, p):
    """Mirror-periodic fold of x into [-p/2, p/2]."""
    x, p = poly(x), poly(p)
    h = p * HALF
    t = (x + h) - floor(div(x + h, p * 2)) * p * 2
    return ite(lt(p, t), p * 2 - t, t) - h


def fourier(j, x, L):
    """Concrete-j Fourier basis value."""
    if j == 0:
        return const(HALF)
    i = (j + 1) // 2
    return fn("cos" if j % 2 == 0 else "sin", div(PI * 2 * i * x, L))


def rel_entry(at, Q, K, i, j):
    """Transformer-XL shift of a Q x K table: entry (i, j) is flat entry i*K + j + Q of the table
    with a zero put before each of its rows."""
    t = i * K + j + Q
    W = dim(K + 1)
    r = floor(div(t, W))
    c = t - W * r
    return ite(le(c, ZERO), ZERO, at(r, c - 1))
