"""C14 smoothing, C15 normalisations, C16 sparse optimiser, C17 rotations, C21 VAE, C22 encodings."""
from ..harness import *
from ..spec import *
from . import prop
from .fc import fc


def Max(n, f, kind="max"):
    v = fresh("mx")
    return binder(kind, v, poly(num(n)), f(poly(v)))


def absp(p):
    return pabs(p)


# ------------------------------------------------------------------ C14
def smooth_spec(w, n, s, f):
    """Weights after one smoothing: weight v sits at place r of segment g."""
    def at(o, i, g, r):
        v = g * n + r
        last = band(eq(r, n - 1), lt(g, s - 1))
        first = band(eq(r, ZERO), gt0(g))
        h = f * HALF
        return ite(last, w(o, i, v) + h * (w(o, i, v + 1) - w(o, i, v)), ite(first, w(o, i, v) + h * (w(o, i, v - 1) - w(o, i, v)), w(o, i, v)))
    return at


@prop("C14", contracts=())
def c14(H):
    def smoothed(k, t, w, n, s, O, I, f, tag=""):
        want = smooth_spec(w, n.p, s.p, f.p)
        k.shape(t, (O, I, n * s), tag + "weight shape")
        k.at(t, (O, I, s, n), lambda o, i, g, r: (o, i, g * n.p + r), want, tag + "jumps shrink, other weights stay")

    def layer(kind):
        def body(k):
            n, I, O, s = k.int("n", 2), k.int("I"), k.int("O"), k.int("s")
            f = k.real("f")
            lay = fc(H, kind, n=n, in_features=I, out_features=O, segments=s)
            w = k.havoc(lay.w, "w")
            par = lay.w
            H.api("PolynomialLayers:smooth_discontinuous_layer")(lay, f)
            k.fact(lay.w is par, "parameter keeps its identity")
            smoothed(k, lay.w, w, n, s, O, I, f)
        H.case(f"{kind} layer", body)
    layer("discontinuous")
    layer("discontinuous_prod")

    def twice(k):
        n, I, O, s = k.int("n", 2), k.int("I"), k.int("O"), k.int("s")
        f, g = k.real("f"), k.real("g")
        lay = fc(H, "discontinuous", n=n, in_features=I, out_features=O, segments=s)
        w = k.havoc(lay.w, "w")
        sm = H.api("PolynomialLayers:smooth_discontinuous_layer")
        sm(lay, f)
        sm(lay, g)
        k.at(lay.w, (O, I, s - 1), lambda o, i, q: (o, i, q * n.p + n.p - 1), lambda o, i, q: lay.w.at(o, i, (q + 1) * n.p) + (1 - f.p) * (1 - g.p) * (w(o, i, q * n.p + n.p - 1) - w(o, i, (q + 1) * n.p)), "repeated smoothing multiplies the jump each time")
    H.case("repeated smoothing", twice)

    def netw(nm, build, want, **kw):
        def body(k):
            f = k.real("f")
            net, disc, other = build(k)
            from .refine import leaves
            P = H.api("PolynomialLayers:PiecewiseDiscontinuous")
            ws = [k.havoc(l.w, f"w{q}") for q, (l, _) in enumerate(disc)]
            ids = {id(l) for l, _ in disc}
            for q, p in enumerate(p for m in net.modules() if id(m) not in ids for p in m.__dict__.values() if isinstance(p, S.Parameter)):
                k.havoc(p, f"v{q}")
            sn = k.snapshot(*other)
            H.api("networks:smooth_discontinuous_network")(net, f)
            for q, ((l, (n, s, O, I)), w) in enumerate(zip(disc, ws)):
                smoothed(k, l.w, w, n, s, O, I, f, f"layer {q}: ")
            k.unchanged(sn, "other layers unchanged")
        H.case(nm, body, **kw)

    def mlp(kind, hl, res):
        def build(k):
            I, O, W = k.ints("I O W")
            ns, ss = [k.int("n" + q, 2) for q in "iho"], [k.int("s" + q) for q in "iho"]
            net = H.api("networks:HighOrderMLP")(kind, ns[1], I, O, hl, W, n_in=ns[0], n_hidden=ns[1], n_out=ns[2], in_segments=ss[0], hidden_segments=ss[1], out_segments=ss[2], resnet=res)
            from .refine import leaves
            ls = leaves(H, net.model)
            per = 2 if "switch" in kind else 1
            cfg = [(ns[0], ss[0], W, I)] * per + [(ns[1], ss[1], W, W)] * (per * hl) + [(ns[2], ss[2], O, W)] * per
            if res:
                ls = sorted(ls, key=lambda l: 0 if l is net.input_layer else 2 if l is net.output_layer else 1)
            k.fact(len(ls) == len(cfg), "number of discontinuous layers", f"{len(ls)}")
            return net, list(zip(ls, cfg)), []
        netw(f"network {kind} hidden={hl}{' resnet' if res else ''}", build, None, bounded=f"hidden_layers = {hl} in the network case")
    mlp("discontinuous", 1, False)
    mlp("discontinuous", 3, True)
    mlp("switch_discontinuous", 1, False)

    def mixed(k):
        ws = k.ints("a b c d e")
        ns, ss = [k.int(f"n{q}", 2) for q in range(4)], [k.int(f"s{q}") for q in range(4)]
        net = H.api("networks:HighOrderMLPList")(["continuous", "discontinuous", "polynomial", "discontinuous_prod"], ns, ws, ss)
        ls = [m for m in net.model]
        d = [(ls[q], (ns[q], ss[q], ws[q + 1], ws[q])) for q in (1, 3)]
        return net, d, [ls[0], ls[2]]
    netw("network of mixed layers", mixed, None)

    def lemma(k):
        a, b, f = k.real("a"), k.real("b"), k.real("f")
        h = f.p * HALF
        a2, b2 = a.p + h * (b.p - a.p), b.p + h * (a.p - b.p)
        k.eq(a2 - b2, (1 - f.p) * (a.p - b.p), "jump is multiplied by 1 - f")
        k.eq(a2 + b2, a.p + b.p, "mean of the edge values is kept")
    H.case("jump lemma", lemma)


# ------------------------------------------------------------------ C15
def norm_specs(eps):
    def mabs(line, x):
        return div(x, Max(line[0], lambda v: absp(line[1](v))) + eps)

    def mcen(line, x):
        hi = Max(line[0], line[1])
        lo = Max(line[0], line[1], "min")
        return div(x - (hi + lo) * HALF, (hi - lo) * HALF + eps)

    def l2(line, x):
        return div(x, fn("sqrt", Sum(line[0], lambda v: line[1](v) * line[1](v))) + eps)
    return dict(mabs=mabs, mcen=mcen, l2=l2)


def line_of(x, sh, ix, d):
    """The entries of x sharing the sample (and all indices but d) of entry ix."""
    return sh[d].p, lambda v: x.at(*(ix[:d] + (v,) + ix[d + 1:]))


def flat_of(x, sh, ix):
    n = prod_of_p([s.p for s in sh[1:]])

    def at(v):
        out = []
        for q in reversed(sh[1:]):
            out.append(mod(v, q.p))
            v = floor(div(v, q.p))
        return x.at(ix[0], *reversed(out))
    return n, at


def prod_of_p(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def nested_of(x, sh, ix, kind):
    pass


@prop("C15", contracts=())
def c15(H):
    NM = "BCDEFG"

    def run(nm, rank, call, spec, mode, eps_default=False):
        """mode: a dimension number, or 'flat' for the whole sample."""
        def body(k):
            sh = k.ints(" ".join(NM[:rank]))
            eps = Sc(const(Fraction(1, 10 ** 6)), "f") if eps_default else k.real("eps", pos=True)
            x = k.tensor("x", *sh)
            sn = k.snapshot(x)
            y = call(x, None if eps_default else eps)
            f = norm_specs(eps.p)[spec]

            def want(*ix):
                if mode == "flat":
                    return f(flat_of(x, sh, ix), x.at(*ix))
                return f(line_of(x, sh, ix, mode), x.at(*ix))
            k.equal(y, want, "normalised value", shape=tuple(sh))
            k.unchanged(sn, "input unchanged")
        H.case(nm, body)

    def fn_of(name, **kw):
        def call(x, eps):
            a = dict(kw)
            if eps is not None:
                a["eps"] = eps
            return H.api(f"utils:{name}")(x, **a)
        return call

    def layer_of(name, where="layers", **kw):
        def call(x, eps):
            a = dict(kw)
            if eps is not None:
                a["eps"] = eps
            return H.api(f"layers:{name}")(**a)(x)
        return call

    def table_of(key):
        def call(x, eps):
            return H.api("layers:normalization_layers")[key](**({} if eps is None else dict(eps=eps)))(x)
        return call

    def ntable_of(key):
        def call(x, eps):
            return H.api("utils:norm_type")[key](x, **({} if eps is None else dict(eps=eps)))
        return call
    for fname, lname, sp in (("max_abs_normalization", "MaxAbsNormalization", "mabs"), ("max_center_normalization", "MaxCenterNormalization", "mcen")):
        for r in (2, 3, 4, 5, 6):
            for d in range(r):
                run(f"{fname} rank {r} dim {d}", r, fn_of(fname, dim=d), sp, d)
                if d:
                    run(f"{fname} rank {r} dim {d - r}", r, fn_of(fname, dim=d - r), sp, d)
                if sp == "mabs":
                    run(f"{lname} rank {r} dim {d}", r, layer_of(lname, dim=d), sp, d)
            run(f"{lname} rank {r}", r, layer_of(lname), sp, 1)
            run(f"{lname} rank {r} default eps", r, layer_of(lname), sp, 1, True)
            run(f"{fname} rank {r} default eps", r, fn_of(fname), sp, 1, True)
        for r in (1, 2, 3, 4, 5, 6):
            run(f"{fname}_last rank {r}", r, fn_of(fname + "_last"), sp, r - 1)
            run(f"{lname}Last rank {r}", r, layer_of(lname + "Last"), sp, r - 1)
        run(f"{lname}Last default eps", 3, layer_of(lname + "Last"), sp, 2, True)
        for r in (2, 3, 4, 5, 6):
            run(f"{fname}_nd rank {r}", r, fn_of(fname + "_nd"), sp, "flat")
            run(f"{lname}ND rank {r}", r, layer_of(lname + "ND"), sp, "flat")
        run(f"{lname}ND default eps", 3, layer_of(lname + "ND"), sp, "flat", True)
    for r in (2, 3, 4, 5, 6):
        run(f"l2_normalization rank {r}", r, fn_of("l2_normalization"), "l2", 1)
        run(f"L2Normalization rank {r}", r, layer_of("L2Normalization"), "l2", 1)
    run("L2Normalization default eps", 2, layer_of("L2Normalization"), "l2", 1, True)
    for key, sp in (("max_abs", "mabs"), ("max_center", "mcen"), ("l2", "l2")):
        run(f"normalization_layers {key}", 2, table_of(key), sp, 1)
    for key, sp in (("max_abs", "mabs"), ("l2", "l2")):
        run(f"norm_type {key}", 2, ntable_of(key), sp, 1)

    def lemma(k):
        v, M, e = k.real("v"), k.real("M"), k.real("e", pos=True)
        k.assume(ge0(M.p - v.p), ge0(M.p + v.p))
        r = div(v.p, M.p + e.p)
        k.holds(ge0(1 - r), "at most 1")
        k.holds(ge0(1 + r), "at least -1")
    H.case("bound lemma", lemma)


# ------------------------------------------------------------------ C16
@prop("C16", contracts=())
def c16(H):
    def sign(x):
        return ite(gt0(x), ONE, ite(lt(x, ZERO), const(-1), ZERO))

    def upd(p, m, g, lr, wd, b1, b2):
        z = eq(g, ZERO)
        return (ite(z, p, p * (1 - lr * wd) - lr * sign(b1 * m + (1 - b1) * g)), ite(z, m, b2 * m + (1 - b2) * g))

    def mk(rank, steps, ngroups=1, dup=False):
        def body(k):
            S_ = lambda j: k.ints(" ".join(f"{c}{j}" for c in "pqr"[:rank]))
            lr, wd = k.real("lr", pos=True), k.real("wd", lo=0)
            b1, b2 = k.real("b1", lo=0), k.real("b2", lo=0)
            k.assume(ge0(1 - b1.p), ge0(1 - b2.p))
            lr2, wd2 = k.real("lr2", pos=True), k.real("wd2", lo=0)
            c1, c2 = k.real("c1", lo=0), k.real("c2", lo=0)
            k.assume(ge0(1 - c1.p), ge0(1 - c2.p))
            P = []
            hyp = []
            np_ = 3 if ngroups == 1 else 2
            for j in range(np_):
                sh = S_(j)
                t = k.tensor(f"w{j}", *sh)
                P.append((S.Parameter(t), sh))
                hyp.append((lr, wd, b1, b2) if j == 0 or ngroups == 1 else (lr2, wd2, c1, c2))
            cls = H.api("sparse_optimizers.sparse_lion:SparseLion")
            if ngroups == 1:
                opt = cls([p for p, _ in P], lr=lr, betas=(b1, b2), weight_decay=wd)
            else:
                opt = cls([{"params": [P[0][0]]}, {"params": [P[1][0]], "lr": lr2, "weight_decay": wd2, "betas": (c1, c2)}], lr=lr, betas=(b1, b2), weight_decay=wd)
            # reference state: value and momentum as functions of the index
            ref = [(p.snap(), (lambda ix: ZERO)) for p, _ in P]
            has = [[True] * np_ for _ in range(steps)]
            for t in range(steps):
                if ngroups == 1:
                    has[t][1] = t % 2 == 1      # second parameter has no gradient in even steps
                    has[t][2] = False           # third never has one
                else:
                    has[t] = [t % 2 == 0, t % 2 == 1]   # state must not be shared between groups
                gs = []
                for j, (p, sh) in enumerate(P):
                    if has[t][j]:
                        g = k.tensor(f"g{t}_{j}", *sh)
                        p.grad = g
                        gs.append(g)
                    else:
                        p.grad = None
                        gs.append(None)
                sn = k.snapshot(*[g for g in gs if g is not None])
                opt.step()
                for j, (p, sh) in enumerate(P):
                    pv, mv = ref[j]
                    if gs[j] is not None:
                        g = gs[j]
                        a = hyp[j]
                        gc = g.snap()

                        def nv(ix, pv=pv, mv=mv, gc=gc, a=a):
                            return upd(pv(ix), mv(ix), gc(ix), *[z.p for z in a])[0]

                        def nm(ix, pv=pv, mv=mv, gc=gc, a=a):
                            return upd(pv(ix), mv(ix), gc(ix), *[z.p for z in a])[1]
                        ref[j] = (nv, nm)
                    k.equal(p, lambda *ix, j=j: ref[j][0](ix), f"step {t + 1}: value of parameter {j}", shape=tuple(sh))
                    st = opt.state.get(p, {}) if hasattr(opt.state, "get") else {}
                    if any(has[u][j] for u in range(t + 1)):
                        k.fact("exp_avg" in st, f"step {t + 1}: momentum of parameter {j} stored", "no exp_avg in state")
                        if "exp_avg" in st:
                            k.equal(st["exp_avg"], lambda *ix, j=j: ref[j][1](ix), f"step {t + 1}: momentum of parameter {j}", shape=tuple(sh))
                k.unchanged(sn, f"step {t + 1}: gradients unchanged")
        H.case(f"rank {rank}, {ngroups} group(s), {steps} steps", body)
    mk(1, 2)
    mk(2, 1)
    mk(1, 2, 2)

    def many(k):
        """Many groups of several parameters: each group is updated with its own settings."""
        G, Q = 12, 3
        groups, P = [], []
        sh = k.int("p")
        for g in range(G):
            lr, wd, b1, b2 = k.real(f"lr{g}", pos=True), k.real(f"wd{g}", lo=0), k.real(f"b{g}", pos=True), k.real(f"c{g}", pos=True)
            k.assume(ge0(1 - b1.p), ge0(1 - b2.p))
            mem = []
            for q in range(Q if g % 4 == 0 else 1):
                par = S.Parameter(k.tensor(f"w{g}_{q}", sh))
                par.grad = k.tensor(f"g{g}_{q}", sh)
                mem.append(par)
                P.append((par, par.snap(), par.grad, sh, [z.p for z in (lr, wd, b1, b2)], f"{q} of group {g}"))
            groups.append(dict(params=mem, lr=lr, weight_decay=wd, betas=(b1, b2)))
        opt = H.api("sparse_optimizers.sparse_lion:SparseLion")(groups)
        opt.step()
        for par, w, g, sh, a, nm in P:
            k.equal(par, lambda i: upd(w((i,)), ZERO, g.at(i), *a)[0], f"value of parameter {nm}", shape=(sh,))
            k.equal(opt.state[par]["exp_avg"], lambda i: upd(w((i,)), ZERO, g.at(i), *a)[1], f"momentum of parameter {nm}", shape=(sh,))
    H.case("12 groups", many, bounded="12 groups, 18 parameters")

    def shapes(rank):
        def body(k):
            sh = k.ints("p q r s t u"[:2 * rank - 1]) if rank else ()
            lr, wd = k.real("lr", pos=True), k.real("wd", lo=0)
            par = S.Parameter(k.tensor("w", *sh))
            opt = H.api("sparse_optimizers.sparse_lion:SparseLion")([par], lr=lr, weight_decay=wd)
            g = k.tensor("g", *sh)
            w = par.snap()
            par.grad = g
            opt.step()
            k.equal(par, lambda *ix: upd(w(ix), ZERO, g.at(*ix), lr.p, wd.p, const(Fraction(9, 10)), ZERO)[0], "value after a step", shape=tuple(sh))
        H.case(f"parameter of rank {rank}", body)
    for rank in (0, 3, 4, 5, 6):
        shapes(rank)

    def induct(k):
        """One step from an arbitrary state: together with the first step this covers every history."""
        p_, q_ = k.ints("p q")
        lr, wd = k.real("lr", pos=True), k.real("wd", lo=0)
        b1, b2 = k.real("b1", lo=0), k.real("b2", lo=0)
        k.assume(ge0(1 - b1.p), ge0(1 - b2.p))
        par = S.Parameter(k.tensor("w", p_, q_))
        opt = H.api("sparse_optimizers.sparse_lion:SparseLion")([par], lr=lr, betas=(b1, b2), weight_decay=wd)
        par.grad = k.tensor("g0", p_, q_)
        opt.step()
        st = opt.state[par]
        k.havoc(st["exp_avg"], "m")
        k.havoc(par, "w1")
        g = k.tensor("g", p_, q_)
        par.grad = g
        opt.step()
        W, M = (lambda *ix: app("w1", ix)), (lambda *ix: app("m", ix))
        a = [z.p for z in (lr, wd, b1, b2)]
        k.equal(par, lambda *ix: upd(W(*ix), M(*ix), g.at(*ix), *a)[0], "value after a step from any state", shape=(p_, q_))
        k.equal(opt.state[par]["exp_avg"], lambda *ix: upd(W(*ix), M(*ix), g.at(*ix), *a)[1], "momentum after a step from any state", shape=(p_, q_))
    H.case("inductive step", induct)

    def lrchange(k):
        """A scheduler may change a group's hyperparameters between steps."""
        p_ = k.int("p")
        lr, lr2, wd2 = k.real("lr", pos=True), k.real("lr2", pos=True), k.real("wd2", lo=0)
        par = S.Parameter(k.tensor("w", p_))
        opt = H.api("sparse_optimizers.sparse_lion:SparseLion")([par], lr=lr)
        opt.param_groups[0]["lr"] = lr2
        opt.param_groups[0]["weight_decay"] = wd2
        g = k.tensor("g", p_)
        w = par.snap()
        par.grad = g
        opt.step()
        k.equal(par, lambda i: upd(w((i,)), ZERO, g.at(i), lr2.p, wd2.p, const(Fraction(9, 10)), ZERO)[0], "current learning rate is used, default betas", shape=(p_,))
        k.equal(opt.state[par]["exp_avg"], lambda i: upd(w((i,)), ZERO, g.at(i), lr2.p, wd2.p, ZERO, const(Fraction(99, 100)))[1], "default beta2", shape=(p_,))
    H.case("changed learning rate and defaults", lrchange)

    def closure(k):
        """step(closure) evaluates the closure once, uses the gradients it produced and returns its result."""
        p_ = k.int("p")
        lr = k.real("lr", pos=True)
        par = S.Parameter(k.tensor("w", p_))
        opt = H.api("sparse_optimizers.sparse_lion:SparseLion")([par], lr=lr)
        g = k.tensor("g", p_)
        old = k.tensor("stale", p_)
        par.grad = old
        w = par.snap()
        calls = []
        mark = object()

        def fn():
            calls.append(par.snap())
            par.grad = g
            return mark
        r = opt.step(fn)
        k.fact(len(calls) == 1, "closure evaluated once", f"{len(calls)} calls")
        k.fact(r is mark, "result of the closure returned", repr(r))
        k.equal(par, lambda i: upd(w((i,)), ZERO, g.at(i), lr.p, ZERO, const(Fraction(9, 10)), ZERO)[0], "value after step(closure)", shape=(p_,))
        par.grad = None
        k.fact(opt.step() is None, "no closure: None returned", "")
    H.case("closure", closure)


# ------------------------------------------------------------------ C17
@prop("C17", contracts=())
def c17(H):
    def want_rows(n, r, normalize):
        """Expected rows for r rotations, in order: (guard range, row) groups."""
        groups = []
        for i in range(n):
            groups.append(("one", i))
            for j in range(i + 1, n):
                groups.append(("rot", i, j))
        return groups

    def mk(n, normalize, fixed=None):
        def body(k):
            r = k.int("r") if fixed is None else Sc(const(fixed), "i")
            kw = {} if normalize is None else {"normalize": normalize}
            lay, width = H.api("layers:fixed_rotation_layer")(n=n, rotations=r, **kw)
            wid = n + n * (n - 1) * (r.p - 1)
            k.eq(num(width), wid, "reported width")
            W = lay.weight
            k.shape(W, (Sc(wid, "i"), Sc(const(n), "i")), "number of outputs")
            k.fact(getattr(lay, "bias", None) is None, "no offset")
            k.fact(lay.weight.requires_grad is False, "weights are not trained", "requires_grad is set")
            qs = [k.int("q")] if fixed is None else [Sc(const(z), "i") for z in range(1, fixed)]     # 1 <= q < r
            base = ZERO
            for i in range(n):
                for c in range(n):
                    k.eq(W.at(base, const(c)), const(1 if c == i else 0), f"row of input {i}, column {c}")
                base = base + 1
                for j in range(i + 1, n):
                    for q in qs:
                        t = PI * HALF * div(q.p, r.p)
                        co, si = fn("cos", t), fn("sin", t)
                        d = (pabs(co) + pabs(si)) if normalize is not False else ONE
                        k.H.use_pre = None
                        c0 = E.ctx
                        E.ctx = c0.extend(lt(q.p, r.p))
                        z = "" if fixed is None else f" angle {q.p}"
                        try:
                            for c in range(n):
                                v1 = div(co, d) if c == i else div(si, d) if c == j else ZERO
                                v2 = div(si, d) if c == i else div(-co, d) if c == j else ZERO
                                at = base + (q.p - 1) * 2
                                k.eq(W.at(at, const(c)), v1, f"pair {i},{j} first combination, column {c}{z}")
                                k.eq(W.at(at + 1, const(c)), v2, f"pair {i},{j} orthogonal combination, column {c}{z}")
                        finally:
                            E.ctx = c0
                    base = base + (r.p - 1) * 2
            B = k.int("B")
            x = k.tensor("x", B, n)
            y = lay(x)
            k.equal(y, lambda b, o: Sum(const(n), lambda c: W.at(o, c) * x.at(b, c)), "output applies the weights", shape=(B, Sc(wid, "i")))
        H.case(f"n={n} normalize={normalize}{f' rotations={fixed}' if fixed else ''}", body, bounded=f"number of inputs n = {n}")
    for n in (1, 2, 3):
        for nz in (None, True, False):
            mk(n, nz)
    mk(4, True)
    mk(5, False)
    mk(6, None, 3)
    mk(9, True, 2)
    mk(10, False, 2)
    mk(13, None, 2)

    def refuse(k):
        r = k.int("r", lo=-1000)
        k.assume(lt(r.p, ONE))
        n = k.int("n")
        try:
            H.api("layers:fixed_rotation_layer")(n=2, rotations=r)
            ok = False
        except ValueError:
            ok = True
        k.fact(ok, "fewer than one rotation is refused", "no ValueError")
    H.case("refusal", refuse)

    def lemma(k):
        c, s, a, b = k.real("c"), k.real("s"), k.real("a"), k.real("b")
        k.assume(ge0(c.p), ge0(s.p), gt0(c.p + s.p), ge0(1 - a.p), ge0(1 + a.p), ge0(1 - b.p), ge0(1 + b.p))
        d = c.p + s.p
        for nm, v in (("first", c.p * a.p + s.p * b.p), ("orthogonal", s.p * a.p - c.p * b.p)):
            k.holds(ge0(d - v), f"{nm} combination at most 1")
            k.holds(ge0(d + v), f"{nm} combination at least -1")
    H.case("range lemma", lemma)


# ------------------------------------------------------------------ C21
class Opaque(S.Module):
    """An arbitrary differentiable module: output entries are uninterpreted functions of the whole
    input sample (named after the stub), so a caller can only use it through its contract."""

    def __init__(self, nm, shape_of, **attrs):
        super().__init__()
        self.nm_, self.shape_of_ = nm, shape_of
        for a, v in attrs.items():
            setattr(self, a, v)
        self.calls_ = 0

    def forward(self, x):
        c = x.snap()
        sh = self.shape_of_(x)
        tag = E.fresh_name(self.nm_)
        REC.append((self, tag, x, c))
        return TN.new(sh, lambda ix: app(self.nm_, (ix[0],) + tuple(ix[1:]) if False else ix), "f")


REC = []


@prop("C21", contracts=())
def c21(H):
    def mkvae(k):
        F_, Z, C, CH, HH, WW = k.ints("F Z C CH HH WW")
        enc = Opaque("enc", lambda x: (x._shape[0], F_.p), output_size=F_)
        dec = Opaque("dec", lambda x: (x._shape[0], CH.p, HH.p, WW.p), in_channels=C)
        v = H.api("networks:VanillaVAE")(latent_dim=Z, encoder=enc, decoder=dec)
        W = {}
        for nm, l in (("mu", v.fc_mu), ("var", v.fc_var), ("in", v.decoder_input)):
            W[nm] = (k.havoc(l.weight, "W" + nm), k.havoc(l.bias, "b" + nm))
        return v, enc, dec, F_, Z, C, CH, HH, WW, W

    def lin(W, n, xat):
        return lambda b, o: Sum(n, lambda i: W[0](o, i) * xat(b, i)) + W[1](o)

    def fwd(k):
        v, enc, dec, F_, Z, C, CH, HH, WW, W = mkvae(k)
        B = k.int("B")
        x = k.tensor("x", B, CH, HH, WW)
        REC.clear()
        E.randoms.clear()
        sn = k.snapshot(v, x)
        out = v(x)
        k.fact(len(out) == 4, "four results")
        rec, inp, mu, lv = out
        k.fact(len(REC) == 2 and REC[0][0] is enc and REC[1][0] is dec, "encoder then decoder, once each", str([r[1] for r in REC]))
        k.equal(inp, lambda *ix: x.at(*ix), "second result is the input", shape=x._shape)
        e_in = REC[0][2]
        k.equal(e_in, lambda *ix: x.at(*ix), "encoder sees the input", shape=x._shape)
        e_out = lambda b, i: app("enc", (b, i))
        wm, wl = lin(W["mu"], F_.p, e_out), lin(W["var"], F_.p, e_out)
        k.equal(mu, wm, "mean", shape=(B, Z))
        k.equal(lv, wl, "log-variance", shape=(B, Z))
        k.fact(len(E.randoms) == 1 and E.randoms[0][1] == "N01", "one standard normal draw", str(E.randoms))
        nz = E.randoms[0][0] if E.randoms else "none"
        z = lambda b, j: wm(b, j) + fn("exp", wl(b, j) * HALF) * app(nz, (b, j))
        k.equal(TN.new((B.p, C.p, ONE, ONE), lambda ix: REC[1][3](ix), "f"), lambda b, c, *_: Sum(Z.p, lambda j: W["in"][0](c, j) * z(b, j)) + W["in"][1](c),
                "decoder input is the projected latent sample", shape=(B, C, Sc(ONE, "i"), Sc(ONE, "i")))
        k.shape(REC[1][2], (B, C, Sc(ONE, "i"), Sc(ONE, "i")), "decoder input shape")
        k.equal(rec, lambda *ix: app("dec", ix), "first result is the decoder output", shape=(B, CH, HH, WW))
        k.unchanged(sn)
    H.case("forward", fwd)

    def rep(k):
        v = mkvae(k)[0]
        B, Z2 = k.int("B"), k.int("Z2")
        mu, lv = k.tensor("m", B, Z2), k.tensor("l", B, Z2)
        E.randoms.clear()
        sn = k.snapshot(mu, lv)
        z = v.reparameterize(mu, lv)
        k.fact(len(E.randoms) == 1 and E.randoms[0][1] == "N01", "one standard normal draw", str(E.randoms))
        nz = E.randoms[0][0] if E.randoms else "none"
        k.equal(z, lambda b, j: mu.at(b, j) + fn("exp", lv.at(b, j) * HALF) * app(nz, (b, j)), "latent sample", shape=(B, Z2))
        k.unchanged(sn, "mean and log-variance unchanged")
    H.case("reparameterize", rep)

    def loss(k):
        v, enc, dec, F_, Z, C, CH, HH, WW, W = mkvae(k)
        B = k.int("B")
        kw = k.real("kw")
        rec, inp = k.tensor("r", B, CH, HH, WW), k.tensor("x", B, CH, HH, WW)
        mu, lv = k.tensor("m", B, Z), k.tensor("l", B, Z)
        sn = k.snapshot(rec, inp, mu, lv)
        d = v.loss_function(rec, inp, mu, lv, M_N=kw)
        mse = div(Sum(B.p, lambda b: Sum(CH.p, lambda c: Sum(HH.p, lambda i: Sum(WW.p, lambda j: power(rec.at(b, c, i, j) - inp.at(b, c, i, j), 2))))), B.p * CH.p * HH.p * WW.p)
        kl = div(Sum(B.p, lambda b: Sum(Z.p, lambda j: 1 + lv.at(b, j) - power(mu.at(b, j), 2) - fn("exp", lv.at(b, j)))) * -HALF, B.p)
        k.eq(d["Reconstruction_Loss"].at(), mse, "mean squared reconstruction error")
        k.eq(d["KLD"].at(), -kl, "KLD entry is minus the batch mean divergence")
        k.eq(d["loss"].at(), mse + kw.p * kl, "loss")
        k.unchanged(sn, "arguments unchanged")
    H.case("loss", loss)

    def klpos(k):
        m, l = k.real("m"), k.real("l")
        t = (1 + l.p - power(m.p, 2) - fn("exp", l.p)) * -HALF
        k.holds(ge0(t), "divergence of one coordinate is never negative")
    H.case("divergence lemma", klpos)

    def sample(k):
        v, enc, dec, F_, Z, C, CH, HH, WW, W = mkvae(k)
        N = k.int("N")
        REC.clear()
        E.randoms.clear()
        y = v.sample(N)
        k.fact(len(E.randoms) == 1 and E.randoms[0][1] == "N01", "standard normal latent codes", str(E.randoms))
        nz = E.randoms[0][0]
        k.fact(len(REC) == 1 and REC[0][0] is dec, "decoded once")
        k.equal(TN.new(REC[0][2]._shape, lambda ix: REC[0][3](ix), "f"), lambda b, c, *_: Sum(Z.p, lambda j: W["in"][0](c, j) * app(nz, (b, j))) + W["in"][1](c),
                "decoder input is the projected latent sample", shape=(N, C, Sc(ONE, "i"), Sc(ONE, "i")))
        k.equal(y, lambda *ix: app("dec", ix), "result is the decoder output", shape=(N, CH, HH, WW))
    H.case("sample", sample)

    def generate(k):
        v, enc, dec, F_, Z, C, CH, HH, WW, W = mkvae(k)
        B = k.int("B")
        x = k.tensor("x", B, CH, HH, WW)
        y = v.generate(x)
        k.equal(y, lambda *ix: app("dec", ix), "reconstruction only", shape=(B, CH, HH, WW))
    H.case("generate", generate)


# ------------------------------------------------------------------ C22
@prop("C22", contracts=())
def c22(H):
    def emb(rank):
        def body(k):
            h = k.int("h")
            sh = k.ints(" ".join("BT"[:rank]))
            e = H.api("positional_embeddings:ClassicSinusoidalEmbedding")(h * 2)
            x = k.tensor("t", *sh)
            sn = k.snapshot(e, x)
            y = e(x)
            den = ite(lt(h.p - 1, ONE), ONE, h.p - 1)

            def spec(*ix):
                pos, q = ix[:-1], ix[-1]
                fr = lambda j: fn("exp", -(j * div(fn("log", const(10000)), den)))
                a = x.at(*pos)
                return ite(lt(q, h.p), fn("sin", a * fr(q)), fn("cos", a * fr(q - h.p)))
            k.equal(y, spec, "sines then cosines of geometric frequencies", shape=tuple(sh) + (h * 2,))
            k.unchanged(sn)
        H.case(f"sinusoidal rank {rank}", body)
    emb(1)
    emb(2)

    def odd(k):
        h = k.int("h", 0)
        try:
            H.api("positional_embeddings:ClassicSinusoidalEmbedding")(h * 2 + 1)
            ok = False
        except ValueError:
            ok = True
        k.fact(ok, "odd size is refused", "no ValueError")
    H.case("odd size", odd)

    def mesh(normalize):
        def body(k):
            W, Hh, r = k.int("W", 2), k.int("H", 2), k.int("r")
            kw = {} if normalize is None else {"normalize": normalize}
            ms = H.api("utils:positions_from_mesh")(W, Hh, rotations=r, device="cpu", **kw)
            k.eq(num(S.b_len(ms)), r.p * 2, "two meshes per rotation")
            q = k.int("q", 0)
            k.assume(lt(q.p, r.p))
            t = PI * HALF * div(q.p, r.p)
            c, s = fn("cos", t), fn("sin", t)
            m = ite(lt(W.p, Hh.p), Hh.p, W.p)
            lo, hi = (-m * HALF, m * HALF) if not normalize else (const(-1), ONE)
            for g, (u, mn, mx) in enumerate(((lambda i, j: c * i + s * j, ZERO, c * (W.p - 1) + s * (Hh.p - 1)),
                                             (lambda i, j: c * j - s * i, -s * (W.p - 1), c * (Hh.p - 1)))):
                M = ms[q * 2 + g]
                k.equal(M, lambda i, j: lo + div(u(i, j) - mn, mx - mn) * (hi - lo), "axis" if g == 0 else "orthogonal axis", shape=(W, Hh))
        H.case(f"mesh normalize={normalize}", body)
    for nz in (None, True, False):
        mesh(nz)
