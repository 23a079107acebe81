"""C19 networks, C20 tail focus: composition of layers known by their contracts.

Layer factories are replaced by their contracts: a layer is a deterministic function of its
input tensor with the configured widths (what it computes is the subject of C01-C10).  The
network code itself (construction and forward) is the real code."""
from ..harness import *
from ..spec import *
from .. import core as C
from . import prop


class Log:
    def __init__(self):
        self.n = 0
        self.made = []
        self.calls = []

    def first(self, kind):
        out = []
        for s in self.calls:
            if s.kind == kind and s not in out:
                out.append(s)
        return out


class Stub(S.Module):
    """Layer known by contract: result = a function of the whole input, with a shape law."""

    def __init__(self, log, kind, cfg, law):
        S.Module.__init__(self)
        d = self.__dict__
        d["nm"] = f"{kind}{log.n}"
        log.n += 1
        d["log"], d["kind"], d["cfg"], d["law"] = log, kind, cfg, law
        d["seen"] = []
        self._parameters["w"] = S.Parameter(TN.tensor_var(d["nm"] + "_w", (ONE,), "f"))
        log.made.append(self)

    def forward(self, x):
        self.log.calls.append(self)
        return self.value(x)

    def value(self, x):
        shp = self.law(x._shape, self.cfg)
        ix = [poly(mk_atom("var", (f"cn{q}",), "I")) for q in range(len(x._shape))]
        key = (tuple(expand_dims(poly(num(z))) for z in x._shape), PR.simp(E.ctx, x.at(*ix)))
        if key not in self.seen:
            self.seen.append(key)
        nm = f"{self.nm}#{self.seen.index(key)}"
        return TN.new(shp, lambda jx: app(nm, tuple(jx)), "f")

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def same(a, b):
    return TN.same_dim(a, b)


def fc_law(shape, cfg):
    if not same(shape[-1], dim(poly(num(cfg["in_features"])))):
        raise RuntimeError(f"layer expects {cfg['in_features']} inputs")
    return tuple(shape[:-1]) + (dim(poly(num(cfg["out_features"]))),)


def conv_law(shape, cfg):
    if not same(shape[1], dim(poly(num(cfg["in_channels"])))):
        raise RuntimeError(f"layer expects {cfg['in_channels']} channels")
    K, st, pad = (poly(num(cfg.get(z, d))) for z, d in (("kernel_size", None), ("stride", 1), ("padding", 0)))
    return (shape[0], dim(poly(num(cfg["out_channels"])))) + tuple(dim(floor(div(expand_dims(poly(num(w))) + pad * 2 - K, st)) + 1) for w in shape[2:])


def convt_law(shape, cfg):
    if not same(shape[1], dim(poly(num(cfg["in_channels"])))):
        raise RuntimeError(f"layer expects {cfg['in_channels']} channels")
    K, st, pad = (poly(num(cfg.get(z, d))) for z, d in (("kernel_size", None), ("stride", 1), ("padding", 0)))
    return (shape[0], dim(poly(num(cfg["out_channels"])))) + tuple(dim((expand_dims(poly(num(w))) - 1) * st - pad * 2 + K) for w in shape[2:])


def keep_law(shape, cfg):
    return shape


def install(H, log):
    """Replace the layer factories used by the networks by their contracts."""
    def factory(kind, law):
        def make(layer_type, **kw):
            return Stub(log, kind, dict(kw, layer_type=layer_type), law)
        return make

    def linear(in_features, out_features, bias=True, **kw):
        return Stub(log, "fc", dict(layer_type="linear", in_features=in_features, out_features=out_features, bias=bias), fc_law)
    for m in ("networks", "layers"):
        d = H.mod(m).__dict__
        for nm, kind, law in (("high_order_fc_layers", "fc", fc_law), ("high_order_convolution_layers", "conv", conv_law), ("high_order_convolution_transpose_layers", "conv", convt_law)):
            if nm in d:
                H.patch(d, nm, factory(kind, law))
        if m == "networks":
            for nm, v in list(d.items()):
                if v is S.nn.Linear:
                    H.patch(d, nm, linear)


def eqv(a, b):
    if a is b:
        return True
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    return PR.prove_eq(E.ctx, poly(num(a)), poly(num(b))).status == "proved"


def config(k, stub, nm, **want):
    for f, v in want.items():
        got = stub.cfg.get(f, None)
        k.fact(eqv(got, v), f"{nm}: configured {f}", f"{got} instead of {v}")


def registered(k, log, net):
    ms = {id(m) for m in net.modules()}
    ps = {id(p) for p in net.parameters()}
    sd = {id(p) for p in net.state_dict().values()}
    used = [s for s in log.made if s in log.calls]
    k.fact(all(id(s) in ms and id(s._parameters["w"]) in ps for s in used), "every weight used is a parameter of the network",
           str([s.nm for s in used if id(s) not in ms]))
    k.fact(all(id(s._parameters["w"]) in sd for s in used), "every weight used is saved with the network")
    k.fact(all(s._parameters["w"].requires_grad for s in used), "every weight used is trainable")


def add(a, b):
    return TN.new(a._shape, lambda ix: a.at(*ix) + b.at(*ix), "f")


def run(k, net, x):
    y = net(x)
    z = net(x)
    k.equal(z, lambda *ix: y.at(*ix), "second evaluation gives the same result")
    return y


def need(c, what):
    if not c:
        raise Unsupported(what)


@prop("C19", contracts=())
def c19(H):
    def norms(log, on, arg=False):
        if not on:
            return None
        return (lambda *a: Stub(log, "norm", dict(channels=a[0] if a else None), keep_law))

    def nl(log, on):
        return Stub(log, "nl", {}, keep_law) if on else None

    def seq_spec(fcs, nms, act, res, x, drop=False):
        """input fc, then per hidden layer [norm, activation] fc, then [norm, activation] output fc."""
        elems, ni = [lambda t: fcs[0].value(t)], 0
        for i, f in enumerate(fcs[1:]):
            if nms is not None:
                elems.append(nms[ni].value)
                ni += 1
            if act is not None:
                elems.append(act.value)
            if drop:
                elems.append(lambda t: t)
            hidden = i < len(fcs) - 2
            if res and hidden and i > 0:
                prev = elems[-1]
                elems.append(lambda t, f=f, prev=prev: add(f.value(t), prev(t)))
            else:
                elems.append(f.value)
        for e in elems:
            x = e(x)
        return x

    def mlp(hl, norm, act, res, per, tin=False, drop=False, low=False, dflt=""):
        def body(k):
            log = Log()
            install(H, log)
            I, O, W, B = k.ints("I O W B")
            n = k.int("n")
            ni, nh, no = (n if z in dflt else k.int("n_" + z) for z in ("in", "hidden", "out"))
            sc = k.real("scale", pos=True)
            si, sh, so = k.ints("si sh so")
            P = k.real("P", pos=True) if per else None
            nf, a = norms(log, norm), nl(log, act)
            if low:
                net = H.api("networks:LowOrderMLP")(I, O, hl, W, non_linearity=a, normalization=nf)
            else:
                kw = {"n_" + z: v for z, v in (("in", ni), ("hidden", nh), ("out", no)) if z not in dflt}
                if per:
                    kw.update(scale=sc, rescale_output=True)
                if tin:
                    kw["layer_type_in"] = "polynomial"
                if drop:
                    kw["dropout"] = 0.5
                net = H.api("networks:HighOrderMLP")("continuous", n, I, O, hl, W, in_segments=si, hidden_segments=sh, out_segments=so, periodicity=P, non_linearity=a,
                                                     normalization=nf, resnet=res, **kw)
            if drop:
                net.eval()
            x = k.tensor("x", B, I)
            y = run(k, net, x)
            fcs, nms = log.first("fc"), log.first("norm")
            k.fact(len(fcs) == hl + 2, "number of layers applied", f"{len(fcs)} instead of {hl + 2}")
            k.fact(len(nms) == (hl + 1 if norm else 0), "number of normalisations applied", f"{len(nms)}")
            if len(fcs) != hl + 2 or len(nms) != (hl + 1 if norm else 0):
                return
            for q, s in enumerate(fcs):
                w = dict(in_features=I if q == 0 else W, out_features=O if q == hl + 1 else W)
                if low:
                    w["bias"] = True
                else:
                    w.update(layer_type="polynomial" if tin and q == 0 else "continuous", periodicity=P,
                             n=ni if q == 0 else no if q == hl + 1 else nh, segments=si if q == 0 else so if q == hl + 1 else sh)
                    if per:
                        w.update(scale=sc, rescale_output=True)
                config(k, s, f"layer {q}", **w)
            want = seq_spec(fcs, nms if norm else None, a, res, x, drop)
            k.equal(y, lambda *ix: want.at(*ix), "composition of the configured layers", shape=(B, O))
            registered(k, log, net)
        t = "LowOrderMLP" if low else "HighOrderMLP"
        for f, z in ((norm, "normalised"), (act, "non-linearity"), (res, "resnet"), (per, "periodic"), (tin, "input type"), (drop, "dropout off in evaluation"), (dflt, f"default orders ({dflt})")):
            if f:
                t += " " + z
        H.case(f"{t} hidden={hl}", body, bounded=f"hidden_layers = {hl}; all widths, orders and segments unbounded")
    mlp(7, True, True, True, True)
    mlp(12, False, False, False, False, dflt="in out")
    mlp(7, True, True, False, False, low=True)
    mlp(2, False, True, False, False, dflt="in")
    mlp(2, False, True, False, True, dflt="hidden")
    mlp(2, False, True, True, False, dflt="out")
    mlp(2, False, False, False, False, dflt="hidden out")
    for hl in (0, 1, 2, 3, 5) if H.thorough else (0, 1, 3):
        for res in (False, True):
            for norm, act in ((False, False), (True, False), (False, True), (True, True)):
                mlp(hl, norm, act, res, per=norm, dflt="in hidden out" if hl == 1 else "")
                if not res:
                    mlp(hl, norm, act, False, False, low=True)
    mlp(2, True, True, False, True, tin=True)
    mlp(2, True, True, False, False, drop=True)
    mlp(2, False, False, True, False, drop=True)

    def mlplist(depth, norm, act, per):
        def body(k):
            log = Log()
            install(H, log)
            B = k.int("B")
            ws = [k.int(f"w{q}") for q in range(depth + 1)]
            ns, ss = [k.int(f"n{q}") for q in range(depth)], [k.int(f"s{q}") for q in range(depth)]
            ts = (["continuous", "discontinuous", "polynomial", "fourier"] * depth)[:depth]
            P = k.real("P", pos=True) if per else None
            sc = k.real("scale", pos=True)
            nf = [norms(log, q != 2) for q in range(depth)] if norm else None
            acts = [nl(log, q != 1) for q in range(depth)] if act else None
            net = H.api("networks:HighOrderMLPList")(TList(ts), TList(ns), TList(ws), TList(ss), periodicity=P, **(dict(scale=sc, rescale_output=True) if per else {}), non_linearity=TList(acts) if act else None, normalization=TList(nf) if norm else None)
            x = k.tensor("x", B, ws[0])
            y = run(k, net, x)
            fcs, nms = log.first("fc"), log.first("norm")
            k.fact(len(fcs) == depth, "number of layers applied", f"{len(fcs)}")
            if len(fcs) != depth:
                return
            for q, s in enumerate(fcs):
                config(k, s, f"layer {q}", in_features=ws[q], out_features=ws[q + 1], layer_type=ts[q], n=ns[q], segments=ss[q], periodicity=P, **(dict(scale=sc, rescale_output=True) if per else {}))
            t, ni = fcs[0].value(x), 0
            for q in range(1, depth):
                if norm and nf[q] is not None:
                    if ni >= len(nms):
                        k.fact(False, "number of normalisations applied", f"{len(nms)}")
                        return
                    t = nms[ni].value(t)
                    ni += 1
                if act and acts[q] is not None:
                    t = acts[q].value(t)
                t = fcs[q].value(t)
            k.fact(len(nms) == ni, "number of normalisations applied", f"{len(nms)}")
            k.equal(y, lambda *ix: t.at(*ix), "composition of the configured layers", shape=(B, ws[-1]))
            registered(k, log, net)
        H.case(f"HighOrderMLPList layers={depth}{' normalised' if norm else ''}{' non-linearity' if act else ''}{' periodic' if per else ''}", body, bounded=f"number of layers = {depth}")
    for depth in (1, 2, 4, 9):
        for norm, act in ((False, False), (True, True)):
            mlplist(depth, norm, act, norm)

    def listbad(k):
        log = Log()
        install(H, log)
        a, b, c, n, s = k.ints("a b c n s")
        k.raises(lambda: H.api("networks:HighOrderMLPList")(TList(["continuous"]), TList([n]), TList([a, b, c]), TList([s])), (ValueError,), "wrong number of widths is refused")
    H.case("HighOrderMLPList widths", listbad)

    def multi(reps, hl, norm, act, res, drop, dflt=""):
        def body(k):
            log = Log()
            install(H, log)
            I, O, W, B = k.ints("I O W B")
            n = k.int("n")
            ni, nh, no = (n if z in dflt else k.int("n_" + z) for z in ("in", "hidden", "out"))
            sc = k.real("scale", pos=True)
            si, sh, so = k.ints("si sh so")
            P = k.real("P", pos=True)
            nf, a = norms(log, norm), nl(log, act)
            net = H.api("networks:HighOrderMultiMLP")("continuous", n, reps, I, O, hl, W, **{"n_" + z: v for z, v in (("in", ni), ("hidden", nh), ("out", no)) if z not in dflt},
                                                      scale=sc, rescale_output=True, in_segments=si, hidden_segments=sh, out_segments=so,
                                                      periodicity=P, non_linearity=a, normalization=nf, resnet=res, **(dict(dropout=0.5) if drop else {}))
            if drop:
                net.eval()
            x = k.tensor("x", B, I)
            y = run(k, net, x)
            fcs, nms = log.first("fc"), log.first("norm")
            N, M = 2 + reps * (hl + 2), (2 + reps * (hl + 1) if norm else 0)
            k.fact(len(fcs) == N, "number of layers applied", f"{len(fcs)} instead of {N}")
            k.fact(len(nms) == M, "number of normalisations applied", f"{len(nms)} instead of {M}")
            if len(fcs) != N or len(nms) != M:
                return
            for q, s in enumerate(fcs):
                config(k, s, f"layer {q}", in_features=I if q == 0 else W, out_features=O if q == N - 1 else W, layer_type="continuous", periodicity=P,
                       n=ni if q == 0 else no if q == N - 1 else nh, segments=si if q == 0 else so if q == N - 1 else sh, scale=sc, rescale_output=True)
            t = fcs[0].value(x)
            t = nms[0].value(t) if norm else t
            t = a.value(t) if act else t
            tot = None
            for r in range(reps):
                f = fcs[1 + r * (hl + 2): 1 + (r + 1) * (hl + 2)]
                m = nms[1 + r * (hl + 1): 1 + (r + 1) * (hl + 1)]
                z = seq_spec(f, m if norm else None, a, res, t, drop)
                tot = z if tot is None else add(tot, z)
            t = nms[-1].value(tot) if norm else tot
            t = a.value(t) if act else t
            t = fcs[-1].value(t)
            k.equal(y, lambda *ix: t.at(*ix), "composition of the configured layers, replicas added", shape=(B, O))
            registered(k, log, net)
        H.case(f"HighOrderMultiMLP replicas={reps} hidden={hl}{' normalised' if norm else ''}{' non-linearity' if act else ''}{' resnet' if res else ''}{' dropout off' if drop else ''}{f' default orders ({dflt})' if dflt else ''}", body,
               bounded=f"replicas = {reps}, hidden_layers = {hl}")
    multi(1, 0, False, False, False, False)
    multi(2, 1, True, True, False, False)
    multi(3, 2, False, True, True, False)
    multi(2, 1, True, False, False, True)
    multi(7, 1, True, False, False, False, dflt="in")
    multi(12, 0, False, True, False, False, dflt="out")
    multi(2, 3, False, False, True, False, dflt="hidden")
    multi(1, 1, False, False, False, False, dflt="hidden out")
    multi(2, 1, False, False, False, False, dflt="in hidden out")

    def conv(depth, nd, norm, scalar, stride, deconv=False):
        def body(k):
            log = Log()
            install(H, log)
            B = k.int("B")
            ch = [k.int(f"c{q}") for q in range(depth + 1)]
            ns = [k.int("n")] * depth if scalar else [k.int(f"n{q}") for q in range(depth)]
            ss = [k.int("s")] * depth if scalar else [k.int(f"s{q}") for q in range(depth)]
            ks = [k.int(f"k{q}") for q in range(depth)]
            st = None if not stride else [k.int("t")] * depth if scalar else [k.int(f"t{q}") for q in range(depth)]
            pad = k.int("pad", 0)
            P = k.real("P", pos=True)
            ts = [f"continuous{nd}d"] * depth if scalar or deconv else ([f"continuous{nd}d", f"discontinuous{nd}d", f"polynomial{nd}d"] * depth)[:depth]
            kw = dict(periodicity=P, normalization=norms(log, norm), padding=pad, rescale_output=True)
            if stride:
                kw["stride"] = st[0] if scalar and not deconv else TList(st)
            D = [k.int(f"D{q}") for q in range(nd)]
            one = scalar and not deconv
            args = (ts[0] if scalar else TList(ts), ns[0] if one else TList(ns), TList(ch), ss[0] if one else TList(ss), TList(ks))
            for d in D:
                w = d.p
                for q in range(depth):
                    t = st[q].p if stride else ONE
                    if deconv:
                        k.assume(ge0((w - 1) * t - pad.p * 2 + ks[q].p - 1))
                        w = dim((expand_dims(poly(num(w))) - 1) * t - pad.p * 2 + ks[q].p)
                    else:
                        k.assume(ge0(w + pad.p * 2 - ks[q].p))
                        w = dim(floor(div(expand_dims(poly(num(w))) + pad.p * 2 - ks[q].p, t)) + 1)
            if deconv:
                net = H.api("networks:HighOrderFullyDeconvolutionalNetwork")(*args, **kw)
            else:
                net = H.api("networks:HighOrderFullyConvolutionalNetwork")(*args, pooling=f"{nd}d", **kw)
            x = k.tensor("x", B, ch[0], *D)
            y = run(k, net, x)
            cs, nms = log.first("conv"), log.first("norm")
            k.fact(len(cs) == depth, "number of layers applied", f"{len(cs)}")
            k.fact(len(nms) == (depth if norm else 0), "number of normalisations applied", f"{len(nms)}")
            if len(cs) != depth or len(nms) != (depth if norm else 0):
                return
            t = x
            for q, s in enumerate(cs):
                config(k, s, f"layer {q}", in_channels=ch[q], out_channels=ch[q + 1], layer_type=ts[q], n=ns[q], segments=ss[q], kernel_size=ks[q], periodicity=P,
                       stride=st[q] if stride else 1, padding=pad, rescale_output=True)
                t = s.value(t)
                if norm:
                    config(k, nms[q], f"normalisation {q}", channels=ch[q + 1])
                    t = nms[q].value(t)
            registered(k, log, net)
            if deconv:
                k.fact(eqv(net.in_channels, ch[0]), "reported input channels")
                k.equal(y, lambda *ix: t.at(*ix), "composition of the configured layers")
                return
            k.fact(eqv(net.output_size, ch[-1]), "reported output size")
            sp = [poly(num(z)) for z in t._shape[2:]]

            def mean(b, c):
                def go(q, ix):
                    if q == len(sp):
                        return t.at(b, c, *ix)
                    return Sum(sp[q], lambda v: go(q + 1, ix + [v]))
                r = go(0, [])
                for z in sp:
                    r = div(r, z)
                return r
            k.equal(y, mean, "channel means of the composition of the configured layers", shape=(B, ch[-1]))
        H.case(f"{'Deconvolutional' if deconv else 'Convolutional'} {nd}d layers={depth}{' normalised' if norm else ''}{' scalar settings' if scalar else ''}{' stride' if stride else ''}", body,
               bounded=f"number of layers = {depth}")
    conv(1, 1, False, True, False)
    conv(2, 2, True, False, True)
    conv(3, 1, True, True, True)
    conv(2, 3, False, False, False)
    conv(1, 2, False, False, False, True)
    conv(3, 2, True, False, True, True)
    conv(2, 2, True, True, False, True)
    conv(7, 1, True, False, True)
    conv(6, 2, False, False, True)
    conv(7, 1, False, True, False)
    conv(7, 2, True, False, True, True)

    def transform(low, norm):
        def body(k):
            log = Log()
            install(H, log)
            W, O, B, n, ni, nh, no, si, sh, so = k.ints("W O B n ni nh no si sh so")
            P = k.real("P", pos=True)
            fixed, width = H.api("layers:fixed_rotation_layer")(n=3, rotations=3)
            nf, a = norms(log, norm), nl(log, low)
            if low:
                net = H.api("networks:transform_low_mlp")(3, W, O, 1, a, nf, 3)
            else:
                net = H.api("networks:transform_mlp")("continuous", 3, W, O, n, ni, nh, no, si, sh, so, 1, 3, periodicity=P, normalization=nf)
            x = k.tensor("x", B, 3)
            y = run(k, net, x)
            fcs, nms = log.first("fc"), log.first("norm")
            k.fact(len(fcs) == 3 and len(nms) == (2 if norm else 0), "number of layers applied", f"{len(fcs)} {len(nms)}")
            if len(fcs) != 3 or len(nms) != (2 if norm else 0):
                return
            for q, s in enumerate(fcs):
                w = dict(in_features=width if q == 0 else W, out_features=O if q == 2 else W)
                if not low:
                    w.update(layer_type="continuous", n=(ni, nh, no)[q], segments=(si, sh, so)[q], periodicity=P)
                config(k, s, f"layer {q}", **w)
            t = seq_spec(fcs, nms if norm else None, a, False, fixed(x))
            k.equal(y, lambda *ix: t.at(*ix), "rotation followed by the network", shape=(B, O))
            registered(k, log, net)
        H.case(f"{'transform_low_mlp' if low else 'transform_mlp'}{' normalised' if norm else ''}", body, bounded="3 inputs, 3 rotations, one hidden layer")
    for low in (False, True):
        for norm in (False, True):
            transform(low, norm)

    def switch(kind, num_, norm):
        def body(k):
            log = Log()
            install(H, log)
            I, O, B, n, s = k.ints("I O B n s")
            st = Stub(log, "norm", {}, keep_law) if norm else None
            kw = {} if num_ is None else dict(num_input_layers=num_)
            lay = H.mod("layers").fc_layers[kind](n=n, in_features=I, out_features=O, segments=s, normalization=st, **kw)
            x = k.tensor("x", B, I)
            y = run(k, lay, x)
            fcs = log.first("fc")
            N = num_ or 2
            k.fact(len(fcs) == N, "number of sub-layers", f"{len(fcs)}")
            if len(fcs) != N:
                return
            for q, f in enumerate(fcs):
                config(k, f, f"sub-layer {q}", in_features=I, out_features=O, n=n, segments=s, layer_type=kind.split("_")[1])
            vs = [f.value(x) for f in fcs]
            t = TN.new(vs[0]._shape, lambda ix: prod([v.at(*ix) for v in vs]), "f")
            t = st.value(t) if norm else t
            k.equal(y, lambda *ix: t.at(*ix), "product of the sub-layers", shape=(B, O))
            k.fact(eqv(lay.in_features, I) and eqv(lay.out_features, O), "reported widths")
            registered(k, log, lay)
        H.case(f"{kind} factors={num_ or 2}{' normalised' if norm else ''}", body, bounded=f"number of factors = {num_ or 2}")
    for kind in ("switch_continuous", "switch_discontinuous"):
        switch(kind, None, False)
        switch(kind, 3, True)
        switch(kind, 1, False)
        switch(kind, 7, True)

    leaf(H)


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def leaf(H):
    """Layers: every trainable number that reaches the output is a registered parameter."""
    def mk(nm, build):
        def body(k):
            lay, x = build(k)
            y = lay(x)
            ix, ctx = k.idx(y._shape)
            c0 = E.ctx
            E.ctx = ctx
            used = {a.data[0] for a in all_atoms(y.at(*ix)) if a.kind == "app"} & {r[0] for r in E.randoms}
            E.ctx = c0
            have, grad = set(), True
            for p in lay.parameters():
                jx, _ = k.idx(p._shape)
                mine = {a.data[0] for a in all_atoms(p.at(*jx)) if a.kind == "app"}
                have |= mine
                if mine & used:
                    grad = grad and bool(p.requires_grad)
            k.fact(bool(used) and used <= have, "every weight used is a registered parameter", str(sorted(used - have)))
            k.fact(grad, "every weight used is trainable")
            sd = {id(p) for p in lay.state_dict().values()}
            k.fact(all(id(p) in sd for p in lay.parameters()), "every weight is saved")
        H.case(f"parameters of {nm}", body)

    def fcb(kind, **kw):
        def build(k):
            I, O, B, n, s = k.ints("I O B n s")
            a = dict(n=3 if kind == "fourier" else n, in_features=I, out_features=O, segments=s)
            a.update(kw)
            return H.api("layers:high_order_fc_layers")(kind, **a), k.tensor("x", B, I)
        mk(kind, build)
    for kind in ("baseline", "baseline_relu", "polynomial", "continuous", "discontinuous", "polynomial_prod", "continuous_prod", "discontinuous_prod", "product", "fourier",
                 "switch_continuous", "switch_discontinuous"):
        fcb(kind)

    def cb(kind, fn, nd):
        def build(k):
            C_, O, B, n, s, K = k.ints("C O B n s K")
            D = [k.int(f"D{q}") for q in range(nd)]
            for d in D:
                k.assume(ge0(d.p - K.p))
            lay = H.api("layers:" + fn)(kind, n=3 if "fourier" in kind else n, in_channels=C_, out_channels=O, segments=s, kernel_size=K)
            return lay, k.tensor("x", B, C_, *D)
        mk(fn.split("_", 2)[2] + " " + kind, build)
    for kind in ("polynomial", "continuous", "discontinuous", "fourier"):
        for nd in (1, 2):
            cb(f"{kind}{nd}d", "high_order_convolution_layers", nd)
    cb("continuous2d", "high_order_convolution_transpose_layers", 2)


@prop("C20", contracts=())
def c20(H):
    def stage_width(w, K, st, pad):
        return dim(floor(div(expand_dims(poly(num(w))) + pad.p * 2 - K.p, st)) + 1)

    def tail(depth, norm, scalar, stride, padded):
        def body(k):
            log = Log()
            install(H, log)
            B, W = k.ints("B W")
            ch = [k.int(f"c{q}") for q in range(depth + 1)]
            ns = [k.int("n")] * depth if scalar else [k.int(f"n{q}") for q in range(depth)]
            ss = [k.int("s")] * depth if scalar else [k.int(f"s{q}") for q in range(depth)]
            ks = [k.int(f"k{q}") for q in range(depth)]
            fs = [k.int("f")] * depth if scalar else [k.int(f"f{q}") for q in range(depth)]
            st = None if not stride else [k.int("t")] * depth if scalar else [k.int(f"t{q}") for q in range(depth)]
            pad = k.int("pad", 0) if padded else Sc(poly(0), "i")
            P = k.real("P", pos=True) if norm else None
            ts = ["continuous1d"] * depth if scalar else (["continuous1d", "discontinuous1d", "polynomial1d"] * depth)[:depth]
            ws = [W.p]
            for q in range(depth):
                t = st[q].p if stride else ONE
                k.assume(ge0(ws[q] - fs[q].p))
                k.assume(ge0(ws[q] + pad.p * 2 - ks[q].p))
                ws.append(stage_width(ws[q], ks[q], t, pad))
            nf = (lambda c: Stub(log, "norm", dict(channels=c), keep_law)) if norm else None
            kw = dict(periodicity=P, normalization=nf, focus=fs[0] if scalar else TList(fs), rescale_output=True)
            if stride:
                kw["stride"] = st[0] if scalar else TList(st)
            if padded:
                kw["padding"] = pad
            net = H.api("networks:HighOrderTailFocusNetwork")(ts[0] if scalar else TList(ts), ns[0] if scalar else TList(ns), TList(ch), ss[0] if scalar else TList(ss), TList(ks), **kw)
            x = k.tensor("x", B, ch[0], W)
            y = run(k, net, x)
            cs, nms = log.first("conv"), log.first("norm")
            k.fact(len(cs) == depth and len(nms) == (depth if norm else 0), "number of layers applied", f"{len(cs)} {len(nms)}")
            if len(cs) != depth or len(nms) != (depth if norm else 0):
                return
            stages = [x]
            for q, s in enumerate(cs):
                config(k, s, f"layer {q}", in_channels=ch[q], out_channels=ch[q + 1], layer_type=ts[q], n=ns[q], segments=ss[q], kernel_size=ks[q], periodicity=P,
                       stride=st[q] if stride else 1, padding=pad, rescale_output=True)
                t = s.value(stages[-1])
                if norm:
                    config(k, nms[q], f"normalisation {q}", channels=ch[q + 1])
                    t = nms[q].value(t)
                stages.append(t)
            registered(k, log, net)
            # the piece of each stage, in order
            pieces = [(stages[q], ch[q].p, fs[q].p) for q in range(depth)] + [(stages[-1], ch[-1].p, ws[-1])]
            widths, sizes = net.compute_sizes(W)
            k.fact(len(widths) == depth + 1 and len(sizes) == depth + 1, "number of predicted sizes")
            for q in range(depth + 1):
                k.eq(expand_dims(poly(num(widths[q]))), expand_dims(poly(num(stages[q]._shape[2]))), f"predicted width of stage {q}")
                k.eq(expand_dims(poly(num(sizes[q]))), pieces[q][1] * expand_dims(poly(num(pieces[q][2]))), f"predicted size of piece {q}")
            total = sum((p[1] * expand_dims(poly(num(p[2]))) for p in pieces[1:]), pieces[0][1] * expand_dims(poly(num(pieces[0][2]))))
            k.eq(expand_dims(poly(num(y._shape[1]))), total, "total size of the result")
            k.eq(y._shape[0], B.p, "batch size of the result")
            off = poly(0)
            for q, (t, c, f) in enumerate(pieces):
                f = expand_dims(poly(num(f)))
                w = expand_dims(poly(num(t._shape[2])))
                k.at(y, (B.p, c, f), lambda b, ci, v, off=off, f=f: (b, off + ci * f + v), lambda b, ci, v, t=t, w=w, f=f: t.at(b, ci, w - f + v), f"piece {q} of the result")
                off = off + c * f
        H.case(f"tail focus layers={depth}{' normalised' if norm else ''}{' scalar settings' if scalar else ''}{' stride' if stride else ''}{' padded' if padded else ''}", body,
               bounded=f"number of stages = {depth}")
    tail(1, False, True, False, False)
    tail(2, False, False, True, True)
    tail(3, True, True, True, False)
    tail(3, False, False, False, True)
    tail(2, True, False, True, True)
    tail(4, True, False, True, True)
    tail(7, True, False, False, True)
    tail(12, False, True, False, False)
