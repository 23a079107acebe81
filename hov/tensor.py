"""Symbolic tensors: storage = pure content function + families of writes."""
import itertools
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover as PR
from .core import *
from .core import E, Unsupported
from . import core as C


class Size(tuple):
    def numel(self):
        r = ONE
        for x in self:
            r = r * num(x)
        return mks(r, "i")

    def __getitem__(self, i):
        if isinstance(i, Sc):
            i = i.__index__()
        r = tuple.__getitem__(self, i)
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple.__add__(self, tuple(o)))

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)):
            return NotImplemented
        if len(self) != len(o):
            return False
        return all(bool(a == b) for a, b in zip(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = tuple.__hash__


class Content:
    """Pure function of an index tuple."""
    __slots__ = ("fn", "memo")

    def __init__(self, fn):
        self.fn = fn
        self.memo = {}

    def __call__(self, idx):
        r = self.memo.get(idx)
        if r is None:
            PR.check_deadline()
            r = self.fn(idx)
            self.memo[idx] = r
        return r


class Holder(Content):
    """Placeholder content of a storage inside a generic loop."""
    __slots__ = ("name",)

    def __init__(self, name, dtype):
        self.name = name
        Content.__init__(self, lambda idx: bapp(name, idx) if dtype == "b" else app(name, idx, "I" if dtype == "i" else "R"))


class Write(Content):
    """base overwritten at addr(vars) by val(vars) for all vars in range, guard.

    seq: sequential loop variables, outermost first; par: simultaneous ones.
    """
    __slots__ = ("base", "seq", "par", "addr", "val", "guard", "q", "hit", "res")

    def __init__(self, base, seq, par, addr, val, guard, dtype):
        self.base, self.seq, self.par = base, seq, par
        self.addr, self.val, self.guard = addr, val, guard
        self.q = tuple(fresh("q") for _ in addr)
        self.hit = self.res = None

        def f(idx):
            if self.hit is None:
                self.solve()
            s = dict(zip(self.q, idx))
            h = subst(self.hit, s)
            if h is FALSE:
                return base(idx)
            v = subst(self.res, s)
            if h is TRUE:
                return v
            old = base(idx)
            if dtype == "b":
                return bite(h, v, old)
            return ite(h, v, old)
        Content.__init__(self, f)

    def solve(self):
        q = [poly(a) for a in self.q]
        seq, par = list(self.seq), list(self.par)
        addr, val, guard = list(self.addr), self.val, self.guard
        hyp = []
        for v, n in seq + par:
            hyp += [ge0(poly(v)), ge0(n - 1 - poly(v))]
        ctx = E.base.extend(*hyp) if E.ctx is E.base else E.ctx.extend(*hyp)
        addr = [PR.simp(ctx, a) for a in addr]
        # radix split of parameters
        changed = True
        while changed:
            changed = False
            for v, n in list(par):
                M = None
                for a in addr:
                    M = M or PR.find_radix(v, a)
                if M is not None:
                    k = div(n, M)
                    if is_int(k) and len(k.t) == 1:
                        hi, lo = fresh("hi"), fresh("lo")
                        s = {v: poly(hi) * M + poly(lo)}
                        par = [(x, m) for x, m in par if x is not v] + [(hi, k), (lo, M)]
                        ctx = ctx.extend(ge0(poly(hi)), ge0(k - 1 - poly(hi)), ge0(poly(lo)), ge0(M - 1 - poly(lo)))
                        addr = [PR.simp(ctx, subst(a, s)) for a in addr]
                        val, guard = subst(val, s), subst(guard, s)
                        changed = True
                        break
        val, guard = PR.presimp(ctx, val), PR.presimp(ctx, guard)
        rng = {v: n for v, n in seq + par}
        seqset = [v for v, _ in seq]
        unk = list(rng)
        sol = {}
        conds = []
        eqs = [(a, b) for a, b in zip(addr, q)]     # a == b

        def apply(s):
            nonlocal eqs, sol, conds
            sol = {k: subst(x, s) for k, x in sol.items()}
            sol.update(s)
            eqs = [(subst(a, s), b) for a, b in eqs]
            conds = [subst(c, s) for c in conds]

        progress = True
        while progress and unk:
            progress = False
            for k, (a, b) in enumerate(eqs):
                us = [u for u in unk if u in a.free]
                if len(us) == 1:
                    u = us[0]
                    lc = PR.lin_coef(a, u)
                    if lc is None:
                        continue
                    c, rest = lc
                    if c == ONE or c == -ONE:
                        apply({u: (b - rest) if c == ONE else (rest - b)})
                    else:
                        w = floor(div(b - rest, c))
                        conds.append(eq(b - rest, c * w))
                        apply({u: w})
                    eqs.pop(k)
                    unk.remove(u)
                    progress = True
                    break
            if progress:
                continue
            for k, (a, b) in enumerate(eqs):
                us = [u for u in unk if u in a.free]
                if len(us) != 2:
                    continue
                done = False
                for u, v in (us, us[::-1]):
                    lu, lv = PR.lin_coef(a, u), PR.lin_coef(a, v)
                    if lu is None or lv is None or lv[0] != ONE or v in lu[0].free:
                        continue
                    M = lu[0]
                    rest = a - M * poly(u) - poly(v)
                    if u in rest.free or v in rest.free or not ctx.entails(gt0(M)):
                        continue
                    R = rng[v]
                    if v in R.free or u in R.free:
                        continue
                    if ctx.entails(ge0(M - R)):
                        w = floor(div(b - rest, M))
                    elif u in seqset and (v not in seqset or seqset.index(u) < seqset.index(v)) and guard is TRUE:
                        f = floor(div(b - rest, M))
                        w = ite(le(f, rng[u] - 1), f, rng[u] - 1)
                    else:
                        continue
                    apply({u: w, v: b - rest - M * w})
                    eqs.pop(k)
                    unk.remove(u)
                    unk.remove(v)
                    done = True
                    break
                if done:
                    progress = True
                    break
        for u in list(unk):
            if any(u in a.free for a, _ in eqs):
                raise Unsupported(f"cannot invert write address {[str(a) for a in addr]}")
            if u in seqset:
                if u in guard.free:
                    raise Unsupported("guarded repeated write")
                apply({u: rng[u] - 1})
            elif u in val.free:
                if E.ctx.entails(eq(rng[u], ONE)):
                    apply({u: ZERO})
                else:
                    raise Unsupported("duplicate indices in a simultaneous write")
            else:
                apply({u: ZERO})
        for a, b in eqs:
            conds.append(eq(a, b))
        for v, n in rng.items():
            w = sol[v]
            nn = subst(n, sol)
            conds += [ge0(w), ge0(nn - 1 - w)]
        conds.append(subst(guard, sol))
        self.hit = band(*conds)
        self.res = subst(val, sol)


_OPAQUE = [0]


class Storage:
    def __init__(self, shape, content, dtype):
        self.shape = tuple(shape)
        self.content = content if isinstance(content, Content) else Content(content)
        self.dtype = dtype
        self.stamp = E.tick()
        self.version = 0

    def set_content(self, c):
        old, ov = self.content, self.version

        def undo():
            self.content, self.version = old, ov
        E.log(undo)
        rec = C.LOOP_REC[-1] if C.LOOP_REC else None
        if rec is not None and self.stamp < rec.stamp:
            rec.storages.setdefault(self, old)
        self.content = c
        self.version = E.tick()

    def mk_placeholder(self, nm):
        return Holder(nm, self.dtype)

    # ---- generic loops
    def merge_chains(self, guards, chains, holder):
        """Per path content -> ('writes', [Write...]) or ('full', term fn)."""
        out = []
        for g, c in zip(guards, chains):
            ws = []
            while isinstance(c, Write):
                ws.append(c)
                c = c.base
            if c is not holder:
                out = None
                break
            out.append((g, list(reversed(ws))))
        if out is not None:
            recs = []
            for g, ws in out:
                for w in ws:
                    gg = w.guard if len(guards) == 1 else band(g, w.guard)
                    recs.append((w.seq, w.par, w.addr, w.val, gg))
            return ("writes", recs)
        def fn(idx):
            vals = [c(idx) for c in chains]
            r = vals[-1]
            for g, v in zip(reversed(guards[:-1]), reversed(vals[:-1])):
                r = bite(g, v, r) if self.dtype == "b" else ite(g, v, r)
            return r
        return ("full", fn)

    def close_full(self, nm, w, iv, ctx):
        if w[0] == "writes":
            return None
        pre = self.content
        q = tuple(fresh("q") for _ in self.shape)
        qp = tuple(poly(a) for a in q)
        hyp = []
        for a, n in zip(q, self.shape):
            hyp += [ge0(poly(a)), ge0(n - 1 - poly(a))]
        c2 = ctx.extend(*hyp)
        post = w[1](qp)
        if self.dtype == "b":
            return None
        me = app(nm, qp, "I" if self.dtype == "i" else "R").single_atom()
        return _close_term(me, nm, post, pre, q, iv, c2)

    def apply_loop(self, nm, w, closed, iv, n, fx, ctx):
        pre = self.content
        if w[0] == "full":
            if closed is None:
                raise Unsupported("in-place update in a generic loop without closed form")
            self.set_content(Content(lambda idx: closed(n, idx)))
            return
        recs = w[1]
        c = pre
        if len(recs) > 1:
            self._disjoint(recs, iv, n, ctx)
        for seq, par, addr, val, guard in recs:
            has = [a for a in all_atoms(val) | all_atoms(guard) if a.kind == "app" and a.data[0] == nm]
            if has:
                val, guard = self._own_reads(nm, pre, seq, par, addr, val, guard, iv, n, ctx)
            val, guard = fx(val), fx(guard)
            addr = tuple(fx(a) for a in addr)
            c = Write(c, ((iv, n),) + tuple(seq), tuple(par), addr, val, guard, self.dtype)
            if not C.LOOP_REC or self.stamp >= C.LOOP_REC[-1].stamp:
                c.solve()
        self.set_content(c)

    def _disjoint(self, recs, iv, n, ctx):
        """Different records of one iteration must not interfere across iterations."""
        for (s1, p1, a1, v1, g1), (s2, p2, a2, v2, g2) in itertools.combinations(recs, 2):
            hy = []
            ren = {}
            for v, m in tuple(s2) + tuple(p2) + ((iv, n),):
                ren[v] = poly(fresh("r"))
            for v, m in tuple(s1) + tuple(p1) + ((iv, n),):
                hy += [ge0(poly(v)), ge0(m - 1 - poly(v))]
            for v, m in tuple(s2) + tuple(p2) + ((iv, n),):
                w = ren[v]
                hy += [ge0(w), ge0(subst(m, ren) - 1 - w)]
            hy += [g1, subst(g2, ren)]
            c = ctx.extend(*hy)
            es = [poly(x) - subst(y, ren) for x, y in zip(a1, a2)]
            if not c.false and any(no_multiple(c, x) for x in es):
                continue
            c = c.extend(*[eq0(x) for x in es])
            if not (c.false or c.inconsistent()):
                # the same guard structure of one if/else is disjoint per iteration but
                # may still hit one address in two iterations
                raise Unsupported("two interfering writes in a generic loop")

    def _own_reads(self, nm, pre, seq, par, addr, val, guard, iv, n, ctx):
        """val reads this storage: allowed if it reads only addresses not written by
        other iterations."""
        hy = []
        allv = tuple(seq) + tuple(par) + ((iv, n),)
        ren = {v: poly(fresh("r")) for v, m in allv}
        for v, m in allv:
            hy += [ge0(poly(v)), ge0(m - 1 - poly(v)), ge0(ren[v]), ge0(subst(m, ren) - 1 - ren[v])]

        def rule(a):
            if a.kind == "app" and a.data[0] == nm:
                rd = a.data[1:]
                es = [eq(x, subst(y, ren)) for x, y in zip(rd, addr)]
                c = ctx.extend(*(hy + es + [guard, subst(guard, ren)]))
                ok = c.false or c.inconsistent()
                if not ok:
                    c1 = c
                    if not c1.entails(eq(ren[iv], poly(iv))):
                        raise Unsupported("loop reads memory written by another iteration")
                return pre(tuple(rd))
            return None
        return rewrite(val, rule), rewrite(guard, rule)


def same_term(a, b):
    return a == b or not PR.simp(E.ctx, a - b).t


def no_multiple(ctx, e):
    """e = d*P + R with integer d > 0, integer P and 0 < |R| < d: e cannot be zero."""
    for d in sorted({a for m, _ in e.t for a, k in m if k == 1 and a.sort == "I"}, key=lambda z: z.id):
        P, R = {}, {}
        for m, c in e.t:
            if dict(m).get(d) == 1:
                P[tuple(x for x in m if x[0] is not d)] = c
            else:
                R[m] = c
        P, R = from_dict(P), from_dict(R)
        if not R.t or d in P.free or d in R.free or not is_int(P) or not is_int(R):
            continue
        if ctx.entails(ge0(R - 1)) and ctx.entails(ge0(poly(d) - R - 1)):
            return True
        if ctx.entails(ge0(-R - 1)) and ctx.entails(ge0(poly(d) + R - 1)):
            return True
    return False


def _close_term(me, nm, post, pre, q, iv, ctx):
    """x_{i+1}(q) = post with x_i(q)=me: closed form f(k, idx) or None."""
    post = PR.simp(ctx, post)

    def uses(t):
        return any(a.kind == "app" and a.data[0] == nm for a in all_atoms(t))
    lin = T.linear_in(post, me, uses)
    if lin is None:
        return None
    A, B = (PR.simp(ctx, x) for x in lin)

    def f(k, idx):
        s = dict(zip(q, idx))
        return T.recurrence(A, B, pre(idx), k, lambda t, j: subst(t, {**s, iv: poly(j)}), same_term)
    return f


def same_dim(a, b):
    if a == b:
        return True
    d = expand_dims(a) - expand_dims(b)
    if not d.t:
        return True
    if d.is_const():
        return False
    return E.ctx.entails(eq0(d))


def is_one(a):
    return a == ONE


def broadcast(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for k in range(nd):
        dims = [s[len(s) - nd + k] for s in shapes if len(s) - nd + k >= 0]
        r = ONE
        for d in dims:
            if is_one(d):
                continue
            if is_one(r):
                r = d
            elif not same_dim(r, d):
                if E.ctx.entails(eq(d, ONE)):
                    continue
                if E.ctx.entails(eq(r, ONE)):
                    r = d
                    continue
                if E.frames and not E.ctx.entails(bnot(eq(d, ONE))) and E.decide(eq(d, ONE)):
                    continue
                if E.frames and not E.ctx.entails(bnot(eq(r, ONE))) and E.decide(eq(r, ONE)):
                    r = d
                    continue
                if E.frames and E.decide(eq(d, r)):
                    continue
                raise RuntimeError(f"The size of tensor a ({r}) must match the size of tensor b ({d})")
        out.append(r)
    return tuple(out)


def bidx(idx, shape):
    """Index of an operand of given shape for a broadcast result index."""
    k = len(idx) - len(shape)
    return tuple(ZERO if is_one(d) or (not is_one(d) and E.ctx.entails_one(d)) else i for d, i in zip(shape, idx[k:]))


def _entails_one(self, d):
    if d.is_const():
        return d == ONE
    key = ("one", d)
    r = self.cache.get(key)
    if r is None:
        r = self.entails(eq(d, ONE))
        self.cache[key] = r
    return r


PR.Ctx.entails_one = _entails_one


def mkbidx(shape):
    flags = [is_one(d) or E.ctx.entails_one(d) for d in shape]
    n = len(shape)

    def f(idx):
        k = len(idx) - n
        return tuple(ZERO if fl else i for fl, i in zip(flags, idx[k:]))
    return f


def prod_of(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


UNSET = object()


class Tensor:
    _is_param = False
    _input = False

    def __init__(self, st, shape=None, imap=None, dtype=None, contig=True):
        if type(self) is Tensor or isinstance(st, Storage):
            pass
        self.st = st
        self._shape = tuple(shape) if shape is not None else st.shape
        self.imap = imap
        self.dt = dtype or st.dtype
        self.contig = contig
        self._rg = None
        self._grad = UNSET
        self.mask = None
        self.grad_fn = None

    # ------------------------------------------------------------- basics
    @property
    def shape(self):
        return Size(mks(expand_dims(d), "i") for d in self._shape)

    def size(self, d=None):
        if d is None:
            return self.shape
        return self.shape[conc_slice(d)]

    @property
    def ndim(self):
        return len(self._shape)

    def dim(self):
        return len(self._shape)

    ndimension = dim

    def numel(self):
        return mks(expand_dims(prod_of(self._shape)), "i") if len(self._shape) else 1

    nelement = numel

    def nparts(self):
        return prod_of(self._shape)

    def __len__(self):
        return C.mks(self._shape[0], "i").__index__() if not isinstance(mks(self._shape[0], "i"), int) else mks(self._shape[0], "i")

    def sym_len(self):
        return mks(expand_dims(self._shape[0]), "i")

    @property
    def device(self):
        return "cpu"

    @property
    def is_cuda(self):
        return False

    @property
    def dtype(self):
        return DTYPES[self.dt] if self.dt != "f" else FLOATS

    @property
    def requires_grad(self):
        """Whether a tensor tracks gradients is up to the caller: both answers are verified."""
        if self._rg is None:
            return C.Sb(bapp("tracks_gradient", ())) if self.dt == "f" else False
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        self._rg = v

    @property
    def grad(self):
        """A gradient may or may not be present, unless the caller set it."""
        if self._grad is UNSET:
            if not self._is_param:
                return None
            self._grad = None
            if C.Sb(bapp("has_gradient", ())):
                self._grad = random_tensor(self._shape, "any")
        return self._grad

    @grad.setter
    def grad(self, v):
        self._grad = v

    @property
    def is_leaf(self):
        return True

    def snap(self):
        c, m = self.st.content, self.imap
        if self.mask is not None:
            return c if m is None else (lambda idx: c(m(idx)))
        if m is None:
            return c
        return lambda idx: c(m(idx))

    def at(self, *idx):
        idx = tuple(poly(num(i)) for i in idx)
        return self.snap()(idx)

    def _scalar(self):
        if not all(E.ctx.entails_one(d) for d in self._shape):
            raise Unsupported("non-scalar tensor used as a number")
        r = self.snap()(tuple(ZERO for _ in self._shape))
        return ite(r, ONE, ZERO) if self.dt == "b" else r

    def item(self):
        p = self._scalar()
        if self.dt == "b":
            return mkb(self.snap()(tuple(ZERO for _ in self._shape)))
        return mks(p, self.dt)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        n = self._shape[0]
        if n.is_const():
            return TList([self[i].tolist() for i in range(int(n.const()))])
        v = fresh("tl")
        c0 = E.ctx
        E.ctx = E.ctx.extend(ge0(poly(v)), lt(poly(v), n))
        try:
            return SymList([Seg(n, v, [self[Sc(poly(v), "i")].tolist()])])
        finally:
            E.ctx = c0

    def __bool__(self):
        if not all(E.ctx.entails_one(d) for d in self._shape):
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        r = self.snap()(tuple(ZERO for _ in self._shape))
        return bool(mkb(r)) if self.dt == "b" else bool(mks(r, self.dt) if not r.is_const() else r.const())

    def __index__(self):
        return Sc(self._scalar(), "i").__index__()

    def __float__(self):
        raise Unsupported("float(tensor)")

    def __repr__(self):
        return f"Tensor{self.shape}"

    def __hash__(self):
        return id(self)

    def __format__(self, s):
        return repr(self)

    def _symiter(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d tensor")
        n = PR.simp(E.ctx, self._shape[0])
        if n.is_const():
            return None
        return SymIter(n, lambda i: self[Sc(poly(i), "i") if not poly(i).is_const() else int(poly(i).const())])

    def __iter__(self):
        n = PR.simp(E.ctx, self._shape[0])
        if n.is_const():
            return iter([self[i] for i in range(int(n.const()))])
        raise Unsupported("native iteration over a symbolic tensor")

    def unbind(self, dim=0):
        dim = self._d(dim)
        t = self.transpose(0, dim) if dim else self
        n = self._shape[dim]
        if not n.is_const():
            v = fresh("ub")
            return SymList([Seg(n, v, [self._sel(dim, poly(v))])])
        return tuple(self._sel(dim, const(i)) for i in range(int(n.const())))

    # ------------------------------------------------------ loop protocol
    def _subst(self, f):
        c = self.snap()
        return new(tuple(f(d) for d in self._shape), lambda idx: f(c(idx)), self.dt)

    def _merge(self, cond, o, swapped):
        if not isinstance(o, Tensor):
            if isinstance(o, (Sc, int, float)) and not self._shape:
                o = wrap(o)
            else:
                raise Unsupported("merge of tensor with non-tensor")
        if len(o._shape) != len(self._shape) or not all(same_dim(a, b) for a, b in zip(self._shape, o._shape)):
            raise Unsupported("merge of tensors of different shape")
        a, b = self.snap(), o.snap()
        if swapped:
            a, b = b, a
        dt = promote(self.dt, o.dt)
        if dt == "b":
            return new(self._shape, lambda idx: bite(cond, a(idx), b(idx)), dt)
        return new(self._shape, lambda idx: ite(cond, a(idx), b(idx)), dt)

    def _freeze(self, stamp):
        if type(self) is Tensor and self.imap is None and self.st.stamp >= stamp and self.st.version > 0:
            return new(self._shape, self.snap(), self.dt)
        return self

    def _placeholder(self, name):
        if self.dt == "b":
            return None
        nm = E.fresh_name("acc_" + name)
        sort = "I" if self.dt == "i" else "R"
        t = new(self._shape, lambda idx: app(nm, idx, sort), self.dt)
        return t, ("T", nm)

    def _close(self, key, post, pre, iv, ctx):
        nm = key[1]
        if not isinstance(post, Tensor):
            return None
        shp = post._shape
        if len(shp) != len(self._shape) or not all(same_dim(a, b) for a, b in zip(shp, self._shape)):
            # broadcasting accumulators (e.g. 0-d start) are lifted when pre is constant over dims
            if len(shp) >= len(self._shape) and all(is_one(d) for d in self._shape):
                c = pre.snap()
                z = tuple(ZERO for _ in pre._shape)
                prec = lambda idx: c(z)
                q = tuple(fresh("q") for _ in shp)
                qp = tuple(poly(a) for a in q)
                me = app(nm, z, "I" if self.dt == "i" else "R").single_atom()
                term = post.snap()(qp)
                return _close_term(me, nm, term, prec, q, iv, ctx)
            return None
        q = tuple(fresh("q") for _ in shp)
        qp = tuple(poly(a) for a in q)
        hyp = []
        for a, n in zip(q, shp):
            hyp += [ge0(poly(a)), ge0(n - 1 - poly(a))]
        me = app(nm, qp, "I" if self.dt == "i" else "R").single_atom()
        return _close_term(me, nm, post.snap()(qp), pre.snap(), q, iv, ctx.extend(*hyp))

    def _from_closed(self, f, n):
        return new(self._shape, lambda idx: f(n, idx), self.dt)

    # -------------------------------------------------------- elementwise
    def _un(self, f, dt=None):
        c = self.snap()
        r = new(self._shape, lambda idx: f(c(idx)), dt or self.dt)
        r.mask = self.mask
        return r

    def _bin(self, o, f, dt=None, swap=False):
        return binop(self, o, f, dt, swap)

    def __add__(self, o):
        return binop(self, o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return binop(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return binop(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        if (self.dt == "b") and isinstance(o, Tensor) and o.dt == "b":
            return self & o
        return binop(self, o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return tdiv(self, o)

    def __rtruediv__(self, o):
        return tdiv(o, self)

    def __floordiv__(self, o):
        return binop(self, o, lambda a, b: floor(div(a, b)))

    def __rfloordiv__(self, o):
        return binop(o, self, lambda a, b: floor(div(a, b)))

    def __mod__(self, o):
        return binop(self, o, lambda a, b: mod(a, b))

    def __rmod__(self, o):
        return binop(o, self, lambda a, b: mod(a, b))

    remainder = __mod__

    def __pow__(self, o):
        return tpow(self, o)

    def __rpow__(self, o):
        if isinstance(o, (int, float, Sc)):
            base = num(o)
            return self._un(lambda x: app("pow", [base, x]), "f")
        return NotImplemented

    def pow(self, o):
        return tpow(self, o)

    def square(self):
        return self._un(lambda x: x * x)

    def __neg__(self):
        return self._un(lambda x: -x)

    neg = __neg__

    def __abs__(self):
        return self._un(pabs)

    abs = absolute = __abs__

    def add(self, o, alpha=1):
        return self + (o if alpha == 1 and is_num(alpha) else o * alpha)

    def sub(self, o, alpha=1):
        return self - (o if alpha == 1 and is_num(alpha) else o * alpha)

    def mul(self, o):
        return self * o

    multiply = mul

    def div(self, o, rounding_mode=None):
        return tdiv(self, o, rounding_mode)

    true_divide = div

    def floor_divide(self, o):
        return self // o

    def _cmp(self, o, f):
        return binop(self, o, f, "b")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        a = self
        if a.dt == "b" or isinstance(o, Tensor) and o.dt == "b" or isinstance(o, bool):
            a = to_num(a)
            o = to_num(o)
        return binop(a, o, eq, "b")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        a = self
        if a.dt == "b" or isinstance(o, Tensor) and o.dt == "b" or isinstance(o, bool):
            a = to_num(a)
            o = to_num(o)
        return binop(a, o, lambda a, b: bnot(eq(a, b)), "b")

    eq, ne = __eq__, __ne__

    def __lt__(self, o):
        return binop(self, o, lambda a, b: lt(a, b), "b")

    def __le__(self, o):
        return binop(self, o, lambda a, b: le(a, b), "b")

    def __gt__(self, o):
        return binop(self, o, lambda a, b: lt(b, a), "b")

    def __ge__(self, o):
        return binop(self, o, lambda a, b: le(b, a), "b")

    lt, le, gt, ge = __lt__, __le__, __gt__, __ge__

    def __and__(self, o):
        if self.dt != "b":
            raise Unsupported("bitwise and")
        return bbin(self, o, band)

    def __or__(self, o):
        if self.dt != "b":
            raise Unsupported("bitwise or")
        return bbin(self, o, bor)

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("bitwise not")
        return self._un(bnot)

    logical_not = __invert__
    logical_and, logical_or = __and__, __or__

    def long(self):
        if self.dt == "i":
            return self._un(lambda x: x)
        if self.dt == "b":
            return to_num(self)
        return self._un(ptrunc, "i")

    int = long
    trunc_ = None

    def trunc(self):
        return self._un(ptrunc, self.dt)

    fix = trunc

    def floor(self):
        return self._un(lambda x: floor(x), self.dt)

    def ceil(self):
        return self._un(lambda x: -floor(-x), self.dt)

    def float(self):
        if self.dt == "b":
            t = to_num(self)
            t.dt = "f"
            return t
        r = self._un(lambda x: x, "f")
        return r

    double = float

    def short(self):
        return self.to(DTYPES["int16"])

    def half(self):
        raise Unsupported("half precision")

    def bool(self):
        if self.dt == "b":
            return self
        return self._un(lambda x: bnot(eq0(x)), "b")

    def type(self, dt=None):
        return self.to(dt)

    def type_as(self, o):
        return self.to(o.dtype)

    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, Dt):
                r = {"f": self.float, "i": self.long, "b": self.bool}[x.k]()
                return r._un(x.wrap) if x.wrap is not None else r
            if type(x).__name__ == "Missing":
                raise Unsupported(f"conversion to {x._name}")
            if isinstance(x, Tensor):
                return {"f": self.float, "i": self.long, "b": self.bool}[x.dt]()
        return self

    def cpu(self):
        return self

    cuda = numpy_ = None

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = binop(r, min, lambda a, b: ite(le(b, a), a, b))
        if max is not None:
            r = binop(r, max, lambda a, b: ite(le(a, b), a, b))
        return r

    clip = clamp

    def clamp_min(self, min):
        return self.clamp(min=min)

    def clamp_max(self, max):
        return self.clamp(max=max)

    def relu(self):
        return self._un(lambda x: ite(ge0(x), x, ZERO))

    def cos(self):
        return self._un(lambda x: fn("cos", x), "f")

    def sin(self):
        return self._un(lambda x: fn("sin", x), "f")

    def exp(self):
        return self._un(pexp, "f")

    def log(self):
        return self._un(lambda x: fn("log", x), "f")

    def sqrt(self):
        return self._un(lambda x: fn("sqrt", x), "f")

    def tanh(self):
        return self._un(lambda x: fn("tanh", x), "f")

    def sigmoid(self):
        return self._un(lambda x: fn("sigmoid", x), "f")

    def sign(self):
        return self._un(psign)

    def reciprocal(self):
        return tdiv(1, self)

    def rsqrt(self):
        return tdiv(1, self.sqrt())

    def where(self, cond, o):
        return where(cond, self, o)

    def masked_fill(self, mask, v):
        return where(mask, mask_value(v), self)

    def masked_fill_(self, mask, v):
        r = where(mask, mask_value(v), self)
        return self._overwrite(r)

    # ---------------------------------------------------------- in place
    def _overwrite(self, r):
        """self[...] = r (r already broadcastable to self)."""
        if self.mask is not None:
            # temporary produced by masked selection: rebind
            self.st = Storage(self._shape, r.snap(), self.dt)
            self.imap = None
            return self
        if isinstance(r, Tensor) and len(r._shape) > len(self._shape):
            raise RuntimeError("output shape mismatch in in-place op")
        if isinstance(r, Tensor):
            bs = broadcast([self._shape, r._shape])
            if not all(same_dim(a, b) for a, b in zip(bs, self._shape)):
                raise RuntimeError("output with shape doesn't match the broadcast shape")
            c0 = r.snap()
            bi = mkbidx(r._shape)
            c = lambda idx: c0(bi(idx))
            if self.dt == "b" and r.dt != "b" or self.dt != "b" and r.dt == "b":
                raise Unsupported("in-place dtype mix")
            if self.dt == "i" and r.dt == "f":
                raise RuntimeError("result type Float can't be cast to the desired output type Long")
        else:
            p = num(r)
            c = lambda idx: p
        if self.imap is None:
            self.st.set_content(Content(c))
        else:
            write_family(self.st, self._shape, self.imap, c)
        return self

    def __iadd__(self, o):
        return self._overwrite(self + o)

    def __isub__(self, o):
        return self._overwrite(self - o)

    def __imul__(self, o):
        return self._overwrite(self * o)

    def __itruediv__(self, o):
        return self._overwrite(self / o)

    def add_(self, o, alpha=1):
        return self._overwrite(self.add(o, alpha=alpha))

    def sub_(self, o, alpha=1):
        return self._overwrite(self.sub(o, alpha=alpha))

    def mul_(self, o):
        return self._overwrite(self * o)

    def div_(self, o, rounding_mode=None):
        return self._overwrite(tdiv(self, o, rounding_mode))

    def sign_(self):
        return self._overwrite(self.sign())

    def abs_(self):
        return self._overwrite(self.abs())

    def neg_(self):
        return self._overwrite(-self)

    def clamp_(self, min=None, max=None):
        return self._overwrite(self.clamp(min, max))

    def zero_(self):
        return self._overwrite(0)

    def fill_(self, v):
        return self._overwrite(v)

    def copy_(self, o):
        if self.dt == "i" and o.dt == "f":
            o = o.long()
        return self._overwrite(o)

    def lerp(self, end, weight):
        return self + (end - self) * weight

    def lerp_(self, end, weight):
        return self._overwrite(self.lerp(end, weight))

    def addcmul(self, a, b, value=1):
        return self + a * b * value

    def uniform_(self, a=0.0, b=1.0):
        u = random_tensor(self._shape, "U01")
        a, b = num(a), num(b)
        return self._overwrite(u._un(lambda x: a + (b - a) * x))

    def normal_(self, mean=0.0, std=1.0):
        u = random_tensor(self._shape, "N01")
        a, b = num(mean), num(std)
        return self._overwrite(u._un(lambda x: a + b * x))

    @property
    def data(self):
        t = Tensor(self.st, self._shape, self.imap, self.dt, self.contig)
        return t

    @data.setter
    def data(self, v):
        rebind(self, v)

    def detach(self):
        t = Tensor(self.st, self._shape, self.imap, self.dt, self.contig)
        t._rg = False
        return t

    def clone(self, **k):
        return self._un(lambda x: x)

    def contiguous(self, **k):
        return self if self.contig else self._un(lambda x: x)

    def is_contiguous(self, **k):
        if self._input and self.contig:
            return C.Sb(bapp("input_contiguous", ()))
        return self.contig

    def requires_grad_(self, f=True):
        self.requires_grad = f
        return self

    def backward(self, *a, **k):
        raise Unsupported("backward")

    # ------------------------------------------------------------- views
    def _d(self, d):
        d = conc_slice(d)
        n = len(self._shape)
        if not -n <= d < n:
            raise IndexError("Dimension out of range")
        return d % n

    def _view(self, shape, f, contig=False):
        m = self.imap
        im = f if m is None else (lambda idx: m(f(idx)))
        t = Tensor(self.st, shape, im, self.dt, contig)
        return t

    def permute(self, *ds):
        if len(ds) == 1 and isinstance(ds[0], (tuple, list)):
            ds = tuple(ds[0])
        ds = [self._d(d) for d in ds]
        if sorted(ds) != list(range(len(self._shape))):
            raise RuntimeError("permute(sparse_coo): number of dimensions in the tensor input does not match")
        inv_ = [ds.index(k) for k in range(len(ds))]
        return self._view(tuple(self._shape[d] for d in ds), lambda idx: tuple(idx[k] for k in inv_), ds == sorted(ds) and self.contig)

    def transpose(self, a, b):
        ds = list(range(len(self._shape)))
        a, b = self._d(a), self._d(b)
        ds[a], ds[b] = ds[b], ds[a]
        return self.permute(*ds)

    swapaxes = transpose

    def movedim(self, a, b):
        a, b = self._d(a), self._d(b)
        ds = [k for k in range(len(self._shape)) if k != a]
        ds.insert(b, a)
        return self.permute(*ds)

    def t(self):
        return self.transpose(0, 1) if len(self._shape) == 2 else self

    @property
    def T(self):
        return self.permute(*reversed(range(len(self._shape))))

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def unsqueeze(self, d):
        n = len(self._shape)
        d = conc_slice(d)
        if not -n - 1 <= d <= n:
            raise IndexError("Dimension out of range")
        d = d % (n + 1)
        return self._view(self._shape[:d] + (ONE,) + self._shape[d:], lambda idx: idx[:d] + idx[d + 1:], self.contig)

    def squeeze(self, d=None):
        if d is None:
            keep = [k for k, s in enumerate(self._shape) if not E.ctx.entails_one(s)]
            if any(not E.ctx.entails(bnot(eq(self._shape[k], ONE))) and not self._shape[k].is_const() for k in keep):
                raise Unsupported("squeeze of a symbolic dimension")
        else:
            d = self._d(d)
            if not E.ctx.entails_one(self._shape[d]):
                if E.ctx.entails(bnot(eq(self._shape[d], ONE))):
                    return self
                if E.decide(eq(self._shape[d], ONE)):
                    pass
                else:
                    return self
            keep = [k for k in range(len(self._shape)) if k != d]

        def f(idx):
            out = [ZERO] * n
            for j, k in enumerate(keep):
                out[k] = idx[j]
            return tuple(out)
        n = len(self._shape)
        return self._view(tuple(self._shape[k] for k in keep), f, self.contig)

    def expand(self, *s):
        s = norm_shape(s)
        k = len(s) - len(self._shape)
        shape = []
        flags = []
        for j, d in enumerate(s):
            if j < k:
                shape.append(d)
                continue
            o = self._shape[j - k]
            if d == const(-1):
                shape.append(o)
                flags.append(E.ctx.entails_one(o))
            elif same_dim(o, d):
                shape.append(o)
                flags.append(E.ctx.entails_one(o))
            elif E.ctx.entails_one(o):
                shape.append(d)
                flags.append(True)
            else:
                raise RuntimeError(f"The expanded size of the tensor ({d}) must match the existing size ({o})")
        return self._view(tuple(shape), lambda idx: tuple(ZERO if f else i for f, i in zip(flags, idx[k:])))

    def expand_as(self, o):
        return self.expand(*o._shape)

    def broadcast_to(self, s):
        return self.expand(*s)

    def repeat(self, *s):
        s = norm_shape(s)
        k = len(s) - len(self._shape)
        if k < 0:
            raise RuntimeError("Number of dimensions of repeat dims can not be smaller")
        old = self._shape
        shape = tuple(d if j < k else d * old[j - k] for j, d in enumerate(s))
        c = self.snap()

        def f(idx):
            r = []
            for j, i in enumerate(idx):
                if j < k:
                    continue
                o = old[j - k]
                if is_one(o):
                    r.append(ZERO)
                elif is_one(s[j]):
                    r.append(i)
                else:
                    r.append(mod(i, o))
            return c(tuple(r))
        return new(shape, f, self.dt)

    def tile(self, *s):
        s = norm_shape(s)
        if len(s) < len(self._shape):
            s = (ONE,) * (len(self._shape) - len(s)) + s
        return self.repeat(*s)

    def repeat_interleave(self, r, dim=None):
        r = num(r)
        if dim is None:
            return self.flatten().repeat_interleave(mks(r, "i"), 0)
        d = self._d(dim)
        c = self.snap()
        shape = self._shape[:d] + (self._shape[d] * r,) + self._shape[d + 1:]
        return new(shape, lambda idx: c(idx[:d] + (floor(T.div(idx[d], r)),) + idx[d + 1:]), self.dt)

    def reshape(self, *s):
        return reshape(self, norm_shape(s))

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], Dt):
            return self.to(s[0])
        return reshape(self, norm_shape(s))

    def view_as(self, o):
        return reshape(self, o._shape)

    reshape_as = view_as

    def resize(self, *s):
        return reshape(self, norm_shape(s))

    def flatten(self, start_dim=0, end_dim=-1):
        if not self._shape:
            return reshape(self, (ONE,))
        a, b = self._d(start_dim), self._d(end_dim)
        return reshape(self, self._shape[:a] + (prod_of(self._shape[a:b + 1]),) + self._shape[b + 1:])

    ravel = flatten

    def unflatten(self, d, sizes):
        d = self._d(d)
        sz = norm_shape((sizes,))
        return reshape(self, self._shape[:d] + tuple(sz) + self._shape[d + 1:])

    def flip(self, *ds):
        if len(ds) == 1 and isinstance(ds[0], (tuple, list)):
            ds = ds[0]
        ds = [self._d(d) for d in ds]
        sh = self._shape
        c = self.snap()
        return new(sh, lambda idx: c(tuple(sh[k] - 1 - i if k in ds else i for k, i in enumerate(idx))), self.dt)

    def _sel(self, d, p):
        """Select index p along dim d."""
        return self._view(self._shape[:d] + self._shape[d + 1:], lambda idx: idx[:d] + (p,) + idx[d:], d == 0 and self.contig)

    def select(self, d, i):
        d = self._d(d)
        return self._sel(d, norm_index(num(i), self._shape[d]))

    def narrow(self, d, start, length):
        d = self._d(d)
        return self[(slice(None),) * d + (slice(start, start + length),)]

    def chunk(self, k, dim=0):
        d = self._d(dim)
        n = self._shape[d]
        q = T.div(n, const(k))
        if not is_int(q):
            raise Unsupported("chunk")
        return tuple(self[(slice(None),) * d + (slice(mks(q * j, "i"), mks(q * (j + 1), "i")),)] for j in range(k))

    def split(self, size, dim=0):
        d = self._d(dim)
        n = self._shape[d]
        if isinstance(size, (list, tuple)):
            out, o = [], ZERO
            for s in size:
                s = num(s)
                out.append(self[(slice(None),) * d + (slice(mks(o, "i"), mks(o + s, "i")),)])
                o = o + s
            return tuple(out)
        q = T.div(n, num(size))
        if not q.is_const():
            raise Unsupported("split")
        return self.chunk(int(q.const()), d)

    def diagonal(self, offset=0, dim1=0, dim2=1):
        if offset or (dim1, dim2) not in ((0, 1), (-2, -1)) or self.ndim != 2:
            raise Unsupported("diagonal")
        return self._view((self._shape[0],), lambda idx: (idx[0], idx[0]))

    def unfold(self, d, size, step):
        d = self._d(d)
        size, step = num(size), num(step)
        cnt = floor(T.div(self._shape[d] - size, step)) + 1
        return self._view(self._shape[:d] + (T.dim(cnt),) + self._shape[d + 1:] + (size,),
                          lambda idx: idx[:d] + (idx[d] * step + idx[-1],) + idx[d + 1:-1])

    # --------------------------------------------------------- reductions
    def _red(self, kind, dim, keepdim=False):
        c = self.snap()
        sh = self._shape
        if dim is None:
            ds = list(range(len(sh)))
        else:
            ds = [self._d(d) for d in (dim if isinstance(dim, (tuple, list)) else (dim,))]
        shape = tuple(ONE if k in ds else s for k, s in enumerate(sh)) if keepdim else tuple(s for k, s in enumerate(sh) if k not in ds)
        boolean = self.dt == "b"

        def f(idx):
            if keepdim:
                full = list(idx)
            else:
                full, it = [None] * len(sh), iter(idx)
                for k in range(len(sh)):
                    if k not in ds:
                        full[k] = next(it)
            vs = []
            for k in ds:
                v = fresh("r")
                vs.append((v, sh[k]))
                full[k] = poly(v)
            t = c(tuple(full))
            if boolean:
                t = ite(t, ONE, ZERO)
            for v, n in reversed(vs):
                t = binder(kind, v, expand_dims(n) if False else n, t)
            return t
        return new(shape, f, "i" if boolean else self.dt)

    def sum(self, dim=None, keepdim=False, dtype=None, axis=None):
        return self._red("sum", dim if axis is None else axis, keepdim)

    def prod(self, dim=None, keepdim=False, dtype=None, axis=None):
        return self._red("prod", dim if axis is None else axis, keepdim)

    def mean(self, dim=None, keepdim=False, dtype=None, axis=None):
        dim = dim if axis is None else axis
        ds = range(len(self._shape)) if dim is None else [self._d(d) for d in (dim if isinstance(dim, (tuple, list)) else (dim,))]
        n = prod_of([self._shape[d] for d in ds])
        r = self._red("sum", dim, keepdim)
        return r._un(lambda x: T.div(x, n), "f")

    def max(self, dim=None, keepdim=False):
        return tmax(self, dim, keepdim, "max")

    def min(self, dim=None, keepdim=False):
        return tmax(self, dim, keepdim, "min")

    def amax(self, dim=None, keepdim=False):
        return self._red("max", dim, keepdim)

    def amin(self, dim=None, keepdim=False):
        return self._red("min", dim, keepdim)

    def aminmax(self, dim=None, keepdim=False):
        return NT(self._red("min", dim, keepdim), self._red("max", dim, keepdim), ("min", "max"))

    def all(self, dim=None, keepdim=False):
        n = to_num(self)._red("min", dim, keepdim)
        return n._un(lambda x: bnot(eq0(x)), "b")

    def any(self, dim=None, keepdim=False):
        n = to_num(self)._red("max", dim, keepdim)
        return n._un(lambda x: bnot(eq0(x)), "b")

    def norm(self, p=2, dim=None, keepdim=False, dtype=None):
        p = num(p) if not isinstance(p, str) else (const(2) if p == "fro" else None)
        if p == const(2):
            return self.square().sum(dim, keepdim).sqrt()
        if p == const(1):
            return self.abs().sum(dim, keepdim)
        raise Unsupported("norm")

    def argmax(self, dim=None, keepdim=False):
        return tmax(self, dim, keepdim, "max")[1]

    def softmax(self, dim=-1, dtype=None):
        return softmax(self, dim)

    def cumsum(self, dim):
        d = self._d(dim)
        c = self.snap()

        def f(idx):
            v = fresh("cs")
            return binder("sum", v, idx[d] + 1, c(idx[:d] + (poly(v),) + idx[d + 1:]))
        return new(self._shape, f, self.dt)

    def gather(self, dim, index):
        return gather(self, dim, index)

    def index_select(self, dim, index):
        d = self._d(dim)
        return self[(slice(None),) * d + (index,)]

    def matmul(self, o):
        return matmul(self, o)

    __matmul__ = matmul

    def bmm(self, o):
        return matmul(self, o)

    mm = mv = dot = bmm

    def new_zeros(self, *s, **k):
        return full(norm_shape(s), ZERO, "f")

    def new_ones(self, *s, **k):
        return full(norm_shape(s), ONE, "f")

    def new_full(self, s, v, **k):
        return full(norm_shape((s,)), num(v), "f")

    def new_tensor(self, v, **k):
        return as_tensor(v)

    def new_empty(self, *s, **k):
        return random_tensor(norm_shape(s), "any")

    def register_hook(self, f):
        raise Unsupported("hook")

    def scatter(self, dim, index, src):
        r = self.clone()
        r.scatter_(dim, index, src)
        return r

    def scatter_(self, dim, index, src):
        d = self._d(dim)
        ic = index.snap()
        if isinstance(src, Tensor):
            sc = src.snap()
        else:
            p = num(src)
            sc = lambda idx: p
        base = self.imap or (lambda idx: idx)
        write_family(self.st, index._shape, lambda idx: base(idx[:d] + (ic(idx),) + idx[d + 1:]), sc)
        return self

    def index_copy_(self, dim, index, src):
        d = self._d(dim)
        self[(slice(None),) * d + (index,)] = src
        return self

    def masked_select(self, m):
        return self[m]

    def numpy(self):
        return self

    # ------------------------------------------------------------ indexing
    def __getitem__(self, ix):
        r = index_plan(self, ix)
        if r[0] == "mask":
            m = r[1]
            t = new(self._shape, self.snap(), self.dt)
            t.mask = m
            return t
        _, shape, f, adv, contig = r
        if adv:
            c = self.snap()
            return new(shape, lambda idx: c(f(idx)), self.dt)
        return self._view(shape, f, contig)

    def __setitem__(self, ix, v):
        r = index_plan(self, ix)
        if r[0] == "mask":
            m = r[1]
            mc = m.snap()
            c = self.snap()
            if isinstance(v, Tensor):
                if v.mask is not None:
                    if v.mask is not m and v.mask.st is not m.st:
                        raise Unsupported("masked assignment with a different mask")
                    vc = v.snap()
                elif all(E.ctx.entails_one(d) for d in v._shape):
                    z = v._scalar()
                    vc = lambda idx: z
                else:
                    raise Unsupported("masked assignment of a dense tensor")
            else:
                z = num(v)
                vc = lambda idx: z
            k = len(m._shape)
            t = new(self._shape, lambda idx: ite(mc(idx[:k]), vc(idx), c(idx)), self.dt)
            self._overwrite(t)
            return
        _, shape, f, adv, contig = r
        base = self.imap
        g = f if base is None else (lambda idx: base(f(idx)))
        if isinstance(v, Tensor):
            vs = v._shape
            if len(vs) > len(shape):
                # torch allows leading ones
                while len(vs) > len(shape) and E.ctx.entails_one(vs[0]):
                    v = v.squeeze(0)
                    vs = v._shape
                if len(vs) > len(shape):
                    raise RuntimeError("shape mismatch in assignment")
            bs = broadcast([shape, vs])
            if not all(same_dim(a, b) for a, b in zip(bs, shape)):
                raise RuntimeError(f"shape mismatch: value tensor of shape {vs} cannot be broadcast to indexing result of shape {shape}")
            if self.dt == "i" and v.dt == "f":
                v = v.long()
            c0 = v.snap()
            bi = mkbidx(vs)
            c = lambda idx: c0(bi(idx))
        else:
            p = tob(v) if self.dt == "b" else num(v)
            c = lambda idx: p
        write_family(self.st, shape, g, c)


class Dt:
    """An element type.  Floating types are real numbers; FLOATS is the type of the caller's tensors,
    of which only the kind is known (comparing it with a particular type gives either answer)."""

    def __init__(self, name, k, wrap=None):
        self.name, self.k, self.wrap = name, k, wrap

    def __repr__(self):
        return "torch." + self.name

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if not isinstance(o, Dt):
            return False
        if (self is FLOATS) != (o is FLOATS) and self.k == o.k == "f":
            return C.Sb(bapp("element_type_is_" + (o if self is FLOATS else self).name, ()))
        return self is o

    def __ne__(self, o):
        r = self == o
        return C.Sb(bnot(r.b)) if isinstance(r, C.Sb) else not r

    @property
    def is_floating_point(self):
        return self.k == "f"

    @property
    def itemsize(self):
        raise Unsupported("element size")


def _wrap(bits, signed):
    m, h = const(2 ** bits), const(2 ** (bits - 1) if signed else 0)
    return lambda x: mod(x + h, m) - h


FLOATS = Dt("float", "f")
DTYPES = {"f": Dt("float32", "f"), "i": Dt("int64", "i"), "b": Dt("bool", "b"), "double": Dt("float64", "f"), "int32": Dt("int32", "i"),
          "int16": Dt("int16", "i", _wrap(16, True)), "int8": Dt("int8", "i", _wrap(8, True)), "uint8": Dt("uint8", "i", _wrap(8, False))}


class NT(tuple):
    def __new__(cls, a, b, names=("values", "indices")):
        t = tuple.__new__(cls, (a, b))
        setattr(t, names[0], a)
        setattr(t, names[1], b)
        return t


class Mod2:
    pass


def rebind(t, v):
    old = (t.st, t._shape, t.imap, t.dt, t.contig)

    def undo():
        t.st, t._shape, t.imap, t.dt, t.contig = old
    E.log(undo)
    if C.LOOP_REC:
        raise Unsupported(".data assignment inside a generic loop")
    t.st, t._shape, t.imap, t.dt, t.contig = v.st, v._shape, v.imap, v.dt, v.contig


def new(shape, f, dt):
    shape = tuple(shape)
    return Tensor(Storage(shape, Content(f), dt))


def full(shape, p, dt):
    return new(shape, lambda idx: p, dt)


def promote(a, b):
    o = "bif"
    return o[max(o.index(a), o.index(b))]


def to_num(x):
    if isinstance(x, Tensor):
        if x.dt == "b":
            return x._un(lambda b: ite(b, ONE, ZERO), "i")
        return x
    if isinstance(x, (bool, Sb)):
        return mks(num(x), "i")
    return x


def binop(a, b, f, dt=None, swap=False):
    if isinstance(a, Tensor) and isinstance(b, Tensor):
        if a.dt == "b":
            a = to_num(a)
        if b.dt == "b":
            b = to_num(b)
        if (a.mask is None) != (b.mask is None):
            x = b if a.mask is not None else a
            if not all(E.ctx.entails_one(d) for d in x._shape):
                raise Unsupported("operation between masked and dense tensors")
        if a.mask is not None and b.mask is not None and a.mask.st is not b.mask.st:
            raise Unsupported("operation between differently masked tensors")
        shape = broadcast([a._shape, b._shape])
        ca, cb = a.snap(), b.snap()
        ia, ib = mkbidx(a._shape), mkbidx(b._shape)
        d = dt or promote(a.dt, b.dt)
        if shape == a._shape == b._shape:
            r = new(shape, lambda idx: f(ca(idx), cb(idx)), d)
        else:
            r = new(shape, lambda idx: f(ca(ia(idx)), cb(ib(idx))), d)
        r.mask = a.mask if a.mask is not None else b.mask
        return r
    if isinstance(a, Tensor):
        if b is None or isinstance(b, (str, list, tuple, dict)):
            raise TypeError(f"unsupported operand type(s): 'Tensor' and '{type(b).__name__}'")
        a = to_num(a)
        p = num(b)
        ca = a.snap()
        r = new(a._shape, lambda idx: f(ca(idx), p), dt or promote(a.dt, kind_of(b)))
        r.mask = a.mask
        return r
    if a is None or isinstance(a, (str, list, tuple, dict)):
        raise TypeError(f"unsupported operand type(s): '{type(a).__name__}' and 'Tensor'")
    b = to_num(b)
    p = num(a)
    cb = b.snap()
    r = new(b._shape, lambda idx: f(p, cb(idx)), dt or promote(b.dt, kind_of(a)))
    r.mask = b.mask
    return r


def bbin(a, b, f):
    if not isinstance(b, Tensor):
        q = tob(b)
        return a._un(lambda x: f(x, q))
    shape = broadcast([a._shape, b._shape])
    ca, cb = a.snap(), b.snap()
    ia, ib = mkbidx(a._shape), mkbidx(b._shape)
    return new(shape, lambda idx: f(ca(ia(idx)), cb(ib(idx))), "b")


def generic_idx(shape):
    """Fresh index variables and their bounds."""
    vs = tuple(fresh("e") for _ in shape)
    hyp = []
    for v, n in zip(vs, shape):
        hyp += [ge0(poly(v)), ge0(n - 1 - poly(v))]
    return tuple(poly(v) for v in vs), hyp


CHECK_DIV = [True]


def tdiv(a, b, rounding_mode=None):
    if CHECK_DIV[0]:
        if isinstance(b, Tensor):
            if b.mask is None:
                idx, hyp = generic_idx(b._shape)
                t = to_num(b).snap()(idx)
                c0 = E.ctx
                E.ctx = c0.extend(*hyp)
                try:
                    if not E.ctx.false:
                        nonzero_t(t)
                finally:
                    E.ctx = c0
        else:
            nonzero(num(b))
    if rounding_mode is None:
        return binop(a, b, lambda x, y: div(x, y), "f")
    if rounding_mode == "floor":
        return binop(a, b, lambda x, y: floor(div(x, y)))
    if rounding_mode == "trunc":
        return binop(a, b, lambda x, y: ptrunc(div(x, y)))
    raise RuntimeError("div expected rounding_mode to be one of None, 'trunc', or 'floor'")


def nonzero_t(t):
    if t.is_const():
        if t.const() == 0:
            raise SideFail("division by zero", None)
        return
    E.oblige("nonzero divisor", bnot(eq0(t)))


def tpow(a, o):
    if isinstance(o, Tensor):
        if all(E.ctx.entails_one(d) for d in o._shape) and o._scalar().is_const():
            o = mks(o._scalar(), o.dt)
        else:
            return binop(a, o, lambda x, y: app("pow", [x, y]), "f")
    if isinstance(o, (int, float, Sc, Fraction)):
        p = num(o)
        if p.is_const():
            c = p.const()
            if c.denominator == 1:
                return a._un(lambda x: power(x, int(c)))
            if c == Fraction(1, 2):
                return a.sqrt()
            if c == Fraction(-1, 2):
                return a.rsqrt()
        return a._un(lambda x: app("pow", [x, p]), "f")
    raise Unsupported("pow")


def psign(x):
    if x.is_const():
        return const((x.const() > 0) - (x.const() < 0))
    return ite(gt0(x), ONE, ite(eq0(x), ZERO, -ONE))


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where(cond)")
    if not isinstance(c, Tensor):
        raise TypeError("where(): argument 'condition' must be Tensor")
    ts = []
    for x in (a, b):
        ts.append(x if isinstance(x, Tensor) else wrap(x))
    a, b = ts
    if c.dt != "b":
        c = c.bool()
    shape = broadcast([c._shape, a._shape, b._shape])
    cc, ca, cb = c.snap(), a.snap(), b.snap()
    ic, ia, ib = mkbidx(c._shape), mkbidx(a._shape), mkbidx(b._shape)
    dt = promote(a.dt, b.dt)
    if dt == "b":
        return new(shape, lambda idx: bite(cc(ic(idx)), ca(ia(idx)), cb(ib(idx))), dt)

    def f(idx):
        k = cc(ic(idx))
        if k is TRUE:
            return ca(ia(idx))
        if k is FALSE:
            return cb(ib(idx))
        return ite(k, ca(ia(idx)), cb(ib(idx)))
    return new(shape, f, dt)


NINF = app("neg_infinity", [])


def has_ninf(x):
    z = NINF.single_atom()
    return any(a is z for a in all_atoms(x))


def pexp(x):
    # exp(-inf) = 0
    if x == NINF:
        return ZERO
    for a in x.atoms():
        # a finite mask value selected by a condition counts as -inf (see mask_value)
        if a.kind == "ite":
            c, p, q = a.data
            if hidden(p) or hidden(q):
                x = replace_atom(x, a, ite(c, NINF if hidden(p) else p,
                                           NINF if hidden(q) else q))
    if not has_ninf(x):
        return fn("exp", x)
    z = NINF.single_atom()
    for a in x.atoms():
        if a.kind == "ite" and a is not z and has_ninf(poly(a)):
            c, p, q = a.data
            return ite(c, pexp(replace_atom(x, a, p)), pexp(replace_atom(x, a, q)))
    co = ZERO
    for m, c in x.t:
        d = dict(m)
        if z in d:
            if d[z] != 1:
                raise Unsupported("arithmetic with -inf")
            co = co + of_mono(tuple(y for y in m if y[0] is not z), c)
    if not E.ctx.entails(gt0(co)):
        raise Unsupported("arithmetic with -inf")
    return ZERO


def replace_atom(x, a, p):
    out = ZERO
    for m, c in x.t:
        d = dict(m)
        e = d.get(a, 0)
        t = of_mono(tuple(y for y in m if y[0] is not a), c)
        if e < 0:
            raise Unsupported("arithmetic with -inf")
        for _ in range(e):
            t = t * p
        out = out + t
    return out


def mask_value(v):
    """-inf, or a finite constant so negative that exp of it is 0 next to any ordinary score
    (assumption: unmasked scores are above half of it)."""
    if isinstance(v, (bool, Tensor)) or isinstance(v, float) and v == float("-inf"):
        return v
    return float("-inf") if hidden(num(v)) else v


def hidden(p):
    return p.is_const() and p.const() <= -10 ** 8


def wrap(x):
    if isinstance(x, float) and x == float("-inf"):
        return full((), NINF, "f")
    if isinstance(x, (bool, Sb)):
        b = tob(x)
        return new((), lambda idx: b, "b")
    return full((), num(x), kind_of(x))


def norm_shape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = tuple(s[0])
    if len(s) == 1 and isinstance(s[0], SymList):
        raise Unsupported("symbolic rank")
    out = []
    for x in s:
        p = num(x)
        if not is_int(p) and not p.is_const():
            p2 = PR.simp(E.ctx, p)
            if not is_int(p2):
                if isinstance(x, Sc) and x.k == "f":
                    raise TypeError("size must be int")
            p = p2
        if isinstance(x, Sc) and x.k == "f" or isinstance(x, float):
            raise TypeError("size must be int, not float")
        out.append(dim(p))
    return tuple(out)


def norm_index(p, n):
    """Python index semantics for a (possibly negative) index."""
    if p.is_const():
        return p + n if p.const() < 0 else p
    if E.ctx.entails_fast(ge0(p)):
        return p
    if E.ctx.entails_fast(gt0(-p)):
        return p + n
    return ite(ge0(p), p, p + n)


def check_bounds(p, n, what="index in bounds"):
    if p.is_const() and n.is_const():
        if not 0 <= p.const() < n.const():
            raise IndexError("index out of range")
        return
    E.oblige(what, band(ge0(p), ge0(n - 1 - p)))


def reshape(t, s):
    old = t._shape
    s = list(s)
    neg = [k for k, d in enumerate(s) if d == const(-1)]
    total = prod_of(old)
    if len(neg) > 1:
        raise RuntimeError("only one dimension can be inferred")
    if neg:
        rest = prod_of([d for k, d in enumerate(s) if k != neg[0]])
        q = div(total, rest)
        if not is_int(q):
            q = exact_div(total, rest)
            if q is None:
                raise Unsupported(f"reshape: cannot infer {total} / {rest}")
        s[neg[0]] = dim(q)
    else:
        if not same_dim(prod_of(s), total):
            d = expand_dims(prod_of(s)) - expand_dims(total)
            if d.is_const() or any(ne_num(d, env) for env in E.ctx.samples(6, 5)):
                raise RuntimeError(f"shape '{s}' is invalid for input of size {total}")
            raise Unsupported(f"reshape {old} -> {s}")
    s = tuple(s)
    if s == old:
        return Tensor(t.st, t._shape, t.imap, t.dt, t.contig)
    groups = align(old, s)

    def f(idx):
        out = []
        for (o0, o1), (n0, n1) in groups:
            o, nn = old[o0:o1], s[n0:n1]
            ix = idx[n0:n1]
            if len(o) == len(nn) and all(a == b for a, b in zip(o, nn)):
                out.extend(ix)
                continue
            # drop unit dims
            flat = ZERO
            for i, d in zip(ix, nn):
                flat = flat * d + i
            res = []
            rem = flat
            for k in range(len(o) - 1, -1, -1):
                if k == 0:
                    res.append(rem)
                elif is_one(o[k]):
                    res.append(ZERO)
                else:
                    qq = floor(div(rem, o[k]))
                    res.append(rem - o[k] * qq)
                    rem = qq
            out.extend(reversed(res))
        return tuple(out)
    if t.contig:
        return t._view(s, f, True)
    c = t.snap()
    return new(s, lambda idx: c(f(idx)), t.dt)


def ne_num(d, env):
    try:
        return PR.ev(d, env) != 0
    except PR.EvalError:
        return False


def exact_div(a, b):
    q = div(dim(expand_dims(a)), dim(expand_dims(b)))
    if is_int(q):
        return q
    q = PR.simp(E.ctx, div(a, b))
    if is_int(q):
        return q
    # provable with equalities of the context
    for h in E.ctx.hyps:
        pass
    return None


def align(old, s):
    """Split both shapes in groups of equal product."""
    groups = []
    i = j = 0
    while i < len(old) or j < len(s):
        i0, j0 = i, j
        if i < len(old) and j < len(s) and old[i] == s[j]:
            groups.append(((i, i + 1), (j, j + 1)))
            i += 1
            j += 1
            continue
        best = None
        po = ONE
        for a in range(i, len(old) + 1):
            if a > i:
                po = po * old[a - 1]
            ps = ONE
            for b in range(j, len(s) + 1):
                if b > j:
                    ps = ps * s[b - 1]
                if (a > i or b > j) and (a > i and b > j or (po == ONE and ps == ONE)) and (po == ps or not (expand_dims(po) - expand_dims(ps)).t):
                    key = (a - i) + (b - j)
                    if best is None or key < best[0]:
                        best = (key, a, b)
        if best is None:
            groups.append(((i, len(old)), (j, len(s))))
            return groups
        groups.append(((i, best[1]), (j, best[2])))
        i, j = best[1], best[2]
    return groups


def index_plan(t, ix):
    """-> ('ix', shape, f, advanced?, contig) or ('mask', maskTensor)."""
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = [x for x in ix]
    # boolean mask
    bm = [x for x in ix if isinstance(x, Tensor) and x.dt == "b"]
    if bm:
        if len(ix) == 1 and len(bm[0]._shape) <= len(t._shape):
            m = bm[0]
            if len(m._shape) != len(t._shape):
                raise Unsupported("partial boolean mask")
            for a, b in zip(m._shape, t._shape):
                if not same_dim(a, b):
                    raise IndexError("The shape of the mask does not match")
            return ("mask", m)
        raise Unsupported("boolean mask in a compound index")
    ix = [as_tensor(x) if isinstance(x, (list, SymList)) else x for x in ix]
    ncons = sum(1 for x in ix if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in ix if not isinstance(x, (Tensor, Sc))]:
        k = [j for j, x in enumerate(ix) if x is Ellipsis][0]
        ix = ix[:k] + [slice(None)] * (len(t._shape) - ncons) + ix[k + 1:]
    else:
        ix = ix + [slice(None)] * (len(t._shape) - ncons)
    if sum(1 for x in ix if x is not None) > len(t._shape):
        raise IndexError("too many indices for tensor")
    # each entry: ('new',), ('sel', p), ('slice', start, step, len), ('adv', tensor)
    plan = []
    d = 0
    for x in ix:
        if x is None:
            plan.append(("new",))
            continue
        n = t._shape[d]
        if isinstance(x, slice):
            plan.append(slice_plan(x, n))
        elif isinstance(x, Tensor) and x._shape != ():
            plan.append(("adv", x, n))
        else:
            if isinstance(x, Tensor):
                p = x._scalar()
            elif isinstance(x, (int, Sc)) and not isinstance(x, bool):
                if isinstance(x, Sc) and x.k == "f":
                    raise TypeError("indices must be integers")
                p = num(x)
            else:
                raise Unsupported(f"index {type(x).__name__}")
            p = norm_index(p, n)
            check_bounds(p, n)
            plan.append(("sel", p))
        d += 1
    advs = [(k, e) for k, e in enumerate(plan) if e[0] == "adv"]
    if not advs:
        shape = []
        for e in plan:
            if e[0] == "new":
                shape.append(ONE)
            elif e[0] == "slice":
                shape.append(e[3])

        def f(idx):
            out = []
            j = 0
            for e in plan:
                if e[0] == "new":
                    j += 1
                elif e[0] == "sel":
                    out.append(e[1])
                else:
                    out.append(e[1] + e[2] * idx[j])
                    j += 1
            return tuple(out)
        contig = False
        return ("ix", tuple(shape), f, False, contig)
    # advanced indexing
    bshape = broadcast([e[1]._shape for _, e in advs])
    nb = len(bshape)
    for _, e in advs:
        tidx, hyp = generic_idx(e[1]._shape)
        c0 = E.ctx
        E.ctx = c0.extend(*hyp)
        try:
            if not E.ctx.false:
                p = e[1].snap()(tidx)
                n = e[2]
                p = PR.simp(E.ctx, p)
                E.oblige("index in bounds", band(ge0(p), ge0(n - 1 - p))) if not (p.is_const() and n.is_const()) else None
        finally:
            E.ctx = c0
    # positions: contiguous block of adv (sel counts as adv between) -> in place; else front
    ks = [k for k, e in advs]
    block = all(plan[k][0] in ("adv", "sel") for k in range(ks[0], ks[-1] + 1))
    pos = ks[0] if block else None
    # int selections adjacent also take part in numpy; with sels only to the left of block torch behaves the same
    if block:
        # leading position counts result dims before
        lead = sum(1 for e in plan[:ks[0]] if e[0] in ("new", "slice"))
    else:
        lead = 0
    shape = []
    rest = []
    for k, e in enumerate(plan):
        if e[0] == "new":
            rest.append((k, ONE))
        elif e[0] == "slice":
            rest.append((k, e[3]))
    shape = [s for _, s in rest]
    shape = tuple(shape[:lead]) + tuple(bshape) + tuple(shape[lead:])
    snaps = {k: (e[1].snap(), mkbidx(e[1]._shape), e[2]) for k, e in advs}

    def f(idx):
        b = idx[lead:lead + nb]
        r = idx[:lead] + idx[lead + nb:]
        out = []
        j = 0
        for k, e in enumerate(plan):
            if e[0] == "new":
                j += 1
            elif e[0] == "sel":
                out.append(e[1])
            elif e[0] == "slice":
                out.append(e[1] + e[2] * r[j])
                j += 1
            else:
                c, bi, n = snaps[k]
                p = c(bi(b))
                out.append(p)
        return tuple(out)
    return ("ix", shape, f, True, True)


def slice_plan(s, n):
    step = ONE if s.step is None else num(s.step)
    if step.is_const() and step.const() <= 0:
        raise ValueError("step must be greater than zero")

    def bound(x, default):
        if x is None:
            return default
        p = num(x)
        if p.is_const():
            if p.const() < 0:
                p = p + n
                if not E.ctx.entails(ge0(p)):
                    p = ite(ge0(p), p, ZERO)
                return p
            if E.ctx.entails(ge0(n - p)):
                return p
            return ite(ge0(n - p), p, n)
        if not E.ctx.entails(ge0(p)):
            if E.ctx.entails(gt0(-p)):
                p = p + n
            else:
                p = ite(ge0(p), p, p + n)
            if not E.ctx.entails(ge0(p)):
                p = ite(ge0(p), p, ZERO)
        if not E.ctx.entails(ge0(n - p)):
            if E.ctx.entails(ge0(p - n)):
                return n
            p = ite(ge0(n - p), p, n)
        return p
    start, stop = bound(s.start, ZERO), bound(s.stop, n)
    ln = stop - start
    if step != ONE:
        ln = -floor(div(-ln, step))
    ln = PR.simp(E.ctx, ln)
    if not E.ctx.entails(ge0(ln)):
        if E.ctx.entails(ge0(-ln)):
            ln = ZERO
        elif E.frames and E.decide(ge0(ln)):
            pass
        else:
            ln = ZERO
    return ("slice", start, step, dim(ln))


def write_family(st, shape, f, c):
    vs = tuple(fresh("p") for _ in shape)
    idx = tuple(poly(v) for v in vs)
    par = tuple((v, n) for v, n in zip(vs, shape))
    par2 = []
    s = {}
    for v, n in par:
        if is_one(n):
            s[v] = ZERO
        else:
            par2.append((v, n))
    idx = tuple(subst(i, s) if s else i for i in idx)
    addr = f(idx)
    val = c(idx)
    w = Write(st.content, (), tuple(par2), addr, val, TRUE, st.dtype)
    if not C.LOOP_REC or st.stamp >= C.LOOP_REC[-1].stamp:
        w.solve()       # fail early (not inside a loop that owns the write)
    st.set_content(w)


def random_tensor(shape, kind):
    nm = E.fresh_name({"U01": "rand", "N01": "randn", "any": "uninit"}[kind])
    E.randoms.append((nm, kind))
    args = tuple(E.loop_args())
    if kind == "U01":
        PR.FACTS[nm] = lambda args: [ge0(app(nm, args)), gt0(1 - app(nm, args))]
        PR.CORNER_RANGE[nm] = lambda args: (ZERO, ONE)
        PR.UNIT.add(nm)
    return new(shape, lambda idx: app(nm, args + tuple(idx)), "f")


def random_scalar(kind="U01"):
    return Sc(random_tensor((), kind).at(), "f")


def as_tensor(v, dt=None):
    t = _as_tensor(v)
    if dt is not None and (dt.k != t.dt or dt.wrap is not None):
        t = t.to(dt)
    return t


def _as_tensor(v):
    v = fwd(v) if isinstance(v, list) else v
    if isinstance(v, Tensor):
        return v._un(lambda x: x)
    if isinstance(v, (list, tuple)):
        if not v:
            return full((ZERO,), ZERO, "f")
        return stack([_as_tensor(x) for x in v], 0)
    if isinstance(v, SYMS):
        sl = v if isinstance(v, SymList) else None
        if sl is None:
            n = v.length()
            return new((dim(n),), lambda idx: num(v.get(idx[0])), "i")
        parts = [p if isinstance(p, list) else Seg(p.n, p.v, [_as_tensor(x) for x in p.items]) for p in sl.parts]
        return stack(SymList([TList([_as_tensor(x) for x in p]) if isinstance(p, list) else p for p in parts]), 0)
    return wrap(v)


def list_access(ts):
    """(length P, element getter idx-> (cases)) for stacking."""


def stack(ts, dim=0):
    ts = fwd(ts) if isinstance(ts, list) else ts
    if isinstance(ts, SymIter):
        v = fresh("st")
        ts = SymList([Seg(ts.n, v, [ts.get(poly(v))])])
    if isinstance(ts, SymList):
        items = []
        for p in ts.parts:
            items.extend(p if isinstance(p, list) else p.items)
    else:
        items = list(ts)
    if not items:
        raise RuntimeError("stack expects a non-empty TensorList")
    for x in items:
        if not isinstance(x, Tensor):
            raise TypeError(f"expected Tensor as element in argument 0, but got {type(x).__name__}")
    sh = items[0]._shape
    for x in items[1:]:
        if len(x._shape) != len(sh) or not all(same_dim(a, b) for a, b in zip(x._shape, sh)):
            raise RuntimeError("stack expects each tensor to be equal size")
    nd = len(sh)
    d = dim % (nd + 1)
    dt = items[0].dt
    for x in items[1:]:
        dt = promote(dt, x.dt)
    sel, n = selector(ts, dt)
    return new(sh[:d] + (T.dim(n),) + sh[d:], lambda idx: sel(idx[d], idx[:d] + idx[d + 1:]), dt)


def selector(ts, dt):
    """function (list index, element index) -> term."""
    parts = ts.parts if isinstance(ts, SymList) else [list(ts)]
    flat = []          # (kind, ...)
    off = ZERO
    for p in parts:
        if isinstance(p, list):
            for x in p:
                flat.append(("one", off, x.snap()))
                off = off + 1
        else:
            flat.append(("seg", off, p.n, p.v, [x.snap() for x in p.items]))
            off = off + p.n * len(p.items)
    it = bite if dt == "b" else ite

    def sel(i, idx):
        if i.is_const():
            for e in flat:
                if e[0] == "one" and e[1] == i:
                    return e[2](idx)
        res = None
        for k, e in reversed(list(enumerate(flat))):
            if e[0] == "one":
                v = e[2](idx)
                c = eq(i, e[1])
            else:
                _, o, n, var, cs = e
                r = i - o
                m = len(cs)
                if m == 1:
                    v = subst(cs[0](idx), {var: r})
                else:
                    g = floor(div(r, const(m)))
                    v = subst(cs[-1](idx), {var: g})
                    for t in range(m - 2, -1, -1):
                        v = it(eq(r - g * m, const(t)), subst(cs[t](idx), {var: g}), v)
                c = lt(i, o + n * m)
            res = v if res is None else it(c, v, res)
        return res
    return sel, off


def cat(ts, dim=0):
    ts = fwd(ts) if isinstance(ts, list) else ts
    if isinstance(ts, SymList) and not (len(ts.parts) == 1 and isinstance(ts.parts[0], list)):
        items = []
        for p in ts.parts:
            items.extend(p if isinstance(p, list) else p.items)
        sh = items[0]._shape
        d = dim % len(sh)
        w = sh[d]
        for p in ts.parts:
            if not isinstance(p, list):
                if any(p.v in x._shape[d].free for x in p.items):
                    raise Unsupported("cat of tensors of varying size")
        if not all(same_dim(x._shape[d], w) for x in items):
            raise Unsupported("cat of a symbolic list of different sizes")
        dt = items[0].dt
        sel, n = selector(ts, dt)

        def f(idx):
            if is_one(w):
                return sel(idx[d], idx[:d] + (ZERO,) + idx[d + 1:])
            q = floor(div(idx[d], w))
            return sel(q, idx[:d] + (idx[d] - q * w,) + idx[d + 1:])
        return new(sh[:d] + (T.dim(n * w),) + sh[d + 1:], f, dt)
    items = list(ts)
    if not items:
        raise RuntimeError("expected a non-empty list of Tensors")
    sh = items[0]._shape
    d = dim % len(sh)
    dt = items[0].dt
    for x in items[1:]:
        dt = promote(dt, x.dt)
        if len(x._shape) != len(sh) or not all(same_dim(a, b) for k, (a, b) in enumerate(zip(x._shape, sh)) if k != d):
            raise RuntimeError("Sizes of tensors must match except in dimension")
    offs, o = [], ZERO
    for x in items:
        offs.append(o)
        o = o + expand_dims(x._shape[d])
    snaps = [x.snap() for x in items]
    it = bite if dt == "b" else ite

    def f(idx):
        i = idx[d]
        r = snaps[-1](idx[:d] + (i - offs[-1],) + idx[d + 1:])
        for k in range(len(items) - 2, -1, -1):
            r = it(lt(i, offs[k + 1]), snaps[k](idx[:d] + (i - offs[k],) + idx[d + 1:]), r)
        return r
    return new(sh[:d] + (T.dim(o),) + sh[d + 1:], f, dt)


def tmax(t, dim, keepdim, kind):
    if dim is None:
        return t._red(kind, None)
    if isinstance(dim, Tensor):
        return binop(t, dim, (lambda a, b: ite(le(b, a), a, b)) if kind == "max" else (lambda a, b: ite(le(a, b), a, b)))
    v = t._red(kind, dim, keepdim)
    nm = E.fresh_name("arg" + kind)
    ind = new(v._shape, lambda idx: app(nm, idx, "I"), "i")
    return NT(v, ind)


def softmax(t, dim):
    d = t._d(dim)
    c = t.snap()
    n = t._shape[d]

    def f(idx):
        v = fresh("sm")
        den = binder("sum", v, n, pexp(c(idx[:d] + (poly(v),) + idx[d + 1:])))
        return pexp(c(idx)) * inv(den) if den.t else ZERO
    return new(t._shape, f, "f")


def gather(t, dim, index):
    d = t._d(dim)
    c, ic = t.snap(), index.snap()
    if len(index._shape) != len(t._shape):
        raise RuntimeError("Index tensor must have the same number of dimensions as input tensor")
    idx, hyp = generic_idx(index._shape)
    c0 = E.ctx
    E.ctx = c0.extend(*hyp)
    try:
        if not E.ctx.false:
            p = PR.simp(E.ctx, ic(idx))
            check_bounds(p, t._shape[d])
            for k, (a, b) in enumerate(zip(index._shape, t._shape)):
                if k != d and not same_dim(a, b):
                    E.oblige("gather size", ge0(b - a))
    finally:
        E.ctx = c0
    return new(index._shape, lambda idx: c(idx[:d] + (ic(idx),) + idx[d + 1:]), t.dt)


def einsum(spec, *ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = tuple(ts[0])
    if isinstance(spec, str):
        spec = spec.replace(" ", "")
    else:
        raise Unsupported("einsum sublist format")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        letters = ins.replace(",", "")
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ts):
        raise RuntimeError("einsum(): more operands were provided than specified in the equation")
    if "." in spec:
        nd = 0
        for s, t in zip(ins, ts):
            if "..." in s:
                nd = max(nd, len(t._shape) - (len(s) - 3))
        pool = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in spec]
        ell = "".join(pool[:nd])
        ni = []
        for s, t in zip(ins, ts):
            if "..." in s:
                k = len(t._shape) - (len(s) - 3)
                s = s.replace("...", ell[nd - k:])
            ni.append(s)
        ins = ni
        out = out.replace("...", ell) if "..." in out else out
    sizes = {}
    for s, t in zip(ins, ts):
        if len(s) != len(t._shape):
            raise RuntimeError(f"einsum(): the number of subscripts in the equation ({len(s)}) does not match the number of dimensions ({len(t._shape)})")
        for c, d in zip(s, t._shape):
            if c in sizes and not is_one(sizes[c]) and not is_one(d):
                if not same_dim(sizes[c], d):
                    raise RuntimeError(f"einsum(): subscript {c} has size {d} which does not broadcast with previously seen size {sizes[c]}")
            if c not in sizes or is_one(sizes[c]):
                sizes[c] = d
    snaps = [t.snap() for t in ts]
    ones = [[is_one(d) and not is_one(sizes[c]) for c, d in zip(s, t._shape)] for s, t in zip(ins, ts)]
    summed = [c for c in dict.fromkeys("".join(ins)) if c not in out]

    def f(idx):
        env = dict(zip(out, idx))
        vs = []
        for c in summed:
            v = fresh("ein")
            env[c] = poly(v)
            vs.append((v, sizes[c]))
        r = ONE
        for s, sn, on in zip(ins, snaps, ones):
            r = r * sn(tuple(ZERO if o else env[c] for c, o in zip(s, on)))
        for v, n in reversed(vs):
            r = binder("sum", v, n, r)
        return r
    return new(tuple(sizes[c] for c in out), f, "f")


def matmul(a, b):
    if len(a._shape) == 1 and len(b._shape) == 1:
        return einsum("i,i->", a, b)
    if len(a._shape) == 1:
        return matmul(a.unsqueeze(0), b).squeeze(-2)
    if len(b._shape) == 1:
        return matmul(a, b.unsqueeze(-1)).squeeze(-1)
    if not same_dim(a._shape[-1], b._shape[-2]):
        raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({a.shape} and {b.shape})")
    bs = broadcast([a._shape[:-2], b._shape[:-2]]) if (len(a._shape) > 2 or len(b._shape) > 2) else ()
    ca, cb = a.snap(), b.snap()
    ia, ib = mkbidx(a._shape[:-2]), mkbidx(b._shape[:-2])
    k = a._shape[-1]

    def f(idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        v = fresh("mm")
        return binder("sum", v, k, ca(ia(bi) + (i, poly(v))) * cb(ib(bi) + (poly(v), j)))
    return new(bs + (a._shape[-2], b._shape[-1]), f, "f")


def tensor_var(name, shape, dt="f"):
    """Tensor with arbitrary (universally quantified) content."""
    shape = norm_shape((tuple(shape),)) if shape else ()
    sort = "I" if dt == "i" else "R"
    if dt == "b":
        return new(shape, lambda idx: bapp(name, idx), "b")
    return new(shape, lambda idx: app(name, idx, sort), dt)


# torch's keyword names of the methods' parameters
KWNAMES = {
    "size": ("dim",), "unsqueeze": ("dim",), "squeeze": ("dim",), "transpose": ("dim0", "dim1"), "masked_fill": ("mask", "value"), "masked_fill_": ("mask", "value"),
    "select": ("dim", "index"), "narrow": ("dim", "start", "length"), "chunk": ("chunks", "dim"), "split": ("split_size", "dim"), "unfold": ("dimension", "size", "step"),
    "movedim": ("source", "destination"), "pow": ("exponent",), "add": ("other",), "sub": ("other",), "mul": ("other",), "div": ("other",), "add_": ("other",), "sub_": ("other",),
    "mul_": ("other",), "div_": ("other",), "floor_divide": ("other",), "repeat_interleave": ("repeats", "dim"), "unflatten": ("dim", "sizes"), "copy_": ("src", "non_blocking"),
    "fill_": ("value",), "where": ("condition", "other"), "bmm": ("mat2",), "matmul": ("other",), "new_full": ("size", "fill_value"), "masked_select": ("mask",),
    "requires_grad_": ("requires_grad",), "type_as": ("other",), "expand_as": ("other",), "view_as": ("other",), "reshape_as": ("other",), "broadcast_to": ("size",),
    "permute": ("dims",), "flip": ("dims",), "repeat": ("repeats",), "expand": ("size",), "view": ("size",), "reshape": ("shape",), "tile": ("dims",), "new_zeros": ("size",), "new_ones": ("size",),
    "uniform_": ("from", "to"),
}


def _kw(nm, names):
    f = getattr(Tensor, nm)

    def g(self, *a, **k):
        if k:
            a = list(a)
            for i, x in enumerate(names):
                if x in k and i == len(a):
                    a.append(k.pop(x))
            if nm == "copy_" and len(a) > 1:
                a = a[:1]
        return f(self, *a, **k)
    g.__name__ = nm
    return g


for _nm, _names in KWNAMES.items():
    if hasattr(Tensor, _nm):
        setattr(Tensor, _nm, _kw(_nm, _names))
