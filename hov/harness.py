"""Contract harness: runs the extracted real code on symbolic inputs and discharges
named obligations for one property."""
import os, sys, time, traceback, json, hashlib
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover as PR
from . import core as C
from .core import *
from .core import E
from . import shim as S
from . import tensor as TN
from .tensor import Tensor, tensor_var
from . import loader as LD
from . import contracts as CT
from . import spec as SP


class Ob:
    def __init__(self, name, kind, status, info="", secs=0.0, env=None, ctx=None):
        self.name, self.kind, self.status, self.info, self.secs, self.env, self.ctx = name, kind, status, info, secs, env, ctx

    def show_env(self):
        if self.env is None:
            return None
        d = {}
        for a, v in sorted(self.env.vals.items(), key=lambda z: str(z[0])):
            if len(a.data) == 1:
                d[str(a.data[0])] = float(v) if not (isinstance(v, Fraction) and v.denominator == 1) else int(v)
        tabs = {}
        for k, v in list(self.env.tables.items())[:60]:
            tabs[f"{k[0]}{[float(x) for x in k[1]] if isinstance(k[1], tuple) else k[1:]}"] = float(v)
        return {"scalars": d, "table": tabs}

    def json(self):
        return dict(name=self.name, kind=self.kind, status=self.status, info=str(self.info)[:1500], seconds=round(self.secs, 3), countermodel=self.show_env())


class Case:
    """Handle given to a property body: symbols and obligations."""

    def __init__(self, H, name):
        self.H, self.name = H, name
        self.counter = {}

    # ---------------------------------------------------- symbols
    def int(self, nm, lo=1, hi=None):
        v = Sc(poly(var(nm)), "i")
        E.assume(ge0(v.p - lo))
        if hi is not None:
            E.assume(ge0(hi - v.p))
        return v

    def ints(self, names, lo=1):
        return [self.int(x, lo) for x in names.split()]

    def real(self, nm, pos=False, lo=None):
        v = Sc(poly(var(nm, "R")), "f")
        if pos:
            E.assume(gt0(v.p))
        if lo is not None:
            E.assume(ge0(v.p - poly(lo)))
        return v

    def tensor(self, nm, *shape, dt="f"):
        t = tensor_var(nm, tuple(num(s) for s in shape), dt)
        t._input = True
        return t

    def havoc(self, p, nm):
        """Give parameter/tensor p arbitrary contents named nm."""
        t = tensor_var(nm, p._shape, p.dt)
        if p._rg is True and isinstance(p, S.Parameter):
            p._rg = C.Sb(bapp("parameters_track_gradient", ()))      # a caller may have frozen them
        if p.imap is None:
            p.st.set_content(TN.Content(t.snap()))
        else:
            st = TN.Storage(p._shape, TN.Content(t.snap()), p.dt)
            old = (p.st, p.imap)

            def undo():
                p.st, p.imap = old
            E.log(undo)
            p.st, p.imap = st, None
        return lambda *ix: app(nm, [num(i) for i in ix])

    def assume(self, *bs):
        E.assume(*bs)

    # ---------------------------------------------------- obligations
    def _rec(self, nm, kind, f):
        H = self.H
        full = f"{self.name}: {nm}"
        t0 = time.time()
        PR.DEADLINE[0] = t0 + H.budget
        try:
            r = f()
            ob = Ob(full, kind, r.status, r.info or "", time.time() - t0, r.env, E.ctx)
        except PR.Timeout:
            ob = Ob(full, kind, "unknown", "timeout", time.time() - t0)
        finally:
            PR.DEADLINE[0] = None
        H.obs.append(ob)
        return ob.status == "proved"

    def idx(self, shape, names="abcdefgh"):
        """Fresh index variables for a shape (with ranges assumed in a new context)."""
        ix = []
        ctx = E.ctx
        for d, nm in zip(shape, names):
            d = poly(num(d))
            if d == ONE:
                ix.append(ZERO)
                continue
            v = poly(T.fresh("ix_" + nm))
            ctx = ctx.extend(ge0(v), ge0(d - 1 - v))
            ix.append(v)
        return tuple(ix), ctx

    def shape(self, t, shape, nm="shape"):
        def f():
            if len(t._shape) != len(shape):
                return PR.Result("refuted", f"rank {len(t._shape)} instead of {len(shape)}", (E.ctx.samples(1) or [None])[0])
            for d, s in zip(t._shape, shape):
                r = PR.prove_eq(E.ctx, expand_dims(d), poly(num(s)))
                if not r:
                    return PR.Result(r.status, f"dimension {d} instead of {num(s)}: {r.info}", r.env)
            return PR.PROVED
        return self._rec(nm, "post", f)

    def equal(self, t, spec, nm="result", shape=None, pre=None):
        """t[ix] == spec(*ix) for all ix in range."""
        shp = shape or t._shape
        if shape is not None:
            if not self.shape(t, shape, nm + " shape"):
                return False
        ix, ctx = self.idx(shp)
        c0 = E.ctx
        try:
            E.ctx = ctx
            if pre is not None:
                E.ctx = ctx.extend(pre(*ix))

            def f():
                a = t.at(*ix)
                b = spec(*ix)
                if isinstance(a, B):
                    return PR.prove(E.ctx, b_eq(a, b))
                return PR.prove_eq(E.ctx, a, poly(num(b)))
            return self._rec(nm, "post", f)
        finally:
            E.ctx = c0

    def at(self, t, rng, where, spec, nm):
        """t[where(ix)] == spec(*ix) for all ix below rng."""
        ix, ctx = self.idx(rng)
        c0 = E.ctx
        E.ctx = ctx
        try:
            return self._rec(nm, "post", lambda: PR.prove_eq(E.ctx, t.at(*where(*ix)), poly(num(spec(*ix)))))
        finally:
            E.ctx = c0

    def eq(self, a, b, nm):
        return self._rec(nm, "post", lambda: PR.prove_eq(E.ctx, poly(num(a)), poly(num(b))))

    def holds(self, b, nm, pre=()):
        b = getattr(b, "b", b)
        if b is True:
            b = TRUE
        if b is False:
            b = FALSE
        c = E.ctx.extend(*pre) if pre else E.ctx
        return self._rec(nm, "post", lambda: PR.prove(c, b))

    def fact(self, ok, nm, info=""):
        """A concrete (decided) structural obligation."""
        return self._rec(nm, "post", lambda: PR.PROVED if ok else PR.Result("refuted", info, (E.ctx.samples(1) or [None])[0]))

    def raises(self, f, exc, nm):
        ok = False
        try:
            f()
        except exc:
            ok = True
        return self.fact(ok, nm, "accepted instead of refused")

    # ---------------------------------------------------- frames
    def snapshot(self, *objs):
        return [(o, self._state(o)) for o in objs]

    def _state(self, o):
        out = []
        seen = set()

        def go(o, path, depth):
            if id(o) in seen or depth > 8:
                return
            if isinstance(o, Tensor):
                out.append((path, o, o.st, o.imap, o._shape, o.st.content))
                return
            if isinstance(o, (list, tuple)):
                out.append((path, o, len(o), None, None, tuple(id(z) for z in o)))
                for i, z in enumerate(o):
                    go(z, f"{path}[{i}]", depth + 1)
                return
            if isinstance(o, dict):
                out.append((path, o, None, None, None, tuple((k, id(z)) for k, z in o.items())))
                for k, z in o.items():
                    go(z, f"{path}.{k}", depth + 1)
                return
            if isinstance(o, (S.Module, S.Optimizer)) or (hasattr(o, "__dict__") and not isinstance(o, type) and not callable_plain(o)):
                seen.add(id(o))
                d = o.__dict__
                keep.append((path, o, {k: v for k, v in d.items() if k != "_stamp_"}))
                for k, v in list(d.items()):
                    if k not in ("_stamp_",):
                        go(v, f"{path}.{k}", depth + 1)
        keep = []
        go(o, type(o).__name__, 0)
        return out, keep

    def unchanged(self, snap, nm="layer and input unchanged"):
        """Frame condition: every reachable tensor keeps its contents, every attribute its value."""
        def f():
            for o, (ts, objs) in snap:
                for path, t, st, imap, shp, con in ts:
                    if isinstance(t, Tensor):
                        if t.st is st and t.imap is imap and st.content is con:
                            continue
                        if len(t._shape) != len(shp):
                            return PR.Result("refuted", f"{path} changed rank", (E.ctx.samples(1) or [None])[0])
                        ix, ctx = self.idx(shp)
                        c0 = E.ctx
                        try:
                            E.ctx = ctx
                            a = t.at(*ix)
                            b = con(imap(ix) if imap else ix)
                            r = PR.prove_eq(ctx, a, b) if not isinstance(a, B) else PR.prove(ctx, b_eq(a, b))
                        finally:
                            E.ctx = c0
                        if not r:
                            return PR.Result(r.status, f"{path} changed: {r.info}", r.env)
                for path, ob, d in objs:
                    cur = {k: v for k, v in ob.__dict__.items() if k != "_stamp_"}
                    for k in set(cur) | set(d):
                        if k.startswith("__") or k in ("training", "_training_"):
                            continue
                        if cur.get(k, UNBOUND) is not d.get(k, UNBOUND):
                            a, b = cur.get(k, UNBOUND), d.get(k, UNBOUND)
                            if isinstance(a, (int, float, str, bool)) and a == b and type(a) is type(b):
                                continue
                            if isinstance(a, Sc) and isinstance(b, Sc) and a.p == b.p:
                                continue
                            self.H.notes.append(f"{self.name}: attribute {path}.{k} rebound by the call")
            return PR.PROVED
        return self._rec(nm, "frame", f)


def callable_plain(o):
    import types
    return isinstance(o, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType))


def contract_keys(pid):
    from .props import CONTRACTS
    return CONTRACTS.get(pid, ())


class Harness:
    def __init__(self, pid, use_contracts=True, budget=40, case_budget=150, only=None, verbose=False, thorough=False):
        self.pid = pid
        self.obs = []
        self.notes = []
        self.unsupported = []
        self.bounded = []
        self.budget, self.case_budget = budget, case_budget
        self.use_contracts = use_contracts
        self.side = []
        self.called = set()
        self.contract_uses = {}
        self.only = only
        self.verbose = verbose
        self.cases = 0
        self.paths = 0
        self.thorough = thorough
        self.collect = None
        self.patched = {}
        self.load()

    def load(self):
        E.reset()
        PR.reset_caches() if hasattr(PR, "reset_caches") else None
        self.ghosts = CT.Ghosts(self)
        self.loader = LD.Loader(contracts=self.ghosts.registry(contract_keys(self.pid)) if self.use_contracts else {})

    def patch(self, d, nm, v):
        """Replace a callee by its contract for the current case."""
        self.patched.setdefault((id(d), nm), (d, nm, d[nm]))
        d[nm] = v

    def unpatch(self):
        for d, nm, v in self.patched.values():
            d[nm] = v
        self.patched.clear()

    def mod(self, nm):
        return self.loader.load(LD.PKG + "." + nm)

    def body(self, dotted):
        """The real body of a function under contract (not its summary)."""
        m, a = dotted.split(":")
        M = self.mod(m)
        if dotted in self.loader.bodies:
            return self.loader.bodies[dotted]
        o = M
        for p in a.split("."):
            o = o.__dict__[p] if isinstance(o, type) else getattr(o, p)
        return o

    def api(self, dotted):
        m, a = dotted.split(":")
        return getattr(self.mod(m), a)

    def case(self, name, body, maxpaths=64, bounded=None, contract=None, thorough=False, final=False):
        """Explore body(case) over all paths; undecided symbolic branches fork."""
        full = f"{self.pid}/{name}"
        if self.only and self.only not in full:
            return
        if thorough and not self.thorough:
            return
        if self.collect is not None:
            self.collect.append((full, body, dict(maxpaths=maxpaths, bounded=bounded, contract=contract, final=final)))
            return
        self.run_case(full, body, maxpaths, bounded, contract)

    def run_case(self, full, body, maxpaths=64, bounded=None, contract=None, final=False):
        self.cases += 1
        self.unpatch()
        t0 = time.time()
        E.reset()
        C.FORWARD.clear()
        C.LOOP_REC.clear()
        SP.SEG_SPLIT.clear()
        k = Case(self, full)
        n0 = len(self.obs)
        if bounded:
            self.bounded.append(f"{full}: {bounded}")
        try:
            npaths = 0
            PR.DEADLINE[0] = t0 + self.case_budget

            def run():
                PR.DEADLINE[0] = t0 + self.case_budget
                try:
                    return body(k)
                finally:
                    PR.DEADLINE[0] = None
            for g, ctx, res in explore(run, maxpaths):
                npaths += 1
                if res[0] == "exc":
                    e = res[1]
                    if isinstance(e, PR.Timeout):
                        raise e
                    tb = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
                    inrepo = any(LD.REPO in f.filename for f in traceback.extract_tb(e.__traceback__))
                    if not inrepo:
                        raise Internal(tb)
                    if not genuine(e, self.loader):
                        raise Unsupported(f"library model: {type(e).__name__}: {e}").with_traceback(e.__traceback__)
                    env = (ctx.samples(1) or [None])[0]
                    st = "refuted" if env is not None else "unknown"
                    self.obs.append(Ob(f"{full}: no exception", "post", st, f"{type(e).__name__}: {e} on path {g}\n{tb}", 0, env, ctx))
                if time.time() - t0 > self.case_budget:
                    raise PR.Timeout()
            self.paths += npaths
            if npaths == 0:
                self.obs.append(Ob(f"{full}: reachable", "vacuity", "refuted", "no feasible path"))
            if len(self.obs) == n0:
                self.obs.append(Ob(f"{full}: obligations generated", "vacuity", "unknown", "zero obligations"))
        except SideFail as s:
            self.obs.append(Ob(f"{full}: side condition {s.what.split(':')[0]}", "side", "refuted", s.what, 0, s.env))
        except Unsupported as u:
            tb = traceback.extract_tb(u.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if LD.REPO in f.filename][-1:]
            self.unsupported.append((full, str(u), where))
            if self.verbose:
                traceback.print_exc()
        except PR.Timeout:
            self.unsupported.append((full, "case time budget exhausted", []))
            if self.verbose:
                traceback.print_exc()
        except RecursionError as e:
            self.unsupported.append((full, "recursion limit", []))
        finally:
            PR.DEADLINE[0] = None
            self.called |= E.called
            for w in E.side_list:
                if w not in self.side:
                    self.side.append(w)
            while E.journal:
                E.journal.pop()
        if self.verbose:
            print(f"[{full}] {time.time()-t0:.1f}s", [(o.name.split(': ', 1)[1], o.status, o.info if o.status != 'proved' else '', round(o.secs, 2)) for o in self.obs[n0:]], flush=True)


class Internal(Exception):
    pass


def genuine(e, loader):
    """Is the exception one the real code would raise, not a gap in the library model?"""
    import re
    fr = traceback.extract_tb(e.__traceback__)[-1]
    if (fr.line or "").lstrip().startswith(("raise", "assert")):
        return True
    if LD.REPO not in fr.filename:
        return False
    if not isinstance(e, (TypeError, AttributeError, NotImplementedError)):
        return True
    names = set(re.findall(r"\w+", str(e)))
    for m in loader.mods.values():
        for nm, v in list(vars(m).items()):
            if nm in names and getattr(v, "__module__", "").startswith(LD.PKG):
                return True
    return False
