"""Symbolic runtime: scalars, path decisions, journalled heap, generic loops.

The real source of /repo (transformed mechanically by hov.loader) runs on these
values.  Control flow on an undecided symbolic condition forks the path (by
re-execution); a loop over a symbolic range is executed once for an arbitrary
iteration and summarised (sums, products, last values, families of writes).
"""
import math, builtins
from fractions import Fraction
from .terms import *
from . import terms as T
from . import prover as PR


class Unsupported(BaseException):
    """A construct the extraction does not cover (tool limit, not a verdict)."""


class Infeasible(BaseException):
    """The current path's condition is contradictory."""


class LoopControl(BaseException):
    pass


class PathFork(BaseException):
    pass


class SideFail(BaseException):
    """A side obligation (index bounds, division) was refuted by a countermodel."""

    def __init__(self, what, env):
        self.what, self.env = what, env
        super().__init__(what)


class Engine:
    def __init__(self):
        self.reset()

    def reset(self):
        self.base = PR.Ctx([])
        self.frames = []          # decision frames
        self.ctx = self.base
        self.loopvars = []        # [(var atom, n)]
        self.journal = []         # undo closures
        self.stamp = 0
        self.side = {}            # side obligations: key -> status
        self.side_list = []
        self.randoms = []         # names of random apps
        self.called = set()
        self.grad_enabled = True
        self.depth = 0

    # ------------------------------------------------ decisions
    def assume(self, *bs):
        bs = [getattr(b, "b", b) for b in bs]
        self.ctx = self.ctx.extend(*bs)
        if self.ctx.false:
            raise Infeasible()

    def decide(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        b = PR.simp(self.ctx, b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.ctx.entails(b):
            return True
        nb = bnot(b)
        if self.ctx.entails(nb):
            return False
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            raise Unsupported(f"branch on undecided condition outside exploration: {b}")
        if fr.pos < len(fr.choices):
            c = fr.choices[fr.pos]
        else:
            fr.choices.append([True, False])
            c = fr.choices[-1]
        fr.pos += 1
        if len(fr.choices) > 40:
            raise Unsupported("too many symbolic branches")
        v = c[0]
        g = b if v else nb
        fr.guard = band(fr.guard, g)
        self.ctx = self.ctx.extend(g)
        if self.ctx.false:
            raise Infeasible()
        return v

    # ------------------------------------------------ side obligations
    def oblige(self, what, b):
        """Side obligation; recorded, proved if possible, refuted -> SideFail."""
        if b is TRUE:
            return
        key = (what, b)
        if key in self.side and self.side[key][1] is self.ctx:
            return
        ctx = self.ctx
        st = "unknown"
        b2 = PR.simp(ctx, b)
        if b2 is TRUE or ctx.entails(b2) or PR.prove_split(ctx, b2):
            st = "proved"
        else:
            for env in ctx.samples(8, 3):
                try:
                    if not PR.ev_b(b, env):
                        st = "refuted"
                        self.side[key] = (st, ctx)
                        self.side_list.append((what, str(b)[:160], st))
                        raise SideFail(f"{what}: {str(b)[:200]}", env)
                except PR.EvalError:
                    pass
        self.side[key] = (st, ctx)
        self.side_list.append((what, str(b)[:160], st))

    # ------------------------------------------------ journal
    def log(self, undo):
        self.journal.append(undo)

    def rollback(self, mark):
        while len(self.journal) > mark:
            self.journal.pop()()

    def tick(self):
        self.stamp += 1
        return self.stamp

    def fresh_name(self, base):
        T._fresh[0] += 1
        return f"{base}!{T._fresh[0]}"

    def loop_args(self):
        return [poly(v) for v, _ in self.loopvars]


E = Engine()


class Frame:
    def __init__(self):
        self.choices = []
        self.pos = 0
        self.guard = TRUE

    def next(self):
        while self.choices:
            c = self.choices[-1]
            c.pop(0)
            if c:
                return True
            self.choices.pop()
        return False


def explore(fn, maxpaths=64, undo=True):
    """Run fn along all feasible paths.  Yields (guard, ctx, outcome, loopinfo)."""
    fr = Frame()
    ctx0 = E.ctx
    out = []
    while True:
        fr.pos = 0
        fr.guard = TRUE
        E.frames.append(fr)
        E.ctx = ctx0
        mark = len(E.journal)
        lv = list(E.loopvars)
        try:
            try:
                r = ("ok", fn())
            except Infeasible:
                r = None
            except (Unsupported, SideFail, PR.Timeout):
                raise
            except Exception as e:
                r = ("exc", e)
            if r is not None:
                yield fr.guard, E.ctx, r
        finally:
            E.frames.pop()
            E.ctx = ctx0
            E.loopvars = lv
            if undo:
                E.rollback(mark)
        maxpaths -= 1
        if not fr.next():
            return
        if maxpaths <= 0:
            raise Unsupported("too many paths")


# ---------------------------------------------------------------- scalars
def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


class Sc:
    """Symbolic number; k is 'i' or 'f'."""
    __slots__ = ("p", "k")
    __array_priority__ = 1000

    def __init__(self, p, k):
        self.p, self.k = p, k

    def __hash__(self):
        return hash((self.p, self.k))

    def __bool__(self):
        return bool(mkb(bnot(eq0(self.p))))

    def __index__(self):
        if self.k == "i":
            p = PR.simp(E.ctx, self.p)
            if p.is_const():
                return int(p.const())
            raise Unsupported(f"symbolic integer used where a concrete one is needed: {self.p}")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("native float of a symbolic number")

    def __repr__(self):
        return f"<{self.p}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _b(self, o):
        if isinstance(o, Sc):
            return o.p, o.k
        if isinstance(o, bool):
            return const(int(o)), "i"
        if isinstance(o, int):
            return const(o), "i"
        if isinstance(o, (float, Fraction)):
            return poly(o), "f"
        if isinstance(o, Sb):
            return ite(o.b, ONE, ZERO), "i"
        return None

    def __add__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mks(self.p + r[0], jk(self.k, r[1]))

    __radd__ = __add__

    def __sub__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mks(self.p - r[0], jk(self.k, r[1]))

    def __rsub__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mks(r[0] - self.p, jk(self.k, r[1]))

    def __mul__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mks(self.p * r[0], jk(self.k, r[1]))

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return sc_div(self.p, r[0])

    def __rtruediv__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return sc_div(r[0], self.p)

    def __floordiv__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return sc_floordiv(self.p, r[0], jk(self.k, r[1]))

    def __rfloordiv__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return sc_floordiv(r[0], self.p, jk(self.k, r[1]))

    def __mod__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        nonzero(r[0])
        return mks(mod(self.p, r[0]), jk(self.k, r[1]))

    def __rmod__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        nonzero(self.p)
        return mks(mod(r[0], self.p), jk(self.k, r[1]))

    def __pow__(self, o):
        if isinstance(o, Sc) and o.p.is_const() and o.p.const().denominator == 1:
            o = int(o.p.const())
        if isinstance(o, float) and o == int(o):
            return mks(power(self.p, int(o)), "f")
        if isinstance(o, float) and o == 0.5 or isinstance(o, (Sc, Fraction)) and poly(getattr(o, "p", o)) == const(Fraction(1, 2)):
            return mks(fn("sqrt", self.p), "f")
        if isinstance(o, int):
            if o < 0:
                nonzero(self.p)
            return mks(power(self.p, o), self.k if o >= 0 else "f")
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mks(app("pow", [self.p, r[0]], "I" if self.k == "i" and r[1] == "i" else "R"), jk(self.k, r[1]))

    def __rpow__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mks(app("pow", [r[0], self.p], "I" if self.k == "i" and r[1] == "i" else "R"), jk(self.k, r[1]))

    def __neg__(self):
        return mks(-self.p, self.k)

    def __pos__(self):
        return self

    def __abs__(self):
        return mks(pabs(self.p), self.k)

    def __eq__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mkb(eq(self.p, r[0]))

    def __ne__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mkb(bnot(eq(self.p, r[0])))

    def __lt__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mkb(lt(self.p, r[0]))

    def __le__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mkb(le(self.p, r[0]))

    def __gt__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mkb(lt(r[0], self.p))

    def __ge__(self, o):
        r = self._b(o)
        if r is None:
            return NotImplemented
        return mkb(le(r[0], self.p))

    def __round__(self, nd=None):
        if self.k == "i":
            return self
        raise Unsupported("round")

    def __floor__(self):
        return mks(floor(self.p), "i")

    def __ceil__(self):
        return mks(-floor(-self.p), "i")

    def __trunc__(self):
        return mks(ptrunc(self.p), "i")

    def is_integer(self):
        return mkb(eq(self.p, floor(self.p)))

    def item(self):
        return self


def jk(a, b):
    return "i" if a == "i" and b == "i" else "f"


def mks(p, k):
    if k == "i" and p.is_const() and p.const().denominator == 1:
        return int(p.const())
    return Sc(p, k)


def num(x):
    """P of a python / symbolic scalar."""
    if isinstance(x, Sc):
        return x.p
    if isinstance(x, Sb):
        return ite(x.b, ONE, ZERO)
    if isinstance(x, P):
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        return poly(x)
    if hasattr(x, "_scalar"):
        return x._scalar()
    raise TypeError(f"not a number: {type(x).__name__}")


def kind_of(x):
    if isinstance(x, Sc):
        return x.k
    if isinstance(x, (bool, int)):
        return "i"
    return "f"


def nonzero(p):
    if p.is_const():
        if p.const() == 0:
            raise ZeroDivisionError("division by zero")
        return
    E.oblige("nonzero divisor", bnot(eq0(p)))


def sc_div(a, b):
    nonzero(b)
    return Sc(div(a, b), "f")


def sc_floordiv(a, b, k):
    nonzero(b)
    q = div(dim(a), dim(b)) if len(b.t) > 1 or len(a.t) > 1 else div(a, b)
    if is_int(q):
        return mks(expand_dims(q), k)
    return mks(floor(div(a, b)), k)


def pabs(p):
    if p.is_const():
        return const(abs(p.const()))
    return ite(ge0(p), p, -p)


def ptrunc(p):
    if is_int(p):
        return p
    if p.is_const():
        return const(int(p.const()))
    return ite(ge0(p), floor(p), -floor(-p))


class Sb:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return E.decide(self.b)

    def __and__(self, o):
        o = tob(o)
        return NotImplemented if o is None else mkb(band(self.b, o))

    __rand__ = __and__

    def __or__(self, o):
        o = tob(o)
        return NotImplemented if o is None else mkb(bor(self.b, o))

    __ror__ = __or__

    def __invert__(self):
        return mkb(bnot(self.b))

    def __eq__(self, o):
        o = tob(o)
        return NotImplemented if o is None else mkb(b_eq(self.b, o))

    def __hash__(self):
        return hash(self.b)

    def __repr__(self):
        return f"<{self.b}>"


def tob(x):
    if isinstance(x, Sb):
        return x.b
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return None


def mkb(b):
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    return Sb(b)


# ---------------------------------------------------------------- lists
class TList(list):
    """Python list with journalled mutation."""
    __slots__ = ("stamp", "__weakref__")

    def __init__(self, *a):
        list.__init__(self, *a)
        self.stamp = E.tick()

    def _save(self):
        old = list(self)
        E.log(lambda: list.__setitem__(self, slice(None), old))

    def append(self, x):
        f = fwd(self)
        if f is not self:
            return f.append(x)
        E.log(lambda: list.pop(self))
        list.append(self, x)
        E.tick()
        rec = LOOP_REC[-1] if LOOP_REC else None
        if rec is not None and self.stamp < rec.stamp:
            rec.appends.append((self, x))

    def _mut(name):
        def f(self, *a, **k):
            f = fwd(self)
            if f is not self:
                if not hasattr(f, name):
                    raise Unsupported(f"list.{name} on a symbolic list")
                return getattr(f, name)(*a, **k)
            rec = LOOP_REC[-1] if LOOP_REC else None
            if rec is not None and self.stamp < rec.stamp:
                raise Unsupported(f"list.{name} on an outer list inside a generic loop")
            self._save()
            return getattr(list, name)(self, *a, **k)
        return f

    def extend(self, o):
        f = fwd(self)
        if f is not self:
            return f.extend(o) if hasattr(f, "extend") else [f.append(x) for x in o] and None
        if type(o) is TList:
            o = fwd(o)
        if isinstance(o, SymList):
            rec = LOOP_REC[-1] if LOOP_REC else None
            if rec is not None and self.stamp < rec.stamp:
                raise Unsupported("list.extend by a symbolic list inside a generic loop")
            sl = SymList([TList(list(list.__iter__(self)))] + o.parts)
            FORWARD[id(self)] = (self, sl)
            E.log(lambda: FORWARD.pop(id(self), None))
            return
        for x in list(o):
            self.append(x)

    insert = _mut("insert")
    pop = _mut("pop")
    remove = _mut("remove")
    clear = _mut("clear")
    reverse = _mut("reverse")
    sort = _mut("sort")
    __delitem__ = _mut("__delitem__")

    def __setitem__(self, i, v):
        if fwd(self) is not self:
            raise Unsupported("item assignment on a symbolic list")
        if isinstance(i, Sc):
            i = i.__index__()
        rec = LOOP_REC[-1] if LOOP_REC else None
        if rec is not None and self.stamp < rec.stamp:
            raise Unsupported("list item assignment inside a generic loop")
        self._save()
        list.__setitem__(self, i, v)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __getitem__(self, i):
        f = fwd(self)
        if f is not self:
            return f[i]
        i = conc_slice(i)
        r = list.__getitem__(self, i)
        return TList(r) if isinstance(i, slice) else r

    def __len__(self):
        f = fwd(self)
        return list.__len__(self) if f is self else len(f)

    def __iter__(self):
        f = fwd(self)
        return list.__iter__(self) if f is self else iter(f)

    def __add__(self, o):
        f = fwd(self)
        if f is not self:
            return f + o
        if isinstance(o, SymList):
            return SymList([self] + o.parts)
        return TList(list.__add__(self, list(o)))

    def __mul__(self, k):
        if isinstance(k, Sc):
            if k.p.is_const():
                k = int(k.p.const())
            else:
                items = list(self)
                return SymList([Seg(k.p, fresh("r"), items)])
        return TList(list.__mul__(self, k))

    __rmul__ = __mul__

    def copy(self):
        return TList(self)


def conc_slice(i):
    if isinstance(i, Sc):
        return i.__index__()
    if isinstance(i, slice):
        return slice(*[None if x is None else (x.__index__() if isinstance(x, Sc) else x) for x in (i.start, i.stop, i.step)])
    return i


LOOP_REC = []


def hook_list(l):
    pass


class Seg:
    """n groups of len(items) elements; items depend on var."""
    __slots__ = ("n", "v", "items")

    def __init__(self, n, v, items):
        self.n, self.v, self.items = poly(n), v, items


def mkseg(n, v, items):
    """Family over v<n of the items; a single inner family of fixed size is flattened."""
    if not any(isinstance(x, Seg) for x in items):
        return Seg(n, v, items)
    if len(items) == 1 and v not in items[0].n.free:
        s = items[0]
        w = fresh("fl")
        q = floor(div(poly(w), s.n))
        return Seg(poly(n) * s.n, w, [subst_val(x, {v: q, s.v: poly(w) - q * s.n}) for x in s.items])
    raise Unsupported("nested generic append to an outer list")


class SymList:
    """List of symbolic length: parts are TList chunks and Seg families."""

    def __init__(self, parts):
        self.parts = [p for p in parts if not (isinstance(p, list) and not p)]
        self.stamp = E.tick()

    def length(self):
        r = ZERO
        for p in self.parts:
            r = r + (const(len(p)) if isinstance(p, list) else p.n * len(p.items))
        return r

    def sym_len(self):
        return mks(self.length(), "i")

    def __len__(self):
        return self.sym_len().__index__()

    def __bool__(self):
        return bool(mkb(gt0(self.length())))

    def append(self, x):
        E.log(self._restore())
        rec = LOOP_REC[-1] if LOOP_REC else None
        if rec is not None and self.stamp < rec.stamp:
            rec.appends.append((self, x))
        self.parts = self.parts + [TList([x])]

    def extend(self, xs):
        if type(xs) is TList:
            xs = fwd(xs)
        if LOOP_REC and self.stamp < LOOP_REC[-1].stamp:
            if isinstance(xs, SymList):
                raise Unsupported("extend in loop")
            for x in list(xs):
                self.append(x)
            return
        E.log(self._restore())
        self.parts = self.parts + ([TList(xs)] if isinstance(xs, (list, tuple)) else xs.parts)

    def _restore(self):
        old = self.parts

        def f():
            self.parts = old
        return f

    def __add__(self, o):
        if isinstance(o, SymList):
            return SymList(self.parts + o.parts)
        return SymList(self.parts + [TList(o)])

    def get(self, i):
        """Element at polynomial index i."""
        i = poly(i)
        off = ZERO
        cases = []
        for p in self.parts:
            if isinstance(p, list):
                for x in p:
                    cases.append((eq(i, off), x))
                    off = off + 1
            else:
                k = len(p.items)
                r = i - off
                inr = band(ge0(r), lt(r, p.n * k))
                if k == 1:
                    cases.append((inr, subst_val(p.items[0], {p.v: r})))
                else:
                    g = floor(div(r, const(k)))
                    for t, x in enumerate(p.items):
                        cases.append((band(inr, eq(r - g * k, const(t))), subst_val(x, {p.v: g})))
                off = off + p.n * k
        live = []
        for c, x in cases:
            c = PR.simp(E.ctx, c)
            if c is FALSE or E.ctx.entails(bnot(c)):
                continue
            if c is TRUE or E.ctx.entails(c):
                return x
            live.append((c, x))
        if not live:
            raise IndexError("list index out of range")
        E.oblige("list index in range", band(ge0(i), lt(i, off)))
        r = live[-1][1]
        for c, x in reversed(live[:-1]):
            r = merge_val(c, x, r)
        return r

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("strided slice of symbolic list")
            n = self.length()
            lo = ZERO if i.start is None else num(i.start)
            hi = n if i.stop is None else num(i.stop)
            if lo.is_const() and lo.const() < 0:
                lo = lo + n
            if hi.is_const() and hi.const() < 0:
                hi = hi + n
            v = fresh("sl")
            m = hi - lo
            E.oblige("slice bounds", band(ge0(lo), ge0(n - hi), ge0(m)))
            c0 = E.ctx
            E.ctx = E.ctx.extend(ge0(poly(v)), lt(poly(v), m))
            try:
                x = self.get(poly(v) + lo)
            finally:
                E.ctx = c0
            return SymList([Seg(m, v, [x])])
        p = num(i)
        if p.is_const() and p.const() < 0:
            p = p + self.length()
        return self.get(p)

    def __iter__(self):
        n = PR.simp(E.ctx, self.length())
        if n.is_const():
            return iter([self.get(const(i)) for i in range(int(n.const()))])
        raise Unsupported("native iteration over a symbolic list")


class SymRange:
    def __init__(self, start, stop, step=ONE):
        self.start, self.stop, self.step = start, stop, step
        d = stop - start
        if step == ONE:
            n = d
        elif step == -ONE:
            n = -d
        else:
            if step.is_const() and step.const() > 0:
                n = -floor(div(-d, step))
            elif not step.is_const() and E.ctx.entails(gt0(step)):
                n = -floor(div(-d, step))
            else:
                raise Unsupported("range step")
        if E.ctx.entails(ge0(n)):
            self.n = n
        elif E.decide(ge0(n)):
            self.n = n
        else:
            self.n = ZERO

    def get(self, i):
        return mks(self.start + self.step * i, "i")

    def length(self):
        return self.n

    def sym_len(self):
        return mks(self.n, "i")

    def __len__(self):
        return self.sym_len().__index__()

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is None and (i.stop is None) and i.start is not None:
                return SymRange(self.start + self.step * num(i.start), self.stop, self.step)
            raise Unsupported("range slice")
        p = num(i)
        if p.is_const() and p.const() < 0:
            p = p + self.n
        return self.get(p)

    def __iter__(self):
        n = PR.simp(E.ctx, self.n)
        if n.is_const():
            return iter([self.get(const(i)) for i in range(int(n.const()))])
        raise Unsupported("native iteration over a symbolic range")


class SymIter:
    """length + get(poly index)."""

    def __init__(self, n, get):
        self.n, self._get = n, get

    def length(self):
        return self.n

    def sym_len(self):
        return mks(self.n, "i")

    def get(self, i):
        return self._get(poly(i))

    def __len__(self):
        return self.sym_len().__index__()

    def __getitem__(self, i):
        return self.get(num(i))

    def __iter__(self):
        n = PR.simp(E.ctx, self.n)
        if n.is_const():
            return iter([self.get(const(i)) for i in range(int(n.const()))])
        raise Unsupported("native iteration over a symbolic iterable")


SYMS = (SymList, SymRange, SymIter)


def as_symiter(x):
    """None if x can be iterated natively, else object with length()/get()."""
    if isinstance(x, SYMS):
        n = PR.simp(E.ctx, x.length())
        if n.is_const():
            return None
        return x
    if hasattr(x, "_symiter"):
        return x._symiter()
    return None


# ---------------------------------------------------------------- values
def subst_val(x, s):
    if isinstance(x, Sc):
        return mks(subst(x.p, s), x.k)
    if isinstance(x, Sb):
        return mkb(subst(x.b, s))
    if isinstance(x, (P, B)):
        return subst(x, s)
    if hasattr(x, "_subst"):
        return x._subst(lambda t: subst(t, s))
    if isinstance(x, TList):
        return TList([subst_val(y, s) for y in x])
    if isinstance(x, tuple):
        return tuple(subst_val(y, s) for y in x)
    if isinstance(x, SymList):
        return SymList([subst_val(p, s) if isinstance(p, list) else Seg(subst(p.n, s), p.v, [subst_val(y, s) for y in p.items]) for p in x.parts])
    return x


def map_val(x, f):
    """f on terms."""
    if isinstance(x, Seg):
        return Seg(f(x.n), x.v, [map_val(y, f) for y in x.items])
    if isinstance(x, Sc):
        return mks(f(x.p), x.k)
    if isinstance(x, Sb):
        return mkb(f(x.b))
    if hasattr(x, "_subst"):
        return x._subst(f)
    if isinstance(x, TList):
        return TList([map_val(y, f) for y in x])
    if isinstance(x, tuple):
        return tuple(map_val(y, f) for y in x)
    if isinstance(x, SymList):
        return SymList([map_val(p, f) if isinstance(p, list) else Seg(f(p.n), p.v, [map_val(y, f) for y in p.items]) for p in x.parts])
    return x


def merge_val(c, a, b):
    if a is b:
        return a
    if isinstance(a, Seg) or isinstance(b, Seg):
        raise Unsupported("conditional append of families")
    if hasattr(a, "_merge"):
        return a._merge(c, b, False)
    if hasattr(b, "_merge"):
        return b._merge(c, a, True)
    if isinstance(a, (Sb, bool)) and isinstance(b, (Sb, bool)):
        return mkb(bite(c, tob(a), tob(b)))
    if isinstance(a, (Sc, int, float, Fraction)) and isinstance(b, (Sc, int, float, Fraction)):
        return mks(ite(c, num(a), num(b)), jk(kind_of(a), kind_of(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, TList) and isinstance(b, TList) and len(a) == len(b):
        return TList([merge_val(c, x, y) for x, y in zip(a, b)])
    if a is None and b is None or (isinstance(a, str) and a == b):
        return a
    raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


UNBOUND = object()


class Poison:
    def __init__(self, why):
        self.why = why

    def __getattr__(self, k):
        raise Unsupported(self.why)

    def _no(self, *a, **k):
        raise Unsupported(self.why)

    for _k in "add radd sub rsub mul rmul truediv rtruediv matmul rmatmul pow rpow neg getitem setitem iter len bool index eq ne lt le gt ge call".split():
        locals()[f"__{_k}__"] = _no
    __hash__ = object.__hash__


class Ret:
    def __init__(self, v):
        self.v = v


BRK = object()


class LoopRec:
    def __init__(self):
        self.stamp = E.tick()
        self.appends = []
        self.storages = {}      # storage -> content before body
        self.attrs = []


class PeelNeeded(Exception):
    """A carried variable has no type yet (None, a number that becomes a tensor, a flag): run the first iteration separately."""


def run_loop(it, body, get, set_, carried, exposed=()):
    """Execute `for target in it: body`.  Returns None or Ret."""
    s = as_symiter(it)
    if s is None:
        brk = False
        for x in it:
            r = body(x)
            if r is BRK:
                brk = True
                break
            if isinstance(r, Ret):
                return r
        return BRK if brk else None
    n = PR.simp(E.ctx, s.length())
    if E.ctx.entails(ge0(-n)):
        return None
    if not E.ctx.entails(ge0(n - 1)):
        if not E.decide(ge0(n - 1)):
            return None
    if E.ctx.entails(eq(n, 1)):
        r = body(s.get(ZERO))
        return r if isinstance(r, Ret) or r is BRK else None
    pre = get()
    try:
        return generic_loop(n, lambda i: body(s.get(poly(i))), get, set_, carried, exposed)
    except PeelNeeded as why:
        set_(pre)
        r = body(s.get(ZERO))
        if isinstance(r, Ret) or r is BRK:
            return r
        if not E.ctx.entails(ge0(n - 2)) and not E.decide(ge0(n - 2)):
            return None
        try:
            return generic_loop(n - 1, lambda i: body(s.get(poly(i) + 1)), get, set_, carried, exposed)
        except PeelNeeded as e:
            raise Unsupported(str(e))


def placeholder(val, name):
    """Havoc a carried local.  Returns (new value, kind, key) or None."""
    if isinstance(val, (Sc,)) or is_num(val):
        a = fresh("acc_" + name, "I" if kind_of(val) == "i" else "R")
        return Sc(poly(a), kind_of(val)), ("sc", a)
    if hasattr(val, "_placeholder"):
        return val._placeholder(name)
    return None


def rebuilt(pre, post):
    """Items appended when post is pre + [items] (a new list object), else None."""
    if type(pre) is TList and fwd(pre) is pre and type(post) is TList and fwd(post) is post and len(post) > len(pre):
        a, b = list(list.__iter__(pre)), list(list.__iter__(post))
        if all(x is y for x, y in zip(a, b)):
            return b[len(a):]
    p = fwd(pre) if isinstance(pre, TList) else pre
    if isinstance(p, SymList) and isinstance(post, SymList) and len(post.parts) == len(p.parts) + 1:
        if all(x is y for x, y in zip(p.parts, post.parts)) and isinstance(post.parts[-1], list):
            return list(post.parts[-1])
    return None


def generic_loop(n, body, get, set_, carried, exposed=()):
    iv = fresh("it")
    i = poly(iv)
    ctx0 = E.ctx
    pre = get()
    # ---- pass 1: discover mutated storages
    mutated = []

    def run(setup):
        results = []
        E.loopvars.append((iv, n))
        E.ctx = ctx0.extend(ge0(i), ge0(n - 1 - i))
        mark = len(E.journal)
        try:
            def once():
                set_(pre)
                setup()
                rec = LoopRec()
                LOOP_REC.append(rec)
                try:
                    r = body(iv)
                finally:
                    LOOP_REC.pop()
                if r is BRK or isinstance(r, Ret):
                    raise Unsupported("break/return inside a generic loop")
                rec.appends = [(l, freeze(x, rec.stamp)) for l, x in rec.appends]
                post = {kk: freeze(v, rec.stamp) for kk, v in get().items()}
                conts = {st: st.content for st in rec.storages}
                return rec, post, conts
            for g, c, res in explore(once):
                if res[0] == "exc":
                    raise GenericExc(g, res[1])
                results.append((g, res[1]))
        finally:
            E.rollback(mark)
            E.loopvars.pop()
            E.ctx = ctx0
        return results

    class GenericExc(Exception):
        def __init__(self, g, e):
            self.g, self.e = g, e

    place = {}
    stplace = {}
    inplace = set()         # carried tensors changed in place (t += x): their storage is the carried state

    def setup_locals():
        d = dict(pre)
        for name in carried:
            if pre.get(name, UNBOUND) is UNBOUND or name in inplace:
                continue
            if name not in place:
                ph = placeholder(pre[name], name)
                if ph is None:
                    continue
                place[name] = ph
            d[name] = place[name][0]
        set_(d)
        for st, (con, _k) in stplace.items():
            st.set_content(con)

    try:
        results = run(setup_locals)
    except GenericExc as ge:
        set_(pre)
        if isinstance(ge.e, (IndexError, ValueError, RuntimeError, TypeError, AttributeError, KeyError, ZeroDivisionError, NotImplementedError, Exception)):
            raise ge.e
        raise
    hit = {st for g, (rec, post, conts) in results for st in rec.storages}
    inplace |= {name for name, (ph, key) in place.items() if getattr(ph, "st", None) in hit}
    if inplace:
        place.clear()
        results = run(setup_locals)
    mut = []
    for g, (rec, post, conts) in results:
        for st in rec.storages:
            if st not in mut:
                mut.append(st)
    if mut:
        for st in mut:
            nm = E.fresh_name("mem")
            stplace[st] = (st.mk_placeholder(nm), nm)
        place.clear()
        results = run(setup_locals)
        for g, (rec, post, conts) in results:
            for st in rec.storages:
                if st not in stplace:
                    raise Unsupported("storage mutated only on second pass")
    set_(pre)
    # ---- merge paths
    guards = [g for g, _ in results]
    if not results:
        raise Infeasible()
    rebuilds = []
    for name in exposed:
        if name in place or pre.get(name, UNBOUND) is UNBOUND:
            continue
        posts = [post.get(name, UNBOUND) for _, (rec, post, c) in results]
        if all(q is pre[name] or (isinstance(pre[name], TList) and fwd(pre[name]) is q) for q in posts):
            continue
        if isinstance(pre[name], (str, bool)) and all(type(q) is type(pre[name]) and q == pre[name] for q in posts):
            continue
        items = [rebuilt(pre[name], q) for q in posts]
        if any(x is None for x in items) or len({len(x) for x in items}) != 1:
            raise PeelNeeded(f"loop-carried {name} of type {type(pre[name]).__name__}")
        rebuilds.append((name, [merge_paths(guards, [x[t] for x in items]) for t in range(len(items[0]))]))
    # locals
    names = set()
    for _, (rec, post, conts) in results:
        names |= set(k for k, v in post.items() if v is not UNBOUND)
    merged = {}
    for name in names:
        vals = [post.get(name, UNBOUND) for _, (rec, post, c) in results]
        if any(v is UNBOUND for v in vals):
            merged[name] = Poison(f"{name} not bound on all paths")
            continue
        try:
            merged[name] = merge_paths(guards, vals)
        except Unsupported as u:
            merged[name] = Poison(str(u))
    # appends
    lists = []
    for _, (rec, post, conts) in results:
        for l, _x in rec.appends:
            if not any(l is m for m in lists):
                lists.append(l)
    app_items = []
    for l in lists:
        per = [[x for ll, x in rec.appends if ll is l] for _, (rec, post, c) in results]
        k = len(per[0])
        if any(len(p) != k for p in per):
            raise Unsupported("conditional append in a generic loop")
        app_items.append((l, [merge_paths(guards, [p[t] for p in per]) for t in range(k)]))
    # storages
    st_writes = {}
    for st in mut:
        chains = [conts.get(st, stplace[st][0]) for _, (rec, post, conts) in results]
        st_writes[st] = st.merge_chains(guards, chains, stplace[st][0])
    # ---- closed forms for carried scalars / tensors
    closed = {}      # placeholder atom/app name -> function(index poly) -> value term (at iteration index)
    finals = {}
    ictx = ctx0.extend(ge0(i), ge0(n - 1 - i))
    for name, (ph, key) in place.items():
        post = merged.get(name)
        if key[0] == "sc":
            a = key[1]
            if isinstance(post, Sc) or is_num(post):
                pt = num(post)
                f = solve_acc(a, pt, num(pre[name]), iv, ictx)
                if f is None:
                    finals[name] = Poison(f"loop-carried value {name} has no closed form")
                    closed[a] = None
                else:
                    closed[a] = f
                    finals[name] = ("sc", f, jk(kind_of(pre[name]), kind_of(post)))
            else:
                closed[a] = None
                if name in exposed:
                    raise PeelNeeded(f"loop-carried {name} changes type")
                finals[name] = Poison(f"loop-carried {name} changes type")
        else:
            r = ph._close(key, post, pre[name], iv, ictx)
            if r is None:
                closed[key[1]] = None
                finals[name] = Poison(f"loop-carried tensor {name} has no closed form")
            else:
                closed[key[1]] = r
                finals[name] = ("T", r, post)
    for st in mut:
        nm = stplace[st][1]
        r = st.close_full(nm, st_writes[st], iv, ictx)
        closed[nm] = r          # None if it is a family of writes

    def sub_acc(t):
        """Replace placeholders by their value at iteration i."""
        def rule(a):
            if a.kind == "var" and a in closed:
                f = closed[a]
                if f is None:
                    raise Unsupported(f"use of loop-carried value without closed form: {a}")
                return f(i)
            if a.kind == "app" and a.data[0] in closed:
                f = closed[a.data[0]]
                if f is None:
                    raise Unsupported(f"read of loop-carried memory without closed form")
                return f(i, tuple(rewrite(x, rule) for x in a.data[1:]))
            return None
        return rewrite(t, rule)
    if closed:
        fx = sub_acc
    else:
        fx = lambda t: t
    last = {iv: n - 1}
    out = dict(pre)
    for name in names:
        v = merged[name]
        if name in finals:
            f = finals[name]
            if isinstance(f, Poison):
                if pre.get(name, UNBOUND) is v:
                    continue
                out[name] = f
            elif f[0] == "sc":
                out[name] = mks(f[1](n), f[2])
            else:
                out[name] = f[2]._from_closed(f[1], n)
            continue
        if v is pre.get(name, UNBOUND):
            continue
        if isinstance(v, Poison):
            out[name] = v
        else:
            try:
                out[name] = map_val(v, lambda t: subst(fx(t), last))
            except Unsupported as u:
                out[name] = Poison(str(u))
    for name, items in rebuilds:
        p0 = fwd(pre[name]) if isinstance(pre[name], TList) else pre[name]
        old = p0.parts if isinstance(p0, SymList) else [TList(list(list.__iter__(p0)))]
        out[name] = SymList(list(old) + [Seg(n, iv, [map_val(x, fx) for x in items])])
    for l, items in app_items:
        items = [map_val(x, fx) for x in items]
        convert_list(l, mkseg(n, iv, items), out, get)
    for st in mut:
        st.apply_loop(stplace[st][1], st_writes[st], closed[stplace[st][1]], iv, n, fx, ctx0)
    set_(out)
    return None


def merge_paths(guards, vals):
    r = vals[-1]
    for g, v in zip(reversed(guards[:-1]), reversed(vals[:-1])):
        r = merge_val(g, v, r)
    return r


def solve_acc(a, post, pre, iv, ctx):
    """Closed form of x_{i+1} = post(x_i): function index -> value, or None."""
    post = PR.simp(ctx, post)
    lin = T.linear_in(post, a, lambda t: a in t.free)
    if lin is None:
        return None
    A, B = (PR.simp(ctx, x) for x in lin)
    if A == ONE and iv not in B.free:
        return lambda k: pre + B * k
    return lambda k: T.recurrence(A, B, pre, k, lambda t, j: subst(t, {iv: poly(j)}))


def freeze(x, stamp):
    """Copy of a list built and mutated inside a loop body (its journal is undone afterwards)."""
    if type(x) is TList and x.stamp >= stamp and fwd(x) is x:
        return TList([freeze(y, stamp) for y in list.__iter__(x)])
    if type(x) is tuple:
        return tuple(freeze(y, stamp) for y in x)
    if hasattr(x, "_freeze"):
        return x._freeze(stamp)
    return x


def convert_list(l, seg, out, get):
    """Turn list l (identity preserved by aliasing in locals/attrs) into a symbolic list."""
    rec = LOOP_REC[-1] if LOOP_REC else None
    if rec is not None and l.stamp < rec.stamp:
        rec.appends.append((l, seg))        # nested loops appending to one list
        return
    if isinstance(l, SymList):
        E.log(l._restore())
        l.parts = l.parts + [seg]
        return
    s = SymList([TList(list(list.__iter__(l))), seg])
    hit = False
    for k, v in out.items():
        if v is l:
            out[k] = s
            hit = True
    FORWARD[id(l)] = (l, s)
    E.log(lambda: FORWARD.pop(id(l), None))


FORWARD = {}


def fwd(l):
    r = FORWARD.get(id(l))
    return r[1] if r is not None and r[0] is l else l


def run_comp(it, f, cond=None):
    """List comprehension with a single generator."""
    s = as_symiter(it)
    if s is None:
        out = TList()
        for x in it:
            if cond is not None and not cond(x):
                continue
            list.append(out, f(x))
        return out
    if cond is not None:
        raise Unsupported("filtered comprehension over a symbolic range")
    n = PR.simp(E.ctx, s.length())
    if E.ctx.entails(ge0(-n)):
        return TList()
    box = {"r": UNBOUND}

    def body(iv):
        box["r"] = f(s.get(poly(iv)))

    l = TList()
    d = {"l": l}

    def get():
        return dict(d)

    def set_(x):
        d.clear()
        d.update(x)

    def body2(iv):
        d["l"].append(f(s.get(poly(iv))))
    generic_loop(n, body2, get, set_, [])
    return d["l"]
