"""Terms of the verifier's logic.

Arithmetic terms are canonical (Laurent) polynomials with rational coefficients
over hash-consed atoms; equality of canonical forms is syntactic equality modulo
ring axioms.  Machine floats are treated as mathematical reals, machine ints as
mathematical integers (stated in the trusted base of every report).
"""
from fractions import Fraction
from functools import lru_cache

_atoms = {}
_next = [0]


class Atom:
    __slots__ = ("kind", "data", "sort", "id", "free", "lev", "_h")

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def _free_of(x):
    if isinstance(x, (P, B)):
        return x.free
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= _free_of(y)
        return r
    if isinstance(x, Atom):
        return x.free
    return frozenset()


def _lev_of(x):
    if isinstance(x, (P, B, Atom)):
        return x.lev
    if isinstance(x, tuple):
        return max([_lev_of(y) for y in x], default=0)
    return 0


def mk_atom(kind, data, sort):
    key = (kind, data, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.sort = kind, data, sort
        a.id = _next[0]
        _next[0] += 1
        a._h = hash(("atom", a.id))
        if kind == "var":
            a.free = frozenset([a])
            a.lev = data[1] if len(data) > 1 else 0
        elif kind in BINDERS:
            bv, n, body = data
            a.free = (body.free - {bv}) | n.free
            a.lev = max(body.lev, n.lev, bv.lev)
        else:
            a.free = _free_of(data)
            a.lev = _lev_of(data)
        _atoms[key] = a
    return a


BINDERS = ("sum", "prod", "max", "min")


class P:
    """Canonical polynomial: tuple of (monomial, coef); monomial = tuple of (atom, exp)."""
    __slots__ = ("t", "_h", "_free", "_lev")

    def __init__(self, t):
        self.t = t
        self._h = hash(t)
        self._free = None
        self._lev = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    @property
    def free(self):
        if self._free is None:
            r = set()
            for m, _ in self.t:
                for a, _e in m:
                    r |= a.free
            self._free = frozenset(r)
        return self._free

    @property
    def lev(self):
        if self._lev is None:
            self._lev = max([a.lev for m, _ in self.t for a, _e in m], default=0)
        return self._lev

    # arithmetic
    def __add__(self, o):
        o = poly(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t:
            c2 = d.get(m, 0) + c
            if c2:
                d[m] = c2
            else:
                d.pop(m, None)
        return from_dict(d)

    __radd__ = __add__

    def __neg__(self):
        return P(tuple((m, -c) for m, c in self.t))

    def __sub__(self, o):
        return self + (-poly(o))

    def __rsub__(self, o):
        return poly(o) - self

    def __mul__(self, o):
        o = poly(o)
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = mono_mul(m1, m2)
                c = d.get(m, 0) + c1 * c2
                if c:
                    d[m] = c
                else:
                    d.pop(m, None)
        return from_dict(d)

    __rmul__ = __mul__

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return P(tuple((m, k * c) for m, k in self.t))

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const(self):
        return self.t[0][1] if self.t else Fraction(0)

    def atoms(self):
        s = set()
        for m, _ in self.t:
            for a, _e in m:
                s.add(a)
        return s

    def single_atom(self):
        if len(self.t) == 1 and self.t[0][1] == 1 and len(self.t[0][0]) == 1 and self.t[0][0][0][1] == 1:
            return self.t[0][0][0][0]
        return None

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2:
            d[a] = e2
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda z: z[0].id))


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def from_dict(d):
    if not d:
        return ZERO
    return P(tuple(sorted(d.items(), key=lambda z: _mkey(z[0]))))


ZERO = P(())


def const(c):
    c = Fraction(c)
    return P((((), c),)) if c else ZERO


ONE = const(1)


def poly(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        return const(float_to_fraction(x))
    if isinstance(x, Atom):
        return P(((((x, 1),), Fraction(1)),))
    raise TypeError(f"not arithmetic: {type(x)} {x!r}")


def float_to_fraction(x):
    """Decimal reading of a float literal: 1e-6 means 10**-6, 0.5 means 1/2."""
    if x != x or x in (float("inf"), float("-inf")):
        raise TypeError("non-finite constant")
    return Fraction(repr(x))


def of_mono(m, c=Fraction(1)):
    return P(((m, c),)) if c else ZERO


# ---- constructors ------------------------------------------------------------
_fresh = [0]


def var(name, sort="I"):
    return poly(mk_atom("var", (name,), sort))


def fresh(name, sort="I"):
    _fresh[0] += 1
    return mk_atom("var", (f"{name}!{_fresh[0]}",), sort)


def bound_var(level):
    return mk_atom("var", ("$", level), "I")


SMART = {}         # app name -> smart constructor (args) -> P or None


def app(fname, args, sort="R"):
    args = tuple(poly(a) for a in args)
    f = SMART.get(fname)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return poly(mk_atom("app", (fname,) + args, sort))




def fn(name, x):
    """Interpreted real function of one argument."""
    x = poly(x)
    if name in ("cos", "sin"):
        # whole turns: 2*pi*(integer)
        y = from_dict({m: c for m, c in x.t if not _whole_turn(m, c)})
        x = y
        for m, c in x.t:
            # quarter turns: cos(u + k*pi/2), u not constant
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].data[0] == "pi" and (2 * c).denominator == 1:
                u = x - from_dict({m: c})
                if not u.t:
                    break
                k = int(2 * c) % 4
                if name == "sin":
                    k = (k - 1) % 4         # sin(u) = cos(u - pi/2)
                return [fn("cos", u), -fn("sin", u), -fn("cos", u), fn("sin", u)][k] if u.t else None
    if name == "cos":
        if x == ZERO:
            return ONE
        if x.t and _neg_lead(x):
            return fn("cos", -x)
        a = _pi_coef(x)
        if a is not None:
            v = {Fraction(0): ONE, Fraction(1): -ONE, Fraction(1, 2): ZERO, Fraction(3, 2): ZERO}.get(a % 2)
            if v is not None:
                return v
    if name == "sin":
        if x == ZERO:
            return ZERO
        if x.t and _neg_lead(x):
            return -fn("sin", -x)
        a = _pi_coef(x)
        if a is not None:
            v = {Fraction(0): ZERO, Fraction(1): ZERO, Fraction(1, 2): ONE, Fraction(3, 2): -ONE}.get(a % 2)
            if v is not None:
                return v
    if name == "exp" and x == ZERO:
        return ONE
    if name == "tanh" and x == ZERO:
        return ZERO
    if name == "sqrt" and x.is_const():
        v = x.const()
        import math
        if v >= 0:
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return const(Fraction(a, b))
    if name == "log" and x == ONE:
        return ZERO
    return poly(mk_atom("app", ("@" + name, x), "R"))


def _whole_turn(m, c):
    if c.denominator != 1 or c.numerator % 2:
        return False
    seen = False
    for a, e in m:
        if a.kind == "app" and a.data[0] == "pi":
            if e != 1:
                return False
            seen = True
        elif a.sort != "I" or e < 0:
            return False
    return seen


def _neg_lead(x):
    return x.t[-1][1] < 0


def _pi_coef(x):
    if len(x.t) == 1:
        m, c = x.t[0]
        if m == PI.t[0][0]:
            return c
    return None


def is_int(x):
    if isinstance(x, P):
        for m, c in x.t:
            if c.denominator != 1:
                return False
            for a, e in m:
                if a.sort != "I" or e < 0:
                    return False
        return True
    return False


def floor(x):
    x = poly(x)
    ip, fp = {}, {}
    for m, c in x.t:
        if all(a.sort == "I" and e > 0 for a, e in m):
            k = c.numerator // c.denominator
            if k:
                ip[m] = Fraction(k)
            if c - k:
                fp[m] = c - k
        else:
            fp[m] = c
    r = from_dict(fp)
    base = from_dict(ip)
    if r.is_const():
        return base + const(r.const().__floor__())
    a = r.single_atom()
    return base + poly(mk_atom("floor", (r,), "I"))


def inv(x):
    x = poly(x)
    if not x.t:
        return app("div0", ())        # unspecified value of 1/0 (division carries its own obligation)
    if len(x.t) == 1:
        m, c = x.t[0]
        r = const(1 / c)
        for a, e in m:
            if a.kind == "ite":
                cnd, p, q = a.data
                f = ite(cnd, inv(p), inv(q))
                for _ in range(abs(e)):
                    r = r * f if e > 0 else r * poly(a)
            elif a.kind == "inv":
                b = a.data[0]
                for _ in range(abs(e)):
                    r = r * b if e > 0 else r * poly(a)
            else:
                r = r * of_mono(((a, -e),))
        return r
    content, prim = content_split(x)
    return inv(content) * poly(mk_atom("inv", (prim,), "R"))


def content_split(x):
    """x = content (a single monomial with coefficient) * primitive part."""
    common = None
    for m, c in x.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            nc = {}
            for a in set(common) | set(d):
                e1, e2 = common.get(a, 0), d.get(a, 0)
                e = min(e1, e2)
                if e:
                    nc[a] = e
            common = nc
    lead = x.t[0][1]
    # only divide by integers of atoms; keep the sign of the leading coefficient out
    cm = tuple(sorted(common.items(), key=lambda z: z[0].id))
    g = lead
    icm = tuple((a, -e) for a, e in cm)
    d = {}
    for m, c in x.t:
        d[mono_mul(m, icm)] = c / g
    return of_mono(cm, g), from_dict(d)


def div(a, b):
    return poly(a) * inv(b)


def mod(a, m):
    a, m = poly(a), poly(m)
    return a - m * floor(div(a, m))


def power(x, k):
    x = poly(x)
    if k == 0:
        return ONE
    if k < 0:
        return inv(power(x, -k))
    r = ONE
    for _ in range(k):
        r = r * x
    return r


def ite(c, a, b):
    a, b = poly(a), poly(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if c.kind == "not":
        return ite(c.data[0], b, a)
    sort = "I" if is_int(a) and is_int(b) else "R"
    return poly(mk_atom("ite", (c, a, b), sort))


def linear_in(t, me, uses):
    """(A, B) with t == A*me + B and neither using the carried value; None if t is not of that form."""
    A, B = {}, {}
    ra = rb = ZERO
    for m, c in t.t:
        hot = [(a, e) for a, e in m if uses(poly(a))]
        if not hot:
            B[m] = c
            continue
        if len(hot) > 1 or hot[0][1] != 1:
            return None
        a = hot[0][0]
        rest = from_dict({tuple(x for x in m if x[0] is not a): c})
        if a is me:
            ra = ra + rest
            continue
        if a.kind != "ite" or uses_bool(a.data[0], uses):
            return None
        p, q = linear_in(a.data[1], me, uses), linear_in(a.data[2], me, uses)
        if p is None or q is None:
            return None
        ra = ra + rest * ite(a.data[0], p[0], q[0])
        rb = rb + rest * ite(a.data[0], p[1], q[1])
    return ra, rb + from_dict(B)


def uses_bool(c, uses):
    return uses(ite(c, ONE, ZERO)) if c is not TRUE and c is not FALSE else False


def recurrence(A, B, pre, k, at, same=lambda x, y: x == y):
    """Value after k steps of x -> A_i x + B_i; at(term, j) gives a term at step j."""
    k = poly(k)
    if A == ONE:
        v = fresh("s")
        if pre.t and same(at(B, -ONE), pre):        # a first iteration that was run separately
            return binder("sum", v, k + 1, at(B, poly(v) - 1))
        return pre + binder("sum", v, k, at(B, poly(v)))
    if not B.t:
        v = fresh("s")
        if not pre.is_const() and same(at(A, -ONE), pre):
            return binder("prod", v, k + 1, at(A, poly(v) - 1))
        return pre * binder("prod", v, k, at(A, poly(v)))
    if not A.t:
        return ite(ge0(k - 1), at(B, k - 1), pre)
    v, u, w = fresh("s"), fresh("s"), fresh("s")
    head = binder("prod", v, k, at(A, poly(v)))
    tail = binder("prod", w, k - 1 - poly(u), at(A, poly(u) + 1 + poly(w)))
    return pre * head + binder("sum", u, k, at(B, poly(u)) * tail)


def dim(x):
    """Opaque integer atom for a compound positive dimension; content stays outside."""
    x = poly(x)
    if len(x.t) <= 1:
        return x
    content, prim = content_split(x)
    # keep integrality: rescale so prim has integer coefficients
    from math import lcm
    l = 1
    for _, c in prim.t:
        l = lcm(l, c.denominator)
    if l != 1:
        prim = prim.scale(l)
        content = content.scale(Fraction(1, l))
    if content.t[0][1] < 0:
        content, prim = -content, -prim
    if content.t[0][1].denominator != 1 or any(e < 0 for _, e in content.t[0][0]):
        return poly(mk_atom("dim", (x,), "I"))
    return content * poly(mk_atom("dim", (prim,), "I"))


def expand_dims(x):
    return rewrite(x, lambda a: expand_dims(a.data[0]) if a.kind == "dim" else None)


def binder(kind, v, n, body):
    """kind over v in [0,n) of body, v a var Atom."""
    n, body = poly(n), poly(body)
    if n.is_const():
        k = int(n.const())
        if kind == "sum" and k <= 0:
            return ZERO
        if kind == "prod" and k <= 0:
            return ONE
        if k == 1:
            return subst(body, {v: ZERO})
        if k <= 6 and kind in ("sum", "prod"):
            r = ZERO if kind == "sum" else ONE
            for i in range(k):
                t = subst(body, {v: const(i)})
                r = r + t if kind == "sum" else r * t
            return r
    if kind == "sum":
        r = ZERO
        for m, c in body.t:
            inn = tuple((a, e) for a, e in m if v in a.free)
            out = tuple((a, e) for a, e in m if v not in a.free)
            if not inn:
                r = r + of_mono(out, c) * n
            else:
                r = r + of_mono(out, c) * _bind("sum", v, n, of_mono(inn))
        return r
    if kind in ("max", "min"):
        if v not in body.free:
            return body
    if kind == "prod":
        if body == ONE:
            return ONE
    return _bind(kind, v, n, body)


def _bind(kind, v, n, body):
    b = bound_var(body.lev + 1)
    body2 = subst(body, {v: poly(b)})
    sort = "I" if is_int(body) else "R"
    return poly(mk_atom(kind, (b, n, body2), sort))


def open_binder(a, name="k"):
    """Fresh variable and body of a binder atom."""
    bv, n, body = a.data
    v = fresh(name)
    return v, n, subst(body, {bv: poly(v)})


def Sum(n, f, name="s"):
    v = fresh(name)
    return binder("sum", v, n, f(poly(v)))


def Prod(n, f, name="p"):
    v = fresh(name)
    return binder("prod", v, n, f(poly(v)))


# ---- booleans ---------------------------------------------------------------
_bools = {}


class B:
    __slots__ = ("kind", "data", "free", "lev", "id")

    def __repr__(self):
        return show_b(self)


def mk_b(kind, data):
    key = (kind, data)
    b = _bools.get(key)
    if b is None:
        b = B()
        b.kind, b.data = kind, data
        b.free = _free_of(data)
        b.lev = _lev_of(data)
        b.id = len(_bools)
        _bools[key] = b
    return b


PI = poly(mk_atom("app", ("pi",), "R"))
TRUE = mk_b("true", ())
FALSE = mk_b("false", ())


def bconst(x):
    return TRUE if x else FALSE


def ge0(p):
    p = poly(p)
    if p.is_const():
        return bconst(p.const() >= 0)
    return mk_b("ge", (_norm_ineq(p),))


def gt0(p):
    p = poly(p)
    if p.is_const():
        return bconst(p.const() > 0)
    if is_int(p):
        return ge0(p - 1)
    return mk_b("gt", (_norm_ineq(p),))


def _norm_ineq(p):
    # scale so that leading coefficient is +-1 (keep integrality when int)
    if is_int(p):
        from math import gcd
        g = 0
        k = 0
        for m, c in p.t:
            if m == ():
                k = c
            else:
                g = gcd(g, c.numerator)
        if g > 1:
            rest = from_dict({m: c / g for m, c in p.t if m != ()})
            return rest + const((Fraction(k) / g).__floor__())
        return p
    lead = abs(p.t[-1][1])
    return p.scale(1 / lead)


def eq0(p):
    p = poly(p)
    if p.is_const():
        return bconst(p.const() == 0)
    lead = p.t[-1][1]
    if is_int(p):
        from math import gcd
        g = 0
        for m, c in p.t:
            if m != ():
                g = gcd(g, c.numerator)
        k = dict(p.t).get((), Fraction(0))
        if g > 1:
            if k % g != 0:
                return FALSE
            p = p.scale(Fraction(1, g))
        if lead < 0:
            p = -p
        return mk_b("eq", (p,))
    return mk_b("eq", (p.scale(1 / lead),))


def le(a, b):
    return ge0(poly(b) - poly(a))


def lt(a, b):
    return gt0(poly(b) - poly(a))


def eq(a, b):
    return eq0(poly(a) - poly(b))


def bnot(b):
    k = b.kind
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "not":
        return b.data[0]
    if k == "ge":
        return gt0(-b.data[0])
    if k == "gt":
        return ge0(-b.data[0])
    if k == "and":
        return bor(*[bnot(x) for x in b.data])
    if k == "or":
        return band(*[bnot(x) for x in b.data])
    return mk_b("not", (b,))


def band(*bs):
    s = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        for x in (b.data if b.kind == "and" else (b,)):
            if x not in s:
                s.append(x)
    for x in s:
        if bnot(x) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk_b("and", tuple(sorted(s, key=lambda z: z.id)))


def bor(*bs):
    s = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        for x in (b.data if b.kind == "or" else (b,)):
            if x not in s:
                s.append(x)
    for x in s:
        if x.kind not in ("and",) and bnot(x) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk_b("or", tuple(sorted(s, key=lambda z: z.id)))


def bapp(name, args):
    return mk_b("bapp", (name,) + tuple(poly(a) for a in args))


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def b_eq(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


# ---- traversal -----------------------------------------------------------------
def map_children(a, fp, fb):
    """Rebuild atom a (not var) with mapped children; returns P."""
    k = a.kind
    if k == "var":
        return poly(a)
    if k == "app":
        name = a.data[0]
        args = tuple(fp(x) for x in a.data[1:])
        if args == a.data[1:]:
            return poly(a)
        if name.startswith("@") and len(args) == 1:
            return fn(name[1:], args[0])
        return app(name, args, a.sort)
    if k == "ite":
        c, p, q = a.data
        c2 = fb(c)
        if c2 is TRUE:
            return fp(p)
        if c2 is FALSE:
            return fp(q)
        p2, q2 = fp(p), fp(q)
        if c2 is c and p2 == p and q2 == q:
            return poly(a)
        return ite(c2, p2, q2)
    if k == "floor":
        x = fp(a.data[0])
        return poly(a) if x == a.data[0] else floor(x)
    if k == "inv":
        x = fp(a.data[0])
        return poly(a) if x == a.data[0] else inv(x)
    if k == "dim":
        x = fp(a.data[0])
        return poly(a) if x == a.data[0] else dim(x)
    if k in BINDERS:
        bv, n, body = a.data
        n2 = fp(n)
        # open with a fresh variable: no capture
        v = fresh("b")
        body2 = fp(subst_raw(body, {bv: poly(v)}))
        return binder(k, v, n2, body2)
    raise ValueError(k)


def map_b(b, fp, fb):
    k = b.kind
    if k in ("true", "false"):
        return b
    if k == "ge":
        x = fp(b.data[0])
        return b if x == b.data[0] else ge0(x)
    if k == "gt":
        x = fp(b.data[0])
        return b if x == b.data[0] else gt0(x)
    if k == "eq":
        x = fp(b.data[0])
        return b if x == b.data[0] else eq0(x)
    if k == "and":
        return band(*[fb(x) for x in b.data])
    if k == "or":
        return bor(*[fb(x) for x in b.data])
    if k == "not":
        return bnot(fb(b.data[0]))
    if k == "bapp":
        return bapp(b.data[0], [fp(x) for x in b.data[1:]])
    raise ValueError(k)


def map_poly(p, fa):
    """Replace each atom a by fa(a): P, keeping the polynomial structure."""
    changed = False
    parts = []
    for m, c in p.t:
        r = const(c)
        keep = []
        for a, e in m:
            x = fa(a)
            if x is None or (len(x.t) == 1 and x.t[0] == (((a, 1),), 1)):
                keep.append((a, e))
            else:
                changed = True
                r = r * (power(x, e) if e > 0 else power(inv(x), -e))
        if keep:
            r = r * of_mono(tuple(keep))
        parts.append(r)
    if not changed:
        return p
    d = {}
    for r in parts:
        for m, c in r.t:
            c2 = d.get(m, 0) + c
            if c2:
                d[m] = c2
            else:
                d.pop(m, None)
    return from_dict(d)


def subst(x, s):
    """Capture-avoiding substitution {var Atom: P}."""
    if not s:
        return x
    if isinstance(x, (P, B)) and not (x.free & s.keys()):
        return x
    return subst_raw(x, s)


def subst_raw(x, s):
    memo = {}
    keys = frozenset(s)

    def fa(a):
        if not (a.free & keys):
            return None
        r = memo.get(a)
        if r is None:
            if a.kind == "var":
                r = s.get(a, None)
                if r is None:
                    r = poly(a)
            elif a.kind in BINDERS:
                bv, n, body = a.data
                v = fresh("b")
                s2 = dict(s)
                s2[bv] = poly(v)
                r = binder(a.kind, v, fp(n), subst_raw(body, s2))
            else:
                r = map_children(a, fp, fb)
            memo[a] = r
        return r

    def fp(p):
        if not (p.free & keys):
            return p
        return map_poly(p, fa)

    def fb(b):
        if not (b.free & keys):
            return b
        return map_b(b, fp, fb)

    return fp(x) if isinstance(x, P) else fb(x)


def rewrite(x, rule):
    """Bottom-up-ish rewrite: rule(atom) -> P or None is tried first, then children."""
    memo = {}

    def fa(a):
        r = memo.get(a)
        if r is None:
            r = rule(a)
            if r is None:
                r = map_children(a, fp, fb) if a.kind != "var" else poly(a)
            memo[a] = r
        return r

    def fp(p):
        return map_poly(p, fa)

    def fb(b):
        return map_b(b, fp, fb)

    return fp(x) if isinstance(x, P) else fb(x)


def all_atoms(x, into_binders=True, acc=None):
    """All atoms occurring anywhere (including nested)."""
    acc = set() if acc is None else acc

    def go_p(p):
        for m, _ in p.t:
            for a, _e in m:
                go_a(a)

    def go_b(b):
        for y in b.data:
            if isinstance(y, P):
                go_p(y)
            elif isinstance(y, B):
                go_b(y)

    def go_a(a):
        if a in acc:
            return
        acc.add(a)
        if a.kind in BINDERS and not into_binders:
            go_p(a.data[1])
            return
        if a.kind == "dim":
            go_p(a.data[0])
            return
        for y in a.data:
            if isinstance(y, P):
                go_p(y)
            elif isinstance(y, B):
                go_b(y)
            elif isinstance(y, Atom):
                pass

    if isinstance(x, P):
        go_p(x)
    elif isinstance(x, B):
        go_b(x)
    return acc


# ---- printing ------------------------------------------------------------------
def show_atom(a):
    k = a.kind
    if k == "var":
        return a.data[0] + (str(a.data[1]) if len(a.data) > 1 else "")
    if k == "app":
        if len(a.data) == 1:
            return a.data[0]
        return a.data[0].lstrip("@") + "(" + ", ".join(show(x) for x in a.data[1:]) + ")"
    if k == "ite":
        return f"if({show_b(a.data[0])}, {show(a.data[1])}, {show(a.data[2])})"
    if k in ("floor", "inv"):
        return f"{k}({show(a.data[0])})"
    if k == "dim":
        return f"<{show(a.data[0])}>"
    if k in BINDERS:
        return f"{k}[{show_atom(a.data[0])}<{show(a.data[1])}]({show(a.data[2])})"
    return f"?{k}"


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        fs = [show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m]
        s = "*".join(fs)
        if not fs:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*{s}"
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def show_b(b):
    k = b.kind
    if k in ("true", "false"):
        return k
    if k == "ge":
        return f"{show(b.data[0])} >= 0"
    if k == "gt":
        return f"{show(b.data[0])} > 0"
    if k == "eq":
        return f"{show(b.data[0])} == 0"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(show_b(x) for x in b.data) + ")"
    if k == "not":
        return f"not({show_b(b.data[0])})"
    if k == "bapp":
        return b.data[0] + "(" + ", ".join(show(x) for x in b.data[1:]) + ")"
    return k
